"""Linearizability of a history against a sequential model (Wing & Gong, with memoisation)."""
from __future__ import annotations


def linearizable(ops, init, step):
    """ops: [(invoked, returned, op, result)]; step(state, op) -> (new state, set of/callable on results).
    Returns a linearization as a list of indices, or None."""
    n = len(ops)
    full = (1 << n) - 1
    seen = set()
    order = []

    def search(done, state):
        if done == full:
            return True
        if (done, state) in seen:
            return False
        seen.add((done, state))
        # minimal operations: those invoked before every pending one returned
        first_return = min(ops[i][1] for i in range(n) if not done >> i & 1)
        for i in range(n):
            if done >> i & 1 or ops[i][0] > first_return:
                continue
            new, allowed = step(state, ops[i][2])
            if not allowed(ops[i][3]):
                continue
            order.append(i)
            if search(done | 1 << i, new):
                return True
            order.pop()
        return False

    return list(order) if search(0, init) else None
