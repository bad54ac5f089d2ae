"""C14: MySQL tables."""
from recap.clients.mysql import MysqlClient
from rv import sqlcheck

PID, LEVEL = "C14", "exploration"
TECHNIQUE = "runtime monitoring: stand-in server executing the real catalog queries, reference-model oracle per column"
RULE = ("seeded random catalogs (several schemas and tables with near-identical names, shuffled catalog rows, every supported column type with its attributes, unsupported types) held in an "
        "in-memory SQL engine that executes the client's own queries; the struct read is compared with the declared columns and round-tripped through a definition; non-trivial = distinct table")
ASSUMPTIONS = ["the SQL engine (DuckDB) evaluates the catalog query as MySQL would, names compared exactly", "the contents of the catalog views are generated from MySQL's documentation",
               "bit columns of any length are 8 bytes"]


def run(ck):
    sqlcheck.run(ck, "mysql", MysqlClient, 1500, 14000, lambda c, d, s, t: c.schema(s, t), lambda g: ({"nschema": 4, "ntable": 4}, {}))
