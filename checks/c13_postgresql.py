"""C13: PostgreSQL tables."""
from recap.clients.postgresql import PostgresqlClient
from recap.converters.postgresql import PostgresqlConverter
from rv import sqlcheck

PID, LEVEL = "C13", "exploration"
TECHNIQUE = "runtime monitoring: stand-in server executing the real catalog queries, reference-model oracle per column"
RULE = ("seeded random catalogs (several databases, schemas and tables with near-identical names, shuffled catalog rows, every supported column type with boundary lengths, precisions and "
        "dimensions, enums with shuffled sort orders, odd column names, unsupported types) held in an in-memory SQL engine that executes the client's own queries; the struct read is compared "
        "with the declared columns and round-tripped through a definition; non-trivial = distinct table")
ASSUMPTIONS = ["the SQL engine (DuckDB) evaluates the catalog query as PostgreSQL would", "the contents of the catalog views are generated from PostgreSQL's documentation",
               "without dimension enforcement an array is a list whose elements are values or lists of the same kind"]


def options(g):
    enforce = g.coin(0.4)
    conv = {} if not enforce and g.coin() else {"converter": PostgresqlConverter(enforce_array_dimensions=enforce, **({"namespace": "my.ns"} if g.coin(0.3) else {}))}
    return {"enforce": enforce, "bad": 0.03}, conv


def run(ck):
    sqlcheck.run(ck, "postgresql", PostgresqlClient, 800, 9000, lambda c, d, s, t: c.schema(d, s, t), options)
