"""C15: Snowflake tables."""
from recap.clients.snowflake import SnowflakeClient
from rv import sqlcheck

PID, LEVEL = "C15", "exploration"
TECHNIQUE = "runtime monitoring: stand-in server executing the real catalog queries, reference-model oracle per column"
RULE = ("seeded random catalogs (several databases, schemas and tables with near-identical names, shuffled catalog rows, every supported column type with its precision and length, "
        "unsupported types) held in an in-memory SQL engine that executes the client's own queries; the struct read is compared with the declared columns and round-tripped through a "
        "definition; non-trivial = distinct table")
ASSUMPTIONS = ["the SQL engine (DuckDB) evaluates the catalog query as Snowflake would", "the contents of the catalog views are generated from Snowflake's documentation",
               "times are 32-bit integers of the column's unit"]


def run(ck):
    sqlcheck.run(ck, "snowflake", SnowflakeClient, 1200, 10000, lambda c, d, s, t: c.schema(d, s, t))
