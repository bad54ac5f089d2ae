"""Writes /verif/properties.jsonl.  Edit the statements here, then run this."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))

p("C01", "Serialising a type and reading it back gives an equivalent type",
  "For every Recap type, writing it as a definition (with or without cleaning, with or without alias substitution), passing that through JSON and reading it back yields a type with the same structure: same kinds, sizes, signedness, lengths, symbols, field order, names, nullability, defaults, docs, logical types, aliases and extra attributes. "
  "Cleaning a definition never changes what it means, and the cleaned form is itself readable. Without cleaning, every type at every depth is written in full. "
  "Only the position of null among an optional union's members and whether the doc of an optional type sits on the union or on its single member may differ.",
  ["inputs"], "all Recap types: any nesting of structs, lists, maps, unions, enums, fixed/variable strings and bytes, named aliases, references, docs, defaults and extra attributes, and all four option combinations",
  "tests/unit/test_types.py samples a few dozen hand-written definitions, mostly one level deep; interactions (alias x nesting x default x optional) are unbounded.",
  ["recap/types.py"], [("to_dict/clean_dict/alias_dict","recap/types.py"),("from_dict","recap/types.py")],
  ["value returned by to_dict, clean_dict, from_dict"])

p("C02", "Definitions are accepted exactly when well formed, shorthand means the same",
  "A Recap definition is accepted exactly when it is well formed: required attributes present, bit widths 1..2^31-1, byte and list lengths 1..2^63-1, fixed length only with a length, aliases fully qualified, unused and not a built-in, and a reference carrying no alias of its own; anything else is refused at any nesting depth. "
  "An accepted definition yields exactly the declared type, with the documented defaults (signed integers, variable length) and all other attributes kept. "
  "Shorthand forms (a bare name, a list as a union, a list as 'type', 'optional': true) mean the same as their long forms.",
  ["inputs"], "all JSON definitions, well formed or not, with the defect at any depth, and all boundary values of the numeric attributes",
  "the spec examples and unit tests exercise single defects at the top level and a handful of boundary values.",
  ["recap/types.py"], [("from_dict","recap/types.py"),("RecapType.validate and subclasses","recap/types.py"),("RecapTypeRegistry.register_alias","recap/types.py")],
  ["result or exception of from_dict"])

p("C03", "References resolve to their definition, and never leak between registries",
  "A reference resolves to a type equal to its alias's definition without the definition's doc, default and alias, with the reference's own attributes (other than doc and logical type) on top; references to later, enclosing and own definitions in the same document resolve too, and unknown names are refused on resolution. "
  "Resolving or modifying a resolved type never changes the definition, other references or the built-in aliases, and names defined in one registry or document are never visible in another. "
  "Built-in names always resolve to their documented types and cannot be redefined.",
  ["inputs","histories"], "all documents with aliases and references (forward, nested, recursive, with overrides), and all sequences of parse, register, resolve and modify operations over several registries",
  "tests resolve one alias at a time in a fresh registry; sharing and aliasing bugs need multi-step histories.",
  ["recap/types.py"], [("ProxyType.resolve","recap/types.py"),("RecapTypeRegistry","recap/types.py"),("BUILTIN_ALIASES","recap/types.py")],
  ["ProxyType.resolve(), RecapTypeRegistry.from_alias()"])

p("C04", "Reading, writing and converting schemas has no side effects",
  "No library call that parses, serialises, cleans, compares or converts a schema modifies its arguments, and a fresh converter given the same input returns the same result, no matter which other schemas were processed before, which calls failed before, or in which order. "
  "Nothing an earlier call returned is changed by a later call, and nothing a caller does to an earlier result changes a later one.",
  ["inputs","histories"], "all sequences of library calls over all inputs, including calls that raise",
  "each test runs a call once on a fresh input and looks only at the result.",
  ["recap/types.py","recap/converters/avro.py","recap/converters/json_schema.py","recap/converters/protobuf.py","recap/converters/hive_metastore.py","recap/converters/bigquery.py"],
  [("copies before popping attributes","recap/types.py, recap/converters/*.py"),("per-converter registries","recap/converters/*.py")],
  ["arguments before/after every public call; results of repeated calls"])

p("C05", "Making a type nullable adds exactly null",
  "Making any type nullable yields a type that accepts null plus exactly what the original accepted: the original's doc, default and field name move to the union, every other attribute stays with the original, and a type that already accepts null is not given a second null. "
  "The original is left unchanged, applying it twice is the same as once, and a type reports itself nullable exactly when it is null or a union with a null member.",
  ["inputs"], "all types, including unions with null in any position, null with attributes, and references",
  "tests cover a few types; attribute combinations are unbounded.",
  ["recap/types.py"], [("RecapType.make_nullable/is_nullable","recap/types.py")], ["make_nullable(), is_nullable()"])

p("C06", "Reading an Avro schema yields the Recap type of the same data",
  "Every valid Avro schema (primitives, logical types, records, enums, arrays, maps, fixed, unions, named-type references including recursive and namespaced ones) reads as the Recap type describing the same values: integer and float widths, maximum-length strings and bytes, fixed lengths, symbols, field order and names, docs, defaults, decimal precision and scale, and time units. "
  "Names resolve by Avro's namespace rules, so a reference always denotes the type Avro says it does. "
  "Invalid or unsupported schemas are refused rather than misread.",
  ["inputs"], "all Avro schemas with any nesting, namespaces, references and logical types",
  "tests have one example per construct and few nested combinations.",
  ["recap/converters/avro.py"], [("AvroConverter.to_recap","recap/converters/avro.py")], ["AvroConverter().to_recap result"])

p("C07", "Writing a Recap type to Avro yields a valid schema of the same data",
  "For every struct, writing to Avro is either refused or yields a schema with the same field order, names, docs, defaults, nullability, union members, symbols, item and value types, aliases and references. "
  "Signed integers up to 32 bits become int, other integers that fit a signed 64-bit long become long, wider ones become decimals, floats the narrowest of float and double that fits, fixed-length bytes a fixed of that size, and logical types the Avro logical type of the same precision, scale and unit; a width, unit or map key Avro cannot hold is refused, never narrowed. "
  "References that change what they refer to (other widths, lengths, units or symbols) are written as the changed type. Reading the written schema back gives a type that accepts everything the original did.",
  ["inputs"], "all Recap structs, with every integer width and signedness, length, logical unit and nesting",
  "tests check about one case per logical type and a few widths.",
  ["recap/converters/avro.py"], [("AvroConverter.from_recap","recap/converters/avro.py")], ["AvroConverter().from_recap result"])

p("C08", "Reading a JSON Schema yields the Recap type of the same data",
  "Every JSON Schema built from objects with properties, arrays with items, primitive types, lists of primitive types, string formats (byte, bytes, date, time, date-time) and references to schemas by their $id or the URL they are retrieved from (enclosing, recursive, earlier or retrievable; named by the given alias strategy) reads as the Recap type of the same instances, with property order and names, descriptions and defaults kept. "
  "A property reads as nullable with a default exactly when it is not required, and otherwise exactly as its own type. "
  "A schema of any other shape (unknown type, object without properties, array without items, unresolvable reference) is refused, at any depth.",
  ["inputs"], "all JSON Schemas built from the supported vocabulary at any depth",
  "tests have one example per keyword.",
  ["recap/converters/json_schema.py"], [("JSONSchemaConverter.to_recap","recap/converters/json_schema.py")], ["JSONSchemaConverter().to_recap result"])

p("C09", "Writing a JSON Schema accepts exactly the data of the Recap type",
  "For every struct, the JSON Schema written for it is a valid draft 2020-12 schema whose references all resolve, and it accepts an instance exactly when the instance fits the Recap type's JSON kinds: objects, arrays, map values, enum symbols, booleans, integers, numbers and strings at every depth, with null accepted exactly for nullable list and map values, union members and required properties. "
  "A property is required exactly when it is not optional (nullable with a default); an optional property is left out to stand for null. "
  "Property order and names, descriptions and defaults are carried over, recursive and shared types are defined once, and fields without a name and references to undefined names are refused.",
  ["inputs"], "all Recap structs and, for each, conforming and minimally non-conforming instances",
  "tests compare a few outputs literally and never validate instances.",
  ["recap/converters/json_schema.py"], [("JSONSchemaConverter.from_recap","recap/converters/json_schema.py")], ["JSONSchemaConverter().from_recap result, validated with jsonschema"])

p("C10", "Reading a Protobuf schema yields the Recap type of its first message",
  "Every proto file built from messages, enums, fields of any cardinality, maps and oneofs reads as the struct of its first top-level message: each field in order with its name and the Recap type of its Protobuf type (width and signedness of every integer kind, 32/64-bit floats, bool, 2^31-byte strings and bytes, Timestamp, Duration and NullValue, enums with symbols in declared order), repeated fields as lists, maps with both types and oneofs as unions, all nullable with default null unless required. "
  "A reference denotes the message or enum of that name in the file, including later, enclosing, recursive, package-qualified and leading-dot ones, each type is defined once, and names not in the file, disallowed map keys, duplicate names and files without a message are refused.",
  ["inputs"], "all proto files built from the supported constructs, in any declaration order and nesting, with and without a package",
  "tests use about twenty fixed files.",
  ["recap/converters/protobuf.py"], [("ProtobufConverter.to_recap","recap/converters/protobuf.py")], ["ProtobufConverter().to_recap result"])

p("C11", "Writing a Recap type to Protobuf yields a valid file of the same data",
  "For every struct with named fields, writing to Protobuf yields a parsable file in which, per message, field numbers and names are unique, every referenced message or enum is defined exactly once under its own name, enum symbols are numbered from zero in order, and the struct's own message is what reading the file returns. "
  "Each field keeps its name, order and kind: integers up to 32 or 64 bits become (u)int32 or (u)int64, floats float or double, lists repeated fields, maps maps, nullable types optional fields, unions oneofs, and references to named scalars the type they name. "
  "Types with no Protobuf equivalent (numbers over 64 bits, text or bytes not bounded by 2^31, nested lists, other map keys, collections in unions, unions of nothing but null, unnamed structs or enums, types of several packages, references that aren't declared or change the declared fields or symbols) are refused, never altered.",
  ["inputs"], "all Recap structs with any nesting, names, shared and recursive types",
  "tests check about a dozen outputs literally.",
  ["recap/converters/protobuf.py"], [("ProtobufConverter.from_recap","recap/converters/protobuf.py")], ["ProtobufConverter().from_recap result, reparsed"])

p("C13", "PostgreSQL tables are read column by column without loss",
  "A PostgreSQL table reads as a struct with one field per column in ordinal order, carrying the column's name, default and nullability, and the Recap type of exactly the column's values: integer and float width, character length in bytes, bit strings, numeric precision and scale (0 included), timestamp unit, arrays as lists with nullable elements (nestable to any depth by default, exactly the declared dimensions when dimensions are enforced), enums with symbols in declared order, and the rest of the supported types. "
  "Columns of other tables, schemas or databases never appear, and unsupported types are refused.",
  ["inputs"], "all catalog contents: any column name, type, precision, dimension and order, any neighbouring schema or table",
  "the unit test converts single fake rows; the real queries only run in integration tests that need a server.",
  ["recap/converters/postgresql.py","recap/clients/postgresql.py","recap/clients/dbapi.py","recap/converters/dbapi.py"],
  [("PostgresqlConverter","recap/converters/postgresql.py"),("PostgresqlClient.schema","recap/clients/postgresql.py")], ["PostgresqlConverter().to_recap, PostgresqlClient(conn).schema"])

p("C14", "MySQL tables are read column by column without loss",
  "A MySQL table reads as a struct with one field per column in ordinal order, carrying the column's name, default and nullability, and the Recap type of exactly the column's values: width and signedness of every integer type, float width, maximum byte length of every text and binary type, bit columns as 8 bytes, decimal precision and scale, and time units from fractional-seconds precision. "
  "Columns of other tables or schemas never appear, and unsupported types are refused.",
  ["inputs"], "all catalog contents: any column name, type, precision, signedness and order, any neighbouring schema or table",
  "the unit test converts single fake rows; the query only runs in integration tests that need a server.",
  ["recap/converters/mysql.py","recap/clients/mysql.py","recap/clients/dbapi.py","recap/converters/dbapi.py"],
  [("MysqlConverter","recap/converters/mysql.py"),("DbapiClient.schema","recap/clients/dbapi.py")], ["MysqlConverter().to_recap, MysqlClient(conn).schema"])

p("C15", "Snowflake tables are read column by column without loss",
  "A Snowflake table reads as a struct with one field per column in ordinal order, carrying the column's name, default and nullability, and the Recap type of exactly the column's values: float, boolean, string and binary byte lengths, fixed-point numbers with their precision and scale, dates, times and timestamps with the unit of their precision. "
  "Columns of other tables, schemas or databases never appear, and unsupported types are refused.",
  ["inputs"], "all catalog contents: any column name, type, precision and order, any neighbouring schema or table",
  "the unit test reads one table from an emulator.",
  ["recap/converters/snowflake.py","recap/clients/snowflake.py","recap/clients/dbapi.py","recap/converters/dbapi.py"],
  [("SnowflakeConverter","recap/converters/snowflake.py"),("DbapiClient.schema","recap/clients/dbapi.py")], ["SnowflakeConverter().to_recap, SnowflakeClient(conn).schema"])

p("C16", "SQLite tables are read column by column without loss",
  "Any SQLite table reads as a struct with one field per column in declared order, carrying the column's name, default and nullability, and a Recap type derived from the declared type by SQLite's own affinity rules, with declared lengths and float widths kept and a numeric column open to every value SQLite may store in it. "
  "This holds for every table and column name SQLite accepts, and reading a table never changes the database.",
  ["inputs"], "all tables SQLite accepts: any names, declared types, constraints and defaults",
  "tests create a few tables with simple names and types.",
  ["recap/converters/sqlite.py","recap/clients/sqlite.py"],
  [("SQLiteConverter","recap/converters/sqlite.py"),("SQLiteClient.schema","recap/clients/sqlite.py")], ["SQLiteClient(real connection).schema compared with sqlite's PRAGMA and observed affinities"])

p("C17", "BigQuery tables are read field by field without loss",
  "A BigQuery table reads as a struct with one field per column in order, at every nesting depth, carrying name, description, default and mode (nullable as a null union, required as plain, repeated as a list), and the Recap type of the field type with its declared length, precision and scale, or the type's maximum length or precision where none is declared. "
  "Unsupported field types are refused.",
  ["inputs"], "all BigQuery schemas: any nesting of records, modes, lengths, precisions and scales",
  "tests convert one field per type.",
  ["recap/converters/bigquery.py","recap/clients/bigquery.py"], [("BigQueryConverter","recap/converters/bigquery.py")], ["BigQueryConverter().to_recap, BigQueryClient(fake).schema"])

p("C18", "Hive tables are read column by column without loss",
  "A Hive table reads as a struct with one nullable field per column in order, carrying name and comment, and the Recap type of the Hive type at every nesting depth: primitive widths, char/varchar lengths, decimal precision and scale, lists, maps, structs and unions with their distinct members in order. "
  "When statistics are requested each column's field carries exactly its own statistics, and no other field does.",
  ["inputs"], "all Hive tables: any nesting of types, lengths, precisions and statistics",
  "tests convert one example per type.",
  ["recap/converters/hive_metastore.py","recap/clients/hive_metastore.py"], [("HiveMetastoreConverter","recap/converters/hive_metastore.py"),("HiveMetastoreClient.schema","recap/clients/hive_metastore.py")], ["HiveMetastoreConverter().to_recap, HiveMetastoreClient(fake).schema"])

p("C19", "Listings show exactly the children of a URL's level",
  "Listing any level of any supported system returns exactly the names that exist at that level under the given parents (databases, schemas, tables, files, subjects, datasets), each once, and nothing of a sibling parent, whatever the names look like. "
  "Every listed child whose name has no URL delimiters can be appended to the URL to list or read the next level, and a level below the leaves is refused (a Hive table lists itself).",
  ["inputs","configurations"], "all catalogs, including names that differ only in case, prefix, wildcard characters, quotes or parent",
  "unit tests list one object per level; isolation between siblings is never probed.",
  ["recap/clients/dbapi.py","recap/clients/postgresql.py","recap/clients/mysql.py","recap/clients/snowflake.py","recap/clients/sqlite.py","recap/clients/bigquery.py","recap/clients/hive_metastore.py","recap/clients/fs.py","recap/clients/confluent_registry.py"],
  [("Client.ls of every client","recap/clients/*.py"),("parse_url","recap/clients/__init__.py")], ["Client.ls results over real SQL engines, files and loopback servers"])

p("C20", "A URL always connects to the system it names",
  "For every URL, the driver is opened with exactly the URL's host, port, user, password (percent-decoded), database and remaining query options, the path elements become the catalog, schema and table in the documented order, and no query parameter can replace the host, port, user, password or database the URL gives. "
  "Unsupported schemes are refused before any connection is opened, and paths of the wrong depth are refused and never served as another level.",
  ["inputs"], "all URLs: any scheme, credentials with reserved characters, IPv6 hosts, ports, path depths and query parameters",
  "tests use a handful of plain URLs.",
  ["recap/clients/__init__.py","recap/clients/dbapi.py","recap/clients/postgresql.py","recap/clients/mysql.py","recap/clients/snowflake.py","recap/clients/sqlite.py","recap/clients/bigquery.py","recap/clients/hive_metastore.py","recap/clients/fs.py","recap/clients/confluent_registry.py"],
  [("parse_url, create_client","recap/clients/__init__.py"),("Client.parse/create","recap/clients/*.py")], ["arguments the database driver receives"])

p("C21", "Connections are closed on every path",
  "Every connection a command opens is closed by the time the command returns or raises, whatever step fails: a query, fetching rows, converting a type, or writing the output, and whether or not something still refers to what opened it. "
  "No connection is closed before its last use, and none is shared between commands.",
  ["fault_sequences","histories"], "all commands on all client kinds with a fault at every step, and sequences of them",
  "tests never inject faults and never look at the connection afterwards.",
  ["recap/clients/__init__.py","recap/clients/dbapi.py","recap/clients/postgresql.py","recap/clients/sqlite.py","recap/clients/bigquery.py","recap/clients/hive_metastore.py","recap/commands.py"],
  [("context managers of Client.create","recap/clients/*.py"),("create_client","recap/clients/__init__.py")], ["open/close events of instrumented drivers"])

p("C22", "Stored schemas are read in the format they declare",
  "A schema file is read as Avro, Protobuf or JSON Schema according to its file extension, and a schema registry subject according to the schema type the registry reports, always the latest registered version of exactly the subject asked for. "
  "The result equals reading the same text with that format's reader, whatever the client has read before; unknown formats are refused.",
  ["inputs","configurations"], "all file names, subjects and schema texts, with and without key/value suffixes, versions and neighbours",
  "tests read one file per format from one directory with a mocked registry.",
  ["recap/clients/fs.py","recap/clients/confluent_registry.py"],
  [("FilesystemClient.schema","recap/clients/fs.py"),("ConfluentRegistryClient.schema","recap/clients/confluent_registry.py")], ["Client.schema against real files and a loopback registry"])

p("C23", "Credentials never leave the process through listed or echoed URLs",
  "The URLs Recap shows to callers never contain any user name, password or other user-info of a configured URL, for every way credentials can be written. "
  "Each shown URL otherwise keeps scheme, host, port, path and query of the configured URL, in the configured order, and, where the configured URL names a whole system (server, database, registry or file), asking for it or anything below it reaches that system with the configured credentials.",
  ["inputs","configurations"], "all configured URL sets: credentials with reserved, encoded or empty parts, IPv6 hosts, missing paths, several systems on one host",
  "tests use three simple URLs.",
  ["recap/settings.py","recap/commands.py","recap/server/gateway.py"],
  [("RecapSettings.safe_urls / unsafe_url","recap/settings.py")], ["commands.ls(None), gateway responses, RecapSettings.safe_urls and unsafe_url"])

p("C24", "Configured credentials are only used for the configured system",
  "In strict mode a URL is served exactly when scheme, host, port and whole leading path segments equal those of a configured URL; every other URL is refused without opening any connection, and path tricks such as '..' or a longer name with the same prefix do not get around it. "
  "A served URL gets the credentials of the configured URL it matched and of no other, and outside strict mode URLs that match nothing are used as given.",
  ["inputs","configurations"], "all configured URL sets and all requested URLs, including near misses in every component",
  "tests try a handful of URLs.",
  ["recap/settings.py","recap/commands.py","recap/server/gateway.py"],
  [("RecapSettings.unsafe_url","recap/settings.py"),("commands.ls/schema strict","recap/commands.py")], ["RecapSettings.unsafe_url; arguments reaching the driver"])

p("C25", "The schema registry behaves as a versioned map for every name",
  "For every sequence of registry operations, reading a name (latest or a given version) returns exactly the type stored under it, listing returns exactly the stored names and their versions in ascending order, and storing without a version uses one more than the highest existing version. "
  "Names are arbitrary text: no name collides with another, is altered, or reaches outside the registry's storage location. "
  "Names and versions never stored are reported as absent.",
  ["inputs","histories"], "all operation sequences over all names (path separators, dots, percent signs, unicode, spaces), types and explicit versions, on different storage backends",
  "tests store one or two plainly named types.",
  ["recap/storage/registry.py"], [("RegistryStorage","recap/storage/registry.py")], ["RegistryStorage methods; files written"])

p("C26", "Concurrent registry requests keep versions unique and immutable",
  "Under any interleaving of concurrent requests, every accepted registration gets its own version number, a version that once existed never changes its content, and of several requests for the same explicit version at most one succeeds. "
  "Each response is consistent with some sequential order of the requests that respects real time.",
  ["schedules","histories"], "all interleavings of concurrent requests including slowly arriving bodies",
  "tests send one request at a time.",
  ["recap/server/registry.py","recap/storage/registry.py"],
  [("post/put handlers","recap/server/registry.py"),("RegistryStorage.put","recap/storage/registry.py")], ["HTTP request/response history of the ASGI application"])

p("C27", "A failed registration leaves the registry as it was",
  "When storing a type fails at any step (refused body, unserialisable type, storage error, client disconnect), all previously stored names, versions and types read the same as before, and the failed version is either absent or complete, never a partial or different type. "
  "The same holds if the process dies during a registration. The failure is reported to the caller, and the registry accepts later registrations.",
  ["fault_sequences","crash_points"], "a fault at every storage operation of a registration, at every body chunk, and every kind of refused body",
  "tests never inject faults.",
  ["recap/storage/registry.py","recap/server/registry.py"],
  [("serialise before opening the file","recap/storage/registry.py"),("parse before storing","recap/server/registry.py")], ["fault-injecting fsspec filesystem, then a full read-back"])

p("C28", "The registry HTTP API answers with the right status and content",
  "Reads of absent names or versions answer 404, storing an existing explicit version answers 409, bodies that are not valid type definitions answer 400 and other content types answer 415, and none of these change the registry; everything else answers success with the stored version or the type and its version. "
  "No request for names and versions the storage can hold makes the server answer with an internal error, and the type read over HTTP is equivalent to the one sent.",
  ["inputs","histories"], "all request sequences over names, versions, content types and bodies, valid or garbage",
  "tests send one well-formed request per route.",
  ["recap/server/registry.py","recap/server/app.py"], [("registry router","recap/server/registry.py")], ["HTTP responses"])

p("C29", "Every front end returns the same schema in the requested format",
  "For any readable source, the library, CLI and HTTP gateway return the same schema, in exactly the requested format (Recap by default, Avro, JSON Schema or Protobuf by output format or content type), equal to reading the source and writing it in that format. "
  "CLI output is machine-readable as is, whatever characters or lengths the schema contains, and unsupported formats are refused (415 over HTTP).",
  ["inputs","configurations"], "all sources, schemas and formats, including very long lines and markup characters",
  "tests mock the commands or read one table.",
  ["recap/commands.py","recap/cli.py","recap/server/gateway.py"],
  [("commands.schema/ls","recap/commands.py"),("gateway routes","recap/server/gateway.py"),("CLI printing","recap/cli.py")], ["CLI stdout, HTTP responses, library results"])

p("C30", "Types are equal exactly when they describe the same type",
  "Two types compare equal exactly when they have the same kind, sizes, signedness, lengths, members (number, order, and each of them equal), symbols, documentation, aliases, logical types, extra attributes, defaults and reference targets, at every depth. "
  "Comparing is symmetric, `!=` is its negation, nothing that is not a type is equal to one, and neither comparing nor reading types, resolving their references or writing them changes what they are equal to.",
  ["inputs","histories"], "all pairs of types that differ in any attribute at any depth, and all equal pairs built in different ways",
  "tests rely on == of types as their oracle; nothing tests that it tells types apart.",
  ["recap/types.py"], [("RecapType.__eq__ and its overrides","recap/types.py")], ["results of == and != on pairs of types"])

p("C31", "Concurrent calls do not influence each other",
  "Library calls, commands and gateway requests that run at the same time in different threads return exactly what each of them returns alone, under every interleaving, also when they read the same types, references or definitions, which stay as they are. "
  "Each request opens its own connections, to its own system with its own credentials, and uses no connection of another. (A converter or client object itself is used by one thread at a time.)",
  ["schedules"], "all interleavings, at every line, of any calls and requests on any inputs and systems",
  "tests make one call at a time.",
  ["recap/types.py","recap/clients/__init__.py","recap/commands.py","recap/converters/*.py","recap/settings.py"],
  [("ProxyType.resolve","recap/types.py"),("parse_url, create_client","recap/clients/__init__.py"),("ls, schema","recap/commands.py")], ["outcomes of calls in controlled threads, connections and the threads that use them"])

p("C32", "A process is configured exactly as its environment says",
  "The configured URLs (all of them, in their order), the registry's location and the arguments of its storage are exactly those that the process' environment gives (RECAP_URLS, RECAP_REGISTRY_STORAGE_URL, RECAP_REGISTRY_STORAGE_URL_ARGS as JSON or one by one with __, names in any case), else those in the .env file, else those in the RECAP_SECRETS directory, else none, $RECAP_HOME/schemas (or ~/.recap/schemas) and none. "
  "The gateway lists these URLs, schemas registered over HTTP are stored in exactly that directory whatever characters its path has, and nothing else is created than the home and secrets directories. A value that is not a list of URLs, not a URL or not a mapping is refused when the process starts, and variables without the prefix have no effect.",
  ["configurations"], "all environments: any combination, precedence, spelling and validity of the settings and directories",
  "tests construct settings objects from URLs; nothing tests where settings come from.",
  ["recap/settings.py","recap/server/registry.py","recap/server/gateway.py","recap/commands.py"],
  [("RecapSettings, HOME_PATH, mkdirs","recap/settings.py"),("get_storage","recap/server/registry.py")], ["settings of freshly started processes, gateway answers, files written"])

p("C33", "Only the libraries of the systems and formats in use are needed",
  "With any subset of the optional dependencies installed (the extras of pyproject.toml, and database drivers), every operation that needs none of the missing ones works exactly as it does in a complete installation: files and subjects are read in the formats whose libraries are there, systems are listed and read, each output format is written, and types and converters are used without the app extra. "
  "An operation that does need a missing library raises ImportError; none returns anything else.",
  ["configurations"], "all subsets of optional dependencies, on all systems, stored formats and output formats",
  "tests run with everything installed.",
  ["recap/clients/*.py","recap/commands.py","recap/converters/*.py","recap/types.py"],
  [("FilesystemClient.schema","recap/clients/fs.py"),("create_client, parse_url","recap/clients/__init__.py"),("schema","recap/commands.py")], ["outcomes of imports and operations in processes without some libraries"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
