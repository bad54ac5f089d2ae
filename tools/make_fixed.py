"""Rewrites the "fixed" list of known_findings.json from /repo's fix: commits (run by hand)."""
import json, subprocess, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = [  # first match on the commit subject wins
 (r"other threads", "C31"), (r"whatever characters that has|relative RECAP_HOME", "C32"), (r"numeric options of SQLite", "C20"),
 (r"query part of the SQLite|replace the Snowflake account|options in the query part of the Confluent|replace the scheme of SQLite", "C20"), (r"list files of fsspec", "C19"), (r"percent-encoded dot", "C24"), (r"brackets of IPv6 addresses in Hive|without a port", "C20"),
 (r"MySQL integers", "C14"), (r"Snowflake times", "C15"), (r"more path elements", "C20"), (r"SQLite types|generated columns", "C16"),
 (r"serialise aliased|cleaning nullable|clean definitions|named like nested types|nested unions in a list|alias_dict|serialise types|when aliasing", "C01"),
 (r"make_nullable", "C05"), (r"references override|reference's attributes|resolve references nested|attributes of references", "C03"),
 (r"Avro field names|Avro unions nested|Avro named fixed|doc of Avro|that Avro aliases", "C06"),
 (r"to Avro|as Avro|Avro longs|Avro references|references in Avro", "C07"), (r"\"byte\" format|JSON schemas with an \$id|next to a retrieved|registry that was given|have to be retrieved", "C08"),
 (r"JSON [sS]chema|optional property's", "C09"),
 (r"used more than once only once|fully qualified Protobuf|default namespace after|Protobuf maps with boolean", "C10"),
 (r"print Protobuf", "C29"), (r"Protobuf", "C11"), (r"PostgreSQL and SQLite connections", "C21"), (r"PostgreSQL", "C13"), (r"list BigQuery|list and read", "C19"),
 (r"percent-encoded|Snowflake database|query parameters|SQLite databases with", "C20"), (r"SQLite", "C16"),
 (r"configured URLs that|whole path|configured file", "C24"), (r"IPv6", "C23"), (r"Hive", "C18"), (r"list registries|named \".\"", "C25"), (r"while receiving", "C26"),
 (r"empty version|partly written version", "C27"), (r"UTF-8|JSON can.t be decoded|can.t send back|neither JSON nor", "C28"), (r"empty listings in the CLI", "C29"),
]
out = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "bb24c87.."], capture_output=True, text=True).stdout
fixed = []
for l in out.splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "): continue
    extra = re.search(r"\[(C\d\d)\]$", s)
    pid = next((p for r, p in PROP if re.search(r, s)), None)
    assert pid, s
    fixed.append(f"fixed: property={pid} {h} did not hold before: {s[5:]}")
p = f"{V}/known_findings.json"
d = json.load(open(p)); d["fixed"] = fixed
json.dump(d, open(p, "w"), indent=1)
print(len(fixed))
