#!/opt/venv/bin/python
"""Writes known_findings.json: genuine defects that are recorded (known) or repaired (fixed)."""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [
    ("C11", "e54ecab", "deserializers were cached by type name and published before they were complete: other options, other types of the same name, failed builds and other threads (C04, C12) influenced the result"),
    ("C05", "5f7ccd6", "a union stopped at a member that refused the value of a document (json_to_object(Union[UUID, str], 'x') raised)"),
    ("C05", "d3f7973", "tagged unions looked for the Python name and the Python value of the tag instead of the JSON name and value"),
    ("C04", "7f931a0", "named tuples were read with Python field names, without defaults and without optional fields (C01)"),
    ("C03", "9a5cf08", "json_to_object(int, True) was accepted"),
    ("C06", "7f243dd", "negative durations were written in a form that reads as another duration; 'P' and 'PT' were accepted"),
    ("C01", "1b9cb19", "object_to_json of a class that refers to itself through a container recursed for ever"),
    ("C02", "0104ea6", "an Alias was ignored with postponed annotations"),
    ("C07", "68c2fdf", "the schema named properties by field (from_) where the serializer writes the JSON name (from)"),
    ("C07", "1c3e67f", "schema of IPv4Address and IPv6Address described an object"),
    ("C07", "e82311c", "schema of a literal with several values failed"),
    ("C07", "dd7c89e", "schema of optional types outside class members failed"),
    ("C07", "f399147", "enumeration keys were put in a pattern without escaping"),
    ("C22", "4f67064", "registered examples were shared with generated schemas (C10)"),
    ("C07", "c732567", "validate_object checked formats of another draft"),
    ("C10", "36bcd4f", "the caller could change a registered schema after registration (C22)"),
    ("C07", "bfbedf8", "generated schemas contained references without definition (C10)"),
    ("C10", "d1c892a", "two types of the same name were served under one definition"),
    ("C16", "7142776", "topological_sort of types ignored some additional dependencies and lost types"),
    ("C20", "c2fbc71", "is_generic_instance ignored tuple length and failed for new-style unions and annotated types"),
    ("C20", "ad13966", "check_recursive did not look into literal, annotated, new-style union and address types"),
    ("C14", "a12cf3e", "flattening dropped objects without declared properties"),
    ("C19", "b1f6b23", "python_type_to_name(force=True) failed for nested composite types"),
    ("C17", "23403a5", "a docstring line starting with a colon that is no entry made parsing fail"),
    ("C19", "5d5b65d", "type names of enumeration literals, empty tuples and annotations did not denote the type"),
    ("C22", "324ee28", "schema_to_type changed the module of built-in and library types (C13)"),
    ("C13", "59771b8", "schema_to_type needed definitions in the order of their dependencies"),
    ("C13", "dd02f90", "enumeration values whose member names coincide were dropped"),
    ("C13", "a3b57cd", "the default of a constant was dropped"),
    ("C03", "0bd06aa", "true was accepted for an enumeration value of 1 and 1 for a literal True"),
    ("C01", "574020a", "a forward reference inside Annotated could not be serialized (C02)"),
    ("C01", "ee81945", "inherited properties were evaluated in the wrong module (C02, C07)"),
    ("C05", "54a11f2", "tagged unions were not recognized with postponed annotations"),
    ("C09", "df60e22", "property descriptions were left in schemas generated without descriptions"),
    ("C09", "155e477", "an exact length annotation (Length) had no keyword in the schema"),
    ("C09", "683abc5", "defaults of slotted data classes and named tuples were missing in the schema"),
    ("C09", "22a3344", "the docstring that Python generates for a named tuple was taken for its title"),
    ("C10", "74bdb1b", "an annotated registered type was written in place instead of referenced (C07)"),
    ("C07", "aa4c2d7", "the schema of tuple[()] was not a valid schema (C09)"),
    ("C07", "b87a119", "members of type Any, JsonObject and JsonArray were written as the methods of their values, and could not be read (C02, C08)"),
    ("C18", "ef34dbc", "documentation of a member that a derived data class declares anew was refused (C09)"),
    ("C16", "1fec001", "references of inherited members were evaluated in the wrong module"),
    ("C16", "6d0ff76", "collecting references of recursive aliases such as JsonType exhausted the stack"),
    ("C15", "1d79e4f", "sorting a graph with a path of 1000 nodes exhausted the stack"),
    ("C16", "cf27110", "forward references to types called typ or module evaluated to something else (C01)"),
    ("C16", "db528fe", "inherited fields with postponed annotations were evaluated in the wrong module"),
    ("C06", "ecfa28f", "Base64 text with excess padding was accepted"),
    ("C19", "0d451a3", "a string annotation that names a class was written without the type transformation"),
    ("C19", "4bac063", "generic types without arguments were written with empty brackets"),
    ("C21", "5309559", "is_named_tuple_type did not look through annotations"),
    ("C21", "ede484d", "unwrap_union_types refused annotated unions"),
    ("C20", "1c75344", "None as an argument of a generic type was refused by is_generic_instance and check_recursive"),
    ("C20", "15fcf4f", "check_recursive took the ellipsis of tuple[T, ...] for a member type"),
    ("C21", "b247996", "dataclass_field_by_name lost the default of the field"),
    ("C13", "09455e3", "integers of 8 bits and unsigned integers lost their width on import"),
    ("C13", "330167b", "a minimum length without a maximum length was dropped"),
    ("C13", "30e38b1", "a property whose name is a Python keyword made the import fail"),
    ("C13", "c4dd422", "enumerations with an empty value or a value such as mro made the import fail"),
    ("C23", "1049028", "extend_enum replaced a member of the source with one of the same name and another value"),
    ("C13", "5b7826e", "the documentation of a nested class was taken for that of the property"),
]
KNOWN = [
    {"id": "decimal", "properties": ["C01", "C02", "C03"], "what": "decimal.Decimal, which the README lists as written to and read from a JSON number, "
     "is supported by neither object_to_json (RecursionError) nor json_to_object(Decimal, 1.5) (JsonTypeError)"},
    {"id": "hidden-colon", "properties": ["C17"], "what": "a description whose first line is indented and starts with a colon (text 'Short\\ntext.\\n\\n    :note: kept\\n    more') "
     "is printed by str(Docstring) without its indentation, so that parsing the printed text takes it for an entry and loses it"},
]
with open(os.path.join(HERE, "known_findings.json"), "w") as f:
    json.dump({"known": KNOWN, "fixed": [f"fixed: property={p} {c} {w}" for p, c, w in FIXED]}, f, indent=1)
    f.write("\n")
print(len(KNOWN), "known", len(FIXED), "fixed")
