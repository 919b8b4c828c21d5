#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source for ids, titles and statements)."""
import json, os

P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, state=None, hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": ["strong_typing/" + f for f in files],
                    "state": state or [],
                    "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                    "observe_at": observe, "hook_needed": hook},
    })

prop("C01", "Serialize then deserialize returns an equal object of the same type",
 "For every supported type T and every value v of T, serializing v and deserializing the result as T returns an object equal to v, with the same Python type at every position (no bool turned into int, no tuple into list, no union member replaced by another). The same holds when the JSON travels through JSON text. A union is resolved to its first member that accepts the document, so that a value whose document an earlier member accepts too is outside the guarantee, and so is an optional field whose declared default is not None when its value is None.",
 ["inputs", "programs"], "every type expression over scalars, temporal, binary, identifier, enum, literal, list, set, dict, tuple, optional, union, annotated, dataclass (plain, frozen, derived), named tuple, annotated regular class, custom-converter class and recursive class types; every value of it",
 "Round-trip tests exist for two or three fixed classes and values; neither type expressions nor values are enumerated.",
 ["serializer.py", "deserializer.py", "serialization.py", "mapping.py"],
 [("serializer dispatch", "serializer.py:_create_serializer"), ("deserializer dispatch", "deserializer.py:_create_deserializer"), ("property name mapping", "mapping.py:python_field_to_json_property")],
 ["object_to_json", "json_to_object", "json_to_generic", "json_dump_string"])

prop("C02", "Serialization produces exactly the documented JSON representation",
 "The JSON produced for a value is the one of the conversion table: scalars as is, enum members by value, containers element by element in order (dict keys as strings), objects as JSON objects with exactly one property per field that is not None. The property name is the explicit alias if there is one, otherwise the field name without the underscore that only avoids a Python keyword. The result consists only of JSON types, and its text form is compact, keeps non-ASCII characters and reads back to the same JSON.",
 ["inputs", "programs"], "every value of every supported type, including field names that are keywords with an underscore, almost keywords, aliases, falsy values, None, and annotations given as strings",
 "Tests compare a handful of outputs; none uses an alias, a keyword name or postponed annotations in a serialized object.",
 ["serializer.py", "mapping.py", "serialization.py"],
 [("field serializers skip None", "serializer.py:FieldSerializer"), ("name mapping", "mapping.py:python_field_to_json_property")],
 ["object_to_json", "json_dump_string", "json_dump", "python_field_to_json_property"])

prop("C03", "Deserialization accepts exactly the matching documents and coerces nothing",
 "Deserializing a JSON document as type T either returns a value that conforms to T at every level and represents that document, or raises: a type-mismatch error when a JSON kind is not the expected one, a value error when a text or length is malformed. A JSON boolean is never accepted as a number, a number never as a string, a string never as a number, and an array or object is never accepted in place of the other or of a scalar. No input makes it fail with an internal error or return a partly converted object.",
 ["inputs", "programs"], "every supported type T and every JSON document, matching T, off by one mutation at any depth, or unrelated to T",
 "Tests try about a dozen mismatching documents, all at top level, never nested, never boolean for number.",
 ["deserializer.py", "exception.py"],
 [("kind checks in each deserializer", "deserializer.py:*.parse")],
 ["json_to_object", "json_to_generic", "create_deserializer(...).parse"])

prop("C04", "Object members: required, optional, default, unknown and null handling",
 "Deserializing a JSON object into a class assigns each field from its own JSON property; a missing required property or (unless skipping unknown members is requested) an unrecognized property raises a key error, and null for a required property raises a value error. A missing or null property yields the declared default, a fresh result of the default factory, or None for an optional field without default. The option to skip unknown members applies at every nesting depth and changes nothing else.",
 ["inputs", "programs", "configurations"], "every class shape (field kinds x default kinds x frozen/derived/named tuple/regular class, nested in any container) and every subset of its properties being present, absent, null, or joined by extra properties, with the option on and off",
 "Tests cover one class with one optional field and one extra key; the skip option has no test.",
 ["deserializer.py"],
 [("field deserializers", "deserializer.py:RequiredFieldDeserializer, OptionalFieldDeserializer, DefaultFieldDeserializer, DefaultFactoryFieldDeserializer"), ("unknown members", "deserializer.py:ClassDeserializer.parse")],
 ["json_to_object", "json_to_generic"])

prop("C05", "Unions resolve to the first matching member, tagged unions by their tag",
 "Deserializing as a union without tags returns what the first member type in declaration order that accepts the document would return, whatever reason the earlier members have to refuse it. A union of classes that share a literal-typed property is resolved by the value of that JSON property alone, independent of declaration order, and values that select no member are rejected. When no member matches, an error of the library's own family is raised.",
 ["inputs", "programs"], "every union of two to four member types (scalars, temporal and identifier types, enums, literals, containers, overlapping and tagged classes, nested unions) in every order, and every document",
 "Tests cover some ten unions; none where an earlier member rejects the text of a string, none with a renamed tag, and orders are not permuted.",
 ["deserializer.py"],
 [("trial loop", "deserializer.py:UnionDeserializer.parse"), ("tag dispatch", "deserializer.py:TaggedUnionDeserializer")],
 ["json_to_generic"])

prop("C06", "Temporal, binary, UUID and address texts are exact and invertible",
 "Timestamps, dates, times, durations, byte strings, UUIDs and IP addresses are written in their documented text form (ISO 8601 with Z for UTC, Base64, canonical UUID and address text) and every text written is read back to the same value, including microseconds, UTC offsets, negative and extreme durations. Reading a duration gives the exact sum of its components; sub-microsecond precision, calendar units, malformed text and timestamps without UTC offset are rejected, as is writing a timestamp without UTC offset. (UTC offsets of less than one second are not recognized by the standard library and are outside this.)",
 ["inputs"], "every value of the eight types; every text of up to the duration grammar's full component set, and every text one edit away from a valid one",
 "Some thirty hand-picked texts are tested; boundaries between components, fractions, offsets and padding are not combined.",
 ["serializer.py", "deserializer.py"],
 [("duration printer", "serializer.py:TimeDeltaSerializer"), ("duration grammar", "deserializer.py:TimeDeltaDeserializer"), ("timestamp", "serializer.py:DateTimeSerializer / deserializer.py:DateTimeDeserializer")],
 ["object_to_json", "json_to_object"])

prop("C07", "What the serializer writes validates against the generated schema",
 "For every supported type T whose union members are mutually exclusive, the generated JSON schema is a valid schema under every supported draft, contains a definition for every reference in it, and accepts the serialized form of every value of T that respects the annotated constraints. Properties are named in the schema as they are named in the serialized object.",
 ["inputs", "programs", "configurations"], "every supported type (recursive, registered and forward-referenced classes included) and every value; each draft and definitions path",
 "Four default-constructed objects are validated against their schema in the tests; references are checked for one type.",
 ["schema.py", "serializer.py", "mapping.py"],
 [("schema generator", "schema.py:JsonSchemaGenerator.type_to_schema"), ("definitions closure", "schema.py:JsonSchemaGenerator.classdef_to_schema")],
 ["classdef_to_schema", "validate_object"])

prop("C08", "Schema and deserializer agree on which documents are well-formed",
 "A document that the generated schema of T accepts is also accepted by the deserializer of T (texts of temporal, binary and identifier strings aside), and a document whose shape the schema rejects because of a wrong JSON kind, an unknown property, a wrong tuple length, or a value outside an enumeration or literal is also rejected by the deserializer. Defaults, which the schema may still list as required, integral numbers written with a fraction, null for a member (the same as its absence), classes without members (open in the schema), and value-range or length annotations are the only differences.",
 ["inputs", "programs"], "every supported type T with mutually exclusive union members and every JSON document, matching T or mutated",
 "No test puts a document through both the schema and the deserializer.",
 ["schema.py", "deserializer.py"],
 [("schema generator", "schema.py:JsonSchemaGenerator.type_to_schema"), ("deserializers", "deserializer.py")],
 ["classdef_to_schema", "validate_object", "json_to_generic"])

prop("C09", "The schema states exactly the declared constraints, defaults and documentation",
 "The schema of a type carries the keyword values that its declaration states and no others: ranges, precision, lengths, fixed-width formats, enumeration values, literal constants, tuple and set shape, required names, JSON-representable defaults, and title, description and property descriptions from the docstring when descriptions are enabled. Options change only what they name: the path of definitions, descriptions, examples, and the property description transformation.",
 ["programs", "configurations"], "every type expression with every combination of annotations, defaults, docstrings and schema options",
 "Tests compare the schemas of some twenty types, mostly single-feature; options are varied once.",
 ["schema.py", "auxiliary.py", "docstring.py"],
 [("metadata to keywords", "schema.py:JsonSchemaGenerator._metadata_to_schema"), ("fixed-width formats", "auxiliary.py:get_auxiliary_format"), ("docstring_to_schema", "schema.py")],
 ["JsonSchemaGenerator.type_to_schema", "classdef_to_schema"])

prop("C10", "Schema catalog: registration decides references and definitions, in any order",
 "After any sequence of registrations, a registered type appears in the schemas of other types only as a reference, the definitions section holds exactly the registered types reachable from the requested type (with the schema and examples given at registration) and the types to which a recursion returns, and other unregistered types are written in place. Registering the same type twice is refused and changes nothing, and two different types are never served under one definition. Schemas returned earlier or modified by the caller do not influence later ones.",
 ["histories", "programs"], "every sequence of registrations (with and without explicit schema, name and examples), duplicate registrations, schema generations and caller mutations over a set of mutually referring types",
 "Registration happens once at import in the tests; no test registers, generates and registers again, or mutates a result.",
 ["schema.py"],
 [("type catalog", "schema.py:TypeCatalog"), ("types_used closure", "schema.py:JsonSchemaGenerator.classdef_to_schema")],
 ["register_schema", "json_schema_type", "classdef_to_schema", "get_schema_identifier"],
 state=[{"name": "type_catalog", "meaning": "registered types by type and by name, process-wide", "where": "schema.py:JsonSchemaGenerator.type_catalog"}])

prop("C11", "Deserialization does not depend on what was deserialized before",
 "The outcome of deserializing a document depends only on the type object, the document and the options of that call, not on earlier calls in the process. This holds when earlier calls used other options, when different types share a name or a module, when a name has been bound to a new type, and when an earlier attempt failed because a referred type was not available yet. A type whose references have been resolved may keep what they resolved to when a name is bound anew. The same holds for writing objects.",
 ["histories"], "every sequence of calls, type (re)definitions and failing attempts over types that share names, refer to each other and are used with differing options",
 "Tests run each call once in a fixed order and never vary options, reuse names or retry after failure.",
 ["deserializer.py"],
 [("process-wide deserializer cache", "deserializer.py:_get_deserializer"), ("build after publication", "deserializer.py:_get_deserializer")],
 ["json_to_object", "json_to_generic"],
 state=[{"name": "_CACHE", "meaning": "deserializers by type, possibly still under construction", "where": "deserializer.py"}])

prop("C12", "Concurrent first use of a type gives every thread the sequential result",
 "When several threads serialize, deserialize or generate schemas for the same or mutually referring types at the same time, including the first use of those types, each call returns what it would return if the calls ran one after another. No call observes a converter that is still being constructed, and no call deadlocks.",
 ["schedules"], "every interleaving of two or three first-use calls over types that refer to each other, also when one of the constructions fails",
 "No test uses threads.",
 ["deserializer.py", "serializer.py", "schema.py"],
 [("cache publication order", "deserializer.py:_get_deserializer"), ("memoized serializers", "serializer.py:_fetch_serializer")],
 ["json_to_object", "object_to_json", "classdef_to_schema"],
 state=[{"name": "_CACHE", "meaning": "deserializers by type", "where": "deserializer.py"}])

prop("C13", "A schema generated from a class can be turned back into an equivalent class",
 "For every class built from the types that schema import supports, generating its schema and creating a type from that schema gives, in the given module under the given name, a class with the same field names, the same field types (optional fields staying optional), the same defaults and the same documentation, and re-generating the schema from it gives an equivalent schema; an optional field without default is the same as one that defaults to None. Types for the definitions are created in the module as well, and definitions may appear in any order. Keywords that the import does not know, objects that are open to further properties, references to definitions that are missing or refer to themselves, and defaults that it cannot attach to a field are refused, not dropped. The schema passed in is not modified. (Supported are booleans, integers, floating-point numbers and strings, fixed-width numbers, decimals with precision, dates, times, durations, UUIDs, IP addresses, strings with length limits, enumerations of strings, literals of one scalar value, lists, unions and other classes; an object without declared properties becomes any JSON value; examples are not kept; defaults of decimals may be refused; keywords set to null may count as absent. The class itself must not be registered under a name of its own.)",
 ["programs", "inputs"], "every class over the importable property types (boolean, integer formats and ranges, number formats and precision, string formats, enumerations, lengths, arrays, nested objects, unions, references) with every required/optional/default combination, and definitions in every order",
 "One class is converted back in the tests; the other cases are single property nodes.",
 ["classdef.py", "schema.py"],
 [("schema parser and type builder", "classdef.py:schema_to_type, node_to_typedef")],
 ["schema_to_type", "classdef_to_schema"])

prop("C14", "Flattening a schema hoists nested properties and loses none",
 "Flattening replaces each property that is an object with declared properties by those properties, one level or all levels deep as requested, under qualified (dotted) or plain names; every other property is kept unchanged. A hoisted or kept property is required in the result exactly if it was required in its own object. The result accepts no additional properties, keeps the rest of the schema (title, description, definitions) and the input is not modified. Plain names must be distinct among the properties involved.",
 ["inputs", "configurations"], "every object schema tree in the supported subset without name collisions, and all four option combinations",
 "One tree is flattened with two of the four option combinations.",
 ["classdef.py"],
 [("flattener", "classdef.py:SchemaFlattener.flatten")],
 ["flatten_schema"])

prop("C15", "Topological sort lists every node once, dependencies first, and detects cycles",
 "For every finite graph in which each adjacent node is itself a node, the topological sort returns each node exactly once and after all nodes it points to; edges from a node to itself are ignored. If and only if the graph has a cycle through two or more nodes, it raises an error instead. The graph passed in is not modified.",
 ["inputs"], "every directed graph and every iteration order of its nodes and edges",
 "Three graphs are tested.",
 ["topological.py"],
 [("depth-first visit with temporary and permanent marks", "topological.py:topological_sort")],
 ["topological_sort"])

prop("C16", "Type dependencies are collected transitively and order types correctly",
 "The set of types referenced by a type expression is exactly the set of classes and enums reachable from it through generics, unions, annotations, forward references and class members, with None and Any left out. Sorting types topologically lists exactly the given types and everything they refer to, each once, a type only after all types it refers to and all extra dependencies declared for it, and mutually dependent types are reported as an error.",
 ["programs"], "every system of classes with members of every supported type form, every set of start types given as any iterable, and every extra-dependency function",
 "Some fifteen expressions and one class system are tested, without chains of extra dependencies.",
 ["inspection.py", "topological.py"],
 [("type collector", "inspection.py:TypeCollector"), ("graph extension", "topological.py:type_topological_sort")],
 ["get_referenced_types", "type_topological_sort"],
 state=[{"name": "TypeCollector.graph", "meaning": "type to directly referenced types", "where": "inspection.py"}])

prop("C17", "Docstrings parse into their parts and print back to the same parts",
 "Parsing a docstring splits it into a one-line short description, a long description (from the first empty line on) with its line structure kept, and the parameter, returns, raises and see-also entries with whitespace-normalized text; no text of one part leaks into another, order is kept, and lines that only look like entries do not make parsing fail. Printing a parsed docstring and parsing it again yields the same parts. (Left open: lines of spaces only that are indented deeper than the text, and entry headers that extend over several lines or start with several colons.)",
 ["inputs"], "every docstring made of description blocks, blank lines, indented lines, entry lines of every kind (well-formed and malformed) and continuation lines",
 "About ten docstrings are parsed, all well-formed, entries in one order.",
 ["docstring.py"],
 [("text parser", "docstring.py:parse_text"), ("printer", "docstring.py:Docstring.__str__")],
 ["parse_text", "str(Docstring)"])

prop("C18", "Docstrings are checked against the signature they document",
 "Parsing the docstring of a data class or function resolves each documented parameter to the type of the member or parameter of that name (text annotations of data class members stay text), the return description to the return annotation, and each exception name to the exception class visible in the defining module or built in. It raises a type error exactly when a documented name, return or exception does not exist there (a data class documents the members that it declares itself); strict checking additionally raises exactly when a member that is not inherited, a parameter other than self or a return value lacks documentation (left open for functions that return None and for members declared anew). Docstrings that Python generates by itself are told from written ones.",
 ["programs"], "every combination of signature or class members (own and inherited) and documented names, with and without strict checking",
 "A handful of classes and functions are checked; strict mode has no test.",
 ["docstring.py"],
 [("parse_type", "docstring.py:parse_type"), ("check_docstring", "docstring.py:check_dataclass_docstring, check_function_docstring")],
 ["parse_type", "check_docstring", "has_docstring", "has_default_docstring"])

prop("C19", "The textual name of a type denotes that type",
 "The string produced for a type expression, evaluated where its names are defined, gives the same type again, in both union notations and at any nesting depth; fixed-width aliases are written by their alias and extra annotations are kept. The identifier name of a type is made of the identifier names of its parts and is refused for composite types unless requested. A type transformation is applied to every class in the expression.",
 ["programs"], "every type expression over classes, aliases, generics, optionals, unions, literals, annotations, callables and forward references",
 "Tests compare some forty strings, nesting depth at most two, and never evaluate them.",
 ["name.py", "auxiliary.py"],
 [("type formatter", "name.py:TypeFormatter"), ("identifier names", "name.py:python_type_to_name")],
 ["python_type_to_str", "TypeFormatter.python_type_to_str", "python_type_to_name"])

prop("C20", "Instance checks and recursive predicates see every nested value",
 "The generic instance check is true exactly if the object conforms to the type expression at every level: container kind, every element, key and value, the exact tuple length, and at least one union member. The recursive check is true exactly if the predicate holds for every member value reachable through lists, sets, dict values, tuples, named tuples, data classes and typed classes, each presented with its declared type.",
 ["inputs", "programs"], "every object and every type expression over classes, lists, dicts, sets, tuples and unions; every predicate and position of a failing value",
 "Tests check some twenty pairs, mostly empty or one-element containers, with one predicate that fails nowhere.",
 ["inspection.py"],
 [("is_generic_instance", "inspection.py:is_generic_instance"), ("RecursiveChecker", "inspection.py:RecursiveChecker.check")],
 ["is_generic_instance", "check_recursive"])

prop("C21", "Type-form inspection classifies and unwraps every type expression",
 "Each type expression is classified (optional, union, list, set, dict, literal, enum, data class, named tuple, annotated) by its form alone, the same for old and new union notation and with or without annotations around it. Unwrapping returns exactly the constituent types in order, keeps outer annotations where documented, and re-wrapping the parts gives the original expression; the first annotation of the requested kind is the one found. Class members are listed in order with their types and defaults, alike by name and in sequence.",
 ["programs"], "every type expression up to a nesting depth, in every notation, bare and annotated",
 "About fifty assertions on expressions of depth one or two; annotations on three of them.",
 ["inspection.py"],
 [("predicates", "inspection.py:is_type_optional, is_type_union, is_generic_list, ..."), ("unwrapping", "inspection.py:unwrap_optional_type, rewrap_annotated_type, ...")],
 ["strong_typing.inspection predicates and unwrap functions"])

prop("C22", "Conversions leave their inputs alone and never share mutable state",
 "Serializing, deserializing, validating and generating a schema leave the object, the document, the type and the options passed in unchanged. Mutable containers and objects in a result are not shared with the input, with another result, with a registered schema, or with what a default factory made before: each deserialized object that takes a factory default gets its own instance, and changing a result never changes what a later call returns. (A default given as a value is the one object that the constructor uses as well.)",
 ["inputs", "histories"], "every type and value of C01 and every schema of C09, followed by mutation of every mutable container of the result and a repeated call",
 "No test mutates a result or compares an input before and after.",
 ["serializer.py", "deserializer.py", "schema.py"],
 [("fresh containers in converters", "serializer.py, deserializer.py"), ("deep copy of registered schemas", "schema.py:_type_to_schema_with_lookup")],
 ["object_to_json", "json_to_object", "classdef_to_schema"])

prop("C23", "Dynamic type helpers create exactly the requested types",
 "Extending an enumeration yields a new enumeration holding the members of the source followed by those of the extension, with the extension's name, module and documentation, is found in the extension's module under its name, leaves the source unchanged and refuses members that conflict (one name for two values, or two names for one; a member that both declare alike may be refused). Dynamically created data types and modules have exactly the requested fields and names, a module name already in use is refused, and an object made without arguments is of exactly the class and no initializer runs, and module listing returns exactly the classes and functions the module itself defines. Annotation classes compare, hash, print and (where requested) order by their field values.",
 ["inputs", "programs"], "every pair of enumerations, field list, module content and annotation class",
 "No test covers enum extension, data type creation or function listing; one module listing is tested.",
 ["inspection.py", "auxiliary.py"],
 [("extend_enum, create_data_type, create_module, get_module_classes", "inspection.py"), ("typeannotation", "auxiliary.py")],
 ["extend_enum", "create_data_type", "create_module", "get_module_classes", "get_module_functions", "typeannotation"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
