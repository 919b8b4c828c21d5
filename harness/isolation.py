"""Histories of conversions and changes by the caller (property C22)."""

import contextlib
import dataclasses
import datetime
import decimal
import enum
import hashlib
import io
import ipaddress
import random
import sys
import types
import typing
import uuid

from gen import Gen
from lang import World, a2j, j2a
from runner import Timeout, guarded

ATOMS = (type(None), bool, int, float, str, bytes, datetime.datetime, datetime.date, datetime.time, datetime.timedelta, uuid.UUID, ipaddress.IPv4Address, ipaddress.IPv6Address, decimal.Decimal, enum.Enum, type, types.ModuleType,
         types.FunctionType, types.BuiltinFunctionType, type(dataclasses.MISSING))


def attributes(x):
    names = list(getattr(x, "__dict__", {}))
    for c in type(x).__mro__:
        s = c.__dict__.get("__slots__", ())
        names += [s] if isinstance(s, str) else list(s)
    return [(n, getattr(x, n)) for n in dict.fromkeys(names) if n not in ("__weakref__", "__dict__") and hasattr(x, n)]


def can_change(x):
    if isinstance(x, (tuple, frozenset)):
        return False
    params = getattr(type(x), "__dataclass_params__", None)
    return not (params is not None and params.frozen)


def parts(x):
    "The members of a value in memory, None for atoms."
    if isinstance(x, ATOMS) or type(x).__module__ in ("typing", "types"):
        return None
    if isinstance(x, dict):
        return [y for p in x.items() for y in p]
    if isinstance(x, (list, tuple, set, frozenset)):
        return list(x) + ([v for _, v in attributes(x)] if hasattr(x, "__dict__") else [])
    return [v for _, v in attributes(x)]


def text(x, sort=False, depth=0):
    if depth > 60:
        return "..."
    if isinstance(x, enum.Enum):
        return str(x)
    if isinstance(x, ATOMS) or type(x).__module__ in ("typing", "types"):
        return f"{type(x).__name__}:{x!r}"
    if isinstance(x, dict):
        items = [text(k, sort, depth + 1) + "=" + text(v, sort, depth + 1) for k, v in x.items()]
        return f"{type(x).__name__}{{{','.join(sorted(items) if sort else items)}}}"
    if isinstance(x, (list, tuple, set, frozenset)):
        return f"{type(x).__name__}[{','.join(text(y, sort, depth + 1) for y in x)}]"
    return f"{type(x).__name__}({','.join(n + '=' + text(v, sort, depth + 1) for n, v in attributes(x))})"


def digest(s):
    return hashlib.sha1(s.encode("utf-8", "replace")).hexdigest()[:12]


class Memory:
    def __init__(self):
        self.numbers, self.held = {}, []

    def changeable(self, x, depth=0):
        "Numbers of the cells that can be changed, as often as they are reached."
        p = parts(x)
        if p is None or depth > 60:
            return []
        out = []
        if can_change(x):
            if id(x) not in self.numbers:
                self.numbers[id(x)] = len(self.numbers)
                self.held.append(x)
            out.append(self.numbers[id(x)])
        for y in p:
            out += self.changeable(y, depth + 1)
        return out


def cells(x, depth=0):
    p = parts(x)
    if p is None or depth > 60:
        return []
    return ([x] if can_change(x) else []) + [c for y in p for c in cells(y, depth + 1)]


def spoil(x, r):
    "Changes one cell (or each) of a value."
    cs = cells(x)
    for c in (cs if r.random() < 0.4 else [r.choice(cs)] if cs else []):
        if isinstance(c, list):
            q = r.random()
            if c and q < 0.3:
                c.pop()
            elif c and q < 0.5:
                c[0] = "spoiled"
            elif q < 0.6:
                c.clear()
            else:
                c.append("spoiled")
        elif isinstance(c, dict):
            if c and r.random() < 0.4:
                c[next(iter(c))] = "spoiled"
            elif c and r.random() < 0.2:
                c.clear()
            else:
                c["spoiled"] = "spoiled"
        elif isinstance(c, set):
            c.add("spoiled")
        else:
            names = [n for n, _ in attributes(c)]
            for n in names[: r.randint(1, 2)]:
                try:
                    setattr(c, n, "spoiled")
                except Exception:
                    pass


def class_text(c):
    "What can be told about a class."
    out = [c.__name__, c.__module__, c.__qualname__, repr(c.__doc__), repr(c.__mro__), repr(list(c.__dict__.get("__annotations__", {}).items()))]
    out.append(",".join(sorted(k for k in vars(c) if not k.startswith("__") or k in ("__init__", "__eq__", "__hash__", "__repr__", "__slots__"))))
    out.append(",".join(f"{k}={id(v)}" for k, v in sorted(vars(c).items()) if not k.startswith("_")))
    if dataclasses.is_dataclass(c):
        out.append(repr([(f.name, repr(f.type), id(f.default), id(f.default_factory)) for f in dataclasses.fields(c)]))
        out += [text(f.default) for f in dataclasses.fields(c)]
    if hasattr(c, "_field_defaults"):
        out += [f"{k}={text(v)}" for k, v in c._field_defaults.items()]
    if isinstance(c, type) and issubclass(c, enum.Enum):
        out += [f"{m.name}={m.value!r}" for m in c]
    return "\n".join(out)


EXTRA = """
@dataclass
class Loose_SUFFIX:
    a: JsonType
    b: JsonObject
    c: JsonArray
    d: Optional[JsonObject] = None
    e: List[JsonType] = field(default_factory=list)
    f: Dict[str, JsonType] = field(default_factory=lambda: {"x": [1, {"y": []}]})

@dataclass
class Made_SUFFIX:
    a: List[int] = field(default_factory=lambda: [1, 2])
    b: Dict[str, List[int]] = field(default_factory=lambda: {"k": [3]})
    c: Set[int] = field(default_factory=set)
    d: Optional[List[str]] = None
    e: "Inner_SUFFIX" = field(default_factory=lambda: Inner_SUFFIX([4]))
    f: Tuple[int, List[int]] = field(default_factory=lambda: (5, [6]))

@dataclass
class Inner_SUFFIX:
    x: List[int] = field(default_factory=list)

@dataclass(frozen=True)
class Frozen_SUFFIX:
    x: List[int] = field(default_factory=list)
    y: Optional[Dict[str, int]] = None

@dataclass
class Outer_SUFFIX:
    p: Made_SUFFIX
    q: List[Made_SUFFIX]
    r: Dict[str, Frozen_SUFFIX] = field(default_factory=dict)
    s: Union[Inner_SUFFIX, List[JsonType], None] = None
    t: int = 7

class Named_SUFFIX(NamedTuple):
    a: List[int]
    b: Any
    c: Dict[str, JsonType]
    d: Optional[int] = 9

class Holder_SUFFIX:
    a: List[int]
    b: JsonType
    c: Optional[JsonObject]

@dataclass
class Plain_SUFFIX:
    "Plain."
    x: Inner_SUFFIX
    y: List[Inner_SUFFIX]
    z: Optional[str] = None
    u: Literal["a", "b"] = "a"
    v: int = 5

class Untyped_SUFFIX:
    def __init__(self, a=None, b=None):
        self.a = a if a is not None else [1]
        self.b = b if b is not None else {"x": [2], "y": (3, [4]), "z": {5}}
"""
EXTRAS = ["Loose_SUFFIX", "Made_SUFFIX", "Outer_SUFFIX", "Outer_SUFFIX", "Named_SUFFIX", "Holder_SUFFIX", "List[Made_SUFFIX]", "Dict[str, Loose_SUFFIX]", "Tuple[Made_SUFFIX, Made_SUFFIX]", "Union[Made_SUFFIX, List[JsonType]]", "JsonType", "JsonObject", "JsonArray",
          "Any", "List[Any]", "Dict[str, Any]", "Optional[JsonObject]", "List[List[int]]", "Dict[str, Dict[str, List[int]]]", "Set[int]", "Annotated[JsonObject, 'doc']", "Untyped_SUFFIX", "List[Untyped_SUFFIX]", "Frozen_SUFFIX"]


def some_json(r, depth=3):
    k = r.random()
    if depth == 0 or k < 0.4:
        return r.choice([None, True, 0, 1, -5, 0.5, "", "a", "text"])
    if k < 0.7:
        return [some_json(r, depth - 1) for _ in range(r.randint(0, 3))]
    return {r.choice("abxyz") + str(i): some_json(r, depth - 1) for i in range(r.randint(0, 3))}


def extra_document(r, name, depth=2):
    base = name.replace("_SUFFIX", "")
    ints = lambda: [r.randint(0, 9) for _ in range(r.randint(0, 3))]  # noqa: E731
    obj = lambda: {f"k{i}": some_json(r, 2) for i in range(r.randint(0, 2))}  # noqa: E731
    arr = lambda: [some_json(r, 2) for _ in range(r.randint(0, 2))]  # noqa: E731

    def some(d, *required):
        return {k: v() for k, v in d.items() if k in required or r.random() < 0.6}

    if base == "Loose":
        return some({"a": lambda: some_json(r), "b": obj, "c": arr, "d": obj, "e": arr, "f": obj}, "a", "b", "c")
    if base == "Made":
        return some({"a": ints, "b": lambda: {"k": ints()}, "c": lambda: [1, 2], "d": lambda: ["a"], "e": lambda: some({"x": ints}), "f": lambda: [1, ints()]})
    if base == "Frozen":
        return some({"x": ints, "y": lambda: {"u": 1}})
    if base == "Outer":
        made = lambda: extra_document(r, "Made")  # noqa: E731
        return some({"p": made, "q": lambda: [made() for _ in range(r.randint(0, 3))], "r": lambda: {"u": extra_document(r, "Frozen"), "v": {}}, "s": lambda: r.choice([{"x": [1]}, [1, [2]], None, {}]), "t": lambda: 8}, "p", "q")
    if base == "Named":
        return some({"a": ints, "b": lambda: some_json(r), "c": obj}, "a", "b", "c")
    if base == "Holder":
        return some({"a": ints, "b": lambda: some_json(r), "c": obj}, "a", "b")
    if base == "List[Made]":
        return [extra_document(r, "Made") for _ in range(r.randint(1, 3))]
    if base == "Dict[str, Loose]":
        return {f"k{i}": extra_document(r, "Loose") for i in range(r.randint(0, 2))}
    if base == "Tuple[Made, Made]":
        return [{}, extra_document(r, "Made")]
    if base == "Union[Made, List[JsonType]]":
        return r.choice([{}, [1, [2], {}], extra_document(r, "Made")])
    if base in ("JsonObject", "Dict[str, Any]", "Optional[JsonObject]", "Annotated[JsonObject, 'doc']"):
        return obj()
    if base in ("JsonArray", "List[Any]"):
        return arr()
    if base == "List[List[int]]":
        return [ints(), ints()]
    if base == "Dict[str, Dict[str, List[int]]]":
        return {"a": {"b": ints()}, "c": {}}
    if base == "Set[int]":
        return [1, 2, 300]
    if "Untyped" in base:
        return {}
    return some_json(r)


class History:
    def __init__(self, world, ev):
        self.world, self.ev, self.r = world, ev, random.Random(ev["seed"])
        self.memory = Memory()
        self.owners, self.log, self.kept = {}, [], {}
        self.suffix = world.name
        self.src = ev.get("src")
        self.typ = eval(self.src.replace("SUFFIX", self.suffix), world.ns) if self.src else world.type(ev["T"])
        self.classes = [x for x in world.ns.values() if isinstance(x, type) and x.__module__ == world.module.__name__] + list(world.types.values())

    def state(self):
        d = [{"o": n, "d": digest(text(x, n.startswith("schema")))} for n, x in self.owners.items()]
        d.append({"o": "types", "d": digest("\n".join(class_text(c) for c in self.classes) + repr(self.typ))})
        d.append({"o": "module", "d": digest(repr([(k, id(v)) for k, v in self.world.ns.items() if not k.startswith("__")]))})
        return d

    def add(self, kind, x):
        n = f"{kind} {len(self.owners)}"
        self.owners[n] = x
        return n

    def step(self, op, f, o="", r="", ok=True, key="", m=None, p=False):
        self.log.append({"op": op, "f": f, "o": o, "r": r, "ok": ok, "key": key, "d": self.state(), "m": m if m is not None else [], "p": p})

    def new(self, kind, x):
        n = self.add(kind, x)
        self.step("new", "the caller", r=n, m=self.memory.changeable(x))
        return n

    def make_value(self):
        if self.src is None:
            return self.world.value(self.ev["V"])
        if "Untyped" in self.src:
            c = self.world.ns["Untyped_" + self.suffix]
            return [c(), c()] if self.src.startswith("List") else c()
        from strong_typing.serialization import json_to_object

        # made from a document of its own, and then a copy of nothing: what reading returns belongs to the caller
        return json_to_object(self.typ, a2j(self.ev["J"]), context=self.world.module)

    def call(self, f, fun, o="", kind="", apart=False):
        key = f"{f}|{digest(text(self.owners[o])) if o else ''}"
        ok, r = guarded(fun)
        if isinstance(r, Timeout):
            ok = False
        if ok and kind:
            n = self.add(kind, r)
            self.step("call", f, o, n, True, key, [] if kind in ("answer", "text") else self.memory.changeable(r), apart)
            return n
        self.step("call", f, o, "", ok, key + ("" if ok else ""))
        return None

    def ser(self, o):
        from strong_typing.serialization import json_dump_string, object_to_json
        from strong_typing.serializer import create_serializer

        v = self.owners[o]
        how = self.r.choice(["plain", "made", "kept"])
        if how == "plain":
            return self.call("object_to_json", lambda: object_to_json(v), o, "document")
        if how == "kept":
            if "ser" not in self.kept:
                self.kept["ser"] = guarded(lambda: create_serializer(self.typ, self.world.module))
            ok, s = self.kept["ser"]
            if ok:
                return self.call("a serializer", lambda: s.generate(v), o, "document")
        return self.call("create_serializer", lambda: create_serializer(self.typ, self.world.module).generate(v), o, "document")

    def de(self, o):
        from strong_typing.deserializer import DeserializerOptions, create_deserializer
        from strong_typing.serialization import json_to_generic, json_to_object

        J = self.owners[o]
        how = self.r.choice(["plain", "generic", "made", "kept", "options"])
        module = self.world.module
        if how == "plain":
            return self.call("json_to_object", lambda: json_to_object(self.typ, J, context=module), o, "value", True)
        if how == "generic":
            return self.call("json_to_generic", lambda: json_to_generic(self.typ, J, context=module), o, "value", True)
        if how == "options":
            if "options" not in self.owners:
                self.owners["options"] = DeserializerOptions(skip_unassigned=True)
                self.step("new", "the caller", r="options", m=self.memory.changeable(self.owners["options"]))
            return self.call("json_to_object with options", lambda: json_to_object(self.typ, J, context=module, options=self.owners["options"]), o, "value", True)
        if how == "kept":
            if "de" not in self.kept:
                self.kept["de"] = guarded(lambda: create_deserializer(self.typ, module))
            ok, d = self.kept["de"]
            if ok:
                return self.call("a deserializer", lambda: d.parse(J), o, "value", True)
        return self.call("create_deserializer", lambda: create_deserializer(self.typ, module).parse(J), o, "value", True)

    def schema(self):
        from strong_typing.schema import JsonSchemaGenerator, SchemaOptions, classdef_to_schema

        how = self.r.choice(["plain", "options", "kept", "generator"])
        if how == "plain":
            return self.call("classdef_to_schema", lambda: classdef_to_schema(self.typ), "", "schema")
        if "schema options" not in self.owners:
            self.owners["schema options"] = SchemaOptions(definitions_path="#/$defs/", use_examples=True)
            self.step("new", "the caller", r="schema options", m=self.memory.changeable(self.owners["schema options"]))
        O = self.owners["schema options"]
        if how == "options":
            return self.call("classdef_to_schema with options", lambda: classdef_to_schema(self.typ, O), "", "schema")
        if how == "kept":
            if "gen" not in self.kept:
                self.kept["gen"] = JsonSchemaGenerator(O)
            return self.call("a generator", lambda: list(self.kept["gen"].classdef_to_schema(self.typ)), "", "schema")
        return self.call("JsonSchemaGenerator", lambda: list(JsonSchemaGenerator(O).classdef_to_schema(self.typ)), "", "schema")

    def from_schema(self, o):
        from strong_typing.classdef import flatten_schema, schema_to_type
        from strong_typing.schema import classdef_to_schema

        S = self.owners[o]
        if not isinstance(S, dict) or S.get("type") != "object":
            c = self.r.choice([self.world.ns[x + "_" + self.suffix] for x in ("Plain", "Plain", "Inner", "Made")] + [x for x in self.classes if dataclasses.is_dataclass(x)])
            o = self.call(f"classdef_to_schema of {c.__name__}", lambda: classdef_to_schema(c), "", "schema")
            if o is None:
                return None
            S = self.owners[o]
        if self.r.random() < 0.5:
            return self.call("flatten_schema", lambda: flatten_schema(S), o, "schema")
        name = f"isolated_{self.suffix}_{len(self.log)}"
        m = types.ModuleType(name)
        sys.modules[name] = m
        try:
            self.call("schema_to_type", lambda: schema_to_type(S, module=m, class_name="Top"), o)
        finally:
            sys.modules.pop(name, None)
        return None

    def look(self, o):
        from strong_typing.docstring import check_docstring, parse_type
        from strong_typing.inspection import check_recursive, get_referenced_types, is_generic_instance
        from strong_typing.schema import print_schema, validate_object
        from strong_typing.serialization import json_dump_string

        x = self.owners[o]
        if o.startswith("document"):
            if self.r.random() < 0.6:
                self.call("validate_object", lambda: validate_object(self.typ, x), o)
            else:
                self.call("json_dump_string", lambda: json_dump_string(x), o, "text")
        elif o.startswith("value"):
            q = self.r.random()
            if q < 0.4:
                self.call("is_generic_instance", lambda: is_generic_instance(x, self.typ), o, "answer")
            elif q < 0.8:
                self.call("check_recursive", lambda: check_recursive(x, pred=lambda t, v: True), o, "answer")
            else:
                self.call("get_referenced_types", lambda: sorted(map(repr, get_referenced_types(self.typ, self.world.module))), "", "answer")
        elif o.startswith("schema"):
            if self.r.random() < 0.5:
                with contextlib.redirect_stdout(io.StringIO()):
                    self.call("print_schema", lambda: print_schema(self.typ))
            elif isinstance(self.typ, type):
                self.call("parse_type", lambda: (parse_type(self.typ), check_docstring(self.typ, parse_type(self.typ)))[0], "", "answer")

    def run(self):
        self.step("new", "the caller")
        names = [None]
        for x in self.ev["log"]:
            o = names[x["o"]] if x["o"] < len(names) else None
            n = None
            if x["op"] == "new":
                if x["k"] == "val":
                    ok, v = guarded(self.make_value)
                    n = self.new("value", v if ok else [])
                else:
                    n = self.new("document", a2j(self.ev["J"]))
                names.append(n)
                continue
            if x["op"] == "call":
                if x["o"] == 0:
                    if x["k"] == "sch":
                        n = self.schema()
                    else:
                        n = self.de(self.new("document", {} if self.r.random() < 0.5 and self.src else a2j(self.ev["J"])))
                elif o is not None:
                    n = self.ser(o) if o.startswith("value") else self.de(o) if o.startswith("document") else self.from_schema(o)
                names.append(n)
            elif o is None:
                continue
            elif x["op"] == "look":
                self.look(o)
            else:
                spoil(self.owners[o], self.r)
                self.step("spoil", "the caller", o, m=self.memory.changeable(self.owners[o]))
        # what was changed has no part in what is done now
        if self.r.random() < 0.5:
            n = self.new("document", a2j(self.ev["J"]))
            self.de(n)
        else:
            self.schema()
        return self.log


def run(w):
    world = World(w["E"], w["style"], w["name"])
    try:
        world.load()
        exec(compile(EXTRA.replace("SUFFIX", world.name), f"<{world.name}>", "exec", dont_inherit=True), world.ns)
        ev = [{"log": History(world, e).run()} for e in w["ev"]]
    finally:
        world.unload()
    return {"ev": ev}


def worlds(seed, rows, count, per):
    out = []
    for i in range(count):
        r = random.Random(f"{seed}:{i}")
        g = Gen(r, **{"schema": True, "naive": 0, "tagged": 0.4, "aliases": r.random() < 0.3, "suffix": f"_h{i}", "preg": r.choice([0, 0.4]), "pexplicit": 0.15}).world()
        w = {"name": f"vh{i}", "E": g.env, "style": g.style, "ev": []}
        while len(w["ev"]) < per:
            x = {"log": r.choice(rows), "seed": r.randrange(10**9)}
            if r.random() < 0.5:
                x["src"] = r.choice(EXTRAS)
                x["J"] = j2a(extra_document(r, x["src"]))
            else:
                T = g.top()
                V = g.value(T, r.choice([3, 4, 6]))
                J = g.doc(T, V) if V is not None else None
                if J is None:
                    continue
                if r.random() < 0.2:
                    J = g.mutate(J) if r.random() < 0.5 else g.members(J)
                x.update(T=T, V=V, J=J)
            w["ev"].append(x)
        out.append(w)
    return out
