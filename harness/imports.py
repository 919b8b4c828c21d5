"""Schemas flattened, and turned back into classes (properties C13 and C14)."""

import dataclasses
import datetime
import decimal
import enum
import ipaddress
import json
import random
import sys
import types
import typing
import uuid

from codec import outcome
from gen import Gen
from lang import World, a2j, ann, cls, j2a, mark, opt
from runner import guarded

DRAFT = "https://json-schema.org/draft/2020-12/schema"


def run_flatten(w):
    from strong_typing.classdef import SchemaFlatteningOptions, flatten_schema

    events = []
    for ev in w["ev"]:
        doc = dict(a2j(ev["J"]))
        doc.setdefault("$schema", DRAFT)
        J = j2a(doc)
        options = SchemaFlatteningOptions(qualified_names=ev["q"], recursive=ev["rec"])
        if not ev["q"] and not ev["rec"] and ev.get("default"):
            options = None
        out = outcome(lambda: flatten_schema(doc, options=options), j2a, "j")
        events.append(dict(ev, J=J, R=out, J2=j2a(doc)))
    return {"ev": events}


WORDS = ["alpha", "beta gamma", "the value.", "x", "of the\nkind"]


class Nodes:
    "Random schema nodes of the kinds that import and flattening know."

    def __init__(self, r, defs=()):
        self.r, self.defs = r, list(defs)

    def annotated(self, d):
        r = self.r
        if r.random() < 0.25:
            d["title"] = r.choice(WORDS)
        if r.random() < 0.25:
            d["description"] = r.choice(WORDS)
        return d

    def maybe(self, d, **kw):
        for k, f in kw.items():
            if self.r.random() < 0.25:
                d[k] = f()
        return d

    def leaf(self):
        r = self.r
        k = r.choice(["boolean", "integer", "number", "string", "string", "open", "ref", "array", "oneOf"])
        if k == "boolean":
            return self.maybe({"type": "boolean"}, const=lambda: r.random() < 0.5, default=lambda: r.random() < 0.5, examples=lambda: [True, False])
        if k == "integer":
            n = lambda: r.choice([0, 1, -7, 2**40, 255])  # noqa: E731
            return self.maybe({"type": "integer"}, const=n, default=n, examples=lambda: [n(), n()], enum=lambda: [1, 2, 3], minimum=n, maximum=n, format=lambda: r.choice(["int16", "int32", "int64"]))
        if k == "number":
            n = lambda: r.choice([0, 1, 0.5, -2.25, 1e10])  # noqa: E731
            return self.maybe({"type": "number"}, const=n, default=n, examples=lambda: [n()], minimum=n, maximum=n, exclusiveMinimum=n, exclusiveMaximum=n, multipleOf=lambda: 0.01, format=lambda: "float64")
        if k == "string":
            s = lambda: r.choice(["", "a", "é", "x y"])  # noqa: E731
            return self.maybe({"type": "string"}, const=s, default=s, examples=lambda: [s()], enum=lambda: ["a", "b"], minLength=lambda: 0, maxLength=lambda: 9, format=lambda: r.choice(["date", "uuid", "email"]))
        if k == "open":
            return r.choice([{"type": "object"}, {"type": "object", "additionalProperties": True}, {"type": "object", "properties": {}, "additionalProperties": False}])
        if k == "ref":
            return {"$ref": "#/definitions/" + r.choice(self.defs or ["X"])}
        if k == "array":
            return {"type": "array", "items": self.node(0)}
        return {"oneOf": [self.node(0) for _ in range(r.randint(1, 3))]}

    def node(self, depth):
        r = self.r
        if depth > 0 and r.random() < 0.5:
            return self.annotated(self.object(depth - 1))
        if depth == 0 and r.random() < 0.1:
            return self.object(0)
        return self.annotated(self.leaf())

    def object(self, depth):
        r = self.r
        names = r.sample(["a", "b", "c", "id", "name", "type", "in", "meta", "value", "x.y", "é", "properties", "required"], r.choice([0, 1, 2, 2, 3, 4]))
        d = {"type": "object"}
        if names or r.random() < 0.5:
            d["properties"] = {n: self.node(depth) for n in names}
        if r.random() < 0.8:
            d["additionalProperties"] = r.random() < 0.2
        req = [n for n in names if r.random() < 0.5]
        r.shuffle(req)
        if req or r.random() < 0.2:
            d["required"] = req
        return d


def flatten_worlds(seed, worlds, per):
    out = []
    for i in range(worlds):
        r = random.Random(f"{seed}:f{i}")
        ev = []
        while len(ev) < per:
            n = Nodes(r)
            doc = n.annotated(n.object(r.choice([1, 2, 3])))
            if r.random() < 0.3:
                doc["definitions"] = {"X": n.node(1)}
            q = r.random() < 0.6
            ev.append({"op": "fl", "J": j2a(doc), "q": q, "rec": r.random() < 0.6, "default": r.random() < 0.3})
        out.append({"ev": ev})
    return out


# ---------------------------------------------------------------------------------------------------------------------
# import

SIMPLE = {
    bool: "bool", int: "int", float: "float", str: "str", decimal.Decimal: "decimal", datetime.datetime: "datetime", datetime.date: "date",
    datetime.time: "time", datetime.timedelta: "timedelta", uuid.UUID: "uuid", ipaddress.IPv4Address: "ipv4", ipaddress.IPv6Address: "ipv6", bytes: "bytes",
}
MARKS = {"IntegerRange": "range", "Precision": "prec", "MinLength": "minlen", "MaxLength": "maxlen", "Length": "len", "Signed": "signed", "Storage": "storage", "Alias": "alias"}


class Created(World):
    "Types that the library created, described in their own environment."

    def __init__(self):
        super().__init__({"cls": {}, "enm": {}, "als": {}, "doc": {}, "base": {}, "reg": {}})

    def label(self, t):
        n = self.names.get(t)
        if n is None:
            n = self.names[t] = f"N{len(self.names)}"
            if issubclass(t, enum.Enum):
                self.env["enm"][n] = [{"n": m.name, "v": j2a(m.value)} for m in t]
            else:
                self.env["cls"][n] = {"kind": "dc", "f": []}
                self.env["cls"][n]["f"] = [{"n": f.name, "t": self.reflect(f.type), "d": self.default(f)} for f in dataclasses.fields(t)]
        return n

    def default(self, f):
        if f.default is not dataclasses.MISSING:
            return {"k": "val", "v": [self.describe(f.default)]}
        return {"k": "fac" if f.default_factory is not dataclasses.MISSING else "no", "v": []}

    def describe(self, x):
        if type(x) is decimal.Decimal:
            return {"k": "decimal", "v": str(x).lower()}
        if isinstance(x, enum.Enum):
            self.label(type(x))
        return super().describe(x)

    def mark(self, m):
        n = type(m).__name__
        i = [str(getattr(m, f)) for f in type(m).__dataclass_fields__] if dataclasses.is_dataclass(m) else []
        return {"mk": MARKS.get(n, "alien"), "s": n, "i": i} if n != "Signed" else {"mk": "signed", "s": "", "i": i}

    def reflect(self, t):
        from strong_typing.core import JsonType

        if t is None or t is type(None):
            return {"k": "none"}
        if t == JsonType:
            return {"k": "json"}
        if isinstance(t, type) and t in SIMPLE:
            return {"k": SIMPLE[t]}
        if getattr(t, "__metadata__", None) is not None:
            ms = [dict(self.mark(m), s="") for m in t.__metadata__]
            return ann(self.reflect(typing.get_args(t)[0]), *ms)
        origin, args = typing.get_origin(t), typing.get_args(t)
        if origin in (typing.Union, types.UnionType):
            return {"k": "union", "a": [self.reflect(x) for x in args]}
        if origin is typing.Literal:
            return {"k": "lit", "v": [self.describe(v) for v in args]}
        if origin is list:
            return {"k": "list", "a": [self.reflect(args[0])]}
        if isinstance(t, type) and issubclass(t, enum.Enum):
            return {"k": "enum", "n": self.label(t)}
        if dataclasses.is_dataclass(t):
            return cls(self.label(t))
        return {"k": "alien"}


def run_import(w):
    from strong_typing.classdef import schema_to_type
    from strong_typing.schema import classdef_to_schema

    world = World(w["E"], w.get("style"), w["name"]) if w["E"]["cls"] else None
    events = []
    try:
        if world:
            world.load()
        for n, ev in enumerate(w["ev"]):
            out = dict(ev)
            keep = {}
            if ev["T"]:

                def generate():
                    keep["s"] = classdef_to_schema(world.type(ev["T"][0]))
                    return keep["s"]

                if not guarded(generate)[0]:
                    continue
                doc = json.loads(json.dumps(keep["s"]))
                defs = doc.get("definitions")
                if defs:
                    order = list(defs)
                    random.Random(ev["perm"]).shuffle(order)
                    doc["definitions"] = {k: defs[k] for k in order}
            else:
                doc = a2j(ev["J"])
                if "$schema" not in doc and ev.get("draft", True):
                    doc["$schema"] = DRAFT
            out["J"] = j2a(doc)
            module = types.ModuleType(f"created_{w['name']}_{n}")
            sys.modules[module.__name__] = module
            name = ev.get("as", "Top")
            R = {"E": {}, "T": {"k": "none"}, "named": False, "out": {"ok": False, "e": "", "j": {"k": "null", "v": "null"}}}

            def create():
                keep["t"] = schema_to_type(doc, module=module, class_name=name)
                return True

            o = outcome(create, j2a, "j")
            R.update(ok=o["ok"], e=o["e"])
            if o["ok"]:
                t = keep["t"]
                c = Created()
                R["T"] = c.reflect(t)
                R["E"] = c.env
                R["named"] = getattr(module, name, None) is t and getattr(t, "__name__", "") == name and t.__module__ == module.__name__ and \
                    all(hasattr(module, d) for d in doc.get("definitions", {}))
                R["out"] = {k: v for k, v in outcome(lambda: classdef_to_schema(t), j2a, "j").items() if k in ("ok", "e", "j")}
            out["R"] = R
            out["J2"] = j2a(doc)
            events.append(out)
            del sys.modules[module.__name__]
    finally:
        if world:
            world.unload()
    return {"E": w["E"], "ev": events}


ODD_VALUES = ["", "mro", "__a__", "_b_", "a-b", "a.b", "a b", "1", "A", "a", "name", "value", "é", "__", "_", "from", "None", "self"]
IMPORT_TEXTS = ["datetime", "date", "time", "timedelta", "uuid", "ipv4", "ipv6"]


class Importable(Gen):
    "Classes built from the types that import supports, and a few others."

    def enums(self):
        r = self.r
        for i in range(r.randint(1, 3)):
            values = r.sample(ODD_VALUES, r.randint(1, 5)) if r.random() < 0.4 else r.sample(["red", "green", "blue", "x1"], r.randint(1, 4))
            self.env["enm"][f"E{i + 1}{self.suffix}"] = [{"n": f"M{j}", "v": {"k": "str", "v": v}} for j, v in enumerate(values)]
        if "mods" in self.style:
            for n in self.env["enm"]:
                self.style["mods"][n] = 0

    def classes(self):
        r = self.r
        names = [f"C{i + 1}{self.suffix}" for i in range(r.randint(1, 4))]
        for i, n in enumerate(names):
            if "mods" in self.style:
                self.style["mods"][n] = 0 if i * 2 < len(names) else 1
            opts = {o: True for o in ("frozen", "slots", "kw_only") if r.random() < 0.15}
            fields = []
            if not opts and self.env["cls"] and r.random() < 0.2:
                base = r.choice(list(self.env["cls"]))
                if not set(self.env["cls"][base]["opts"]) & {"frozen", "slots", "base"}:
                    opts = {"base": base, "kw_only": True}
                    fields = json.loads(json.dumps(self.env["cls"][base]["f"]))
            self.current = n
            own = []
            while len(fields) + len(own) < 1 or r.random() < 0.7 and len(own) < 6:
                f = self.import_field()
                if all(g["n"] != f["n"] and self.json_name(g) != self.json_name(f) for g in fields + own):
                    own.append(f)
            if not opts.get("kw_only"):
                own.sort(key=lambda f: f["d"]["k"] != "no")
            self.env["cls"][n] = {"kind": "dc", "f": fields + own, "opts": opts}

    def registrations(self):
        super().registrations()
        self.env["reg"].pop(list(self.env["cls"])[-1], None)
        for e in self.env["reg"].values():
            e["x"] = []

    def item(self, depth):
        r = self.r
        k = r.choice(["scalar", "scalar", "text", "fix", "prec", "len", "lit", "enum", "cls", "list"] if depth else ["scalar", "text", "fix", "enum"])
        if r.random() < self.flags.get("foreign", 0):
            return r.choice([{"k": "bytes"}, {"k": "jobj"}, {"k": "set", "a": [{"k": "int"}]}, {"k": "dict", "a": [{"k": "str"}, {"k": "int"}]}, {"k": "tuple", "a": [{"k": "int"}]},
                             {"k": "any"}, ann({"k": "int"}, mark("range", i=[0, 10])), ann({"k": "float"}, mark("prec", i=[3, 1])), {"k": "decimal"}])
        if k == "scalar":
            return {"k": r.choice(["bool", "int", "float", "str"])}
        if k == "text":
            return {"k": r.choice(IMPORT_TEXTS)}
        if k == "fix":
            if r.random() < 0.2:
                return ann({"k": "float"}, mark("storage", i=[r.choice([4, 8])]))
            signed, width = r.random() < 0.5, r.choice([1, 2, 4, 8])
            lo, hi = (-(2 ** (8 * width - 1)), 2 ** (8 * width - 1) - 1) if signed else (0, 2 ** (8 * width) - 1)
            return ann({"k": "int"}, mark("signed", i=[signed]), mark("storage", i=[width]), mark("range", i=[lo, hi]))
        if k == "prec":
            dec = r.choice([0, 1, 2, 3, 6])
            return ann({"k": "decimal"}, mark("prec", i=[dec + r.randint(1, 3)] + ([dec] if dec or r.random() < 0.5 else [])))
        if k == "len":
            lo, hi = sorted([r.randint(0, 3), r.randint(1, 5)])
            return ann({"k": "str"}, *r.choice([[mark("minlen", i=[lo])], [mark("maxlen", i=[hi])], [mark("minlen", i=[lo]), mark("maxlen", i=[hi])], [mark("len", i=[hi])]]))
        if k == "lit":
            return {"k": "lit", "v": [r.choice([{"k": "str", "v": "a"}, {"k": "str", "v": ""}, {"k": "int", "v": "0"}, {"k": "int", "v": "-7"}, {"k": "bool", "v": "False"}, {"k": "bool", "v": "True"}])]}
        if k == "enum":
            es = [n for n in self.env["enm"] if self.visible(n)]
            return {"k": "enum", "n": r.choice(es)}
        if k == "cls":
            cs = [n for n in self.env["cls"] if self.visible(n)]
            return cls(r.choice(cs)) if cs else {"k": "str"}
        return {"k": "list", "a": [self.part(depth - 1)]}

    def part(self, depth):
        if depth and self.r.random() < 0.2:
            # unions without members that overlap
            return self.union([self.item(depth - 1) for _ in range(self.r.randint(2, 3))])
        return self.item(depth)

    def import_field(self):
        r = self.r
        T = self.part(2)
        name = r.choice(["a", "b", "c", "value", "items", "name", "from_", "in_", "class_", "None_", "type", "match", "id", "_x", "x1", "print_", "camelCase", "def_"])
        d = {"k": "no", "v": []}
        base = T
        if r.random() < 0.35 and T["k"] not in ("jobj", "any"):
            T = self.optional(T)
        p = r.random()
        B = self.bare(base)
        keeps = B["k"] in ("bool", "int", "float", "str", "datetime", "date", "time", "timedelta", "enum", "lit") or (p < 0.02 and B["k"] == "union")
        if p < 0.35 and keeps and (B["k"] != "enum" or r.random() < 0.5):
            V = self.small(base)
            if V is not None and self.immutable(V):
                d = {"k": "val", "v": [V]}
        elif p < 0.5 and T is not base:
            d = {"k": "val", "v": [{"k": "none", "v": "None"}]}
        return {"n": name, "t": T, "d": d}

    def small(self, T):
        "A value of a type that fits."
        r = self.r
        if T["k"] == "ann":
            if T["a"][0]["k"] == "int":
                return {"k": "int", "v": str(r.choice([0, 1, 100, 127]))}
            if T["a"][0]["k"] == "str":
                marks = {m["mk"]: int(m["i"][0]) for m in T["m"]}
                return {"k": "str", "v": "é" * (marks.get("minlen") or marks.get("len") or 0)}
            return {"k": "float", "v": r.choice(["0.0", "1.5", "100.0", "-2.25"])}
        V = self.value(T, 1)
        if V is None or T["k"] == "datetime" and len(V["f"]) < 10:
            return None
        if T["k"] in ("datetime", "time") and len(V["f"]) in (7, 10) and V["f"][-2] == 0 and V["f"][-1] != 0:
            return None  # CPython does not read such offsets
        return V


def class_worlds(seed, worlds):
    out = []
    for i in range(worlds):
        r = random.Random(f"{seed}:i{i}")
        g = Importable(r, schema=True, naive=0, preg=r.choice([0, 0.4, 0.8]), suffix=f"_i{i}", foreign=0.03 if r.random() < 0.3 else 0).world()
        names = [n for n in g.env["cls"] if n not in g.env["reg"]]
        ev = [{"op": "im", "T": [cls(n)], "J": {"k": "null", "v": "null"}, "perm": p, "as": r.choice(["Top", n])} for n in names for p in range(2)]
        out.append({"name": f"vi{i}", "E": g.env, "style": g.style, "ev": ev})
    return out


GOOD_TEXT = {
    "date-time": ["2020-02-29T01:02:03Z", "1999-12-31T23:59:59.123456+02:00", "2020-01-01T00:00:00+00:00"], "date": ["2020-02-29", "0001-01-01"], "time": ["01:02:03Z", "23:59:59", "01:02:03.5+01:00"],
    "duration": ["P1D", "PT1H30M", "PT0S", "P2DT3.5S"], "uuid": ["12345678-1234-5678-1234-567812345678"], "ipv4": ["1.2.3.4"], "ipv6": ["::1", "2001:db8::5"],
}
DOC_NAMES = ["a", "b", "c", "id", "name", "type", "from", "class", "None", "value", "_x", "A1", "items", "properties", "required"]
DOC_WORDS = ["Alpha.", "beta gamma", "the value", "x", "one two three", "(x)", "1"]


class Documents:
    "Schemas in the vocabulary of import."

    def __init__(self, r):
        self.r = r

    def words(self, J, place):
        "Documentation, mostly in the form in which schemas of classes have it."
        r = self.r
        owned = J.get("type") == "object" or "enum" in J
        p = r.random()
        if place == "prop" and p < 0.3:
            J["description"] = r.choice(DOC_WORDS)
        elif owned and p < 0.6:
            J["title"] = r.choice(DOC_WORDS)
            if r.random() < 0.4:
                J["description"] = r.choice(DOC_WORDS)
        elif p > 0.97:
            J[r.choice(["title", "description"])] = r.choice(DOC_WORDS)
        return J

    def scalar(self, place):
        r = self.r
        dflt = place == "prop" and r.random() < 0.35
        k = r.choice(["boolean", "integer", "number", "prec", "string", "format", "enum", "len", "const"])
        J = {"type": k}
        if k == "boolean":
            values = [True, False]
        elif k == "integer":
            values = [0, 1, -7, 127]
            if r.random() < 0.6:
                J["format"] = r.choice(["int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64"])
                values = [0, 1, 127]
        elif k == "number":
            values = [0.5, 1, -2.25, 0.0, 1e20]
            if r.random() < 0.4:
                J["format"] = r.choice(["float32", "float64"])
        elif k == "prec":
            d, n = r.choice([0, 1, 2, 3]), r.randint(1, 3)
            J = {"type": "number", "multipleOf": 1 if d == 0 else float(f"1e-{d}"), "exclusiveMinimum": -(10**n), "exclusiveMaximum": 10**n}
            values = [0, 1, -3]
        elif k == "string":
            values = ["", "a", "é x"]
        elif k == "format":
            f = r.choice(list(GOOD_TEXT))
            J = {"type": "string", "format": f}
            values = GOOD_TEXT[f]
        elif k == "enum":
            values = r.sample(ODD_VALUES, r.randint(1, 4))
            J = {"type": "string", "enum": values}
        elif k == "len":
            lo, hi = sorted([r.randint(0, 3), r.randint(1, 5)])
            J = dict({"type": "string"}, **r.choice([{"minLength": lo}, {"maxLength": hi}, {"minLength": lo, "maxLength": hi}, {"minLength": hi, "maxLength": hi}]))
            values = ["x" * hi]
        else:
            c = r.choice([True, False, 0, 1, -7, 0.5, "", "a", "é"])
            J = {"type": {bool: "boolean", int: "integer", float: "number", str: "string"}[type(c)], "const": c}
            values = [c]
        if dflt:
            J["default"] = r.choice(values)
        if r.random() < 0.05:
            J["examples"] = [r.choice(values)]
        return J

    def node(self, depth, place, defs):
        r = self.r
        p = r.random()
        if p < 0.15 and defs:
            J = {"$ref": "#/definitions/" + r.choice(defs)}
        elif depth and p < 0.3:
            J = {"type": "array", "items": self.node(depth - 1, "item", defs)}
        elif depth and p < 0.4:
            J = {"oneOf": [self.node(depth - 1, "item", defs) for _ in range(r.choice([1, 2, 2, 3]))]}
        elif depth and p < 0.55:
            J = self.object(depth - 1, defs)
        elif p < 0.57 and place == "prop":
            J = {"type": "object"}
        else:
            J = self.scalar(place)
        J = self.words(J, place)
        if r.random() < 0.3:
            J = dict(r.sample(list(J.items()), len(J)))
        return J

    def object(self, depth, defs):
        r = self.r
        names = r.sample(DOC_NAMES, r.choice([1, 1, 2, 2, 3, 4]))
        J = {"type": "object", "properties": {n: self.node(depth, "prop", defs) for n in names}, "additionalProperties": False}
        req = [n for n in names if r.random() < 0.6]
        if req or r.random() < 0.1:
            J["required"] = req
        return J

    def document(self):
        r = self.r
        names = r.sample(["D1", "D2", "D3", "Some_Name", "x", "_y", "3D"], r.choice([0, 0, 1, 2, 3]))
        defs = {n: self.node(2, "item", names[:i]) for i, n in enumerate(names)}
        J = self.words(self.object(2, names), "top")
        if defs:
            J["definitions"] = {n: defs[n] for n in r.sample(names, len(names))}
        if r.random() < 0.5:
            self.spoil(J)
        return J

    def nodes(self, J, place="top"):
        yield J, place
        for n in J.get("properties", {}).values():
            yield from self.nodes(n, "prop")
        for n in J.get("oneOf", []):
            yield from self.nodes(n, "item")
        if "items" in J:
            yield from self.nodes(J["items"], "item")
        for n in J.get("definitions", {}).values():
            yield from self.nodes(n, "item")

    def spoil(self, top):
        "A change after which the schema may not be one to import."
        r = self.r
        J, place = r.choice(list(self.nodes(top)))
        p = r.choice(["keyword", "open", "default", "ref", "type", "name", "kind", "less", "swap", "text"])
        if p == "keyword":
            k = r.choice(["pattern", "minItems", "uniqueItems", "x-y", "deprecated", "anyOf", "allOf", "nullable", "minimum", "enum", "const", "contentEncoding", "prefixItems", "propertyNames", "not", "$id"])
            if k not in J:
                J[k] = {"minItems": 1, "minimum": 0, "anyOf": [{"type": "string"}], "allOf": [], "enum": ["a"], "const": "a", "not": {}}.get(k, r.choice([True, "a", None]) if k not in ("const",) else 1)
                if k in ("nullable", "x-y") and J[k] is None:
                    J[k] = False
        elif p == "open":
            os = [n for n, _ in self.nodes(top) if "properties" in n]
            n = r.choice(os)
            if r.random() < 0.5:
                n["additionalProperties"] = True
            else:
                n.pop("additionalProperties", None)
        elif p == "default":
            xs = [n for n, q in self.nodes(top) if q == "item" or n.get("type") in ("object", "array") or "$ref" in n or "oneOf" in n]
            if xs:
                n = r.choice(xs)
                n["default"] = {"boolean": True, "integer": 1, "number": 1.5, "array": [], "object": {}}.get(n.get("type"), "a")
                if "enum" in n:
                    n["default"] = n["enum"][0]
                if "format" in n and n["type"] == "string":
                    n["default"] = GOOD_TEXT[n["format"]][0]
                if "const" in n:
                    n["default"] = n["const"]
        elif p == "ref":
            for n in ("$ref",):
                names = list(top.get("definitions", {}))
                target = r.choice(["#/definitions/Missing", "#/$defs/D1", "D1", "#/definitions/a-b", "#/definitions/", "#"] + ["#/definitions/" + x for x in names] * 3)
                if J is not top:
                    J.clear()
                    J["$ref"] = target
        elif p == "type":
            if J is not top and "type" in J:
                J["type"] = r.choice(["null", "any", "", ["string"], "String", 1])
        elif p == "name":
            os = [n for n, _ in self.nodes(top) if "properties" in n]
            n = r.choice(os)
            n["properties"][r.choice(["a b", "a-b", "1a", "", "a.b", "$ref"])] = {"type": "string"}
        elif p == "kind":
            ks = [k for k in J if k in ("const", "default", "enum", "minLength", "maxLength", "format", "required", "additionalProperties", "oneOf", "items", "title", "description", "examples")]
            if ks:
                J[r.choice(ks)] = r.choice([1, "a", [1], {"a": 1}, 1.5])
        elif p == "less":
            ks = [k for k in J if k not in ("required", "definitions", "properties", "additionalProperties", "title")]
            if ks and J is not top:
                del J[r.choice(ks)]
        elif p == "swap":
            J2, _ = r.choice(list(self.nodes(top)))
            if J is not top and J2 is not top and "default" in J and "type" in J2:
                J2["default"] = J["default"]
        else:
            xs = [n for n, _ in self.nodes(top) if n.get("type") == "string" and ("enum" in n or "format" in n) and "const" not in n]
            if xs:
                r.choice(xs)["default"] = r.choice(["garbage", "", "zz"])


def document_worlds(seed, worlds, per):
    out = []
    for i in range(worlds):
        r = random.Random(f"{seed}:d{i}")
        d = Documents(r)
        ev = []
        while len(ev) < per:
            J = d.document()
            ev.append({"op": "im", "T": [], "J": j2a(J), "draft": r.random() < 0.98, "as": "Top"})
        out.append({"name": f"vid{i}", "E": {"cls": {}, "enm": {}, "als": {}}, "ev": ev})
    return out


def model_worlds(rows, env):
    "Replays the cases of MC_Import."
    docs = [{"op": "im", "T": [], "J": x["J"], "as": "Top"} for x in rows if x["what"] != "class"]
    out = [{"name": f"vim{i}", "E": {"cls": {}, "enm": {}, "als": {}}, "ev": docs[i:i + 100]} for i in range(0, len(docs), 100)]
    fields = [x["f"] for x in rows if x["what"] == "class"]
    for i in range(0, len(fields), 40):
        E = json.loads(json.dumps(env))
        E["cls"] = {"L": E["cls"]["L"], **{f"X{j}": {"kind": "dc", "f": fs, "opts": {"kw_only": True}} for j, fs in enumerate(fields[i:i + 40])}}
        E["base"] = {n: "" for n in E["cls"]}
        E["reg"] = {}
        ev = [{"op": "im", "T": [cls(n)], "J": {"k": "null", "v": "null"}, "perm": i, "as": n} for n in E["cls"] if n != "L"]
        out.append({"name": f"vimc{i}", "E": E, "ev": ev})
    return out
