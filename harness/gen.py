"""Random environments, types, values and documents (as abstract syntax)."""

import copy
import datetime
import json
import random

from lang import NONE, SCALARS, TEXTS, ann, cls, key, mark, opt

FIELD_NAMES = [
    "a", "b", "value", "items", "name", "x1", "from_", "in_", "class_", "is_", "None_", "True_", "id_", "not_", "print_",
    "type_", "match_", "_from", "lambda_", "from__", "del_", "camelCase", "data", "kind", "next", "yield_", "self_",
]
ALIASES = ["alias", "in", "A-b", "$ref", "élan", "x y", "type", "class", "UPPER", "from_", "", "0"]
STRINGS = [
    "", "a", "b", "abc", "0", "1", "true", "null", "3.5", "2020-01-01", "10:00:00", "árvíztűrő", "日本", "😀", "a b", '"', "\\",
    "\n", "\t", "/", "v:x", "PT1S", "AAAA", "::", "1.2.3.4", "x" * 40, "A", "B", "e1", "None",
]
INTS = ["0", "1", "-1", "2", "7", "127", "-128", "255", "65536", "2147483647", "2147483648", "-9223372036854775808", "18446744073709551616"]
FLOATS = ["0.0", "1.0", "-1.0", "0.5", "3.141592653589793", "1e+16", "1e-07", "1.7976931348623157e+308", "5e-324", "100.25", "-2.5", "-0.0"]
ENUM_STR = [("A", "a"), ("B", "b"), ("C_1", "c-1"), ("D", "a.b"), ("E", ""), ("F", "v:1"), ("from_", "from"), ("G", "1"), ("H", "c++"), ("I", "a(b)"), ("J", "ab")]


class Gen:
    def __init__(self, rng, **flags):
        self.r = rng
        self.flags = flags
        self.env = {"cls": {}, "enm": {}, "als": {}}
        self.style = {}
        self.families = []
        self.unions = {}
        self.kind = None
        self.suffix = flags.get("suffix", "")

    # ----------------------------------------------------------------------------------------------------------------
    # environments

    def world(self):
        r = self.r
        self.style = {
            "postponed": r.random() < 0.3,
            "notation": r.choice(["typing", "typing", "union", "pep604"]),
            "builtin": r.random() < 0.7,
        }
        if r.random() < 0.35:
            self.style["mods"] = {}
        self.enums()
        if self.flags.get("aliases") and "mods" not in self.style and not (self.flags.get("schema") and self.style["postponed"]):
            self.aliases()
        self.classes()
        if self.flags.get("schema"):
            self.documents()
            self.registrations()
        return self

    def documents(self):
        "Docstrings of classes and enumerations."
        r = self.r
        words = ["alpha", "beta", "gamma.", "delta", "the", "a", "(x)", "é", "value", "1", "*b*"]
        text = lambda: " ".join(r.choice(words) for _ in range(r.randint(1, 5)))  # noqa: E731
        self.env["doc"] = {}
        self.env["base"] = {n: c.get("opts", {}).get("base", "") for n, c in self.env["cls"].items()}
        for n in list(self.env["cls"]) + list(self.env["enm"]):
            if r.random() < 0.45:
                continue
            d = {"s": [text()] if r.random() < 0.8 else [], "l": [], "p": []}
            if d["s"] and r.random() < 0.4:
                d["l"] = ["\n".join(text() if r.random() < 0.8 or i == 0 else "  - " + text() for i in range(r.randint(1, 3)))]
            if n in self.env["cls"]:
                c = self.env["cls"][n]
                inherited = len(self.env["cls"][c["opts"]["base"]]["f"]) if c.get("opts", {}).get("base") else 0
                own = [f for f in c["f"][:inherited] if f["n"] in c["opts"].get("over", [])] + c["f"][inherited:]
                d["p"] = [{"n": f["n"], "d": text()} for f in own if r.random() < 0.5]
                if r.random() < 0.3:
                    r.shuffle(d["p"])
            if d["s"] or d["p"]:
                self.env["doc"][n] = d

    def registrations(self):
        r = self.r
        self.env["reg"] = {}
        self.style["decorate"] = r.random() < 0.5
        for n in list(self.env["cls"]) + list(self.env["enm"]):
            custom = n in self.env["cls"] and self.env["cls"][n]["kind"] == "custom"
            if not custom and r.random() > self.flags.get("preg", 0.25):
                continue
            e = {"id": n, "s": [], "x": []}
            if r.random() < 0.2:
                e["id"] = "Id-" + n
            if custom:
                e["s"] = [obj(type="string", description="custom")]
            elif r.random() < self.flags.get("pexplicit", 0):
                e["s"] = [r.choice([obj(), obj(type="string"), obj(type="object", title="mine"), obj(type="array", items=obj(type="integer"))])]
            if r.random() < 0.4:
                e["x"] = [{"k": "arr", "a": [self.scalar_doc() for _ in range(r.randint(1, 2))]}]
            self.env["reg"][n] = e

    def constrained(self):
        "A simple type with constraints."
        r = self.r
        k = r.choice(["range", "prec", "len", "fixed", "len"])
        if k == "range":
            lo, hi = sorted([r.choice([-10, 0, 1, 5, -2147483649, 10**12]), r.choice([0, 5, 100, 10**12, 10**13])])
            return ann({"k": "int"}, mark("range", i=[lo, hi]))
        if k == "prec":
            dec = r.choice([0, 0, 1, 2, 3, 6])
            m = mark("prec", i=[dec + r.randint(1, 3)] + ([dec] if dec or r.random() < 0.5 else []))
            return ann({"k": "decimal"} if self.flags.get("wide") and r.random() < 0.3 else {"k": "float"}, m)
        if k == "len":
            lo, hi = sorted([r.randint(0, 3), r.randint(0, 5)])
            return ann({"k": "str"}, *r.choice([[mark("minlen", i=[lo])], [mark("maxlen", i=[hi])], [mark("minlen", i=[lo]), mark("maxlen", i=[hi])],
                                                [mark("maxlen", i=[hi]), mark("minlen", i=[lo])], [mark("len", i=[hi])]]))
        n = r.choice(list(FIXED))
        base, signed, width = FIXED[n]
        if base == "float":
            return ann({"k": "float"}, mark("storage", i=[width]))
        lo, hi = (-(2 ** (8 * width - 1)), 2 ** (8 * width - 1) - 1) if signed else (0, 2 ** (8 * width) - 1)
        return ann({"k": "int"}, mark("signed", i=[signed]), mark("storage", i=[width]), mark("range", i=[lo, hi]))

    def constrained_value(self, T):
        r = self.r
        marks = {m["mk"]: m["i"] for m in T["m"]}
        k = T["a"][0]["k"]
        if k == "int" and "range" in marks:
            lo, hi = map(int, marks["range"])
            return {"k": "int", "v": str(r.choice([lo, hi, r.randint(lo, hi), min(max(0, lo), hi)]))}
        if k == "float" and "prec" in marks:
            sig, dec = (list(map(int, marks["prec"])) + [0])[:2]
            top = 10 ** (sig - dec) - 1
            x = float(r.choice([0, top, -top, r.randint(-top, top)]))
            if dec and r.random() < 0.5:
                x += 0.5 if x > 0 or x == 0 and r.random() < 0.5 else -0.5
            return {"k": "float", "v": repr(x)}
        if k == "str" and {"minlen", "maxlen", "len"} & set(marks):
            lo = int((marks.get("minlen") or marks.get("len") or ["0"])[0])
            hi = int((marks.get("maxlen") or marks.get("len") or [str(lo + 3)])[0])
            return {"k": "str", "v": "".join(r.choice("ab é1\n") for _ in range(r.choice([lo, hi, r.randint(lo, hi)])))}
        return None

    def place(self, n):
        "Assigns a declaration to the base module or the main module."
        if "mods" in self.style:
            self.style["mods"][n] = 0 if self.r.random() < 0.5 else 1

    def enums(self):
        r = self.r
        for i in range(r.randint(1, 2)):
            n = f"E{i + 1}{self.suffix}"
            kind = "str" if i == 0 else r.choice(["str", "int", "int", "float"])
            if kind == "float" and self.flags.get("open"):
                kind = "bool"
            if kind == "str":
                ms = [{"n": a, "v": {"k": "str", "v": b}} for a, b in r.sample(ENUM_STR, r.randint(1, 4) if r.random() < 0.7 else r.randint(5, 8))]
            elif kind == "int":
                vals = r.sample(["0", "1", "2", "-5", "100"], r.randint(1, 4))
                ms = [{"n": f"M{j}", "v": {"k": "int", "v": v}} for j, v in enumerate(vals)]
            elif kind == "bool":
                ms = [{"n": f"M{j}", "v": {"k": "bool", "v": v}} for j, v in enumerate(r.sample(["True", "False"], r.randint(1, 2)))]
            else:
                vals = r.sample(["0.5", "1.0", "-2.25"], r.randint(1, 3))
                ms = [{"n": f"M{j}", "v": {"k": "float", "v": v}} for j, v in enumerate(vals)]
            self.env["enm"][n] = ms
            self.place(n)
        # enumerations in the base module only, if it must not refer to the main module
        if "mods" in self.style:
            for n in self.env["enm"]:
                self.style["mods"][n] = 0

    def aliases(self):
        "Names of types that refer to themselves."
        r = self.r
        for i in range(r.randint(1, 2)):
            n = f"L{i + 1}{self.suffix}"
            ref = {"k": "ref", "n": n}
            base = r.choice([{"k": "int"}, {"k": "str"}, {"k": "bool"}])
            nest = r.choice([[{"k": "list", "a": [ref]}], [{"k": "dict", "a": [{"k": "str"}, ref]}], [{"k": "list", "a": [ref]}, {"k": "dict", "a": [{"k": "str"}, ref]}],
                             [{"k": "list", "a": [{"k": "dict", "a": [{"k": "str"}, ref]}]}]])
            self.env["als"][n] = self.union([base] + nest)

    def classes(self):
        r = self.r
        names = [f"C{i + 1}{self.suffix}" for i in range(r.randint(2, 5))]
        self.pending = list(names)
        mods = self.style.get("mods")
        if mods is not None:
            split = r.randint(1, len(names) - 1)
            for i, n in enumerate(names):
                mods[n] = 0 if i < split else 1
        self.pending_names = names
        for i, n in enumerate(names):
            self.declare(n, names[i:])
        # classes with a literal tag
        if r.random() < self.flags.get("tagged", 0.5):
            self.tagged_family()

    def declare(self, n, later):
        r = self.r
        mods = self.style.get("mods")
        if mods is not None:
            later = [x for x in later if mods[x] == mods[n]]
        kind = r.choices(["dc", "nt", "typed", "custom"], [10, 2, 2, self.flags.get("pcustom", 0.7)])[0]
        if self.flags.get("plain") and kind in ("typed", "custom"):
            # classes without annotations
            self.current, self.kind, fields = n, "typed", []
            for _ in range(r.choice([1, 2, 3])):
                f = self.field("nt", fields, later)
                if f:
                    fields.append(f if f["t"]["k"] != "ann" else dict(f, t=f["t"]["a"][0]))
            names = {self.json_name(f): f for f in fields}
            self.env["cls"][n] = {"kind": r.choice(["untyped", "unt"]), "f": [dict(f, d=NODEF) for f in names.values()], "opts": {}}
            return
        if kind == "custom":
            self.env["cls"][n] = {"kind": "custom", "f": [{"n": "value", "t": {"k": "str"}, "d": NODEF}]}
            return
        opts = {}
        fields = []
        if kind == "dc":
            for o, p in (("frozen", 0.25), ("slots", 0.15), ("kw_only", 0.2)):
                if r.random() < p:
                    opts[o] = True
            bases = [
                x for x, c in self.env["cls"].items()
                if c["kind"] == "dc" and bool(c["opts"].get("frozen")) == bool(opts.get("frozen")) and "base" not in c["opts"]
                and not opts.get("slots") and not c["opts"].get("slots") and not any(is_lit(f["t"]) for f in c["f"])
            ]
            if bases and r.random() < 0.4:
                opts["base"] = r.choice(bases)
                fields = copy.deepcopy(self.env["cls"][opts["base"]]["f"])
                if any(f["d"]["k"] != "no" for f in fields):
                    opts["kw_only"] = True
        elif kind == "typed":
            bases = [x for x, c in self.env["cls"].items() if c["kind"] == "typed" and "base" not in c["opts"] and not any(is_lit(f["t"]) for f in c["f"])]
            if bases and r.random() < 0.4:
                opts["base"] = r.choice(bases)
                fields = copy.deepcopy(self.env["cls"][opts["base"]]["f"])
        inherited = len(fields)
        if inherited and r.random() < 0.4:
            # declared again, the same way
            same = mods is None or mods[opts["base"]] == mods[n]
            opts["over"] = [f["n"] for f in r.sample(fields, r.randint(1, inherited)) if same or '"ref"' not in json.dumps(f["t"])]
        self.current = n
        self.kind = kind
        for _ in range(r.choices([0, 1, 2, 3, 4], [0.4, 2, 4, 3, 1])[0]):
            f = self.field(kind, fields, later)
            if f:
                fields.append(f)
        if (kind == "nt" or self.flags.get("nonempty")) and not fields:
            f = self.field(kind, fields, later)
            fields.append(f or {"n": "only", "t": {"k": "int"}, "d": NODEF})
        own = fields[inherited:]
        if kind in ("dc", "nt") and not opts.get("kw_only"):
            own.sort(key=lambda f: f["d"]["k"] != "no")
        c = {"kind": kind, "f": fields[:inherited] + own, "opts": opts}
        self.env["cls"][n] = c

    def json_name(self, f):
        import keyword

        T = f["t"]
        if T["k"] == "ann":
            for m in T["m"]:
                if m["mk"] == "alias":
                    return m["s"]
        n = f["n"]
        return n[:-1] if n.endswith("_") and keyword.iskeyword(n[:-1]) else n

    def field(self, kind, fields, later):
        r = self.r
        for _ in range(20):
            name = r.choice(FIELD_NAMES)
            if kind == "nt" and name.startswith("_"):
                continue
            T = self.type(2, later=later)
            if r.random() < 0.35 and not self.is_opt(T):
                T = self.optional(T)
            if T["k"] == "none" or wide_union(T, self.no_member):
                continue
            if r.random() < 0.2:
                ms = [mark("alias", r.choice(ALIASES[:-2] if r.random() < 0.9 else ALIASES))]
                if r.random() < 0.3:
                    ms.append(mark("special"))
                if r.random() < 0.2:
                    ms.insert(0, mark("doc", "text"))
                T = ann(T["a"][0], *T["m"], *ms) if T["k"] == "ann" else ann(T, *ms)
            f = {"n": name, "t": T, "d": NODEF}
            if any(g["n"] == name or self.json_name(g) == self.json_name(f) for g in fields):
                continue
            if is_lit(T) and any(g["n"] == name and is_lit(g["t"]) for c in self.env["cls"].values() for g in c["f"]):
                continue  # classes with a common literal field are tagged: see tagged_family
            p = r.random()
            if kind in ("dc", "nt") and p < 0.3:
                V = self.value(T, 1)
                if V is not None and self.immutable(V):
                    f["d"] = {"k": "val", "v": [V]}
            elif kind == "dc" and p < 0.45:
                V = self.value(T, 2)
                if V is not None:
                    f["d"] = {"k": "fac", "v": [V]}
            elif kind in ("dc", "nt") and p < 0.55 and self.is_opt(T):
                f["d"] = {"k": "val", "v": [NONE]}
            return f
        return None

    def immutable(self, V):
        if V["k"] == "tuple":
            return all(self.immutable(x) for x in V["a"])
        return V["k"] in SCALARS or V["k"] in TEXTS or V["k"] == "enum"

    def tagged_family(self):
        r = self.r
        tag = r.choice(["kind", "type_", "class_", "tag"])
        alias = r.choice([None, None, "_tag", "t"])
        enum_tag = r.random() < 0.3
        en = "E1" + self.suffix
        count = r.randint(2, 3)
        if enum_tag and len(self.env["enm"][en]) < count:
            enum_tag = False
        names = []
        values = r.sample(self.env["enm"][en], count) if enum_tag else r.sample(["a", "b", "c", "x1", ""], count)
        second = r.random() < 0.25
        for i in range(count):
            n = f"T{i + 1}{self.suffix}"
            self.current = n
            if enum_tag:
                vs = [{"k": "enum", "n": en, "v": values[i]["n"]}]
            else:
                vs = [{"k": "str", "v": values[i]}]
                if r.random() < 0.3:
                    vs.append({"k": "str", "v": f"extra{i}"})
            lit = {"k": "lit", "v": vs}
            if alias:
                lit = ann(lit, mark("alias", alias))
            fields = [{"n": tag, "t": lit, "d": NODEF}]
            if second:
                fields.append({"n": "ver", "t": {"k": "lit", "v": [{"k": "int", "v": str(i)}]}, "d": NODEF})
            for _ in range(r.randint(0, 2)):
                f = self.field("dc", fields, [])
                if f and not is_lit(f["t"]) and f["n"] not in ("kind", "type_", "class_", "tag", "ver") and self.json_name(f) not in ("_tag", "t"):
                    f["d"] = NODEF
                    fields.append(f)
            if r.random() < 0.3:
                fields[0]["d"] = {"k": "val", "v": [vs[0]]}
                fields = fields[1:] + fields[:1]
            self.env["cls"][n] = {"kind": "dc", "f": fields, "opts": {}}
            if "mods" in self.style:
                self.style["mods"][n] = 1
            names.append(n)
        self.families.append(names)

    # ----------------------------------------------------------------------------------------------------------------
    # types

    def is_opt(self, T):
        if T["k"] == "ann":
            return self.is_opt(T["a"][0])
        return T["k"] == "union" and any(self.is_opt(x) or x["k"] == "none" for x in T["a"])

    def bare(self, T):
        while T["k"] in ("ann", "ref"):
            if T["k"] == "ann":
                T = T["a"][0]
            elif T["n"] in self.env["als"]:
                T = self.env["als"][T["n"]]
            elif T["n"] in self.env["enm"]:
                T = {"k": "enum", "n": T["n"]}
            else:
                T = {"k": "cls", "n": T["n"]}
        return T

    def flat(self, T):
        if T["k"] == "union":
            return [y for x in T["a"] for y in self.flat(x)]
        return [T]

    def union(self, parts):
        seen, out = {}, []
        for p in parts:
            for q in self.flat(p):
                k = key(q).replace('"k": "ref"', '"k": "cls"')
                if k not in seen:
                    seen[k] = q
                    out.append(q)
        if len(out) == 1:
            return out[0]
        # one order for each set of members: `typing` takes such unions for each other
        order = self.unions.setdefault(frozenset(seen), list(seen))
        return {"k": "union", "a": [seen[k] for k in order]}

    def optional(self, T):
        return self.union([T, {"k": "none"}])

    def visible(self, n):
        mods = self.style.get("mods")
        if mods is None or getattr(self, "current", None) is None:
            return True
        return mods.get(n, 0) <= mods.get(self.current, 1)

    def hashable_class(self, n):
        c = self.env["cls"][n]
        if c["kind"] == "custom":
            return True
        if c["kind"] == "nt" or (c["kind"] == "dc" and c["opts"].get("frozen")):
            return all(self.hashable(f["t"]) for f in c["f"])
        return False

    def hashable(self, T):
        k = T["k"]
        if k in ("ann", "tuple", "union"):
            return all(self.hashable(x) for x in T["a"])
        if k == "cls":
            return T["n"] in self.env["cls"] and self.hashable_class(T["n"])
        return k in SCALARS or k in TEXTS or k in ("enum", "lit")

    @property
    def no_member(self):
        "The kinds that unions do not have as members."
        return ("json", "sjson", "decimal") if self.flags.get("open") else WIDE

    def scalar(self):
        r = self.r
        return {"k": r.choices(SCALARS[1:] + TEXTS, [2, 4, 3, 5, 1, 1.5, 1, 1, 1, 1, 1, 0.7])[0]}

    def type(self, depth, later=(), hashable=False, aslit=True):
        r = self.r
        for _ in range(30):
            T = self._type(depth, later, hashable)
            if hashable and not self.hashable(T) or wide_union(T, self.no_member):
                continue
            return T
        return {"k": "str"}

    def _type(self, depth, later, hashable):
        r = self.r
        choices = ["scalar", "enum", "lit"]
        weights = [6, 1, 1]
        classes = [n for n in self.env["cls"] if self.visible(n) and (not hashable or self.hashable_class(n))]
        if classes:
            choices.append("cls")
            weights.append(3)
        if depth > 0:
            choices += ["list", "set", "dict", "tuple", "union", "opt", "ann"]
            weights += [2, 1, 1.5, 1.5, 2, 1, 0.7]
            if self.flags.get("fset"):
                choices.append("fset")
                weights.append(1)
        if self.flags.get("schema"):
            choices.append("constr")
            weights.append(1.5)
        if (self.flags.get("wide") or self.flags.get("open")) and not hashable:
            choices.append("wide")
            weights.append(1)
        k = r.choices(choices, weights)[0]
        if k == "scalar":
            return self.scalar()
        if k == "constr":
            return self.constrained()
        if k == "wide" and not self.flags.get("wide"):
            return {"k": r.choice(["any", "json", "sjson", "jobj", "jarr"])}
        if k == "wide":
            return {"k": r.choice(["any", "json", "sjson", "jobj", "jarr", "decimal"])}
        if k == "enum":
            es = [n for n in self.env["enm"] if self.visible(n)]
            return {"k": "enum", "n": r.choice(es)} if es else self.scalar()
        if k == "lit":
            return self.literal()
        if k == "cls":
            return cls(r.choice(classes))
        if k == "fset":
            return {"k": "fset", "a": [self.type(depth - 1, (), True)]}
        fwd = [{"k": "ref", "n": n} for n in self.env["als"] if r.random() < 0.5 and (not self.flags.get("schema") or self.kind == "dc")] + [{"k": "ref", "n": n} for n in later if n not in self.env["cls"]] + \
              [{"k": "ref", "n": n} for n in self.env["cls"] if r.random() < 0.3 and self.same_module(n)]

        def sub(d=depth - 1, h=False):
            if fwd and not h and r.random() < 0.35:
                return r.choice(fwd)
            return self.type(d, later, h or hashable)

        if k == "list":
            return {"k": "list", "a": [sub()]}
        if k == "set":
            return {"k": "set", "a": [self.type(depth - 1, (), True)]}
        if k == "dict":
            es = [n for n, ms in self.env["enm"].items() if ms[0]["v"]["k"] == "str" and self.visible(n)]
            kt = {"k": "enum", "n": r.choice(es)} if es and r.random() < 0.4 else {"k": "str"}
            return {"k": "dict", "a": [kt, sub()]}
        if k == "tuple":
            return {"k": "tuple", "a": [self.type(depth - 1, later, hashable) for _ in range(r.choices([0, 1, 2, 3], [0.3, 2, 4, 2])[0])]}
        if k == "opt":
            return self.optional(sub())
        if k == "union":
            return self.union([self.type(depth - 1, (), hashable) for _ in range(r.randint(2, 3))])
        T = self.type(depth - 1, (), hashable)
        if T["k"] in ("ann", "none", "jobj", "jarr"):
            return T
        return ann(T, r.choice([mark("doc", "note"), mark("special"), mark("storage", i=[4]), mark("minlen", i=[0])]))

    def same_module(self, n):
        mods = self.style.get("mods")
        return mods is None or mods.get(n, 0) == mods.get(getattr(self, "current", None), 1)

    def literal(self):
        r = self.r
        k = r.choice(["str", "str", "int", "bool", "enum"])
        if k == "str":
            vs = [{"k": "str", "v": v} for v in r.sample(["a", "b", "", "1", "x y", "é"], r.randint(1, 3))]
        elif k == "int":
            vs = [{"k": "int", "v": v} for v in r.sample(["0", "1", "2", "10", "-1"], r.randint(1, 3))]
        elif k == "bool":
            vs = [{"k": "bool", "v": r.choice(["True", "False"])}]
        else:
            es = [n for n in self.env["enm"] if self.visible(n)]
            n = r.choice(es) if es else None
            if n is None:
                return {"k": "lit", "v": [{"k": "str", "v": "a"}]}
            ms = self.env["enm"][n]
            vs = [{"k": "enum", "n": n, "v": m["n"]} for m in r.sample(ms, r.randint(1, len(ms)))]
        return {"k": "lit", "v": vs}

    def top(self, depth=2):
        "A type for use outside of classes (no forward references)."
        self.current = self.kind = None
        r = self.r
        p = r.random()
        if self.families and p < self.flags.get("ptag", 0.15):
            T = self.union([cls(n) for n in r.sample(self.families[0], len(self.families[0]))])
            q = r.random()
            if q < 0.2:
                T = {"k": "list", "a": [T]}
            elif q < 0.3:
                T = self.optional(T)
            return T
        for _ in range(30):
            T = cls(r.choice(list(self.env["cls"]))) if p < 0.5 else self.type(depth)
            if not self.has_ref(T):
                return T
        return {"k": "int"}

    def has_ref(self, T):
        return T["k"] == "ref" or any(self.has_ref(x) for x in T.get("a", []))

    # ----------------------------------------------------------------------------------------------------------------
    # values

    def value(self, T, depth=4):
        "A value of the type, or None if there is none at this depth."
        r = self.r
        k = T["k"]
        if k == "ann":
            return self.constrained_value(T) or self.value(T["a"][0], depth)
        if k == "ref":
            if T["n"] not in self.env["als"] and T["n"] not in self.env["enm"] and T["n"] not in self.env["cls"]:
                return None
            return self.value(self.bare(T), depth)
        if k == "none":
            return NONE
        if k == "fset":
            return None
        if k in WIDE:
            return self.wide_value(k, depth)
        if k == "bool":
            return {"k": "bool", "v": r.choice(["True", "False"])}
        if k == "int":
            return {"k": "int", "v": r.choice(INTS) if r.random() < 0.6 else str(r.randint(-10**9, 10**12))}
        if k == "float":
            return {"k": "float", "v": r.choice(FLOATS) if r.random() < 0.6 else repr(r.uniform(-1e6, 1e6))}
        if k == "str":
            return {"k": "str", "v": r.choice(STRINGS)}
        if k in TEXTS:
            return self.text(k)
        if k == "lit":
            return r.choice(T["v"])
        if k == "enum":
            return {"k": "enum", "n": T["n"], "v": r.choice(self.env["enm"][T["n"]])["n"]}
        if depth <= 0 and k in ("list", "set"):
            return {"k": k, "a": []}
        if depth <= 0 and k == "dict":
            return {"k": "dict", "p": []}
        if k == "list":
            xs = [self.value(T["a"][0], depth - 1) for _ in range(r.choice([0, 1, 1, 2, 3]))]
            if xs and xs[-1] is not None and r.random() < 0.2:
                xs.append(self.twin(T["a"][0], xs[-1], depth - 1))
            return {"k": "list", "a": [x for x in xs if x is not None]}
        if k == "set":
            xs = []
            for _ in range(r.choice([0, 1, 2, 3])):
                x = self.value(T["a"][0], depth - 1) if not xs or r.random() < 0.6 else self.twin(T["a"][0], r.choice(xs), depth - 1)
                if x is not None and not any(self.same(x, y) for y in xs):
                    xs.append(x)
            return {"k": "set", "a": xs}
        if k == "dict":
            kt = self.bare(T["a"][0])
            ps = []
            for _ in range(r.choice([0, 1, 2, 3])):
                a = {"k": "str", "v": r.choice(STRINGS)} if kt["k"] == "str" else self.value(kt)
                b = self.value(T["a"][1], depth - 1)
                if b is not None and not any(p["key"] == a for p in ps):
                    ps.append({"key": a, "val": b})
            return {"k": "dict", "p": ps}
        if k == "tuple":
            xs = [self.value(x, depth - 1) for x in T["a"]]
            return None if any(x is None for x in xs) else {"k": "tuple", "a": xs}
        if k == "union":
            ms = list(T["a"])
            r.shuffle(ms)
            if depth <= 0:
                ms.sort(key=lambda m: m["k"] not in ("none",) + SCALARS)
            for m in ms:
                V = self.value(m, depth - 1)
                if V is not None:
                    return V
            return None
        if k == "cls":
            c = self.env["cls"].get(T["n"])
            if c is None or depth < -6:
                return None
            ms = []
            for f in c["f"]:
                V = self.value(f["t"], depth - 1)
                if V is None:
                    return None
                ms.append({"n": f["n"], "x": V})
            return {"k": "obj", "n": T["n"], "m": ms}
        raise ValueError(T)

    def open_value(self, k, depth):
        "Data of JSON types."
        r = self.r
        if k in ("any", "json", "sjson"):
            p = r.random()
            if p < 0.6 or depth <= 0:
                return self.value({"k": r.choice(["none", "bool", "int", "float", "str", "str"][k == "sjson":])}, depth)
            k2 = "jobj" if p < 0.8 else "jarr"
        else:
            k2, k = k, "any"
        n = r.choice([0, 1, 2, 3])
        if k2 == "jarr":
            return {"k": "list", "a": [self.open_value(k, depth - 2) for _ in range(n)]}
        return {"k": "dict", "p": [{"key": {"k": "str", "v": x}, "val": self.open_value(k, depth - 2)} for x in r.sample(["", "a", "b", "type", "$ref"], n)]}

    def wide_value(self, k, depth):
        r = self.r
        if self.flags.get("open"):
            return self.open_value(k, depth)
        if k in ("json", "sjson", "decimal"):
            return None
        scalar = lambda: self.value({"k": r.choice(["bool", "int", "float", "str"])}, depth)  # noqa: E731
        if k == "any":
            k = r.choice(["scalar", "scalar", "jobj", "jarr"])
        if k == "scalar":
            return scalar()
        if k == "jarr":
            return {"k": "list", "a": [scalar() for _ in range(r.randint(0, 2))]}
        return {"k": "dict", "p": [{"key": {"k": "str", "v": n}, "val": scalar()} for n in r.sample(["", "a", "b"], r.randint(0, 2))]}

    def twin(self, T, x, depth):
        "A value that looks like another one: of another union member but with the same text."
        r = self.r
        B = self.bare(T)
        text = x["v"] if "v" in x else text_of(x) if x["k"] in TEXTS else None
        if text is not None and B["k"] == "union":
            for m in r.sample(B["a"], len(B["a"])):
                b = self.bare(m)
                if b["k"] == x["k"] or m["k"] == "ann" and self.constrained_value(m):
                    continue
                if b["k"] == "str":
                    return {"k": "str", "v": text}
                if b["k"] == "int" and text.lstrip("-").isdigit() and str(int(text)) == text:
                    return {"k": "int", "v": text}
                if b["k"] == "bool" and text in ("True", "False"):
                    return {"k": "bool", "v": text}
                if b["k"] == "none" and text == "None":
                    return NONE
                if b["k"] == "enum":
                    for e in self.env["enm"][b["n"]]:
                        if e["v"]["v"] == text:
                            return {"k": "enum", "n": b["n"], "v": e["n"]}
        return self.value(T, depth)

    def same(self, x, y):
        "Approximates (from above) equality of Python values."
        if x == y:
            return True
        num = ("bool", "int", "float")
        if x["k"] in num and y["k"] in num:
            return float_of(x) == float_of(y)
        if x["k"] == y["k"] == "datetime" or x["k"] == y["k"] == "time":
            return True
        if x["k"] == y["k"] == "tuple":
            return len(x["a"]) == len(y["a"]) and all(self.same(a, b) for a, b in zip(x["a"], y["a"]))
        if x["k"] == y["k"] == "obj":
            return x["n"] == y["n"] and all(self.same(a["x"], b["x"]) for a, b in zip(x["m"], y["m"]))
        if x["k"] == "tuple" and y["k"] == "obj" or x["k"] == "obj" and y["k"] == "tuple":
            return True
        return False

    def text(self, k):
        r = self.r
        if k == "bytes":
            return {"k": k, "b": [r.randint(0, 255) for _ in range(r.choice([0, 1, 2, 3, 4, 5, 6, 9]))]}
        if k == "uuid":
            return {"k": k, "b": [r.choice([0, 255, r.randint(0, 255)]) for _ in range(16)]}
        if k == "ipv4":
            return {"k": k, "b": [r.choice([0, 1, 10, 99, 100, 255, r.randint(0, 255)]) for _ in range(4)]}
        if k == "ipv6":
            while True:
                b = []
                for _ in range(8):
                    b += r.choice([[0, 0], [0, 0], [0, 1], [255, 255], [0, r.randint(0, 255)], [r.randint(0, 255), r.randint(0, 255)]])
                if b[:10] != [0] * 10:  # embedded IPv4 addresses have another text form
                    return {"k": k, "b": b}
        if k == "date":
            return {"k": k, "f": self.date()}
        if k == "time":
            return {"k": k, "f": self.clock() + (self.offset() if r.random() < 0.5 else [])}
        if k == "datetime":
            naive = r.random() < self.flags.get("naive", 0.05)
            return {"k": k, "f": self.date() + self.clock() + ([] if naive else self.offset())}
        if k == "timedelta":
            days = r.choice([0, 0, 1, -1, 7, 365, -999999999, 999999999, r.randint(-4000, 4000)])
            secs = r.choice([0, 1, 59, 60, 61, 3599, 3600, 3601, 86399, r.randint(0, 86399)])
            us = r.choice([0, 0, 1, 1000, 999000, 999999, 500000, r.randint(0, 999999)])
            if days == -999999999:
                return {"k": k, "f": [days, secs, us]}
            return {"k": k, "f": [days, secs, us]}
        raise ValueError(k)

    def date(self):
        r = self.r
        return r.choice([[1, 1, 1], [9999, 12, 31], [2000, 2, 29], [2024, 2, 29], [1999, 12, 31],
                         [r.randint(1, 9999), r.randint(1, 12), r.randint(1, 28)]])

    def clock(self):
        r = self.r
        return [r.choice([0, 23, r.randint(0, 23)]), r.choice([0, 59, r.randint(0, 59)]), r.choice([0, 59, r.randint(0, 59)]),
                r.choice([0, 0, 1, 999999, 500000, 1000, 123, r.randint(0, 999999)])]

    def offset(self):
        r = self.r
        sg = r.choice([1, -1])
        off = r.choice([0, 0, 3600, 19800, 86340, 60, 1, 86399, r.randint(0, 86399)])
        us = r.choice([0, 0, 0, 0, 1, 500000]) if off < 86399 or True else 0
        if off == 0 and us == 0:
            sg = 1
        return [sg, off, us]

    # ----------------------------------------------------------------------------------------------------------------
    # documents

    def doc(self, T, V=None):
        V = V or self.value(T)
        return None if V is None else self.ser(V)

    def ser(self, V):
        k = V["k"]
        if k == "none":
            return NULL
        if k in SCALARS:
            return {"k": k, "v": V["v"]}
        if k in TEXTS:
            return {"k": "str", "v": text_of(V)}
        if k == "enum":
            ms = self.env["enm"][V["n"]]
            return self.ser(next(m["v"] for m in ms if m["n"] == V["v"]))
        if k in ("list", "tuple", "set"):
            return {"k": "arr", "a": [self.ser(x) for x in V["a"]]}
        if k == "dict":
            return {"k": "map", "m": [{"n": self.ser(p["key"])["v"], "j": self.ser(p["val"])} for p in V["p"]]}
        c = self.env["cls"][V["n"]]
        if c["kind"] == "custom":
            return {"k": "str", "v": "v:" + V["m"][0]["x"]["v"]}
        ms = []
        for f, m in zip(c["f"], V["m"]):
            if m["x"]["k"] != "none":
                ms.append({"n": self.json_name(f), "j": self.ser(m["x"])})
        return {"k": "map", "m": ms}

    def scalar_doc(self):
        r = self.r
        k = r.choice(["null", "bool", "int", "float", "str", "str", "arr", "map"])
        if k == "null":
            return NULL
        if k == "bool":
            return {"k": "bool", "v": r.choice(["True", "False"])}
        if k == "int":
            return {"k": "int", "v": r.choice(["0", "1", "2", "-1", "10", "2147483648"])}
        if k == "float":
            return {"k": "float", "v": r.choice(["0.0", "1.0", "2.0", "0.5", "-1.5"])}
        if k == "str":
            return {"k": "str", "v": r.choice(STRINGS)}
        if k == "arr":
            return {"k": "arr", "a": []}
        return {"k": "map", "m": []}

    def positions(self, J, path=()):
        yield path
        if J["k"] == "arr":
            for i, x in enumerate(J["a"]):
                yield from self.positions(x, path + (("a", i),))
        elif J["k"] == "map":
            for i, m in enumerate(J["m"]):
                yield from self.positions(m["j"], path + (("m", i),))

    def at(self, J, path):
        for a, i in path:
            J = J[a][i] if a == "a" else J[a][i]["j"]
        return J

    def put(self, J, path, x):
        if not path:
            return x
        (a, i), rest = path[0], path[1:]
        J = copy.copy(J)
        J[a] = list(J[a])
        if a == "a":
            J[a][i] = self.put(J[a][i], rest, x)
        else:
            J[a][i] = dict(J[a][i], j=self.put(J[a][i]["j"], rest, x))
        return J

    def mutate(self, J):
        "One edit at a random position."
        r = self.r
        ps = list(self.positions(J))
        path = r.choice(ps)
        x = self.at(J, path)
        k = x["k"]
        p = r.random()
        if p < 0.3:
            y = self.scalar_doc()
        elif p < 0.4:
            y = {"k": "arr", "a": [x]} if p < 0.35 else {"k": "map", "m": [{"n": "x", "j": x}]}
        elif k == "bool":
            y = r.choice([{"k": "int", "v": "1" if x["v"] == "True" else "0"}, {"k": "str", "v": x["v"].lower()}])
        elif k == "int":
            y = r.choice([{"k": "float", "v": x["v"] + ".0"} if len(x["v"]) < 15 else NULL, {"k": "str", "v": x["v"]},
                          {"k": "bool", "v": "True" if x["v"] == "1" else "False"}, {"k": "int", "v": str(int(x["v"]) + 1)}])
        elif k == "float":
            y = r.choice([{"k": "str", "v": x["v"]}, {"k": "int", "v": "1"}, {"k": "bool", "v": "True"}])
        elif k == "str":
            y = r.choice([{"k": "str", "v": self.edit(x["v"])}, {"k": "int", "v": x["v"]} if x["v"].isdigit() and x["v"].isascii() and (x["v"] == "0" or x["v"][0] != "0") else NULL,
                          {"k": "arr", "a": [{"k": "str", "v": c} for c in x["v"][:3]]}, {"k": "str", "v": self.edit(x["v"])}])
        elif k == "arr":
            a = list(x["a"])
            q = r.random()
            if q < 0.4 and a:
                a.pop(r.randrange(len(a)))
            elif q < 0.6 and a:
                a.insert(r.randrange(len(a) + 1), r.choice(a))
            elif q < 0.8:
                a.insert(r.randrange(len(a) + 1), self.scalar_doc())
            elif len(a) > 1:
                r.shuffle(a)
            y = {"k": "arr", "a": a} if q < 0.97 else {"k": "map", "m": [{"n": str(i), "j": b} for i, b in enumerate(a)]}
        elif k == "map":
            m = list(x["m"])
            q = r.random()
            names = [e["n"] for e in m]
            if q < 0.3 and m:
                m.pop(r.randrange(len(m)))
            elif q < 0.5 and m:
                i = r.randrange(len(m))
                m[i] = dict(m[i], j=NULL)
            elif q < 0.75:
                n = r.choice(FIELD_NAMES + ALIASES + ["extra", "unknown"])
                if n not in names:
                    m.insert(r.randrange(len(m) + 1), {"n": n, "j": self.scalar_doc()})
            elif q < 0.9 and m:
                i = r.randrange(len(m))
                n = r.choice([m[i]["n"] + "_", m[i]["n"].upper(), m[i]["n"][:-1], "other"])
                if n not in names:
                    m[i] = dict(m[i], n=n)
            elif q < 0.95:
                return self.put(J, path, {"k": "arr", "a": [e["j"] for e in m]})
            else:
                r.shuffle(m)
            y = {"k": "map", "m": m}
        else:
            y = self.scalar_doc()
        return self.put(J, path, y)

    def members(self, J):
        "Every property of some objects in the document present, absent, null or joined by others."
        r = self.r
        if J["k"] == "arr":
            return {"k": "arr", "a": [self.members(x) for x in J["a"]]}
        if J["k"] != "map":
            return J
        bad = r.random() < 0.3
        out = []
        for m in J["m"]:
            p = r.random()
            if p < 0.2:
                continue
            if p < 0.35:
                out.append(dict(m, j=NULL))
            elif p < 0.42 and bad:
                out.append(dict(m, j=self.mutate(m["j"])))
            else:
                out.append(dict(m, j=self.members(m["j"])))
        names = [m["n"] for m in out]
        for _ in range(r.choice([0, 0, 0, 1, 2])):
            n = r.choice(FIELD_NAMES + ALIASES + ["extra", "unknown"])
            if n not in names:
                names.append(n)
                out.insert(r.randrange(len(out) + 1), {"n": n, "j": r.choice([NULL, self.scalar_doc()])})
        if r.random() < 0.2:
            r.shuffle(out)
        return {"k": "map", "m": out}

    def duration(self):
        "A text of the duration grammar."
        r = self.r

        def comp(u, p=0.4):
            return f"{r.choice([0, 1, 7, 23, 24, 59, 60, 61, 100, 3600, 86400, 99999])}{u}" if r.random() < p else ""

        date = comp("W", 0.2) + comp("D")
        time = comp("H") + comp("M")
        if r.random() < 0.5:
            frac = r.choice(["", "", ".5", ".000001", ".123456", ".1234567", ".100000000", ".999999999", "."])
            time += f"{r.choice([0, 1, 30, 59, 60, 86399, 100000])}{frac}S"
        return r.choice(["", "", "-"]) + "P" + date + ("T" + time if time or r.random() < 0.1 else "")

    def edit(self, s):
        r = self.r
        q = r.random()
        i = r.randrange(len(s) + 1)
        alphabet = "0123456789-:.+TZPDHMSWYabcdefxyz=/ "
        if q < 0.35 and s:
            i = r.randrange(len(s))
            return s[:i] + r.choice(alphabet) + s[i + 1:]
        if q < 0.65:
            return s[:i] + r.choice(alphabet) + s[i:]
        if s:
            i = r.randrange(len(s))
            return s[:i] + s[i + 1:]
        return s + r.choice(alphabet)


NODEF = {"k": "no", "v": []}
WIDE = ("any", "json", "sjson", "jobj", "jarr", "decimal")
FIXED = {
    "int8": ("int", True, 1), "int16": ("int", True, 2), "int32": ("int", True, 4), "int64": ("int", True, 8), "uint8": ("int", False, 1),
    "uint16": ("int", False, 2), "uint32": ("int", False, 4), "uint64": ("int", False, 8), "float32": ("float", None, 4), "float64": ("float", None, 8),
}


def obj(**kw):
    "A JSON object with simple members."
    return {"k": "map", "m": [{"n": n, "j": x if isinstance(x, dict) else {"k": "str", "v": x}} for n, x in kw.items()]}


def wide_union(T, kinds=WIDE):
    "Whether a union has a member that is itself a union of everything."
    if T["k"] == "union" and any(wide_bare(x) in kinds for x in T["a"]):
        return True
    return any(wide_union(x, kinds) for x in T.get("a", []))


def wide_bare(T):
    if T["k"] == "ref" and T["n"][0] == "L":
        return "json"
    return wide_bare(T["a"][0]) if T["k"] == "ann" else T["k"]


NULL = {"k": "null", "v": "null"}


def is_lit(T):
    return T["k"] == "lit" or T["k"] == "ann" and is_lit(T["a"][0])


def float_of(x):
    return {"True": 1.0, "False": 0.0}.get(x["v"]) if x["k"] == "bool" else float(x["v"])


def text_of(V):
    "The text of a scalar (only used to make documents; the specification has its own)."
    import base64
    import ipaddress
    import uuid

    k = V["k"]
    if k == "bytes":
        return base64.b64encode(bytes(V["b"])).decode()
    if k == "uuid":
        return str(uuid.UUID(bytes=bytes(V["b"])))
    if k == "ipv4":
        return str(ipaddress.IPv4Address(bytes(V["b"])))
    if k == "ipv6":
        return str(ipaddress.IPv6Address(bytes(V["b"])))
    f = V["f"]
    if k == "date":
        return datetime.date(*f).isoformat()
    if k in ("time", "datetime"):
        n = 4 if k == "time" else 7
        tz = None
        if len(f) > n:
            sg, off, us = f[n:]
            tz = datetime.timezone(sg * datetime.timedelta(seconds=off, microseconds=us))
        typ = datetime.time if k == "time" else datetime.datetime
        s = typ(*f[:n], tzinfo=tz).isoformat()
        if k == "datetime" and s.endswith("+00:00"):
            s = s[:-6] + "Z"
        return s
    total = f[0] * 86400 * 10**6 + f[1] * 10**6 + f[2]
    sign = "-" if total < 0 else ""
    total = abs(total)
    d, rest = divmod(total, 86400 * 10**6)
    s, us = divmod(rest, 10**6)
    frac = f".{us:06d}" if us else ""
    text = (f"{d}D" if d else "") + (f"T{s}{frac}S" if s or us or not d else "")
    return f"{sign}P{text}"
