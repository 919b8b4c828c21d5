"""Types and modules made at run time, annotation classes (property C23)."""

import enum
import itertools
import operator
import random
import sys
import types
import typing

from docs import failure
from runner import guarded

LIT = {"int": int, "float": float, "str": str, "bool": lambda v: v == "True", "none": lambda v: None}


def literal(v):
    return repr(LIT[v["k"]](v["v"]))


def described(x):
    k = {int: "int", float: "float", str: "str", bool: "bool", type(None): "none"}.get(type(x), "?")
    return {"k": k, "v": x if k == "str" else repr(x)}


def members(E):
    return [{"n": m.name, "v": described(m.value)} for m in E]


def within(name, source):
    m = types.ModuleType(name)
    sys.modules[name] = m
    exec(compile(source, f"<{name}>", "exec"), m.__dict__)
    return m


def run_extend(w, ev, n):
    from strong_typing.inspection import extend_enum

    name = f"{w['name']}_e{n}"
    docs = ev.get("docs") or [True] * len(ev["chain"])
    text = "import enum\n"
    for i, X in enumerate(ev["chain"]):
        base = ev.get("base", "enum.Enum") if i == 0 else "enum.Enum"
        text += f"class E{i}({base}):\n" + (f'    "Extension {i}."\n' if docs[i] else "") + "".join(f"    {m['n']} = {literal(m['v'])}\n" for m in X) + ("    pass\n" if not X else "")
    m = within(name, text)
    R = []
    try:
        cur = m.E0
        for i in range(1, len(ev["chain"])):
            ext = m.__dict__[f"E{i}"]
            before = members(cur), list(cur), dict(cur.__members__)
            ok, r = guarded(lambda: extend_enum(cur)(ext))
            rec = {"ok": ok, "e": "" if ok else failure(r), "m": [], "named": False, "doc": False, "bound": False, "fresh": False}
            rec["kept"] = (members(cur), list(cur), dict(cur.__members__)) == before and all(isinstance(x, cur) for x in cur) and (ok or m.__dict__[f"E{i}"] is ext)
            if ok:
                rec["m"] = members(r)
                rec["named"] = (r.__name__, r.__module__) == (f"E{i}", name) and issubclass(r, enum.Enum)
                rec["doc"] = r.__doc__ == ext.__doc__ and (not docs[i] or r.__doc__ == f"Extension {i}.")
                rec["bound"] = sys.modules[name].__dict__.get(f"E{i}") is r
                rec["fresh"] = r is not cur and r is not ext and not any(x in list(r) for x in before[1]) and all(isinstance(x, r) for x in r)
                cur = r
            R.append(rec)
    finally:
        sys.modules.pop(name, None)
    return R


def run_modules(w, ev, n):
    from strong_typing.inspection import create_module

    prefix = f"{w['name']}_m{n}_"
    R, made = [], {}
    try:
        for i, x in enumerate(ev["log"]):
            name = prefix + x["n"]
            rec = {"ok": True, "e": "", "named": False, "reg": False, "empty": False, "old": False}
            if x["op"] == "drop":
                sys.modules.pop(name, None)
            else:
                ok, r = guarded(lambda: create_module(name))
                rec["ok"] = ok
                if ok:
                    rec["named"] = isinstance(r, types.ModuleType) and r.__name__ == name
                    rec["reg"] = sys.modules.get(name) is r
                    rec["empty"] = not [k for k in vars(r) if not k.startswith("__")]
                    r.marker = i
                    made[name] = (r, i)
                else:
                    rec["e"] = failure(r)
                    old, mark = made.get(name, (None, None))
                    rec["old"] = sys.modules.get(name) is old and getattr(old, "marker", None) == mark
            R.append(rec)
    finally:
        for x in ev["log"]:
            sys.modules.pop(prefix + x["n"], None)
    return R


def truth(fun):
    ok, r = guarded(fun)
    return ("T" if r is True else "F" if r is False else repr(r)) if ok else failure(r)


def run_annotation(objects, ev):
    x = objects(ev["x"])
    y = x if ev["same"] else objects(ev["y"])
    R = {n: truth(lambda: getattr(operator, n)(x, y)) for n in ("eq", "ne", "lt", "le", "gt", "ge")}
    R["hash"] = truth(lambda: hash(x) == hash(y))
    ok, r = guarded(lambda: repr(x))
    R["repr"] = r if ok else failure(r)

    def change():
        setattr(x, "f0" if hasattr(x, "f0") else "name" if hasattr(x, "name") else "value", 5)

    R["frozen"] = not guarded(change)[0]
    return R


def annotation_source(c):
    fields = "".join(f"    f{i}: Any\n" for i in range(c["f"])) or "    pass\n"
    head = {"plain": "@typeannotation\n", "call": f"@typeannotation(eq={c['eq']}, order={c['order']})\n", "over": f"@typeannotation\n@dataclass(eq={c['eq']}, order={c['order']}, frozen={c['frozen']})\n",
            "compact": f"@dataclass(eq={c['eq']}, order={c['order']}, frozen={c['frozen']}, repr=False)\n", "sub": f"@dataclass(eq={c['eq']}, order={c['order']}, frozen={c['frozen']}, repr=False)\n"}[c["how"]]
    base = "(CompactDataClass)" if c["how"] == "compact" else "(Between)" if c["how"] == "sub" else ""
    return head + f"class {c['n']}{base}:\n" + fields


PREDEFINED = {"Alias": 1, "Signed": 1, "Storage": 1, "IntegerRange": 2, "Precision": 2, "TimePrecision": 1, "Length": 1, "MinLength": 1, "MaxLength": 1, "SpecialConversion": 0}


def run_listing(w, ev, n):
    from strong_typing.inspection import get_module_classes, get_module_functions

    name = f"{w['name']}_l{n}"
    other = within(name + "_other", "import functools\ndef g(): pass\nclass H: pass\nasync def ag(): pass\ndef deco(f):\n    @functools.wraps(f)\n    def inner(*args): return f(*args)\n    return inner\n")
    try:
        m = within(name, f"import enum, functools, typing, collections, {other.__name__} as OTHER\nfrom dataclasses import dataclass\n" + "\n".join(x["src"].replace("from OTHER", "from " + other.__name__) for x in ev["ms"]) + "\n")
        ids = {id(m.__dict__[x["n"]]): x["id"] for x in ev["ms"] if x["n"] in m.__dict__}
        c, f = guarded(lambda: get_module_classes(m)), guarded(lambda: get_module_functions(m))
        return {"c": [ids.get(id(x), repr(x)) for x in c[1]] if c[0] else [failure(c[1])], "f": [ids.get(id(x), repr(x)) for x in f[1]] if f[0] else [failure(f[1])]}
    finally:
        sys.modules.pop(name, None)
        sys.modules.pop(other.__name__, None)


FIELD_TYPES = {"int": int, "str": str, "list": typing.List[int], "opt": typing.Optional[str], "any": typing.Any, "union": typing.Union[int, str], "text": "Later"}


def run_data(ev):
    from dataclasses import fields, is_dataclass

    from strong_typing.inspection import create_data_type

    given = [(f["n"], FIELD_TYPES[f["t"]]) for f in ev["f"]]
    kept = list(given)
    ok, r = guarded(lambda: create_data_type(ev["n"], given))
    R = {"ok": ok and given == kept, "e": "" if ok else failure(r), "n": "", "f": [], "slots": False, "init": False, "eq": False}
    if ok:
        R["n"] = r.__name__
        names = {id(t): k for k, t in FIELD_TYPES.items()}
        R["f"] = [{"n": f.name, "t": names.get(id(f.type), repr(f.type))} for f in fields(r)] if is_dataclass(r) else [{"n": "?", "t": "?"}]
        values = list(range(len(given)))

        def make():
            return r(*values)

        good, x = guarded(make)
        if good:
            R["init"] = [getattr(x, f["n"]) for f in ev["f"]] == values
            R["eq"] = x == make() and (not values or x != r(*([-1] + values[1:])))
            R["slots"] = not guarded(lambda: setattr(x, "zz_other", 1))[0]
    return R


def run_object(ev):
    from dataclasses import dataclass, field

    from strong_typing.inspection import create_object

    ran = []

    @dataclass
    class Data:
        a: int
        b: list = field(default_factory=lambda: ran.append(1) or [])

    class Plain:
        def __init__(self, a):
            ran.append(1)

    class Slotted:
        __slots__ = ("a",)

        def __init__(self):
            ran.append(1)

    class Err(ValueError):
        def __init__(self, a, b):
            ran.append(1)

    @dataclass
    class DataErr(Exception):
        a: int
        b: list = field(default_factory=lambda: ran.append(1) or [])

    @dataclass(frozen=True)
    class Frozen:
        a: int
        b: list = field(default_factory=lambda: ran.append(1) or [])

    t = {"data": Data, "plain": Plain, "slotted": Slotted, "err": Err, "dataerr": DataErr, "frozen": Frozen, "value": ValueError, "key": KeyError}[ev["c"]]
    ok, r = guarded(lambda: create_object(t))
    return {"ok": ok, "e": "" if ok else failure(r), "exact": ok and type(r) is t, "bare": not ran}


def run_dynamic(w):
    events = []
    m = within(w["name"], "from dataclasses import dataclass\nfrom typing import Any\nfrom strong_typing.auxiliary import *\nfrom strong_typing.auxiliary import CompactDataClass, typeannotation\n"
               "class Between(CompactDataClass):\n    pass\n")
    made = {}

    def objects(x):
        return made[x["c"]](*[LIT[v["k"]](v["v"]) for v in x["a"]])

    try:
        for n, ev in enumerate(w["ev"]):
            if ev["op"] == "xe":
                R = run_extend(w, ev, n)
            elif ev["op"] == "mk":
                R = run_modules(w, ev, n)
            elif ev["op"] == "an":
                for c in (ev["cx"], ev["cy"]):
                    if c["n"] not in made:
                        if c["how"] != "known":
                            exec(annotation_source(c), m.__dict__)
                        made[c["n"]] = m.__dict__[c["n"]]
                R = run_annotation(objects, ev)
            elif ev["op"] == "ml":
                R = run_listing(w, ev, n)
                ev = dict(ev, ms=[{k: x[k] for k in ("n", "kind", "m", "id")} for x in ev["ms"]])
            elif ev["op"] == "cd":
                R = run_data(ev)
            else:
                R = run_object(ev)
            events.append(dict(ev, R=R))
    finally:
        sys.modules.pop(w["name"], None)
    return {"ev": events}


# ---------------------------------------------------------------------------------------------------------------------
# generators


def value(r, kinds=("int", "str", "bool", "float")):
    k = r.choice(kinds)
    return {"int": lambda: {"k": "int", "v": str(r.choice([0, 1, 2, -1, 10, 100, 255]))}, "str": lambda: {"k": "str", "v": r.choice(["", "a", "b", "B", "ab", "a b", "1", "x_y"])},
            "bool": lambda: {"k": "bool", "v": r.choice(["True", "False"])}, "float": lambda: {"k": "float", "v": r.choice(["0.5", "1.0", "-2.0", "10.0"])}}[k]()


def enum_members(r):
    out, kinds = [], r.choice([("str",), ("int",), ("int", "str", "bool", "float")])
    for n in r.sample(["A", "B", "C", "D", "E_1", "a", "name_"], r.choice([0, 1, 1, 2, 3])):
        v = value(r, kinds)
        if not any(LIT[v["k"]](v["v"]) == LIT[x["v"]["k"]](x["v"]["v"]) for x in out):
            out.append({"n": n, "v": v})
    return out


def extend_event(r):
    chain = [enum_members(r) for _ in range(r.randint(2, 4))]
    base = "enum.Enum"
    kinds = {m["v"]["k"] for m in chain[0]}
    if r.random() < 0.2 and kinds in ({"str"}, {"int"}):
        base = f"{kinds.pop()}, enum.Enum"
    chain[0] = chain[0] or [{"n": "Z", "v": {"k": "str", "v": "zz"}}]
    return {"op": "xe", "chain": chain, "base": base, "docs": [r.random() < 0.7 for _ in chain]}


def annotation_class(r, n):
    how = r.choice(["plain", "call", "call", "over", "compact", "sub"])
    eq = True if how == "plain" else r.random() < 0.8
    order = False if how == "plain" else eq and r.random() < 0.6
    frozen = True if how in ("plain", "call") else r.random() < 0.5
    return {"n": f"N{n}", "f": r.choice([0, 1, 1, 2, 2, 3]), "eq": eq, "order": order, "how": how, "frozen": frozen, "hash": frozen or not eq}


def known_class(n):
    return {"n": n, "f": PREDEFINED[n], "eq": True, "order": False, "how": "known", "frozen": PREDEFINED[n] > 0, "hash": True}


def annotation_event(r, classes):
    cx = r.choice(classes)
    cy = cx if r.random() < 0.8 else r.choice([c for c in classes if c["f"] == cx["f"]])
    kinds = r.choice([("int",), ("int", "bool", "float"), ("str",), ("int", "str")])
    a = [value(r, kinds) for _ in range(cx["f"])]
    b = [v if r.random() < 0.5 else value(r, kinds) for v in a]
    return {"op": "an", "cx": cx, "cy": cy, "x": {"c": cx["n"], "a": a}, "y": {"c": cy["n"], "a": b}, "same": cx is cy and a == b and r.random() < 0.5}


MEMBERS = [
    ("class", "class NAME:\n    pass"), ("class", "@dataclass\nclass NAME:\n    x: int"), ("class", "class NAME(enum.Enum):\n    A = 1"), ("class", "class NAME(typing.NamedTuple):\n    x: int"),
    ("class", "class NAME(Exception):\n    class Inner:\n        pass"), ("class", "class NAME(typing.Generic[typing.TypeVar('T')]):\n    pass"), ("class", "class NAME(typing.TypedDict):\n    x: int"),
    ("class", "def _make():\n    class NAME:\n        pass\n    return NAME\nNAME = _make()\ndel _make"), ("class", "NAME = collections.namedtuple('NAME', 'a b')"), ("class", "NAME = enum.Enum('NAME', 'A B')"),
    ("func", "def NAME():\n    def inner():\n        pass\n    return inner"), ("func", "async def NAME():\n    pass"), ("func", "NAME = lambda: 0"), ("func", "def NAME():\n    yield"),
    ("func", "@OTHER.deco\ndef NAME(x):\n    pass"), ("func", "@functools.lru_cache\ndef _f(x):\n    pass\nNAME = _f.__wrapped__\ndel _f"),
    ("func", "@functools.wraps(len)\ndef NAME(x):\n    pass\nNAME.__module__ = __name__"),
    ("other", "NAME = 1"), ("other", "NAME = typing.List[int]"), ("other", "NAME = list[int]"), ("other", "NAME = typing.TypeVar('NAME')"), ("other", "NAME = functools.partial(print)"), ("other", "NAME = len"),
    ("other", "NAME = typing.NewType('NAME', int)"), ("other", "NAME = [].append"), ("other", "class Hidden:\n    def m(self): pass\nNAME = Hidden().m\ndel Hidden"),
]
FOREIGN = [("class", "from OTHER import H as NAME"), ("func", "from OTHER import g as NAME"), ("func", "from OTHER import ag as NAME"), ("class", "NAME = int"), ("class", "NAME = enum.Enum"), ("func", "NAME = functools.wraps"),
           ("class", "NAME = collections.OrderedDict"), ("class", "NAME = type('NAME', (), {'__module__': 'elsewhere'})")]


def listing_event(r):
    ms = []
    for i in range(r.randint(0, 8)):
        n = r.choice(["", "_", "__"]) + r.choice("abcXYZ") + str(i)
        if r.random() < 0.65:
            kind, src = r.choice(MEMBERS)
            ms.append({"n": n, "kind": kind, "m": "here", "id": f"i{i}", "src": src.replace("NAME", n)})
        elif ms and r.random() < 0.3:
            x = r.choice(ms)
            ms.append(dict(x, n=n, src=f"{n} = {x['n']}"))
        else:
            kind, src = r.choice(FOREIGN)
            ms.append({"n": n, "kind": kind, "m": "other", "id": f"i{i}", "src": src.replace("NAME", n)})
    return {"op": "ml", "ms": ms}


def data_event(r):
    names = [r.choice(["a", "b", "c", "x_1", "_p", "name", "é"] if r.random() < 0.93 else ["class", "1a", "a b", ""]) for _ in range(r.randint(0, 5))]
    if r.random() < 0.85:
        names = list(dict.fromkeys(names))
    return {"op": "cd", "n": r.choice(["C", "Point", "_D"]), "f": [{"n": n, "t": r.choice(list(FIELD_TYPES))} for n in names]}


def dynamic_worlds(seed, worlds, per):
    out = []
    for i in range(worlds):
        r = random.Random(f"{seed}:{i}")
        classes = [annotation_class(r, n) for n in range(8)] + [known_class(n) for n in PREDEFINED]
        ev = []
        for _ in range(per):
            k = r.random()
            ev.append(extend_event(r) if k < 0.3 else annotation_event(r, classes) if k < 0.65 else listing_event(r) if k < 0.85 else data_event(r))
        ev += [{"op": "co", "c": c} for c in ("data", "plain", "slotted", "err", "dataerr", "frozen", "value", "key")]
        out.append({"name": f"vdyn{i}", "ev": ev})
    return out


def model_worlds(rows):
    ev, tuples = [], []
    for x in rows:
        if x["what"] == "enum" and len(x["chain"]) > 1:
            ev.append({"op": "xe", "chain": x["chain"]})
        elif x["what"] == "mod" and x["log"]:
            ev.append({"op": "mk", "log": x["log"]})
        elif x["what"] == "order":
            tuples.append(x["a"])
    c = {"n": "Pair", "f": 2, "eq": True, "order": True, "how": "call", "frozen": True, "hash": True}
    ev += [{"op": "an", "cx": c, "cy": c, "x": {"c": "Pair", "a": a}, "y": {"c": "Pair", "a": b}, "same": False} for a, b in itertools.product(tuples, tuples)]
    return [{"name": f"vdynm{i}", "ev": ev[i:i + 200]} for i in range(0, len(ev), 200)]
