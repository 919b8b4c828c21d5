"""Type expressions as forms against the real code (properties C19 to C21)."""

import ast
import collections
import datetime
import decimal
import enum
import functools
import operator
import random
import sys
import types
import typing
import uuid
from dataclasses import dataclass

from codec import outcome
from gen import Gen
from lang import PYNAME, SCALARS, TEXTS, World, forget_typing, key
from runner import Timeout, guarded

import collections.abc  # noqa: E402

SIMPLE = {"bool": bool, "int": int, "float": float, "str": str, "bytes": bytes, "object": object, "date": datetime.date, "datetime": datetime.datetime, "uuid": uuid.UUID, "decimal": decimal.Decimal}
BARE = {"list": list, "set": set, "frozenset": frozenset, "dict": dict, "tuple": tuple, "type": type, "Callable": collections.abc.Callable}
MARKS = {"signed": "Signed", "storage": "Storage", "range": "IntegerRange", "prec": "Precision", "timeprec": "TimePrecision", "len": "Length", "minlen": "MinLength", "maxlen": "MaxLength", "special": "SpecialConversion"}
AUX = ["int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float32", "float64"]


def kind_of(ok, r):
    return "" if ok else "Timeout" if isinstance(r, Timeout) else type(r).__name__


# ---------------------------------------------------------------------------------------------------------------------
# building and describing type objects

SOURCE = """
import collections, datetime, decimal, enum, typing, uuid
from datetime import date, datetime
from decimal import Decimal
from uuid import UUID
from dataclasses import dataclass, field
from typing import *
from strong_typing.auxiliary import *
from strong_typing.auxiliary import CompactDataClass
from strong_typing.auxiliary import ParamSpec
T = TypeVar("T")
U = TypeVar("U")
P = ParamSpec("P")
@dataclass
class A:
    x: int
@dataclass(frozen=True)
class D(A):
    y: str = "a"
""".replace("(frozen=True)", "") + """
class B(NamedTuple):
    x: int
    y: str = ""
F = collections.namedtuple("F", ["u", "v"])
class C:
    z: int
class Z(tuple):
    pass
class Color(enum.Enum):
    RED = "red"
    BLUE = "blue"
class Num(enum.IntEnum):
    ONE = 1
class Bits(enum.Flag):
    X = 1
    Y = 2
class G(Generic[T]):
    g: T
class H(Generic[T, U]):
    pass
@typeannotation
class Note:
    text: str
class Mark2(CompactDataClass):
    pass
"""
FORM_CLASSES = {"A": "dc", "D": "dc", "B": "nt", "F": "unt", "C": "plain", "Z": "plain", "Note": "dc"}
FORM_ENUMS = ["Color", "Num", "Bits"]
VALUES = [
    {"k": "str", "v": "a"}, {"k": "str", "v": ""}, {"k": "str", "v": "it's \"x\"\n"}, {"k": "int", "v": "1"}, {"k": "int", "v": "-7"}, {"k": "int", "v": "0"},
    {"k": "bool", "v": "True"}, {"k": "none", "v": "None"}, {"k": "bytes", "b": [0, 65]}, {"k": "enum", "n": "Color", "v": "RED"}, {"k": "enum", "n": "Color", "v": "BLUE"}, {"k": "enum", "n": "Num", "v": "ONE"},
    {"k": "enum", "n": "Bits", "v": "Y"},
]


# members of a namespace, some of the same name as members of the module
DOTTED = {"sub.A": {"k": "int"}, "sub.B": {"k": "cls", "n": "C"}, "sub.L1": {"k": "dict", "a": [{"k": "str"}, {"k": "cls", "n": "A"}]}}


class Forms:
    "A module with declared types, and the mapping between descriptions and type objects."

    def __init__(self, aliases=None, name="forms_world"):
        m = types.ModuleType(name)
        sys.modules[name] = m
        self.module = m
        self.ns = m.__dict__
        exec(compile(SOURCE, f"<{name}>", "exec", dont_inherit=True), self.ns)
        self.aliases = aliases or {}
        self.names = {t: k for k, t in SIMPLE.items()}
        for n in FORM_CLASSES:
            self.names[self.ns[n]] = ("cls", n)
        for n in FORM_ENUMS:
            self.names[self.ns[n]] = ("enum", n)
        for n, T in self.aliases.items():
            self.ns[n] = self.build(T, "typing")
        self.ns["sub"] = types.SimpleNamespace(**{n.partition(".")[2]: self.build(T, "typing") for n, T in DOTTED.items()})

    def unload(self):
        sys.modules.pop(self.module.__name__, None)

    def value(self, v):
        k = v["k"]
        if k == "enum":
            return self.ns[v["n"]][v["v"]]
        if k == "bytes":
            return bytes(v["b"])
        if k == "str":
            return v["v"]
        return eval(v["v"])

    def mark(self, m):
        mk = m["mk"]
        if mk == "doc":
            return m["s"]
        if mk in ("alias", "note"):
            return self.ns[mk.capitalize()](m["s"])
        return self.ns[MARKS[mk]](*[eval(i) for i in m["i"]])

    def build(self, T, style):
        forget_typing()
        try:
            return self._build(T, style)
        finally:
            forget_typing()

    def _build(self, T, style):
        k = T["k"]
        if k == "none":
            return None if style != "nonetype" else type(None)
        if k == "any":
            return typing.Any
        if k == "dots":
            return ...
        if k == "self":
            return self.ns["Self"] if "Self" in self.ns else typing.Self
        if k in SIMPLE:
            return SIMPLE[k]
        if k in ("cls", "enum", "tvar", "pspec", "aux"):
            return self.ns[T["n"]]
        if k == "bare":
            n = T["n"]
            return getattr(typing, {"frozenset": "FrozenSet"}.get(n, n.capitalize())) if style == "old" or n == "Callable" else BARE[n]
        if k == "ref":
            return T["n"] if T["w"] == "str" else typing.ForwardRef(T["n"])
        if k == "lit":
            return typing.Literal[tuple(self.value(v) for v in T["v"])]
        a = [self._build(x, style) for x in T["a"]]
        old = style == "old"
        if k == "list":
            return typing.List[a[0]] if old else list[a[0]]
        if k == "set":
            return typing.Set[a[0]] if old else set[a[0]]
        if k == "fset":
            return typing.FrozenSet[a[0]] if old else frozenset[a[0]]
        if k == "dict":
            return typing.Dict[a[0], a[1]] if old else dict[a[0], a[1]]
        if k == "type":
            return typing.Type[a[0]] if old else type[a[0]]
        if k == "tuple":
            return typing.Tuple[tuple(a)] if old else tuple[tuple(a)]
        if k == "vtuple":
            return typing.Tuple[a[0], ...] if old else tuple[a[0], ...]
        if k == "union":
            if style == "pep604":
                try:
                    u = functools.reduce(operator.or_, [type(None) if x is None else x for x in a])
                    if u is not NotImplemented:
                        return u
                except TypeError:
                    pass
            return typing.Union[tuple(a)]
        if k == "ann":
            return typing.Annotated[(a[0], *[self.mark(m) for m in T["m"]])]
        if k == "call":
            C = collections.abc.Callable if style == "pep604" else typing.Callable
            if T["p"] == "args":
                return C[a[:-1], a[-1]]
            return C[..., a[-1]] if T["p"] == "dots" else C[a[0], a[-1]]
        if k == "gen":
            return self.ns[T["n"]][tuple(a)]
        raise ValueError(T)

    # describing -----------------------------------------------------------------------------------------------------

    def of_value(self, v):
        if isinstance(v, enum.Enum):
            return {"k": "enum", "n": type(v).__name__, "v": v.name}
        if type(v) is bytes:
            return {"k": "bytes", "b": list(v)}
        if v is None or type(v) in (bool, int, str):
            return {"k": "none" if v is None else type(v).__name__, "v": v if type(v) is str else str(v)}
        return {"k": "alien", "v": repr(v)}

    def of_mark(self, m):
        if type(m) is str:
            return {"mk": "doc", "s": m, "i": []}
        n = type(m).__name__
        if n in ("Alias", "Note"):
            return {"mk": n.lower(), "s": m.name if n == "Alias" else m.text, "i": []}
        for mk, name in MARKS.items():
            if name == n:
                return {"mk": mk, "s": "", "i": [str(getattr(m, f)) for f in type(m).__dataclass_fields__]}
        return {"mk": "alien", "s": repr(m), "i": []}

    def reflect(self, t, depth=0):
        if depth > 30:
            return {"k": "alien", "n": "deep"}
        rec = lambda x: self.reflect(x, depth + 1)  # noqa: E731
        if t is None or t is type(None):
            return {"k": "none"}
        if t is typing.Any:
            return {"k": "any"}
        if t is ...:
            return {"k": "dots"}
        if t is typing.Self:
            return {"k": "self"}
        if isinstance(t, (str, typing.ForwardRef)):
            text = t if isinstance(t, str) else t.__forward_arg__
            ok, r = guarded(lambda: eval(text, self.ns))
            return {"k": "ref", "n": text, "w": "str", "a": [rec(r) if ok else {"k": "bad"}]}
        if isinstance(t, typing.ParamSpec):
            return {"k": "pspec", "n": t.__name__}
        if isinstance(t, typing.TypeVar):
            return {"k": "tvar", "n": t.__name__}
        if getattr(t, "__metadata__", None) is not None:
            return {"k": "ann", "a": [rec(typing.get_args(t)[0])], "m": [self.of_mark(m) for m in t.__metadata__]}
        for n, b in BARE.items():
            if t is b or (isinstance(t, typing._SpecialGenericAlias) and t.__origin__ is b):
                return {"k": "bare", "n": n}
        origin = typing.get_origin(t)
        args = typing.get_args(t)
        if origin is typing.Union or origin is types.UnionType:
            return {"k": "union", "a": [rec(x) for x in args]}
        if origin is typing.Literal:
            return {"k": "lit", "v": [self.of_value(v) for v in args]}
        if origin is tuple:
            if len(args) == 2 and args[1] is ...:
                return {"k": "vtuple", "a": [rec(args[0])]}
            return {"k": "tuple", "a": [rec(x) for x in args]}
        plain = {list: "list", set: "set", frozenset: "fset", dict: "dict", type: "type"}.get(origin)
        if plain:
            return {"k": plain, "a": [rec(x) for x in args]}
        if origin is collections.abc.Callable:
            if args[0] is ...:
                return {"k": "call", "p": "dots", "a": [rec(args[1])]}
            if isinstance(args[0], list):
                return {"k": "call", "p": "args", "a": [rec(x) for x in args[0]] + [rec(args[1])]}
            return {"k": "call", "p": "pspec", "a": [rec(args[0]), rec(args[1])]}
        if origin in (self.ns.get("G"), self.ns.get("H")) and origin is not None:
            return {"k": "gen", "n": origin.__name__, "a": [rec(x) for x in args]}
        n = self.names.get(t)
        if n is not None:
            return {"k": n} if isinstance(n, str) else {"k": n[0], "n": n[1]}
        return {"k": "alien", "n": repr(t)[:80]}

    def tree(self, text):
        "Syntax tree of a written type."
        try:
            e = ast.parse(text, mode="eval").body
        except (SyntaxError, ValueError):
            return {"k": "odd"}
        return self._tree(e)

    def _tree(self, e):
        if isinstance(e, ast.Name):
            return {"k": "name", "n": e.id}
        if isinstance(e, ast.Constant):
            if e.value is None:
                return {"k": "name", "n": "None"}
            return {"k": "dots"} if e.value is ... else {"k": "const", "v": self.of_value(e.value)}
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub) and isinstance(e.operand, ast.Constant):
            return {"k": "const", "v": self.of_value(-e.operand.value)}
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
            return {"k": "attr", "n": e.value.id, "v": e.attr}
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.BitOr):
            return {"k": "or", "a": [self._tree(e.left), self._tree(e.right)]}
        if isinstance(e, ast.List):
            return {"k": "lst", "a": [self._tree(x) for x in e.elts]}
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and not e.keywords:
            return {"k": "call", "f": e.func.id, "a": [self.const(self._tree(x)) for x in e.args]}
        if isinstance(e, ast.Tuple):
            return {"k": "tup", "a": [self._tree(x) for x in e.elts]}
        if isinstance(e, ast.Subscript) and isinstance(e.value, ast.Name):
            args = e.slice.elts if isinstance(e.slice, ast.Tuple) and e.slice.elts else [e.slice]
            tree = [self._tree(x) for x in args]
            if e.value.id == "Literal":
                tree = [self.const(x) for x in tree]
            return {"k": "sub", "f": e.value.id, "a": tree}
        return {"k": "odd"}

    def const(self, t):
        "None stands for a value here."
        if t == {"k": "name", "n": "None"}:
            return {"k": "const", "v": {"k": "none", "v": "None"}}
        return t


def form_env():
    return {"cls": {n: {} for n in FORM_CLASSES}, "enm": {n: {} for n in FORM_ENUMS}, "kinds": FORM_CLASSES, "dot": DOTTED}


def run_forms(w):
    f = Forms(w["E"]["als"])
    try:
        return {"E": w["E"], "ev": [FORM_OPS[ev["op"]](f, ev) for ev in w["ev"]]}
    finally:
        f.unload()


def op_str(f, ev):
    from strong_typing.name import TypeFormatter, python_type_to_str

    typ = f.build(ev["T"], ev["style"])
    context = f.module if ev["ctx"] else None
    tt = (lambda t: "X_" + t.__name__) if ev["tt"] else None
    vt = (lambda v: f"val({type(v).__name__}.{v.name})" if isinstance(v, enum.Enum) else f"val({v!r})") if ev["vt"] else None
    if ev["via"] == "fun" and not (ev["ctx"] or tt or vt):
        fun = lambda: python_type_to_str(typ, use_union_operator=ev["pep"]) if ev["pep"] else python_type_to_str(typ)  # noqa: E731
    else:
        fun = lambda: TypeFormatter(context=context, type_transform=tt, value_transform=vt, use_union_operator=ev["pep"]).python_type_to_str(typ)  # noqa: E731
    ok, r = guarded(fun)
    s = r if ok and isinstance(r, str) else ""
    out = dict(ev, o={"ok": ok, "e": kind_of(ok, r), "s": s}, tree=f.tree(s) if ok else {"k": "odd"}, back=[])
    if ok and not (ev["tt"] or ev["vt"]):
        good, t = guarded(lambda: eval(s, dict(f.ns)))
        if good:
            out["back"] = [f.reflect(t)]
    return out


def op_ident(f, ev):
    from strong_typing.name import python_type_to_name

    typ = f.build(ev["T"], ev["style"])
    ok, r = guarded(lambda: python_type_to_name(typ, force=True) if ev["force"] else python_type_to_name(typ))
    return dict(ev, o={"ok": ok, "e": kind_of(ok, r), "s": str(r) if ok else ""})


def op_class(f, ev):
    from strong_typing import inspection as i

    typ = f.build(ev["T"], ev["style"])
    funs = {
        "optional": i.is_type_optional, "strict": lambda t: i.is_type_optional(t, strict=True), "union": i.is_type_union, "literal": i.is_type_literal,
        "list": i.is_generic_list, "set": i.is_generic_set, "dict": i.is_generic_dict, "enum": i.is_type_enum, "dataclass": i.is_dataclass_type,
        "namedtuple": i.is_named_tuple_type, "annotated": i.is_type_annotated,
    }
    res = {}
    for n, fun in funs.items():
        ok, r = guarded(lambda: fun(typ))
        res[n] = str(r) if ok else "failed"
    return dict(ev, c=res)


def op_apart(f, ev):
    from strong_typing import inspection as i

    typ = f.build(ev["T"], ev["style"])
    opt = lambda t: typing.Optional[t]  # noqa: E731
    fun, shape = {
        "optional": (i.unwrap_optional_type, "one"), "union": (i.unwrap_union_types, "many"), "list": (i.unwrap_generic_list, "one"), "set": (i.unwrap_generic_set, "one"),
        "dict": (i.unwrap_generic_dict, "many"), "annotated": (i.unwrap_annotated_type, "one"), "rewrap-list": (lambda t: i.rewrap_annotated_type(lambda x: list[x], t), "one"),
        "rewrap-opt": (lambda t: i.rewrap_annotated_type(opt, t), "one"), "rewrap-same": (lambda t: i.rewrap_annotated_type(lambda x: x, t), "one"),
        "there-and-back": (lambda t: i.rewrap_annotated_type(opt, i.unwrap_optional_type(t)), "one"),
        "literal-types": (i.unwrap_literal_types, "many"), "literal-values": (i.unwrap_literal_values, "values"), "literal-value": (i.unwrap_literal_value, "value"),
    }[ev["f"]]
    forget_typing()
    ok, r = guarded(lambda: fun(typ))
    parts = []
    if ok:
        if shape == "one":
            parts = [f.reflect(r)]
        elif shape == "many":
            parts = [f.reflect(x) for x in r] if isinstance(r, tuple) else [{"k": "bad"}]
        else:
            parts = [{"k": "lit", "v": [f.of_value(v) for v in (r if shape == "values" else [r])]}]
    return dict(ev, o={"ok": ok, "e": kind_of(ok, r)}, parts=parts)


def op_mark(f, ev):
    from strong_typing.inspection import get_annotation

    typ = f.build(ev["T"], ev["style"])
    mk = ev["mk"]
    c = str if mk == "doc" else f.ns[mk.capitalize() if mk in ("alias", "note") else MARKS[mk]]
    ok, r = guarded(lambda: get_annotation(typ, c))
    return dict(ev, o={"ok": ok, "e": kind_of(ok, r)}, m=[f.of_mark(r)] if ok and r is not None else [])


FORM_OPS = {"str": op_str, "ident": op_ident, "class": op_class, "apart": op_apart, "mark": op_mark}


# ---------------------------------------------------------------------------------------------------------------------
# random type expressions


def ann(x, ms):
    return {"k": "ann", "a": [x], "m": ms}


NOTES = [
    {"mk": "note", "s": "x", "i": []}, {"mk": "note", "s": "it's", "i": []}, {"mk": "doc", "s": "text", "i": []}, {"mk": "alias", "s": "other", "i": []}, {"mk": "maxlen", "s": "", "i": ["10"]},
    {"mk": "prec", "s": "", "i": ["5", "2"]}, {"mk": "storage", "s": "", "i": ["4"]}, {"mk": "special", "s": "", "i": []}, {"mk": "range", "s": "", "i": ["-128", "127"]}, {"mk": "signed", "s": "", "i": ["True"]},
    {"mk": "minlen", "s": "", "i": ["0"]}, {"mk": "len", "s": "", "i": ["3"]}, {"mk": "timeprec", "s": "", "i": ["6"]}, {"mk": "doc", "s": "it's \"quoted\"", "i": []},
]


def written(T):
    "Some text that means the type."
    k = T["k"]
    short = {"none": "None", "any": "Any", "uuid": "UUID", "decimal": "Decimal"}
    if k in SIMPLE or k in short:
        return short.get(k, k)
    if k in ("cls", "enum", "aux"):
        return T["n"]
    if k == "list":
        return f"list[{written(T['a'][0])}]"
    if k == "dict":
        return f"dict[{written(T['a'][0])}, {written(T['a'][1])}]"
    if k == "union":
        return " | ".join(written(x) for x in T["a"])
    raise ValueError(T)


class FormGen:
    def __init__(self, r, aliases, refs=True):
        self.r, self.aliases, self.refs = r, aliases, refs

    def atom(self):
        r = self.r
        p = r.random()
        if p < 0.4:
            return {"k": r.choice(["int", "str", "bool", "float", "bytes", "date", "datetime", "uuid", "decimal", "object"])}
        if p < 0.6:
            return {"k": "cls", "n": r.choice(["A", "B", "C", "D", "F", "Z"])}
        if p < 0.68:
            return {"k": "enum", "n": r.choice(FORM_ENUMS)}
        if p < 0.8:
            return {"k": "aux", "n": r.choice(AUX)}
        if p < 0.84:
            return {"k": r.choice(["none", "any"])}
        if p < 0.87:
            return {"k": "tvar", "n": "T"}
        if p < 0.9:
            return {"k": "bare", "n": r.choice(list(BARE))}
        vs = r.sample(VALUES, r.randint(1, 3))
        return {"k": "lit", "v": vs}

    def simple(self):
        r = self.r
        x = {"k": "cls", "n": r.choice(["A", "B", "C"])} if r.random() < 0.7 else {"k": r.choice(["int", "str", "uuid"])}
        p = r.random()
        if p < 0.15:
            return {"k": "list", "a": [x]}
        if p < 0.25:
            return {"k": "dict", "a": [{"k": "str"}, x]}
        if p < 0.35:
            return {"k": "union", "a": [x, {"k": "none"}]}
        return x

    def type(self, depth):
        r = self.r
        if depth <= 0 or r.random() < 0.12:
            if self.refs and r.random() < 0.2:
                if self.aliases and r.random() < 0.4:
                    named = {**self.aliases, **DOTTED}
                    n = r.choice(list(named))
                    return {"k": "ref", "n": n, "w": r.choice(["str", "fwd"]), "a": [named[n]]}
                x = self.simple()
                return {"k": "ref", "n": written(x), "w": r.choice(["str", "fwd"]), "a": [x]}
            return self.atom()
        sub = lambda: self.type(depth - 1)  # noqa: E731
        k = r.choice(["list", "list", "set", "fset", "dict", "dict", "tuple", "vtuple", "type", "union", "union", "opt", "opt", "ann", "ann", "call", "gen"])
        if k == "dict":
            return {"k": k, "a": [sub(), sub()]}
        if k == "tuple":
            return {"k": k, "a": [sub() for _ in range(r.choice([0, 1, 2, 2, 3]))]}
        if k == "type":
            return {"k": k, "a": [r.choice([self.atom_class, self.union_class])()]}
        if k == "union":
            ms = [sub() for _ in range(r.choice([2, 2, 3, 4]))]
            if r.random() < 0.3:
                ms.insert(r.randint(0, len(ms)), {"k": "none"})
            return {"k": "union", "a": [self.nostr(m) for m in ms]}
        if k == "opt":
            x = self.nostr(sub())
            return {"k": "union", "a": [x, {"k": "none"}] if r.random() < 0.8 else [{"k": "none"}, x]}
        if k == "ann":
            return ann(self.nostr(sub()), r.sample(NOTES, r.randint(1, 3))) if r.random() < 0.7 else self.nearly_aux()
        if k == "call":
            p = r.choice(["args", "args", "dots", "pspec"])
            if p == "args":
                return {"k": k, "p": p, "a": [self.nostr(sub()) for _ in range(r.choice([1, 2, 3]))]}
            return {"k": k, "p": p, "a": ([{"k": "pspec", "n": "P"}] if p == "pspec" else []) + [self.nostr(sub())]}
        if k == "gen":
            n = r.choice(["G", "H"])
            return {"k": k, "n": n, "a": [self.nostr(sub()) for _ in range(1 if n == "G" else 2)]}
        return {"k": k, "a": [sub()]}

    def atom_class(self):
        return {"k": "cls", "n": self.r.choice(["A", "B", "C", "D"])}

    def union_class(self):
        return {"k": "union", "a": [{"k": "cls", "n": "A"}, {"k": "cls", "n": self.r.choice(["B", "C"])}]}

    def nostr(self, T):
        "`typing` turns a string operand into a forward reference."
        return dict(T, w="fwd") if T["k"] == "ref" else T

    def nearly_aux(self):
        r = self.r
        full = {"int8": ["True", "1", "-128", "127"], "uint16": ["False", "2", "0", "65535"]}[r.choice(["int8", "uint16"])]
        ms = [{"mk": "signed", "s": "", "i": full[:1]}, {"mk": "storage", "s": "", "i": full[1:2]}, {"mk": "range", "s": "", "i": full[2:]}]
        x = {"k": "int"}
        if r.random() < 0.3:
            ms, x = [{"mk": "storage", "s": "", "i": [r.choice(["4", "8"])]}], {"k": "float"}
        p = r.random()
        if p < 0.2:
            ms = ms[:-1] or ms
        elif p < 0.5:
            ms = ms + r.sample(NOTES, r.choice([1, 2]))
        elif p < 0.6:
            ms = r.sample(NOTES, 1) + ms
        elif p < 0.7:
            ms = ms[1:] + ms[:1]
        elif p < 0.8:
            x = {"k": r.choice(["bool", "str", "int", "float"])}
        return ann(x, ms)


STYLES = ["new", "old", "pep604", "nonetype"]
ALIASES = {"L1": {"k": "list", "a": [{"k": "cls", "n": "A"}]}, "O1": {"k": "union", "a": [{"k": "cls", "n": "B"}, {"k": "none"}]}, "I1": {"k": "aux", "n": "int32"}}


def has_kind(T, ks):
    return T["k"] in ks or any(has_kind(x, ks) for x in T.get("a", []))


def as_typing(T):
    "`typing` keeps text as forward references."
    if "a" not in T:
        return T
    return dict(T, a=T["a"] if T["k"] == "ref" else [as_typing(dict(x, w="fwd") if x["k"] == "ref" else x) for x in T["a"]])


def name_event(r, T, style):
    if style == "old":
        T = as_typing(T)
    if r.random() < 0.25 and not has_kind(T, ("ref", "self", "pspec", "bare")) and '"tuple", "a": []' not in str(T).replace("'", '"'):
        # the object None stands for a type only within expressions
        return {"op": "ident", "T": T, "style": style if not has_kind(T, ("none",)) else "nonetype", "force": r.random() < 0.75}
    return {"op": "str", "T": T, "style": style, "ctx": r.random() < 0.5, "tt": r.random() < 0.3, "vt": r.random() < 0.2, "pep": r.random() < 0.5, "via": r.choice(["fun", "fmt"])}


def form_events(r, T, style):
    if style == "old":
        T = as_typing(T)
    # containers without arguments of the typing module count as generic
    out = [{"op": "class", "T": T, "style": "new" if has_kind(T, ("bare",)) else style}]
    k = T["k"]
    inner = T
    while inner["k"] == "ann":
        inner = inner["a"][0]
    ops = {"union": ["optional", "union", "there-and-back"], "list": ["list"], "set": ["set"], "dict": ["dict"], "lit": ["literal-types", "literal-values", "literal-value"]}.get(inner["k"], [])
    ops = ops + [r.choice(["annotated", "rewrap-list", "rewrap-opt", "rewrap-same"])]
    if r.random() < 0.05:
        ops.append(r.choice(["optional", "union"]))
    out += [{"op": "apart", "T": T, "style": style, "f": f} for f in ops]
    if k == "ann":
        out.append({"op": "mark", "T": T, "style": style, "mk": r.choice(T["m"])["mk"]})
    if k in ("ann", "aux") or r.random() < 0.05:
        out.append({"op": "mark", "T": T, "style": style, "mk": r.choice(NOTES)["mk"]})
    return out


def split(events, per=500):
    env = dict(form_env(), als=ALIASES)
    return [{"name": f"f{i}", "E": env, "ev": events[i:i + per]} for i in range(0, len(events), per)]


def name_worlds(seed, count, cases=()):
    r = random.Random(seed)
    events = []
    for n, T in enumerate(cases):
        for style in ([STYLES[n % 4]] if n % 3 else STYLES[:3]):
            events.append(dict(name_event(r, T, style)))
    for _ in range(count):
        T = FormGen(r, ALIASES).type(r.choice([1, 2, 2, 3, 3, 4]))
        events.append(name_event(r, T, r.choice(STYLES)))
    return split(events)


def form_worlds(seed, count, cases=()):
    r = random.Random(seed)
    events = []
    for n, T in enumerate(cases):
        for style in ([STYLES[n % 4]] if n % 3 else STYLES[:3]):
            events += form_events(r, T, style)
    for _ in range(count):
        T = FormGen(r, ALIASES, refs=r.random() < 0.3).type(r.choice([1, 2, 2, 3, 3, 4]))
        events += form_events(r, T, r.choice(STYLES))
    return split(events)


# ---------------------------------------------------------------------------------------------------------------------
# instances and member values


def subclass(base):
    return type("Sub" + base.__name__, (base,), {})


SUBS = {t: subclass(t) for t in (list, dict, set, tuple, int, str, float, bytes)}


class Objects(World):
    "Values may be instances of classes derived from builtin classes."

    def src(self, V, mod=1):
        if V["k"] == "sub":
            v = V["a"][0]
            return f"_sub({self.src(v, mod)})"
        return super().src(V, mod)

    def value(self, V):
        self.ns["_sub"] = lambda x: SUBS[type(x)](x)
        return super().value(V)

    def describe(self, x):
        t = type(x)
        if t in SUBS.values():
            base = t.__mro__[1]
            return {"k": "sub", "a": [self.describe(base(x))]}
        return super().describe(x)


class Reflect(Forms):
    "Describes types that refer to the declarations of a world."

    def __init__(self, world):
        self.world = world
        self.ns = world.ns
        self.names = {t: k for k, t in SIMPLE.items()}
        for k in SCALARS + TEXTS:
            if k != "none":
                self.names[eval(PYNAME[k], dict(world.ns))] = k
        for t, n in world.names.items():
            self.names[t] = ("enum" if n in world.env["enm"] else "cls", n)
        for n, t in (("blist", list), ("bset", set), ("bdict", dict), ("btuple", tuple)):
            self.names[t] = n

    def of_value(self, v):
        return self.world.describe(v)

    def reflect(self, t, depth=0):
        if t in (list, set, dict, tuple):
            return {"k": self.names[t]}
        return super().reflect(t, depth)


def stripped(T):
    "A type without annotations."
    if T["k"] == "ann":
        return stripped(T["a"][0])
    return dict(T, a=[stripped(x) for x in T["a"]]) if "a" in T and T["k"] != "ref" else T


def run_inst(w):
    from strong_typing.inspection import check_recursive, is_generic_instance

    world = Objects(w["E"], w.get("style"), w["name"]).load()
    try:
        f = Reflect(world)
        events = []
        for ev in w["ev"]:
            out = dict(ev)
            obj = world.value(ev["V"])
            if ev["op"] == "inst":
                typ = world.type(ev["T"], ev.get("notation"))
                ok, r = guarded(lambda: is_generic_instance(obj, typ))
            elif ev["op"] == "refuse":
                p = lambda *a: True  # noqa: E731
                args = {"pred": p, "type_pred": p, "value_pred": p}
                ok, r = guarded(lambda: check_recursive(obj, **{k: args[k] for k in ev["how"]}))
            else:
                calls = []

                def see(t, v):
                    calls.append({"t": f.reflect(t), "v": world.describe(v)})
                    return True

                ok, r = guarded(lambda: check_recursive(obj, pred=see))
                if ev["op"] == "deny":
                    some = [c for c in calls] + [{"t": {"k": "int"}, "v": {"k": "int", "v": "123456"}}]
                    deny = random.Random(ev["pick"]).choice(some)
                    out["deny"] = deny = {"t": stripped(deny["t"]), "v": deny["v"]}
                    is_t = lambda t: key(stripped(f.reflect(t))) == key(deny["t"])  # noqa: E731
                    is_v = lambda v: key(world.describe(v)) == key(deny["v"])  # noqa: E731
                    how = {
                        "pred": {"pred": lambda t, v: not (is_t(t) and is_v(v))}, "value": {"value_pred": lambda v: not is_v(v)},
                        "both": {"type_pred": is_t, "value_pred": lambda v: not is_v(v)}, "type": {"type_pred": is_t, "value_pred": lambda v: False},
                    }[ev["how"]]
                    ok, r = guarded(lambda: check_recursive(obj, **how))
                else:
                    out["calls"] = calls
                    free_ok, free = guarded(lambda: check_recursive(obj))
                    out["free"] = {"ok": free_ok, "r": free is True}
            out["o"] = {"ok": ok and isinstance(r, bool), "e": kind_of(ok, r), "r": r if ok and isinstance(r, bool) else False}
            events.append(out)
        return {"E": w["E"], "ev": events}
    finally:
        world.unload()


PLAIN = SCALARS + TEXTS + ("decimal", "list", "set", "dict", "tuple", "vtuple", "union", "ann", "cls", "enum", "ref", "lit", "blist", "bset", "bdict", "btuple", "object", "aux")


def usable(T, lits):
    return T["k"] in PLAIN and (lits or T["k"] not in ("lit", "ref")) and all(usable(x, lits) for x in T.get("a", []))


class InstGen(Gen):
    def _type(self, depth, later, hashable):
        r = self.r
        if depth > 0 and r.random() < 0.08 and not hashable:
            return {"k": "vtuple", "a": [self.type(depth - 1, later)]}
        if r.random() < 0.05 and self.kind not in ("typed", "nt") and self.flags.get("bare"):
            return {"k": r.choice(["blist", "bset", "bdict", "btuple", "object"])}
        return super()._type(depth, later, hashable)

    def value(self, T, depth=4):
        r = self.r
        if T["k"] == "vtuple":
            xs = [self.value(T["a"][0], depth - 1) for _ in range(r.choice([0, 1, 2, 3]) if depth > 0 else 0)]
            return {"k": "tuple", "a": [x for x in xs if x is not None]}
        if T["k"] in ("blist", "bset", "btuple"):
            return {"k": T["k"][1:], "a": [{"k": "int", "v": str(i)} for i in range(r.choice([0, 1, 2]))]}
        if T["k"] == "bdict":
            return {"k": "dict", "p": []}
        if T["k"] == "object":
            return self.value({"k": r.choice(["int", "str", "none"])}, depth)
        return super().value(T, depth)

    def hashable_value(self, V):
        return V["k"] in SCALARS + TEXTS + ("enum",) or (V["k"] == "tuple" and all(self.hashable_value(x) for x in V["a"])) or (V["k"] == "sub" and self.hashable_value(V["a"][0]))

    def foreign(self, hashable):
        r = self.r
        for _ in range(10):
            T = {"k": r.choice(SCALARS + TEXTS)} if r.random() < 0.6 else self.top(1)
            V = self.value(T) if usable(T, True) else None
            if V is not None and (not hashable or self.hashable_value(V)):
                return V
        return {"k": "int", "v": "3"}

    def spoil(self, V, hashable=False, objects=True):
        "Changes a value somewhere."
        r = self.r
        k = V["k"]
        if r.random() < 0.12:
            if V["k"] in ("list", "dict", "tuple", "int", "str", "float", "bytes") or (k == "set" and not hashable):
                return {"k": "sub", "a": [V]}
        if k in ("list", "tuple", "set"):
            inner = hashable or k == "set"
            a = list(V["a"])
            p = r.random()
            if a and p < 0.6:
                i = r.randrange(len(a))
                a[i] = self.spoil(a[i], inner)
                if k == "set" and any(self.same(a[i], x) for j, x in enumerate(a) if j != i):
                    del a[i]
                return dict(V, a=a)
            if a and p < 0.72:
                a.pop(r.randrange(len(a)))
                return dict(V, a=a)
            if p < 0.84:
                x = self.foreign(inner) if not a or r.random() < 0.6 else r.choice(a)
                if k != "set" or not any(self.same(x, y) for y in a):
                    a.insert(r.randint(0, len(a)), x)
                return dict(V, a=a)
            if p < 0.92 and k != "set":
                return dict(V, k={"list": "tuple", "tuple": "list"}[k]) if not hashable else V
        if k == "dict" and V["p"] and r.random() < 0.75:
            ps = [dict(x) for x in V["p"]]
            i = r.randrange(len(ps))
            if r.random() < 0.4:
                x = self.spoil(ps[i]["key"], True)
                if not any(self.same(x, q["key"]) for q in ps):
                    ps[i]["key"] = x
            else:
                ps[i]["val"] = self.spoil(ps[i]["val"])
            return {"k": "dict", "p": ps}
        return self.foreign(hashable)

    def spoil_in_union(self, T):
        return None


def inst_worlds(seed, count, per):
    out = []
    for i in range(count):
        r = random.Random(f"{seed}:{i}")
        g = InstGen(r, wide=False, pcustom=0.15, bare=True).world()
        ev = []
        for _ in range(per):
            T = g.top(r.choice([1, 2, 3]))
            if not usable(T, False):
                continue
            V = g.value(T)
            if V is None:
                continue
            for _ in range(r.choice([0, 1, 1, 2])):
                V = g.spoil(V)
            ev.append({"op": "inst", "T": T, "V": V, "notation": r.choice(["typing", "union", "pep604"])})
        for n, c in g.env["cls"].items():
            if c["kind"] not in ("dc", "nt", "typed", "custom") or not all(usable(f["t"], True) for f in c["f"]) or not deep(g.env, n):
                continue
            for _ in range(3):
                T = {"k": "cls", "n": n}
                V = g.value(T)
                if V is None:
                    continue
                V = dress(g, V)
                ev.append({"op": "leaves", "T": T, "V": V})
                for _ in range(3):
                    ev.append({"op": "deny", "T": T, "V": V, "how": r.choice(["pred", "value", "both", "type"]), "pick": r.random()})
        if r.random() < 0.1:
            for how in (["pred", "type_pred", "value_pred"], ["pred", "value_pred"], ["type_pred"], ["pred", "type_pred"]):
                ev.append({"op": "refuse", "T": {"k": "int"}, "V": {"k": "int", "v": "1"}, "how": how})
        if ev:
            out.append({"name": f"i{i}", "E": g.env, "style": g.style, "ev": ev})
    return out


def dress(g, V):
    "Replaces some containers by instances of derived classes."
    r = g.r
    if V["k"] in ("list", "tuple"):
        V = dict(V, a=[dress(g, x) for x in V["a"]])
    elif V["k"] == "dict":
        V = {"k": "dict", "p": [dict(p, val=dress(g, p["val"])) for p in V["p"]]}
    elif V["k"] == "obj":
        return dict(V, m=[dict(m, x=dress(g, m["x"])) for m in V["m"]])
    if V["k"] in ("list", "tuple", "dict", "int", "str") and r.random() < 0.06:
        return {"k": "sub", "a": [V]}
    return V


def deep(env, n, seen=()):
    "All members, at any depth, are of usable types."
    if n in seen or n not in env["cls"]:
        return True

    def names(T):
        return ([T["n"]] if T["k"] in ("cls", "ref") else []) + [x for y in T.get("a", []) for x in names(y)]

    for f in env["cls"][n]["f"]:
        if not usable(f["t"], True):
            return False
        for x in names(f["t"]):
            T = env["als"].get(x)
            if T is not None and not usable(T, True):
                return False
            if T is not None and x not in seen and not all(deep(env, y, seen + (n, x)) for y in names(T)):
                return False
            if not deep(env, x, seen + (n,)):
                return False
    return True


def grid_worlds(base, few, per=500):
    "Types and values of the grid against each other."
    import json

    with open(base) as f:
        types = [json.loads(x) for x in f if x.strip()]
    with open(base + ".3") as f:
        env = json.load(f)[0]
    env["als"] = {}
    has = lambda T, k: T["k"] == k or any(has(x, k) for x in T.get("a", []))  # noqa: E731
    others = [v for x in types if x["T"]["k"] != "union" for v in x["V"][:few]]
    events = []
    for n, x in enumerate(types):
        if has(x["T"], "lit"):
            continue
        for v in x["V"] + others:
            events.append({"op": "inst", "T": x["T"], "V": v})
        if x["T"]["k"] == "cls":
            for v in x["V"]:
                events.append({"op": "leaves", "T": x["T"], "V": v})
                for i, how in enumerate(["pred", "value", "both", "type"] * 2):
                    events.append({"op": "deny", "T": x["T"], "V": v, "how": how, "pick": i})
    styles = [{}, {"postponed": True, "notation": "pep604"}, {"notation": "union", "builtin": False}]
    return [{"name": f"gi{i}", "E": env, "style": styles[(i // per) % 3], "ev": events[i:i + per]} for i in range(0, len(events), per)]


# ---------------------------------------------------------------------------------------------------------------------
# members of classes


def run_fields(w):
    from strong_typing import inspection as i

    world = World(w["D"], w.get("style"), w["name"]).load()
    try:
        f = Reflect(world)
        events = []
        for ev in w["ev"]:
            typ = world.types[ev["n"]]
            import dataclasses

            default = lambda d: [] if d is dataclasses.MISSING else [world.describe(d)]  # noqa: E731
            if ev["how"] == "fields":
                one = lambda x: {"n": x.name, "t": f.reflect(x.type), "d": default(x.default)}  # noqa: E731
                ok, r = guarded(lambda: [one(x) for x in i.dataclass_fields(typ)])
                by = lambda n: one(i.dataclass_field_by_name(typ, n))  # noqa: E731
            else:
                one = lambda n, t: {"n": n, "t": f.reflect(t), "d": []}  # noqa: E731
                ok, r = guarded(lambda: [one(n, t) for n, t in i.get_class_properties(typ)])
                by = lambda n: one(n, i.get_class_property(typ, n))  # noqa: E731
            ok2, r2 = guarded(lambda: [by(x["n"]) for x in r]) if ok else (True, [])
            e = kind_of(ok, r) or kind_of(ok2, r2)
            # a name that is not a member
            missing = guarded(lambda: i.dataclass_field_by_name(typ, "missing_") if ev["how"] == "fields" else i.get_class_property(typ, "missing_"))
            if ok and ok2 and not (kind_of(*missing) == "LookupError" if ev["how"] == "fields" else missing == (True, None)):
                ok2, e = False, "member that does not exist"
            events.append(dict(ev, o={"ok": ok and ok2, "e": e}, f=r if ok else [], by=r2 if ok and ok2 else []))
        return {"D": w["D"], "ev": events}
    finally:
        world.unload()


def field_worlds(seed, count):
    out = []
    for i in range(count):
        r = random.Random(f"{seed}:{i}")
        g = Gen(r, wide=False, pcustom=0.1).world()
        ev = []
        for n, c in g.env["cls"].items():
            if c["kind"] in ("dc", "nt", "typed"):
                for how in ["props"] * ("mods" not in g.style) + ["fields"] * (c["kind"] == "dc"):
                    ev.append({"op": "fields", "n": n, "how": how})
        if ev:
            out.append({"name": f"m{i}", "D": g.env, "style": g.style, "ev": ev})
    return out
