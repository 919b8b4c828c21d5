"""Abstract syntax shared with the TLA+ specification: types, values, JSON documents, environments of declared types.

Renders environments as Python source, builds values, and describes observed results by their exact runtime type.
"""

import dataclasses
import datetime
import enum
import ipaddress
import json
import sys
import types
import typing
import uuid

SCALARS = ("none", "bool", "int", "float", "str")
TEXTS = ("bytes", "datetime", "date", "time", "timedelta", "uuid", "ipv4", "ipv6")

PYNAME = {
    "none": "None", "bool": "bool", "int": "int", "float": "float", "str": "str", "bytes": "bytes",
    "datetime": "datetime.datetime", "date": "datetime.date", "time": "datetime.time",
    "timedelta": "datetime.timedelta", "uuid": "uuid.UUID", "ipv4": "ipaddress.IPv4Address",
    "ipv6": "ipaddress.IPv6Address", "any": "typing.Any", "decimal": "decimal.Decimal", "json": "JsonType",
    "blist": "list", "bset": "set", "bdict": "dict", "btuple": "tuple", "object": "object",
    "sjson": "StrictJsonType", "jobj": "JsonObject", "jarr": "JsonArray",
}

NONE = {"k": "none", "v": "None"}


def t(k, *a):
    return {"k": k, "a": list(a)} if a or k in ("tuple",) else {"k": k}


def opt(x):
    return {"k": "union", "a": [x, {"k": "none"}]}


def cls(n):
    return {"k": "cls", "n": n}


def key(x):
    return json.dumps(x, sort_keys=True)


# ---------------------------------------------------------------------------------------------------------------------
# environments

PRELUDE = """import collections, datetime, decimal, enum, ipaddress, typing, uuid
from dataclasses import dataclass, field
from typing import *
from strong_typing.auxiliary import *
from strong_typing.core import JsonArray, JsonObject, JsonType, StrictJsonType
from strong_typing.schema import json_schema_type as _json_schema_type, register_schema as _register_schema
"""

POSTPONED = "from __future__ import annotations\n"


class World:
    """An environment of declared types as a real Python module (or two)."""

    def __init__(self, env, style=None, name="world"):
        self.env = env
        self.style = style or {}
        self.name = name
        self.modules = []
        self.ns = None
        self.types = {}  # name -> type object
        self.names = {}  # type object -> name

    # types as source text ---------------------------------------------------------------------------------------

    def module_of(self, n):
        return self.style.get("mods", {}).get(n, 0)

    def ref_name(self, n, mod):
        return n if self.module_of(n) == mod else f"_b.{n}"

    def type_src(self, T, mod=1, postponed=False, notation=None):
        notation = notation or self.style.get("notation", "typing")
        k = T["k"]
        if not self.style.get("mods"):
            mod = 0
        rec = lambda x: self.type_src(x, mod, postponed, notation)  # noqa: E731
        if k in PYNAME:
            return PYNAME[k]
        if k in ("cls", "enum"):
            return self.ref_name(T["n"], mod)
        if k == "ref":
            return T["n"] if postponed else f'"{T["n"]}"'
        if k in ("list", "set", "dict"):
            name = k if self.style.get("builtin", True) else k.capitalize()
            return f"{name}[{', '.join(rec(x) for x in T['a'])}]"
        if k == "fset":
            name = "frozenset" if self.style.get("builtin", True) else "FrozenSet"
            return f"{name}[{rec(T['a'][0])}]"
        if k == "vtuple":
            return f"tuple[{rec(T['a'][0])}, ...]"
        if k == "tuple":
            name = "tuple" if self.style.get("builtin", True) else "Tuple"
            return f"{name}[{', '.join(rec(x) for x in T['a']) or '()'}]"
        if k == "lit":
            return f"Literal[{', '.join(self.src(v, mod) for v in T['v'])}]"
        if k == "ann":
            return f"Annotated[{rec(T['a'][0])}, {', '.join(ann_src(m) for m in T['m'])}]"
        if k == "aux":
            return T["n"]
        if k == "union":
            parts = [rec(x) for x in T["a"]]
            if notation == "pep604" and not any('"' in p and p[0] in "\"" for p in parts):
                return " | ".join(parts)
            if notation == "pep604" and postponed:
                return " | ".join(parts)
            nn = [p for p, x in zip(parts, T["a"]) if x["k"] != "none"]
            if len(nn) < len(parts) and notation != "union":
                inner = nn[0] if len(nn) == 1 else f"Union[{', '.join(nn)}]"
                if parts.index("None") == len(parts) - 1:
                    return f"Optional[{inner}]"
            return f"Union[{', '.join(parts)}]"
        raise ValueError(f"type {T}")

    # values as source text --------------------------------------------------------------------------------------

    def src(self, V, mod=1):
        if not self.style.get("mods"):
            mod = 0
        k = V["k"]
        if k in ("none", "bool", "int"):
            return f"({V['v']})" if V["v"].startswith("-") else V["v"]
        if k == "float":
            return f"float({V['v']!r})" if V["v"] in ("nan", "inf", "-inf") else f"({V['v']})"
        if k == "str":
            return repr(V["v"])
        if k == "bytes":
            return repr(bytes(V["b"]))
        if k == "date":
            return f"datetime.date({', '.join(map(str, V['f']))})"
        if k in ("time", "datetime"):
            n = 4 if k == "time" else 7
            f = V["f"]
            tz = ""
            if len(f) > n:
                sg, off, us = f[n:]
                if (off, us) == (0, 0) and sg == 1:
                    tz = ", tzinfo=datetime.timezone.utc"
                else:
                    sign = "-" if sg < 0 else ""
                    tz = f", tzinfo=datetime.timezone({sign}datetime.timedelta(seconds={off}, microseconds={us}))"
            return f"datetime.{k}({', '.join(map(str, f[:n]))}{tz})"
        if k == "timedelta":
            return f"datetime.timedelta(days={V['f'][0]}, seconds={V['f'][1]}, microseconds={V['f'][2]})"
        if k == "uuid":
            return f"uuid.UUID(bytes={bytes(V['b'])!r})"
        if k == "ipv4":
            return f"ipaddress.IPv4Address({bytes(V['b'])!r})"
        if k == "ipv6":
            return f"ipaddress.IPv6Address({bytes(V['b'])!r})"
        rec = lambda x: self.src(x, mod)  # noqa: E731
        if k == "list":
            return "[" + ", ".join(map(rec, V["a"])) + "]"
        if k == "tuple":
            return "(" + "".join(rec(x) + ", " for x in V["a"]) + ")"
        if k == "set":
            return "{" + ", ".join(map(rec, V["a"])) + "}" if V["a"] else "set()"
        if k == "dict":
            return "{" + ", ".join(f"{rec(p['key'])}: {rec(p['val'])}" for p in V["p"]) + "}"
        if k == "enum":
            return f"{self.ref_name(V['n'], mod)}.{V['v']}"
        if k == "obj":
            c = self.env["cls"][V["n"]]
            name = self.ref_name(V["n"], mod)
            args = ", ".join(f"{m['n']}={rec(m['x'])}" for m in V["m"])
            if c["kind"] == "typed":
                return f"_mk({name}, {args})" if args else f"_mk({name})"
            return f"{name}({args})"
        raise ValueError(f"value {V}")

    # module source ----------------------------------------------------------------------------------------------

    def class_src(self, n, mod, postponed):
        c = self.env["cls"][n]
        kind = c["kind"]
        o = c.get("opts", {})
        base = o.get("base")
        fields = c["f"]
        if base:
            inherited = len(self.env["cls"][base]["f"])
            fields = [f for f in fields[:inherited] if f["n"] in o.get("over", [])] + fields[inherited:]
        doc = o.get("doc") or doc_text(self.env.get("doc", {}).get(n))
        body = []
        if doc is not None:
            body.append(f"    {doc!r}")
        ts = lambda T: self.type_src(T, mod, postponed, o.get("notation"))  # noqa: E731
        if kind == "dc":
            for f in fields:
                line = f"    {f['n']}: {ts(f['t'])}"
                if f["d"]["k"] == "val":
                    line += f" = {self.src(f['d']['v'][0], mod)}"
                elif f["d"]["k"] == "fac":
                    line += f" = field(default_factory=lambda: {self.src(f['d']['v'][0], mod)})"
                body.append(line)
            args = ", ".join(f"{a}=True" for a in ("frozen", "slots", "kw_only") if o.get(a))
            b = f"({self.ref_name(base, mod)})" if base else ""
            head = f"@dataclass({args})\nclass {n}{b}:" if args else f"@dataclass\nclass {n}{b}:"
        elif kind == "nt":
            head = f"class {n}(NamedTuple):"
            for f in fields:
                line = f"    {f['n']}: {ts(f['t'])}"
                if f["d"]["k"] == "val":
                    line += f" = {self.src(f['d']['v'][0], mod)}"
                body.append(line)
        elif kind == "typed":
            b = f"({self.ref_name(base, mod)})" if base else ""
            head = f"class {n}{b}:"
            for f in fields:
                body.append(f"    {f['n']}: {ts(f['t'])}")
        elif kind == "untyped":
            head = f"class {n}:"
            names = [f["n"] for f in fields]
            body.append(f"    def __init__(self, {', '.join(names)}):")
            body += [f"        self.{x} = {x}" for x in names]
            body += ["    def method_of_instance(self):", "        return 1", "    @classmethod", "    def method_of_class(cls):", "        return 1"]
        elif kind == "unt":
            return f"{n} = collections.namedtuple({n!r}, {[f['n'] for f in fields]!r})\n"
        elif kind == "custom":
            head = f"class {n}:"
            x = fields[0]["n"]
            body += [
                f"    def __init__(self, {x}):",
                f"        self.{x} = {x}",
                "    def __eq__(self, other):",
                f"        return type(other) is {n} and self.{x} == other.{x}",
                "    def __hash__(self):",
                f"        return hash(self.{x})",
                "    def to_json(self):",
                f"        return 'v:' + self.{x}",
                "    @classmethod",
                "    def from_json(cls, data):",
                "        if not isinstance(data, str): raise JsonTypeError('custom')",
                "        if not data.startswith('v:'): raise JsonValueError('custom')",
                "        return cls(data[2:])",
            ]
        else:
            raise ValueError(kind)
        return head + "\n" + "\n".join(body or ["    pass"]) + "\n"

    def registration(self, n):
        r = self.env.get("reg", {}).get(n)
        if r is None:
            return ""
        schema = repr(a2j(r["s"][0])) if r["s"] else "None"
        examples = repr(a2j(r["x"][0])) if r["x"] else "None"
        if r["id"] == n and self.style.get("decorate"):
            return f"{n} = _json_schema_type({n})\n" if schema == examples == "None" else f"_json_schema_type(schema={schema}, examples={examples})({n})\n"
        name = "None" if r["id"] == n else repr(r["id"])
        return f"_register_schema({n}, schema={schema}, name={name}, examples={examples})\n"

    def source(self, mod):
        postponed = bool(self.style.get("postponed"))
        lines = []
        if postponed:
            lines.append(POSTPONED)
        lines.append(PRELUDE)
        lines.append("from strong_typing.exception import JsonKeyError, JsonTypeError, JsonValueError\n")
        if mod == 1:
            lines.append(f"import {self.name}_b as _b\n")
        lines.append("def _mk(cls, **kw):\n    o = cls.__new__(cls)\n    for k, v in kw.items(): setattr(o, k, v)\n    return o\n")
        for n, ms in self.env["enm"].items():
            if self.module_of(n) == mod:
                lines.append(f"class {n}(enum.Enum):\n")
                doc = doc_text(self.env.get("doc", {}).get(n))
                if doc is not None:
                    lines.append(f"    {doc!r}\n")
                lines.append("".join(f"    {m['n']} = {self.src(m['v'])}\n" for m in ms))
                lines.append(self.registration(n))
        order = self.style.get("order") or list(self.env["cls"])
        for n in order:
            if self.module_of(n) == mod:
                lines.append(self.class_src(n, mod, postponed))
                lines.append(self.registration(n))
        for n, T in self.env["als"].items():
            if self.module_of(n) == mod:
                lines.append(f"{n} = {self.type_src(T, mod)}\n")
        return "\n".join(lines)

    def load(self):
        forget_typing()
        mods = [0, 1] if self.style.get("mods") else [0]
        for mod in mods:
            name = f"{self.name}_b" if mods == [0, 1] and mod == 0 else self.name
            m = types.ModuleType(name)
            m.__file__ = f"<{name}>"
            sys.modules[name] = m
            src = self.source(mod)
            exec(compile(src, f"<{name}>", "exec", dont_inherit=True), m.__dict__)
            self.modules.append(m)
            for n in list(self.env["cls"]) + list(self.env["enm"]):
                if self.module_of(n) == mod:
                    typ = m.__dict__[n]
                    self.types[n] = typ
                    self.names[typ] = n
        self.module = self.modules[-1]
        self.ns = self.module.__dict__
        return self

    def unload(self):
        for m in self.modules:
            sys.modules.pop(m.__name__, None)

    def type(self, T, notation=None):
        # `typing` takes unions of the same members for each other irrespective of their order
        forget_typing()
        try:
            return eval(self.type_src(T, 1, False, notation), self.ns)
        finally:
            forget_typing()

    def value(self, V):
        return eval(self.src(V, 1), self.ns)

    # descriptions -----------------------------------------------------------------------------------------------

    def describe(self, x):
        typ = type(x)
        if x is None:
            return NONE
        if typ is bool or typ is int:
            return {"k": typ.__name__, "v": str(x) if typ is bool else int_text(x)}
        if typ is float:
            return {"k": "float", "v": repr(x)}
        if typ is str:
            return {"k": "str", "v": x}
        if typ is bytes:
            return {"k": "bytes", "b": list(x)}
        if typ is datetime.datetime:
            return {"k": "datetime", "f": [x.year, x.month, x.day] + clock(x)}
        if typ is datetime.date:
            return {"k": "date", "f": [x.year, x.month, x.day]}
        if typ is datetime.time:
            return {"k": "time", "f": clock(x)}
        if typ is datetime.timedelta:
            return {"k": "timedelta", "f": [x.days, x.seconds, x.microseconds]}
        if typ is uuid.UUID:
            return {"k": "uuid", "b": list(x.bytes)}
        if typ is ipaddress.IPv4Address:
            return {"k": "ipv4", "b": list(x.packed)}
        if typ is ipaddress.IPv6Address:
            if getattr(x, "scope_id", None) is not None:
                return {"k": "alien", "v": "scoped address"}
            return {"k": "ipv6", "b": list(x.packed)}
        if typ is list or typ is tuple:
            return {"k": typ.__name__, "a": [self.describe(y) for y in x]}
        if typ is set:
            return {"k": "set", "a": sorted((self.describe(y) for y in x), key=key)}
        if typ is dict:
            return {"k": "dict", "p": [{"key": self.describe(a), "val": self.describe(b)} for a, b in x.items()]}
        n = self.names.get(typ)
        if n is not None:
            if n in self.env["enm"]:
                return {"k": "enum", "n": n, "v": x.name}
            members = []
            known = [f["n"] for f in self.env["cls"][n]["f"]]
            for f in known:
                if hasattr(x, f):
                    members.append({"n": f, "x": self.describe(getattr(x, f))})
                else:
                    members.append({"n": f, "x": {"k": "missing", "v": ""}})
            for extra in getattr(x, "__dict__", {}):
                if extra not in known:
                    members.append({"n": extra, "x": {"k": "extra", "v": ""}})
            return {"k": "obj", "n": n, "m": members}
        return {"k": "alien", "v": f"{typ.__module__}.{typ.__qualname__}"}


def forget_typing():
    for cleanup in typing._cleanups:
        cleanup()


def int_text(x):
    try:
        return str(x)
    except ValueError:
        return hex(x)


def clock(x):
    f = [x.hour, x.minute, x.second, x.microsecond]
    off = x.utcoffset()
    if x.tzinfo is not None and off is not None:
        total = off // datetime.timedelta(microseconds=1)
        sg = -1 if total < 0 else 1
        f += [sg, abs(total) // 1000000, abs(total) % 1000000]
    return f


def doc_text(d):
    "The docstring for a described class."
    if d is None:
        return None
    blocks = []
    if d["s"]:
        blocks.append(d["s"][0])
    if d["l"]:
        blocks.append(d["l"][0])
    if d["p"]:
        blocks.append("\n".join(f":param {p['n']}: {p['d']}" for p in d["p"]))
    text = "\n\n".join(blocks)
    if "\n" in text:
        text = "\n" + "".join(f"    {x}\n" if x else "\n" for x in text.split("\n")) + "    "
    return text


def ann_src(m):
    mk = m["mk"]
    if mk == "alias":
        return f"Alias({m['s']!r})"
    if mk == "doc":
        return repr(m["s"])
    ints = ", ".join(m["i"])
    return {
        "minlen": "MinLength", "maxlen": "MaxLength", "len": "Length", "range": "IntegerRange", "prec": "Precision",
        "signed": "Signed", "storage": "Storage", "special": "SpecialConversion", "timeprec": "TimePrecision",
    }[mk] + f"({ints})"


def ann(T, *ms):
    return {"k": "ann", "a": [T], "m": list(ms)}


def mark(mk, s="", i=()):
    return {"mk": mk, "s": s, "i": [str(x) for x in i]}


# ---------------------------------------------------------------------------------------------------------------------
# JSON documents

def j2a(x):
    "Describes a JSON document by its exact runtime types."

    typ = type(x)
    if x is None:
        return {"k": "null", "v": "null"}
    if typ is bool:
        return {"k": "bool", "v": str(x)}
    if typ is int:
        return {"k": "int", "v": int_text(x)}
    if typ is float:
        return {"k": "float", "v": repr(x)}
    if typ is str:
        return {"k": "str", "v": x}
    if typ is list:
        return {"k": "arr", "a": [j2a(y) for y in x]}
    if typ is dict:
        return {"k": "map", "m": [{"n": k if type(k) is str else f"<{type(k).__name__}>", "j": j2a(v)} for k, v in x.items()]}
    return {"k": "alien", "v": f"{typ.__module__}.{typ.__qualname__}"}


def a2j(J):
    k = J["k"]
    if k == "null":
        return None
    if k == "bool":
        return J["v"] == "True"
    if k == "int":
        return int(J["v"])
    if k == "float":
        return float(J["v"])
    if k == "str":
        return J["v"]
    if k == "arr":
        return [a2j(x) for x in J["a"]]
    if k == "map":
        return {m["n"]: a2j(m["j"]) for m in J["m"]}
    raise ValueError(J)


def error_kind(ex):
    from strong_typing.exception import JsonKeyError, JsonTypeError, JsonValueError

    if isinstance(ex, JsonTypeError):
        return "T"
    if isinstance(ex, JsonKeyError):
        return "K"
    if isinstance(ex, JsonValueError):
        return "V"
    if isinstance(ex, OverflowError):
        return "o"
    if isinstance(ex, ValueError):
        return "v"
    if type(ex) is TypeError:
        return "y"
    return f"X:{type(ex).__name__}"
