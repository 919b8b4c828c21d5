"""Docstrings against the real code (properties C17 and C18)."""

import importlib
import inspect
import random
import sys
import types
import typing

from runner import Timeout, guarded

WORDS = ["Alpha", "beta.", "gamma", "x", "the", "of", "1", "(see)", "é", "a:b", "it's", "\\n", "*bold*", "`code`", "param", "returns", "http://a.b/c", "--", "::", "end:"]
NAMES = ["a", "b", "name", "x_1", "self", "*args", "param", "Error", "a.b", "ValueError"]


def parts_of(D):
    "Parts of a docstring as data."

    def named(items, attr):
        return [{"n": k if getattr(v, attr) == k else f"{k} is {getattr(v, attr)}", "d": v.description} for k, v in items.items()]

    def text(s):
        return "" if s is None else s or "<empty>"

    return {
        "short": text(D.short_description), "long": [] if D.long_description is None else text(D.long_description).split("\n"),
        "params": named(D.params, "name"), "raises": named(D.raises, "typename"),
        "returns": [] if D.returns is None else [D.returns.description], "see": [s.text for s in D.see_also],
    }


def failure(r):
    return "X:Timeout" if isinstance(r, Timeout) else type(r).__name__


NO_PARTS = {"short": "", "long": [], "params": [], "raises": [], "returns": [], "see": []}


def run_docstrings(w):
    from strong_typing.docstring import parse_text

    events = []
    for ev in w["ev"]:
        R = {"ok": True, "e": "", "D": NO_PARTS, "full": [], "P": [], "D2": NO_PARTS}

        def act():
            D = parse_text("\n".join(ev["L"]))
            R["D"] = parts_of(D)
            full = D.full_description
            R["full"] = [] if full is None else full.split("\n")
            printed = str(D)
            R["P"] = printed.split("\n")
            R["D2"] = parts_of(parse_text(printed))

        ok, r = guarded(act)
        if not ok:
            R.update(ok=False, e=failure(r))
        events.append(dict(ev, R=R))
    return {"ev": events}


def space(r):
    return r.choice([" ", " ", " ", "  ", "    "])


def sentence(r, n=4):
    return space(r).join(r.choice(WORDS) for _ in range(r.randint(1, n)))


def doc_line(r):
    k = r.random()
    indent = r.choice(["", "", "", "", "  ", "    ", " "])
    if k < 0.2:
        return "" if r.random() < 0.85 else " " * r.randint(1, 9)
    if k < 0.5:
        return indent + sentence(r)
    if k < 0.88:
        kw = r.choice(["param", "param", "param", "returns", "return", "raises", "raise", "see", "seealso", "Param", "type", "rtype", "note", ""])
        args = [kw] + [r.choice(NAMES) for _ in range(r.choice([0, 1, 1, 1, 2]) if kw not in ("returns", "return", "see", "seealso") else r.choice([0, 0, 0, 0, 1]))]
        text = "" if r.random() < 0.1 else r.choice(["", " ", " ", " ", "  "]) + sentence(r)
        return (indent if r.random() < 0.2 else "") + ":" + space(r).join(args) + r.choice(["", "", "", " "]) + (":" if r.random() < 0.93 else "") + text + r.choice(["", "", "  "])
    return r.choice([":", "::", ":param", ":param x", ":see", "x:", ":returns", ":param x:y:z", ":returns:::", ": :", ":param:x: y"])


def doc_text(r):
    L = [doc_line(r) for _ in range(r.choice([0, 1, 2, 3, 5, 8, 12]))]
    if r.random() < 0.5:
        L = [sentence(r), ""] + L
    margin = r.choice([0, 0, 4, 8])
    L = [x if i == 0 or (not x and r.random() < 0.8) else " " * margin + x for i, x in enumerate(L)]
    if margin and r.random() < 0.7:
        L = L + [" " * margin]
    if r.random() < 0.4:
        L = [""] + [" " * margin + x if i == 0 and x else x for i, x in enumerate(L)]
    return L or [""]


def doc_worlds(seed, worlds, per):
    out = []
    for i in range(worlds):
        r = random.Random(f"{seed}:{i}")
        out.append({"ev": [{"op": "dp", "L": doc_text(r)} for _ in range(per)]})
    return out


def hidden_colon():
    "Known: an indented line that starts with a colon begins a description."
    from strong_typing.docstring import parse_text

    D = parse_text("Short\ntext.\n\n    :note: kept\n    more")
    again = parse_text(str(D))
    if again.long_description != D.long_description:
        return f"the long description {D.long_description!r} is printed, and then read as {again.long_description!r}"
    return None


# ---------------------------------------------------------------------------------------------------------------------
# signatures

TYPES = {"int": "int", "str": "str", "ints": "list[int]", "opt": "Optional[str]", "any": "Any", "cls": "Thing", "fwd": '"Thing"', "None": "None"}
BUILTIN = ["ValueError", "KeyError", "Exception", "StopIteration", "TypeError", "KeyboardInterrupt"]
SIG_PRELUDE = """
from dataclasses import dataclass
import dataclasses
import enum
from typing import *
class Thing:
    pass
"""


def type_id(module, t):
    known = {"int": int, "str": str, "ints": list[int], "opt": typing.Optional[str], "any": typing.Any, "cls": module.Thing}
    for n, x in known.items():
        if t is x or (n in ("ints", "opt") and t == x):
            return n
    if t is None or t is type(None):
        return "None"
    if t is inspect.Signature.empty:
        return ""
    if isinstance(t, (str, typing.ForwardRef)):
        return "text"
    return "?" + repr(t)


def docstring_of(ev):
    return "" if not ev["given"] else repr("\n".join(ev["L"]))


def subject_source(n, ev, base):
    "Source of the module members that a subject consists of; returns (text, expression)."
    s = ev["s"]
    doc = docstring_of(ev)
    lines = []
    if s["kind"] == "dc":
        parent = ""
        if s["b"]:
            deco = "@dataclass"
            half = s["b"][1:] if len(s["b"]) > 1 and ev.get("deep") else []
            first = s["b"][:1] if half else s["b"]
            lines += [deco, f"class Base{n}:"] + [f"    {m['n']}: {TYPES[m['t']]}" for m in first]
            parent = f"Base{n}"
            if half:
                lines += [deco, f"class Mid{n}(Base{n}):"] + [f"    {m['n']}: {TYPES[m['t']]}" for m in half]
                parent = f"Mid{n}"
        lines += ["@dataclass" + ev.get("opts", ""), f"class C{n}" + (f"({parent})" if parent else "") + ":"]
        if doc:
            lines.append(f"    {doc}")
        lines += [f"    {m['n']}: {TYPES[m['t']]}" + (" = None" if ev.get("defaults") else "") for m in s["o"]] or ["    pass"]
        return lines, f"C{n}"
    if s["kind"] == "cls":
        form = ev.get("form", "plain")
        head = {"plain": f"class C{n}:", "enum": f"class C{n}(enum.Enum):", "nt": f"class C{n}(NamedTuple):"}[form]
        body = {"plain": ["    x: int"], "enum": ["    A = 1"], "nt": ["    x: int", "    y: str"]}[form]
        return [head] + ([f"    {doc}"] if doc else []) + body, f"C{n}"
    ps, star = [], False
    for i, p in enumerate(s["o"]):
        if p["pk"] == "kw" and not star:
            ps.append("*")
            star = True
        name = {"var": "*", "kwvar": "**"}.get(p["pk"], "") + p["n"]
        star = star or p["pk"] == "var"
        ps.append(name + (f": {TYPES[p['t']]}" if p["t"] else ""))
        if p["pk"] == "only" and (i + 1 == len(s["o"]) or s["o"][i + 1]["pk"] != "only"):
            ps.append("/")
    ret = f" -> {TYPES[s['ret']]}" if s["ret"] else ""
    form = ev.get("form", "def")
    text = [("async " if form == "async" else "") + f"def f{n}({', '.join(ps)}){ret}:"] + ([f"    {doc}"] if doc else []) + ["    yield None" if form == "gen" else "    return None"]
    if form == "method":
        return [f"class H{n}:"] + ["    " + x for x in text], f"H{n}.f{n}"
    return text, f"f{n}"


def run_signatures(w):
    from strong_typing.docstring import check_docstring, get_docstring, has_default_docstring, has_docstring, parse_text, parse_type

    name = w["name"]
    lines = (["from __future__ import annotations"] if w["late"] else []) + SIG_PRELUDE.splitlines()
    other = types.ModuleType(name + "_other")
    exec("class Elsewhere(Exception): pass\nclass NotHere(Exception): pass\nclass Alias(Exception): pass\n", other.__dict__)
    sys.modules[other.__name__] = other
    lines += w["decl"]
    refs = []
    for n, ev in enumerate(w["ev"]):
        text, ref = subject_source(n, ev, None)
        lines += text
        refs.append(ref)
    module = types.ModuleType(name)
    sys.modules[name] = module
    events = []
    try:
        exec(compile("\n".join(lines).replace("OTHER", other.__name__), f"<{name}>", "exec"), module.__dict__)
        for ev, ref in zip(w["ev"], refs):
            subject = module
            for part in ref.split("."):
                subject = getattr(subject, part)
            R = {"ok": True, "e": "", "params": [], "ret": "", "raises": []}

            def act():
                D = parse_type(subject)
                R["params"] = [{"n": k, "t": type_id(module, v.param_type)} for k, v in D.params.items()]
                R["ret"] = type_id(module, D.returns.return_type) if D.returns else ""
                R["raises"] = [{"n": k, "m": f"{v.raise_type.__module__}.{v.raise_type.__qualname__}".replace(name, "here")} for k, v in D.raises.items()]

            ok, r = guarded(act)
            if not ok:
                R.update(ok=False, e=failure(r))
            doc = parse_text("\n".join(ev["L"])) if ev["given"] else parse_text("")

            def checked(**opts):
                ok, r = guarded(lambda: check_docstring(subject, doc, **opts))
                return {"ok": ok, "e": "" if ok else failure(r)}

            H = {"has": None, "dflt": None, "text": None, "auto": subject.__doc__ is not None}

            def kinds():
                H["has"], H["dflt"] = has_docstring(subject), has_default_docstring(subject)
                H["text"] = get_docstring(subject) is not None

            ok, r = guarded(kinds)
            if not ok:
                R.update(ok=False, e=failure(r))
                H.update(has=False, dflt=False, text=False)
            events.append(dict(ev, R=R, C=checked(), S=checked(strict=True), H=H))
    finally:
        sys.modules.pop(name, None)
        sys.modules.pop(other.__name__, None)
    return {"X": w["X"], "B": w["B"], "late": w["late"], "ev": events}


BUILTINS = [{"n": n, "m": f"builtins.{n}"} for n in BUILTIN]


def sig_world(name, r, ev):
    "A module with exceptions of its own and of another module."
    decl, X = [], []

    def add(text, n, m):
        decl.append(text)
        X.append({"n": n, "m": m})

    add("class Mine(Exception): pass", "Mine", "here.Mine")
    if r.random() < 0.5:
        add("from OTHER import Elsewhere", "Elsewhere", "here_other.Elsewhere")
    if r.random() < 0.4:
        add("from OTHER import Alias as Renamed", "Renamed", "here_other.Alias")
    if r.random() < 0.4:
        add("class KeyError(Exception): pass", "KeyError", "here.KeyError")
    if r.random() < 0.3:
        add("class Sub(Mine): pass", "Sub", "here.Sub")
    if r.random() < 0.3:
        decl.append("import OTHER")
    if r.random() < 0.3:
        decl.append("class Outer:\n    class NotHere(Exception): pass")
    return {"name": name, "late": r.random() < 0.3, "decl": decl, "X": X, "B": BUILTINS, "ev": ev}


def sig_event(r):
    names = r.sample(["a", "b", "c", "d", "e_1", "name", "self", "z"], r.randint(0, 5))
    kind = r.choice(["dc", "dc", "fn", "fn", "fn", "cls"])
    ev = {"op": "sg", "given": r.random() < 0.9}
    T = [t for t in TYPES if t != "None"]

    def member(n, pk="pos", types=T):
        return {"n": n, "t": r.choice(types), "pk": pk}

    s = {"kind": kind, "o": [], "b": [], "ret": ""}
    if kind == "dc":
        names = [n for n in names if n != "self"]
        s["o"] = [member(n) for n in names]
        if r.random() < 0.5:
            s["b"] = [member(n) for n in r.sample(["a", "c", "z", "q"], r.randint(1, 3))]
        ev["deep"] = r.random() < 0.5
        ev["opts"] = r.choice(["", "", "(frozen=True)", "(slots=True)"]) if not s["b"] else ""
        ev["defaults"] = r.random() < 0.2
        if ev["defaults"] and s["b"]:
            ev["defaults"] = not {m["n"] for m in s["o"]} & {m["n"] for m in s["b"]}
    elif kind == "cls":
        ev["form"] = r.choice(["plain", "enum", "nt"])
        names = ["x"]
    else:
        ev["form"] = r.choice(["def", "def", "method", "async", "gen"])
        if ev["form"] == "method":
            names = ["self"] + [n for n in names if n != "self"]
        kinds = {"only": 0, "pos": 1, "kw": 3, "kwvar": 4}
        s["o"] = [member(n, r.choice(["pos", "pos", "pos", "kw", "only"]), T + ["", ""]) for n in names]
        if ev["form"] == "method":
            s["o"][0]["pk"] = "pos"
            s["o"][0]["t"] = ""
            for p in s["o"]:
                if p["pk"] == "only":
                    p["pk"] = "pos"
        s["o"].sort(key=lambda p: kinds[p["pk"]])
        if r.random() < 0.2:
            at = len([p for p in s["o"] if kinds[p["pk"]] < 2])
            s["o"].insert(at, member("args", "var", T + [""]))
        if r.random() < 0.2:
            s["o"].append(member("kwargs", "kwvar", T + [""]))
        s["ret"] = r.choice(T + ["", "", "None"])
    ev["s"] = s
    own = [m["n"] for m in s["o"]] + ([] if kind != "cls" else ["x"])
    L = r.choice([["Text."], ["Text.", "", "More text", "  indented"], [""], []])[:]
    entries = []
    documented = [n for n in own if r.random() < r.choice([0.5, 0.9, 1])]
    if kind == "fn" and "self" in documented and r.random() < 0.8:
        documented.remove("self")
    if r.random() < 0.25:
        documented.append(r.choice(["z", "q", "a", "Text", "args", "return"]))
    entries += [f":param {n}: about {n}" for n in documented]
    if r.random() < (0.5 if s["ret"] else 0.15):
        entries.append(":returns: what it returns" if r.random() < 0.7 else ":return: it")
    for n in r.sample(["ValueError", "KeyError", "Mine", "Elsewhere", "Renamed", "Sub", "NotHere", "Thing", "Exception", "Alias", "StopIteration", "int"], r.choice([0, 0, 0, 1, 1, 2])):
        if r.random() < 0.5 or n in ("ValueError", "Mine", "KeyError"):
            entries.append(f":{r.choice(['raises', 'raise'])} {n}: when")
    if r.random() < 0.3:
        r.shuffle(entries)
    L = L + ([""] if entries and L else []) + entries
    if r.random() < 0.5:
        L = [""] + ["    " + x if x else x for x in L] + ["    "]
    ev["L"] = L or ["Text."]
    if ev["given"] and not "".join(ev["L"]).strip():
        ev["L"] = ["Text."]
    return ev


def sig_worlds(seed, worlds, per):
    out = []
    for i in range(worlds):
        r = random.Random(f"{seed}:{i}")
        out.append(sig_world(f"vsig{i}", r, [sig_event(r) for _ in range(per)]))
    return out


def printed(D):
    return [D["short"], ""] + [f":param {p['n']}: {p['d']}" for p in D["params"]] + [f":returns: {x}" for x in D["returns"]] + [f":raises {x['n']}: {x['d']}" for x in D["raises"]]


def model_worlds(rows):
    out = []
    for i in range(0, len(rows), 100):
        ev = [{"op": "sg", "given": True, "s": x["s"], "L": printed(x["d"]), "deep": j % 2 == 0} for j, x in enumerate(rows[i:i + 100])]
        out.append({"name": f"vsigm{i}", "late": False, "decl": ["class Mine(Exception): pass"], "X": [{"n": "Mine", "m": "here.Mine"}], "B": BUILTINS, "ev": ev})
    return out
