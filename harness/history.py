"""Histories of declarations and deserializations against the real code (property C11)."""

import random
import sys
import types

from codec import BAD, outcome
from lang import POSTPONED, PRELUDE, World, a2j, error_kind, j2a, opt
from runner import guarded

_PRELUDE = {}


def prelude():
    if not _PRELUDE:
        exec(PRELUDE, _PRELUDE)
        exec("def _mk(cls, **kw):\n    o = cls.__new__(cls)\n    for k, v in kw.items(): setattr(o, k, v)\n    return o\n", _PRELUDE)
    return _PRELUDE


class Changing(World):
    "Modules in which names are bound and unbound."

    def __init__(self, w):
        self.D = w["D"]
        env = {
            "cls": {i: {"kind": d["kind"], "f": d["f"], "opts": d.get("opts", {})} for i, d in self.D.items() if d["kind"] != "enum"},
            "enm": {i: d["ms"] for i, d in self.D.items() if d["kind"] == "enum"},
            "als": {},
        }
        super().__init__(env, w.get("style") or {}, w["name"])
        self.mods = {}
        for m in w["mods"]:
            self.reload(m)
        self.kept = {}

    def reload(self, m):
        name = f"{self.name}_{m}"
        mod = types.ModuleType(name)
        mod.__dict__.update({k: v for k, v in prelude().items() if not k.startswith("__")})
        mod.__dict__["_d"] = self.declared = getattr(self, "declared", {})
        sys.modules[name] = mod
        self.mods[m] = mod

    def unload(self):
        for m in self.mods.values():
            sys.modules.pop(m.__name__, None)

    def ref_name(self, n, mod):
        return f"_d['{n}']"

    def define(self, i, bind):
        d = self.D[i]
        mod = self.mods[d["mod"]]
        postponed = bool(self.style.get("postponed"))
        if d["kind"] == "enum":
            src = f"class {d['name']}(enum.Enum):\n" + "".join(f"    {m['n']} = {self.src(m['v'])}\n" for m in d["ms"])
        else:
            src = self.class_src(i, 0, postponed).replace(f"class {i}", f"class {d['name']}", 1)
        scope = mod.__dict__ if bind else dict(mod.__dict__)
        exec(compile((POSTPONED if postponed else "") + src, f"<{mod.__name__}>", "exec", dont_inherit=True), scope)
        typ = scope[d["name"]]
        self.declared[i] = typ
        self.types[i] = typ
        self.names[typ] = i

    def top(self, T):
        return eval(self.type_src(T, 0, False, "typing"), dict(prelude(), _d=self.declared))


def run_history(w):
    from strong_typing.deserializer import DeserializerOptions, create_deserializer
    from strong_typing.serialization import json_to_generic, json_to_object, object_to_json

    world = Changing(w)
    shared = DeserializerOptions()
    objects = {}
    events = []
    try:
        for at, ev in enumerate(w["ev"]):
            out = dict(ev)
            op = ev["op"]
            if op == "def":
                ok, r = guarded(lambda: world.define(ev["id"], ev["bind"]))
                out["o"] = {"ok": ok, "e": "" if ok else f"declaration failed: {type(r).__name__} {r}"}
            elif op == "unbind":
                delattr(world.mods[ev["mod"]], ev["name"])
            elif op == "reload":
                world.reload(ev["mod"])
            elif op in ("read", "make"):
                typ = world.top(ev["T"])
                context = world.mods.get(ev["mod"])
                via = ev.get("via", "shared")
                if via == "shared":
                    shared.skip_unassigned = ev["skip"]
                    options = shared
                else:
                    options = DeserializerOptions(skip_unassigned=ev["skip"]) if ev["skip"] or via == "fresh" else None
                if op == "make":
                    ok, r = guarded(lambda: create_deserializer(typ, context, options))
                    if ok:
                        world.kept[ev["p"]] = r
                    out["d"] = dict(BAD, ok=ok, e="" if ok else error_kind(r))
                else:
                    data = a2j(ev["J"])
                    keep = []

                    def read():
                        read = json_to_object if ev.get("how") == "object" and isinstance(typ, type) else json_to_generic
                        keep.append(read(typ, data, context=context, options=options))
                        return keep[0]

                    out["d"] = outcome(read, world.describe, "v")
                    if out["d"]["ok"]:
                        objects[at] = keep[0]
            elif op == "parse":
                p = world.kept.get(ev["p"])
                out["d"] = outcome(lambda: p.parse(a2j(ev["J"])), world.describe, "v") if p is not None else dict(BAD, e="none")
            elif op == "write":
                # the object that was read last
                if not objects:
                    continue
                n = max(objects)
                out["s"] = outcome(lambda: object_to_json(objects[n]), j2a, "j")
                out["V"] = world.describe(objects[n])
            events.append(out)
            if op == "def" and not out["o"]["ok"]:
                break
        return {"D": w["D"], "mods": w["mods"], "ev": events}
    finally:
        world.unload()


# ---------------------------------------------------------------------------------------------------------------------

NO = {"k": "no", "v": []}
NAMES = ["A", "B", "C"]
VALUES = {
    "int": [{"k": "int", "v": "1"}, {"k": "int", "v": "-5"}], "str": [{"k": "str", "v": "s"}, {"k": "str", "v": "1"}],
    "bool": [{"k": "bool", "v": "True"}], "float": [{"k": "float", "v": "1.5"}], "none": [{"k": "null", "v": "null"}],
}


class Story:
    def __init__(self, r, name, mods):
        self.r, self.name, self.mods = r, name, mods
        self.D = {}
        self.bind = {m: {} for m in mods}
        self.older = {m: {} for m in mods}
        self.ev = []
        self.parsers = {}

    def scalar(self):
        return {"k": self.r.choice(["int", "str", "int", "bool", "float"])}

    def operand(self):
        r = self.r
        p = r.random()
        if p < 0.55:
            return {"k": "ref", "n": r.choice(NAMES)}
        if p < 0.75 and self.D:
            i = r.choice(list(self.D))
            return {"k": "enum" if self.D[i]["kind"] == "enum" else "cls", "n": i}
        return self.scalar()

    def type(self):
        r = self.r
        x = self.operand()
        k = r.choice(["list", "list", "opt", "opt", "dict", "plain", "union", "ann"] if x["k"] == "ref" else ["plain", "list", "opt", "dict"])
        if k == "list":
            return {"k": "list", "a": [x]}
        if k == "opt":
            return opt(x)
        if k == "dict":
            return {"k": "dict", "a": [{"k": "str"}, x]}
        if k == "union":
            return {"k": "union", "a": [x, {"k": "str"}]}
        if k == "ann":
            return {"k": "ann", "a": [x], "m": [{"mk": "maxlen", "s": "", "i": ["9"]}]}
        return x

    def declare(self):
        r = self.r
        i = f"D{len(self.D) + 1}"
        mod = r.choice(self.mods)
        name = r.choice(NAMES)
        if r.random() < 0.12:
            values = r.sample(VALUES["str"] + [{"k": "str", "v": "x"}] if r.random() < 0.5 else [{"k": "int", "v": str(n)} for n in range(4)], 2)
            d = {"kind": "enum", "mod": mod, "name": name, "f": [], "ms": [{"n": f"M{n}", "v": v} for n, v in enumerate(values)]}
        else:
            kind = r.choice(["dc", "dc", "dc", "nt", "typed"])
            fs = [dict(n=n, t=self.type() if r.random() < 0.65 else self.scalar(), d=NO, m=mod) for n in r.sample(["v", "w", "x", "y"], r.choice([1, 1, 2, 3]))]
            opts = {}
            bases = [j for j, b in self.D.items() if b["kind"] == "dc" and not b["opts"].get("base")]
            if kind == "dc" and bases and r.random() < 0.2:
                b = r.choice(bases)
                taken = {f["n"] for f in self.D[b]["f"]}
                fs = self.D[b]["f"] + [f for f in fs if f["n"] not in taken]
                opts["base"] = b
            d = {"kind": kind, "mod": mod, "name": name, "f": fs, "ms": [], "opts": opts}
        self.D[i] = d
        bind = r.random() < 0.85
        if bind:
            self.bind[mod][name] = i
            self.older[mod].setdefault(name, []).append(i)
        self.ev.append({"op": "def", "id": i, "bind": bind})

    def doc(self, T, mod, depth=4):
        r = self.r
        k = T["k"]
        if depth < 0:
            return {"k": "null", "v": "null"}
        if k in VALUES:
            return r.choice(VALUES[k])
        if k == "ann":
            return self.doc(T["a"][0], mod, depth)
        if k == "list":
            return {"k": "arr", "a": [self.doc(T["a"][0], mod, depth - 1) for _ in range(r.choice([0, 1, 1, 2]))] if depth > 0 else []}
        if k == "dict":
            return {"k": "map", "m": [{"n": n, "j": self.doc(T["a"][1], mod, depth - 1)} for n in ["k", "l"][:r.choice([0, 1, 1, 2]) if depth > 0 else 0]]}
        if k == "union":
            return self.doc(r.choice(T["a"] if depth > 0 else T["a"][-1:]), mod, depth - 1)
        if k == "ref":
            now = self.bind[mod].get(T["n"])
            older = self.older[mod].get(T["n"], [])
            if now is None and not older:
                return r.choice([{"k": "map", "m": []}, {"k": "str", "v": "s"}])
            return self.doc_of(r.choice(older) if older and (now is None or r.random() < 0.3) else now, depth)
        return self.doc_of(T["n"], depth)

    def doc_of(self, i, depth):
        r = self.r
        d = self.D[i]
        if d["kind"] == "enum":
            return r.choice(d["ms"])["v"]
        ms = [{"n": f["n"], "j": self.doc(f["t"], f["m"], depth - 1)} for f in d["f"]]
        if r.random() < 0.04 and ms:
            ms.pop(r.randrange(len(ms)))
        if r.random() < 0.1:
            ms.append({"n": "zz", "j": {"k": "int", "v": "0"}})
        return {"k": "map", "m": ms}

    def top(self):
        r = self.r
        mod = r.choice(self.mods)
        T = {"k": "ref", "n": r.choice(NAMES)}
        if r.random() < 0.8:
            i = r.choice(list(self.D))
            T = {"k": "enum" if self.D[i]["kind"] == "enum" else "cls", "n": i}
            mod = self.D[i]["mod"]
        if r.random() < 0.25:
            T = r.choice([lambda: {"k": "list", "a": [T]}, lambda: {"k": "dict", "a": [{"k": "str"}, T]}])()
        return T, mod

    def step(self):
        r = self.r
        p = r.random()
        if len(self.D) < 2 or (p < 0.2 and len(self.D) < 7):
            return self.declare()
        if p < 0.28:
            bound = [(m, n) for m in self.mods for n in self.bind[m]]
            if bound:
                m, n = r.choice(bound)
                del self.bind[m][n]
                self.ev.append({"op": "unbind", "mod": m, "name": n})
            return
        if p < 0.31:
            m = r.choice(self.mods)
            self.bind[m] = {}
            self.ev.append({"op": "reload", "mod": m})
            return
        if p < 0.4 and self.parsers:
            n = r.choice(list(self.parsers))
            T, mod = self.parsers[n]
            self.ev.append({"op": "parse", "p": n, "J": self.doc(T, mod)})
            return
        if p < 0.48:
            self.ev.append({"op": "write"})
            return
        T, mod = self.top()
        e = {"op": "read", "T": T, "mod": mod, "skip": r.random() < 0.4, "via": r.choice(["shared", "shared", "fresh", "none"]), "how": r.choice(["object", "generic"])}
        if r.random() < 0.12:
            n = f"p{len(self.parsers)}"
            self.parsers[n] = (T, mod)
            self.ev.append(dict(e, op="make", p=n))
        else:
            self.ev.append(dict(e, J=self.doc(T, mod)))


def story_worlds(seed, count, steps):
    out = []
    for i in range(count):
        r = random.Random(f"{seed}:{i}")
        s = Story(r, f"story_{i}", ["a", "b"][:r.choice([1, 2, 2])])
        for _ in range(steps):
            s.step()
        style = {"postponed": r.random() < 0.4, "notation": r.choice(["typing", "union", "pep604"]), "builtin": r.random() < 0.7}
        out.append({"name": s.name, "D": s.D, "mods": s.mods, "style": style, "history": True, "ev": s.ev})
    return out


def model_worlds(lines, D):
    "Histories of the bounded model."
    out = []
    for i, h in enumerate(lines):
        ev = [dict(e, via=["shared", "fresh", "none"][(i + n) % 3], how=["object", "generic"][(i + n) % 2]) if e["op"] == "read" else e for n, e in enumerate(h)]
        style = {"postponed": i % 2 == 1, "notation": ["typing", "pep604", "union"][i % 3], "builtin": i % 5 > 0}
        out.append({"name": f"told_{i}", "D": D, "mods": ["a"], "style": style, "history": True, "ev": ev})
    return out
