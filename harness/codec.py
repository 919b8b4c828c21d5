"""Serialization and deserialization of worlds against the real code (properties C01 to C06)."""

import io
import json
import random

from gen import Gen
from lang import World, a2j, error_kind, j2a
from runner import Timeout, guarded

BAD = {"ok": False, "v": {"k": "alien", "v": ""}, "j": {"k": "alien", "v": ""}}


def outcome(fun, describe, field):
    ok, r = guarded(fun)
    if not ok:
        return dict(BAD, e="X:Timeout" if isinstance(r, Timeout) else error_kind(r))
    return dict(BAD, ok=True, e="", **{field: describe(r)})


def reader(world, T, skip, via, notation=None):
    from strong_typing.deserializer import DeserializerOptions, create_deserializer
    from strong_typing.serialization import json_to_generic, json_to_object

    typ = world.type(T, notation)
    options = DeserializerOptions(skip_unassigned=True) if skip else None
    if via == "noctx" and not has_ref(T):
        if options is None:
            return lambda data: json_to_object(typ, data)
        return lambda data: json_to_object(typ, data, options=options)
    if via == "obj":
        return lambda data: json_to_object(typ, data, context=world.module, options=options)
    if via == "parse":
        return lambda data: create_deserializer(typ, world.module, options=options).parse(data)
    if via == "name" and T["k"] == "cls" and world.module_of(T["n"]) == (1 if world.style.get("mods") else 0):
        return lambda data: json_to_generic(T["n"], data, context=world.module, options=options)
    return lambda data: json_to_generic(typ, data, context=world.module, options=options)


def has_ref(T):
    return T["k"] in ("ref", "json", "sjson") or any(has_ref(x) for x in T.get("a", []))


def writer(world, T, via):
    from strong_typing.serialization import object_to_json
    from strong_typing.serializer import create_serializer

    if via == "typ":
        return lambda obj: create_serializer(world.type(T), world.module).generate(obj)
    return object_to_json


def run_event(world, ev):
    from strong_typing.serialization import json_dump, json_dump_string

    out = dict(ev)
    if ev["op"] == "rt":
        obj = world.value(ev["V"])
        keep = {}

        def write():
            keep["j"] = writer(world, ev["T"], ev["via"])(obj)
            return keep["j"]

        out["s"] = outcome(write, j2a, "j")
        read = reader(world, ev["T"], False, ev.get("rvia", "obj"))
        if out["s"]["ok"]:
            def dump():
                keep["x"] = json_dump_string(keep["j"])
                f = io.StringIO()
                json_dump(keep["j"], f)
                keep["xf"] = f.getvalue()
                keep["j2"] = json.loads(keep["x"])
                return True

            ok, r = guarded(dump)
            out["x"] = keep.get("x", "") if isinstance(keep.get("x", ""), str) else "?"
            out["xf"] = keep.get("xf", "")
            out["j2"] = j2a(keep.get("j2"))
            out["d"] = outcome(lambda: read(keep["j"]), world.describe, "v")
            out["d2"] = outcome(lambda: read(keep["j2"]), world.describe, "v")
        else:
            out.update(x="", xf="", j2={"k": "null", "v": "null"}, d=dict(BAD, e="none"), d2=dict(BAD, e="none"))
    else:
        read = reader(world, ev["T"], ev["skip"], ev.get("rvia", "obj"), ev.get("notation"))
        data = a2j(ev["J"])
        out["d"] = outcome(lambda: read(data), world.describe, "v")
    return out


def run(w):
    world = World(w["E"], w["style"], w["name"])
    try:
        world.load()
        ev = [run_event(world, e) for e in w["ev"]]
    finally:
        world.unload()
    return {"E": w["E"], "ev": ev}


def new_world(rng, i, **flags):
    g = Gen(rng, **{"aliases": rng.random() < 0.3, "open": random.Random(i).random() < 0.3, **flags}).world()
    return g, {"name": f"vw{i}", "E": g.env, "style": g.style, "ev": []}


def roundtrip_worlds(seed, worlds, per, **flags):
    out = []
    for i in range(worlds):
        rng = random.Random(f"{seed}:{i}")
        g, w = new_world(rng, i, **flags)
        while len(w["ev"]) < per:
            T = g.top()
            V = g.value(T)
            if V is None:
                V = g.value(T, 6)
            if V is None:
                continue
            w["ev"].append({"op": "rt", "T": T, "V": V, "via": rng.choice(["obj", "typ", "obj"]), "rvia": rng.choice(["obj", "gen", "parse", "name", "noctx"])})
        out.append(w)
    return out


def document_worlds(seed, worlds, per, skip=0.3, **flags):
    out = []
    for i in range(worlds):
        rng = random.Random(f"{seed}:d{i}")
        g, w = new_world(rng, i, **flags)
        while len(w["ev"]) < per:
            T = g.top()
            J = g.doc(T)
            docs = []
            if J is not None:
                docs.append(J)
                for _ in range(3):
                    docs.append(g.mutate(J))
                docs.append(g.mutate(g.mutate(J)))
            docs.append(g.scalar_doc())
            J2 = g.doc(g.top())
            if J2 is not None:
                docs.append(J2)
            for d in docs:
                w["ev"].append({"op": "de", "T": T, "J": d, "skip": rng.random() < skip, "rvia": rng.choice(["obj", "gen", "parse", "name", "noctx"])})
        out.append(w)
    return out


def member_worlds(seed, worlds, per, **flags):
    "Documents for classes with every property present, absent, null or unexpected, at any depth."
    out = []
    for i in range(worlds):
        rng = random.Random(f"{seed}:m{i}")
        g, w = new_world(rng, i, **flags)
        classes = [n for n, c in g.env["cls"].items() if c["kind"] != "custom"]
        tries = 0
        while classes and len(w["ev"]) < per and tries < 10 * per:
            tries += 1
            g.current = None
            T = {"k": "cls", "n": rng.choice(classes)}
            q = rng.random()
            if q < 0.12:
                T = {"k": "list", "a": [T]}
            elif q < 0.2:
                T = {"k": "dict", "a": [{"k": "str"}, T]}
            elif q < 0.28:
                T = {"k": "tuple", "a": [T, {"k": "int"}]}
            elif q < 0.34:
                T = {"k": "union", "a": [T, {"k": "none"}]}
            J = g.doc(T)
            if J is None:
                continue
            for _ in range(3):
                d = g.members(J)
                for skip in (False, True) if rng.random() < 0.5 else (False,):
                    w["ev"].append({"op": "de", "T": T, "J": d, "skip": skip, "rvia": rng.choice(["obj", "gen", "parse", "name", "noctx"])})
        out.append(w)
    return [w for w in out if w["ev"]]


def union_worlds(seed, worlds, per, **flags):
    import itertools

    out = []
    for i in range(worlds):
        rng = random.Random(f"{seed}:u{i}")
        g, w = new_world(rng, i, tagged=0.8, **flags)
        while len(w["ev"]) < per:
            g.current = None
            if g.families and rng.random() < 0.45:
                ms = [{"k": "cls", "n": n} for n in g.families[0]]
                if rng.random() < 0.2:
                    ms.append({"k": "none"})
                elif rng.random() < 0.1:
                    ms.append(g.scalar())
            else:
                T = g.union([g.type(rng.choice([0, 0, 1])) for _ in range(rng.randint(2, 4))])
                if T["k"] != "union" or g.has_ref(T):
                    continue
                ms = T["a"]
            orders = list(itertools.permutations(ms))
            rng.shuffle(orders)
            docs = []
            for m in ms:
                J = g.doc(m)
                if J is not None:
                    docs += [J, g.mutate(J)]
                    if J["k"] == "map":
                        docs.append(g.members(J))
            docs.append(g.scalar_doc())
            for order in orders[:3]:
                T = {"k": "union", "a": list(order)}
                q = rng.random()
                wrap = (lambda t: {"k": "list", "a": [t]}) if q < 0.15 else None
                for J in docs:
                    if wrap:
                        w["ev"].append({"op": "de", "T": wrap(T), "J": {"k": "arr", "a": [J]}, "skip": False, "rvia": rng.choice(["obj", "gen", "parse"])})
                    else:
                        w["ev"].append({"op": "de", "T": T, "J": J, "skip": rng.random() < 0.15, "rvia": rng.choice(["obj", "gen", "parse"])})
        out.append(w)
    return out


def text_worlds(seed, worlds, per):
    from gen import text_of
    from lang import TEXTS

    env = {"cls": {}, "enm": {}, "als": {}}
    out = []
    for i in range(worlds):
        rng = random.Random(f"{seed}:t{i}")
        g = Gen(rng, naive=0.05)
        ev = []
        while len(ev) < per:
            k = rng.choice(TEXTS)
            T = {"k": k}
            V = g.text(k)
            ev.append({"op": "rt", "T": T, "V": V, "via": rng.choice(["obj", "typ"]), "rvia": rng.choice(["obj", "gen", "parse"])})
            s = text_of(V) if rng.random() < 0.7 or k != "timedelta" else g.duration()
            for n in range(4):
                ev.append({"op": "de", "T": T, "J": {"k": "str", "v": s}, "skip": False, "rvia": rng.choice(["obj", "gen", "parse"])})
                s = g.edit(s)
        out.append({"name": f"vt{i}", "E": env, "style": {}, "ev": ev})
    return out
