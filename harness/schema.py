"""Schema generation and validation against the real code (properties C07 to C10)."""

import random
import re

from codec import outcome
from gen import Gen
from lang import World, a2j, j2a

PLAIN = {"path": "#/definitions/", "desc": True, "ex": True, "fun": False}
DRAFTS = {
    "Draft7": "http://json-schema.org/draft-07/schema#",
    "Draft201909": "https://json-schema.org/draft/2019-09/schema",
    "Draft202012": "https://json-schema.org/draft/2020-12/schema",
}


def options(O):
    from strong_typing.schema import SchemaOptions

    fun = (lambda typ, name, text: f"{typ.__name__}.{name}: {text}") if O["fun"] else None
    return SchemaOptions(definitions_path=O["path"], use_descriptions=O["desc"], use_examples=O["ex"], property_description_fun=fun)


def generate(typ, O, force=False, draft=None):
    "The schema document without the statement of the draft, and the draft."
    from strong_typing.schema import JsonSchemaGenerator, Validator, classdef_to_schema

    if force:
        schema, definitions = JsonSchemaGenerator(options(O)).classdef_to_schema(typ, force_expand=True)
        if definitions:
            schema = dict(schema, definitions=definitions)
        return schema, ""
    args = {} if O == PLAIN else {"options": options(O)}
    if draft:
        args["validator"] = Validator[draft]
    schema = dict(classdef_to_schema(typ, **args))
    return schema, schema.pop("$schema", "")


def patterns(x):
    if isinstance(x, dict):
        if isinstance(x.get("pattern"), str):
            yield x["pattern"]
        for y in x.values():
            yield from patterns(y)
    elif isinstance(x, list):
        for y in x:
            yield from patterns(y)


def texts(x):
    if isinstance(x, str):
        yield x
    elif isinstance(x, dict):
        yield from x
        for y in x.values():
            yield from texts(y)
    elif isinstance(x, list):
        for y in x:
            yield from texts(y)


def facts(pats, docs):
    "Which strings match which patterns (in the reading of JSON Schema, where the end of text is the end of text)."
    out = []
    for p in sorted(pats):
        try:
            rx = re.compile(re.sub(r"\$$", r"\\Z", p))
        except re.error:
            continue
        for s in sorted({s for d in docs for s in texts(d)}):
            out.append({"p": p, "s": s, "m": bool(rx.search(s))})
    return out


def enum_patterns(env):
    for ms in env["enm"].values():
        if len(ms) > 4 and ms[0]["v"]["k"] == "str":
            yield "^(" + "|".join(re.escape(m["v"]["v"]) for m in ms) + ")$"


def validation(typ, data):
    import jsonschema

    from strong_typing.schema import validate_object

    try:
        validate_object(typ, data)
    except jsonschema.exceptions.ValidationError:
        return {"ok": False, "e": "invalid"}
    except Exception as ex:
        return {"ok": False, "e": f"{type(ex).__name__}: {ex}"[:200]}
    return {"ok": True, "e": ""}


def run_event(world, ev):
    from strong_typing.serialization import json_to_object, object_to_json

    out = dict(ev)
    op = ev["op"]
    if op == "sg":
        out["s"] = outcome(lambda: generate(world.type(ev["T"]), ev["O"], ev["force"])[0], j2a, "j")
        return out
    typ = world.type(ev["T"])
    keep = {}

    def schema(O, draft):
        keep["s"], keep["id"] = generate(typ, O, False, draft)
        return keep["s"]

    if op == "sv":
        out["S"] = []
        pats = set(enum_patterns(world.env))
        for draft, path in ev["S"]:
            r = outcome(lambda: schema(dict(PLAIN, path=path), draft), j2a, "j")
            out["S"].append({"draft": draft, "path": path, "ok": r["ok"], "e": r["e"], "j": r["j"], "id": keep.get("id", ""), "uri": DRAFTS[draft]})
            pats |= set(patterns(keep.get("s")))
        out["V"] = []
        for v in ev["V"]:
            o = {"T": ev["T"], "V": v, "a": {"ok": False, "e": "not written"}, "rx": []}
            obj = world.value(v)

            def write():
                keep["j"] = object_to_json(obj)
                return keep["j"]

            o["s"] = outcome(write, j2a, "j")
            if o["s"]["ok"]:
                o["a"] = validation(typ, keep["j"])
                o["rx"] = facts(pats, [keep["j"]]) if pats else []
            out["V"].append(o)
    else:
        out["s"] = outcome(lambda: schema(PLAIN, None), j2a, "j")
        out["D"] = []
        pats = set(patterns(keep.get("s")))
        for J in ev["D"]:
            d = outcome(lambda: json_to_object(typ, a2j(J), context=world.module), world.describe, "v")
            out["D"].append({"J": J, "d": d, "a": validation(typ, a2j(J)), "rx": facts(pats, [a2j(J)]) if pats else []})
    return out


def run(w):
    world = World(w["E"], w["style"], w["name"])
    try:
        world.load()
        ev = [run_event(world, e) for e in w["ev"]]
    finally:
        world.unload()
    return {"E": w["E"], "ev": ev}


# ---------------------------------------------------------------------------------------------------------------------

FLAGS = {"schema": True, "naive": 0, "tagged": 0.4}


def new_world(rng, i, tag, **flags):
    g = Gen(rng, **{**FLAGS, "aliases": rng.random() < 0.3, "suffix": f"_{tag}{i}", **flags}).world()
    return g, {"name": f"vs{tag}{i}", "E": g.env, "style": g.style, "ev": []}


def some_options(r):
    O = dict(PLAIN)
    if r.random() < 0.3:
        O["path"] = r.choice(["#/components/schemas/", "#/$defs/", "#/definitions/x/"])
    if r.random() < 0.25:
        O["desc"] = False
    if r.random() < 0.25:
        O["ex"] = False
    if r.random() < 0.25:
        O["fun"] = True
    return O


def schema_worlds(seed, worlds, per):
    out = []
    for i in range(worlds):
        r = random.Random(f"{seed}:g{i}")
        g, w = new_world(r, i, "g", wide=True, pexplicit=0.15)
        for _ in range(per):
            T = g.top(r.choice([1, 2, 3]))
            w["ev"].append({"op": "sg", "T": T, "O": some_options(r), "force": r.random() < 0.15})
        out.append(w)
    return out


def value_worlds(seed, worlds, per):
    out = []
    for i in range(worlds):
        r = random.Random(f"{seed}:v{i}")
        g, w = new_world(r, i, "v", wide=r.random() < 0.4, preg=r.choice([0, 0.3, 0.6]))
        for _ in range(per):
            T = g.top()
            vs = [g.value(T, d) for d in (4, 4, 2, 6)]
            S = [[d, "#/definitions/"] for d in r.sample(list(DRAFTS), r.choice([1, 2, 3]))]
            w["ev"].append({"op": "sv", "T": T, "V": [v for v in vs if v is not None], "S": S})
        out.append(w)
    return out


def document_worlds(seed, worlds, per):
    out = []
    for i in range(worlds):
        r = random.Random(f"{seed}:d{i}")
        g, w = new_world(r, i, "d", nonempty=True, preg=r.choice([0, 0.3, 0.6]))
        for _ in range(per):
            T = g.top()
            docs = [g.scalar_doc()]
            for d in (4, 2):
                V = g.value(T, d)
                if V is not None:
                    J = g.doc(T, V)
                    docs += [J, g.mutate(J), g.mutate(J), g.mutate(g.mutate(J)), g.members(J)]
            w["ev"].append({"op": "sd", "T": T, "D": docs})
        out.append(w)
    return out


# ---------------------------------------------------------------------------------------------------------------------
# histories of the catalog


def spoil(x):
    "Changes a JSON value in depth."
    if isinstance(x, dict):
        for y in list(x.values()):
            spoil(y)
        x["spoiled"] = True
        for k in list(x)[:-1]:
            if isinstance(x[k], str):
                x[k] = "spoiled"
    elif isinstance(x, list):
        for y in x:
            spoil(y)
        x.append("spoiled")


def raised(fun, convert=j2a):
    try:
        return {"ok": True, "e": "", "j": convert(fun())}
    except Exception as ex:
        return {"ok": False, "e": type(ex).__name__, "j": {"k": "null"}}


def run_history(w):
    from strong_typing.schema import get_schema_identifier, json_schema_type, register_schema

    world = World(w["E"], w["style"], w["name"])
    kept = []
    events = []
    try:
        world.load()
        for ev in w["ev"]:
            out = dict(ev)
            if ev["op"] == "reg":
                typ = world.types[ev["n"]]
                args = {"schema": a2j(ev["s"][0]) if ev["s"] else None, "examples": a2j(ev["x"][0]) if ev["x"] else None}
                kept.append(args)

                def register():
                    if ev["how"] == "bare":
                        return json_schema_type(typ)
                    if ev["how"] == "decorator":
                        return json_schema_type(**args)(typ)
                    return register_schema(typ, name=None if ev["id"] == ev["n"] else ev["id"], **args)

                out["o"] = raised(register, lambda x: j2a(x is typ))
            elif ev["op"] == "sch":

                def schema():
                    s = generate(world.type(ev["T"]), ev["O"], ev["force"])[0]
                    kept.append(s)
                    return s

                out["o"] = raised(schema)
            elif ev["op"] == "ident":
                out["o"] = raised(lambda: get_schema_identifier(world.types[ev["n"]]))
            else:
                for x in kept:
                    spoil(x)
            events.append(out)
    finally:
        world.unload()
    return {"E": w["E"], "ev": events}


def registration(r, n, names, plain=False):
    e = {"op": "reg", "n": n, "id": n, "s": [], "x": [], "how": "register"}
    if r.random() < 0.3:
        e["how"] = r.choice(["bare", "decorator"])
    elif r.random() < 0.45:
        e["id"] = r.choice(["Id-" + n, "Id-" + n, "My_" + n, r.choice(names), "Shared", "JsonType", "StrictJsonType"])
    if e["how"] != "bare":
        if r.random() < 0.2:
            e["s"] = [r.choice([j2a({}), j2a({"type": "string"}), j2a({"type": "object", "title": "mine"}), j2a({"type": "array", "items": {"type": "integer"}}),
                                j2a({"type": "object", "properties": {"a": {"type": "object", "properties": {}}}, "required": ["a"]})])]
        if r.random() < 0.35:
            e["x"] = [j2a(r.choice([[1, "a"], [{"a": [1, {"b": None}]}], [None], [[1], [2]]]))]
    return e


def history_worlds(seed, worlds, per):
    out = []
    for i in range(worlds):
        r = random.Random(f"{seed}:h{i}")
        g, w = new_world(r, i, "h", wide=r.random() < 0.4, preg=0, pcustom=0.3)
        w["history"] = True
        names = list(g.env["cls"]) + list(g.env["enm"])
        if not names:
            continue
        top = g.top(2)
        for _ in range(per):
            x = r.random()
            if x < 0.3:
                w["ev"].append(registration(r, r.choice(names), names))
            elif x < 0.4:
                w["ev"].append({"op": "ident", "n": r.choice(names)})
            elif x < 0.52:
                w["ev"].append({"op": "spoil"})
            else:
                # the same type again and again, in between others
                if r.random() < 0.5:
                    top = g.top(r.choice([1, 2]))
                O = some_options(r) if r.random() < 0.3 else PLAIN
                w["ev"].append({"op": "sch", "T": top, "O": O, "force": r.random() < 0.1})
        out.append(w)
    return out
