"""C07 to C10: JSON schemas."""

import itertools
import json
import random

import schema
from framework import check, stage

stage("generated", schema.run, "JudgeSchema", "VGenerated")
stage("validates", schema.run, "JudgeSchema", "VSchemaValues")
stage("agrees", schema.run, "JudgeSchema", "VSchemaDocs")
stage("catalog", schema.run_history, "JudgeCatalog", ("CatalogInit", "CatalogStep"))

PATHS = ["#/definitions/", "#/components/schemas/"]


def lines(path):
    with open(path) as f:
        return [json.loads(x) for x in f if x.strip()]


def grid(base):
    "Types with values, documents and the environment of MC_Schema."
    env = lines(base + ".3")[0][0]
    env["als"] = {}
    return lines(base), lines(base + ".2"), env


def renamed(x, suffix, names):
    if isinstance(x, dict):
        return {(k + suffix if k in names else k): (v + suffix if k in ("n", "id") and v in names else renamed(v, suffix, names)) for k, v in x.items()}
    if isinstance(x, list):
        return [renamed(y, suffix, names) for y in x]
    return x


def split(env, events, name, per):
    return [{"name": f"{name}{i}", "E": env, "style": [{}, {"postponed": True, "notation": "pep604", "decorate": True}][(i // per) % 2], "ev": events[i:i + per]}
            for i in range(0, len(events), per)]


@check("C07")
def c07(ctx):
    types, docs, env = grid(ctx.model("MC_Schema", cases=True))
    S = [[d, "#/definitions/"] for d in schema.DRAFTS]
    ctx.judged("validates", split(env, [{"op": "sv", "T": x["T"], "V": x["V"], "S": S} for x in types], "mv", 40))
    for seed in ctx.rounds(1):
        ctx.judged("validates", schema.value_worlds(f"C07.{seed}", 420, 14))


@check("C08")
def c08(ctx):
    types, docs, env = grid(ctx.model("MC_Schema", cases=True))
    events = []
    for n, x in enumerate(types):
        some = docs if not ctx.quick else docs[n % 12::12]
        events += [{"op": "sd", "T": x["T"], "D": some[i:i + 60]} for i in range(0, len(some), 60)]
    ctx.judged("agrees", split(env, events, "md", 20))
    for seed in ctx.rounds(1):
        ctx.judged("agrees", schema.document_worlds(f"C08.{seed}", 260, 12))


@check("C09")
def c09(ctx):
    types, docs, env = grid(ctx.model("MC_Schema", cases=True))
    events = []
    for x in types:
        for O in ({}, {"path": "#/x/y/"}, {"desc": False}, {"ex": False}, {"fun": True}):
            events.append({"op": "sg", "T": x["T"], "O": dict(schema.PLAIN, **O), "force": False})
        events.append({"op": "sg", "T": x["T"], "O": schema.PLAIN, "force": True})
    ctx.judged("generated", split(env, events, "mg", 100))
    for seed in ctx.rounds(1):
        ctx.judged("generated", schema.schema_worlds(f"C09.{seed}", 900, 25))


@check("C10")
def c10(ctx):
    base = ctx.model("MC_Catalog", cases=True)
    env, regs, queries = lines(base)[0][0], lines(base + ".2"), lines(base + ".3")
    env.update(als={}, reg={})
    ask = [{"op": "sch", "T": T, "O": schema.PLAIN, "force": False} for T in queries]
    runs = list(itertools.product(regs, repeat=2))
    if not ctx.quick:
        runs += random.Random(ctx.seed).sample(list(itertools.product(regs, repeat=3)), 800)
    worlds = []
    for n, run in enumerate(runs):
        events = list(ask)
        for m, x in enumerate(run):
            how = "register" if x["id"] != x["n"] else ["register", "decorator"][(n + m) % 2]
            events += [dict(x, op="reg", how=how)] + ([{"op": "spoil"}] if (n + m) % 3 == 0 else []) + ask[n % 2::2] + [{"op": "ident", "n": x["n"]}]
        worlds.append({"name": f"mc{n}", "E": env, "style": {"postponed": n % 2 == 1}, "history": True, "ev": events})
    ctx.judged("catalog", worlds, per=1)
    for seed in ctx.rounds(1):
        ctx.judged("catalog", schema.history_worlds(f"C10.{seed}", 400, 16), per=1)
