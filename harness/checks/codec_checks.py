"""C01 to C06: conversion between objects and JSON."""

import json

import codec
from framework import check, probe, stage

stage("roundtrip", codec.run, "JudgeCodec", "VRoundTrip")
stage("written", codec.run, "JudgeCodec", "VWritten")
stage("read", codec.run, "JudgeCodec", "VRead")
stage("text", codec.run, "JudgeCodec", "VText")


def lines(path):
    with open(path) as f:
        return [json.loads(x) for x in f if x.strip()]


STYLES = [{}, {"postponed": True, "notation": "pep604"}, {"notation": "union", "builtin": False}]


def model_worlds(base, op, per=400):
    "The cases of MC_Model as worlds."
    types = lines(base)
    env = lines(base + ".3")[0][0]
    env["als"] = {}
    events = []
    n = 0
    if op == "rt":
        for x in types:
            for v in x["V"]:
                events.append({"op": "rt", "T": x["T"], "V": v, "via": ("obj", "typ")[n % 2], "rvia": ("obj", "gen", "parse")[n % 3]})
                n += 1
    else:
        docs = lines(base + ".2")
        for x in types:
            for j in docs:
                events.append({"op": "de", "T": x["T"], "J": j, "skip": n % 3 == 0, "rvia": ("obj", "gen", "parse")[n % 3]})
                n += 1
    out = []
    for i in range(0, len(events), per):
        out.append({"name": f"mm{i}", "E": env, "style": STYLES[(i // per) % len(STYLES)], "ev": events[i:i + per]})
    return out


def text_worlds(base, per=500):
    events = lines(base) + lines(base + ".2")
    for n, e in enumerate(events):
        if e["op"] == "rt":
            e.update(via=("obj", "typ")[n % 2], rvia=("obj", "gen", "parse")[n % 3])
        else:
            e.update(skip=False, rvia=("obj", "gen", "parse")[n % 3])
    env = {"cls": {}, "enm": {}, "als": {}}
    return [{"name": f"mt{i}", "E": env, "style": {}, "ev": events[i:i + per]} for i in range(0, len(events), per)]


@check("C01")
def c01(ctx):
    base = ctx.model("MC_Model", cases=True)
    ctx.judged("roundtrip", model_worlds(base, "rt"))
    for seed in ctx.rounds(1):
        ctx.judged("roundtrip", codec.roundtrip_worlds(f"C01.{seed}", 1500, 40))


@check("C02")
def c02(ctx):
    base = ctx.model("MC_Model", cases=True)
    ctx.judged("written", model_worlds(base, "rt"))
    for seed in ctx.rounds(1):
        ctx.judged("written", codec.roundtrip_worlds(f"C02.{seed}", 1500, 40))
        ctx.judged("written", codec.roundtrip_worlds(f"C02p.{seed}", 300, 40, plain=True, open=False))


@check("C03")
def c03(ctx):
    base = ctx.model("MC_Model", cases=True)
    ctx.judged("read", model_worlds(base, "de"))
    for seed in ctx.rounds(1):
        ctx.judged("read", codec.document_worlds(f"C03.{seed}", 1500, 40))


@check("C04")
def c04(ctx):
    base = ctx.model("MC_Model", cases=True)
    ctx.judged("read", [w for w in model_worlds(base, "de")])
    for seed in ctx.rounds(1):
        ctx.judged("read", codec.member_worlds(f"C04.{seed}", 1200, 50))


@check("C05")
def c05(ctx):
    base = ctx.model("MC_Model", cases=True)
    ctx.judged("read", [w for w in model_worlds(base, "de")])
    for seed in ctx.rounds(1):
        ctx.judged("read", codec.union_worlds(f"C05.{seed}", 1200, 60))


@check("C06")
def c06(ctx):
    base = ctx.model("MC_Text", cases=True)
    ctx.judged("text", text_worlds(base))
    for seed in ctx.rounds(1):
        ctx.judged("text", codec.text_worlds(f"C06.{seed}", 60, 1000))


@probe("C01", "decimal")
def decimal_round_trip():
    import decimal

    from runner import guarded
    from strong_typing.serialization import json_to_object, object_to_json

    x = decimal.Decimal("1.5")
    ok, r = guarded(lambda: json_to_object(decimal.Decimal, object_to_json(x)))
    return None if ok and type(r) is decimal.Decimal and r == x else f"bad:Decimal does not survive the round trip: {type(r).__name__}"


@probe("C02", "decimal")
def decimal_written():
    import decimal

    from runner import guarded
    from strong_typing.serialization import object_to_json

    ok, r = guarded(lambda: object_to_json(decimal.Decimal("1.5")))
    return None if ok and type(r) in (int, float) and r == 1.5 else f"bad:Decimal is not written as a number: {type(r).__name__}"


@probe("C03", "decimal")
def decimal_read():
    import decimal

    from runner import guarded
    from strong_typing.serialization import json_to_object

    ok, r = guarded(lambda: json_to_object(decimal.Decimal, 1.5))
    return None if ok and type(r) is decimal.Decimal and r == 1.5 else f"bad:Decimal is not read from a number: {type(r).__name__}"
