"""C12: first uses of types in several threads."""

import random

import threads
from framework import check, stage
from runner import csv_json

stage("schedules", threads.run, "JudgeThreads", "VParallel")

INT = {"k": "int"}
NO = {"k": "no", "v": []}
SHAPES = {
    "pair": [[2], [1]], "own": [[1, 2], []], "fork": [[2, 3], [3], [1]], "lost": [[2, 3], [1], []],
}


def field(n, t, d=NO):
    return {"n": n, "t": t, "d": d}


def system(shape, form):
    "Data classes that refer to each other as in the model."
    cls = {}
    for i, refs in enumerate(SHAPES[shape], 1):
        fs = [field("v", INT)]
        for j in refs:
            T = {"k": "ref", "n": f"N{j}"}
            T = {"opt": {"k": "union", "a": [T, {"k": "none"}]}, "list": {"k": "list", "a": [T]}, "dict": {"k": "dict", "a": [{"k": "str"}, T]}}[form]
            fs.append(field(f"n{j}", T))
        if shape == "lost" and i == 3:
            fs.append(field("gone", {"k": "ref", "n": "Nowhere"}))
        cls[f"N{i}"] = {"kind": "dc", "f": fs, "opts": {}}
    return {"cls": cls, "enm": {}, "als": {}, "doc": {}, "base": {n: "" for n in cls}, "reg": {}}


def value(shape, form, i, depth):
    ms = [{"n": "v", "x": {"k": "int", "v": str(i)}}]
    for j in SHAPES[shape][i - 1]:
        if depth <= 0:
            x = {"opt": {"k": "none", "v": "None"}, "list": {"k": "list", "a": []}, "dict": {"k": "dict", "p": []}}[form]
        else:
            y = value(shape, form, j, depth - 1)
            x = {"opt": y, "list": {"k": "list", "a": [y]}, "dict": {"k": "dict", "p": [{"key": {"k": "str", "v": "k"}, "val": y}]}}[form]
        ms.append({"n": f"n{j}", "x": x})
    return {"k": "obj", "n": f"N{i}", "m": ms}


def document(shape, form, i, depth):
    ms = [{"n": "v", "j": {"k": "int", "v": str(i)}}]
    for j in SHAPES[shape][i - 1]:
        y = document(shape, form, j, depth - 1) if depth > 0 else None
        if form == "opt":
            if y:
                ms.append({"n": f"n{j}", "j": y})
        elif form == "list":
            ms.append({"n": f"n{j}", "j": {"k": "arr", "a": [y] if y else []}})
        else:
            ms.append({"n": f"n{j}", "j": {"k": "map", "m": [{"n": "k", "j": y}] if y else []}})
    if shape == "lost" and i == 3:
        ms.append({"n": "gone", "j": {"k": "null", "v": "null"}})
    return {"k": "map", "m": ms}


def call(op, shape, form, i, via):
    T = {"k": "cls", "n": f"N{i}"}
    if op == "de":
        return {"op": "de", "T": T, "J": document(shape, form, i, 3), "skip": False, "via": ["gen", "parse"][via % 2]}
    if op == "wr":
        return {"op": "wr", "T": T, "V": value(shape, form, i, 3), "via": ["typ", "obj"][via % 2]}
    return {"op": "sg", "T": T, "O": threads.schema.PLAIN}


def worlds(shape, goal, how, ops, name, grain="line"):
    out = []
    for n, op in enumerate(ops):
        if shape == "lost" and "wr" in op:
            continue
        form = ["list", "opt", "dict"][n % 3]
        calls = [call(op[i % len(op)], shape, form, t, n) for i, t in enumerate(goal)]
        style = {"postponed": n % 2 == 0}
        out.append({"name": f"{name}_{n}", "E": system(shape, form), "style": style, "ev": [{"op": "par", "calls": calls, "grain": grain, "how": how}]})
    return out


OPS = [["de"], ["de"], ["wr"], ["de", "wr"], ["de"]]
SLOW = [["sg"], ["sg", "de"]]


@check("C12")
def c12(ctx):
    ctx.model("MC_Threads", cfg="MC_ThreadsLive")
    with open(ctx.model("MC_Threads", cases=True)) as f:
        told = [csv_json(x) for x in f if x.strip()]
    r = random.Random(f"C12:{ctx.seed}")
    r.shuffle(told)
    per = {}
    for x in told:
        per.setdefault((x["g"], tuple(x["goal"])), []).append(x["turns"])
    ws = []
    for n, ((g, goal), turns) in enumerate(sorted(per.items())):
        ws += worlds(g, goal, {"k": "turns", "turns": turns[:30 if ctx.quick else 300]}, OPS, f"vt{n}")
        ws += worlds(g, goal, {"k": "turns", "turns": turns[:6 if ctx.quick else 60]}, SLOW, f"vu{n}")
        # one change of turn at many steps
        ws += worlds(g, goal, {"k": "cut", "cuts": 60 if ctx.quick else 300, "offset": r.random()}, OPS, f"vk{n}")
        ws += worlds(g, goal, {"k": "cut", "cuts": 10 if ctx.quick else 100, "offset": r.random()}, SLOW, f"vl{n}")
    if not ctx.quick:
        for n, (g, goal) in enumerate(sorted(per)):
            ws += worlds(g, goal, {"k": "cut", "cuts": 400, "offset": r.random()}, OPS, f"vo{n}", "opcode")
    r.shuffle(ws)
    ctx.judged("schedules", ws, per=2)
    for seed in ctx.rounds(1):
        ctx.judged("schedules", threads.random_worlds(f"C12.{seed}", 200, 10), per=6)
