"""C13 and C14: schemas turned into classes, and flattened."""

import json

import imports
from framework import check, stage
from runner import csv_json

stage("flattened", imports.run_flatten, "JudgeFlatten", "VFlatten")
stage("imported", imports.run_import, "JudgeImport", "VImport")


def told(path):
    with open(path) as f:
        return [csv_json(x) for x in f if x.strip()]


@check("C14")
def c14(ctx):
    cases = [dict(x, op="fl", default=i % 2 == 0) for i, x in enumerate(told(ctx.model("MC_Flatten", cases=True)))]
    ctx.judged("flattened", [{"ev": cases[i:i + 200]} for i in range(0, len(cases), 200)])
    for seed in ctx.rounds(1):
        ctx.judged("flattened", imports.flatten_worlds(f"C14.{seed}", 60, 150))


@check("C13")
def c13(ctx):
    path = ctx.model("MC_Import", cases=True)
    with open(path + ".3") as f:
        env = json.load(f)[0]
    ctx.judged("imported", imports.model_worlds(told(path), env))
    for seed in ctx.rounds(1):
        ctx.judged("imported", imports.class_worlds(f"C13.{seed}", 600))
        ctx.judged("imported", imports.document_worlds(f"C13.{seed}", 60, 100))
