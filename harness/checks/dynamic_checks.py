"""C23: types and modules made at run time."""

import dynamic
from framework import check, stage
from runner import csv_json

stage("dynamic", dynamic.run_dynamic, "JudgeDynamic", "VDynamic")


@check("C23")
def c23(ctx):
    with open(ctx.model("MC_Dynamic", cases=True)) as f:
        rows = [csv_json(x) for x in f if x.strip()]
    ctx.judged("dynamic", dynamic.model_worlds(rows))
    for seed in ctx.rounds(1):
        ctx.judged("dynamic", dynamic.dynamic_worlds(f"C23.{seed}", 120, 100))
