"""C22: conversions leave their inputs alone and share nothing."""

import random

import isolation
from framework import check, stage
from runner import csv_json

stage("heap", isolation.run, "JudgeHeap", "VHeap")


@check("C22")
def c22(ctx):
    with open(ctx.model("MC_Heap", cases=True)) as f:
        rows = sorted({x for x in f if x.strip()})
    rows = [csv_json(x) for x in rows]
    ctx.notes["histories"] = len(rows)
    for seed in ctx.rounds(1):
        ctx.judged("heap", isolation.worlds(f"C22.{seed}", rows, 240, 50))
