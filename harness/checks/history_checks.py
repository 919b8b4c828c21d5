"""C11: deserialization does not depend on what was deserialized before."""

import json
import random

import history
from framework import check, stage
from runner import csv_json

stage("histories", history.run_history, "JudgeHistory", ("HistoryInit", "HistoryStep"))


@check("C11")
def c11(ctx):
    base = ctx.model("MC_History", cases=True)
    with open(base) as f:
        told = [csv_json(x) for x in f if x.strip()]
    with open(base + ".2") as f:
        D = json.load(f)[0]
    if ctx.quick:
        told = random.Random(f"C11:{ctx.seed}").sample(told, min(len(told), 8000))
    ctx.judged("histories", history.model_worlds(told, D))
    for seed in ctx.rounds(1):
        ctx.judged("histories", history.story_worlds(f"C11.{seed}", 2000, 24))
