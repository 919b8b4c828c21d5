"""C17 and C18: docstrings."""

import random

import docs
from framework import check, probe, stage
from runner import csv_json

stage("docstring", docs.run_docstrings, "JudgeDocstring", "VDocstring")
stage("signature", docs.run_signatures, "JudgeSignature", "VSignature")

probe("C17", "hidden-colon")(docs.hidden_colon)


def told(path):
    with open(path) as f:
        return [csv_json(x) for x in f if x.strip()]


@check("C17")
def c17(ctx):
    rows = told(ctx.model("MC_Docstring", cases=True))
    if len(rows) > 60000:
        rows = random.Random(ctx.seed).sample(rows, 60000)
    cases = [{"op": "dp", "L": x or [""]} for x in rows]
    ctx.judged("docstring", [{"ev": cases[i:i + 300]} for i in range(0, len(cases), 300)])
    for seed in ctx.rounds(1):
        ctx.judged("docstring", docs.doc_worlds(f"C17.{seed}", 60, 250))


@check("C18")
def c18(ctx):
    ctx.judged("signature", docs.model_worlds(told(ctx.model("MC_Signature", cases=True))))
    for seed in ctx.rounds(1):
        ctx.judged("signature", docs.sig_worlds(f"C18.{seed}", 250, 60))
