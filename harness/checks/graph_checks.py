"""C15 and C16: graphs and type dependencies."""

import random

import graphs
from framework import check, probe, stage
from runner import csv_json

stage("topo", graphs.run_topo, "JudgeDeps", "VSorted")
stage("deps", graphs.run_deps, "JudgeDeps", "VDeps")


probe("C15", "long-chain")(graphs.deep_chain)


def all_graphs(ctx):
    with open(ctx.model("MC_Topo", cases=True)) as f:
        return [csv_json(x) for x in f if x.strip()]


@check("C15")
def c15(ctx):
    gs = all_graphs(ctx)
    first = True
    for seed in ctx.rounds(1):
        ctx.judged("topo", graphs.topo_worlds(f"C15.{seed}", gs if first else [], 12000, 40))
        first = False


@check("C16")
def c16(ctx):
    gs = [g for g in all_graphs(ctx) if len(g) <= 3]
    if not ctx.quick:
        gs += random.Random(ctx.seed).sample([g for g in all_graphs(ctx) if len(g) == 4], 3000)
    ctx.judged("deps", graphs.class_worlds(gs))
    for seed in ctx.rounds(1):
        ctx.judged("deps", graphs.deps_worlds(f"C16.{seed}", 500, 24))
