"""C19 to C21: written types, instances, and forms."""

import random

import forms
from framework import check, stage
from runner import csv_json

stage("names", forms.run_forms, "JudgeForms", "VName")
stage("forms", forms.run_forms, "JudgeForms", "VForm")
stage("instances", forms.run_inst, "JudgeForms", "VInst")
stage("fields", forms.run_fields, "JudgeForms", "VForm")


def all_types(ctx):
    with open(ctx.model("MC_Forms", cases=True)) as f:
        return [csv_json(x) for x in f if x.strip()]


@check("C19")
def c19(ctx):
    ts = all_types(ctx)
    for seed in ctx.rounds(1):
        ctx.judged("names", forms.name_worlds(f"C19.{seed}", 12000, ts))
        ts = []


@check("C21")
def c21(ctx):
    ts = all_types(ctx)
    for seed in ctx.rounds(1):
        ctx.judged("forms", forms.form_worlds(f"C21.{seed}", 6000, ts))
        ts = []
        ctx.judged("fields", forms.field_worlds(f"C21.{seed}", 300))


@check("C20")
def c20(ctx):
    ctx.model("MC_Inst")
    base = ctx.model("MC_Grid", cases=True)
    ctx.judged("instances", forms.grid_worlds(base, 2 if ctx.quick else 6))
    for seed in ctx.rounds(1):
        ctx.judged("instances", forms.inst_worlds(f"C20.{seed}", 500, 30))
