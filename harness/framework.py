"""What the checks share: running stages, collecting verdicts, reporting, evidence."""

import collections
import json
import os
import sys
import time
import traceback

import runner

VERIF = runner.VERIF
EVIDENCE = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
KNOWN = os.path.join(VERIF, "known_findings.json")

# name -> (function that runs a world against the real code, judge module, verdict operator)
STAGES = {}
# property -> function(ctx)
CHECKS = {}
# property -> list of (finding id, function() -> description of what fails, or None)
PROBES = collections.defaultdict(list)


def stage(name, run, module, op):
    STAGES[name] = (run, module, op)


def check(prop):
    def register(fun):
        CHECKS[prop] = fun
        return fun

    return register


def probe(prop, finding):
    def register(fun):
        PROBES[prop].append((finding, fun))
        return fun

    return register


class Machinery(Exception):
    "The check could not do its work."


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.tmp = runner.scratch()
        self.start = time.time()
        self.states = self.transitions = self.traces = self.events = 0
        self.samples = []
        self.verdicts = collections.Counter()
        self.violations = []  # replay payloads
        self.notes = {}
        self.quick = tier == "quick"

    def elapsed(self):
        return time.time() - self.start

    def rounds(self, quick=1, seconds=600):
        "Seeds of the rounds to run: a fixed number when quick, until the time is used when thorough."
        n = 0
        last = 0.0
        while (n < quick) if self.quick else (n < quick or self.elapsed() + last < seconds):
            t = time.time()
            yield f"{self.seed}.{n}"
            last = time.time() - t
            n += 1
            if len(self.violations) >= 5:
                return

    def model(self, module, cfg=None, env=None, timeout=700, workers=runner.CORES, heap="8g", cases=False):
        "Checks a bounded model with TLC; returns the paths of the dumped cases, if asked for."
        e = dict(env or {})
        base = os.path.join(self.tmp, f"cases_{module}_{len(self.notes)}.ndjson")
        if cases:
            e["CASES"] = base
        if not self.quick:
            e["DEEP"] = "1"
        t = time.time()
        path = os.path.join(runner.SPEC, cfg + ".cfg") if cfg else None
        st = runner.model_check(module, self.tmp, timeout=timeout, env=e, cfg=path, workers=workers, heap=heap)
        self.states += st["states"]
        self.transitions += st["transitions"]
        self.notes[f"model {cfg or module} (#{len(self.notes)})"] = dict(st, wall_s=round(time.time() - t, 1))
        return base

    def judged(self, name, worlds, keep_samples=2, timeout=800, world_timeout=300, per=None):
        "Runs worlds through the real code, judges the traces, and records violations."
        if not worlds:
            return []
        run, module, op = STAGES[name]
        results = runner.run_worlds(run, worlds, self.tmp, timeout=world_timeout, per=per)
        good, idx = [], []
        for i, (w, r) in enumerate(zip(worlds, results)):
            if r is None:
                raise Machinery("a world was not run")
            if "crash" in r:
                self.crashed(name, w)
            elif "harness_error" in r:
                self.failed(name, w, r["harness_error"])
            else:
                good.append(r)
                idx.append(i)
        try:
            verdicts, st = runner.judge(module, op, good, self.tmp, timeout=timeout)
        except runner.TlcError as ex:
            raise Machinery(str(ex))
        self.states += st["states"]
        self.transitions += st["states"]
        self.traces += len(good)
        for i, r, vs in zip(idx, good, verdicts):
            if len(vs) != len(r["ev"]):
                raise Machinery("a trace was not judged completely")
            self.events += len(vs)
            for n, (e, v) in enumerate(zip(r["ev"], vs)):
                self.verdicts[v.split(":")[0] if v.startswith("bad") else v] += 1
                if v.startswith("bad"):
                    self.violation(name, worlds[i], n, v, e)
            if keep_samples and len(self.samples) < 6:
                keep_samples -= 1
                self.samples.append({"stage": name, "event": trim(r["ev"][0]), "verdict": vs[0]})
        return verdicts

    def violation(self, name, world, n, verdict, event):
        if len(self.violations) >= 5:
            return
        single = dict(world)
        if not world.get("history"):
            single["ev"] = [world["ev"][n]]
            n = 0
        self.violations.append({"property": self.prop, "stage": name, "world": single, "at": n, "verdict": verdict, "observed": event})

    def crashed(self, name, world):
        # confirm: the world alone, event by event
        events = [[e] for e in world["ev"]] if not world.get("history") else [world["ev"]]
        for ev in events:
            w = dict(world, ev=ev)
            for _ in range(1):
                r = runner.run_worlds(STAGES[name][0], [w], self.tmp, timeout=60)[0]
            if "crash" in r:
                self.violation(name, w, 0, "bad:the process did not survive or did not finish", {})
                return
            if "harness_error" in r:
                return self.failed(name, w, r["harness_error"])

    def failed(self, name, world, text):
        lines = [x for x in text.splitlines() if x.strip().startswith("File ")]
        if lines and "/strong_typing/" in lines[-1]:
            self.violation(name, world, 0, "bad:the library failed outside of the observed calls: " + text.splitlines()[-1][:300], {"traceback": text[-1500:]})
            self.violations[-1]["world"] = world
        else:
            raise Machinery("world failed in the harness:\n" + text)

    def replay_payloads(self):
        d = os.path.join(EVIDENCE, "replay")
        os.makedirs(d, exist_ok=True)
        paths = []
        for i, v in enumerate(self.violations):
            path = os.path.join(d, f"{self.prop}-{self.tier}-{i}.json")
            with open(path, "w") as f:
                json.dump(v, f, indent=1)
            paths.append(path)
        return paths

    def evidence(self):
        d = EVIDENCE
        os.makedirs(d, exist_ok=True)
        cov = {
            "states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
            "events_judged": self.events, "verdicts": dict(self.verdicts.most_common(40)), "models": self.notes,
            "samples": self.samples or ["none"],
        }
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": cov,
            "wall_s": round(self.elapsed(), 1), "violations": len(self.violations),
            "assumptions": ["CPython 3.12 and its standard library", "TLC evaluates the specification correctly"],
        }
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)


def trim(x, n=1500):
    s = json.dumps(x)
    return x if len(s) <= n else s[:n] + "..."


def known(prop):
    with open(KNOWN) as f:
        data = json.load(f)
    return {x["id"]: x for x in data["known"] if prop in x["properties"]}


def main(argv=None):
    import argparse

    p = argparse.ArgumentParser()
    p.add_argument("property", nargs="?")
    p.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    p.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    p.add_argument("--replay")
    args = p.parse_args(argv)
    import checks  # noqa: F401  (registers stages and checks)

    if args.replay:
        return replay(args.replay)
    ctx = Ctx(args.property, args.tier, args.seed)
    try:
        try:
            CHECKS[args.property](ctx)
        except (Machinery, runner.TlcError) as ex:
            print("ERROR: the check could not do its work\n" + str(ex)[-6000:], file=sys.stderr)
            if not ctx.violations:
                return 2
        except Exception:
            if not ctx.violations:
                traceback.print_exc()
                return 2
        expected = known(args.property)
        for fid, fun in PROBES[args.property]:
            what = fun()
            if what is None:
                continue
            if fid in expected:
                print(f"KNOWN-FINDING: property={args.property} {expected[fid]['what']}")
            else:
                ctx.violations.append({"property": args.property, "stage": "probe", "verdict": what, "probe": fid})
        ctx.evidence()
        print(json.dumps({"events": ctx.events, "traces": ctx.traces, "states": ctx.states, "verdicts": dict(ctx.verdicts.most_common(12)), "wall_s": round(ctx.elapsed(), 1)}))
        for path, v in zip(ctx.replay_payloads(), ctx.violations):
            print(f"  {v['verdict']}")
            print(f"VIOLATION property={args.property} replay={path}")
        return 1 if ctx.violations else 0
    finally:
        runner.remove(ctx.tmp)


def replay(path):
    with open(path) as f:
        v = json.load(f)
    ctx = Ctx(v["property"], "quick", 1)
    try:
        if v["stage"] == "probe":
            for fid, fun in PROBES[v["property"]]:
                if fid == v["probe"]:
                    print(fun())
            return 0
        ctx.judged(v["stage"], [v["world"]])
        print(json.dumps(v["world"], indent=1)[:6000])
        for x in ctx.violations:
            print(x["verdict"], json.dumps(x["observed"])[:6000])
        return 1 if ctx.violations else 0
    finally:
        runner.remove(ctx.tmp)
