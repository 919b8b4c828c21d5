"""Runs worlds against the real code in worker processes, and judges the recorded traces with TLC."""

import json
import multiprocessing
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = min(8, os.cpu_count() or 1)


class Timeout(BaseException):
    pass


def _alarm(signum, frame):
    raise Timeout()


def guarded(fun, seconds=10.0):
    "Calls a function; returns (True, result) or (False, exception)."

    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        return True, fun()
    except (Exception, Timeout) as ex:
        return False, ex
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def _child(run, worlds, path):
    import resource

    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    signal.signal(signal.SIGALRM, _alarm)
    with open(path, "w") as f:
        for i, w in enumerate(worlds):
            try:
                out = run(w)
            except Exception:
                out = {"harness_error": traceback.format_exc()}
            f.write(json.dumps(out) + "\n")
            f.flush()
    os._exit(0)


def run_worlds(run, worlds, tmp, timeout=600, procs=CORES, per=None):
    """Applies `run` (executed in forked workers) to every world; returns the results in order.

    A world whose worker dies or hangs yields {"crash": reason}.
    """

    ctx = multiprocessing.get_context("fork")
    results = [None] * len(worlds)
    n = per or max(1, min(200, -(-len(worlds) // procs)))
    queue = [list(range(i, min(i + n, len(worlds)))) for i in range(0, len(worlds), n)]
    running = []
    serial = 0

    def collect(job):
        p, idx, path, start = job
        got = []
        try:
            with open(path) as f:
                got = f.read().split("\n")[:-1]
        except OSError:
            pass
        for i, line in zip(idx, got):
            results[i] = json.loads(line)
        rest = idx[len(got):]
        if rest:
            results[rest[0]] = {"crash": "worker died or did not finish"}
            if rest[1:]:
                queue.append(rest[1:])

    while queue or running:
        while queue and len(running) < procs:
            idx = queue.pop(0)
            path = os.path.join(tmp, f"run{serial}.ndjson")
            serial += 1
            p = ctx.Process(target=_child, args=(run, [worlds[i] for i in idx], path))
            p.start()
            running.append((p, idx, path, time.time()))
        for job in list(running):
            p = job[0]
            p.join(0.01)
            if p.is_alive() and time.time() - job[3] > timeout:
                p.kill()
                p.join()
            if not p.is_alive():
                running.remove(job)
                collect(job)
    return results


# ---------------------------------------------------------------------------------------------------------------------


class TlcError(Exception):
    pass


def tlc_cmd(module, cfg, meta, workers=1, heap="3g", extra=()):
    return [
        "java", f"-Xmx{heap}", f"-Djava.io.tmpdir={os.path.dirname(meta)}", "-Xss64m", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Dfile.encoding=UTF-8",
        "-XX:TieredStopAtLevel=4", "-cp", f"{JARS}:{SPEC}", f"-DTLA-Library={SPEC}", "tlc2.TLC", "-config", cfg, "-metadir", meta,
        "-workers", str(workers), "-noGenerateSpecTE", "-deadlock", *extra, os.path.join(SPEC, module + ".tla"),
    ]


def judge(module, op, worlds, tmp, timeout=800, shards=CORES):
    "Runs the judge on recorded worlds; returns one list of verdicts per world."

    if not worlds:
        return [], {"states": 0}
    shards = max(1, min(shards, len(worlds)))
    # interleave worlds so that shards are balanced by size
    sizes = sorted(range(len(worlds)), key=lambda i: -len(json.dumps(worlds[i])))
    groups = [sizes[s::shards] for s in range(shards)]
    tag = f"{module}_{op if isinstance(op, str) else op[1]}"
    cfg = os.path.join(tmp, f"{tag}.cfg")
    with open(cfg, "w") as f:
        f.write("SPECIFICATION Spec\nPOSTCONDITION TraceConsumed\nCHECK_DEADLOCK FALSE\n")
        # one operator judges single events; a pair of operators steps through histories
        names = [("VerdictOp", op)] if isinstance(op, str) else [("InitOp", op[0]), ("StepOp", op[1])]
        f.write("".join(f"CONSTANT {k} <- {v}\n" for k, v in names))
    procs = []
    for s, group in enumerate(groups):
        trace = os.path.join(tmp, f"{tag}_{s}.ndjson")
        out = os.path.join(tmp, f"{tag}_{s}.out")
        with open(trace, "w") as f:
            for i in group:
                f.write(json.dumps(worlds[i]) + "\n")
        open(out, "w").close()
        env = dict(os.environ, TRACE=trace, OUT=out)
        env.pop("JAVA_TOOL_OPTIONS", None)
        log = open(os.path.join(tmp, f"{tag}_{s}.log"), "w")
        p = subprocess.Popen(tlc_cmd(module, cfg, os.path.join(tmp, f"meta{tag}{s}")), env=env, stdout=log, stderr=subprocess.STDOUT, cwd=tmp)
        procs.append((p, group, out, log))
    verdicts = [None] * len(worlds)
    end = time.time() + timeout
    states = 0
    errors = []
    for p, group, out, log in procs:
        try:
            p.wait(max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        log.close()
        with open(out) as f:
            lines = f.read().split("\n")[:-1]
        if p.returncode != 0 or len(lines) != len(group):
            with open(log.name) as f:
                errors.append(f"{module} exit {p.returncode}, {len(lines)} of {len(group)} consumed\n" + f.read()[-900:])
        for i, line in zip(group, lines):
            verdicts[i] = csv_json(line)
        states += len(lines) + 1 if isinstance(op, str) else 1 + sum(len(worlds[i]["ev"]) + 1 for i in group)
    if errors:
        raise TlcError(errors[0])
    return verdicts, {"states": states}


def csv_json(line):
    x = json.loads(line)
    return json.loads(x) if isinstance(x, str) else x


def model_check(module, tmp, timeout=800, workers=CORES, heap="8g", env=None, cfg=None, extra=()):
    "Runs TLC on a bounded model; returns statistics; raises TlcError if a property of the model fails."

    cfg = cfg or os.path.join(SPEC, module + ".cfg")
    e = dict(os.environ)
    e.update(env or {})
    r = subprocess.run(
        tlc_cmd(module, cfg, os.path.join(tmp, "meta" + module + str(time.time())), workers=workers, heap=heap, extra=extra),
        env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=tmp, timeout=timeout,
    )
    out = r.stdout
    if r.returncode != 0:
        raise TlcError(f"{module}: exit {r.returncode}\n{out[-4000:]}")
    stats = {"states": 0, "transitions": 0}
    for line in out.splitlines():
        m = re.match(r"(\d+) states generated, (\d+) distinct states found", line)
        if m:
            stats = {"transitions": int(m[1]), "states": int(m[2])}
    return stats


def scratch():
    base = os.environ.get("TMPDIR", "/tmp")
    return tempfile.mkdtemp(prefix="vcodec", dir=base)


def remove(tmp):
    shutil.rmtree(tmp, ignore_errors=True)
