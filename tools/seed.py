#!/opt/venv/bin/python
"""Tries planted bugs in scratch copies of /repo: seed.py ID... [--checks C01,C02] [--noverify]

For each: patch applies, package imports, stable tests pass, demo passes without and fails with it, which checks report it.
"""
import argparse, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
BASE = json.load(open("/opt/vp/BASELINE.json"))


def env(copy):
    e = dict(os.environ, PYTHONPATH=copy, PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX="/opt/vp/no-pycache", PYTHONHASHSEED="0", TZ="UTC")
    return e


def tests(copy):
    xml = copy + ".xml"
    r = subprocess.run([PY, "-m", "pytest", "tests", "-q", "-p", "no:cacheprovider", "--timeout=300", "-x",
                        "--deselect", "tests/test_deserialization.py::test_function", "--deselect", "tests/test_deserialization.py::test_async_function",
                        "--deselect", "tests/test_serialization.py::test_function", "--deselect", "tests/test_serialization.py::test_async_function"],
                       cwd=copy, env=env(copy), capture_output=True, text=True)
    return r.returncode == 0, r.stdout[-400:]


def demo(path, copy):
    r = subprocess.run(["bash", os.path.join(path, "demo.sh")], cwd=copy, env=env(copy), capture_output=True, text=True, timeout=300)
    return r.returncode, (r.stdout + r.stderr)[-300:]


def make(patch=None):
    d = tempfile.mkdtemp(prefix="seedcopy", dir="/tmp")
    copy = os.path.join(d, "repo")
    shutil.copytree("/repo", copy, ignore=shutil.ignore_patterns("__pycache__"))
    if patch:
        r = subprocess.run(["git", "apply", patch], cwd=copy, capture_output=True, text=True)
        if r.returncode:
            shutil.rmtree(d)
            raise SystemExit(f"{patch}: does not apply: {r.stderr}")
    return d, copy


def check(prop, copy, d, tier):
    e = env(copy)
    e.pop("PYTHONPATH")
    e.update(VERIF_REPO=copy, VERIF_EVIDENCE=os.path.join(d, "ev"), VERIF_SEED="1", VERIF_TIER=tier)
    r = subprocess.run([PY, os.path.join(HERE, "harness", "check.py"), prop, "--tier", tier], cwd=HERE, env=e, capture_output=True, text=True, timeout=900)
    return r.returncode, r.stdout[-1500:] + r.stderr[-800:]


def main():
    p = argparse.ArgumentParser()
    p.add_argument("ids", nargs="*")
    p.add_argument("--checks")
    p.add_argument("--noverify", action="store_true")
    p.add_argument("--tier", default="quick")
    p.add_argument("-v", action="store_true")
    a = p.parse_args()
    ids = a.ids or sorted(os.listdir(os.path.join(HERE, "seeded")))
    for i in ids:
        path = os.path.join(HERE, "seeded", i)
        meta = json.load(open(os.path.join(path, "meta.json")))
        d, copy = make(os.path.join(path, "patch.diff"))
        out = []
        try:
            if not a.noverify:
                ok, text = tests(copy)
                out.append("tests pass" if ok else "TESTS FAIL " + text)
                rc, text = demo(path, copy)
                out.append("demo fails" if rc else "DEMO PASSES")
                d2, clean = make()
                rc, text = demo(path, clean)
                out.append("clean demo passes" if rc == 0 else "CLEAN DEMO FAILS " + text)
                shutil.rmtree(d2)
            props = a.checks.split(",") if a.checks else [meta["property"]]
            if a.checks != "none":
                for prop in props:
                    rc, text = check(prop, copy, d, a.tier)
                    out.append(f"{prop}:" + ("CAUGHT" if rc == 1 and f"VIOLATION property={prop}" in text else f"missed" if rc == 0 else f"ERROR {rc} {text}"))
                    if a.v:
                        print(text)
        finally:
            shutil.rmtree(d)
        print(i, "|", "; ".join(out), flush=True)


main()
