#!/usr/bin/env python3
"""Checks planted bugs: try_seed.py [--no-tests] ID...   (in scratch copies of /repo; nothing in /repo is touched)"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

V = Path(__file__).resolve().parent.parent
PY = "/opt/venv/bin/python"
ENV = {**os.environ, "PATH": "/opt/venv/bin:/usr/local/bin:/usr/bin:/bin", "LANG": "C.UTF-8", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0"}


def copy(patch=None):
    d = Path(tempfile.mkdtemp(prefix="seed_"))
    subprocess.run(f"git -C /repo archive HEAD | tar -x -C {d}", shell=True, check=True)
    subprocess.run(["git", "init", "-q"], cwd=d, check=True)
    if patch:
        r = subprocess.run(["git", "apply", str(patch)], cwd=d, capture_output=True, text=True)
        if r.returncode:
            shutil.rmtree(d)
            raise RuntimeError(r.stderr)
    return d


def tests(d):
    w = Path(tempfile.mkdtemp(prefix="seedt_"))
    subprocess.run([PY, "-m", "pytest", "tests", "--ignore=tests/test_performance", "-n", "0", "-q", "--tb=line", "-p", "no:cacheprovider", "--timeout=300", f"--basetemp={w}/tmp",
                    "-o", "junit_family=xunit2", f"--junitxml={w}/junit.xml"], cwd=d, env=ENV, capture_output=True)
    subprocess.run([PY, "/opt/vp/results.py", f"{w}/out.json", f"junit:{w}/junit.xml"], capture_output=True)
    b = json.load(open("/opt/vp/BASELINE.json"))
    o = json.load(open(f"{w}/out.json"))

    def ids(x):
        for k in ("passed", "stable", "tests", "pass"):
            if k in x:
                return set(x[k] if isinstance(x[k], list) else [t for t, v in x[k].items() if v in ("passed", True, "pass")])
        return set()

    miss = sorted(t for t in ids(b) - ids(o) if "TestCheckNMaxElementsFeature" not in t)
    shutil.rmtree(w)
    return miss


def demo(sd, d):
    with tempfile.TemporaryDirectory() as t:
        x = Path(t) / "somewhere"
        shutil.copytree(sd, x, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
        return subprocess.run(["bash", str(x / "demo.sh")], cwd=d, env={**ENV}, capture_output=True, text=True, timeout=300)


def one(sid, run_tests, checks):
    sd = V / "seeded" / sid
    meta = json.loads((sd / "meta.json").read_text())
    out = [sid, meta["property"]]
    base = copy()
    try:
        r = demo(sd, base)
        out.append(f"demo-clean={r.returncode}" + ("" if r.returncode == 0 else r.stdout[-300:] + r.stderr[-500:]))
        left = subprocess.run(["git", "-C", "/repo", "status", "--short"], capture_output=True, text=True).stdout
        if left:
            out.append("REPO DIRTY " + left)
    finally:
        shutil.rmtree(base)
    d = copy(sd / "patch.diff")
    try:
        r = demo(sd, d)
        out.append(f"demo-bug={r.returncode}")
        if run_tests:
            m = tests(d)
            out.append(f"tests-missing={len(m)} {m[:3]}")
        for p in checks or [meta["property"]]:
            r = subprocess.run([sys.executable, "run_check.py", p], cwd=V, env={**os.environ, "VERIF_REPO": str(d), "VERIF_SEED": "1", "VERIF_TIER": "quick"}, capture_output=True, text=True)
            first = next((line for line in r.stdout.splitlines() if line.startswith("#")), r.stderr[-200:])
            out.append(f"{p}: exit {r.returncode} {'CAUGHT' if r.returncode == 1 and 'VIOLATION property=' + p in r.stdout else 'missed'} {first[:160]}")
    finally:
        shutil.rmtree(d)
    return out


if __name__ == "__main__":
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    checks = [a[8:] for a in sys.argv[1:] if a.startswith("--check=")]
    ids = args or sorted(p.name for p in (V / "seeded").iterdir())
    with ThreadPoolExecutor(2 if len(ids) > 1 else 1) as ex:
        for res in ex.map(lambda s: one(s, "--no-tests" not in sys.argv, checks), ids):
            print(" | ".join(res), flush=True)
