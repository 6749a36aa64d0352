"""Runs the type checkers pyright and mypy over files the tool wrote, and collects what they say."""
from __future__ import annotations

import json
import os
import re
import subprocess
from pathlib import Path

from vlib.runner import Inconclusive

PYRIGHT, MYPY = "/usr/local/bin/pyright", "/usr/local/bin/mypy"


def _env(home):
    return {"PATH": "/opt/veriftools/pyvenv/bin:/usr/local/bin:/usr/bin:/bin", "HOME": os.environ.get("HOME", str(home)), "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8",
            "PYRIGHT_PYTHON_IGNORE_WARNINGS": "1", "NO_COLOR": "1"}


def pyright(directory, **config):
    """[{file, line (0-based), severity, rule, message}] for the files under the directory."""
    directory = Path(directory)
    conf = {"include": ["."], "pythonVersion": "3.12", "venvPath": "/opt", "venv": "venv", "typeCheckingMode": "standard", "reportMissingModuleSource": False, **config}
    (directory / "pyrightconfig.json").write_text(json.dumps(conf))
    try:
        p = subprocess.run([PYRIGHT, "--outputjson", "-p", str(directory)], cwd=directory, env=_env(directory), capture_output=True, text=True, timeout=240, stdin=subprocess.DEVNULL)
    except subprocess.TimeoutExpired:
        raise Inconclusive("pyright timed out") from None
    try:
        out = json.loads(p.stdout)
    except ValueError:
        raise Inconclusive(f"pyright gave no result: {p.stdout[-200:]} {p.stderr[-300:]}") from None
    res = []
    for d in out["generalDiagnostics"]:
        res.append(dict(file=Path(d["file"]), line=d.get("range", {}).get("start", {}).get("line", -1), severity=d["severity"], rule=d.get("rule"), message=d["message"]))
    return res, out["summary"]["filesAnalyzed"]


def mypy(directory, files, cache, **env):
    try:
        p = subprocess.run([MYPY, "--python-version", "3.12", "--python-executable", "/opt/venv/bin/python", "--cache-dir", str(cache), "--no-error-summary", "--hide-error-context",
                            "--no-color-output", "--ignore-missing-imports", *map(str, files)], cwd=directory, env={**_env(directory), **env}, capture_output=True, text=True, timeout=240,
                           stdin=subprocess.DEVNULL)
    except subprocess.TimeoutExpired:
        raise Inconclusive("mypy timed out") from None
    if p.returncode not in (0, 1):
        raise Inconclusive(f"mypy gave no result: {p.stdout[-200:]} {p.stderr[-300:]}")
    res = []
    for line in p.stdout.splitlines():
        m = re.match(r"(.*?):(\d+): (error|note): (.*)", line)
        if m:
            res.append(dict(file=Path(directory) / m[1], line=int(m[2]) - 1, severity=m[3], rule=None, message=m[4]))
    return res
