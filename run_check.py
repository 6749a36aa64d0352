#!/usr/bin/env python3
"""run_check.py CNN: run one check on /repo's working tree. See DESIGN.md."""
import os
import sys

VENV = "/opt/venv/bin/python"
ENV = {"PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1"}
if os.environ.get("VERIF_CHILD") != "1":
    env = dict(os.environ, VERIF_CHILD="1", **ENV)
    env.pop("PYTHONPATH", None)
    os.execve(VENV, [VENV, "-W", "ignore", os.path.abspath(__file__), *sys.argv[1:]], env)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
if sys.argv[1] == "--replay":
    import json

    rec = json.load(open(sys.argv[2]))
    os.environ.update(VERIF_SEED=str(rec["seed"]), VERIF_TIER=rec["tier"], VERIF_ONLY_CASE=rec["case"], VERIF_REPLAY_FILE=sys.argv[2])
    name = rec["check"]
else:
    name = sys.argv[1].lower()
from vlib import runner

rc = runner.run(name)
sys.stdout.flush()
sys.exit(rc)
