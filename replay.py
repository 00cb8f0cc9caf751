"""Runs harness points on the real, compiled package (no solver, no stubs).

    replay.py --serve PROPERTY IN.jsonl OUT.jsonl   (used by check.py)
    replay.py --file REPLAY.json              (a recorded violation; exit 1 if it reproduces)
"""

import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
os.environ.setdefault("NUMBA_NUM_THREADS", "1")
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")


def load(prop):
    import importlib
    import logging
    import warnings

    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    return importlib.import_module("props." + prop.lower())


def main():
    from symx.conc import run_concrete

    if sys.argv[1] == "--file":
        rec = json.load(open(sys.argv[2]))
        mod = load(rec["property"])
        cfg = {c.name: c for c in mod.CONFIGS}[rec["config"]]
        r = run_concrete(cfg.fn, cfg.params, rec["env"], rec["choices"], rec.get("seed", 0))
        print(json.dumps(r, indent=1, default=str))
        sys.exit(1 if r["status"] == "violated" else 0)
    mod = load(sys.argv[2])
    cfgs = {c.name: c for c in mod.CONFIGS}
    import flory

    if not os.path.realpath(flory.__file__).startswith(os.path.realpath(REPO)):
        print("flory was imported from", flory.__file__, file=sys.stderr)
        sys.exit(4)
    parent = os.getppid()
    buf = ""
    with open(sys.argv[3]) as inp, open(sys.argv[4], "a") as out:
        while True:
            chunk = inp.readline()
            if not chunk.endswith("\n"):
                buf += chunk
                if os.getppid() != parent:
                    return
                time.sleep(0.02)
                continue
            j = json.loads(buf + chunk)
            buf = ""
            if j.get("quit"):
                return
            out.write(json.dumps({"start": j["id"]}) + "\n")
            out.flush()
            c = cfgs[j["config"]]
            r = run_concrete(c.fn, c.params, j.get("env"), j.get("choices"), j.get("seed", 0))
            r["id"] = j["id"]
            out.write(json.dumps(r, default=str) + "\n")
            out.flush()


if __name__ == "__main__":
    main()
