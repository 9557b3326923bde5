#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N]
Decides one property on /repo's current working tree. Exit 0: held; 1: VIOLATION; 2: no answer."""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import argparse, importlib
import vlib

MODULES = {
    "C01": "c_routing", "C02": "c_routing", "C03": "c_routing",
    "C04": "c_build", "C05": "c_build", "C06": "c_build",
    "C07": "c_metrics", "C08": "c_metrics",
    "C09": "c_export", "C10": "c_export", "C11": "c_export", "C19": "c_export", "C12": "c_fs",
    "C16": "c_balance", "C18": "c_rcfg", "C14": "c_osm", "C15": "c_explo", "C17": "c_balrule", "C13": "c_read", "C20": "c_tool", "C21": "c_pipeline", "C22": "c_constructor", "C23": "c_compiled",
}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    a = ap.parse_args()
    rep = vlib.Report(a.prop, a.tier, a.seed)
    try:
        mod = importlib.import_module(MODULES[a.prop])
        getattr(mod, "run_" + a.prop)(rep, a.tier == "thorough", a.seed)
        return rep.finish()
    except vlib.ToolError as e:
        sys.stderr.write(f"no answer: {e}\n")
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
