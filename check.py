#!/usr/bin/env python3
"""usage: check.py PROPERTY   (environment: VERIF_SEED, VERIF_TIER)"""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import vlib  # noqa: E402

MODULES = {
    "C07": "c_calc", "C30": "c_calc", "C20": "c_matrix", "C21": "c_matrix", "C24": "c_matrix",
    "C01": "c_qc", "C02": "c_qc", "C03": "c_qc", "C04": "c_qc", "C05": "c_qc", "C06": "c_qc", "C23": "c_qc", "C29": "c_qc",
    "C22": "c_text", "C18": "c_args", "C25": "c_args", "C26": "c_args", "C27": "c_args",
    "C14": "c_args", "C15": "c_args", "C16": "c_args", "C17": "c_args", "C19": "c_args",
    "C08": "c_files", "C09": "c_files", "C10": "c_files", "C11": "c_files", "C12": "c_files", "C13": "c_files",
    "C28": "c_files", "C31": "c_log", "C32": "c_together", "C33": "c_sections",
}


def main():
    prop = sys.argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    c = vlib.Check(prop, tier, seed)
    try:
        getattr(importlib.import_module(MODULES[prop]), "check_" + prop)(c)
        return c.finish()
    except vlib.Broken as e:
        print("ERROR:", e, flush=True)
        return c.finish() if c.violations else 2
    except Exception:
        traceback.print_exc()
        return c.finish() if c.violations else 2
    finally:
        c.close()


if __name__ == "__main__":
    sys.exit(main())
