#!/usr/bin/env python3-vt
"""check.py <property id> [--tier quick|thorough] [--seed N] [--cases N] [--replay FILE]"""
import os, sys
for v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[v] = "1"
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "props"))
sys.dont_write_bytecode = True
import importlib
import engine
if __name__ == "__main__":
    if sys.argv[1:] == ["--setup"]:
        import build
        print(build.shared_lib("plain"))
        sys.exit(0)
    mod = importlib.import_module(sys.argv[1].lower())
    sys.exit(engine.main(mod.PROP, sys.argv[2:]))
