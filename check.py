#!/usr/bin/env python3
"""Entry point of every check.

  check.py <PROPERTY> [--tier quick|thorough] [--runs N] [--jobs N] [--seed N] [--start N]
  check.py replay <FILE>
  check.py determinism [--runs N] [--props P01,P02,...]
  check.py serve                      (internal: interpreter with another hash seed)
"""
import os
import sys

PY = "/opt/venv/bin/python"
ENV = {
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "PYTHONDONTWRITEBYTECODE": "1",
    "PYTHONNOUSERSITE": "1",
    "MPLBACKEND": "Agg",
    "CUDA_VISIBLE_DEVICES": "",
    "LC_ALL": "C.UTF-8",
    "HOME": "/root",
    # numpy picks its AVX512 kernels by memory layout, which changes the last bit of exp, log, ...
    "NPY_DISABLE_CPU_FEATURES": "AVX512F AVX512CD AVX512_SKX AVX512_CLX AVX512_CNL AVX512_ICL",
}

if __name__ == "__main__":
    want = dict(ENV, PYTHONHASHSEED=os.environ.get("BOSIM_HASHSEED", "0"))
    if os.environ.get("BOSIM_CHILD") != "1":
        env = {k: v for k, v in os.environ.items() if k not in ("PYTHONPATH", "PYTHONSTARTUP", "PYTHONWARNINGS")}
        env.update(want, BOSIM_CHILD="1")
        os.execve(PY, [PY, "-W", "ignore", os.path.abspath(__file__)] + sys.argv[1:], env)
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    from sim import runner

    sys.exit(runner.main(sys.argv[1:]))
