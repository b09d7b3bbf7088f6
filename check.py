#!/usr/bin/env python3
"""Entry point of every check:  python3 check.py <PROPERTY> [--tier quick|thorough] [--replay FILE]

Re-executes itself under the interpreter the project is installed in, with
/repo first on the path, so that the code under test is always /repo's working
tree, and runs the generated-input search of the property (checks/<property>.py).
"""
import os
import sys

VENV = "/opt/venv/bin/python"
HERE = os.path.dirname(os.path.abspath(__file__))


def reexec():
    env = dict(os.environ)
    env.update(
        VERIF_CHECK_CHILD="1",
        JAX_PLATFORMS="cpu",
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONHASHSEED="0",
        PYTHONPATH="/repo:" + HERE,
        PYTHONWARNINGS="ignore",
        # cheap code generation: cases are tiny, compilation dominates
        XLA_FLAGS=" ".join([
            "--xla_cpu_multi_thread_eigen=false",
            "--xla_backend_optimization_level=0",
            "--xla_llvm_disable_expensive_passes=true",
            "--xla_cpu_parallel_codegen_split_count=1",
            "--xla_cpu_use_fusion_emitters=false",
        ]),
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        TF_CPP_MIN_LOG_LEVEL="3",
    )
    env.pop("JAX_COMPILATION_CACHE_DIR", None)
    py = VENV if os.path.exists(VENV) else sys.executable
    os.execve(py, [py, os.path.abspath(__file__)] + sys.argv[1:], env)


if __name__ == "__main__":
    if os.environ.get("VERIF_CHECK_CHILD") != "1":
        reexec()
    from pbt import runner

    sys.exit(runner.main(sys.argv[1:]))
