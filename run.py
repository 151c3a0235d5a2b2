#!/opt/venv/bin/python
"""Entry point: run.py PNN [--tier quick|thorough] [--seed N] [--replay FILE] [--case KIND:I] [-v]

Pins the environment (hash seed, thread counts, backends, scratch caches) by re-executing itself, so that every
run is a deterministic function of (repository tree, check, tier, VERIF_SEED).
"""
import os
import sys
import tempfile
import shutil
import subprocess

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"


def main() -> int:
    scratch = tempfile.mkdtemp(prefix="verif_sp_")
    try:
        env = dict(os.environ)
        env.update(
            PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="agg",
            OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", NUMBA_NUM_THREADS="1",
            MPLCONFIGDIR=os.path.join(scratch, "mpl"), NUMBA_CACHE_DIR=os.path.join(scratch, "numba"),
            VERIF_SCRATCH=scratch, TMPDIR=scratch, COLUMNS="200", MKL_CBWR="COMPATIBLE",
            PYTHONPATH=HERE,
        )
        os.makedirs(env["MPLCONFIGDIR"]); os.makedirs(env["NUMBA_CACHE_DIR"])
        for var in ("PYTHONSTARTUP", "PYTHONWARNINGS", "PYTHONINSPECT"):
            env.pop(var, None)
        # reuse a font cache if there is one (only to save time)
        return subprocess.call([PY, "-c", "import sys; sys.argv[0]='run.py'; from harness.common import main; sys.exit(main())",
                                *sys.argv[1:]], env=env, cwd=HERE)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
