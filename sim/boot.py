"""Start-up of a simulation process: environment, seams and the import of the code under test.

Must run before anything else imports keras, jax or threading locks of the code under test.
"""
import atexit
import os
import shutil
import sys
import tempfile

REPO = os.environ.get("GROCO_SIM_REPO", "/repo")
PYTHON = os.environ.get("GROCO_SIM_PYTHON", "/opt/venv/bin/python")

XLA_FLAGS = (
    "--xla_cpu_multi_thread_eigen=false --xla_backend_optimization_level=0 "
    "--xla_llvm_disable_expensive_passes=true"
)


def environment(scratch, hashseed="0"):
    """Environment of a simulation process."""
    env = {k: v for k, v in os.environ.items() if not k.startswith(("JAX_", "XLA_", "KERAS_"))}
    env.update(
        KERAS_BACKEND="jax",
        JAX_PLATFORMS="cpu",
        XLA_FLAGS=XLA_FLAGS,
        KERAS_HOME=os.path.join(scratch, "keras"),
        TF_CPP_MIN_LOG_LEVEL="3",
        PYTHONHASHSEED=hashseed,
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONUNBUFFERED="1",
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        TMPDIR=scratch,
    )
    env.pop("PYTHONPATH", None)
    return env


def start():
    """Install the lock seam and import the code under test from /repo's working tree."""
    import warnings

    warnings.simplefilter("ignore")
    sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True
    sys.setrecursionlimit(5000)
    from sim import core

    core.install_lock_seam(os.path.join(os.path.realpath(REPO), "groco") + os.sep)
    import keras

    keras.utils.disable_interactive_logging()
    import groco
    import groco.groups
    import groco.layers
    import groco.utils

    where = os.path.realpath(os.path.dirname(groco.__file__))
    if where != os.path.join(os.path.realpath(REPO), "groco"):
        raise RuntimeError(f"imported groco from {where}, not from {REPO}")
    core.instrument()


def scratch_dir(prefix="groco-sim-"):
    path = tempfile.mkdtemp(prefix=prefix)
    atexit.register(shutil.rmtree, path, ignore_errors=True)
    return path
