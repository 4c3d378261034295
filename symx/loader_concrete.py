"""real package, real libraries (no z3, no shims)."""
import importlib
import logging
import os
import sys
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")


def install_concrete():
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import qiskit_optimization

    assert os.path.realpath(qiskit_optimization.__file__).startswith(os.path.realpath(REPO)), \
        qiskit_optimization.__file__
    for sub in ("problems", "converters", "algorithms", "applications"):
        importlib.import_module("qiskit_optimization." + sub)
    return qiskit_optimization
