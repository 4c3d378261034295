"""Lets the real docplex modelling layer accept symbolic coefficients (number tests only)."""
import sys

import docplex.mp.utils as U

from .engine import SymBool, SymNum


def apply():
    import docplex.mp.model  # noqa

    for attr in ("__all_python_num_types", "__float_types"):
        if hasattr(U, attr):
            setattr(U, attr, frozenset(set(getattr(U, attr)) | {SymNum}))
    _num, _int = U.is_number, U.is_int

    def is_number(s):
        return type(s) is SymNum or _num(s)

    def is_int(s):
        if type(s) is SymNum:
            return s.kind == "i"
        return _int(s)

    for name, m in list(sys.modules.items()):
        if name.startswith("docplex.mp") and m is not None:
            if getattr(m, "is_number", None) is _num:
                m.is_number = is_number
            if getattr(m, "is_int", None) is _int:
                m.is_int = is_int

    # symbolic models never reach the CPLEX engine
    from docplex.mp.engine import NoSolveEngine
    from docplex.mp.engine_factory import EngineFactory

    def new_engine(self, agent, env, model, context=None):
        return NoSolveEngine(model, **({"context": context} if context is not None else {}))

    EngineFactory.new_engine = new_engine

    # log messages only; formatting them would read the symbolic values
    from docplex.mp.model import Model

    Model._notify_trivial_constraint = lambda self, ct, ctname, is_feasible: None
