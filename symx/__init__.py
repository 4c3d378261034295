"""Symbolic execution of the real qiskit_optimization sources (proxy based, z3 backed)."""
