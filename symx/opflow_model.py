"""Real qiskit.opflow, with SparsePauliOp's coefficient vector replaced by an object vector so that it
can hold symbolic coefficients (the Pauli tables stay real).  The 1e-8 zero-dropping tolerance of
`simplify` is idealised to exact zero."""
import numpy as np
import qiskit.opflow as real_opflow
from qiskit.opflow.primitive_ops import pauli_op as _po, pauli_sum_op as _ps, primitive_op as _pr
from qiskit.quantum_info import SparsePauliOp as RealSPO
from qiskit.quantum_info.operators.base_operator import BaseOperator
from qiskit.quantum_info.operators.symplectic.pauli_table import PauliTable

from .engine import Unsupported, is_sym, lift
from .npshim import obj1


def _c(v):
    """drop zero imaginary parts, keep symbolic."""
    if is_sym(v):
        return v
    v = complex(v)
    return v.real if v.imag == 0 else v


class SparsePauliOp(RealSPO):
    def __init__(self, data, coeffs=None):
        if isinstance(data, RealSPO):
            table, coeffs = data._table, data._coeffs
        else:
            table = PauliTable(data)
            if coeffs is None:
                coeffs = [1.0] * table.size
        self._table = table
        self._coeffs = obj1([_c(v) for v in coeffs])
        if len(self._coeffs) != table.size:
            raise ValueError("coeff vector is incorrect shape")
        BaseOperator.__init__(self, num_qubits=table.num_qubits)

    def __getitem__(self, key):
        if isinstance(key, (int, np.integer)):
            key = [key]
        return SparsePauliOp(self.table[key], self.coeffs[key])

    def _add(self, other, qargs=None):
        if not isinstance(other, RealSPO):
            other = SparsePauliOp(other)
        return SparsePauliOp(self.table._add(other.table, qargs=qargs),
                             list(self.coeffs) + list(other.coeffs))

    def _multiply(self, other):
        if lift(other) is None:
            raise Unsupported("operator times %r" % (other,))
        if other == 0:
            return SparsePauliOp(np.zeros((1, 2 * self.num_qubits), dtype=bool), [0.0])
        o = _c(other)
        return SparsePauliOp(self.table, [o * c for c in self.coeffs])

    @classmethod
    def _tensor(cls, a, b):
        return SparsePauliOp(a.table.tensor(b.table), [x * y for x in a.coeffs for y in b.coeffs])

    def tensor(self, other):
        if not isinstance(other, RealSPO):
            other = SparsePauliOp(other)
        return self._tensor(self, other)

    def expand(self, other):
        if not isinstance(other, RealSPO):
            other = SparsePauliOp(other)
        return self._tensor(other, self)

    def compose(self, other, qargs=None, front=False):
        raise Unsupported("SparsePauliOp.compose")

    def adjoint(self):
        return SparsePauliOp(self.table, list(self.coeffs))

    conjugate = adjoint

    def copy(self):
        return SparsePauliOp(self.table.copy(), list(self.coeffs))

    def simplify(self, atol=None, rtol=None):
        table, indexes = np.unique(self.table.array, return_inverse=True, axis=0)
        coeffs = [0.0] * len(table)
        for i, val in zip(np.ravel(indexes), self.coeffs):
            coeffs[i] = coeffs[i] + val
        keep = [i for i in range(len(coeffs)) if coeffs[i] != 0]
        if not keep:
            return SparsePauliOp(np.zeros((1, 2 * self.num_qubits), dtype=bool), [0.0])
        return SparsePauliOp(table[keep], [coeffs[i] for i in keep])

    @staticmethod
    def from_list(obj):
        obj = list(obj)
        return SparsePauliOp(PauliTable.from_labels([o[0] for o in obj]), [o[1] for o in obj])

    def to_list(self, array=False):
        return [(l, c) for l, c in zip(self.table.to_labels(), self.coeffs)]

    def to_matrix(self, sparse=False):
        if any(is_sym(c) for c in self.coeffs):
            raise Unsupported("to_matrix of a symbolic operator")
        return RealSPO(self.table, np.array(list(self.coeffs), dtype=complex)).to_matrix(sparse)


_po.SparsePauliOp = SparsePauliOp
_ps.SparsePauliOp = SparsePauliOp
_pr.SparsePauliOp = SparsePauliOp

MODULE = real_opflow


def ising_terms(op):
    """[(coeff, z mask, x mask)] of an opflow operator (works on real and symbolic operators)."""
    from qiskit.opflow import PauliOp, PauliSumOp, SummedOp

    out = []
    if isinstance(op, PauliOp):
        out.append((op.coeff, list(map(bool, op.primitive.z)), list(map(bool, op.primitive.x))))
    elif isinstance(op, PauliSumOp):
        for c, t in zip(op.primitive.coeffs, op.primitive.table):
            out.append((c * op.coeff, list(map(bool, t.Z[0])), list(map(bool, t.X[0]))))
    elif isinstance(op, SummedOp):
        for o in op.oplist:
            for c, z, x in ising_terms(o):
                out.append((c * op.coeff, z, x))
    else:
        raise TypeError("operator %r" % type(op))
    return out
