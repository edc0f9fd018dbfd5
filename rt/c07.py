"""C07: Jacobians."""
import torch

from rt.common import case, ensure
from rt.zoo import DT, Problem, check_operator, jacobian


@case("C07", reps=40, thorough=500)
def matrices(rng):
    from curvlinops import JacobianLinearOperator, TransposedJacobianLinearOperator

    p = Problem(rng)
    kw = p.kw()
    J = JacobianLinearOperator(p.model, p.params, p.data, **kw)
    JT = TransposedJacobianLinearOperator(p.model, p.params, p.data, **kw)
    out = p.core(p.X)
    mat = jacobian(out, p.params)
    outs, ins = [tuple(out.shape)], [tuple(q.shape) for q in p.params]
    d = p.desc()
    check_operator(J, mat, rng, ensure, f"Jacobian {d}", ins, outs)
    check_operator(JT, mat.T, rng, ensure, f"transposed Jacobian {d}", outs, ins)
    check_operator(J.adjoint(), mat.T, rng, ensure, f"adjoint of Jacobian {d}", outs, ins)
    check_operator(JT.adjoint(), mat, rng, ensure, f"adjoint of transposed Jacobian {d}", ins, outs)
    check_operator(J.adjoint().adjoint(), mat, rng, ensure, f"double adjoint {d}", ins, outs)


@case("C07", reps=10, thorough=100)
def num_data_given(rng):
    from curvlinops import JacobianLinearOperator, TransposedJacobianLinearOperator

    p = Problem(rng)
    kw = p.kw(num_data=p.N)
    mat = jacobian(p.core(p.X), p.params)
    J = JacobianLinearOperator(p.model, p.params, p.data, **kw)
    JT = TransposedJacobianLinearOperator(p.model, p.params, p.data, **kw)
    check_operator(J.adjoint(), mat.T, rng, ensure, "adjoint of Jacobian")
    check_operator(JT.adjoint(), mat, rng, ensure, "adjoint of transposed Jacobian")
    check_operator(J, mat, rng, ensure, "Jacobian again, after its adjoint was used")
