import math
import numpy as np
import ngsolve as ngs
from ngsolve import CF, IfPos, InnerProduct, OuterProduct, Norm, Trace, Det, Inv, Id, Sym, Skew, Cross, Cof, Trace as tr, ZeroCF as Zero

A = ngs.Parameter(0.75)
B = ngs.Parameter(-1.25)
C = ngs.Parameter(3.5)


def v2(): return CF((A, B))
def w2(): return CF((C, A * B))
def v3(): return CF((A, B, C))
def w3(): return CF((C, A, B * B))
def m2(): return CF((A, B, C, A + B), dims=(2, 2))
def n2(): return CF((C, A, B * C, 1), dims=(2, 2))
def m3(): return CF((A, B, C, 1, 2, B, C, A, A), dims=(3, 3))
def m23(): return CF((A, B, C, 1, 2, B), dims=(2, 3))
def m32(): return CF((A, B, C, 1, 2, B), dims=(3, 2))


def t_add(): return [A + B, A + 1, 1 + A, A - B, 1 - A, A * B, 2 * A, A / B, 1 / A, -A, +A if False else A, A**2, A**3, C**0.5, 2**A, C**A, C**B]
def t_vadd(): return [v2() + w2(), v2() - w2(), -v2(), 2 * v2(), v2() * 2, v2() / 2, A * v2(), v2() * A, v2() / A]
def t_vmul(): return [v2() * w2(), InnerProduct(v2(), w2()), v3() * w3()]
def t_mv(): return [m2() * v2(), m2() * n2(), m23() * v3(), m32() * v2(), m23() * m32()]
def t_mt(): return [m2().trans, m23().trans, m2().trans * v2()]
def t_norm(): return [Norm(v2()), Norm(v3()), Norm(m2()), Norm(A)]
def t_outer(): return [OuterProduct(v2(), w2()), OuterProduct(v2(), v3())]
def t_tr(): return [Trace(m2()), Trace(m3()), Det(m2()), Det(m3()), Inv(m2()), Inv(m3()), Cof(m2()), Cof(m3()), Sym(m2()), Skew(m2()), Sym(m3())]
def t_id(): return [Id(2), Id(3), Id(2) * v2(), m2() + Id(2), A * Id(2)]
def t_zero(): return [Zero((2,)), Zero((2, 2)), Zero((2,)) + v2()]
def t_cross(): return [Cross(v3(), w3())]
def t_idx(): return [v2()[0], v3()[2], m2()[0, 1], m2()[1, 0], m2()[3], m23()[1, 2], v3()[0:2], v3()[1:3], m3()[0, :], m3()[:, 1], m3()[0:2, 0:2], m3()[1:3, 0], v3()[1:]]
def t_idx2(): return [v3()[:2], m3()[:2, :2], m3()[1, 0:2], m23()[:, 0:2], m3()[:, :]]
def t_neg(): return [v3()[-1]]
def t_oob(): return [v2()[2]]
def t_oob2(): return [m2()[2, 0]]
def t_oob3(): return [m2()[4]]
def t_vs(): return [v2() + A]
def t_vs2(): return [v2() + v3()]
def t_vs3(): return [m2() * v3()]
def t_vs4(): return [A + v2()]
def t_vs5(): return [v2() + m2()]
def t_vs6(): return [A / v2()]
def t_vs7(): return [v2()**2]
def t_vs8(): return [v2() * m2()]
def t_vs9(): return [v2() / w2()]
def t_vs10(): return [m2()**2]
def t_vs11(): return [A * m2(), m2() * A, m2() / A, m2() + n2(), -m2(), m2() - n2()]
def t_vs12(): return [v2() + 1]
def t_vs13(): return [v2() - (1, 2)]
def t_vs14(): return [v2() + (1, 2)]
def t_vs15(): return [Trace(v2())]
def t_vs16(): return [Trace(m23())]
def t_vs17(): return [Inv(m23())]
def t_vs18(): return [InnerProduct(v2(), v3())]
def t_vs19(): return [InnerProduct(A, B), InnerProduct(m2(), n2())]
def t_vs20(): return [Det(v2())]
def t_vs21(): return [v2().trans]
def t_vs22(): return [A.trans]
def t_vs23(): return [OuterProduct(A, v2())]
def t_vs24(): return [OuterProduct(m2(), v2())]
def t_vs25(): return [Cross(v2(), w2())]
def t_vs26(): return [m2() * 2 + 1]
def t_vs27(): return [m2() * m23()]
def t_vs28(): return [m23() * m2()]
def t_vs29(): return [Sym(v2())]
def t_vs30(): return [InnerProduct(m2(), v2())]
def t_fn(): return [ngs.sqrt(C), ngs.exp(A), ngs.log(C), ngs.sin(A), ngs.cos(A), ngs.tan(A), ngs.atan(A), ngs.atan2(A, B), ngs.sinh(A), ngs.cosh(A), ngs.acos(A), ngs.asin(A), ngs.pow(C, 2), ngs.floor(C), ngs.ceil(C)]
def t_fnnum(): return [CF(ngs.sqrt(2)), CF(ngs.exp(1)), CF(ngs.sin(1)), CF(ngs.pow(2, 3))]
def t_fnvec(): return [ngs.sqrt(v2() * v2()), ngs.exp(CF((1, 2)))]
def t_fnvec2(): return [ngs.sqrt(CF((1, 2)))]
def t_ifpos(): return [IfPos(A, B, C), IfPos(B, A, C), IfPos(A - A, 1, 2), IfPos(A, v2(), w2()), IfPos(0, 1, 2), IfPos(-1, A, B)]
def t_ifpos2(): return [IfPos(v2(), A, B)]
def t_ifpos3(): return [IfPos(A, v2(), B)]
def t_cf(): return [CF(1), CF((1, 2)), CF(A), CF((A, 2)), CF(v2()), CF((v2(), A)), CF((v2(), w2())), CF((1, 2, 3, 4), dims=(2, 2)), CF(((1, 2), (3, 4))), CF((v2(), v2()), dims=(2, 2)), CF(tuple(v3()))]
def t_cf2(): return [CF((1, 2, 3), dims=(2, 2))]
def t_cf3(): return [CF(())]
def t_cf4(): return [CF((m2(), v2()))]
def t_cf5(): return [CF((m2(), m2()), dims=(4, 2))]
def t_cf6(): return [CF((A,))]
def t_cf8(): return [CF('a')]
def t_dims():
    return [CF(v2().dim), CF(m2().dim), CF(m23().dims[1]), CF(A.dim), CF(len(v2().dims)), CF(len(A.dims)), CF(len(CF(1).shape)), CF(len(v3().shape))]
def t_lenvec(): return [CF(len(v2()))]
def t_lenscalar(): return [CF(len(A))]
def t_iter(): return list(v3())
def t_iter2(): return list(m2())
def t_iter3(): return list(A * B)
def t_tuple(): return [CF(tuple(w3()))]
def t_reshape(): return [CF((A, B, C, 1)).Reshape((2, 2)), m23().Reshape((3, 2)), m2().Reshape((4,))]
def t_sum(): return [sum(v3()), sum([A, B], CF(0))]
def t_param():
    p = ngs.Parameter(2.0)
    q = p * A
    p.Set(5)
    return [q, p, CF(p.Get())]
def t_param2(): return [ngs.Parameter(A)]
def t_param3(): return [ngs.Parameter('a')]
def t_diff():
    p = ngs.Parameter(2.0)
    return [(p * p * A).Diff(p), (ngs.sqrt(p) * A).Diff(p), (A / p).Diff(p), CF((p * A, p**3)).Diff(p), ngs.exp(p * A).Diff(p), (p * v2()).Diff(p), ngs.sin(p).Diff(p), (A * B).Diff(p)]
def t_diff2():
    p, q = ngs.Parameter(2.0), ngs.Parameter(3.0)
    return [(p * q).Diff(p, CF(2)), (p * p).Diff(p, q)]
def t_minmax(): return [ngs.IfPos(A - B, A, B), ngs.IfPos(A - B, B, A)]
def t_np(): return [CF(float(np.sqrt(2.0))), CF(float(np.linalg.norm([3, 4]))), CF(tuple(np.array([1.0, 2.0]))), CF(tuple(float(q) for q in np.linspace(0, 1, 3))), CF(float(np.pi)), CF(float(np.sum([1, 2, 3]))), CF(float(np.max([1, 5]))), CF(float(np.radians(180))), CF(float(np.cos(0.0)))]
def t_np2(): return [CF(float(np.hypot(3, 4))), CF(float(np.dot([1, 2], [3, 4]))), CF(float(np.prod([2, 3]))), CF(float(np.abs(-2))), CF(float(np.log10(100.0))), CF(float(np.deg2rad(180.0)))]
def t_math(): return [CF(math.sqrt(2)), CF(math.hypot(3, 4)), CF(math.radians(180)), CF(math.cos(0.5)), CF(math.dist((0, 0), (3, 4))), CF(math.fsum([1, 2])), CF(math.exp(1)), CF(math.log(2)), CF(math.log2(8)), CF(math.fabs(-2)), CF(math.trunc(2.5)), CF(math.fmod(5, 3)), CF(math.copysign(1, -2)), CF(math.tanh(0.5)), CF(math.pow(2, 3)), CF(math.comb(4, 2)), CF(math.factorial(4))]
def t_cmp(): return [CF(1 if A is A else 0), CF(1 if A == B else 0), CF(1 if isinstance(A, ngs.CF) else 0), CF(1 if isinstance(v2(), ngs.CoefficientFunction) else 0), CF(1 if isinstance(A, ngs.Parameter) else 0), CF(1 if isinstance(1.0, ngs.CF) else 0), CF(1 if bool(A * B) else 0)]
def t_compile(): return [(A * B).Compile(), (A * B).Compile(False), v2().Compile(realcompile=False)]
def t_radd(): return [sum([v2(), w2()])]
def t_eq(): return [CF((A, B)) * CF((1, 0)), CF((1, 0)) * CF((0, 1)), CF((1, 2)) * CF((3, 4))]
def t_zero2(): return [0 * A, 0 * v2(), CF(0) * A, CF((0, 0)) * A, CF((0, 0)) + v2(), CF(0) / C, CF((0, 0)) / C, A * 0 + B]
def t_zeroprop(): return [CF(0) * v2(), CF((0, 0, 0, 0), dims=(2, 2)) * v2(), m2() * CF((0, 0)), OuterProduct(CF((0, 0)), v2()), InnerProduct(CF((0, 0)), v2()), Trace(CF((0, 0, 0, 0), dims=(2, 2))), CF((0, 0, 0, 0), dims=(2, 2)).trans]
def t_pow(): return [A**1, A**0, A**-1, C**1.5, C**-0.5, 2**C, A**B if False else C**C]
def t_pow2(): return [1**A, 0**C, C**0]
def t_complex(): return [CF(1) + 0]
def t_maxpy(): return [CF(max(1, 2)), CF(min([3, 1])), CF(abs(-3)), CF(sum([1, 2, 3]))]
def t_absA(): return [abs(A)]
def t_maxA(): return [CF(max(A, B))]
def t_floatA(): return [CF(float(A.Get()))]
def t_floatA2(): return [CF(float(A))]
def t_int(): return [CF(int(2.7)), CF(round(2.6)), CF(7 // 2), CF(7 % 3), CF(2**3), CF(divmod(7, 2)[0])]
def t_str(): return [CF(len(str(1.5))), CF(float('2.5'))]
def t_conj(): return [ngs.Conj(A * B)]
def t_real(): return [(A * B).real]
def t_mip(): return [InnerProduct(m2(), m2()), InnerProduct(v2(), v2()), InnerProduct(A, A)]
def t_extend(): return [v2().ExtendDimension((3,)), v2().ExtendDimension((3,), pos=(1,))]
def t_ops3(): return [v3() * v3() * A, A * (v2() * w2()), (m2() * v2()) * w2(), m2() * n2() * v2(), m2() * (n2() * v2())]
def t_chain(): return [(A + B) * (A - B) - (A * A - B * B)]
def t_tuple_add(): return [v2() + CF((1, 2)), CF((A, B)) - CF((A, 0))]
def t_symm(): return [0.5 * (m2() + m2().trans), 0.5 * (m2() - m2().trans)]
def t_vecmatvec(): return [InnerProduct(v2(), m2() * w2()), v2() * (m2() * w2()), (m2().trans * v2()) * w2()]
def t_col(): return [CF((v2(), w2()), dims=(2, 2)).trans * v2(), CF((v2(), w2()), dims=(2, 2))]
