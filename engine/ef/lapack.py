"""The dense library routines as the Fortran interface defines them (column-major), for the value-flow domain."""
from fractions import Fraction
from . import terms as T
from .terms import mk, num, add, sub, mul, ite, sel, cint, seqlen, ZERO, ONE, TRUE
from .flow import UNIT
from . import stdmodel as S
from . import evalr


def scalar(ip, st, e, fr):
    """value of an argument passed by address"""
    return ip.load(st, ip.deref(ip.ev(e, st, fr)))


def buf(ip, st, e, fr):
    p = ip.ev(e, st, fr)
    loc, i = S.seq_at(p)
    if loc is None:
        p = ip.deref(p)
        loc, i = S.seq_at(p)
        if loc is None:
            loc, i = p, ZERO
    return loc, i, ip.load(st, loc)


def flag(t):
    """N/T/C of a character argument"""
    c = cint(t)
    if c is None:
        return None
    return {"N": "N", "T": "T", "C": "T"}.get(chr(c).upper())


def at(s, off, i):
    return sel(s, add(off, i))


def dgemv(ip, st, fr, e, args, this):
    tr, m, n, alpha = (scalar(ip, st, a, fr) for a in args[:4])
    A, ao, Av = buf(ip, st, args[4], fr)
    lda = scalar(ip, st, args[5], fr)
    X, xo, Xv = buf(ip, st, args[6], fr)
    incx = scalar(ip, st, args[7], fr)
    beta = scalar(ip, st, args[8], fr)
    Y, yo, Yv = buf(ip, st, args[9], fr)
    incy = scalar(ip, st, args[10], fr)
    f = flag(tr)
    if f is None or cint(incx) is None or cint(incx) < 1 or cint(incy) is None or cint(incy) < 1:
        v = ip.unk("dgemv_ with a non-constant or negative TRANS/INC")
        ip.store(st, Y, v)
        return "r", UNIT
    outn, inn = (m, n) if f == "N" else (n, m)
    k, j = T.fresh_bv(), T.fresh_bv()
    # element (r, c) of the column-major matrix is A[r + c*lda]
    el = at(Av, ao, add(k, mul(j, lda))) if f == "N" else at(Av, ao, add(j, mul(k, lda)))
    val = mul(alpha, T.tsum(j, outcount(inn), mul(el, at(Xv, xo, mul(j, incx)))))
    if T.cval(beta) != 0:
        val = add(val, mul(beta, at(Yv, yo, mul(k, incy))))
    ip.store(st, Y, write(Yv, yo, incy, outn, k, val))
    # LDA < max(1, M) is rejected by the library
    guard(ip, st, T.ge0(sub(lda, m)), e)
    return "r", UNIT


def outcount(n):
    return n


def guard(ip, st, cond, e):
    """a leading dimension the library rejects (XERBLA)"""
    cond = ip.known(st, cond)
    if cond is not TRUE:
        pc = st.pc
        st.pc = pc + (T.lnot(cond),)
        ip.event(st, "throw", "xerbla", (UNIT,), e["l"])
        st.pc = pc


def write(Yv, yo, inc, n, k, val):
    if cint(yo) == 0 and cint(inc) == 1 and n is seqlen(Yv):
        return T.gen(k, n, val)
    return T.mstore(Yv, T.l_op(k, n, TRUE, T.w_op(TRUE, add(yo, mul(k, inc)), val)))


def dgemm(ip, st, fr, e, args, this):
    ta, tb, m, n, kk, alpha = (scalar(ip, st, a, fr) for a in args[:6])
    A, ao, Av = buf(ip, st, args[6], fr)
    lda = scalar(ip, st, args[7], fr)
    B, bo, Bv = buf(ip, st, args[8], fr)
    ldb = scalar(ip, st, args[9], fr)
    beta = scalar(ip, st, args[10], fr)
    C, co, Cv = buf(ip, st, args[11], fr)
    ldc = scalar(ip, st, args[12], fr)
    fa, fb = flag(ta), flag(tb)
    if fa is None or fb is None:
        ip.store(st, C, ip.unk("dgemm_ with a non-constant TRANS"))
        return "r", UNIT
    i, j, l = T.fresh_bv(), T.fresh_bv(), T.fresh_bv()
    a = at(Av, ao, add(i, mul(l, lda)) if fa == "N" else add(l, mul(i, lda)))
    b = at(Bv, bo, add(l, mul(j, ldb)) if fb == "N" else add(j, mul(l, ldb)))
    val = mul(alpha, T.tsum(l, kk, mul(a, b)))
    if T.cval(beta) != 0:
        val = add(val, mul(beta, at(Cv, co, add(i, mul(j, ldc)))))
    ip.store(st, C, T.mstore(Cv, T.l_op(j, n, TRUE, T.l_op(i, m, TRUE, T.w_op(TRUE, add(co, add(i, mul(j, ldc))), val)))))
    guard(ip, st, T.land(T.ge0(sub(lda, m if fa == "N" else kk)), T.ge0(sub(ldb, kk if fb == "N" else n)), T.ge0(sub(ldc, m))), e)
    return "r", UNIT


def dgesv(ip, st, fr, e, args, this):
    n, nrhs = scalar(ip, st, args[0], fr), scalar(ip, st, args[1], fr)
    A, ao, Av = buf(ip, st, args[2], fr)
    lda = scalar(ip, st, args[3], fr)
    P, po, Pv = buf(ip, st, args[4], fr)
    B, bo, Bv = buf(ip, st, args[5], fr)
    ldb = scalar(ip, st, args[6], fr)
    I = ip.deref(ip.ev(args[7], st, fr))
    ip.store(st, I, ip.outterm("dgesv_", 7, "int"))
    out = mk("app", "dgesv", n, nrhs, Av, ao, lda, seqlen(Pv), Bv, bo, ldb)
    ip.store(st, A, mk("app", "dgesv.lu", n, Av, ao, lda))
    ip.store(st, P, mk("app", "dgesv.ipiv", n, Av, ao, lda))
    ip.store(st, B, out)
    return "r", UNIT


def gauss(A, B):
    """solve A X = B over the rationals; None when singular"""
    n = len(A)
    A = [[Fraction(x) for x in r] for r in A]
    B = [[Fraction(x) for x in r] for r in B]
    for c in range(n):
        p = next((r for r in range(c, n) if A[r][c] != 0), None)
        if p is None:
            return None
        A[c], A[p], B[c], B[p] = A[p], A[c], B[p], B[c]
        d = A[c][c]
        A[c] = [x / d for x in A[c]]
        B[c] = [x / d for x in B[c]]
        for r in range(n):
            if r != c and A[r][c] != 0:
                f = A[r][c]
                A[r] = [x - f * y for x, y in zip(A[r], A[c])]
                B[r] = [x - f * y for x, y in zip(B[r], B[c])]
    return B


def norm(x):
    x = Fraction(x)
    return int(x) if x.denominator == 1 else x


def op_dgesv(ctx, a, env):
    n, nrhs = ctx.i(a[0], env), ctx.i(a[1], env)
    A = [ctx.num(x) for x in ctx.seq(ctx.ev(a[2], env))]
    ao, lda = ctx.i(a[3], env), ctx.i(a[4], env)
    npiv = ctx.i(a[5], env)
    B = [ctx.num(x) for x in ctx.seq(ctx.ev(a[6], env))]
    bo, ldb = ctx.i(a[7], env), ctx.i(a[8], env)
    if n < 0 or nrhs < 0 or lda < max(1, n) and n > 0 or ldb < n:
        raise evalr.Undef("dgesv_ rejects its arguments (N=%d NRHS=%d LDA=%d LDB=%d)" % (n, nrhs, lda, ldb))
    if npiv < n:
        raise evalr.Undef("dgesv_ writes %d pivots into a buffer of %d" % (n, npiv))

    def get(s, i):
        if not 0 <= i < len(s):
            raise evalr.Undef("dgesv_ accesses element %d of a buffer of %d" % (i, len(s)))
        return s[i]
    M = [[get(A, ao + r + c * lda) for c in range(n)] for r in range(n)]
    R = [[get(B, bo + r + c * ldb) for c in range(nrhs)] for r in range(n)]
    X = gauss(M, R)
    if X is None:
        raise evalr.Discard("singular system")
    out = list(B)
    for r in range(n):
        for c in range(nrhs):
            out[bo + r + c * ldb] = norm(X[r][c])
    return out


def linsolve(ip, st, fr, e, args, this):
    """reference: X with A X = B, all row-major: ef_linsolve(n, nrhs, A, B)"""
    n, nrhs, A, B = (ip.ev(a, st, fr) for a in args)
    return "r", T.set_len(mk("app", "linsolve", n, nrhs, A, B), mul(n, nrhs))


def op_linsolve(ctx, a, env):
    n, nrhs = ctx.i(a[0], env), ctx.i(a[1], env)
    A = [ctx.num(x) for x in ctx.seq(ctx.ev(a[2], env))]
    B = [ctx.num(x) for x in ctx.seq(ctx.ev(a[3], env))]
    X = gauss([A[i * n:(i + 1) * n] for i in range(n)], [B[i * nrhs:(i + 1) * nrhs] for i in range(n)])
    if X is None:
        raise evalr.Discard("singular system")
    return [norm(x) for r in X for x in r]


MODELS = {"dgemv_": dgemv, "dgemm_": dgemm, "dgesv_": dgesv, "ef_linsolve": linsolve}
OPS = {"dgesv": op_dgesv, "linsolve": op_linsolve}

