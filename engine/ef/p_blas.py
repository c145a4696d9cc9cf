"""C11: the dense products and solves behind the containers."""
from .oblig import Ob
from .evalr import hnum
from . import lapack

E = "EllipticForest::"
OBS = []
VEC, MAT = "Vector<double>", "Matrix<double>"


def ob(name, code, spec, params, **k):
    OBS.append(Ob(name, code, spec, params, models=lapack.MODELS, ops=lapack.OPS, keep=None, trials=2, **k))


def fits(kind):
    def mkf(seed):
        if seed % 4 == 0:
            return lambda p: None
        n, m, k = (hnum(seed, x, 1, 4) for x in "nmk")
        d = {"mv": {"A.nrows_": n, "A.ncols_": m, "x.size_": m, "len(x.data_)": m},
             "mm": {"A.nrows_": n, "A.ncols_": m, "B.nrows_": m, "B.ncols_": k},
             "sv": {"A.nrows_": n, "A.ncols_": n, "b.size_": n, "len(b.data_)": n},
             "sm": {"A.nrows_": n, "A.ncols_": n, "B.nrows_": n, "B.ncols_": k}}[kind]
        if seed % 4 == 1:
            # one dimension off
            bad = sorted(d)[hnum(seed, "bad", 0, len(d) - 1)]
            d[bad] = d[bad] + 1
            if kind in ("mv", "sv") and "." in bad and ("size_" in bad or "data_" in bad):
                for q in d:
                    if "size_" in q or "data_" in q:
                        d[q] = d[bad]
        return d.get
    return mkf


def bind(kind):
    """operand names follow the parameters of the function analysed"""
    return fits(kind)


ob("matrix * vector", E + "operator*", "b_matvec", [MAT, VEC], assign=bind("mv"))
ob("matrix * matrix", E + "operator*", "b_matmat", [MAT, MAT], assign=bind("mm"))
ob("solve for a vector", E + "solve", "b_solve", [MAT, VEC], assign=bind("sv"))
ob("solve for a matrix", E + "solve", "b_solvem", [MAT, MAT], assign=bind("sm"))
