"""C09/C10: vectors and matrices."""
import re
from .oblig import Ob
from .evalr import hnum

V = "EllipticForest::Vector<double>::"
M = "EllipticForest::Matrix<double>::"
E = "EllipticForest::"


def const(f):
    return bool(f.get("const"))


def index_assign(names, bound):
    """index sets whose entries are mostly inside [0, bound)"""
    def mkf(seed):
        lo, hi = (0, 2) if seed % 3 else (-1, 4)
        fix = {}
        if seed % 2 == 0:
            n = hnum(seed, "n", 1, 4)
            fix = {"len(%s)" % b: n for b in bound if "data_" in b}
            fix.update({b: hnum(seed, b, 1, 4) for b in bound if "data_" not in b})
            lo, hi = (0, 0) if n == 1 else (0, n - 1) if seed % 4 else (0, n)

        def a(p):
            if p in fix:
                return fix[p]
            m = re.fullmatch(r"(\w+)\.data_\[(\d+)\]", p)
            if m and m.group(1) in names:
                return hnum(seed, p, lo, hi)
            m = re.fullmatch(r"len\((\w+)\.data_\)", p)
            if m and m.group(1) in names:
                return hnum(seed, p, 0 if seed % 5 == 0 else 1, 3 if seed % 2 else min(3, fix and min(fix.values()) or 3))
            return None
        return a
    return mkf


def perm_assign(pairs):
    """pairs: (I, S, total path or length path)"""
    def mkf(seed):
        fix = {}
        for I, S, tot in pairs:
            k = hnum(seed, ("k", I), 1, 4)
            sizes = [hnum(seed, ("s", S, j), 0 if k > 1 else 1, 3) for j in range(k)]
            order = sorted(range(k), key=lambda j: hnum(seed, ("o", I, j), 0, 10 ** 9))
            fix[I + ".data_"], fix[S + ".data_"] = order, sizes
            t = sum(sizes) + (1 if seed % 7 == 6 else 0)
            fix[tot] = t

        def a(p):
            return fix.get(p)
        return a
    return mkf


OBS = []


def ob(cat, name, code, spec, params=None, **k):
    OBS.append(Ob(name, code, spec, params, cat=cat, **k))


D = "double"
VEC = "Vector<double>"
VI = "Vector<int>"
MAT = "Matrix<double>"
# cat: which property the obligation belongs to ("a" accessor with a bounds clause: both C09 and C10)
ob("s", "vector default construction", V + "(ctor)", "v_ctor0", [])
ob("s", "vector of a size", V + "(ctor)", "v_ctor_n", ["size"])
ob("s", "vector of a size and value", V + "(ctor)", "v_ctor_nv", ["size", D])
ob("s", "vector from std::vector", V + "(ctor)", "v_ctor_vec", ["std::vector<double>"])
ob("s", "vector from a list", V + "(ctor)", "v_ctor_vec", ["std::initializer_list<double>"])
ob("s", "vector copy", V + "(ctor)", "v_ctor_copy", [VEC])
ob("s", "vector assignment", V + "operator=", "v_assign", [VEC])
ob("b", "getEntry", V + "getEntry", "v_get", ["size"])
ob("b", "operator[]", V + "operator[]", "v_get", ["size"], pred=lambda f: not const(f))
ob("b", "operator[] const", V + "operator[]", "v_get", ["size"], pred=const)
ob("b", "operator()(i)", V + "operator()", "v_get", ["size"])
ob("s", "size", V + "size", "v_size", [])
ob("s", "data", V + "data", "v_data", [])
ob("s", "dataNoConst", V + "dataNoConst", "v_data", [])
ob("b", "getRange", V + "getRange", "v_range", ["size", "size"])
ob("b", "operator()(a,b)", V + "operator()", "v_range", ["size", "size"])
ob("b", "getSegment", V + "getSegment", "v_segment", ["size", "size"])
ob("b", "setSegment", V + "setSegment", "v_setsegment", ["size", VEC])
ob("s", "append", V + "append", "v_append", [VEC])
ob("b", "vector getFromIndexSet", V + "getFromIndexSet", "v_gather", [VI], assign=index_assign(["I"], ["this.data_"]), trials=2)
ob("b", "vector operator()(I)", V + "operator()", "v_gather", [VI], assign=index_assign(["I"], ["this.data_"]), trials=2)
ob("b", "vector blockPermute", V + "blockPermute", "v_permute", [VI, VI], assign=perm_assign([("I", "S", "len(this.data_)")]), trials=2)
ob("s", "vector negation", V + "operator-", "v_neg", [])
ob("b", "vector +=", V + "operator+=", "v_addeq", [VEC])
ob("s", "vector += scalar", V + "operator+=", "v_addseq", [D])
ob("b", "vector +", V + "operator+", "v_add", [VEC])
ob("s", "vector + scalar", V + "operator+", "v_adds", [D])
ob("b", "vector -=", V + "operator-=", "v_subeq", [VEC])
ob("s", "vector -= scalar", V + "operator-=", "v_subseq", [D])
ob("b", "vector -", V + "operator-", "v_sub", [VEC])
ob("s", "vector - scalar", V + "operator-", "v_subs", [D])
ob("s", "vector *= scalar", V + "operator*=", "v_mulseq", [D])
ob("b", "vector dot", V + "operator*", "v_dot", [VEC])
ob("s", "vector /= scalar", V + "operator/=", "v_divseq", [D])
ob("s", "scalar * vector", E + "operator*", "v_smul", [D, VEC])
ob("b", "vector * vector", E + "operator*", "v_mul", [VEC, VEC])
ob("b", "vector / vector", E + "operator/", "v_div", [VEC, VEC])
ob("s", "vectorRange", E + "vectorRange", "v_irange", ["int", "int"])
ob("s", "concatenate", E + "concatenate", "v_concat", [r"std::vector<Vector<double>>"])
ob("s", "concatenate list", E + "concatenate", "v_concatl", [r"std::initializer_list<Vector<double>>"])
ob("b", "vectorInfNorm", E + "vectorInfNorm", "v_infnorm", [VEC, VEC])
ob("b", "vectorL2Norm", E + "vectorL2Norm", "v_l2norm", [VEC, VEC])

ob("s", "matrix default construction", M + "(ctor)", "m_ctor0", [])
ob("s", "matrix of a shape", M + "(ctor)", "m_ctor_nm", ["size", "size"])
ob("s", "matrix of a shape and value", M + "(ctor)", "m_ctor_nmv", ["size", "size", D])
ob("s", "matrix from data", M + "(ctor)", "m_ctor_data", ["size", "size", "std::vector<double>"])
ob("s", "matrix from a list", M + "(ctor)", "m_ctor_data", ["size", "size", "std::initializer_list<double>"])
ob("s", "matrix copy", M + "(ctor)", "m_ctor_copy", [MAT])
ob("s", "matrix assignment", M + "operator=", "m_assign", [MAT])
for n in ("nrows", "nRows"):
    ob("s", n, M + n, "m_nrows", [])
for n in ("ncols", "nCols"):
    ob("s", n, M + n, "m_ncols", [])
ob("s", "matrix data", M + "data", "m_data", [])
ob("s", "matrix dataNoConst", M + "dataNoConst", "m_data", [])
ob("b", "matrix getEntry", M + "getEntry", "m_get", ["size", "size"])
ob("b", "matrix operator()(i,j)", M + "operator()", "m_get", ["size", "size"])
ob("b", "matrix operator()(a,b,c,d)", M + "operator()", "m_sub4", ["size"] * 4)
ob("b", "getRow", M + "getRow", "m_row", ["size"])
ob("b", "getCol", M + "getCol", "m_col", ["size"])
ob("b", "matrix getFromIndexSet", M + "getFromIndexSet", "m_gather", [VI, VI], assign=index_assign(["I", "J"], ["this.nrows_", "this.ncols_"]), trials=3)
ob("b", "matrix operator()(I,J)", M + "operator()", "m_gather", [VI, VI], assign=index_assign(["I", "J"], ["this.nrows_", "this.ncols_"]), trials=3)
ob("b", "setRow", M + "setRow", "m_setrow", ["size", VEC])
ob("b", "setColumn", M + "setColumn", "m_setcol", ["size", VEC])
ob("b", "matrix blockPermute", M + "blockPermute", "m_permute", [VI] * 4, assign=perm_assign([("I", "R", "this.nrows_"), ("J", "C", "this.ncols_")]), trials=2)
ob("b", "getBlock", M + "getBlock", "m_block", ["size"] * 4)
ob("b", "setBlock", M + "setBlock", "m_setblock", ["size", "size", MAT], trials=2)
ob("s", "transpose", M + "T", "m_transpose", [])
ob("s", "matrix negation", M + "operator-", "m_neg", [])
ob("b", "matrix +=", M + "operator+=", "m_addeq", [MAT], trials=2)
ob("s", "matrix += scalar", M + "operator+=", "m_addseq", [D])
ob("b", "matrix -=", M + "operator-=", "m_subeq", [MAT], trials=2)
ob("s", "matrix -= scalar", M + "operator-=", "m_subseq", [D])
ob("s", "matrix *= scalar", M + "operator*=", "m_mulseq", [D])
ob("b", "matrix +", E + "operator+", "m_add", [MAT, MAT], trials=2)
ob("b", "matrix -", E + "operator-", "m_sub", [MAT, MAT], trials=2)
ob("s", "scalar * matrix", E + "operator*", "m_smul", [D, MAT])
ob("s", "blockDiagonalMatrix", E + "blockDiagonalMatrix", "m_blockdiag", [r"std::vector<Matrix<double>>"])
ob("b", "matrixInfNorm", E + "matrixInfNorm", "m_infnorm", [MAT, MAT], trials=2)
ob("s", "identity", E + "IdentityMatrix<double>::(ctor)", "s_identity", ["size"])
ob("s", "diagonal", E + "DiagonalMatrix<double>::(ctor)", "s_diagv", [VEC])
ob("s", "fine to coarse", E + "InterpolationMatrixFine2Coarse<double>::(ctor)", "s_fine2coarse", ["size"])
ob("s", "coarse to fine", E + "InterpolationMatrixCoarse2Fine<double>::(ctor)", "s_coarse2fine", ["size"], ranges=[(6, 12), (4, 8)])
