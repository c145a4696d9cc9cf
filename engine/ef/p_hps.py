"""C01-C04: merge, upwards and split of four siblings."""
from .oblig import Ob
from .evalr import hnum
from . import adt, common

E = "EllipticForest::"
H = E + "HPSAlgorithm<EllipticForest::FiniteVolumeGrid, EllipticForest::FiniteVolumeSolver, EllipticForest::FiniteVolumePatch, double>::"
P = "FiniteVolumePatch"
OBS = []
KIDS = ("alpha", "beta", "gamma", "omega")


def ob(cat, name, code, spec, params, **k):
    k.setdefault("trials", 0.6)
    OBS.append(Ob(name, H + code, spec, params, cat=cat, models=dict(adt.MODELS, **common.MODELS), ops=adt.OPS, setup=adt.setup, **k))


def quarters(seed):
    """the four siblings share their parent's midpoints"""
    x, y, w, h = (hnum(seed, k, a, b) for k, a, b in (("x", -9, 9), ("y", -9, 9), ("w", 1, 9), ("h", 1, 9)))
    d = {}
    for i, k in enumerate(KIDS):
        a, b = x + (i % 2) * w, y + (i // 2) * h
        d.update({k + ".xl": a, k + ".xu": a + w, k + ".yl": b, k + ".yu": b + h})
    d.update({"tau.xl": x, "tau.xu": x + 2 * w, "tau.yl": y, "tau.yu": y + 2 * h})
    return d


def merge_assign(equal):
    def mkf(seed):
        base = 1 if equal and seed % 2 else 2 if equal else 1 + hnum(seed, "base", 0, 1)
        d = {}
        for k in KIDS:
            lev = 0 if equal else hnum(seed, k, 0, 2)
            if not equal and seed % 3 == 0 and k == "beta":
                lev = 0
            if base == 1 and seed % 4 == 1 and k == KIDS[seed // 4 % 4]:
                lev = 0 if equal else 3
            n = base * 2 ** lev
            d[k + ".nx"] = d[k + ".ny"] = n
            d[k + ".nc"] = hnum(seed, ("nc", k), 0, 2)
            d[k + ".T.nrows_"] = d[k + ".T.ncols_"] = 4 * n
        d.update(quarters(seed))
        if hnum(seed, "again", 0, 1):
            m = min(d[k + ".nx"] for k in KIDS)
            for n, r, c in (("X", 4, 4), ("S", 4, 8), ("T", 8, 8), ("H", 8, 4)):    # the family has been merged before
                d["tau.%s.nrows_" % n], d["tau.%s.ncols_" % n] = r * m, c * m
            d["tau.nx"] = d["tau.ny"] = 2 * m
        return lambda p: d.get(p)
    return mkf


def built_assign(seed):
    m = 1 + hnum(seed, "m", 0, 1)
    d = quarters(seed)
    for k in KIDS:
        c = hnum(seed, k, 0, 3 if m == 1 else 2) if seed % 2 else 0
        d[k + ".nc"] = c
        d[k + ".nx"] = d[k + ".ny"] = m * 2 ** c
        d[k + ".T.nrows_"] = d[k + ".T.ncols_"] = 4 * m
        d["len(" + k + ".h)"] = 4 * m * 2 ** c
    d["tau.H.nrows_"], d["tau.H.ncols_"] = 8 * m, 4 * m
    if hnum(seed, "again", 0, 1):
        d["len(tau.w)"], d["len(tau.h)"] = 4 * m, 8 * m
    d["has(homogeneous-rhs)"], d["opt is bool(homogeneous-rhs)"], d["opt(homogeneous-rhs)"] = True, True, False if seed % 5 else True
    return lambda p: d.get(p)


def split_assign(seed):
    d = quarters(seed)
    c, t = hnum(seed, "c", 0, 2) if seed % 2 else 0, hnum(seed, "t", 0, 2) if seed % 3 else 0
    if t == 2 and seed % 5 == 1:
        t = 3
    m = 2 ** (t - 1) if t >= 2 else 1 + hnum(seed, "m", 0, 2)
    for k in KIDS:
        d[k + ".nc"], d[k + ".nx"], d[k + ".ny"] = c, m * 2 ** c, m * 2 ** c
    d["tau.nc"], d["tau.nx"], d["tau.ny"] = t, 2 * m, 2 * m
    d["len(tau.g)"] = 4 * (2 * m // 2 ** t)
    if hnum(seed, "again", 0, 1):
        for k in KIDS:
            d["len(%s.g)" % k] = 4 * m
    d["tau.S.nrows_"], d["tau.S.ncols_"], d["len(tau.w)"] = 4 * m, 8 * m, 4 * m
    d["has(homogeneous-rhs)"], d["opt is bool(homogeneous-rhs)"], d["opt(homogeneous-rhs)"] = True, True, bool(seed % 4 == 0)
    return lambda p: d.get(p)


FIVE = [P] * 5
ob("C01", "merge of equal siblings", "merge4to1", "h_merge", FIVE, view="o_merge", inputs="i_hps", assign=merge_assign(True))
ob("C04", "merge of unequal siblings", "merge4to1", "h_merge", FIVE, view="o_merge", inputs="i_hps", assign=merge_assign(False))
ob("C02", "upwards pass of four siblings", "upwards4to1", "h_upwards", FIVE, view="o_upwards", inputs="i_hps", assign=built_assign)
ob("C03", "split into four siblings", "split1to4", "h_split", FIVE, view="o_split", inputs="i_hps", assign=split_assign)


# ---------------------------------------------------------------- stages
def keep(e):
    return e.name in ("traverse merge", "traverse split", "merge4to1", "upwards4to1", "split1to4", "leafSolve")


def stage_assign(seed, rect=None):
    n = 1 + seed % 2
    r = 1 + (seed // 2) % 2
    d = {"leaf.nx": n, "leaf.ny": n if rect is None else 1 + hnum(seed, "ny", 0, 2), "root.nx": r, "root.ny": r, "root.T.nrows_": 4 * r, "root.T.ncols_": 4 * r, "len(root.h)": 4 * r}
    if hnum(seed, "again", 0, 1):       # the stage has run before
        a, b = d["leaf.nx"], d["leaf.ny"]
        d.update({"leaf.T.nrows_": 2 * (a + b), "leaf.T.ncols_": 2 * (a + b), "len(leaf.h)": 2 * (a + b), "len(leaf.g)": 2 * (a + b), "len(leaf.f)": a * b, "len(leaf.u)": a * b, "len(root.g)": 4 * r})
    for o, v in (("homogeneous-rhs", bool(seed % 3 == 0)), ("cache-operators", bool(seed % 4 < 2))):
        d["has(%s)" % o] = d["opt is bool(%s)" % o] = True
        d["opt(%s)" % o] = v
    d["has(T_leaf)"] = False
    return lambda p: d.get(p)


def stage(cat, name, code, spec, params, steps=True, **k):
    m = dict(adt.MODELS, **common.STAGES)
    m.update(common.SOLVER)
    if steps:
        m.update(common.STEPS)
    OBS.append(Ob(name, H + code, spec, params, cat=cat, models=m, ops=dict(adt.OPS, **common.OPS), setup=adt.setup, inputs=k.pop("inputs", "i_stage"), view=k.pop("view", "o_stage"), assign=k.pop("assign", stage_assign), keep=keep, **k))


PFN = r"std::function<void\(FiniteVolumePatch&\)>"
stage("stages", "build stage", "buildStage", "h_build", [])
stage("stages", "upwards stage (patch)", "upwardsStage", "h_up_patch", [PFN])
stage("stages", "upwards stage (function)", "upwardsStage", "h_up_fn", [r"std::function<double\(double,double\)>"], assign=lambda seed: stage_assign(seed, True))
stage("stages", "solve stage (patch)", "solveStage", "h_solve_patch", [PFN])
stage("stages", "solve stage (function)", "solveStage", "h_solve_fn", [r"std::function<double\(int,double,double,double\*,double\*\)>"])
stage("stages", "leaf solve", "leafSolve", "h_leaf", ["FiniteVolumePatch"], steps=False, inputs="i_leaf", view="o_leaf")
