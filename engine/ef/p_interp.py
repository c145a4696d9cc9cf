"""C20: interpolation in tables."""
from .oblig import Ob
from fractions import Fraction
from .evalr import hnum
from . import terms as T

E = "EllipticForest::"
OBS = []


def ob(name, about, code, spec, params=None, **k):
    k.setdefault("trials", 3.0)
    OBS.append(Ob(name, "efs::" + code, spec, params, cat="C20", about=about, **k))


def table(ties):
    """strictly monotone tables of one to nine points; queries inside, outside and (unless excluded) at the table points"""
    def assign(seed):
        n = hnum(seed, "n", 1, 9) if seed % 7 else hnum(seed, "n", 1, 3)
        up = 1 if hnum(seed, "up", 0, 2) else -1
        x = [hnum(seed, "x0", -3, 3)]
        for i in range(1, n):
            x.append(x[-1] + up * hnum(seed, ("dx", i), 1, 3))
        d = {"len(x.data_)": n, "x.size_": n, "len(y.data_)": n, "y.size_": n, "m": hnum(seed, "m", 1, 5)}
        d.update({"x.data_[%d]" % i: v for i, v in enumerate(x)})

        # half of the query sequences wander from interval to interval, the others jump
        at = [hnum(seed, ("q", k), -1, n) for k in range(4)]
        if hnum(seed, "wander", 0, 1):
            for k in range(1, 4):
                at[k] = max(-1, min(n, at[k - 1] + hnum(seed, ("step", k), -2, 2)))

        def q(k):
            i = at[k]
            t = x[max(0, min(n - 1, i))]
            if i < 0:
                return t - up * Fraction(5, 2)
            if i >= n:
                return t + up * Fraction(5, 2)
            return t if ties and hnum(seed, ("tie", k), 0, 2) == 0 else t + up * Fraction(1, 2)
        d.update({"q%d" % k: q(k) for k in range(3)})
        d["len(q.data_)"] = d["q.size_"] = hnum(seed, "nq", 0, 4)
        d.update({"q.data_[%d]" % k: q(k) for k in range(4)})
        return lambda p: d.get(p)
    return assign


ob("linear interpolation", E + "InterpolantBase::operator()", "t_linear", "r_linear", assign=table(True))
ob("linear interpolation of many", E + "InterpolantBase::operator()", "t_many", "r_many", assign=table(True))
ob("window of points", E + "InterpolantBase::locate_", "t_window", "r_window", assign=table(False))
