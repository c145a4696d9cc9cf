"""C16: options from code, command line and file."""
import re
from .oblig import Ob
from .evalr import hnum
from . import p_life, terms as T
from .terms import mk

E = "EllipticForest::"
OBS = []
INT = re.compile(r"[+-]?[0-9]+")
REAL = re.compile(r"[+-]?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][+-]?[0-9]+)?")


def text_op(rx):
    def h(ip, st, fr, e, args, this):
        v = ip.ev(args[0], st, fr) if not isinstance(args[0], tuple) else args[0][1]
        if v.op == "ptr":
            v = ip.load(st, v)
        r = mk("app", rx, v)
        T.declare_bool(r)
        return "r", r
    return h


OPS = {
    "text-int": lambda c, a, env: bool(INT.fullmatch(c.string(c.ev(a[0], env)))),
    "text-real": lambda c, a, env: bool(REAL.fullmatch(c.string(c.ev(a[0], env)))),
}
MODELS = {"ef_text_int": text_op("text-int"), "ef_text_real": text_op("text-real")}

TEXTS = ["true", "false", "True", "0", "1", "7", "-3", "+4", "12", "007", "0.5", "-1.25", "+.5", "3.", "1e-3", "2E+4", "-1.5e2", "name", "out.vtu", "a b", "1.2.3", "1-2", "--", "-", ".", "e", "", "1e", "e5", "x=1", "5 6", "a=b=c", "2x", "truely",
         "0x10", "1,5", ".e3", "1.0", "12e", "-.", "+", "=", ";x", "[a]", "12345", "\tq"]
NAMES = ["n", "nx", "min-level", "a", "vtk-flag", "b c", "x.y", "tol", ";n", "", "2d", "Xy", "[n"]


def pick(seed, key, xs):
    return xs[hnum(seed, key, 0, len(xs) - 1)]


def text(seed, key):
    k = hnum(seed, (key, "k"), 0, 5)
    if k:
        return pick(seed, key, TEXTS)
    return "".join("0123456789+-.eE ="[hnum(seed, (key, i), 0, 16)] for i in range(hnum(seed, (key, "n"), 0, 6)))


def texts(seed):
    d = {"text": text(seed, "text")}
    return lambda p: d.get(p)


def history(seed):
    d = {k: pick(seed, k, ["n", "nx", ""]) for k in ("k1", "k2", "k3", "key")}
    return lambda p: d.get(p)


def words(seed):
    n = hnum(seed, "argc", 1, 5)
    names = [pick(seed, ("nm", i), NAMES) for i in range(2)]
    d = {"argc": n, "len(*argv)": n}
    for i in range(n):
        nm = names[hnum(seed, ("w", i), 0, 1)]
        v = text(seed, ("v", i))
        d["*argv[%d]" % i] = pick(seed, ("f", i), ["--%s=%s" % (nm, v), "-%s=%s" % (nm, v), "--%s=%s" % (nm, v), "-%s" % nm, "--%s" % nm, "%s=%s" % (nm, v), v, "---%s=%s" % (nm, v), "", "-", "--"])
    d["key"] = names[hnum(seed, "key", 0, 1)]
    d["k0"] = names[hnum(seed, "k0", 0, 1)]
    d["mpi"], d["petsc"] = pick(seed, "libs", [(0, 0), (1, 0), (1, 1)])
    return lambda p: d.get(p)


def pad(seed, key):
    return pick(seed, key, ["", "", "", " ", "\t", "  ", " \t "])


def lines(seed):
    n = hnum(seed, "nl", 0, 7)
    names = [pick(seed, ("nm", i), NAMES) for i in range(2)]
    out = []
    for i in range(n):
        P = lambda j: pad(seed, (i, j))
        nm = names[hnum(seed, ("w", i), 0, 1)]
        v = text(seed, ("v", i))
        k = hnum(seed, ("l", i), 0, 11)
        if i == 0 and hnum(seed, "open", 0, 3):
            k = 0
        ln = (["[EllipticForest]", pick(seed, ("sec", i), ["[Other]", "[]", "[EllipticForest.x]", "[ellipticforest]", "[xEllipticForest]", "[Elliptic]", "[ EllipticForest ]", "[EllipticForest]]"]), "; %s = %s" % (nm, v), "", nm, "[EllipticForest] %s = 1" % nm] + ["%s%s=%s%s" % (nm, P(1), P(2), v)] * 6)[k]
        out.append(P(3) + ln + P(4) + pick(seed, (i, "cr"), ["", "", "\r"]))
    d = {"lines": out, "key": names[hnum(seed, "key", 0, 1)], "k0": names[hnum(seed, "k0", 0, 1)], "filename": pick(seed, "fn", ["a.ini", "run.ini", "./x/options.ini", "a.txt", "options.json", "ini.x"])}
    return lambda p: d.get(p)


def ob(name, about, code, spec, **k):
    k.setdefault("trials", 6.0)
    k["models"] = dict(MODELS, **k.get("models", {}))
    k["ops"] = dict(OPS, **k.get("ops", {}))
    OBS.append(Ob(name, "efs::opts::" + code, "opts::" + spec, None, cat="C16", about=E + about, keep=lambda e: False, **k))


ob("typing of text", "Options::checkValue", "t_text", "r_text", assign=texts, trials=20)
ob("settings in turn", "Options::setOption", "t_history", "r_history", assign=history)
ob("options from a map", "Options::(ctor)", "t_map", "r_map", assign=history)
ob("command line", "InputParser::parse", "t_args", "r_args", assign=words, trials=20)
APP = {k: v for k, v in p_life.MODELS.items() if "InputParser" not in k}
ob("the application's options", "EllipticForestApp::(ctor)", "t_app_args", "r_app_args", assign=words, models=APP, trials=6)
ob("settings from a file", "Options::setFromFile", "t_file", "r_file", assign=lines, trials=20)
