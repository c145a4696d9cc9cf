"""C17: the files of grids, of parallel grids, and the texts of arrays."""
import re
import xml.etree.ElementTree as ET
from .oblig import Ob
from . import adt, flow, p_mesh, p_tree, ranks, stdmodel as S, terms as T
from .terms import mk, num, cint, ZERO
from .p_tree import ev, Forest

E = "EllipticForest::"
P = "efs::vtk::"
OBS = []
MARK = 0x4E00
SECTIONS = ("CellData", "PointData", "PCellData", "PPointData")


def setup(ip):
    ip.files = True
    ip.MAXREC = 9
    # nobody changes it
    ip.rootinit[("g", E + "MPI::HEAD_RANK")] = ZERO


def vals(ip, st, fr, args):
    return [a[1] if isinstance(a, tuple) else ip.ev(a, st, fr) for a in args]


def lit(ip, st, v):
    v = S.as_str(ip, st, v)
    return v.a[0] if v.op == "str" else None


def h_text(ip, st, fr, e, args, this):
    v = vals(ip, st, fr, args)
    return "r", T.cat(T.string("T"), mk("app", "given text", S.as_str(ip, st, v[0]), S.as_str(ip, st, v[1])))


def h_snprintf(ip, st, fr, e, args, this):
    v = vals(ip, st, fr, args)
    n, f = cint(v[1]), lit(ip, st, v[2])
    t, most = S.printf(ip, st, f, v[3:]) if f is not None else (None, None)
    loc, i = S.seq_at(v[0])
    if t is None or n is None or loc is None or i is not ZERO:
        return "r", ip.unk("snprintf")
    if most >= n:
        if t.op != "str":
            return "r", ip.unk("snprintf that may be cut")
        t = T.string(t.a[0][:max(n - 1, 0)])
    ip.store(st, loc, t)
    return "r", T.strlen(t)


def normal(t):
    """what an XML text says: elements, attributes, text; spelled in one way"""
    opaque = []
    s = ""
    for p in (t.a if t.op == "cat" else (t,)):
        if p.op == "str":
            s += p.a[0]
        else:
            if p not in opaque:
                opaque.append(p)
            s += chr(MARK + opaque.index(p))
    try:
        out = spell(ET.fromstring(s.encode("utf-8")))
    except ET.ParseError as x:
        out = "malformed: " + s
    parts = []
    for c in re.split("([%s-%s])" % (chr(MARK), chr(MARK + 0x1000)), out):
        parts.append(opaque[ord(c) - MARK] if len(c) == 1 and 0 <= ord(c) - MARK < len(opaque) else T.string(c))
    return T.cat(*parts)


def words(s):
    return " ".join((s or "").split())


def spell(x):
    r = "<" + x.tag + "".join(' %s="%s"' % (k, words(v)) for k, v in sorted(x.attrib.items())) + ">" + words(x.text)
    for c in x:
        if c.tag in SECTIONS and not c.attrib and not len(c) and not words(c.text):
            continue
        r += spell(c) + words(c.tail)
    return r + "</" + x.tag + ">"


def h_files(ip, st, fr, e, args, this):
    """every file there is"""
    f = S.files(ip, st)
    got = {}
    while f.op == "mapst":
        if f.a[1].op != "str":
            ev(ip, st, e, "ef_file", ip.unk("file whose name is not a constant"))
            return "r", flow.UNIT
        got.setdefault(f.a[1].a[0], f.a[2])
        f = f.a[0]
    if f.op != "map0":
        ev(ip, st, e, "ef_file", ip.unk("files " + str(f)[:300]))
        return "r", flow.UNIT
    for k in sorted(got):
        ev(ip, st, e, "ef_file", T.string(k), normal(got[k]))
    return "r", flow.UNIT


def o_given(ctx, a, env):
    return "\u00ab%s %s\u00bb" % (ctx.string(ctx.ev(a[0], env)), ctx.string(ctx.ev(a[1], env)))


def models(n=1, counts=None, names=None, forest=None):
    counts = counts or {}
    names = names or {}
    m = p_tree.models(lambda: [forest or Forest([], [1] + [0] * (n - 1))])
    m.update({"ef_text": h_text, "ef_files": h_files, "snprintf": h_snprintf,
              "ef_n": lambda ip, st, fr, e, args, this: ("r", num(counts.get(lit(ip, st, vals(ip, st, fr, args)[0]), 0))),
              "ef_name": lambda ip, st, fr, e, args, this: ("r", T.string(names[lit(ip, st, vals(ip, st, fr, args)[0])])),
              "ef_ranks": lambda ip, st, fr, e, args, this: ("r", num(n))})
    return m


def ob(name, about, code, ref=None, n=1, counts=None, names=None, **k):
    k.setdefault("trials", 0.3)
    k.setdefault("models", models(n, counts, names))
    OBS.append(Ob(name, P + "t_" + code, "vtk::r_" + (ref or code), None, cat="C17", about=E + about, setup=setup, ops={"given text": o_given}, keep=k.pop("keep", lambda e: e.name == "ef_file"), **k))


ob("trees of elements", "XMLTree::write", "tree")
ob("a deep tree of elements", "XMLTree::write", "deep")
for x, y, z, c, p in ((1, 1, 1, 0, 0), (1, 1, 0, 1, 0), (0, 1, 0, 0, 2), (0, 0, 1, 2, 1), (1, 0, 0, 0, 1), (0, 0, 0, 3, 3)):
    ob("rectilinear grid, coordinates %d%d%d, %d cell and %d point arrays" % (x, y, z, c, p), "RectilinearGridVTK::toVTK", "box", counts=dict(x=x, y=y, z=z, cells=c, points=p))
ob("rectilinear grid written and built again", "RectilinearGridVTK::toVTK", "box_again")
ob("rectilinear grid without coordinates", "RectilinearGridVTK::toVTK", "box_null")
ob("rectilinear grid that was not built", "RectilinearGridVTK::toVTK", "box_none", "none")
for c, p in ((0, 0), (1, 0), (0, 1), (2, 3), (3, 1)):
    ob("unstructured grid, %d cell and %d point arrays" % (c, p), "UnstructuredGridVTK::toVTK", "grid", counts=dict(cells=c, points=p))
ob("unstructured grid written and built again", "UnstructuredGridVTK::toVTK", "grid_again")
ob("unstructured grid that was not built", "UnstructuredGridVTK::toVTK", "grid_none", "none")
BASES = {"out": "a name", "100%done_%s": "a name with percent signs", "dir.d/out": "a directory", "n" * 300: "a long name"}
for n, c, p, t in ((1, 0, 0, 1), (2, 1, 0, 1), (3, 0, 2, 2), (12, 1, 1, 1)):
    for b in BASES:
        if n in (1, 12) and b != "out":
            continue
        ob("index of %d pieces, %d cell and %d point arrays, %s" % (n, c, p, BASES[b]), "PUnstructuredGridVTK::toVTK", "index", n=n, counts=dict(cells=c, points=p, times=t), names={"base": b})
ob("index built again", "PUnstructuredGridVTK::toVTK", "index_again", n=2)
ob("index on the default communicator", "PUnstructuredGridVTK::toVTK", "index_default", "index", n=2, counts=dict(cells=1, points=1), names={"base": "out"})
ob("index on one's own communicator", "PUnstructuredGridVTK::toVTK", "index_self", n=3, counts=dict(cells=1, points=1), names={"base": "out"})
ob("index on another communicator", "PUnstructuredGridVTK::toVTK", "index_split", n=4, counts=dict(cells=1, points=1), names={"base": "out"})
for what, about, code in (("text of reals", "getData", "data"), ("least of reals", "getRangeMin", "least"), ("most of reals", "getRangeMax", "most")):
    ob(what, "Vector<double>::" + about, code, trials=3)
    ob(what.replace("reals", "integers"), "Vector<int>::" + about, code + "i", trials=3)
ob("labels of an array", "Vector<double>::getName", "labels", trials=3)


# ---------------------------------------------------------------- the files of a mesh
def h_vtk_new(ip, st, fr, e, args, this):
    v = vals(ip, st, fr, args)
    if ip.load(st, T.mk("ptr", v[0].a[0], v[0].a[1] + (("f", "local_num_quadrants"),)) if v[0].op == "ptr" else v[0]) is not num(ip.forest.counts[ranks.of(ip).rank]):
        return "r", ip.unk("a file of another forest")
    root = ip.newroot("o")
    st.mem[root] = T.struct("vtk context", {"name": S.as_str(ip, st, v[1]), "scale": T.div(num(95), num(100)), "header": ZERO})
    return "r", mk("ptr", root, ())


def h_vtk_scale(ip, st, fr, e, args, this):
    v = vals(ip, st, fr, args)
    ip.store(st, ip.extend(v[0], ("f", "scale")), v[1])
    return "r", flow.UNIT


def h_vtk_header(ip, st, fr, e, args, this):
    v = vals(ip, st, fr, args)
    ip.store(st, ip.extend(v[0], ("f", "header")), num(1))
    return "r", v[0]


def h_vtk_footer(ip, st, fr, e, args, this):
    c = ip.load(st, vals(ip, st, fr, args)[0])
    if cint(T.fld(c, "header")) == 1:
        ev(ip, st, e, "ef_forest_file", T.fld(c, "name"), T.fld(c, "scale"))
    return "r", ZERO


def of_vector(what):
    def h(ip, st, fr, e, args, this):
        v = ip.load(st, this)
        return "r", T.cat(T.string("T"), mk("app", what, T.fld(v, "data_") if v.op == "struct" else v))
    return h


def mesh_models(forest):
    m = p_mesh.models(forest, 1, 2)
    m.update({"EllipticForest::Vector<%s>::%s" % (t, n): of_vector(n) for n in ("getData", "getRangeMin", "getRangeMax") for t in ("double", "int")})
    m.update({"ef_files": h_files, "snprintf": h_snprintf, "ef_forest_file": p_tree.logged("ef_forest_file"), "p4est_vtk_context_new": h_vtk_new, "p4est_vtk_context_set_scale": h_vtk_scale, "p4est_vtk_write_header": h_vtk_header, "p4est_vtk_write_footer": h_vtk_footer})
    return m


def mesh_setup(ip):
    adt.setup(ip)
    setup(ip)


for what, f in (("one leaf", Forest([])), ("one level on 2 ranks", Forest(["0"], [1, 3])), ("two levels on 3 ranks", Forest(["0", "01"], [2, 3, 2]))):
    OBS.append(Ob("files of a mesh, " + what, "efs::mesh::t_files", "mesh::r_files", None, cat="C17", about=E + "Mesh<efs::mesh::Patch>::toVTK", setup=mesh_setup, ops={"given text": o_given}, models=mesh_models(f), obs=["ret"], trials=0.3,
                  keep=lambda e: e.name in ("ef_file", "ef_forest_file")))
