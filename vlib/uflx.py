"""Symbolic (UFL-side) element descriptions as JSON trees, a builder to
finat.ufl objects, and an independent model of their metadata."""
import math

from hypothesis import strategies as st

import finat.ufl as FU
import ufl.sobolevspace as SB
from ufl.cell import as_cell, TensorProductCell

CELLS = {"vertex": 0, "interval": 1, "triangle": 2, "quadrilateral": 2, "tetrahedron": 3,
         "hexahedron": 3, "prism": 3, "pyramid": 3, "pentatope": 4, "tesseract": 4}
SIMPLICES = ["interval", "triangle", "tetrahedron", "pentatope"]
CUBES = ["interval", "quadrilateral", "hexahedron", "tesseract"]
ANY = list(CELLS)
S1 = SIMPLICES[1:]

# canonical family -> (spellings, value rank, space, mapping, lowest, highest degree, cells)
TABLE = {
    "Lagrange": (["CG", "P"], 0, "H1", "identity", 1, None, ["vertex"] + SIMPLICES + ["prism", "pyramid"]),
    "Discontinuous Lagrange": (["DG", "DP"], 0, "L2", "identity", 0, None, ["vertex"] + SIMPLICES + ["prism", "pyramid"]),
    "Discontinuous Lagrange L2": (["DG L2", "DP L2"], 0, "L2", "L2 Piola", 0, None, ["vertex"] + SIMPLICES + ["prism", "pyramid"]),
    "Q": ([], 0, "H1", "identity", 1, None, CUBES),
    "DQ": ([], 0, "L2", "identity", 0, None, CUBES),
    "DQ L2": ([], 0, "L2", "L2 Piola", 0, None, CUBES),
    "Brezzi-Douglas-Marini": (["BDM", "BDMF", "N2F", "N2div", "Nedelec 2nd kind H(div)"], 1, "HDiv", "contravariant Piola", 1, None, S1),
    "Discontinuous Taylor": (["TDG"], 0, "L2", "identity", 0, None, SIMPLICES),
    "Nedelec 1st kind H(curl)": (["N1curl", "RTE", "N1E"], 1, "HCurl", "covariant Piola", 1, None, S1),
    "Nedelec 2nd kind H(curl)": (["N2curl", "BDME", "N2E"], 1, "HCurl", "covariant Piola", 1, None, S1),
    "Raviart-Thomas": (["RT", "RTF", "N1F", "N1div", "Nedelec 1st kind H(div)"], 1, "HDiv", "contravariant Piola", 1, None, S1),
    "Brezzi-Douglas-Fortin-Marini": (["BDFM"], 1, "HDiv", "contravariant Piola", 1, None, S1),
    "Crouzeix-Raviart": (["CR"], 0, "L2", "identity", 1, 1, S1),
    "Discontinuous Raviart-Thomas": (["DRT"], 1, "L2", "contravariant Piola", 1, None, S1),
    "Kong-Mulder-Veldhuizen": (["KMV"], 0, "H1", "identity", 1, None, S1),
    "Regge": ([], 2, "HEin", "double covariant Piola", 0, None, SIMPLICES),
    "Hellan-Herrmann-Johnson": (["HHJ"], 2, "HDivDiv", "double contravariant Piola", 0, None, ["triangle", "tetrahedron"]),
    "Gopalakrishnan-Lederer-Schoberl 1st kind": (["GLS"], 2, "HCurlDiv", "covariant contravariant Piola", 1, None, S1),
    "Gopalakrishnan-Lederer-Schoberl 2nd kind": (["GLS2"], 2, "HCurlDiv", "covariant contravariant Piola", 0, None, S1),
    "Nonconforming Arnold-Winther": (["AWnc"], 2, "HDiv", "double contravariant Piola", 2, 2, ["triangle"]),
    "Conforming Arnold-Winther": (["AWc"], 2, "HDiv", "double contravariant Piola", 3, None, ["triangle"]),
    "Hu-Zhang": (["HZ"], 2, "HDiv", "double contravariant Piola", 3, None, ["triangle"]),
    "Bernardi-Raugel": (["BR"], 1, "H1", "contravariant Piola", 1, None, S1),
    "Bernardi-Raugel Bubble": (["BRB"], 1, "H1", "contravariant Piola", None, None, S1),
    "Mardal-Tai-Winther": (["MTW"], 1, "H1", "contravariant Piola", 3, 3, ["triangle"]),
    "Hermite": (["HER"], 0, "H1", "custom", 3, 3, SIMPLICES),
    "Argyris": (["ARG"], 0, "H2", "custom", 5, None, ["triangle"]),
    "Bell": (["BELL"], 0, "H2", "custom", 5, 5, ["triangle"]),
    "Morley": (["MOR"], 0, "H2", "custom", 2, 2, ["triangle"]),
    "QuadraticPowellSabin6": (["PS6"], 0, "H2", "custom", 2, 2, ["triangle"]),
    "QuadraticPowellSabin12": (["PS12"], 0, "H2", "custom", 2, 2, ["triangle"]),
    "Hsieh-Clough-Tocher": (["HCT"], 0, "H2", "custom", 3, None, ["triangle"]),
    "Reduced-Hsieh-Clough-Tocher": (["HCT-red"], 0, "H2", "custom", 3, 3, ["triangle"]),
    "Johnson-Mercier": (["JM"], 2, "HDiv", "double contravariant Piola", 1, 1, S1),
    "Arnold-Qin": (["AQ"], 1, "H1", "identity", 2, 2, ["triangle"]),
    "Reduced-Arnold-Qin": (["AQ-red"], 1, "H1", "contravariant Piola", 2, 2, ["triangle"]),
    "Christiansen-Hu": (["CH"], 1, "H1", "contravariant Piola", 1, 1, S1),
    "Alfeld-Sorokina": (["AS"], 1, "H1", "contravariant Piola", 2, 2, S1),
    "Guzman-Neilan 1st kind H1": (["GN"], 1, "H1", "contravariant Piola", 1, None, S1),
    "Guzman-Neilan 2nd kind H1": (["GN2"], 1, "H1", "contravariant Piola", 1, None, S1),
    "Guzman-Neilan H1(div)": (["GNH1div"], 1, "H1", "contravariant Piola", 2, None, S1),
    "Guzman-Neilan Bubble": (["GNB"], 1, "H1", "contravariant Piola", None, None, S1),
    "Boundary Quadrature": (["BQ"], 0, "L2", "identity", 0, None, ANY),
    "Bubble": (["B"], 0, "H1", "identity", 2, None, SIMPLICES),
    "FacetBubble": (["FB"], 0, "H1", "identity", 2, None, SIMPLICES),
    "Quadrature": ([], 0, "L2", "identity", 0, None, ANY),
    "Real": (["R"], 0, "HInf", "identity", 0, 0, ANY),
    "Undefined": (["U"], 0, "L2", "identity", 0, None, ANY),
    "Radau": (["Rad"], 0, "L2", "identity", 0, None, ["interval"]),
    "HDiv Trace": (["HDivT", "DGT", "Discontinuous Lagrange Trace"], 0, "L2", "identity", 0, None, ANY),
    "Gauss-Legendre": (["GL"], 0, "L2", "identity", 0, None, ["interval"]),
    "Gauss-Lobatto-Legendre": (["GLL", "Lob", "Lobatto"], 0, "H1", "identity", 1, None, ["interval"]),
    "Bernstein": ([], 0, "H1", "identity", 1, None, SIMPLICES),
    "RTCE": ([], 1, "HCurl", "covariant Piola", 1, None, ["quadrilateral"]),
    "RTCF": ([], 1, "HDiv", "contravariant Piola", 1, None, ["quadrilateral"]),
    "NCE": ([], 1, "HCurl", "covariant Piola", 1, None, ["hexahedron"]),
    "NCF": ([], 1, "HDiv", "contravariant Piola", 1, None, ["hexahedron"]),
    "S": ([], 0, "H1", "identity", 1, None, CUBES),
    "DPC": ([], 0, "L2", "identity", 0, None, CUBES),
    "DPC L2": ([], 0, "L2", "L2 Piola", 1, None, CUBES),
    "BDMCE": ([], 1, "HCurl", "covariant Piola", 1, None, ["quadrilateral"]),
    "BDMCF": ([], 1, "HDiv", "contravariant Piola", 1, None, ["quadrilateral"]),
    "SminusE": ([], 1, "HCurl", "covariant Piola", 1, None, ["quadrilateral", "hexahedron"]),
    "SminusF": ([], 1, "HDiv", "contravariant Piola", 1, None, ["quadrilateral"]),
    "SminusDiv": ([], 1, "HDiv", "contravariant Piola", 1, None, ["quadrilateral", "hexahedron"]),
    "SminusCurl": ([], 1, "HCurl", "covariant Piola", 1, None, ["quadrilateral", "hexahedron"]),
    "AAE": ([], 1, "HCurl", "covariant Piola", 1, None, ["hexahedron"]),
    "AAF": ([], 1, "HDiv", "contravariant Piola", 1, None, ["hexahedron"]),
    "Gauss-Legendre L2": (["GL L2"], 0, "L2", "L2 Piola", 0, None, ["interval"]),
    "Extended-Gauss-Legendre": (["EGL"], 0, "H1", "identity", 2, None, ["interval"]),
    "Extended-Gauss-Legendre Edge": (["EGL-Edge"], 0, "L2", "identity", 1, None, ["interval"]),
    "Extended-Gauss-Legendre Edge L2": (["EGL-Edge L2"], 0, "L2", "L2 Piola", 1, None, ["interval"]),
    "Gauss-Lobatto-Legendre Edge": (["GLL-Edge"], 0, "L2", "identity", 0, None, ["interval"]),
    "Gauss-Lobatto-Legendre Edge L2": (["GLL-Edge L2"], 0, "L2", "L2 Piola", 0, None, ["interval"]),
    "Direct Serendipity": (["Sdirect"], 0, "H1", "physical", 1, None, ["quadrilateral"]),
    "Direct Serendipity Full H(div)": (["Sdirect H(div)"], 1, "HDiv", "physical", 1, None, ["quadrilateral"]),
    "Direct Serendipity Reduced H(div)": (["Sdirect H(div) red"], 1, "HDiv", "physical", 1, None, ["quadrilateral"]),
}
SPELL = {}
for _f, _r in TABLE.items():
    SPELL[_f] = _f
    for _s in _r[0]:
        SPELL[_s] = _f
# on product cells and on cubes, the simplex names denote the cube families
TO_CUBE = {"Lagrange": "Q", "Discontinuous Lagrange": "DQ", "Discontinuous Lagrange L2": "DQ L2"}
BUBBLY = ("Guzman-Neilan", "Bernardi-Raugel")

# exterior calculus: notation -> k -> (family, degree shift); by dimension
def feec(fam, tdim, r, k):
    """Canonical family and degree of the space of k-forms."""
    l2 = fam.endswith(" L2")
    base = fam[:-3] if l2 else fam
    base = base.replace(" Lambda", "")
    tail = " L2" if l2 else ""
    if k == 0:
        return {"P-": "Lagrange", "P": "Lagrange", "Q-": "Q", "S": "S"}[base], r
    if k == tdim:
        return {"P-": ("Discontinuous Lagrange" + tail, r - 1), "P": ("Discontinuous Lagrange" + tail, r),
                "Q-": ("DQ" + tail, r - 1), "S": ("DPC" + tail, r)}[base]
    if tdim == 2 or k == 1:     # 1-forms are mapped to edge elements
        return {"P-": "Nedelec 1st kind H(curl)", "P": "Nedelec 2nd kind H(curl)",
                "Q-": "RTCE" if tdim == 2 else "NCE", "S": "BDMCE" if tdim == 2 else "AAE"}[base], r
    return {"P-": "Raviart-Thomas", "P": "Brezzi-Douglas-Marini", "Q-": "NCF", "S": "AAF"}[base], r


FEEC = ["P-", "P", "Q-", "S", "P- Lambda", "P Lambda", "Q- Lambda", "S Lambda",
        "P- L2", "P L2", "Q- L2", "S L2", "P- Lambda L2", "P Lambda L2", "Q- Lambda L2", "S Lambda L2"]


def mkcell(c):
    return as_cell(c) if isinstance(c, str) else TensorProductCell(*[mkcell(x) for x in c])


def tdim(c):
    return CELLS[c] if isinstance(c, str) else sum(map(tdim, c))


def ckey(c):
    return c if isinstance(c, str) else tuple(ckey(x) for x in c)


def is_cube(c):
    return not isinstance(c, str) or c in ("quadrilateral", "hexahedron", "tesseract")


def resolve(fam, cell, deg, k=None):
    """Canonical (family, degree) of a spelling on a cell."""
    if k is not None and (fam in FEEC):
        fam, deg = feec(fam, tdim(cell), deg, k)
    fam = SPELL[fam]
    if is_cube(cell):
        fam = TO_CUBE.get(fam, fam)
    return fam, deg


# ---------------------------------------------------------------- trees
def FE(family, cell, degree, variant=None, quad=None, k=None):
    return {"t": "FE", "family": family, "cell": cell, "degree": degree, "variant": variant, "quad": quad, "k": k}


def sym_dict(t):
    s = t["sym"]
    if s is None:
        return {}
    if s == "T":
        n = t["shape"][0]
        return {(i, j): (j, i) for i in range(n) for j in range(n) if i > j}
    return {tuple(a): tuple(b) for a, b in s}


def expand(t):
    """Replace a simple description on a product cell by the equivalent
    combination of descriptions on its factors (one level)."""
    if t["t"] != "FE" or isinstance(t["cell"], str):
        return t
    cell = t["cell"]
    fam, deg = resolve(t["family"], cell, t["degree"], t.get("k"))
    v = t["variant"]

    def fe(f, c, d):
        return FE(f, c, d, v)
    if fam in ("RTCE", "RTCF"):
        w = "HDiv" if fam == "RTCF" else "HCurl"
        c, d = fe("Lagrange", "interval", deg), fe("Discontinuous Lagrange", "interval", deg - 1)
        return {"t": "Enr", "parts": [{"t": w, "of": {"t": "TP", "parts": [c, d], "cell": cell}},
                                      {"t": w, "of": {"t": "TP", "parts": [d, c], "cell": cell}}]}
    if fam in ("NCE", "NCF"):
        w = "HDiv" if fam == "NCF" else "HCurl"
        a, b = (("RTCF", "DQ") if fam == "NCF" else ("Q", "RTCE"))
        c, d = fe("Lagrange", "interval", deg), fe("Discontinuous Lagrange", "interval", deg - 1)
        A = fe(a, "quadrilateral", deg)
        B = fe(b, "quadrilateral", deg - 1 if b == "DQ" else deg)
        return {"t": "Enr", "parts": [{"t": w, "of": {"t": "TP", "parts": [A, d], "cell": cell}},
                                      {"t": w, "of": {"t": "TP", "parts": [B, c], "cell": cell}}]}
    if fam in ("Q", "DQ", "DQ L2"):
        f = {"Q": "Lagrange", "DQ": "Discontinuous Lagrange", "DQ L2": "Discontinuous Lagrange L2"}[fam]
        return {"t": "TP", "parts": [fe(f, c, deg) for c in cell], "cell": cell}
    return t


def children(t):
    return t["parts"] if "parts" in t else ([t["of"]] if "of" in t else [])


def with_children(t, ch):
    t = dict(t)
    if "parts" in t:
        t["parts"] = list(ch)
    elif "of" in t:
        t["of"], = ch
    return t


def identity(t):
    """Canonical identity of the description: equal iff they are the same element."""
    t = expand(t)
    k = t["t"]
    if k == "FE":
        fam, deg = resolve(t["family"], t["cell"], t["degree"], t.get("k"))
        return ("FE", fam, ckey(t["cell"]), deg, t["variant"], t["quad"])
    sub = tuple(identity(c) for c in children(t))
    if k == "Vec":
        dim = t["dim"] if t["dim"] is not None else tdim(cell_of(t))
        return ("Vec", dim) + sub
    if k == "Ten":
        shape = shape_of(t)
        return ("Ten", shape, tuple(sorted(sym_dict(dict(t, shape=shape)).items()))) + sub
    if k == "TP":
        return ("TP", ckey(cell_of(t))) + sub
    if k == "Res":
        return ("Res", t["domain"]) + sub
    if k == "Map":
        return ("Map", t["mapping"]) + sub
    return (k,) + sub


def cell_of(t):
    if t["t"] == "FE":
        return t["cell"]
    if t["t"] == "TP":
        return t["cell"] if t.get("cell") is not None else [cell_of(p) for p in t["parts"]]
    return cell_of(children(t)[0])


def shape_of(t):
    if t["shape"] is None:
        d = tdim(cell_of(t["of"]))
        return (d, d)
    return tuple(t["shape"])


# ---------------------------------------------------------------- builder
def build(t, style=0):
    """style != 0 uses equivalent spellings and operators where there are any."""
    k = t["t"]
    if k == "FE":
        c = t["cell"] if (isinstance(t["cell"], str) and style != 2) else mkcell(t["cell"])
        kw = {}
        if t["variant"] is not None:
            kw["variant"] = t["variant"]
        if t["quad"] is not None:
            kw["quad_scheme"] = t["quad"]
        if t.get("k") is not None:
            kw["form_degree"] = t["k"]
        fam = t["family"]
        if style and t.get("k") is None and fam in SPELL:
            names = [SPELL[fam]] + TABLE[SPELL[fam]][0]
            fam = names[(style + len(names) - 1) % len(names)]
        return FU.FiniteElement(fam, c, t["degree"], **kw)
    if k in ("Vec", "Ten") and style == 1 and t["of"]["t"] == "FE" and isinstance(t["of"]["cell"], str) and \
            t["of"].get("k") is None:
        o = t["of"]
        kw = dict(quad_scheme=o["quad"], variant=o["variant"])
        if k == "Vec":
            return FU.VectorElement(o["family"], o["cell"], o["degree"], dim=t["dim"], **kw)
        return FU.TensorElement(o["family"], o["cell"], o["degree"], shape=_sh(t), symmetry=_sy(t, style), **kw)
    sub = [build(c, style) for c in children(t)]
    if k == "Vec":
        return FU.VectorElement(sub[0], dim=t["dim"])
    if k == "Ten":
        return FU.TensorElement(sub[0], shape=_sh(t), symmetry=_sy(t, style))
    if k == "Mix":
        if style == 1 and len(sub) == 2:
            return sub[0] * sub[1]
        if style == 2:
            return FU.MixedElement(sub)
        return FU.MixedElement(*sub)
    if k == "TP":
        kw = {} if t.get("cell") is None else {"cell": mkcell(t["cell"])}
        if style == 2 and not kw:
            kw = {"cell": mkcell(cell_of(t))}
        return FU.TensorProductElement(*sub, **kw)
    if k == "Enr":
        return sub[0] + sub[1] if style == 1 and len(sub) == 2 else FU.EnrichedElement(*sub)
    if k == "NEnr":
        return FU.NodalEnrichedElement(*sub)
    if k == "Res":
        return sub[0][t["domain"]] if style == 1 else FU.RestrictedElement(sub[0], t["domain"])
    if k == "Brk":
        return FU.BrokenElement(sub[0])
    if k == "HDiv":
        return FU.HDiv(sub[0]) if style == 1 else FU.HDivElement(sub[0])
    if k == "HCurl":
        return FU.HCurl(sub[0]) if style == 1 else FU.HCurlElement(sub[0])
    if k == "Map":
        return FU.WithMapping(sub[0], t["mapping"])
    raise ValueError(k)


def _sh(t):
    return None if t["shape"] is None else tuple(t["shape"])


def _sy(t, style):
    if t["sym"] is None:
        return {} if style == 2 else None
    if t["sym"] == "T" and style != 2:
        return True
    return sym_dict(dict(t, shape=shape_of(t)))


# ---------------------------------------------------------------- metadata model
PARENTS = {"L2": [], "HDiv": ["L2"], "HCurl": ["L2"], "H1": ["HDiv", "HCurl", "L2"],
           "H2": ["H1", "HDiv", "HCurl", "L2"], "HInf": ["H2", "H1", "HDiv", "HCurl", "L2"],
           "HEin": ["L2"], "HDivDiv": ["L2"], "HCurlDiv": ["L2"]}
ORDER = {"H1": 1, "H2": 2, "HInf": math.inf}


def orders(s, n):
    return s[1:] if isinstance(s, tuple) else (ORDER.get(s, 0),) * n


def norm_space(s):
    if isinstance(s, tuple) and len(set(s[1:])) == 1:
        return {0: "L2", 1: "H1", 2: "H2", math.inf: "HInf"}[s[1]]
    return s


def same_space(model, real, n):
    """The real space is the modelled one."""
    m = norm_space(model)
    if isinstance(m, tuple):
        return isinstance(real, SB.DirectionalSobolevSpace) and tuple(real._orders) == m[1:]
    if isinstance(real, SB.DirectionalSobolevSpace):
        return tuple(real._orders) == (ORDER.get(m, 0),) * n and m in ("L2", "H1", "H2", "HInf")
    return real.name == m


def shared_space(spaces, n):
    """Smoothest space that contains all of them."""
    spaces = [norm_space(s) for s in spaces]
    if all(s == spaces[0] for s in spaces):
        return spaces[0]
    if any(isinstance(s, tuple) for s in spaces):
        return ("D",) + tuple(map(min, zip(*[orders(s, n) for s in spaces])))
    com = set.intersection(*[{s} | set(PARENTS[s]) for s in spaces])
    best = [s for s in com if not any(s in PARENTS[q] for q in com)]
    if len(best) != 1:
        return None         # e.g. no smallest space
    return best[0]


def prod(x):
    r = 1
    for v in x:
        r *= v
    return r


def _max(a, b):
    if isinstance(a, tuple) or isinstance(b, tuple):
        a = a if isinstance(a, tuple) else (a,) * len(b)
        b = b if isinstance(b, tuple) else (b,) * len(a)
        return tuple(_max(x, y) for x, y in zip(a, b))
    return max(a, b)


class Meta:
    def __init__(self, **k):
        self.__dict__.update(k)


def meta(t):
    t = expand(t)
    k = t["t"]
    if k == "FE":
        fam, deg = resolve(t["family"], t["cell"], t["degree"], t.get("k"))
        _, rank, space, mapping, lo, hi, cells = TABLE[fam]
        n = tdim(t["cell"])
        sup = sub = deg
        if any(b in fam for b in BUBBLY):
            sup, sub = (n, n) if deg is None else (max(deg, n), min(deg, n))
        if fam in ("BDMCE", "BDMCF"):
            sup = deg + 1
        if fam == "Kong-Mulder-Veldhuizen" and deg > 1:
            sup = deg + (1 if n == 2 and deg < 5 else 2)
        return Meta(cell=t["cell"], family=fam, degree=deg, quad=t["quad"], shape=(n,) * rank, space=space,
                    mapping=mapping, variant=t["variant"], sup=sup, sub=sub, const=(deg == 0), leaf=True)
    ms = [meta(c) for c in children(t)]
    m0 = ms[0]
    c = cell_of(t)
    n = tdim(c)
    var = m0.variant if all(m.variant == m0.variant for m in ms) else None
    sups = [m.sup for m in ms]
    subs = [m.sub for m in ms]
    out = Meta(cell=c, quad=m0.quad, variant=var, leaf=False)
    out.sup = None if None in sups else max(sups)
    out.sub = None if None in subs else min(subs)
    degs = [m.degree for m in ms if m.degree is not None]
    d = degs[0] if degs else None
    for x in degs[1:]:
        d = _max(d, x)
    out.degree = d
    if k in ("Vec", "Ten"):
        out.family, out.mapping, out.space = m0.family, m0.mapping, m0.space
        out.const = m0.const
        if k == "Vec":
            dim = t["dim"] if t["dim"] is not None else n
            out.shape = (dim,) + m0.shape
            out.nsub = dim
            out.block = (dim,)
        else:
            sh = shape_of(t)
            sy = sym_dict(dict(t, shape=sh))
            out.block = sh
            out.nsub = prod(sh) - len(sy)
            out.shape = ((out.nsub,) if sy else sh) + m0.shape
            if sy:
                out.mapping = "symmetries"
    elif k == "Mix":
        out.family = "Mixed"
        out.mapping = "identity" if all(m.mapping == "identity" for m in ms) else "undefined"
        out.space = shared_space([m.space for m in ms], n)
        out.shape = (sum(prod(m.shape) for m in ms),)
        out.const = all(m.const for m in ms)
        out.nsub = len(ms)
    elif k == "TP":
        out.family = "TensorProductElement"
        out.quad = None
        maps = {m.mapping for m in ms}
        out.mapping = maps.pop() if len(maps) == 1 and maps <= {"identity", "L2 Piola"} else "undefined"
        sp = [norm_space(m.space) for m in ms]
        if all(s == sp[0] and isinstance(s, str) for s in sp):
            out.space = sp[0]
        else:
            out.space = ("D",) + sum([tuple(orders(s, tdim(m.cell))) for s, m in zip(sp, ms)], ())
        out.shape = sum([m.shape for m in ms], ())
        out.degree = tuple(m.degree for m in ms)
        out.sup = None if None in sups else sum(sups)
        out.const = all(m.const for m in ms)
        out.nsub = len(ms)
    elif k in ("Enr", "NEnr"):
        out.family = "EnrichedElement" if k == "Enr" else "NodalEnrichedElement"
        out.mapping = m0.mapping
        out.space = shared_space([m.space for m in ms], n)
        out.shape = m0.shape
        qs = [m.quad for m in ms if m.quad is not None]
        out.quad = qs[0] if qs else None
        out.const = all(m.const for m in ms)
    elif k == "Res":
        out.family, out.mapping, out.shape, out.const = "RestrictedElement", m0.mapping, m0.shape, m0.const
        out.space = "L2" if t["domain"] == "interior" else m0.space
    elif k == "Brk":
        out.family, out.mapping, out.shape, out.const = "BrokenElement", m0.mapping, m0.shape, m0.const
        out.space = "L2"
        out.variant = None
    elif k in ("HDiv", "HCurl"):
        out.family = "TensorProductElement"
        out.mapping = "contravariant Piola" if k == "HDiv" else "covariant Piola"
        out.shape = (n,)
        out.space = k
        out.const = m0.const
    elif k == "Map":
        out.family = m0.family
        out.mapping = t["mapping"]
        out.const = m0.const
        out.space = m0.space if m0.mapping == t["mapping"] else "L2"
        if t["mapping"] in ("covariant Piola", "contravariant Piola"):
            out.shape = (n,)
        elif t["mapping"] in ("double covariant Piola", "double contravariant Piola"):
            out.shape = (n, n)
        else:
            out.shape = m0.shape
    return out


# ---------------------------------------------------------------- generators
def degree_of(fam):
    lo, hi = TABLE[fam][4], TABLE[fam][5]
    if lo is None:
        return st.integers(1, 4)
    return st.integers(lo, hi if hi is not None else lo + 4)


def leaf(cell, rank=None, quad=(None,), fams=None, variants=(None, "spectral", "integral", "fdm", "alfeld")):
    names = [f for f in (fams or TABLE) if cell in TABLE[f][6] and (rank is None or TABLE[f][1] == rank)
             and not (is_cube(cell) and f in TO_CUBE)]

    @st.composite
    def go(draw):
        f = draw(st.sampled_from(names))
        s = draw(st.sampled_from([f] + TABLE[f][0]))
        return FE(s, cell, draw(degree_of(f)), draw(st.sampled_from(list(variants))), draw(st.sampled_from(list(quad))))
    return go()


NAMED = ["interval", "triangle", "quadrilateral", "tetrahedron", "hexahedron"]
PRODUCTS = [["interval", "interval"], ["triangle", "interval"], ["quadrilateral", "interval"],
            ["interval", "interval", "interval"], [["interval", "interval"], "interval"]]
PFAMS = ["Q", "DQ", "DQ L2", "CG", "DG", "P", "DG L2"]


@st.composite
def scalar_on(draw, cell, depth=2, quad=None):
    """A scalar-valued description on the given cell."""
    kinds = ["leaf", "leaf"]
    if depth > 0:
        kinds += ["Enr", "Res", "Brk", "NEnr", "Map"]
    if not isinstance(cell, str) and depth > 0:
        kinds += ["TP", "TP"]
    k = draw(st.sampled_from(kinds))
    if k == "leaf":
        if isinstance(cell, str):
            return draw(leaf(cell, 0, (quad,)))
        if draw(st.integers(0, 7)) == 0:
            return FE(draw(st.sampled_from(["Real", "R"])), cell, 0)
        return FE(draw(st.sampled_from(PFAMS)), cell, draw(st.integers(1, 4)), draw(st.sampled_from([None, "spectral", "mse"])))
    if k in ("Enr", "NEnr"):
        parts = [draw(scalar_on(cell, depth - 1, quad)) for _ in range(draw(st.integers(1, 3)))]
        return {"t": k, "parts": parts}
    if k == "TP":
        return {"t": "TP", "parts": [draw(scalar_on(c, depth - 1, None)) for c in cell], "cell": None}
    of = draw(scalar_on(cell, depth - 1, quad))
    if k == "Res":
        return {"t": "Res", "of": of, "domain": draw(st.sampled_from(DOMAINS))}
    if k == "Brk":
        return {"t": "Brk", "of": of}
    return {"t": "Map", "of": of, "mapping": draw(st.sampled_from(["identity", "L2 Piola", "custom", "physical"]))}


DOMAINS = ["interior", "facet", "face", "edge", "vertex", "reduced"]


@st.composite
def tree(draw, cell, depth=3, quad=None):
    """Any description on the given cell."""
    kinds = ["scalar", "scalar", "vleaf"]
    if depth > 0:
        kinds += ["Vec", "Ten", "Mix", "Vec", "Ten", "Res", "Brk", "Map", "Enr"]
        if not isinstance(cell, str) and len(cell) == 2:
            kinds += ["HDiv", "HCurl", "RTC", "RTC"]
    k = draw(st.sampled_from(kinds))
    if k == "scalar":
        return draw(scalar_on(cell, min(depth, 2), quad))
    if k == "vleaf":
        fams = [f for f in TABLE if cell in TABLE[f][6] and TABLE[f][1] > 0] if isinstance(cell, str) else []
        if not fams:
            return draw(scalar_on(cell, 0, quad))
        return draw(leaf(cell, None, (quad,), fams))
    if k == "RTC":
        fam = {1: ["Q"], 2: ["RTCF", "RTCE"], 3: ["NCF", "NCE"]}
        if cell == ["interval", "interval"]:
            f = draw(st.sampled_from(fam[2]))
        elif cell == ["quadrilateral", "interval"]:
            f = draw(st.sampled_from(fam[3]))
        else:
            f = "Q"
        return FE(f, cell, draw(st.integers(1, 4)), draw(st.sampled_from([None, "mse", "spectral"])))
    if k in ("HDiv", "HCurl"):
        return {"t": k, "of": {"t": "TP", "parts": [draw(scalar_on(c, 1)) for c in cell], "cell": None}}
    if k == "Vec":
        return {"t": "Vec", "of": draw(tree(cell, depth - 1, quad)), "dim": draw(st.sampled_from([None, 1, 2, 3, 4]))}
    if k == "Ten":
        of = draw(tree(cell, depth - 1, quad))
        sym = draw(st.sampled_from([None, None, "T", "T", "D"]))
        if sym == "T":
            n = draw(st.integers(1, 3))
            shape = draw(st.sampled_from([None, [n, n]]))
            return {"t": "Ten", "of": of, "shape": shape, "sym": "T"}
        shape = draw(st.sampled_from([None, [2], [3], [2, 2], [2, 3], [3, 3], [2, 2, 2], [1, 2]]))
        if sym == "D":
            shape = shape or [2, 2]
            idx = [()]
            for s in shape:
                idx = [i + (j,) for i in idx for j in range(s)]
            free = sorted(set(draw(st.lists(st.sampled_from(idx), min_size=1, max_size=len(idx)))))
            rest = [i for i in idx if i not in free]
            s = [[list(i), list(draw(st.sampled_from(free)))] for i in rest]
            return {"t": "Ten", "of": of, "shape": shape, "sym": s or None}
        return {"t": "Ten", "of": of, "shape": shape, "sym": None}
    if k == "Mix":
        return {"t": "Mix", "parts": [draw(tree(cell, depth - 1, quad)) for _ in range(draw(st.integers(1, 4)))]}
    if k == "Enr" and isinstance(cell, str) and draw(st.booleans()):
        # vectors of different continuity
        fams = [f for f in TABLE if cell in TABLE[f][6] and TABLE[f][1] == 1]
        part = st.one_of(leaf(cell, 1, (quad,), fams), leaf(cell, 0, (quad,)).map(lambda t: {"t": "Vec", "of": t, "dim": None}))
        if fams:
            return {"t": "Enr", "parts": draw(st.lists(part, min_size=2, max_size=3))}
    if k == "Enr":
        a = draw(tree(cell, depth - 1, quad))
        n = draw(st.integers(1, 3))
        return {"t": "Enr", "parts": [a] + [draw(vary(a)) for _ in range(n - 1)]}
    of = draw(tree(cell, depth - 1, quad))
    if k == "Res":
        return {"t": "Res", "of": of, "domain": draw(st.sampled_from(DOMAINS))}
    if k == "Brk":
        return {"t": "Brk", "of": of}
    return {"t": "Map", "of": of, "mapping": draw(st.sampled_from(
        ["identity", "L2 Piola", "custom", "physical", "covariant Piola", "contravariant Piola",
         "double covariant Piola", "double contravariant Piola"]))}


@st.composite
def vary(draw, t):
    """Same tree with other degrees in the leaves."""
    if t["t"] == "FE":
        f = resolve(t["family"], t["cell"], t["degree"], t.get("k"))[0]
        lo, hi = TABLE[f][4:6]
        lo = 1 if lo is None else lo
        hi = lo + 4 if hi is None else hi
        return dict(t, degree=draw(st.integers(max(lo, 1) if not isinstance(t["cell"], str) and hi > 0 else lo, hi)))
    return with_children(t, [draw(vary(c)) for c in children(t)])


def size(t):
    return 1 + sum(size(c) for c in children(t))


def kinds(t):
    return {t["t"]} | set().union(*[kinds(c) for c in children(t)]) if children(t) else {t["t"]}


def any_cell():
    return st.sampled_from(NAMED + PRODUCTS)


# ---------------------------------------------------------------- observing
def observe(e):
    """Everything a description says about itself, exceptions included."""
    def q(f):
        try:
            return f()
        except RecursionError:
            return "RecursionError"
        except Exception as x:
            return "raises " + type(x).__name__
    out = {"repr": q(lambda: repr(e)), "str": q(lambda: str(e)), "short": q(lambda: e.shortstr()), "type": type(e).__name__}
    for a in ("family", "degree", "quadrature_scheme", "variant", "mapping", "is_cellwise_constant", "_is_linear", "_is_globally_constant"):
        out[a] = q(lambda: getattr(e, a)())
    for a in ("cell", "reference_value_shape", "reference_value_size", "num_sub_elements", "embedded_superdegree", "embedded_subdegree"):
        out[a] = q(lambda: repr(getattr(e, a)))
    out["space"] = q(lambda: (str(e.sobolev_space), type(e.sobolev_space).__name__))
    out["sub"] = q(lambda: [repr(s) for s in e.sub_elements])
    out["pullback"] = q(lambda: repr(e.pullback))
    out["symmetry"] = q(lambda: repr(e.symmetry()))
    out["hash"] = q(lambda: hash(e))
    return out


@st.composite
def mutate(draw, t):
    """A tree that differs from t in one place (or, rarely, is the same)."""
    ch = children(t)
    if ch and draw(st.integers(0, 2)) > 0:
        i = draw(st.integers(0, len(ch) - 1))
        ch = list(ch)
        ch[i] = draw(mutate(ch[i]))
        return with_children(t, ch)
    k = t["t"]
    ops = ["wrap", "wrap"]
    if k == "FE":
        ops = ["degree", "variant", "quad", "family", "wrap"]
    elif k == "Vec":
        ops += ["dim"] * 4
    elif k == "Ten":
        ops += ["shape", "sym", "sym"]
    elif k in ("Mix", "Enr", "NEnr", "TP"):
        ops += ["reorder", "drop", "dup", "swap"]
    elif k in ("Res", "Map"):
        ops += ["attr"] * 3
    elif k in ("HDiv", "HCurl"):
        ops += ["flip"] * 3
    op = draw(st.sampled_from(ops))
    if op == "wrap":
        w = draw(st.sampled_from(["Brk", "Res", "Map", "Vec1", "Mix1", "Enr1"]))
        if w == "Brk":
            return {"t": "Brk", "of": t}
        if w == "Res":
            return {"t": "Res", "of": t, "domain": draw(st.sampled_from(DOMAINS))}
        if w == "Map":
            return {"t": "Map", "of": t, "mapping": "identity"}
        if w == "Vec1":
            return {"t": "Vec", "of": t, "dim": 1}
        return {"t": "Mix" if w == "Mix1" else "Enr", "parts": [t]}
    if op == "degree":
        return dict(t, degree=draw(degree_of(resolve(t["family"], t["cell"], t["degree"], t.get("k"))[0])))
    if op == "variant":
        return dict(t, variant=draw(st.sampled_from([None, "spectral", "equispaced", "mse", "fdm_ipdg"])))
    if op == "quad":
        return dict(t, quad=draw(st.sampled_from([None, "KMV", "canonical"])))
    if op == "family":
        c = t["cell"]
        if not isinstance(c, str):
            return dict(t, family=draw(st.sampled_from(PFAMS)), degree=max(1, t["degree"]))
        return draw(leaf(c, None, (t["quad"],)))
    if op == "dim":
        return dict(t, dim=draw(st.sampled_from([None, 1, 2, 3, 4])))
    if op == "shape":
        return dict(t, shape=draw(st.sampled_from([None, [2], [3], [2, 2], [2, 3], [3, 2], [3, 3]])), sym=None)
    if op == "sym":
        return dict(t, shape=[2, 2], sym=draw(st.sampled_from([None, "T", [[[0, 1], [1, 0]]], [[[1, 1], [0, 0]]]])))
    if op == "reorder":
        return with_children(t, ch[::-1])
    if op == "drop":
        return with_children(t, ch[:-1]) if len(ch) > 1 else t
    if op == "dup":
        return with_children(t, ch + ch[-1:])
    if op == "swap":
        o = {"Mix": "Enr", "Enr": "NEnr", "NEnr": "Enr", "TP": "Mix"}[k]
        return {"t": o, "parts": ch}
    if op == "attr":
        if k == "Res":
            return dict(t, domain=draw(st.sampled_from(DOMAINS)))
        return dict(t, mapping=draw(st.sampled_from(["identity", "L2 Piola", "physical", "custom"])))
    return dict(t, t="HCurl" if k == "HDiv" else "HDiv")


# ---------------------------------------------------------------- concrete elements
CN = {"interval": "I", "triangle": "T", "quadrilateral": "Q", "tetrahedron": "K", "hexahedron": "H"}
LEAF = {
    "Lagrange": "Lagrange", "Discontinuous Lagrange": "DiscontinuousLagrange", "Discontinuous Lagrange L2": "DiscontinuousLagrange",
    "Brezzi-Douglas-Marini": "BrezziDouglasMarini", "Discontinuous Taylor": "DiscontinuousTaylor", "Nedelec 1st kind H(curl)": "Nedelec",
    "Nedelec 2nd kind H(curl)": "NedelecSecondKind", "Raviart-Thomas": "RaviartThomas",
    "Brezzi-Douglas-Fortin-Marini": "BrezziDouglasFortinMarini", "Crouzeix-Raviart": "CrouzeixRaviart",
    "Kong-Mulder-Veldhuizen": "KongMulderVeldhuizen", "Regge": "Regge", "Hellan-Herrmann-Johnson": "HellanHerrmannJohnson",
    "Gopalakrishnan-Lederer-Schoberl 1st kind": "GopalakrishnanLedererSchoberlFirstKind",
    "Gopalakrishnan-Lederer-Schoberl 2nd kind": "GopalakrishnanLedererSchoberlSecondKind",
    "Nonconforming Arnold-Winther": "ArnoldWintherNC", "Conforming Arnold-Winther": "ArnoldWinther", "Hu-Zhang": "HuZhang",
    "Bernardi-Raugel": "BernardiRaugel", "Bernardi-Raugel Bubble": "BernardiRaugelBubble", "Mardal-Tai-Winther": "MardalTaiWinther",
    "Hermite": "Hermite", "Argyris": "Argyris", "Bell": "Bell", "Morley": "Morley", "QuadraticPowellSabin6": "QuadraticPowellSabin6",
    "QuadraticPowellSabin12": "QuadraticPowellSabin12", "Hsieh-Clough-Tocher": "HsiehCloughTocher",
    "Reduced-Hsieh-Clough-Tocher": "ReducedHsiehCloughTocher", "Johnson-Mercier": "JohnsonMercier", "Arnold-Qin": "ArnoldQin",
    "Reduced-Arnold-Qin": "ReducedArnoldQin", "Christiansen-Hu": "ChristiansenHu", "Alfeld-Sorokina": "AlfeldSorokina",
    "Guzman-Neilan 1st kind H1": "GuzmanNeilanFirstKindH1", "Guzman-Neilan 2nd kind H1": "GuzmanNeilanSecondKindH1",
    "Guzman-Neilan H1(div)": "GuzmanNeilanH1div", "Guzman-Neilan Bubble": "GuzmanNeilanBubble", "Bubble": "Bubble",
    "FacetBubble": "FacetBubble", "Real": "Real", "Gauss-Legendre": "GaussLegendre", "Gauss-Lobatto-Legendre": "GaussLobattoLegendre",
    "Gauss-Legendre L2": "GaussLegendre", "Bernstein": "Bernstein", "S": "Serendipity", "DPC": "DPC", "DPC L2": "DPC",
    "BDMCE": "BrezziDouglasMariniCubeEdge", "BDMCF": "BrezziDouglasMariniCubeFace", "SminusE": "TrimmedSerendipityEdge",
    "SminusF": "TrimmedSerendipityFace", "SminusDiv": "TrimmedSerendipityDiv", "SminusCurl": "TrimmedSerendipityCurl",
    "HDiv Trace": "HDivTrace",
}
FACTORED = {"quadrilateral": ["interval", "interval"], "hexahedron": ["quadrilateral", "interval"]}


def spec_of(t):
    """Catalogue specification of the concrete element a tree denotes (None: none known)."""
    k = t["t"]
    if k == "FE":
        fam, deg = resolve(t["family"], t["cell"], t["degree"], t.get("k"))
        c = t["cell"]
        if isinstance(c, str) and c in FACTORED and fam in ("Q", "DQ", "DQ L2", "RTCE", "RTCF", "NCE", "NCF"):
            of = spec_of(dict(t, family=fam, degree=deg, cell=FACTORED[c], k=None))
            return None if of is None else _flat(of)
        if not isinstance(c, str):
            x = expand(t)
            return None if x is t else spec_of(x)
        if fam in ("Q", "DQ", "DQ L2"):
            fam = "Lagrange" if fam == "Q" else "Discontinuous Lagrange"
        if fam not in LEAF or c not in CN:
            return None
        return {"el": LEAF[fam], "cell": CN[c], "deg": deg}
    sub = [spec_of(c) for c in children(t)]
    if any(s is None for s in sub):
        return None
    if k == "TP":
        return {"el": "TPE", "factors": sub}
    if k == "Enr":
        return sub[0] if len(sub) == 1 else {"el": "Enriched", "of": sub}
    if k in ("HDiv", "HCurl"):
        return {"el": k, "of": sub[0]}
    if k == "Vec":
        m = t["dim"] if t["dim"] is not None else tdim(cell_of(t))
        return {"el": "Vec", "of": sub[0], "shape": [m]}
    if k == "Ten" and not sym_dict(dict(t, shape=shape_of(t))):
        return {"el": "Vec", "of": sub[0], "shape": list(shape_of(t))}
    if k == "Mix":
        return {"el": "Mixed", "of": sub} if len(sub) > 1 else None
    if k == "Brk":
        return {"el": "Disc", "of": sub[0]}
    return None


def _flat(s):
    """Flatten a product element to the corresponding cube element."""
    return {"el": "Flat", "of": s}


def rejected(f):
    try:
        f()
    except Exception:
        return True
    return False
