"""Independent finite-element reference (numpy only; quadrature rules from basix).

Shape functions come from inverting Vandermonde matrices on the VTK/meshio reference
nodes, so node ordering, serendipity spaces, gradients and face data are all derived
here without using any code of the repository."""
import itertools

import numpy as np

QUAD = np.array([[0, 0], [1, 0], [1, 1], [0, 1]], float)
HEX = np.array([[0, 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0], [0, 0, 1], [1, 0, 1], [1, 1, 1], [0, 1, 1]], float)
TRI = np.array([[0, 0], [1, 0], [0, 1]], float)
TET = np.array([[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1]], float)
TRI_E = [(0, 1), (1, 2), (2, 0)]
TET_E = [(0, 1), (1, 2), (2, 0), (0, 3), (1, 3), (2, 3)]
QUAD_E = [(0, 1), (1, 2), (2, 3), (3, 0)]
HEX_E = [(0, 1), (1, 2), (2, 3), (3, 0), (4, 5), (5, 6), (6, 7), (7, 4), (0, 4), (1, 5), (2, 6), (3, 7)]
TRI_F = TRI_E
QUAD_F = QUAD_E
TET_F = [(0, 1, 2), (0, 1, 3), (0, 2, 3), (1, 2, 3)]
HEX_F = [(0, 1, 2, 3), (4, 5, 6, 7), (0, 1, 5, 4), (1, 2, 6, 5), (2, 3, 7, 6), (3, 0, 4, 7)]


def _mid(v, e):
    return np.array([(v[a] + v[b]) / 2 for a, b in e])


def _total(d, p):
    return [m for m in itertools.product(range(p + 1), repeat=d) if sum(m) <= p]


def _tensor(d, p):
    return list(itertools.product(range(p + 1), repeat=d))


def _seren(d):
    # superlinear degree <= 2
    return [m for m in itertools.product(range(3), repeat=d) if sum(x for x in m if x > 1) <= 2]


ELE = {
    "TRI3": (TRI, _total(2, 1), "tri"),
    "TRI6": (np.vstack([TRI, _mid(TRI, TRI_E)]), _total(2, 2), "tri"),
    "QUAD4": (QUAD, _tensor(2, 1), "quad"),
    "QUAD8": (np.vstack([QUAD, _mid(QUAD, QUAD_E)]), _seren(2), "quad"),
    "QUAD9": (np.vstack([QUAD, _mid(QUAD, QUAD_E), [[.5, .5]]]), _tensor(2, 2), "quad"),
    "TET4": (TET, _total(3, 1), "tet"),
    "TET10": (np.vstack([TET, _mid(TET, TET_E)]), _total(3, 2), "tet"),
    "HEX8": (HEX, _tensor(3, 1), "hex"),
    "HEX20": (np.vstack([HEX, _mid(HEX, HEX_E)]), _seren(3), "hex"),
}
DEFAULT_ORDER = {"HEX8": 2, "HEX20": 2, "TET4": 0, "TET10": 2, "QUAD4": 2, "QUAD8": 2, "QUAD9": 4, "TRI3": 0, "TRI6": 2}
CORNERS = {"tri": 3, "quad": 4, "tet": 4, "hex": 8}
FACES = {"tri": TRI_F, "quad": QUAD_F, "tet": TET_F, "hex": HEX_F}
VERT = {"tri": TRI, "quad": QUAD, "tet": TET, "hex": HEX}
DIM = {"tri": 2, "quad": 2, "tet": 3, "hex": 3}


def _mono(exps, pts):
    return np.stack([np.prod(pts ** np.array(e), axis=1) for e in exps], axis=1)


def _dmono(exps, pts):
    n, d = pts.shape
    out = np.zeros((n, len(exps), d))
    for j, e in enumerate(exps):
        for k in range(d):
            if e[k] == 0:
                continue
            f = np.array(e, float)
            f[k] -= 1
            out[:, j, k] = e[k] * np.prod(pts ** f, axis=1)
    return out


def _d2mono(exps, pts):
    n, d = pts.shape
    out = np.zeros((n, len(exps), d, d))
    for j, e in enumerate(exps):
        for k in range(d):
            for l in range(d):
                f = np.array(e, float)
                c = f[k]
                f[k] -= 1
                if c == 0:
                    continue
                c = c * f[l]
                f[l] -= 1
                if c == 0:
                    continue
                out[:, j, k, l] = c * np.prod(pts ** f, axis=1)
    return out


_V = {}


def shapes(ele, pts):
    nodes, exps, _ = ELE[ele]
    if ele not in _V:
        _V[ele] = np.linalg.inv(_mono(exps, nodes))
    pts = np.asarray(pts, float)
    return _mono(exps, pts) @ _V[ele]


def dshapes(ele, pts):
    shapes(ele, ELE[ele][0][:1])
    return np.einsum("qmd,ma->qad", _dmono(ELE[ele][1], np.asarray(pts, float)), _V[ele])


def d2shapes(ele, pts):
    shapes(ele, ELE[ele][0][:1])
    return np.einsum("qmde,ma->qade", _d2mono(ELE[ele][1], np.asarray(pts, float)), _V[ele])


def quad_rule(shape, degree):
    import basix
    ct = dict(tri=basix.CellType.triangle, quad=basix.CellType.quadrilateral, tet=basix.CellType.tetrahedron,
              hex=basix.CellType.hexahedron, line=basix.CellType.interval)[shape]
    return basix.make_quadrature(ct, degree)


FACE_SHAPE = {"tri": "line", "quad": "line", "tet": "tri", "hex": "quad"}


class Geo:
    """Per-cell geometric data of a mesh for one quadrature degree."""

    def __init__(self, points, cells, ele, degree=None):
        self.points = np.asarray(points, float)
        self.cells = np.asarray(cells)
        self.ele = ele
        self.shape = ELE[ele][2]
        self.dim = DIM[self.shape]
        self.points = self.points[:, :self.dim]
        self.degree = DEFAULT_ORDER[ele] if degree is None else degree
        self.qp, self.qw = quad_rule(self.shape, self.degree)
        self.N = shapes(ele, self.qp)                       # (q,a)
        dN = dshapes(ele, self.qp)                          # (q,a,d)
        X = self.points[self.cells]                         # (c,a,d)
        J = np.einsum("cai,qaj->cqij", X, dN)
        self.detJ = np.linalg.det(J)
        self.JxW = self.detJ * self.qw
        self.dN = np.einsum("qaj,cqji->cqai", dN, np.linalg.inv(J))
        self.x = np.einsum("qa,cai->cqi", self.N, X)

    def face_nodes_corner(self):
        return FACES[self.shape]

    def selected_faces(self, *preds):
        """(cell, local face) with every corner node satisfying all predicates."""
        out = []
        for c, cell in enumerate(self.cells):
            for f, fn in enumerate(FACES[self.shape]):
                ok = True
                for a in fn:
                    for p in preds:
                        if not p(self.points[cell[a]], cell[a]):
                            ok = False
                            break
                    if not ok:
                        break
                if ok:
                    out.append((c, f))
        return out

    def face_rule(self, f, degree=None):
        """Reference points on face f, weights and tangent map (ref)."""
        degree = self.degree if degree is None else degree
        p, w = quad_rule(FACE_SHAPE[self.shape], degree)
        v = VERT[self.shape][list(FACES[self.shape][f])]
        if self.dim == 2:
            pts = v[0] + p[:, :1] * (v[1] - v[0])
            T = [(v[1] - v[0])]
        elif self.shape == "tet":
            pts = v[0] + p[:, :1] * (v[1] - v[0]) + p[:, 1:] * (v[2] - v[0])
            T = [v[1] - v[0], v[2] - v[0]]
        else:
            pts = v[0] + p[:, :1] * (v[1] - v[0]) + p[:, 1:] * (v[3] - v[0])
            T = [v[1] - v[0], v[3] - v[0]]
        return pts, w, np.array(T)

    def face_data(self, c, f, degree=None):
        """N (q,a), dA (q,), x (q,d) on face f of cell c (true surface measure)."""
        pts, w, T = self.face_rule(f, degree)
        N = shapes(self.ele, pts)
        dN = dshapes(self.ele, pts)
        X = self.points[self.cells[c]]
        J = np.einsum("ai,qaj->qij", X, dN)
        t = np.einsum("qij,kj->qki", J, T)
        if self.dim == 2:
            dA = np.linalg.norm(t[:, 0], axis=1)
        else:
            dA = np.linalg.norm(np.cross(t[:, 0], t[:, 1]), axis=1)
        return N, dA * w, N @ X


def csr_dense(A):
    """Dense array of whatever sparse matrix object the library returned."""
    for name in ("todense", "toarray"):
        if hasattr(A, name):
            return np.asarray(getattr(A, name)())
    return np.asarray(A)
