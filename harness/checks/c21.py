"""C21: written result files read back as exactly what was computed."""
import os
import shutil
import tempfile
import xml.etree.ElementTree as ET

import numpy as np

from harness import ref, wl
from harness.lazy import fe, jnp
from harness.mon import rng_for

ID = "C21"
RULE = ("random meshes of every element type (2-D, 3-D, 3-D surfaces), random sets of point and cell fields of every accepted shape, dtype and "
        "container, random write sequences (1..12 frames, rejected frames, exceptions inside the block, overwritten files); every file re-read "
        "with independent readers (meshio, VTK's own XML and XDMF readers, raw XML + HDF5); distinct by (writer, element type, field shape, history)")
ASSUMPTIONS = ["field values are stored in single precision (documented), so values are compared after rounding to float32"]
MIN_EVALUATIONS = 300

ELES = ("TRI3", "QUAD4", "TET4", "HEX8", "TRI6", "QUAD8", "QUAD9", "TET10", "HEX20")
MESHIO = {"TRI3": "triangle", "TRI6": "triangle6", "QUAD4": "quad", "QUAD8": "quad8", "QUAD9": "quad9", "TET4": "tetra", "TET10": "tetra10", "HEX8": "hexahedron", "HEX20": "hexahedron20"}
VTK = {"TRI3": 5, "QUAD4": 9, "TET4": 10, "HEX8": 12, "TRI6": 22, "QUAD8": 23, "QUAD9": 28, "TET10": 24, "HEX20": 25}


def cases(tier, seed):
    out = []
    q = tier == "quick"
    for r in range(3 if q else 12):
        for ele in ELES:
            out.append(dict(kind="saved", ele=ele, r=r, cost=1))
    for r in range(2 if q else 10):
        for ele in ELES:
            out.append(dict(kind="series", ele=ele, r=r, cost=1))
    for r in range(6 if q else 20):
        out.append(dict(kind="history", ele=ELES[(r * 5 + seed) % len(ELES)], r=r, cost=1))
    for r in range(2 if q else 6):
        out.append(dict(kind="solved", r=r, cost=4))
    return [dict(c, seed=seed, i=n) for n, c in enumerate(out)]


def mesh_of(rng, ele, surface=False):
    dim = ref.DIM[ref.ELE[ele][2]] if ele != "QUAD9" else 2
    base = "QUAD8" if ele == "QUAD9" else ele
    pts, cells = wl.make_mesh(rng, base, tuple(int(v) for v in rng.integers(1, 4, dim)), size=rng.uniform(0.5, 2, dim), origin=rng.normal(size=dim), distort=0.1)
    cells = np.asarray(cells)
    if ele == "QUAD9":
        mid = ref.shapes("QUAD8", np.array([[0.5, 0.5]]))[0]
        extra = np.einsum("a,cad->cd", mid, pts[cells])
        cells = np.hstack([cells, len(pts) + np.arange(len(cells))[:, None]])
        pts = np.vstack([pts, extra])
    if surface and dim == 2:
        pts = np.hstack([pts, np.sin(2 * pts[:, :1])])
    return pts * float(10.0 ** rng.choice([-6, -3, 0, 0, 3])), cells


def fields(rng, n, k, dims, prefix):
    out = []
    for j in range(k):
        shape = dims[int(rng.integers(len(dims)))]
        x = rng.normal(size=(n,) + shape) * 10.0 ** float(rng.choice([-12, -3, 0, 6]))
        dt = str(rng.choice(["f64", "f32", "int", "bool", "jax"]))
        if dt == "f32":
            x = x.astype(np.float32)
        elif dt == "int":
            x = rng.integers(-50, 50, x.shape)
        elif dt == "bool":
            x = rng.integers(0, 2, x.shape).astype(bool)
        name = prefix + ["u", "von Mises", "sigma_xx", "Dichte-\u03c1", "E(1)"][j % 5] + str(j)
        out.append((name, jnp.asarray(x) if dt == "jax" else x, np.asarray(x).astype(np.float32), shape, dt))
    return out


def pad3(p):
    return np.hstack([p, np.zeros((len(p), 3 - p.shape[1]))])


def flat(x):
    return np.asarray(x).reshape(len(x), -1)


def case_saved(case, mon):
    import meshio
    import pyvista as pv
    rng = rng_for(case)
    ele = case["ele"]
    d = tempfile.mkdtemp(prefix="verif_c21_")
    try:
        pts, cells = mesh_of(rng, ele, surface=case["r"] % 3 == 2)
        mesh = wl.fmesh(pts, cells, ele) if rng.integers(0, 2) else fe.Mesh(pts.copy(), cells.copy(), ele_type=ele)
        pf = fields(rng, len(pts), int(rng.integers(0, 4)), [(), (1,), (2,), (3,), (3, 3), (2, 2), (6,)], "p ")
        cf = fields(rng, len(cells), int(rng.integers(0 if pf else 1, 4)), [(), (1,), (2,), (3,), (3, 3), (2, 2), (5,)], "c ")
        # overwriting an older, longer file leaves nothing of it behind; directories are created
        path = os.path.join(d, "new", "dir", f"out{case['r']}.vtu")
        for _ in range(1 + int(rng.integers(0, 2))):
            fe.utils.save_sol(mesh, path, cell_infos=[f[:2] for f in cf] or None, point_infos=[f[:2] for f in pf] or None)
        m = meshio.read(path)
        mon.close("saved.nodes", m.points, pad3(pts), rtol=1e-12, ele=ele)
        mon.true("saved.one-block", [b.type for b in m.cells] == [MESHIO[ele]], got=[b.type for b in m.cells], ele=ele)
        mon.equal("saved.cells", np.asarray(m.cells[0].data), cells, ele=ele)
        mon.true("saved.names", sorted(m.point_data) == sorted(f[0] for f in pf) and sorted(m.cell_data) == sorted(f[0] for f in cf))
        for nm, _, want, shape, dt in pf:
            mon.equal("saved.point-field", flat(m.point_data[nm]), flat(want), shape=shape, dt=dt)
            mon.seen("point", ele, shape, dt)
        for nm, _, want, shape, dt in cf:
            mon.equal("saved.cell-field", flat(m.cell_data[nm][0]), flat(want), shape=shape, dt=dt)
            mon.seen("cell", ele, shape, dt)
        g = pv.read(path)
        mon.true("saved.vtk-type", set(int(t) for t in g.celltypes) == {VTK[ele]}, ele=ele, got=str(set(g.celltypes)))
        mon.close("saved.vtk-nodes", np.asarray(g.points, float), pad3(pts), rtol=1e-6, scale=np.abs(pts).max())
        for nm, _, want, shape, dt in pf:
            mon.equal("saved.vtk-field", flat(g.point_data[nm]), flat(want), shape=shape)
        # VTK's own idea of the cells: mid-side nodes between the ends of their edge, positive size
        if case["r"] % 3 != 2:
            sz = g.compute_cell_sizes()
            meas = np.asarray(sz.cell_data["Volume" if pts.shape[1] == 3 else "Area"])
            geo = ref.Geo(pts, cells[:, :8] if ele == "QUAD9" else cells, "QUAD8" if ele == "QUAD9" else ele, 4)
            mon.close("saved.vtk-size", meas, geo.JxW.sum(axis=1), rtol=2e-5, scale=float(geo.JxW.sum(axis=1).max()), ele=ele)
        if ele in ("TRI6", "QUAD8", "QUAD9", "TET10", "HEX20") and case["r"] % 3 != 2:
            bad = 0.0
            c = g.GetCell(int(rng.integers(len(cells))))
            for e in range(c.GetNumberOfEdges()):
                q = [np.array(c.GetEdge(e).GetPoints().GetPoint(k)) for k in range(3)]
                bad = max(bad, np.linalg.norm(q[2] - (q[0] + q[1]) / 2) / np.linalg.norm(q[1] - q[0]))
            mon.true("saved.vtk-edges", bad < 1e-4, ele=ele, bad=bad)
        mon.equal("saved.untouched", np.asarray(mesh.cells), cells)
        n = len(pts)
        mon.raises("saved.nothing", lambda: fe.utils.save_sol(mesh, path), ValueError)
        mon.raises("saved.bad-length", lambda: fe.utils.save_sol(mesh, path, point_infos=[("x", np.zeros(n + 1))]), ValueError)
        mon.raises("saved.bad-cell-length", lambda: fe.utils.save_sol(mesh, path, cell_infos=[("x", np.zeros((len(cells) + 2, 3)))]), ValueError)
        mon.event("files read back")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def read_raw(path):
    """[(time, topology type, cells, points, {(center, name): (type, array)})] from the XML index and its HDF5 file."""
    import h5py
    out = []
    root = ET.parse(path).getroot()

    def item(node):
        di = node.find("DataItem")
        f, p = di.text.strip().split(":", 1)
        with h5py.File(os.path.join(os.path.dirname(path), f), "r") as h:
            x = h[p][()]
        dims = tuple(int(v) for v in di.get("Dimensions").split())
        assert int(np.prod(dims)) == x.size, (dims, x.shape)
        return x.reshape(dims), di
    for g in root.find("Domain").find("Grid").findall("Grid"):
        topo = g.find("Topology")
        cells, _ = item(topo)
        assert int(topo.get("NumberOfElements")) == len(cells)
        pts, _ = item(g.find("Geometry"))
        att = {}
        for a in g.findall("Attribute"):
            x, _ = item(a)
            att[a.get("Center"), a.get("Name")] = (a.get("AttributeType"), x)
        out.append((float(g.find("Time").get("Value")), topo.get("TopologyType"), cells, pts, att, g.find("Geometry").get("GeometryType")))
    return out


TOPO = {"TRI3": ("Triangle",), "QUAD4": ("Quadrilateral",), "TET4": ("Tetrahedron",), "HEX8": ("Hexahedron",), "TRI6": ("Triangle_6", "Tri_6"),
        "QUAD8": ("Quadrilateral_8", "Quad_8"), "QUAD9": ("Quadrilateral_9", "Quad_9"), "TET10": ("Tetrahedron_10", "Tet_10"), "HEX20": ("Hexahedron_20", "Hex_20")}
ATT = {1: "Scalar", 2: "Vector", 3: "Vector", 6: "Tensor6", 9: "Tensor"}
SHAPES = [(), (1,), (2,), (3,), (6,), (9,), (3, 3), (2, 2)]


def series_want(want):
    w = np.asarray(want)
    if w.shape[1:] == (2, 2):
        z = np.zeros((len(w), 3, 3), np.float32)
        z[:, :2, :2] = w
        w = z
    return flat(w)


def check_series(mon, path, ele, pts, cells, frames, tag):
    """frames: [(time, point fields, cell fields)] as accepted by the writer."""
    raw = read_raw(path)
    mon.true("series.count", len(raw) == len(frames), got=len(raw), want=len(frames), tag=tag)
    mon.equal("series.times", np.array([r[0] for r in raw]), np.array([f[0] for f in frames], float), tag=tag)
    for (t, topo, c, p, att, gt), (_, pf, cf) in zip(raw, frames):
        mon.true("series.topology", topo in TOPO[ele], got=topo, ele=ele)
        mon.true("series.geometry", gt == ("XY" if pts.shape[1] == 2 else "XYZ"))
        mon.equal("series.cells", c, cells, ele=ele)
        mon.equal("series.nodes", p, pts, ele=ele)
        mon.true("series.names", set(att) == {("Node", f[0]) for f in pf} | {("Cell", f[0]) for f in cf}, got=str(sorted(att)))
        for center, fs in (("Node", pf), ("Cell", cf)):
            for nm, _, want, shape, dt in fs:
                ty, x = att[center, nm]
                w = series_want(want)
                mon.equal("series.field", x, w, center=center, shape=shape, dt=dt, tag=tag)
                mon.true("series.attribute", ty == ATT[w.shape[1]], got=ty, shape=shape)
                mon.seen("series", ele, center, shape, dt)
    return raw


def case_series(case, mon):
    rng = rng_for(case)
    ele = case["ele"]
    d = tempfile.mkdtemp(prefix="verif_c21_")
    try:
        pts, cells = mesh_of(rng, ele, surface=bool(rng.integers(0, 2)))
        mesh = wl.fmesh(pts, cells, ele)
        path = os.path.join(d, str(rng.choice(["sub", "run.xdmf.d", "a.b"])), str(rng.choice(["h.xdmf", "step.1.xdmf", "a b.xdmf"])))
        np_, nc = int(rng.integers(0, 3)), int(rng.integers(0, 3))
        names_seed = int(rng.integers(1 << 30))
        frames, t = [], float(rng.uniform(-1, 1))
        with fe.utils.XDMFWriter(mesh, path) as w:
            for k in range(int(rng.integers(1, 12))):
                r2 = np.random.default_rng(names_seed)
                pf, cf = fields(r2, len(pts), np_, SHAPES, "p "), fields(r2, len(cells), nc, SHAPES, "c ")
                scale = np.float32(k + 1)
                pf = [(n, np.asarray(x) * scale, (np.asarray(x) * scale).astype(np.float32), s, dt) for n, x, y, s, dt in pf]
                cf = [(n, jnp.asarray(np.asarray(x) * scale), (np.asarray(x) * scale).astype(np.float32), s, dt) for n, x, y, s, dt in cf]
                w.write_iteration(t, point_infos=[f[:2] for f in pf] or None, cell_infos=[f[:2] for f in cf] or None)
                frames.append((t, pf, cf))
                t += float(rng.choice([1.0, 1e-7, 0.1, 1e5]))
        check_series(mon, path, ele, pts, cells, frames, "plain")
        mon.event("frames read back", len(frames))
        # VTK's own XDMF reader sees the same series
        from vtkmodules.util.numpy_support import vtk_to_numpy
        from vtkmodules.vtkIOXdmf2 import vtkXdmfReader
        from vtkmodules.vtkCommonExecutionModel import vtkStreamingDemandDrivenPipeline as S
        rd = vtkXdmfReader()
        rd.SetFileName(path)
        rd.UpdateInformation()
        info = rd.GetOutputInformation(0)
        if len(frames) > 1 and info.Has(S.TIME_STEPS()):
            ts = np.array([info.Get(S.TIME_STEPS(), i) for i in range(info.Length(S.TIME_STEPS()))])
            mon.close("series.vtk-times", ts, np.array([f[0] for f in frames]), rtol=1e-9, scale=1.0)
        k = int(rng.integers(len(frames)))
        rd.UpdateTimeStep(frames[k][0])
        g = rd.GetOutputDataObject(0)
        while g is not None and g.IsA("vtkMultiBlockDataSet"):
            g = g.GetBlock(0)
        if g is not None and g.IsA("vtkUnstructuredGrid"):
            mon.close("series.vtk-nodes", vtk_to_numpy(g.GetPoints().GetData()), pad3(pts), rtol=1e-6, scale=np.abs(pts).max())
            mon.equal("series.vtk-types", np.array([g.GetCellType(i) for i in range(g.GetNumberOfCells())]), np.full(len(cells), VTK[ele]), ele=ele)
            for nm, _, want, shape, dt in frames[k][1]:
                a = g.GetPointData().GetArray(nm)
                if a is not None and len(series_want(want)[0]) != 6:
                    x = flat(vtk_to_numpy(a))
                    mon.equal("series.vtk-field", x[:, :series_want(want).shape[1]], series_want(want), shape=shape)
            mon.event("series read by VTK")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def case_history(case, mon):
    """Rejected frames, interrupted blocks, reused paths and interleaved writers."""
    rng = rng_for(case)
    ele = case["ele"]
    d = tempfile.mkdtemp(prefix="verif_c21_")
    try:
        mon.raises("history.suffix", lambda: fe.utils.XDMFWriter(wl.fmesh(*mesh_of(rng, ele), ele), os.path.join(d, "a.vtu")), ValueError)
        both = []
        for j in range(2):
            pts, cells = mesh_of(rng, ele)
            path = os.path.join(d, f"h{j}.xdmf")
            w = fe.utils.XDMFWriter(wl.fmesh(pts, cells, ele), path)
            mon.raises("history.outside-block", lambda: w.write_iteration(0.0, point_infos=[("u", np.zeros(len(pts)))]), RuntimeError)
            both.append((pts, cells, path, w, []))

        class Stop(Exception):
            pass
        stop = int(rng.integers(3, 9))
        ops = []
        try:
            with both[0][3], both[1][3]:
                for k in range(12):
                    pts, cells, path, w, frames = both[int(rng.integers(2))]
                    op = str(rng.choice(["good", "good", "good", "length", "names", "shape"]))
                    x, y = rng.normal(size=(len(pts), 3)), rng.normal(size=len(cells))
                    if op == "good":
                        w.write_iteration(k, point_infos=[("u", x)], cell_infos=[("s", y)])
                        frames.append((float(k), [("u", x, x.astype(np.float32), (3,), "f64")], [("s", y, y.astype(np.float32), (), "f64")]))
                    elif op == "length":
                        mon.raises("history.bad-length", lambda: w.write_iteration(k, point_infos=[("u", x[:-1])], cell_infos=[("s", y)]), ValueError)
                        if rng.integers(0, 2):
                            mon.raises("history.bad-cell-length", lambda: w.write_iteration(k, point_infos=[("u", x)], cell_infos=[("s", np.append(y, 1.0))]), ValueError)
                    elif op == "names" and frames:
                        mon.raises("history.changed-fields", lambda: w.write_iteration(k, point_infos=[("v", x)], cell_infos=[("s", y)]), ValueError)
                    elif op == "shape":
                        bad = rng.normal(size=(len(pts),) + [(4,), (2, 3), (3, 3, 3)][int(rng.integers(3))])
                        mon.raises("history.bad-shape", lambda: w.write_iteration(k, point_infos=[("u", bad)], cell_infos=[("s", y)]), ValueError)
                    ops.append(op)
                    if k == stop and case["r"] % 2:
                        raise Stop()
        except Stop:
            ops.append("stop")
        for pts, cells, path, w, frames in both:
            check_series(mon, path, ele, pts, cells, frames, " ".join(ops))
            mon.event("frames read back", len(frames))
        mon.event("rejected frames", sum(o in ("length", "names", "shape") for o in ops))
        # the same path again: only the new series remains
        pts, cells = mesh_of(rng, ele)
        z = rng.normal(size=len(pts))
        with fe.utils.XDMFWriter(wl.fmesh(pts, cells, ele), both[0][2]) as w:
            w.write_iteration(0, point_infos=[("z", z)])
        check_series(mon, both[0][2], ele, pts, cells, [(0.0, [("z", z, z.astype(np.float32), (), "f64")], [])], "reused path")
        # an index that cannot be written is reported, and does not hide an error raised in the block
        blocked = os.path.join(d, "blocked.xdmf")
        w = fe.utils.XDMFWriter(wl.fmesh(pts, cells, ele), blocked)
        os.makedirs(blocked)

        def unwritable(err):
            with w:
                w.write_iteration(0, point_infos=[("z", z)])
                if err:
                    raise Stop()
        mon.raises("history.unwritable-index", lambda: unwritable(False), OSError)
        mon.raises("history.unwritable-index-keeps-error", lambda: unwritable(True), Stop)
        mon.seen("history", ele, case["r"] % 2, len(ops))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def case_solved(case, mon):
    """A solved displacement field written through both writers reads back as the solution."""
    import meshio
    rng = rng_for(case)
    ele = ("QUAD8", "TET10")[case["r"] % 2]
    d = tempfile.mkdtemp(prefix="verif_c21_")
    try:
        dim = 2 if ele == "QUAD8" else 3
        pts, cells = wl.make_mesh(rng, ele, (2,) * dim, distort=0.05)
        mesh = wl.fmesh(pts, cells, ele)
        P = type("P", (fe.problem.Problem,), {"get_tensor_map": lambda self: (lambda g, *a: wl.stress_lin(jnp, g, 2.0))})
        prob = P(mesh, vec=dim, dim=dim, ele_type=ele, location_fns=[])
        bc = fe.DirichletBC.from_specs(prob, [fe.DirichletBCSpec(wl.side(0, 0.0), "all", 0.0), fe.DirichletBCSpec(wl.side(0, 1.0), "x", 0.1)])
        tp = fe.TracedParams(volume_vars=())
        solve = fe.create_solver(prob, bc, fe.DirectSolverOptions(), traced_params=tp, linear=True)
        u = prob.unflatten_fn_sol_list(solve(tp, fe.zero_like_initial_guess(prob, bc)))[0]
        p1, p2 = os.path.join(d, "u.vtu"), os.path.join(d, "u.xdmf")
        fe.utils.save_sol(mesh, p1, point_infos=[("u", u)])
        with fe.utils.XDMFWriter(mesh, p2) as w:
            w.write_iteration(0, point_infos=[("u", u)])
        w32 = np.asarray(u).astype(np.float32)
        mon.true("solved.nonzero", np.abs(w32).max() > 0.05)
        mon.equal("solved.file", meshio.read(p1).point_data["u"], w32)
        mon.equal("solved.series", read_raw(p2)[0][4]["Node", "u"][1], w32)
        mon.event("solutions written", 2)
        mon.seen("solved", ele)
    finally:
        shutil.rmtree(d, ignore_errors=True)
