"""Write the per-property part of DESIGN.md from the check modules (workload rule, assumptions, kinds), the texts below,
known_findings.json and tools/caught.json (which check caught which planted change)."""
import ast
import json
import pathlib
import re

V = pathlib.Path(__file__).resolve().parent.parent
# oracle, bounds, quick cost, why tests cannot
T = {
"C01": ("numpy integration of the same weak form with an independent element library (Vandermonde shape functions on the VTK nodes, own face rules, basix quadrature rules); interpolation of quadratics inside second-order elements; every parameter layout evaluated by hand at each quadrature point", "meshes up to a few hundred cells (kind `big` crosses the 3000-cell batching threshold)", "90", "tests assemble a few unit meshes and compare with themselves"),
"C02": ("dense forward-mode derivative of the observed residual and central differences of it; matvec/transposed/view/elimination forms compared with that one matrix", "up to ~400 unknowns dense, larger ones by directional derivatives", "100", "representations multiply (views x structure x elimination x batching)"),
"C03": ("selection recomputed from node coordinates with numpy; prescribed values must come back exactly (1e-9 of scale); solving with replaced values must equal rebuilding", "random specification lists of up to 6 entries", "90", "order/overlap/variable combinations"),
"C04": ("dense solve of the affine residual (obtained by probing get_res)", "contrast to 1e4, few thousand unknowns", "100", "every backend x view x elimination"),
"C05": ("observed residual at the returned state, a dense reference Newton for the reachable root, and reference iterates for step counts", "load steps up to finite strain", "120", "convergence paths depend on the data"),
"C06": ("implicit-function sensitivities formed densely from the observed residual, plus central differences of the solver", "up to ~200 unknowns", "120", "adjoint errors only show for non-symmetric operators or particular parameters"),
"C07": ("the plain call, lane by lane, including poisoned lanes", "2-6 lanes, two nesting levels", "110", "transform combinations"),
"C08": ("first answer for the same inputs, a dense reference, a fresh process, and fingerprints of all arguments; thread stress with delays injected inside the factorization critical sections", "histories of 20-60 calls", "120", "order dependence needs histories"),
"C09": ("orientation at all Gauss points and corners, measure, conforming faces, boundary location, no duplicate or unused nodes", "hundreds of cells", "8", "sizes/origins/axes"),
"C10": ("equivalence classes of coordinates modulo the period (union-find), rotation of cyclic sectors; residual of reduced solves tested with every admissible field", "sizes 0.02..50, origins up to 1e3", "40", "only origin-based unit cells are tested"),
"C11": ("dense energy form of the cell, closed forms, Voigt/Reuss bounds, shifted copies, adjoint sensitivity", "contrast 1e3", "25", ""),
"C12": ("online checker of the event log (time, hand-over, hook order, schedule), independent integrators, dense adjoints, faults injected at random points", "interval/step up to 1e5", "10", "schedules where rounding decides"),
"C13": ("dense jacfwd/hessian of the same function", "random programs up to 60 inputs", "16", ""),
"C14": ("dense LAPACK eigensolution; dense eigenvalue sensitivities", "up to ~200 free dofs", "30", ""),
"C15": ("plain numpy mirror records of every container", "histories of 30 operations", "50", ""),
"C16": ("the full mesh with the inactive cells multiplied by zero; brute-force geometry for grids", "grids up to ~10^3 cells", "22", ""),
"C17": ("sparse direct solution of an independently assembled brick model", "grids up to ~10^3 cells", "27", ""),
"C18": ("directly evaluated weighted averages, independently assembled smoothing equation, transposed operator for gradients", "radii below spacing to beyond the domain", "55", ""),
"C19": ("callback recorder of every design handed to the user; re-evaluation in numpy; closed-form constrained minimisers", "budgets up to ~300 iterations", "25", ""),
"C20": ("points made by forward mapping, so the expected value needs no search", "all element types", "8", ""),
"C21": ("meshio, VTK's own readers and raw XML/HDF5 parsing", "1..12 frames", "16", ""),
"C22": ("Gauss integration through every ply of tensors rotated by rotating strain and stress, compliance inversion, jax.grad of the plate energy on the reference geometry, averages over explicit fibre sets, Toeplitz positivity of the moments, tank geometry rebuilt from the formulas", "1..7 plies, few cells, tanks of a few hundred cells", "25", "no test touches this package"),
"C23": ("documented laws in numpy, scalar equilibrium of a pull test, documented third-medium residual on the reference geometry", "histories of 10-40 openings", "50", ""),
"C24": ("independent integration over cells and faces, energy identity of solved states", "all element types", "40", ""),
"C25": ("rank-ordered stacks recomputed by the checker from (seed, rank); start/finish records of every rank; ssh and docker are stand-ins that record the call and run it locally, so no network or container is touched", "2-4 processes on the loopback network", "50", "no test starts a second process"),
"C26": ("own call counters, sleeps and late-ready results; own dense Newton iterates; jax.make_jaxpr, XLA cost_analysis and live arrays read directly", "problems of ~30 unknowns", "60", "no test covers the profiler"),
}
UNCLAIMED = """## Behaviour deliberately not claimed

Found while building the checks, and either documented limits of the library or outside the stated properties:

- C01/C15: 0-dimensional volume variables are unsupported;
  a single-variable `get_weak_form` next to the classic maps is ignored; `gather/scatter_params` cannot tell layouts of equal length apart.
- C03/C05: symmetric elimination in Newton with a guess that violates the prescribed values; `max_iter=0`; `DirichletBCConfig.add` has no variable index.
- C04/C07: the reduced solver's 'auto' assumes an SPD operator; AMG needs more than ~10 unknowns; Newton with AMG `rebuild_every` is eager only;
  umfpack/cholmod raise for the whole batch when one lane is singular (raising is not a wrong answer).
- C09/C10: `box_mesh(recombine=False)`, HEX8 spheres/cylinders raise; `prolongation_matrix` ignores `offset` and matches with an absolute tolerance.
- C12: `history.csv` has no row for the initial state; an initial adaptive step outside the limits is used as given.
- C13: programs using primitives the sparsity detector does not know raise.
- C14: the dense buckling path treats factors below 1e-8 as absent; which modes an unconverged matrix-free solve returns (only that they are flagged).
- C16: duplicate or boolean active sets; loads on nodes outside the band; `scatter_cells` is scalar only.
- C17: silent non-convergence at `cg_maxit`.
- C18: radius 0; the documented "preserves the integral" of the density filter does not hold for any row-normalised average and is not claimed.
- C19: `run_narrowband_oc` ignores `penal`; an inequality slack of exactly zero in mdmm has zero gradient; equality constraints with tolerance 0.
- C20: points outside the mesh by less than half an element are clamped to the nearest one.
- C21: values are stored as float32; XDMF times are not required to increase.
- C22: a 3x3 orientation tensor from box variables satisfies the pairwise bounds the documentation states, not full positive semi-definiteness.
- C23: the documented third-medium energy lacks a factor 1/2 with respect to the weak form; the weak form is what is claimed.
- Second derivatives of shape functions neglect the curvature of the map.
- C25: options for the script that start with a dash must follow `--` (argparse); the exit code of a failing worker is not reported.

No property is "not applicable": all 26 are behavioural statements about executions.
"""


def rules(pid):
    tree = ast.parse((V / f"harness/checks/{pid.lower()}.py").read_text())
    out, kinds = {}, []
    for n in tree.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in ("RULE", "ASSUMPTIONS", "MIN_EVALUATIONS"):
            out[n.targets[0].id] = ast.literal_eval(n.value)
        if isinstance(n, ast.FunctionDef) and n.name.startswith("case_"):
            kinds.append(n.name[5:])
    return out, kinds


def main():
    props = [json.loads(x) for x in (V / "properties.jsonl").read_text().splitlines()]
    fixes = json.loads((V / "known_findings.json").read_text())["findings"]
    p = V / "tools/caught.json"
    caught = json.loads(p.read_text()) if p.exists() else []
    s = []
    for pr in props:
        i = pr["id"]
        r, kinds = rules(i)
        o, b, c, w = T[i]
        s.append(f"### {i} {pr['title']}\n")
        s.append(f"- Workload (kinds {', '.join('`' + k + '`' for k in kinds)}): {r['RULE']}.")
        s.append(f"- Oracle: {o}.")
        s.append(f"- Bounds: {b}; floor of {r['MIN_EVALUATIONS']} oracle evaluations per quick run, else inconclusive. Quick cost about {c} s; thorough runs several times as many and larger cases.")
        if r.get("ASSUMPTIONS"):
            s.append("- Assumptions: " + "; ".join(r["ASSUMPTIONS"]) + ".")
        if w:
            s.append(f"- Beyond the tests: {w}.")
        mine = [f["what"].split(" ", 2)[2] for f in fixes if f["property"] == i and f["status"] == "fixed"]
        if mine:
            s.append("- Defects found and repaired: " + "; ".join(mine) + ".")
        s.append("")
    s.append(UNCLAIMED)
    if caught:
        s.append("## Planted changes and the checks that catch them\n")
        s.append("Each lies in seeded/<id>/ with a demonstration; all pass the repository's stable tests.\n")
        s.append("| id | property | needs | caught by |\n|---|---|---|---|")
        for c in caught:
            s.append(f"| {c['id']} | {c['property']} | {c['needs']} | {c['caught']} |")
        s.append("")
    d = V / "DESIGN.md"
    head = d.read_text().split("## Per property")[0]
    d.write_text(head + "## Per property\n\n(one-line techniques are registered in MANIFEST.json; costs are wall seconds on 8 cores)\n\n" + "\n".join(s))


if __name__ == "__main__":
    main()
