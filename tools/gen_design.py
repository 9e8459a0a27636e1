"""writes DESIGN.md: tools/design_head.md, one section per property, then tools/design_tail.md and the seeded table"""
import glob
import importlib
import json
import os
import sys

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
HOW = {
    "C01": "Builds the real basis with symbolic knots (ends, padding, interior positions are variables), forks on which knot interval holds the symbolic point and decides, per interval: each basis polynomial >= 0, the sum identically 1, zero outside the knot span. The M/B ratio and the exact unit integral of M-splines (integral of each polynomial piece, summed) are identities in the knots. `high_order` covers orders up to the ones used with many knots, at fixed equally spaced knots and a symbolic point. Oracle: Cox-de Boor recursion written independently in the harness.",
    "C02": "Coefficients symbolic, normalisation grid shortened; trapezoid of the density on that grid = 1, positivity, exact zero outside, arrays passed in are compared element by element afterwards, shift/scale invariance as identities of exponentials of symbolic coefficients up to +-200 (replayed in float: overflow shows).",
    "C03": "Data ordinates and (for the small sizes) abscissae symbolic; the linear solve is done exactly, so interpolation, C1, C2, natural ends, linearity and linear exactness are rational identities in knots and data.",
    "C04": "All basis indices of small two-dimensional splines, symbolic points in each cell: bases[i,j] = b_i(x) b_j(y), projection is the coefficient-weighted sum, normalisation the double trapezoid on the grid the object uses.",
    "C05": "Symbolic parameters and value: sign, exact zero outside, defined (no nan/inf) at the edges; integral one through the antiderivative: F(max)-F(min)=1 and F'=pdf, with F the closed form (power, log, erf, incomplete beta by its derivative).",
    "C06": "Values and monotonicity over two symbolic points on each branch of the window; limits by sound facts of exp/log; the windows used inside the models are located through the models' ratio to the unsmoothed density.",
    "C07": "cdf/icdf round trips, derivative of the cdf equal to exp(log_prob), clamping outside, support constraint objects, and sampling with a symbolic uniform variate.",
    "C08": "Tables built on a symbolic short grid; cumulative = running trapezoid, last entry one, log_prob consistent with the table, icdf(cdf)=id by forking on cells of interp, zero outside, cumtrapz against a direct sum.",
    "C09": "Piece weights, continuity at both joins, total integral by closed-form antiderivatives of each power law, local slopes by symbolic logarithmic derivative.",
    "C10": "Each model function against the product/mixture written out in the harness from the elementary densities; arrays element by element; normalisation grids shortened.",
    "C11": "Density equals (dV/dz)/(1+z) times shape over its trapezoid normalisation on the model's own grid; the perturbed model is the power law times exp(spline).",
    "C12": "Every spline model: result for sample set s equals the product of 1-D densities, each of its own samples and its own coefficients (the parts come from 1-D models built separately on the same inputs).",
    "C13": "The same symbolic value placed at different positions, in posterior and injection sets, gives the same density; out-of-range and sign-symmetric values; normalisation independent of the samples.",
    "C14": "Linear and log estimators compared on the same symbolic weights; bounds 1 <= neff <= N; invariance under order and scale; `log_shift` replays large offsets so that a naive log-sum-exp overflows.",
    "C15": "The factor recorded by the real likelihood with stubbed numpyro vs. sum log BF - N log eff, all combinations of options; cuts decided on both sides of and exactly at the threshold (ties).",
    "C16": "categorical draw is a stub returning every index (one fork each); the recorded predictive values must come from one draw with non-zero weight and respect the cuts.",
    "C17": "Symbolic spline coefficients, slopes, limits; joint density integrates to one over the model's normalisation grid (trapezoid identities), is zero outside the limits, and equals itself whichever sample set is evaluated.",
    "C18": "Configuration dictionaries (and real YAML text through the parser) with symbolic hyperparameters and distributions recorded; each declared parameter must reach its model, prior and likelihood.",
    "C19": "log prior = -1/2 tau * (sum of squared k-th differences) for vectors of every length in the bound; zero iff polynomial of degree < k.",
    "C20": "Formula identities and |chi_eff| <= 1, 0 <= chi_p <= 1 over all masses, spins, tilts.",
    "C21": "Rational identities both ways; inputs unchanged.",
    "C22": "Exact integral of the piecewise density by its antiderivative on each piece; continuity at breaks; evenness; arrays vs. scalars.",
    "C23": "The closed form is a specification in the harness (dilogarithms, logs); it satisfies the ODE of the true density (`spec_ode`, `spec_slope`, `spec_ends`), and the code equals it on every case region.",
    "C24": "Specification: a distribution function; the code is its symbolic derivative in every region.",
    "C25": "Every truth value of the found test for each signal and pipeline (symbolic FARs, SNRs, thresholds) through xarray/h5py stand-ins; density factor products.",
    "C26": "Symbolic catalogue through the real processing code; arrays compared sample by sample.",
    "C27": "Tables as trapezoids of 1/E on the code's grid; monotone; inverse of interp; extension joins the table.",
    "C28": "Curves with symbolic coefficients per draw; integral on the code's own grid = rate x fraction for each draw.",
    "C29": "Symbolic datasets; every array handed to the right constructor argument; exports contain each array, and the caller's dictionaries are unchanged.",
    "C30": "New columns by formula; prior replaced by exact factor; for every draw and event.",
    "C31": "numpy's random numbers are symbols in (0, 1), the kernel-density estimate an uninterpreted positive function; the rejection loop is executed for one round of redraws.",
    "C34": "pyplot is replaced by a recorder; median and percentiles are decided for every ordering of the symbolic draws (each ordering is a path).",
    "C33": "Residuals orthogonal to every basis function, coefficients recovered, fitted values and design matrix by definition; ordinates symbolic.",
}
P = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
out = [open(os.path.join(H, "tools/design_head.md")).read().rstrip(), "", "## 2. The properties", ""]
for d in P:
    p = d["id"]
    if not os.path.exists(os.path.join(H, "props", p + ".py")):
        continue
    m = importlib.import_module("props." + p)
    hs = []
    for k, v in m.HARNESSES.items():
        hs.append(f"`{k}`" + (" (thorough)" if v["tier"] == "thorough" else ""))
    out += [f"### {p} {d['title']}", "", HOW.get(p, "").strip(), "",
            "- harnesses: " + ", ".join(hs), f"- bounds: {m.BOUNDS}", f"- outside: {getattr(m, 'OUTSIDE', '')}"]
    a = getattr(m, "ASSUMPTIONS", [])
    if a:
        out.append("- stand-ins and assumptions: " + "; ".join(a))
    out.append(f"- why tests cannot: {d['why_tests_cant']}")
    out.append("")
tail = os.path.join(H, "tools/design_tail.md")
if os.path.exists(tail):
    rows = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
    res = {}
    rf = os.path.join(H, "tools/seed_results.txt")
    if os.path.exists(rf):
        for l in open(rf):
            k, _, v = l.strip().partition(" ")
            res[k] = v
    for f in sorted(glob.glob(os.path.join(H, "seeded/*/meta.json"))):
        b = os.path.basename(os.path.dirname(f))
        m = json.load(open(f))
        rows.append(f"| {b} | {m['property']} | {m['needs']} | {res.get(b, 'not run')} |")
    out.append(open(tail).read().rstrip().replace("@SEEDS@", "\n".join(rows)))
print("\n".join(out), file=open(os.path.join(H, "DESIGN.md"), "w"))
