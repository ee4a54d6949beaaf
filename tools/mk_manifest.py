"""Source of MANIFEST.json (run: python3 tools/mk_manifest.py)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
T = {
    "C01": ("differential oracle on recorded covariances of running models against numerical quadrature", "random configurations, times and omitted arguments; agreement to quadrature accuracy"),
    "C02": ("differential oracle on recorded covariances of running models against numerical quadrature", "random configurations and admissible times; one known singular configuration is listed as a finding"),
    "C03": ("random expression programs executed with an online evaluation oracle", "random programs, numerical evaluation at random assignments"),
    "C04": ("integrals recorded at run time against adaptive quadrature and closed forms", "random concave exponents, limits and broadcasts"),
    "C05": ("assertions on recorded kernel matrices (symmetry, stationarity, PSD, exact prior average) plus differential oracle", "random models, inducing values and grids"),
    "C06": ("offline statistical checker over recorded prior draws", "draw counts bound what the statistics can see; false-alarm probability about 1e-8 per run"),
    "C07": ("ELBOs recorded from running models against an independent evaluation of the bound", "random models, data and variational posteriors"),
    "C08": ("online monitor of the coordinate-ascent trace (monotonicity, optimality of every update)", "random models, data, starts and iteration counts"),
    "C09": ("offline checker over the recorded Gibbs chain and its conditionals", "random models and data; statistics over stored samples with thresholds near 1e-8"),
    "C10": ("predictions recorded from conditioned models against independent moments", "random models, posteriors and inputs"),
    "C11": ("differential oracle on moments, densities and recorded draws", "random precisions up to condition number 1e6"),
    "C12": ("online trace checker of every transition plus statistical invariance checker, with injected faults", "random targets and call patterns"),
    "C13": ("recorded state before saving and after loading compared over random histories", "random histories of instantiate, fit, save, perturb, load"),
    "C14": ("monitors on the parameter container around real fits", "few iterations per fit; all schemes and models"),
    "C15": ("differential oracle against a direct cosine transform and metamorphic runs", "random kernels, grids and paddings"),
    "C16": ("optimality-condition oracle on recorded projections", "random and adversarial matrices up to dimension 60"),
    "C17": ("oracle on recorded transforms; statistical checker over predicted filters", "random filters; thresholds near 1e-8 for statistics"),
    "C18": ("recomputation oracle on recorded summaries and predictions", "random sample arrays, posteriors and lags"),
    "C19": ("differential oracle against direct sums", "random series, options and permutations"),
    "C20": ("differential oracle on densities with analytic derivatives", "random log-concave densities up to dimension 8"),
    "C21": ("assertions on constructed models against the documented rules, and metamorphic constructions", "random keyword combinations"),
    "C22": ("history checker over random interleavings of model operations", "random call sequences on a model and its posteriors"),
    "C23": ("metamorphic oracle over pairs of runs, and runs in processes with different hash seeds", "random models, data and transformations"),
    "C24": ("monitors on the experiment runner inside scratch directories", "random subsets of models, options and train/load sequences"),
}
LEVEL = "exploration"
props = [json.loads(x) for x in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(ROOT, "rv", "checks", i.lower() + ".py")):
        tech, note = T[i]
        checks.append(dict(property=i, quick_cmd=f"{PY} check.py {i} --tier quick", thorough_cmd=f"{PY} check.py {i} --tier thorough",
                           evidence_file=f"evidence/{i}.json", technique="runtime monitoring: " + tech, level=LEVEL,
                           level_note=f"The real code is executed and observed, not enumerated: {note}.  Holds on everything explored; bounds and assumptions are in the evidence and DESIGN.md."))
    else:
        na.append(dict(property=i, reason="check not built yet"))
json.dump(dict(version=1, setup_cmd=f"{PY} -c \"import sys; sys.path.insert(0, '/verif'); import rv.core; rv.core.setup_repo(); import gpcm; print(gpcm.__file__)\"",
               checks=checks, not_applicable=na,
               notes="No hooks in /repo: the monitors wrap public functions and callbacks from outside. Genuine defects were repaired in fix: commits, see KNOWN_FINDINGS.txt."),
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
