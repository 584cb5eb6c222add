#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RUN = "Seeded random runs followed call by call by an independent step oracle (own linear algebra with error bounds); a run is cut, and counted as such, where rounding makes the decision undecidable."
T = {
 "C01": ("property-based testing: random runs against an independent evaluation of the stopping residuals at the final point", RUN),
 "C02": ("property-based testing: history of the calls received by the model, invariant on the last evaluation", RUN),
 "C03": ("property-based testing: random runs against a reference stopping rule, and metamorphic change of budget", RUN),
 "C04": ("property-based testing: calls received by the model segmented against the documented evaluation counts", RUN),
 "C05": ("property-based testing: differential against an independent Newton step at every iteration", RUN),
 "C06": ("property-based testing: differential against the forward-difference formula, direct and inside runs", "Direct calls of the public functions and whole runs, against an independent formula with rounding bounds."),
 "C07": ("property-based testing: stateful models with memory, memory recomputed at each evaluation", RUN),
 "C08": ("property-based testing: algebraic laws (secant, rank one, inverse pairs) and differential against the published formulas", "Random matrices of sizes 1 to 5, judged within error bounds of the magnitudes involved; near-zero denominators are cut."),
 "C09": ("property-based testing: differential against independently recomputed quasi-Newton steps along runs", RUN),
 "C10": ("property-based testing: arbitrary-float inputs against the contract of the limitation", "Exact contract on arbitrary floats, including NaN and infinities."),
 "C11": ("property-based testing: invariant over the points evaluated in random limited runs", RUN + " One known finding (points shifted by the last perturbation) is recognised by its exact shift."),
 "C12": ("property-based testing: random overshooting runs against a reference damping rule", RUN),
 "C13": ("property-based testing with fault injection: differential between faulty and fault-free runs", "One to several inaccurate reports at random calls, compared with the fault-free run bit for bit."),
 "C14": ("property-based testing with fault injection: fatal error at a random call, compared with the fault-free prefix", "One fatal report at any call of the fault-free run, or a singular Jacobian."),
 "C15": ("fuzzing of models and configurations with arbitrary floats: no panic, bounded evaluations", "Random floats of all magnitudes; non-termination is decided by a cap on the evaluations."),
 "C16": ("property-based testing: arbitrary-float inputs against the definition and its algebraic laws", "Formula within rounding, symmetry, range, dispatch per equation."),
 "C17": ("property-based testing: quotient rule and numerical derivatives of the normalization", "Rounding and truncation bounds estimated per case; ill-conditioned cases are cut."),
 "C18": ("property-based testing: metamorphic change of the stopping configuration and of the other equations", "Two runs of the same code compared over their common points."),
 "C19": ("property-based testing: generated XML files read back against the generating model (round trip)", "Generated from the documented grammar, in any accepted number notation, with comments and spaces."),
 "C20": ("mutation fuzzing of XML files: one semantic mutation is never accepted; any edits and byte damage differentially against an independent reader", "Each mutation makes the file invalid by construction; edited files are accepted exactly when the reference reader accepts them, with the same values."),
 "C21": ("property-based testing: log parsed and compared with the recorded calls of the run", "Everything the log records is compared with the calls the model received, exactly or within a few ulps."),
 "C22": ("property-based testing with crash injection: runs with, without log and crashed at a chosen call", "A crash is a panic of the model at a chosen call; the file is also read at each call."),
 "C23": ("property-based testing: stateful sequences of solves compared with newly built solvers", "Two to four solves in a row, with errors and arbitrary initial model states."),
 "C24": ("property-based testing: differential between model implementations and adapters", "Same equations through hand-written static and dynamic models and the adapters, bit for bit."),
 "C25": ("property-based testing: metamorphic transforms of the system (scaling, reordering, exchange of members, linear combinations, units, renumbering)", "Runs compared until a decision becomes undecidable for rounding reasons."),
 "C26": ("property-based testing: generated systems satisfying the hypotheses of convergence theorems", "Affine systems of bounded condition, and diagonally dominant systems with a planted root."),
 "C27": ("property-based testing: arbitrary constructor arguments against the acceptance rule and read back", "Arbitrary floats and sizes; acceptance decided by an independent predicate."),
 "C28": ("model-based testing: random operation sequences on the Jacobian holder against a state model", "Up to 16 operations per sequence, compared after each."),
 "C29": ("property-based testing: differential between one- and n-dimensional solvers, derivative and root checks of the published systems", "Iterates compared step by step; published systems compared with numerical derivatives and substituted roots."),
 "C30": ("property-based testing: the user's own Iterative implementations record their calls, the evaluated points are derived from what they answered", "Eight step rules and four perturbation rules, several unknowns of different rules."),
 "C31": ("property-based testing: round-trip of the displayed texts", "Arbitrary floats; the texts are parsed back."),
 "C32": ("property-based testing: stateful sequences of solves and log activations, each part compared with the log of a newly built solver", "Two to four solves, two files."),
 "C33": ("property-based testing: log header compared with independently obtained facts, entries with the recorded calls", "A second build of the code with the feature; one machine, one user."),
 "C34": ("mutation fuzzing of XML files: the message refusing each mutation names what the mutation touched", "One mutation per file, of the kinds of C20."),
 "C35": ("property-based testing over schedules: nested and interleaved runs compared with the same runs alone", "Generated nesting points and thread schedules at the granularity of model calls; one sixth of the cases with free-running threads."),
 "C36": ("property-based testing: generated resolutions and loadings in a child process whose streams and files are observed", "The directory watched is the current, temporary and home directory of the process."),
}
TRUST = " Exploration, not proof: assumes the generator reaches the breaking input within the fixed number of cases. Trusts rustc, nalgebra's use by the code under test, and the harness' own oracle."
checks = []
for l in open(os.path.join(root, "properties.jsonl")):
    i = json.loads(l)["id"]
    t, n = T[i]
    checks.append(dict(property=i, quick_cmd=f"VERIF_TIER=quick ./check.sh {i}", thorough_cmd=f"VERIF_TIER=thorough ./check.sh {i}",
                       evidence_file=f"evidence/{i}.json", technique=t, level="exploration", level_note=n + TRUST))
m = dict(version=1, setup_cmd="./check.sh --build", checks=checks, not_applicable=[],
         notes="No hooks: the checks use the public API only. Findings: KNOWN_FINDINGS.txt. Replay of a violation: ./check.sh --replay out/<id>.json")
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
