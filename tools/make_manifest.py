#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the table below (and from which checks exist)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("TLA+/TLC state graph, every edge replayed on the real setters", "model_checking",
         "All edges of the abstract register graph (3 values per register, 2 interfaces, refusals) are replayed bit for bit on the real library with several choices of concrete values; assumes the setters do not distinguish values beyond those tried."),
 "C02": ("TLC-generated random programs over an explicit API state machine (Api.tla/Denot.tla), replayed on the real library", "model_checking",
         "The denotation of every query shape is specified exactly (rational coefficients over symbolic loop functions); TLC checks isolation/determinism of the model exhaustively in a small scope and generates random programs that are replayed; the values of the symbolic loop functions are read from the real low-level functions."),
 "C03": ("TLC-generated programs over Api.tla replayed, plus concurrency schedules of settings writers against running evaluations", "model_checking",
         "Same denotations as C02; the known finding D1 (thermal quark part divided by the global number of colors) is recognised and reported."),
 "C04": ("TLC-generated random programs of configuration edits (construct, clone, assign, push, query), replayed on the real library", "model_checking",
         "Random programs, not all programs; exhaustive on the model in a small scope."),
 "C05": ("TLA+ web of laws over the whole family tree (Families.tla), enumerated by TLC, each law evaluated on the real functions", "model_checking",
         "All functions and all laws; sampled points."),
 "C06": ("TLA+ specification of the foreign-language bindings (Bindings.tla), every export enumerated and replayed through the shared library by its generated header", "model_checking",
         "All exports; sampled points; shared settings in both directions."),
 "C07": ("TLA+ state machine of the secant iteration over Gaussian rationals (FindRoot.tla), TLC-exhaustive adversary functions replayed, recorded traces validated against the specification", "model_checking",
         "Exhaustive for small value alphabets; random analytic functions checked by trace validation."),
 "C08": ("TLA+ specification over exact Gaussian rationals (Residue.tla), behaviours replayed with recorded evaluation points", "model_checking",
         "Exhaustive over a small grid of Moebius and polynomial functions; analytic functions sampled."),
 "C09": ("TLA+ specification of the density and its inverse (Density.tla) with exact values for massless quarks and at zero temperature, every TLC transition a law evaluated on the real functions; random behaviours replayed in one process", "model_checking",
         "All laws of the model at a few scales; values known exactly on part of the states, related to each other on all; the stated domain of the inversion sampled."),
 "C10": ("TLA+ specification of where the integration settings take effect (Integration.tla); TLC's whole state graph replayed, every function queried at every state and compared with its explicit-method counterpart under the specified rule", "model_checking",
         "All states and transitions of the abstract registers, several concrete values behind them, every function of the library; states whose tolerance cannot be reached in reasonable time are skipped for adaptive functions."),
 "C11": ("TLA+ lattice of kinematic and thermodynamic limits over the denotations of all correlators and building blocks (Limits.tla), confluence checked by TLC, every edge replayed as a numerical limit on the real functions", "model_checking",
         "All functions, all restrictions, all orders on the model; limits taken numerically at sampled points, with tolerances."),
 "C12": ("TLA+ specification of the symmetry group and its characters (Symmetry.tla), every group element applied to every function", "model_checking",
         "All functions and all group elements; sampled points."),
 "C13": ("TLA+ specification of the distributions over exact Gaussian rationals (Distributions.tla, Kinematics.tla), every TLC state replayed", "model_checking",
         "Exact in the variable x = exp(beta(e - mu)); identities and orderings between neighbouring states also at random points."),
 "C14": ("TLA+ lattice of specializations of the one-loop integrands (Reductions.tla), confluence checked by TLC, every edge and every derivative law replayed on the real integrands", "model_checking",
         "All integrands, all restrictions, all orders on the model; limits and derivatives numerical at sampled points, with tolerances; the derivative laws at vanishing frequency follow from the others and are not integrated."),
 "C15": ("TLA+ specification of reduction, interpolation and classification (PhaseBoundary.tla) and of the running maximum (Maximum.tla), TLC-exhaustive boundaries replayed", "model_checking",
         "All boundaries over a small alphabet with zeros anywhere, all query positions; longer random boundaries judged by the same definitions."),
 "C16": ("TLA+ specification of the least-squares normal equations over the rationals (Fit.tla), TLC-enumerated data sets replayed", "model_checking",
         "Exhaustive over small data sets; random larger ones by the same definition."),
 "C17": ("TLA+ specification of the stages of the program and of its configuration object (Pipeline.tla), model-checked for arbitrary critical lines and evaluated on the critical temperatures real runs report; every file and curve of those runs compared with what it prescribes", "model_checking",
         "All critical lines over small grids on the model; random inputs for the real program, all of whose output is compared."),
 "C18": ("TLA+ specification of evaluations on several threads with arbitrary preemption points (Threads.tla); its walk is replayed on every function, with preemption by an instrumented number type, and with real threads", "model_checking",
         "All functions; a few interleavings for each in the quick tier; compared bit by bit with fresh processes."),
 "C19": ("TLA+ specification of the loops of the survey programs around the global number of flavors (Survey.tla), model-checked for arbitrary critical lines and evaluated on the critical temperatures the real programs report; every figure and table line compared with what it prescribes", "model_checking",
         "The programs have no inputs: one whole run of each. All figures, curves, titles, legends and lines; a few points of each curve in the quick tier."),
 "C20": ("TLA+ specification of the dimensions of all quantities, of how they arise, and of unit changes interleaved with it (Units.tla), model-checked; every unit change of its states applied to all functions", "model_checking",
         "All 685 functions; exact comparison of the closed forms (up to their rounding), integrals to the quadrature tolerance in units up to a factor 64 apart."),
 "C21": ("TLA+ specification of the operations on numbers in exact Gaussian rationals with promotion at any time (Numbers.tla), all programs replayed on both types; TLA+ specification of the overloads of the registry and of the promotions between them (Overloads.tla), all of them applied to the functions", "model_checking",
         "All programs of two (thorough: three) operations; all 333 promotions of the 265 generic functions, at random arguments."),
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in T:
        t, lvl, note = T[i]
        checks.append(dict(property=i, quick_cmd="python3 tools/check.py %s quick" % i,
                           thorough_cmd="python3 tools/check.py %s thorough" % i,
                           evidence_file="evidence/%s.json" % i, technique=t, level=lvl, level_note=note))
    else:
        na.append(dict(property=i, reason="the check for this property is not built yet"))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
         notes="No hooks were needed: the checks use the public Rust API, the shared library and the program of /repo. Commits in /repo starting with fix: repair defects found.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
