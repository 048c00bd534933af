#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (both committed) from the table below."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CP, EL, ES, EC, CC = ("src/ellalgo/%s.py" % f for f in ("cutting_plane", "ell", "ell_stable", "ell_calc", "ell_calc_core"))
OR = "src/ellalgo/oracles/%s_oracle.py"
LD, SF, CG, CFG, TY = ("src/ellalgo/oracles/ldlt_mgr.py", "src/ellalgo/oracles/spectral_fact.py",
                       "src/ellalgo/conjugate_gradient.py", "src/ellalgo/ell_config.py", "src/ellalgo/ell_typing.py")
LMI = [OR % "lmi", OR % "lmi0", OR % "lmi_old"]

P = []


def prop(id, title, statement, over, text, why, files, mech, note, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  note=note, state=state, observe=observe))


prop("C01", "Feasibility search returns only points the oracle accepted",
     "Whatever answers the oracle and the search space give, a feasibility search asks the oracle about exactly the current center on every pass and applies every cut it gets exactly once, unchanged, as a deep cut. "
     "It returns a point if and only if the oracle accepted that very center. The returned point is a snapshot of its own: using the search space afterwards does not change it.",
     ["inputs", "histories"], "every sequence of oracle answers and space statuses, every iteration budget and tolerance",
     "The tests run a few concrete oracles on a few ellipsoids; none uses an oracle/space pair that answers adversarially, and none keeps cutting the space after the search returned.",
     [CP], [("driver loop", CP + ":cutting_plane_feas")],
     "Oracle and space are opaque: each possible answer is its own partition and each datum a fresh symbol; the loop counter is widened after two passes so any budget is covered.")
prop("C02", "Convex optimizer keeps the best value together with its own point",
     "In every optimization run the oracle is always asked with the best value accepted so far, an improving answer is applied as a central cut and any other as a deep cut, each exactly once and unchanged. "
     "The returned pair is the last value the oracle accepted together with a snapshot of the center at which it was accepted, or no point and the initial value if there was none.",
     ["inputs", "histories"], "every sequence of oracle answers (improving or not) and space statuses, every budget and tolerance",
     "Tests check final objective values of a handful of convex problems, where a stale point or value is within tolerance of the right one.",
     [CP], [("driver loop", CP + ":cutting_plane_optim")],
     "Same opaque-collaborator exploration as C01 against a reference protocol.")
prop("C03", "Discrete optimizer keeps its incumbent and follows the retry protocol",
     "In every discrete optimization run the returned value is the last improvement the oracle reported and the returned point is a snapshot of the evaluation point reported with it, even if that evaluation point is the very center the oracle was given. "
     "The oracle is asked to retry exactly when the previous cut had no effect and it had announced an alternative; the search ends when a cut has no solution, or has no effect and no alternative is left.",
     ["inputs", "histories"], "every sequence of oracle answers (improving or not, alternative or not) and space statuses, every budget and tolerance",
     "Tests run two profit instances; the interleavings of no-effect answers with improvements are barely sampled.",
     [CP], [("driver loop", CP + ":cutting_plane_optim_q")],
     "Same opaque-collaborator exploration as C01; evaluation points are fresh objects or the live center.")
prop("C04", "Searches stop exactly when they should and report the right count",
     "Every search goes on while budget is left, the last cut allows it and the size measure is not below the tolerance, and stops on the first pass where one of these fails. "
     "The reported count is the zero-based number of the pass on which it stopped, or the whole budget if it ran out; a zero budget makes no oracle call.",
     ["inputs", "histories", "configurations"], "every budget, tolerance, size measure sequence and status sequence, for the three cutting-plane searches",
     "Tests fix one budget and tolerance and mostly assert upper bounds on the count.",
     [CP, CFG], [("loop exits", CP)],
     "Reference protocol for stopping applied to all three drivers; tolerance and size measures are symbols, so equality is a case.")
prop("C05", "Bisection keeps a certified bracket",
     "For every oracle the bisection probes only midpoints of the current bracket, moves the upper end to the probe when the oracle accepts and the lower end when it refuses, and returns the current upper end. "
     "It stops when half the bracket width is below the tolerance or the budget is used up, reports that number of probes, and for an integer upper end probes and returns integers.",
     ["inputs", "histories"], "every oracle, every interval (integer or real), budget and tolerance",
     "Tests probe one quadratic and one LMI problem.", [CP], [("bracket loop", CP + ":bsearch")],
     "Oracle answers are partitions; interval ends, budget, tolerance symbolic; integer and real intervals.")
prop("C06", "Parametric feasibility probes are isolated from the kept space",
     "A bisection probe sets the oracle to the probed level before any assessment, searches on an independent copy of the kept search space under the configured limits and answers true exactly if that search found a point. "
     "The kept space is changed only by moving its center to the point found, and not at all when nothing was found.",
     ["inputs", "histories"], "every oracle, space, probe level and sequence of up to two probes",
     "Tests use one quasi-convex oracle and look only at the final value.", [CP], [("adaptor", CP + ":BSearchAdaptor")],
     "Deep copies of opaque spaces are tracked in the heap model; events are matched to the clone or the original.")
prop("C07", "Every cut is classified correctly",
     "For every dimension, size and position, a cut is reported infeasible exactly when no point of the ellipsoid can satisfy it, without effect (discrete variant) exactly when it cannot shrink the ellipsoid, and successful otherwise. "
     "Update parameters are delivered exactly when the status is success. Scalars, one-element and two-element lists, tuples and arrays mean the same cut, and with parallel cuts disabled only the first plane counts.",
     ["inputs", "configurations"], "all dimensions n>=2, all plane positions, all forms of giving them",
     "Tests sample a few positions in dimension 4 and never the boundary cases in other forms.",
     [EC, CFG], [("dispatch and guards", EC)],
     "Positions and the squared size are real symbols; every guard combination is a partition; boundary equalities are forced.")
prop("C08", "Single cuts give the minimum-volume ellipsoid",
     "For every dimension, size and plane position for which a single cut succeeds (central, deep or shallow), the delivered step, contraction and scale are those of the minimum-volume ellipsoid covering what is left. "
     "This is so however the cut is given and whichever update method is used.",
     ["inputs", "configurations"], "all n>=2, all sizes and positions in the method's domain",
     "Tests compare a few numbers in dimension 4.", [EC, CC], [("single-cut formulas", CC)],
     "Result terms are compared as algebraic expressions with a reference derived from the covering-ellipsoid equations.")
prop("C09", "Parallel cuts give the minimum-volume covering ellipsoid",
     "For every dimension, size and pair of plane positions for which a parallel cut succeeds, the delivered step, contraction and scale are those of the covering ellipsoid of the slab, and coincide with the single cut when the far plane misses the ellipsoid. "
     "This includes zero-width slabs and slabs placed symmetrically about the center.",
     ["inputs", "configurations"], "all n>=2, all sizes and pairs of positions in the method's domain",
     "Tests compare a few numbers in dimension 4.", [EC, CC], [("parallel-cut formulas", CC)],
     "As C08, with the two-plane reference.")
prop("C10", "Alternative cut formulas agree with each other",
     "Every alternative formulation the cut calculator offers for the same kind of cut (plain, fast, and the older ones) delivers the same parameters wherever the formulation is defined.",
     ["inputs"], "all n>=2 and all admissible positions (older forms: planes not mirror images; strictly inside and distinct where they divide by the difference)",
     "Tests compare siblings at a handful of points.", [CC], [("sibling formulas", CC)],
     "Sibling cross-check by algebraic value numbering.")
prop("C11", "Dense ellipsoid tracks the exact ellipsoid over any sequence of cuts",
     "After any sequence of successful deep, central, discrete or parallel cuts, the dense search space's center, size measure and every later answer equal those of the mathematical ellipsoid cut in the same way. "
     "It does not matter how the initial radius was given (number, list, array), whether the scale is deferred, or whether radii, centers or gradients hold integers.",
     ["inputs", "histories", "configurations"], "all gradients, positions, initial shapes; histories of up to three cuts in dimensions 2-5 (the state after them is an arbitrary ellipsoid)",
     "Tests follow a few concrete cuts and mostly assert statuses.", [EL], [("rank-one update", EL)],
     "Shape observed only through a final probing cut; dimensions and history length bounded as stated, data unbounded.")
prop("C12", "Factored ellipsoid tracks the exact ellipsoid over any sequence of cuts",
     "After any sequence of successful deep, central, discrete or parallel cuts, the factored (stable) search space's center, size measure and every later answer equal those of the mathematical ellipsoid cut in the same way, hence those of the dense one. "
     "It does not matter how the initial radius was given, whether the scale is deferred, or whether radii, centers or gradients hold integers.",
     ["inputs", "histories", "configurations"], "as for the dense ellipsoid",
     "Tests compare the two spaces on a few concrete cuts.", [ES], [("factored rank-one update", ES)],
     "As C11, including flat cuts.")
prop("C13", "An unsuccessful cut leaves the search space alone",
     "When a cut is infeasible or without effect, or a zero gradient is refused with an error, the center is unchanged and every later cut gives exactly what it would have given without the failed one. This holds for both ellipsoid representations and all update methods.",
     ["inputs", "histories"], "all failing cuts on arbitrary ellipsoids, followed by arbitrary further cuts",
     "Tests assert the status of a failing cut but hardly ever use the space afterwards.", [EL, ES, EC], [("early returns", EL), ("early returns", ES)],
     "Histories with failing cuts at every position followed by probing cuts.")
prop("C14", "Data handed in by the caller is never modified or adopted",
     "No call modifies arrays, matrices, lists or options it is given: centers, radii, gradients, cut offsets, coefficient matrices, right-hand sides, initial guesses and points to assess are left as they were. "
     "A search space does not adopt them either: changing the arrays it was built or re-centred with afterwards does not move it.",
     ["inputs", "histories"], "all public constructors, updates, oracles and solvers; any data",
     "Tests rarely look at their inputs after a call.", [EL, ES, LD] + LMI + [OR % "lowpass", OR % "profit", CG, SF], [("own copies", EL)],
     "Exact heap model with numpy view aliasing; argument snapshots compared after each call.")
prop("C15", "Objects do not influence each other and keep no hidden memory",
     "Using one search space, cut calculator, factorization manager or oracle never changes what another one answers, whatever the order of construction and calls, and a deep copy of a search space and its original go separate ways. "
     "Cut calculators, factorization and matrix-inequality oracles answer the same question the same way whatever they were asked before, and what an oracle, calculator or manager returned is not changed by later calls.",
     ["histories"], "interleavings of two instances with arbitrary data; repeated use of one instance",
     "Tests build a fresh object per case.", [EL, ES, EC, LD] + LMI + [OR % "lowpass", OR % "profit"], [("instance-only state", "src/ellalgo")],
     "Two analyses, with and without a second instance in use, compared answer by answer.")
prop("C16", "Factorization decides positive definiteness exactly",
     "For every symmetric matrix, given whole or element by element, the factorization answers positive definite exactly when it is, and then the square root it yields is upper triangular with R'R equal to the matrix. The answer does not depend on what the manager factored or reported before.",
     ["inputs", "histories"], "all symmetric matrices of order 1-4, any earlier use",
     "Tests factor about ten fixed matrices with fresh managers.", [LD], [("factor/sqrt", LD)],
     "Matrix entries are symbols; leading minors are the oracle.")
prop("C17", "A failed factorization yields a checkable certificate",
     "Whenever the factorization refuses a matrix, the witness vector v it yields satisfies v'Av = -ep with ep >= 0 the value reported, and quadratic forms reported for any other matrix are taken with that same vector on the reported block. "
     "Asking for a witness of a positive definite matrix, or for the square root of one that is not, is refused.",
     ["inputs", "histories"], "all symmetric matrices of order 1-4 that are not positive definite, any earlier use",
     "Tests check the certificate for two or three fixed matrices.", [LD], [("witness/sym_quad", LD)],
     "As C16.")
prop("C18", "Matrix-inequality oracles give the exact verdict and a valid cut",
     "Each matrix-inequality oracle accepts a point exactly when the matrix it defines there is positive definite; otherwise its cut is the certificate inequality v'F(x)v >= 0 for a vector v with v'F(x)v <= 0 at the point, so no feasible point is cut off. "
     "Integer-valued matrices mean the same as real ones, and earlier questions do not change the answer.",
     ["inputs", "histories"], "all coefficient matrices (order 1-3, one to three variables), all points, any earlier use",
     "Tests solve two LMI instances.", LMI + [LD], [("assess_feas", LMI[0])],
     "Certificate recomputed by an independent elimination; cuts are compared up to a positive factor.")
prop("C19", "The semidefinite variant accepts exactly the semidefinite matrices",
     "The tolerant factorization accepts every positive semidefinite matrix and refuses every matrix that is not, and a refusal comes with a block on which the matrix takes a negative value.",
     ["inputs", "histories"], "all symmetric matrices of order 1-3, any earlier use",
     "Tests try three fixed matrices.", [LD], [("factor_with_allow_semidefinite", LD)],
     "Known finding restart-drops-coupling (zero pivot with nonzero couplings) is reported, all other matrices are decided.")
prop("C20", "Low-pass feasibility misses no violated requirement",
     "For every coefficient vector and from any point reached by earlier assessments, the low-pass oracle accepts exactly when all passband, stopband and non-negativity requirements, sampled at 15 frequencies per coefficient, and the sign of the leading coefficient hold. "
     "Otherwise the cut it returns is that of one actually violated requirement: the sampled response row with the right sign and the right distances to the limits. The ready-made case uses the documented limits.",
     ["inputs", "histories", "configurations"], "all coefficient vectors, small filter orders and several band edges, any earlier assessments",
     "Tests design one 32-tap filter.", [OR % "lowpass"], [("round-robin sweeps", OR % "lowpass")],
     "Filter order 2-4 with coefficients and limits symbolic and sweep positions enumerated; 48 taps (and lengths the source singles out) at concrete coefficients that leave the limits at one chosen grid point.")
prop("C21", "Low-pass optimum reports the true stopband peak",
     "For a feasible coefficient vector the low-pass oracle reports as objective the largest sampled stopband response, and the cut is that sample's row with offsets zero and the peak. For an infeasible one it returns a feasibility cut against the given level and no value.",
     ["inputs", "histories"], "all coefficient vectors and levels, any earlier assessments",
     "Tests look at the final filter only.", [OR % "lowpass"], [("peak tracking", OR % "lowpass")],
     "As C20.")
prop("C22", "Profit oracle checks both constraints with current gradients",
     "From any earlier use, the profit oracle accepts a point for a level exactly when the input limit and the profit level both hold; a feasibility cut is the value and gradient, at the point asked about, of a violated one. "
     "For an acceptable point the new value is the profit there and the cut is the gradient of the profit condition at that new value with offset zero.",
     ["inputs", "histories"], "all parameters, points and levels with level + cost > 0; sequences of up to three calls",
     "Property tests assert types and signs; stale gradients after another point go unnoticed.", [OR % "profit"], [("round robin", OR % "profit")],
     "log/exp kept as algebraic value numbers.")
prop("C23", "Robust and discrete profit oracles use worst case and rounded point",
     "The robust oracle answers, on every call, like the plain one with every parameter at the unfavourable end of its interval for the point asked about, without accumulating earlier adjustments. "
     "The discrete oracle evaluates the nearest positive integer point, returns it unchanged by later calls, reuses it on retry, and announces an alternative exactly when not retrying; its cut belongs to that point, moved to the point asked about.",
     ["inputs", "histories"], "all parameters, points and levels; sequences of calls with and without retry",
     "Tests solve one instance of each.", [OR % "profit"], [("worst case", OR % "profit"), ("rounding", OR % "profit")],
     "Known finding offset-sign (the offset moves the cut the wrong way) is reported, everything else is decided.")
prop("C24", "Conjugate gradient returns solutions only",
     "Whenever the conjugate-gradient solver returns a vector, its residual norm is below the tolerance; otherwise it raises ValueError. "
     "For a symmetric positive definite system it succeeds within as many steps as there are unknowns, an initial guess that already solves the system is returned at once, and neither inputs nor the initial guess are modified.",
     ["inputs", "configurations"], "all systems of order 1-3, all right-hand sides, initial guesses (real or integer), tolerances and step limits 0-4",
     "Tests solve three systems.", [CG], [("iteration and exits", CG)],
     "Real arithmetic: finite termination is exact.")
prop("C25", "Spectral factorization and autocorrelation are inverse and guarded",
     "The autocorrelation of every impulse response is computed exactly from lag zero up. Factoring the autocorrelation of a minimum-phase response gives that response back to within the sampling accuracy of the method. Empty or non-finite input is refused with an error, and so is every spectrum whose sampled minimum is -1e-4 or less; a minimum between that and zero is taken as rounding noise and factored.",
     ["inputs"], "all impulse responses of length 1-4 (autocorrelation); lengths 1-2 with zeros well inside the unit disc (round trip); invalid inputs",
     "Tests try one random vector and a few invalid ones.", [SF], [("fft pipeline", SF), ("convolution", SF)],
     "Round trip is evaluated at witness valuations of the FFT terms, with a stated accuracy.")
prop("C26", "A cut never loses an admissible point and never grows the ellipsoid",
     "After a successful cut every point of the previous ellipsoid that satisfies the cut lies in the new one, and the new volume is not larger. A cut is reported infeasible only if no interior point of the ellipsoid satisfies it. This holds for both representations, all update methods, and single as well as parallel cuts.",
     ["inputs", "histories"], "all cuts on arbitrary ellipsoids in dimensions 2-3; deep cuts with non-negative offset",
     "Tests never check containment.", [EL, ES, EC, CC], [("update and parameters", EC)],
     "Ellipsoid observed through the public interface only (center and size measure of probing cuts on copies); extreme points of the kept region are tested at every witness.")
prop("C27", "Settings mean what they say and never leak between calls",
     "A new Options object has max_iters 2000, tolerance 1e-20 and verbose off, and changing one object changes no other. A search, bisection or bisection adaptor called without options behaves exactly as with such a fresh object, whatever calls with other settings were made before. No function modifies the Options object it is given, and switching verbose on changes no answer, cut, stopping decision or result.",
     ["inputs", "histories"], "all five entry points, with options given, fresh, verbose or omitted, after earlier calls or not; any sequence of answers on the first passes, and endless problems",
     "No test counts 2000 passes, uses two Options objects, or calls with and without options in one process.", [CFG, CP], [("default options", CP), ("Options", CFG)],
     "Same opaque-collaborator exploration and reference protocols as C01-C06; the endless problem is followed for all passes of the default budget.")
prop("C28", "Interface defaults hold for user classes and every exported name resolves",
     "For every user-defined search space that implements only the required methods, update_q performs exactly one deep cut with the unchanged cut and returns its status, and set_xc does nothing; a user-defined feasibility oracle's default update does nothing, and a bisection oracle without assess_bs cannot be instantiated. Every name listed in ellalgo.__all__ exists and is the object defined in its own module, and the four cut statuses Success, NoSoln, NoEffect and Unknown are pairwise distinct.",
     ["inputs"], "all cuts (one or two offsets), all statuses, all exported names", "Tests never subclass the interfaces without overriding the defaults.",
     [TY, CFG, "src/ellalgo/__init__.py"], [("defaults", TY), ("exports", "src/ellalgo/__init__.py")],
     "Minimal subclasses with opaque methods are built over the interfaces of the current source; the package's import graph is resolved statically.")
prop("C29", "The demonstration command computes exact Fibonacci numbers",
     "For every index n of at least one the demonstration function returns the n-th Fibonacci number as an exact integer, whatever was asked before, and an index below one is refused with AssertionError. "
     "The command line prints that number for the index given, with or without the verbosity switches, and prints no number for a missing, extra or non-integer argument.",
     ["inputs", "histories"], "all indices (decided up to 300, thorough 1500, and around every literal of the module), ascending, descending and repeated",
     "The tests use n = 1, 2, 7.", ["src/ellalgo/skeleton.py"], [("demonstration", "src/ellalgo/skeleton.py:fib")],
     "The function is interpreted on exact integers; a result that went through floating point is not an exact integer.")

NA = [
    ("C90", "Searches converge at the ellipsoid method's rate",
     "For every convex problem whose feasible set has positive volume inside the initial ellipsoid, the search finds a point of it within the number of iterations given by the volume argument.",
     ["inputs"], "all convex problems", "Tests count iterations on a few problems.", [CP, EL],
     "Quantifies over all convex oracles and bounds iteration counts numerically: the per-cut ingredients (containment, volume, exact update) are decided by C08-C13 and C26, the rate itself is an arithmetic theorem about real sequences, not visible in the source."),
    ("C91", "Results are accurate in floating point",
     "In IEEE double arithmetic the shape matrices stay symmetric positive definite and the computed parameters are close to their real values for all admissible inputs.",
     ["inputs", "histories"], "all doubles, any number of cuts", "Stress tests run thousands of random cuts.", [EL, ES, CC],
     "Rounding error accumulation over unbounded histories is a runtime quantity; no sound static bound in reach (dense update is known not to guarantee positivity)."),
    ("C92", "Discrete searches find the true integer optimum",
     "The discrete profit search returns the best integer point.",
     ["inputs"], "all parameter sets", "One instance is tested.", [OR % "profit", CP],
     "Rounding the relaxed solution is a heuristic: the property is not promised by the code and depends on numerical values of the instance; protocol and per-call correctness are decided by C03, C22 and C23."),
    ("C93", "Large filters are factored accurately",
     "For every valid autocorrelation of any length the spectral factor reproduces it to a stated accuracy.",
     ["inputs"], "all lengths and spectra", "Random vectors of one length are tested.", [SF],
     "The error of the sampled Hilbert transform depends on how close the spectrum comes to zero, a runtime quantity; C25 decides the short cases and the guards."),
]

TECH = "custom static analysis: trace-partitioned abstract interpretation of the syntax tree with algebraic value numbering and an exact heap/alias model"
NOTE = (" Decided on the source alone (the code is never imported or executed). Assumes real arithmetic, the numpy/math semantics of the transfer functions in sa/npmodel.py, "
        "and that an algebraic difference shows up at one of the witness valuations of its partition.")


def line(p, extra=None):
    return dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]),
                why_tests_cant=p["why"], anchors=dict(
                    files=p["files"], state=[dict(name=a, meaning=b, where=c) for a, b, c in p.get("state", ())],
                    mechanism=[dict(name=a, where=b) for a, b in p["mech"]], observe_at=list(p.get("observe", ())), hook_needed=None))


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w", encoding="utf-8") as f:
        for p in P:
            f.write(json.dumps(line(p), ensure_ascii=False) + "\n")
        for id, title, st, over, text, why, files, reason in NA:
            f.write(json.dumps(line(dict(id=id, title=title, statement=st, over=over, text=text, why=why, files=files,
                                         mech=[("implementation", files[0])])), ensure_ascii=False) + "\n")
    m = dict(version=1, setup_cmd='python3-vt -c "import numpy, mpmath"', checks=[
        dict(property=p["id"], quick_cmd="python3-vt check.py %s" % p["id"],
             thorough_cmd="VERIF_TIER=thorough python3-vt check.py %s" % p["id"],
             evidence_file="evidence/%s.json" % p["id"], technique=TECH, level="other", level_note=p["note"] + NOTE) for p in P],
        not_applicable=[dict(property=x[0], reason=x[7]) for x in NA],
        notes="No hooks in /repo. DESIGN.md explains the analysis; known_findings.txt lists genuine defects (fixed and open).")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w", encoding="utf-8") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
    assert all(len(x[1]) <= 80 for x in NA)


main()
