#!/usr/bin/env python3
"""Writes MANIFEST.json.  PROVED: properties whose contracts the engines discharge
completely on the unchanged tree, with what the proof leaves to the bounded part."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NUM = "numbers are exact (reals and unbounded integers); numpy/scipy/libpysal operations follow the contracts in pyvc/lib.py"
PROVED = {
    "M01": "Markov.__init__ for every n, t, number and type of class labels, inferred or given",
    "M02": "Markov.__init__, Spatial_Markov._calc, fill_empty_diagonals, for every input; rounding of the division is bounded only",
    "M03": "fill_empty_diagonals and its 2-D and 3-D helpers, every shape; other dimensions raise",
    "M04": "Markov.__init__ hands quantecon.MarkovChain the filled chain and reports its classes; quantecon's classes are an assumed contract, exercised by the bounded part",
    "M05": "prais, sojourn_time, Markov.sojourn_time, every k",
    "E01": "steady_state, _steady_state_ergodic, Markov.steady_state, Spatial_Markov.s/S; assumes eig returns eigenpairs, "
           "Perron's theorem, and quantecon's stationary distributions (exercised by the bounded part)",
    "E02": "mfpt (any class structure), _mfpt_ergodic, Markov.mfpt, Spatial_Markov.f/F; assumes inv and solve return "
           "solutions, that I - Q is regular on the states from which arrival is sure, the number of classes by quantecon, and "
           "that 'may never arrive' is: can reach, avoiding the target, a state that cannot reach it",
    "E03": "var_mfpt_ergodic: the second-moment equations; assumes inv returns the inverse; sign and finiteness are bounded only",
    "B01": "markov_mobility, all five measures; det and eigenvalues are uninterpreted functions of the matrix",
    "S01": "Spatial_Markov counts, every n, t, k, m",
    "S02": "classification and lag loops; pysal mapclassify/np.digitize/quantile by assumed contract",
    "S03": "chi2 list, x2, shtest, permutation loop and pseudo p-value; the observed results before and after the permutations",
    "H01": "chi2, every size", "H02": "Homogeneity_Results and summary's numbers, every number of regimes and classes",
    "H03": "kullback, every number of regimes and classes; chi2 tail uninterpreted; non-negativity is bounded only",
    "L01": "LISA_Markov.__init__ move types, quadrant chain, significant moves; Moran_Local by assumed contract",
    "L02": "LISA_Markov.spillover with its inlined Graph and connected_components: cluster membership, labels and spill-over of every period, every graph",
    "L03": "expected_t and chi_2 as the code defines them, the axis of the averages excepted: known finding L03-axes",
    "R01": "FullRank_Markov, GeoRank_Markov; scipy rankdata/argsort by assumed contract",
    "T01": "Tau.__init__ and Tau._calc, the search tree included (its shape and counts are loop invariants, termination "
           "included): the four counts are the numbers of pairs, for every data of every length; assumes that counting over the "
           "sorted positions is counting over the observations (the sort is a bijection), sqrt and erfc uninterpreted",
    "T02": "Tau_Local, Tau_Local_Neighborhood, Tau_Regional", "T03": "SpatialTau._calc, Tau_Local_Neighbor._calc",
    "T04": "Theta", "T05": "permutation loops and p-values of the four classes, every number of permutations",
    "Q01": "_om_pair_dist and _om_dist: dynamic programme equals the minimal alignment cost, every length",
    "Q02": "interval, arbitrary, markov, hamming, user costs, missing specification; the transition ('tran') type and hamming's ValueError are bounded only",
    "D01": "Rose.__init__, _calc, every k and n", "D02": "Rose.permute, every number of permutations, repeated calls",
    "C01": "check_contiguity and is_component, every graph and list, termination included",
    "C02": "Graph.add_edge, connected_components, dfs: partition, edges, frame, termination",
    "P01": "the hot/cold-spot table, the heat-map data, the rose and composite figures: what each hands to the drawing "
           "libraries; those calls are assumed free of effects on giddy's data, Moran_Local by assumed contract",
    "F01": "the frames of every function under contract in the other properties (arguments, weights objects apart from the "
           "transform, module-level state, default values), and the results computed when asked for of Markov, "
           "Spatial_Markov, LISA_Markov, FullRank_Markov and GeoRank_Markov: from every state that histories of accesses lead "
           "to, the same value, nothing fitted changed, no random number drawn. Invariants the frames of the worklist loops rest "
           "on are obligations of C01, C02, L02, T01; bounded only: steady states of several recurrent classes, "
           "reports printed twice, the transition type of Sequence",
    "U01": "get_lower, shuffle_matrix, every size",
}
BOUNDED = {
}


def main():
    checks = []
    ids = [json.loads(x)["id"] for x in open(os.path.join(HERE, "properties.jsonl"))]
    for i in ids:
        if i in PROVED:
            tech = "contract-based deductive verification: pyvc obligations discharged from the current source; " \
                "contracts also run on the real code"
            note = f"Proved for all inputs: {PROVED[i]}. Assumes: {NUM}. Where a changed source leaves an " \
                "obligation undecided the run is reported as exploration and the run-time contract decides."
            lvl = "proof"
        else:
            tech = "contract-based verification, bounded: run-time contracts on the real code"
            note = f"Bounded, not proved ({BOUNDED[i]}): the contract is checked on generated inputs of the real code " \
                "against an independent oracle."
            lvl = "exploration"
        checks.append({"property": i, "quick_cmd": f"python3-vt bin/check.py {i} --tier quick",
                       "thorough_cmd": f"python3-vt bin/check.py {i} --tier thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": tech, "level": lvl, "level_note": note})
    m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": [],
         "notes": "Engines: pyvc/interp.py+nf.py (array programs), pyvc/hoare.py (worklist loops by invariants). "
                  "No hooks in /repo; its commits over the base are fix: commits, listed in known_findings.json."}
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)


if __name__ == "__main__":
    main()
