import json, sys
CLAIMED = sys.argv[1:] or ["C%02d" % i for i in list(range(1, 14)) + [15, 16, 17]]
NOTE = {
 "C01": "Every function from prepare* to calc_path under contract; Verus discharges optimality and completeness for all graphs, parameters and queries.",
 "C02": "Returned node lists are proved to be walks of the frozen input graph with the reported weight (route/walk postconditions).",
 "C03": "Postcondition over the minimum of all source/target combinations, all list shapes and weights.",
 "C04": "Query postconditions depend on graph and query only; the calculator invariant is preserved by every call, the flag counter wraps correctly for any number of queries.",
 "C05": "Witness search and node contraction are proved for arbitrary settled-node limits and arbitrary (heuristic) priorities; distances between remaining nodes are preserved.",
 "C06": "run_contraction_with_order is proved for every permutation; wrong lengths return Err.",
 "C07": "ranks are proved a permutation and, with an order, its inverse; get_node_ordering inverts them.",
 "C08": "Operations of InputGraph against a multimap view: minimum weight per pair, sorted, deduplicated.",
 "C09": "Unconditional postconditions: a call that returns implies the graph was in the right mode.",
 "C10": "Encode/decode functions against spec functions and a round-trip lemma; a number that does not fit makes the call not return.",
 "C11": "Machine arithmetic is checked: saturating sums against mathematical sums, WEIGHT_MAX as infinity.",
 "C12": "Absence of panics, index errors and overflows for valid inputs, and a decreases measure on every loop and recursion.",
 "C13": "Unconditional postconditions: a query that returns had valid arguments.",
 "C15": "Contracts of to_file, from_file, to_dimacs_file, from_dimacs_file, read_arc_line over texts (decimal numbers, fields, lines) and round-trip theorems; assumed: stand-ins for std::fs::File, BufReader, BufWriter, str::parse, split_whitespace (contracts/spec_io.rs).",
 "C16": "Contracts of serialize_32/deserialize_32 and round-trip theorems over an arbitrary lossless format; assumed: serde's derived implementations write and read every field (checked per run: derived, no serde attribute on any field).",
 "C17": "Round-trip theorem over an arbitrary lossless format and the contracts of InputGraph; assumed: serde's derived implementations write and read every field (checked per run: derived, no serde attribute on any field).",
}
checks = [dict(property=p, quick_cmd="python3 tool/check.py %s" % p, thorough_cmd="python3 tool/check.py %s --thorough" % p,
               technique="deductive verification with contracts (Verus) of the mechanically extracted real code",
               level="proof",
               level_note=NOTE[p] + " Trusted: Verus/Z3, the extractor's normalisations, assumed contracts on std collections and priority-queue (contracts/vp.rs). A failed obligation is replayed by a search on the real code (bounded).")
          for p in CLAIMED]
na = [dict(property="C14", reason="a relation between two runs whose only source of difference is the tie order inside the priority-queue crate and floating point: no functional contract over the code here can express or decide it")]
for i in range(1, 14):
    p = "C%02d" % i
    if p not in CLAIMED:
        na.append(dict(property=p, reason="check under construction"))
json.dump(dict(version=1, setup_cmd="bash tool/setup.sh", checks=checks, not_applicable=na), open("/verif/MANIFEST.json", "w"), indent=1)
