"""Writes properties.jsonl and MANIFEST.json from one table.  Run after changing it."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)

P = []


def prop(id, title, statement, over, text, why, files, mech, note, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  note=note, observe=list(observe), state=list(state)))


MI = "MultiIndices/"
prop("C01", "A multi-index set is an append-only, limiter-respecting, indexed collection",
     "After any sequence of creations, insertions, unions, sums, copies, assignments, expansions and limiter changes over several sets, each set lists each active multi-index exactly once, in order of activation, every active multi-index satisfies the current limiter, and index<->multi-index lookup, activity queries, size and per-dimension maximum orders all agree with that list. An operation adds exactly the multi-indices it names and the limiter accepts, returns the documented index or count (-1 when rejected), keeps every existing index, and never touches another set. A refused limiter or a refused assignment leaves the set as it was.",
     ["histories", "inputs"], "all operation histories over several sets with changing limiters and any dimension; exhaustively within the model's bounds, random beyond",
     "The unit tests run a dozen fixed histories in 2-3 dimensions, mostly downward closed and with one limiter; bookkeeping bugs need particular orders of limiter changes, gaps and unions.",
     ["src/MultiIndices/MultiIndexSet.cpp", "MParT/MultiIndices/MultiIndexSet.h"],
     [("active/global index maps", "src/MultiIndices/MultiIndexSet.cpp:AddActive, Activate, Union, SetLimiter, operator="), ("maximum orders", "MultiIndexSet::Activate")],
     "Exhaustive TLC model of the set (608+104+276 abstract states, every transition replayable on the real code) plus random histories, each step validated against MISet.tla; bounded by history length and dimension <= 5.")
prop("C02", "Margins, frontiers and expansions follow from the active set alone",
     "For any active set, downward closed or not, and any limiter, the margin, reduced margin, frontier, strict frontier, expandability, admissibility and neighbour counts reported are exactly those defined by the active multi-indices and the limiter. Expanding a term, expanding the frontier, and forcibly activating or expanding activate exactly the admissible forward neighbours, respectively the requested terms with all missing backward neighbours, and return each newly active index once.",
     ["histories", "inputs"], "all sets reachable by operation histories, including sets with gaps and changed limiters",
     "Tests check the collections on a few downward-closed sets; nothing checks them after every operation, for sets with holes or non-closed limiters.",
     ["src/MultiIndices/MultiIndexSet.cpp", "src/MultiIndices/MultiIndexNeighborhood.cpp"],
     [("neighbour edges kept between known multi-indices", "AddForwardNeighbors, AddBackwardNeighbors, SetLimiter"), ("expansion", "Expand, ForciblyExpand, ForciblyActivate")],
     "Same histories as C01; every query compared after every step with the set-theoretic definitions in MISet.tla, which TLC also checks for consistency (frontier vs reduced margin, closedness preservation).")
prop("C03", "Multi-indices are values with consistent observers and a strict total order",
     "A multi-index behaves as a fixed-length vector of naturals: however it was built or updated, component access, dense form, sum, maximum, number of nonzeros and printed form agree, equality means equal length and components, and the comparison operators form one strict total order (length, total order, maximum, then lexicographic). Access outside the length is refused, and forward/backward neighbours are exactly the vectors one unit away.",
     ["histories", "inputs"], "all construction routes and update sequences, all pairs",
     "Tests compare a handful of literals; stale cached totals after updates or asymmetric comparisons show only for particular sequences and pairs.",
     ["src/MultiIndices/MultiIndex.cpp", "src/MultiIndices/MultiIndexNeighborhood.cpp"],
     [("sparse storage with cached totals", "MultiIndex::Set, constructors"), ("ordering", "MultiIndex::operator<")],
     "Random register-machine histories validated step by step against the dense-vector model.")
prop("C04", "Factories, limiters and snapshots hold exactly the specified multi-indices",
     "Total-order, tensor-product and matrix factories produce exactly the multi-indices of their definition that the limiter accepts, in the documented order, and each limiter (total order, per-dimension degree, dimension range, anisotropic, and/or/xor) accepts exactly what it documents. A fixed set, compressed or dense, holds the multi-indices of its source at the moment of creation in the same order, its storage arrays, lookups and maximum degrees describe exactly those, and later changes to the source do not reach it.",
     ["inputs", "histories"], "all dimensions, orders and limiter combinations; all later changes to the source",
     "Tests check sizes of a few sets; contents, order, absent look-ups and independence from later changes are not checked for most configurations.",
     ["src/MultiIndices/FixedMultiIndexSet.cpp", "src/MultiIndices/MultiIndexSet.cpp", "MParT/MultiIndices/MultiIndexLimiter.h", "src/MultiIndices/MultiIndexLimiter.cpp"],
     [("recursive fills", "RecursiveTotalOrderFill, RecursiveTensorFill, FillTotalOrder"), ("compressed storage", "MultiIndexSet::Fix")],
     "All total-order/tensor sets up to dimension 5 plus random limiter trees probed on full boxes, compared with set comprehensions in TLA+.")
exec(open(os.path.join(ROOT, "tools", "props_rest.py")).read())


def main():
    from vf.checks import CHECKS
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                                "anchors": {"files": p["files"], "state": [dict(zip(("name", "meaning", "where"), s)) for s in p["state"]],
                                            "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                                            "observe_at": p["observe"] or ["public API return values and arrays"], "hook_needed": None}}) + "\n")
    man = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": [], "not_applicable": [],
           "notes": "Specification in TLA+ (spec/), checked with TLC and bound to the code by trace validation; see DESIGN.md. No hooks in /repo were needed: the API exposes the abstract state."}
    for p in P:
        if p["id"] in CHECKS:
            man["checks"].append({"property": p["id"], "quick_cmd": "python3 run.py check %s quick" % p["id"],
                                  "thorough_cmd": "python3 run.py check %s thorough" % p["id"],
                                  "evidence_file": "evidence/%s.json" % p["id"],
                                  "technique": "TLA+ specification with TLC: model checking and trace validation of the real code",
                                  "level": "model_checking", "level_note": p["note"]})
        else:
            man["not_applicable"].append({"property": p["id"], "reason": p.get("na", "not claimed: its check is not built yet")})
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1); f.write("\n")


main()
