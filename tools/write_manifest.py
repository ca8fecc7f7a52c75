#!/usr/bin/env python3
"""Authoring helper: (re)writes MANIFEST.json. Not run by any check."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VAL = "abstract interpretation of MIR to gated value terms; the terms reaching the result are compared with the required form"
EFF = "abstract interpretation of MIR with an effect log; obligations on the guards, order and values of effects"
TY = "type-checker queries (trait solver) over the public types and futures, closed over field types"
CALL = "abstract interpretation of MIR; obligations on every reachable call and effect"
T = {
 "C26": TY, "C37": TY, "C38": CALL, "C35": "abstract interpretation of MIR: reachability condition of every panic site", "C36": EFF,
}
for n in (22, 23, 25, 29, 30, 31, 32, 33, 34):
    T["C%d" % n] = EFF
N = {
 "C26": "Exact for the queried traits; a program printing a secret by other means (a public accessor) is C25's subject.",
 "C37": "Exact: the compiler's own trait solver answers for each exported type and the concrete future types.",
 "C38": "Every call reachable from the two async operations, through local code, is compared with a list of blocking library calls; the insides of reqwest/tokio are trusted to be asynchronous.",
 "C35": "Panics in local code and the documented panics of the modelled library calls, over all arguments and responses; panics inside unmodelled library internals (allocation failure, OS errors of the runtime) are trusted not to occur.",
}
G = "All arguments, header/query sets, key texts, responses, cache contents and clock readings are left arbitrary; nothing is bounded or sampled. Trusts rustc's MIR, the MIR reader, the interpreter and its library models. An obligation the analysis cannot read is reported UNDECIDED (evidence), not as held."
NA = [
 ("C40", "Acceptance is decided by Google's servers; no source of theirs is in the repository, so no static argument over this code can settle it (C01-C14 cover the parts that the code determines)."),
 ("C41", "Bounds on time and memory of library calls (sorting, JSON, RSA) and on waiting for a remote peer are quantities of execution and of the HTTP client's configuration defaults; no sound static cost bound over reqwest/tokio is in reach. The known fact - requests are sent without a timeout - is recorded in DESIGN.md."),
]
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
na = {i for i, _ in NA}
m = dict(version=1, setup_cmd="python3 /verif/tools/setup.py",
  checks=[dict(property=i, quick_cmd="python3 check.py %s" % i, thorough_cmd="VERIF_TIER=thorough python3 check.py %s" % i,
    technique="static analysis: " + T.get(i, VAL), level="other", level_note=N.get(i, "") + (" " if i in N else "") + G) for i in ids if i not in na],
  not_applicable=[dict(property=p, reason=r) for p, r in NA],
  notes="check.py extracts facts (MIR, types, impls, trait queries) from /repo's current source with the rustc wrapper in driver/ and decides one property. No hooks in /repo are needed; the commits there are repairs (known_findings.txt).")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
