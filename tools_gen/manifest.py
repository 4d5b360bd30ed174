#!/usr/bin/env python3
# Writes /verif/MANIFEST.json.
import json
T = {
 "W": "explicit-state model checking of a reference automaton (all states and transitions) with exhaustive conformance replay (W-method and bounded spaces) on the real parser",
}
N_lang = ("Every state and transition of the reference automaton is visited, and every input of the listed finite spaces is run on the real code and compared; "
          "inputs outside these spaces are covered only as far as the W-method argument goes (implementations with at most k more states than the model, k=1 quick, k=2 thorough). "
          "Trusts the reference automaton as the statement of the grammar, and the Go toolchain.")
C = {}
def c(id, technique, note): C[id] = (technique, note)
for i in ("U01","U02","U03"): c(i, T["W"], N_lang)
c("U04", T["W"], "As for the languages; the expected parts are recomputed from each accepted input by independent whole-string operations. " + N_lang)
c("U05", T["W"], N_lang)
c("U10", T["W"], "The totality contract is an invariant checked on every execution of the explored spaces, for the three modes and a list of odd mode values; a hang, a crash or a memory blow-up is attributed to its input by a watchdog. " + N_lang)
c("U11", T["W"], N_lang + " The messages are not fixed: they must be the same for one part, different between parts, and name the part.")
c("U21", T["W"], N_lang)
exec(open(__file__.replace("manifest.py", "manifest_more.py")).read()) if __import__("os").path.exists(__file__.replace("manifest.py", "manifest_more.py")) else None
checks = []
for id in sorted(C):
    t, n = C[id]
    checks.append({"property": id, "quick_cmd": "./run.sh " + id, "thorough_cmd": "./run.sh " + id + " thorough", "technique": t, "level": "model_checking", "level_note": n})
allp = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
na = [{"property": p, "reason": "not built yet"} for p in allp if p not in C]
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: what needs instrumentation works on an instrumented copy of the current sources. The tier is taken from VERIF_TIER. See DESIGN.md."},
          open("/verif/MANIFEST.json", "w"), indent=1)
