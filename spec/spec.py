#!/usr/bin/env python3
"""The one place where the properties are written down: generates properties.jsonl, MANIFEST.json and
harness/meta.json (run it after editing)."""
import json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
U, F = "util.rs", "fem.rs"
ALGEBRA = "symbolic execution of the translated source; rational normal form, z3/cvc5 (QF_NRA) for path conditions and goals"
TRUST = ("Every branch of the real code on a symbolic value is explored and each goal is discharged for all values of a path "
         "(exact normal form, or z3/cvc5 unsat); trusted: the source translator (f64 -> symbolic real), exact real arithmetic "
         "in place of rounding, and the solver. Counterexamples count only after the untranslated f64 code reproduces them. ")

P = []
def prop(id, title, statement, over, qtext, why, files, mech, bounds, note="", harness=None, state=None, observe=None, **kw):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=mech))
    if state:
        d["anchors"]["state"] = [dict(name=a, meaning=b) for a, b in state]
    if observe:
        d["anchors"]["observe_at"] = observe
    P.append((d, bounds, note, harness if harness is not None else [U, id.lower() + ".rs"], kw))

NA = []
def na(id, title, statement, over, qtext, why, files, mech, reason):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why, anchors=dict(files=files, mechanism=mech)), None, None, None, {}))
    NA.append(dict(property=id, reason=reason))

exec(open(os.path.join(V, "spec", "properties.py")).read())

checks, meta = [], {}
for d, bounds, note, harness, kw in P:
    assert len(d["title"]) <= 80, d["title"]
    assert d["statement"].count(". ") <= 2, d["id"]
    if bounds is None:
        continue
    meta[d["id"]] = dict(harness=harness, bounds=bounds, quick_s=600, quick_job_s=100, thorough_s=10800, thorough_job_s=3600)
    meta[d["id"]].update(kw)
    c = "python3 check.py %s --tier " % d["id"]
    checks.append(dict(property=d["id"], quick_cmd=c + "quick", thorough_cmd=c + "thorough", evidence_file="evidence/%s.json" % d["id"],
                       technique=ALGEBRA, level="model_checking", level_note=(TRUST + note).strip()))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for d, *_ in P:
        f.write(json.dumps(d) + "\n")
with open(os.path.join(V, "harness/meta.json"), "w") as f:
    json.dump(meta, f, indent=1)
    f.write("\n")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=NA,
                   notes="No hooks: the checks translate /repo's current source, so nothing in /repo is guarded. See DESIGN.md."), f, indent=1)
    f.write("\n")
print(len(checks), "claimed,", len(NA), "not applicable")
