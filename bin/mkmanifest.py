#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
DESIGN = "TLC checks the design exhaustively for the listed constants; "
CONF = "the real code is bound to it by traces: runs generated from the transitions of the specification (and random longer ones) that TLC has to accept step by step. "
C = {}


def claim(p, spec, level, note):
    C[p] = dict(property=p, quick_cmd="python3 bin/check.py %s quick" % p, thorough_cmd="python3 bin/check.py %s thorough" % p,
                technique="TLA+ specification (%s) checked with TLC; trace validation of the real code against it" % spec,
                level=level, level_note=note)


SH = DESIGN + CONF + "The tss-lib protocol instance is replaced by a recorder; parties of 2 to 7, two to three digests per share; larger alphabets by random scripts."
for p in ["C05", "C06", "C07", "C08", "C10", "C12"]:
    claim(p, "Shares.tla", "model_checking", SH)

exec(open(os.path.join(V, "bin", "claims.py")).read()) if os.path.exists(os.path.join(V, "bin", "claims.py")) else None

NA = {}
m = dict(version=1,
         setup_cmd="python3 bin/setup.py",
         hooks=dict(guard="verif", enable="go build tag: -tags verif",
                    source_commits=["bcdfabc"]),
         checks=[C[p] for p in props if p in C],
         not_applicable=[dict(property=p, reason=NA.get(p, "The check for this property is not finished.")) for p in props if p not in C],
         notes="bin/check.py decides one property; spec/ has the specifications, harness/ the driver of the real code.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed")
