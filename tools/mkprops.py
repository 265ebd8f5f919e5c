#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run by hand, output committed)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
U, M, C = "libs/utils/", "libs/macro/", "libs/compiler/"
P = []


def p(id, title, statement, over, qtext, why, files, mech, technique, note, observe=None):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why
                   , anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]
                                  , observe_at=observe or [], hook_needed=None)), technique, note))


SAN = "Trusts gcc, the sanitizers and the reference model in the harness; nothing is claimed beyond the stated bounds."
ORA = "Trusts gcc, Python and the reference model in the check; nothing is claimed beyond the stated bounds."
ENUM = "bounded exhaustive enumeration of "

exec(open(os.path.join(V, "tools", "props.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for d, _, _ in P:
        assert len(d["title"]) <= 80, d["id"]
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
checks, na = [], []
for d, t, n in P:
    i = d["id"]
    if os.path.exists(os.path.join(V, "checks", i + ".py")):
        checks.append(dict(property=i, quick_cmd="python3 checks/%s.py" % i
                           , thorough_cmd="VERIF_TIER=thorough python3 checks/%s.py" % i
                           , evidence_file="evidence/%s.json" % i, technique=t, level="model_checking", level_note=n))
    else:
        na.append(dict(property=i, reason="no MIPS tools are installed: there is no assembler, linker, run-time library or machine to execute the output on, so executions cannot be enumerated on the real artefact; the property is left to C02, C03 and C04, which enumerate the MIPS target only as far as acceptance, determinism and selection go"))
json.dump(dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na
               , notes="No hooks in /repo: every check compiles /repo's working tree into a scratch directory of its own.")
          , open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(checks), "checks,", len(na), "not claimed")
