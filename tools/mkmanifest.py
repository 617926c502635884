"""Writes MANIFEST.json from the registered checks."""
import json, pathlib, sys
ROOT = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT))
from bsa import checks

TECH = {
    "C19": "static analysis: ambiguity analysis (product automata) of every regular expression found in the grammar and the syntax trees",
    "C17": "static analysis: effect analysis over the syntax trees (abstract interpretation plus a scan of every call, import and attribute)",
    "C18": "static analysis: abstract interpretation of the syntax trees, checked against the TypedDict declarations read from the sources",
    "C21": "static analysis: reachability over the LALR tables per layout position, automata for comment texts, abstract interpretation",
    "C22": "static analysis: inclusion and prefix obligations between terminal automata per LALR lexer state, abstract interpretation",
    "C10": "static analysis: abstract interpretation over templates of all operator pairs, with the LALR tables built from the grammar",
    "C16": "static analysis: alias and shared-state analysis by abstract interpretation of pairs of parses with poisoned results",
    "C23": "static analysis: exhaustiveness of conversion steps over the grammar's productions and exception analysis by abstract interpretation",
}
DEFAULT = "static analysis: abstract interpretation of the package's syntax trees over regular-language string domains and the grammar's LALR tables"
NOTE = ("Decides all words of the holes and all values of opaque sub-expressions for the enumerated construct combinations; construct "
        "combinations beyond those (deeper nesting, longer lists) are covered by compositionality only. Undecided obligations are listed in the evidence.")

out = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": []}
ids = [json.loads(l)["id"] for l in (ROOT / "properties.jsonl").read_text().splitlines()]
for i in ids:
    if i in checks.CHECKS:
        out["checks"].append({"property": i, "quick_cmd": f"/opt/venv/bin/python check.py {i}",
                              "thorough_cmd": f"VERIF_TIER=thorough /opt/venv/bin/python check.py {i}",
                              "technique": TECH.get(i, DEFAULT), "level": "other", "level_note": NOTE})
    else:
        out["not_applicable"].append({"property": i, "reason": "no check yet"})
(ROOT / "MANIFEST.json").write_text(json.dumps(out, indent=1) + "\n")
