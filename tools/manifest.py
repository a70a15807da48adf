"""Writes MANIFEST.json from the harnesses that exist (run by hand)."""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = ("symbolic execution of the real Python source (AST-instrumented at "
        "import), z3 decides every branch and assertion over all inputs "
        "within the bounds; counterexamples replayed on the real code")
NOTE = ("Bounded: holds for every value of the symbolic inputs within the "
        "sizes the evidence file lists, nothing is claimed outside them. "
        "Trusted: the models of builtins and library calls (each explored "
        "path is sampled and replayed on the real code, outcomes compared), "
        "primitives of hash, AES and RSA as uninterpreted functions with "
        "their inverse laws, z3.")
EXTRA = {}
checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    i = json.loads(line)["id"]
    if os.path.exists(os.path.join(HERE, "harness", i.lower() + ".py")):
        checks.append({
            "property": i,
            "quick_cmd": "./check %s quick" % i,
            "thorough_cmd": "./check %s thorough" % i,
            "technique": TECH, "level": "model_checking",
            "level_note": NOTE + EXTRA.get(i, "")})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1,
     "setup_cmd": "python3-vt -c 'import z3' && /opt/venv/bin/python -c "
                  "'import Cryptodome'",
     "checks": checks, "not_applicable": na,
     "notes": "./check ID quick|thorough [part of a case name]; "
              "VERIF_VERBOSE=1 lists the cases."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
