"""Writes MANIFEST.json from properties.jsonl and the checks."""
import json, os
from . import build, runner

NOTES = ("Everything is decided by generated-input search (Hypothesis) against explicit oracles; a pass means that no counterexample was found among the "
         "cases counted in the evidence file. ")


def main():
    checks, missing = [], []
    for line in open(os.path.join(build.VERIF, "properties.jsonl")):
        p = json.loads(line)["id"]
        if not os.path.exists(os.path.join(build.VERIF, f"vlib/checks/{p.lower()}.py")):
            missing.append({"property": p, "reason": "no check has been built yet"})
            continue
        c = runner.load_check(p)
        note = NOTES + "Rule: " + c.rule + (" Assumes: " + " ".join(c.assumptions) if c.assumptions else "")
        checks.append({"property": p, "quick_cmd": f"./run.py {p} quick", "thorough_cmd": f"./run.py {p} thorough", "technique": c.technique,
                       "level": c.level, "level_note": note})
    m = {"version": 1, "setup_cmd": "/opt/veriftools/pyvenv/bin/python3 -m vlib.build", "checks": checks, "not_applicable": missing,
         "notes": "No hooks in /repo: every check uses the public API, the CLI and the procedural macro as a user would. Replay a failure with ./run.py replay FILE."}
    with open(os.path.join(build.VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
