"""Writes MANIFEST.json from properties.jsonl and the checks the harness has (vh list)."""
import json
import os
import subprocess

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
have = subprocess.run([f"{ROOT}/target/debug/vh", "list"], capture_output=True, text=True, check=True).stdout.split()
TECH = {
    "S": "model-based property testing: generated operation sequences and graphs against a reference model",
    "U": "model-based property testing: generated operation sequences and values against a reference model",
    "G": "property testing: generated texts and grammars against the structure they were generated from",
    "D": "property testing: generated derivation trees against an independent evaluator and format reader",
    "A": "differential property testing: generated grammars, automata and words against reference enumeration",
    "X": "metamorphic and differential property testing on generated grammars, automata and relabellings",
    "C": "differential property testing: generated LCFRS and sentences against a reference parser that enumerates all derivations",
    "Y": "differential property testing against a definition-level recogniser",
    "I": "end-to-end property testing of the binary on generated grammars and inputs against the reference parser",
}
SPECIAL = {"G03": "fuzzing of the text readers with generated and mutated inputs, crash and work-budget oracle, negative cases"}
NOTE = "Search over generated inputs with a fixed seed: a violation is a concrete, shrunk, replayable case; silence means none among the cases counted in the evidence."
HOOK = "196605cab037a540353dd418efbae669b4f20d80"
checks, na = [], []
for line in open(f"{ROOT}/properties.jsonl"):
    i = json.loads(line)["id"]
    if i in have:
        checks.append({
            "property": i,
            "quick_cmd": f"./check {i} quick",
            "thorough_cmd": f"./check {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": SPECIAL.get(i, TECH[i[0]]),
            "level": "exploration",
            "level_note": NOTE + " Trusted: the harness's reference model and the stand-in for the integeriser dependency.",
        })
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {
    "version": 1,
    "setup_cmd": "./check --build",
    "hooks": {
        "guard": "cfg(verif_hooks)",
        "enable": "rustflags = [\"--cfg\", \"verif_hooks\"] in harness/.cargo/config.toml; everything else goes through the public interface and the command line program",
        "source_commits": [HOOK],
    },
    "checks": checks,
    "not_applicable": na,
    "notes": "Replay a reported case with ./check --replay FILE.",
}
with open(f"{ROOT}/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(checks), "checks,", len(na), "not claimed")
