"""partial.py ROOT FEATURE: ROOT/target/partial-FEATURE/{repo,harness}, a view of /repo in which the
modules outside FEATURE (cs: Chomsky-Schützenberger parsing, auto: automata) are left empty, and the
harness on top of it. Used only where the whole library does not compile."""
import os
import shutil
import sys

root, feature = sys.argv[1:3]
AUTO = {
    "approximation/mod.rs": "pub mod equivalence_classes;\n",
    "automata/mod.rs": "",
    "dyck/multiple/mod.rs": "",
    "recognisable/mod.rs": "pub mod configuration;\n",
    "util/integerisable.rs": "",
    "util/push_down.rs": "",
}
CS = {"grammars/lcfrs/csparsing/mod.rs": ""}
empty = {}
if feature != "auto":
    empty.update(AUTO)
if feature != "cs":
    empty.update(CS)
base = f"{root}/target/partial-{feature}"
shutil.rmtree(base, ignore_errors=True)
repo = f"{base}/repo"
shutil.copytree("/repo/src", f"{repo}/src")
for d in ("search", "unique-heap", "vecmultimap"):
    shutil.copytree(f"/repo/{d}", f"{repo}/{d}", ignore=shutil.ignore_patterns("target"))
shutil.copy("/repo/Cargo.toml", f"{repo}/Cargo.toml")
for name, text in empty.items():
    with open(f"{repo}/src/{name}", "w") as f:
        f.write(text)
shutil.copytree(f"{root}/harness", f"{base}/harness", ignore=shutil.ignore_patterns("target"))
for name in ("Cargo.toml",):
    with open(f"{base}/harness/{name}") as f:
        t = f.read()
    t = t.replace('"/repo', f'"{repo}')
    with open(f"{base}/harness/{name}", "w") as f:
        f.write(t)
