"""python3 tools/seeded.py [--table] [ids...]: run the check of each planted bug against it (in a copy of /repo), note the result in
tools/caught.json and rewrite the table of planted bugs in DESIGN.md.  --table only rewrites the table."""
import concurrent.futures
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, "seeded")
NOTE = os.path.join(VERIF, "tools", "caught.json")


def one(i):
    m = json.load(open(os.path.join(SEEDED, i, "meta.json")))
    top = tempfile.mkdtemp(prefix="seeded-")
    try:
        copy = os.path.join(top, "repo")
        shutil.copytree("/repo", copy, symlinks=True)
        r = subprocess.run(["git", "apply", os.path.join(SEEDED, i, "patch.diff")], cwd=copy, capture_output=True, text=True)
        if r.returncode:
            return i, "does not apply"
        r = subprocess.run(["bash", os.path.join(VERIF, "run.sh"), m["property"], "quick"], capture_output=True, text=True,
                           env=dict(os.environ, FLEE_REPO=copy, VERIF_SEED=os.environ.get("VERIF_SEED", "1")), timeout=1200)
        keys = sorted({l.strip()[1:].split("]")[0] for l in r.stdout.splitlines() if l.strip().startswith("[")})
        return i, {0: "missed", 1: "caught: " + ", ".join(keys)[:160]}.get(r.returncode, "error %d" % r.returncode)
    finally:
        shutil.rmtree(top, True)


def table():
    note = json.load(open(NOTE)) if os.path.exists(NOTE) else {}
    rows = ["| bug | property | what it breaks | needs | quick check |", "|---|---|---|---|---|"]
    for i in sorted(os.listdir(SEEDED)):
        m = json.load(open(os.path.join(SEEDED, i, "meta.json")))
        rows.append("| %s | %s | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"], m["needs"], note.get(i, "not run")))
    p = os.path.join(VERIF, "DESIGN.md")
    s = open(p).read()
    mark = "<!-- planted -->"
    head = s.split(mark)[0]
    open(p, "w").write(head + mark + "\n" + "\n".join(rows) + "\n")


def main():
    if "--table" not in sys.argv:
        ids = [a for a in sys.argv[1:] if not a.startswith("--")] or sorted(os.listdir(SEEDED))
        with concurrent.futures.ThreadPoolExecutor(3) as ex:
            for i, what in ex.map(one, ids):
                print(i, what, flush=True)
                note = json.load(open(NOTE)) if os.path.exists(NOTE) else {}
                note[i] = what
                json.dump(note, open(NOTE, "w"), indent=1, sort_keys=True)
    table()


if __name__ == "__main__":
    main()
