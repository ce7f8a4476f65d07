"""Plant bugs: python3 tools/plant.py SPEC.py [--check] [--keep] [ids...]

SPEC.py defines BUGS, a list of dicts id, prop, edits [(file, old, new)], needs, breaks, demo.
Each bug is confirmed in a scratch copy (stable tests pass, the demonstration passes without and fails
with the change, only lines of the original repository are changed); with --check the property's quick
check runs against it; with --keep it is written to seeded/<id>/.
"""
import concurrent.futures
import json
import os
import re
import runpy
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BASE = "8147e9a"
PRE = '''import atexit, os, random, shutil, subprocess, sys, tempfile
REPO = os.getcwd()
sys.path.insert(0, REPO)
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
TMP = tempfile.mkdtemp()
os.chdir(TMP)
atexit.register(shutil.rmtree, TMP, True)
sys.stderr = open(os.devnull, "w")
import yaml
from flee import flee, spawning, moving, scoring, crawling
from flee.SimulationSettings import SimulationSettings as S


def settings(**kw):
    with open("s.yml", "w") as f:
        yaml.safe_dump(kw or {"log_levels": {"agent": 0}}, f)
    S.ReadFromYML("s.yml")


def expect(ok, text=""):
    if not ok:
        print("WRONG:", text)
        atexit._run_exitfuncs()
        os._exit(1)


'''
DEMO_SH = '''#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1
unset FLEE_TYPE_CHECK
exec /opt/venv/bin/python "$here/demo.py"
'''


def sh(cmd, cwd, env=None, timeout=300):
    e = dict(os.environ, **(env or {}))
    return subprocess.run(cmd, cwd=cwd, env=e, shell=True, capture_output=True, text=True, timeout=timeout)


def tests(copy):
    env = dict(PYTHONPATH=copy, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", FLEE_TYPE_CHECK="true", MPLBACKEND="Agg",
               OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMPI_MCA_btl="self")
    xml = os.path.join(copy, ".junit.xml")
    sh("/opt/venv/bin/python -m pytest -q -p no:cacheprovider -p no:xdist --randomly-dont-reorganize --randomly-seed=0 --timeout=300 "
       "--continue-on-collection-errors -o junit_family=xunit2 --junitxml=%s tests flee_benchmark_tests </dev/null" % xml, copy, env)
    out = os.path.join(copy, ".out.json")
    sh("/usr/bin/python3 /opt/vp/results.py %s junit:%s" % (out, xml), copy)
    o = json.load(open(out))
    passed = set(o.get("passed", o.get("pass", [])))
    return sorted(set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - passed)


def base_only(copy, diff):
    """Removed lines must come from the original repository."""
    foreign = []
    cur = None
    n = removed = 0
    for line in diff.splitlines():
        if line.startswith("--- a/"):
            cur = line[6:]
        m = re.match(r"@@ -(\d+)", line)
        if m:
            n = int(m.group(1))
            continue
        if cur is None or line.startswith(("---", "+++", "diff", "index")):
            continue
        if line.startswith("-"):
            removed += 1
            who = sh("git blame -l -s -L %d,%d HEAD -- %s" % (n, n, cur), copy).stdout
            sha = who.split()[0].lstrip("^")
            if sh("git merge-base --is-ancestor %s %s" % (sha, BASE), copy).returncode != 0:
                foreign.append(line)
            n += 1
        elif line.startswith(" "):
            n += 1
    return removed, foreign


def one(b, check, keep):
    out = {"id": b["id"], "prop": b["prop"]}
    top = tempfile.mkdtemp(prefix="plant-")
    copy = os.path.join(top, "repo")
    try:
        shutil.copytree(REPO, copy, symlinks=True)
        ddir = os.path.join(top, "demo")
        os.makedirs(ddir)
        open(os.path.join(ddir, "demo.py"), "w").write(PRE + b["demo"].lstrip("\n"))
        for name, text in b.get("files", {}).items():
            open(os.path.join(ddir, name), "w").write(text)
        open(os.path.join(ddir, "demo.sh"), "w").write(DEMO_SH)
        os.chmod(os.path.join(ddir, "demo.sh"), 0o755)
        r = sh("bash %s/demo.sh" % ddir, copy)
        out["demo_clean"] = r.returncode
        if r.returncode:
            out["demo_text"] = (r.stdout + r.stderr)[-1500:]
        for f, old, new in b["edits"]:
            p = os.path.join(copy, f)
            s = open(p, encoding="utf-8", newline="").read()
            if s.count(old) != 1:
                out["error"] = "%d matches in %s of %r" % (s.count(old), f, old)
                return out
            open(p, "w", encoding="utf-8", newline="").write(s.replace(old, new))
        diff = sh("git diff", copy).stdout
        removed, foreign = base_only(copy, diff)
        if foreign or not removed:
            out["error"] = "changes lines that are not original: %s (removed %d)" % (foreign, removed)
            return out
        out["tests_missing"] = tests(copy)
        r = sh("bash %s/demo.sh" % ddir, copy)
        out["demo_patched"] = r.returncode
        out["demo_says"] = r.stdout[-200:]
        ok = out["demo_clean"] == 0 and out["demo_patched"] != 0 and not out["tests_missing"]
        out["ok"] = ok
        if ok and check:
            out["caught"] = {}
            for p in [b["prop"]] + b.get("also", []):
                r = sh("bash %s/run.sh %s quick" % (VERIF, p), VERIF, {"FLEE_REPO": copy, "VERIF_SEED": os.environ.get("VERIF_SEED", "1")}, 900)
                v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
                out["caught"][p] = (r.returncode, len(v), (r.stdout + r.stderr)[-300:] if r.returncode not in (0, 1) else "")
        if ok and keep:
            dest = os.path.join(VERIF, "seeded", b["id"])
            shutil.rmtree(dest, True)
            shutil.copytree(ddir, dest)
            open(os.path.join(dest, "patch.diff"), "w").write(diff)
            json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(dest, "meta.json"), "w"), indent=1)
    except Exception as e:  # pylint: disable=broad-except
        out["error"] = repr(e)
    finally:
        shutil.rmtree(top, True)
    return out


def main():
    args = [a for a in sys.argv[2:] if not a.startswith("--")]
    bugs = [b for b in runpy.run_path(sys.argv[1])["BUGS"] if not args or b["id"] in args]
    check, keep = "--check" in sys.argv, "--keep" in sys.argv
    with concurrent.futures.ThreadPoolExecutor(3 if check else 6) as ex:
        for out in ex.map(lambda b: one(b, check, keep), bugs):
            print(json.dumps(out), flush=True)


if __name__ == "__main__":
    main()
