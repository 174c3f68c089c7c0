#!/usr/bin/env python3
"""Confirm and store planted bugs: plant.py SPECFILE [id...]. A spec file defines BUGS: dicts with id, property, edits
[(file, old, new)], demo (python source, run with /opt/venv/bin/python), needs, breaks. Applies each to /repo, builds, runs the
stable tests and the demonstration both ways, stores seeded/<id>/, runs the property's check, and undoes the edit."""
import json
import os
import runpy
import shutil
import subprocess
import sys

REPO = "/repo"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def tests_ok():
    sh("bash /opt/vp/test.sh /tmp/plant_out.json")
    try:
        out = json.load(open("/tmp/plant_out.json"))
    except OSError:
        return False, ["no output"]
    base = json.load(open("/opt/vp/BASELINE.json"))

    def passed(d):
        for k in ("passed", "stable", "tests"):
            if isinstance(d, dict) and k in d:
                v = d[k]
                if isinstance(v, dict):
                    return {t for t, r in v.items() if r in ("passed", True)}
                return set(v)
        return set(d)
    miss = passed(base) - passed(out)
    return not miss, sorted(miss)[:5]


def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    want = sys.argv[2:]
    for b in bugs:
        if want and b["id"] not in want:
            continue
        d = os.path.join(VERIF, "seeded", b["id"])
        assert not sh("git -C /repo status --porcelain").stdout.strip(), "repo not clean"
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        with open(os.path.join(d, "demo.py"), "w") as fh:
            fh.write(b["demo"].lstrip("\n"))
        with open(os.path.join(d, "demo.sh"), "w") as fh:
            fh.write('#!/bin/bash\nPYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        with open(os.path.join(d, "meta.json"), "w") as fh:
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, fh, indent=1)
        r0 = sh(f"bash {d}/demo.sh", cwd=REPO)
        try:
            for f, old, new in b["edits"]:
                p = os.path.join(REPO, "src/pysatl_criterion", f)
                s = open(p).read()
                assert s.count(old) == 1, (b["id"], f, s.count(old), old)
                open(p, "w").write(s.replace(old, new))
            diff = sh("git -C /repo diff").stdout
            open(os.path.join(d, "patch.diff"), "w").write(diff)
            bl = sh("bash /opt/vp/build.sh")
            ok, miss = tests_ok()
            r1 = sh(f"bash {d}/demo.sh", cwd=REPO)
            ck = sh(f"python3-vt check.py {b['property']} quick", cwd=VERIF)
        finally:
            sh("git -C /repo checkout -- .")
        good = r0.returncode == 0 and r1.returncode != 0 and bl.returncode == 0 and ok
        caught = ck.returncode == 1 and f"VIOLATION property={b['property']}" in ck.stdout
        print(f"{b['id']}: {'valid' if good else 'INVALID'} demo {r0.returncode}->{r1.returncode} build {bl.returncode} tests {'ok' if ok else miss}; "
              f"{'CAUGHT' if caught else 'missed rc=%d' % ck.returncode}", flush=True)
        if not good:
            print((r0.stdout + r0.stderr)[-800:], (r1.stdout + r1.stderr)[-500:], bl.stderr[-300:])
        lines = [x for x in ck.stdout.splitlines() if not x.startswith(("VIOLATION", "KNOWN"))]
        print("   ", "\n    ".join(lines[-4:] if caught else lines[-2:]), flush=True)
        if ck.returncode not in (0, 1):
            print(ck.stderr[-1500:])
    sh("bash /opt/vp/build.sh")


main()
