#!/usr/bin/env python3
"""Development tool: makes and confirms planted bugs.

    mkseed.py SPEC.py [ID ...]

SPEC.py defines SEEDS = [dict(id, property, needs, breaks, edits=[(file, old, new)], main=rust source, sdk=bool)].
For each: patch.diff, demo.sh with its crate, meta.json under /verif/seeded/ID; then the demo is run on the
unchanged /repo (must be 0) and on the changed one (must not be 0), the repository's tests must pass with the
change, and the property's check is run with it. /repo is restored after each step."""
import json, os, shutil, subprocess, sys
ROOT = "/verif/seeded"
COMMON = "/verif/tools/demo_common"


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def restore():
    sh("git -C /repo checkout -- .")


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    ids = set(sys.argv[2:])
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    for s in ns["SEEDS"]:
        if ids and s["id"] not in ids:
            continue
        d = f"{ROOT}/{s['id']}"
        if os.path.exists(f"{d}/meta.json") and not ids:
            continue
        if sh("git -C /repo status --porcelain").stdout.strip():
            sys.exit("/repo is not clean")
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(COMMON + ("_sdk" if s.get("sdk") else ""), d)
        open(f"{d}/src/main.rs", "w").write(s["main"])
        try:
            for f, old, new in s["edits"]:
                p = f"/repo/{f}"
                t = open(p).read()
                assert t.count(old) == 1, (s["id"], f, t.count(old))
                open(p, "w").write(t.replace(old, new))
            sh(f"git -C /repo diff > {d}/patch.diff")
            r = sh("bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/seedtest.json")
            t = json.load(open("/tmp/seedtest.json"))
            bad = base - set(t["passed"])
            res = {"tests": "pass" if not bad else f"{len(bad)} fail"}
            r = sh(f"bash {d}/demo.sh", cwd="/repo")
            res["demo_with"] = r.returncode
            res["demo_msg"] = r.stdout[-300:]
            r = sh(f"bash /verif/run.sh {s['property']}")
            res["check_rc"] = r.returncode
            res["check"] = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")][:1]
        finally:
            restore()
        r = sh(f"bash {d}/demo.sh", cwd="/repo")
        res["demo_without"] = r.returncode
        if r.returncode:
            res["demo_without_msg"] = r.stdout[-300:]
        good = res["tests"] == "pass" and res["demo_with"] != 0 and res["demo_without"] == 0
        res["counts"] = good
        if good:
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                      open(f"{d}/meta.json", "w"), indent=1)
        else:
            shutil.move(d, f"/tmp/badseed_{s['id']}") if not os.path.exists(f"/tmp/badseed_{s['id']}") else shutil.rmtree(d)
        print(s["id"], json.dumps(res), flush=True)


main()
