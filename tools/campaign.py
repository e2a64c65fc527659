#!/usr/bin/env python3
"""Development tool: tries changes of /repo in scratch copies under /tmp and reports which of
them survive the repository's tests and which checks report them.

    campaign.py SLOT CANDIDATES.py OUT.jsonl [--all] [--until] [--notest] [--ids a,b]

With --until the checks of a candidate are tried until one reports it.

CANDIDATES.py defines CANDS = [(id, property, [(file, old, new), ...]), ...].
The first check tried is the property's own; without --all only that one is run."""
import json, os, re, subprocess, sys, time, shutil

SLOT = sys.argv[1]
ROOT = f"/tmp/slot{SLOT}"
REPO, WS, VER = f"{ROOT}/repo", f"{ROOT}/ws", f"{ROOT}/verif"
ENV = dict(os.environ, PATH="/root/.cargo/bin:" + os.environ["PATH"],
           RUSTUP_TOOLCHAIN="1.76-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
           CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never",
           RUSTC_WRAPPER="", VERIF_SEED="1", VERIF_TIER="quick")
BINS = {"C16": "math", "C17": "math", "C18": "math", "C20": "math", "C23": "math", "C19": "sdk"}
ORDER = ["C04", "C05", "C06", "C07", "C08", "C09", "C12", "C14", "C15", "C21", "C11", "C10", "C01", "C02", "C03",
         "C22", "C13", "C16", "C17", "C18", "C20", "C23", "C19", "C24"]
if os.path.exists("/verif/tools/extra_order.json"):
    ORDER += json.load(open("/verif/tools/extra_order.json"))


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def setup():
    os.makedirs(ROOT, exist_ok=True)
    sh(f"rsync -a --delete --exclude target /repo/ {REPO}/")
    if not os.path.isdir(f"{REPO}/target"):
        sh(f"cp -a /repo/target {REPO}/target")
    shutil.rmtree(WS, ignore_errors=True)
    os.makedirs(WS)
    for n in os.listdir(REPO):
        if n not in (".git", "target", "Cargo.toml", "Cargo.lock"):
            os.symlink(f"{REPO}/{n}", f"{WS}/{n}")
    for n in ("Cargo.toml", "Cargo.lock"):
        shutil.copy(f"/opt/vp/ws/{n}", f"{WS}/{n}")
    os.makedirs(VER, exist_ok=True)
    sh(f"rsync -a --delete --exclude target --exclude evidence --exclude .git --exclude seeded /verif/ {VER}/")
    os.makedirs(f"{VER}/evidence", exist_ok=True)
    sh(f"sed -i 's#/repo/#{REPO}/#g' {VER}/harness/Cargo.toml")
    sh(f"sed -i 's#/repo/#{REPO}/#g' {VER}/tools/build.sh")
    if not os.path.isdir(f"{VER}/harness/target"):
        sh(f"cp -a /verif/harness/target {VER}/harness/target")


def reset():
    sh(f"git -C {REPO} checkout -- .")


def tests():
    """returns 'pass', 'nobuild' or the number of failed tests"""
    e = dict(ENV, CARGO_TARGET_DIR=f"{REPO}/target")
    r = subprocess.run("cargo test --workspace --no-fail-fast --offline --locked -- --test-threads 8", shell=True, cwd=WS,
                       env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
    if r.returncode == 0:
        n = sum(int(x) for x in re.findall(r"(\d+) passed", r.stdout))
        return "pass" if n >= 666 else f"only {n}"
    if re.search(r"could not compile", r.stdout):
        return "nobuild " + "\n".join(l for l in r.stdout.splitlines() if l.startswith("error"))[:300]
    return f"failed {len(re.findall(r' FAILED$|... FAILED', r.stdout, re.M))}"


def check(c):
    t = time.time()
    b = BINS.get(c, "core")
    r = sh(f"{VER}/tools/build.sh {b}", env=ENV)
    if r.returncode:
        return "nobuild " + r.stdout[-500:]
    tb = time.time() - t
    t = time.time()
    try:
        r = subprocess.run([f"{VER}/harness/target/release/{b}", c], env=dict(ENV, VERIF_DIR=VER), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=850)
    except subprocess.TimeoutExpired:
        return "timeout"
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    if r.returncode == 1 and v and f"property={c} " in v[0]:
        return "CAUGHT %.0fs" % (time.time() - t)
    if r.returncode == 0 and not v:
        return "quiet %.0fs" % (time.time() - t)
    return f"rc={r.returncode} " + r.stdout[-300:]


def main():
    cand, out = sys.argv[2], sys.argv[3]
    allc = "--all" in sys.argv
    notest = "--notest" in sys.argv
    ids = None
    if "--ids" in sys.argv:
        ids = set(sys.argv[sys.argv.index("--ids") + 1].split(","))
    ns = {}
    exec(open(cand).read(), ns)
    setup()
    done = set()
    if os.path.exists(out):
        done = {json.loads(l)["id"] for l in open(out)}
    for cid, prop, edits in ns["CANDS"]:
        if cid in done or (ids and cid not in ids):
            continue
        reset()
        res = {"id": cid, "property": prop}
        for f, old, new in edits:
            p = f"{REPO}/{f}"
            s = open(p).read()
            if isinstance(old, tuple):
                ls = s.split("\n")
                if ls[old[1]] != old[2]:
                    res["error"] = "moved"
                    break
                ls[old[1]] = new
                open(p, "w").write("\n".join(ls))
                continue
            if s.count(old) != 1:
                res["error"] = f"{f}: {s.count(old)} matches"
                break
            open(p, "w").write(s.replace(old, new))
        if "error" not in res:
            res["tests"] = "skipped" if notest else tests()
            if res["tests"] in ("pass", "skipped"):
                props = prop if isinstance(prop, list) else [prop]
                todo = props + ([c for c in ORDER if c not in props] if allc else [])
                res["checks"] = {}
                for c in todo:
                    res["checks"][c] = check(c)
                    if "--until" in sys.argv and res["checks"][c].startswith(("CAUGHT", "nobuild")):
                        break
        open(out, "a").write(json.dumps(res) + "\n")
        print(json.dumps(res), flush=True)
    reset()


main()
