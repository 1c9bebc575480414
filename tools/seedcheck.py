#!/usr/bin/env python3
"""Development aid: validates /verif/seeded and records which checks catch what.

For every seeded bug, in scratch copies: the demonstration passes on the clean
tree, the patch applies, every feature set builds, the repository's tests
pass, the demonstration fails, and which checks report a violation.
Usage: seedcheck.py OUT.json [workers] [id ...]     SCALE=1 own check only with OWN=1
"""
import json, os, shutil, subprocess, sys, threading
from concurrent.futures import ThreadPoolExecutor

out = sys.argv[1]
workers = int(sys.argv[2]) if len(sys.argv) > 2 else 2
ids = sys.argv[3:] or sorted(os.listdir("/verif/seeded"))
BASE = "/tmp/jjseed"
CHECKS = ["C%02d" % i for i in range(1, 26)]
CLAIMED = {c["property_id"] if "property_id" in c else c.get("property") or c.get("id") for c in json.load(open("/verif/MANIFEST.json"))["checks"]}
res = json.load(open(out)) if os.path.exists(out) else {}
lock = threading.Lock(); slots = list(range(workers))

def sh(cmd, cwd, env=None, t=900):
    e = dict(os.environ, CARGO_NET_OFFLINE="true", **(env or {}))
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=t)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.wait()
        return 124, "timeout"

def setup(n):
    d = f"{BASE}/{n}"
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    subprocess.run(["cp", "-a", "/repo", f"{d}/repo"], check=True)
    shutil.rmtree(f"{d}/repo/target", ignore_errors=True); shutil.rmtree(f"{d}/repo/.cargo", ignore_errors=True)
    subprocess.run(["sed", "-i", "s/^members = .*/members = []/", f"{d}/repo/Cargo.toml"], check=True)
    os.makedirs(f"{d}/verif")
    for x in ["harness", "variant", "check.sh", "known_findings.txt", "properties.jsonl"]:
        subprocess.run(["cp", "-a", f"/verif/{x}", f"{d}/verif/{x}"], check=True)

def one(id):
    with lock: n = slots.pop()
    try:
        d = f"{BASE}/{n}"; s = f"/verif/seeded/{id}"; repo = f"{d}/repo"
        meta = json.load(open(f"{s}/meta.json"))
        r = {"property": meta["property"]}
        subprocess.run(["git", "checkout", "-q", "--", "src"], cwd=repo, check=True)
        rc, o = sh([f"{s}/demo.sh"], repo)
        r["demo_clean"] = rc
        if rc: r["out"] = o[-500:]
        rc, o = sh(["git", "apply", f"{s}/patch.diff"], repo)
        r["apply"] = rc
        if rc == 0:
            env = {"CARGO_TARGET_DIR": f"{d}/rt"}
            r["build"] = [sh(["cargo", "check", "--lib", "-q"] + f, repo, env)[0] for f in ([], ["--no-default-features"], ["--no-default-features", "--features", "alloc"], ["--no-default-features", "--features", "heapless"])]
            rc, o = sh(["cargo", "test", "-q", "--features", "heapless", "--lib", "--tests"], repo, env)
            r["tests"] = rc
            if rc: r["tests_out"] = "\n".join(l for l in o.split("\n") if "FAILED" in l or "panicked" in l)[:600]
            rc, o = sh(["cargo", "test", "-q", "--features", "heapless", "--doc"], repo, env)
            r["doc"] = rc
            rc, o = sh([f"{s}/demo.sh"], repo)
            r["demo_bug"] = rc
            r["caught"] = []
            for c in ([meta["property"]] if os.environ.get("OWN") else CHECKS):
                if c not in CLAIMED: continue
                env = {"JJ_REPO": repo, "JJ_TARGET": f"{d}/ht", "JJ_SCALE": os.environ.get("SCALE", "1"), "JJ_THREADS": os.environ.get("THREADS", "2"), "VERIF_SEED": "1", "VERIF_TIER": "quick"}
                rc, o = sh(["./check.sh", c], f"{d}/verif", env)
                if rc == 1 and f"VIOLATION property={c}" in o: r["caught"].append(c)
                elif rc: r.setdefault("odd", {})[c] = [rc, o[-400:]]
            r["own"] = meta["property"] in r["caught"]
            subprocess.run(["git", "checkout", "-q", "--", "src"], cwd=repo, check=True)
        ok = r["demo_clean"] == 0 and r.get("apply") == 0 and not any(r["build"]) and r["tests"] == 0 and r["doc"] == 0 and r["demo_bug"] not in (0,)
        r["counts"] = ok
        with lock:
            res[id] = r
            json.dump(res, open(out, "w"), indent=1)
            print(id, "counts" if ok else "DOES NOT COUNT", "caught by", r.get("caught"), "" if r.get("own") else "MISSED", r.get("odd", ""), "" if ok else r, flush=True)
    finally:
        with lock: slots.append(n)

for n in range(workers): setup(n)
with ThreadPoolExecutor(workers) as ex: list(ex.map(one, ids))
shutil.rmtree(BASE)
