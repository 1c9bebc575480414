#!/usr/bin/env python3
"""Development aid: systematic mutants of /repo/src in scratch copies.

For every mutant that compiles and passes the repository's tests, runs the
checks at a small scale and notes the first that catches it. Usage:
mutants.py OUT.jsonl [workers] [every-nth] [file-filter]
"""
import json, os, re, shutil, subprocess, sys, random
from concurrent.futures import ThreadPoolExecutor
import threading

out = sys.argv[1]
workers = int(sys.argv[2]) if len(sys.argv) > 2 else 7
nth = int(sys.argv[3]) if len(sys.argv) > 3 else 1
flt = sys.argv[4] if len(sys.argv) > 4 else ""
BASE = "/tmp/jjmut"
FILES = ["anystr.rs", "doc.rs", "error.rs", "number.rs", "parser.rs", "string.rs", "value.rs"]

def code_lines(src):
    """line numbers that are neither comments, attributes nor tests"""
    lines = src.split("\n")
    keep, skip_depth, depth, pending = [], None, 0, False
    for i, l in enumerate(lines):
        t = l.strip()
        if t == "#[test]": pending = True
        opens = l.count("{") - l.count("}")
        if re.search(r"'[{}]'|b'[{}]'|\"[^\"]*[{}][^\"]*\"", l):
            ll = re.sub(r"b?'[{}]'", "", l); ll = re.sub(r'"(\\.|[^"\\])*"', "", ll)
            opens = ll.count("{") - ll.count("}")
        if pending and re.match(r"(pub )?fn ", t):
            skip_depth, pending = depth, False
            depth += opens
            continue
        depth += opens
        if skip_depth is not None:
            if depth <= skip_depth: skip_depth = None
            continue
        if re.search(r", // [0-9A-F]$", t): lines[i] = l = re.sub(r" // [0-9A-F]$", "", l)
        if t.startswith("//") or t.startswith("#") or not t or pending: continue
        keep.append(i)
    return lines, keep

def mutations(l):
    res = []
    def sub(pat, rep):
        for m in re.finditer(pat, l):
            r = m.expand(rep) if isinstance(rep, str) else rep(m)
            n = l[:m.start()] + r + l[m.end():]
            if n != l: res.append(n)
    sub(r" == ", " != "); sub(r" != ", " == ")
    sub(r" < ", " <= "); sub(r" <= ", " < "); sub(r" > ", " >= "); sub(r" >= ", " > ")
    sub(r" < (?=[a-z0-9])", " > ")
    sub(r" && ", " || "); sub(r" \|\| ", " && ")
    sub(r" \+ ", " - "); sub(r" - ", " + "); sub(r" \+= ", " -= "); sub(r" -= ", " += ")
    sub(r" \* ", " + "); sub(r"\.\.=", ".."); sub(r"(?<=[a-z0-9_'])\.\.(?=[a-z0-9'])", "..=")
    sub(r"\btrue\b", "false"); sub(r"\bfalse\b", "true")
    sub(r"\bif (?!let)(?=[a-z!(])", "if !"); sub(r"!(?=[a-z_]+[.(])", "")
    sub(r"\b(\d+)\b", lambda m: str(int(m.group(1)) + 1))
    sub(r"\b([1-9]\d*)\b", lambda m: str(int(m.group(1)) - 1))
    sub(r"0x([0-9A-Fa-f_]+)", lambda m: hex(int(m.group(1).replace("_", ""), 16) + 1))
    sub(r"b'([a-zA-Z0-9])'", lambda m: "b'%s'" % chr(ord(m.group(1)) + 1))
    sub(r"(?<!b)'([a-z0-9])'(?!\w)", lambda m: "'%s'" % chr(ord(m.group(1)) + 1))
    sub(r"b'[^a-zA-Z0-9\\]' \| ", ""); sub(r" \| b'[^']+'", ""); sub(r"b'[^']+' \| ", "")
    sub(r"ErrorKind::([A-Z]\w+)(?!\w|\()", lambda m: "ErrorKind::" + ("UnexpectedEof" if m.group(1) != "UnexpectedEof" else "ExpectedValue"))
    sub(r"PeekableTokenKind::([A-Z]\w+)", lambda m: "PeekableTokenKind::" + ("Null" if m.group(1) != "Null" else "True"))
    sub(r"JsonKind::([A-Z]\w+)", lambda m: "JsonKind::" + ("Null" if m.group(1) != "Null" else "Array"))
    sub(r"\bSome\((.+)\)(?=[,;]?$)", "None"); sub(r"\bOk\(\(\)\)", "Err(Default::default())")
    sub(r"\.push\(", ".clone().push("); sub(r"\?;", ".ok();")
    sub(r"\.offset\b", ".offset + 1"); sub(r"\boffset\b(?=[,)])", "offset + 1")
    sub(r"is_some_and", "is_none_or"); sub(r"\.all\(", ".any("); sub(r"\.any\(", ".all(")
    sub(r"\.zip\((.*)\)$", ""); sub(r"with_capacity\((\w+)\)", "new()")
    sub(r"Ordering::Less", "Ordering::Greater"); sub(r"Ordering::Greater", "Ordering::Less"); sub(r"Ordering::Equal", "Ordering::Less")
    sub(r"\blen\(\)", "len() + 1"); sub(r"\bself\.next\(\)", "None")
    sub(r"saturating_sub", "wrapping_sub"); sub(r"\bbreak\b", "continue"); sub(r"\bcontinue\b", "break")
    t = l.strip()
    if t.endswith(";") and not re.match(r"(let|use|pub|type|const|return|mod|static|extern)\b", t) and t != ";":
        res.append(re.match(r"\s*", l).group(0) + ";")
    if re.match(r".*=> .*,$", t) and not t.startswith("_"):
        res.append("")
    if t.startswith("return "):
        res.append("")
    seen, u = set(), []
    for r in res:
        if r not in seen and r != l: seen.add(r); u.append(r)
    return u

todo = []
for f in FILES:
    if flt and flt not in f: continue
    src = open(f"/repo/src/{f}").read()
    lines, keep = code_lines(src)
    for i in keep:
        for m in mutations(lines[i]): todo.append((f, i, lines[i], m))
random.Random(1).shuffle(todo)
todo = todo[::nth]
done = set()
if os.path.exists(out):
    for l in open(out):
        d = json.loads(l); done.add((d["file"], d["line"], d["new"]))
todo = [t for t in todo if (t[0], t[1] + 1, t[3]) not in done]
print(len(todo), "mutants", flush=True)
lock = threading.Lock()
slots = list(range(workers))
ORDER = ["C04", "C01", "C12", "C05", "C14", "C17", "C13", "C08", "C07", "C16", "C22", "C10", "C11", "C15", "C18", "C21", "C19", "C09", "C02", "C03", "C06", "C20", "C24", "C25", "C23"]

def sh(cmd, cwd, env=None, t=300):
    e = dict(os.environ, CARGO_NET_OFFLINE="true", **(env or {}))
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=t)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.wait()
        return 124, "timeout"

def setup(n):
    d = f"{BASE}/{n}"
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    subprocess.run(["cp", "-a", "/repo", f"{d}/repo"], check=True)
    shutil.rmtree(f"{d}/repo/target", ignore_errors=True); shutil.rmtree(f"{d}/repo/.cargo", ignore_errors=True)
    subprocess.run(["sed", "-i", "s/^members = .*/members = []/", f"{d}/repo/Cargo.toml"], check=True)
    os.makedirs(f"{d}/verif")
    for x in ["harness", "variant", "check.sh", "known_findings.txt", "properties.jsonl"]:
        subprocess.run(["cp", "-a", f"/verif/{x}", f"{d}/verif/{x}"], check=True)

def one(t):
    f, i, old, new = t
    with lock: n = slots.pop()
    try:
        d = f"{BASE}/{n}"
        p = f"{d}/repo/src/{f}"
        orig = open(f"/repo/src/{f}").read()
        lines = orig.split("\n"); lines[i] = new
        open(p, "w").write("\n".join(lines))
        r = {"file": f, "line": i + 1, "old": old, "new": new}
        try:
            rc, o = sh(["cargo", "check", "--lib", "-q", "--features", "heapless"], f"{d}/repo", {"CARGO_TARGET_DIR": f"{d}/rt"})
            if rc: r["res"] = "nocompile"
            else:
                rc, o = sh(["timeout", "120", "cargo", "test", "-q", "--features", "heapless", "--lib", "--tests"], f"{d}/repo", {"CARGO_TARGET_DIR": f"{d}/rt"}, 200)
                if rc: r["res"] = "test"
                else:
                    env = {"JJ_REPO": f"{d}/repo", "JJ_TARGET": f"{d}/ht", "JJ_SCALE": "0.03", "JJ_THREADS": "1", "VERIF_SEED": "1", "VERIF_TIER": "quick"}
                    r["res"] = "SURVIVED"
                    for c in ORDER:
                        rc, o = sh(["./check.sh", c], f"{d}/verif", env, 600)
                        if rc != 0:
                            r["res"] = c if rc == 1 else f"{c}:rc{rc}"
                            r["out"] = o[-300:]
                            if rc == 1: break
                            if "build failed" in o: break
        finally:
            open(p, "w").write(orig)
        with lock:
            open(out, "a").write(json.dumps(r) + "\n")
    finally:
        with lock: slots.append(n)

os.makedirs(BASE, exist_ok=True)
for n in range(workers): setup(n)
with ThreadPoolExecutor(workers) as ex: list(ex.map(one, todo))
shutil.rmtree(BASE)
