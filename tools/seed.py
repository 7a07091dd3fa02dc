#!/usr/bin/env python3
"""Development aid for planted bugs (no check uses it).

seed.py new ID PROP < patch      (unused; bugs are written by hand)
seed.py verify ID...             in a scratch clone: patch applies, builds, baseline tests pass, demo 0 / nonzero
seed.py catch [-t TIER] [-p P01,P02] ID...   run checks (default: the bug's property) with the patch applied, in
                                 a private mount namespace where scratch copies stand for /repo and /verif
"""
import json, os, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.environ.get("SEED_SCRATCH", "/tmp/s")
SEEDED = os.environ.get("SEED_DIR", os.path.join(V, "seeded"))

def sh(cmd, cwd=None, timeout=1200, env=None):
    e = dict(os.environ)
    if env: e.update(env)
    p = subprocess.run(cmd, shell=isinstance(cmd, str), cwd=cwd, timeout=timeout, env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    return p.returncode, p.stdout

def clone(path):
    if os.path.isdir(path):
        sh(["git", "-C", path, "fetch", "-q", "origin"]); sh(["git", "-C", path, "checkout", "-q", "-f", "origin/HEAD"]); sh(["git", "-C", path, "clean", "-fdq"])
        head = sh(["git", "-C", "/repo", "rev-parse", "HEAD"])[1].strip()
        sh(["git", "-C", path, "checkout", "-q", "-f", head])
    else:
        sh(["git", "clone", "-q", "/repo", path])

def tests(repo):
    """Names of passing tests."""
    env = {"CARGO_TARGET_DIR": S + "/target", "CARGO_NET_OFFLINE": "true", "CARGO_TERM_COLOR": "never", "CARGO_INCREMENTAL": "1"}
    rc, out = sh("cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 1", cwd=repo, env=env)
    names = [re.sub(r" \(line \d+\)", "", m) for m in re.findall(r"^test (.*?) \.\.\. ok", out, re.M)]
    return rc, sorted(names), out

ORIG = "ea11d89"

def original_lines(repo, patch):
    """True when at least one removed or neighbouring line of the patch stems from the original commit."""
    files = re.findall(r"^--- a/(\S+)", open(patch).read(), re.M)
    cur, line, touched = None, 0, []
    for l in open(patch):
        m = re.match(r"^--- a/(\S+)", l)
        if m: cur = m.group(1); continue
        m = re.match(r"^@@ -(\d+)", l)
        if m: line = int(m.group(1)); continue
        if l.startswith("+++") or l.startswith("diff") or l.startswith("index"): continue
        if l.startswith("-"): touched.append((cur, line)); line += 1
        elif l.startswith("+"): pass
        else: line += 1
    ok = 0
    for f, n in touched:
        _, b = sh(["git", "-C", repo, "blame", "-s", "-L", f"{n},{n}", "HEAD", "--", f])
        if b.lstrip("^").startswith(ORIG[:6]): ok += 1
    return ok, len(touched)

def verify(ids):
    repo = S + "/vr"
    os.makedirs(S, exist_ok=True)
    clone(repo)
    rc, base, _ = tests(repo)
    print("clean: rc", rc, "passing", len(base))
    bad = 0
    for i in ids:
        d = os.path.join(SEEDED, i); msg = []
        sh(["git", "-C", repo, "checkout", "-q", "-f", "."]); 
        meta = json.load(open(d + "/meta.json"))
        tmp = S + "/demo-" + i
        shutil.rmtree(tmp, ignore_errors=True); shutil.copytree(d, tmp)
        for f in os.listdir(tmp):
            if f.endswith((".diff", ".patch")) or f == "meta.json": os.remove(os.path.join(tmp, f))
        t0 = time.time()
        env = {"CARGO_TARGET_DIR": S + "/target"} if False else {}
        c0, o0 = sh(["bash", tmp + "/demo.sh"], cwd=repo, timeout=300, env=env)
        t1 = time.time()
        if c0 != 0: msg.append(f"demo on clean tree: {c0}\n{o0[-1500:]}")
        a, ao = sh(["git", "-C", repo, "apply", d + "/patch.diff"])
        if a: msg.append("patch does not apply: " + ao)
        else:
            o, n = original_lines(repo, d + "/patch.diff")
            rc, names, out = tests(repo)
            missing = sorted(set(base) - set(names))
            if missing: msg.append("tests missing: " + ", ".join(missing) + ("\n" + out[-1500:] if len(missing) > 20 else ""))
            c1, o1 = sh(["bash", tmp + "/demo.sh"], cwd=repo, timeout=300, env=env)
            if c1 == 0: msg.append("demo passes with the patch")
            if n and not o: msg.append("no removed line is original")
            files = re.findall(r"^\+\+\+ b/(\S+)", open(d + "/patch.diff").read(), re.M)
            print(f"{i}: {meta['property']} demo {c0}/{c1} in {t1-t0:.0f}s, original lines {o}/{n}, files {files}; {o1.strip().splitlines()[-1][:150] if o1.strip() else ''}")
        for m in msg: print("  BAD", m)
        bad += bool(msg)
        sh(["git", "-C", repo, "checkout", "-q", "-f", "."]); shutil.rmtree(tmp, ignore_errors=True)
    print("bad:", bad)

def catch(ids, tier, props):
    slot = S + "/c" + str(os.getpid())
    os.makedirs(slot)
    try:
        clone(slot + "/repo")
        sh(["cp", "-a", "--reflink=auto", V, slot + "/verif"])
        for i in ids:
            meta = json.load(open(os.path.join(SEEDED, i, "meta.json")))
            sh(["git", "-C", slot + "/repo", "checkout", "-q", "-f", "."])
            a, ao = sh(["git", "-C", slot + "/repo", "apply", os.path.join(SEEDED, i, "patch.diff")])
            if a: print(i, "does not apply", ao); continue
            for p in (props or [meta["property"]]):
                t0 = time.time()
                cmd = f"mount --bind {slot}/repo /repo && mount --bind {slot}/verif /verif && cd /verif && VERIF_SEED={os.environ.get('VERIF_SEED','1')} VERIF_TIER={tier} ./run.sh {p} {tier}"
                rc, out = sh(["unshare", "-m", "bash", "-c", cmd], timeout=7200)
                v = [l for l in out.splitlines() if l.startswith("VIOLATION")]
                what = "CAUGHT" if rc == 1 and any(f"property={p}" in l for l in v) else ("quiet" if rc == 0 else f"NO ANSWER rc={rc}")
                print(f"{i} ({meta['property']}) {p}: {what} {time.time()-t0:.0f}s", flush=True)
                if "-v" in sys.argv or what.startswith("NO"): print("   " + "\n   ".join(out.strip().splitlines()[-12:]), flush=True)
    finally:
        shutil.rmtree(slot, ignore_errors=True)

if __name__ == "__main__":
    a = [x for x in sys.argv[1:] if x != "-v"]
    cmd = a.pop(0); tier = "quick"; props = None
    while a and a[0].startswith("-"):
        f = a.pop(0)
        if f == "-t": tier = a.pop(0)
        if f == "-p":
            x = a.pop(0)
            props = [f"P{i:02}" for i in range(1, 32)] if x == "all" else x.split(",")
    ids = a or sorted(os.listdir(SEEDED))
    verify(ids) if cmd == "verify" else catch(ids, tier, props)
