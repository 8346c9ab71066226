#!/usr/bin/env python3
"""Mutation lanes: apply single edits to a scratch copy of /repo and see which checks notice.

  mutate.py setup LANE            create /tmp/lane<LANE> (copies of /repo and of the machinery) and build it
  mutate.py sync LANE             copy the machinery again (after editing it) and build it
  mutate.py run LANE SPEC.py [NAME...] [--checks=C01,C02]   try the mutants of SPEC.py
  mutate.py rm LANE               remove the lane

SPEC.py defines M = [(name, "C04 C05" (checks to run), file, old, new[, occurrence])];
a mutant with several edits has a list of (file, old, new) instead of the last three."""
import os, pathlib, re, runpy, shutil, subprocess, sys, time, json
def sh(cmd, cwd, timeout=900):
    env = dict(os.environ, CARGO_NET_OFFLINE="true", VERIF_TIER="quick", VERIF_SEED="1")
    env.pop("CARGO_TARGET_DIR", None)
    try:
        r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, shell=isinstance(cmd, str))
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as e:
        return 124, str(e.stdout)
def sync(base):
    v = base / "verif"
    (v / "target").mkdir(parents=True, exist_ok=True)
    for item in ["mc", "lsmc", "check.sh", "tools", "known-findings.txt", "MANIFEST.json"]:
        src = pathlib.Path("/verif") / item
        files = [p for p in src.rglob("*") if p.is_file() and "target" not in p.parts and "__pycache__" not in p.parts] if src.is_dir() else [src]
        for f in files:
            dst = v / f.relative_to("/verif")
            dst.parent.mkdir(parents=True, exist_ok=True)
            t = f.read_text()
            t = re.sub(r'/verif\b', str(v), t)
            t = re.sub(r'(?<![\w/])/repo\b', str(base / "repo"), t)
            if not dst.exists() or dst.read_text() != t:
                dst.write_text(t)
                shutil.copymode(f, dst)
    rc, out = sh(["./check.sh", "setup"], v, 1800)
    print("setup", rc, out[-2000:])
def edits_of(m):
    return m[2] if isinstance(m[2], list) else [tuple(m[2:])]
def apply(repo, m):
    for e in edits_of(m):
        f, old, new = e[:3]
        n = e[3] if len(e) > 3 else None
        p = repo / f
        t = p.read_text()
        c = t.count(old)
        if n is None:
            if c != 1: return f"{old!r} occurs {c} times"
            t = t.replace(old, new)
        else:
            i = -1
            for _ in range(n): i = t.find(old, i + 1)
            if i < 0: return "no such occurrence"
            t = t[:i] + new + t[i + len(old):]
        p.write_text(t)
def main():
    cmd, lane = sys.argv[1], sys.argv[2]
    base = pathlib.Path("/tmp/lane" + lane)
    if cmd == "setup":
        base.mkdir()
        sh(["git", "clone", "-q", "/repo", str(base / "repo")], "/tmp")
        sync(base)
    elif cmd == "sync":
        sh("git pull -q", base / "repo"); sync(base)
    elif cmd == "rm": shutil.rmtree(base)
    elif cmd == "run":
        stable = json.load(open("/opt/vp/BASELINE.json"))
        spec = runpy.run_path(sys.argv[3])["M"]
        names = [a for a in sys.argv[4:] if not a.startswith("--")]
        over = next((a[9:].split(",") for a in sys.argv if a.startswith("--checks=")), None)
        repo, v = base / "repo", base / "verif"
        for m in spec:
            if names and m[0] not in names: continue
            sh("git checkout -q -- .", repo)
            err = apply(repo, m)
            if err: print(m[0], "NOT APPLIED", err, flush=True); continue
            rc, out = sh("cargo test --workspace --offline 2>&1", repo)
            if rc:
                fails = re.findall(r"test (\S+) \.\.\. FAILED", out)
                print(m[0], "BUILD" if "could not compile" in out else f"TESTS {fails[:3]}", flush=True)
                if "could not compile" in out: print("\n".join(l for l in out.splitlines() if l.startswith("error"))[:600])
                continue
            caught, missed = [], []
            for c in (over or m[1].split()):
                t = time.time()
                rc, out = sh(["./check.sh", c], v)
                viol = "VIOLATION property=" + c in out
                if rc == 1 and viol: caught.append(c)
                elif rc == 0: missed.append(c)
                else: missed.append(f"{c}(rc {rc}) {out[-200:]!r}")
            print(m[0], ("caught " + " ".join(caught)) if caught else "SURVIVED", "| quiet:", " ".join(missed), flush=True)
            sh("git checkout -q -- .", repo)
main()
