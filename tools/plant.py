#!/usr/bin/env python3
"""Development helper: confirm a planted bug in scratch copies and see whether its check catches it.

  plant.py new SPEC.py      (SPEC defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO=rust main body)
  plant.py confirm ID...    patch applies, builds, 45 tests pass, demo 0 / nonzero
  plant.py catch ID...      run the property's check on the patched scratch copy
Scratch copies live under /tmp/plant and are removed with `plant.py clean`.
"""
import json, os, shutil, subprocess, sys, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/plant"
R, H = S + "/repo", S + "/verif"
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable")
DEMO_SH = """#!/bin/bash
# Run in the repository's root: builds a small program against it in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
mkdir "$d/src" && cp "$here/demo.rs" "$d/src/main.rs" || exit 3
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
iota-mam = { path = "$repo" }
[profile.dev]
opt-level = 3
T
cd "$d" && CARGO_TARGET_DIR="$d/target" CARGO_NET_OFFLINE=true RUSTFLAGS="--cfg iota_mam_verif" cargo run --offline -q 2>&1 | grep -v '^warning' | tail -20
exit ${PIPESTATUS[0]}
"""


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=ENV, **k)


def repo():
    if not os.path.isdir(R):
        os.makedirs(S, exist_ok=True)
        sh(f"cp -a /repo {R}")
    sh(f"git -C {R} checkout -q -f HEAD && git -C {R} fetch -q /repo HEAD && git -C {R} checkout -q -f FETCH_HEAD && git -C {R} clean -fdq -e target")


def new(spec):
    ns = {}
    exec(open(spec).read(), ns)
    bugs = ns["BUGS"]
    for b in bugs:
        repo()
        for f, old, newt in b["edits"]:
            p = os.path.join(R, f)
            t = open(p).read()
            assert t.count(old) == 1, (b["id"], f, t.count(old), old)
            open(p, "w").write(t.replace(old, newt))
        d = os.path.join(V, "seeded", b["id"])
        os.makedirs(d, exist_ok=True)
        diff = sh(f"git -C {R} diff").stdout
        open(d + "/patch.diff", "w").write(diff)
        mine(b["id"], diff)
        open(d + "/demo.sh", "w").write(DEMO_SH)
        os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo.rs", "w").write(b["demo"].lstrip("\n"))
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        confirm(b["id"])


def mine(i, diff):
    """Warn when a removed line comes from one of our own commits."""
    f = None
    for l in diff.splitlines():
        if l.startswith("--- a/"):
            f = l[6:]
            bl = sh(f"git -C /repo blame -s HEAD -- {f}").stdout.splitlines()
        elif l.startswith("@@"):
            n = int(l.split()[1][1:].split(",")[0])
        elif f and l.startswith("-") and not l.startswith("---"):
            if not bl[n - 1].startswith("^"):
                print("NOTE", i, "touches a line of our own:", bl[n - 1])
            n += 1
        elif f and l.startswith(" "):
            n += 1


def confirm(i):
    d = os.path.join(V, "seeded", i)
    repo()
    out = [i]
    r = sh(f"bash {d}/demo.sh", cwd=R)
    out.append(f"demo clean rc={r.returncode}")
    if r.returncode:
        out.append(r.stdout[-800:])
    a = sh(f"git apply {d}/patch.diff", cwd=R)
    if a.returncode:
        out.append("PATCH DOES NOT APPLY " + a.stdout)
    t = sh("cargo test --workspace --no-fail-fast --offline -- --test-threads 8", cwd=R)
    ok = sum(int(l.split("ok. ")[1].split()[0]) if "ok. " in l else 0 for l in t.stdout.splitlines() if l.startswith("test result"))
    out.append(f"tests rc={t.returncode} passed={ok}")
    if t.returncode:
        out.append("\n".join(l for l in t.stdout.splitlines() if "FAILED" in l or "error" in l)[:800])
    r2 = sh(f"bash {d}/demo.sh", cwd=R)
    out.append(f"demo patched rc={r2.returncode}: {r2.stdout.strip()[-200:]}")
    good = r.returncode == 0 and not t.returncode and ok == 45 and r2.returncode not in (0, 3) and not a.returncode
    print(("GOOD " if good else "BAD  ") + " | ".join(out), flush=True)


def catch(i, seeds=("1",)):
    d = os.path.join(V, "seeded", i)
    prop = json.load(open(d + "/meta.json"))["property"]
    repo()
    os.makedirs(H, exist_ok=True)
    sh(f"rsync -a --delete --exclude seeded --exclude .git --exclude harness/target --exclude replays {V}/ {H}/ || cp -a {V}/check.py {V}/harness {V}/properties.jsonl {V}/MANIFEST.json {H}/")
    p = H + "/harness/Cargo.toml"
    t = open(p).read().replace('path = "/repo"', f'path = "{R}"')
    open(p, "w").write(t)
    a = sh(f"git apply {d}/patch.diff", cwd=R)
    for s in seeds:
        t0 = time.time()
        r = subprocess.run(["python3", "check.py", "run", prop], cwd=H, env=dict(ENV, MAM_REPO=R, VERIF_SEED=s), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        first = next((l for l in r.stdout.splitlines() if l.strip()), "")
        print(f"{'CAUGHT' if r.returncode == 1 and 'VIOLATION property=' + prop in r.stdout else 'MISSED'} {i} {prop} seed={s} rc={r.returncode} {time.time() - t0:.0f}s {first[:160]}", flush=True)


if __name__ == "__main__":
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == "new":
        for a in args:
            new(a)
    elif cmd == "confirm":
        for a in args:
            confirm(a)
    elif cmd == "catch":
        for a in args:
            catch(a)
    elif cmd == "clean":
        shutil.rmtree(S, ignore_errors=True)
