#!/usr/bin/env python3
"""Driver of the checks.

  check.py setup                 build both configurations of the harness
  check.py run ID [--tier T]     decide one property (tier from VERIF_TIER, seed from VERIF_SEED)
  check.py replay FILE           run a saved counterexample again

Exit 0: the property held on everything explored. Exit 1 with a VIOLATION line: it is broken.
Anything else is an error of the check (build failure, time limit, lost process).
"""
import fcntl, hashlib, json, os, re, resource, shutil, signal, struct, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
REPO = os.environ.get("MAM_REPO", "/repo")
PROFILES = ("checked", "release")
CRASH = {signal.SIGSEGV, signal.SIGBUS, signal.SIGILL, signal.SIGABRT, signal.SIGFPE, signal.SIGTRAP}
LIMIT = {"quick": 800, "thorough": 4 * 3600}
# Seconds for one case: in the run (wall clock), and of processor time in a process of its own,
# after which it is held not to end. The slowest case takes about a second.
CASE = {"quick": (100, 60), "thorough": (600, 300)}
HUNG = 9
T0 = time.time()


def die(msg, code=2):
    print("ERROR: " + msg, flush=True)
    sys.exit(code)


def env():
    e = dict(os.environ)
    e["PATH"] = "/usr/local/bin:/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e["RUSTUP_TOOLCHAIN"] = "stable"
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUSTFLAGS"] = "--cfg iota_mam_verif"
    e["CARGO_INCREMENTAL"] = "0"
    e["CARGO_TERM_COLOR"] = "never"
    for k in ("RUSTC_WRAPPER", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    return e


def tree_hash(root, skip):
    h = hashlib.sha256()
    for d, ds, fs in os.walk(root):
        ds[:] = sorted(x for x in ds if x not in skip)
        for f in sorted(fs):
            p = os.path.join(d, f)
            if not os.path.isfile(p):
                continue
            h.update(os.path.relpath(p, root).encode() + b"\0")
            with open(p, "rb") as fd:
                h.update(hashlib.sha256(fd.read()).digest())
    return h.hexdigest()


def build():
    """Build the harness against the current tree. Cargo judges freshness by modification
    times; here the contents decide, so that a restored or back-dated file is seen too."""
    target = os.path.join(HARNESS, "target")
    os.makedirs(target, exist_ok=True)
    with open(os.path.join(target, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        stamp = tree_hash(REPO, {"target", ".git"}) + tree_hash(os.path.join(HARNESS, "src"), set())
        for prof in PROFILES:
            pdir = os.path.join(target, prof)
            mark = os.path.join(pdir, ".stamp")
            old = open(mark).read() if os.path.exists(mark) else ""
            if old == stamp and os.path.exists(os.path.join(pdir, "mamv")):
                continue
            fp = os.path.join(pdir, ".fingerprint")
            if os.path.isdir(fp):
                for n in os.listdir(fp):
                    if n.startswith(("iota-mam-", "iota_mam-", "mamv-")):
                        shutil.rmtree(os.path.join(fp, n))
            if os.path.exists(mark):
                os.remove(mark)
            for more in ([], ["--no-default-features"]):
                r = subprocess.run(["cargo", "build", "--offline", "--profile", prof] + more, cwd=HARNESS, env=env(),
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if r.returncode == 0:
                    break
            if r.returncode != 0:
                print(r.stdout[-6000:])
                die("the harness does not build (%s)" % prof)
            with open(mark, "w") as f:
                f.write(stamp)


def binary(prof):
    return os.path.join(HARNESS, "target", prof, "mamv")


def call(cmd, limit, cpu=None):
    """(return code or None on time-out, stderr)"""
    def pre():
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
    with tempfile.TemporaryFile() as err:
        p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=err, cwd=HARNESS, preexec_fn=pre if cpu else None)
        try:
            p.wait(timeout=max(1, limit))
            rc = p.returncode
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = None
        err.seek(0)
        return rc, err.read().decode(errors="replace")[-2000:]


def crashed(rc):
    return rc is not None and rc < 0 and -rc in {int(s) for s in CRASH}


def endless(rc):
    return rc is not None and rc < 0 and -rc == signal.SIGXCPU


def read_sink(path):
    try:
        return [int(x) for x in open(path).read().split("\n") if x.strip()]
    except OSError:
        return []


def tape_text(tape, prelude=None):
    return "".join(" ".join(map(str, t)) + "\n" for t in ([prelude] if prelude else []) + [tape])


def one(prof, prop, section, tape, tier, tmp, limit=120, prelude=None):
    tp, sink = os.path.join(tmp, "tape"), os.path.join(tmp, "sink")
    with open(tp, "w") as f:
        f.write(tape_text(tape, prelude))
    rc, err = call([binary(prof), "one", prop, section, tp, "--tier", tier, "--sink", sink], limit, CASE[tier][1])
    return rc, err, read_sink(sink)


def candidates(t):
    n, k = len(t), len(t) // 2
    while k >= 1:
        for i in range(0, n - k + 1, k):
            yield t[:i] + t[i + k:]
        k //= 2
    for i in range(n):
        if t[i] > 0:
            for v in (0, t[i] // 2, t[i] - 1):
                yield t[:i] + [v] + t[i + 1:]


def shrink_crash(prof, prop, section, tape, tier, tmp, seconds=60):
    end = time.time() + seconds
    cur, improved = tape, True
    while improved and time.time() < end:
        improved = False
        for c in candidates(cur):
            if time.time() > end:
                break
            rc, _, used = one(prof, prop, section, c, tier, tmp, 30)
            if crashed(rc) and (len(used), used) < (len(cur), cur):
                cur, improved = used, True
                break
    return cur


def worker(prof, prop, tier, seed, tmp, names):
    """Result of one configuration: (json or None, failure list, error or None)."""
    out, slots = os.path.join(tmp, prof + ".json"), os.path.join(tmp, prof + ".slots")
    cmd = [binary(prof), "run", prop, "--tier", tier, "--seed", str(seed), "--threads", "8",
           "--out", out, "--slots", slots, "--case-limit", str(CASE[tier][0])]
    left = LIMIT[tier] - (time.time() - T0)
    rc, err = call(cmd, left)
    if rc == 0:
        d = json.load(open(out))
        return d, d["failures"], None
    if rc is None:
        return None, [], "time limit (%s)" % prof
    if not crashed(rc) and rc != HUNG:
        return None, [], "the %s worker ended with %s: %s" % (prof, rc, err)
    # A crash of the process or a case that does not end: find it among those that were running.
    if rc == HUNG:
        why = "a case did not end within %d s" % CASE[tier][0]
    else:
        why = "the process crashed with signal %d (%s) %s" % (-rc, signal.Signals(-rc).name, err.strip()[-300:])
    cand = []
    raw = open(slots, "rb").read() if os.path.exists(slots) else b""
    for o in range(0, len(raw) - 23, 24):
        run, si, i = struct.unpack("<QQQ", raw[o:o + 24])
        if run:
            cand.append((si, i))
    for si, i in sorted(set(cand)):
        if LIMIT[tier] - (time.time() - T0) < 100:
            break
        sink = os.path.join(tmp, "sink")
        rc2, err2 = call([binary(prof), "gen", prop, str(si), str(i), "--tier", tier, "--seed", str(seed),
                          "--sink", sink], 5 * CASE[tier][1], CASE[tier][1])
        tape = read_sink(sink)
        fail = {"section": names[si], "index": i, "tape": tape, "trace": "", "shrinks": 0}
        if crashed(rc2):
            fail["tape"] = shrink_crash(prof, prop, names[si], tape, tier, tmp)
            fail["msg"] = "the process crashed with signal %d (%s) %s" % (
                -rc2, signal.Signals(-rc2).name, err2.strip()[-300:])
            return None, [fail], None
        if endless(rc2):
            fail["msg"] = "no end after %d s of processor time in a process of its own" % CASE[tier][1]
            return None, [fail], None
        if rc2 == 1:
            fail["msg"] = "the case fails (run the replay for its message); shrinking it: " + why
            return None, [fail], None
    return None, [], "no single case reproduces: " + why


def section_names(prop):
    r = subprocess.run([binary("checked"), "list"], stdout=subprocess.PIPE, text=True, check=True)
    names, on = [], False
    for line in r.stdout.splitlines():
        if not line.startswith(" "):
            on = line.strip() == prop
        elif on:
            names.append(line.strip().split(" quick=")[0])
    return names


def run(prop, tier, seed):
    build()
    names = section_names(prop)
    if not names:
        die("unknown property " + prop)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev_path = os.path.join(VERIF, "evidence", prop + ".json")
    reports, fails, error = [], [], None
    with tempfile.TemporaryDirectory() as tmp:
        for prof in PROFILES:
            rep, fl, err = worker(prof, prop, tier, seed, tmp, names)
            if rep:
                reports.append((prof, rep))
            for f in fl:
                rc, _, _ = one(prof, prop, f["section"], f["tape"], tier, tmp, 300, f.get("prelude"))
                f["reproduced"] = rc == 1 or crashed(rc) or endless(rc)
                f["profile"] = prof
                fails.append(f)
            error = err
            if fails or error:
                break
    total = distinct = 0
    samples, secs, labels = [], [], {}
    rule = ""
    for prof, rep in reports:
        rule = rep["rule"]
        for s in rep["sections"]:
            total += s["evaluations"]
            if not (s["exhaustive"] and prof != "checked"):
                distinct += s["distinct"]
            secs.append({"section": s["name"], "build": prof, "evaluations": s["evaluations"],
                         "nontrivial": s["nontrivial"], "exhaustive": s["exhaustive"],
                         "classes": s["labels"], "seconds": s["secs"]})
            for t in s["samples"][:1 if prof != "checked" else 2]:
                samples.append("[%s, %s] %s" % (s["name"], prof, t.strip()[:1500]))
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": total, "distinct_nontrivial": distinct, "rule": rule,
                       "samples": samples[:24], "sections": secs},
          "assumptions": [
              "The reference models under harness/src/model are written from the specification and trusted.",
              "Both builds (with and without debug assertions and overflow checks) are run; other targets and toolchains are not.",
          ],
          "wall_s": round(time.time() - T0, 2), "violations": len(fails)}
    if error:
        ev["coverage"]["error"] = error
    with open(ev_path, "w") as f:
        json.dump(ev, f, indent=1)
    if error and not fails:
        die(error, 3)
    rd = os.path.join(VERIF, "replays")
    for n, f in enumerate(fails):
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, "%s-%d.json" % (prop, n))
        with open(path, "w") as fd:
            json.dump({"property": prop, "section": f["section"], "build": f["profile"], "tier": tier, "seed": seed,
                       "index": f["index"], "tape": f["tape"], "prelude": f.get("prelude"), "message": f["msg"], "trace": f["trace"],
                       "reproduced_in_a_fresh_process": f["reproduced"],
                       "replay": "python3 check.py replay " + os.path.relpath(path, VERIF)}, fd, indent=1)
        print("%s, section '%s' (%s build): %s" % (prop, f["section"], f["profile"], f["msg"]))
        if f["trace"]:
            print("minimal case:\n" + f["trace"][:3000])
        if not f["reproduced"]:
            print("note: the case did not fail again in a process of its own; it depends on what ran before it")
        print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
    if fails:
        sys.exit(1)
    print("%s: held on %d cases (%d distinct non-trivial), %.1f s" % (prop, total, distinct, time.time() - T0))


def replay(path):
    d = json.load(open(path))
    build()
    with tempfile.TemporaryDirectory() as tmp:
        tp = os.path.join(tmp, "tape")
        open(tp, "w").write(tape_text(d["tape"], d.get("prelude")))
        cpu = CASE[d["tier"]][1]
        r = subprocess.run([binary(d["build"]), "one", d["property"], d["section"], tp, "--tier", d["tier"]],
                           preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5)))
    if r.returncode == 0:
        sys.exit(0)
    if r.returncode == 1 or crashed(r.returncode) or endless(r.returncode):
        print("VIOLATION property=%s replay=%s" % (d["property"], path))
        sys.exit(1)
    die("replay ended with %d" % r.returncode)


def main():
    a = sys.argv[1:]
    if not a:
        die(__doc__)
    if a[0] == "setup":
        build()
    elif a[0] == "run":
        tier = a[a.index("--tier") + 1] if "--tier" in a else os.environ.get("VERIF_TIER", "quick")
        if tier not in LIMIT:
            die("unknown tier " + tier)
        try:
            seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            seed = int.from_bytes(hashlib.sha256(os.environ["VERIF_SEED"].encode()).digest()[:7], "big")
        run(a[1], tier, seed % (1 << 63))
    elif a[0] == "replay":
        replay(a[1])
    else:
        die(__doc__)


main()
