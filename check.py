#!/usr/bin/env python3
"""check.py run PROP   search (VERIF_SEED, VERIF_TIER), exit 0 / 1 with a VIOLATION line / 2 error of the check
   check.py build      builds the engine from /repo's working tree
   check.py replay F   replays a plan (add --trace for the event log)
   check.py determinism PROP [N]   every run twice, in different processes and orders"""
import fcntl, hashlib, json, os, shutil, subprocess, sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
SIM = os.path.join(HERE, "sim")


# sources that instantiate nothing but public overloads, and the property that promises those overloads
STUBS = dict([("lib_con%d" % i, "C08") for i in range(1, 7)] + [("lib_chain", "C08"), ("lib_ct", "C09"), ("lib_ctprint", "C13")] + [("lib_ctm%d" % i, "C18") for i in range(1, 9)] + [("lib_ctt%d" % i, "C18") for i in range(1, 9)])


def lost(exe):
    f = os.path.join(os.path.dirname(exe), "lost.json")
    return json.load(open(f)) if os.path.exists(f) else {}


def tree_hash():
    h = hashlib.sha256()
    files = []
    for root in (os.path.join(REPO, "viennamath"), SIM):
        for d, dirs, names in os.walk(root):
            dirs.sort()
            for n in sorted(names):
                files.append(os.path.join(d, n))
    for f in files:
        if not os.path.isfile(f):
            continue
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:20]


def build():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        key = tree_hash()
        d = os.path.join(BUILD, key)
        exe = os.path.join(d, "engine")
        if os.path.exists(exe):
            return exe
        for old in os.listdir(BUILD):      # only one build is kept
            p = os.path.join(BUILD, old)
            if os.path.isdir(p):
                shutil.rmtree(p)
        os.makedirs(d)
        jobs = str(max(2, min(16, os.cpu_count() or 8)))
        make = ["make", "-s", "-j", jobs, "-C", d, "-f", os.path.join(SIM, "Makefile"), "REPO=" + REPO, "SRC=" + SIM]
        r = subprocess.run(make + ["engine"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            # Files that only instantiate overloads can be left out: their property is reported, the others are still checked.
            subprocess.run(make + ["-k", "engine"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            lost = {}
            for f in sorted(STUBS):
                if not os.path.exists(os.path.join(d, f + ".o")):
                    q = subprocess.run(make + [f + ".o"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                    if q.returncode:
                        lost[f] = q.stdout[:6000]
            r = subprocess.run(make + ["STUB_%s=-DSIM_STUB" % f for f in lost] + ["engine"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if lost and not r.returncode:
                with open(os.path.join(d, "lost.json"), "w") as fh:
                    json.dump(lost, fh, indent=1)
        if r.returncode:
            sys.stderr.write(r.stdout[-6000:] + "\nthe engine does not build\n")
            shutil.rmtree(d)
            sys.exit(2)
        for n in os.listdir(d):
            if n.endswith((".o", ".inc")):
                os.unlink(os.path.join(d, n))
        return exe


def run(prop):
    seed = os.environ.get("VERIF_SEED", "1")
    try:
        seed = str(abs(int(seed)))
    except ValueError:
        seed = "1"
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    exe = build()
    wall = os.environ.get("VERIF_WALL", "40" if tier == "quick" else "600")
    ev = os.path.join(HERE, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(ev), exist_ok=True)
    rd = os.path.join(HERE, "replays")
    os.makedirs(rd, exist_ok=True)
    if os.path.exists(ev):
        os.unlink(ev)
    workers = str(max(2, min(16, os.cpu_count() or 8)))
    r = subprocess.run([exe, "check", prop, "--seed", seed, "--tier", tier, "--workers", workers, "--runs", "100000000", "--wall", wall,
                        "--known", os.path.join(HERE, "known_findings.txt"), "--replay-dir", rd, "--evidence", ev],
                       stdout=subprocess.PIPE, text=True)
    out = r.stdout
    rc = r.returncode
    mine = {f: e for f, e in lost(exe).items() if STUBS[f] == prop}
    if rc == 0 and mine:
        path = os.path.join(rd, prop + "-overloads.json")
        with open(path, "w") as fh:
            json.dump({"overloads": mine}, fh, indent=1)
        out = "overloads that have to exist cannot be instantiated: %s\nVIOLATION property=%s replay=%s\n" % (", ".join(mine), prop, path)
        rc = 1
    elif rc == 1:
        # the replay has to fail in a fresh process as well
        path = out.rsplit("replay=", 1)[1].strip()
        q = subprocess.run([exe, "replay", path], stdout=subprocess.PIPE, text=True)
        if q.returncode != 1:
            sys.stderr.write(out + q.stdout + "\nthe replay does not reproduce the violation\n")
            return 2
        if "(as recorded)" not in q.stdout:
            sys.stderr.write(q.stdout + "\nthe replay fails in another way than the run it was recorded from\n")
    sys.stdout.write(out)
    if rc not in (0, 1):
        return 2
    try:
        json.load(open(ev))
    except Exception as e:
        sys.stderr.write("no evidence: %s\n" % e)
        return 2
    return rc


def determinism(prop, n):
    exe = build()
    seed = os.environ.get("VERIF_SEED", "1")
    a = subprocess.run([exe, "hash", prop, seed, "0", str(n)], stdout=subprocess.PIPE, text=True).stdout
    procs = [subprocess.Popen([exe, "hash", prop, seed, str(n * i // 7), str(n * (i + 1) // 7)], stdout=subprocess.PIPE, text=True, env={"X%d" % i: "y" * (100 * i + 1)}) for i in range(7)]
    b = "".join(p.communicate()[0] for p in procs)
    print("%s: %d runs, %s" % (prop, a.count("\n"), "identical" if a == b else "DIFFERENT"))
    return 0 if a == b else 1


def main():
    if len(sys.argv) >= 2 and sys.argv[1] == "build":
        print(build())
        return 0
    if len(sys.argv) >= 3 and sys.argv[1] == "run":
        return run(sys.argv[2])
    if len(sys.argv) >= 3 and sys.argv[1] == "replay":
        exe = build()
        try:
            files = json.load(open(sys.argv[2]))["overloads"]
        except Exception:
            return subprocess.run([exe, "replay"] + sys.argv[2:]).returncode
        again = [f for f in files if f in lost(exe)]
        for f in again:
            print("%s: overloads cannot be instantiated\n%s" % (f, lost(exe)[f]))
        return 1 if again else 0
    if len(sys.argv) >= 3 and sys.argv[1] == "determinism":
        return determinism(sys.argv[2], int(sys.argv[3]) if len(sys.argv) > 3 else 500)
    sys.stderr.write(__doc__ + "\n")
    return 2


sys.exit(main())
