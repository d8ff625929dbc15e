#!/usr/bin/env python3
"""Driver of the deterministic simulation: builds the simulator from /repo's
current working tree, runs seeded batches, minimises and verifies failures.

  napsim.py setup                       build every flavour
  napsim.py check PROP [--tier T]       explore; exit 0 held / 1 VIOLATION / 2 error
  napsim.py replay FILE                 replay a failure file; exit 1 if it fails again
  napsim.py gen PROP SEED [--flavor F]  print the plan of a seed
"""
import argparse, fcntl, glob, hashlib, json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("NAPSIM_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SIM = os.path.join(VERIF, "sim")
EVID = os.path.join(VERIF, "evidence")
REPLAYS = os.path.join(VERIF, "replays")
KNOWN = os.path.join(VERIF, "known-findings.txt")
FLAGS = {
    "chk": ["-O1", "-g1", "-ftrapv"],                       # assertions on (the build the developers test)
    "rel": ["-O2", "-g1", "-DNDEBUG"],                      # as released
    "asan": ["-O1", "-g1", "-ftrapv", "-fsanitize=address,undefined",
             "-fno-sanitize=pointer-overflow", "-fno-sanitize-recover=undefined"],
}
JOBS = os.cpu_count() or 8
from props import PROPS, REAL, STUB  # noqa: E402


def log(*a):
    print("[napsim]", *a, flush=True)


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:20]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def sources():
    repo = sorted(glob.glob(REPO + "/src/**/*.cpp", recursive=True))
    main = REPO + "/main.cpp"
    sim = sorted(glob.glob(SIM + "/src/*.cpp"))
    hdr = sorted(f for d in (REPO + "/src", REPO + "/include") for e in ("hpp", "h", "hh", "ipp", "inl", "tpp")
                 for f in glob.glob(d + "/**/*." + e, recursive=True))
    shdr = sorted(glob.glob(SIM + "/src/*.hpp") + glob.glob(SIM + "/stub/*.hpp"))
    return repo, main, sim, hdr, shdr


def build(flavor):
    """Compile /repo's sources and the simulator; objects are reused by content."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock." + flavor), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        repo, main, sim, hdr, shdr = sources()
        rh = sha(*[p + "\n" + hashlib.sha256(read(p)).hexdigest() for p in hdr + shdr])
        std = ["-std=c++20", "-I" + REPO + "/include", "-I" + SIM + "/stub"]
        jobs = []
        for f in repo:
            jobs.append((f, ["g++"] + std + FLAGS[flavor]))
        jobs.append((main, ["g++"] + std + ["-I" + REPO, "-Dmain=napsat_cli_main"] + FLAGS[flavor]))
        for f in sim:
            jobs.append((f, ["g++"] + std + ["-I" + REPO + "/src", "-UNDEBUG", '-DSIM_FLAVOR="%s"' % flavor, "-Wall"] +
                         [x for x in FLAGS[flavor] if x != "-DNDEBUG"]))
        objdir = os.path.join(BUILD, "obj." + flavor)
        os.makedirs(objdir, exist_ok=True)
        objs, todo = [], []
        for f, cmd in jobs:
            o = os.path.join(objdir, os.path.basename(f) + "." + sha(f, read(f), rh, " ".join(cmd)) + ".o")
            objs.append(o)
            if not os.path.exists(o):
                todo.append((cmd + ["-c", f, "-o", o + ".tmp"], o))

        def one(j):
            r = subprocess.run(j[0], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                return "compiling failed: " + " ".join(j[0]) + "\n" + r.stdout[-4000:]
            os.rename(j[1] + ".tmp", j[1])
            return None
        with ThreadPoolExecutor(JOBS) as ex:
            errs = [e for e in ex.map(one, todo) if e]
        if errs:
            print(errs[0])
            raise SystemExit(2)
        exe = os.path.join(BUILD, "sim-%s-%s" % (flavor, sha(*objs)))
        if not os.path.exists(exe):
            r = subprocess.run(["g++"] + objs + FLAGS[flavor] + ["-o", exe + ".tmp", "-llzma", "-lbz2"],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                print("linking failed\n" + r.stdout[-4000:])
                raise SystemExit(2)
            for old in glob.glob(os.path.join(BUILD, "sim-%s-*" % flavor)):
                if old != exe + ".tmp":
                    os.unlink(old)
            keep = set(objs)
            for old in glob.glob(objdir + "/*"):
                if old not in keep:
                    os.unlink(old)
            os.rename(exe + ".tmp", exe)
        return exe


def sim(exe, *args, timeout=None, scratch=None):
    env = dict(os.environ)
    env.pop("SIM_NOASLR", None)
    r = subprocess.run([exe, "--repo=" + REPO] + list(args), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                       text=True, timeout=timeout, env=env, errors="replace")
    return r.returncode, r.stdout


def run_plan(exe, path):
    """-> (violated, signature, hash, message)"""
    rc, o = sim(exe, "run", path, timeout=600)
    lines = o.splitlines()
    if not lines:
        return None, "", "", "no output"
    kv = dict(x.split("=", 1) for x in lines[0].split(" ", 3) if "=" in x)
    return rc == 1, kv.get("sig", ""), kv.get("hash", ""), "\n".join(lines[1:])


def known():
    """finding lines: 'finding: property=ID replay=FILE sig=SIG :: text'   fixed lines: 'fixed: property=ID COMMIT text'"""
    out = []
    if os.path.exists(KNOWN):
        for ln in open(KNOWN):
            ln = ln.strip()
            if not ln.startswith("finding:"):
                continue
            head, text = ln[len("finding:"):].split("::", 1)
            kv = dict(w.split("=", 1) for w in head.split())
            kv["text"] = text.strip()
            out.append(kv)
    return out


def plan_field(path, key):
    for ln in open(path, errors="replace"):
        w = ln.split()
        if len(w) > 1 and w[0] == key:
            return w[1]
    return None


def check(prop, tier, seed):
    t0 = time.time()
    P = PROPS[prop]
    flavors = P["flavors"] if tier == "quick" else P.get("deep_flavors", P["flavors"] + (["asan"] if "asan" not in P["flavors"] else []))
    seconds = float(os.environ.get("NAPSIM_SECONDS", P.get(tier, {"quick": 32, "thorough": 600}[tier])))
    os.makedirs(EVID, exist_ok=True)
    os.makedirs(REPLAYS, exist_ok=True)
    exes = {}
    for f in flavors:
        exes[f] = build(f)
    tb = time.time()
    log("built", ",".join(flavors), "in %.1fs" % (tb - t0))
    violations, known_hits = [], []
    for k in known():
        if k["property"] != prop:
            continue
        path = os.path.join(VERIF, k["replay"])
        fl = plan_field(path, "flavor") or "chk"
        v, sig, h, msg = run_plan(build(fl), path)
        if v and sig == k["sig"]:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["text"]), flush=True)
            known_hits.append(k["sig"])
        elif v:
            violations.append((path, sig, msg))
    tmp = tempfile.mkdtemp(prefix="napsim-check.", dir="/tmp")
    os.chmod(tmp, 0o755)
    summaries, cand = [], []
    try:
        # regression plans: minimised histories of defects found earlier
        corpus = sorted(glob.glob(os.path.join(VERIF, "corpus", prop, "*.plan")))
        corpus_n = 0
        for path in corpus:
            for f in flavors:
                corpus_n += 1
                v, sig, h, msg = run_plan(exes[f], path)
                if v and sig not in known_hits:
                    v2, sig2, h2, _ = run_plan(exes[f], path)
                    if v2 and sig2 == sig:
                        q = os.path.join(REPLAYS, "%s-corpus-%s-%s" % (prop, f, os.path.basename(path)))
                        txt = open(path).read().splitlines()
                        open(q, "w").write("\n".join("flavor " + f if x.startswith("flavor ") else x for x in txt) + "\n")
                        violations.append((q, sig, msg))
        if not violations:
            share = max(1, JOBS // len(flavors))
            procs = []
            for i, f in enumerate(flavors):
                d = os.path.join(tmp, f)
                os.makedirs(d)
                start = ((seed & 0xFFFFF) << 42) + (["chk", "rel", "asan"].index(f) << 38) + 1
                procs.append((f, d, start, subprocess.Popen(
                    [exes[f], "--repo=" + REPO, "batch", prop, "--seconds=%g" % seconds, "--workers=%d" % share,
                     "--start=%d" % start, "--out=" + d, "--tier=" + tier, "--stop=1"],
                    stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)))
            # a violation in one flavour ends the whole exploration soon after
            live, deadline = list(procs), None
            while live:
                live = [p for p in live if p[3].poll() is None]
                for f, d, start, p in procs:
                    if p.poll() is not None and deadline is None and os.path.exists(d + "/summary.json"):
                        if json.load(open(d + "/summary.json"))["violations"]:
                            deadline = time.time() + 5
                if deadline and time.time() > deadline:
                    for p in live:
                        p[3].kill()
                time.sleep(0.1)
            for f, d, start, p in procs:
                sm = d + "/summary.json"
                if os.path.exists(sm):
                    summaries.append(json.load(open(sm)))
                for vf in glob.glob(d + "/viol.*"):
                    for ln in open(vf, errors="replace"):
                        c = ln.rstrip("\n").split("\t")
                        if len(c) >= 5:
                            cand.append(dict(flavor=f, seed=c[0], sig=c[1], rep=c[2], plan=c[3], msg=c[4]))
            if not summaries:
                print("no simulation finished")
                return 2
            seen = set()
            for c in sorted(cand, key=lambda c: c["rep"] != "repro"):
                if c["sig"] in seen or c["sig"] in known_hits or c["plan"] == "-":
                    continue
                if c["rep"] != "repro" and violations:
                    continue
                seen.add(c["sig"])
                exe = exes[c["flavor"]]
                dst = os.path.join(REPLAYS, "%s-%s-%s.plan" % (prop, c["flavor"], c["seed"]))
                mini = dst + ".min"
                ok = False
                try:
                    sim(exe, "min", c["plan"], mini, "--seconds=%d" % (15 if tier == "quick" else 60), timeout=400)
                except subprocess.TimeoutExpired:
                    pass
                for src in (mini, c["plan"]):
                    if not os.path.exists(src):
                        continue
                    r = [run_plan(exe, src) for _ in range(2)]
                    if all(x[0] and x[1] == c["sig"] for x in r) and (r[0][2] == r[1][2] or c["sig"] == "hang"):
                        shutil.copy(src, dst)
                        with open(dst, "a") as o:
                            o.write("# property %s\n# signature %s\n# %s\n" % (prop, c["sig"], r[0][3].replace("\n", " ")))
                        violations.append((dst, c["sig"], r[0][3]))
                        ok = True
                        break
                if os.path.exists(mini):
                    os.unlink(mini)
                if not ok and prop == P.get("nondet_is_violation") and c["plan"] != "-":
                    pass
                if len(violations) >= 3:
                    break
        nondet = sum(s["nondeterministic"] for s in summaries)
        unrepro = [c for c in cand if c["rep"] != "repro"]
        total = lambda k: sum(s[k] for s in summaries)  # noqa: E731
        ctr = {}
        for s in summaries:
            for k, v in s["counters"].items():
                ctr[k] = ctr.get(k, 0) + v
        wall = time.time() - t0
        search = max([s["wall"] for s in summaries] or [1e-9])
        samples = []
        for f in flavors[:2]:
            for k in (0, 1):
                start = ((seed & 0xFFFFF) << 42) + (["chk", "rel", "asan"].index(f) << 38) + 1 + k
                samples.append(sim(exes[f], "gen", prop, str(start), "--tier=" + tier)[1][:3000])
        ev = {
            "property": prop, "tier": tier, "seed": seed, "level": P["level"], "wall_s": round(wall, 2),
            "violations": len(violations),
            "assumptions": P.get("assumptions", []),
            "coverage": {
                "evaluations": total("runs") + corpus_n if summaries else corpus_n,
                "distinct_nontrivial": total("distinct") if summaries else 0,
                "rule": "one evaluation is one seeded simulated run in a process of its own; " + P["rule"] +
                        "; runs are distinct by the hash of everything observed (API results, observer notifications, switches)",
                "samples": samples,
                "simulated_runs_per_hour": int(total("runs") / search * 3600) if summaries else 0,
                "seeds": {s["flavor"]: [s["start"], s["runs"]] for s in summaries},
                "seam_crossings": total("steps") if summaries else 0,
                "simulated_seconds": (total("sim_ns") / 1e9) if summaries else 0,
                "faults_injected": {k[6:]: v for k, v in sorted(ctr.items()) if k.startswith("fault_")},
                "runs_with_faults": total("fault_runs") if summaries else 0,
                "operation_shapes_reached": total("states") if summaries else 0,
                "events": {k: v for k, v in sorted(ctr.items()) if not k.startswith("fault_")},
                "determinism_rechecks": total("rechecks") if summaries else 0,
                "nondeterministic": nondet,
                "inconclusive_runs": total("inconclusive") if summaries else 0,
                "regression_plans": corpus_n,
                "unreproduced_failures": len(unrepro),
                "flavours": {f: " ".join(FLAGS[f]) for f in flavors},
                "real_code": P.get("real", REAL), "stubbed": P.get("stub", STUB),
            },
        }
        with open(os.path.join(EVID, prop + ".json"), "w") as o:
            json.dump(ev, o, indent=1)
            o.write("\n")
        log("%s %s: %d runs (%d distinct non-trivial), %d seam crossings, %.1fs" % (
            prop, tier, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], ev["coverage"]["seam_crossings"], wall))
        for path, sig, msg in violations:
            print("  %s\n  %s" % (sig, msg))
            print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
        if violations:
            return 1
        if unrepro or nondet:
            # a failure that its seed does not reproduce is not reported as a violation of the property
            for c in unrepro[:3]:
                print("  not reproducible: seed %s %s: %s" % (c["seed"], c["sig"], c["msg"]))
            print("the simulation was not deterministic on this tree; no verdict")
            return 2
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd")
    ap.add_argument("args", nargs="*")
    ap.add_argument("--tier", default=None)
    ap.add_argument("--flavor", default="chk")
    a = ap.parse_args()
    if a.cmd == "setup":
        for f in ("chk", "rel", "asan"):
            log(f, build(f))
        return 0
    if a.cmd == "check":
        return check(a.args[0], a.tier or os.environ.get("VERIF_TIER", "quick"), int(os.environ.get("VERIF_SEED", "1") or 1))
    if a.cmd == "replay":
        f = plan_field(a.args[0], "flavor") or "chk"
        exe = build(f)
        r = [run_plan(exe, a.args[0]) for _ in range(2)]
        print("%s hash=%s sig=%s\n%s" % ("VIOLATION" if r[0][0] else "held", r[0][2], r[0][1], r[0][3]))
        print("replayed twice: " + ("identical" if r[0][:3] == r[1][:3] else "DIFFERENT"))
        return 1 if r[0][0] else 0
    if a.cmd == "gen":
        sys.stdout.write(sim(build(a.flavor), "gen", a.args[0], a.args[1])[1])
        return 0
    ap.print_help()
    return 2


if __name__ == "__main__":
    sys.exit(main())
