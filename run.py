#!/usr/bin/env python3
"""Decides one property of chridou/metrix by symbolic execution of its compiled code.

  python3 run.py C02            the check of property C02 (tier: VERIF_TIER or --tier)
  python3 run.py --setup        builds the engine and everything the checks share
  python3 run.py --replay FILE  re-runs a recorded counterexample natively

Exit 0: every assertion of every harness of the property was decided and holds within the bounds.
Exit 1: VIOLATION line. Exit 2: no answer (undecided query, limit, error, vacuous harness, a
counterexample that does not reproduce).
"""
import argparse, concurrent.futures as cf, fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("METRIX_REPO", "/repo")
TGT = os.path.join(ROOT, "target")
HX = os.path.join(ROOT, "harness")
SRC = os.path.join(HX, "src")
TOOLCHAIN = "stable-x86_64-unknown-linux-gnu"
CORES = os.cpu_count() or 8


def env():
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
             RUSTC_WRAPPER="", CARGO_INCREMENTAL="0")
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    for k in list(e):
        if k.startswith("CARGO_PROFILE_"):
            e.pop(k)
    return e


def cargo(args, cwd, what):
    t = time.time()
    r = subprocess.run(["cargo"] + args, cwd=cwd, env=env(), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        e = r.stdout.find("\nerror")
        print(r.stdout[max(e, 0):][:6000])
        die(f"building {what} failed")
    return time.time() - t


def die(msg):
    print(f"ERROR: {msg}", flush=True)
    sys.exit(2)


# ---- builds --------------------------------------------------------------------------------
def engine():
    d = os.path.join(TGT, "engine")
    cargo(["build", "--release", "--offline", "--locked", "--target-dir", d], os.path.join(ROOT, "engine"), "engine")
    return os.path.join(d, "release", "symx")


def ir():
    d = os.path.join(TGT, "ir")
    for f in glob.glob(os.path.join(d, "release", "deps", "hx-*.ll")):
        os.remove(f)
    # a changed file time is what makes cargo look again; content is what counts
    for f in glob.glob(os.path.join(d, "release", ".fingerprint", "hx-*")):
        shutil.rmtree(f, ignore_errors=True)
    cargo(["rustc", "--lib", "--crate-type", "staticlib", "--release", "--offline", "--locked", "--target-dir", d, "--",
           "--emit=llvm-ir", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp"], HX, "LLVM IR")
    l = glob.glob(os.path.join(d, "release", "deps", "hx-*.ll"))
    if len(l) != 1:
        die(f"expected one IR file, found {l}")
    return l[0]


def native(profile):
    d = os.path.join(TGT, "native")
    cargo(["build", "--bin", "replay", "--profile", profile, "--offline", "--locked", "--target-dir", d], HX,
          f"native replay ({profile})")
    return os.path.join(d, {"dev": "debug"}.get(profile, profile), "replay")


# ---- harnesses -----------------------------------------------------------------------------
class Harness:
    pass


def harnesses(prop, tier, only=None):
    f = os.path.join(SRC, prop.lower() + ".rs")
    if not os.path.exists(f):
        die(f"no harness file for {prop}")
    lines = open(f).read().split("\n")
    out, ann, cur, doc, shared, fn = [], {}, None, [], [], None
    for i, l in enumerate(lines, 1):
        if cur is not None:
            if l.startswith("}"):
                cur.end = i
                out.append(cur)
                cur, ann, doc = None, {}, []
            else:
                if re.search(r"\bcover!\(", l):
                    cur.covers.append(i)
                if re.search(r"\bcheck!\(", l):
                    cur.checks.append(i)
        elif l.startswith("//@"):
            for kv in l[3:].split():
                k, _, v = kv.partition("=")
                ann[k] = v
        elif re.search(r"\bcover!\(", l):
            shared.append((fn, i))  # in a helper that several harnesses of the file use
        elif re.match(r"(pub )?fn (\w+)", l):
            fn = re.match(r"(pub )?fn (\w+)", l).group(2)
        elif l.startswith("//"):
            doc.append(l[2:].strip())
        elif l.startswith("harness!("):
            h = Harness()
            h.name = re.match(r"harness!\((\w+)", l).group(1)
            h.start, h.covers, h.checks, h.ann, h.doc, h.file = i, [], [], ann, " ".join(doc), f
            if not h.doc and out and h.name == out[-1].name + "_more":
                h.doc = out[-1].doc
            cur = h
        elif not l.strip():
            doc = []
    res = []
    for h in out:
        if h.ann.get("shared"):
            # (those of the helper it names)
            h.covers += [i for f, i in shared if h.ann["shared"] in ("1", f)]
        if not h.covers:
            die(f"{h.name}: no cover! (vacuity)")
        t = h.ann.get("tier", "quick")
        if t == "thorough" and tier == "quick":
            continue
        if t == "quickonly" and tier == "thorough":
            continue
        if only and not re.search(only, h.name):
            continue
        res.append(h)
    if not res:
        die("no harness selected")
    return res


def run_symx(job):
    binp, ll, h, shard, out, tier = job
    a = h.ann
    tmo = float(a.get("timeout", "300" if tier == "quick" else "1500"))
    cmd = [binp, "--ll", ll, "--entry", h.name, "--json", out, "--timeout", str(tmo),
           "--max-paths", a.get("max_paths", "2000000"), "--max-steps", a.get("max_steps", "20000000"),
           "--samples", a.get("samples", "6"), "--max-viol", "3",
           "--hard-s", a.get("hard", "60" if tier == "quick" else "300"), "--soft-ms", a.get("soft", "250")]
    if shard:
        cmd += ["--shard", f"{shard[0]}/{shard[1]}"]
    if tier == "thorough" or a.get("xcheck"):
        cmd += ["--xcheck", "1"]
    t = time.time()
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=tmo + 400)
        err, rc = r.stderr, r.returncode
    except subprocess.TimeoutExpired:
        err, rc = "engine did not stop in time", 3
    return h, shard, rc, err, out, time.time() - t


def native_replay(binp, name, values, path, realtime=False):
    env = dict(os.environ, SX_REALTIME="1") if realtime else None
    with open(path, "w") as f:
        f.write("\n".join(str(v) for v in values) + "\n")
    try:
        r = subprocess.run([binp, name, path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=60, env=env)
    except subprocess.TimeoutExpired:
        return 124, [], "HANG: no end within 60 s"
    obs, last = [], ""
    for l in r.stdout.split("\n"):
        if l.startswith("OBS"):
            obs = l.split()[1:]
        elif l.strip():
            last = l.strip()
    if r.returncode < 0:
        last = f"SIGNAL {-r.returncode} " + last
    return r.returncode, obs, last


def reproduces(kind, msg, rc, last):
    if kind == "assert":
        return rc == 1 and last == "ASSERT " + msg.lstrip("#")
    if kind == "panic":
        return rc == 101
    if kind in ("deadlock", "hang"):
        return rc == 124
    return rc not in (0, 3)


def known_findings(prop):
    out = []
    p = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r"finding: property=(\w+) harness=(\S+) at=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                out.append(m.groups()[1:])
    return out


def check(prop, tier, only=None, keep=False):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    hs = harnesses(prop, tier, only)
    with cf.ThreadPoolExecutor(3) as ex:
        fe, fi, fn = ex.submit(engine), ex.submit(ir), ex.submit(native, "dev")
        binp, ll, nat = fe.result(), fi.result(), fn.result()
    build_s = time.time() - t0
    work = os.path.join(TGT, "run", f"{prop}-{tier}")
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    jobs = []
    for h in hs:
        n = int(h.ann.get("shards", "1"))
        for k in range(n):
            sh = (k, n) if n > 1 else None
            jobs.append((binp, ll, h, sh, os.path.join(work, f"{h.name}.{k}.json"), tier))
    # the longest first
    jobs.sort(key=lambda j: -float(j[2].ann.get("cost", "1")))
    res = {}
    with cf.ThreadPoolExecutor(CORES) as ex:
        for h, shard, rc, err, out, wall in ex.map(run_symx, jobs):
            r = None
            if os.path.exists(out):
                try:
                    r = json.load(open(out))
                except ValueError:
                    r = None
            if r is None:
                print(err[-1500:])
                r = {"status": "error", "errors": [f"engine exit {rc}"]}
            r["rc"], r["wall"] = rc, wall
            res.setdefault(h.name, []).append(r)
    problems, violations, known = [], [], []
    kf = known_findings(prop)
    tot = dict(paths=0, forks=0, steps=0, asserts=0, assert_queries=0, queries=0, cache_hits=0, sat=0, unsat=0,
               fallbacks=0, solver_s=0.0, infeasible=0, havocs=0, switches=0, threads=0, validated=0, xchecked=0)
    fns, covers_hit, samples, per = {}, 0, [], []
    shipped = None
    for h in hs:
        rs = res.get(h.name, [])
        cov = {}
        for r in rs:
            for k in tot:
                if k in r and k != "threads":
                    tot[k] += r[k]
            tot["threads"] = max(tot["threads"], r.get("threads", 0))
            if r.get("xcheck"):
                a = r["xcheck"]
                tot["xchecked"] += a[0]
                if a[1]:
                    problems.append(f"{h.name}: {a[1]} answers contradicted by the second solver")
            for k, v in r.get("covers", {}).items():
                cov[int(k)] = cov.get(int(k), 0) + v
            for f, ls in r.get("functions", []):
                fns.setdefault(f, set()).update(ls.split())
            st = r["status"]
            if st in ("error", "limit", "inconclusive") or (st != "violation" and r.get("limit")):
                problems.append(f"{h.name}: {st} {r.get('limit','')} " + " | ".join((r.get("errors") or r.get("inconclusive") or [])[:2])[:1500])
            rt = h.ann.get("realtime") == "1"
            for v in r.get("violations", []):
                vals = [x[1] for x in v["nd"]]
                rp = os.path.join(work, f"{h.name}.{len(violations) + len(known)}.replay")
                line = v["msg"].lstrip("#") if v["kind"] == "assert" else next(
                    (t for t in v["trace"] if "/repo/src/" in t), v["trace"][0] if v["trace"] else "?")
                what = f"{v['kind']} {v['msg']} [{h.name}" + (f":{line}]" if v["kind"] == "assert" else f" at {line}]")
                rc, _, last = native_replay(nat, h.name, vals, rp, rt)
                how = "native dev build"
                ok = reproduces(v["kind"], v["msg"], rc, last)
                if not ok:
                    if shipped is None:
                        shipped = native("shipped")
                    rc2, _, last2 = native_replay(shipped, h.name, vals, rp, rt)
                    ok = reproduces(v["kind"], v["msg"], rc2, last2)
                    how = "native release build"
                if not ok and h.ann.get("threads"):
                    # a schedule the native run cannot be forced into: execute the compiled code
                    # once more with these values and this schedule, all concrete
                    fp = rp + ".sched"
                    with open(fp, "w") as f:
                        f.write(" ".join(vals) + "\n" + " ".join(str(x) for x in v["sched"]) + "\n")
                    e = subprocess.run([binp, "--ll", ll, "--entry", h.name, "--replay", fp, "--json", rp + ".json",
                                        "--timeout", "120"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                    try:
                        j = json.load(open(rp + ".json"))
                        ok = e.returncode == 1 and any(x["kind"] == v["kind"] and x["msg"] == v["msg"] for x in j["violations"])
                    except (OSError, ValueError):
                        ok = False
                    how = "concrete re-execution of the IR under the recorded schedule"
                if not ok:
                    problems.append(f"{h.name}: counterexample does not reproduce ({what}; native: {rc} {last}) values {' '.join(vals)}")
                    continue
                with open(rp, "a") as f:
                    f.write(f"# harness {h.name} ({h.file})\n# {what}\n# reproduced by {how}: {last}\n# schedule {v['sched']}\n")
                    for t in v["trace"][:20]:
                        f.write("#   " + t + "\n")
                hit = [k for k in kf if k[0] == h.name and k[1] in what]
                if hit:
                    known.append((hit[0], what, rp))
                else:
                    violations.append((what, rp, how))
            # the engine against the real code: sampled paths, natively
            if rt:  # timing is up to the machine here: counts if it agrees
                for n, s in enumerate(r.get("samples", [])[:2]):
                    vals = [x[1] for x in s["nd"]]
                    rc, obs, last = native_replay(nat, h.name, vals, os.path.join(work, f"{h.name}.sample"), True)
                    if rc == 0 and obs == s["obs"]:
                        tot["validated"] += 1
            if not h.ann.get("noreplay"):
                for n, s in enumerate(r.get("samples", [])):
                    vals = [x[1] for x in s["nd"]]
                    rc, obs, last = native_replay(nat, h.name, vals, os.path.join(work, f"{h.name}.sample"))
                    if rc != 0 or obs != s["obs"]:
                        if any(x["nd"] == s["nd"] for x in r.get("violations", [])):
                            continue
                        problems.append(f"{h.name}: sampled path differs natively: rc={rc} {last} obs={obs} expected {s['obs']} values {' '.join(vals)}")
                    else:
                        tot["validated"] += 1
            if len(samples) < 12 and r.get("samples"):
                s = r["samples"][0]
                samples.append({"harness": h.name, "inputs": [x[1] for x in s["nd"]][:40], "observed": s["obs"][:20]})
        miss = [c for c in h.covers if not cov.get(c)]
        covers_hit += len(h.covers) - len(miss)
        if miss and not any(r["status"] == "violation" for r in rs):
            problems.append(f"{h.name}: vacuous, never reached: lines {miss}")
        per.append({"harness": h.name, "what": h.doc, "bounds": h.ann.get("bounds", "").replace("_", " "),
                    "paths": sum(r.get("paths", 0) for r in rs), "asserts": sum(r.get("asserts", 0) for r in rs),
                    "queries": sum(r.get("queries", 0) for r in rs),
                    "solver_s": round(sum(r.get("solver_s", 0) for r in rs), 2),
                    "wall_s": round(max([r["wall"] for r in rs] or [0]), 1),
                    "status": ",".join(sorted({r["status"] for r in rs}))})
    wall = time.time() - t0
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": round(wall, 2),
        "violations": len(violations),
        "coverage": {
            "states": tot["paths"] + tot["infeasible"], "transitions": tot["steps"],
            "traces_validated_against_impl": tot["validated"], "samples": samples,
            "paths_explored": tot["paths"], "forks": tot["forks"],
            "assertions_evaluated": tot["asserts"], "assertions_decided_by_solver": tot["assert_queries"],
            "solver_queries": tot["queries"], "sat": tot["sat"], "unsat": tot["unsat"], "cache_hits": tot["cache_hits"],
            "fallback_queries": tot["fallbacks"], "solver_s": round(tot["solver_s"], 2), "second_solver_answers": tot["xchecked"],
            "havocs": tot["havocs"], "threads": tot["threads"], "context_switches": tot["switches"],
            "cover_goals_reached": covers_hit, "harnesses": per,
            "functions_encoded": sorted(f"{k}: lines {' '.join(sorted(v, key=int))}" for k, v in fns.items()),
            "ir": {"file_bytes": os.path.getsize(ll), "sha256": hashlib.sha256(open(ll, "rb").read()).hexdigest()},
            "repo_src_sha256": repo_hash(), "build_s": round(build_s, 1), "known_findings": [k[1] for k in known],
            "undecided": problems,
        },
        "assumptions": ASSUME + [f"{h.name}: {h.ann['bounds'].replace('_', ' ')}" for h in hs if h.ann.get("bounds")],
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for p in per:
        print(f"  {p['harness']:34} {p['status']:10} paths={p['paths']} asserts={p['asserts']} queries={p['queries']} solver={p['solver_s']}s wall={p['wall_s']}s")
    print(f"{prop} {tier}: {tot['paths']} paths, {tot['asserts']} assertions, {tot['queries']} queries, solver {tot['solver_s']:.1f} s, "
          f"{tot['validated']} paths validated natively, build {build_s:.0f} s, total {wall:.0f} s")
    for k in known:
        print(f"KNOWN-FINDING: property={prop} {k[0][2]}")
    for what, rp, how in violations:
        print(f"  {what} (reproduced: {how})")
    for p in problems:
        print("UNDECIDED: " + p)
    if violations:
        print(f"VIOLATION property={prop} replay={violations[0][1]}", flush=True)
        return 1
    return 2 if problems else 0


ASSUME = [
    "encoded: post-LTO LLVM IR of harness + metrix (no optional features) + dependencies + std, x86_64, overflow checks and debug assertions on",
    "clock: clock_gettime returns the harness's virtual time (symbolic where the harness says so); sleeping advances it",
    "allocation never fails; randomness (reservoir of the histogram) is one fixed stream",
    "environment calls (write, sigaction, thread attributes) succeed without effect",
    "bounds: the harness bodies in /verif/harness/src; nothing is claimed outside them",
]


def repo_hash():
    h = hashlib.sha256()
    for p in sorted(glob.glob(os.path.join(REPO, "src", "**", "*.rs"), recursive=True)):
        h.update(p.encode())
        h.update(open(p, "rb").read())
    return h.hexdigest()


def lock():
    os.makedirs(TGT, exist_ok=True)
    f = open(os.path.join(TGT, "lock"), "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--replay")
    a = ap.parse_args()
    held = lock()
    if a.setup:
        engine(), native("dev"), ir()
        return 0
    if a.replay:
        t = open(a.replay).read()
        n = re.search(r"# harness (\w+)", t).group(1)
        for p in ("dev", "shipped"):
            r = subprocess.run([native(p), n, a.replay])
            print(p, "exit", r.returncode)
        return 0
    if a.tier not in ("quick", "thorough"):
        die("tier")
    return check(a.prop.upper(), a.tier, a.only)


if __name__ == "__main__":
    sys.exit(main())
