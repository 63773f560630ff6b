#!/usr/bin/env python3
"""Driver of the deterministic simulation: builds fhesim against /repo's working
tree, searches seeds, proves replay, minimises and reports violations.

  check.py C01 [--tier quick|thorough] [--secs N]
  check.py --replay FILE
  check.py --setup
"""
import json, os, re, selectors, signal, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
SIM = os.path.join(HERE, "sim")
REPO = "/repo"
NCPU = os.cpu_count() or 8

ENV = dict(os.environ)
ENV["PATH"] = "/root/.cargo/bin:" + ENV.get("PATH", "/usr/local/bin:/usr/bin:/bin")
ENV.setdefault("HOME", "/root")
ENV["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
ENV["CARGO_NET_OFFLINE"] = "true"
for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER"):
    ENV.pop(k, None)
ENV["CARGO_TERM_COLOR"] = "never"
# Address-space layout is pinned so that even address-dependent behaviour repeats.

TARGET = "x86_64-unknown-linux-gnu"
BUILDS = {
    # every debug assertion and overflow check of the library is live
    "checked": dict(args=["--profile", "checked"], dir="target", path="checked/fhesim", env={}),
    # what a release user links
    "shipped": dict(args=["--profile", "shipped"], dir="target-s", path="shipped/fhesim", env={}),
    # the optional NTT backend
    "tfhe": dict(args=["--profile", "shipped", "--features", "tfhe-ntt"], dir="target-t", path="shipped/fhesim", env={}),
    # every memory access of the library is a scheduling point
    "instr": dict(args=["--profile", "shipped", "--target", TARGET], dir="target-i", path=TARGET + "/shipped/fhesim",
                  env={"RUSTC_BOOTSTRAP": "1", "RUSTFLAGS": "-Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer"}),
    # every branch and every memory address of the library is recorded
    "traced": dict(args=["--profile", "traced", "--target", TARGET], dir="target-c", path=TARGET + "/traced/fhesim",
                  env={"RUSTC_BOOTSTRAP": "1", "RUSTFLAGS": "-Cpasses=sancov-module " + " ".join("-Cllvm-args=-sanitizer-coverage-" + x for x in ("level=3", "trace-pc-guard", "trace-loads", "trace-stores"))}),
    # the machine code of a plain release build, stepped through instruction by instruction
    "released": dict(args=["--profile", "released"], dir="target-r", path="released/fhesim", env={}),
}

TECH = "deterministic simulation with fault injection"
COMMON_ASSUME = [
    "the simulator owns: OS entropy (getrandom), the caller's RNG, heap contents, thread scheduling, the message network, server disks and process crashes; the library code under /repo runs unmodified",
    "parameter sets are generated with small degrees (8..2048); the code paths are the same as for large degrees",
    "absence of a violation is evidence from sampled runs, not proof",
]

PROPS = json.load(open(os.path.join(HERE, "props.json")))


def build(name, quiet=True):
    b = BUILDS[name]
    env = dict(ENV)
    env.update(b["env"])
    cmd = ["cargo", "build", "--offline", "--locked", "--target-dir", os.path.join(SIM, b["dir"])] + b["args"]
    t = time.time()
    r = subprocess.run(cmd, cwd=SIM, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stdout.write(r.stdout[-6000:])
        print("BUILD-FAILED", name)
        sys.exit(2)
    return os.path.join(SIM, b["dir"], b["path"]), time.time() - t


class Worker:
    def __init__(self, exe, bname, prop, args):
        self.bname = bname
        self.args = args
        self.err = b""
        self.p = subprocess.Popen([exe, "batch", "--prop", prop] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, cwd=HERE)
        self.buf = b""
        self.last = None
        self.viol = []
        self.seeds = []
        self.hash = {}
        self.result = None
        self.t_last = time.time()
        self.eof = 0
        self.killed = False

    def feed(self, data):
        self.t_last = time.time()
        self.buf += data
        *lines, self.buf = self.buf.split(b"\n")
        for l in lines:
            l = l.decode("utf-8", "replace")
            if l.startswith("S "):
                self.last = l.split()[1]
                self.seeds.append(self.last)
            elif l.startswith("H "):
                _, i, h = l.split()
                self.hash[int(i)] = h
            elif l.startswith("V "):
                self.viol.append(json.loads(l[2:]))
            elif l.startswith("R "):
                self.result = json.loads(l[2:])


def run_workers(workers, hang):
    sel = selectors.DefaultSelector()
    for w in workers:
        for f, k in ((w.p.stdout, "o"), (w.p.stderr, "e")):
            os.set_blocking(f.fileno(), False)
            sel.register(f, selectors.EVENT_READ, (w, k))
    live = len(workers) * 2
    while live:
        for key, _ in sel.select(timeout=2):
            w, k = key.data
            d = os.read(key.fileobj.fileno(), 1 << 20)
            if not d:
                sel.unregister(key.fileobj)
                live -= 1
                continue
            if k == "o":
                w.feed(d)
            else:
                w.err = (w.err + d)[-4000:]
        now = time.time()
        for w in workers:
            if w.result is None and not w.killed and now - w.t_last > hang and w.p.poll() is None:
                w.killed = True
                w.p.kill()
    for w in workers:
        w.p.wait()


def run_one(exe, prop, spec, timeout=300, trace=False, thorough=False):
    """Replay one run; returns a report dict (crashes and hangs become outcomes)."""
    cmd = [exe, "run", "--prop", prop, "--run-seed", spec["seed"]]
    if spec.get("keep") is not None:
        cmd += ["--keep", ",".join(map(str, spec["keep"]))]
    if spec.get("nofault"):
        cmd += ["--nofault", ",".join("%d:%d" % tuple(x) for x in spec["nofault"])]
    if spec.get("nofaults"):
        cmd += ["--nofaults"]
    if spec.get("preempt") is not None:
        pf = os.path.join(SIM, "target", "preempt-%d" % os.getpid())
        os.makedirs(os.path.dirname(pf), exist_ok=True)
        with open(pf, "w") as f:
            f.write(",".join("%d:%d:%d" % tuple(x) for x in spec["preempt"]))
        cmd += ["--preempt", "@" + pf]
    if spec.get("before"):
        bf = os.path.join(SIM, "target", "before-%d" % os.getpid())
        os.makedirs(os.path.dirname(bf), exist_ok=True)
        with open(bf, "w") as f:
            f.write("\n".join(spec["before"]))
        cmd += ["--before", bf]
    if trace:
        cmd += ["--trace"]
    if thorough:
        cmd += ["--thorough"]
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=ENV, cwd=HERE)
    except subprocess.TimeoutExpired:
        return dict(outcome="violation", **{"class": "hang"}, msg="the run does not end within %d s" % timeout, hash="", steps=[], fired=[], preempts=[])
    if r.returncode != 0:
        err = r.stderr.decode("utf-8", "replace")[-600:]
        if r.returncode == 97:
            c, m = "deadlock", "every simulated thread is blocked"
        elif r.returncode == 98:
            c, m = "no-progress", "the step bound was exhausted: threads spin without progress"
        else:
            c, m = "abort", "the process died with status %d: %s" % (r.returncode, err)
        return dict(outcome="violation", **{"class": c}, msg=m, hash="", steps=[], fired=[], preempts=[])
    return json.loads(r.stdout)


def ddmin(items, test, deadline):
    """Smallest sublist (by chunks) for which test() stays true."""
    n = 2
    while len(items) >= 1 and time.time() < deadline:
        size = max(1, len(items) // n)
        changed = False
        i = 0
        while i < len(items) and time.time() < deadline:
            cand = items[:i] + items[i + size:]
            if test(cand):
                items = cand
                changed = True
            else:
                i += size
        if not changed:
            if size == 1:
                break
            n = min(len(items), n * 2)
        else:
            n = max(2, n - 1)
    return items


def minimise(exe, prop, rep, thorough, budget):
    deadline = time.time() + budget
    cls = rep["class"]
    spec = dict(seed=rep["seed"], keep=None, nofault=[], nofaults=False, preempt=None)

    def bad(s):
        r = run_one(exe, prop, s, timeout=60, thorough=thorough)
        return r if r["outcome"] == "violation" and r["class"] == cls else None

    base = bad(spec)
    if base is None and rep.get("before"):
        # Not by itself: with what the earlier runs left behind in the process?
        end = time.time() + max(budget, 150)
        before = list(rep["before"])

        def t0(c):
            r = run_one(exe, prop, dict(spec, before=c), timeout=120, thorough=thorough)
            return r["outcome"] == "violation" and r["class"] == cls
        ok = t0(before)
        if not ok:
            return None, None
        before = ddmin(before, t0, end)
        spec["before"] = before
        deadline = max(deadline, time.time() + budget / 2)
        base = bad(spec)
    if base is None:
        return None, None
    best = base
    s = dict(spec, nofaults=True)
    r = bad(s)
    if r:
        spec, best = s, r
    steps = [x for x in best.get("steps", []) if x != 0]
    if steps:
        box = [best]

        def t(c):
            r = bad(dict(spec, keep=c))
            if r:
                box[0] = r
            return r is not None
        steps = ddmin(steps, t, deadline)
        s = dict(spec, keep=steps)
        r = bad(s)
        if r:
            spec, best = s, r
    if not spec["nofaults"] and best.get("fired"):
        fired = [[a, b] for a, b, _ in best["fired"]]

        def t2(c):
            drop = [f for f in fired if f not in c]
            return bad(dict(spec, nofault=drop)) is not None
        left = ddmin(fired, t2, deadline)
        s = dict(spec, nofault=[f for f in fired if f not in left])
        r = bad(s)
        if r:
            spec, best = s, r
    if best.get("preempts"):
        pre = best["preempts"]
        s = dict(spec, preempt=pre)
        r = bad(s)
        if r:
            spec, best = s, r

            def t3(c):
                return bad(dict(spec, preempt=c)) is not None
            pre = ddmin(pre, t3, deadline)
            s = dict(spec, preempt=pre)
            r = bad(s)
            if r:
                spec, best = s, r
    return spec, best


def known():
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding:"):
                m = re.match(r"finding: property=(\S+) class=(\S+) match=/(.*?)/ -- (.*)$", l)
                if m:
                    out.append(m.groups())
    return out


def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        # Nothing to download; building here only proves that the tree builds.
        exe, dt = build("checked")
        print("built", exe, "in %.1f s" % dt)
        return 0
    if a and a[0] == "--replay":
        rp = json.load(open(a[1]))
        exe, _ = build(rp["build"])
        r1 = run_one(exe, rp["property"], rp["spec"], trace=True, thorough=rp.get("thorough", False))
        for l in r1.get("trace", []):
            print(l)
        same = r1["outcome"] == rp["report"]["outcome"] and r1["class"] == rp["report"]["class"] and r1["hash"] == rp["report"]["hash"]
        print("outcome=%s class=%s hash=%s msg=%s" % (r1["outcome"], r1["class"], r1["hash"], r1["msg"]))
        print("replay", "reproduces exactly" if same else "DIFFERS from the recorded run")
        return 1 if r1["outcome"] == "violation" else 0
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    secs = None
    for i, x in enumerate(a):
        if x == "--tier":
            tier = a[i + 1]
        if x == "--secs":
            secs = float(a[i + 1])
    thorough = tier == "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    cfg = PROPS[prop]
    t0 = time.time()
    blds = cfg.get("thorough_builds", cfg["builds"]) if thorough else cfg["builds"]
    exes, btime = {}, {}
    for b in blds:
        exes[b], btime[b] = build(b)
    bsec = time.time() - t0
    if secs is None:
        secs = cfg.get("thorough_secs", 600) if thorough else cfg.get("secs", 40)
    # Stay inside the wall clock even on a slow build machine.
    if not thorough:
        secs = max(15, min(secs, 700 - bsec))
    workers = []
    per = {b: 0 for b in blds}
    share = cfg.get("share", [1] * len(blds))
    if thorough or len(share) != len(blds):
        share = [1] * len(blds)
    slots = []
    while len(slots) < NCPU:
        for b, s in zip(blds, share):
            slots += [b] * s
    slots = slots[:NCPU]
    for b in slots:
        per[b] += 1
    idx = {b: 0 for b in blds}
    log0 = "seed=%d property=%s tier=%s builds=%s workers=%s" % (seed, prop, tier, ",".join(blds), per)
    print(log0)
    for b in slots:
        # all builds explore the same seed sequence: equal hashes across builds are checked below
        args = ["--seed0", str(seed), "--from", str(idx[b]), "--stride", str(per[b]), "--secs", str(secs), "--hashes"]
        idx[b] += 1
        if thorough:
            args.append("--thorough")
        workers.append(Worker(exes[b], b, prop, args))
    run_workers(workers, hang=240)
    wall_search = time.time() - t0 - bsec

    viols, errors = [], []
    runs = steps = 0
    sim_us = 0
    faults, ops = {}, {}
    traces, states = set(), set()
    for w in workers:
        for v in w.viol:
            v["before"] = w.seeds[:w.seeds.index(v["seed"])] if v.get("seed") in w.seeds else []
            (viols if v["outcome"] == "violation" else errors).append((w.bname, v))
        if w.result is None:
            if w.last is None:
                errors.append((w.bname, dict(msg="worker died before its first run: " + w.err.decode("utf-8", "replace"))))
                continue
            r = run_one(exes[w.bname], prop, dict(seed=w.last), timeout=240, thorough=thorough)
            if r["outcome"] != "violation" and not w.killed and w.seeds[:-1]:
                r = run_one(exes[w.bname], prop, dict(seed=w.last, before=w.seeds[:-1]), timeout=240, thorough=thorough)
                r["before"] = w.seeds[:-1]
            r["seed"] = w.last
            if r["outcome"] == "violation":
                viols.append((w.bname, r))
            elif w.killed:
                errors.append((w.bname, dict(msg="worker hung but the run ends when repeated, seed " + w.last)))
            else:
                errors.append((w.bname, dict(msg="worker died (%s) but the run passes when repeated, seed %s: %s" % (w.p.returncode, w.last, w.err.decode("utf-8", "replace")))))
            runs += len(w.hash)
            traces.update(w.hash.values())
            continue
        R = w.result
        runs += R["runs"]
        steps += R["steps"]
        sim_us += R["sim_us"]
        for k, n in R["faults"].items():
            faults[k] = faults.get(k, 0) + n
        for k, n in R["ops"].items():
            ops[k] = ops.get(k, 0) + n
        traces.update(R["traces"])
        states.update(R["states"])

    # Determinism: repeat the first runs of every build in a fresh process.
    det_n = det_bad = cross_n = cross_bad = 0
    cross_ex = None
    allh = {b: {} for b in blds}
    for w in workers:
        allh[w.bname].update(w.hash)
    if not viols:
        nrep = 48 if thorough else 12
        reps = []
        for b in blds:
            for j in range(2):
                args = ["--seed0", str(seed), "--from", str(j), "--stride", "2", "--secs", "60", "--max", str(nrep // 2), "--hashes"] + (["--thorough"] if thorough else [])
                reps.append(Worker(exes[b], b, prop, args))
        run_workers(reps, hang=240)
        for w in reps:
            for i, h in w.hash.items():
                if i in allh[w.bname]:
                    det_n += 1
                    if allh[w.bname][i] != h:
                        det_bad += 1
        if len(blds) > 1 and cfg.get("cross"):
            A, B = allh[blds[0]], allh[blds[1]]
            for i in A:
                if i in B:
                    cross_n += 1
                    if A[i] != B[i]:
                        cross_bad += 1
                        cross_ex = cross_ex if cross_ex is not None else i

    kf = [k for k in known() if k[0] == prop]
    hit = set()
    fresh = []
    for b, v in viols:
        k = next((k for k in kf if k[1] == v["class"] and re.search(k[2], v["msg"])), None)
        if k:
            hit.add(k)
        else:
            fresh.append((b, v))
    for k in kf:
        print("KNOWN-FINDING: property=%s %s" % (prop, k[3]))

    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    rc = 0
    reported = 0
    seen = set()
    fresh.sort(key=lambda x: len(x[1].get("steps", [])))
    for b, v in fresh:
        if v["class"] in seen or reported >= 2:
            continue
        seen.add(v["class"])
        spec, best = minimise(exes[b], prop, v, thorough, 180 if thorough else 45)
        if spec is None:
            errors.append((b, dict(msg="violation %s (%s) of seed %s did not repeat" % (v["class"], v["msg"], v["seed"]))))
            continue
        again = run_one(exes[b], prop, spec, trace=True, thorough=thorough)
        exact = again["class"] == best["class"] and again["hash"] == best["hash"]
        path = os.path.join(HERE, "replays", "%s-%s-%s.json" % (prop, v["class"].replace("/", "_").replace(" ", "_").replace("@", "-").replace(":", "_")[:60], v["seed"]))
        tr = again.pop("trace", [])
        json.dump(dict(property=prop, build=b, thorough=thorough, verif_seed=seed, spec=spec, report=again, exact=exact, trace=tr[-400:], original=dict(steps=len(v.get("steps", [])), faults=len(v.get("fired", [])), preempts=len(v.get("preempts", [])))), open(path, "w"), indent=1)
        print("class=%s build=%s seed=%s" % (v["class"], b, v["seed"]))
        print("  " + best["msg"][:700])
        print("  minimised to %d steps, %d faults, %d preemptions (from %d, %d, %d); after %d earlier runs; replay exact: %s" % (len([s for s in best.get("steps", []) if s]), len(best.get("fired", [])), len(best.get("preempts", [])), len(v.get("steps", [])), len(v.get("fired", [])), len(v.get("preempts", [])), len(spec.get("before") or []), exact))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        reported += 1
        rc = 1
    if cross_bad and rc == 0:
        # The same seed gives different results on two builds of the same code.
        i = cross_ex
        path = os.path.join(HERE, "replays", "%s-cross-build-%d.json" % (prop, i))
        sd = None
        for w in workers:
            pass
        json.dump(dict(property=prop, kind="cross-build", builds=blds, verif_seed=seed, index=i, hashes=[allh[b][i] for b in blds[:2]], build=blds[0], thorough=thorough), open(path, "w"), indent=1)
        print("class=cross-build: run %d has trace hash %s on %s and %s on %s" % (i, allh[blds[0]][i], blds[0], allh[blds[1]][i], blds[1]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        rc = 1
    if det_bad and cfg.get("strict_determinism") and rc == 0:
        path = os.path.join(HERE, "replays", "%s-nondeterminism.json" % prop)
        json.dump(dict(property=prop, kind="nondeterminism", verif_seed=seed, repeated=det_n, different=det_bad, build=blds[0]), open(path, "w"), indent=1)
        print("class=nondeterminism: %d of %d repeated runs differ although every source of nondeterminism is seeded" % (det_bad, det_n))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        rc = 1
    wall = time.time() - t0
    samples = []
    if not viols and blds:
        first = None
        for w in workers:
            if w.last:
                first = w
                break
        if first is not None:
            r = run_one(exes[first.bname], prop, dict(seed=first.last), trace=True, thorough=thorough)
            tr = r.pop("trace", [])
            samples.append(dict(seed=r.get("seed"), build=first.bname, outcome=r["outcome"], hash=r["hash"], steps=len(r["steps"]), fired=r["fired"][:40], trace=[t[:220] for t in tr[:60]]))
    cov = dict(
        evaluations=runs,
        distinct_nontrivial=len(traces),
        rule="one evaluation is one simulated run (one seed: parameter sets, keys, operations, schedule and faults). Non-trivial and distinct: runs whose full event log (operations, object digests, fault events, simulated times) has a hash no other run has.",
        samples=samples or [dict(seed=v["seed"], **{"class": v["class"]}, msg=v["msg"][:400]) for _, v in viols[:3]] or ["none"],
        simulated_runs=runs,
        runs_per_hour=int(runs / max(wall_search, 0.001) * 3600),
        steps=steps,
        simulated_seconds=round(sim_us / 1e6, 3),
        faults_fired=faults,
        fault_kinds=len(faults),
        operations=ops,
        distinct_event_logs=len(traces),
        distinct_states=len(states),
        state_measure=cfg["state"],
        determinism=dict(repeated=det_n, different=det_bad, across_builds=cross_n, across_builds_different=cross_bad),
        real_components=cfg["real"],
        stub_components=cfg["stub"],
        builds={b: dict(workers=per[b], build_s=round(btime[b], 1)) for b in blds},
        search_wall_s=round(wall_search, 1),
        known_findings_hit=sorted(k[3] for k in hit),
    )
    ev = dict(property=prop, tier=tier, seed=seed, level=cfg["level"], coverage=cov, assumptions=COMMON_ASSUME + cfg.get("assume", []), wall_s=round(wall, 2), violations=reported)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    s = json.dumps(ev, indent=1)
    while len(s) > 60000 and cov["samples"] and isinstance(cov["samples"][0], dict) and cov["samples"][0].get("trace"):
        cov["samples"][0]["trace"] = cov["samples"][0]["trace"][: len(cov["samples"][0]["trace"]) // 2]
        s = json.dumps(ev, indent=1)
    open(os.path.join(HERE, "evidence", prop + ".json"), "w").write(s + "\n")
    print("%s: %d runs (%d/h), %d distinct event logs, %.1f simulated s, %d faults of %d kinds, %d/%d repeats identical, build %.0f s, search %.0f s, total %.0f s" % (
        prop, runs, cov["runs_per_hour"], len(traces), sim_us / 1e6, sum(faults.values()), len(faults), det_n - det_bad, det_n, bsec, wall_search, wall))
    if rc == 0 and (errors or runs == 0):
        for b, e in errors[:4]:
            print("CHECK-ERROR build=%s %s" % (b, str(e.get("msg"))[:1500]))
        return 2
    return rc


if __name__ == "__main__":
    sys.exit(main())
