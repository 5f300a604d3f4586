#!/usr/bin/env python3
"""run.py <ID> [--tier quick|thorough] [--replay FILE] [--only WORKLOAD] [--seed N]

Runs the monitors of one property over its workloads against /repo's current tree."""
import argparse, collections, json, os, queue, re, select, shutil, signal, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
PY = "/opt/venv/bin/python"
ENV = dict(PYTHONHASHSEED="0", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1",
           JAX_PLATFORMS="cpu", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", NUMBA_NUM_THREADS="1",
           TQDM_DISABLE="1")


def known_findings():
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m:
                out.append(m.groups())
    return out


class Worker:
    def __init__(self, pid, env, cmd_prefix=()):
        r1, w1 = os.pipe(); r2, w2 = os.pipe()
        self.err = tempfile.TemporaryFile()
        self.p = subprocess.Popen([*cmd_prefix, PY, "-X", "faulthandler", os.path.join(HERE, "vlib", "worker.py"), pid, str(r1), str(w2)],
                                  env=env, pass_fds=(r1, w2), stdin=subprocess.DEVNULL,
                                  stdout=subprocess.DEVNULL, stderr=self.err, cwd=env["VERIF_SCRATCH"])
        os.close(r1); os.close(w2)
        self.w = os.fdopen(w1, "w", buffering=1); self.r = os.fdopen(r2, "r")
        self.buf = ""

    def send(self, o):
        self.w.write(json.dumps(o) + "\n"); self.w.flush()

    def recv(self, timeout):
        fd = self.r.fileno(); end = time.time() + timeout
        while "\n" not in self.buf:
            left = end - time.time()
            if left <= 0:
                return "timeout"
            rl, _, _ = select.select([fd], [], [], left)
            if rl:
                b = os.read(fd, 1 << 16)
                if not b:
                    return None
                self.buf += b.decode()
        line, self.buf = self.buf.split("\n", 1)
        return json.loads(line)

    def kill(self):
        try:
            self.p.kill()
        except OSError:
            pass
        self.p.wait()

    def tail(self):
        self.err.seek(0)
        return self.err.read()[-1500:].decode(errors="replace")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid"); ap.add_argument("--tier"); ap.add_argument("--replay"); ap.add_argument("--only")
    ap.add_argument("--seed", type=int); ap.add_argument("--jobs", type=int, default=8); ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    tier = a.tier or os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    hard = t0 + (840 if tier == "quick" else 6 * 3600)
    pid = a.pid
    scratch = tempfile.mkdtemp(prefix=f"verif-{pid}-")
    os.makedirs(os.path.join(scratch, "home"), exist_ok=True)
    rc = 3
    try:
        rc = _run(a, pid, tier, seed, t0, hard, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


def _run(a, pid, tier, seed, t0, hard, scratch):
    from vlib import build
    env = dict(os.environ); env.update(ENV)
    env.pop("PYTHONPATH", None)
    env.update(VERIF_SCRATCH=scratch, NUMBA_CACHE_DIR=os.path.join(scratch, "numba"), TMPDIR=scratch,
               MPLCONFIGDIR=os.path.join(scratch, "mpl"), HOME=os.path.join(scratch, "home"), VERIF_SEED=str(seed), VERIF_TIER=tier)
    evdir = os.environ.get("VP_EVIDENCE") or os.path.join(HERE, "evidence"); os.makedirs(os.path.join(evdir, "replay"), exist_ok=True)
    viol = collections.OrderedDict()   # key -> (workload, monitor, detail, it, count)
    try:
        so, prov = build.extensions(scratch)
    except build.BuildFailed as e:
        print("extension build failed:\n" + str(e)); return 3
    env["VERIF_EXT"] = json.dumps(so)
    prefix = ()
    if pid == "C02":
        from vlib import asan
        try:
            env, so2, prov = asan.prepare(env, scratch)
        except build.BuildFailed as e:
            print("sanitizer build failed:\n" + str(e)); return 3

    first = Worker(pid, env)
    msg = first.recv(300)
    if not isinstance(msg, dict) or "ready" not in msg:
        if isinstance(msg, dict):
            print("check could not load: " + str(msg.get("fatal")))
            if msg.get("repo"):
                viol["import"] = ["import", "import", msg["fatal"], 0, 1]
            else:
                first.kill(); return 3
        else:
            print("worker died at start: " + first.tail()); first.kill(); return 3
        wl = {}
    else:
        wl = msg["ready"]
    if a.only:
        wl = {k: v for k, v in wl.items() if re.search(a.only, k)}
    tasks = []
    rep = json.load(open(a.replay)) if a.replay else None
    if rep:
        seed, tier = rep["seed"], rep["tier"]
        wl = {k: v for k, v in wl.items() if k == rep["workload"]}
        tasks = [dict(w=rep["workload"], its=[rep["iteration"]], seed=seed, tier=tier, budget=1e9)]
    else:
        for k, (q, th, sh, tmo) in wl.items():
            n = q if tier == "quick" else th
            sh = max(1, min(sh if tier == "quick" else max(sh, min(8, n // max(q, 1))), n))
            for s in range(sh):
                tasks.append(dict(w=k, its=list(range(s, n, sh)), seed=seed, tier=tier,
                                  budget=(300 if tier == "quick" else 3 * 3600)))
    order = {}
    tasks.sort(key=lambda t: -len(t["its"]))
    q = queue.Queue()
    for t in tasks:
        q.put(t)
    lock = threading.Lock()
    agg = {k: dict(events=collections.Counter(), notes=collections.Counter(), n=0, skipped=0, secs=0.0) for k in wl}
    cases, triv, samples = set(), 0, []
    state = dict(nontrivial=0, total_cases=0, inconclusive=[])

    def fail(w, m, d, it):
        key = f"{w}/{m}".replace(" ", "_")
        with lock:
            if key in viol:
                viol[key][4] += 1
            else:
                viol[key] = [w, m, d, it, 1]

    def serve(wk):
        while True:
            try:
                t = q.get_nowait()
            except queue.Empty:
                break
            if wk is None or wk.p.poll() is not None:
                wk = Worker(pid, env, prefix); m = wk.recv(300)
                if not isinstance(m, dict) or "ready" not in m:
                    with lock: state["inconclusive"].append("worker failed to start: " + wk.tail()[-300:])
                    return
            tmo = wl[t["w"]][3] if tier == "quick" else 4 * 3600
            wk.send(t); cur = None; pending = list(t["its"])
            while True:
                m = wk.recv(min(tmo, max(5, hard - time.time())))
                if m == "timeout":
                    with lock: state["inconclusive"].append(f"watchdog: {t['w']} iteration {cur}")
                    wk.kill(); wk = None; break
                if m is None:
                    wk.p.wait()
                    tail = wk.tail()
                    if wk.p.returncode in (-9,):
                        with lock: state["inconclusive"].append(f"worker killed in {t['w']} iteration {cur}")
                    else:
                        fail(t["w"], "process survives", f"worker exited {wk.p.returncode} during iteration {cur}: {tail}", cur)
                    wk.kill(); wk = None
                    rest = pending[pending.index(cur) + 1:] if cur in pending else []
                    if rest and len(rest) < len(t["its"]):
                        q.put(dict(t, its=rest))
                    break
                if "it" in m:
                    cur = m["it"]; continue
                if "start" in m:
                    continue
                d = m["done"]
                with lock:
                    g = agg[t["w"]]
                    g["events"].update(d["events"]); g["notes"].update(d["notes"])
                    g["n"] += d["n"]; g["skipped"] += d["skipped"]; g["secs"] += d["secs"]
                    for sig, nt, det in d["cases"]:
                        state["total_cases"] += 1
                        if nt and (t["w"], sig) not in cases:
                            cases.add((t["w"], sig))
                            if len([1 for s in samples if s["workload"] == t["w"]]) < 1:
                                samples.append(dict(workload=t["w"], case=sig, **det))
                for mname, det, it in d["fails"]:
                    fail(t["w"], mname, det, it)
                break
        if wk is not None:
            wk.kill()

    n = max(1, min(a.jobs, len(tasks)))
    ths = [threading.Thread(target=serve, args=(first if i == 0 else None,)) for i in range(n)]
    [t.start() for t in ths]; [t.join() for t in ths]

    known = [(k, d) for p, k, d in known_findings() if p == pid]
    kmap = dict(known)
    new = {k: v for k, v in viol.items() if k not in kmap}
    for k, d in known:
        if k in viol:
            print(f"KNOWN-FINDING: property={pid} {d}")
    events = sum(sum(g["events"].values()) for g in agg.values())
    iters = sum(g["n"] for g in agg.values())
    for k, g in agg.items():
        if not g["events"] and not any(k == v[0] for v in viol.values()):
            state["inconclusive"].append(f"workload {k}: no monitor was reached ({dict(g['notes'])})")
    wall = time.time() - t0
    if a.v or rep:
        for k, g in sorted(agg.items(), key=lambda kv: -kv[1]["secs"]):
            print(f"  {k:44s} n={g['n']:5d} skip={g['skipped']:4d} ev={sum(g['events'].values()):7d} {g['secs']:.1f}s {dict(g['notes']) or ''}")
    if not rep and not a.only:
        ev = dict(property=pid, tier=tier, seed=seed, level="exploration", wall_s=round(wall, 2), violations=len(new),
                  coverage=dict(evaluations=iters, distinct_nontrivial=len(cases),
                                rule="One evaluation is one seeded execution of a workload against the real code; a case is non-trivial when the "
                                     "workload marked it as exercising the property beyond a degenerate input, and distinct by its recorded signature "
                                     "(workload, configuration, shape, data class).",
                                samples=samples[:20], monitor_events=events,
                                events_by_workload={k: dict(executions=g["n"], skipped=g["skipped"], secs=round(g["secs"], 2),
                                                            events=dict(g["events"]), notes=dict(g["notes"])) for k, g in agg.items()},
                                extension_build=prov, known_findings_seen=[k for k, _ in known if k in viol]),
                  assumptions=["Executions only: nothing is claimed about inputs the workloads did not generate.",
                               "Oracles in /verif (dense definitions, numerical differentiation with error estimates, scipy) are trusted."])
        json.dump(ev, open(os.path.join(evdir, pid + ".json"), "w"), indent=1, default=str)
    if new:
        path0 = None
        for i, (k, (w, m, d, it, c)) in enumerate(new.items()):
            path = os.path.join(evdir, "replay", f"{pid}-{re.sub(r'[^A-Za-z0-9_.-]', '_', k)[:90]}.json")
            json.dump(dict(property=pid, workload=w, monitor=m, iteration=it, seed=seed, tier=tier, detail=d, count=c,
                           how=f"python3 run.py {pid} --replay {path}"), open(path, "w"), indent=1)
            print(f"  broken: {w} / {m} (x{c}, first at iteration {it}): {d}")
            path0 = path0 or path
        print(f"VIOLATION property={pid} replay={path0}")
        return 1
    if state["inconclusive"]:
        print("INCONCLUSIVE: " + "; ".join(state["inconclusive"][:5])); return 2
    print(f"{pid}: held on {iters} executions, {len(cases)} distinct cases, {events} monitor evaluations, {wall:.1f}s ({tier}, seed {seed})")
    return 0


if __name__ == "__main__":
    main()
