"""Worker process: reads tasks on fd 3 (JSON lines), writes results on fd 4."""
import importlib, json, os, sys, time, traceback, resource, faulthandler

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import boot as _boot
_boot.boot()
from vlib import mon


def frames(e):
    tb = traceback.extract_tb(e.__traceback__)
    rep = [f for f in tb if "/pystatsm/" in f.filename]
    s = "".join(traceback.format_exception_only(type(e), e)).strip()
    last = tb[-1] if tb else None
    loc = f"{os.path.basename(last.filename)}:{last.lineno}" if last else "?"
    rloc = " <- ".join(f"{os.path.relpath(f.filename, os.environ.get('VP_REPO', '/repo'))}:{f.lineno} {f.name}" for f in reversed(rep[-2:]))
    hloc = [f for f in tb if "/checks/" in f.filename]
    h = f"{os.path.basename(hloc[-1].filename)}:{hloc[-1].lineno}" if hloc else ""
    return f"{s[:300]} at {loc}; repo frames: {rloc or 'none'}; check {h}", bool(rep)


def main():
    pid, rfd, wfd = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    rd = os.fdopen(rfd, "r"); wr = os.fdopen(wfd, "w", buffering=1)

    def put(o):
        wr.write(json.dumps(o, default=str) + "\n"); wr.flush()

    try:
        importlib.import_module("checks." + pid.lower())
    except BaseException as e:
        msg, repo = frames(e)
        put({"fatal": msg, "repo": repo}); return
    put({"ready": {k: [w.quick, w.thorough, w.shards, w.timeout] for k, w in mon.WORKLOADS.items() if w.fn.__module__ == "checks." + pid.lower()}})
    for line in rd:
        t = json.loads(line)
        if t.get("quit"):
            return
        w = mon.WORKLOADS[t["w"]]
        put({"start": t})
        t_start = time.time()
        agg = dict(events={}, fails=[], cases=[], notes={}, n=0, skipped=0)
        for it in t["its"]:
            if time.time() - t_start > t["budget"]:
                agg["notes"]["iterations dropped by time budget"] = agg["notes"].get("iterations dropped by time budget", 0) + 1
                continue
            put({"it": it, "w": t["w"]})
            cx = mon.Cx(t["seed"], t["w"], it, t["tier"])
            try:
                w.fn(cx)
            except mon.Skip:
                agg["skipped"] += 1
            except MemoryError:
                agg["notes"]["memory error"] = 1
            except BaseException as e:
                if isinstance(e, KeyboardInterrupt):
                    raise
                msg, repo = frames(e)
                cx.events["completes without error"] += 1
                cx.fails.append(("completes without error", msg))
            agg["n"] += 1
            for k, v in cx.events.items():
                agg["events"][k] = agg["events"].get(k, 0) + v
            for k, v in cx.notes.items():
                agg["notes"][k] = agg["notes"].get(k, 0) + v
            for m, d in cx.fails[:20]:
                agg["fails"].append([m, d, it])
            agg["cases"] += cx.cases[:200]
        agg["secs"] = time.time() - t_start
        agg["w"] = t["w"]
        put({"done": agg})


if __name__ == "__main__":
    main()
