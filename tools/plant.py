#!/usr/bin/env python3
"""Development aid: tries planted bugs in scratch copies of /repo (never in /repo).

  tools/plant.py ID... [--no-tests] [--no-check]   applies seeded/ID/patch.diff to a copy under /tmp/plant, rebuilds the
  extensions when a native source changed, runs the demonstration with and without the change, the stable tests and
  the check of the property, and prints one line per bug."""
import sys, os, json, subprocess, shutil, time, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); PY = "/opt/venv/bin/python"
stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]; stable = set(stable if isinstance(stable[0], str) else [s["id"] for s in stable])
ENV = dict(os.environ, PATH="/opt/venv/bin:" + os.environ["PATH"], PYTHONHASHSEED="0", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", JAX_PLATFORMS="cpu", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1")
ENV.pop("PYTHONPATH", None)


def one(i):
    d = f"{H}/seeded/{i}"; meta = json.load(open(f"{d}/meta.json")); base = f"/tmp/plant/{i}"; shutil.rmtree(base, ignore_errors=True); os.makedirs(base); c = f"{base}/repo"; subprocess.check_call(["cp", "-a", "/repo", c]); out = [i, meta["property"]]
    p = subprocess.run(["git", "apply", f"{d}/patch.diff"], cwd=c, capture_output=True, text=True)
    if p.returncode: return out + ["DOES NOT APPLY", p.stderr[:200]]
    ch = subprocess.check_output(["git", "-C", c, "diff", "--name-only"], text=True).split(); env = dict(ENV, PYTHONPATH=c, VP_REPO=c)
    if any(f.endswith((".pyx", ".pxd", ".c", ".h")) for f in ch):
        p = subprocess.run([PY, "setup.py", "build_ext", "--inplace", "--force"], cwd=c, env=env, capture_output=True, text=True)
        if p.returncode: return out + ["BUILD FAILS", p.stderr[-300:]]
    dd = f"{base}/demo"; shutil.copytree(d, dd, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    a = subprocess.run(["bash", f"{dd}/demo.sh"], cwd="/repo", env=ENV, capture_output=True, text=True, timeout=300); b = subprocess.run(["bash", f"{dd}/demo.sh"], cwd=c, env=env, capture_output=True, text=True, timeout=300)
    out.append(f"demo clean={a.returncode} planted={b.returncode}" + ("" if a.returncode == 0 and b.returncode else "  <-- BAD " + (a.stderr + b.stdout)[-300:]))
    if "--no-check" not in sys.argv:
        t = time.time(); p = subprocess.run([sys.executable, "run.py", meta["property"], "--tier", "quick", "--seed", "1"], cwd=H, env=dict(env, VP_EVIDENCE=f"{base}/ev"), capture_output=True, text=True); out.append(f"check {'CAUGHT' if p.returncode == 1 else 'missed rc=%d' % p.returncode} {time.time() - t:.0f}s " + "; ".join(l.strip()[8:100] for l in p.stdout.splitlines() if "broken:" in l)[:260])
    if "--no-tests" not in sys.argv:
        x = f"{base}/j.xml"; subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-W", "ignore", "--timeout=600", "--runslow", "-n", "6", "--continue-on-collection-errors", "--ignore=pystatsm/tests/glmm_test.py", "-o", "junit_family=xunit2", f"--junitxml={x}", "pystatsm"], cwd=c, env=env, capture_output=True)
        import xml.etree.ElementTree as ET
        ok = {t.get("classname") + "." + t.get("name") for t in ET.parse(x).iter("testcase") if not len([k for k in t if k.tag in ("failure", "error", "skipped")])}; norm = lambda s: s.replace("::", ".").replace("/", ".").replace(".py.", "."); bad = [s for s in stable if norm(s) not in {norm(o) for o in ok}]; out.append(f"tests broken={len(bad)} {bad[:2]}")
    shutil.rmtree(base, ignore_errors=True); return out


for i in [a for a in sys.argv[1:] if not a.startswith("--")]: print(" | ".join(map(str, one(i))), flush=True)
