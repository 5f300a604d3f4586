"""Compiled extensions of /repo's current tree: reuse the in-tree build when its
content stamp matches the current sources, otherwise build into scratch."""
import hashlib, os, pathlib, shutil, subprocess, sys, glob

REPO = os.environ.get("VP_REPO", "/repo")
EXT = ("cython_wrappers", "ordered_indices")
PY = "/opt/venv/bin/python"


def _source_hash():
    """Same digest as /opt/vp/env.inc's build_ext computes."""
    cmd = (r"""{ echo "$(pwd)"; find setup.py pystatsm \( -name '*.pyx' -o -name '*.pxd' """
           r"""-o -path '*/src/*.[ch]' -o -name setup.py \) -type f -print0 | sort -z | xargs -0 sha256sum; } | sha256sum""")
    return subprocess.run(["bash", "-c", cmd], cwd=REPO, capture_output=True, text=True).stdout.strip()


def _intree():
    stamp = os.path.join(REPO, "build", ".vp-ext-hash")
    try:
        want = open(stamp).read().strip()
    except OSError:
        return None
    sos = {e: glob.glob(f"{REPO}/pystatsm/utilities/{e}.*.so") for e in EXT}
    if all(len(v) == 1 for v in sos.values()) and want == _source_hash():
        return {e: v[0] for e, v in sos.items()}
    return None


class BuildFailed(Exception):
    pass


def _scratch_tree(scratch):
    """Only what the extension build reads (pyx/pxd/C sources and setup.py)."""
    root = os.path.join(scratch, "extsrc")
    dst = os.path.join(root, "pystatsm", "utilities")
    os.makedirs(os.path.join(dst, "src"), exist_ok=True)
    src = os.path.join(REPO, "pystatsm", "utilities")
    for p in glob.glob(src + "/*.pyx") + glob.glob(src + "/*.pxd") + glob.glob(src + "/__init__.py"):
        shutil.copy(p, dst)
    for p in glob.glob(src + "/src/*.[ch]"):
        shutil.copy(p, os.path.join(dst, "src"))
    shutil.copy(os.path.join(REPO, "setup.py"), root)
    shutil.copy(os.path.join(REPO, "pystatsm", "__init__.py"), os.path.join(root, "pystatsm")) \
        if os.path.exists(os.path.join(REPO, "pystatsm", "__init__.py")) else None
    return root


def build_ext(scratch, cflags="", ldflags="", cc="gcc", tag="plain"):
    root = _scratch_tree(os.path.join(scratch, tag))
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", CC=cc)
    if cflags:
        env["CFLAGS"] = cflags
    if ldflags:
        env["LDFLAGS"] = ldflags
        env["LDSHARED"] = f"{cc} -shared {ldflags}"
    r = subprocess.run([PY, "-W", "ignore", "setup.py", "build_ext", "--inplace", "--force", "-j4"],
                       cwd=root, env=env, capture_output=True, text=True, timeout=600)
    if r.returncode:
        raise BuildFailed(r.stderr[-3000:])
    return {e: glob.glob(f"{root}/pystatsm/utilities/{e}.*.so")[0] for e in EXT}


def extensions(scratch):
    """-> (mapping name->so path, provenance string)"""
    m = _intree()
    if m is not None:
        return m, "in-tree build, content stamp matches current sources"
    return build_ext(scratch), "built in scratch from current sources"
