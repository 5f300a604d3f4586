"""C02: workers run on extensions built with AddressSanitizer + UBSan from /repo's current sources."""
import json, os, subprocess
from . import build

CF = "-O1 -g -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=all"


def _lib(n):
    p = subprocess.run(["gcc", f"-print-file-name={n}"], capture_output=True, text=True).stdout.strip()
    return os.path.realpath(p)


def prepare(env, scratch):
    so = build.build_ext(scratch, cflags=CF, ldflags="-fsanitize=address,undefined", tag="asan")
    env = dict(env)
    env["VERIF_EXT"] = json.dumps(so)
    env["LD_PRELOAD"] = _lib("libasan.so") + " " + _lib("libubsan.so")
    env["PYTHONMALLOC"] = "malloc"
    env["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=0:exitcode=77:handle_segv=1:allocator_may_return_null=1:"
                           "detect_stack_use_after_return=0:verify_asan_link_order=0:quarantine_size_mb=64")
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=77"
    env["VERIF_ASAN"] = "1"
    return env, so, "rebuilt from current sources with -fsanitize=address,undefined"
