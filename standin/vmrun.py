"""Compiles programs with the unmodified compiler of the current tree and runs
them on the virtual machine, built from the current tree.

Each program is compiled and run in a forked child of its own, inside a scratch
directory: the compiler keeps state per process, and the VM may abort.
"""
import atexit
import ctypes
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

from . import env
from pvc import loader

_vm = None
_why = None


def build():
    """The path of the freshly built VM, or None (see why())."""
    global _vm, _why
    if _vm is not None or _why is not None:
        return _vm
    d = tempfile.mkdtemp(prefix="amavm")
    owner = os.getpid()
    atexit.register(lambda: os.getpid() == owner and shutil.rmtree(d, ignore_errors=True))
    src = os.path.join(loader.REPO, "amanda/vm")
    try:
        shutil.copytree(os.path.join(src, "src"), os.path.join(d, "src"))
        toml = open(os.path.join(src, "Cargo.toml")).read().split("\n")
        with open(os.path.join(d, "Cargo.toml"), "w") as f:
            for line in toml:
                # the cached versions of the two dependencies
                if line.startswith("rustc-hash"):
                    line = 'rustc-hash="2"'
                elif line.startswith("unicode-segmentation"):
                    line = 'unicode-segmentation="1"'
                f.write(line + "\n")
        p = subprocess.run(["cargo", "build", "--offline"], cwd=d, capture_output=True, text=True, timeout=300,
                           env={**os.environ, "CARGO_TARGET_DIR": os.path.join(d, "target")})
        so = os.path.join(d, "target/debug/libamanda.so")
        if p.returncode == 0 and os.path.exists(so):
            _vm = so
        else:
            _why = p.stderr[-600:]
    except Exception as e:  # no cargo, no cache
        _why = f"{type(e).__name__}: {e}"
    return _vm


def why():
    return _why


def compile_files(files, main, workdir, ns=None, paths=()):
    """Outcome of compiling: ("ok", bytes), ("error", file, line, message, kind) or ("crash", text)."""
    ns = ns or env.plain()
    for name, text in files.items():
        p = os.path.join(workdir, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w", encoding="utf8") as f:
            f.write(text)
    for q in paths:
        os.makedirs(os.path.join(workdir, q), exist_ok=True)
    os.makedirs(os.path.join(workdir, "sub"), exist_ok=True)
    os.chdir(workdir)
    AmandaError = ns["amanda.compiler.error"].AmandaError
    with ns.active():
        try:
            parse = ns["amanda.compiler.parse"].parse
            core = ns["amanda.compiler.check.core"]
            module = core.Module(main)
            checked, imports = core.Analyzer(main, [os.path.join(workdir, p) for p in paths], module).visit_module(parse(main))
            return ("ok", ns["amanda.compiler.codegen"].ByteGen(checked).compile(imports))
        except AmandaError as e:
            return ("error", os.path.relpath(e.fpath, workdir), e.line, str(e.message), e.err_type, shown(ns, e))
        except RecursionError:
            return ("crash", "RecursionError")
        except BaseException as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)[-1]
            return ("crash", f"{type(e).__name__}: {e} at {os.path.basename(tb.filename)}:{tb.name}")


def shown(ns, e):
    """What the user sees of an error."""
    import io
    err, sys.stderr = sys.stderr, io.StringIO()
    try:
        ns["amanda.compiler.error"].throw_error(e)
        return "(nothing)"
    except SystemExit:
        return sys.stderr.getvalue()
    except BaseException as x:
        return f"({type(x).__name__}: {x})"
    finally:
        sys.stderr = err


def execute(files, main="m.ama", run=True, timeout=20, paths=()):
    """Compiles and runs in a child.  Returns a dict with `status` and, when run, `out`, `err`, `code`."""
    so = build() if run else None
    d = tempfile.mkdtemp(prefix="ama")
    try:
        rp = os.path.join(d, "result")
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            try:
                signal.alarm(timeout)
                w = os.path.join(d, "w")
                os.mkdir(w)
                o = os.open(os.path.join(d, "out"), os.O_WRONLY | os.O_CREAT)
                e = os.open(os.path.join(d, "err"), os.O_WRONLY | os.O_CREAT)
                n = os.open("/dev/null", os.O_RDONLY)
                os.dup2(o, 1), os.dup2(e, 2), os.dup2(n, 0)
                r = compile_files(files, main, w, paths=paths)
                blob = r[1] if r[0] == "ok" else None
                with open(rp, "w") as f:
                    json.dump(["ok", blob.hex()] if blob is not None else list(r), f)
                if blob is not None and so:
                    lib = ctypes.CDLL(so)
                    arr = (ctypes.c_uint8 * len(blob)).from_buffer_copy(blob)
                    code = lib.run_module(ctypes.byref(arr), ctypes.c_int32(len(blob)))
                    os._exit(0 if code == 0 else 1)
                os._exit(0)
            finally:
                os._exit(99)
        _, st = os.waitpid(pid, 0)
        res = {"status": "crash", "detail": f"the compiler ended with wait status {st}"}
        if os.path.exists(rp):
            try:
                r = json.load(open(rp))
            except ValueError:
                r = ["crash", "interrupted"]
            if r[0] == "ok":
                res = {"status": "ok", "blob": bytes.fromhex(r[1])}
                if so:
                    res["out"] = open(os.path.join(d, "out"), encoding="utf8", errors="replace").read()
                    res["err"] = open(os.path.join(d, "err"), encoding="utf8", errors="replace").read()
                    res["code"] = st
            elif r[0] == "error":
                res = {"status": "error", "file": r[1], "line": r[2], "message": r[3], "kind": r[4], "shown": r[5]}
            else:
                res = {"status": "crash", "detail": r[1]}
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def parallel(jobs, fn, deadline, procs=6):
    """Runs fn(i) for i = 0, 1, ... on `procs` workers until the deadline or `jobs` are done.
    fn returns a JSON value; yields (i, value)."""
    import select
    kids = []
    for k in range(procs):
        r, w = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                out = os.fdopen(w, "w")
                try:
                    i = k
                    while i < jobs and time.time() < deadline:
                        v = fn(i)
                        if v is not None:
                            out.write(json.dumps([i, v]) + "\n")
                            out.flush()
                        i += procs
                except BrokenPipeError:
                    pass
                except BaseException:
                    import traceback
                    out.write(json.dumps([-1, {"crash": traceback.format_exc()[-1500:]}]) + "\n")
                    out.flush()
            finally:
                os._exit(0)
        os.close(w)
        kids.append((pid, r))
    files = {r: (pid, os.fdopen(r, "rb", buffering=0), b"") for pid, r in kids}
    try:
        while files:
            ready, _, _ = select.select(list(files), [], [], 1.0)
            for r in ready:
                pid, f, buf = files[r]
                data = os.read(r, 1 << 16)
                if not data:
                    os.waitpid(pid, 0)
                    f.close()
                    del files[r]
                    continue
                *lines, rest = (buf + data).split(b"\n")
                files[r] = (pid, f, rest)
                for line in lines:
                    yield json.loads(line)
    finally:
        for pid, f, _ in files.values():
            # the reader has seen enough
            os.kill(pid, signal.SIGTERM)
            os.waitpid(pid, 0)
            f.close()
