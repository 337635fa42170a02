import decimal
import gc
import hashlib
import locale
import logging
import os
import random
import signal
import socket
import sys
import threading
import warnings
import xml.etree.ElementTree as etree
from pathlib import Path

from hypothesis import strategies as st

from .. import gen
from ..core import Prop, api, describe, fail, outcome
from ..emit import Writer, to_bytes
from ..tree import X, json_bytes
from .c14 import project_classes
from .c19 import simple_worlds, world_json

EVENTS = {
    "os.mkdir", "os.rename", "os.remove", "os.rmdir", "os.link", "os.symlink", "os.chmod", "os.chown", "os.truncate", "os.utime", "os.setxattr",
    "os.removexattr", "os.chflags", "os.lockf", "fcntl.lockf", "fcntl.flock", "shutil.copyfile", "shutil.move", "shutil.rmtree", "subprocess.Popen",
    "os.system", "os.exec", "os.fork", "os.posix_spawn", "os.spawn", "socket.connect", "socket.bind", "socket.sendto", "tempfile.mkstemp",
    "tempfile.mkdtemp", "sqlite3.connect", "signal.pthread_kill", "os.kill", "webbrowser.open", "os.putenv", "os.unsetenv",
}
watch = None


def hook(event, args):
    if watch is None:
        return
    if event == "open":
        path, mode, flags = args
        writes = flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND) if isinstance(flags, int) else 0
        if writes or (isinstance(mode, str) and set(mode) & set("wax+")):
            watch.append(f"opened {path!r} for writing")
    elif event in EVENTS:
        watch.append(f"{event}{args!r:.200}")


def tree(root):
    out = {}
    for folder, dirs, files in os.walk(root):
        for name in dirs + files:
            path = os.path.join(folder, name)
            s = os.lstat(path)
            digest = None
            if name in files and not os.path.islink(path):
                with open(path, "rb") as f:
                    digest = hashlib.sha1(f.read()).hexdigest()
            out[os.path.relpath(path, root)] = (s.st_mode, s.st_size if name in files else 0, s.st_mtime_ns, s.st_ino, digest)
    return out


def descriptors():
    out = {}
    for fd in os.listdir("/proc/self/fd"):
        try:
            out[int(fd)] = os.readlink("/proc/self/fd/" + fd)
        except OSError:
            pass
    return {k: v for k, v in out.items() if not v.startswith("/proc/")}


def settings():
    umask = os.umask(0)
    os.umask(umask)
    ctx = decimal.getcontext()
    return {
        "working directory": os.getcwd(),
        "environment": dict(os.environ),
        "locale": locale.setlocale(locale.LC_ALL),
        "module search path": list(sys.path),
        "import hooks": (list(map(id, sys.meta_path)), list(map(id, sys.path_hooks))),
        "random state": random.getstate(),
        "umask": umask,
        "recursion limit": sys.getrecursionlimit(),
        "switch interval": sys.getswitchinterval(),
        "warning filters": list(warnings.filters),
        "signal handlers": {s: signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGHUP, signal.SIGPIPE, signal.SIGUSR1)},
        "garbage collector": (gc.isenabled(), gc.get_threshold(), gc.get_debug()),
        "threads": len(threading.enumerate()),
        "hooks": tuple(map(id, (sys.excepthook, sys.displayhook, sys.unraisablehook, threading.excepthook, sys.stdout, sys.stderr, sys.stdin))),
        "trace": (sys.gettrace(), sys.getprofile()),
        "decimal context": (ctx.prec, ctx.rounding, ctx.Emax, ctx.Emin),
        "socket timeout": socket.getdefaulttimeout(),
        "logging": (logging.root.level, len(logging.root.handlers), logging.root.disabled, logging.root.manager.disable),
        "XML namespaces": dict(getattr(etree, "_namespace_map", {})),
        "arguments": list(sys.argv),
        "int digits": sys.get_int_max_str_digits(),
    }


class Captured:
    """What reaches file descriptors 1 and 2, whoever writes it."""

    def __init__(self, path):
        self.path = path

    def __enter__(self):
        sys.stdout.flush()
        sys.stderr.flush()
        self.saved = [os.dup(1), os.dup(2)]
        self.file = os.open(self.path, os.O_RDWR | os.O_CREAT | os.O_TRUNC)
        os.dup2(self.file, 1)
        os.dup2(self.file, 2)
        return self

    def __exit__(self, *exc):
        sys.stdout.flush()
        sys.stderr.flush()
        for fd, saved in zip((1, 2), self.saved):
            os.dup2(saved, fd)
            os.close(saved)
        os.lseek(self.file, 0, 0)
        self.text = os.read(self.file, 4000)
        os.close(self.file)
        os.remove(self.path)
        return False


DAMAGE = ["none", "none", "none", "cut", "missing", "junk", "unknown layer", "other template", "zstd", "bad colour", "checksum"]


@st.composite
def cases(draw):
    doc = draw(gen.project(hi=3, ts_hi=2, maxobj=3))
    return {"doc": doc, "fmt": draw(st.sampled_from(["tmx", "json"])), "world": draw(simple_worlds()), "damage": draw(st.sampled_from(DAMAGE)),
            "at": draw(st.integers(0, 2**16)), "how": draw(st.sampled_from(["abs", "rel"])),
            "files": draw(st.lists(st.sampled_from(["map_1_2.tmx", "1_2.tmx", "3-4.tmx", "map_x1_y2.json", "5x6"]), max_size=3, unique=True))}


def damaged(case, writer):
    """path -> bytes of the project (a missing file is None)"""
    kind, rng = case["damage"], random.Random(case["at"])
    trees = writer.trees()
    main = trees[writer.map_path()]
    if kind == "unknown layer":
        if isinstance(main, X):
            main.kids.append(X("videolayer", {"id": "99"}))
        else:
            main["layers"].append({"type": "videolayer", "id": 99, "name": ""})
    elif kind == "bad colour":
        if isinstance(main, X):
            main.attrs["backgroundcolor"] = "#12345g"
        else:
            main["backgroundcolor"] = "nocolor"
    elif kind in ("zstd", "checksum"):
        c = "zstd" if kind == "zstd" else "zlib"
        text = "eJwLBgAAVABU"
        if isinstance(main, X):
            main.kids.append(X("layer", {"id": "99", "name": "", "width": "1", "height": "1"}, [X("data", {"encoding": "base64", "compression": c}, text=text)]))
        else:
            main["layers"].append({"type": "tilelayer", "id": 99, "name": "", "width": 1, "height": 1, "opacity": 1, "visible": True, "x": 0, "y": 0,
                                   "encoding": "base64", "compression": c, "data": text})
    files = writer.contents(trees)
    if kind in ("cut", "missing", "junk"):
        name = rng.choice(sorted(files))
        data = files[name]
        files[name] = {"cut": data[: rng.randrange(len(data))], "missing": None, "junk": rng.choice([b"", b"\x00\xff\x80", b"plain text", b"{", b"<map"])}[kind]
    return files


class C28(Prop):
    id = "C28"
    rule = (
        "A case is a random project and world, sound or damaged in one of eight ways (file cut, missing or not of a known format, "
        "unknown layer type, template of the other format, zstd or damaged tile data, malformed colour); parse_map, parse_tileset and parse_world "
        "run on it under an audit hook with output and warnings captured. Compared before and after, the result or exception still being "
        "held: directory tree (names, contents, modes, times), open descriptors, and twenty process-wide settings. "
        "Non-trivial: the project has a layer or a tileset."
    )
    assumptions = ["Writes are seen through the interpreter's audit events and the scratch tree; a C extension writing elsewhere would not be."]
    quick = 230
    thorough = 12000

    def setup(self, env):
        sys.addaudithook(hook)

    def strategy(self, tier):
        return cases()

    def check(self, case, env):
        doc = case["doc"]
        if case["damage"] == "other template":
            doc = dict(doc, templates=[dict(t, fmt="json" if case["fmt"] == "tmx" else "tmx") for t in doc["templates"]])
        case = dict(case, doc=doc)
        writer = Writer(doc, case["fmt"])
        root = os.path.join(env.root, "p")
        files = damaged(case, writer)
        files["w/x.world"] = json_bytes(world_json(case["world"]))
        if case["damage"] == "cut" and case["at"] % 3 == 0:
            files["w/x.world"] = files["w/x.world"][: len(files["w/x.world"]) // 2]
        for name in case["files"]:
            files["w/" + name] = b""
        env.write({p: d for p, d in files.items() if d is not None}, root)
        jobs = [("parse_map", writer.map_path()), ("parse_world", "w/x.world")]
        jobs += [("parse_tileset", writer.ts_path(i)) for i, t in enumerate(doc["tilesets"]) if t["ref"] != "embed"]
        old = os.getcwd()
        os.chdir(root)
        try:
            for fn, rel in jobs:
                self.observe(getattr(api(), fn), Path(rel) if case["how"] == "rel" else Path(root, rel), env, f"{fn}({rel})")
        finally:
            os.chdir(old)

    def observe(self, fn, path, env, what):
        global watch
        text = str(path)
        before_tree = tree(env.root)
        before_set = settings()
        before_fd = descriptors()
        captured = Captured(os.path.join(env.base, "output"))
        with captured:
            with warnings.catch_warnings(record=True) as caught:
                warnings.simplefilter("always")
                filters = list(warnings.filters)
                watch = events = []
                kept = outcome(fn, path)
                watch = None
                changed_filters = list(warnings.filters) != filters
                after_fd = descriptors()
        after_set = settings()
        what += " which raised " + describe(kept[1]) if kept[0] == "raise" else ""
        if captured.text:
            fail(f"{what}: wrote to standard output or error: {captured.text[:200]!r}")
        for w in caught:
            quiet = issubclass(w.category, (DeprecationWarning, PendingDeprecationWarning, ImportWarning))
            if not quiet:
                fail(f"{what}: {w.category.__name__}: {w.message}")
        if events:
            fail(f"{what}: {events[:3]}")
        # the capture's own file and copies are there in after_fd only
        extra = {fd: t for fd, t in after_fd.items() if fd not in before_fd and t != captured.path and fd not in captured.saved}
        lost = [fd for fd in before_fd if fd not in after_fd]
        if extra or lost:
            fail(f"{what}: descriptors left open {extra}, closed {lost}")
        if changed_filters:
            fail(f"{what}: changed the warning filters")
        for key, value in before_set.items():
            if after_set[key] != value:
                fail(f"{what}: changed the {key}: {str(value)[:150]} -> {str(after_set[key])[:150]}")
        after_tree = tree(env.root)
        if after_tree != before_tree:
            keys = [k for k in set(before_tree) | set(after_tree) if before_tree.get(k) != after_tree.get(k)]
            fail(f"{what}: changed files: {sorted(keys)[:4]}")
        if str(path) != text:
            fail(f"{what}: changed its argument to {path}")

    def nontrivial(self, case):
        return bool(case["doc"]["map"]["layers"] or case["doc"]["tilesets"])

    def classes(self, case):
        return ["damage: " + case["damage"], case["fmt"], "path " + case["how"]] + project_classes(case["doc"])


PROP = C28()
