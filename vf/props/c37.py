import errno
import gc
import os
import sys
from pathlib import Path

from hypothesis import strategies as st

from .. import gen, observe
from ..boot import REPO
from ..compare import compare_map, used_template_tilesets
from ..core import Prop, api, check_diff, describe, fail, outcome
from ..emit import Writer, to_bytes
from ..expect import Expect
from ..mapprop import flat_layers
from ..tree import json_bytes
from .c10 import drop_images
from .c14 import project_classes
from .c18 import template_projects
from .c19 import simple_worlds, world_json
from .c28 import descriptors

SOURCE = os.path.join(REPO, "pytiled_parser") + os.sep
ERRORS = [errno.EACCES, errno.EMFILE, errno.EIO, errno.EINTR, errno.ENOMEM, errno.ESTALE, errno.ENOENT]
ON_DISK = ["missing", "directory", "dangling link", "loop of links", "unreadable"]


class Stop(BaseException):
    """Stands for any exception that is not the library's own business."""


plan = None  # [root, opens until the error, errno]


def hook(event, args):
    if plan is None or event != "open":
        return
    path = args[0]
    if isinstance(path, (str, bytes)) and os.path.abspath(os.fsdecode(path)).startswith(plan[0] + os.sep):
        plan[1] -= 1
        if plan[1] < 0:
            plan[1] = 10**9
            raise OSError(plan[2], os.strerror(plan[2]), path)


@st.composite
def cases(draw):
    doc = draw(template_projects() if draw(st.integers(0, 2)) == 0 else gen.project(hi=3, ts_hi=2, maxobj=3, twists=gen.SMALL))
    faults = []
    for _ in range(draw(st.integers(2, 6))):
        k = draw(st.sampled_from(["disk", "open", "stop", "stop"]))
        if k == "disk":
            faults.append([k, draw(st.sampled_from(ON_DISK)), draw(st.integers(0, 7))])
        elif k == "open":
            faults.append([k, draw(st.sampled_from(ERRORS)), draw(st.integers(0, 2**12))])
        else:
            faults.append([k, draw(st.sampled_from(["Stop", "KeyboardInterrupt", "MemoryError", "SystemExit"])), draw(st.integers(0, 2**20))])
    return {"doc": doc, "fmt": draw(st.sampled_from(["tmx", "json"])), "world": draw(simple_worlds()), "job": draw(st.sampled_from(["map", "map", "map", "tileset", "world"])), "faults": faults}


class Stopper:
    """Raises an exception before the n-th line that the library runs; counts them for n None"""

    def __init__(self, n, exc=None):
        self.n, self.exc, self.count, self.done = n, exc, 0, False

    def local(self, frame, event, arg):
        if event == "line" and not self.done:
            self.count += 1
            if self.n is not None and self.count > self.n:
                self.done = True
                raise self.exc
        return self.local

    def __call__(self, frame, event, arg):
        return self.local if frame.f_code.co_filename.startswith(SOURCE) else None

    def run(self, fn, *args):
        old = sys.gettrace()
        sys.settrace(self)
        try:
            return outcome(fn, *args)
        except KeyboardInterrupt as exc:
            return ("raise", exc)
        finally:
            sys.settrace(old)


class C37(Prop):
    id = "C37"
    rule = (
        "A case is a random project and world, one parse on it (map, tileset or world) and two to six faults in turn: a file the parse needs is missing, a directory, a dangling or circular link or fails "
        "to be read; the k-th opening of a file fails with a random error (by an audit hook); or an exception from outside (KeyboardInterrupt, MemoryError, one "
        "derived from BaseException) strikes before the n-th line the library runs, k and n being spread over the whole parse. Each time that error must reach the caller and no file stay "
        "open, and the parse after it, on the sound files, must equal the reference model. Non-trivial: the parse needs more than one file, or a fault in the middle of it."
    )
    assumptions = ["An error is injected between lines of the library or at the opening of a file, and by files that cannot be read from their start, but not in the middle of a read."]
    quick = 200
    thorough = 9000

    def setup(self, env):
        sys.addaudithook(hook)

    def strategy(self, tier):
        return cases()

    def job(self, case, env, writer):
        """(function, file, files it needs, check of its result)"""
        doc = case["doc"]
        external = [i for i, t in enumerate(doc["tilesets"]) if t["ref"] != "embed"]
        if case["job"] == "world":
            first = []

            def verify(w):
                w = observe.world(w)
                maps = [{"map_file": ("abspath", os.path.join(env.root, "w", m["fileName"])), "size": ("size", m["width"], m["height"]), "coordinates": ("pair", m["x"], m["y"])}
                        for m in case["world"]["maps"]]
                first.append(w)
                return observe.diff(maps, w["maps"][: len(maps)], "maps") + observe.diff(first[0], w)

            return "parse_world", "w/x.world", ["w/x.world"], verify
        if case["job"] == "tileset" and external:
            i = external[0]
            model = Expect(doc, env.root, case["fmt"], writer).tileset(doc["tilesets"][i]["def"], 1, None)
            return "parse_tileset", writer.ts_path(i), [writer.ts_path(i)], lambda t: observe.diff(drop_images(model), drop_images(observe.tileset(t)), "tileset")
        needed, _ = used_template_tilesets(doc)
        used = {o["template"] for l in flat_layers(doc["map"]["layers"]) for o in l.get("objects", []) if "template" in o}
        files = [writer.map_path()] + [writer.ts_path(i) for i, t in enumerate(doc["tilesets"]) if t["ref"] == "ext" or i in needed] + [writer.tpl_path(i) for i in sorted(used)]
        return "parse_map", writer.map_path(), sorted(set(files), key=files.index), lambda m: compare_map(doc, env.root, case["fmt"], writer, m)

    def check(self, case, env):
        global plan
        writer = Writer(case["doc"], case["fmt"])
        files = writer.contents()
        files["w/x.world"] = json_bytes(world_json(case["world"]))
        env.write(files)
        fn, rel, needed, verify = self.job(case, env, writer)
        parse, path = getattr(api(), fn), Path(env.root, rel)
        counter = Stopper(None)
        how, value = counter.run(parse, path)
        if how == "raise":
            fail(f"{fn} raised {describe(value)}")
        check_diff(verify(value) or [], f"{case['fmt']}, first")
        opens = [env.root, 10**6, errno.EIO]
        plan = opens
        outcome(parse, path)
        plan = None
        opens = 10**6 - opens[1]
        before = descriptors()
        exc = None
        for kind, what, at in case["faults"]:
            label = f"{case['fmt']}: {kind} {what}"
            if kind == "disk":
                name = needed[at % len(needed)]
                label += f" of {name}"
                self.spoil(os.path.join(env.root, name), what)
                how, value = outcome(parse, path)
                self.restore(os.path.join(env.root, name), files[name])
                want = (OSError, RuntimeError) if what == "loop of links" else OSError  # pathlib's choice
            elif kind == "open":
                plan = [env.root, at % max(1, opens), what]
                label = f"{case['fmt']}: open number {plan[1]} fails with {errno.errorcode[what]}"
                how, value = outcome(parse, path)
                plan = None
                want = OSError
            else:
                exc = {"Stop": Stop, "KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError, "SystemExit": SystemExit}[what]("injected")
                n = at % max(1, counter.count)
                label = f"{case['fmt']}: {what} before line number {n} of {counter.count}"
                how, value = Stopper(n, exc).run(parse, path)
                want = type(exc)
            if how == "ok":
                fail(f"{fn}, {label}: returned a result")
            if not isinstance(value, want):
                fail(f"{fn}, {label}: raised {describe(value)}")
            value = exc = None  # with their frames
            after = descriptors()
            if after != before:
                gc.collect()
                after = descriptors()
            if after != before:
                fail(f"{fn}, {label}: left open {[v for k, v in after.items() if before.get(k) != v]}")
            how, value = outcome(parse, path)
            if how == "raise":
                fail(f"{fn} after {label}: raised {describe(value)}")
            check_diff(verify(value) or [], f"after {label}")

    def spoil(self, path, what):
        os.remove(path)
        if what == "directory":
            os.mkdir(path)
        elif what == "dangling link":
            os.symlink(path + ".gone", path)
        elif what == "loop of links":
            os.symlink(os.path.basename(path), path)
        elif what == "unreadable":
            os.symlink("/proc/self/mem", path)  # opens, but reading from its start is an I/O error

    def restore(self, path, data):
        if os.path.isdir(path) and not os.path.islink(path):
            os.rmdir(path)
        elif os.path.lexists(path):
            os.remove(path)
        with open(path, "wb") as f:
            f.write(data)

    def nontrivial(self, case):
        return bool(case["doc"]["tilesets"] or case["doc"]["templates"]) or any(f[0] == "stop" for f in case["faults"])

    def classes(self, case):
        return [case["fmt"], case["job"]] + [f"{f[0]} {errno.errorcode[f[1]] if f[0] == 'open' else f[1]}" for f in case["faults"]] + project_classes(case["doc"])


PROP = C37()
