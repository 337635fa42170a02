import os
import sys
import threading
import time
from pathlib import Path

from hypothesis import strategies as st

from .. import gen, observe
from ..boot import REPO
from ..compare import compare_map
from ..core import Prop, api, check_diff, describe, fail, outcome
from ..emit import Writer, to_bytes
from ..tree import json_bytes
from .c36 import version

SOURCE = os.path.join(REPO, "pytiled_parser") + os.sep


class Scheduler:
    """Runs one thread at a time; which one, and for how many steps (lines or byte codes of
    the library), is given by a schedule.  Should the running thread block on another one (a
    lock), all of them are let loose."""

    def __init__(self, n, schedule, opcodes):
        self.n, self.schedule, self.opcodes = n, schedule, opcodes
        self.cond = threading.Condition()
        self.alive = set(range(n))
        self.pos = 0
        self.steps = 0
        self.switches = 0
        self.free = False
        self.current, self.left = None, 0

    def pick(self):
        if not self.alive:
            self.current = None
            return
        who, length = self.schedule[self.pos % len(self.schedule)]
        self.pos += 1
        order = sorted(self.alive)
        chosen = order[who % len(order)]
        if chosen != self.current:
            self.switches += 1
        self.current, self.left = chosen, length

    def wait(self, me):
        while not self.free and self.current != me:
            before = self.steps
            if not self.cond.wait(1.0) and self.steps == before:
                self.free = True
                self.cond.notify_all()

    def start(self, me):
        with self.cond:
            self.wait(me)

    def step(self, me):
        if self.free:
            return
        with self.cond:
            self.steps += 1
            self.left -= 1
            if self.left <= 0:
                self.pick()
                if self.current != me:
                    self.cond.notify_all()
                    self.wait(me)

    def finish(self, me):
        with self.cond:
            self.alive.discard(me)
            self.pick()
            self.cond.notify_all()

    def tracer(self, me):
        def local(frame, event, arg):
            if event in ("line", "opcode"):
                self.step(me)
            return local

        def trace(frame, event, arg):
            if not frame.f_code.co_filename.startswith(SOURCE):
                return None
            if self.opcodes:
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
            return local

        return trace

    def run(self, jobs):
        results = [None] * self.n

        def body(i):
            self.start(i)
            sys.settrace(self.tracer(i))
            try:
                results[i] = outcome(*jobs[i])
            finally:
                sys.settrace(None)
                self.finish(i)

        threads = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(self.n)]
        with self.cond:
            self.pick()
        for t in threads:
            t.start()
        end = time.time() + 25
        for t in threads:
            t.join(max(0.1, end - time.time()))
        return results


class Nest:
    """Runs each job inside of the one before, at a given line of it, as a signal handler or a finaliser would."""

    def __init__(self, jobs, lines):
        self.jobs, self.lines = jobs, lines
        self.results = [None] * len(jobs)

    def one(self, i):
        left = [self.lines[i % len(self.lines)] if i + 1 < len(self.jobs) else -1]

        def local(frame, event, arg):
            if event == "line" and left[0] >= 0:
                left[0] -= 1
                if left[0] < 0:
                    sys.settrace(None)
                    self.one(i + 1)
                    sys.settrace(trace)
            return local

        def trace(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(SOURCE) else None

        sys.settrace(trace)
        self.results[i] = outcome(*self.jobs[i])
        sys.settrace(None)
        if left[0] >= 0:  # it was shorter than that
            self.one(i + 1)

    def run(self):
        t = threading.Thread(target=self.one, args=(0,), daemon=True)
        t.start()
        t.join(25)
        return self.results


def small(draw):
    return gen.project(hi=2, ts_hi=2, maxobj=2, depth=1, rich=draw(st.integers(0, 2)) == 0)


@st.composite
def templated(draw):
    """a few nested layers whose objects come from templates, the files of which are all relative to something"""
    ids, oids = gen.Ids(), gen.Ids()
    tilesets = [{"ref": draw(st.sampled_from(["ext", "tpl"])), "firstgid": 1, "def": dict(draw(gen.tileset_def(mark=0, rich=False, wang=False))),
                 "dir": draw(st.sampled_from(gen.DIRS)), "file": "ts0"}] if draw(st.booleans()) else []
    tpls = [draw(gen.template(0, len(tilesets), tilesets))]
    m = gen.simple_header()
    layers = draw(gen.layers(ids, oids, False, 1, 1, 2, ("object", "image", "object"), objs=gen.instance(oids, tpls), maxobj=2, minobj=1))
    m["layers"] = [{"k": "group", "name": "g", "id": 700, "layers": layers}] if draw(st.integers(0, 2)) else layers
    return {"dir": draw(st.sampled_from(gen.DIRS)), "name": "map", "map": m, "tilesets": tilesets, "templates": tpls}


@st.composite
def cases(draw):
    if draw(st.integers(0, 2)) == 0:
        first = {"doc": draw(templated()), "fmt": draw(st.sampled_from(["tmx", "json"]))}
        other = {"doc": version(first["doc"], 1), "fmt": first["fmt"]} if draw(st.booleans()) else {"doc": draw(templated()), "fmt": draw(st.sampled_from(["tmx", "json"]))}
        return {"docs": [first, other], "jobs": draw(st.sampled_from([[[0, "map"], [1, "map"]], [[0, "map"], [1, "map"], [0, "map"]]])),
                "schedule": draw(st.lists(st.tuples(st.integers(0, 2), st.one_of(st.integers(1, 4), st.integers(1, 30))).map(list), min_size=3, max_size=25)),
                "opcodes": draw(st.integers(0, 5)) == 0, "first": draw(st.sampled_from(["alone", "together"])), "nest": None}
    docs = [{"doc": draw(small(draw)), "fmt": draw(st.sampled_from(["tmx", "json"]))} for _ in range(draw(st.integers(1, 2)))]
    if draw(st.booleans()):
        layers = docs[0]["doc"]["map"]["layers"]
        for l in layers:
            if l["k"] == "group" and draw(st.booleans()):
                l["layers"] += [x for x in layers if x["k"] == "object"]
                layers[:] = [x for x in layers if x["k"] != "object"]
                break
        else:
            docs[0]["doc"]["map"]["layers"] = [{"k": "group", "name": "all", "id": 700, "layers": layers}]
    if draw(st.booleans()):  # the same project with other values
        docs[1:] = [{"doc": version(docs[0]["doc"], 1), "fmt": docs[0]["fmt"]}]
    jobs = []
    for _ in range(draw(st.integers(2, 4))):
        d = draw(st.integers(0, len(docs) - 1))
        kinds = ["map", "map", "map", "world", "bad map"] + ["ts%d" % i for i, t in enumerate(docs[d]["doc"]["tilesets"]) if t["ref"] != "embed"] * 2
        jobs.append([d, draw(st.sampled_from(kinds))])
    schedule = draw(st.lists(st.tuples(st.integers(0, 3), st.one_of(st.integers(1, 4), st.integers(1, 60))).map(list), min_size=3, max_size=25))
    return {"docs": docs, "jobs": jobs, "schedule": schedule, "opcodes": draw(st.integers(0, 3)) == 0, "first": draw(st.sampled_from(["alone", "together"])),
            "nest": draw(st.one_of(st.none(), st.none(), st.lists(st.one_of(st.integers(0, 30), st.integers(0, 400)), min_size=1, max_size=3)))}


class C26(Prop):
    id = "C26"
    rule = (
        "A case is one or two random projects (TMX or JSON; often the second is the first with other values; in a third of the cases made of template instances in groups), two to four parse calls on their maps (the same map several times, "
        "too), tilesets, worlds and damaged maps, one per thread, and a schedule; a cooperative scheduler switches threads after "
        "the generated number of source lines (or byte codes, in a quarter of the cases) executed in the library; in a third of "
        "the cases each call runs inside of the one before instead, from a trace function at a generated line of it. Each "
        "result must equal the reference model and the result, or exception, of the same call alone. Non-trivial: two jobs "
        "and a schedule that changes threads."
    )
    assumptions = ["Interleavings inside calls into the standard library and C code are not enumerated."]
    quick = 160
    thorough = 6000
    hang = 60

    def strategy(self, tier):
        return cases()

    def check(self, case, env):
        roots, writers = [], []
        for i, d in enumerate(case["docs"]):
            root = os.path.join(env.root, "r%d" % i)
            writer = Writer(d["doc"], d["fmt"])
            files = writer.contents()
            data = files[writer.map_path()]
            files[os.path.join(os.path.dirname(writer.map_path()), "bad")] = data[: len(data) * 2 // 3]
            files["w/x.world"] = json_bytes({"maps": [{"fileName": "f%d.tmx" % k, "x": i, "y": k, "width": 5, "height": 6} for k in range(3)],
                                             "patterns": [{"regexp": r"m(\d+)_(\d+)", "multiplierX": 10 + i, "multiplierY": 3}]})
            files["w/m1_2"] = b""
            env.write(files, root)
            roots.append(root)
            writers.append(writer)
        jobs = []
        for d, kind in case["jobs"]:
            w, root = writers[d], roots[d]
            if kind == "world":
                jobs.append((api().parse_world, Path(root, "w/x.world")))
            elif kind == "map":
                jobs.append((api().parse_map, Path(root, w.map_path())))
            elif kind == "bad map":
                jobs.append((api().parse_map, Path(root, os.path.dirname(w.map_path()), "bad")))
            else:
                jobs.append((api().parse_tileset, Path(root, w.ts_path(int(kind[2:])))))
        alone = [outcome(*j) for j in jobs] if case["first"] == "alone" else None
        if case.get("nest"):
            together = Nest(jobs, case["nest"]).run()
        else:
            together = Scheduler(len(jobs), case["schedule"], case["opcodes"]).run(jobs)
        if alone is None:
            alone = [outcome(*j) for j in jobs]
        for i, ((d, kind), got, want) in enumerate(zip(case["jobs"], together, alone)):
            where = f"{'level' if case.get('nest') else 'thread'} {i} ({kind} of project {d})"
            if got is None:
                fail(f"{where} gave no result")
            if got[0] == "raise":
                if want[0] == "ok":
                    fail(f"{where} raised {describe(got[1])}, alone it parses")
                if type(got[1]) is not type(want[1]) or str(got[1]) != str(want[1]):
                    fail(f"{where} raised {describe(got[1])}, alone {describe(want[1])}")
                continue
            if want[0] == "raise":
                fail(f"{where} parsed, alone it raises {describe(want[1])}")
            look = observe.world if kind == "world" else observe.map_ if "map" in kind else observe.tileset
            check_diff(observe.diff(look(want[1]), look(got[1])), where)
            if kind == "map":
                doc = case["docs"][d]
                check_diff(compare_map(doc["doc"], roots[d], doc["fmt"], writers[d], got[1]), where)

    def nontrivial(self, case):
        return bool(case.get("nest")) or len({w % len(case["jobs"]) for w, _ in case["schedule"]}) > 1

    def classes(self, case):
        out = [f"{len(case['jobs'])} threads", "nested" if case.get("nest") else "by byte code" if case["opcodes"] else "by line", case["first"] + " first"]
        out += ["job " + k.rstrip("0123456789") for _, k in case["jobs"]]
        if len({tuple(j) for j in case["jobs"]}) < len(case["jobs"]):
            out.append("same file twice")
        return sorted(set(out))


PROP = C26()
