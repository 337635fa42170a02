import copy
import gc
import os
import sys
import time
from pathlib import Path

from hypothesis import strategies as st

from .. import boot, bulk, gen
from ..core import Prop, api, call, fail
from ..emit import Writer, to_bytes
from ..tree import json_bytes
from ..twist import OBJ_KINDS, Recipe
from .c19 import PATTERNS

LIB = os.path.realpath(os.path.join(boot.REPO, "pytiled_parser")) + os.sep

KINDS = ["tile layers", "object layers", "groups", "nested groups", "groups in groups", "objects", "instances", "tile instances", "template properties", "points", "properties",
         "layer properties", "chunks", "rows", "columns", "tilesets", "external tilesets", "tiles", "frames", "collision objects", "wang sets", "wang colors", "wang tiles",
         "text", "world maps", "world files", "world patterns", "tile templates"]


@st.composite
def cases(draw):
    return {"k": draw(st.sampled_from(KINDS)), "fmt": draw(st.sampled_from(["tmx", "json"])), "seed": draw(st.integers(0, 200)), "n": draw(st.sampled_from([6, 8, 11])),
            "enc": draw(st.sampled_from([["csv", ""], ["elements", ""], ["base64", ""], ["base64", "zlib"], ["base64", "gzip"]])),
            "infinite": draw(st.booleans()), "ext": draw(st.sampled_from(["tmx", "json"])), "base": draw(gen.project(hi=2, ts_hi=1, maxobj=2, depth=1, twists=None))}


def nest(inner, n, seed, twins=False):
    for i in range(n):
        layers = [inner]
        if twins:
            layers.insert(i % 2, {"k": "group", "name": "", "id": 900 + i, "layers": []})
        inner = Recipe(seed).layer(None, 100 + i, 0, "group", False)[0]
        inner["layers"] = layers
    return inner


def build(case, n):
    """the base project with n elements of one kind added"""
    k = case["k"]
    doc = copy.deepcopy(case["base"])
    m = doc["map"]
    inf = m["infinite"]
    enc = {"e": case["enc"][0], "ws": 0}
    if enc["e"] == "base64":
        enc.update(c=case["enc"][1], lvl=6)
    kind = [OBJ_KINDS[case["seed"] % 7]]
    obj = lambda i: Recipe(case["seed"]).object(1000 + i, kind)  # noqa: E731 (all alike)
    layer = lambda **kw: dict({"name": "new", "id": 500}, **kw)  # noqa: E731
    cells = lambda w, h: [7 | 0x80000000] * (w * h)  # noqa: E731
    ts = {"name": "new", "tw": 8, "th": 8, "cols": 4, "count": 400, "image": {"src": "a.png"}, "props": [["mark", "int", 77]]}
    gid = max([t["firstgid"] + gen.span(t["def"]) for t in doc["tilesets"]] + [1])
    if k == "tile layers":
        for i in range(n):
            w, h = 3, 2
            l = layer(k="tile", w=w, h=h, enc=enc)
            l.update({"chunks": [{"x": 0, "y": 0, "w": w, "h": h, "gids": cells(w, h)}]} if inf else {"gids": cells(w, h)})
            m["layers"].append(l)
    elif k == "object layers":
        m["layers"] += [layer(k="object", objects=[obj(2 * i), obj(2 * i + 1)]) for i in range(n)]
    elif k == "groups":
        m["layers"] += [layer(k="group", layers=[layer(k="image", image="a.png")]) for i in range(n)]
    elif k in ("nested groups", "groups in groups"):
        m["layers"].append(nest(layer(k="object", objects=[obj(0)]), n, case["seed"], k != "nested groups"))
    elif k == "objects":
        m["layers"].append(layer(k="object", objects=[obj(i) for i in range(n)]))
    elif k in ("instances", "tile instances", "template properties"):
        tpl = {"dir": "", "file": "new", "obj": {"id": 1, "name": "t", "w": 3, "h": 4, "props": [["a", "int", 1], ["b", "string", "x"]], "shape": {"k": "ellipse"}}}
        if k == "tile instances":
            doc["tilesets"].append({"ref": "tpl", "firstgid": gid, "def": ts, "dir": "", "file": "newts", "fmt": case["ext"]})
            tpl["obj"]["shape"] = {"k": "tile", "gid": 5}
            tpl["ts"] = len(doc["tilesets"]) - 1
        if k == "template properties":
            tpl["obj"]["props"] = [["p%d" % i, "int", i] for i in range(n)]
        doc["templates"].append(tpl)
        count = 2 if k == "template properties" else n
        m["layers"].append(layer(k="object", objects=[
            {"id": 1000 + i, "x": i, "y": 0, "template": len(doc["templates"]) - 1, "props": [["b", "string", "y"]]} for i in range(count)]))
    elif k == "tile templates":
        doc["tilesets"].append({"ref": "ext", "firstgid": gid, "def": ts, "dir": "", "file": "newts", "fmt": case["ext"]})
        objs = []
        for i in range(n):
            doc["templates"].append({"dir": "", "file": "new%d" % i, "obj": {"id": 1, "shape": {"k": "tile", "gid": 1 + i}}, "ts": len(doc["tilesets"]) - 1})
            objs.append({"id": 1000 + i, "x": 0, "y": 0, "template": len(doc["templates"]) - 1})
        m["layers"].append(layer(k="object", objects=objs))
    elif k == "points":
        m["layers"].append(layer(k="object", objects=[{"id": 1000, "x": 0, "y": 0, "shape": {"k": "polygon", "points": [[i, -i] for i in range(n)]}}]))
    elif k == "properties":
        m.setdefault("props", []).extend(["new%d" % i, "int", i] for i in range(n))
    elif k == "layer properties":
        m["layers"].append(layer(k="object", objects=[], props=[["new%d" % i, "string", "v"] for i in range(n)]))
    elif k == "chunks":
        m["infinite"] = True
        m["layers"] = [layer(k="tile", w=4, h=4, enc=enc, chunks=[{"x": i, "y": -i, "w": 2, "h": 2, "gids": cells(2, 2)} for i in range(n)])]
    elif k in ("rows", "columns"):
        m["infinite"] = False
        w, h = (3, n) if k == "rows" else (n, 3)
        m["layers"] = [layer(k="tile", w=w, h=h, enc=enc, gids=cells(w, h))]
    elif k in ("tilesets", "external tilesets"):
        for i in range(n):
            new = {"ref": "embed", "firstgid": gid + 400 * i, "def": dict(ts)}
            if k != "tilesets":
                new.update(ref="ext", dir="", file="new%d" % i, fmt=case["ext"])
            doc["tilesets"].append(new)
    elif k == "text":
        m["layers"].append(layer(k="object", name="n" * n, objects=[{"id": 1000, "x": 0, "y": 0, "shape": {"k": "text", "text": "x <\n" * n}}], props=[["p", "string", "a&b" * n]]))
    elif not k.startswith("world"):
        doc["tilesets"].append({"ref": "ext", "firstgid": gid, "def": ts, "dir": "", "file": "new", "fmt": case["ext"]})
        if k == "tiles":
            ts["tiles"] = [{"id": i, "class": "c", "props": [["a", "int", i]]} for i in range(n)]
        elif k == "frames":
            ts["tiles"] = [{"id": 0, "anim": [[i, 100] for i in range(n)]}]
        elif k == "collision objects":
            ts["tiles"] = [{"id": 0, "objects": {"k": "object", "name": "", "objects": [Recipe(case["seed"]).object(i + 1, OBJ_KINDS[:5]) for i in range(n)]}}]
        else:
            colors = [{"name": "c", "color": "#ff0000", "tile": -1, "prob": 1} for _ in range(n if k == "wang colors" else 2)]
            tiles = [[i, [1, 2] * 4] for i in range(n if k == "wang tiles" else 2)]
            ts["wangsets"] = [{"name": "w", "type": "mixed", "tile": -1, "colors": colors, "tiles": tiles} for _ in range(n if k == "wang sets" else 1)]
    return doc


class Steps:
    """Counts what the interpreter does in the library: lines run in its modules and calls made from them."""

    def __enter__(self):
        self.count = 0
        sys.settrace(self.trace)
        sys.setprofile(self.profile)
        return self

    def __exit__(self, *exc):
        sys.settrace(None)
        sys.setprofile(None)
        return False

    def trace(self, frame, event, arg):
        if not os.path.realpath(frame.f_code.co_filename).startswith(LIB):
            return None
        self.count += 1
        return self.line

    def line(self, frame, event, arg):
        if event == "line":
            self.count += 1
        return self.line

    def profile(self, frame, event, arg):
        if event in ("call", "c_call"):
            self.count += 1


class C32(Prop):
    id = "C32"
    rule = (
        "A case names one of 28 kinds of element (layers of every kind, nesting depth, objects, template instances, tiles, frames, chunks, rows, "
        "properties, Wang colours, world maps, matching files, text length, ...) and adds n, 3n and 9n of them to a random project; the steps "
        "the interpreter takes in the library (lines run plus calls made) are counted, and going from 3n to 9n may add at most 1.35 times what "
        "three times the step from n to 3n would, plus a small constant. Besides, for each of 22 kinds in every format and storage, the processor "
        "time of a file with tens of thousands of elements may be at most 16 times that of one with an eighth of them, plus 0.4 s (best of "
        "three runs, garbage collection off). Non-trivial: every case."
    )
    assumptions = ["Steps do not count work inside of C code; that part is covered by the processor times of very large files, which show a quadratic term only from about 10 ns per pair of elements on."]
    hang = 120
    quick = 110
    thorough = 5000

    def strategy(self, tier):
        return cases()

    def fixed(self, tier, seed, shard):
        for i, (kind, fmt, way) in enumerate(bulk.all_kinds()):
            if i % self.shards == shard:
                yield {"k": "very many " + kind, "fmt": fmt, "bulk": kind, "way": way, "salt": seed % 1000}

    def bulk(self, case, env):
        def seconds(n):
            env.fresh()
            fn, files, main, _, _ = bulk.build(case["bulk"], case["fmt"], n, case["salt"], case["way"])
            env.write(files)
            fn, path = getattr(api(), fn), Path(env.root, main)
            gc.collect()
            gc.disable()
            try:
                start = time.process_time()
                call(fn, path)
                return time.process_time() - start
            finally:
                gc.enable()

        n = bulk.KINDS[case["bulk"]][2] * 2
        few, many = seconds(n // 8), seconds(n)
        for _ in range(2):
            if many <= 16 * few + 0.4:
                return
            few, many = max(few, seconds(n // 8)), min(many, seconds(n))
        if many > 16 * few + 0.4:
            fail(f"{case['fmt']} {case['way']}: {n // 8} {case['bulk']} take {few:.2f} s and {n} take {many:.2f} s")

    def steps(self, case, n, env):
        env.fresh()
        if case["k"].startswith("world"):
            world = {"maps": [], "patterns": []}
            if case["k"] == "world maps":
                world["maps"] = [{"fileName": "m%d.tmx" % i, "x": i, "y": 0, "width": 10, "height": 10} for i in range(n)]
            else:
                many = n if case["k"] == "world patterns" else 1
                world["patterns"] = [{"regexp": PATTERNS[0][0], "multiplierX": 10, "multiplierY": 10} for _ in range(many)]
                for i in range(n if case["k"] == "world files" else 1):
                    env.write({PATTERNS[0][1].format(x=i, y=i): b""})
            env.write({"x.world": json_bytes(world)})
            path, fn = "x.world", api().parse_world
        else:
            doc = build(case, n)
            writer = Writer(doc, case["fmt"])
            env.write(writer.contents())
            path, fn = writer.map_path(), api().parse_map
        path = Path(env.root, path)
        if n == case["n"]:
            call(fn, path)  # fills the interpreter's caches
        with Steps() as s:
            call(fn, path)
        return s.count

    def check(self, case, env):
        if "bulk" in case:
            return self.bulk(case, env)
        n = case["n"]
        a, b, c = (self.steps(case, k * n, env) for k in (1, 3, 9))
        if c - b > 1.35 * 3 * max(b - a, 0) + 150:
            fail(f"{case['fmt']}: {n}, {3 * n} and {9 * n} {case['k']} take {a}, {b} and {c} steps")

    def classes(self, case):
        return [case["k"], case["fmt"] + " " + case["k"]]


PROP = C32()
