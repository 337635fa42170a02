import copy
import gc
import os
import sys
from pathlib import Path

from hypothesis import strategies as st

from .. import gen, observe
from ..core import Prop, api, fail, outcome
from ..emit import Writer, to_bytes
from ..mapprop import flat_layers
from ..tree import json_bytes
from .c14 import project_classes
from .c19 import simple_worlds, world_json

ROUNDS = 5


@st.composite
def cases(draw):
    doc = draw(gen.project(hi=3, ts_hi=3, maxobj=4, twists=gen.SMALL))
    return {"doc": doc, "fmt": draw(st.sampled_from(["tmx", "json"])), "world": draw(simple_worlds()),
            "what": draw(st.sampled_from(["sound", "sound", "cut map", "cut tileset", "missing"])), "hold": draw(st.booleans())}


def version(doc, i):
    """The same document with other values, so that nothing kept from one parse serves another.
    Also used by C26: the result is a document of its own."""
    doc = copy.deepcopy(doc)
    mark = f" v{i}"

    def props(owner):
        for p in owner.get("props", []):
            if p[1] in ("string", "file"):
                p[2] += mark
            elif p[1] in ("int", "float", "object") and abs(p[2]) < 2**30:
                p[2] += i + 1
            elif p[1] == "color":
                p[2] = "#%08x" % (0x10203040 + i)

    def thing(o):
        props(o)
        for key in ("name", "class"):
            if key in o:
                o[key] += mark
        for key in ("x", "y"):
            if key in o and abs(o[key]) < 2**30:
                o[key] += i + 1
        shape = o.get("shape", {})
        if "text" in shape:
            shape["text"] += mark
        if "points" in shape:
            shape["points"] = [[x + i + 1, y] if abs(x) < 2**30 else [x, y] for x, y in shape["points"]]

    doc["map"]["class"] = "version" + mark
    props(doc["map"])
    for l in flat_layers(doc["map"]["layers"]):
        l["name"] += mark
        props(l)
        if "image" in l:
            l["image"] += mark
        for key in ("tint", "trans"):
            if key in l:
                l[key] = "#%08x" % (0x20304050 + i)
        for part in l.get("chunks", []) + [l]:
            if "gids" in part:
                part["gids"] = [(g + 7919 * (i + 1)) % 2**32 for g in part["gids"]]
        for o in l.get("objects", []):
            props(o)
            thing(o)
    for ts in doc["tilesets"]:
        props(ts["def"])
        ts["def"]["class"] = "tileset" + mark
        ts["def"]["name"] += mark
        for image in [ts["def"].get("image")] + [t.get("image") for t in ts["def"].get("tiles", [])]:
            if image:
                image["src"] += mark
        for t in ts["def"].get("tiles", []):
            props(t)
        for w in ts["def"].get("wangsets", []):
            props(w)
            w["name"] += mark
            for c in w["colors"]:
                props(c)
                c["name"] += mark
    for t in doc["templates"]:
        thing(t["obj"])
    return doc


def file_names(node, key=""):
    """names of files of a document; pathlib keeps every such name for good"""
    if isinstance(node, dict):
        return set().union(*[file_names(v, k) for k, v in node.items()])
    if isinstance(node, list):
        if len(node) > 2 and node[1] == "file":
            return {node[2]}
        return set().union(*[file_names(v, key) for v in node])
    return {node} if key in ("src", "image") and isinstance(node, str) else set()


def blocks_in_use():
    gc.collect()
    if hasattr(sys, "_clear_type_cache"):
        sys._clear_type_cache()  # which keeps names that C code looked up
    return sys.getallocatedblocks()


def model_objects():
    """All living instances of the model classes, but for plain values such as colours"""
    return [o for o in gc.get_objects() if observe.is_model(o)]


class C36(Prop):
    id = "C36"
    rule = (
        "A case is a random project and world, of which six versions with different values (names, texts, tile data, classes) are written one after the other to new directories and parsed (map, tilesets, "
        "world), sound or with a cut or missing file; each time the results and exceptions are dropped. Afterwards no instance of a model class may be left, and the memory blocks "
        "in use may not grow by more than 2.5 per round, plus one for each file name of the document (which pathlib interns); should they, up to 211 more rounds tell growth from caches that fill. "
        "Non-trivial: several layers or a tileset, or a damaged file."
    )
    assumptions = ["Memory is counted in blocks of the interpreter's allocator; memory taken by C code elsewhere is not seen.", "The first round is left out, so that caches of a fixed size may fill."]
    quick = 70
    thorough = 3500

    def setup(self, env):
        gc.collect()
        gc.freeze()

    def strategy(self, tier):
        return cases()

    def jobs(self, case, env, i):
        root = os.path.join(env.root, f"round{i}")
        doc = version(case["doc"], i)
        writer = Writer(doc, case["fmt"])
        files = writer.contents()
        files["w/x.world"] = json_bytes(world_json(case["world"]))
        names = [writer.map_path()] + [writer.ts_path(k) for k, t in enumerate(doc["tilesets"]) if t["ref"] != "embed"]
        if case["what"] == "cut map":
            files[names[0]] = files[names[0]][: len(files[names[0]]) * 2 // 3]
        elif len(names) > 1 and case["what"] == "cut tileset":
            files[names[1]] = files[names[1]][: len(files[names[1]]) * 2 // 3]
        elif len(names) > 1 and case["what"] == "missing":
            del files[names[1]]
        env.write(files, root)
        out = [("parse_map", os.path.join(root, names[0]))] + [("parse_tileset", os.path.join(root, n)) for n in names[1:]]
        return out + [("parse_world", os.path.join(root, "w/x.world"))]

    def check(self, case, env):
        plan = [self.jobs(case, env, i) for i in range(ROUNDS + 1)]
        fns = {fn: getattr(api(), fn) for fn, _ in plan[0]}
        keep = [outcome(fns[fn], Path(path)) for fn, path in plan[0]]
        del keep
        gc.collect()
        older = model_objects()  # left by earlier cases, or made once and for all in the first round
        blocks = blocks_in_use()
        for jobs in plan[1:]:
            keep = [outcome(fns[fn], Path(path)) for fn, path in jobs] if case["hold"] else None
            if keep is None:
                for fn, path in jobs:
                    outcome(fns[fn], Path(path))
            del keep
        gc.collect()
        known = {id(o) for o in older}
        left = [type(o).__name__ for o in model_objects() if id(o) not in known]
        if left:
            fail(f"{case['fmt']}, {case['what']}: {len(left)} model objects are left after {ROUNDS} parses whose results were dropped ({', '.join(sorted(set(left)))[:200]})")
        del known, left
        grown = (blocks_in_use() - blocks) / ROUNDS
        own = 2.5 + len(file_names(case["doc"]))
        if grown > own:
            # Interpreter and libraries keep some things on their own (pools, type caches), and a cache of a
            # fixed size may fill: more rounds tell that from what grows with every parse
            n = ROUNDS
            for rounds in (1, 30, 60, 120):
                blocks = blocks_in_use()
                for _ in range(rounds):
                    n += 1
                    jobs = self.jobs(case, env, n)
                    for fn, path in jobs:
                        outcome(fns[fn], Path(path))
                    del jobs
                more = (blocks_in_use() - blocks) / rounds
                if rounds > 1 and more <= own:
                    return
            fail(f"{case['fmt']}, {case['what']}: each parse leaves {more:.1f} memory blocks behind, {grown:.1f} at first")

    def nontrivial(self, case):
        d = case["doc"]
        return case["what"] != "sound" or bool(d["tilesets"]) or len(d["map"]["layers"]) > 1

    def classes(self, case):
        return [case["fmt"], case["what"], "results kept for a while" if case["hold"] else "results dropped at once"] + project_classes(case["doc"])


PROP = C36()
