import copy
import os
import random

from hypothesis import strategies as st

from .. import gen, observe
from ..core import Prop, check_diff, parse_map, parse_world
from ..emit import Writer, to_bytes
from ..mapprop import flat_layers
from ..tree import json_bytes
from .c14 import project_classes
from .c19 import simple_worlds, world_json
from .c31 import changed, places


def without_template_tilesets(doc):
    """Tilesets that only templates lead to are placed by what else is in the map, see C12"""
    bad = {i for i, t in enumerate(doc["templates"]) if "ts" in t}
    for l in flat_layers(doc["map"]["layers"]):
        if l["k"] == "object":
            l["objects"] = [o for o in l["objects"] if o.get("template") not in bad]
    for i in bad:  # nothing uses these any more
        del doc["templates"][i]["ts"]
        doc["templates"][i]["obj"]["shape"] = {"k": "rect"}
    return doc


def lists(doc):
    """Every list of the document: (kind, list, path in the observed model, key of an element or None)"""
    out = []

    def props(owner, path):
        if owner.get("props"):
            out.append(("property", owner["props"], path + ("properties",), lambda p: p[0]))

    def objects(objs, path):
        out.append(("object", objs, path, None))
        for i, o in enumerate(objs):
            p = path + (i,)
            if "template" not in o:
                props(o, p)
                if "points" in o["shape"]:
                    out.append(("point", o["shape"]["points"], p + ("points",), None))

    def layers(ls, path):
        out.append(("layer", ls, path, None))
        for i, l in enumerate(ls):
            p = path + (i,)
            props(l, p)
            if l["k"] == "group":
                layers(l["layers"], p + ("layers",))
            elif l["k"] == "object":
                objects(l["objects"], p + ("objects",))
            elif "chunks" in l:
                out.append(("chunk", l["chunks"], p + ("chunks",), None))

    layers(doc["map"]["layers"], ("layers",))
    props(doc["map"], ())
    shown = [t for t in doc["tilesets"] if t["ref"] != "tpl"]
    if shown:
        out.append(("tileset", doc["tilesets"], ("tilesets",), lambda t: t["firstgid"] if t["ref"] != "tpl" else None))
    for ts in shown:
        p, d = ("tilesets", ts["firstgid"]), ts["def"]
        props(d, p)
        if d.get("tiles"):
            out.append(("tile", d["tiles"], p + ("tiles",), lambda t: t["id"]))
        for t in d.get("tiles", []):
            q = p + ("tiles", t["id"])
            props(t, q)
            if "anim" in t:
                out.append(("frame", t["anim"], q + ("animation",), None))
            if "objects" in t:
                props(t["objects"], q + ("objects",))
                objects(t["objects"]["objects"], q + ("objects", "objects"))
        if d.get("wangsets"):
            out.append(("wang set", d["wangsets"], p + ("wang_sets",), None))
        for i, w in enumerate(d.get("wangsets", [])):
            q = p + ("wang_sets", i)
            props(w, q)
            out.append(("wang colour", w["colors"], q + ("wang_colors",), None))
            for k, c in enumerate(w["colors"]):
                props(c, q + ("wang_colors", k))
            out.append(("wang tile", w["tiles"], q + ("wang_tiles",), lambda t: t[0]))
    return out


def get(node, path):
    for k in path:
        node = node[k]
    return node


def put(node, path, value):
    get(node, path[:-1])[path[-1]] = value


LEAST = {"point": 1, "frame": 1}
OPS = ["remove", "remove", "double", "move", "change", "own", "own", "insert", "insert", "empty", "wrap", "wrap", "unwrap"]
NESTED = {"layers", "objects", "chunks", "tiles", "wangsets", "colors", "props", "gids", "points", "anim"}
WHOLE = {"infinite"}


@st.composite
def wrappers(draw):
    """a group layer with most of its attributes given, to put around others"""
    g = {"k": "group", "name": "around", "id": draw(st.integers(900, 999))}
    for key, values in gen.LAYER_OPTIONAL:
        if draw(st.integers(0, 3)):
            g[key] = draw(values)
    return g


@st.composite
def cases(draw):
    doc = without_template_tilesets(draw(gen.project(hi=3, ts_hi=3, maxobj=4)))
    other = without_template_tilesets(draw(gen.project(hi=2, ts_hi=2, maxobj=3, templates=False, infinite=doc["map"]["infinite"], twists=gen.SMALL)))
    return {"doc": doc, "other": other, "fmt": draw(st.sampled_from(["tmx", "json"])), "world": draw(simple_worlds()),
            "around": draw(wrappers()),
            "ops": draw(st.lists(st.tuples(st.sampled_from(OPS), st.integers(0, 2**24)).map(list), min_size=3, max_size=8))}


class C38(Prop):
    id = "C38"
    rule = (
        "A case is a random project, another one to take parts from, a random world and a list of edits; each edit removes, doubles, moves, empties, changes, inserts, wraps into a group or takes out of one, one part (layer, object, point, "
        "chunk, property, tileset, tile, frame, Wang set, Wang colour, Wang tile, world map) of the document. The new model must be the old one with the same edit applied to that part "
        "(an inserted part reads as it did in its own project; a changed one may only differ itself, and where only its own attributes changed, not in the parts inside of it). Non-trivial: an edit applied to a part inside of another."
    )
    assumptions = ["Tile templates are left out: where their tilesets are placed depends on the other tilesets (C12)."]
    quick = 200
    thorough = 10000

    def strategy(self, tier):
        return cases()

    def parse(self, doc, case, env):
        writer = Writer(doc, case["fmt"])
        env.write(writer.contents())
        return observe.map_(parse_map(os.path.join(env.root, writer.map_path())))

    def check(self, case, env):
        doc = case["doc"]
        before, donor = self.parse(doc, case, env), None
        for op, seed in case["ops"]:
            rng = random.Random(seed)
            new = copy.deepcopy(doc)
            sites = lists(new)
            # all kinds of parts equally often
            kind = rng.choice(sorted({s[0] for s in sites if s[1]} or {s[0] for s in sites}))
            if op == "insert":
                kinds = {s[0] for s in lists(case["other"]) if s[1]} & {s[0] for s in sites} & {"layer", "object", "property", "wang set"}
                kind = rng.choice(sorted(kinds) or ["layer"])
                if donor is None:
                    donor = self.parse(dict(case["other"], dir=doc["dir"]), case, env)
                done = self.insert(case["other"], donor, new, before, sites, kind, rng)
            elif op in ("wrap", "unwrap"):
                kind = "layer"
                done = getattr(self, op)(new, before, [s for s in sites if s[0] == "layer"], case["around"], rng)
            elif op == "own" and (rng.random() < 0.2 or not any(s[1] for s in sites)):
                kind = "map"
                done = self.own_change(new["map"], (), before, lists(new), rng)
            else:
                done = self.edit(op, new, before, [s for s in sites if s[0] == kind], kind, rng)
            if done is None:
                continue
            expected, where = done
            after = self.parse(new, case, env)
            if callable(expected):
                expected = expected(after)
            check_diff(observe.diff(expected, after), f"{case['fmt']}, {op} {kind} at {'.'.join(map(str, where))}")
            if rng.random() < 0.4:
                doc, before = new, after
        self.world(case, env)

    def edit(self, op, new, before, sites, kind, rng):
        sites = [s for s in sites if len(s[1]) > LEAST.get(kind, 0)]
        if not sites:
            return None
        _, items, path, key = rng.choice(sites)
        expected = copy.deepcopy(before)
        target = get(expected, path)
        i, j = rng.randrange(len(items)), rng.randrange(len(items))
        name = key(items[i]) if key else None
        if key and name is None:
            return None
        if op == "own":
            if kind in ("property", "point", "chunk", "frame", "wang tile") or (kind == "object" and "template" in items[i]):
                return None
            return self.own_change(items[i]["def"] if kind == "tileset" else items[i], path + (name if key else i,), before, lists(new), rng)
        if op == "change":
            where = path + (name if key else i,)
            if kind in ("chunk", "wang tile", "frame", "point", "property") or (kind == "tileset" and rng.random() < 0.3):
                return None
            part = items[i]["def"] if kind == "tileset" else items[i]
            spots = [(n, k) for n, k in places({"map": part, "tilesets": [], "templates": []}) if not (k == "id" and (kind in ("tile", "tileset")))]
            if not spots or (kind == "object" and "template" in part):
                return None
            node, k = rng.choice(spots)
            node[k] = changed(node, k)

            def confined(after):
                put(expected, where, get(after, where))
                return expected

            return confined, where
        if op == "empty":
            if kind in LEAST:
                return None
            if kind == "tileset":
                items[:] = [t for t in items if t["ref"] == "tpl"]
            else:
                items.clear()
            target.clear()
        elif op == "double":
            if key:
                return None
            items.insert(j, copy.deepcopy(items[i]))
            target.insert(j, copy.deepcopy(target[i]))
        elif op == "move":
            items.insert(j, items.pop(i))
            if not key:
                target.insert(j, target.pop(i))
        else:
            del items[i]
            if key:
                target.pop(name, None)
            else:
                del target[i]
        return expected, path + (name if key else i,)

    def own_change(self, part, where, before, sites, rng):
        """changes one attribute of a part, which leaves those inside of it as they were"""
        own = {k: v for k, v in part.items() if k not in NESTED and k not in WHOLE and k != "grid"}
        spots = [(part if node is own else node, k) for node, k in places({"map": own, "tilesets": [], "templates": []})]
        spots = [(n, k) for n, k in spots if not (n is part and k == "id" and where[-2:-1] == ("tiles",)) and not (n is part and k in ("w", "h") and NESTED & set(part))]
        if not spots:
            return None
        node, k = rng.choice(spots)
        node[k] = changed(node, k)
        inner = [s[2] for s in sites if s[0] != "point" and s[2][:len(where)] == where and len(s[2]) > len(where)]
        outer = [p for p in inner if not any(p != q and p[:len(q)] == q for q in inner)]

        def confined(after):
            expected = copy.deepcopy(before)
            part = copy.deepcopy(get(after, where))
            if where:
                put(expected, where, part)
            else:
                expected = part
            for p in outer:
                put(expected, p, get(before, p))
            return expected

        return confined, where

    def wrap(self, new, before, sites, around, rng):
        _, items, path, _ = rng.choice(sites)
        i = rng.randrange(len(items) + 1)
        j = rng.randrange(i, len(items) + 1)
        items[i:j] = [dict(copy.deepcopy(around), layers=items[i:j])]
        expected = copy.deepcopy(before)
        target = get(expected, path)
        inner = target[i:j]

        def confined(after):
            target[i:j] = [dict(get(after, path)[i], layers=inner)]
            return expected

        return confined, path + (i,)

    def unwrap(self, new, before, sites, around, rng):
        groups = [(items, path, i) for _, items, path, _ in sites for i, l in enumerate(items) if l["k"] == "group"]
        if not groups:
            return None
        items, path, i = rng.choice(groups)
        items[i:i + 1] = items[i]["layers"]
        expected = copy.deepcopy(before)
        target = get(expected, path)
        target[i:i + 1] = target[i]["layers"]
        return expected, path + (i,)

    def insert(self, other, donor, new, before, sites, kind, rng):
        givers = [s for s in lists(other) if s[0] == kind and s[1]]
        takers = [s for s in sites if s[0] == kind]
        if kind == "object":  # collision objects cannot be tiles everywhere
            givers = [s for s in givers if s[2][0] == "layers"]
            takers = [s for s in takers if s[2][0] == "layers"]
        if not givers or not takers:
            return None
        _, given, gpath, key = rng.choice(givers)
        _, items, path, _ = rng.choice(takers)
        i, j = rng.randrange(len(given)), rng.randrange(len(items) + 1)
        expected = copy.deepcopy(before)
        target = get(expected, path)
        part = copy.deepcopy(given[i])
        if key:
            if part[0].startswith("cls!") or any(p[0] == part[0] for p in items):
                return None
            target[part[0]] = get(donor, gpath)[part[0]]
        else:
            target.insert(j, copy.deepcopy(get(donor, gpath)[i]))
        items.insert(j, part)
        return expected, path + (j,)

    def world(self, case, env):
        def parse(maps):
            env.write({"w/x.world": json_bytes(world_json(dict(case["world"], maps=maps)))})
            return observe.world(parse_world(os.path.join(env.root, "w/x.world")))["maps"]

        maps = case["world"]["maps"]
        before = parse(maps)
        for op, seed in case["ops"][:2]:
            rng = random.Random(seed)
            if not maps:
                return
            i, j = rng.randrange(len(maps)), rng.randrange(len(maps) + 1)
            new, exp = list(maps), list(before)
            if op in ("remove", "empty"):
                del new[i], exp[i]
            else:
                new.insert(j, new[i])
                exp.insert(j, exp[i])
            check_diff(observe.diff(exp, parse(new)), f"world, {op} map {i}")

    def nontrivial(self, case):
        return any(len(s[2]) > 1 and s[1] for s in lists(case["doc"]))

    def classes(self, case):
        return [case["fmt"]] + sorted({op for op, _ in case["ops"]}) + project_classes(case["doc"])


PROP = C38()
