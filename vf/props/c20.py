import os
import random

from hypothesis import strategies as st

from .. import gen, observe
from ..compare import compare_map, used_template_tilesets
from ..core import Prop, Violation, api, check_diff, expect_raise, fail, parse_map, parse_tileset, parse_world
from ..emit import Writer, to_bytes
from ..expect import Expect
from ..mapprop import flat_layers
from ..tree import json_bytes

BLOCK = 16384


@st.composite
def cases(draw):
    doc = draw(gen.project(hi=2, ts_hi=2, maxobj=3, fmts=("same",)))
    for i, t in enumerate(doc["tilesets"]):
        t["def2"] = draw(gen.tileset_def(mark=i))
    for t in doc["templates"]:
        new = dict(draw(gen.template(0, 0, [])), ts=t.get("ts"))["obj"]
        new["shape"] = dict(t["obj"]["shape"])
        if new["shape"]["k"] == "tile":
            j = doc["tilesets"][t["ts"]]
            low = min(gen.span(j["def"]), gen.span(j["def2"]))
            new["shape"]["gid"] = draw(st.integers(1, low))
            # both versions designate a tile of both versions of the tileset
            flags = t["obj"]["shape"]["gid"] & 0xF0000000
            t["obj"]["shape"]["gid"] = min(t["obj"]["shape"]["gid"] & 0x0FFFFFFF, low) | flags
        t["obj2"] = new
    maps = []
    for i in range(2):
        ids, oids = gen.Ids(), gen.Ids()
        objs = gen.objects(oids)
        if doc["templates"]:
            objs = st.one_of(objs, gen.instance(oids, doc["templates"]))
        versions = [doc["map"]] if i == 0 else []
        while len(versions) < 2:
            m = draw(gen.map_header(infinite=draw(st.booleans())))
            m["layers"] = draw(gen.layers(ids, oids, m["infinite"], 1, 0, 2, objs=objs, maxobj=3))
            versions.append(m)
        maps.append({"versions": versions, "dir": doc["dir"] if i == 0 else draw(st.sampled_from(["second", "maps/b", doc["dir"] or "x"])),
                     "fmt": draw(st.sampled_from(["tmx", "json"])), "name": "map" if i == 0 else draw(st.sampled_from(["map", "map", "other"]))})
    if (maps[0]["dir"], maps[0]["name"], maps[0]["fmt"]) == (maps[1]["dir"], maps[1]["name"], maps[1]["fmt"]):
        maps[1]["name"] = "other"
    n, m = len(doc["tilesets"]), len(doc["templates"])
    targets = ["map0", "map1", "world", "file"] + ["ts%d" % i for i in range(n)] * 2 + ["tpl%d" % i for i in range(m)] * 2
    parse = st.fixed_dictionaries({"op": st.just("parse"), "what": st.sampled_from(["map0", "map0", "map1", "world"] + ["ts%d" % i for i in range(n)]),
                                   "how": st.sampled_from(["abs", "abs", "abs", "rel"])})
    edit = st.fixed_dictionaries({"op": st.just("edit"), "what": st.sampled_from(targets), "stat": st.booleans()})
    mutate = st.fixed_dictionaries({"op": st.just("mutate"), "which": st.integers(0, 9), "seed": st.integers(0, 2**16)})
    broken = st.fixed_dictionaries({"op": st.just("break"), "map": st.integers(0, 1), "file": st.integers(0, 9), "mode": st.sampled_from(["cut", "delete"]), "stat": st.booleans()})
    ops = draw(st.lists(st.one_of(parse, parse, edit, edit, mutate, broken), min_size=2, max_size=14))
    ops.insert(0, {"op": "parse", "what": "map0", "how": "abs"})
    ops.append({"op": "parse", "what": draw(st.sampled_from(["map0", "map1"])), "how": "abs"})
    return {"tilesets": doc["tilesets"], "templates": doc["templates"], "maps": maps, "ops": ops}


def members(value):
    if isinstance(value, dict):
        return list(value.items())
    if isinstance(value, (list, tuple, set, frozenset)):
        return list(enumerate(value))
    if observe.is_model(value):
        return [(k, v) for k, v in observe.fields(value) if not k.startswith(("_", "new_tileset"))]
    return []


def mutable(value):
    return isinstance(value, (list, dict, set)) or observe.is_model(value)


def walk(value, path, visit):
    todo = [(value, path)]
    while todo:
        v, p = todo.pop()
        if mutable(v) and visit(v, p) is False:
            continue
        for key, child in members(v):
            if not isinstance(child, (str, bytes, int, float, type(None))):
                todo.append((child, p + (key,)))


def shared_parts(results):
    """A mutable object that two places of the results have in common."""
    seen = {}
    for name, result in results:
        found = []

        def visit(v, p):
            where = name + "".join("[%r]" % k if not isinstance(k, str) else "." + k for k in p)
            if id(v) in seen:
                found.append(f"{where} is the same {type(v).__name__} as {seen[id(v)]}")
                return False
            seen[id(v)] = where
            return True

        walk(result, (), visit)
        if found:
            return found[0]
    return None


def mutate(result, seed):
    rng = random.Random(seed)
    parts = []
    walk(result, (), lambda v, p: parts.append(v))
    for v in parts:
        if rng.random() < 0.6:
            continue
        if isinstance(v, dict):
            if rng.random() < 0.5:
                v.clear()
            v["mutated"] = rng.random()
        elif isinstance(v, list):
            if v and rng.random() < 0.5:
                v.pop()
            else:
                v.append("mutated")
        elif not isinstance(v, set):
            for key, _ in observe.fields(v):
                if rng.random() < 0.3:
                    try:
                        setattr(v, key, "mutated")
                    except AttributeError:
                        pass


class C20(Prop):
    id = "C20"
    rule = (
        "A case is a history over two maps (TMX or JSON, possibly of the same name in different directories) that share tilesets "
        "and templates, and a world: parse a map, tileset or world (by absolute or relative path), rewrite a file with its other "
        "version (half of the time with the same size and time stamp), parse while a file is cut off or missing, and modify a returned "
        "object in place. Every parse must equal the reference model of the files as they are then; all earlier results must stay "
        "as they were, and no two places of any results may share a mutable object. Non-trivial: a parse follows an edit, a failed "
        "parse or a modification, after an earlier parse."
    )
    quick = 150
    thorough = 8000
    hang = 60

    def strategy(self, tier):
        return cases()

    # -- the state of the files
    def doc(self, k):
        m = self.case["maps"][k]
        return {
            "dir": m["dir"], "name": m["name"], "map": m["versions"][self.v["map%d" % k]],
            "tilesets": [dict(t, **{"def": t["def2"]}) if self.v["ts%d" % i] else t for i, t in enumerate(self.case["tilesets"])],
            "templates": [dict(t, obj=t["obj2"]) if self.v["tpl%d" % i] else t for i, t in enumerate(self.case["templates"])],
        }

    def files(self):
        out = {}
        for k, m in enumerate(self.case["maps"]):
            for p, t in Writer(self.doc(k), m["fmt"]).trees().items():
                out[p] = to_bytes(t)
        w = {"maps": [{"fileName": "m%d.tmx" % self.v["world"], "x": self.v["world"], "y": 2, "width": 3, "height": 4}],
             "patterns": [{"regexp": r"p(\d+)_(\d+)\.tmx", "multiplierX": 10, "multiplierY": 20}]}
        out["w/x.world"] = json_bytes(w)
        out["w/p1_2.tmx"] = b""
        if self.v["file"]:
            out["w/p3_4.tmx"] = b""
        return {p: d + b"\n" * (-len(d) % BLOCK if d else 0) for p, d in out.items()}

    def sync(self, env, stat):
        new = self.files()
        for p, data in new.items():
            if self.disk.get(p) != data:
                self.put(env, p, data, stat)
        for p in [p for p in self.disk if p not in new]:
            os.remove(os.path.join(env.root, p))
        self.disk = new

    def put(self, env, rel, data, stat):
        full = os.path.join(env.root, rel)
        before = os.stat(full) if os.path.exists(full) else None
        env.write({rel: data})
        if stat and before is not None:
            os.utime(full, ns=(before.st_atime_ns, before.st_mtime_ns))

    # -- operations
    def parse(self, what, how, env):
        if what == "world":
            target = os.path.join(env.root, "w/x.world")
            fn = parse_world
        elif what.startswith("map"):
            k = int(what[3:])
            target = os.path.join(env.root, Writer(self.doc(k), self.case["maps"][k]["fmt"]).map_path())
            fn = parse_map
        else:
            i = int(what[2:])
            if self.case["tilesets"][i]["ref"] == "embed":
                return None
            target = os.path.join(env.root, Writer(self.doc(0), self.case["maps"][0]["fmt"]).ts_path(i))
            fn = parse_tileset
        old = os.getcwd()
        try:
            if how == "rel":
                os.chdir(os.path.dirname(target))
                target = os.path.basename(target)
            result = fn(target)
            if what == "world":
                folder = os.path.join(env.root, "w")
                v = self.v["world"]
                maps = [("m%d.tmx" % v, 3, 4, v, 2), ("p1_2.tmx", 10, 20, 10, 40)] + [("p3_4.tmx", 10, 20, 30, 80)] * self.v["file"]
                exp = [{"map_file": os.path.join(folder, n), "size": ("size", w, h), "coordinates": ("pair", x, y)} for n, w, h, x, y in maps]
                got = [dict(m, map_file=os.path.abspath(str(m["map_file"][1]))) for m in observe.world(result)["maps"]]
                got[1:] = sorted(got[1:], key=lambda m: m["map_file"])
                problems = observe.diff(exp, got, "maps")
            elif what.startswith("map"):
                problems = compare_map(self.doc(k), env.root, self.case["maps"][k]["fmt"], Writer(self.doc(k), self.case["maps"][k]["fmt"]), result, ignore=("map_file",))
            else:
                from .c10 import drop_images

                doc = self.doc(0)
                ex = Expect(doc, env.root, self.case["maps"][0]["fmt"], Writer(doc, self.case["maps"][0]["fmt"]))
                problems = observe.diff(drop_images(ex.tileset(doc["tilesets"][i]["def"], 1, None)), drop_images(observe.tileset(result)), "tileset")
        finally:
            os.chdir(old)
        check_diff(problems, f"step {self.step}, parsing {what}")
        return result

    def snapshot(self, what, result):
        return (observe.world if what == "world" else observe.map_ if what.startswith("map") else observe.tileset)(result)

    def reads(self, k):
        """Files that parsing map k certainly reads."""
        doc, fmt = self.doc(k), self.case["maps"][k]["fmt"]
        w = Writer(doc, fmt)
        needed, _ = used_template_tilesets(doc)
        out = [w.map_path()] + [w.ts_path(i) for i, t in enumerate(doc["tilesets"]) if t["ref"] == "ext" or (t["ref"] == "tpl" and i in needed)]
        for l in flat_layers(doc["map"]["layers"]):
            out += [w.tpl_path(o["template"]) for o in l.get("objects", []) if "template" in o]
        return w.map_path(), sorted(set(out))

    def check(self, case, env):
        from pathlib import Path

        self.case = case
        self.v = {"map0": 0, "map1": 0, "world": 0, "file": 0}
        self.v.update({"ts%d" % i: 0 for i in range(len(case["tilesets"]))})
        self.v.update({"tpl%d" % i: 0 for i in range(len(case["templates"]))})
        self.disk = {}
        self.sync(env, False)
        kept = []  # [name, what, result, snapshot]
        for self.step, op in enumerate(case["ops"]):
            if op["op"] == "edit":
                self.v[op["what"]] ^= 1
                self.sync(env, op["stat"])
            elif op["op"] == "parse":
                result = self.parse(op["what"], op["how"], env)
                if result is None:
                    continue
                kept.append([f"result {self.step} ({op['what']})", op["what"], result, self.snapshot(op["what"], result)])
                problem = shared_parts([(name, r) for name, _, r, _ in kept])
                if problem:
                    fail(f"step {self.step}: {problem}")
            elif op["op"] == "break":
                path, files = self.reads(op["map"])
                rel = files[op["file"] % len(files)]
                full = os.path.join(env.root, rel)
                before = os.stat(full)
                if op["mode"] == "delete":
                    os.remove(full)
                else:
                    data = self.disk[rel].rstrip()[:-1]
                    self.put(env, rel, data + b" " * (len(self.disk[rel]) - len(data)), op["stat"])
                expect_raise(api().parse_map, Path(env.root, path), what=f"step {self.step}: parse_map with {rel} {op['mode']}")
                env.write({rel: self.disk[rel]})
                if op["stat"]:
                    os.utime(full, ns=(before.st_atime_ns, before.st_mtime_ns))
            elif kept:
                entry = kept.pop(op["which"] % len(kept))
                mutate(entry[2], op["seed"])
                for name, what, result, snap in kept:
                    try:
                        problems = observe.diff(snap, self.snapshot(what, result))
                    except Exception as exc:
                        raise Violation(f"step {self.step}: {name} changed by modifying {entry[0]} ({exc!r})") from exc
                    check_diff(problems, f"step {self.step}: {name} changed by modifying {entry[0]}")
        for name, what, result, snap in kept:
            check_diff(observe.diff(snap, self.snapshot(what, result)), f"{name} changed later")

    def nontrivial(self, case):
        seen = dirty = False
        for op in case["ops"]:
            if op["op"] == "parse":
                if dirty:
                    return True
                seen = True
            elif seen:
                dirty = True
        return False

    def classes(self, case):
        out = [o["op"] for o in case["ops"]]
        out += ["edit " + o["what"].rstrip("0123456789") for o in case["ops"] if o["op"] == "edit"]
        out += ["edit keeping size and time"] * any(o.get("stat") and o["op"] == "edit" for o in case["ops"])
        out += ["two maps of one name"] * (case["maps"][0]["name"] == case["maps"][1]["name"])
        return sorted(set(out))


PROP = C20()
