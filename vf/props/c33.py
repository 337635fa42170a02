import copy
import os
import random
import re
import resource
from pathlib import Path

from hypothesis import strategies as st

from .. import gen
from ..compare import compare_map
from ..core import Prop, api, check_diff, describe, fail, outcome, parse_map
from ..emit import Writer, to_bytes
from ..mapprop import flat_layers
from ..tree import X
from .c14 import project_classes
from .c19 import simple_worlds, world_json

NUMBER = re.compile(r"-?\d+(\.\d+)?")
TEXTS = ["", " ", "0", "-1", "1e400", "nan", "inf", "99999999999999999999", "-2147483649", "4294967296", "0x10", "1.5", "true", "None", "x", "é", "\u0660", "1,2", ",", "1,,2",
         "0 0 1", "#", "#12", "#gggggg", "base64", "csv", "zlib", "gzip", "AAAA", "====", "eJw=", "..", "/", "a" * 3000, "\n", "objectgroup", "tilelayer", "group", "\u0000"]
VALUES = [None, True, False, 0, -1, 1, 2**31, 2**63, 10**30, -(10**30), 1.5, 1e308, float("inf"), float("nan"), [], {}, [[]], [None], {"a": 1}, [0, 0], "0"] + TEXTS
NOISE = [b"\x00", b"\xff", b"<", b">", b"&", b'"', b"{", b"}", b"[", b"]", b",", b":", b"-", b"0", b"9999", b"\xef\xbb\xbf", b"\xed\xa0\x80", b"\n", b"]]>", b"<!--", b"<![CDATA[",
         b"null", b"&#0;", b"&lt;", b"\\u", b"\\ud800", b"e9", b"=", b"/"]
EMPTY = ["", None, 0, [], {}, False]
SIZES = [0, -1, 65536, 2**31, 2**33, 10**9, 10**10, 10**11, 10**12, 10**16, 10**25]
SWEEPS = ["number", "number", "stretch", "stretch", "value", "value", "empty", "drop", "rename", "double", "swap", "move"]
STRAY = ["x", "!", ",", " ", "\u0660", "-", ".", "/", "\n", "=", "#", "1"]
OPS = ["number", "number", "number", "stretch", "stretch", "value", "value", "value", "empty", "drop", "rename", "double", "swap", "move", "bytes", "bytes", "slice"]


def damages():
    op = st.tuples(st.sampled_from(OPS), st.integers(0, 2**20), st.integers(0, 2**20)).map(list)
    return st.fixed_dictionaries({"file": st.sampled_from([0, 0, 0, 1, 2, 3, 4]), "ops": st.lists(op, min_size=1, max_size=4)})


@st.composite
def cases(draw):
    doc = draw(gen.project(hi=3, ts_hi=2, maxobj=3, twists=gen.SMALL))
    return {"doc": doc, "fmt": draw(st.sampled_from(["tmx", "json"])), "world": draw(simple_worlds()), "damages": draw(st.lists(damages(), min_size=1, max_size=3)), "sweeps": draw(st.lists(sweeps(), min_size=1, max_size=4))}


def sweeps():
    """One edit after the other to each of the names in a file"""
    return st.fixed_dictionaries({"file": st.sampled_from([0, 0, 0, 1, 2, 3, 4]), "op": st.sampled_from(SWEEPS), "seed": st.integers(0, 2**20)})


def spots(tree):
    """(container, key, label) of every value in a JSON or XML tree"""
    out = []
    if isinstance(tree, X):
        for n in tree.walk():
            out.extend((n.attrs, k, n.tag + "@" + k) for k in n.attrs)
            out.extend((n.kids, i, n.tag + "/" + n.kids[i].tag) for i in range(len(n.kids)))
            if n.text is not None:
                out.append((n, "text", n.tag + " text"))
        return out
    todo = [(tree, "")]
    while todo:
        v, name = todo.pop()
        for k in v if isinstance(v, dict) else range(min(len(v), 60)):
            below = k if isinstance(v, dict) else "#"
            out.append((v, k, name + "/" + below))
            if isinstance(v[k], (dict, list)):
                todo.append((v[k], below))
    return out


def get(node, k):
    return node.text if isinstance(node, X) else node[k]


def put(node, k, v):
    if isinstance(node, X):
        node.text = v if isinstance(v, str) else str(v)
    else:
        node[k] = v


def damage_tree(tree, op, a, b, only=None):
    all_ = spots(tree)
    if not all_:
        return
    if op == "number":
        all_ = [x for x in all_ if NUMBER.fullmatch(str(get(x[0], x[1]))[:20])] or all_
    elif op == "stretch":
        all_ = [x for x in all_ if isinstance(get(x[0], x[1]), str)] or all_
    labels = sorted({label for _, _, label in all_})
    if only is not None:
        all_ = [x for x in all_ if x[2] == labels[only % len(labels)]]
    elif a % 2:
        # every name is as likely, however often it occurs
        label = labels[a // 2 % len(labels)]
        all_ = [x for x in all_ if x[2] == label]
    node, k, _ = all_[a // 16 % len(all_)]
    xml = isinstance(tree, X)
    here = get(node, k)
    if op in ("value", "number", "empty") and isinstance(here, X):
        if op == "value":
            here.tag = ["layer", "tile", "object", "data", "image", "group", "x", "properties", "property", "chunk"][b % 10]
    elif op == "empty":
        put(node, k, "" if xml else copy.deepcopy(EMPTY[b % len(EMPTY)]))
    elif op == "value":
        put(node, k, TEXTS[b % len(TEXTS)] if xml else copy.deepcopy(VALUES[b % len(VALUES)]))
    elif op == "number" and not isinstance(here, (dict, list)):
        put(node, k, str(SIZES[b % len(SIZES)]) if xml else SIZES[b % len(SIZES)])
    elif op == "stretch":
        if isinstance(here, str):
            put(node, k, here * (1 + 400 // (len(here) + 1)) + STRAY[b % len(STRAY)])
    elif op == "drop":
        if isinstance(node, X):
            node.text = None
        else:
            del node[k]
    elif op == "rename":
        if isinstance(node, dict):
            keys = sorted({x for n, x, _ in spots(tree) if isinstance(n, dict)})
            node[keys[b % len(keys)]] = node.pop(k)
    elif op == "double":
        if isinstance(node, list):
            node.insert(k, copy.deepcopy(here))
    else:
        all_ = spots(tree)
        other, j, _ = all_[b % len(all_)]
        there = get(other, j)
        if xml and isinstance(here, X) != isinstance(there, X):
            return
        if op == "swap" and isinstance(here, (dict, list, X)) and isinstance(there, (dict, list, X)):
            here, there = copy.deepcopy(here), copy.deepcopy(there)
            put(node, k, there)
            if other is not node or j != k:
                put(other, j, here)
        else:
            put(node, k, copy.deepcopy(there))


def damage_bytes(data, op, a, b):
    rng = random.Random(b)
    at = a % (len(data) + 1)
    if op == "bytes":
        noise = rng.choice(NOISE)
        keep = at + rng.choice([0, 0, 1, len(noise)])
        return data[:at] + noise + data[keep:]
    start = rng.randrange(len(data) + 1)
    part = data[start : start + rng.choice([1, 7, 40, 400])]
    return data[:at] + part + data[at + rng.choice([0, len(part), 30]) :]


class C33(Prop):
    id = "C33"
    rule = (
        "A case is a random project and world in which one to three times one file (the map most often) is damaged by one to four edits: any value replaced by an odd or empty one, any number by "
        "a huge one, any text by hundreds of copies of itself with a stray end; keys, attributes and elements dropped, renamed, doubled, swapped or copied elsewhere; bytes inserted, "
        "overwritten or copied around; and then, one to four times, for each name in one file in turn something by that name is damaged. Every parse that reads "
        "it must end within the limit of 60 s and 4 GB with an object of its class or an exception derived from Exception, twice the same, and the sound "
        "files must parse to the reference model afterwards. Non-trivial: the edits changed the bytes of a file in use."
    )
    assumptions = ["An outcome counts as the same when the class and, for results, the representation are the same."]
    quick = 80
    thorough = 5000
    hang = 60

    def setup(self, env):
        resource.setrlimit(resource.RLIMIT_AS, (4 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))

    def strategy(self, tier):
        return cases()

    def project(self, case):
        writer = Writer(case["doc"], case["fmt"])
        trees = dict(writer.trees())
        trees["w/x.world"] = world_json(case["world"])
        used = {o["template"] for l in flat_layers(case["doc"]["map"]["layers"]) for o in l.get("objects", []) if "template" in o}
        names = [writer.map_path()] + [writer.ts_path(i) for i, t in enumerate(case["doc"]["tilesets"]) if t["ref"] != "embed"]
        names += [writer.tpl_path(i) for i in sorted(used)] + ["w/x.world"]
        return writer, trees, names

    def damaged(self, project, damage):
        _, trees, names = project
        name = names[0] if damage["file"] == 0 else names[damage["file"] % len(names)]
        tree = copy.deepcopy(trees[name])
        data = None
        for op, a, b in damage["ops"]:
            if op in ("bytes", "slice"):
                data = damage_bytes(to_bytes(tree) if data is None else data, op, a, b)
            elif data is None:
                damage_tree(tree, op, a, b)
        return name, to_bytes(tree) if data is None else data

    def all_damaged(self, project, case):
        for damage in case["damages"]:
            yield self.damaged(project, damage)
        _, trees, names = project
        for sweep in case["sweeps"]:
            rng = random.Random(sweep["seed"])
            name = names[0] if sweep["file"] == 0 else names[sweep["file"] % len(names)]
            for i in range(len({label for _, _, label in spots(trees[name])})):
                tree = copy.deepcopy(trees[name])
                damage_tree(tree, sweep["op"], rng.randrange(2**20), rng.randrange(2**20), only=i)
                yield name, to_bytes(tree)

    def check(self, case, env):
        project = writer, trees, _ = self.project(case)
        sound = writer.contents(trees)
        env.write(sound)
        for world_map in ("map_1_2.tmx", "1_2.tmx", "3-4.tmx", "map_x1_y2.json"):
            env.write({"w/" + world_map: b""})
        for name, data in self.all_damaged(project, case):
            if data == sound[name]:
                continue
            env.write({name: data})
            self.ends(writer, env, name)
            env.write({name: sound[name]})
        if case["damages"][0]["ops"][0][1] % 4 == 0:
            parsed = parse_map(os.path.join(env.root, writer.map_path()))
            check_diff(compare_map(case["doc"], env.root, case["fmt"], writer, parsed), "sound files after the damaged ones")

    def ends(self, writer, env, name):
        if name == "w/x.world":
            jobs = [("parse_world", name, "World")]
        else:
            jobs = [("parse_map", writer.map_path(), "TiledMap")]
            if name != writer.map_path():
                jobs.append(("parse_tileset", name, "Tileset"))
        for fn, rel, kind in jobs:
            ends = []
            for _ in range(2):
                how, value = outcome(getattr(api(), fn), Path(env.root, rel))
                if how == "raise":
                    if not isinstance(value, Exception) or isinstance(value, MemoryError):
                        fail(f"{fn} with damaged {name} raised {describe(value)}")
                    ends.append(type(value).__name__)
                else:
                    if type(value).__name__ != kind:
                        fail(f"{fn} with damaged {name} returned a {type(value).__name__}")
                    how, text = outcome(repr, value)
                    ends.append(text if how == "ok" else type(text).__name__)
            if ends[0] != ends[1]:
                fail(f"{fn} with damaged {name} ends differently the second time: {str(ends[0])[:200]} and {str(ends[1])[:200]}")

    def nontrivial(self, case):
        project = self.project(case)
        return any(to_bytes(project[1][name]) != data for name, data in self.all_damaged(project, case))

    def classes(self, case):
        return [case["fmt"]] + ["edit " + op[0] for d in case["damages"] for op in d["ops"]] + ["sweep " + s["op"] for s in case["sweeps"]] + project_classes(case["doc"])


PROP = C33()
