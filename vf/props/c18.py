import base64
import os
import random
from pathlib import Path

from hypothesis import strategies as st

from .. import gen, observe
from ..compare import used_template_tilesets
from ..core import Prop, api, check_diff, expect_raise, outcome, parse_map, parse_tileset, parse_world
from ..emit import Writer, compress, pack, to_bytes
from ..mapprop import flat_layers
from ..tree import X, json_bytes
from .c19 import simple_worlds, world_json


@st.composite
def template_projects(draw):
    """small projects whose objects surely use a template"""
    oids = gen.Ids()
    tilesets = draw(gen.tileset_refs(0, 1, ("ext", "tpl", "tpl"), rich=False))
    tpls = [draw(gen.template(0, len(tilesets), tilesets, tile=bool(tilesets)))]
    layer = {"k": "object", "name": "o", "id": 1, "objects": [draw(gen.instance(oids, tpls)) for _ in range(draw(st.integers(1, 2)))]}
    if draw(st.integers(0, 2)) == 0:
        layer = {"k": "group", "name": "g", "id": 2, "layers": [layer]}
    return {"dir": draw(st.sampled_from(gen.DIRS)), "name": "map", "map": gen.simple_header(layers=[layer]), "tilesets": tilesets, "templates": tpls}


@st.composite
def cases(draw):
    k = draw(st.sampled_from(["map", "map", "template", "template", "payload", "payload", "world"]))
    if k in ("map", "template"):
        doc = draw(gen.project(hi=2, ts_hi=2, maxobj=3, rich=draw(st.booleans()), twists=gen.SMALL) if k == "map" else template_projects())
        k = "map"
        return {"k": k, "doc": doc, "fmt": draw(st.sampled_from(["tmx", "json"])), "seed": draw(st.integers(0, 2**32)),
                "xml": {"indent": draw(st.sampled_from([None, " ", ""])), "decl": draw(st.booleans()), "final_eol": draw(st.booleans())},
                "json": {"indent": draw(st.sampled_from([None, " "])), "escape": draw(st.sampled_from(["", "ascii"])), "final_eol": draw(st.booleans())}}
    if k == "world":
        return {"k": k, "world": draw(simple_worlds()), "seed": draw(st.integers(0, 2**32))}
    infinite = draw(st.booleans())
    ids = gen.Ids()
    l = draw(gen.layer_base(ids, []))
    l["k"] = "tile"
    draw(gen.tile_layer(l, infinite, maxdim=draw(st.sampled_from([2, 5, 20])), big=True))
    kind = draw(st.sampled_from(["zlib", "gzip"]))
    l["enc"] = {"e": "base64", "c": kind, "lvl": draw(st.integers(0, 9))}
    if infinite and not l["chunks"]:
        l["chunks"] = [{"x": 0, "y": 0, "w": 2, "h": 2, "gids": draw(gen.gid_block(4))}]
    at = draw(st.integers(0, len(l["chunks"]) - 1)) if infinite else -1
    m = gen.simple_header(infinite=infinite, layers=[l])
    if draw(st.booleans()):
        m["layers"] = [dict(draw(gen.layer_base(ids, [])), k="group", layers=[l])]
    return {"k": k, "doc": {"dir": "", "name": "map", "map": m, "tilesets": [], "templates": []}, "fmt": draw(st.sampled_from(["tmx", "json"])),
            "seed": draw(st.integers(0, 2**32)), "at": at}


def cut_points(data, seed, n):
    """Positions that lose part of the document: all of them for small n=None, else the first
    and last ones, structural ones and random ones."""
    end = len(data.rstrip(b" \r\n\t"))
    if n is None:
        return range(end)
    rng = random.Random(seed)
    points = set(range(min(3, end))) | set(range(max(0, end - 4), end))
    marks = [i + 1 for i, c in enumerate(data[: end - 1]) if c in b">,]}\n"]
    points |= set(rng.sample(marks, min(len(marks), n // 2)))
    points |= {rng.randrange(end) for _ in range(n // 2)}
    multi = [i for i, c in enumerate(data[:end]) if c & 0xC0 == 0x80]
    points |= set(rng.sample(multi, min(2, len(multi))))
    return sorted(p for p in points if p < end)


class C18(Prop):
    id = "C18"
    rule = (
        "Cut cases: every file that a random TMX or JSON project is parsed from (map, external tilesets, templates in use and "
        "their tilesets, or a world) is cut at many byte positions (at 4 KB or less: every position in the thorough tier; "
        "otherwise first, last, structural, mid-character and random ones) and every parse that reads it must raise, with "
        "UnknownFormat for JSON maps and tilesets. The same holds when the file is followed by what is left of a longer one. Payload cases: the compressed tile data of a layer or chunk is cut at many "
        "lengths (must raise) or has a byte changed (must raise or give the original tiles). Every case also parses undamaged. "
        "Non-trivial: more than one file, a world with a map, or any payload case."
    )
    quick = 130
    thorough = 1500
    hang = 120
    tier = "quick"

    def strategy(self, tier):
        self.tier = tier
        return cases()

    def check(self, case, env):
        getattr(self, case["k"])(case, env)

    def points(self, data, seed):
        exhaustive = self.tier == "thorough" and len(data) <= 4000
        return cut_points(data, seed, None if exhaustive else 16)

    def map(self, case, env):
        doc, fmt = case["doc"], case["fmt"]
        writer = Writer(doc, fmt)
        trees = writer.trees()
        files = {p: to_bytes(t, case["xml"] if isinstance(t, X) else case["json"]) for p, t in trees.items()}
        env.write(files)
        path = os.path.join(env.root, writer.map_path())
        parse_map(path)
        unknown = (api().UnknownFormat,)
        needed, _ = used_template_tilesets(doc)
        read = {writer.map_path(): unknown if fmt == "json" else (Exception,)}
        for i, ts in enumerate(doc["tilesets"]):
            if ts["ref"] == "ext":
                read[writer.ts_path(i)] = unknown if writer.ts_fmt(ts) == "json" else (Exception,)
            elif i in needed:
                read[writer.ts_path(i)] = (Exception,)
        for l in flat_layers(doc["map"]["layers"]):
            for o in l.get("objects", []):
                if "template" in o:
                    read[writer.tpl_path(o["template"])] = (Exception,)
        tilesets = {writer.ts_path(i): writer.ts_fmt(ts) for i, ts in enumerate(doc["tilesets"]) if ts["ref"] != "embed"}
        for rel, types in read.items():
            data = files[rel]
            for n in self.points(data, case["seed"]):
                env.write({rel: data[:n]})
                expect_raise(api().parse_map, Path(path), types=types, what=f"parse_map of a {fmt} map with {rel} cut at byte {n} of {len(data)}")
                if rel in tilesets:
                    expect_raise(api().parse_tileset, Path(env.root, rel), types=unknown if tilesets[rel] == "json" else (Exception,),
                                 what=f"parse_tileset of {rel} cut at byte {n} of {len(data)}")
            for n, junk in self.leftovers(data, tuple(files.values()), case["seed"]):
                env.write({rel: junk})
                expect_raise(api().parse_map, Path(path), types=types, what=f"parse_map of a {fmt} map with {rel} over {n} more bytes of an older file")
            env.write({rel: data})

    def leftovers(self, data, others, seed):
        """the file written over the start of a longer one, whose end is left"""
        rng = random.Random(seed)
        for _ in range(4):
            old = rng.choice(others)
            tail = old[-rng.choice([1, 2, 5, 20, rng.randrange(1, len(old) + 1)]) :]
            if tail.rstrip().endswith((b"-->", b"?>")):
                continue  # may be a comment
            tail = rng.choice([b"", b"\n", b" \n"]) + tail
            if rng.random() < 0.5:
                tail = tail.rstrip() + rng.choice([b"\x00", b"]", b"}", b">", b"\x00" * 600])
            if tail.strip():
                yield len(tail), data.rstrip() + tail

    def world(self, case, env):
        data = json_bytes(world_json(case["world"]))
        path = os.path.join(env.root, "w.world")
        env.write({"w.world": data})
        parse_world(path)
        for n in self.points(data, case["seed"]):
            env.write({"w.world": data[:n]})
            expect_raise(api().parse_world, Path(path), what=f"parse_world of a world cut at byte {n} of {len(data)}")
        for n, junk in self.leftovers(data, (data,), case["seed"]):
            env.write({"w.world": junk})
            expect_raise(api().parse_world, Path(path), what=f"parse_world of a world over {n} more bytes of an older file")

    def payload(self, case, env):
        fmt, doc = case["fmt"], case["doc"]
        layer = [l for l in flat_layers(doc["map"]["layers"]) if l["k"] == "tile"][0]
        writer = Writer(doc, fmt)
        tree = writer.map_tmx() if fmt == "tmx" else writer.map_json()
        path = os.path.join(env.root, writer.map_path())
        env.write({writer.map_path(): to_bytes(tree)})
        base = observe.map_(parse_map(path))
        at = case["at"]
        gids = layer["gids"] if at < 0 else layer["chunks"][at]["gids"]
        raw = compress(pack(gids), layer["enc"]["c"], layer["enc"]["lvl"])
        rng = random.Random(case["seed"])
        small = self.tier == "thorough" and len(raw) < 300
        cuts = range(1, len(raw)) if small else sorted({1, len(raw) - 1, len(raw) - 4, len(raw) - 8} | {rng.randrange(1, len(raw)) for _ in range(8)})
        flips = [(i, 1 << rng.randrange(8)) for i in (range(len(raw)) if small else {rng.randrange(len(raw)) for _ in range(8)})]
        what = f"{fmt} map with {layer['enc']['c']} tile data of {len(raw)} bytes"
        for n in cuts:
            self.put(tree, fmt, at, raw[:n])
            env.write({writer.map_path(): to_bytes(tree)})
            expect_raise(api().parse_map, Path(path), what=f"{what} cut after {n}")
        for i, bit in flips:
            changed = bytearray(raw)
            changed[i] ^= bit
            self.put(tree, fmt, at, bytes(changed))
            env.write({writer.map_path(): to_bytes(tree)})
            kind, value = outcome(api().parse_map, Path(path))
            if kind == "ok":
                check_diff(observe.diff(base, observe.map_(value)), f"{what} with byte {i} changed")

    def put(self, tree, fmt, at, raw):
        text = base64.b64encode(raw).decode()
        if fmt == "tmx":
            data = [n for n in tree.walk() if n.tag == "data"][0]
            (data.kids[at] if at >= 0 else data).text = text
        else:
            layers = tree["layers"]
            l = layers[0]["layers"][0] if layers[0]["type"] == "group" else layers[0]
            if at >= 0:
                l["chunks"][at]["data"] = text
            else:
                l["data"] = text

    def nontrivial(self, case):
        if case["k"] == "map":
            return len(case["doc"]["tilesets"]) + len(case["doc"]["templates"]) > 0
        return case["k"] == "payload" or bool(case["world"]["maps"])

    def classes(self, case):
        if case["k"] == "map":
            out = [f"cut {case['fmt']} project"]
            out += ["cut tileset"] * any(t["ref"] == "ext" for t in case["doc"]["tilesets"])
            out += ["cut template"] * any("template" in o for l in flat_layers(case["doc"]["map"]["layers"]) for o in l.get("objects", []))
            return out
        if case["k"] == "world":
            return ["cut world"]
        layer = [l for l in flat_layers(case["doc"]["map"]["layers"]) if l["k"] == "tile"][0]
        return [f"damaged {layer['enc']['c']} {'chunk' if case['at'] >= 0 else 'layer'} in {case['fmt']}"]


PROP = C18()
