import base64
import os
import random
import re
from pathlib import Path

from hypothesis import strategies as st

from .. import gen, observe
from ..core import Prop, api, check_diff, expect_raise, fail, parse_map
from ..emit import Writer, to_bytes
from ..tree import X

UNKNOWN_TYPES = ["tilelayer2", "voxellayer", "", "Tilelayer", "layer", "objectlayer", "map", "imagelayer ", "групп", "TILELAYER", "tile", "group2"]
UNKNOWN_TAGS = ["videolayer", "Layer", "objectGroup", "layers", "image", "future", "object", "tile", "chunk", "group2"]


COMPRESSIONS = ["lzma", "bz2", "lz4", "ZLIB", "GZip", "zlib ", "deflate", "snappy", "br", "zlib2", "zstd2", "0", " ", "é"]


@st.composite
def cases(draw):
    k = draw(st.sampled_from(["json layer", "json layer", "tmx element", "tmx element", "template", "zstd", "compression", "imageless"]))
    if k in ("json layer", "tmx element"):
        doc = draw(gen.project(hi=3, ts_hi=1, maxobj=2, depth=3, templates=False))
        where = draw(st.integers(0, 2**16))
        if k == "json layer":
            return {"k": k, "doc": doc, "where": where, "type": draw(st.sampled_from(UNKNOWN_TYPES)), "like": draw(st.sampled_from(["bare", "replace", "full"]))}
        return {"k": k, "doc": doc, "where": where, "tag": draw(st.sampled_from(UNKNOWN_TAGS)), "n": draw(st.integers(1, 4)),
                "content": draw(st.sampled_from(["empty", "layer", "text"]))}
    if k == "template":
        fmt = draw(st.sampled_from(["tmx", "json"]))
        tilesets = draw(gen.tileset_refs(0, 1, ("ext", "tpl"), ("tmx", "json"), rich=False))
        tpl = draw(gen.template(0, len(tilesets), tilesets))
        tpl["fmt"] = "json" if fmt == "tmx" else "tmx"
        tpl["file_ext"] = draw(st.sampled_from(["tx", "json", "tj", "xml"]))
        ids, oids = gen.Ids(), gen.Ids()
        depth = draw(st.integers(0, 3))
        inst = draw(gen.instance(oids, [tpl]))
        others = [draw(gen.objects(oids)) for _ in range(draw(st.integers(0, 2)))]
        at = draw(st.integers(0, len(others)))
        l = dict(draw(gen.layer_base(ids, [])), k="object", objects=others[:at] + [inst] + others[at:])
        for _ in range(depth):
            l = dict(draw(gen.layer_base(ids, [])), k="group", layers=[l])
        m = gen.simple_header(infinite=draw(st.booleans()), layers=[l])
        return {"k": k, "fmt": fmt, "doc": {"dir": draw(st.sampled_from(gen.DIRS)), "name": "map", "map": m, "tilesets": tilesets, "templates": [tpl]}}
    if k == "imageless":
        doc = draw(gen.project(hi=3, ts_hi=1, maxobj=2, depth=3, templates=False))
        return {"k": k, "fmt": "tmx", "doc": doc, "where": draw(st.integers(0, 2**16)), "content": draw(st.sampled_from(["empty", "props", "nested", "other"]))}
    infinite = draw(st.booleans())
    ids = gen.Ids()
    l = draw(gen.layer_base(ids, []))
    l["k"] = "tile"
    draw(gen.tile_layer(l, infinite, maxdim=4))
    l["enc"] = {"e": "base64", "c": "zstd" if k == "zstd" else draw(st.sampled_from(COMPRESSIONS))}
    if infinite and not l["chunks"]:
        l["chunks"] = [{"x": 0, "y": 0, "w": 2, "h": 2, "gids": [1, 2, 3, 4]}]
    for _ in range(draw(st.integers(0, 2))):
        l = dict(draw(gen.layer_base(ids, [])), k="group", layers=[l])
    m = gen.simple_header(infinite=infinite, layers=[l])
    return {"k": k, "fmt": draw(st.sampled_from(["tmx", "json"])), "doc": {"dir": "", "name": "map", "map": m, "tilesets": [], "templates": []},
            "payload": draw(st.sampled_from(["plain", "frame"]))}


class C27(Prop):
    id = "C27"
    rule = (
        "Six kinds of cases on random projects: a JSON layer of unknown type (added or in place of another one) at any place of the "
        "layer tree must raise RuntimeError; unknown elements among the layers of a TMX map or of its groups must change "
        "nothing; an object from a template of the other format, at any depth, must raise NotImplementedError; zstd tile data of a "
        "layer or chunk must raise an error that names zstd in itself or its causes; tile data in a compression nobody knows must raise; a TMX image layer without an image, at any place, must raise RuntimeError. "
        "Non-trivial: the layer tree is not empty."
    )
    quick = 450
    thorough = 24000

    def strategy(self, tier):
        return cases()

    def check(self, case, env):
        getattr(self, case["k"].replace(" ", "_"))(case, env)

    def write(self, env, writer, trees):
        env.write(writer.contents(trees))
        return Path(env.root, writer.map_path())

    def json_layer(self, case, env):
        writer = Writer(case["doc"], "json")
        trees = writer.trees()
        path = self.write(env, writer, trees)
        parse_map(path)
        rng = random.Random(case["where"])
        lists = []

        def visit(layers):
            lists.append(layers)
            for l in layers:
                if l["type"] == "group":
                    visit(l["layers"])

        visit(trees[writer.map_path()]["layers"])
        layers = rng.choice(lists)
        if case["like"] == "replace" and layers:
            rng.choice(layers)["type"] = case["type"]
        else:
            new = {"type": case["type"], "id": 999, "name": "new"}
            if case["like"] == "full":
                new.update(x=0, y=0, width=1, height=1, opacity=1, visible=True, data=[1], objects=[], layers=[], image="x.png")
            layers.insert(rng.randrange(len(layers) + 1), new)
        path = self.write(env, writer, trees)
        expect_raise(api().parse_map, path, types=(RuntimeError,), what=f"JSON map with a layer of type {case['type']!r}")

    def tmx_element(self, case, env):
        writer = Writer(case["doc"], "tmx")
        trees = writer.trees()
        path = self.write(env, writer, trees)
        base = observe.map_(parse_map(path))
        rng = random.Random(case["where"])
        holders = [n for n in trees[writer.map_path()].walk() if n.tag in ("map", "group")]
        for _ in range(case["n"]):
            holder = rng.choice(holders)
            tag = case["tag"]
            attrs = {"id": "998", "name": "ghost"}
            if case["content"] == "empty":
                new = X(tag, attrs)
            elif case["content"] == "text":
                new = X(tag, attrs, text="1,2,3")
            else:
                new = X(tag, dict(attrs, width="1", height="1"), [X("data", {"encoding": "csv"}, text="1"), X("layer", attrs), X("objectgroup", attrs), X("group", attrs)])
            holder.kids.insert(rng.randrange(len(holder.kids) + 1), new)
        path = self.write(env, writer, trees)
        check_diff(observe.diff(base, observe.map_(parse_map(path))), f"<{case['tag']}> among the layers")

    def template(self, case, env):
        writer = Writer(case["doc"], case["fmt"])
        path = self.write(env, writer, writer.trees())
        expect_raise(api().parse_map, path, types=(NotImplementedError,), what=f"{case['fmt']} map with a template of the other format")

    def zstd(self, case, env):
        writer = Writer(case["doc"], case["fmt"])
        trees = writer.trees()
        if case["payload"] == "frame":
            # what a zstd compressor would store, as far as its magic number goes
            magic = base64.b64encode(bytes.fromhex("28b52ffd2000")).decode()

            def patch(node):
                if isinstance(node, X):
                    for n in node.walk():
                        if n.tag in ("data", "chunk") and n.text:
                            n.text = magic + n.text
                elif isinstance(node, dict):
                    for key, v in node.items():
                        if key == "data" and isinstance(v, str):
                            node[key] = magic + v
                        else:
                            patch(v)
                elif isinstance(node, list):
                    for v in node:
                        patch(v)

            patch(trees[writer.map_path()])
        path = self.write(env, writer, trees)
        exc = expect_raise(api().parse_map, path, what=f"{case['fmt']} map with zstd tile data")
        chain, e = [], exc
        while e is not None and e not in chain:
            chain.append(e)
            e = e.__cause__ or e.__context__
        if not any(re.search("zstd|zstandard", f"{type(e).__name__} {e}", re.I) for e in chain):
            fail(f"{case['fmt']} map with zstd tile data raised {exc!r}, which does not name zstd")

    def imageless(self, case, env):
        writer = Writer(case["doc"], "tmx")
        trees = writer.trees()
        rng = random.Random(case["where"])
        holder = rng.choice([n for n in trees[writer.map_path()].walk() if n.tag in ("map", "group")])
        image = X("image", {"source": "a.png", "width": "1", "height": "1"})
        kids = {"empty": [], "props": [X("properties", {}, [X("property", {"name": "image", "value": "a.png"})])],
                "nested": [X("data", {}, [image])], "other": [X("Image", {"source": "a.png"}), X("img", {"source": "a.png"})]}[case["content"]]
        holder.kids.insert(rng.randrange(len(holder.kids) + 1), X("imagelayer", {"id": "997", "name": "bare"}, kids))
        path = self.write(env, writer, trees)
        expect_raise(api().parse_map, path, types=(RuntimeError,), what="TMX map with an image layer without an image")

    def compression(self, case, env):
        writer = Writer(case["doc"], case["fmt"])
        path = self.write(env, writer, writer.trees())
        expect_raise(api().parse_map, path, what=f"{case['fmt']} map with tile data in an unknown compression")

    def nontrivial(self, case):
        return bool(case["doc"]["map"]["layers"])

    def classes(self, case):
        return [case["k"] + (" in " + case["fmt"] if "fmt" in case else "")]


PROP = C27()
