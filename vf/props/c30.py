import os
import sys
import warnings

from hypothesis import strategies as st

from .. import gen, observe
from ..compare import compare_map
from ..core import Prop, check_diff, fail, parse_map, parse_tileset, parse_world
from ..emit import Writer, to_bytes
from ..expect import Expect
from ..mapprop import flat_layers
from ..tree import json_bytes
from .c10 import drop_images
from .c14 import project_classes
from .c19 import simple_worlds, world_json

MODES = [
    ("hash seed 1", [], {"PYTHONHASHSEED": "1"}),
    ("hash seed 4294967295", [], {"PYTHONHASHSEED": "4294967295"}),
    ("-O", ["-O"], {"PYTHONHASHSEED": "77"}),
    ("-OO", ["-OO"], {"PYTHONHASHSEED": "4242"}),
    ("-bb and warnings as errors", ["-bb"], {"PYTHONHASHSEED": "99"}),
    ("-X dev", ["-X", "dev"], {"PYTHONHASHSEED": "5"}),
    ("low digit limit", ["-X", "int_max_str_digits=640"], {"PYTHONHASHSEED": "123"}),
]


@st.composite
def cases(draw):
    doc = draw(gen.project(hi=3, ts_hi=3, maxobj=4))
    return {"doc": doc, "fmt": draw(st.sampled_from(["tmx", "json"])), "world": draw(simple_worlds())}


def names(props):
    return [p[0] for p in props or []]


def order(doc, parsed):
    """(what, expected order, observed order) of every dictionary that the file orders"""
    m = doc["map"]
    yield "map properties", names(m.get("props")), list(parsed.properties or {})
    first = [t["firstgid"] for t in doc["tilesets"] if t["ref"] != "tpl"]
    yield "tilesets", first, list(parsed.tilesets)[: len(first)]

    def visit(layers, got):
        for l, g in zip(layers, got):
            yield "layer properties", names(l.get("props")), list(g.properties or {})
            if l["k"] == "group":
                yield from visit(l["layers"], g.layers)
            for o, p in zip(l.get("objects", []), getattr(g, "tiled_objects", [])):
                if "template" not in o:
                    yield "object properties", names(o.get("props")), list(p.properties or {})

    yield from visit(m["layers"], parsed.layers)
    for t in doc["tilesets"]:
        if t["ref"] == "tpl":
            continue
        d, got = t["def"], parsed.tilesets[t["firstgid"]]
        yield "tileset properties", names(d.get("props")), list(got.properties or {})
        yield "tiles", [x["id"] for x in d.get("tiles", [])], list(got.tiles or {})
        for w, g in zip(d.get("wangsets", []), got.wang_sets or []):
            yield "wang tiles", [x[0] for x in w["tiles"]], list(g.wang_tiles)


class C30(Prop):
    id = "C30"
    rule = (
        "A case is a random project and world, parsed in seven worker processes with different interpreter settings (seven hash seeds, "
        "-O, -OO, -bb with warnings turned into errors, development mode, a low limit on integer digits) and compared with the reference model; the order of every dictionary that comes from a list in the file "
        "is compared with that list. Non-trivial: the project has a layer or a tileset."
    )
    quick = 300
    thorough = 14000

    def shard_env(self, shard):
        return MODES[shard % 7][2]

    def shard_flags(self, shard):
        return MODES[shard % 7][1]

    def strategy(self, tier):
        return cases()

    def check(self, case, env):
        doc, fmt = case["doc"], case["fmt"]
        writer = Writer(doc, fmt)
        env.write(writer.contents())
        env.write({"w/x.world": json_bytes(world_json(case["world"]))})
        strict = bool(sys.flags.bytes_warning)
        with warnings.catch_warnings():
            if strict:
                warnings.simplefilter("error")
            parsed = parse_map(os.path.join(env.root, writer.map_path()))
            alone = [(t, parse_tileset(os.path.join(env.root, writer.ts_path(i)))) for i, t in enumerate(doc["tilesets"]) if t["ref"] != "embed"]
            world = parse_world(os.path.join(env.root, "w/x.world"))
        check_diff(compare_map(doc, env.root, fmt, writer, parsed), fmt)
        for what, exp, obs in order(doc, parsed):
            exp, obs = [[x for x in xs if not str(x).startswith("cls!")] for xs in (exp, obs)]  # see expect.props
            if exp != obs:
                fail(f"{fmt}: {what} in the order {obs!r:.200} instead of {exp!r:.200}")
        for t, got in alone:
            model = Expect(doc, env.root, fmt, writer).tileset(t["def"], 1, None)
            check_diff(observe.diff(drop_images(model), drop_images(observe.tileset(got)), "tileset"), "alone")
        exp = [os.path.normpath(os.path.join(env.root, "w", m["fileName"])) for m in case["world"]["maps"]]
        got = [os.path.normpath(str(m.map_file)) for m in world.maps]
        if got[: len(exp)] != exp:
            fail(f"world maps {got!r:.200} instead of {exp!r:.200}")

    def nontrivial(self, case):
        return bool(case["doc"]["map"]["layers"] or case["doc"]["tilesets"])

    def classes(self, case):
        mode = next((name for name, flags, env in MODES if os.environ.get("PYTHONHASHSEED") == env["PYTHONHASHSEED"]), "?")
        return [mode + " " + case["fmt"]] + project_classes(case["doc"])


PROP = C30()
