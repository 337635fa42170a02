import builtins
import io
import locale
import os
import sys

from hypothesis import strategies as st

from .. import gen, observe
from ..compare import compare_map
from ..core import Prop, check_diff, parse_map, parse_tileset, parse_world
from ..emit import Writer, to_bytes
from ..expect import Expect
from ..tree import json_bytes
from .c10 import drop_images
from .c14 import project_classes
from .c19 import world_maps

# External images lead to paths the library resolves on disk, and a process with an ASCII file
# system encoding cannot do that for other names: those stay ASCII here.
ASCII = st.sampled_from(["img/a.png", "../art/b.png", "c.png", "deep/er/d e.png", "./e.png", "UPPER.PNG"])


plain_open = io.open


def latin1_open(file, mode="r", buffering=-1, encoding=None, *args, **kw):
    """What open() does on a host whose default encoding is Latin-1."""
    if "b" not in mode and encoding in (None, "locale"):
        encoding = "latin-1"
    return plain_open(file, mode, buffering, encoding, *args, **kw)


@st.composite
def cases(draw):
    doc = draw(gen.project(hi=3, ts_hi=2, maxobj=4))
    for thing in [doc] + doc["tilesets"] + doc["templates"]:
        for key in ("dir", "file", "name"):
            if key in thing:
                thing[key] = "".join(c if c.isascii() else "_" for c in thing[key])
    for ts in doc["tilesets"]:
        if ts["ref"] != "embed":
            for im in [ts["def"].get("image")] + [t.get("image") for t in ts["def"].get("tiles", [])]:
                if im:
                    im["src"] = draw(ASCII)
    return {"doc": doc, "fmt": draw(st.sampled_from(["tmx", "json"])), "maps": draw(world_maps()), "decl": draw(st.booleans())}


class C22(Prop):
    id = "C22"
    rule = (
        "A case is a random project with arbitrary Unicode in names, classes, texts, property names and values, image and file "
        "paths, and a world; it is written as raw UTF-8 and as pure ASCII escapes, and both must parse to the reference model. "
        "Four of seven worker processes run in the C locale with UTF-8 mode off (preferred encoding ASCII), one with the file "
        "I/O default replaced by Latin-1, the others in C.UTF-8. File names are ASCII. Non-trivial: the files hold a non-ASCII "
        "character."
    )
    assumptions = ["Other host encodings are represented by ASCII (C locale) and a simulated Latin-1 default; file names themselves are ASCII."]
    quick = 220
    thorough = 9000

    def shard_env(self, shard):
        if shard < 4:
            return {"LC_ALL": "C", "LANG": "C", "PYTHONCOERCECLOCALE": "0", "PYTHONUTF8": "0"}
        return {"VF_LATIN1": "1"} if shard == 4 else {}

    def shard_flags(self, shard):
        if shard < 4:
            return ["-X", "utf8=0"]
        return []

    def setup(self, env):
        if os.environ.get("LC_ALL") == "C":
            name = locale.getpreferredencoding(False).upper()
            assert name in ("ANSI_X3.4-1968", "ASCII", "US-ASCII"), name
            assert not sys.flags.utf8_mode
        if os.environ.get("VF_LATIN1"):
            builtins.open = io.open = latin1_open

    def strategy(self, tier):
        return cases()

    def check(self, case, env):
        doc, fmt = case["doc"], case["fmt"]
        writer = Writer(doc, fmt)
        trees = writer.trees()
        for escape in ("", "ascii"):
            style = {"escape": escape, "decl": case["decl"]}
            how = "raw UTF-8" if not escape else "ASCII escapes"
            env.write({p: to_bytes(t, style) for p, t in trees.items()})
            parsed = parse_map(os.path.join(env.root, writer.map_path()))
            check_diff(compare_map(doc, env.root, fmt, writer, parsed), f"{fmt}, {how}")
            for i, ts in enumerate(doc["tilesets"]):
                if ts["ref"] != "embed":
                    alone = observe.tileset(parse_tileset(os.path.join(env.root, writer.ts_path(i))))
                    model = Expect(doc, env.root, fmt, writer).tileset(ts["def"], 1, None)
                    check_diff(observe.diff(drop_images(model), drop_images(alone), "tileset"), f"{how}, alone")
            env.write({"w/x.world": json_bytes({"maps": case["maps"], "patterns": []}, style)})
            world = parse_world(os.path.join(env.root, "w/x.world"))
            exp = [os.path.join(env.root, "w", m["fileName"]) for m in case["maps"]]
            check_diff(observe.diff([os.path.normpath(p) for p in exp], [os.path.normpath(str(m.map_file)) for m in world.maps], "world.maps"), how)

    def nontrivial(self, case):
        return any(b > 127 for t in Writer(case["doc"], case["fmt"]).trees().values() for b in to_bytes(t))

    def classes(self, case):
        return [case["fmt"]] + project_classes(case["doc"])


PROP = C22()
