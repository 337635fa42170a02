import os
import posixpath
import shutil
from pathlib import Path

from hypothesis import strategies as st

from .. import gen, observe
from ..compare import compare_map
from ..core import Prop, call, check_diff, api, fail
from ..emit import Writer, to_bytes
from .c10 import IMAGES
from .c14 import project_classes
from .c19 import PATTERNS, matching, simple_worlds, usable, world_json
from ..tree import json_bytes

BASES = ["a", "new place/é", "deep/er/and deeper/x", "a/maps/data", "日本", "x.tmx", "with#hash%20", "..x"]
HOWS = ["abs", "abs", "rel-map", "rel-root", "rel-other", "dots", "link", "double"]


@st.composite
def cases(draw):
    doc = draw(gen.project(hi=2, ts_hi=3, maxobj=3))
    for ts in doc["tilesets"]:
        for im in [ts["def"].get("image")] + [t.get("image") for t in ts["def"].get("tiles", [])]:
            if im and draw(st.booleans()):
                im["src"] = draw(IMAGES.filter(lambda p: not p.startswith("link")))
    world = draw(simple_worlds())
    names = []
    for p in world["patterns"]:
        form = PATTERNS[p["p"]][1]
        names += [form.format(x=draw(st.integers(0, 99)), y=draw(st.integers(0, 99)))] if form else ["level12345.tmx"]
    places = [{"base": draw(st.sampled_from(BASES)), "how": draw(st.sampled_from(HOWS)), "move": draw(st.booleans())} for _ in range(draw(st.integers(1, 3)))]
    if draw(st.integers(0, 7)) == 7:  # references that start with a tilde, with nothing before them
        doc["dir"] = ""
        for t in [t for t in doc["tilesets"] if t["ref"] != "embed"] + doc["templates"]:
            t["dir"] = posixpath.join("~", t["dir"]) if not t["dir"].startswith("~") else t["dir"]
        places[-1]["how"] = "rel-map"
    return {"doc": doc, "fmt": draw(st.sampled_from(["tmx", "json"])), "world": world, "names": usable(world, sorted(set(names))), "places": places}


class C21(Prop):
    id = "C21"
    rule = (
        "A case is a random project and a world, put into one to three directories in turn (copied, or moved after having been "
        "parsed) and parsed there by absolute path, by paths relative to the map's directory, the root or another directory, "
        "through '..', doubled slashes and a symbolic link to the tree. Each result must equal the reference model of that place: "
        "map_file as given, tileset image paths absolute and below the new place, everything else as written. Non-trivial: an "
        "external tileset, template or world map is there, and a place is not by plain absolute path or there are several."
    )
    quick = 240
    thorough = 12000

    def strategy(self, tier):
        return cases()

    def check(self, case, env):
        doc, fmt = case["doc"], case["fmt"]
        writer = Writer(doc, fmt)
        files = {"proj/" + p: data for p, data in writer.contents().items()}
        files["proj/w/x.world"] = json_bytes(world_json(case["world"]))
        for name in case["names"]:
            files["proj/w/" + name] = b""
        top, old = env.root, os.getcwd()
        previous = None
        for n, place in enumerate(case["places"]):
            base = os.path.join(top, str(n), place["base"])
            root = os.path.join(base, "proj")
            os.makedirs(base)
            if place["move"] and previous:
                shutil.move(previous, root)
            else:
                env.write(files, base)
            previous = root
            try:
                given = self.given(place["how"], top, root, writer.map_path())
                parsed = call(api().parse_map, Path(given))
                where = f"place {n} ({place['how']})"
                check_diff(compare_map(doc, root, fmt, writer, parsed, ignore=("map_file",)), where)
                if parsed.map_file != Path(given):
                    fail(f"{where}: map_file is {parsed.map_file!r}, parsed from {given!r}")
                os.chdir(old)
                given = self.given(place["how"], top, root, "w/x.world")
                world = call(api().parse_world, Path(given))
                obs = [dict(m, map_file=os.path.abspath(str(m["map_file"][1]))) for m in observe.world(world)["maps"]]
            finally:
                os.chdir(old)
            real = os.path.join(os.path.dirname(given), "") if os.path.isabs(given) else root + "/w/"
            exp = [(m["fileName"], m["width"], m["height"], m["x"], m["y"]) for m in case["world"]["maps"]]
            k = len(exp)
            for p in case["world"]["patterns"]:
                for name, x, y in matching(PATTERNS[p["p"]][0], case["names"]):
                    exp.append((name, p["mx"], p["my"], float(x) * p["mx"] + p.get("ox", 0), float(y) * p["my"] + p.get("oy", 0)))
            exp = [{"map_file": os.path.realpath(os.path.join(real, f)), "size": ("size", w, h), "coordinates": ("pair", x, y)} for f, w, h, x, y in exp]
            for m in obs:
                m["map_file"] = os.path.realpath(m["map_file"])
            exp[k:] = sorted(exp[k:], key=lambda m: m["map_file"])
            obs[k:] = sorted(obs[k:], key=lambda m: m["map_file"])
            check_diff(observe.diff(exp, obs, "world.maps"), where)

    def given(self, how, top, root, rel):
        full = os.path.join(root, rel)
        if how == "rel-map":
            os.chdir(os.path.dirname(full))
            return os.path.basename(full)
        if how == "rel-root":
            os.chdir(root)
            return rel
        if how == "rel-other":
            other = os.path.join(top, "elsewhere", "cwd")
            os.makedirs(other, exist_ok=True)
            os.chdir(other)
            return os.path.relpath(full)
        if how == "dots":
            os.makedirs(os.path.join(root, "extra"), exist_ok=True)
            return os.path.join(root, "extra", "..", rel)
        if how == "double":
            return os.path.join(root + "//.", rel)
        if how == "link":
            link = os.path.join(os.path.dirname(root), "link to proj")
            if not os.path.islink(link):
                os.symlink(root, link)
            return os.path.join(link, rel)
        return full

    def nontrivial(self, case):
        d = case["doc"]
        content = any(t["ref"] != "embed" for t in d["tilesets"]) or d["templates"] or case["world"]["maps"] or case["names"]
        return bool(content) and (len(case["places"]) > 1 or any(p["how"] != "abs" for p in case["places"]))

    def classes(self, case):
        return [p["how"] for p in case["places"]] + ["moved after parsing"] * any(p["move"] for p in case["places"][1:]) + project_classes(case["doc"])


PROP = C21()
