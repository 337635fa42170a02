import os
import re

from hypothesis import strategies as st

from .. import gen, observe
from ..core import Prop, check_diff, fail, parse_world
from ..tree import json_bytes

# Dyadic numbers: products and sums are exact however they are computed
NUM = st.one_of(st.integers(-4000, 4000), st.integers(-4000, 4000).map(lambda n: n / 4), st.sampled_from([0, 1, -1, 0.5]))
POS = st.one_of(st.integers(1, 4000), st.integers(1, 4000).map(lambda n: n / 4))
# (regular expression, function that names a matching file, what it looks like nearby)
PATTERNS = [
    (r"map_(\d+)_(\d+)\.tmx", "map_{x}_{y}.tmx", False),
    (r"map_x(-?\d+)_y(-?\d+)\.json", "map_x{x}_y{y}.json", True),
    (r"(\d+)-(\d+)\.tmx", "{x}-{y}.tmx", False),
    (r"^level(\d{2})(\d{3})\.(?:tmx|json)$", None, False),
    (r"p*(-?\d+)_(-?\d+)\.tmx", "{x}_{y}.tmx", True),
    (r"ow-p0*(\d+)-n0*(\d+)-o0000\.tmx", "ow-p{x}-n{y}-o0000.tmx", False),
    (r"[A-Z]+_(\d+)_(\d+)_.*\.tmx", "ABC_{x}_{y}_é.tmx", False),
    (r"(\d+)x(\d+)", "{x}x{y}", False),
    (r"map_(\d+\.?\d*)_(\d+)\.tmx", "map_{x}.5_{y}.tmx", False),
]
DECOYS = ["readme.txt", "map_1_2.tmx.bak", "xmap_1_2.tmx", "map_1.tmx", "map_a_b.tmx", "w2.world", "12-34.tmx~", "Map_1_2.tmx", "map_1_2_3.tmx", ".map_1_2.tmx",
          "level1234.tmx", "map_x1_y2.json5", "1_2.tmx", "3-4.tmx", "map_-1_2.tmx", "map_1_2\n.tmx", "日本.tmx", "map_٣_٤.tmx"]
NAMES = ["a.tmx", "b.json", "sub/c.tmx", "../up.tmx", "./d.tmx", "deep/../e.tmx", "é ü.tmx", "map_1_2.tmx", "/abs/f.tmx", "a.tmx", "noext", "日/本.tmx"]


@st.composite
def world_maps(draw):
    out = [
        {"fileName": draw(st.sampled_from(NAMES)), "x": draw(NUM), "y": draw(NUM), "width": draw(POS), "height": draw(POS)}
        for _ in range(draw(st.integers(0, 4)))
    ]
    for m in out:
        bits = draw(st.integers(0, 15))
        for bit, keys in ((4, ("width", "height")), (5, ("x", "y")), (6, ("x", "y", "width", "height")), (7, ("height",)), (8, ("width",))):
            if bits == bit:
                m.update(dict.fromkeys(keys, 0))
    return out


@st.composite
def simple_worlds(draw):
    maps = draw(world_maps())
    pats = []
    for _ in range(draw(st.integers(0, 2))):
        pats.append(draw(patterns()))
    return {"maps": maps, "patterns": pats, "adjacent": draw(st.sampled_from([None, True, False])), "keys": draw(st.integers(0, 7))}


@st.composite
def patterns(draw):
    p = {"p": draw(st.integers(0, len(PATTERNS) - 1)), "mx": draw(st.one_of(POS, NUM)), "my": draw(st.one_of(POS, NUM))}
    for key in ("ox", "oy"):
        mode = draw(st.integers(0, 2))
        if mode:
            p[key] = 0 if mode == 1 else draw(NUM)
    return p


def world_json(w):
    out = {}
    if w["maps"] or w["keys"] & 1:
        out["maps"] = [dict(m) for m in w["maps"]]
    if w["patterns"] or w["keys"] & 2:
        out["patterns"] = []
        for p in w["patterns"]:
            raw = {"regexp": PATTERNS[p["p"]][0], "multiplierX": p["mx"], "multiplierY": p["my"]}
            if "ox" in p:
                raw["offsetX"] = p["ox"]
            if "oy" in p:
                raw["offsetY"] = p["oy"]
            out["patterns"].append(raw)
    if w["adjacent"] is not None:
        out["onlyShowAdjacentMaps"] = w["adjacent"]
    if w["keys"] & 4:
        out["type"] = "world"
    return out


@st.composite
def cases(draw):
    w = draw(simple_worlds())
    files, dirs = [], []
    for p in w["patterns"]:
        for _ in range(draw(st.integers(0, 4))):
            x, y = draw(st.integers(0, 120)), draw(st.integers(0, 120))
            form, signed = PATTERNS[p["p"]][1:]
            if signed and draw(st.booleans()):
                x = -x
            if signed and draw(st.booleans()):
                y = -y
            name = form.format(x=x, y=y) if form else "level%02d%03d.%s" % (abs(x) % 100, abs(y), draw(st.sampled_from(["tmx", "json"])))
            (dirs if draw(st.integers(0, 5)) == 0 else files).append(name)
    files += draw(st.lists(st.sampled_from(DECOYS), max_size=4))
    return {"world": w, "files": sorted(set(files) - set(dirs)), "dirs": sorted(set(dirs)), "dir": draw(st.sampled_from(["", "worlds", "a b/é"])),
            "how": draw(st.sampled_from(["abs", "abs", "rel", "name"])), "links": draw(st.booleans()),
            "style": draw(gen.json_style())}


def matching(regexp, names):
    """The names that match from their start (not necessarily up to their end)."""
    return [(name, m.group(1), m.group(2)) for name in names for m in [re.match(regexp, name)] if m]


def usable(w, names):
    """Leaves out names that match more than one pattern."""
    return [n for n in names if sum(bool(matching(PATTERNS[p["p"]][0], [n])) for p in w["patterns"]) <= 1]


def file_key(m):
    return os.path.normpath(m["map_file"][1])


class C19(Prop):
    id = "C19"
    rule = (
        "A case is a world file with 0-4 explicit maps, 0-2 patterns (of nine shapes, multipliers and offsets of any sign, also "
        "absent or zero) and optional flag, in a directory holding matching files, matching directories, symbolic links, decoys "
        "and other files; the maps listed must be exactly the expected ones with file, position and size. Files that match two "
        "patterns are not placed. Non-trivial: an explicit map or a file matching a pattern."
    )
    quick = 800
    thorough = 50000

    def strategy(self, tier):
        return cases()

    def check(self, case, env):
        w = case["world"]
        folder = os.path.join(env.root, case["dir"]) if case["dir"] else env.root
        os.makedirs(folder, exist_ok=True)
        names = usable(w, case["files"])
        for i, name in enumerate(names):
            target = os.path.join(folder, name)
            if case["links"] and i % 3 == 1:
                os.makedirs(os.path.join(env.root, "store"), exist_ok=True)
                with open(os.path.join(env.root, "store", "f%d" % i), "w"):
                    pass
                os.symlink(os.path.join(env.root, "store", "f%d" % i), target)
            else:
                with open(target, "w"):
                    pass
        for name in case["dirs"]:
            os.makedirs(os.path.join(folder, name), exist_ok=True)
        os.makedirs(os.path.join(folder, "sub"), exist_ok=True)
        with open(os.path.join(folder, "sub", "map_7_7.tmx"), "w"):
            pass
        with open(os.path.join(folder, "the.world"), "wb") as f:
            f.write(json_bytes(world_json(w), case["style"]))
        path = os.path.join(folder, "the.world")
        old = os.getcwd()
        try:
            if case["how"] == "rel":
                os.chdir(env.root)
                path = os.path.relpath(path, env.root)
            elif case["how"] == "name":
                os.chdir(folder)
                path = "the.world"
            parsed = parse_world(path)
            obs = observe.world(parsed)
            for m in obs["maps"]:
                if m["map_file"][0] == "path":
                    m["map_file"] = ("path", os.path.abspath(m["map_file"][1]))
        finally:
            os.chdir(old)
        exp = []
        for m in w["maps"]:
            exp.append({"map_file": ("abspath", os.path.join(folder, m["fileName"])), "size": ("size", m["width"], m["height"]),
                        "coordinates": ("pair", m["x"], m["y"])})
        n = len(exp)
        check_diff(observe.diff(exp, obs["maps"][:n], "maps"), "explicit maps")
        check_diff(observe.diff(bool(w["adjacent"]), obs["only_show_adjacent"], "only_show_adjacent"))
        # in which order the files of the patterns follow is not part of the property
        exp, got = [], obs["maps"][n:]
        for p in w["patterns"]:
            for name, x, y in matching(PATTERNS[p["p"]][0], names):
                x = float(x) * p["mx"] + p.get("ox", 0)
                y = float(y) * p["my"] + p.get("oy", 0)
                exp.append({"map_file": ("abspath", os.path.join(folder, name)), "size": ("size", p["mx"], p["my"]), "coordinates": ("pair", x, y)})
        exp.sort(key=file_key)
        got.sort(key=file_key)
        extra = {file_key(m) for m in got} ^ {file_key(m) for m in exp}
        if extra:
            fail(f"files of patterns: expected {[m['map_file'][1] for m in exp]}, got {[m['map_file'][1] for m in got]}")
        check_diff(observe.diff(exp, got, "pattern maps"))

    def nontrivial(self, case):
        w = case["world"]
        return bool(w["maps"]) or any(matching(PATTERNS[p["p"]][0], usable(w, case["files"])) for p in w["patterns"])

    def classes(self, case):
        w = case["world"]
        out = ["explicit maps"] * bool(w["maps"]) + ["patterns"] * bool(w["patterns"])
        if w["patterns"] and case["dirs"]:
            out.append("matching directory")
        for p in w["patterns"]:
            out.append("pattern " + PATTERNS[p["p"]][0])
            if matching(PATTERNS[p["p"]][0], usable(w, case["files"])):
                out.append("pattern with files")
                if "ox" not in p or "oy" not in p:
                    out.append("pattern with files, without an offset")
        out.append("parsed by " + case["how"])
        return out


PROP = C19()
