import os
import string

from hypothesis import strategies as st

from .. import gen, observe
from ..core import Prop, call, check_diff, fail, outcome, parse_map
from ..emit import Writer, to_bytes
from ..expect import Expect, color

HEX = string.hexdigits
NEARLY = st.one_of(
    # every way of being almost a colour
    st.text(st.sampled_from(HEX), max_size=12),
    st.text(st.sampled_from(HEX + "#"), max_size=10),
    st.builds(lambda s: "#" + s, st.text(st.sampled_from(HEX), max_size=12)),
    st.builds(lambda s, i, c: s[:i] + c + s[i + 1 :], gen.COLOR, st.integers(0, 8),
              st.sampled_from(list("+-_ .xXgG\n\t#") + ["٣", "０", "ａ", "é", "\x00", "0x", "--", "\u2028", ""])),
    st.builds(lambda a, s, b: a + s + b, st.sampled_from(["", " ", "#", "##", "\n", "0x", "rgb", "-", "+"]), gen.COLOR,
              st.sampled_from(["", " ", "\n", "0", "00", "g", ";"])),
    st.text(max_size=10),
)
PLACES = ["map", "layer", "image", "object", "text", "bg", "trans", "wang", "prop_tile", "prop_map", "prop_object", "prop_layer"]


def valid(text):
    digits = text[1:] if text.startswith("#") else text
    return len(digits) in (6, 8) and all(c in HEX for c in digits)


@st.composite
def cases(draw):
    if draw(st.integers(0, 9)) < 8:
        return {"text": draw(st.one_of(gen.COLOR, NEARLY, NEARLY))}
    places = {p: draw(gen.COLOR) for p in draw(st.lists(st.sampled_from(PLACES), min_size=1, max_size=12, unique=True))}
    if draw(st.booleans()):
        bad = draw(NEARLY.filter(lambda t: not valid(t) and t and all(c.isprintable() and c not in "\u2028" for c in t)))
        places[draw(st.sampled_from(sorted(places)))] = bad
    return {"places": places, "fmt": draw(st.sampled_from(["tmx", "json"])), "ref": draw(st.sampled_from(["embed", "ext"]))}


def build(case):
    p = case["places"]
    m = {"version": "1.10", "tiledversion": "1.10.2", "orientation": "orthogonal", "renderorder": "right-down", "infinite": False,
         "width": 1, "height": 1, "tilewidth": 8, "tileheight": 8, "nextlayerid": 9, "nextobjectid": 9}
    text = {"k": "text", "text": "t"}
    obj = {"id": 1, "x": 0, "y": 0, "shape": text}
    layer = {"k": "object", "name": "o", "id": 1, "objects": [obj]}
    img = {"k": "image", "name": "i", "id": 2, "image": "a.png"}
    tile = {"id": 0}
    ts = {"name": "t", "tw": 8, "th": 8, "count": 4, "cols": 2, "image": {"src": "b.png"}, "tiles": [tile]}
    put = {
        "map": (m, "backgroundcolor"), "layer": (layer, "tint"), "image": (img, "trans"), "text": (text, "color"),
        "bg": (ts, "bg"), "trans": (ts["image"], "trans"),
    }
    for place, value in p.items():
        if place in put:
            put[place][0][put[place][1]] = value
        elif place == "wang":
            ts["wangsets"] = [{"name": "w", "type": "corner", "tile": 0, "colors": [{"name": "c", "color": value, "tile": 0, "prob": 1}], "tiles": []}]
        elif place == "object":
            img["tint"] = value
        else:
            owner = {"prop_tile": tile, "prop_map": m, "prop_object": obj, "prop_layer": layer}[place]
            owner["props"] = [["c", "color", value]]
    m["layers"] = [layer, img]
    return {"map": m, "tilesets": [{"ref": case["ref"], "firstgid": 1, "def": ts}], "templates": []}


class C13(Prop):
    id = "C13"
    rule = (
        "Most cases are strings for parse_color: colours in every spelling (3/4 channels, '#', either case), near-colours "
        "(wrong length, one foreign character such as a sign, blank, underscore, line break or non-ASCII digit, extra affixes) "
        "and arbitrary text, against an own oracle; the others are maps with colours, one possibly malformed, in up to twelve "
        "places of either format. Non-trivial: a valid colour, or a malformed string that differs little from one."
    )
    quick = 3500
    thorough = 150000

    def strategy(self, tier):
        return cases()

    def check(self, case, env):
        if "text" in case:
            from pytiled_parser.util import parse_color

            text = case["text"]
            if valid(text):
                got = observe.scalar(call(parse_color, text))
                check_diff(observe.diff(color(text), got, repr(text)))
            else:
                kind, value = outcome(parse_color, text)
                if kind == "ok":
                    fail(f"parse_color({text!r}) is not a colour but gave {value!r}")
                if not isinstance(value, ValueError):
                    fail(f"parse_color({text!r}) raised {type(value).__name__} instead of ValueError")
            return
        doc = build(case)
        writer = Writer(doc, case["fmt"])
        env.write(writer.contents())
        path = os.path.join(env.root, writer.map_path())
        bad = [p for p, v in case["places"].items() if not valid(v)]
        if bad and bad != ["trans"]:
            kind, value = outcome(__import__("pytiled_parser").parse_map, __import__("pathlib").Path(path))
            if kind == "ok":
                fail(f"{case['fmt']}: malformed colour {case['places'][bad[0]]!r} of {bad[0]} was accepted")
            from pytiled_parser import UnknownFormat

            if not isinstance(value, (ValueError, UnknownFormat)):
                fail(f"{case['fmt']}: malformed colour {case['places'][bad[0]]!r} of {bad[0]} raised {value!r}")
            return
        if bad:
            return  # the TSX reader adds a missing '#', so '#'-variants are equal there
        parsed = parse_map(path)
        exp = Expect(doc, env.root, case["fmt"], writer).map()
        check_diff(observe.diff(exp, observe.map_(parsed)), case["fmt"])

    def nontrivial(self, case):
        if "places" in case:
            return True
        t = case["text"]
        return valid(t) or (3 <= len(t) <= 12 and sum(c in HEX for c in t) >= len(t) - 3)

    def classes(self, case):
        if "places" in case:
            ok = all(valid(v) for v in case["places"].values())
            return [case["fmt"] + (" all valid" if ok else " one malformed")] + ["place " + p for p in case["places"]]
        return ["string valid" if valid(case["text"]) else "string malformed"]


PROP = C13()
