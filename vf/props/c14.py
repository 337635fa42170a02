import os

from hypothesis import strategies as st

from .. import gen, observe
from ..compare import owner
from ..core import Prop, check_diff, parse_map
from ..emit import Writer, to_bytes
from ..expect import FLAGS
from ..mapprop import flat_layers


def mark(ts):
    return ts["properties"].get("mark")


def normal(case, obs):
    """Removes what the two formats may differ in: the map file, start coordinates, and the
    (free) first gids of tilesets that only templates refer to."""
    doc = case["doc"]
    own = {ts["firstgid"] for ts in doc["tilesets"] if ts["ref"] in ("embed", "ext")}
    tilesets = obs["tilesets"]

    def fix(abstract, layers):
        for a, l in zip(abstract, layers):
            l["coordinates"] = None
            if a["k"] == "group" and l["kind"] == "group":
                fix(a["layers"], l["layers"])
            elif a["k"] == "object" and l["kind"] == "object":
                for ao, o in zip(a["objects"], l["objects"]):
                    gid = o.get("gid")
                    if "template" in ao and isinstance(gid, int):
                        first = owner(tilesets, gid & ~FLAGS)
                        if first is not None and first not in own:
                            o["gid"] = ("tile of", mark(tilesets[first]), (gid & ~FLAGS) - first, gid & FLAGS)

    fix(doc["map"]["layers"], obs["layers"])
    obs = dict(obs, map_file=None)
    obs["added"] = sorted((dict(t, firstgid=None) for f, t in tilesets.items() if f not in own), key=lambda t: repr(mark(t)))
    obs["tilesets"] = {f: t for f, t in tilesets.items() if f in own}
    return obs


@st.composite
def cases(draw):
    doc = draw(gen.project(fmts=("same", "same", "tmx", "json")))
    return {"doc": doc, "knobs": {"classkey": draw(st.sampled_from(["class", "type"])), "empty_class": draw(st.booleans())}}


class C14(Prop):
    id = "C14"
    rule = (
        "A case is a whole random project (map attributes, layer tree of all kinds, objects, templates with instances, 0-3 "
        "embedded, external or template-only tilesets, properties everywhere) written once as TMX/TSX/TX and once as JSON; the "
        "two parsed models must be equal. Non-trivial: at least two layers or a tileset."
    )
    quick = 260
    thorough = 14000

    def strategy(self, tier):
        return cases()

    def check(self, case, env):
        seen = {}
        for fmt in ("tmx", "json"):
            writer = Writer(case["doc"], fmt, case["knobs"])
            env.write(writer.contents())
            seen[fmt] = normal(case, observe.map_(parse_map(os.path.join(env.root, writer.map_path()))))
        check_diff(observe.diff(seen["tmx"], seen["json"], "(TMX is 'expected', JSON is 'got')"))

    def nontrivial(self, case):
        d = case["doc"]
        return len(list(flat_layers(d["map"]["layers"]))) >= 2 or bool(d["tilesets"])

    def classes(self, case):
        return project_classes(case["doc"])


def project_classes(d):
    out = ["infinite" if d["map"]["infinite"] else "finite"]
    for l in flat_layers(d["map"]["layers"]):
        out.append("layer " + l["k"])
        for o in l.get("objects", []):
            out.append("template instance" if "template" in o else "object " + o["shape"]["k"])
    for ts in d["tilesets"]:
        out.append("tileset " + ts["ref"])
    return out


PROP = C14()
