from hypothesis import strategies as st

from .. import gen, observe, twist
from ..compare import used_template_tilesets
from ..core import check_diff
from ..mapprop import MapProp, flat_layers, only


TWISTS = [twist.same_objects, twist.same_layers, twist.deeper, twist.same_names, twist.many_tiles, twist.listed_backwards, twist.no_ids, twist.rich_tilesets, twist.tileset_order, twist.rich_objects]


@st.composite
def cases(draw):
    ids, oids = gen.Ids(), gen.Ids()
    refs = draw(st.sampled_from([("ext", "tpl", "tpl", "embed"), ("tpl",), ("tpl", "embed"), ("ext", "ext", "tpl")]))
    tilesets = draw(gen.tileset_refs(1, 4, refs, rich=False))
    if draw(st.booleans()):
        name = tilesets[0]["def"]["name"]
        for ts in tilesets:
            ts["def"]["name"] = name  # tilesets that merely share a name
    if draw(st.integers(0, 2)) == 0:
        for ts in tilesets:
            ts["file"] = "same"  # same file name in different directories
        seen = set()
        for ts in tilesets:
            while ts["ref"] != "embed" and (ts["dir"]) in seen:
                ts["dir"] = ts["dir"] + "/s" if ts["dir"] else "s"
            seen.add(ts.get("dir"))
    if draw(st.integers(0, 3)) == 0:
        for ts in tilesets:
            ts["firstgid"] += 1000 * draw(st.integers(0, 1)) if ts is tilesets[-1] else 0
    ext = [i for i, t in enumerate(tilesets) if t["ref"] != "embed"]
    tpls = []
    for i in range(draw(st.integers(1, 4))):
        tpls.append(draw(gen.template(i, len(tilesets), tilesets, draw(st.integers(0, 7)) > 0, plain=True)))
    own = st.one_of(st.integers(1, 30), st.integers(1, 30).map(lambda g: g | 0x80000000))
    inst = gen.instance(oids, tpls, own, plain=True)
    plain = st.builds(lambda i, g: {"id": i, "x": 1, "y": 2, "shape": {"k": "tile", "gid": g}}, st.integers(50, 99), own)
    objs = st.one_of(inst, inst, inst, plain)
    m = gen.simple_header()
    m["layers"] = draw(gen.layers(ids, oids, False, 2, 1, 3, ("object", "object", "group"), objs=objs, optional=[], maxobj=6, minobj=1))
    doc = {"dir": draw(st.sampled_from(gen.DIRS)), "name": "map", "map": m, "tilesets": tilesets, "templates": tpls}
    return {"doc": gen.twist(draw, doc, TWISTS),
            "fmt": draw(st.sampled_from(["tmx", "json"]))}


class C12(MapProp):
    id = "C12"
    rule = (
        "A case is a map (TMX or JSON) with 1-4 tilesets - in the map (embedded or external, either format), or only referred to "
        "by templates - including image collections with gaps, shared names and shared file names, and 1-3 object templates "
        "instantiated at random depths. Every resolved gid must designate the template's tile, each tileset be present once, "
        "ranges be disjoint and the map's own tilesets unchanged. Non-trivial: some instance needs a template tileset."
    )
    quick = 450
    thorough = 22000

    def strategy(self, tier):
        return cases()

    def verify(self, case, exp, obs, problems, env):
        check_diff(problems, case["fmt"])
        check_diff(observe.diff(exp["tilesets"], obs["tilesets"], "tilesets"), case["fmt"])
        pick = only(("objects",))
        drop = ("properties", "points", "text", "class", "name", "size", "rotation", "visible", "coordinates", "color")
        check_diff(observe.diff(pick(exp), pick(obs), ignore=drop + tuple(C05_TEXT)), case["fmt"])

    def nontrivial(self, case):
        return bool(used_template_tilesets(case["doc"])[0])

    def classes(self, case):
        d = case["doc"]
        needed, allowed = used_template_tilesets(d)
        out = []
        for i in needed:
            ts = d["tilesets"][i]
            out.append(f"{case['fmt']} map, tileset {ts['fmt']}, " + ("in the map" if ts["ref"] == "ext" else "only in the template"))
            if ts["def"].get("tiles") and gen.span(ts["def"]) > ts["def"]["count"]:
                out.append("tile ids beyond the tile count")
        if needed and not any(t["ref"] in ("ext", "embed") for t in d["tilesets"]):
            out.append("map without tilesets")
        if len({t["def"]["name"] for t in d["tilesets"]}) < len(d["tilesets"]):
            out.append("tilesets share a name")
        if allowed - needed:
            out.append("instance with own gid only")
        if sum(d["tilesets"][i]["ref"] == "tpl" for i in needed) > 1:
            out.append("several tilesets added")
        return out


C05_TEXT = ("font_family", "font_size", "bold", "italic", "kerning", "strike_out", "underline", "horizontal_align", "vertical_align", "wrap")
PROP = C12()
