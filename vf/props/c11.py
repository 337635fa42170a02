from hypothesis import strategies as st

from .. import gen, observe, twist
from ..core import check_diff
from ..mapprop import MapProp, flat_layers, only


TWISTS = [twist.same_objects, twist.same_objects, twist.zeros, twist.zeros, twist.equal_pairs, twist.same_props, twist.many_props, twist.points, twist.same_layers,
          twist.deeper, twist.long_text, twist.extremes]


@st.composite
def cases(draw):
    ids, oids = gen.Ids(), gen.Ids()
    # tilesets for tile templates: content is irrelevant here (C12)
    tilesets = [{"ref": draw(st.sampled_from(["ext", "tpl"])), "firstgid": 1, "def": dict(draw(gen.tileset_def(mark=0, rich=False, wang=False))),
                 "dir": draw(st.sampled_from(gen.DIRS)), "file": "ts0"}] if draw(st.booleans()) else []
    tpls = [draw(gen.template(i, len(tilesets), tilesets)) for i in range(draw(st.integers(1, 3)))]
    if draw(st.integers(0, 3)) == 0:
        gen.same_file_names(tpls, "tpl")
    objs = st.one_of(gen.instance(oids, tpls), gen.instance(oids, tpls), gen.objects(oids))
    m = gen.simple_header()
    m["layers"] = draw(gen.layers(ids, oids, False, 2, 1, 3, ("object", "object", "group"), objs=objs, optional=[("visible", gen.BOOL)], maxobj=4, minobj=1))
    doc = {"dir": draw(st.sampled_from(gen.DIRS)), "name": "map", "map": m, "tilesets": tilesets, "templates": tpls}
    return {"doc": gen.twist(draw, doc, TWISTS),
            "fmt": draw(st.sampled_from(["tmx", "json"])),
            "knobs": {"classkey": draw(st.sampled_from(["class", "type"]))}}


def instances(doc):
    for l in flat_layers(doc["map"]["layers"]):
        if l["k"] == "object":
            for o in l["objects"]:
                if "template" in o:
                    yield o


class C11(MapProp):
    id = "C11"
    rule = (
        "A case is a map with 1-2 object templates of all kinds in random directories (random name, class, size, rotation, "
        "visibility, shape, text settings, properties) and several instances in nested layers, each overriding a random subset "
        "of attributes, shape, text, gid and properties, in TMX or JSON; expected objects are template overlaid by instance. "
        "Non-trivial: an instance that overrides something, or two instances of one template."
    )
    quick = 500
    thorough = 25000

    def strategy(self, tier):
        return cases()

    def verify(self, case, exp, obs, problems, env):
        pick = only(("kind", "name", "objects"))
        check_diff(observe.diff(pick(exp), pick(obs), ignore=("gid",)), case["fmt"])
        # gids given by the instance itself are compared, resolved ones belong to C12

        def own_gids(d, layers):
            out = []
            for l, o in zip(d, layers):
                if l["k"] == "group":
                    out += own_gids(l["layers"], o["layers"])
                elif l["k"] == "object":
                    for a, b in zip(l["objects"], o["objects"]):
                        if a.get("shape", {}).get("k") == "tile":
                            out.append((a["id"], a["shape"]["gid"], b.get("gid")))
            return out

        for id_, want, got in own_gids(case["doc"]["map"]["layers"], obs["layers"]):
            if want != got:
                check_diff([f"object {id_} states gid {want} itself, got {got}"], case["fmt"])

    def nontrivial(self, case):
        seen = [o["template"] for o in instances(case["doc"])]
        return len(set(seen)) < len(seen) or any(len(o) > 5 for o in instances(case["doc"]))

    def classes(self, case):
        out = []
        tpls = case["doc"]["templates"]
        for o in instances(case["doc"]):
            t = tpls[o["template"]]["obj"]
            out.append(f"{case['fmt']}: instance of {t['shape']['k']}")
            out += ["override " + k for k in o if k in t and k not in ("id", "x", "y")]
            if {p[0] for p in o.get("props", [])} & {p[0] for p in t.get("props", [])}:
                out.append("override property by name")
            if o.get("props") and t.get("props"):
                out.append("merge properties")
        for i in range(len(tpls)):
            if sum(o["template"] == i for o in instances(case["doc"])) > 1:
                out.append("several instances of a template")
        return out


PROP = C11()
