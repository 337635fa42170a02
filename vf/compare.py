"""Comparison of a whole parsed map with the reference model, including tilesets that only
object templates refer to (whose first gid is the library's choice)."""
from . import observe
from .expect import FLAGS, Expect


def used_template_tilesets(doc):
    """(needed, allowed): tilesets that template instances need in the map, and those that
    an instance with its own tile makes optional."""
    needed, allowed = set(), set()

    def visit(layers):
        for l in layers:
            if l["k"] == "group":
                visit(l["layers"])
            elif l["k"] == "object":
                for o in l["objects"]:
                    if "template" in o:
                        tpl = doc["templates"][o["template"]]
                        if "ts" in tpl:
                            allowed.add(tpl["ts"])
                            if o.get("shape", {}).get("k") != "tile":
                                needed.add(tpl["ts"])

    visit(doc["map"]["layers"])
    return needed, allowed


def extent(ts):
    """number of gids a (canonical) tileset occupies"""
    return max(ts["tile_count"], max(ts["tiles"], default=-1) + 1, 1)


def owner(tilesets, gid):
    below = [f for f in tilesets if f <= gid]
    return max(below) if below else None


def resolve_templates(exp, obs, doc, ex):
    """Problems with template tilesets; replaces the symbolic gids in exp by the observed
    ones when these designate the right tile."""
    out = []
    tilesets = obs["tilesets"]
    needed, allowed = used_template_tilesets(doc)
    in_map = {i for i, ts in enumerate(doc.get("tilesets", [])) if ts["ref"] in ("embed", "ext")}
    extra = {f: t for f, t in tilesets.items() if f not in exp["tilesets"]}
    want = {
        i: ex.tileset(doc["tilesets"][i]["def"], None, ex.w.ts_path(i)) for i in allowed if i not in in_map
    }
    count = {i: 0 for i in want}
    where = {i: [doc["tilesets"][i]["firstgid"]] for i in in_map}
    for firstgid, ts in extra.items():
        found = False
        for i, model in want.items():
            model["firstgid"] = firstgid
            if not observe.diff(model, ts):
                count[i] += 1
                where.setdefault(i, []).append(firstgid)
                found = True
        if not found:
            problems = min((observe.diff(dict(m, firstgid=firstgid), ts) for m in want.values()), key=len, default=["nobody asked for it"])
            out.append(f".tilesets[{firstgid}]: added tileset is not one a template refers to: {problems[:2]}")
    for i, n in count.items():
        if n != 1 and i in needed:
            out.append(f".tilesets: tileset of template ({ex.w.ts_path(i)}) added {n} times")
        elif n > 1:
            out.append(f".tilesets: tileset of template ({ex.w.ts_path(i)}) added {n} times")
    spans = sorted((f, f + extent(t)) for f, t in tilesets.items())
    for (f1, e1), (f2, _) in zip(spans, spans[1:]):
        if e1 > f2 and (f1 in extra or f2 in extra):
            out.append(f".tilesets: gids {f1}..{e1 - 1} overlap the tileset at {f2}")
    if any(f < 1 for f in extra):
        out.append(f".tilesets: first gids {sorted(extra)} are not all positive")

    def visit(e_layers, o_layers, where_):
        for i, (e, o) in enumerate(zip(e_layers, o_layers)):
            w = f"{where_}[{i}]"
            if e.get("kind") == "group" and o.get("kind") == "group":
                visit(e["layers"], o["layers"], w + ".layers")
            elif e.get("kind") == "object" and o.get("kind") == "object":
                for j, (eo, oo) in enumerate(zip(e["objects"], o["objects"])):
                    gid = eo.get("gid")
                    if not isinstance(gid, tuple):
                        continue
                    got = oo.get("gid")
                    if not isinstance(got, int) or isinstance(got, bool):
                        continue
                    _, ts, local, flags = gid
                    first = owner(tilesets, got & ~FLAGS)
                    problem = None
                    if (got & FLAGS) != flags:
                        problem = f"flip bits {got & FLAGS:#x} instead of {flags:#x}"
                    elif first is None or first not in where.get(ts, []):
                        problem = f"gid {got} belongs to the tileset at {first}, the template's is at {where.get(ts)}"
                    elif (got & ~FLAGS) - first != local:
                        problem = f"gid {got} is tile {(got & ~FLAGS) - first} of its tileset, the template says {local}"
                    if problem:
                        out.append(f"{w}.objects[{j}].gid: {problem}")
                    eo["gid"] = got

    visit(exp["layers"], obs["layers"], ".layers")
    exp["tilesets"] = dict(exp["tilesets"])
    for f, t in extra.items():
        exp["tilesets"][f] = t
    return out


def compare_map(doc, root, fmt, writer, parsed, ignore=(), expected=None):
    ex = Expect(doc, root, fmt, writer)
    exp = ex.map() if expected is None else expected
    obs = observe.map_(parsed)
    out = resolve_templates(exp, obs, doc, ex)
    return out + observe.diff(exp, obs, "", ignore=ignore)
