import os

from hypothesis import strategies as st

from .. import gen, observe, twist
from ..core import check_diff, parse_map, parse_tileset
from ..emit import Writer, to_bytes
from ..expect import Expect
from ..mapprop import Prop

IMAGES = st.one_of(gen.FILE, st.sampled_from(["link/a.png", "a/../b.png", "../ts/x.png", "/abs/dir/z.png", "sub/./y.png"]))


@st.composite
def cases(draw):
    tilesets, gid = [], draw(st.sampled_from([1, 1, 7]))
    for i in range(draw(st.integers(1, 3))):
        d = draw(gen.tileset_def(mark=i, wang=draw(st.booleans())))
        for im in [d.get("image")] + [t.get("image") for t in d.get("tiles", [])]:
            if im:
                im["src"] = draw(IMAGES)
        tilesets.append({"firstgid": gid, "def": d, "dir": draw(st.sampled_from(gen.DIRS)), "file": "ts%d" % i,
                         "ref": draw(st.sampled_from(["embed", "ext", "ext"])), "fmt": draw(st.sampled_from(["tmx", "json"])),
                         "spell": draw(st.integers(0, 2))})
        gid += gen.span(d) + draw(st.sampled_from([0, 0, 3]))
    if draw(st.integers(0, 3)) == 0:
        # a map may refer to one tileset file several times
        again = dict(tilesets[draw(st.integers(0, len(tilesets) - 1))], firstgid=gid)
        tilesets.append(again)
    if draw(st.integers(0, 2)) == 0:
        gen.same_file_names(tilesets)
    m = gen.simple_header(layers=[])
    doc = {"dir": draw(st.sampled_from(gen.DIRS)), "name": "map", "map": m, "tilesets": tilesets, "templates": []}
    gen.twist(draw, doc, [twist.tileset_order, twist.tileset_order, twist.same_names, twist.rich_tilesets, twist.rich_tiles])
    for i, ts in enumerate(tilesets):
        for k, v in {"dir": "", "file": "emb%d" % i, "fmt": "tmx", "spell": 0}.items():
            ts.setdefault(k, v)
    return {"doc": doc, "fmt": draw(st.sampled_from(["tmx", "json"])), "cwd": draw(st.sampled_from(["", "rel", "maps"])),
            "symlink": draw(st.integers(0, 3)), "stray": draw(st.booleans())}


class C10(Prop):
    id = "C10"
    rule = (
        "A case is a map (TMX or JSON) with 1-3 tilesets, each embedded or external as TSX or JSON in random directories with "
        "random spellings of relative, parent and absolute image paths, sometimes behind a symbolic link, sometimes parsed by "
        "relative path; the same tilesets are then written with every other storage and parsed from both map formats and alone. "
        "All must equal the reference content, keys and first gids. Non-trivial: an external tileset with an image."
    )
    quick = 180
    thorough = 9000

    def strategy(self, tier):
        return cases()

    def check(self, case, env):
        doc = case["doc"]
        for fmt, variant in self.variants(case):
            d = dict(doc, tilesets=[dict(ts, **v) for ts, v in zip(doc["tilesets"], variant)])
            env.fresh()
            writer = Writer(d, fmt)
            files = writer.contents()
            if case["stray"]:
                # files of the same names elsewhere must not be picked up
                for i, ts in enumerate(d["tilesets"]):
                    if ts["ref"] == "ext" and ts["dir"] != d["dir"]:
                        files.setdefault(os.path.join(d["dir"], os.path.basename(writer.ts_path(i))), b"<stray/>")
            env.write(files)
            if case["symlink"] == 1:
                os.makedirs(os.path.join(env.root, "real"), exist_ok=True)
                for folder in {ts.get("dir", "") for ts in d["tilesets"]}:
                    link = os.path.join(env.root, folder, "link")
                    if not os.path.lexists(link) and os.path.isdir(os.path.dirname(link)):
                        os.symlink(os.path.join(env.root, "real"), link)
            if case["symlink"] == 2:
                self.move_behind_links(env.root, d)
            path = os.path.join(env.root, writer.map_path())
            given = path
            old = os.getcwd()
            try:
                if case["cwd"] == "rel":
                    os.chdir(os.path.dirname(path))
                    given = os.path.basename(path)
                elif case["cwd"] == "maps":
                    os.makedirs(os.path.join(env.root, "maps"), exist_ok=True)
                    os.chdir(os.path.join(env.root, "maps"))
                    given = os.path.relpath(path)
                parsed = parse_map(given)
            finally:
                os.chdir(old)
            ex = Expect(d, env.root, fmt, writer)
            exp = ex.map_tilesets()
            obs = {g: observe.tileset(t) for g, t in parsed.tilesets.items()}
            desc = fmt + " map with " + ", ".join(v.get("ref", t["ref"]) + ":" + v.get("fmt", t["fmt"]) for v, t in zip(variant, doc["tilesets"]))
            check_diff(observe.diff(exp, obs, "tilesets"), desc)
            if variant is not self.first:
                continue
            for i, ts in enumerate(d["tilesets"]):
                if ts["ref"] == "ext":
                    alone = observe.tileset(parse_tileset(os.path.join(env.root, writer.ts_path(i))))
                    # where images of a tileset loaded on its own lead is not part of this property
                    model = drop_images(ex.tileset(ts["def"], 1, None))
                    check_diff(observe.diff(model, drop_images(alone), "tileset"), "alone " + writer.ts_path(i))

    first = None

    def move_behind_links(self, root, d):
        """the directories of tilesets become links to directories elsewhere"""
        folders = {os.path.normpath(ts["dir"]) for ts in d["tilesets"] if ts["ref"] == "ext"}
        for n, folder in enumerate(sorted(folders, reverse=True)):
            old = os.path.join(root, folder)
            if folder.startswith(".") or (d["dir"] + "/").startswith(folder + "/") or os.path.islink(old) or not os.path.isdir(old):
                continue
            new = os.path.join(root, "real", str(n), "away")
            os.makedirs(os.path.dirname(new))
            os.rename(old, new)
            os.symlink(new, old)

    def variants(self, case):
        n = len(case["doc"]["tilesets"])
        self.first = [{} for _ in range(n)]
        yield case["fmt"], self.first
        for fmt in ("tmx", "json"):
            yield fmt, [{"ref": "embed"}] * n
            yield fmt, [{"ref": "ext", "fmt": "tmx"}] * n
            yield fmt, [{"ref": "ext", "fmt": "json"}] * n

    def nontrivial(self, case):
        return any(ts["ref"] == "ext" and ("image" in ts["def"] or ts["def"].get("tiles")) for ts in case["doc"]["tilesets"])

    def classes(self, case):
        out = [f"{case['fmt']} map"]
        for ts in case["doc"]["tilesets"]:
            out.append(f"{case['fmt']} -> {ts['ref']}" + (":" + ts["fmt"] if ts["ref"] == "ext" else ""))
            if ts["ref"] == "ext" and ts["dir"] != case["doc"]["dir"]:
                out.append("tileset in another directory")
        if len({(t["dir"], t["file"]) for t in case["doc"]["tilesets"]}) < len(case["doc"]["tilesets"]):
            out.append("one tileset referred to twice")
        if case["cwd"]:
            out.append("parsed by relative path")
        if case["symlink"] == 1:
            out.append("symbolic link")
        elif case["symlink"] == 2:
            out.append("tileset directory is a link")
        return out


def drop_images(ts):
    ts = dict(ts, image=ts["image"] is not None)
    ts["tiles"] = {i: dict(t, image=t["image"] is not None) for i, t in ts["tiles"].items()}
    return ts


PROP = C10()
