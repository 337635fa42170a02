import os
import sys
from pathlib import Path

from hypothesis import strategies as st

from .. import boot, gen, observe
from ..core import Prop, api, check_diff, fail, outcome
from ..emit import Writer, to_bytes
from ..mapprop import flat_layers
from ..tree import json_bytes
from .c14 import project_classes
from .c19 import simple_worlds, world_json

FETCH = ("socket.", "urllib.", "http.", "ftplib.", "smtplib.", "subprocess.", "os.system", "os.exec", "os.posix_spawn", "os.spawn", "os.startfile",
         "webbrowser.", "ctypes.dlopen", "sqlite3.", "pickle.find_class", "marshal.loads")
seen = None


def hook(event, args):
    if seen is None:
        return
    if event == "open":
        seen.append(("open", args[0]))
    elif event == "exec" or event.startswith(FETCH):
        seen.append((event, args))


PYTHON = tuple({os.path.realpath(p) + os.sep for p in [sys.prefix, sys.base_prefix, os.path.dirname(os.__file__), "/opt/veriftools", boot.VERIF, boot.REPO]})


def code(path):
    """files of the interpreter and of imported modules"""
    return path.startswith(PYTHON) and path.endswith((".py", ".pyc", ".so", ".zip", ".pth"))


HEADS = ["", "", '<!DOCTYPE {0} SYSTEM "trap.dtd">', '<!DOCTYPE {0} SYSTEM "file://{1}/trap.dtd">', '<!DOCTYPE {0} [<!ENTITY % t SYSTEM "trap.ent"> %t;]>',
         '<!DOCTYPE {0} [<!ENTITY t SYSTEM "file://{1}/trap.txt">]>', '<!DOCTYPE {0} SYSTEM "http://mapeditor.org/dtd/1.0/map.dtd">',
         '<?xml-stylesheet href="trap.xsl" type="text/xsl"?>']


@st.composite
def cases(draw):
    doc = draw(gen.project(hi=3, ts_hi=3, maxobj=4, twists=gen.SMALL))
    return {"doc": doc, "fmt": draw(st.sampled_from(["tmx", "json"])), "world": draw(simple_worlds()), "head": draw(st.sampled_from(HEADS)),
            "gone": draw(st.one_of(st.none(), st.none(), st.none(), st.integers(0, 9))),
            "how": draw(st.sampled_from(["abs", "rel"])), "traps": draw(st.integers(0, 2)),
            "files": draw(st.lists(st.sampled_from(["map_1_2.tmx", "1_2.tmx", "3-4.tmx", "map_x1_y2.json", "5x6"]), max_size=3, unique=True))}


def images(doc):
    """(directory, path as written) of everything that names a file but is no document"""
    out = []

    def owner(o, folder):
        out.extend((folder, p[2]) for p in o.get("props", []) if p[1] == "file")

    def layers(ls, folder):
        for l in flat_layers(ls):
            owner(l, folder)
            if l["k"] == "image":
                out.append((folder, l["image"]))
            for o in l.get("objects", []):
                owner(o, folder)

    owner(doc["map"], doc["dir"])
    layers(doc["map"]["layers"], doc["dir"])
    for ts in doc["tilesets"]:
        folder = doc["dir"] if ts["ref"] == "embed" else ts.get("dir", "")
        owner(ts["def"], folder)
        for t in ts["def"].get("tiles", []):
            owner(t, folder)
            if "image" in t:
                out.append((folder, t["image"]["src"]))
        if "image" in ts["def"]:
            out.append((folder, ts["def"]["image"]["src"]))
    return out


def neighbours(doc, paths):
    """files of similar names that no reference leads to"""
    out = {}
    for p in paths:
        stem, ext = os.path.splitext(p)
        folder, name = os.path.split(p)
        for q in (stem + ".tmx", stem + ".tsx", stem + ".json", stem + ".tx", stem, p + ".bak", p + "~", stem + ".tiled-session", stem + ".xml",
                  os.path.join(os.path.dirname(folder), name), os.path.join(folder, "sub", name), name, os.path.join(folder, "." + name)):
            out[q] = b"<tileset/>"
    return out


class C29(Prop):
    id = "C29"
    rule = (
        "A case is a random project and world; optionally the XML files carry a document type, external entities or a style sheet "
        "that name trap files, the images and files that attributes name exist, and files of similar names lie around. Every file "
        "the interpreter opens during parse_map, parse_tileset and parse_world is recorded by an audit hook and must be the argument "
        "or a tileset or template reachable from it; the model must be the same with and without the files around, also when one of the documents is missing. Non-trivial: the project "
        "has an external document, or names an image or file."
    )
    assumptions = ["Opens are seen through the interpreter's audit events; a C extension opening files on its own would not be."]
    quick = 300
    thorough = 14000

    def setup(self, env):
        sys.addaudithook(hook)

    def strategy(self, tier):
        return cases()

    def check(self, case, env):
        doc = case["doc"]
        writer = Writer(doc, case["fmt"])
        trees = writer.trees()
        root = os.path.join(env.root, "p")
        files = {}
        for p, t in trees.items():
            data = to_bytes(t)
            if case["head"] and data.lstrip()[:1] == b"<":
                tag = t.tag
                data = case["head"].format(tag, root).encode() + data
            files[p] = data
        files["w/x.world"] = json_bytes(world_json(case["world"]))
        for name in case["files"] + [m["fileName"] for m in case["world"]["maps"]]:
            path = os.path.normpath(os.path.join("w", name))
            if not path.startswith(("..", "/")):
                files.setdefault(path, b"<map/>")
        others = sorted(set(trees) - {writer.map_path()})
        if case.get("gone") is not None and others:
            # a file that is referred to and not there: no other may be taken instead
            del files[others[case["gone"] % len(others)]]
        env.write(files, root)
        used = {o["template"] for l in flat_layers(doc["map"]["layers"]) for o in l.get("objects", []) if "template" in o}
        allowed = {writer.map_path()} | {writer.ts_path(i) for i, t in enumerate(doc["tilesets"]) if t["ref"] == "ext"}
        for i in used:
            allowed.add(writer.tpl_path(i))
            if "ts" in doc["templates"][i]:
                allowed.add(writer.ts_path(doc["templates"][i]["ts"]))
        jobs = [("parse_map", writer.map_path(), allowed), ("parse_world", "w/x.world", {"w/x.world"})]
        jobs += [("parse_tileset", writer.ts_path(i), {writer.ts_path(i)}) for i, t in enumerate(doc["tilesets"]) if t["ref"] != "embed"]
        first = [self.parse(root, *job, case["how"]) for job in jobs]
        if not case["traps"]:
            return
        here = set(files) | set(trees) | {os.path.dirname(p) for p in files}
        extra = {}
        for folder, name in images(doc):
            path = os.path.normpath(os.path.join(folder, name))
            if not path.startswith(("..", "/")) and name.strip():
                extra[path] = b"\x89PNG\r\n"
        for p in trees:
            for trap in ("trap.dtd", "trap.ent", "trap.txt", "trap.xsl"):
                extra[os.path.join(os.path.dirname(p), trap)] = b'<!ENTITY t "got it">'
        if case["traps"] == 2:
            for p, data in neighbours(doc, trees).items():
                extra.setdefault(os.path.normpath(p), data)
        for p, data in sorted(extra.items()):
            if p not in here and not any(h.startswith(p + "/") for h in here) and not p.startswith("w/"):
                try:
                    env.write({p: data}, root)
                except (OSError, ValueError):
                    pass
        for job, a in zip(jobs, first):
            b = self.parse(root, *job, case["how"])
            if a[0] != b[0] or (a[0] == "raise" and type(a[1]) is not type(b[1])):
                fail(f"{job[0]}({job[1]}) gives {a!r:.200} and, with more files around, {b!r:.200}")
            if a[0] == "ok":
                check_diff(observe.diff(a[1], b[1]), f"{job[0]}({job[1]}) with more files around")

    def parse(self, root, fn, rel, allowed, how):
        global seen
        old = os.getcwd()
        os.chdir(root)
        try:
            seen = events = []
            kind, value = outcome(getattr(api(), fn), Path(rel) if how == "rel" else Path(root, rel))
            seen = None
        finally:
            seen = None
            os.chdir(old)
        ok = {os.path.realpath(os.path.join(root, p)) for p in allowed}
        for event, what in events:
            if event != "open":
                fail(f"{fn}({rel}): {event} {what!r:.200}")
            if isinstance(what, int):
                continue
            path = os.path.realpath(os.path.join(root, os.fsdecode(what)))
            if path not in ok and not code(path):
                fail(f"{fn}({rel}) opened {os.path.relpath(path, root) if path.startswith(root) else path}")
        return kind, getattr(observe, {"parse_map": "map_", "parse_world": "world", "parse_tileset": "tileset"}[fn])(value) if kind == "ok" else value

    def nontrivial(self, case):
        return bool(images(case["doc"])) or any(t["ref"] != "embed" for t in case["doc"]["tilesets"]) or bool(case["doc"]["templates"])

    def classes(self, case):
        out = [case["fmt"], "path " + case["how"], ["plain", "named files exist", "similar names around"][case["traps"]]]
        if case["head"]:
            out.append("head " + case["head"][:34])
        return out + project_classes(case["doc"])


PROP = C29()
