import json
import os

from hypothesis import strategies as st

from .. import gen, observe
from ..core import Prop, Violation, api, check_diff, expect_raise, parse_map, parse_tileset
from ..emit import Writer, to_bytes

EXTS = ["tmx", "tsx", "tx", "json", "tmj", "tsj", "tj", "xml", "txt", "TMX", "JSON", "Tsx", "", "tmx.json", "json.tmx", "bak"]

TEXT_JUNK = [
    b"", b"\n", b"   ", b"\r\n\r\n", b"\t \n \n", b"hello", b"map", b"tmx", b"{", b"}", b"[", b"{]", b"{'a': 1}", b'{"a": }', b'{"a": 1,}', b"{} {}",
    b'"', b"#!tmx", b"version=1", b"nul", b"tru", b"Nane", b"undefined", b"-", b"1.", b"0x10", b"key: value\n", b"[map]\nwidth=3\n", b"[1, 2", b'{"type": "map"',
    b'{"tilewidth": 16} x', b"\x00", b"\x00\x00\x00\x00", b"\xff\xfe", b"\xfe\xff", b"\xff\xfe{\x00}\x00", b"\xef\xbb\xbf", b"\x89PNG\r\n\x1a\n\x00\x00\x00\rIHDR",
    b"PK\x03\x04", b"\x1f\x8b\x08\x00\x00\x00\x00\x00", b"\x80abc", b"abc\x80", b"\n\n\xc3", b"{\"a\": \"\xff\"}", b"\x1a", b"? <map/>", b"x<map></map>", b"/* json */ {}", b"// c\n{}",
    "é".encode("latin-1"), "\u2028\n".encode(), b"x" * 9000, b"\n" * 5000 + b"x",
]


def is_junk(data):
    """Neither format: no XML at the first non-blank character, no JSON document at all."""
    text = data.strip()
    if text.startswith((b"<", b"\xef\xbb\xbf<")) or b"<" in text[:8]:
        if text.startswith((b"<", b"\xef\xbb\xbf")) or b"\x00" in text[:8]:
            return False
    if data[:2] in (b"\xff\xfe", b"\xfe\xff") and b"<" in data:
        return False
    if data.count(b"[") + data.count(b"{") > 200:
        return False
    for enc in ("utf-8", "utf-8-sig", "utf-16", "utf-16-le", "utf-16-be", "utf-32"):
        try:
            json.loads(data.decode(enc))
            return False
        except ValueError:
            pass
        except RecursionError:
            return False
    # blanks outside ASCII before '<' are not blanks to every reader
    try:
        return not data.decode("utf-8").strip().startswith("<")
    except ValueError:
        return True


JUNK = st.one_of(
    st.sampled_from(TEXT_JUNK),
    st.binary(max_size=40),
    st.text(st.characters(codec="utf-8"), max_size=30).map(lambda s: s.encode("utf-8")),
    st.text(st.sampled_from('{}[]",:0123 \n\ttrue\\'), max_size=20).map(lambda s: s.encode()),
    st.tuples(st.sampled_from([b"\n", b" ", b"\r\n \r\n", b"\t"]), st.binary(min_size=1, max_size=20)).map(b"".join),
    st.sampled_from(["map", "tileset"]).flatmap(lambda k: st.integers(1, 60).map(lambda n: json.dumps({"type": k, "version": "1.10", "width": 3, "layers": [], "tilesets": []}).encode()[:n])),
).filter(is_junk)


@st.composite
def cases(draw):
    if draw(st.integers(0, 2)) == 0:
        doc = draw(gen.project(hi=2, ts_hi=2, maxobj=3))
        for i, ts in enumerate(doc["tilesets"]):
            if ts["ref"] != "embed":
                ts["file_ext2"] = draw(st.sampled_from(EXTS))
        for tpl in doc["templates"]:
            tpl["file_ext2"] = draw(st.sampled_from(EXTS))
        return {"k": "rename", "doc": doc, "fmt": draw(st.sampled_from(["tmx", "json"])), "map_ext": draw(st.sampled_from(EXTS)),
                "name": draw(st.sampled_from(["map", "a.tmx", "b.json", "tmx", "<x>", "{}", "m.tsx"]))}
    doc = draw(gen.project(hi=1, ts_hi=3, maxobj=1, rich=False, templates=False))
    return {"k": "junk", "doc": doc, "data": draw(JUNK).hex(), "ext": draw(st.sampled_from(EXTS)), "at": draw(st.integers(0, 3)),
            "dir": draw(st.sampled_from(gen.DIRS))}


class C17(Prop):
    id = "C17"
    rule = (
        "Two kinds of cases: (a) a random project whose map, tilesets and templates are renamed to arbitrary names and extensions "
        "of either or no format, whose model must equal that under the usual names; (b) bytes that are neither XML nor JSON by an "
        "independent test (empty, blank, binary, text, near-JSON), fed to parse_map and parse_tileset under any extension and as a "
        "tileset among the others of a TMX and a JSON map: each must raise UnknownFormat. Non-trivial: (a) a tileset or template "
        "file is renamed to the other format's extension, (b) not empty."
    )
    quick = 700
    thorough = 40000

    def strategy(self, tier):
        return cases()

    def check(self, case, env):
        (self.rename if case["k"] == "rename" else self.junk)(case, env)

    def rename(self, case, env):
        import copy

        seen = []
        for renamed in (False, True):
            env.fresh()
            doc = copy.deepcopy(case["doc"])
            knobs = {}
            if renamed:
                knobs["map_ext"] = case["map_ext"]
                doc["name"] = case["name"]
                for thing in doc["tilesets"] + doc["templates"]:
                    if "file_ext2" in thing:
                        thing["file_ext"] = thing["file_ext2"]
            writer = Writer(doc, case["fmt"], knobs)
            env.write(writer.contents())
            root = env.root
            obs = observe.map_(parse_map(os.path.join(root, writer.map_path())))
            obs["map_file"] = None
            alone = []
            for i, ts in enumerate(doc["tilesets"]):
                if ts["ref"] != "embed":
                    alone.append(observe.tileset(parse_tileset(os.path.join(root, writer.ts_path(i)))))
            seen.append(rebase((obs, alone), root))
        check_diff(observe.diff(list(seen[0]), list(seen[1])), f"{case['fmt']} (usual file names are 'expected')")

    def junk(self, case, env):
        data = bytes.fromhex(case["data"])
        unknown = api().UnknownFormat
        ext = "." + case["ext"] if case["ext"] else ""
        alone = os.path.join(env.root, "alone", "file" + ext)
        env.write({os.path.join("alone", "file" + ext): data})
        from pathlib import Path

        expect_raise(api().parse_map, Path(alone), types=(unknown,), what="parse_map of a file in no known format")
        expect_raise(api().parse_tileset, Path(alone), types=(unknown,), what="parse_tileset of a file in no known format")
        for fmt in ("tmx", "json"):
            doc = dict(case["doc"])
            n = max([t["firstgid"] + gen.span(t["def"]) for t in doc["tilesets"]] + [1])
            tilesets = list(doc["tilesets"])
            at = min(case["at"], len(tilesets))
            tilesets.insert(at, {"ref": "ext", "firstgid": n, "dir": case["dir"], "file": "bad", "file_ext": case["ext"],
                                 "def": {"name": "bad", "tw": 1, "th": 1, "count": 1, "cols": 1, "image": {"src": "x.png"}}})
            doc["tilesets"] = tilesets
            writer = Writer(doc, fmt)
            files = writer.contents()
            env.write(files)
            path = Path(os.path.join(env.root, writer.map_path()))
            try:
                api().parse_map(path)
            except Exception as exc:
                raise Violation(f"{fmt} map with a sound tileset raised {type(exc).__name__}: {exc}") from exc
            env.write({writer.ts_path(at): data})
            expect_raise(api().parse_map, path, types=(unknown,), what=f"parse_map of a {fmt} map with a tileset in no known format")

    def nontrivial(self, case):
        if case["k"] == "junk":
            return case["data"] != ""
        return any("file_ext2" in t for t in case["doc"]["tilesets"] + case["doc"]["templates"])

    def classes(self, case):
        if case["k"] == "rename":
            return ["renamed " + case["fmt"], "map extension " + case["map_ext"]] + ["tileset renamed" for t in case["doc"]["tilesets"] if "file_ext2" in t][:1] + [
                "template renamed" for _ in case["doc"]["templates"]][:1]
        data = bytes.fromhex(case["data"])
        kind = "empty" if not data else "blank" if not data.strip() else "text" if utf8(data) else "binary"
        return ["junk: " + kind]


def utf8(data):
    try:
        data.decode("utf-8")
        return True
    except ValueError:
        return False


def rebase(value, root):
    """Paths below the scratch directory, relative to it."""
    if isinstance(value, tuple) and len(value) == 2 and value[0] == "path":
        return ("path", os.path.normpath(value[1]).replace(root, "ROOT"))
    if isinstance(value, dict):
        return {k: rebase(v, root) for k, v in value.items()}
    if isinstance(value, list):
        return [rebase(v, root) for v in value]
    if isinstance(value, tuple):
        return tuple(rebase(v, root) for v in value)
    return value


PROP = C17()
