"""Serialisers for XML and JSON with a controllable layout.  Written independently of the
code under test (no ElementTree on the writing side)."""
import json
import random

CANON = {}  # the canonical style


class X:
    """A minimal XML element: tag, ordered attributes, children or text."""

    __slots__ = ("tag", "attrs", "kids", "text")

    def __init__(self, tag, attrs=None, kids=None, text=None):
        self.tag = tag
        self.attrs = dict(attrs or {})
        self.kids = list(kids or [])
        self.text = text

    def walk(self):
        yield self
        for kid in self.kids:
            yield from kid.walk()


def _esc_attr(value, quote, rng, mode):
    out = []
    for ch in value:
        if ch == "&":
            out.append("&amp;")
        elif ch == "<":
            out.append("&lt;")
        elif ch == ">":
            out.append("&gt;" if not rng or rng.random() < 0.7 else ">")
        elif ch == '"':
            out.append("&quot;" if quote == '"' or not rng or rng.random() < 0.5 else ch)
        elif ch == "'":
            out.append("&apos;" if quote == "'" or (rng and rng.random() < 0.5) else ch)
        elif ch in "\n\r\t":
            out.append(f"&#{ord(ch)};")
        elif mode == "entities" and (ord(ch) > 126 or rng.random() < 0.2):
            out.append(f"&#x{ord(ch):x};" if rng.random() < 0.5 else f"&#{ord(ch)};")
        elif mode == "ascii" and ord(ch) > 126:
            out.append(f"&#{ord(ch)};")
        else:
            out.append(ch)
    return "".join(out)


def _esc_text(value, rng, mode):
    out = []
    for ch in value:
        if ch == "&":
            out.append("&amp;")
        elif ch == "<":
            out.append("&lt;")
        elif ch == ">":
            out.append("&gt;")
        elif ch == "\r":
            out.append("&#13;")
        elif mode == "entities" and ch not in "\n\t " and (ord(ch) > 126 or rng.random() < 0.2):
            out.append(f"&#x{ord(ch):X};" if rng.random() < 0.5 else f"&#{ord(ch)};")
        elif mode == "ascii" and ord(ch) > 126:
            out.append(f"&#{ord(ch)};")
        else:
            out.append(ch)
    return "".join(out)


LAYERS = {"layer", "objectgroup", "imagelayer", "group"}


def regrouped(kids, rng):
    """Other order of elements of different kinds; those of one kind (the layers, whatever
    their type, are one) keep theirs."""
    kinds = {}
    for kid in kids:
        kinds.setdefault("layer" if kid.tag in LAYERS else kid.tag, []).append(kid)
    if len(kinds) < 2 or rng.random() < 0.2:
        return kids
    if rng.random() < 0.5:  # whole kinds
        order = list(kinds.values())
        rng.shuffle(order)
        return [kid for part in order for kid in part]
    left = [k for k, part in kinds.items() for _ in part]
    rng.shuffle(left)
    queues = {k: iter(part) for k, part in kinds.items()}
    return [next(queues[k]) for k in left]


def xml_bytes(root, style=None):
    """style keys: seed, decl (bool), indent (str or None), eol, shuffle, comments, pair,
    single (quote), escape (""|"entities"|"ascii"), blank (leading blank lines, no decl),
    regroup (elements of different kinds in another order)"""
    style = style or {}
    rng = random.Random(style.get("seed", 0)) if style else None
    eol = style.get("eol", "\n")
    indent = style.get("indent", " ")
    mode = style.get("escape", "")
    out = []
    if style.get("decl", True) and not style.get("blank"):
        out.append('<?xml version="1.0" encoding="UTF-8"?>')
        out.append(eol)
    if style.get("blank"):
        out.append(eol + " " + eol)
    if style.get("doctype"):
        out.append(f'<!DOCTYPE {root.tag} SYSTEM "http://mapeditor.org/dtd/1.0/map.dtd">' + eol)

    def newline(depth):
        if indent is not None:
            out.append(eol + indent * depth)
            if style.get("blank_lines") and rng.random() < 0.2:
                out.append(eol + indent * depth)

    def write(node, depth):
        items = list(node.attrs.items())
        if style.get("shuffle"):
            rng.shuffle(items)
        quote = "'" if style.get("single") and rng.random() < 0.5 else '"'
        out.append("<" + node.tag)
        for key, value in items:
            sep = " "
            if style.get("attr_ws") and rng.random() < 0.3:
                sep = rng.choice(["  ", eol + "  ", "\t"])
            out.append(f"{sep}{key}={quote}{_esc_attr(value, quote, rng, mode)}{quote}")
        if node.text is None and not node.kids:
            if style.get("pair") and rng.random() < 0.5:
                out.append(f"></{node.tag}>")
            else:
                out.append(" />" if style.get("pair") else "/>")
            return
        out.append(">")
        if node.text is not None:
            text = _esc_text(node.text, rng, mode)
            if eol != "\n":
                text = text.replace("\n", eol)
            if (
                style.get("cdata")
                and "]]>" not in node.text
                and "\r" not in node.text
                and rng.random() < 0.5
            ):
                raw = node.text if eol == "\n" else node.text.replace("\n", eol)
                text = "<![CDATA[" + raw + "]]>"
            out.append(text)
        for kid in regrouped(node.kids, rng) if style.get("regroup") else node.kids:
            newline(depth + 1)
            if style.get("comments") and rng.random() < 0.25:
                out.append(rng.choice(["<!-- note -->", "<!-- <layer id='9'/> -->", "<?editor x?>"]))
                newline(depth + 1)
            write(kid, depth + 1)
        if node.kids:
            newline(depth)
        out.append(f"</{node.tag}>")

    write(root, 0)
    if style.get("final_eol", True):
        out.append(eol)
    if style.get("trail"):
        out.append(rng.choice(["<!-- end -->", eol, "  " + eol]))
    return "".join(out).encode("utf-8")


def _json_str(value, rng, mode):
    if mode == "ascii":
        return json.dumps(value, ensure_ascii=True)
    text = json.dumps(value, ensure_ascii=False)
    if mode != "entities":
        return text
    out = ['"']
    for ch in value:
        code = ord(ch)
        if ch == "/" and rng.random() < 0.5:
            out.append("\\/")
        elif code >= 0x10000 and rng.random() < 0.6:
            code -= 0x10000
            out.append("\\u%04x\\u%04X" % (0xD800 + (code >> 10), 0xDC00 + (code & 0x3FF)))
        elif code < 0x10000 and rng.random() < 0.3:
            out.append("\\u%04X" % code)
        else:
            out.append(json.dumps(ch, ensure_ascii=False)[1:-1])
    out.append('"')
    return "".join(out)


def json_bytes(value, style=None):
    """style keys: seed, indent, eol, shuffle, escape, ws (random whitespace)"""
    style = style or {}
    rng = random.Random(style.get("seed", 0)) if style else None
    eol = style.get("eol", "\n")
    indent = style.get("indent", " ")
    mode = style.get("escape", "")
    out = []

    def ws():
        if style.get("ws") and rng.random() < 0.3:
            out.append(rng.choice([" ", "  ", "\t", eol, eol + eol + " "]))

    def newline(depth):
        if indent is not None:
            out.append(eol + indent * depth)

    def write(node, depth):
        if isinstance(node, dict):
            items = list(node.items())
            if style.get("shuffle") and not all(k.isdigit() for k, _ in items):  # tiles by id are a list
                rng.shuffle(items)
            out.append("{")
            for pos, (key, val) in enumerate(items):
                newline(depth + 1)
                ws()
                out.append(_json_str(key, rng, mode))
                ws()
                out.append(":")
                ws()
                write(val, depth + 1)
                ws()
                if pos + 1 < len(items):
                    out.append(",")
            if items:
                newline(depth)
            out.append("}")
        elif isinstance(node, (list, tuple)):
            out.append("[")
            for pos, val in enumerate(node):
                ws()
                write(val, depth + 1)
                ws()
                if pos + 1 < len(node):
                    out.append(", ")
            out.append("]")
        elif isinstance(node, str):
            out.append(_json_str(node, rng, mode))
        else:
            out.append(json.dumps(node))

    if style.get("blank"):
        out.append(eol + " " + eol)
    write(value, 0)
    if style.get("final_eol", True):
        out.append(eol)
    return "".join(out).encode("utf-8")
