from hypothesis import strategies as st

from .. import bulk
from ..core import Prop, call, fail, parse_map, parse_tileset, parse_world

COMBOS = list(bulk.all_kinds())


@st.composite
def cases(draw):
    kind, fmt, way = draw(st.sampled_from(COMBOS))
    top = bulk.KINDS[kind][2]
    # around powers of two and ten, and anything else
    edge = draw(st.sampled_from([2**k for k in range(8, 18)] + [1000, 10000, 100000]))
    salt = draw(st.integers(0, 65520))
    n = draw(st.sampled_from([300 + salt * 7919 % top, min(top, edge) + salt % 5 - 2]))
    return {"k": kind, "fmt": fmt, "way": way, "n": n, "salt": salt}


def short(x):
    text = repr(x)
    return text if len(text) < 150 else text[:150] + "..."


class C34(Prop):
    id = "C34"
    rule = (
        "A case is a file with n elements of one of 22 kinds (objects, points, properties of each owner, layers, rows, columns, chunks, tilesets, "
        "tiles, tile images, frames, collision objects, Wang sets, colours and tiles, template instances, text, world maps, matching files), with n "
        "from 300 to 200 000 and often next to a power of two or ten, in either format and every way of storing it; each element's values "
        "follow from its number and a random salt; every kind, format and way of storing is also tried once with its largest n, more than 65 536 where "
        "that takes less than a few seconds. Every element must come back in order with its values. Non-trivial: every case."
    )
    quick = 45
    thorough = 2500
    hang = 60

    def fixed(self, tier, seed, shard):
        for i, (kind, fmt, way) in enumerate(COMBOS):
            if i % self.shards == shard:
                top = bulk.KINDS[kind][2]
                yield {"k": kind, "fmt": fmt, "way": way, "n": max(top, 66000) if top > 10000 else top, "salt": seed * 31 % 65521}

    def strategy(self, tier):
        return cases()

    def check(self, case, env):
        fn, files, main, see, due = bulk.build(case["k"], case["fmt"], case["n"], case["salt"], case["way"])
        env.write(files)
        parsed = {"parse_map": parse_map, "parse_tileset": parse_tileset, "parse_world": parse_world}[fn](env.root + "/" + main)
        got = call(see, parsed)
        if got != due:
            at = next((i for i, (a, b) in enumerate(zip(got, due)) if a != b), min(len(got), len(due)))
            what = f"{case['fmt']} {case['way']} with {case['n']} {case['k']}: "
            fail(what + f"{len(got)} come back, number {at} is {short(got[at] if at < len(got) else None)} instead of {short(due[at] if at < len(due) else None)}")

    def classes(self, case):
        return [case["k"], case["fmt"]]


PROP = C34()
