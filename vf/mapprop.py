"""Base of the checks that compare one parsed map with the reference model."""
import os

from . import observe
from .compare import resolve_templates
from .core import Prop, check_diff, parse_map
from .emit import Writer, emit, to_bytes
from .expect import Expect


def flat_layers(layers):
    for l in layers:
        yield l
        if l.get("k", l.get("kind")) == "group":
            yield from flat_layers(l["layers"])


def only(keys):
    """projection of every layer, at any depth, onto some keys"""

    def proj(layers):
        out = []
        for l in layers:
            kept = {k: l[k] for k in keys if k in l}
            if l["kind"] == "group":
                kept["layers"] = proj(l["layers"])
            out.append(kept)
        return out

    return lambda canon: {"layers": proj(canon["layers"])}


class MapProp(Prop):
    """case: {"doc", "fmt", "knobs"?, "style"?}"""

    select = staticmethod(lambda canon: canon)

    def produce(self, case, env):
        writer = Writer(case["doc"], case["fmt"], case.get("knobs"))
        files = {p: to_bytes(t, case.get("style") or case["doc"].get("layout")) for p, t in writer.trees().items()}
        env.write(files)
        return writer, os.path.join(env.root, writer.map_path())

    def check(self, case, env):
        writer, path = self.produce(case, env)
        parsed = parse_map(path)
        ex = Expect(case["doc"], env.root, case["fmt"], writer)
        exp, obs = ex.map(), observe.map_(parsed)
        problems = resolve_templates(exp, obs, case["doc"], ex)
        self.verify(case, exp, obs, problems, env)

    def verify(self, case, exp, obs, problems, env):
        check_diff(observe.diff(self.select(exp), self.select(obs)), case["fmt"])
