"""One worker process of a check: `shard.py PID tier seed shard outfile` or
`shard.py --replay file`."""
import hashlib
import importlib
import json
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import boot  # noqa: E402

boot.setup()


def load(pid):
    return importlib.import_module("vf.props." + pid.lower()).PROP


def case_key(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()


def corpus(pid):
    folder = os.path.join(boot.VERIF, "corpus", pid)
    if os.path.isdir(folder):
        for name in sorted(os.listdir(folder)):
            if name.endswith(".json"):
                with open(os.path.join(folder, name), encoding="utf-8") as f:
                    yield json.load(f)["case"]


def twists(case):
    doc = case.get("doc") if isinstance(case, dict) else None
    return ["twist " + t for t in doc.get("twists", [])] if isinstance(doc, dict) else []


def run_shard(pid, tier, seed, shard, outfile):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis.internal.conjecture import engine

    from vf.core import Env, Violation

    engine.MAX_SHRINKING_SECONDS = int(os.environ.get("VERIF_SHRINK_SECONDS", 25))
    prop = load(pid)
    env = Env()
    started = time.time()
    limit = float(os.environ.get("VERIF_SHARD_SECONDS", 0)) or (150 if tier == "quick" else 780)
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    n = max(1, int((prop.quick * 2.5 if tier == "quick" else prop.thorough) * scale))
    stats = {"evaluations": 0, "classes": {}, "keys": set(), "samples": [], "skipped": 0}
    last = {}

    def one(case):
        if time.time() - started > limit and not last:
            stats["skipped"] += 1
            return
        if not last:
            stats["evaluations"] += 1
            if prop.nontrivial(case):
                key = case_key(case)
                if key not in stats["keys"]:
                    stats["keys"].add(key)
                    if len(stats["samples"]) < 3 and stats["evaluations"] > 20:
                        stats["samples"].append(prop.summary(case))
                for c in prop.classes(case) + twists(case):
                    stats["classes"][c] = stats["classes"].get(c, 0) + 1
        try:
            prop.run_case(case, env)
        except Violation as exc:
            last["case"], last["message"] = case, str(exc)
            raise

    result = {"violation": None, "error": None}
    try:
        prop.setup(env)
        if shard == 0:
            for case in corpus(pid):
                one(case)
        for case in prop.fixed(tier, seed, shard):
            one(case)
        if prop.strategy(tier) is not None:
            test = given(prop.strategy(tier))(one)
            test = settings(
                max_examples=n,
                database=None,
                deadline=None,
                report_multiple_bugs=False,
                suppress_health_check=list(HealthCheck),
                phases=(Phase.generate, Phase.shrink),
                print_blob=False,
            )(test)
            test = hypothesis.seed(int(hashlib.sha1(f"{pid}/{seed}/{shard}".encode()).hexdigest()[:12], 16))(test)
            test()
    except Violation:
        result["violation"] = dict(last)
    except BaseException as exc:  # noqa
        if last:
            # Hypothesis could not reproduce the failure on a second run of the same case;
            # the recorded case did break the property, so it is reported.
            result["violation"] = dict(last)
            result["violation"]["message"] += f" [{type(exc).__name__}: not repeatable in one process]"
        else:
            import traceback

            result["error"] = traceback.format_exc()[-3000:]
    finally:
        env.close()
    result.update(
        evaluations=stats["evaluations"],
        keys=sorted(stats["keys"]),
        classes=stats["classes"],
        samples=stats["samples"],
        skipped=stats["skipped"],
    )
    with open(outfile, "w", encoding="utf-8") as f:
        json.dump(result, f)


def replay(path):
    from vf.core import Env, Violation

    with open(path, encoding="utf-8") as f:
        data = json.load(f)
    prop = load(data["property"])
    env = Env()
    try:
        prop.setup(env)
        prop.run_case(data["case"], env)
    except Violation as exc:
        print("reproduced:", str(exc).encode("ascii", "backslashreplace").decode())
        return 1
    finally:
        env.close()
    print("not reproduced: the property holds for this case")
    return 0


if __name__ == "__main__":
    if sys.argv[1] == "--replay":
        sys.exit(replay(sys.argv[2]))
    run_shard(sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), sys.argv[5])
