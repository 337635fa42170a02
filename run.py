#!/usr/bin/env python3
"""Runs the check of one property:

    run.py C01 [--tier quick|thorough] [--seed N]
    run.py --replay replay/C01-xxxx.json

Exit 0: held on everything explored.  Exit 1 and a VIOLATION line: broken.  Other: the check
itself failed.  Works on /repo's current working tree; writes evidence/<id>.json.
"""
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PYTHON = "/opt/venv/bin/python"
sys.path.insert(0, HERE)


def load_prop(pid):
    from vf import boot

    boot.setup()
    import importlib

    return importlib.import_module("vf.props." + pid.lower()).PROP


def base_env(tmp):
    env = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "LC_", "HYPOTHESIS"))}
    env.update(
        PYTHONHASHSEED="0",
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONPYCACHEPREFIX=os.path.join(tmp, "pyc"),
        LANG="C.UTF-8",
        HOME=tmp,
        TMPDIR=tmp,
    )
    return env


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    args = ap.parse_args()
    tmp = os.path.realpath(tempfile.mkdtemp(prefix="vfrun-"))
    try:
        return run(args, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def shard_cmd(prop, shard, *rest):
    return [PYTHON, *prop.shard_flags(shard), os.path.join(HERE, "vf", "shard.py"), *rest]


def run(args, tmp):
    env = base_env(tmp)
    if args.replay:
        with open(args.replay, encoding="utf-8") as f:
            data = json.load(f)
        prop = load_prop(data["property"])
        shard = data.get("shard", 0)  # the settings of the worker process may matter
        code = subprocess.run(
            shard_cmd(prop, shard, "--replay", os.path.abspath(args.replay)), env={**env, **prop.shard_env(shard)}, cwd=tmp
        ).returncode
        if code == 1:
            print(f"VIOLATION property={data['property']} replay={args.replay}")
        return code
    pid, tier, seed = args.property, args.tier, args.seed
    prop = load_prop(pid)
    started = time.time()
    procs = []
    for shard in range(prop.shards):
        out = os.path.join(tmp, f"out{shard}.json")
        log = open(os.path.join(tmp, f"log{shard}"), "wb")
        proc = subprocess.Popen(
            shard_cmd(prop, shard, pid, tier, str(seed), str(shard), out),
            env={**env, **prop.shard_env(shard)}, cwd=tmp, stdout=log, stderr=log, stdin=subprocess.DEVNULL,
        )
        procs.append((shard, proc, out, log.name))
        log.close()
    limit = started + (400 if tier == "quick" else 1500)
    results, errors, violation = {}, [], None
    pending = list(procs)
    while pending:
        for item in list(pending):
            shard, proc, out, log = item
            if proc.poll() is None:
                continue
            pending.remove(item)
            if os.path.exists(out):
                with open(out, encoding="utf-8") as f:
                    results[shard] = json.load(f)
                if results[shard]["violation"] and violation is None:
                    violation = dict(results[shard]["violation"], shard=shard)
                if results[shard]["error"]:
                    errors.append(f"shard {shard}: {results[shard]['error']}")
            else:
                with open(log, "rb") as f:
                    errors.append(f"shard {shard} ended with {proc.returncode}: {f.read()[-1500:].decode('utf-8', 'replace')}")
        if violation or time.time() > limit:
            for _, proc, _, _ in pending:
                proc.kill()
                proc.wait()
            if not violation:
                errors.append(f"{len(pending)} shards ran out of time")
            break
        time.sleep(0.02)

    keys, classes, samples, evaluations, skipped = set(), {}, [], 0, 0
    for shard in sorted(results):
        r = results[shard]
        evaluations += r["evaluations"]
        skipped += r["skipped"]
        keys.update(r["keys"])
        for c, n in r["classes"].items():
            classes[c] = classes.get(c, 0) + n
        samples += r["samples"][: 1 if len(samples) >= 2 else 2]
    evidence = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(keys),
            "rule": prop.rule,
            "samples": samples[:4],
            "cases_per_class": dict(sorted(classes.items())),
            "shards": len(results),
            "cases_skipped_for_time": skipped,
        },
        "assumptions": getattr(prop, "assumptions", []),
        "wall_s": round(time.time() - started, 2),
        "violations": 1 if violation else 0,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w", encoding="utf-8") as f:
        json.dump(evidence, f, indent=1, ensure_ascii=True)
        f.write("\n")

    if violation:
        import hashlib

        text = json.dumps(violation["case"], sort_keys=True)
        name = f"{pid}-{hashlib.sha1(text.encode()).hexdigest()[:10]}.json"
        os.makedirs(os.path.join(HERE, "replay"), exist_ok=True)
        with open(os.path.join(HERE, "replay", name), "w", encoding="utf-8") as f:
            json.dump({"property": pid, "message": violation["message"], "shard": violation["shard"], "case": violation["case"]}, f, indent=1)
        print(violation["message"].encode("ascii", "backslashreplace").decode())
        print(f"VIOLATION property={pid} replay=replay/{name}")
        return 1
    if errors:
        print("CHECK ERROR (no verdict):", "\n".join(errors)[:6000], file=sys.stderr)
        return 2
    print(f"{pid} {tier} seed={seed}: held on {evaluations} cases ({len(keys)} distinct non-trivial), {evidence['wall_s']} s")
    return 0


if __name__ == "__main__":
    sys.exit(main())
