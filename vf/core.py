"""Shared pieces of every check: violations, scratch directories, guarded calls."""
import json
import os
import shutil
import signal
import tempfile
import traceback
from pathlib import Path


class Violation(Exception):
    """The property does not hold for this case."""


class Hang(BaseException):
    pass


def fail(message):
    raise Violation(message)


def check_diff(problems, context=""):
    if problems:
        raise Violation((context + ": " if context else "") + "; ".join(problems[:6]))


class Env:
    """Per-process scratch space.  Every case gets an empty directory, removed afterwards."""

    def __init__(self):
        self.base = os.path.realpath(tempfile.mkdtemp(prefix="vf-"))
        self.n = 0
        self.root = None

    def fresh(self):
        self.clear()
        self.n += 1
        self.root = os.path.join(self.base, "p%d" % self.n)
        os.mkdir(self.root)
        return self.root

    def clear(self):
        if self.root and self.root.startswith(self.base + os.sep):
            shutil.rmtree(self.root, ignore_errors=True)
        self.root = None

    def close(self):
        self.clear()
        shutil.rmtree(self.base, ignore_errors=True)

    def write(self, files, root=None):
        root = root or self.root
        for rel, data in files.items():
            target = os.path.join(root, rel)
            os.makedirs(os.path.dirname(target), exist_ok=True)
            with open(target, "wb") as f:
                f.write(data)
        return root


def describe(exc):
    last = traceback.extract_tb(exc.__traceback__)
    where = f" at {os.path.basename(last[-1].filename)}:{last[-1].lineno}" if last else ""
    return f"{type(exc).__name__}: {str(exc)[:200]}{where}"


def call(fn, *args, **kw):
    """Runs code under test on valid input: any exception is a violation."""
    try:
        return fn(*args, **kw)
    except (Violation, Hang, KeyboardInterrupt):
        raise
    except BaseException as exc:  # noqa: SystemExit too
        raise Violation(f"{getattr(fn, '__name__', fn)} raised {describe(exc)}") from exc


def outcome(fn, *args, **kw):
    """('ok', value) or ('raise', exception)"""
    try:
        return ("ok", fn(*args, **kw))
    except (Violation, Hang, KeyboardInterrupt):
        raise
    except BaseException as exc:
        return ("raise", exc)


def expect_raise(fn, *args, types=(Exception,), what=""):
    kind, value = outcome(fn, *args)
    if kind == "ok":
        raise Violation(f"{what}: parsed without an error")
    if not isinstance(value, types):
        names = ", ".join(t.__name__ for t in types)
        raise Violation(f"{what}: raised {describe(value)} instead of {names}")
    return value


def api():
    import pytiled_parser

    return pytiled_parser


def parse_map(path):
    return call(api().parse_map, Path(path))


def parse_tileset(path):
    return call(api().parse_tileset, Path(path))


def parse_world(path):
    return call(api().parse_world, Path(path))


class alarm:
    """Turns a hang of the code under test into an exception."""

    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        def handler(signum, frame):
            raise Hang(f"no result after {self.seconds} s")

        self.old = signal.signal(signal.SIGALRM, handler)
        signal.alarm(self.seconds)

    def __exit__(self, *exc):
        signal.alarm(0)
        signal.signal(signal.SIGALRM, self.old)
        return False


class Prop:
    id = ""
    rule = ""
    quick = 400      # examples per shard
    thorough = 6000
    shards = 7
    hang = 30
    uses_threads = False

    def strategy(self, tier):
        raise NotImplementedError

    def fixed(self, tier, seed, shard):
        """Cases to run whatever the generator draws, e.g. an enumeration split over the shards."""
        return []

    def check(self, case, env):
        raise NotImplementedError

    def nontrivial(self, case):
        return True

    def classes(self, case):
        return []

    def shard_env(self, shard):
        return {}

    def shard_flags(self, shard):
        return []

    def setup(self, env):
        pass

    def summary(self, case):
        """A compact, readable form for the evidence samples."""
        text = json.dumps(case, ensure_ascii=True)
        return json.loads(text) if len(text) <= 3000 else text[:3000] + "..."

    def run_case(self, case, env):
        env.fresh()
        try:
            with alarm(self.hang):
                self.check(case, env)
        except Hang as exc:
            raise Violation(f"hang: {exc}") from exc
        except (AttributeError, TypeError, ValueError, LookupError, ArithmeticError) as exc:
            # the checks read results through documented attributes: where that fails, the
            # library returned something that is not what it documents
            raise Violation(f"the result is not as documented: reading it raised {describe(exc)}") from exc
        finally:
            env.clear()
