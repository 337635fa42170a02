"""Environment set-up shared by every check: makes the code under test importable from
/repo's working tree (never from a stale cache) and Hypothesis importable from the
pre-installed tool environment."""
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STANDIN = os.path.join(VERIF, "vf", "standin")
TOOL_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def setup():
    """Import paths.  /repo first, tools last so that the code under test keeps using the
    interpreter's own third-party packages (attrs, typing_extensions)."""
    sys.dont_write_bytecode = True
    if REPO in sys.path:
        sys.path.remove(REPO)
    sys.path.insert(0, REPO)
    if VERIF not in sys.path:
        sys.path.insert(1, VERIF)
    if os.environ.get("VERIF_ZSTD") and STANDIN not in sys.path:
        sys.path.insert(2, STANDIN)
    if TOOL_SITE not in sys.path:
        sys.path.append(TOOL_SITE)
    import pytiled_parser

    where = os.path.realpath(pytiled_parser.__file__)
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        raise SystemExit(f"harness error: pytiled_parser imported from {where}, not {REPO}")
