"""Runs the commands as a user would, in-process or as a real process, in a scratch directory."""

import builtins
import io
import os
import subprocess
import sys

from . import core, impl
from .core import Stuck, Violation

PY = sys.executable


def outcome(f):
    """Exit status of a command's main function."""
    try:
        f()
    except SystemExit as e:
        return 0 if e.code is None else e.code if isinstance(e.code, int) else 1
    except (Stuck, Violation):
        raise
    except BaseException:
        return 1
    return 0


class Stdin(io.StringIO):
    def isatty(self):
        return True

    def close(self):
        """exit() closes standard input"""


def run(main, argv, cwd, stdin=""):
    """(status, stdout) of a main function, with the process's argv, cwd and standard input."""
    old = sys.argv, os.getcwd(), sys.stdin, sys.stdout, sys.stderr
    out = io.StringIO()
    sys.argv = list(argv)
    sys.stdin = Stdin(stdin)
    sys.stdout, sys.stderr = out, io.StringIO()
    os.chdir(cwd)
    try:
        st = outcome(main)
        left = sys.stdin.read()
    finally:
        sys.argv, sys.stdin, sys.stdout, sys.stderr = old[0], old[2], old[3], old[4]
        os.chdir(old[1])
    return st, out.getvalue(), left


def convert(args, cwd, stdin=""):
    return run(impl.convert.main, ["palworld-save-tools", *args], cwd, stdin)


def process(module, args, cwd, stdin="", env=None, pre=None):
    """(status, stdout, stderr) of the command as a process of its own."""
    e = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "VERIF_")) and k not in ("DEBUG", "FORCE_STDLIB_ONLY")}
    e.update(PYTHONPATH=core.REPO, PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX="/nonexistent-cache")
    e.update(env or {})
    r = subprocess.run(
        [PY, "-m", module, *args], cwd=cwd, input=stdin.encode(), env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=pre
    )
    return r.returncode, r.stdout, r.stderr


CONVERT = "palworld_save_tools.commands.convert"
RESAVE = "palworld_save_tools.commands.resave_test"


def snapshot(root):
    """Every path below root with its kind and content."""
    out = {}
    for d, dirs, files in os.walk(root):
        for n in dirs:
            p = os.path.join(d, n)
            out[os.path.relpath(p, root)] = os.readlink(p) if os.path.islink(p) else "dir"
        for n in files:
            p = os.path.join(d, n)
            rel = os.path.relpath(p, root)
            try:
                with open(p, "rb") as f:
                    out[rel] = f.read()
            except OSError:
                if not os.path.islink(p):
                    raise
                out[rel] = ("dangling", os.readlink(p))
    return out


def changed(a, b):
    return sorted(k for k in a.keys() | b.keys() if a.get(k) != b.get(k))
