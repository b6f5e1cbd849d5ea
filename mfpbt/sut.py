"""Everything that touches the code under test."""

import contextlib
import io
import logging
import math
import os
import runpy
import signal
import sys

REPO = os.environ.get("MFPBT_REPO", "/repo")
CASE_CPU_SECONDS = 10


class CaseTimeout(BaseException):
    pass


class Violation(Exception):
    """The property doesn't hold"""


def load():
    if "markflow" in sys.modules:
        return sys.modules["markflow"]
    # So that it's only the code under test that is never loaded from a stale cache
    import rich.console  # noqa: F401
    import rich.logging  # noqa: F401
    import rich.markdown  # noqa: F401

    sys.pycache_prefix = "/nonexistent/mfpbt"
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)
    import markflow

    path = os.path.realpath(markflow.__file__)
    if not path.startswith(os.path.realpath(REPO) + os.sep):
        raise ImportError(f"markflow was imported from {path} instead of {REPO}")
    # Everything above is reported through return values and exceptions
    logging.getLogger("markflow").addHandler(logging.NullHandler())
    logging.getLogger("markflow").propagate = False
    return markflow


def _on_alarm(signum, frame):
    raise CaseTimeout(f"no result after {CASE_CPU_SECONDS} s of CPU time")


@contextlib.contextmanager
def watchdog():
    """CPU time (not wall clock) so that a busy machine can't cause it"""
    signal.signal(signal.SIGPROF, _on_alarm)
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_SECONDS)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def num(width):
    return math.inf if width == "inf" else width


def reformat(text, width=88):
    import markflow

    with watchdog():
        result = markflow.reformat_markdown_text(text, num(width))
    if type(result) is not str:
        raise Violation(f"the result is {result!r:.100} and not text")
    return result


def must(text, width=88):
    """The result for text that there has to be one for"""
    try:
        return reformat(text, width)
    except Violation:
        raise
    except Exception as e:  # noqa: B902 - whatever it is, it's wrong
        raise Violation(f"formatting fails with {type(e).__name__}: {e}") from e


def outcome(text, width=88):
    """(output, None) or (None, name of the exception)"""
    try:
        return reformat(text, width), None
    except Violation:
        raise
    except Exception as e:  # noqa: B902 - the caller judges it
        if is_documented(e):
            return None, type(e).__name__
        raise Violation(f"formatting fails with {type(e).__name__}: {e}") from e


def is_documented(exc):
    import markflow

    return isinstance(
        exc, (markflow.MarkdownFormatException, markflow.ReformatInconsistentException)
    )


class Stdin(io.TextIOWrapper):
    """A pipe or a terminal as far as MarkFlow can tell"""

    def __init__(self, text, terminal=False):
        super().__init__(io.BytesIO(text.encode()), encoding="utf-8")
        self.terminal = terminal

    def isatty(self):
        return self.terminal


@contextlib.contextmanager
def fresh_logging():
    """Each run of the CLI configures the root logger, which only works once"""
    root = logging.getLogger()
    ours = logging.getLogger("markflow")
    handlers, level = root.handlers[:], root.level
    loggers = {
        name: (lg.level, lg.propagate)
        for name, lg in logging.Logger.manager.loggerDict.items()
        if isinstance(lg, logging.Logger) and name.startswith("markflow")
    }
    root.handlers[:] = []
    ours.propagate = True
    try:
        yield
    finally:
        root.handlers[:] = handlers
        root.setLevel(level)
        for name, (lvl, propagate) in loggers.items():
            logging.getLogger(name).setLevel(lvl)
            logging.getLogger(name).propagate = propagate


def cli(argv, stdin="", cwd=None, terminal=False):
    """`python -m markflow` in this process: (exit status, stdout, stderr)"""
    out, err = io.StringIO(), io.StringIO()
    old = sys.argv, sys.stdin, os.getcwd(), dict(os.environ)
    sys.argv = ["markflow"] + list(argv)
    sys.stdin = Stdin(stdin, terminal)
    os.environ["COLUMNS"] = "4000"
    os.environ.pop("FORCE_COLOR", None)
    sys.modules.pop("markflow.__main__", None)
    if cwd:
        os.chdir(cwd)
    try:
        with fresh_logging(), watchdog(), contextlib.redirect_stdout(
            out
        ), contextlib.redirect_stderr(err):
            try:
                runpy.run_module("markflow", run_name="__main__", alter_sys=False)
                status = 0
            except SystemExit as e:
                if e.code is None:
                    status = 0
                elif isinstance(e.code, int):
                    status = e.code & 0xFF
                else:
                    print(e.code, file=sys.stderr)
                    status = 1
            except Exception as e:  # noqa: B902 - what the interpreter would do
                print(f"Traceback: {type(e).__name__}: {e}", file=sys.stderr)
                status = 1
    finally:
        sys.argv, sys.stdin = old[0], old[1]
        os.chdir(old[2])
        os.environ.clear()
        os.environ.update(old[3])
    return status, out.getvalue(), err.getvalue()
