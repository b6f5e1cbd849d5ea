"""How much more work longer and deeper texts are"""

import json
import math
import os
import sys

from .. import gen, soup, sut
from .base import Check, show

CHECKS = []

# A text four times as large may be as much more work: less than the fifth power of its
# size. (Twice as large isn't enough to tell, as lines that don't fit anymore may be a
# reason for more work, too.)
FACTOR = 576
# Sizes are usually doubled while formatting takes at most as many calls
ENOUGH = 150_000
PREFIXES = ["> ", "> ", ">", "- ", "* ", "1. ", "  ", "   > ", "  - ", "    ", "\t"]
PIECES = [
    "[a](b) ", "[a][b] ", "`", "`a` ", "``", "[", "](", ")", "![", "[![a](b)](c) ", "*a* ",
    "a  \n", "a\n", "a ", "<br>", "\\", "(", "<", "#", "[a]: b\n", "'x ", '"x ', "|", "a.",
    "`a ", "[a b", "] ", "![a](b)", "](a ", "[`a`](b)", "\n", " ", "_", "-", "=\n",
]
# What runs of the same characters are in
HEADS = [
    "", "a ", "|a|\n|", "|a|\n|-|\n|", "[", "![", "[a]: ", "[a]: b '", "[a]: b\n\"", "[a](", "[a][", "#",
    "# ", "```", "~~~\n", "> ", "- ", "1", "1. ", "<br", "`", "a\n", "    ", "\\", "a\n\n",
]
RUNS = list("-=:*_#>|[]()`~\\ \t<a.1\"'!/+\n") + ["a ", "a b", "\\a", "- ", "b\n", "><", ")("]
TAILS = ["", "x", "x|", "|", "]", "]:", "]: u", "(", "`", "\"", "' x", ".", " ", "\\", "\n|", ">"]
ENDS = ["", "\n", "\nlazy\n", "\n\nend\n", "\n===\n", "\n---\n", "\n> q\n"]


class TooMany(BaseException):
    pass


def calls(text, width, most):
    """The number of calls and returns of functions, or None if there are more

    In a process of its own so that nothing that is remembered from other texts helps.
    """
    reader, writer = os.pipe()
    pid = os.fork()
    if not pid:
        try:
            os.close(reader)
            try:
                result = counted(text, width, most)
            except (sut.Violation, sut.CaseTimeout) as e:
                result = str(e)
            os.write(writer, json.dumps(result).encode()[:4000])
        finally:
            os._exit(0)
    os.close(writer)
    with open(reader, "rb") as file:
        result = file.read()
    os.waitpid(pid, 0)
    if not result:
        raise sut.Violation(f"formatting {show(text, 300)} ends the process")
    result = json.loads(result)
    if isinstance(result, str):
        raise sut.Violation(result)
    return result


def counted(text, width, most):
    import markflow

    count = 0

    def profile(frame, event, arg):
        nonlocal count
        count += 1
        if count > most:
            raise TooMany

    try:
        with sut.watchdog():
            sys.setprofile(profile)
            try:
                markflow.reformat_markdown_text(text, sut.num(width))
            finally:
                sys.setprofile(None)
    except TooMany:
        return None
    except Exception as e:  # noqa: B902 - the caller judges it
        if not sut.is_documented(e) and not isinstance(e, RecursionError):
            raise sut.Violation(f"formatting fails with {type(e).__name__}: {e}") from e
    return count


def build(case, n):
    """The text with n repetitions"""
    prefix = "".join(case["pre"])
    leaves = case["leaf"]
    kind = case["kind"]
    if kind == "inline":
        return "".join(case["pre"][:1]) + "a " + "".join(leaves) * n + case["end"]
    if kind == "run":
        return case["head"] + "".join(leaves) * n + case["tail"] + case["end"]
    levels = {
        "deep": [n], "deeper": range(1, n + 1), "flatter": range(n, 0, -1),
        "mountain": list(range(1, n // 2 + 1)) + list(range(n // 2, 0, -1)),
        "long": [case["depth"]] * n,
    }[kind]
    if case["step"]:
        # Each of the levels has one of the leaves
        rows = [prefix * d + leaves[i % len(leaves)] for i, d in enumerate(levels)]
    else:
        rows = [prefix * d + leaf for d in levels for leaf in leaves]
    return "\n".join(rows) + case["end"]


class Growth(Check):
    id = "C33"
    rule = (
        "Texts of growing sizes: the same lines over and over, at deeper and deeper levels "
        "of nesting or back, text with many repetitions of the same markup, and long runs of "
        "the same characters with others before and after them. Non-trivial: formatting the "
        "largest one takes at least 20000 calls of functions, or it has such a run."
    )
    quick, thorough = 200, 4000
    most = 0

    def gen(self, d):
        kind = d.c(["long", "deep", "deeper", "flatter", "mountain", "inline", "run"])
        pieces = soup.FRAGMENTS + PIECES
        if kind in ("inline", "run"):
            pieces = RUNS if kind == "run" else PIECES
        return {
            "kind": kind,
            "pre": [d.c(PREFIXES) for _ in range(d.i(1, 2))],
            "leaf": [d.c(pieces).rstrip("\n" * (kind not in ("inline", "run")))
                     for _ in range(d.i(1, 3))],
            "depth": d.i(0, 4),
            "start": d.i(3, 7),
            "step": d.p(1, 3),
            "end": d.c(ENDS),
            "width": gen.width(d),
            **({"head": d.c(HEADS), "tail": d.c(TAILS)} if kind == "run" else {}),
        }

    def sizes(self, case):
        most = 512 if case["kind"] in ("long", "inline", "run") else 40
        n, counts = case["start"], []
        while n <= most:
            text = build(case, n)
            before = counts[-2:][0] if counts else None
            limit = math.inf if before is None else FACTOR * max(before, 1000)
            count = calls(text, case["width"], limit)
            yield n, text, before, count
            if count is None:
                return
            n *= 2
            counts.append(count)
            # A lot more than the size before has to be looked at more closely
            if count > ENOUGH and count < 24 * max(counts[-2:][0], 1000):
                return

    def judge(self, case):
        self.most = 0
        for n, text, before, count in self.sizes(case):
            self.most = count
            if count is None:
                return (
                    f"{show(text, 300)} of {n} repetitions takes more than {FACTOR} times "
                    f"as many calls of functions as one of a quarter of its size ({before})"
                )
        return None

    def nontrivial(self, case):
        # (Only asked after the case has been judged)
        return self.most >= 20000 or case["kind"] == "run"

    def labels(self, case):
        yield case["kind"]


CHECKS.append(Growth())
