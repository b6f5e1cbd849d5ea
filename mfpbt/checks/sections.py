"""What each type of section is formatted to"""

import re

from .. import gen, messy, model, render, sut
from .base import (
    Check,
    ModelCheck,
    depth,
    differ,
    draw_case,
    draw_opts,
    draw_style,
    kinds,
    only,
    show,
    tokens,
)

CHECKS = []
SIMPLE = tokens(s=1, c=1, l=1)


def register(cls):
    CHECKS.append(cls())
    return cls


def walk(blocks):
    for block in blocks:
        yield block
        if block["t"] == "q":
            yield from walk(block["b"])
        elif block["t"] in ("u", "o"):
            for item in block["items"]:
                yield from walk(item)


class SectionCheck(ModelCheck):
    """Documents with mostly one type of section and the ones that matter next to it"""

    blocks = {}
    main = ""
    depths = [0, 1, 2]
    lax = False

    def gen(self, d):
        # Does CommonMark read all of it like MarkFlow does?
        same = d.p(2, 3)
        o = draw_opts(
            d,
            blocks=self.blocks,
            max_blocks=d.c([1, 1, 2, 3, 5]),
            depth=d.c(self.depths),
            tokens=SIMPLE,
            max_tokens=d.c([2, 4, 8, 20]),
            strict_quotes=same,
            tabs=not same,
            quote_then_setext=not same,
        )
        style = draw_style(d)
        if self.lax and not same:
            style.lax_headings = style.lax_fences = True
        return dict(draw_case(d, o, style), same=same)

    def judge(self, case):
        message = super().judge(case) or self.law(case)
        if message is None and case["same"]:
            out = sut.must(case["src"], case["width"])
            before, after = render.meaning(case["src"]), render.meaning(out)
            if before != after:
                message = (
                    f"{show(case['src'])} is rendered differently after it was formatted "
                    f"to {show(out)}: {render.first_difference(before, after)}"
                )
        return message

    def law(self, case):
        return None

    def nontrivial(self, case):
        return any(block["t"] in self.main for block in walk(case["doc"]))

    def labels(self, case):
        yield from super().labels(case)
        for block in walk(case["doc"]):
            if block["t"] in self.main:
                yield from self.block_labels(block)

    def block_labels(self, block):
        return ()


@register
class FencedCode(SectionCheck):
    id = "C16"
    rule = (
        "Fenced code blocks with any number of backticks or tildes, languages, code that "
        "looks like fences or other sections, ones that are never closed, at the top level "
        "and in lists and quotes. Non-trivial: there is one."
    )
    quick, thorough = 8000, 160000
    blocks = only(f=14, p=4, q=3, u=3, o=3, h=1, hr=1, d=1)
    main = "f"
    lax = True

    def block_labels(self, block):
        yield f"{len(block['L'])} lines of code"
        if not block["closed"]:
            yield "not closed"
        if any(re.match(r"\s*(```|~~~)", line) for line in block["L"]):
            yield "fences in code"


@register
class IndentedCode(SectionCheck):
    id = "C17"
    rule = (
        "Indented code blocks with blank lines and code that looks like other sections, at "
        "the top level and in quotes, next to other sections. Non-trivial: there is one."
    )
    quick, thorough = 8000, 160000
    blocks = only(i=14, p=4, q=4, h=2, hr=2, s=2, t=1, d=1, f=1, u=1, o=1)
    main = "i"

    def block_labels(self, block):
        yield f"{len(block['L'])} lines of code"


class ListCheck(SectionCheck):
    depths = [1, 2, 2, 3]

    def block_labels(self, block):
        yield f"{len(block['items'])} entries"
        if not all(block["items"]):
            yield "has an empty entry"


@register
class OrderedLists(ListCheck):
    id = "C18"
    rule = (
        "Ordered lists with any numbers, indentation and content, nested in and around "
        "other lists and quotes. Non-trivial: there is one."
    )
    quick, thorough = 3000, 60000
    blocks = only(o=14, p=4, u=3, q=2, f=2, h=2, s=1, hr=1)
    main = "o"

    def law(self, case):
        """Numbers go up by one, from the first number there was"""
        out = sut.must(case["src"], case["width"])
        if [b["t"] for b in case["doc"]] != ["o"]:
            return None
        block = case["doc"][0]
        numbers = [int(n) for n in re.findall(r"^([0-9]+)\.(?= |$)", out, re.M)]
        expected = [min(block["n"] + i, 999999999) for i in range(len(block["items"]))]
        return None if numbers == expected else (
            f"{show(out)} has the numbers {numbers} instead of {expected}"
        )

    def block_labels(self, block):
        yield from super().block_labels(block)
        if len(str(block["n"])) != len(str(block["n"] + len(block["items"]) - 1)):
            yield "numbers of different lengths"


@register
class BulletLists(ListCheck):
    id = "C19"
    rule = (
        "Bullet lists with any mix of bullets, indentation and content, nested in and "
        "around other lists and quotes. Non-trivial: there is one."
    )
    quick, thorough = 3500, 70000
    blocks = only(u=14, p=4, o=3, q=2, f=2, h=2, s=1, hr=1)
    main = "u"


@register
class BlockQuotes(SectionCheck):
    id = "C20"
    rule = (
        "Block quotes of up to four levels with all other sections in them, lazy lines, "
        "with and without spaces after the markers. Non-trivial: there is one."
    )
    quick, thorough = 4500, 90000
    blocks = only(q=16, p=8, h=2, s=2, f=2, i=2, u=2, o=2, t=2, hr=2, d=1)
    main = "q"
    depths = [1, 2, 3, 4]


@register
class Tables(SectionCheck):
    id = "C21"
    rule = (
        "Tables with any alignment, numbers of columns and rows, cells with escaped pipes, "
        "no text or markup, missing last pipes, any padding. Non-trivial: there is one."
    )
    quick, thorough = 5000, 100000
    blocks = only(t=14, p=3, q=3, h=2, hr=1)
    main = "t"

    def law(self, case):
        """All lines of a table have the same length, and pipes in the same columns"""
        if [b["t"] for b in case["doc"]] != ["t"]:
            return None
        out = sut.must(case["src"], case["width"])
        rows = out.strip("\n").split("\n")
        if len({len(row) for row in rows}) != 1:
            return f"the lines of {show(out)} don't have the same length"
        pipes = {
            tuple(i for i, c in enumerate(row) if c == "|" and not escaped(row, i))
            for row in rows
        }
        if len(pipes) != 1 or len(pipes.pop()) != len(case["doc"][0]["al"]) + 1:
            return f"the columns of {show(out)} aren't below each other"
        return None

    def block_labels(self, block):
        yield f"{len(block['al'])} columns"


def escaped(row, i):
    count = 0
    while i and row[i - 1] == "\\":
        count += 1
        i -= 1
    return count % 2


@register
class MalformedTables(Check):
    id = "C22"
    rule = (
        "Documents with a table that has no divider, a divider with other columns than the "
        "header or other characters, or a row with more or fewer columns, at the top level, "
        "in quotes or in quotes in lists. Non-trivial: there is another section before the "
        "table or the table is in a quote."
    )
    quick, thorough = 12000, 240000

    def gen(self, d):
        block = gen.table(d, gen.Opts())
        block["gap"] = 0
        n = len(block["al"])
        for row in block["rows"]:
            # No row can be mistaken for a divider
            row[0] = d.c(["a", "two words", "a\\|b", "`c`"])
        lines = messy.table(
            d, messy.Style(neat=d.p(1, 3)), block, {"free": False}
        )
        lines = [line for line, _ in lines]
        kind = d.c(
            ["no divider", "divider +", "divider -", "bad divider", "row +", "row -"]
        )
        at = 1
        cell = d.c(["x", "long text", "`c`", "1"])
        if kind == "no divider":
            if len(lines) > 2 and d.p(1, 2):
                del lines[1]
            else:
                del lines[1:]
        elif kind == "divider +":
            lines[1] = lines[1].rstrip().rstrip("|") + "|---|"
        elif kind == "divider -":
            if n == 1:
                kind = "divider +"
                lines[1] = lines[1].rstrip().rstrip("|") + "|---|"
            else:
                lines[1] = "|" + "---|" * (n - 1)
        elif kind == "bad divider":
            bad = d.c(["x", "", "-:-", ":", "::", "--x", "=", "- -", "**", "-\\|-"])
            cells = ["---"] * n
            cells[d.i(0, n - 1)] = bad
            lines[1] = "|" + "|".join(cells) + "|"
        else:
            at = d.i(2, len(lines))
            if at == len(lines):
                lines.append("| " + " | ".join(["y"] * n) + " |")
            if kind == "row -" and n == 1:
                kind = "row +"
            cells = [cell] * (n + d.i(1, 2) if kind == "row +" else d.i(1, n - 1))
            lines[at] = "|" + "|".join(cells) + "|"
        doc = []
        if d.p(2, 3):
            o = draw_opts(d, unclosed=False, max_blocks=d.c([1, 2, 3]))
            doc = gen.document(d, o)
        before = messy.spell(d, draw_style(d), doc, True) if doc else ""
        # Which line is to blame?
        start = before.count("\n") + 1 if doc else 0
        levels = d.c([0, 0, 0, 1, 1, 2])
        lines = ["> " * levels + line for line in lines]
        entry = 0
        if levels and d.p(1, 3):
            # In the second entry of a list
            entry = 1
            lines = ["- a"] + ["  " * bool(i) + "- " * (not i) + x for i, x in enumerate(lines)]
        after = d.c(["", "", "\nend\n", "\n# h\n"])
        return {
            "src": (before + "\n" if doc else "") + "\n".join(lines) + "\n" + after,
            "kind": kind, "levels": levels, "start": start + entry, "at": at, "rows": len(lines),
            "width": gen.width(d),
        }

    def judge(self, case):
        import markflow

        what = f"{show(case['src'])} has a table that is malformed ({case['kind']})"
        try:
            out = sut.reformat(case["src"], case["width"])
        except markflow.MarkdownFormatException as e:
            message = str(e)
        except Exception as e:
            return f"{what} but fails with {type(e).__name__}: {e}"
        else:
            return f"{what} but is formatted to {show(out)}"
        line = case["start"] + 1 + (case["at"] if case["kind"].startswith("row") else 0)
        numbers = [int(n) for n in re.findall("[0-9]+", message)]
        if line not in numbers:
            return f"{what} on line {line} but the error is {message!r}"
        return None

    def nontrivial(self, case):
        return case["levels"] > 0 or case["start"] > 0

    def labels(self, case):
        yield case["kind"]
        yield f"{case['levels']} quotes"


@register
class Headings(SectionCheck):
    id = "C23"
    rule = (
        "ATX headings of all levels with missing or more spaces, setext headings of any "
        "length with any underlining, in lists and quotes. Non-trivial: there is one."
    )
    quick, thorough = 7000, 140000
    blocks = only(h=8, s=8, p=3, q=2, u=2, o=2, hr=1)
    main = "hs"
    lax = True

    def block_labels(self, block):
        yield "setext" if block["t"] == "s" else "ATX"


@register
class ThematicBreaks(SectionCheck):
    id = "C24"
    rule = (
        "Thematic breaks of all characters with any spaces and lengths, next to all other "
        "sections, in lists and quotes. Non-trivial: there is one."
    )
    quick, thorough = 6500, 130000
    blocks = only(hr=14, p=5, h=1, s=1, q=3, u=3, o=2, t=1, f=1, d=1)
    main = ("hr",)

    def law(self, case):
        out = sut.must(case["src"], case["width"])
        width = model.num(case["width"])
        length = 3 if width == float("inf") else max(width, 3)
        expected = [b["c"] * length for b in case["doc"] if b["t"] == "hr"]
        got = [row for row in out.split("\n") if row in expected]
        # Content of code and underlines of headings may look the same
        confusing = any(b["t"] in "fi" or (b["t"] == "s" and b["c"] == "-") for b in case["doc"])
        if got != expected and not confusing:
            return f"{show(out)} should have the thematic breaks {expected}"
        return None

    def block_labels(self, block):
        yield f"of {block['c']}"


@register
class Definitions(SectionCheck):
    id = "C25"
    rule = (
        "Link reference definitions with targets and titles on the same line or the next, "
        "titles of any length, next to each other and other sections, in quotes. "
        "Non-trivial: there is one."
    )
    quick, thorough = 10000, 200000
    blocks = only(d=16, p=4, q=3, h=1, f=1, t=1)
    main = "d"

    def block_labels(self, block):
        if block["nl"]:
            yield "target on the next line"
        if block["title"]:
            yield "title on the next line" if block["tn"] else "title on the same line"
