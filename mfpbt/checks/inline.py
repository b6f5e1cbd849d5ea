"""What holds for the text inside of sections"""

import re

from .. import gen, messy, model, read, render, sut
from .base import (
    Check,
    ModelCheck,
    differ,
    draw_case,
    draw_opts,
    draw_style,
    kinds,
    only,
    show,
    tokens,
)
from .general import doc_labels, token_words, words

CHECKS = []
TEXT = only(p=12, s=3, d=2, q=3, u=3, o=3)


def register(cls):
    CHECKS.append(cls())
    return cls


def line_text(line):
    return "".join((" " if sep == model.SPACE and i else "") + text
                   for i, (sep, text, _) in enumerate(line))


class ReadCheck(Check):
    """Looks at which text is on which line"""

    def gen(self, d):
        blocks = TEXT if d.p(2, 3) else gen.Opts().blocks
        o = draw_opts(d, blocks=blocks, max_tokens=d.c([8, 24, 24, 60]))
        return draw_case(d, o)

    def judge(self, case):
        out = sut.must(case["src"], case["width"])
        try:
            reader = read.read(case["doc"], out, case["width"])
            return self.law(case, reader)
        except sut.Violation as violation:
            return (
                f"{violation} (formatting {show(case['src'])} with a line length of "
                f"{case['width']} results in {show(out)})"
            )

    def nontrivial(self, case):
        out = sut.reformat(case["src"], case["width"])
        reader = read.read(case["doc"], out, case["width"])
        return any(len(text.lines) > 1 for text in reader.texts)

    def labels(self, case):
        yield from doc_labels(case)
        yield f"width {'inf' if case['width'] == 'inf' else '<20' if case['width'] < 20 else '>=20'}"


@register
class LineLength(ReadCheck):
    id = "C06"
    rule = (
        "Documents with paragraphs, headings and titles of definitions in any containers. "
        "Non-trivial: some text is wrapped."
    )
    quick, thorough = 1800, 36000

    def law(self, case, reader):
        for text in reader.texts:
            for line in text.lines:
                length = len(line_text(line))
                if length > text.width and len(line) > 1:
                    return (
                        f"{line_text(line)!r} has {length} characters where only "
                        f"{text.width} are left but could be wrapped"
                    )
        for row, width, char in reader.breaks:
            expected = char * max(3, int(width) if width != float("inf") else 3)
            if row != expected:
                return f"the thematic break {row!r} isn't {len(expected)} characters long"
        for row, longest, char in reader.underlines:
            if row != char * longest:
                return f"the underlining {row!r} isn't as long as the heading: {longest}"
        return None


@register
class Fill(ReadCheck):
    id = "C07"
    rule = (
        "Documents with paragraphs, headings and titles of definitions in any containers. "
        "Non-trivial: some text is wrapped."
    )
    quick, thorough = 3000, 60000

    def law(self, case, reader):
        for text in reader.texts:
            for line, following in zip(text.lines, text.lines[1:]):
                if line[-1][2]:
                    # There is an explicit line break
                    continue
                sep, piece, _ = following[0]
                joined = line_text(line) + (" " if sep == model.SPACE else "") + piece
                if len(joined) <= text.width:
                    return (
                        f"{line_text(line)!r} is wrapped before {piece!r} that still fits "
                        f"on a line of {text.width} characters"
                    )
            for line in text.lines:
                if any(newline for _, _, newline in line[:-1]):
                    return f"there's no line break after <br> in {line_text(line)!r}"
        return None


class InlineCheck(ModelCheck):
    """Mostly text with one kind of markup in it"""

    weights = {}
    blocks = only(p=14, s=2, q=2, u=3, o=3)

    def gen(self, d):
        # Does CommonMark read all of it like MarkFlow does?
        same = d.p(2, 3)
        o = draw_opts(
            d,
            blocks=self.blocks,
            max_blocks=d.c([1, 1, 2, 3]),
            depth=d.c([0, 1, 2]),
            tokens=tokens(**self.weights),
            max_tokens=d.c([4, 8, 16, 40]),
            strict_quotes=same,
            tabs=not same,
        )
        return dict(draw_case(d, o), same=same)

    def judge(self, case):
        message = against_words(case) or super().judge(case)
        if message is None and case["same"]:
            out = sut.must(case["src"], case["width"])
            before, after = render.meaning(case["src"]), render.meaning(out)
            if before != after:
                message = (
                    f"{show(case['src'])} is rendered differently after it was formatted "
                    f"to {show(out)}: {render.first_difference(before, after)}"
                )
        return message

    def nontrivial(self, case):
        return any(tok[0] in self.kinds for tok in all_tokens(case["doc"]))

    def labels(self, case):
        yield from super().labels(case)
        toks = list(all_tokens(case["doc"]))
        for kind in self.kinds:
            count = sum(tok[0] == kind for tok in toks)
            yield f"{kind} x {min(count, 5)}"


def all_tokens(blocks):
    for block in blocks:
        kind = block["t"]
        if kind == "p":
            for seg in block["segs"]:
                yield from seg
        elif kind == "s":
            yield from block["k"]
        elif kind == "q":
            yield from all_tokens(block["b"])
        elif kind in ("u", "o"):
            for item in block["items"]:
                yield from all_tokens(item)


def against_words(case):
    """All the pieces that are never split are there, in order, each on one line"""
    out = sut.must(case["src"], case["width"])
    at = 0
    for word in words(case["doc"]):
        found = out.find(word, at)
        if found < 0:
            return f"{show(word)} of {show(case['src'])} isn't on one line in {show(out)}"
        at = found + len(word)
    return None


@register
class InlineCode(InlineCheck):
    id = "C13"
    rule = (
        "Text with inline code of all kinds (many backticks, backticks inside, markup "
        "inside, split over lines, next to other text). Non-trivial: there is some."
    )
    quick, thorough = 3000, 60000
    weights = dict(c=20, cl=2, l=1, odd=1, s=1)
    kinds = ("c", "cl")


@register
class Links(InlineCheck):
    id = "C14"
    rule = (
        "Text with links, references, images and badges of all kinds, next to other text, "
        "with titles and long targets. Non-trivial: there is one."
    )
    quick, thorough = 2500, 50000
    weights = dict(l=8, r=6, B=3, il=3, cl=2, c=1, odd=1, s=1)
    kinds = ("l", "r", "B", "cl")


@register
class LineBreaks(InlineCheck):
    id = "C15"
    rule = (
        "Text with explicit line breaks, two or more spaces or a backslash at the end of a "
        "line and <br>, "
        "in paragraphs, lists and quotes. Non-trivial: there is one."
    )
    quick, thorough = 2500, 50000
    weights = dict(br=8, c=1, l=1, s=1)
    blocks = only(p=16, q=4, u=3, o=3)
    kinds = ("br",)

    def judge(self, case):
        message = super().judge(case)
        if message is None:
            out = sut.must(case["src"], case["width"])
            expected = breaks(case["doc"])
            rows = out.rstrip("\n").split("\n")
            got = []
            for row in rows:
                if row.endswith("  "):
                    got.append("  ")
                elif gen.escapes(row):
                    got.append("\\")
                elif re.search(r"<br ?/?>$", row):
                    got.append("br")
            if got != [e for e in expected if e]:
                # A break at the very end isn't one
                message = (
                    f"{show(out)} should have the line breaks {expected} of "
                    f"{show(case['src'])}"
                )
        return message

    def nontrivial(self, case):
        return bool(breaks(case["doc"]))

    def labels(self, case):
        yield from ModelCheck.labels(self, case)
        for kind in set(breaks(case["doc"])):
            yield {"  ": "two spaces", "\\": "backslash"}.get(kind, "<br>")


def breaks(blocks, top=True):
    result = []
    for block in blocks:
        kind = block["t"]
        if kind == "p":
            for i, seg in enumerate(block["segs"]):
                result += ["br" for tok in seg if tok[0] == "br"]
                if gen.two_spaces(block, i):
                    result.append("  ")
                elif gen.escapes(gen.token_text(seg[-1])):
                    result.append("\\")
        elif kind == "q":
            result += breaks(block["b"], False)
        elif kind in ("u", "o"):
            for item in block["items"]:
                result += breaks(item, False)
    if top and result and result[-1] == "  " and ends_with_break(blocks):
        result.pop()
    return result


def ends_with_break(blocks):
    block = blocks[-1]
    if block["t"] == "p":
        return block["hb"]
    if block["t"] == "q":
        return not block["tail"] and ends_with_break(block["b"])
    if block["t"] in ("u", "o"):
        return bool(block["items"][-1]) and ends_with_break(block["items"][-1])
    return False


@register
class NoNewStructure(InlineCheck):
    id = "C27"
    rule = (
        "Text with words that would be the start of another section at the start of a line "
        "(or alone on it), or make what's before them a definition. Non-trivial: there is one."
    )
    quick, thorough = 3000, 60000
    weights = dict(s=10, w=14, odd=3, c=1, l=1)
    blocks = only(p=16, s=3, q=4, u=3, o=3, d=2)
    kinds = ("s", "n")

    def judge(self, case):
        message = super().judge(case)
        if message is None and case["same"]:
            out = sut.must(case["src"], case["width"])
            expected = outline(case["doc"])
            got = [node_outline(node) for node in render.meaning(out)[0]]
            if expected != got:
                message = f"{show(out)} should have the sections {expected}, not {got}"
        return message


NAMES = {
    "p": "paragraph", "s": "heading", "h": "heading", "q": "blockquote",
    "u": "bullet_list", "o": "ordered_list",
}


def outline(blocks):
    result = []
    for block in blocks:
        kind = block["t"]
        if kind == "d":
            continue
        if kind == "q":
            node = (NAMES[kind], tuple(outline(block["b"])))
        elif kind in ("u", "o"):
            node = (NAMES[kind], tuple(tuple(outline(item)) for item in block["items"]))
            if result and result[-1][0] == NAMES[kind]:
                node = (NAMES[kind], result.pop()[1] + node[1])
        else:
            node = (NAMES[kind],)
        result.append(node)
    return result


def node_outline(node):
    name = node[0]
    if name == "blockquote":
        return (name, tuple(node_outline(child) for child in node[2]))
    if name in ("bullet_list", "ordered_list"):
        return (
            name,
            tuple(tuple(node_outline(child) for child in item[2]) for item in node[2]),
        )
    return (name,)
