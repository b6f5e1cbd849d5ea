"""What holds for whole documents"""

import re

from .. import gen, messy, model, render, soup, sut
from .base import (
    Check,
    ModelCheck,
    depth,
    differ,
    draw_case,
    draw_opts,
    draw_style,
    kinds,
    show,
)

CHECKS = []


def register(cls):
    CHECKS.append(cls())
    return cls


def draw_text(d, wild=False):
    """Text that is anything from lines of markup to random characters"""
    kind = d.i(0, 6)
    alphabet = soup.WILD if wild else soup.CHARS
    if kind <= 1:
        return soup.lines(d)
    if kind == 2:
        return soup.chars(d, alphabet)
    if kind == 3:
        return d.c([soup.table, soup.levels])(d)
    doc = gen.document(d, draw_opts(d))
    text = messy.spell(d, draw_style(d), doc, gen.ends_open(doc))
    return soup.mutate(d, text, alphabet)


def doc_labels(case):
    if "doc" in case:
        yield "document"
        yield f"depth {depth(case['doc'])}"
        for kind in set(kinds(case["doc"])):
            yield f"has {kind}"
    else:
        yield "any text"


@register
class FixedPoint(Check):
    id = "C01"
    rule = (
        "Two thirds are documents of supported sections (spelled in one of many ways), a "
        "third is any text. Non-trivial: the first formatting changes the text."
    )
    quick, thorough = 2500, 50000

    def gen(self, d):
        if d.p(1, 3):
            return {"src": draw_text(d), "width": gen.width(d)}
        return draw_case(d, draw_opts(d))

    def judge(self, case):
        src, width = case["src"], case["width"]
        if "doc" in case:
            first = sut.must(src, width)
        else:
            first, error = sut.outcome(src, width)
            if error:
                # Refusing to format it is all there is left to do
                return None
        second = sut.must(first, width)
        return differ(first, second, f"formatting {show(src)} twice isn't the same as once")

    def nontrivial(self, case):
        try:
            return sut.reformat(case["src"], case["width"]) != case["src"]
        except Exception:
            return False

    def labels(self, case):
        return doc_labels(case)


@register
class Rendering(Check):
    id = "C02"
    rule = (
        "Documents of all supported sections that CommonMark and MarkFlow read the same "
        "way, spelled in one of many ways. Non-trivial: formatting changes the text."
    )
    quick, thorough = 2500, 50000
    assumptions = (
        "markdown-it-py with its table extension renders Markdown correctly",
        "blocks that CommonMark 0.29 and MarkFlow read differently aren't generated "
        "(DESIGN.md lists them)",
    )

    def gen(self, d):
        return draw_case(d, draw_opts(d, strict_quotes=True, tabs=False))

    def judge(self, case):
        src, width = case["src"], case["width"]
        out = sut.must(src, width)
        before, after = render.meaning(src), render.meaning(out)
        if before == after:
            return None
        return (
            f"{show(src)} is rendered differently after it was formatted with a line "
            f"length of {width} to {show(out)}\n{render.first_difference(before, after)}"
        )

    def nontrivial(self, case):
        return sut.reformat(case["src"], case["width"]) != case["src"]

    def labels(self, case):
        return doc_labels(case)


# Everything that formatting may add or remove: white space, markers, numbers of lists,
# dividers of tables, underlining, fences and line breaks in front of any of it
MARKUP = re.compile(r"[\s\d+*\-=_|:>#.~`]")


@register
class Content(Check):
    id = "C03"
    rule = (
        "Half is documents of supported sections, half is any text. Non-trivial: it is "
        "formatted and has at least 10 characters that aren't markup."
    )
    quick, thorough = 5000, 100000

    def gen(self, d):
        if d.p(1, 2):
            return {"src": draw_text(d), "width": gen.width(d)}
        return draw_case(d, draw_opts(d))

    def judge(self, case):
        if "doc" in case:
            out = sut.must(case["src"], case["width"])
        else:
            out, error = sut.outcome(case["src"], case["width"])
            if error:
                return None
        before, after = MARKUP.sub("", case["src"]), MARKUP.sub("", out)
        if before == after:
            if "doc" in case:
                return self.tokens(case, out)
            return None
        return differ(before, after, f"{show(case['src'])} has other text than {show(out)}")

    def tokens(self, case, out):
        """Every word is still there with all of its markup, and in order"""
        at = 0
        for word in words(case["doc"]):
            found = out.find(word, at)
            if found < 0:
                return f"{show(word)} of {show(case['src'])} is missing from {show(out)}"
            at = found + len(word)
        return None

    def nontrivial(self, case):
        return len(MARKUP.sub("", case["src"])) >= 10 and (
            "doc" in case or not sut.outcome(case["src"], case["width"])[1]
        )

    def labels(self, case):
        return doc_labels(case)


def words(blocks):
    """Text that always stays on one line, in order"""
    for block in blocks:
        kind = block["t"]
        if kind == "p":
            for seg in block["segs"]:
                yield from token_words(seg)
        elif kind == "s":
            yield from token_words(block["k"])
        elif kind == "h":
            yield block["x"]
        elif kind in "fi":
            yield from (line.rstrip() for line in block["L"])
        elif kind == "q":
            yield from words(block["b"])
        elif kind in ("u", "o"):
            for item in block["items"]:
                yield from words(item)
        elif kind == "t":
            for row in [block["hd"]] + block["rows"]:
                yield from row
        elif kind == "d":
            yield f"[{block['lab']}]:"
            yield block["url"]
            yield from block["title"] or []


def token_words(toks):
    for tok in toks:
        if tok[0] in ("l", "r"):
            yield from tok[3]
            yield tok[4] + (")" if tok[0] == "l" else "]") + tok[5]
        elif tok[0] == "B":
            yield from tok[2]
            yield f"]({tok[3]})]("
            yield tok[4] + ")"
        else:
            yield gen.token_text(tok)


@register
class Totality(Check):
    id = "C04"
    rule = (
        "Any text: lines of markup, random characters (control characters and all kinds of "
        "Unicode too), documents with a few random changes, and long repetitions. "
        "Non-trivial: at least 8 characters."
    )
    quick, thorough = 3500, 70000

    def gen(self, d):
        kind = d.i(0, 19)
        if kind == 19:
            unit = d.c(
                ["- a\n", "> ", "1. b\n", "a ", "a\n", "`", "[", "](", "[a](b) ", "|", "* ",
                 "#", "\n", "    x\n", "```\n", "  ", "*", "_ ", "<br>", ">\n", "[a]:\n",
                 "\\", "a b\n\n", "|a|\n|-|\n", "word `code` [l](u)\n", "- > ", "[![a"]
            )
            times = d.c([10, 50, 200, 400])
            if unit in ("> ", "* ", "- > "):
                # Known finding: there's a limit to how deep sections may be nested
                times = d.i(1, 60)
            text = unit * times + d.c(["", "x", "\n", "\n\nend\n"])
        elif kind >= 17:
            text = draw_text(d, wild=True) + draw_text(d, wild=True)
        else:
            text = draw_text(d, wild=True)
        return {"src": text, "width": gen.width(d)}

    def judge(self, case):
        out, error = sut.outcome(case["src"], case["width"])
        if error == "MarkdownFormatException" and "|" not in case["src"]:
            return f"{show(case['src'])} has no table but is rejected for being malformed"
        return None

    def nontrivial(self, case):
        return len(case["src"]) >= 8

    def labels(self, case):
        out, error = sut.outcome(case["src"], case["width"])
        yield error or "formatted"


@register
class Hygiene(Check):
    id = "C05"
    rule = (
        "Half is documents of supported sections, half is any text. Non-trivial: the text "
        "has trailing white space, white space on blank lines, other newlines than \\n or "
        "doesn't end with exactly one newline."
    )
    quick, thorough = 6000, 120000

    def gen(self, d):
        if d.p(1, 2):
            case = {"src": draw_text(d), "width": gen.width(d)}
        else:
            case = draw_case(d, draw_opts(d))
        newline = d.c(["\n", "\n", "\r\n", "\r"])
        if "\r" not in case["src"]:
            case["src"] = case["src"].replace("\n", newline)
        return case

    def judge(self, case):
        if "doc" in case:
            out = sut.must(case["src"], case["width"])
        else:
            out, error = sut.outcome(case["src"], case["width"])
            if error:
                return None
        what = f"the result {show(out)} of {show(case['src'])}"
        if not out.endswith("\n"):
            return f"{what} doesn't end with a newline"
        if out.endswith("\n\n"):
            return f"{what} ends with more than one newline"
        if "\r" in out:
            return f"{what} has other newlines"
        rows = out[:-1].split("\n")
        for i, row in enumerate(rows):
            text = row.rstrip()
            if text == row:
                continue
            if not text.strip(" >"):
                return f"{what} has white space on the blank line {i + 1}"
            if row != text + "  ":
                return f"{what} has trailing white space on line {i + 1}"
            if "doc" in case and i + 1 == len(rows):
                return f"{what} has trailing white space at its end"
        if "doc" in case:
            expected = hard_breaks(case["doc"], last=True)
            got = sum(row.endswith("  ") for row in rows)
            if got != expected:
                return f"{what} has {got} line breaks instead of {expected}"
        return None

    def nontrivial(self, case):
        src = case["src"]
        return bool(
            re.search(r"[ \t](\n|\r|$)|\r", src)
            or not src.endswith("\n")
            or src.endswith("\n\n")
        )

    def labels(self, case):
        yield from doc_labels(case)
        if "\r" in case["src"]:
            yield "other newlines"


def hard_breaks(blocks, last=False):
    """How many lines may end with two spaces"""
    count = 0
    for i, block in enumerate(blocks):
        at_end = last and i + 1 == len(blocks)
        if block["t"] == "p":
            ends = [i for i in range(len(block["segs"])) if gen.two_spaces(block, i)]
            count += len(ends) - (block["hb"] and at_end)
        elif block["t"] == "q":
            count += hard_breaks(block["b"], at_end and not block["tail"])
        elif block["t"] in ("u", "o"):
            for j, item in enumerate(block["items"]):
                count += hard_breaks(item, at_end and j + 1 == len(block["items"]))
    return count


@register
class Layout(Check):
    id = "C08"
    rule = (
        "A document of supported sections that is written in two ways: other line breaks, "
        "spaces, indentation, bullets, numbers, lengths of markers, padding of tables, lazy "
        "lines, kinds of newlines. Non-trivial: the two texts are different in more than "
        "their newlines."
    )
    quick, thorough = 4500, 90000

    def gen(self, d):
        doc = gen.document(d, draw_opts(d))
        open_ = gen.ends_open(doc)
        texts = [
            messy.spell(d, messy.Style(neat=d.p(1, 3)), doc, open_, newline=d.c(nl))
            for nl in (["\n"], ["\n", "\n", "\r\n", "\r"])
        ]
        return {"doc": doc, "texts": texts, "width": gen.width(d)}

    def judge(self, case):
        first, second = (sut.must(text, case["width"]) for text in case["texts"])
        return differ(
            first,
            second,
            f"{show(case['texts'][0])} and {show(case['texts'][1])} are the same document "
            f"but are formatted differently",
        )

    def nontrivial(self, case):
        return case["texts"][0] != case["texts"][1].replace("\r\n", "\n").replace("\r", "\n")

    def labels(self, case):
        yield from doc_labels(case)
        if "\r\n" in case["texts"][1]:
            yield "CRLF"
        elif "\r" in case["texts"][1]:
            yield "CR"


FENCE = re.compile(r"```|~~~")


@register
class Locality(Check):
    id = "C09"
    rule = (
        "Two documents (half of the cases) or two pieces of any text without code fences, "
        "on their own and after each other. Non-trivial: both are formatted and have at "
        "least two lines in total."
    )
    quick, thorough = 3500, 70000

    def gen(self, d):
        if d.p(1, 2):
            parts = []
            for _ in range(2):
                o = draw_opts(d, unclosed=False, max_blocks=d.c([1, 2, 3]))
                doc = gen.document(d, o)
                parts.append(messy.spell(d, draw_style(d), doc, False))
            kind = "document"
        else:
            parts = [FENCE.sub("x", draw_text(d)) for _ in range(2)]
            kind = "any text"
        return {
            "parts": parts, "kind": kind, "blank": d.c([1, 1, 2, 3, 4, 9, 17, 40]), "width": gen.width(d),
        }

    def judge(self, case):
        a, b = case["parts"]
        if not a.endswith("\n"):
            a += "\n"
        whole = a + "\n" * case["blank"] + b
        width = case["width"]
        if case["kind"] == "document":
            apart = [sut.must(a, width), sut.must(b, width)]
            together = sut.must(whole, width)
        else:
            results = [sut.outcome(part, width) for part in (a, b)]
            together, error = sut.outcome(whole, width)
            if any(e for _, e in results):
                if error is None:
                    return f"{show(whole)} is formatted but a part of it is not"
                return None
            if error:
                return f"{show(whole)} is rejected ({error}) but its parts are not"
            apart = [out for out, _ in results]
        # Blank lines at the end of a text aren't kept, unless something follows them
        ends = len(a) - len(a.rstrip())
        blanks = sum(not row.strip() for row in trailing_rows(a)) + case["blank"]
        expected = apart[0] + "\n" * blanks + apart[1]
        if not apart[1].strip():
            expected = apart[0]
        if not apart[0].strip():
            expected = None if ends else expected
        if expected is None:
            return None
        if strip_rows(expected) == strip_rows(together):
            return None
        return differ(
            strip_rows(expected),
            strip_rows(together),
            f"{show(a)} followed by {show(b)} isn't formatted like each of them",
        )

    def nontrivial(self, case):
        return sum(p.strip().count("\n") + 1 for p in case["parts"]) > 2

    def labels(self, case):
        yield case["kind"]


def trailing_rows(text):
    rows = text[:-1].split("\n")
    out = []
    while rows and not rows[-1].strip():
        out.append(rows.pop())
    return out


def strip_rows(text):
    """A line break at the end of a text is dropped, but not if something follows it"""
    return "\n".join(row.rstrip() for row in text.split("\n"))


@register
class Nesting(Check):
    id = "C10"
    rule = (
        "A document in a block quote or in an entry of a list (up to three levels) and the "
        "same document on its own with a line length that is smaller by the markers. "
        "Non-trivial: it has at least two lines."
    )
    quick, thorough = 8000, 160000

    def gen(self, d):
        levels = [d.c("qqqQuo") for _ in range(d.c([1, 1, 2, 3]))]
        in_list = any(level in "uo" for level in levels)
        o = draw_opts(d, max_blocks=d.c([1, 2, 3]), depth=d.c([0, 1, 1, 2]))
        style = messy.Style(neat=d.p(1, 3), indent=False, lazy=False)
        if in_list:
            marker = "x"
            doc = gen.item_blocks(d, o, o.depth, marker, last=True)
            # Lists in lists of other bullets are in the section tests
            doc = [b for b in doc if b["t"] in ("p", "h", "f", "q")]
            doc = doc[: next((i for i, b in enumerate(doc) if b["t"] == "q"), 99) + 1]
            if not doc or doc[0]["t"] == "f":
                doc = [gen.paragraph(d, o)]
                doc[0].update(gap=0, hb=False)
        else:
            doc = gen.document(d, o)
            doc[0]["gap"] = 0
            if doc[0]["t"] == "i":
                doc[0] = dict(gen.paragraph(d, o), gap=0, hb=False)
                if len(doc) > 1 and doc[1]["gap"] == 0:
                    doc[1]["gap"] = 1
        src = messy.spell(d, style, doc, True).rstrip("\n")
        least = sum(len(FIRSTS[x]) for x in levels) + 1
        width = d.i(least, 30) if d.p(1, 3) else d.i(30, 100)
        return {"src": src, "levels": levels, "width": width}

    def judge(self, case):
        rows = case["src"].split("\n")
        width = case["width"]
        firsts = [FIRSTS[x] for x in case["levels"]]
        nexts = [{"q": "> ", "Q": ">", "u": "  ", "o": "   "}[x] for x in case["levels"]]
        inner = sut.must(case["src"] + "\n", width - sum(map(len, firsts)))
        inner = inner[:-1].split("\n")
        while not rows[-1].strip():
            rows.pop()
        whole = sut.must(nest(rows, firsts, nexts), width)
        expected = nest(inner, firsts, nexts)
        return differ(
            strip_rows(expected),
            strip_rows(whole),
            f"{show(case['src'])} is formatted differently in {''.join(firsts)!r}",
        )

    def nontrivial(self, case):
        return "\n" in case["src"].strip()

    def labels(self, case):
        yield "levels " + "".join(case["levels"])


FIRSTS = {"q": "> ", "Q": ">", "u": "- ", "o": "1. "}


def nest(rows, firsts, nexts):
    for first, following in reversed(list(zip(firsts, nexts))):
        rows = [
            ((first if i == 0 else following) + row).rstrip()
            if not row
            else (first if i == 0 else following) + row
            for i, row in enumerate(rows)
        ]
    return "\n".join(rows) + "\n"


@register
class Rewidth(Check):
    id = "C11"
    rule = (
        "A document of supported sections, formatted with one line length and then another "
        "(up to four of them). Non-trivial: two of the results are different."
    )
    quick, thorough = 1500, 30000

    def gen(self, d):
        # Where a title starts is kept, and text right after a line break isn't
        o = draw_opts(d, glue_br=False, defs_title_same_line=False)
        doc = gen.document(d, o)
        return {
            "doc": doc,
            "src": messy.spell(d, draw_style(d), doc, gen.ends_open(doc)),
            "widths": [gen.width(d) for _ in range(d.i(2, 4))],
        }

    def judge(self, case):
        text = case["src"]
        for width in case["widths"]:
            text = sut.must(text, width)
        direct = sut.must(case["src"], case["widths"][-1])
        return differ(
            direct,
            text,
            f"{show(case['src'])} formatted with line lengths of {case['widths']} isn't what "
            f"it is if it's just formatted with the last one",
        )

    def nontrivial(self, case):
        return len({sut.reformat(case["src"], w) for w in case["widths"]}) > 1

    def labels(self, case):
        return doc_labels(case)


@register
class Sections(ModelCheck):
    id = "C26"
    rule = (
        "Sequences of sections of all kinds with any number of blank lines between them, "
        "none wherever CommonMark lets one interrupt another. Non-trivial: at least two "
        "sections follow each other without a blank line or there are two blank lines."
    )
    quick, thorough = 10000, 200000

    def options(self, d):
        small = dict(w=20, odd=2, s=2, c=1, l=1, r=0, B=0, br=0, cl=0, il=0)
        return dict(max_blocks=d.c([2, 3, 5, 8]), max_tokens=6, depth=1, tokens=small)

    def nontrivial(self, case):
        return any(b["gap"] != 1 for b in case["doc"][1:])

    def labels(self, case):
        doc = case["doc"]
        for a, b in zip(doc, doc[1:]):
            if b["gap"] == 0:
                yield f"{a['t']}{b['t']}"
