"""Reference model: what the documentation says a document has to look like.

Written from README.md (and the expectations of the repository's own tests), not from the
code: `canonical` turns the tree of a document into the only text that MarkFlow may turn
any spelling of that document into.
"""

import math
import re

from .gen import escapes, two_spaces

SPACE, GLUE, SOFT = "space", "glue", "soft"

STARTS_SECTION = re.compile(
    r"[>#|]|~~~|(?:[*+-]|[0-9]+[.)])$|(?:=+|-+|\*+|_+|:?-[-:|]*)$"
)
# Text that would be a section if it were alone on a line
IS_SECTION = re.compile(
    r"[>#|]|~~~|(?:[*+-]|[0-9]+[.)])|=+|(?:- *)+|(?:\* *)+|(?:_ *)+"
)


def atoms(tokens):
    """The pieces of text that are never split, and how each is joined to the previous

    SPACE: with a space or a line break, SOFT: with nothing or a line break, GLUE: with
    nothing. A separator of None is only used for the first one.
    """
    result = []

    def add(text, sep, newline=False):
        if sep == SPACE and result and escapes(result[-1][0]):
            # The line break would be a rendered one
            sep = "stay"
        result.append([text, sep if result else None, newline])

    for tok in tokens:
        kind = tok[0]
        sep = SPACE if tok[1] else GLUE
        if kind == "w":
            if result and result[-1][2] and sep == GLUE:
                sep = SOFT
            add(tok[2], sep)
        elif kind in ("s", "n"):
            # Stays behind what's before it so that it's still just text
            add(tok[2], "stay")
        elif kind == "c":
            add("`" * tok[2] + tok[3] + "`" * tok[2], sep)
        elif kind in ("l", "r"):
            words = list(tok[3])
            mid = "](" if kind == "l" else "]["
            end = ")" if kind == "l" else "]"
            words[0] = tok[2] + "[" + words[0]
            words[-1] += mid
            add(words[0], sep)
            for word in words[1:]:
                add(word, SPACE)
            add(tok[4] + end + tok[5], SOFT)
        elif kind == "B":
            words = list(tok[2])
            words[0] = "[![" + words[0]
            words[-1] += "](" + tok[3] + ")]("
            add(words[0], sep)
            for word in words[1:]:
                add(word, SPACE)
            add(tok[4] + ")", SOFT)
        elif kind == "cl":
            add("[`" + tok[2] + "`](" + tok[3] + ")", sep)
        elif kind == "br":
            if sep == GLUE:
                sep = SOFT
            add(tok[2], sep, True)
        else:
            raise AssertionError(kind)
    return merge(result)


def merge(pieces):
    merged = []
    for i, (text, sep, newline) in enumerate(pieces):
        if sep == SOFT and not newline and STARTS_SECTION.match(text):
            # e.g. `](` followed by `#anchor)`
            sep = GLUE
        if sep == GLUE:
            merged[-1][0] += text
        elif sep == "stay":
            merged[-1][0] += " " + text
        elif len(merged) == 1 and sep == SPACE and IS_SECTION.fullmatch(merged[0][0]):
            merged[0][0] += " " + text
        else:
            merged.append([text, sep, newline])
            continue
        merged[-1][2] = newline
    return merged


def wrap(tokens, width):
    """Fill lines with as much as fits on them"""
    if width <= 0:
        width = math.inf
    lines = []
    line = None
    for text, sep, newline in atoms(tokens):
        if line is None:
            line = text
        else:
            joined = line + (" " if sep == SPACE else "") + text
            if len(joined) <= width:
                line = joined
            else:
                lines.append(line)
                line = text
        if newline:
            lines.append(line)
            line = None
    if line is not None:
        lines.append(line)
    return lines


def words_tokens(words):
    return [["w", True, word] for word in words]


def paragraph(block, width):
    lines = []
    for i, seg in enumerate(block["segs"]):
        wrapped = wrap(seg, width)
        if two_spaces(block, i):
            wrapped[-1] += "  "
        lines += wrapped
    return lines


def atx(block, width):
    return [("#" * block["d"] + " " + block["x"]).rstrip()]


def setext(block, width):
    lines = wrap(block["k"], width)
    return lines + [block["c"] * max(len(line) for line in lines)]


def thematic_break(block, width):
    return [block["c"] * (3 if width == math.inf else max(width, 3))]


def fence(block, width):
    marker = block["c"] * block["n"]
    if block["lang"].startswith(block["c"]):
        # Would be a part of the fence
        marker += " "
    first = marker + block["lang"]
    marker = marker.strip()
    return [first] + [li.rstrip() for li in block["L"]] + [marker]


def indented(block, width):
    indent = "\t" if block.get("tab") else "    "
    return [(indent + line).rstrip() for line in block["L"]]


def less(width, prefix):
    """What's left of the line for what is after the prefix"""
    return max(width - len(prefix), 1)


def quote(block, width):
    prefix = "> " if block["sp"] else ">"
    lines = blocks_lines(block["b"], less(width, prefix)) + [""] * block["tail"]
    return [prefix + line if line else ">" for line in lines]


def entries(items, markers, width):
    lines = []
    for item, marker in zip(items, markers):
        indent = len(marker) + 1
        content = blocks_lines(item, less(width, " " * indent)) if item else []
        if not content:
            lines.append(marker)
            continue
        lines.append(f"{marker} {content[0]}")
        lines += [" " * indent + line for line in content[1:]]
    return lines


def bullet_list(block, width):
    return entries(block["items"], [block["m"]] * len(block["items"]), width)


def ordered_list(block, width):
    # Longer numbers aren't list markers
    numbers = [min(block["n"] + i, 999999999) for i in range(len(block["items"]))]
    return entries(block["items"], [f"{n}." for n in numbers], width)


def cell(text, width, align):
    if align == "l":
        return text.ljust(width)
    if align == "r":
        return text.rjust(width)
    left = (width - len(text)) // 2
    return " " * left + text + " " * (width - len(text) - left)


def table(block, width):
    rows = [block["hd"]] + block["rows"]
    widths = [max([1] + [len(row[i]) for row in rows]) for i in range(len(block["hd"]))]

    def row_line(row, default):
        return "|" + "".join(
            f" {cell(text, w, default if al == 'n' else al)} |"
            for text, w, al in zip(row, widths, block["al"])
        )

    divider = "|" + "".join(
        (":" if al in "lc" else "-") + "-" * w + (":" if al in "rc" else "-") + "|"
        for w, al in zip(widths, block["al"])
    )
    return [row_line(block["hd"], "c"), divider] + [
        row_line(row, "l") for row in block["rows"]
    ]


def definition(block, width):
    lines = [f"[{block['lab']}]:"]
    if block["nl"]:
        lines.append(block["url"])
    else:
        lines[-1] += " " + block["url"]
    if not block["title"]:
        return lines
    words = list(block["title"])
    words[0] = block["q"] + words[0]
    words[-1] += block["q"]
    last = lines[-1]
    if block["tn"] or len(last) + 1 + len(words[0]) > width:
        return lines + wrap(title_tokens(words), width)
    # The title starts on the line that the URL is on
    wrapped = wrap(title_tokens([last] + words), width)
    return lines[:-1] + wrapped


def title_tokens(words):
    return [
        ["s" if i and STARTS_SECTION.match(word) else "w", True, word]
        for i, word in enumerate(words)
    ]


RENDERERS = {
    "p": paragraph, "h": atx, "s": setext, "hr": thematic_break, "f": fence,
    "i": indented, "q": quote, "u": bullet_list, "o": ordered_list, "t": table,
    "d": definition,
}


def block_lines(block, width):
    return RENDERERS[block["t"]](block, width)


def added_lines(prev, block):
    """The number of blank lines that have to be added between two sections"""
    if prev is None or block["gap"]:
        return 0
    if prev["t"] == "p" and block["t"] == "hr" and block["c"] == "-":
        # Would be the underlining of a setext heading
        return 1
    if prev["t"] == "q" and block["t"] == "s":
        # Would be a part of the quote to CommonMark
        return 1
    return 0


def blocks_lines(blocks, width):
    lines = []
    prev = None
    for block in blocks:
        lines += [""] * block["gap"]
        lines += [""] * added_lines(prev, block)
        lines += block_lines(block, width)
        prev = block
    return lines


def num(width):
    return math.inf if width == "inf" else width


def canonical(blocks, width):
    """The only text any spelling of the document may be turned into"""
    return "\n".join(blocks_lines(blocks, num(width))).rstrip() + "\n"
