"""Spelling a document: turns a tree from `gen` into one of its many source texts.

Every line is (text, kind). The kind says what a container may do to it:
"p" a line that only continues a paragraph (may be lazy, may lose a quote's space),
"P" the first line of a paragraph, "b" a blank line, "x" anything else.
"""

import re

from .gen import BULLETS, escapes, token_text, two_spaces

# Words that may be something else than text at the start of a line
UNSAFE = re.compile(r"[#>|<]|~~~|```|[*_+-][*_+ -]*$|=+$|[0-9]+[.)]$|:?-[-:|]*$")


class Style:
    """Which variations to use; `neat` turns all of them off"""

    def __init__(self, neat=False, **kw):
        self.breaks = not neat  # Line breaks between any words
        self.spaces = not neat  # More than one space, leading and trailing spaces
        self.indent = not neat
        self.tabs = not neat
        self.markers = not neat  # List markers and numbers, length of thematic breaks
        self.lazy = not neat
        self.lax_headings = False  # `#Heading`
        self.lax_fences = False  # Closing fences with any indentation
        self.pipes = not neat
        self.defs = not neat
        self.__dict__.update(kw)


def can_start_line(text):
    return bool(text) and not UNSAFE.match(text)


def spread_inline(d, st, tokens, lax=True):
    """Lines that the tokens may be written on"""
    lines = [""]

    def space(nxt, breakable=True):
        if (
            st.breaks
            and breakable
            and lines[-1]
            and not escapes(lines[-1])
            and can_start_line(nxt)
            and d.p(1, 6)
        ):
            # Text that could be split from what's before
            lines.append("")
        elif st.spaces and lines[-1] and d.p(1, 12):
            lines[-1] += " " * d.i(2, 4)
        else:
            lines[-1] += " "

    for i, tok in enumerate(tokens):
        kind = tok[0]
        text = token_text(tok)
        if i and tok[1]:
            # The word before it would be alone on its line
            alone = i == 1 and not can_start_line(lines[-1])
            space(text, breakable=not alone and kind != "n")
        if kind in ("l", "r", "B"):
            words = tok[2] if kind == "B" else tok[3]
            lines[-1] += "[![" if kind == "B" else tok[2] + "["
            for j, word in enumerate(words):
                if j:
                    space(word)
                lines[-1] += word
            if kind == "B":
                lines[-1] += f"]({tok[3]})]({tok[4]})"
            elif kind == "l":
                lines[-1] += "]("
                if st.breaks and can_start_line(tok[4]) and d.p(1, 12):
                    lines.append("")
                lines[-1] += f"{tok[4]}){tok[5]}"
            else:
                lines[-1] += "]["
                if st.breaks and can_start_line(tok[4]) and d.p(1, 12):
                    lines.append("")
                lines[-1] += f"{tok[4]}]{tok[5]}"
        elif kind == "c" and st.breaks and tok[3] == tok[3].strip():
            lines[-1] += "`" * tok[2]
            parts = tok[3].split(" ")
            for j, part in enumerate(parts):
                if j:
                    if (
                        part
                        and parts[j - 1]
                        and not parts[j - 1].endswith("\\")
                        and can_start_line(part)
                        and part[0] not in "`"
                        and d.p(1, 8)
                    ):
                        lines.append("")
                    else:
                        lines[-1] += " "
                lines[-1] += part
            lines[-1] += "`" * tok[2]
        elif kind == "br":
            lines[-1] += text
            nxt = tokens[i + 1] if i + 1 < len(tokens) else None
            if (
                nxt
                and not nxt[1]
                and st.breaks
                and can_start_line(token_text(nxt))
                and d.p(1, 4)
            ):
                lines.append("")
        else:
            lines[-1] += text
    return lines


def small_indent(d, st, deep=False):
    if not st.indent or not d.p(1, 5):
        return ""
    return " " * d.i(1, 3)


def trailing(d, st):
    if st.spaces and d.p(1, 8):
        return d.c(["\t", " \t", "\t  "]) if d.p(1, 6) else " " * d.i(1, 4)
    return ""


def paragraph(d, st, block, ctx):
    out = []
    first = True
    for i, seg in enumerate(block["segs"]):
        lines = spread_inline(d, st, seg)
        for j, line in enumerate(lines):
            if first:
                indent = small_indent(d, st) if ctx["free"] else ""
            else:
                indent = ""
                if st.indent and ctx["free"] and d.p(1, 8):
                    indent = " " * d.i(1, 3 if j == 0 else 6)
            line = indent + line
            at_end = j == len(lines) - 1
            if at_end and i + 1 < len(block["segs"]) and not two_spaces(block, i):
                # Nothing can be between the backslash and the line break
                pass
            elif at_end and two_spaces(block, i):
                line += " " * (d.i(2, 4) if st.spaces else 2)
            elif st.spaces and d.p(1, 10):
                # A single trailing space doesn't mean anything
                line += "\t" if d.p(1, 6) else " "
            # Text after a hard break is a paragraph of its own to MarkFlow
            # Text after a label alone on its line isn't a lazy line to MarkFlow
            alone = j and lines[j - 1].rstrip().endswith("]:")
            out.append((line, "P" if j == 0 or alone else "p"))
            first = False
    return out


def atx(d, st, block, ctx):
    indent = small_indent(d, st) if ctx["free"] else ""
    if not block["x"]:
        return [(indent + "#" * block["d"] + trailing(d, st), "x")]
    space = " "
    if st.spaces and d.p(1, 3):
        space = " " * d.i(1, 4)
    if st.lax_headings and d.p(1, 2) and not block["x"].startswith("#"):
        space = ""
    return [(indent + "#" * block["d"] + space + block["x"] + trailing(d, st), "x")]


def setext(d, st, block, ctx):
    indent = small_indent(d, st) if ctx["free"] else ""
    out = [(indent + line, "x") for line in spread_inline(d, st, block["k"])]
    out[0] = (out[0][0], "x")
    count = d.i(1, 12) if st.markers else len(out[-1][0])
    if block["c"] == "-" and ctx.get("in_list"):
        raise AssertionError
    out.append((small_indent(d, st) * ctx["free"] + block["c"] * count + trailing(d, st), "x"))
    return out


def thematic_break(d, st, block, ctx):
    c = block["c"]
    count = d.i(3, 8) if st.markers else 3
    line = c * count
    if st.markers and d.p(1, 2) or ctx.get("after_paragraph") and c == "-":
        spaces = ["", " ", "  "] + ["\t"] * (ctx["free"] and not ctx.get("after_paragraph"))
        gaps = [d.c(spaces) for _ in range(count - 1)]
        if not any(gaps):
            gaps[0] = " "
        line = "".join(c + g for g in gaps) + c
    indent = small_indent(d, st) if ctx["free"] else ""
    return [(indent + line + trailing(d, st), "x")]


def fence(d, st, block, ctx):
    marker = block["c"] * block["n"]
    lang = block["lang"]
    space = 1 if lang.startswith(block["c"]) else 0
    if st.spaces and lang and d.p(1, 3):
        space = d.i(1, 3)
    open_ = marker + " " * space + lang
    out = [(open_ + trailing(d, st), "x")]
    for line in block["L"]:
        out.append((line, "x" if line.strip() else "f"))
    if block["closed"]:
        close = marker
        if st.markers and d.p(1, 5):
            close += block["c"] * d.i(1, 3)
        indent = " " * d.i(1, 3) if st.indent and d.p(1, 6) else ""
        if st.lax_fences and d.p(1, 4):
            indent = " " * d.i(4, 9)
        out.append((indent + close + trailing(d, st), "x"))
    return out


def indented(d, st, block, ctx):
    out = []
    for line in block["L"]:
        if line:
            extra = trailing(d, st)
            out.append((("\t" if block.get("tab") else "    ") + line + extra, "x"))
        else:
            out.append(("", "f"))
    return out


def quote(d, st, block, ctx):
    inner = dict(ctx, free=False, quotes_only=ctx["quotes_only"], in_list=False)
    inner["list_free"] = False
    inner["shift"] = 0
    inner["in_quote"] = True
    inner["at_item"] = False
    lines = spell_blocks(d, st, block["b"], inner)
    lines += [("", "b")] * block["tail"]
    prefix = "> " if block["sp"] else ">"
    out = []
    indent = small_indent(d, st) if ctx["free"] else ""
    for i, (text, kind) in enumerate(lines):
        if kind in ("b", "f") and not text.strip():
            out.append((indent + (d.c([">", "> "]) if st.spaces else ">") , "x"))
        elif kind == "p" and st.lazy and ctx["quotes_only"] and d.p(1, 8):
            out.append((text, "p"))
        else:
            out.append((indent + prefix + text, kind))
    lazy = ctx["quotes_only"]
    return [(text, "p" if kind == "p" and lazy else "x") for text, kind in out]


def list_lines(d, st, block, ctx, markers, shift):
    out = []
    prev_end = None
    least = 0
    for index, (item, marker) in enumerate(zip(block["items"], markers)):
        if not st.indent:
            base = 0
        elif prev_end is None:
            base = d.i(1, 3 - shift) if ctx["list_free"] and shift < 3 and d.p(1, 4) else 0
            if ctx.get("at_marker"):
                # The spaces are the ones after the marker of the list it is in
                least = base
        else:
            # Still on the same level
            base = least
            if ctx["list_free"] and d.p(1, 3):
                base = d.i(least, min(prev_end, 3 - shift))
        pad = 1
        if item and item[0]["t"] == "p" and st.indent and d.p(1, 5):
            if all(b["t"] == "p" or (b["t"] in "uo") for b in item):
                pad = d.i(2, 3)
        end = base + len(marker)
        prev_end = end
        offset = end + pad
        if not item:
            out.append((" " * base + marker + trailing(d, st).expandtabs(1), "x"))
            continue
        inner = dict(
            ctx, free=False, quotes_only=False, in_list=True, list_free=pad < 3,
            shift=pad - 1, in_quote=False,
        )
        inner["at_item"] = True
        lines = spell_blocks(d, st, item, inner)
        # Tabs reach up to the next multiple of four columns, which only is what's
        # expected at the start of a line of the document
        tabs = st.tabs and ctx.get("lists_only") and d.p(1, 3)
        if tabs and offset % 4 == 0 and d.p(1, 2):
            padding = "\t"
        else:
            padding = " " * pad
        for i, (text, kind) in enumerate(lines):
            if i == 0:
                out.append((" " * base + marker + padding + text, "x"))
            elif kind == "p" and st.lazy and ctx.get("lists_only") and d.p(1, 8):
                # Not enough indentation is fine for text
                out.append((" " * d.i(0, offset) + text, "x"))
            else:
                line = " " * offset + text
                if tabs:
                    line = with_tabs(line, -(-(end + 1) // 4))
                out.append((line, "x"))
    return out


def with_tabs(line, most):
    """Spells leading spaces as up to that many tabs"""
    tabs = min((len(line) - len(line.lstrip(" "))) // 4, most)
    return "\t" * tabs + line[4 * tabs :]


def bullet_list(d, st, block, ctx):
    firsts = set()
    for item in block["items"]:
        if item:
            firsts.add(item[0].get("m") if item[0]["t"] == "u" else item[0].get("c"))
    options = [block["m"]] + [m for m in BULLETS if m != block["m"] and m not in firsts]
    markers = [block["m"]]
    for _ in block["items"][1:]:
        markers.append(d.c(options) if st.markers and d.p(1, 3) else block["m"])
    ctx = dict(ctx, lists_only=ctx["top"] and not ctx.get("in_quote"))
    return list_lines(d, st, block, dict(ctx, top=False), markers, ctx["shift"])


def ordered_list(d, st, block, ctx):
    markers = [f"{block['n']}."]
    if st.markers and block["n"] < 10**6 and d.p(1, 8):
        markers[0] = "0" * d.i(1, 2) + markers[0]
    for i in range(1, len(block["items"])):
        number = d.c([0, 1, 1, 2, 3, 5, 10, 100]) if st.markers else min(block["n"] + i, 999999999)
        markers.append(f"{number}.")
    ctx = dict(ctx, lists_only=ctx["top"] and not ctx.get("in_quote"))
    return list_lines(d, st, block, dict(ctx, top=False), markers, ctx["shift"])


def table(d, st, block, ctx):
    out = []
    indent = small_indent(d, st) if ctx["free"] else ""

    def row(cells, closed_required):
        line = "|"
        for i, text in enumerate(cells):
            left = " " * d.i(0, 3) if st.pipes else " "
            right = " " * d.i(0, 3) if st.pipes else " "
            line += left + text + right + "|"
        if st.pipes and not closed_required and cells[-1] and d.p(1, 6):
            line = line[:-1]
        return line

    n = len(block["al"])
    dividers = []
    for al in block["al"]:
        dashes = "-" * (d.i(1, 5) if st.pipes else 3)
        dividers.append((":" if al in "lc" else "") + dashes + (":" if al in "rc" else ""))
    for cells, is_divider in (
        [(block["hd"], False), (dividers, True)] + [(r, False) for r in block["rows"]]
    ):
        line = row(cells, n == 1)
        out.append((indent + line + trailing(d, st), "x"))
    return out


def definition(d, st, block, ctx):
    indent = small_indent(d, st) if ctx["free"] else ""
    line = indent + f"[{block['lab']}]:"
    out = []
    if block["nl"]:
        out.append(line + trailing(d, st))
        line = block["url"]
    else:
        line += " " * (d.i(1, 3) if st.spaces else 1) + block["url"]
    if not block["title"]:
        out.append(line + trailing(d, st))
        return [(t, "x") for t in out]
    words = list(block["title"])
    words[0] = block["q"] + words[0]
    words[-1] += block["q"]
    if block["tn"]:
        out.append(line + trailing(d, st))
        line = words[0]
    else:
        line += " " * (d.i(1, 3) if st.spaces else 1) + words[0]
    for word in words[1:]:
        if st.breaks and can_start_line(word) and d.p(1, 8):
            out.append(line)
            line = word
        else:
            line += " " * (d.i(1, 3) if st.spaces else 1) + word
    out.append(line + trailing(d, st))
    return [(t, "x") for t in out]


SPELLERS = {
    "p": paragraph, "h": atx, "s": setext, "hr": thematic_break, "f": fence,
    "i": indented, "q": quote, "u": bullet_list, "o": ordered_list, "t": table,
    "d": definition,
}


def spell_blocks(d, st, blocks, ctx, ranges=None):
    out = []
    prev = None
    for block, after in zip(blocks, blocks[1:] + [None]):
        for _ in range(block["gap"]):
            blank = "" if not st.spaces or ctx["in_list"] else d.c(["", "", "", " ", "   "])
            if ctx.get("in_quote"):
                blank = ""
            out.append((blank, "b"))
            if ranges is not None:
                ranges.append(("b", 1))
        inner = dict(ctx, at_item=False)
        inner["at_marker"] = prev is None and ctx.get("at_item", False)
        if prev is not None and prev["t"] in "uo":
            # Would be a part of the list otherwise
            inner["free"] = False
            inner["list_free"] = False
        if prev is not None and prev["t"] == "p" and block["gap"] == 0:
            inner["after_paragraph"] = True
        else:
            inner["after_paragraph"] = False
        if block["t"] == "q" and after and after["t"] == "s" and after["gap"] == 0:
            # Lazy lines would be a part of the heading
            inner["quotes_only"] = False
        lines = SPELLERS[block["t"]](d, st, block, inner)
        if ranges is not None:
            ranges.append((block, len(lines)))
        out += lines
        prev = block
    return out


TOP = {
    "free": True, "quotes_only": True, "in_list": False, "list_free": True, "shift": 0,
    "top": True, "in_quote": False,
}


def spell(d, st, blocks, ends_open=False, newline="\n", ranges=None):
    lines = [text for text, _ in spell_blocks(d, st, blocks, TOP, ranges)]
    text = newline.join(lines)
    if ends_open or not st.spaces:
        return text + newline
    return text + newline * d.c([1, 1, 1, 0, 2, 3])
