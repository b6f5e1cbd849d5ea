"""Arbitrary text: lines of markup that don't have to make sense together."""

FRAGMENTS = [
    "foo", "bar baz", "Lorem ipsum dolor", "a", "I", "# h", "## h2", "#x", "###### six #",
    "- a", "* b", "+ c", "1. x", "2. y", "10. z", "-", "*", "1.", "> q", ">> qq", "> > r",
    ">", "    code", "```", "~~~", "````", "```py", "~~~ md", "`````", "***", "---", "===",
    "- - -", "_ _ _", "--", "=", "|a|b|", "|--|:-:|", "|c|d|", "| a |", "|-|", "| \\| | x |",
    "[l]: u", "[l]: u 't'", "[l]:", "[l]: <u> \"t", "u2 't'", "[x](y)", "[x][y]",
    "![i](s)", "[![b](s)](l)", "[x](y \"t\")", "[x]", "[x](", "](y)", "][", "`c d`",
    "``c ` d``", "``c", "`", "\\`", "<br>", "<br/>", "a  ", "b   ", "  - n", "   1. n",
    "     deep", "", "", "", "", ".dot", "...", "a <br /> b", "word word word word word word",
    "**b** *i*", "x.y, z!", "\\> esc", "\\", "a\\", "&amp;", "http://ex.io/a?b=c#d",
    "<b>x</b>", "caf\u00e9 \u6f22\u5b57", "\U0001f642", "t'e\"st", "(p)", "42",
]
PREFIXES = ["> ", ">", "- ", "* ", "  ", "1. ", "   ", "    ", ">> ", "> - ", "- > ", "10. "]
CHARS = (
    "ab 1.#>-*+_=|`~[]()!<>\\:'\"/&\n\n\n"
    "\u00e9\u6f22"
)
WILD = CHARS + "\t\r\x0b\x0c\x00\x1c\x85\u00a0\u2028\u2029\ufeff\u200b\U0001f642\x7f"


def line(d):
    text = d.c(FRAGMENTS)
    if d.p(1, 5):
        text = d.c(PREFIXES) + text
        if d.p(1, 4):
            text = d.c(PREFIXES) + text
    while d.p(1, 5):
        text += d.c([" ", " ", " ", "", "  "]) + d.c(FRAGMENTS)
    return text


def lines(d, most=8):
    return "\n".join(line(d) for _ in range(d.i(1, most))) + d.c(["\n", "\n", "", "\n\n"])


def table(d):
    """Rows that may have any number of cells, of which the second may be a divider"""
    count = d.i(1, 4)
    rows = []
    for i in range(d.i(1, 5)):
        if i == 1 and not d.p(1, 8):
            cells = [d.c(["-", "---", ":-", "-:", ":-:", "-"]) for _ in range(count)]
        else:
            n = count if d.p(4, 5) else d.i(1, 5)
            cells = [d.c(["", "a", "b c", "`d`", "\\|", "e|f", "long text"]) for _ in range(n)]
        row = "|" + "|".join(d.c(["", " ", "  "]) + cell + d.c(["", " "]) for cell in cells)
        rows.append(row + d.c(["|", "|", "|", "| ", ""]))
    text = "\n".join(rows)
    if d.p(1, 4):
        text = line(d) + d.c(["\n", "\n\n"]) + text
    return text + d.c(["\n", "", "\nend\n", "\n\n# h\n"])


def levels(d):
    """Lines of lists and text with any indentation"""
    rows = []
    for _ in range(d.i(2, 8)):
        marker = d.c(["- ", "- ", "* ", "+ ", "1. ", "2. ", "10. ", "> ", "", "", "-", "1."])
        rows.append(" " * d.c([0, 0, 1, 2, 2, 3, 4, 4, 5, 6, 8]) + marker + d.c(FRAGMENTS))
    return "\n".join(rows) + d.c(["\n", ""])


def chars(d, alphabet=CHARS, most=40):
    return "".join(d.c(alphabet) for _ in range(d.i(0, most)))


def mutate(d, text, alphabet=CHARS):
    """A few changes to a document that makes sense"""
    for _ in range(d.i(1, 4)):
        rows = text.split("\n")
        kind = d.i(0, 6)
        at = d.i(0, len(rows) - 1)
        if kind == 0:
            del rows[at]
        elif kind == 1:
            rows.insert(at, line(d))
        elif kind == 2:
            other = d.i(0, len(rows) - 1)
            rows[at], rows[other] = rows[other], rows[at]
        elif kind == 3:
            rows[at] = d.c(PREFIXES) + rows[at]
        elif kind == 4:
            rows.insert(at, rows[d.i(0, len(rows) - 1)])
        elif kind == 5:
            cut = d.i(0, len(rows[at]))
            rows[at] = rows[at][:cut] + d.c(alphabet) + rows[at][cut:]
        else:
            cut = d.i(0, len(rows[at]))
            rows[at] = rows[at][:cut] + rows[at][cut + d.i(1, 3) :]
        text = "\n".join(rows)
    return text
