"""Generator of Markdown documents as plain JSON trees.

A document is a list of blocks. Every block is a dict with a type "t" and "gap", the
number of blank lines before it. Only documents that both CommonMark and MarkFlow read the
same way are generated (see DESIGN.md for what is left out and why); `adjacent` holds the
rules for which blocks may follow each other without a blank line.

All choices go through `d`, which records them so that failures can be shrunk.
"""

import re

SHORT = ["a", "b", "I", "to", "of", "is", "it", "an", "x", "go"]
WORDS = SHORT + [
    "the", "and", "with", "word", "lorem", "ipsum", "dolor", "Markdown", "reformat",
    "paragraph", "consistent", "documentation", "extraordinarily",
    "internationalization", "foo,", "bar.", "baz:", "qux;", "end!", "why?", "(open",
    "close)", "(both)", "it's", "e.g.", "v1.5", "42", "3.14", "x=1", "a/b", "well-known",
]
# Text that has to stay text, wherever it ends up on a line
ODD_WORDS = [
    "**bold**", "*it*", "_em_", "__st__", "**two", "words**", "&amp;", "&lt;", "\\*",
    "\\>", "\\#", "a*b", "a_b_c", "x>y", "x<y", "a|b", "c#", "http://ex.io/a_b?c=d&e#f",
    "https://example.com/really/long/path/that/does/not/fit/anywhere.html",
    "me@ex.io", "~t~", "$1", "100%", "\"q\"", "...", ".dot", "..", "{x}", "^1", "@u",
    "\\\\", "-x", "+1", "*x", "1.5.", "1)x", "=x", "caf\u00e9", "na\u00efve",
    "\u6f22\u5b57", "\U0001f642", "\u00dcn\u00efc\u00f6d\u00e9", "e\u0301",
    "<http://ex.io/x>", "<b>b</b>", "<wbr>", "<BR>", "<brx>", "<br//>", "br", "/>", "</i>", "[foo]", "[^1]", "[foo][]", "![img]",
    "\u2014", "\u201cq\u201d", "!", "?", "%", "'s", "10\u00a0km", "a\u3000b\u2003c", "z\u200bw",
    "C:\\", "\\",
]
# Text that would be the start of another section if it were the start of a line
SPICY_WORDS = [
    "-", "*", "+", "1.", "10.", "7)", "#", "##", "#tag", ">", ">x", ">>", "=", "==",
    "=====", "--", "---", "-----", "***", "___", "|", "|x|", "~~~", "~~~~py", "*****",
    ":-", "-:", ":-:", "-|-", ":--|:-:",
]
# Text that a paragraph may start with, but not if it's alone on its line
SPICY_STARTS = [
    "***", "___", "*****", "**", "==", "=", "__", "_", "--", "---", "_ _", "_ _ _",
    "** **", "-- --", "____ _", "--- -",
]
# Words of links' texts and titles, tables, headings and code
PLAIN = [w for w in WORDS if w.isalnum()]
URLS = [
    "u", "/x", "#anchor", "http://ex.io", "http://ex.io/a-b_c?d=e&f=g#h", "a/b.md",
    "<angle>", "https://example.com/a/really/long/url/that/never/fits/on/a/line",
    "./rel.png", "a_(b)", "README.md#Some-Section", "HTTP://EX.io/A%20B?Q=1", "caf\u00e9/\u6f22",
    "mailto:Me@ex.io", "//ex.io", "a\\_b", "x&amp;y", "?q='x'", "a*b*c", "C:\\\\x", "~u/$x,y;z!",
]
LABELS = [
    "ref", "a1", "my ref", "Some-Label", "long label of many words", "^1", "r.x", "\u00dcber",
    "A: b", "x (y)", "*em* l", "1", "!", "a_b_c", "a/b", "C++", "#3", "x > y", "\"q\"", "it's",
    "a label that is much longer than all of the others because it tells everything there "
    "is to say about what it is the label of, even if nobody would ever read all of it",
]
CODE = [
    "x", "foo()", "a b", "a  b", "x = 1", "--flag value", "ls -la | grep x", "*not em*",
    "[a](b)", "[a][b]", "<br>", "a \\", "# no", "1. no", "- no", "> no", "$x",
    "very long inline code that does not fit on most of the lines it may be put on",
    "\u00e9 \u6f22", "Foo.Bar", "\"q\"", "&amp;", "a\\b", "|", "=", "!", ".", "...", "](", "[", "a]", "](x",
]
CODE_TICKS = ["a ` b", "a `` b", "`x`", "``", "a ```` b", "`a `````"]
LANGS = ["", "", "py", "python3", "c++", "shell script", "{.x #y}", "md", "a~", "~x", "C", "JSON5",
         "Objective-C", "caf\u00e9", "a&amp;b", "\\x", "x=\"y\" Z", "1", "# a", "- x", "[l]: u",
         "py  title='a  b'", "{a=1,   b}", "a\tb"]
CODE_LINES = [
    "x = 1", "  indented", "    more", "", "# comment", "- item", "1. item", "> quote",
    "| a | b |", "|---|---|", "***", "---", "===", "text   with   spaces", "\tx", "a\tb",
    "`inline`", "``", "~~", "<br>", "[l]: u", "last  ", "very long line " + "w " * 60,
    "    ", "  ", "\\", "\u6f22\u5b57", "```", "~~~", "````", "~~~~~", "``` py", "~~~ x",
    "Foo.Bar(Baz)", "\u00dcber &amp; <b>", "2. x", "    > y", "+ z", "Title", "<!-- c -->", "\\|",
    "'single' \"double\"", "[a](b) [c][d]", "**b** _i_", "a\u00a0b", "end\t", "x \t ", "#", "-", "1.", "$ ls", "%",
]
HR = ["-", "*", "_"]
BULLETS = ["*", "-", "+"]


class Opts:
    """What a generator should produce. Weights of 0 leave something out."""

    def __init__(self, **kw):
        self.blocks = dict(p=8, h=3, s=2, hr=2, f=3, i=2, q=3, u=4, o=4, t=3, d=2)
        self.max_blocks = 5
        self.depth = 2
        self.tokens = dict(
            w=20, odd=4, s=2, c=4, l=3, r=2, B=1, br=1, cl=1, il=1
        )
        self.max_tokens = 24
        self.hard_breaks = True
        self.glue = True
        self.glue_br = True
        self.defs_title_same_line = True
        self.lax_headings = False
        self.unclosed = True
        self.start_spicy = True
        self.start_definition = True
        self.strict_quotes = False
        self.tabs = True
        self.tab_code = True
        self.backslashes = True
        self.quote_then_setext = False
        self.seams = True
        # Is there more of anything than there ever is?
        self.big = None
        for k, v in kw.items():
            if not hasattr(self, k):
                raise TypeError(k)
            setattr(self, k, v)


BIG = ["words", "long", "lines", "fence", "cells", "rows", "entries", "blocks", "gap", "depth"]


def many(d, o, what, n, more):
    """n, or a lot more than that in a few documents"""
    return d.c(more) if o.big == what and d.p(1, 3) else n


LONG_WORDS = ["w" * 100, "x" * 257, "longish" * 9, "half-" * 30 + "done", "caf\u00e9" * 40]


def weighted(d, table):
    items = [(k, w) for k, w in table.items() if w > 0]
    n = d.i(0, sum(w for _, w in items) - 1)
    for k, w in items:
        if n < w:
            return k
        n -= w
    raise AssertionError


CANT_START = re.compile(r"[>#|]|~~~|(?:[*+-]|[0-9]+[.)])$|(?:=+|-+|\*+|_+)$")
LETTERS = "aeinorstlbXYZ019\u00e9\u00df\u0416\u5b57"


def any_word(d):
    """A word of letters and punctuation within it that doesn't mean anything"""
    word = d.c(LETTERS)
    for _ in range(d.i(0, 7)):
        word += d.c(LETTERS + ".,;:'-")
    return word if word[0].isalpha() else "a" + word


def odd_word(d):
    """A word of different punctuation that doesn't mean anything"""
    word = "".join(d.c("-=-=+.:;!?,%@/^~*_") for _ in range(d.i(2, 5)))
    if len(set(word)) == 1 or word.startswith("~~~") or re.fullmatch(":?-[-:]*", word):
        return "-=-"
    return word


def odd_line(d):
    """A line of code that looks similar to anything"""
    if d.p(1, 2):
        char, other = d.c(["`~", "~`", "``", "~~"])
        line = char * d.i(2, 7) + d.c(["", " ", "x"]) + other * d.i(0, 3)
    else:
        line = "".join(d.c("`~-=*_#>|[]():.10 \\<!x&") for _ in range(d.i(1, 8)))
    return " " * d.c([0, 0, 0, 1, 2, 3, 4, 5]) + line + d.c(["", "", "", " "])


def code_line(d):
    return odd_line(d) if d.p(1, 6) else d.c(CODE_LINES)


def plain_words(d, lo=1, hi=4):
    return [d.c(PLAIN) for _ in range(d.i(lo, hi))]


# --- inline ---------------------------------------------------------------------------
# Tokens: [kind, sp, ...]; sp: is the token separated from the one before by a space?


def token(d, kind, sp, o):
    if kind == "w":
        if o.big == "long" and d.p(1, 20):
            return ["w", sp, d.c(LONG_WORDS)]
        if d.p(1, 8):
            return ["w", sp, any_word(d)]
        return ["w", sp, d.c(WORDS)]
    if kind == "odd":
        return ["w", sp, odd_word(d) if d.p(1, 8) else d.c(ODD_WORDS)]
    if kind == "s":
        return ["s", True, d.c(SPICY_WORDS)]
    if kind == "c":
        if d.p(1, 6):
            code = d.c(CODE_TICKS)
            runs = [len(run) for run in re.findall("`+", code)]
            n = d.c([n for n in (3, 1, 2, 6) if n not in runs])
            if code.startswith("`") or code.endswith("`"):
                code = f" {code} "
        else:
            n = d.c([1, 1, 1, 2, 4])
            code = d.c(CODE)
            if d.p(1, 5):
                code += " " + d.c(CODE)
        return ["c", sp, n, code]
    if kind in ("l", "r", "il"):
        pre = d.c(["", "", "", "", "", "(", "\"", "see:", "(a)", "f())"]) if o.glue else ""
        suf = d.c(["", "", "", ".", ",", ")", "s", "!)", ":", ";"]) if o.glue else ""
        if kind == "il":
            kind, pre = d.c(["l", "r"]), pre + "!"
        text = plain_words(d)
        if kind == "l":
            dest = d.c(URLS)
            if d.p(1, 5) and "(" not in dest:
                dest += " " + d.c(['"title"', "'some title'", '"a longer title here"'])
        else:
            dest = d.c(LABELS)
        return [kind, sp, pre, text, dest, suf]
    if kind == "B":
        return ["B", sp, plain_words(d, 1, 2), d.c(URLS), d.c(URLS)]
    if kind == "cl":
        return ["cl", sp, d.c(["x", "foo()", "a b"]), d.c(URLS)]
    if kind == "br":
        return ["br", sp, d.c(["<br>", "<br/>", "<br />"])]
    raise AssertionError(kind)


LINKS = ("l", "r", "B")


def inline(d, o, lo=1, hi=None):
    hi = o.max_tokens if hi is None else hi
    n = many(d, o, "words", d.i(lo, max(lo, hi)), [40, 100, 200])
    if d.p(1, 3):
        n = max(lo, n // 3)
    tokens = []
    while len(tokens) < n:
        kind = weighted(d, o.tokens)
        prev = tokens[-1] if tokens else None
        if prev is None:
            # Sections always start with a word that can't be anything else
            tokens.append(["w", True, d.c(WORDS)])
            if kind in ("w", "odd", "s", "br"):
                continue
            # though often with something else that is never the start of a section
            if kind != "c" or d.p(1, 2):
                first = token(d, kind, True, o)
                if not (first[0] == "c" and first[2] >= 3):
                    tokens[0] = first
            continue
        # Does a link reach until here, maybe because of text right after it?
        back = len(tokens) - 1
        while tokens[back][0] == "w" and not tokens[back][1]:
            back -= 1
        at_link = tokens[back][0] in LINKS
        if prev[0] == "br" and kind in ("s", "odd"):
            kind = "w"
        if kind == "br" and escapes(token_text(prev)):
            kind = "w"
        sp = True
        if o.glue and d.p(1, 5):
            if kind in ("c",) and prev[0] in ("w", "l", "r", "cl", "B"):
                sp = False
            elif kind == "w" and prev[0] in ("c", "l", "r", "cl", "B"):
                sp = False
            elif kind == "br" and o.glue_br and prev[0] in ("w", "c") and not at_link:
                sp = False
            elif kind == "w" and prev[0] == "br" and o.glue_br:
                sp = False
        tok = token(d, kind, sp, o)
        if tok[0] in ("l", "r") and at_link and tok[2][:1].isalnum():
            # Known finding: the space between a link and a word glued to the front of
            # another one is dropped
            tokens.append(["w", True, d.c(PLAIN)])
        if tok[0] == "w" and not sp:
            tok[2] = d.c([".", ",", "s", ":", "-like", "...", ")", "!", "word", "="])
            if prev[0] in ("l", "cl", "B") and not prev[-1].endswith(")") and d.p(1, 6):
                tok[2] = d.c(["(c)", "(see", "(x)."])
            if prev[0] == "br":
                tok[2] = d.c(PLAIN)
        if tok[0] == "c" and not sp and (
            prev[2].endswith(("\\", "`", "!", "]")) if prev[0] == "w" else False
        ):
            tok[1] = True
        if tok[0] == "br" and prev[0] == "s":
            tokens.append(["w", True, d.c(PLAIN)])
        tokens.append(tok)
    # A spicy word at the end is fine; so is a line break
    return tokens


def token_text(tok):
    kind = tok[0]
    if kind in ("w", "s", "n", "br"):
        return tok[2]
    if kind == "c":
        return "`" * tok[2] + tok[3] + "`" * tok[2]
    if kind == "l":
        return f"{tok[2]}[{' '.join(tok[3])}]({tok[4]}){tok[5]}"
    if kind == "r":
        return f"{tok[2]}[{' '.join(tok[3])}][{tok[4]}]{tok[5]}"
    if kind == "B":
        return f"[![{' '.join(tok[2])}]({tok[3]})]({tok[4]})"
    if kind == "cl":
        return f"[`{tok[2]}`]({tok[3]})"
    raise AssertionError(kind)


def inline_text(tokens):
    out = ""
    for tok in tokens:
        if out and tok[1]:
            out += " "
        out += token_text(tok)
    return out


def definition_like(d):
    """The start of text that would be a definition if a line ended after it

    Tokens of kind "n" are words that are never the first ones of a line because of that.
    """
    label = d.c(LABELS).split(" ")
    label[0] = "[" + label[0]
    label[-1] += "]:"
    tokens = [["n" if CANT_START.match(word) else "w", True, word] for word in label]
    url = d.c(URLS)
    tokens.append(["n", True, url] if CANT_START.match(url) else ["w", not d.p(1, 5), url])
    words = [d.c(PLAIN)]
    follows = True
    if d.p(1, 2):
        # A title that has text after it or no end
        quote = d.c("\"'")
        words = plain_words(d, 1, 3) + words
        words[0] = quote + words[0]
        end = d.c([quote, quote, quote, quote + "."])
        if quote == "\"":
            end = d.c([end, end, "", "\\\""])
        words[-2] += end
        follows = end == quote
    tokens.append(["n", True, words[0]])
    tokens += [["w", True, word] for word in words[1:]]
    if follows:
        tokens[-1][0] = "n"
    return tokens


def escapes(text):
    """Is what's after the text escaped?"""
    return (len(text) - len(text.rstrip("\\"))) % 2 == 1


BACKSLASH = ["w", False, "\\"]
BEFORE_BACKSLASH = ("w", "c", "l", "r", "B", "cl")


def two_spaces(block, i):
    """Is there a line break made of spaces after that segment of a paragraph?"""
    if i + 1 < len(block["segs"]):
        return block["segs"][i][-1] != BACKSLASH
    return block["hb"]


# --- blocks ---------------------------------------------------------------------------


def paragraph(d, o):
    segs = [inline(d, o)]
    if o.hard_breaks:
        while len(segs) < 4 and d.p(1, 6):
            segs.append(inline(d, o, 1, o.max_tokens // 2))
    # A line break right before a hard break or after it is one break only
    for seg in segs:
        if seg[-1][0] in ("br", "s") or seg[0][0] == "br":
            seg.append(["w", True, d.c(PLAIN)])
    hb = o.hard_breaks and d.p(1, 12)
    for seg in segs if hb else segs[:-1]:
        if escapes(token_text(seg[-1])):
            # markdown-it doesn't render a line break for two spaces after a backslash
            seg.append(["w", True, d.c(PLAIN)])
    for seg in segs[:-1]:
        if o.backslashes and seg[-1][0] in BEFORE_BACKSLASH and d.p(1, 4):
            seg.append(list(BACKSLASH))
    if o.start_spicy and d.p(1, 3):
        segs[0].insert(0, ["s", True, d.c(SPICY_STARTS)])
    elif o.start_definition and d.p(1, 12):
        segs[0][:0] = definition_like(d)
    return {"t": "p", "segs": segs, "hb": hb}


def heading_text(d, o):
    if d.p(1, 8):
        return ""
    small = Opts(**{**vars(o), "max_tokens": d.c([3, 3, 8, 30])})
    small.tokens = dict(o.tokens, br=0, s=0)
    text = inline_text(inline(d, small))
    if d.p(1, 8):
        text += d.c([" #", " ##", " -", " =", " *"])
    if d.p(1, 8):
        text = d.c(["#1 ", "# ", "### ", "- ", "> ", ">", "1. ", "| ", "=", "``` "]) + text
    return text


def fence(d, o, in_list=False, last=False):
    char = d.c(["`", "`", "~"])
    n = many(d, o, "fence", d.c([3, 3, 3, 4, 5, 7, 12]), [10, 25, 100])
    lines = []
    for _ in range(many(d, o, "lines", d.i(0, d.c([6, 6, 6, 15])), [30, 110])):
        line = code_line(d)
        if not o.tabs:
            line = line.replace("\t", " ")
        if in_list and not list_safe(line):
            line = "x " + line.strip()
        if closes(line, char, n):
            line = "no " + line
        lines.append(line)
    block = {"t": "f", "c": char, "n": n, "lang": d.c(LANGS), "L": lines}
    block["closed"] = not (last and o.unclosed and d.p(1, 6))
    if not block["closed"]:
        while lines and not lines[-1].strip():
            lines.pop()
    return block


def closes(line, char, n):
    line = line.strip()
    return line.startswith(char * n) and not line.strip(char)


def is_hr(line):
    line = "".join(line.split())
    return len(line) >= 3 and any(line == c * len(line) for c in HR)


def list_safe(line):
    """Lines that MarkFlow lets be a part of a list (known finding: others end it)"""
    return bool(line.strip()) and not line.lstrip().startswith("|") and not is_hr(line)


def icode(d, o):
    lines = [d.c(["x = 1", "code", "  more", "- item", "# no", "    deep", "> q", "1. x"])]
    for _ in range(many(d, o, "lines", d.i(0, 4), [12, 40, 110])):
        lines.append(code_line(d))
    # Known finding: fences that are indented too much are still fences
    lines = [
        "code " + line.strip() if line.strip().startswith(("```", "~~~")) else line
        for line in lines
    ]
    lines = ["" if not line.strip() else line for line in lines]
    while not lines[-1]:
        lines.pop()
    return {"t": "i", "L": lines}


CELLS = ["", "a", "aa", "abcde", "two words", "a\\|b", "`code`", "*em*", "[l](u)", "1.5",
         "\u00e9", "a  b", "-", "**b** x", "\\|", "x\\\\y", "long cell with several words",
         "---", ":-:", "<br>", "Title Case", "# x", "> y", "- z", "1. a", "[r][s]", "&amp;", "it's",
         "A\u00a0B", "\u00dcBER", "==", "```", "~~~", "x=1;", "\"q\"", "![i](j)", "0", "\u6f22", "words of a cell " + "that is wide" * 8]


def table(d, o):
    n = many(d, o, "cells", d.c([1, 2, 2, 3, 3, 4, 6, 11]), [17, 30])
    rows = many(d, o, "rows", d.i(0, d.c([4, 4, 4, 10])), [25, 105] if n < 12 else [12])
    return {
        "t": "t",
        "al": [d.c("nlcr") for _ in range(n)],
        "hd": [d.c(CELLS) for _ in range(n)],
        "rows": [[d.c(CELLS) for _ in range(n)] for _ in range(rows)],
    }


def definition(d, o, index):
    title = None
    if d.p(1, 2):
        title = plain_words(d, 1, d.c([2, 6, 30]))
        if d.p(1, 6):
            at = d.i(0, len(title) - 1)
            odd = ["it's", "\\\"", "&", "a_b", "&amp;", "\u00dcber", "\\\\x", "x:", "(y)", "100%",
                   "*", "-", "#x", "1.", "+", ">", "|x", "==", "---", "~~~"]
            title[at] = d.c(odd[:10] if at < 2 else odd)
    quote = d.c(["\"", "'"])
    if title and quote == "'":
        title = [w.replace("'", "") for w in title]
    if title and (title[0] in ("*", "-") or not title[0]):
        title[0] = "t"
    return {
        "t": "d",
        "lab": d.c(LABELS) + (f" {index}" if d.p(1, 2) else ""),
        "url": d.c(URLS),
        "nl": d.p(1, 4),
        "title": title,
        "q": quote,
        "tn": bool(title) and (not o.defs_title_same_line or d.p(1, 3)),
    }


def item_blocks(d, o, depth, marker, last):
    """The content of a list entry. There can't be any blank lines in it."""
    if d.p(1, 12):
        return []
    first = weighted(
        d,
        dict(
            p=14,
            h=1 if o.blocks["h"] else 0,
            s=1 if o.blocks["s"] else 0,
            f=2 if o.blocks["f"] else 0,
            q=1 if o.blocks["q"] and depth else 0,
            hr=1 if o.blocks["hr"] else 0,
            u=1 if o.blocks["u"] and depth else 0,
            o=1 if o.blocks["o"] and depth else 0,
        ),
    )
    kinds = [first]
    while len(kinds) < 3 and d.p(1, 3):
        options = {
            "p": dict(u=4, o=4, f=2, h=1, q=1),
            "h": dict(p=3, u=2, o=2, f=2, q=1, h=1),
            "s": dict(p=3, u=2, o=2, f=2, q=1, h=1),
            "f": dict(p=3, u=2, o=2, f=1, q=1, h=1),
            "hr": dict(p=3, h=1),
            "q": dict(h=1, f=2),
            "u": {},
            "o": {},
        }[kinds[-1]]
        options = {
            k: w if o.blocks.get(k) and (depth or k not in "uoq") else 0
            for k, w in options.items()
        }
        if not sum(options.values()):
            break
        kinds.append(weighted(d, options))
    blocks = []
    for i, kind in enumerate(kinds):
        prev = blocks[-1]["t"] if blocks else None
        is_last = i == len(kinds) - 1
        if kind == "p":
            block = paragraph(d, o)
            block["hb"] = False
        elif kind == "h":
            block = atx(d, o)
            if not block["x"]:
                block["x"] = "h"
        elif kind == "s":
            small = Opts(**{**vars(o), "max_tokens": 8})
            small.tokens = dict(o.tokens, br=0, s=0)
            block = {"t": "s", "c": "=", "k": inline(d, small)}
        elif kind == "f":
            block = fence(d, o, in_list=True, last=last and is_last)
        elif kind == "hr":
            block = {"t": "hr", "c": d.c([c for c in HR if c != marker])}
        elif kind == "q":
            block = block_quote(d, o, depth - 1)
            block["tail"] = 0
        else:
            block = list_block(d, o, kind, depth - 1, last=last and is_last, in_item=True)
            if prev is not None:
                block["n"] = 1
                if not block["items"][0]:
                    block["items"][0] = [dict(paragraph(d, o), hb=False, gap=0)]
            if prev is None and kind == "u":
                # e.g. `- - -`
                block["m"] = d.c([m for m in BULLETS if m != marker])
                for item in block["items"]:
                    if item and item[0].get("c") == block["m"]:
                        item[0]["c"] = "_"
                    elif item and item[0].get("m") == block["m"]:
                        item[0] = dict(paragraph(d, o), hb=False, gap=0)
                        del item[1:]
        block["gap"] = 0
        blocks.append(block)
    return blocks


def list_block(d, o, kind, depth, last=False, in_item=False):
    marker = d.c(BULLETS) if kind == "u" else "."
    n = d.i(1, 4)
    if d.p(1, 12) or (o.big == "entries" and d.p(1, 2)):
        n = many(d, o, "entries", d.i(5, 12), [20, 45, 102, 110])
        # Most of its entries are short
        small = Opts(**vars(o))
        small.max_tokens = 4
        o, depth = small, 0
    items = []
    for i in range(n):
        items.append(item_blocks(d, o, depth, marker, last=last and i == n - 1))
    block = {"t": kind, "items": items}
    if kind == "u":
        block["m"] = marker
    else:
        block["n"] = d.c([1, 1, 1, 0, 2, 7, 9, 10, 99, 998, 12345, 999999998])
    return block


def block_quote(d, o, depth, last=False):
    inner = Opts(**vars(o))
    inner.max_blocks = 3
    blocks = doc_blocks(d, inner, depth, first_gap=d.p(1, 6), in_quote=True, last=last)
    while blocks[0]["t"] == "i":
        blocks[0] = dict(paragraph(d, o), gap=blocks[0]["gap"])
        if len(blocks) > 1 and blocks[1]["gap"] == 0 and not can_touch(o, *blocks[:2]):
            blocks[1]["gap"] = 1
    if o.unclosed is False or ends_open(blocks):
        tail = 0
    else:
        tail = d.c([0, 0, 0, 0, 1])
    space = not d.p(1, 4)
    if o.strict_quotes and has_indentation(blocks):
        # One of the spaces at the start of a line would be a part of the marker
        space = True
    return {"t": "q", "sp": space, "b": blocks, "tail": tail}


def has_indentation(blocks):
    return any(
        b["t"] in "iuo" or (b["t"] == "q" and has_indentation(b["b"])) for b in blocks
    )


def atx(d, o):
    return {"t": "h", "d": d.i(1, 6), "x": heading_text(d, o)}


def ends_open(blocks):
    """Does the last block run until the end of its container?"""
    if not blocks:
        return False
    block = blocks[-1]
    if block["t"] == "f":
        return not block["closed"]
    if block["t"] in "uo":
        return ends_open(block["items"][-1])
    if block["t"] == "q":
        return ends_open(block["b"])
    return False


# Which blocks can follow which without a blank line
ADJACENT = {
    "p": {"h", "f", "q", "u", "o", "hr", "t"},
    "h": {"p", "h", "s", "hr", "f", "i", "q", "u", "o", "t", "d"},
    "s": {"p", "h", "s", "hr", "f", "i", "q", "u", "o", "t", "d"},
    "hr": {"p", "h", "s", "hr", "f", "i", "q", "u", "o", "t", "d"},
    "f": {"p", "h", "s", "hr", "f", "i", "q", "u", "o", "t", "d"},
    "i": {"p", "h", "s", "hr", "f", "q", "u", "o", "t", "d"},
    "q": {"h", "f", "hr", "u", "o"},
    "u": {"hr"},
    "o": {"hr"},
    "t": {"h", "hr", "f", "i", "q", "u", "o"},
    "d": {"d", "h", "f", "p", "s", "hr", "q", "u", "o", "t"},
}
# And not according to CommonMark
LOOSELY_ADJACENT = {"t": {"p", "s", "d"}, "u": {"t"}, "o": {"t"}, "q": {"t"}}


def block(d, o, kind, depth, last=False, index=0):
    if kind == "p":
        return paragraph(d, o)
    if kind == "h":
        return atx(d, o)
    if kind == "s":
        small = Opts(**{**vars(o), "max_tokens": d.c([4, 4, 30])})
        small.tokens = dict(o.tokens, br=0)
        tokens = inline(d, small)
        if tokens[-1][0] == "s":
            tokens.append(["w", True, d.c(PLAIN)])
        if o.start_definition and d.p(1, 12):
            tokens = definition_like(d) + tokens
        return {"t": "s", "c": d.c("=-"), "k": tokens}
    if kind == "hr":
        return {"t": "hr", "c": d.c(HR)}
    if kind == "f":
        return fence(d, o, last=last)
    if kind == "i":
        return icode(d, o)
    if kind == "q":
        return block_quote(d, o, depth - 1, last=last)
    if kind in "uo":
        return list_block(d, o, kind, depth - 1, last=last)
    if kind == "t":
        return table(d, o)
    if kind == "d":
        return definition(d, o, index)
    raise AssertionError(kind)


def doc_blocks(d, o, depth=None, first_gap=False, in_quote=False, last=True):
    top = depth is None
    depth = o.depth if top else depth
    n = d.i(1, o.max_blocks)
    if top:
        n = many(d, o, "blocks", n, [10, 20, 40])
    blocks = []
    for i in range(n):
        table_ = dict(o.blocks)
        if depth <= 0:
            table_.update(q=0, u=0, o=0)
            if not any(table_.values()):
                table_["p"] = 1
        prev = blocks[-1] if blocks else None
        if prev and prev["t"] in ("i", "u", "o"):
            # Indented code would be a part of what's before it
            table_["i"] = 0
        if not any(table_.values()):
            table_["p"] = 1
        kind = weighted(d, table_)
        new = block(d, o, kind, depth, last=last and i == n - 1, index=i)
        if prev is None:
            gap = d.i(1, 2) if first_gap else 0
        else:
            gap = many(d, o, "gap", d.c([1, 1, 1, 2, 3, 0, 0, 0]), [0, 1, 4, 5, 9, 12, 20, 40])
            if gap == 0 and not can_touch(o, prev, new):
                gap = 1
                if o.quote_then_setext and prev["t"] + new["t"] == "qs":
                    # Not a part of the quote, unlike what CommonMark says
                    gap = 0
        new["gap"] = gap
        blocks.append(new)
    return blocks


def ends_paragraph(block):
    """Can't text right after the block be a part of its last paragraph?"""
    if block["t"] == "q":
        return bool(block["tail"]) or ends_paragraph(block["b"][-1])
    return block["t"] in ("h", "s", "hr", "f", "i", "t")


def can_touch(o, prev, new):
    adjacent = ADJACENT[prev["t"]]
    if not o.strict_quotes:
        adjacent = adjacent | LOOSELY_ADJACENT.get(prev["t"], set())
    if prev["t"] == "q" and ends_paragraph(prev):
        adjacent = adjacent | {"p", "s", "i", "u", "o", "t", "d"}
    if new["t"] not in adjacent:
        return False
    if prev["t"] == "p" and prev["hb"]:
        return False
    if prev["t"] == "h" and new["t"] == "t" and "|" in prev["x"]:
        # markdown-it reads the heading as the first row if the next one may be a divider
        return False
    if prev["t"] == "d" and new["t"] in "ps":
        # Not the title of the definition
        first = (new["segs"][0] if new["t"] == "p" else new["k"])[0]
        if first[0] not in "ws" or first[2][0] in "\"'(":
            return False
    if prev["t"] == "q" and new.get("c") == "-":
        # Documented: the last lazy line of a quote may be a setext heading
        return False
    if prev["t"] == "q" and new["t"] == "i" and new["L"][0].lstrip().startswith(">"):
        # markdown-it reads this as a line of the quote
        return False
    may_continue = prev["t"] == "p" or prev["t"] == "q" and not ends_paragraph(prev)
    if may_continue and new["t"] in "uo":
        if not new["items"][0] or new.get("n", 1) != 1:
            return False
        # Can only interrupt a paragraph with text in its first entry
        if new["items"][0][0]["t"] != "p":
            return False
    return True


def seam(d, o):
    """A section in quotes, one in another, and right after all of them another section"""
    small = Opts(**vars(o))
    small.max_tokens = d.c([2, 2, 5])
    depth = d.c([1, 2, 0, 1, 2, 3]) if o.blocks["q"] else 0
    depth = min(depth, o.depth)
    options = {k: 1 for k, w in o.blocks.items() if w and k != "q"} or {"p": 1}
    blocks = [block(d, small, weighted(d, options), o.depth - depth)]
    blocks[0]["gap"] = 0
    for i in range(depth):
        if d.p(1, 3) or blocks[0]["t"] == "i":
            # It isn't the only one, unless it's the innermost
            first = block(d, small, d.c(["p", "h"]) if o.blocks["h"] else "p", 0)
            blocks[0]["gap"] = 0 if can_touch(o, first, blocks[0]) and d.p(1, 2) else 1
            blocks.insert(0, dict(first, gap=0))
        space = not d.p(1, 4) or (o.strict_quotes and has_indentation(blocks))
        blocks = [{"t": "q", "sp": space, "b": blocks, "tail": 0, "gap": 0}]
    for _ in range(d.c([1, 1, 2])):
        options["q"] = int(bool(o.blocks["q"] and o.depth))
        if blocks[-1]["t"] in ("i", "u", "o"):
            options = dict(options, i=0)
        if not any(options.values()):
            options["p"] = 1
        new = block(d, small, weighted(d, options), o.depth, index=len(blocks))
        new["gap"] = 0
        if not can_touch(o, blocks[-1], new):
            kinds = blocks[-1]["t"] + new["t"]
            new["gap"] = 0 if o.quote_then_setext and kinds == "qs" else 1
        elif d.p(1, 8):
            new["gap"] = 1
        blocks.append(new)
    return blocks


def document(d, o):
    if o.seams and d.p(1, 6):
        return seam(d, o)
    blocks = doc_blocks(d, o, first_gap=d.p(1, 12))
    for block in blocks:
        if block["t"] == "i" and o.tab_code:
            block["tab"] = d.p(1, 4)
    return blocks


WIDTHS = [88, 88, 80, 60, 40, 40, 30, 20, 20, 15, 10, 5, 1, "inf", 120, 200]


def width(d):
    if d.p(1, 60):
        return d.c([101, 128, 255, 256, 257, 300, 500, 1000, 4000, 100000])
    return d.c(WIDTHS) if d.p(2, 3) else d.i(1, 100)
