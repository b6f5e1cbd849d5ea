"""Reading a formatted document back: which pieces of text ended up on which line.

Unlike `model.canonical`, this knows nothing about how lines are filled. It only needs to
know what the markers of containers look like and which pieces of text are never split.
"""

from . import model
from .sut import Violation


class Text:
    """Some text that may be wrapped: the lines it's on as lists of pieces"""

    def __init__(self, kind, width, lines, ends):
        self.kind = kind
        self.width = width
        # [[(separator, text, is a line break)]]
        self.lines = lines
        # May more text follow the last line in the same paragraph?
        self.ends = ends


class Reader:
    def __init__(self, text, width):
        self.rows = text[:-1].split("\n")
        self.at = 0
        self.prefixes = []
        self.width = width
        self.texts = []
        self.breaks = []
        self.underlines = []

    def fail(self, what):
        row = self.rows[self.at - 1] if self.at else None
        raise Violation(f"line {self.at}, {row!r:.200}, {what}")

    def left(self):
        width = self.width
        for prefix in self.prefixes:
            width = model.less(width, prefix[1])
        return width

    def take(self):
        if self.at >= len(self.rows):
            self.fail("is the last one but there should be more")
        row = self.rows[self.at]
        self.at += 1
        text = row
        for prefix in self.prefixes:
            first, rest = prefix
            use = first
            prefix[0] = rest
            if text.startswith(use):
                text = text[len(use) :]
            elif text == use.rstrip():
                text = ""
            else:
                self.fail(f"should start with {use!r} but has {text!r:.100}")
        return text

    def text(self, kind, pieces, width=None):
        """Read lines until all pieces have been seen"""
        pieces = list(pieces)
        lines = []
        raw = []
        while pieces:
            row = self.take()
            raw.append(row)
            row = row.rstrip(" ")
            text, sep, newline = pieces.pop(0)
            if not row.startswith(text):
                self.fail(f"should start with {text!r}")
            row = row[len(text) :]
            line = [(sep, text, newline)]
            while row:
                if not pieces:
                    self.fail(f"has more text: {row!r}")
                text, sep, newline = pieces.pop(0)
                joined = (" " if sep == model.SPACE else "") + text
                if not row.startswith(joined):
                    self.fail(f"should have {joined!r} where {row!r} is")
                row = row[len(joined) :]
                line.append((sep, text, newline))
            lines.append(line)
        self.texts.append(Text(kind, width or self.left(), lines, False))
        return raw

    def skip(self, count):
        return [self.take() for _ in range(count)]

    def blocks(self, blocks):
        prev = None
        for block in blocks:
            for row in self.skip(block["gap"] + model.added_lines(prev, block)):
                if row.strip():
                    self.fail("should be blank")
            getattr(self, "b_" + block["t"])(block)
            prev = block

    def b_p(self, block):
        for seg in block["segs"]:
            self.text("p", model.atoms(seg))

    def b_h(self, block):
        self.skip(1)

    def b_s(self, block):
        raw = self.text("s", model.atoms(block["k"]))
        self.underlines.append((self.take(), max(map(len, raw)), block["c"]))

    def b_hr(self, block):
        self.breaks.append((self.take(), self.left(), block["c"]))

    def b_f(self, block):
        self.skip(len(block["L"]) + 2)

    def b_i(self, block):
        self.skip(len(block["L"]))

    def b_t(self, block):
        self.skip(len(block["rows"]) + 2)

    def b_q(self, block):
        prefix = "> " if block["sp"] else ">"
        self.prefixes.append([prefix, prefix])
        self.blocks(block["b"])
        if self.at < len(self.rows):
            self.skip(block["tail"])
        self.prefixes.pop()

    def entries(self, items, markers):
        for item, marker in zip(items, markers):
            first = marker + " "
            self.prefixes.append([first, " " * len(first)])
            if item:
                self.blocks(item)
            else:
                self.skip(1)
            self.prefixes.pop()

    def b_u(self, block):
        self.entries(block["items"], [block["m"]] * len(block["items"]))

    def b_o(self, block):
        count = len(block["items"])
        numbers = [min(block["n"] + i, 999999999) for i in range(count)]
        self.entries(block["items"], [f"{n}." for n in numbers])

    def b_d(self, block):
        last = f"[{block['lab']}]:"
        if block["nl"]:
            if self.take().rstrip() != last:
                self.fail(f"should be {last!r}")
            last = block["url"]
        else:
            last += " " + block["url"]
        words = list(block["title"] or [])
        if words:
            words[0] = block["q"] + words[0]
            words[-1] += block["q"]
        if not words or block["tn"]:
            if self.take().rstrip() != last:
                self.fail(f"should be {last!r}")
            last = None
        if words:
            pieces = model.atoms(model.title_tokens(([last] if last else []) + words))
            self.text("d", pieces)


def read(doc, text, width):
    """All the wrapped text of a formatted document"""
    reader = Reader(text, model.num(width))
    reader.blocks(doc)
    if any(row.strip(" >") for row in reader.rows[reader.at :]):
        reader.at += 1
        reader.fail("shouldn't be there")
    return reader
