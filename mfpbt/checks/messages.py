"""What the user is told while a document is formatted"""

import contextlib
import logging
import re

from .. import gen, messy, sut
from .base import Check, draw_opts, draw_style, kinds, only, show

CHECKS = []
CLASSES = {
    "p": "Paragraph", "h": "ATXHeading", "s": "SetextHeading", "hr": "ThematicBreak",
    "f": "FencedCodeBlock", "i": "IndentedCodeBlock", "q": "BlockQuote",
    "u": "BulletList", "o": "OrderedList", "t": "Table", "d": "LinkReferenceDefinition",
}
LINES = re.compile(r"Lines? ([0-9]+)(?:-([0-9]+))?\b")
SECTION = re.compile(r"Markdown(\w+)")
LINE = re.compile(r"\b[Ll]ine ([0-9]+)\b")
CONTAINER = r"^(?:[>\s]|[-*+](?=\s|$)|[0-9]+\.(?=\s|$))*"
# (lines, the one to warn about)
SNIPPETS = [
    (["#tag"], 0), (["##two words"], 0), (["~~~", "x", "       ~~~"], 2),
    (["```py", "     ```"], 1), (["[label]:"], 0), (["# fine", "######deep"], 1),
    (["text", "more", "~~~", "x", "       ~~~"], 4), (["text", "#tag"], 1),
    (["  ~~~", "x", "y", "      ~~~"], 3), (["- a", "- b", "  ~~~~", "      ~~~~"], 3),
    (["> a", "~~~", "x", "     ~~~"], 3), (["1. a", "2. [label]:"], 1), (["> a", ">", "> b", "> #tag"], 3),
    # These are fine
    (["~~~", "x", "   ~~~"], None), (["   ```", "x", "      ```"], None),
    (["text", "~~~", "x", "   ~~~"], None), (["~~~", "     ~~", "~~~"], None),
]
# In lists, the thematic break ends the list
BREAKS = [(["text", "- - -"], 1), (["text", "---  -"], 1)]
CONTAINERS = [[], [], [], ["> "], ["> ", "> "], ["- "], ["1. "], ["- ", "> "], ["> ", "- "]]


def register(cls):
    CHECKS.append(cls())
    return cls


@contextlib.contextmanager
def captured(level):
    records = []

    class Handler(logging.Handler):
        def emit(self, record):
            records.append((record.levelno, record.getMessage()))

    logger = logging.getLogger("markflow")
    old = logger.level, logger.handlers[:], logger.propagate
    logger.setLevel(level)
    logger.handlers[:] = [Handler()]
    logger.propagate = False
    try:
        yield records
    finally:
        logger.setLevel(old[0])
        logger.handlers[:] = old[1]
        logger.propagate = old[2]


def collapse(names):
    result = []
    for name in names:
        if not result or result[-1] != name:
            result.append(name)
    return result


def after_quotes(blocks):
    """The number of setext headings right after a quote"""
    count = 0
    for i, block in enumerate(blocks):
        if block["t"] == "q":
            count += after_quotes(block["b"])
        elif block["t"] in ("u", "o"):
            count += sum(after_quotes(item) for item in block["items"])
        elif block["t"] == "s" and i and blocks[i - 1]["t"] == "q":
            count += not block["gap"]
    return count


@register
class Messages(Check):
    id = "C34"
    rule = (
        "Documents of any sections, half of them with a mistake that MarkFlow corrects but "
        "warns about (or something that only looks like one) somewhere in lists and quotes, "
        "with messages of all levels, a third of them with debugging, too. Non-trivial: there are at least three sections or a mistake."
    )
    quick, thorough = 4500, 90000

    def gen(self, d):
        mistake = d.p(1, 2)
        o = draw_opts(d, unclosed=False, quote_then_setext=d.p(1, 3))
        if mistake:
            o.max_blocks = 2
        doc = gen.document(d, o)
        before = messy.spell(d, draw_style(d), doc, True)
        case = {"doc": doc, "src": before, "width": gen.width(d), "warn": None, "extra": mistake}
        case["debug"] = d.p(1, 3)
        if mistake:
            containers = d.c(CONTAINERS)
            listed = set(containers) - {"> "}
            lines, at = d.c(SNIPPETS if listed else SNIPPETS + BREAKS)
            for marker in reversed(containers):
                lead = [["a"], ["a", "b"], []][d.i(0, 2)]
                if lead and marker == "> ":
                    lead = lead + [""]
                if at is not None:
                    at += len(lead)
                rest = marker if marker == "> " else " " * len(marker)
                if marker == "> ":
                    lines = [f"> {line}".rstrip() for line in lead + lines]
                else:
                    # Each line of the lead is an entry
                    lines = [marker + line for line in lead] + [
                        (rest if i else marker) + line for i, line in enumerate(lines)
                    ]
            if at is not None:
                case["warn"] = before.count("\n") + 1 + at + 1
            case["src"] = before + "\n" + "\n".join(lines) + "\n"
            if d.p(1, 2):
                case["src"] += d.c(["\nend\n", "\n# end\n", "\n- end\n"])
        return case

    def judge(self, case):
        src = case["src"]
        with captured(logging.INFO) as records:
            sut.must(src, case["width"])
        rows = src.splitlines()
        at, names = 1, []
        for level, message in records:
            match = LINES.match(message)
            if level != logging.INFO or not match:
                continue
            first, last = int(match.group(1)), int(match.group(2) or match.group(1))
            if first != at or last < first:
                return f"{message!r} is logged for {show(src)}, but it should be on line {at}"
            at = last + 1
            name = SECTION.search(message)
            names.append(name.group(1) if name else "?")
            blank = not "".join(rows[first - 1 : last]).strip()
            if name and blank != (name.group(1) == "BlankLine"):
                return f"{message!r} is logged for {show(rows[first - 1 : last])}"
        if at != len(rows) + 1:
            return f"there is no message about lines {at} to {len(rows)} of {show(src)}"
        if case.get("debug"):
            message = self.judge_nested(case)
            if message:
                return message
        if not case.get("extra", case["warn"]) and "?" not in names:
            expected = []
            for block in case["doc"]:
                expected += ["BlankLine"] * bool(block["gap"]) + [CLASSES[block["t"]]]
            got = collapse(names)
            while got and got[-1] == "BlankLine":
                got.pop()
            if got != collapse(expected):
                return f"{show(src)} is said to have {got} instead of {collapse(expected)}"
        return self.judge_warnings(case, rows, records)

    def judge_nested(self, case):
        """With debugging, sections in lists and quotes are also reported with their lines"""
        rows = case["src"].splitlines()
        with captured(logging.DEBUG) as records:
            sut.must(case["src"], case["width"])
        top, nested = [], []
        for level, message in records:
            match, name = LINES.match(message), SECTION.search(message)
            if level > logging.INFO or not match or not name:
                continue
            first, last = int(match.group(1)), int(match.group(2) or match.group(1))
            if level == logging.INFO and first == 1 and top:
                # From here on, the result is checked
                break
            (top if level == logging.INFO else nested).append((first, last, name.group(1)))
        if not nested:
            return None
        covered = set()
        for first, last, name in nested:
            lines = range(first, last + 1)
            if not any(
                a <= first <= last <= b and kind in ("BlockQuote", "BulletList", "OrderedList")
                for a, b, kind in top
            ):
                return f"a {name} on lines {first} to {last} of {show(case['src'])} is reported"
            covered.update(lines)
            text = "".join(re.sub(CONTAINER, "", rows[line - 1]) for line in lines)
            if name == "BlankLine" and text.strip() or name != "BlankLine" and not (
                "".join(rows[line - 1] for line in lines).strip()
            ):
                return f"a {name} on lines {first} to {last} of {show(case['src'])} is reported"
        for first, last, kind in top:
            for line in range(first, last + 1):
                if kind in ("BlockQuote", "BulletList", "OrderedList") and line not in covered:
                    return f"no section on line {line} of {show(case['src'])} is reported"
        return None

    def judge_warnings(self, case, rows, records):
        warned = set()
        for level, message in records:
            if level == logging.WARNING:
                warned |= {int(n) for n in LINE.findall(message)}
        if case["warn"] is not None and case["warn"] not in warned:
            return (
                f"there is no warning about line {case['warn']} of {show(case['src'])}, "
                f"only {records}"
            )
        headings = after_quotes(case["doc"])
        for line in sorted(warned - {case["warn"]}):
            text = re.sub(CONTAINER, "", rows[line - 1]) if 0 < line <= len(rows) else "?"
            if re.match(r"#+\s*$", text):
                # An empty heading has no space after its marker
                continue
            if re.match(r"[-\s]*$", rows[line - 1].lstrip("> \t") if text != "?" else text):
                # A thematic break that may be taken for the underlining of a heading
                continue
            if headings and ">" in rows[line - 2] and line > 1:
                headings -= 1
                continue
            return f"there is a warning about line {line} of {show(case['src'])}: {records}"
        if headings:
            return f"there is no warning about a heading in {show(case['src'])}: {records}"
        return None

    def nontrivial(self, case):
        return case["warn"] is not None or len(case["doc"]) >= 3

    def labels(self, case):
        yield "a mistake" if case["warn"] is not None else "no mistake"
        for kind in set(kinds(case["doc"])):
            yield f"has {kind}"
