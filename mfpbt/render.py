"""What a document means to an independent CommonMark parser (markdown-it-py)

`meaning` returns a tree that is equal for two documents if they are rendered the same,
except for what the documentation says MarkFlow changes on purpose:

* soft line breaks are spaces, and any amount of white space in text is one space,
* white space around `<br>` and trailing white space of code isn't rendered,
* neighbouring lists of the same type are one list (bullets and numbers are made
  consistent), and whether lists are tight isn't considered.
"""

import re

from markdown_it import MarkdownIt

from .gen import LABELS

BR = re.compile(r"<br ?/?>$")


def _parser():
    return MarkdownIt("commonmark", {"maxNesting": 1000}).enable("table")


def _env():
    md = _parser()
    env = {}
    text = "".join(f"[{label}]: /defined/{i}\n" for i, label in enumerate(LABELS))
    md.parse(text, env)
    return env


PARSER = _parser()
PREDEFINED = _env()["references"]


def squeeze(text):
    return re.sub(r"[ \t\n]+", " ", text)


def inline(children):
    out = []

    def add_text(text):
        if out and out[-1][0] == "text":
            out[-1] = ("text", out[-1][1] + text)
        else:
            out.append(("text", text))

    for tok in children or []:
        if tok.type == "text":
            add_text(tok.content)
        elif tok.type == "text_special":
            add_text(tok.content)
        elif tok.type == "softbreak":
            add_text("\n")
        elif tok.type == "hardbreak":
            out.append(("hardbreak",))
        elif tok.type == "code_inline":
            out.append(("code", squeeze(tok.content)))
        elif tok.type == "html_inline":
            if BR.match(tok.content):
                out.append(("br",))
            else:
                out.append(("html", squeeze(tok.content)))
        elif tok.type == "image":
            out.append(
                ("image", tok.attrGet("src"), squeeze(tok.attrGet("title") or ""),
                 tuple(inline(tok.children)))
            )
        else:
            attrs = tuple(
                sorted((k, squeeze(str(v))) for k, v in (tok.attrs or {}).items())
            )
            out.append((tok.type, attrs))
    result = []
    for i, node in enumerate(out):
        if node[0] == "text":
            text = squeeze(node[1])
            before = out[i - 1][0] if i else None
            after = out[i + 1][0] if i + 1 < len(out) else None
            if before in ("br", "hardbreak", None):
                text = text.lstrip(" ")
            if after in ("br", "hardbreak", None):
                text = text.rstrip(" ")
            if not text:
                continue
            node = ("text", text)
        result.append(node)
    return result


def code(text):
    return tuple(line.rstrip() for line in text.split("\n"))


def build(tokens, i, end_type):
    nodes = []
    while i < len(tokens):
        tok = tokens[i]
        if tok.type == end_type:
            return nodes, i
        if tok.nesting == 1:
            kind = tok.type[: -len("_open")]
            children, i = build(tokens, i + 1, kind + "_close")
            attrs = ()
            if kind == "ordered_list":
                attrs = (tok.attrGet("start") if tok.attrGet("start") is not None else 1,)
            elif kind == "heading":
                attrs = (tok.tag,)
            elif kind in ("td", "th"):
                attrs = (tok.attrGet("style"),)
            if (
                kind in ("bullet_list", "ordered_list")
                and nodes
                and nodes[-1][0] == kind
            ):
                nodes[-1] = (kind, nodes[-1][1], nodes[-1][2] + tuple(children))
            else:
                nodes.append((kind, attrs, tuple(children)))
        elif tok.type == "inline":
            nodes.extend(inline(tok.children))
        elif tok.type == "fence":
            nodes.append(("fence", " ".join(tok.info.split()), code(tok.content)))
        elif tok.type == "code_block":
            nodes.append(("code_block", code(tok.content)))
        elif tok.type == "hr":
            nodes.append(("hr",))
        else:
            nodes.append((tok.type, tok.content))
        i += 1
    return nodes, i


def meaning(text):
    # (markdown-it can't handle the end of some texts without it)
    text += "" if text.endswith("\n") else "\n"
    env = {"references": dict(PREDEFINED)}
    tokens = PARSER.parse(text, env)
    defs_env = {}
    PARSER.parse(text, defs_env)
    refs = tuple(
        sorted(
            (label, ref["href"], squeeze(ref["title"]))
            for label, ref in defs_env.get("references", {}).items()
        )
    )
    return tuple(build(tokens, 0, None)[0]), refs


def first_difference(a, b, path=""):
    if type(a) is tuple and type(b) is tuple and (
        not a or not b or a[0:1] == b[0:1] or not isinstance(a[0], str)
    ):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return first_difference(x, y, f"{path}/{i}")
        if len(a) != len(b):
            return f"{path}: {len(a)} parts became {len(b)}: {a!r:.200} -> {b!r:.200}"
    return f"{path}: {a!r:.300} -> {b!r:.300}"
