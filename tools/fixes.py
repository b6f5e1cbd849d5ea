"""Regression inputs of repaired defects and the inputs of known findings.

`python3-vt tools/fixes.py` writes regressions/, findings/ and known-findings.txt, after
checking that every regression fails on the commit before its repair (in a scratch worktree)
and passes now, and that every finding still fails.
"""

import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MFPBT_REPO", "/repo")
PYTHON = "/opt/veriftools/pyvenv/bin/python"


def t(src, width=88, **kw):
    return dict(src=src, width=width, **kw)


def must(src, width=88):
    # C01 expects a document to be formatted
    return t(src, width, doc=[])


def run(*paths, **kw):
    base = dict(check=False, length=None, v=0, q=0, late=False, paths=list(paths))
    return {"run": dict(base, **kw)}


def cli(files, *steps):
    return {"files": {k: {"text": v} for k, v in files.items()}, "steps": list(steps)}


def wraps(tokens, src, width):
    doc = [{"t": "p", "segs": [tokens], "hb": False, "gap": 0}]
    return t(src, width, doc=doc)


def w(*words):
    return [["w", True, word] for word in words]


FIXES = [
    ("f252a82", "C04", "only-fence", t("```")),
    ("34cfa1c", "C03", "unclosed-fence", t("```\na\nlast line of code")),
    ("1603c5f", "C02", "longer-closing-fence", t("```\na\n````\nb  c\n")),
    ("e3f9ce6", "C02", "inline-code-like-fence", t("```a b``` c  d\ne\n")),
    ("909a412", "C02", "fence-in-list", t("- ```\n  a\n  ```\n- b\n")),
    ("981733e", "C04", "leading-period", t(".a")),
    ("9ffcee2", "C03", "badge", t("[![word](url)](target)\n")),
    ("903a5d1", "C03", "link-like-text", t("[a][b](c)\n")),
    ("5487b60", "C02", "glued-code", t("word`code`\n", 5)),
    ("b1a6530", "C02", "wraps-into-list", t("word - item\n", 5)),
    ("1e4019d", "C04", "trailing-hard-break", t("a\nb  ")),
    ("d4cad6c", "C04", "definition-at-end", t("[a]:\nb")),
    ("0e9d417", "C02", "title-without-end", t("[a]: b\n\"t x\n\ntext\n")),
    ("0dce0b2", "C03", "definition-title-moves", t("[a]: url \"the title\"\n", 8)),
    ("194b665", "C25", "definition-in-label",
     dict(src="[a]:\na\n\"a\"\n", width=88, same=False, doc=[
         dict(t="d", lab="a", url="a", nl=True, title=["a"], q='"', tn=True, gap=0)])),
    ("ee80c3e", "C01", "no-last-pipe", must("|a|\n|-|\n|b\n")),
    ("bb0faa0", "C22", "no-divider",
     dict(src="|a|b|\n|-|\n|c|d|\n", width=88, kind="divider -", levels=0, start=0, at=1,
          rows=3)),
    ("b1230b1", "C02", "empty-centered-column", t("||a|\n|:-:|-|\n")),
    ("8fe3bcd", "C02", "spaced-break", t("- - -\ntext\n")),
    ("043977d", "C02", "short-width-break", t("***\n", 2)),
    ("c0c7835", "C06", "indented-quote",
     dict(doc=[{"t": "q", "sp": True, "tail": 0, "gap": 0, "b": [
         {"t": "p", "segs": [w("aa", "bb")], "hb": False, "gap": 0}]}],
         src="   > aa bb\n", width=6)),
    ("bbf4abd", "C02", "quoted-hard-break", t("> a  \n> b\n")),
    ("f436116", "C05", "empty-heading", t("#\n\na\n")),
    ("a6d8cc3", "C05", "empty-entry", t("- a\n-\n- b\n")),
    ("a25c7f6", "C12", "level-constants",
     {"calls": [dict(t("> |a|\n"), level=None), dict(t("a\n"), level=None)]}),
    ("ce81d98", "C12", "logger-level", {"calls": [dict(t("a\n"), level="WARNING")] * 2}),
    ("c30dae0", "C01", "language-with-fence", must("~~~ ~x\na\n~~~\n")),
    ("17aef21", "C02", "indented-last-line", t("    a\n    ```\n\nb\n")),
    ("64d83bf", "C28", "check-with-output",
     cli({"a.md": "a\n"}, run("a.md", check=True, output_files=["new.md"]))),
    ("05fd6f5", "C29", "newlines", cli({"a.md": "a\r\n"}, run("a.md"))),
    ("bec7630", "C02", "dash-break-after-paragraph", t("a\n- - -\n")),
    ("7bc8c54", "C02", "first-word-section", t("--- a\n", 3)),
    ("33d1db9", "C05", "empty-first-line", t("- - a\n-\n  b\n")),
    ("306fc2f", "C06", "second-word",
     wraps(w("a") + [["s", True, "-"]] + w("b"), "a - b\n", 3)),
    # (has no input of its own, generated titles cover it)
    ("bebd2b2", "C25", None, None),
    ("0f77ce3", "C02", "digits", t("9. a\n   ```\n   x\n   ```\n10. b\n")),
    ("191dfe9", "C06", "too-deep",
     dict(doc=[{"t": "q", "sp": True, "tail": 0, "gap": 0, "b": [
         {"t": "p", "segs": [w("a", "b")], "hb": False, "gap": 0}]}],
         src="> a b\n", width=2)),
    ("7d882fe", "C04", "tab-quote", t("\t>")),
    ("5ca74c2", "C01", "backticks", must("word ````a b\n", 5)),
    ("7672df7", "C02", "spaced-underscores", t("_ _ _ aaaa\n", 6)),
    ("60cc6df", "C29", "directory-with-brackets",
     cli({"br[1]ck/f.md": "a  b"}, run("br[1]ck"))),
    ("b7e3fe9", "C29", "directory-called-md", cli({"dir.md/h.md": "a  b"}, run("."))),
    ("15427fd", "C04", "deep-quotes", t("> " * 30 + "x\n")),
    ("85fc4d8", "C04", "number-of-many-digits", t("1" * 5000 + ". x\n")),
    ("85fc4d8", "C02", "long-number", t("1234567890. a\n* b\n")),
    ("1cbd1d7", "C33", "quotes-of-less-and-less-levels",
     dict(kind="flatter", pre=["> "], leaf=["a"], depth=0, start=5, step=False, end="", width=88)),
    ("24f6131", "C02", "lazy-lines", t("> a\nb\n>\n> # h\nc\n")),
    ("5e100fc", "C22", "nested-table",
     t("x\n\n> |a|b|\n> |-|-|\n> |c|\n", kind="row -", levels=1, start=2, at=2, rows=3)),
    ("5e100fc", "C34", "nested-heading", t("x\n\n> a\n>\n> #tag\n", doc=[], warn=5)),
    ("e2ae0c6", "C34", "fence", t("x\n\n~~~\nx\n       ~~~\n", doc=[], warn=5)),
    ("88e7e17", "C31", "level-of-messages",
     dict(calls=[t("> a\n"), t("> a\n")], schedule=[73])),
    ("2ae9f2c", "C31", "muted", dict(calls=[t("> a\n"), t("> a\n")], schedule=[73])),
    ("47bf8d1", "C28", "names-with-markdown",
     cli({"*x* y.md": "a  b\n"}, run("*x* y.md", check=True))),
    ("1b47955", "C30", "malformed-in-file", cli({"a.md": "|a|\n"}, run("a.md"))),
    ("4b6cabf", "C02", "becomes-definition", t("[Note]: see the docs\n", 11)),
    ("4b6cabf", "C01", "glued-definition", must("[l]:u y\n", 5)),
    ("c3515e6", "C02", "adjacent-links", t("[a](b) [c](d), [e][f]\n")),
    ("a6777cc", "C02", "tab-indentation", t("a\n\n\tcode\n\tmore\n\n- a\n\t- b\n\t\t- c\n")),
    ("356be95", "C02", "becomes-table", t("a | :-\n", 1)),
    ("55695f2", "C02", "backslash-break", t("a\\\nb\n")),
    ("55695f2", "C02", "wrapped-backslash", t("C:\\ foo\n", 3)),
]

FINDINGS = [
    ("C02", "word-before-link", t("[a](b) x[c](d)\n"),
     "the space between a link and a word glued to the front of the next link is dropped (a "
     "test of the repository expects that)"),
    ("C02", "indented-fence", t("  ```\n  x\n  ```\n"),
     "the code of an indented fenced code block keeps the indentation that CommonMark "
     "ignores (a test expects that)"),
    ("C02", "blank-line-in-entry", t("- a\n\n  b\n"),
     "a paragraph after a blank line in a list entry is moved out of the list"),
    ("C02", "break-in-entry", t("- a\n\n  ***\n"),
     "a thematic break in a list entry ends the list"),
    ("C02", "sibling-lists", t("- a\n1. b\n"),
     "a list that follows another type of list becomes a part of it"),
    ("C02", "html-block", t("<pre>\na\n  b\n</pre>\n"),
     "HTML blocks are reformatted like paragraphs"),
    ("C02", "no-break-space", t("- a\u00a0 b\n"), "no-break spaces next to spaces are dropped"),
    ("C02", "line-separator", t("a\u2028b\n"), "U+2028 and form feeds are newlines"),
    ("C02", "deep-fence", t("a\n\n    ```\n    b\n"),
     "fences indented by four or more spaces are fences"),
    ("C02", "interrupting-number", t("a\n7. b\n7. c\n"),
     "ordered lists that don't start with 1 interrupt paragraphs"),
    ("C02", "parenthesis-list", t("1) a\n2) b\n"),
     "ordered lists whose numbers are followed by parentheses are paragraphs"),
    ("C02", "table-without-pipes", t("a | b\n--|--\n1 | 2\n"),
     "tables without leading pipes are paragraphs"),
    ("C02", "tab", t("1. a\n   - b\n\t  - c\n\t\t- d\n"),
     "the second tab of a line in a list is a stop of the list, not of the line"),
    ("C01", "setext-in-entry", must("- aaa\n  --\n"),
     "a heading underlined with dashes in a list entry isn't formatted consistently"),
    ("C01", "setext-after-quote", must(">q\n=\ny\n"),
     "an underlining after a quote isn't formatted consistently"),
    ("C01", "dashes-after-quote", must(">a\n--\na\n"),
     "dashes after a quote aren't formatted consistently"),
    ("C01", "setext-after-list-quote", must("- >\nq\n=\n"),
     "an underlining after a quote in a list isn't formatted consistently"),
    ("C01", "sibling-break", must("- a\n1. ---\n"),
     "a thematic break that starts an entry after another type of list isn't formatted "
     "consistently"),
    ("C01", "break-on-next-line", must("1.\n    ***\n"),
     "a thematic break on the line after an empty entry isn't formatted consistently"),
    ("C01", "fence-as-target", must("[a]:\n~~~ a\n"),
     "a fence after the label of a definition isn't formatted consistently"),
    ("C04", "too-deep", t("> " * 400 + "x\n"),
     "more than 250 levels of nesting exceed the recursion limit"),
    ("C30", "no-space", dict(
        cli({"a.md": "a  b\n"}, run("a.md")), permission="space", names=["a.md"], limit=0,
        strict=True),
     "a file is left empty if there's no space left for its new content"),
    ("C29", "no-markdown-in-directory", dict(cli({"sub/x.txt": "a"}, run("sub", force=True, check=True))),
     "a directory without Markdown files is treated like no path: STDIN is formatted"),
]


def judge_all(repo, items):
    """{name: what's wrong or None} with the code in repo"""
    code = (
        "import json,sys\n"
        "from mfpbt import sut, engine\n"
        "from mfpbt.checks import REGISTRY\n"
        "sut.load()\n"
        "out={}\n"
        "for prop,name,case in json.load(sys.stdin):\n"
        "    try: out[name]=engine.judge(REGISTRY[prop],case)\n"
        "    except Exception as e: out[name]='HARNESS '+repr(e)\n"
        "print(json.dumps(out))\n"
    )
    env = dict(os.environ, MFPBT_REPO=repo, PYTHONHASHSEED="0")
    done = subprocess.run(
        [PYTHON, "-c", code], input=json.dumps(items), text=True, cwd=ROOT, env=env,
        stdout=subprocess.PIPE,
    )
    return json.loads(done.stdout.strip().split("\n")[-1])


def main():
    ok = True
    now = judge_all(REPO, [(p, n, c) for _, p, n, c in FIXES if n])
    scratch = tempfile.mkdtemp(prefix="mfpbt-fixes-")
    tree = os.path.join(scratch, "tree")
    subprocess.run(["git", "-C", REPO, "worktree", "add", "-q", "--detach", tree], check=True)
    try:
        for commit, prop, name, case in FIXES:
            if not name:
                continue
            subprocess.run(["git", "-C", tree, "checkout", "-q", commit + "^"], check=True)
            before = judge_all(tree, [(prop, name, case)])[name]
            if before is None or before.startswith("HARNESS"):
                print("DOESN'T FAIL BEFORE", commit, prop, name, before)
                ok = False
            if now[name] is not None:
                print("FAILS NOW", commit, prop, name, now[name])
                ok = False
    finally:
        subprocess.run(["git", "-C", REPO, "worktree", "remove", "--force", tree])
        shutil.rmtree(scratch, ignore_errors=True)
    still = judge_all(REPO, [(p, n, c) for p, n, c, _ in FINDINGS])
    for prop, name, case, text in FINDINGS:
        if still[name] is None or still[name].startswith("HARNESS"):
            print("FINDING DOESN'T FAIL", prop, name, still[name])
            ok = False
    for folder in ("regressions", "findings"):
        shutil.rmtree(os.path.join(ROOT, folder), ignore_errors=True)
    lines = []
    for prop, name, case, text in FINDINGS:
        path = f"findings/{prop}-{name}.json"
        dump(path, case)
        lines.append(f"finding: property={prop} case={path} {text}")
    for commit, prop, name, case in FIXES:
        if name:
            dump(f"regressions/{prop}/{name}.json", case)
        done = subprocess.run(
            ["git", "-C", REPO, "log", "-1", "--format=%s", commit], text=True,
            stdout=subprocess.PIPE, check=True,
        )
        what = done.stdout.strip()
        lines.append(f"fixed: property={prop} {commit} {what[len('fix: '):]}")
    with open(os.path.join(ROOT, "known-findings.txt"), "w") as f:
        f.write("\n".join(lines) + "\n")
    return 0 if ok else 1


def dump(path, case):
    path = os.path.join(ROOT, path)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        json.dump(case, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    sys.exit(main())
