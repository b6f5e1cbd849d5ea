"""The command line: what happens to files, checked against a model of a file system

A case has the files there are and what is done one after another: edits of files and runs
of MarkFlow. `Model` says what each run has to do, given what formatting the text of a file
results in.
"""

import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile

from .. import gen, messy, soup, sut
from .base import Check, draw_opts, draw_style, show

CHECKS = []
SECOND = 10**9
OLD = 1_000_000_000 * SECOND
RECENT = 1_500_000_000 * SECOND
NOBODY = 65534
# Where what is linked to is
LINKED = "linked"
HARNESS = 254
# Failures whose messages name the file
NAMING = ("MarkdownFormatException", "ReformatInconsistentException")

FILES = [
    "a.md", "b.md", "c.md", "notes.txt", "README", "with space.md", "sub/a.md", "sub/d.md",
    "sub/deep/e.md", "sub/x.txt", "sub/deep/e.md.bak", "br[1]ck/f.md", "other/g.md",
    "dir.md/h.md", "caf\u00e9.md", "a.b.md", "sub/UPPER.MD",
    # Names with Markdown in them
    "__init__.md", "a_b_c.md", "*x* y.md", "sub/[a](b).md", "<b>.md", "c`d`.md", "x&amp;y.md",
    "other/back\\slash.md", "sub/#1. ~~!~~.md", "x$^?@|{}y.md",
]
DIRECTORIES = ["sub", "sub/deep", "br[1]ck", "other", "dir.md", "."]
NEW_FILES = ["new.md", "out.txt", "sub/new.md", "other/g.md", "a.md", "b.md"]
MALFORMED = [
    "|a|b|\n|-|-|\n|1|\n", "# h\n\n|a|\n", "> |a|\n> |b|\n", "text\n\n|a|b|\n|---|\n",
]
# Known findings: MarkFlow notices that it doesn't format these consistently
INCONSISTENT = ["- aaa\n  --\n", "- >\nq\n=\n", ">q\n=\ny\n", "1.\n    ***\n"]
SAMPLES = [
    "", "\n", "a", "a\n", "a\r\nb\r\n", "# a\n\ntext\n", "#a\n", "- a\n* b\n", "a  b\n",
    "a\n\n\n", "1. a\n1. b\n", "x\r", "***\n", "caf\u00e9 \u6f22\n", "a\u2028b\n",
]


def register(cls):
    CHECKS.append(cls())
    return cls


# --- cases ----------------------------------------------------------------------------


def draw_content(d, bad=0):
    """What is in a file. `formatted` is the line length that it has been formatted with"""
    if bad and d.p(bad, 6):
        kind = d.i(0, 4)
        if kind <= 1:
            return {"text": d.c(MALFORMED)}
        if kind <= 3:
            return {"text": d.c(INCONSISTENT)}
        return {"hex": d.c(["ff", "61ff0a", "c328", "0a80"])}
    if d.p(1, 3):
        return {"text": d.c(SAMPLES)}
    o = draw_opts(d, max_blocks=d.c([1, 2, 3]), max_tokens=d.c([4, 12, 30]), depth=1)
    doc = gen.document(d, o)
    newline = d.c(["\n", "\n", "\n", "\r\n"])
    text = messy.spell(d, draw_style(d), doc, gen.ends_open(doc), newline=newline)
    content = {"text": text}
    if d.p(2, 5):
        content["formatted"] = d.c([88, 88, 88, 40, "inf"])
    return content


def draw_files(d, bad=0, most=6):
    names = []
    for _ in range(d.i(1, most)):
        name = d.c(FILES)
        if name not in names:
            names.append(name)
    return {name: draw_content(d, bad) for name in names}


def draw_links(d, files):
    """Files that are links to others, and files with other permissions"""
    result = {}
    if d.p(1, 3):
        for name in sorted(files):
            kind = d.c([None, None, "symbolic", "absolute", "hard", 0o600, 0o755, 0o664])
            if kind is not None:
                result[name] = kind
    return result


def draw_run(d, files, check=None, outputs=True, stdin=True, spec=None):
    run = {"check": d.p(1, 3) if check is None else check}
    run["length"] = d.c([None, None, None, 88, 40, 20, 5, 2, 1, 1, 0, -1, 1000])
    run["v"] = d.c([0, 0, 0, 0, 0, 1, 2, 3, 4, 6])
    run["q"] = d.c([0, 0, 0, 0, 1, 2])
    run["late"] = d.p(1, 3)
    run["paths"] = []
    existing = sorted(files)
    kind = d.i(0, 9)
    if stdin and kind == 5:
        run["stdin"] = draw_content(d)
        run["v"] = 0
        return run
    if kind <= 3:
        candidates = [
            x for x in DIRECTORIES
            if any(
                name.endswith(".md") and (x == "." or name.startswith(x + "/"))
                for name in existing
            )
        ]
        if candidates:
            run["paths"].append(d.c(candidates))
    if not run["paths"] or d.p(1, 4):
        for _ in range(d.i(1, min(4, len(existing)))):
            name = d.c(existing)
            if name not in run["paths"] or d.p(1, 5):
                run["paths"].append(d.c(["", "", "", "./"]) + name)
    if outputs and d.p(1, 3):
        expanded = expand(run["paths"], existing)
        if d.p(1, 2) and all(p.lstrip("./") in existing for p in run["paths"]):
            run["output_files"] = [d.c(NEW_FILES) for _ in expanded]
        elif len({os.path.basename(p) for p in expanded}) == len(expanded):
            # Known finding: files of the same name overwrite each other
            run["output_directory"] = d.c(["out", "out", "sub", "."])
    return run


def expand(paths, existing):
    """The files that are formatted, sorted for directories"""
    result = []
    for path in paths:
        path = os.path.normpath(path)
        if path in existing:
            result.append(path)
        else:
            start = "" if path == "." else path + "/"
            result += sorted(
                x for x in existing if x.startswith(start) and x.endswith(".md")
            )
    return result


# --- model ----------------------------------------------------------------------------


def api(data, length):
    """(text, None) or (None, what is wrong with it)"""
    try:
        text = data.decode()
    except UnicodeDecodeError:
        return None, "UnicodeDecodeError"
    width = 88 if length is None else "inf" if length < 1 else length
    return sut.outcome(text, width)


class Expected:
    """What a run may do"""

    def __init__(self):
        self.status = 0
        self.files = None
        self.written = set()
        self.changed = []
        self.unchanged = []
        self.failed = None
        self.error = None
        # Where the results of those would have been written to
        self.inconsistent = []
        self.any_order = False


def expect(run, files):
    result = Expected()
    files = dict(files)
    if "stdin" in run:
        result.files = files
        return result
    expanded = expand(run["paths"], files)
    result.any_order = any(os.path.normpath(p) not in files for p in run["paths"])
    outputs = expanded
    if run.get("output_files"):
        outputs = run["output_files"]
    elif run.get("output_directory"):
        outputs = [
            os.path.normpath(os.path.join(run["output_directory"], os.path.basename(p)))
            for p in expanded
        ]
    for path, output in zip(expanded, outputs):
        new, error = api(files[path], run["length"])
        if error:
            if result.any_order:
                # Others may or may not have been reached
                result.failed = result.failed or path
                result.error = result.error or error
                result.inconsistent += [output] * (error == "ReformatInconsistentException")
                continue
            result.failed, result.error = path, error
            result.inconsistent += [output] * (error == "ReformatInconsistentException")
            break
        new = new.encode()
        if new != files[path]:
            result.changed.append(path)
        else:
            result.unchanged.append(path)
        if run["check"] or (new == files[path] and output == path):
            continue
        files[output] = new
        result.written.add(output)
    if result.error:
        result.status = None
    elif run["check"] and result.changed:
        result.status = 1
    result.files = files
    return result


# --- running --------------------------------------------------------------------------


def to_bytes(content):
    if "hex" in content:
        return bytes.fromhex(content["hex"])
    text = content["text"]
    if "formatted" in content:
        out, error = sut.outcome(text, content["formatted"])
        if not error:
            text = out
    return text.encode()


def argv_of(run):
    options = []
    if run["check"]:
        options.append("--check")
    if run["length"] is not None:
        options.append(f"--line-length={run['length']}")
    options += ["-v"] * run["v"] + ["-q"] * run["q"]
    for path in run.get("output_files") or []:
        options += ["--output-file", path]
    if run.get("output_directory"):
        options += ["--output-dir", run["output_directory"]]
    if run.get("renders"):
        options.append("--write-renders")
    options += run.get("extra", [])
    paths = run["paths"]
    return paths + options if run["late"] else options + paths


def snapshot(root):
    """{path: (content, has it been touched since the last `age`?)}"""
    result = {}
    for folder, _, names in os.walk(root):
        if folder == os.path.join(root, LINKED):
            continue
        for name in names:
            path = os.path.join(folder, name)
            with open(path, "rb") as f:
                data = f.read()
            touched = os.stat(path).st_mtime_ns >= RECENT
            result[os.path.relpath(path, root)] = (data, touched)
    return result


def age(root, time):
    """Let whatever has just been written be as old as is told"""
    for folder, _, names in os.walk(root):
        for name in names:
            path = os.path.join(folder, name)
            if os.stat(path).st_mtime_ns >= RECENT:
                os.utime(path, ns=(time, time))


def write(root, path, data):
    path = os.path.join(root, path)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data)


class Scratch:
    """A folder that is removed again, and the files that are supposed to be in it"""

    def __init__(self, case):
        self.root = tempfile.mkdtemp(prefix="mfpbt-")
        self.files = {}
        self.time = OLD
        for name in ["out", "sub", "other"]:
            os.mkdir(os.path.join(self.root, name))
        for path, content in case["files"].items():
            self.put(path, to_bytes(content))
        self.links = {}
        for path, kind in case.get("links", {}).items():
            if path in self.files:
                self.link(path, kind)

    def link(self, name, kind):
        path = os.path.join(self.root, name)
        folder = os.path.join(self.root, LINKED)
        target = os.path.join(folder, f"{len(self.links)}.txt")
        self.links[name] = (kind, target)
        if isinstance(kind, int):
            os.chmod(path, kind)
            return
        os.makedirs(folder, exist_ok=True)
        os.rename(path, target)
        if kind == "hard":
            os.link(target, path)
        elif kind == "absolute":
            os.symlink(target, path)
        else:
            os.symlink(os.path.relpath(target, os.path.dirname(path)), path)

    def unlinked(self):
        """A file that isn't the link (or has no longer the permissions) that it was"""
        for path, (kind, target) in self.links.items():
            full = os.path.join(self.root, path)
            if path not in self.files:
                continue
            if isinstance(kind, int):
                mode = os.stat(full).st_mode & 0o777
                if mode != kind:
                    return f"{path} has the permissions {mode:o} instead of {kind:o}"
            elif not os.path.samefile(full, target) or os.path.islink(full) != (
                kind != "hard"
            ):
                return f"{path} is no longer a {kind} link"
        return None

    def delete(self, path):
        os.remove(os.path.join(self.root, path))
        del self.files[path]
        self.links.pop(path, None)

    def put(self, path, data):
        write(self.root, path, data)
        self.files[path] = data
        self.age()

    def age(self):
        """Time goes by, but files keep being older or newer than each other"""
        self.time += SECOND
        age(self.root, self.time)

    def __enter__(self):
        return self

    def __exit__(self, *_):
        for folder, _, _ in os.walk(self.root):
            os.chmod(folder, 0o755)
        shutil.rmtree(self.root)

    def run(self, run, touch=True):
        if touch:
            self.age()
        argv = argv_of(run)
        stdin = ""
        if "stdin" in run:
            stdin = to_bytes(run["stdin"]).decode()
        if run.get("process"):
            return in_process(argv, stdin, self.root)
        return sut.cli(argv, stdin, self.root, run.get("idle") == "terminal")


def in_process(argv, stdin, cwd):
    env = dict(os.environ, COLUMNS="4000", PYTHONPATH=sut.REPO, PYTHONDONTWRITEBYTECODE="1")
    try:
        done = subprocess.run(
            [sys.executable, "-m", "markflow"] + argv, input=stdin.encode(), cwd=cwd,
            stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=120,
        )
    except subprocess.TimeoutExpired:
        raise sut.CaseTimeout("no result of a process after 120 s")
    return done.returncode, done.stdout.decode(), done.stderr.decode()


def lines_of(text):
    return [line.strip() for line in text.split("\n") if line.strip()]


def judge_run(scratch, run):
    """Run and compare with the model. Returns what is wrong or None"""
    before = dict(scratch.files)
    if "idle" in run:
        status, out, err = scratch.run(run)
        what = f"markflow {' '.join(argv_of(run))} with {show(before, 800)}"
        if (status == 0) != (run["idle"] != "--dev-help"):
            return f"{what} ({run['idle']}): exits with {status} {show(err)}"
        if not out.strip():
            return f"{what} ({run['idle']}): says nothing"
        return untouched(scratch, before, what)
    expected = expect(run, before)
    status, out, err = scratch.run(run)
    what = f"markflow {' '.join(argv_of(run))} with {show(before, 800)}"
    got = snapshot(scratch.root)
    scratch.files = {path: data for path, (data, _) in got.items()}
    message = scratch.unlinked()
    if message:
        return f"{what}: {message}"

    if "stdin" in run:
        message = judge_stdin(run, status, out, err)
        if message:
            return f"{what} and STDIN {show(to_bytes(run['stdin']))}: {message}"
        if scratch.files != before or any(touched for _, touched in got.values()):
            return f"{what}: changes files though none are passed"
        return None
    if expected.error and not expected.any_order or not expected.error:
        allowed = None
    else:
        allowed = {
            path: {before.get(path), expected.files.get(path)}
            for path in set(before) | set(expected.files)
        }
    renders = set()
    for base in expected.inconsistent if run.get("renders") else []:
        stem, ext = (base[:-3], ".md") if base.endswith(".md") else (base, "")
        first, second = (os.path.normpath(f"{stem}.{i}{ext}") for i in (1, 2))
        renders |= {first, second}
        if not expected.any_order:
            if first not in got or second not in got:
                return f"{what} doesn't write {first} and {second}"
            if got[first][0] == got[second][0]:
                return f"{what} writes the same text to {first} and {second}"
    for path in sorted(set(before) | set(expected.files) | set(got)):
        if path in renders:
            continue
        data, touched = got.get(path, (None, False))
        if allowed is None:
            if data != expected.files.get(path):
                return (
                    f"{what}: {path} should have {show(expected.files.get(path))} but has "
                    f"{show(data)} (exit status {status}, {show(err, 300)})"
                )
        elif data not in allowed.get(path, {None}):
            return f"{what}: {path} has {show(data)} but may only have {allowed.get(path)}"
        if touched and path not in expected.written:
            return f"{what}: {path} is written though it shouldn't be"
    if expected.status is None:
        if status == 0:
            return f"{what}: exits with 0 though {expected.failed} can't be formatted"
        if not (out + err).strip() and run["q"] <= run["v"]:
            return f"{what}: fails without saying anything"
        if expected.error in NAMING and not expected.any_order and run["q"] <= run["v"]:
            if "".join(expected.failed.split()) not in "".join((out + err).split()):
                return f"{what}: doesn't say that {expected.failed} is to blame: {show(err)}"
        return None
    if status != expected.status:
        return (
            f"{what}: exits with {status} instead of {expected.status}, "
            f"{show(out, 300)} {show(err, 300)}"
        )
    return judge_report(run, expected, out, what)


def judge_stdin(run, status, out, err):
    data = to_bytes(run["stdin"])
    text, error = api(data, run["length"])
    if error:
        return None if status else "exits with 0"
    if run["check"]:
        want = int(text.encode() != data)
        if status != want:
            return f"exits with {status} instead of {want}: {show(err, 300)}"
        words = "would be reformatted" if want else "would be unchanged"
        return None if words in out else f"doesn't say that it {words}"
    if status:
        return f"exits with {status}: {show(err, 300)}"
    return None if out == text else f"prints {show(out)} instead of {show(text)}"


def judge_report(run, expected, out, what):
    lines = lines_of(out)
    verb = "would reformat " if run["check"] else "reformatted "
    named = sorted(
        os.path.normpath(line[len(verb) :]) for line in lines if line.startswith(verb)
    )
    if named != sorted(expected.changed):
        return f"{what}: says that {named} are reformatted but {expected.changed} are"
    summary = lines[-1] if lines else ""
    for word, count in (
        ("reformatted", len(expected.changed)),
        ("left unchanged", len(expected.unchanged)),
    ):
        found = re.search(rf"([0-9]+) files? (?:would be|was|were) {word}", summary)
        if (int(found.group(1)) if found else 0) != count:
            return f"{what}: {summary!r} should say that {count} files are {word}"
    return None


class CliCheck(Check):
    quick, thorough = 500, 12000

    def judge(self, case):
        with Scratch(case) as scratch:
            for step in case["steps"]:
                message = self.step(scratch, step)
                if message:
                    return message
        return None

    def step(self, scratch, step):
        if "put" in step:
            scratch.put(step["put"], to_bytes(step["content"]))
        elif "delete" in step:
            if step["delete"] in scratch.files:
                scratch.delete(step["delete"])
        else:
            run = step["run"]
            # Steps of a history may have removed what a run is about
            if run.get("force") or all(usable(path, scratch.files) for path in run["paths"]):
                return judge_run(scratch, run)
        return None

    def labels(self, case):
        for step in case["steps"]:
            if "run" not in step:
                yield "edit"
                continue
            run = step["run"]
            if "stdin" in run:
                yield "STDIN"
            for key in ("check", "output_files", "output_directory", "renders", "process"):
                if run.get(key):
                    yield key
            if any(path in DIRECTORIES for path in run["paths"]):
                yield "directory"
            if len(run["paths"]) > 1:
                yield "several paths"


def usable(path, files):
    path = os.path.normpath(path)
    return path in files or bool(expand([path], files))


def with_process(d, run):
    # Now and then in a process of its own, which is a lot slower
    run["process"] = d.i(0, 39) == 39
    return run


@register
class CheckOnly(CliCheck):
    id = "C28"
    rule = (
        "Files that are formatted, unformatted or malformed (or STDIN), checked with "
        "--check, formatted, and checked again. Non-trivial: at least two files."
    )
    quick, thorough = 450, 9000

    def gen(self, d):
        files = draw_files(d, bad=d.c([0, 0, 1]))
        run = draw_run(d, files, check=True)
        again = dict(run, check=False)
        steps = [{"run": with_process(d, run)}, {"run": again}, {"run": dict(run)}]
        if run.get("output_files") or run.get("output_directory"):
            # Inputs may have been replaced by outputs
            steps.pop()
        return {"files": files, "links": draw_links(d, files), "steps": steps}

    def nontrivial(self, case):
        return len(case["files"]) > 1


@register
class Writes(CliCheck):
    id = "C29"
    rule = (
        "One run that formats files in place, to other files, to a directory, files of "
        "directories or STDIN with any line length and verbosity. Non-trivial: at least "
        "two files."
    )
    quick, thorough = 700, 14000

    def gen(self, d):
        files = draw_files(d)
        links = draw_links(d, files)
        run = draw_run(d, files, check=False)
        if d.p(1, 25):
            # Nothing to do
            run["idle"] = d.c(["terminal", "--version", "--help", "-h", "--dev-help"])
            if run["idle"] == "terminal":
                run["paths"] = []
                run["output_files"] = None
                run.pop("stdin", None)
                run["check"] = d.p(1, 3)
            else:
                run["extra"] = [run["idle"]]
        else:
            with_process(d, run)
        return {"files": files, "links": links, "steps": [{"run": run}]}

    def nontrivial(self, case):
        return len(case["files"]) > 1


@register
class History(CliCheck):
    id = "C32"
    rule = (
        "Up to eight steps: files are written, changed and deleted and MarkFlow is run with "
        "any options. Non-trivial: at least two runs and an edit."
    )
    quick, thorough = 350, 7000

    def gen(self, d):
        files = draw_files(d, bad=d.c([0, 0, 1]))
        names = dict(files)
        steps = []
        for _ in range(d.i(2, 8)):
            kind = d.i(0, 5)
            if kind == 0:
                name = d.c(FILES)
                content = draw_content(d, d.c([0, 1]))
                names[name] = content
                steps.append({"put": name, "content": content})
            elif kind == 1 and len(names) > 1:
                name = d.c(sorted(names))
                del names[name]
                steps.append({"delete": name})
            else:
                run = draw_run(d, names)
                for output in run.get("output_files") or []:
                    names.setdefault(output, {})
                steps.append({"run": run})
        return {"files": files, "links": draw_links(d, files), "steps": steps}

    def nontrivial(self, case):
        runs = sum("run" in step for step in case["steps"])
        return runs >= 2 and runs < len(case["steps"])

    def step(self, scratch, step):
        run = step.get("run", {})
        if run.get("output_directory"):
            expanded = expand(run["paths"], scratch.files)
            if len({os.path.basename(p) for p in expanded}) != len(expanded):
                return None
        if run.get("output_files"):
            if len(expand(run["paths"], scratch.files)) != len(run["output_files"]):
                return None
        return super().step(scratch, step)


ARGUMENT_ERRORS = [
    "no path", "option", "length", "few outputs", "many outputs", "no directory",
    "directory is a file", "both", "output's directory", "output is a directory",
]


@register
class Failures(CliCheck):
    id = "C30"
    rule = (
        "Runs that have to fail: malformed, inconsistent or undecodable files among others, "
        "wrong arguments, and files or directories without the permissions. Non-trivial: "
        "at least two files."
    )
    quick, thorough = 1000, 20000

    def gen(self, d):
        kind = d.i(0, 5)
        if kind <= 1:
            files = draw_files(d, bad=3)
            run = draw_run(d, files, check=d.p(1, 4), stdin=False)
            if not run["check"]:
                run["renders"] = d.p(1, 2)
            return {"files": files, "steps": [{"run": with_process(d, run)}]}
        files = draw_files(d, bad=d.c([0, 0, 1]))
        run = draw_run(d, files, outputs=False, stdin=False, check=d.p(1, 5))
        existing = sorted(files)
        if kind <= 3:
            error = d.c(ARGUMENT_ERRORS)
            run["extra"] = []
            if error == "no path":
                at = d.i(0, len(run["paths"]))
                run["paths"].insert(at, d.c(["missing.md", "missing/x.md", "sub/no.md"]))
            elif error == "option":
                run["extra"] = [d.c(["--bad", "-z", "--checks", "--line-width=80"])]
            elif error == "length":
                run["extra"] = ["--line-length", d.c(["x", "", "1.5", "inf", "8 8"])]
            elif error in ("few outputs", "many outputs"):
                n = len(expand(run["paths"], existing))
                n += 1 if error == "many outputs" or n == 1 else -1
                run["output_files"] = [f"new{i}.md" for i in range(n)]
            elif error == "no directory":
                run["output_directory"] = d.c(["missing", "out/missing", "sub/no"])
            elif error == "directory is a file":
                run["output_directory"] = d.c(existing)
            elif error == "both":
                run["output_directory"] = "out"
                run["output_files"] = ["new.md"]
            elif error == "output's directory":
                run["output_files"] = [
                    f"missing/new{i}.md" for i in range(len(expand(run["paths"], existing)))
                ]
            elif error == "output is a directory":
                run["output_files"] = ["out"] * len(expand(run["paths"], existing))
            return {"files": files, "error": error, "steps": [{"run": run}]}
        names = [d.c(existing)]
        error = d.c(["read", "write", "write", "outputs", "directory", "space", "space"])
        run["paths"] = names[:]
        for other in existing:
            if other not in names and d.p(1, 2):
                run["paths"].insert(d.i(0, len(run["paths"])), other)
        run["check"] = error == "read" and d.p(1, 3)
        if error == "outputs":
            run["output_files"] = [f"new{i}.md" for i in range(len(run["paths"]))]
            names = [d.c(run["output_files"])]
        elif error == "directory":
            run["output_directory"] = "out"
            names = ["out"]
        case = {
            "files": files, "permission": error, "names": names, "steps": [{"run": run}],
        }
        if error == "space":
            case["limit"] = d.c([0, 1, 10, 20, 40, 80, 160, 320])
            kind = d.i(0, 3)
            if kind == 1:
                run["output_files"] = [f"new{i}.md" for i in range(len(run["paths"]))]
            elif kind == 2 and len({os.path.basename(p) for p in run["paths"]}) == len(
                run["paths"]
            ):
                run["output_directory"] = "out"
        return case

    def judge(self, case):
        if "error" in case:
            return self.judge_error(case)
        if "permission" in case:
            return self.judge_permission(case)
        return super().judge(case)

    def judge_error(self, case):
        run = case["steps"][0]["run"]
        with Scratch(case) as scratch:
            before = scratch.files
            status, out, err = scratch.run(run)
            what = f"markflow {' '.join(argv_of(run))} with {show(before, 800)}"
            if status == 0:
                return f"{what}: exits with 0 though its arguments are wrong"
            if not (out + err).strip():
                return f"{what}: fails without saying why"
            return untouched(scratch, before, what)

    def judge_permission(self, case):
        """As somebody who may not read or write a file"""
        run = case["steps"][0]["run"]
        with Scratch(case) as scratch:
            before = dict(scratch.files)
            if case["permission"] == "outputs":
                scratch.put(case["names"][0], b"before\n")
                before = dict(scratch.files)
            for folder, _, names in os.walk(scratch.root):
                os.chmod(folder, 0o777)
                for name in names:
                    os.chmod(os.path.join(folder, name), 0o666)
            for name in case["names"]:
                if case["permission"] == "space":
                    break
                mode = 0 if case["permission"] == "read" else 0o444
                if case["permission"] == "directory":
                    mode = 0o555
                os.chmod(os.path.join(scratch.root, name), mode)
            scratch.age()
            what = (
                f"markflow {' '.join(argv_of(run))} without the permission to "
                f"{case['permission']} {case['names']} with {show(before, 800)}"
            )
            if case["permission"] == "space":
                what = f"with {case['limit']} bytes of space for each file, {what}"
            limit = case.get("limit")
            result = unprivileged(lambda: scratch.run(run, False)[0], limit)
            if result is None:
                return None
            if case["permission"] == "space":
                return judge_space(case, scratch, run, before, result, what)
            if result == 0:
                return f"{what}: exits with 0"
            if case["permission"] == "read":
                # Files before it may have been formatted already
                return half_done(scratch, run, before, what)
            return untouched(scratch, before, what)

    def nontrivial(self, case):
        return len(case["files"]) > 1

    def labels(self, case):
        yield from super().labels(case)
        if "error" in case:
            yield f"argument: {case['error']}"
        elif "permission" in case:
            yield f"permission: {case['permission']}"
        else:
            yield "content"


def untouched(scratch, before, what):
    for path, (data, touched) in snapshot(scratch.root).items():
        if path not in before:
            return f"{what}: writes {path} though it fails"
        if data != before[path] or touched:
            return f"{what}: changes {path} though it fails"
    if set(snapshot(scratch.root)) != set(before):
        return f"{what}: removes a file"
    return None


def half_done(scratch, run, before, what):
    for path, (data, touched) in snapshot(scratch.root).items():
        if path not in before:
            return f"{what}: writes {path} though it fails"
        new, error = api(before[path], run["length"])
        if data != before[path] and (run["check"] or error or data != new.encode()):
            return f"{what}: changes {path} though it fails"
        if touched and run["check"]:
            return f"{what}: writes {path}"
    return None


def judge_space(case, scratch, run, before, status, what):
    """Files are written one after another until there is one that's too large"""
    files, failed, at = dict(before), None, None
    outputs = run.get("output_files") or run["paths"]
    if run.get("output_directory"):
        outputs = [
            os.path.join(run["output_directory"], os.path.basename(p)) for p in run["paths"]
        ]
    for path, output in zip(map(os.path.normpath, run["paths"]), outputs):
        output = os.path.normpath(output)
        new, error = api(files[path], run["length"])
        if error:
            failed = path
            break
        if new.encode() == files[path] and output == path:
            continue
        if len(new.encode()) > case["limit"]:
            # Known finding: what was in the file is lost
            failed, at = path, output
            break
        files[output] = new.encode()
    if (status == 0) != (failed is None):
        return f"{what}: exits with {status}, {failed} can't be written"
    got = snapshot(scratch.root)
    for path in sorted(set(files) | set(got)):
        if path == at and not case.get("strict"):
            continue
        data = got.get(path, (None, False))[0]
        if data != files.get(path):
            return f"{what}: {path} should have {show(files.get(path))} but has {show(data)}"
    return None


def unprivileged(function, limit=None):
    """The result (a small number) of a function as another user or None"""
    reader, writer = os.pipe()
    pid = os.fork()
    if not pid:
        status = 255
        try:
            signal.signal(signal.SIGPROF, signal.SIG_IGN)
            os.close(reader)
            os.setgroups([])
            os.setgid(NOBODY)
            os.setuid(NOBODY)
            if limit is not None:
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
            with open(os.path.join(sut.REPO, "markflow", "__main__.py")):
                pass
            try:
                status = function()
            except sut.CaseTimeout:
                status = 255
            except BaseException:
                status = HARNESS
            os.write(writer, bytes([status & 0xFF]))
        finally:
            os._exit(0)
    os.close(writer)
    try:
        data = os.read(reader, 1)
    finally:
        os.close(reader)
        os.waitpid(pid, 0)
    if data == bytes([HARNESS]):
        raise AssertionError("running as another user failed")
    return data[0] if data else None
