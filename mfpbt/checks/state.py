"""What earlier or concurrent work may not have an influence on"""

import json
import logging
import os
import sys
import threading

from .. import gen, messy, sut
from .base import Check, draw_opts, draw_style, show
from .cli import INCONSISTENT, MALFORMED
from .general import draw_text

CHECKS = []
LEVELS = ["NOTSET", "DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"]


def register(cls):
    CHECKS.append(cls())
    return cls


def draw_any(d, bad):
    """Text to format, which can't be in one of six cases"""
    if bad and d.p(1, 6):
        text = d.c(MALFORMED + INCONSISTENT)
        return d.c(["", "", "x\n\n", "> ", "- a\n\n# h\n\n", "> q\n> > "]) + text
    if d.p(1, 6):
        return draw_text(d)
    o = draw_opts(d, max_blocks=d.c([1, 2, 4]), max_tokens=d.c([4, 12, 24]))
    doc = gen.document(d, o)
    return messy.spell(d, draw_style(d), doc, gen.ends_open(doc))


def in_child(function):
    """The result (JSON) of a function in a process of its own"""
    reader, writer = os.pipe()
    pid = os.fork()
    if not pid:
        try:
            os.close(reader)
            try:
                result = {"result": function()}
            except sut.CaseTimeout as timeout:
                result = {"violation": str(timeout)}
            except sut.Violation as violation:
                result = {"violation": str(violation)}
            with os.fdopen(writer, "w") as f:
                json.dump(result, f)
        finally:
            os._exit(0)
    os.close(writer)
    with os.fdopen(reader) as f:
        data = f.read()
    os.waitpid(pid, 0)
    result = json.loads(data)
    if "violation" in result:
        raise sut.Violation(result["violation"])
    return result["result"]


def settings():
    """Everything outside of MarkFlow that it has no reason to change"""
    loggers = logging.Logger.manager.loggerDict
    return {
        "levels": {name: getattr(logging, name) for name in LEVELS},
        "level names": [logging.getLevelName(i) for i in range(0, 51, 10)],
        "loggers": {
            name: [loggers[name].level, loggers[name].disabled, loggers[name].propagate]
            for name in sorted(loggers)
            if isinstance(loggers[name], logging.Logger) and name.startswith("markflow")
        },
        "root": [logging.root.level, len(logging.root.handlers), logging.root.disabled],
        "disabled": logging.root.manager.disable,
        "recursion": sys.getrecursionlimit(),
        "folder": os.getcwd(),
        "environment": len(os.environ),
    }


@register
class Histories(Check):
    id = "C12"
    rule = (
        "Up to six texts (some of which can't be formatted) with any line lengths, "
        "formatted one after another in one process with logging at any level, and each in "
        "a process of its own. Non-trivial: at least three."
    )
    quick, thorough = 500, 10000

    def gen(self, d):
        bad = d.p(1, 2)
        texts = [draw_any(d, bad) for _ in range(d.i(1, 4))]
        calls = []
        for i in range(d.i(2, 6)):
            calls.append(
                {
                    "src": texts[i % len(texts)],
                    "width": gen.width(d),
                    "level": d.c([None, None, "DEBUG", "INFO", "WARNING", "ERROR"]),
                }
            )
        return {"calls": calls}

    def judge(self, case):
        alone = [
            in_child(lambda: sut.outcome(call["src"], call["width"]))
            for call in case["calls"]
        ]
        together = in_child(lambda: self.together(case["calls"]))
        for call, one, (result, changed) in zip(case["calls"], alone, together):
            what = f"formatting {show(call['src'])} with a line length of {call['width']}"
            if one != result:
                return (
                    f"{what} results in {show(result)} after other texts were formatted "
                    f"but in {show(one)} without them"
                )
            if changed:
                return f"{what} changes settings: {changed}"
        return None

    def together(self, calls):
        results = []
        for call in calls:
            if call["level"]:
                logging.getLogger("markflow").setLevel(getattr(logging, call["level"]))
            before = settings()
            result = sut.outcome(call["src"], call["width"])
            after = settings()
            changed = [f"{k}: {before[k]} -> {after[k]}" for k in before if before[k] != after[k]]
            results.append([result, changed])
        return results

    def nontrivial(self, case):
        return len(case["calls"]) >= 3

    def labels(self, case):
        yield f"{len(case['calls'])} calls"
        if any(call["src"].endswith(tuple(MALFORMED + INCONSISTENT)) for call in case["calls"]):
            yield "some can't be formatted"


class Baton:
    """Lets one of several threads run at a time and switches at given lines of code.

    One that waits for a lock of another one doesn't get anywhere. The others notice that
    and go on.
    """

    STALL = 0.02

    def __init__(self, count, schedule):
        self.locks = [threading.Semaphore(0) for _ in range(count)]
        self.alive = [True] * count
        self.schedule = schedule
        self.at = 0
        self.left = schedule[0]
        self.switches = 0
        self.lines = 0
        self.holder = 0
        self.folder = os.path.join(os.path.realpath(sut.REPO), "markflow") + os.sep
        self.gone = False

    def tracer(self, me):
        folder = self.folder

        def on_line(frame, event, arg):
            if event == "line":
                if self.holder != me:
                    self.wait(me)
                self.lines += 1
                self.left -= 1
                if self.left <= 0:
                    self.switch(me)
            return on_line

        def on_call(frame, event, arg):
            if self.gone:
                raise SystemExit
            if frame.f_code.co_filename.startswith(folder):
                return on_line
            return None

        return on_call

    def wait(self, me):
        lines = -1
        while self.holder != me:
            if not self.locks[me].acquire(timeout=self.STALL):
                if self.gone:
                    raise SystemExit
                if lines == self.lines:
                    self.holder = me
                lines = self.lines

    def next(self, me):
        order = list(range(me + 1, len(self.alive))) + list(range(me + 1))
        return next((i for i in order if self.alive[i]), None)

    def switch(self, me):
        self.at += 1
        self.left = self.schedule[self.at % len(self.schedule)]
        following = self.next(me)
        if following != me:
            self.switches += 1
            self.hand_over(following)
            self.wait(me)

    def hand_over(self, following):
        self.holder = following
        self.locks[following].release()

    def done(self, me):
        self.alive[me] = False
        following = self.next(me)
        if following is not None and self.holder == me:
            self.hand_over(following)


@register
class Threads(Check):
    id = "C31"
    rule = (
        "Two or three texts that are formatted by threads at the same time, switching "
        "between them at generated lines of code. Non-trivial: there are at least ten "
        "switches."
    )
    quick, thorough = 700, 14000

    def gen(self, d):
        count = d.c([2, 2, 3])
        return {
            "calls": [{"src": draw_any(d, d.p(1, 4)), "width": gen.width(d)} for _ in range(count)],
            "schedule": [d.c([1, 3, 10, 30, 100, 300]) * d.i(1, 5) for _ in range(d.i(1, 12))],
        }

    def judge(self, case):
        import markflow

        calls = case["calls"]
        alone = [sut.outcome(call["src"], call["width"]) for call in calls]
        baton = Baton(len(calls), case["schedule"])
        results = [None] * len(calls)

        def work(me):
            baton.wait(me)
            sys.settrace(baton.tracer(me))
            try:
                call = calls[me]
                text = markflow.reformat_markdown_text(call["src"], sut.num(call["width"]))
                results[me] = (text, None)
            except Exception as e:
                results[me] = (None, type(e).__name__)
            finally:
                sys.settrace(None)
                baton.done(me)

        threads = [
            threading.Thread(target=work, args=(i,), daemon=True) for i in range(len(calls))
        ]
        before = settings()
        for thread in threads:
            thread.start()
        for thread in threads:
            thread.join(60)
            if thread.is_alive():
                # Maybe it's waiting for one that isn't running
                baton.gone = True
                self.switches = 0
                return None
        self.switches = baton.switches
        after = settings()
        for key in before:
            if before[key] != after[key]:
                return (
                    f"formatting {show([call['src'] for call in calls])} in several threads "
                    f"changes {key} from {before[key]} to {after[key]}"
                )
        for call, one, result in zip(calls, alone, results):
            if one != result:
                return (
                    f"formatting {show(call['src'])} with a line length of {call['width']} "
                    f"while other texts are formatted results in {show(result)} instead of "
                    f"{show(one)}"
                )
        return None

    def nontrivial(self, case):
        return self.switches >= 10

    def labels(self, case):
        yield f"{len(case['calls'])} threads"
        yield f"{min(1000, 10 ** len(str(self.switches)))} switches at most"
