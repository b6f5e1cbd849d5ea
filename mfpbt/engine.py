"""Runs a check: generates cases, judges them, shrinks what fails and writes evidence.

A check is an object with
    id            of the property it decides
    rule          what makes a case count as non-trivial, in words
    quick, thorough   number of cases of each shard
    gen(d)        draws a case, something that can be stored as JSON
    judge(case)   what is wrong, or None
    nontrivial(case), labels(case)   for the evidence

Everything is a pure function of the code under test and VERIF_SEED: there is a fixed number
of shards, each of which runs a fixed number of cases from its own seed.
"""

import collections
import glob
import hashlib
import json
import multiprocessing
import os
import random
import sys
import time
import traceback

from . import sut
from .sut import CaseTimeout, Violation

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SHARDS = 8
SHRINK_SECONDS = 40
FINDINGS_FILE = os.path.join(ROOT, "known-findings.txt")


class HarnessError(Exception):
    pass


class Draw:
    """All the randomness there is. Smaller numbers are simpler.

    Numbers come from a list, then from a random generator or, without one, are the
    simplest ones. Those that were drawn are recorded for making a case smaller.
    """

    def __init__(self, rng=None, choices=()):
        self.rng = rng
        self.given = choices
        self.choices = []

    def i(self, a, b):
        if a == b:
            return a
        at = len(self.choices)
        if at < len(self.given):
            n = min(self.given[at], b - a)
        elif self.rng is not None:
            n = self.rng.randrange(b - a + 1)
        else:
            n = 0
        if at > 1000000:
            raise HarnessError("a case of infinite size")
        self.choices.append(n)
        return a + n

    def c(self, choices):
        return choices[self.i(0, len(choices) - 1)]

    def p(self, n, d):
        """True in n of d cases"""
        return self.i(0, d - 1) >= d - n


def shrunk(choices):
    """Simpler versions of choices, starting with the ones that are a lot simpler.

    A generator that is sent whether the last one is as good, so that it goes on from it.
    """
    best = list(choices)
    improved = True
    while improved:
        improved = False
        size = max(1, len(best) // 2)
        while size:
            at = len(best) - size
            while at >= 0:
                for new in (best[:at] + best[at + size :], None):
                    if new is None:
                        if not any(best[at : at + size]):
                            continue
                        new = best[:at] + [0] * size + best[at + size :]
                    got = yield new
                    if got is not None:
                        best, improved = got, True
                        break
                at = min(at, len(best)) - max(1, size // 2)
            size //= 2
        at = 0
        while at < len(best):
            for value in sorted({0, best[at] // 2, best[at] - 1}):
                if not 0 <= value < best[at]:
                    continue
                got = yield best[:at] + [value] + best[at + 1 :]
                if got is None and value == best[at] - 1:
                    # Maybe the number of the things that follow
                    for size in (1, 2, 3, 4, 6, 8, 12, 16, 24):
                        for start in (at + 1, at + 1 + size):
                            if start + size > len(best):
                                break
                            got = yield (
                                best[:at] + [value] + best[at + 1 : start]
                                + best[start + size :]
                            )
                            if got is not None:
                                break
                        if got is not None:
                            break
                if got is not None:
                    best, improved = got, True
                    break
            at += 1


def case_key(case):
    return hashlib.blake2b(
        json.dumps(case, sort_keys=True).encode(), digest_size=10
    ).digest()


def judge(check, case):
    """What is wrong with the case, or None"""
    try:
        return check.judge(case)
    except Violation as violation:
        return str(violation)
    except CaseTimeout as timeout:
        return str(timeout)


class Shard:
    def __init__(self, check, tier, seed, index, stop, known):
        self.check = check
        self.count = check.quick if tier == "quick" else check.thorough
        # Only for measuring how many mutants are found quickly
        self.count = max(1, int(self.count * float(os.environ.get("MFPBT_SCALE", 1))))
        self.seed = seed * 1000 + index
        self.stop = stop
        self.known = known
        self.evaluations = 0
        self.keys = set()
        self.labels = collections.Counter()
        self.samples = []
        self.skipped_known = 0

    def one(self, case):
        """What is wrong with it, and notes down what it was"""
        key = case_key(case)
        message = judge(self.check, case)
        self.evaluations += 1
        if message is not None:
            if key in self.known:
                self.skipped_known += 1
                return None
            return message
        for label in self.check.labels(case):
            self.labels[label] += 1
        if self.check.nontrivial(case):
            if key not in self.keys and len(self.samples) < 3 and len(self.keys) % 7 == 3:
                self.samples.append(case)
            self.keys.add(key)
        return None

    def shrink(self, choices, case, message):
        """The simplest case that was found to fail, and what's wrong with it"""
        deadline = time.monotonic() + SHRINK_SECONDS
        best = (len(choices), choices)
        seen = {case_key(case)}
        candidates = shrunk(choices)
        answer = None
        while time.monotonic() < deadline:
            try:
                tried = candidates.send(answer)
            except StopIteration:
                break
            answer = None
            d = Draw(choices=tried)
            try:
                new = self.check.gen(d)
            except Exception:
                continue
            size = (len(d.choices), d.choices)
            key = case_key(new)
            if size >= best or key in self.known:
                continue
            if key in seen:
                continue
            seen.add(key)
            new_message = judge(self.check, new)
            if new_message is not None:
                best, case, message = size, new, new_message
                answer = d.choices
        return case, message

    def run(self):
        rng = random.Random(self.seed)
        violation = error = None
        case = None
        try:
            for n in range(self.count):
                if self.stop.is_set():
                    break
                case = None
                d = Draw(rng if n else None)
                case = self.check.gen(d)
                message = self.one(case)
                if message is not None:
                    self.stop.set()
                    violation = self.shrink(d.choices, case, message)
                    break
        except Exception:
            error = f"{json.dumps(case)[:3000]}\n{traceback.format_exc()}"
        return {
            "evaluations": self.evaluations,
            "keys": self.keys,
            "labels": self.labels,
            "samples": self.samples,
            "violation": violation,
            "error": error,
            "known": self.skipped_known,
        }


def shard_main(args, queue):
    check, tier, seed, index, stop, known = args
    try:
        queue.put((index, Shard(check, tier, seed, index, stop, known).run()))
    except BaseException:
        queue.put((index, {"error": traceback.format_exc()}))


def read_findings(property_id):
    """[(path of the case, what fails)] of this property, and what has been fixed"""
    findings, fixed = [], []
    with open(FINDINGS_FILE) as f:
        for line in f:
            line = line.strip()
            if line.startswith(f"finding: property={property_id} "):
                _, _, path, text = line.split(" ", 3)
                findings.append((path[len("case=") :], text))
            elif line.startswith(f"fixed: property={property_id} "):
                fixed.append(line)
    return findings, fixed


def load_case(path):
    with open(path) as f:
        data = json.load(f)
    return data["case"] if "case" in data else data


def write_replay(property_id, case, message):
    folder = os.path.join(ROOT, "replays")
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, f"{property_id}.json")
    with open(path, "w") as f:
        json.dump({"property": property_id, "message": message, "case": case}, f, indent=1)
        f.write("\n")
    return path


def shorten(value, limit=1500):
    text = json.dumps(value, ensure_ascii=False)
    return value if len(text) <= limit else text[:limit] + " ..."


def run(check, tier, seed):
    start = time.monotonic()
    sut.load()
    findings, fixed = read_findings(check.id)
    violations = []
    known = set()
    for path, text in findings:
        case = load_case(os.path.join(ROOT, path))
        known.add(case_key(case))
        if judge(check, case) is not None:
            print(f"KNOWN-FINDING: property={check.id} {text}")
    regressions = sorted(glob.glob(os.path.join(ROOT, "regressions", check.id, "*.json")))
    for path in regressions:
        case = load_case(path)
        message = judge(check, case)
        if message is not None:
            violations.append((case, f"{os.path.basename(path)}: {message}"))

    ctx = multiprocessing.get_context("fork")
    stop = ctx.Event()
    results = []
    if not violations:
        queue = ctx.Queue()
        processes = []
        for index in range(SHARDS):
            process = ctx.Process(
                target=shard_main, args=((check, tier, seed, index, stop, known), queue)
            )
            process.start()
            processes.append(process)
        for _ in processes:
            while True:
                try:
                    results.append(queue.get(timeout=5))
                    break
                except Exception:
                    if not any(p.is_alive() for p in processes) and queue.empty():
                        raise HarnessError("a shard died")
        for process in processes:
            process.join()
    results = [r for _, r in sorted(results, key=lambda x: x[0])]
    errors = [r["error"] for r in results if r.get("error")]
    violations += [r["violation"] for r in results if r.get("violation")]
    results = [r for r in results if "keys" in r]

    keys = set().union(*[r["keys"] for r in results]) if results else set()
    labels = sum((r["labels"] for r in results), collections.Counter())
    samples = [s for r in results for s in r["samples"]][:4]
    wall = time.monotonic() - start
    evidence = {
        "property": check.id,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": sum(r["evaluations"] for r in results) + len(regressions),
            "distinct_nontrivial": len(keys),
            "rule": check.rule,
            "samples": [shorten(s) for s in samples],
            "labels": dict(sorted(labels.items())),
            "regressions_replayed": len(regressions),
            "known_findings_replayed": len(findings),
        },
        "assumptions": list(check.assumptions),
        "wall_s": round(wall, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{check.id}.json"), "w") as f:
        json.dump(evidence, f, indent=1, ensure_ascii=False)
        f.write("\n")

    if violations:
        case, message = min(violations, key=lambda cm: len(json.dumps(cm[0])))
        path = write_replay(check.id, case, message)
        print(message)
        print(f"VIOLATION property={check.id} replay={path}")
        return 1
    if errors:
        print(errors[0], file=sys.stderr)
        print(f"{check.id}: error of the check itself", file=sys.stderr)
        return 2
    print(
        f"{check.id}: held on {evidence['coverage']['evaluations']} cases "
        f"({len(keys)} distinct and non-trivial) in {wall:.1f} s"
    )
    return 0


def replay(check, path):
    sut.load()
    case = load_case(path)
    message = judge(check, case)
    if message is None:
        print(f"{check.id}: held on {path}")
        return 0
    print(message)
    print(f"VIOLATION property={check.id} replay={os.path.abspath(path)}")
    return 1
