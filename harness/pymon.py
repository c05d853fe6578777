"""The monitor loop for Python workloads: the same command line and result file as mon.hpp."""
import json
import os
import random
import sys
import time
import traceback


class Bad(Exception):
    pass


class HarnessError(Exception):
    pass


class State:
    evaluations = 0
    comparisons = 0
    note = ""
    counters = {}
    samples = []
    violations = []
    distinct = set()


S = State()


def count(what, n=1):
    S.counters[what] = S.counters.get(what, 0) + int(n)


def observe(n=1):
    S.comparisons += n


def nontrivial(signature):
    S.distinct.add(hash(signature))


def describe(text):
    S.note = text


def sample(text):
    if len(S.samples) < 4 or (len(S.samples) < 8 and S.evaluations % 97 == 0):
        S.samples.append(text)


def require(ok, what):
    observe()
    if not ok:
        raise Bad(what)


class Rng(random.Random):
    def chance(self, percent):
        return self.randrange(100) < percent

    def range(self, a, b):
        return self.randint(a, b)


def finish(out, suffix):
    result = {"evaluations": S.evaluations, "comparisons": S.comparisons, "distinct": len(S.distinct), "counters": S.counters, "samples": S.samples,
              "known": [], "violations": S.violations}
    if out:
        with open(out + suffix, "w") as f:
            json.dump(result, f)
    else:
        json.dump(result, sys.stdout)


def run(body, suffix="", agree=None, together=False):
    args = dict(zip(sys.argv[1::2], sys.argv[2::2]))
    seed, cases, limit = int(args.get("--seed", 1)), int(args.get("--cases", 100)), float(args.get("--limit", 60))
    only = int(args.get("--only", -1))
    salt = int(os.environ.get("VERIF_SALT", 0))
    out = args.get("--out")
    progress = open(out + suffix + ".progress", "w+b", buffering=0) if out else None
    start = time.time()
    code = 0
    for c in [only] if only >= 0 else range(cases):
        if progress:
            progress.seek(0)
            progress.write((c + 1).to_bytes(8, sys.byteorder))
        S.note = ""
        S.evaluations += 1
        try:
            body(Rng((seed * 97 + salt) * 1000003 + c), c)
        except HarnessError as e:
            print("VERIF-HARNESS-ERROR", e, S.note, file=sys.stderr)
            code = 3
            break
        except Exception as e:
            where = "" if isinstance(e, Bad) else " | " + " ".join(traceback.format_exc().split("\n")[-8:])
            S.violations.append({"case": c, "message": "%s: %s | %s%s" % (type(e).__name__, e, S.note, where)})
            if together:  # the other processes wait for this one
                finish(out, suffix)
                print(S.violations[-1]["message"], file=sys.stderr, flush=True)
                os._exit(1)
            if len(S.violations) >= 3:
                break
        if only >= 0:
            print("case", c, S.note, file=sys.stderr)
        if c % 8 == 7:
            late = time.time() - start > limit
            if agree:
                late = agree(late)
            if late:
                count("stopped by time limit")
                break
    if progress:
        progress.seek(0)
        progress.write(bytes(8))
    finish(out, suffix)
    sys.stdout.flush()
    return code or (1 if S.violations else 0)
