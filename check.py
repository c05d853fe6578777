#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--keep]

Builds the property's monitors from /repo's working tree, runs them, writes evidence/<property>.json.
exit 0: the property held on everything explored; 1: violated (a VIOLATION line names the replay file); 2: the check itself failed.
"""
import concurrent.futures as cf
import glob
import json
import os
import shutil
import signal
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import registry  # noqa: E402

REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
NPROC = os.cpu_count() or 8

BASE_ENV = {
    "OMPI_ALLOW_RUN_AS_ROOT": "1", "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1",
    "OMPI_MCA_btl": "self,vader", "OMPI_MCA_btl_vader_single_copy_mechanism": "none", "OMPI_MCA_plm_rsh_agent": "",
    "OMPI_MCA_rmaps_base_oversubscribe": "1", "OMPI_MCA_mpi_yield_when_idle": "1", "OMPI_MCA_hwloc_base_binding_policy": "none",
    "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MALLOC_PERTURB_": "165", "MALLOC_MMAP_THRESHOLD_": "1073741824",
    "PYTHONDONTWRITEBYTECODE": "1", "LC_ALL": "C.UTF-8",
    "ASAN_OPTIONS": "detect_leaks=1:max_malloc_fill_size=1073741824:malloc_fill_byte=255:detect_stack_use_after_return=1:"
                    "strict_string_checks=1:check_initialization_order=1:alloc_dealloc_mismatch=1:abort_on_error=0:exitcode=66",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=66",
    "LSAN_OPTIONS": "exitcode=66",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=66",
}

FLAGS = {
    "plain": ["-O1", "-D_GLIBCXX_ASSERTIONS"],
    "O3": ["-O3", "-D_GLIBCXX_ASSERTIONS"],
    "asan": ["-O1", "-g1", "-D_GLIBCXX_ASSERTIONS", "-DVERIF_SAN", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer",
             "-fno-sanitize=vptr"],
}


class CheckError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def known_findings(prop):
    known = {}
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            line = line.strip()
            if line.startswith("known: property=%s " % prop):
                rest = line[len("known: property=%s " % prop):]
                key, _, what = rest.partition(" ")
                assert key.startswith("key=")
                known[key[4:]] = what
    return known


class Unit:
    """One monitor program in one configuration."""

    def __init__(self, spec, tier, build):
        self.s = spec
        self.name = spec["name"]
        self.tier = tier
        self.build_dir = build
        self.exe = os.path.join(build, self.name)

    def compile(self):
        s = self.s
        if s.get("variants"):
            self.parts = [Unit(dict(s, name=self.name + "-" + label, variants=None, defines=s["defines"] + d,
                                    env=dict(s.get("env", {}), VERIF_TRACE="@BUILD@/%s-%s.trace" % (self.name, label))), self.tier, self.build_dir)
                          for label, d, _ in s["variants"]]
            for u in self.parts:
                u.compile()
            return
        if s.get("kind", "cpp") != "cpp":
            return
        cxx = s.get("cxx", "mpicxx" if s.get("mpi") else "g++")
        cmd = [cxx, "-std=c++17", "-w", "-DTAT_ERROR_BITS=1", "-DTAT_NOTHING_BITS=6", "-I", os.path.join(REPO, "include"), "-I", os.path.join(HERE, "harness")]
        cmd += FLAGS[s.get("flags", "plain")]
        if s.get("mpi"):
            cmd += ["-DTAT_USE_MPI"]
        cmd += s.get("defines", [])
        cmd += [os.path.join(HERE, "harness", s["src"]), "-o", self.exe, "-llapack", "-lblas"]
        t = time.time()
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode != 0:
            raise CheckError("cannot compile %s:\n%s\n%s" % (self.name, " ".join(cmd), p.stdout.decode("utf-8", "replace")[:4000]))
        log("compiled %-40s %5.1f s" % (self.name, time.time() - t))

    def command(self, out, only=None):
        s = self.s
        cases = s["cases"][0 if self.tier == "quick" else 1]
        limit = s.get("limit", (40, 600))[0 if self.tier == "quick" else 1]
        args = ["--seed", str(SEED), "--cases", str(cases), "--limit", str(limit), "--out", out]
        if only is not None:
            args += ["--only", str(only)]
        kind = s.get("kind", "cpp")
        if kind == "cpp":
            cmd = s.get("wrap", []) + [self.exe] + args
        elif kind == "py":
            cmd = ["/usr/bin/python3", os.path.join(HERE, "harness", s["src"])] + args + s.get("args", [])
        else:
            raise CheckError("unknown kind")
        if s.get("mpi"):
            if s.get("np", 1) > 1:
                cmd = ["mpirun", "--oversubscribe", "-np", str(s["np"])] + cmd
        return cmd, limit

    def env(self):
        e = {k: v for k, v in os.environ.items() if k not in ("PYTHONPATH",)}
        e.update(BASE_ENV)
        if self.s.get("flags") == "asan" or self.s.get("wrap"):
            e.pop("MALLOC_PERTURB_")
            e.pop("MALLOC_MMAP_THRESHOLD_")
        if self.s.get("np", 1) == 1:
            e["OMPI_MCA_ess_singleton_isolated"] = "1"
        e["VERIF_SEED"] = str(SEED)
        e.update({k: v.replace("@BUILD@", self.build_dir).replace("@REPO@", REPO).replace("@HERE@", HERE) for k, v in self.s.get("env", {}).items()})
        return e

    def run_variants(self):
        """The same program in several builds: every one is judged by itself, then their traces are compared line by line."""
        total, traces = None, []
        for u, (label, _, shared) in zip(self.parts, self.s["variants"]):
            r = u.run()
            r["unit"] = self.name
            if total is None:
                total = r
            else:
                for k in ("wall", "evaluations", "comparisons", "distinct"):
                    total[k] += r[k]
                total["violations"] += r["violations"]
            path = os.path.join(self.build_dir, u.name + ".trace")
            traces.append((label, shared, open(path, encoding="utf-8", errors="replace").read().splitlines()))
        label0, shared0, lines0 = traces[0]
        for label, shared, lines in traces[1:]:
            pick = (lambda x: x) if shared else (lambda x: [l for l in x if l.startswith("T ")])
            a, b = pick(lines0), pick(lines)
            if len(a) != len(b):  # stopped by the time limit or ended early
                n = min(len(a), len(b))
                a, b = a[:n], b[:n]
            if not a:
                raise CheckError("nothing to compare in %s" % self.name)
            total["counters"]["lines compared between builds"] = total["counters"].get("lines compared between builds", 0) + len(a)
            total["comparisons"] += len(a)
            for x, y in zip(a, b):
                if x != y:
                    total["violations"].append({"case": int(x.split()[1]), "message": "build '%s' and build '%s' differ:\n%s\n%s" % (label0, label, x[:600], y[:600])})
                    break
        return total

    def run(self):
        if self.s.get("variants"):
            return self.run_variants()
        r = self.run_one()
        if r["violations"] and "base" in self.s:
            # a build option is at fault only if the build without it does not show the same
            b = Unit(dict(self.s, name=self.name + "-base", defines=self.s["base"]), self.tier, self.build_dir)
            del b.s["base"]
            b.compile()
            if b.run_one()["violations"]:
                r["counters"]["violations that the default build shows as well (another property)"] = len(r["violations"])
                r["violations"] = []
        return r

    def run_one(self):
        out = os.path.join(self.build_dir, self.name + ".json")
        if os.path.exists(out):
            os.remove(out)
        cmd, limit = self.command(out)
        work = os.path.join(self.build_dir, self.name + ".work")
        os.makedirs(work, exist_ok=True)
        t = time.time()
        timeout = limit + self.s.get("grace", 240)
        p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=self.env(), cwd=work, start_new_session=True)
        try:
            so, se = p.communicate(timeout=timeout)
            hung = False
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            so, se = p.communicate()
            hung = True
        wall = time.time() - t
        shutil.rmtree(work, ignore_errors=True)
        text = (so.decode("utf-8", "replace")[-3000:] + "\n" + se.decode("utf-8", "replace")[-12000:]).strip()
        log("ran      %-40s %5.1f s rc=%s" % (self.name, wall, p.returncode))
        r = {"unit": self.name, "wall": wall, "violations": [], "evaluations": 0, "comparisons": 0, "distinct": 0, "counters": {}, "samples": [], "known": [],
             "cmd": cmd}
        outs = [f for f in [out] + sorted(glob.glob(out + ".rank*")) if os.path.exists(f) and not f.endswith(".progress")]
        for f in outs:
            try:
                d = json.load(open(f))
            except ValueError:
                continue
            r["evaluations"] += d["evaluations"]
            r["comparisons"] += d["comparisons"]
            r["distinct"] += d["distinct"]
            for k, v in d["counters"].items():
                r["counters"][k] = r["counters"].get(k, 0) + v
            r["samples"] += d["samples"]
            if not self.s.get("other_property"):  # a workload borrowed from another property: only the sanitizers judge it here
                r["known"] += d["known"]
            r["violations"] += d["violations"]
        if hung:
            r["violations"].append({"case": self.progress(out), "message": "did not finish within %d s (hang)\n%s" % (timeout, text[-2000:])})
        elif p.returncode == 3 or (p.returncode != 0 and "VERIF-HARNESS-ERROR" in text):
            raise CheckError("monitor %s failed: %s" % (self.name, text[-3000:]))
        elif p.returncode not in (0, 1) or (p.returncode == 1 and not r["violations"]):
            if not outs and self.progress(out) is None and "error while loading shared libraries" in text:
                raise CheckError("cannot run %s: %s" % (self.name, text))
            r["violations"].append({"case": self.progress(out), "message": "ended with status %s\n%s" % (p.returncode, text[-6000:])})
        elif not outs and self.progress(out) is not None:  # the code under test ended the process (LAPACK's error handler exits with 0)
            r["violations"].append({"case": self.progress(out), "message": "the process ended in the middle of a case\n%s" % text[-6000:]})
        elif not outs or r["evaluations"] == 0:
            raise CheckError("monitor %s observed nothing: %s" % (self.name, text[-2000:]))
        return r

    def progress(self, out):
        best = None
        for f in [out + ".progress"] + glob.glob(out + ".rank*.progress"):
            try:
                v = int.from_bytes(open(f, "rb").read(8), sys.byteorder)
                if v > 0:
                    best = v - 1
            except OSError:
                pass
        return best


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    only_unit = sys.argv[sys.argv.index("--unit") + 1] if "--unit" in sys.argv else None
    start = time.time()
    spec = registry.PROPS[prop]
    build = os.path.join(HERE, "build", prop)
    shutil.rmtree(build, ignore_errors=True)
    os.makedirs(build)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    known = known_findings(prop)
    units = [Unit(u, tier, build) for u in spec["units"](tier) if only_unit is None or u["name"] == only_unit]
    results = []
    try:
        if spec.get("prepare"):
            spec["prepare"](build, REPO, tier)
        # heavy units hold several slots
        slots = threading.Semaphore(NPROC)
        lock = threading.Lock()

        def work(u):
            slots.acquire()
            try:
                u.compile()
            finally:
                slots.release()
            n = min(u.s.get("np", 1), NPROC)
            with lock:
                for _ in range(n):
                    slots.acquire()
            try:
                return u.run()
            finally:
                for _ in range(n):
                    slots.release()

        with cf.ThreadPoolExecutor(max_workers=max(NPROC * 2, 16)) as ex:
            for f in [ex.submit(work, u) for u in units]:
                results.append(f.result())
    except CheckError as e:
        log(str(e))
        print("ERROR property=%s %s" % (prop, str(e).splitlines()[0]))
        sys.exit(2)
    violations, seen_known = [], {}
    for r in results:
        for v in r["violations"]:
            violations.append((r, v))
        for k in r["known"]:
            if k["key"] in known:
                e = seen_known.setdefault(k["key"], [0, k["example"]])
                e[0] += k["count"]
            else:
                violations.append((r, {"case": None, "message": "finding '%s' is not in the known-findings file: %s" % (k["key"], k["example"])}))
    counters = {}
    for r in results:
        for k, v in r["counters"].items():
            counters[k] = counters.get(k, 0) + v
    samples = []
    for i in range(8):
        for r in results:
            if i < len(r["samples"]) and len(samples) < 10:
                samples.append(r["samples"][i])
    ev = {
        "property": prop, "tier": tier, "seed": SEED, "level": "exploration",
        "coverage": {
            "evaluations": sum(r["evaluations"] for r in results),
            "distinct_nontrivial": sum(r["distinct"] for r in results),
            "rule": spec["rule"],
            "samples": samples,
            "comparisons": sum(r["comparisons"] for r in results),
            "monitors": {r["unit"]: {"evaluations": r["evaluations"], "distinct": r["distinct"], "comparisons": r["comparisons"],
                                     "wall_s": round(r["wall"], 2)} for r in results},
            "events": counters,
            "known_findings_seen": {k: v[0] for k, v in seen_known.items()},
        },
        "wall_s": round(time.time() - start, 2),
        "violations": len(violations),
    }
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for k, (n, example) in sorted(seen_known.items()):
        print("KNOWN-FINDING: property=%s %s (seen %d times; for example %s)" % (prop, known[k], n, example[:300]))
    if violations:
        os.makedirs(os.path.join(HERE, "replay"), exist_ok=True)
        for i, (r, v) in enumerate(violations[:5]):
            path = os.path.join(HERE, "replay", "%s-%d.json" % (prop, i))
            cmd = list(r["cmd"])
            if v["case"] is not None:
                cmd += ["--only", str(v["case"])]
            with open(path, "w") as f:
                json.dump({"property": prop, "unit": r["unit"], "case": v["case"], "seed": SEED, "tier": tier, "message": v["message"],
                           "rebuild": "python3 check.py %s --unit %s" % (prop, r["unit"]), "command": cmd}, f, indent=1)
            log("violation in %s case %s: %s" % (r["unit"], v["case"], v["message"][:1500]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        sys.exit(1)
    print("OK property=%s evaluations=%d distinct=%d comparisons=%d wall=%.1fs" % (
        prop, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], ev["coverage"]["comparisons"], ev["wall_s"]))


if __name__ == "__main__":
    main()
