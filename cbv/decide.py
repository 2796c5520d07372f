"""Decides one property: verifies every function the property depends on, runs the replay harness, writes the evidence."""
import json
import os
import re
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

from . import registry, runner, specs

HERE = runner.HERE
PROPS = {json.loads(l)["id"]: json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))}
FUNCTIONAL = ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C13", "C14", "C15")
# functions the verifier cannot bring to an end yet: decided by the bounded harness only (see DESIGN.md)
OUT_OF_REACH = set(runner.UNPROVED)
VARIANT_TEXT = {"nm": "class element, non-throwing moves, every other operation may throw", "tm": "class element, every copy and move may throw", "sc": "scalar element (int)",
                "mx": "class element, non-throwing move construction, move assignment may throw", "my": "class element, move construction may throw, non-throwing move assignment",
                "co": "class element that can be copied but not moved",
                "db": "iterator debugging on (BOOST_CB_ENABLE_DEBUG); class element, non-throwing moves, every other operation may throw"}
# instantiations verified on every change; a thorough run adds all the others
QUICK_EXTRA = {"C11": ["mx", "my"], "C17": ["my"]}
NATIVE = {"C15": (1,), "C16": (1,), "C17": (1,), "C12": (0,), "C19": (0, 1), "C20": (0, 1), "C21": (0, 1), "C22": (0, 1), "C14": (0, 1)}
SAN = ["-g1", "-fsanitize=address,undefined", "-fno-sanitize=nonnull-attribute", "-fno-sanitize-recover=all"]


def props_of(con, ob):
    """the properties an obligation of this contract counts for"""
    so = con.key.startswith("SO::") or "SO&" in con.key or "SO const" in con.key
    tags = set(ob["tags"])
    out = set()
    f = [p for p in con.props if p in FUNCTIONAL][:1]
    if tags & {"func"}:
        out.update(f)
    if "life" in tags:
        out.add("C17" if so else "C09")
    if tags & {"exc", "nothrow"}:
        out.add("C17" if so else "C10")
    if "strong" in tags:
        out.add("C17" if so else "C11")
    if "bounds" in tags:
        out.add("C16" if so and "life" not in tags else "C17" if so else "C09")
    for t, p in (("stable", "C12"), ("term", "C19"), ("discipline", "C20"), ("alloc", "C21"), ("const", "C22"), ("dbg", "C18")):
        if t in tags:
            out.add(p)
    return out


def wants(pid, con):
    so = con.key.startswith("SO::")
    if pid in FUNCTIONAL:
        return pid in con.props
    if pid == "C16":
        return so
    if pid == "C17":
        return so
    if pid in ("C09", "C10", "C11", "C12"):
        return not so and (pid in con.props or pid in ("C09", "C10"))
    return True


class Native:
    """the bounded harness, compiled and run in the background"""

    def __init__(self, pid, tier, seed, end):
        self.pid, self.tier, self.seed, self.end = pid, tier, seed, end
        self.tmp = tempfile.mkdtemp(prefix="cbn")
        self.ex = ThreadPoolExecutor(4)
        self.jobs = []
        self.bins = {}
        if pid == "C18":
            confs = [("debug.cpp", k, so) for so in (0, 1) for k in (0, 1)]
        else:
            confs = [("harness.cpp", k, so) for so in NATIVE.get(pid, (0,)) for k in (0, 1, 2, 3) + ((4, 5) if pid in ("C09", "C10", "C11", "C17", "C20") else ())]
        for src, k, so in confs:
            self.jobs.append(((src, k, so), self.ex.submit(self.work, src, k, so)))

    def work(self, src, k, so):
        exe, err = self.build(src, k, so)
        return (None, err) if exe is None else (self.execute(exe, self.args(k, so), max(60, self.end - time.time()), k), "")

    def build(self, src, k, so):
        out = os.path.join(self.tmp, "%s-%d-%d" % (src.split(".")[0], k, so))
        cmd = ["g++", "-std=c++17", "-O1", "-w", *SAN, "-DKIND=%d" % k, "-DSO=%d" % so, "-I" + os.path.join(runner.REPO, "include"),
               os.path.join(HERE, "native", src), "-o", out]
        p = subprocess.run(cmd, capture_output=True, text=True)
        return out if p.returncode == 0 else None, p.stderr[-1500:]

    def args(self, k, so):
        th = self.tier == "thorough"
        # the last element kinds differ only in what may throw: a smaller bound on every change
        return ["props=" + self.pid, "cap=%d" % (5 if th else 3 if so and k >= 3 else 4), "rnd=%d" % (6000 if th else 600), "seed=%d" % self.seed]

    def execute(self, exe, args, limit, k):
        # elements track their own lifetime, on the stack too; only plain ints need the sanitizer for that
        env = dict(os.environ, ASAN_OPTIONS=("" if k == 2 else "detect_stack_use_after_return=0:malloc_context_size=0:use_sigaltstack=0:") + "abort_on_error=1:handle_segv=0:handle_sigfpe=0:detect_leaks=0:allocator_may_return_null=1", UBSAN_OPTIONS="abort_on_error=1:print_stacktrace=0")
        try:
            p = subprocess.run(["nice", "-n", "5", exe] + args, capture_output=True, text=True, errors="replace", timeout=limit, env=env)
            return p.stdout, p.stderr, p.returncode
        except subprocess.TimeoutExpired as e:
            return (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or ""), "", "timeout"

    def finish(self):
        """(failures of this property, [summary per configuration], build errors)"""
        errs = []
        fails, summ = [], []
        for (src, k, so), fut in self.jobs:
            res, err = fut.result()
            if res is None:
                errs.append("%s KIND=%d SO=%d: %s" % (src, k, so, err))
                continue
            out, err, rc = res
            m = re.search(r"DONE cases=(\d+) runs=(\d+) faults=(\d+)", out)
            summ.append({"harness": src, "element_kind": k, "space_optimized": bool(so), "args": self.args(k, so), "cases": int(m.group(1)) if m else 0, "runs": int(m.group(2)) if m else 0,
                         "injected_exceptions": int(m.group(3)) if m else 0, "finished": bool(m)})
            for line in out.splitlines():
                p = line.split(" | ")
                if line.startswith("FAIL ") and p[0][5:].strip() == self.pid:
                    fails.append((src, k, so, line))
                elif line.startswith("CRASH ") and self.crash_counts(p[0][6:].strip(), line):
                    fails.append((src, k, so, line + " | " + err[-1500:].replace("\n", " ")))
        return fails, summ, errs

    def crash_counts(self, prop, line):
        if prop == self.pid:
            return True
        if "no progress" in line:
            return self.pid == "C19"
        if self.pid in ("C09", "C17"):
            return ("space_optimized" in line) == (self.pid == "C17")
        return False

    def close(self):
        self.ex.shutdown(wait=True)
        import shutil
        shutil.rmtree(self.tmp, ignore_errors=True)


def dependencies(results, budget):
    """the functions whose contracts were used in place of their code and that were not verified in this run yet"""
    have = {(r["variant"], r["key"]) for r in results}
    need = {(r["variant"], k) for r in results for k in r["contracts"]} - have
    return [(v, k, sc, budget) for v, k in sorted(need, key=lambda t: (-runner.cost(t[1]), t)) for sc in specs.REG[k].scenarios]


def conditional(results):
    """{(variant, function): contracts it relies on that are not fully discharged in this run}"""
    bad = {(r["variant"], r["key"]) for r in results if not runner.clean(r)}
    have = {(r["variant"], r["key"]) for r in results}
    out = {}
    more = True
    while more:
        more = False
        for r in results:
            me = (r["variant"], r["key"])
            for k in r["contracts"]:
                if ((r["variant"], k) in bad or (r["variant"], k) not in have) and k not in out.get(me, ()):
                    out.setdefault(me, set()).add(k)
                    bad.add(me)
                    more = True
    return out


def replay_path(pid, name):
    d = os.path.join(HERE, "replay")
    os.makedirs(d, exist_ok=True)
    return os.path.join(d, "%s-%s.txt" % (pid, name))


def main(pid):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    limit = 780 if tier == "quick" else 3300
    native = Native(pid, tier, seed, t0 + limit)
    results, missing, irerrs = [], [], {}
    if pid == "C18":
        variants = ["db"]
    else:
        variants = ["nm", "tm"] + (["sc"] if pid != "C20" else [])
        variants += [v for v in ("mx", "my", "co") if tier == "thorough" or v in QUICK_EXTRA.get(pid, ())]
    irerrs = runner.load(variants)
    tasks, missing = runner.tasks_for(variants, lambda k, c, v: wants(pid, c) and k not in OUT_OF_REACH, 240 if tier == "quick" else 900)
    results = runner.run(tasks, deadline=t0 + limit * 0.7)
    more = dependencies(results, 240 if tier == "quick" else 900)
    while more:                                                   # contracts used by functions whose contracts are used, and so on
        got = runner.run(more, deadline=t0 + limit * 0.8)
        results += got
        more = dependencies(results, 240 if tier == "quick" else 900) if got else []
    relied = conditional(results)
    if pid == "C18" and "db" in runner.MODS:
        reg, gone = registry.verify_all(runner.MODS["db"])
        results += reg
        missing += [("db", k) for k in gone]
    fails, summ, nerrs = native.finish()
    native.close()
    # ---- the verdict of the verifier
    total = done = 0
    refuted, undecided, vacuous = [], [], []
    backends = {}
    names = {}
    for r in results:
        con = specs.REG.get(r["key"])                                  # None: a function of the iterator registry
        dep = con is not None and not wants(pid, con)
        mine = r["obs"] if dep or con is None else [o for o in r["obs"] if pid in props_of(con, o)]
        exact = all(l.get("exact", False) for l in r["loops"])
        fn = names.setdefault(r["key"], {"variants": [], "obligations": 0, "discharged": 0, "status": "proved"})
        if dep:
            fn["role"] = "contract relied on by a caller"
        if r["contracts"]:
            fn["relies_on"] = sorted(set(fn.get("relies_on", [])) | set(r["contracts"]))
        lack = relied.get((r["variant"], r["key"]))
        if lack:
            fn["status"] = "bounded"
            undecided.append("%s [%s]: relies on contracts that are not discharged: %s" % (r["key"], r["variant"], ", ".join(sorted(lack))))
        fn["variants"].append(r["variant"] + (":" + r["scenario"] if r["scenario"] else ""))
        if r["status"] == "vacuous":
            vacuous.append((r, r["note"]))
        if r["status"] != "ok":
            fn["status"] = "bounded"
            undecided.append("%s [%s%s]: %s: %s" % (r["key"], r["variant"], " " + r["scenario"] if r["scenario"] else "", r["status"], r["note"]))
        for o in mine:
            total += 1
            fn["obligations"] += 1
            if o["status"] == "discharged":
                done += 1
                fn["discharged"] += 1
                backends[o["backend"] or "z3"] = backends.get(o["backend"] or "z3", 0) + 1
            else:
                fn["status"] = "bounded"
                what = "%s [%s%s]: %s (%s) at %s" % (r["key"], r["variant"], " " + r["scenario"] if r["scenario"] else "", o["name"], o["status"], o["where"])
                if o["status"] == "refuted" and exact and not dep and not {"term", "call"} & set(o["tags"]) and r["status"] == "ok":
                    refuted.append((what, o, r))
                else:
                    undecided.append(what)
    for v, k in missing:
        undecided.append("%s [%s]: the function is not found in the compiled code" % (k, v))
    for v, e in irerrs.items():
        undecided.append("variant %s does not compile or cannot be read: %s" % (v, e[-600:]))
    reach = sorted(k for k, c in specs.REG.items() if wants(pid, c) and k in OUT_OF_REACH)
    # ---- verdict
    violation = None
    known = load_known()
    for src, k, so, line in fails:
        hit = [f for f in known if f[0] == pid and f[1] in line]
        if hit:
            print("KNOWN-FINDING: property=%s %s" % (pid, hit[0][1]))
            continue
        path = replay_path(pid, "input")
        with open(path, "w") as f:
            f.write("property %s: failing input on the real code\n\n%s\n\n" % (pid, line))
            f.write("Reproduce:\n  g++ -std=c++17 -O1 -w %s -DKIND=%d -DSO=%d -I%s/include %s/native/%s -o /tmp/replay && /tmp/replay %s\n\n"
                    % (" ".join(SAN), k, so, runner.REPO, HERE, src, " ".join(native.args(k, so))))
            f.write("All failures reported:\n" + "\n".join(l for _, _, _, l in fails[:20]) + "\n")
            if refuted:
                f.write("\nProof obligations that do not hold:\n" + "\n".join(w for w, _, _ in refuted[:20]) + "\n")
            if undecided:
                f.write("\nProof obligations that are not discharged:\n" + "\n".join(undecided[:20]) + "\n")
        violation = "VIOLATION property=%s replay=%s" % (pid, path)
        break
    if violation is None and pid == "C15" and runner.PARTIAL:
        v = sorted(runner.PARTIAL)[0]
        path = replay_path(pid, "build")
        with open(path, "w") as f:
            f.write("A construction, assignment or insertion of (count, item) with arguments of an integral type does not compile.\n"
                    "Reproduce:\n  clang++-18 -std=c++17 -fsyntax-only -w -I%s/include %s %s/driver/inst.cpp\n\n%s\n"
                    % (runner.REPO, " ".join(runner.VARIANTS[v]), HERE, runner.PARTIAL[v]))
        violation = "VIOLATION property=%s replay=%s" % (pid, path)
    if violation is None and refuted:
        path = replay_path(pid, "obligation")
        with open(path, "w") as f:
            f.write("property %s: proof obligations that do not hold of the current source\n\n" % pid)
            for w, o, r in refuted[:10]:
                f.write("%s\n  goal: %s\n  counterexample of the verifier: %s\n\n" % (w, o.get("goal", ""), json.dumps(o.get("model"), indent=1)[:3000]))
            f.write("The bounded harness found no failing input: %s\n" % json.dumps(summ))
        violation = "VIOLATION property=%s replay=%s no-failing-input-found" % (pid, path)
    if violation is None and nerrs and len(nerrs) == len(native.jobs):
        path = replay_path(pid, "build")
        open(path, "w").write("The harness does not compile against the current source:\n" + "\n".join(nerrs))
        violation = "VIOLATION property=%s replay=%s no-failing-input-found" % (pid, path)
    if violation is None and not irerrs and total == 0:
        path = replay_path(pid, "vacuous")
        open(path, "w").write("No obligation was generated for this property.\n" + "\n".join(undecided))
        violation = "VIOLATION property=%s replay=%s no-failing-input-found" % (pid, path)
    write_evidence(pid, tier, seed, t0, results, names, total, done, backends, refuted, undecided, reach, summ, nerrs, fails, violation, variants)
    for u in undecided[:20]:
        print("UNDECIDED (bounded check stands in): " + u[:300])
    print("%s: %d of %d obligations discharged in %d functions, %d undecided, harness %d runs, %.0fs" % (pid, done, total, len(names), len(undecided), sum(s["runs"] for s in summ), time.time() - t0))
    if violation:
        print(violation)
        return 1
    return 0


def load_known():
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) (.*)", l.strip())
            if m:
                out.append((m.group(1), m.group(2)))
    return out


TRUSTED = [
    "clang++-18 -O0 as the front end: what is verified is the LLVM IR it emits for /repo's templates, instantiated for the element types listed under variants",
    "the verifier of /verif/cbv: symbolic execution of that IR, loop summaries checked for induction by the solver, contracts of cbv/specs.py",
    "z3 (and cvc5 where z3 gives up)",
    "external functions by contract: operator new/delete inside the allocator, __cxa_* exception functions, std::less and pointer comparison, memmove/memset-style intrinsics",
    "element operations are abstract: construction, copy, move, assignment, comparison of an element do what a well-behaved type does or throw; they do not touch the buffer",
]


def write_evidence(pid, tier, seed, t0, results, names, total, done, backends, refuted, undecided, reach, summ, nerrs, fails, violation, variants):
    st = sum(r["solver_time"] for r in results)
    bounded = {"what": "bounded stand-in and counterexample search on the real code: every operation on every buffer state up to the bound, an exception injected at every point, plus random histories; compiled with address and undefined-behaviour sanitizers",
               "runs": summ, "functions_decided_only_by_it": reach, "build_errors": nerrs,
               "undecided_obligations_it_stands_in_for": undecided[:60]}
    cov = {"obligations": total, "discharged": done,
           "checker_cmd": "python3-vt /verif/check.py %s" % pid,
           "trusted_base": TRUSTED,
           "functions": names,
           "functions_under_contract": len(names),
           "functions_proved": sum(1 for f in names.values() if f["status"] == "proved" and f["obligations"]),
           "variants": {v: VARIANT_TEXT[v] for v in variants},
           "backends": backends, "solver_queries": sum(r["queries"] for r in results), "solver_s": round(st, 1),
           "loops_summarised": sum(len(r["loops"]) for r in results),
           "external_functions_assumed": sorted({e for r in results for e in r["externs"]}),
           "refuted": [w for w, _, _ in refuted][:20],
           "bounded": bounded}
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "proof", "coverage": cov,
          "assumptions": ASSUME.get(pid, ASSUME["off"]) + ASSUME[""],
          "wall_s": round(time.time() - t0, 1), "violations": 1 if violation else 0}
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


ASSUME = {
    "": ["preconditions documented for the callers hold (valid iterators of this buffer, n <= size() for erase_begin, forward ranges not into the buffer, arguments other than the lvalue of a push not elements of the buffer)",
         "buffers hold at most max_size() elements and lie in separate storage; addresses are mathematical integers, size_t and ptrdiff_t arithmetic is exact 64-bit",
         ],
    "off": ["with debugging off (BOOST_CB_ASSERT does nothing)"],
    "C18": ["iterators and containers occupy separate storage, and every iterator that is constructed is destroyed once"],
}


if __name__ == "__main__":
    sys.exit(main(sys.argv[1]))
