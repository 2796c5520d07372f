"""Compiles the instantiations from /repo's current source and verifies functions against their contracts in parallel."""
import multiprocessing as mp
import os
import shutil
import subprocess
import sys
import tempfile
import time

from . import check, debugging, ir, modular, specs

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("CBV_REPO", "/repo")
VARIANTS = {"nm": [], "tm": ["-DCBV_THROWING_MOVE=1"], "sc": ["-DCBV_SCALAR=1"],
            "mx": ["-DCBV_THROWING_ASSIGN=1"], "my": ["-DCBV_THROWING_CTOR=1"], "co": ["-DCBV_COPY_ONLY=1"],
            "db": ["-DBOOST_CB_ENABLE_DEBUG=1", "-DBOOST_ENABLE_ASSERT_HANDLER"]}
CLANG = "clang++-18" if shutil.which("clang++-18") else "clang++"
MODS = {}
PARTIAL = {}      # variant: why the (count, item) calls with integral arguments do not compile
# "a new default-constructed element" of a scalar type has an indeterminate value: there is nothing to verify
UNSPECIFIED_SCALAR = {c + k for c in ("CB::", "SO::") for k in ("push_back()", "push_front()", "insert(It)", "rinsert(It)")}

# expected seconds, only used to start the long ones first
SLOW = {"insert(It,size_t": 60, "rinsert(It,size_t": 60, "linearize": 60, "rotate": 60, "InIt": 50, "insert(It,Elem const*": 60, "resize": 50,
        "operator=": 20, "assign": 20, "circular_buffer(size_t": 15, "erase(": 15, "set_capacity": 15, "insert(": 12, "push_": 4}


def compile_ir(variant, tmp):
    out = os.path.join(tmp, variant + ".ll")
    first = None
    for less in ([], ["-DCBV_NO_NUM=1"]):
        cmd = [CLANG, "-std=c++17", "-O0", "-g", "-Xclang", "-disable-O0-optnone", "-S", "-emit-llvm", "-w",
               "-I" + os.path.join(REPO, "include"), *VARIANTS[variant], *less, os.path.join(HERE, "driver", "inst.cpp"), "-o", out]
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=120)
        if p.returncode == 0:
            if less:
                PARTIAL[variant] = first
            return out, ""
        first = first or p.stderr[-2000:]
    return None, first


def load(variants):
    """{variant: Module or None}, error texts"""
    errs = {}
    tmp = tempfile.mkdtemp(prefix="cbv")
    try:
        for v in variants:
            try:
                path, err = compile_ir(v, tmp)
                if path is None:
                    errs[v] = err
                    continue
                MODS[v] = ir.Module(open(path).read())
            except Exception as e:                                    # unreadable IR: nothing can be verified
                errs[v] = "%s: %s" % (type(e).__name__, e)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return errs


def cost(key):
    return max([c for s, c in SLOW.items() if s in key] + [1])


def plain(r):
    d = {"key": r.key, "scenario": r.scenario, "variant": r.variant, "status": r.status, "note": r.note, "time": r.time,
         "outcomes": r.outcomes, "queries": r.queries, "solver_time": r.solver_time, "inlined": list(r.inlined),
         "contracts": list(r.contracts), "externs": list(r.externs), "loops": [dict((k, v) for k, v in l.items() if isinstance(v, (str, int, bool, float))) for l in r.loops]}
    obs = []
    for o in r.obs:
        e = {"name": o.name, "tags": sorted(o.tags), "status": o.status, "where": str(o.where), "backend": o.backend, "time": o.time}
        if o.status != "discharged":
            e["goal"] = o.text
            try:
                e["model"] = {str(d): str(o.model[d])[:200] for d in o.model.decls()[:400]} if o.model is not None else None
            except Exception as ex:
                e["model"] = {"error": str(ex)}
        obs.append(e)
    d["obs"] = obs
    return d


# contracts that are not discharged are never relied on
UNPROVED = set()


def registry_for(v, key):
    """contracts used in place of the functions a function calls"""
    if v == "db":
        return modular.Registry(specs.REG, MODS[v], UNPROVED, only=debugging.CONTRACTS - {key})
    return modular.Registry(specs.REG, MODS[v], UNPROVED)


def clean(r):
    return r["status"] == "ok" and all(o["status"] == "discharged" for o in r["obs"])


def one(task):
    v, key, sc, budget = task
    con = specs.REG[key]
    f = check.functions(MODS[v]).get(key)
    try:
        t0 = time.time()
        reg = registry_for(v, key)
        r = plain(check.verify(MODS[v], v, f, con, sc, budget=budget, registry=reg))
        left = budget - (time.time() - t0)
        if r["contracts"] and left > 10 and not clean(r):
            # what a contract says may be too little for this caller: judge the code itself where that is within reach
            q = plain(check.verify(MODS[v], v, f, con, sc, budget=left, registry=None))
            if clean(q) or (q["status"] == "ok" and all(l.get("exact") for l in q["loops"])):
                q["time"] += r["time"]
                return q
        return r
    except Exception as e:
        return {"key": key, "scenario": sc, "variant": v, "status": "error", "note": "%s: %s" % (type(e).__name__, e), "time": 0, "outcomes": (0, 0),
                "queries": 0, "solver_time": 0, "inlined": [], "contracts": [], "externs": [], "loops": [], "obs": []}


def child(task, conn):
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        sys.setrecursionlimit(20000)
        conn.send(one(task))
    except BaseException as e:
        try:
            conn.send({"key": task[1], "scenario": task[2], "variant": task[0], "status": "error", "note": "%s: %s" % (type(e).__name__, e), "time": 0,
                       "outcomes": (0, 0), "queries": 0, "solver_time": 0, "inlined": [], "contracts": [], "externs": [], "loops": [], "obs": []})
        except Exception:
            pass
    conn.close()
    os._exit(0)


def tasks_for(variants, want, budget):
    out = []
    missing = []
    for v in variants:
        if v not in MODS:
            continue
        fs = check.functions(MODS[v])
        for key, con in specs.REG.items():
            if not want(key, con, v) or (v == "sc" and key in UNSPECIFIED_SCALAR):
                continue
            if key not in fs:
                missing.append((v, key))
                continue
            for sc in con.scenarios:
                out.append((v, key, sc, budget))
    out.sort(key=lambda t: -cost(t[1]))
    return out, missing


def run(tasks, jobs=None, deadline=None, progress=None):
    """verifies the tasks, each in a process of its own"""
    jobs = jobs or os.cpu_count() or 4
    todo = list(tasks)
    live = []
    res = []
    while todo or live:
        now = time.time()
        while todo and len(live) < jobs:
            t = todo.pop(0)
            if deadline is not None and now > deadline:
                res.append(lost(t, "timeout", "no time left in this run"))
                continue
            left = t[3] if deadline is None else min(t[3], max(5, deadline - now))
            a, b = mp.Pipe(False)
            p = mp.get_context("fork").Process(target=child, args=((t[0], t[1], t[2], left), b))
            p.start()
            b.close()
            live.append((p, a, t, now + left * 1.3 + 20))
        if not live:
            break
        mp.connection.wait([x[1] for x in live], timeout=1.0)
        nl = []
        for p, a, t, end in live:
            done = False
            if a.poll():
                try:
                    res.append(a.recv())
                except EOFError:
                    res.append(lost(t, "error", "the verifier process ended"))
                done = True
            elif not p.is_alive():
                res.append(lost(t, "error", "the verifier process ended"))
                done = True
            elif time.time() > end:
                p.kill()
                res.append(lost(t, "timeout", "killed after its time budget"))
                done = True
            if done:
                p.join(5)
                a.close()
                if progress:
                    progress(res[-1])
            else:
                nl.append((p, a, t, end))
        live = nl
    return res


def lost(t, status, note):
    return {"key": t[1], "scenario": t[2], "variant": t[0], "status": status, "note": note, "time": t[3], "outcomes": (0, 0), "queries": 0,
            "solver_time": 0, "inlined": [], "contracts": [], "externs": [], "loops": [], "obs": []}


if __name__ == "__main__":
    import json
    import re
    vs = sys.argv[1].split(",")
    pat = sys.argv[2] if len(sys.argv) > 2 else "."
    t0 = time.time()
    errs = load(vs)
    print(errs)
    ts, missing = tasks_for(vs, lambda k, c, v: re.search(pat, k), int(sys.argv[3]) if len(sys.argv) > 3 else 300)
    print(len(ts), "tasks", missing)
    tot = {}

    def show(r):
        st = {}
        for o in r["obs"]:
            st[o["status"]] = st.get(o["status"], 0) + 1
            tot[o["status"]] = tot.get(o["status"], 0) + 1
        bad = r["status"] != "ok" or set(st) - {"discharged"}
        if bad or r["time"] > 30:
            print("%-3s %-45s %-6s %s %s %.0fs q=%d %s" % (r["variant"], r["key"], r["scenario"], r["status"], st, r["time"], r["queries"], r["note"][:200]))
            for o in [o for o in r["obs"] if o["status"] != "discharged"][:8]:
                print("       ", o["status"], o["name"], o["where"][:150])
            sys.stdout.flush()
    rs = run(ts, progress=show)
    print(tot, "%.0fs wall, %.0fs cpu" % (time.time() - t0, sum(r["time"] for r in rs)))
    json.dump(rs, open("/tmp/w/last.json", "w"))
