#!/opt/veriftools/pyvenv/bin/python3
"""check.py PROPERTY [--tier quick|thorough] [--replay CASE]

Decides one property of /repo's current working tree:

1. clang parses the current sources; the functions the property is stated
   over, and every function they rest on, are verified against their contracts
   (dv/), together with the lemmas that turn contracts into the property;
2. the real code, built from the current sources with sanitizers, is run
   against an independent oracle (replay/harness.cpp): briefly when every
   obligation is discharged, at length when one is not, to find an input.

exit 0: held; exit 1 with a VIOLATION line: broken (see DESIGN.md).
"""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time
import traceback

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "dv"))
REPO = os.environ.get("VERIF_REPO", "/repo")
NPROC = max(2, min(8, os.cpu_count() or 2))
T0 = time.time()

import props                      # noqa: E402
import frontend                   # noqa: E402
import interp as ip               # noqa: E402
import specs                      # noqa: E402
import verify                     # noqa: E402
import lemmas                     # noqa: E402
import prover                     # noqa: E402


def say(*a):
    print("[%5.1fs]" % (time.time() - T0), *a, flush=True)


# ------------------------------------------------------------ the real code
class Harness:
    FLAGS = ["-std=c++17", "-O1", "-g1", "-fsanitize=address,undefined",
             "-fno-sanitize-recover=undefined", "-D_GLIBCXX_ASSERTIONS",
             "-w", "-I" + REPO + "/include"]

    def __init__(self, prop, scratch, builder=False):
        self.prop, self.dir = prop, scratch
        self.exe = os.path.join(scratch, "harness")
        self.error = None
        self.lits = ""
        if not builder:
            self.proc = subprocess.Popen(
                [sys.executable, os.path.abspath(__file__), "--build", prop,
                 scratch], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)

    def wait(self):
        if self.proc is not None:
            out = self.proc.communicate()[0].decode("utf-8", "replace")
            if self.proc.returncode:
                self.error = "the harness was not built: " + out[-1500:]
            self.proc = None

    def build(self):
        lib = os.path.join(REPO, "lib")
        jobs, objs = [], []
        for f in sorted(os.listdir(lib)):
            if not f.endswith(".cpp") or f in ("compile_cl.cpp",
                                               "gpu_csp.cpp"):
                continue
            if f == "main.cpp":
                if self.prop != "C19":
                    continue
                x = ["-Dmain=sp_main"]
            else:
                x = frontend.OPENMP if self.prop == "C20" else []
            o = os.path.join(self.dir, f[:-4] + ".o")
            objs.append(o)
            jobs.append(["g++"] + self.FLAGS + x +
                        ["-c", os.path.join(lib, f), "-o", o])
        o = os.path.join(self.dir, "harness.o")
        objs.append(o)
        jobs.insert(0, ["g++"] + self.FLAGS +
                    (["-DWITH_MAIN"] if self.prop == "C19" else []) +
                    ["-DONLY_" + self.prop, "-c",
                     os.path.join(ROOT, "replay", "harness.cpp"), "-o", o])
        ps = [subprocess.Popen(j, stdout=subprocess.DEVNULL,
                               stderr=subprocess.PIPE) for j in jobs]
        err = ""
        for p in ps:
            e = p.communicate()[1]
            if p.returncode:
                err += e.decode("utf-8", "replace")
        if err:
            raise RuntimeError("does not compile: " + err[:1500])
        p = subprocess.run(
            ["g++", "-fsanitize=address,undefined"] + objs +
            (["-lboost_program_options"] if self.prop == "C19" else []) +
            ["-o", self.exe], stderr=subprocess.PIPE)
        if p.returncode:
            raise RuntimeError("does not link: " +
                               p.stderr.decode("utf-8", "replace")[:1500])

    def env(self):
        e = dict(os.environ)
        e["LITERALS"] = self.lits
        e["ASAN_OPTIONS"] = "detect_leaks=0:allocator_may_return_null=0:" \
            "max_allocation_size_mb=6000"
        e["UBSAN_OPTIONS"] = "print_stacktrace=1"
        return e

    def crashed(self, k):
        """number of the case that was running"""
        try:
            with open(os.path.join(self.dir, "case%d" % k), "rb") as f:
                return int.from_bytes(f.read(8), "little")
        except OSError:
            return None

    def search(self, seed, secs, procs):
        """-> (failure dict or None, statistics)"""
        self.wait()
        st = dict(executed=0, interesting=0, distinct=0, seconds=secs,
                  processes=procs)
        if self.error:
            st["error"] = self.error
            return None, st
        ps = []
        for k in range(procs):
            out = open(os.path.join(self.dir, "out%d" % k), "w+b")
            ps.append((subprocess.Popen(
                [self.exe, self.prop, str(seed * 1000 + k),
                 str(int(secs * 1000)), "case%d" % k], stdout=out,
                stderr=subprocess.STDOUT, env=self.env(), cwd=self.dir,
                start_new_session=True), out))
        fail = None
        end = time.time() + secs + 90
        todo = list(ps)
        while todo:
            for x in list(todo):
                p, out = x
                hung = time.time() > end
                if p.poll() is None and not hung and not fail:
                    continue
                if p.poll() is None:
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except OSError:
                        pass
                    p.wait()
                todo.remove(x)
                out.seek(0)
                t = out.read().decode("utf-8", "replace")
                out.close()
                m = re.search(r"^DONE executed=(\d+) interesting=(\d+) "
                              r"distinct=(\d+)", t, re.M)
                if m:
                    st["executed"] += int(m.group(1))
                    st["interesting"] += int(m.group(2))
                    st["distinct"] += int(m.group(3))
                f = re.search(r"^FAIL case=(\d+) (.*)$", t, re.M)
                if f and not fail:
                    fail = dict(case=int(f.group(1)), what=f.group(2),
                                text=t[f.start():f.start() + 20000])
                elif p.returncode not in (0, -9) and not fail:
                    fail = dict(case=self.crashed(ps.index(x)),
                                what="the process ended with %s"
                                % p.returncode, text=t[-20000:])
            time.sleep(0.05)
        return fail, st


# ------------------------------------------------------------- the contracts
class Prover:
    def __init__(self, prog, hints):
        self.prog, self.hints = prog, hints
        self.done = {}            # (fn, case) -> summary

    def units(self, names):
        out = []
        for n in names:
            cs = specs.CONTRACTS[n].cases
            omp = [c for c in cs if c in specs.OMP_CASES]
            if omp and self.prog.openmp:
                cs = omp
            out += [(n, c) for c in cs if c not in specs.OMP_CASES or c in omp
                    and self.prog.openmp]
        return out

    def retry(self, units, budget, limit, most=6):
        """failed obligations again, one solver configuration per child"""
        tasks = []
        for u in units:
            m = self.done[u]
            if m["unsupported"] or m["incomplete"]:
                continue
            bad = [x[0] for x in m["obs"] if x[4] != "unsat"]
            if len(bad) > most:
                continue
            tasks += [(u[0], u[1], i, st, m["houdini"]) for i in bad
                      for st in range(prover.STEPS)]
        # the cheap configurations of all obligations first
        tasks.sort(key=lambda t: t[3])

        def work(t):
            ip.JOBS = 1
            hk = t[0] + (":" + t[1] if t[1] else "")
            r = verify.gen(self.prog, t[0], t[1],
                           hints=self.hints.get(hk, {}))
            fs = verify.smt(r.I, r.obs[t[2]])
            if fs is None:
                return ["unsat", "simplifier", 0.0]
            return list(prover.decide_fs(fs, budget, step=t[3]))
        tasks = [t for t in tasks if not t[4]]
        res = fork_map(work, tasks, NPROC, limit)
        for t, r in zip(tasks, res):
            if isinstance(r, list) and r[0] == "unsat":
                m = self.done[(t[0], t[1])]
                m["obs"] = [x if x[0] != t[2] else tuple(x[:4]) + tuple(r)
                            for x in m["obs"]]

    def one(self, name, case, hinted, k, K, budget, jobs):
        """in a child: generate, discharge every K-th obligation"""
        ip.JOBS = jobs
        hk = name + (":" + case if case else "")
        t = time.time()
        r = verify.gen(self.prog, name, case,
                       hints=self.hints.get(hk, {}) if hinted else None)
        gen = time.time() - t
        out, bad = [], 0
        for i, o in enumerate(r.obs):
            if i % K != k:
                continue
            fs = verify.smt(r.I, o)
            if fs is None:
                s = ("unsat", "simplifier", 0.0)
            else:
                s = prover.decide_fs(fs, budget if bad < 3 else budget / 4)
            bad += s[0] != "unsat"
            out.append((i, o.kind, o.desc, o.line) + tuple(s))
        vac = None
        if k == 0 and not r.unsupported and getattr(r, "smoke", None):
            vac = True
            for fs in r.smoke:
                s, _ = prover.run_z3(fs + r.I.axioms.relevant(fs), 1500)
                if s != "unsat":
                    vac = False
                    break
        return dict(fn=name, case=case, obs=out, n=len(r.obs),
                    unsupported=r.unsupported, called=sorted(r.called),
                    inlined=sorted(r.inlined), trusted=sorted(r.trusted),
                    gen=gen, vacuous=vac, file=r.file,
                    loops=len(r.loops), houdini=not hinted,
                    realops=r.I.realops, exact=not ip.ROUNDED[0])

    def run(self, units, hinted=True, budget=1, jobs=1, par=NPROC, limit=600):
        """verify units in forked children; merges into self.done"""
        tasks = []
        for n, c in units:
            K = SPLIT.get(n.split("::")[-1], 1) if hinted else 1
            tasks += [(n, c, k, K) for k in range(K)]
        res = fork_map(lambda t: self.one(t[0], t[1], hinted, t[2], t[3],
                                          budget, jobs), tasks, par, limit)
        by = {}
        for t, r in zip(tasks, res):
            by.setdefault((t[0], t[1]), []).append(r)
        for u, rs in by.items():
            bad = [r for r in rs if not isinstance(r, dict)]
            if bad:
                self.done[u] = dict(fn=u[0], case=u[1], obs=[], n=0,
                                    unsupported=None, called=[], inlined=[],
                                    trusted=[], gen=0, vacuous=None, file="",
                                    loops=0, houdini=not hinted,
                                    realops=False, exact=False,
                                    incomplete=str(bad[0]))
                continue
            m = dict(rs[0])
            m["obs"] = sorted(x for r in rs for x in r["obs"])
            m["vacuous"] = next((r["vacuous"] for r in rs
                                 if r["vacuous"] is not None), None)
            m["gen"] = sum(r["gen"] for r in rs)
            m["incomplete"] = None
            if not m["unsupported"] and len(m["obs"]) != m["n"]:
                m["incomplete"] = "obligations are missing"
            self.done[u] = m

    def failed(self, u):
        m = self.done[u]
        if m["incomplete"]:
            return [("incomplete", m["incomplete"], 0, "unknown")]
        if m["unsupported"]:
            return [("unsupported", m["unsupported"], 0, "unknown")]
        f = [(x[1], x[2], x[3], x[4]) for x in m["obs"] if x[4] != "unsat"]
        if m["vacuous"]:
            f.append(("vacuity", "no path reaches the end of the function", 0,
                      "unsat"))
        return f

    def closure(self, own):
        """contracts the functions in `own` rest on, transitively"""
        seen, todo = set(own), list(own)
        while todo:
            n = todo.pop()
            for c in CALLS.get(n, ()):
                if c in specs.CONTRACTS and c not in seen:
                    seen.add(c)
                    todo.append(c)
        return seen


# obligations of these functions are shared among several processes
SPLIT = {"build_disparity_map": 2, "choose_best_node": 4,
         "csp_solution_iteration": 2, "should_remove_node": 3,
         "fetch_available_penalties": 4, "node_penalty": 2,
         "fetch_pixel_available_penalties": 2,
         "fetch_edge_available_penalties": 2, "LowestPenalties": 4,
         "calculate_lowest_neighborhood_penalty_fast": 2}
CALLS = {}


def fork_map(f, tasks, par, limit):
    """results of f over tasks, each in a forked child"""
    res = [None] * len(tasks)
    todo = list(range(len(tasks)))
    run = {}
    end = time.time() + limit
    import select
    while todo or run:
        while todo and len(run) < par and time.time() < end:
            i = todo.pop(0)
            rd, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.setpgid(0, 0)
                    os.close(rd)
                    out = f(tasks[i])
                    with os.fdopen(w, "w") as h:
                        json.dump(out, h)
                    code = 0
                except BaseException:
                    try:
                        with os.fdopen(w, "w") as h:
                            json.dump("internal error: " +
                                      traceback.format_exc()[-1500:], h)
                    except BaseException:
                        pass
                finally:
                    os._exit(code)
            os.close(w)
            run[rd] = [i, pid, b""]
        if not run:
            break
        r, _, _ = select.select(list(run), [], [],
                                max(0.0, min(1.0, end - time.time())))
        for rd in r:
            b = os.read(rd, 1 << 16)
            if b:
                run[rd][2] += b
                continue
            i, pid, buf = run.pop(rd)
            os.close(rd)
            os.waitpid(pid, 0)
            try:
                res[i] = json.loads(buf.decode())
            except ValueError:
                res[i] = "the process ended without a result"
        if time.time() >= end:
            for rd, (i, pid, buf) in list(run.items()):
                for k in (lambda: os.killpg(pid, signal.SIGKILL),
                          lambda: os.kill(pid, signal.SIGKILL)):
                    try:
                        k()
                    except OSError:
                        pass
                os.close(rd)
                os.waitpid(pid, 0)
                res[i] = "out of time"
            run.clear()
            for i in todo:
                res[i] = "out of time"
            todo = []
    return res


def find_literals(prog):
    """integer literals of the code under test: sizes worth trying"""
    out = set()

    def walk(n):
        if not isinstance(n, dict):
            return
        k = n.get("kind")
        if k in ("IntegerLiteral", "CharacterLiteral"):
            try:
                out.add(int(n.get("value")))
            except (TypeError, ValueError):
                pass
        elif k == "FloatingLiteral":
            try:
                v = float(n.get("value"))
                if v == int(v):
                    out.add(int(v))
            except (TypeError, ValueError, OverflowError):
                pass
        for c in n.get("inner", []) or []:
            walk(c)
    for f in prog.funcs.values():
        if "/usr/" not in (f.get("_file") or ""):
            walk(f)
    return {v for v in out if 0 <= v < 2 ** 64}


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    if "--build" in sys.argv:
        Harness(args[0], args[1], builder=True).build()
        return
    pid = args[0]
    P = props.PROPS[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(re.sub(r"\D", "", os.environ.get("VERIF_SEED", "1")) or 1)
    scratch = tempfile.mkdtemp(prefix="sp_check_")
    try:
        if "--replay" in sys.argv:
            h = Harness(pid, scratch)
            h.wait()
            if h.error:
                sys.exit(h.error)
            sys.exit(subprocess.run(
                [h.exe, pid, "--case",
                 sys.argv[sys.argv.index("--replay") + 1]],
                env=h.env(), cwd=scratch).returncode)
        rc = decide(pid, P, tier, seed, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def decide(pid, P, tier, seed, scratch):
    thorough = tier == "thorough"
    H = Harness(pid, scratch)
    notes, fails = [], []
    prog = None
    hints = json.load(open(os.path.join(ROOT, "dv", "hints.json")))
    CALLS.update(json.load(open(os.path.join(ROOT, "dv", "calls.json"))))
    pr = lres = None
    own, deps = [], []
    try:
        prog = frontend.Program(extra=("main",) if pid == "C19" else (),
                                openmp=pid == "C20")
    except Exception as e:
        notes.append("the sources cannot be parsed: %s" % e)
    if prog is not None:
        base = set(json.load(open(os.path.join(ROOT, "dv",
                                               "literals.json"))))
        lits = find_literals(prog)
        H.lits = " ".join(str(v) for v in
                          sorted(v for v in lits if v > 4) +
                          sorted(lits - base) * 4)
        pr = Prover(prog, hints)
        own = [n for n in P["own"] if n in specs.CONTRACTS]
        deps = sorted(pr.closure(own + P.get("also", [])) - set(own))
        units = pr.units(sorted(own + deps, key=lambda n: -SPLIT.get(
            n.split("::")[-1], 0)))
        say("%d functions under contract for %s (%d it is stated over)" % (
            len(own) + len(deps), pid, len(own)))
        pr.run(units, limit=240)
        # callees that are not in the recorded call graph
        for _ in range(5):
            more = set()
            for u in list(pr.done):
                for c in pr.done[u]["called"]:
                    if c in specs.CONTRACTS and not any(
                            v[0] == c for v in pr.done):
                        more.add(c)
            if not more:
                break
            deps += sorted(more)
            pr.run(pr.units(sorted(more)), limit=100)
        lres = None if not own else fork_map(lambda _: lemma_check(prog, P), [0], 1, 90)[0]
    own_bad = lambda: [u for u in sorted(pr.done, key=str) if u[0] in own and  # noqa
                       relevant(P, pr.failed(u))] if pr else []
    dep_bad = lambda: [u for u in sorted(pr.done, key=str)      # noqa
                       if u[0] not in own and pr.failed(u)] if pr else []
    any_bad = lambda: bool(own_bad() or dep_bad() or notes)     # noqa
    secs = 30 if thorough else 8
    if P.get("bounded"):
        secs = 240 if thorough else 30
    elif P.get("search"):
        secs = 120 if thorough else P["search"]
    fail, st = H.search(seed, secs, NPROC)
    say("real code: %s" % st)
    if fail is None and any_bad():
        if pr is not None:
            bad = [u for u in pr.done if pr.failed(u)]
            say("second attempt:", ", ".join(
                u[0].split("::")[-1] for u in bad))
            pr.retry(bad, 3, 120)
        if any_bad():
            more = 120 if thorough else 45
            fail, st2 = H.search(seed + 1, more, NPROC)
            for k in ("executed", "interesting", "distinct", "seconds"):
                st[k] += st2[k]
            say("real code, at length: %s" % st2)
    if fail is None and any_bad() and pr is not None:
        for u in own_bad() + dep_bad():
            for f in pr.failed(u)[:4]:
                say("not discharged:", u[0], u[1] or "", *f)
        # differences that are computed in another way: without rounding
        for u in [u for u in own_bad() + dep_bad()
                  if pr.done[u]["realops"] and T0 + 600 > time.time()]:
            keep = pr.done[u]
            ip.ROUNDED[0] = False
            pr.run([u], limit=80)
            ip.ROUNDED[0] = True
            if pr.failed(u):
                pr.done[u] = keep
            else:
                notes.append("%s: discharged with exact arithmetic on "
                             "doubles only" % u[0])
        # the recorded invariants may not fit a rewritten loop: look for
        # invariants again, from scratch
        todo = [u for u in own_bad() + dep_bad()
                if not pr.done[u]["unsupported"] and
                (pr.done[u]["loops"] or pr.done[u]["incomplete"])]
        for u in todo:
            left = 700 - (time.time() - T0) if not thorough else 3000
            if left < 60:
                notes.append("no time to look for invariants of %s" % u[0])
                continue
            say("looking for invariants:", u[0], u[1] or "")
            keep = pr.done[u]
            pr.run([u], hinted=False, jobs=NPROC, par=1, limit=min(
                left, 330 if not thorough else 1500))
            if pr.done[u]["incomplete"]:
                pr.done[u] = keep
                notes.append("looking for invariants of %s ran out of time"
                             % u[0])
    ob, db = own_bad(), dep_bad()
    lem_bad = lres is not None and (isinstance(lres, str) or lres["bad"])
    # ------------------------------------------------------------- verdict
    violation = None
    if fail is not None:
        violation = ("input", fail)
    elif pr is not None:
        hard = [u for u in ob if not (pr.done[u]["unsupported"] or
                                     pr.done[u]["incomplete"])]
        if hard:
            violation = ("obligation", hard)
    rp = None
    if violation:
        rp = write_replay(pid, P, violation, pr, st)
    total = sum(m["n"] for m in pr.done.values()) if pr else 0
    good = sum(1 for m in pr.done.values() for x in m["obs"]
               if x[4] == "unsat") if pr else 0
    lt = lg = 0
    if isinstance(lres, dict):
        lt, lg = lres["n"], lres["n"] - len(lres["bad"])
    write_evidence(pid, P, tier, seed, pr, own, deps, lres, st, notes, ob, db,
                   total + lt, good + lg, violation)
    for n in notes:
        say("note:", n)
    if db and not violation:
        for u in db:
            say("the contract of %s, which %s rests on, was not established; "
                "no failing input for %s: bounded on this tree" % (
                    u[0], pid, pid))
    for u in ob:
        if pr.done[u]["unsupported"] and not violation:
            say("%s is outside the verifier's reach (%s): bounded on this "
                "tree" % (u[0], pr.done[u]["unsupported"]))
    say("%s: %d of %d obligations discharged" % (pid, good + lg, total + lt))
    if lem_bad and not violation:
        say("lemmas not discharged:", lres if isinstance(lres, str)
            else lres["bad"])
    if violation:
        if violation[0] == "input":
            say("failing input:", fail["what"])
            print("VIOLATION property=%s replay=%s" % (pid, rp), flush=True)
        else:
            for u in violation[1]:
                for f in relevant(P, pr.failed(u))[:6]:
                    say("failed obligation:", u[0], u[1] or "", *f)
            print("VIOLATION property=%s replay=%s no-failing-input-found" % (
                pid, rp), flush=True)
        return 1
    return 0


def relevant(P, fs):
    """failed obligations of an own function that bear on this property"""
    drop, only = P.get("drop"), P.get("only")
    out = []
    for f in fs:
        if f[0] in ("unsupported", "incomplete", "vacuity"):
            out.append(f)
            continue
        t = f[0] + ": " + f[1]
        if drop and re.search(drop, t):
            continue
        if only and not re.search(only, t):
            continue
        out.append(f)
    return out


def lemma_check(prog, P):
    t = time.time()
    L, obs, out, missing = lemmas.check(prog, 4, 1)
    bad = [o.desc for o, x in zip(obs, out) if x[0] != "unsat"] + [
        "no lemma for axiom " + m for m in missing]
    be = {}
    for x in out:
        be[x[1]] = be.get(x[1], 0) + 1
    return dict(n=len(obs), bad=bad, backends=be, secs=time.time() - t,
                solver=sum(x[2] for x in out))


def write_replay(pid, P, v, pr, st):
    d = os.path.join(ROOT, "out")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-replay.txt" % pid)
    with open(p, "w") as f:
        f.write("property %s: %s\n" % (pid, P["title"]))
        if v[0] == "input":
            f.write("\nThe real code fails on this input. Run it again with\n"
                    "  /verif/check.py %s --replay %s\n\n%s\n" % (
                        pid, v[1]["case"], v[1]["text"]))
        bad = [u for u in (pr.done if pr else {}) if pr.failed(u)]
        f.write("\nobligations that are not discharged:\n")
        for u in bad:
            for k, d_, line, s in pr.failed(u):
                f.write("  %s%s  %s: %s (line %s of lib/%s.cpp): solver "
                        "answered %s\n" % (u[0], " [%s]" % u[1] if u[1]
                                           else "", k, d_, line,
                                           pr.done[u]["file"], s))
        if v[0] == "obligation":
            f.write("\nNo failing input was found: %s\n" % st)
    return p


def write_evidence(pid, P, tier, seed, pr, own, deps, lres, st, notes, ob, db,
                   total, good, violation):
    fns, be, solver = [], {}, 0.0
    if pr:
        for u, m in sorted(pr.done.items(), key=str):
            s = sum(x[6] for x in m["obs"])
            solver += s
            for x in m["obs"]:
                if x[4] == "unsat":
                    be[x[5]] = be.get(x[5], 0) + 1
            fns.append(dict(
                function=u[0], case=u[1], file="lib/%s.cpp" % m["file"],
                role="stated over" if u[0] in own else "rests on",
                obligations=m["n"], discharged=sum(
                    1 for x in m["obs"] if x[4] == "unsat"),
                inlined=m["inlined"], modelled=m["trusted"],
                invariants="inferred on this run" if m["houdini"] else
                "recorded candidates, re-verified",
                doubles="no arithmetic" if not m["realops"] else
                "exact" if m["exact"] else "differences rounded in an "
                "arbitrary way (anything exact is named in modelled)",
                vacuous=m["vacuous"], solver_s=round(s, 2),
                not_covered=m["unsupported"] or m["incomplete"]))
    cov = dict(
        obligations=total, discharged=good,
        checker_cmd="./check.py %s" % pid,
        trusted_base=props.TRUSTED + P.get("trusted", []),
        functions_under_contract=fns, backends=be,
        solver_s=round(solver, 2),
        lemmas=lres if isinstance(lres, dict) else dict(error=str(lres)),
        concrete_search=dict(
            st, rule="random problems against an oracle written from the "
            "property; executed, interesting (the property's condition "
            "applied) and distinct inputs as counted by the harness",
            label="bounded: never counted as proved"),
        bounded=P.get("bounded", ""), notes=notes,
        not_established=[dict(function=u[0], failed=pr.failed(u)[:10])
                         for u in ob + db] if pr else [])
    level = P.get("level", "proof")
    if level != "proof":
        cov["evaluations"] = st["executed"]
        cov["distinct_nontrivial"] = min(st["distinct"], st["executed"])
        cov["rule"] = cov["concrete_search"]["rule"]
        cov["samples"] = [st]
        cov["explanation"] = "bounded check: " + P["bounded"]
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=props.ASSUMPTIONS + P.get("assume", []),
              wall_s=round(time.time() - T0, 1),
              violations=1 if violation else 0)
    d = os.path.join(ROOT, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)


if __name__ == "__main__":
    main()
