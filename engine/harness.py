"""Runs the contract checks of one property: extracts the IR of /repo's current headers, verifies every target in its
own process, replays failures natively, writes the evidence file and prints the verdict."""
import hashlib, json, multiprocessing, os, re, resource, shutil, subprocess, sys, tempfile, time, traceback, importlib

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path[:0] = [HERE, os.path.join(VERIF, "specs")]
sys.setrecursionlimit(200000)

CLANG = "clang++"
IRFLAGS = ["-std=c++11", "-O0", "-Xclang", "-disable-O0-optnone", "-fno-discard-value-names", "-fno-threadsafe-statics",
           "-ffp-contract=off", "-g", "-S", "-emit-llvm", "-w"]


class Undecided(Exception):
    pass


class Build:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="cfgv.")
        self.mods = {}
        self.t = 0.0
        self.cmds = []

    def text(self, drv, defs=()):
        out = os.path.join(self.dir, drv + "".join(re.sub(r"\W", "_", d) for d in defs) + ".ll")
        cmd = [CLANG] + IRFLAGS + ["-I" + REPO + "/include"] + list(defs) + [os.path.join(VERIF, "driver", drv), "-o", out]
        t = time.time()
        p = subprocess.run(cmd, capture_output=True, text=True)
        self.t += time.time() - t
        self.cmds.append(" ".join(cmd))
        if p.returncode:
            raise Undecided("extraction failed: clang does not accept the instantiations of %s\n%s" % (drv, p.stderr[-3000:]))
        return open(out).read()

    def module(self, drv, defs=()):
        from llir import Module
        k = (drv, tuple(defs))
        if k not in self.mods:
            self.mods[k] = Module(self.text(drv, defs))
        return self.mods[k]

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


class Target:
    """one unit of verification: run(mod) -> Result"""

    def __init__(self, name, drv, run, helper=False, limit=400, defs=(), bounded=None):
        self.name, self.drv, self.run, self.helper, self.limit, self.defs, self.bounded = name, drv, run, helper, limit, defs, bounded


class Result:
    def __init__(self):
        self.obls = []          # dicts
        self.functions = []     # functions under contract
        self.inlined = []       # functions executed inside a target
        self.trusted = []
        self.contracts = []     # callee contracts used at call sites
        self.solver_time = 0.0
        self.queries = 0
        self.wall = 0.0
        self.error = None
        self.covers = {}
        self.paths = 0
        self.loops = []
        self.hints = []


def harvest(ex, functions, hint=None, lemmas=()):
    """Result of an Executor run"""
    r = Result()
    for o in ex.obls:
        d = dict(name=o.name, ok=bool(o.ok), status=o.status, fn=ex.mod.dem(o.fn) if o.fn else "", line=o.line, t=round(o.t or 0, 3),
                 backend=o.backend)
        if not o.ok:
            if o.model is not None:
                try:
                    d["model"] = str(o.model)[:4000]
                    if hint:
                        h = hint(ex, o.model)
                        if h:
                            r.hints.append(h)
                except Exception as e:      # a hint is only a hint
                    d["model"] = "(model not printable: %s)" % e
            d["trace"] = [str(x) for x in (o.trace or ())][-25:]
        r.obls.append(d)
    r.functions = list(functions)
    r.inlined = sorted(ex.mod.dem(n) for n in ex.inlined)
    for (lab, trusted), n in sorted(ex.used.items(), key=lambda x: str(x[0])):
        (r.trusted if trusted else r.contracts).append(str(lab))
    r.solver_time = ex.solver_time
    r.queries = ex.nqueries
    r.covers = {str(k): v for k, v in ex.covers.items()}
    r.paths = ex.paths
    r.loops = [str(x) for x in ex.loop_info]
    return r


def _child(t, mod, conn):
    t0 = time.time()
    try:
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
        r = t.run(mod)
    except Exception as e:
        r = Result()
        r.error = "%s: %s" % (type(e).__name__, e)
        if os.environ.get("VERIF_TB"):
            r.error += "\n" + traceback.format_exc()
    r.wall = time.time() - t0
    try:
        conn.send(r)
    except Exception as e:
        r2 = Result()
        r2.error = "result not transferable: %s" % e
        conn.send(r2)
    conn.close()
    os._exit(0)


def run_targets(targets, mods, jobs=None, deadline=None, only=None):
    jobs = jobs or min(8, os.cpu_count() or 4)
    ctx = multiprocessing.get_context("fork")
    todo = [t for t in targets if not only or re.search(only, t.name)]
    res, run = {}, []
    import gc
    gc.freeze()
    while todo or run:
        while todo and len(run) < jobs:
            t = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(t, mods[(t.drv, tuple(t.defs))], b))
            p.start()
            b.close()
            run.append((t, p, a, time.time()))
        time.sleep(0.01)
        keep = []
        for t, p, a, t0 in run:
            done = False
            try:
                if a.poll():
                    res[t.name] = a.recv()
                    done = True
            except EOFError:
                r = Result()
                r.error = "verifier process died (memory?)"
                res[t.name] = r
                done = True
            lim = t.limit if deadline is None else min(t.limit, max(1, deadline - t0))
            if not done and time.time() - t0 > lim:
                p.kill()
                r = Result()
                r.error = "time limit of %ds exceeded" % lim
                r.wall = time.time() - t0
                res[t.name] = r
                done = True
            if done:
                p.join()
                a.close()
            else:
                keep.append((t, p, a, t0))
        run = keep
    return res


def native(build, src, args=(), timeout=200, flags=("-O1",), stdin=None):
    """compile and run a native replay/bounded program -> (rc, stdout, stderr)"""
    out = os.path.join(build.dir, os.path.basename(src) + "." + hashlib.md5(" ".join(flags).encode()).hexdigest()[:6] + ".exe")
    if not os.path.exists(out):
        cmd = ["g++", "-std=c++14", "-w", *flags, "-I" + REPO + "/include", "-I" + os.path.join(VERIF, "replay"),
               os.path.join(VERIF, "replay", src), "-o", out]
        p = subprocess.run(cmd, capture_output=True, text=True)
        if p.returncode:
            return None, "", "replay does not compile: " + p.stderr[-2000:]
    d = tempfile.mkdtemp(prefix="run.", dir=build.dir)
    try:
        p = subprocess.run([out] + list(args), capture_output=True, timeout=timeout, cwd=d, input=stdin)
        return p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as e:
        return "timeout", (e.stdout or b"").decode("utf-8", "replace"), "timeout after %ds" % timeout
    finally:
        shutil.rmtree(d, ignore_errors=True)


def known_findings(prop):
    p = os.path.join(VERIF, "known-findings.jsonl")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith("#"):
                try:
                    d = json.loads(l)
                except ValueError:
                    continue
                if d.get("property") == prop and d.get("kind") == "known":
                    out.append(d)
    return out


def main(prop, tier, seed, only=None, verbose=False):
    t0 = time.time()
    spec = importlib.import_module(prop)
    b = Build()
    ok = True
    undecided = []
    res, targets = {}, []
    try:
        try:
            targets = spec.targets(tier)
            mods = {}
            for t in targets:
                mods[(t.drv, tuple(t.defs))] = b.module(t.drv, t.defs)
        except Undecided as e:
            undecided.append(str(e))
            targets = []
        except Exception as e:
            undecided.append("extraction: %s: %s" % (type(e).__name__, e))
            targets = []
        if targets:
            res = run_targets(targets, mods, only=only, deadline=t0 + getattr(spec, "BUDGET", 600))
        failed = []
        nob = nok = 0
        for t in targets:
            r = res.get(t.name)
            if r is None:
                continue
            if r.error:
                undecided.append("%s: %s" % (t.name, r.error))
            if not r.error and not r.obls:
                undecided.append("%s: no obligation was generated" % t.name)
            for o in r.obls:
                nob += 1
                if o["ok"]:
                    nok += 1
                else:
                    failed.append((t.name, o))
        st = sum(r.solver_time for r in res.values())
        if verbose:
            for t in targets:
                r = res.get(t.name)
                if r is None:
                    continue
                print("  %-50s %4d obligations %4d failed  %6.1fs (solver %.1fs) paths %d %s" % (
                    t.name, len(r.obls), sum(not o["ok"] for o in r.obls), r.wall, r.solver_time, r.paths, r.error or ""))
                seen = {}
                for o in r.obls:
                    if not o["ok"]:
                        k = (o["name"], o["line"], o["status"])
                        seen[k] = seen.get(k, 0) + 1
                for k, n in list(seen.items())[:12]:
                    print("      FAILED x%d %s (line %s, %s)" % (n, k[0], k[1], k[2]))
        ok = not failed and not undecided
        # bounded stand-ins and cross checks of the trusted contracts: real code, stated bound, never counted as proved
        rep = getattr(spec, "REPLAY", None)
        bounded = []
        replay_found = None
        hints = []
        for r in res.values():
            hints += r.hints
        if rep and not only:
            src, args = rep[0], list(rep[1]) if len(rep) > 1 else []
            n = 0
            rc, so, se = native(b, src, args + (["thorough"] if tier == "thorough" else ["quick"]) + [h for h in dict.fromkeys(hints)][:50],
                                timeout=getattr(spec, "REPLAY_TIMEOUT", 200), flags=getattr(spec, "REPLAY_FLAGS", ("-O1",)))
            m = re.search(r"^CASES (\d+)", so, re.M)
            bounded.append(dict(program="replay/" + src, cases=int(m.group(1)) if m else 0, rc=rc,
                                bound=getattr(spec, "REPLAY_BOUND", "")))
            fails = re.findall(r"^FAIL (.*)$", so, re.M)
            if rc is None:
                bounded[-1]["error"] = se[:500]
                undecided.append(se)
                ok = False
            elif rc != 0 or fails:
                ok = False
                replay_found = (fails, rc, se)
        kf = []
        # ---------------------------------------------------------------- evidence
        fns, inl, tru, cons = [], set(), set(), set()
        for t in targets:
            r = res.get(t.name)
            if r:
                fns += [f for f in r.functions if f not in fns]
                inl |= set(r.inlined)
                tru |= set(r.trusted)
                cons |= set(r.contracts)
        slow = sorted(((o["t"], t.name, o["name"]) for t in targets if t.name in res for o in res[t.name].obls), reverse=True)[:5]
        kinds = {}
        for r in res.values():
            for o in r.obls:
                kinds[o["backend"]] = kinds.get(o["backend"], 0) + 1
        cov = dict(obligations=nob, discharged=nok,
                   checker_cmd="python3-vt check.py %s --tier %s" % (prop, tier),
                   trusted_base=sorted(tru) + getattr(spec, "TRUSTED", []) + GENERAL_TRUST,
                   functions_under_contract=fns, functions_inlined=sorted(inl), callee_contracts_used=sorted(cons),
                   obligations_by_backend=kinds, solver_time_s=round(st, 2), solver_queries=sum(r.queries for r in res.values()),
                   targets={t.name: dict(obligations=len(res[t.name].obls), wall_s=round(res[t.name].wall, 1), exits=res[t.name].covers,
                                         loops=res[t.name].loops) for t in targets if t.name in res},
                   slowest=[dict(t=a, target=x, obligation=y) for a, x, y in slow],
                   bounded_native_cross_check=bounded, not_proved=getattr(spec, "NOT_PROVED", []),
                   extraction=dict(commands=b.cmds, wall_s=round(b.t, 1),
                                   drops="nothing of /repo's code: the whole translation unit is compiled to LLVM IR; only the "
                                         "instantiations named in driver/ exist"),
                   failed=[dict(target=a, **o) for a, o in failed][:40], undecided=undecided)
        ev = dict(property=prop, tier=tier, seed=seed, level=getattr(spec, "LEVEL", "proof"), coverage=cov,
                  assumptions=getattr(spec, "ASSUMPTIONS", []) + GENERAL_ASSUMPTIONS, wall_s=round(time.time() - t0, 2),
                  violations=0 if ok else max(1, len(failed)))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        if not only:
            json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
        for k in known_findings(prop):
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
        print("%s: %d obligations, %d discharged, %d targets, %.1fs (solver %.1fs)" % (prop, nob, nok, len(res), time.time() - t0, st))
        if ok:
            return 0
        rp = os.path.join("evidence", prop + ".replay.txt")
        with open(os.path.join(VERIF, rp), "w") as f:
            f.write("property %s\n" % prop)
            if replay_found:
                f.write("\nFAILING INPUT on the real code (replay program /verif/replay/%s, exit %s):\n" % (rep[0], replay_found[1]))
                for x in replay_found[0][:40]:
                    f.write("  " + x + "\n")
                f.write(replay_found[2][-1500:] + "\n")
            for u in undecided:
                f.write("\nUNDECIDED (obligations could not be generated or discharged): %s\n" % u)
            for a, o in failed[:60]:
                f.write("\nFAILED OBLIGATION: %s\n  target %s, function %s, line %s, %s by %s\n" % (
                    o["name"], a, o["fn"], o["line"], o["status"], o["backend"]))
                if o.get("model"):
                    f.write("  counterexample: %s\n" % o["model"].replace("\n", "\n    "))
        if verbose:
            print(open(os.path.join(VERIF, rp)).read()[:3000])
        for a, o in failed[:5]:
            print("failed obligation: %s (%s)" % (o["name"], a))
        for u in undecided[:5]:
            print("undecided: " + u[:300])
        if replay_found:
            for x in replay_found[0][:3]:
                print("failing input: " + x)
            print("VIOLATION property=%s replay=%s" % (prop, rp))
        else:
            print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, rp))
        return 1
    finally:
        b.close()


GENERAL_TRUST = ["clang 18 front end (C++ to LLVM IR at -O0)", "the verification-condition generator in /verif/engine",
                 "z3 (SMT back end)"]
GENERAL_ASSUMPTIONS = [
    "memory allocation succeeds (std::bad_alloc is not modelled)",
    "the library is used from one thread",
    "x86-64 Linux, libstdc++ type layouts as compiled by clang 18"]
