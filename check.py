#!/usr/bin/env python3
"""check.py PROPERTY: decides one property from /repo's current source.  Exit 0: every decided
obligation holds (or is a listed finding); 1: a violation, with a VIOLATION line; 2: no verdict
(the tree does not build, or most obligations could not be decided)."""
import ctypes, importlib, json, os, re, resource, sys, threading, time, traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "engine"))
sys.path.insert(0, os.path.join(VERIF, "checks"))
sys.setrecursionlimit(1000000)


def main():
    resource.setrlimit(resource.RLIMIT_AS, (14 << 30, 14 << 30))
    threading.stack_size(1 << 29)
    out = []
    t = threading.Thread(target=lambda: out.append(main_()))
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(out[0] if out else 2)


class TimeUp(BaseException):
    pass


class Deadline:
    """raises TimeUp in the current thread after a number of seconds"""

    def __init__(self, secs):
        self.tid = threading.get_ident()
        self.timer = threading.Timer(secs, self.fire)
        self.lock = threading.Lock()
        self.done = False

    def fire(self):
        with self.lock:
            if not self.done:
                ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(self.tid), ctypes.py_object(TimeUp))

    def __enter__(self):
        self.timer.daemon = True
        self.timer.start()

    def __exit__(self, *a):
        with self.lock:
            self.done = True
        self.timer.cancel()


class Ctx:
    def ob_limit(self):
        return 20000 if self.thorough() else 300

    def total_limit(self):
        return 40000 if self.thorough() else 720

    def __init__(self, prop, tier):
        self.t0 = time.time()
        self.prop = prop
        self.tier = tier
        self.results = []       # (unit, rule, status, detail, seconds)
        self.notes = []
        self.assumptions = []
        self.trusted = ["rustc nightly MIR construction and monomorphisation",
                        "driver/main.rs (MIR serialiser)", "engine/*.py (abstract interpreter)",
                        "engine/models.py (models of std functions)"]
        self.analysed = {}
        self._prog = None

    @property
    def prog(self):
        if self._prog is None:
            from extract import extract
            from prog import Program
            self.dump = extract()
            self._prog = Program(self.dump)
        return self._prog

    def thorough(self):
        return self.tier == "thorough"

    def ob(self, unit, rule, thunk):
        """one obligation: thunk returns None when it holds, or a description of the violation"""
        from prog import Unsupported, NonTerminating
        t = time.time()
        only = os.environ.get("VERIF_ONLY")
        if only and not re.search(only, "%s [%s]" % (unit, rule)):
            return None
        limit = min(self.ob_limit(), self.t0 + self.total_limit() - t)
        try:
            if limit < 1:
                raise Unsupported("time budget of the check is used up")
            with Deadline(limit):
                r = thunk()
            st, d = ("ok", "") if r is None else ("violation", str(r))
        except TimeUp:
            st, d = "undecided", "not decided within %d s" % limit
        except MemoryError:
            st, d = "undecided", "memory limit"
        except NonTerminating as e:
            st, d = "violation", str(e)
        except Unsupported as e:
            if os.environ.get("VERIF_TRACE"):
                traceback.print_exc()
            st, d = "undecided", str(e)
        except RecursionError:
            st, d = "undecided", "recursion limit"
        except AssertionError as e:
            st, d = "undecided", "assertion %s" % traceback.format_exc().splitlines()[-3:]
        except Exception as e:
            if os.environ.get("VERIF_TRACE"):
                traceback.print_exc()
            st, d = "undecided", "%s: %s at %s" % (type(e).__name__, e, traceback.format_exc().splitlines()[-3].strip())
        self.results.append((unit, rule, st, d, time.time() - t))
        if os.environ.get("VERIF_V"):
            print("%-10s %6.2fs %s [%s] %s" % (st, time.time() - t, unit, rule, d[:600]), flush=True)
        return st

    def used(self, interp):
        for k, v in interp.called.items():
            self.analysed[k] = self.analysed.get(k, 0) + v


def known_findings(prop):
    res = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.rstrip("\n")
            if l.startswith("known: property=%s " % prop):
                rest = l[len("known: property=%s " % prop):]
                unit, _, what = rest.partition(" :: ")
                unit, _, sub = unit.partition(" ~~ ")
                res[unit.strip()] = (sub.strip(), what)
    return res


def main_():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if "--thorough" in sys.argv:
        tier = "thorough"
    t0 = time.time()
    ctx = Ctx(prop, tier)
    from extract import BuildError
    try:
        mod = importlib.import_module(prop.lower())
        ctx.prog
        mod.run(ctx)
    except BuildError as e:
        print("NO VERDICT property=%s: the tree does not build for analysis\n%s" % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("NO VERDICT property=%s: internal error" % prop)
        return 2
    known = known_findings(prop)
    nob = len(ctx.results)
    ok = [r for r in ctx.results if r[2] == "ok"]
    und = [r for r in ctx.results if r[2] == "undecided"]
    vio = [r for r in ctx.results if r[2] == "violation"]
    listed = lambda r: r[0] in known and known[r[0]][0] in r[3]
    new = [r for r in vio if not listed(r)]
    old = [r for r in vio if listed(r)]
    repo_fns = sorted(k for k in ctx.analysed)
    print("property %s: %d obligations, %d discharged, %d violated (%d listed), %d undecided; "
          "%d functions analysed" % (prop, nob, len(ok), len(vio), len(old), len(und), len(repo_fns)))
    for r in und:
        print("UNDECIDED property=%s %s [%s]: %s" % (prop, r[0], r[1], r[3][:300]))
    for r in old:
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, r[0], known[r[0]][1]))
    rdir = os.path.join(VERIF, "evidence", "replay")
    rc = 0
    if new:
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s.json" % prop)
        with open(path, "w") as f:
            json.dump({"property": prop, "violations": [
                {"unit": r[0], "rule": r[1], "detail": r[3]} for r in new],
                "command": "cd /verif && python3 check.py %s" % prop}, f, indent=1)
        for r in new[:20]:
            print("  %s [%s]: %s" % (r[0], r[1], r[3][:800]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        rc = 1
    elif nob == 0 or len(ok) + len(old) < max(1, getattr(mod, "FLOOR", nob) // 2):
        print("NO VERDICT property=%s: only %d obligations decided" % (prop, len(ok)))
        rc = 2
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": getattr(mod, "LEVEL", "proof"),
        "coverage": {
            "obligations": nob, "discharged": len(ok), "undecided": len(und),
            "violated_listed": len(old),
            "checker_cmd": "python3 check.py %s" % prop,
            "trusted_base": ctx.trusted,
            "explanation": (mod.__doc__ or "").strip(),
            "rule": "; ".join(sorted(set(r[1] for r in ctx.results))),
            "functions_analysed": len(repo_fns),
            "functions": [f for f in repo_fns if f.split("::")[0].lstrip("<&") in
                          ("zkstd", "bn_254", "grumpkin", "zkgroth16", "zknova")][:400],
            "samples": [{"obligation": r[0], "rule": r[1], "status": r[2], "detail": r[3][:500],
                         "seconds": round(r[4], 3)} for r in ctx.results],
        },
        "assumptions": ctx.assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", "%s.json" % prop), "w") as f:
        json.dump(ev, f, indent=1)
    return rc


if __name__ == "__main__":
    main()
