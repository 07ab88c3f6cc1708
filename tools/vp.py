#!/usr/bin/env python3
"""Proof driver: discharges the contract obligations of one property.

usage: vp.py <property-id> [--tier quick|thorough] [--goal substr] [-v]
Exit 0: every goal discharged (or explored as far as stated in the evidence).
Exit 1: a VIOLATION line was printed.  Exit 2: no answer.
"""
import argparse, concurrent.futures as cf, hashlib, importlib.util, json, os
import re, shutil, signal, struct, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
HARN = os.path.join(VERIF, "harness")
sys.path.insert(0, os.path.join(VERIF, "tools"))

CHECKS = ["--no-standard-checks", "--bounds-check", "--pointer-check",
          "--div-by-zero-check", "--signed-overflow-check",
          "--undefined-shift-check", "--unwinding-assertions"]
UF_RE = re.compile(
    r"\(define-fun (float_bv\.floatbv_\S*) "
    r"\(((?:\(op\d+ \(_ BitVec \d+\)\) ?)+)\) (\(_ BitVec \d+\)|Bool) ")


def uf_decl(m, seen):
    """declaration that takes the place of the definition of one operation"""
    name, args, ret = m.group(1), re.findall(r"\(_ BitVec \d+\)",
                                             m.group(2)), m.group(3)
    c = re.match(r"float_bv\.floatbv_typecast_([su])(\d+)->(f\d+_\d+)$", name)
    if not c or int(c.group(2)) > 64:
        return "(declare-fun %s (%s) %s)\n" % (name, " ".join(args), ret)
    # integers of every width convert by value
    out, w = "", int(c.group(2))
    common = "vp_int_to_" + c.group(3)
    if common not in seen:
        seen.add(common)
        out = "(declare-fun %s ((_ BitVec 65) %s) %s)\n" % (
            common, args[1], ret)
    return out + "(define-fun %s ((a %s) (r %s)) %s (%s ((_ %s_extend %d) a) r))\n" % (
        name, args[0], args[1], ret, common,
        "sign" if c.group(1) == "s" else "zero", 65 - w)


JOBS = int(os.environ.get("VP_JOBS", os.cpu_count() or 4))


class Goal:
    def __init__(self, name, harness, entry, enforce=(), replace=(), defs=(),
                 cases=None, srcs=(), unwind=34, unwindset=(), solvers=("sat",),
                 timeout=300, tier="quick", bounded=None, conv=False, fns=None,
                 loops=None, extra=(), native=True, dfcc=True, note=None,
                 stubs=True, fsum=False, checks=None, native_defs=(),
                 fallback=None, native_srcs=(), drop=(),
                 dropmode="nondet-return", pre=None, override=(),
                 abstract_only=False):
        self.__dict__.update(locals())
        del self.__dict__["self"]
        self.cases = cases or [{}]
        # the functions of /repo whose contract this goal enforces
        self.fns = list(fns if fns is not None else enforce)


def prlimit():
    os.setsid()


class Runner:
    """subprocesses with timeouts that kill the whole group"""

    def __init__(self):
        self.live = set()
        self.lock = threading.Lock()

    def run(self, cmd, timeout, cwd=None, env=None):
        t0 = time.time()
        p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE,
                             stderr=subprocess.STDOUT, preexec_fn=prlimit)
        with self.lock:
            self.live.add(p)
        try:
            out, _ = p.communicate(timeout=timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            out, _ = p.communicate()
            rc = None
        with self.lock:
            self.live.discard(p)
        return rc, out.decode("utf-8", "replace"), time.time() - t0


R = Runner()


def gen_dir(work):
    g = os.path.join(work, "gen")
    os.makedirs(g, exist_ok=True)
    mc = open(os.path.join(REPO, "src/max_channels.h.in")).read()
    mc = mc.replace("${MAX_CHANNELS}", "63").replace("@MAX_CHANNELS@", "63")
    open(os.path.join(g, "max_channels.h"), "w").write(mc)
    return g


def common_flags(gen):
    return ["-std=gnu99", "-I" + HARN, "-I" + os.path.join(REPO, "include"),
            "-I" + gen, "-I" + os.path.join(REPO, "src"),
            "-DVP_REPO_SRC=" + os.path.join(REPO, "src")]


def case_defs(goal, case):
    d = ["-D" + x for x in goal.defs]
    d += ["-D%s=%s" % kv for kv in case.items()]
    return d


def case_name(goal, case):
    s = goal.name
    if case:
        s += "[" + ",".join("%s=%s" % kv for kv in case.items()) + "]"
    return s


class Result:
    def __init__(self, goal, case):
        self.goal, self.case = goal, case
        self.name = case_name(goal, case)
        self.status = "undecided"   # proved | failed | undecided
        self.reason = ""
        self.obligations = 0
        self.uf = 0             # of these, discharged over abstract arithmetic
        self.failed = []
        self.solver = ""
        self.seconds = 0.0
        self.reach = None
        self.inputs = []
        self.replay = None
        self.output_tail = ""
        self.nobody = []
        self.native = None
        self.bounded_unwind = False


def parse_json(out):
    try:
        return json.loads(out)
    except Exception:
        # cut to the last complete top-level element
        i = out.rfind("\n,")
        try:
            return json.loads(out[:i] + "]") if i > 0 else None
        except Exception:
            return None


def leaves(lhs, val):
    """flatten a CBMC JSON value into (lvalue, width, binary) leaves"""
    if not isinstance(val, dict):
        return
    n = val.get("name")
    if n in ("struct", "union"):
        ms = val.get("members") or ([val["member"]] if "member" in val else [])
        for m in ms:
            if m["name"].startswith("$pad") or "$pad" in m["name"]:
                continue
            yield from leaves(lhs + "." + m["name"], m["value"])
    elif n == "array":
        for e in val.get("elements", []):
            yield from leaves("%s[%s]" % (lhs, e["index"]), e["value"])
    elif "binary" in val:
        yield (lhs, len(val["binary"]), val["binary"])
    elif n == "boolean":
        yield (lhs, 8, "00000001" if val.get("data") in ("TRUE", "true", True)
               else "00000000")


def trace_inputs(trace):
    vals = {}
    for st in trace:
        if st.get("stepType") != "assignment":
            continue
        lhs = re.sub(r"(\d+)[lLuU]+\b", r"\1", st.get("lhs", ""))
        if not lhs.startswith("in_") or "$pad" in lhs:
            continue
        for l, w, b in leaves(lhs, st.get("value")):
            vals[l] = (w, b)
    return [(l, w, b) for l, (w, b) in vals.items()]


class Prover:
    def __init__(self, prop, tier, seed, verbose, deadline):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.verbose, self.deadline = verbose, deadline
        self.work = tempfile.mkdtemp(prefix="vp-%s-" % prop["id"])
        self.gen = gen_dir(self.work)
        self.rdir = os.path.join(VERIF, "evidence", "replay")
        self.cmds = []
        self.compiled = {}
        self.lock = threading.Lock()

    def left(self):
        return self.deadline - time.time()

    def log(self, *a):
        if self.verbose:
            print(*a, flush=True)

    # -- build ------------------------------------------------------------
    def build(self, goal, case, d):
        """goto binary of the harness plus the unmodified sources"""
        a, b = os.path.join(d, "a.gb"), os.path.join(d, "b.gb")
        srcs = [os.path.join(REPO, "src", s) for s in goal.srcs]
        if goal.override:
            # the harness's definitions stand for these functions
            l, m = os.path.join(d, "l.gb"), os.path.join(d, "m.gb")
            cmd = ["goto-cc", "-DVP_CBMC",
                   "-D__builtin_isfinite(x)=((x)-(x)==0)"] + \
                common_flags(self.gen) + \
                (["-include", os.path.join(HARN, goal.pre)]
                 if goal.pre else []) + srcs + ["-o", l]
            rc, out, _ = R.run(cmd, 120)
            if rc == 0:
                cmd = ["goto-instrument"]
                for f in goal.override:
                    cmd += ["--remove-function-body", f]
                cmd += [l, m]
                rc, out, _ = R.run(cmd, 120)
            if rc != 0:
                return None, "goto-cc failed: " + out[-2000:], []
            srcs = [m]
        cmd = ["goto-cc", "-DVP_CBMC",
               "-D__builtin_isfinite(x)=((x)-(x)==0)"] + common_flags(self.gen) + \
            (["-include", os.path.join(HARN, goal.pre)] if goal.pre else []) + \
            case_defs(goal, case) + ["--function", goal.entry,
                                     os.path.join(HARN, goal.harness)] + srcs
        if goal.stubs:
            cmd.append(os.path.join(HARN, "vp_stubs.c"))
        cmd += ["-o", a]
        rc, out, _ = R.run(cmd, 120)
        if rc != 0:
            return None, "goto-cc failed: " + out[-2000:], []
        chain = [cmd]
        if goal.dfcc:
            cmd = ["goto-instrument", "--dfcc", goal.entry]
            for f in goal.enforce:
                cmd += ["--enforce-contract", f]
            for f in goal.replace:
                cmd += ["--replace-call-with-contract", f]
            if goal.loops:
                cmd += ["--loop-contracts-file", os.path.join(HARN, goal.loops),
                        "--apply-loop-contracts"]
            cmd += list(goal.extra) + [a, b]
            rc, out, _ = R.run(cmd, 300)
            if rc != 0:
                return None, "goto-instrument failed: " + out[-2000:], []
            chain.append(cmd)
        else:
            b = a
            if goal.abstract_only and not goal.drop:
                b = os.path.join(d, "b.gb")
                cmd = ["goto-instrument", "--drop-unused-functions", a, b]
                chain.append(cmd)
                rc, out, _ = R.run(cmd, 120)
                if rc != 0:
                    return None, "goto-instrument failed: " + out[-2000:], []
            if goal.drop:
                b = os.path.join(d, "b.gb")
                cmd = ["goto-instrument"]
                for f in goal.drop:
                    cmd += ["--remove-function-body", f]
                c = os.path.join(d, "c.gb")
                cmd += ["--drop-unused-functions", a, c]
                chain.append(cmd)
                rc, out, _ = R.run(cmd, 120)
                if rc == 0:
                    cmd = ["goto-instrument", "--generate-function-body",
                           "(%s)" % "|".join(goal.drop),
                           "--generate-function-body-options",
                           goal.dropmode, c, b]
                    rc, out, _ = R.run(cmd, 120)
                if rc != 0:
                    return None, "goto-instrument failed: " + out[-2000:], []
                chain.append(cmd)
        return b, "", chain

    def cbmc(self, goal, b, solver, unwind, timeout, extra=(), obits=10):
        cmd = ["cbmc", b, "--json-ui", "--trace", "--unwind", str(unwind),
               "--object-bits", str(obits)]
        if goal.unwindset:
            cmd += ["--unwindset", ",".join(goal.unwindset)]
        cmd += goal.checks if goal.checks is not None else CHECKS
        if goal.conv:
            cmd += ["--conversion-check"]
        if solver in ("cvc5", "z3"):
            cmd += ["--" + solver]
        elif solver in ("cvc5fpa", "z3fpa"):
            cmd += ["--" + solver[:-3], "--fpa"]
        elif solver != "sat":
            cmd += ["--sat-solver", solver]
        cmd += list(extra)
        env = dict(os.environ, TMPDIR=self.work)
        rc, out, dt = R.run(cmd, timeout, env=env)
        if rc is not None and obits == 10 and "too many addressed objects" in out:
            return self.cbmc(goal, b, solver, unwind, timeout - dt, extra, 14)
        return cmd, rc, out, dt

    # -- floating point abstracted ------------------------------------------
    def abstract(self, goal, b, d, unwind, timeout):
        """Discharge the stated obligations with every floating-point operation
        of the SMT encoding replaced by an uninterpreted function: what holds
        for all functions holds for the IEEE ones, so "unsat" is a proof. An
        obligation that is not discharged this way is left to the next back
        end. Returns (discharged, remaining, seconds, cmd)."""
        t0 = time.time()
        chk = goal.checks if goal.checks is not None else CHECKS
        rc, out, _ = R.run(["cbmc", b, "--show-properties", "--json-ui"] + chk,
                           120)
        props = [q for m in parse_json(out) or [] for q in
                 m.get("properties", [])]
        mine = [q["name"] for q in props if q["class"] == "assertion" and
                q["description"] != "VP_REACH"]
        rest = [q["name"] for q in props if q["name"] not in mine]
        reach = [n for n, q in ((q["name"], q) for q in props)
                 if q["description"] == "VP_REACH" and
                 q.get("sourceLocation", {}).get("function") == goal.entry]
        if goal.abstract_only:
            mine += [n for n in rest if n not in
                     [q["name"] for q in props if q["description"] == "VP_REACH"]]
            rest = reach
        done, cmd0 = [], None

        def ask(names, tag):
            nonlocal cmd0
            f = os.path.join(d, "uf%s.smt2" % tag)
            cmd = ["cbmc", b, "--unwind", str(unwind), "--object-bits", "12",
                   "--slice-formula", "--stop-on-fail", "--z3", "--outfile", f]
            if goal.unwindset:
                cmd += ["--unwindset", ",".join(goal.unwindset)]
            cmd += chk
            for n in names:
                cmd += ["--property", n]
            cmd0 = cmd0 or cmd
            left = min(timeout, self.left() - 20)
            if left < 3:
                return False
            rc, out, _ = R.run(cmd, left)
            if rc == 0 and ("VERIFICATION SUCCESSFUL" in out or
                            "Running SMT2" not in out):
                return tag != "reach"  # simplified away before the back end
            if rc is None or not os.path.exists(f):
                return False
            g = f + ".uf"
            seen = set()
            with open(f) as i, open(g, "w") as o:
                for l in i:
                    m = UF_RE.match(l)
                    o.write(uf_decl(m, seen) if m else l)
            ok = False
            for z, lim in (("z3-new", "-T:%d"), ("z3", "-T:%d"),
                           ("cvc5", "--tlimit=%d000")):
                left = min(timeout / 2, self.left() - 15)
                if left < 3:
                    break
                rc, out, dt = R.run([z, lim % left, g], left + 5)
                ok = rc is not None and re.search(
                    r"^unsat$", out, re.M) is not None
                self.log("    %s: %s %s %.1fs" % (
                    tag, z, out[:20].split("\n")[0], dt))
                if tag == "reach":
                    ok = out.startswith("sat")
                if ok or out.startswith("sat"):
                    break
            if not os.environ.get("VP_KEEP"):
                os.unlink(f)
                os.unlink(g)
            else:
                shutil.copy(g, os.environ["VP_KEEP"] + tag)
            return ok
        self.log("  uf symex %.1fs" % (time.time() - t0))
        if goal.abstract_only and not ask(reach, "reach"):
            return [], mine, [], time.time() - t0, cmd0
        if mine and ask(mine, "all"):
            done = mine
        elif goal.abstract_only:
            # the stated obligations one by one, the built-in ones together
            own = [n for n in mine if n.startswith(goal.entry + ".assertion.")]
            for n in own:
                if time.time() - t0 < 60 and ask([n], n.replace("$", "_")):
                    done.append(n)
            gen = [n for n in mine if n not in own]
            if time.time() - t0 < 60 and ask(gen, "rest"):
                done += gen
        else:
            with cf.ThreadPoolExecutor(4) as ex:
                for n, ok in ex.map(lambda n: (n, ask([n], n.replace("$", "_"))),
                                    mine):
                    if ok:
                        done.append(n)
        return done, [n for n in mine if n not in done], rest, \
            time.time() - t0, cmd0

    # -- one goal case ----------------------------------------------------
    def prove(self, goal, case):
        r = Result(goal, case)
        d = tempfile.mkdtemp(dir=self.work)
        t0 = time.time()
        try:
            b, err, chain = self.build(goal, case, d)
            if b is None:
                r.reason = err
                return r
            unwind = goal.unwind
            attempts = [(s, unwind) for s in goal.solvers]
            i = 0
            grown = 0
            ufargs = []
            while i < len(attempts):
                solver, unwind = attempts[i]
                i += 1
                tmo = min(goal.timeout, self.left() - 20)
                if tmo < 5:
                    r.reason = r.reason or "time budget exhausted"
                    break
                if solver == "uf":
                    done, rem, rest, dt, cmd = self.abstract(
                        goal, b, d, unwind, min(tmo, 60))
                    r.uf = len(done)
                    if goal.abstract_only:
                        # library functions are arbitrary functions here: a
                        # model of the negation says nothing about the code
                        with self.lock:
                            self.cmds = self.cmds or chain + [cmd or []]
                        r.solver = "uf"
                        r.seconds += dt
                        r.obligations = len(done) + len(rem)
                        r.reach = bool(rest)
                        if rem:
                            r.reason = "not discharged over abstract " \
                                "arithmetic: " + ", ".join(rem[:20])
                        elif not rest:
                            r.reason = "vacuous"
                        elif done:
                            r.status = "proved"
                        return r
                    rem = rem + rest
                    self.log("  uf %s: %d discharged, left: %s" % (
                        r.name, len(done), ", ".join(
                            n for n in rem if ".assertion." in n)))
                    ufargs = ["--slice-formula"]
                    for n in rem:
                        ufargs += ["--property", n]
                    r.seconds += dt
                    continue
                cmd, rc, out, dt = self.cbmc(goal, b, solver, unwind, tmo,
                                             ufargs)
                r.solver = solver
                r.seconds += dt
                with self.lock:
                    self.cmds = self.cmds or chain + [cmd]
                if rc is None:
                    r.reason = "solver %s: no answer within %ds" % (solver, tmo)
                    continue
                js = parse_json(out)
                res = None
                for m in js or []:
                    if "result" in m:
                        res = m["result"]
                    t = m.get("messageText", "")
                    if "no body for" in t:
                        r.nobody.append(t)
                if res is None:
                    r.reason = "cbmc gave no result: " + out[-1500:]
                    continue
                errs = [p for p in res if p.get("status") not in
                        ("SUCCESS", "FAILURE")]
                reach = [p for p in res if p["description"] == "VP_REACH"]
                obl = [p for p in res if p["description"] != "VP_REACH"]
                r.obligations = len(obl) + r.uf
                bad = [p for p in obl if p["status"] == "FAILURE"]
                unw = [p for p in bad if ".unwind." in p["property"] or
                       ".recursion" in p["property"]]
                bad = [p for p in bad if p not in unw]
                r.reach = any(p["status"] == "FAILURE" for p in reach) \
                    if reach else None
                if bad:
                    r.status = "failed"
                    r.failed = [(p["property"], p["description"]) for p in bad]
                    r.failed_raw = bad
                    r.bounded_unwind = bool(unw)
                    tr = next((p["trace"] for p in bad if p.get("trace")), [])
                    r.inputs = trace_inputs(tr)
                    r.output_tail = "\n".join(
                        "%s: %s: %s" % (p["property"], p["description"],
                                        p["status"]) for p in bad)
                    return r
                if unw:
                    r.reason = "loop bound %d too small for %s" % (
                        unwind, ", ".join(p["property"] for p in unw))
                    if grown < 2:
                        grown += 1
                        attempts.insert(i, (solver, unwind * 3))
                    continue
                if errs:
                    r.reason = "solver %s: %d obligations without verdict" % (
                        solver, len(errs))
                    continue
                if r.obligations == 0:
                    r.reason = "no obligation generated"
                    continue
                if not r.reach:
                    r.reason = "vacuous: the end of the harness is unreachable"
                    continue
                r.status = "proved"
                r.reason = ""
                return r
            return r
        finally:
            r.wall = time.time() - t0
            shutil.rmtree(d, ignore_errors=True)
            self.log("  %-52s %-9s obl=%-4d %5.1fs %s %s" % (
                r.name, r.status, r.obligations, r.wall, r.solver,
                r.reason[-300:] or "; ".join("%s:%s" % f for f in r.failed[:4])))

    # -- native side ------------------------------------------------------
    def native_build(self, goal, case, d, inputs):
        vals = os.path.join(d, "vp_values.inc")
        with open(vals, "w") as f:
            f.write("void vp_load(void) {\n")
            for lhs, w, b in inputs:
                n = (w + 7) // 8
                v = int(b, 2)
                by = v.to_bytes(n, "little")
                f.write("  { static const unsigned char v_[] = {%s}; "
                        "memcpy((void *)&(%s), v_, sizeof(%s) < sizeof(v_) ? "
                        "sizeof(%s) : sizeof(v_)); }\n" % (
                            ",".join(str(x) for x in by), lhs, lhs, lhs))
            f.write("}\n")
        wrap = os.path.join(d, "wrap.c")
        with open(wrap, "w") as f:
            f.write('#include "%s"\n#include "%s"\n' % (
                os.path.join(HARN, goal.harness), vals))
        exe = os.path.join(d, "native")
        san = "-fsanitize=address,undefined"
        if goal.conv:
            san += ",float-cast-overflow"
        base = ["gcc", "-DVP_NATIVE", "-w", "-O1", "-g", san,
                "-fno-sanitize-recover=all"] + common_flags(self.gen) + \
            case_defs(goal, case) + ["-D" + x for x in goal.native_defs]
        cmd = base + ["-DVP_ENTRY=" + goal.entry, wrap,
                      os.path.join(HARN, "vp_native.c")] + \
            [os.path.join(REPO, "src", s) for s in
             list(goal.srcs) + list(goal.native_srcs)]
        if goal.stubs:
            cmd.append(os.path.join(HARN, "vp_stubs.c"))
        cmd += ["-lm", "-o", exe]
        rc, out, _ = R.run(cmd, 180)
        if rc != 0:
            return None, cmd, out
        return exe, cmd, out

    ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1",
               UBSAN_OPTIONS="print_stacktrace=0")

    def replay(self, r):
        """(reproduced?, text)"""
        if not r.goal.native or not r.inputs:
            return False, "no input in the verifier's counterexample"
        d = tempfile.mkdtemp(dir=self.work)
        exe, cmd, out = self.native_build(r.goal, r.case, d, r.inputs)
        if exe is None:
            return False, "native build failed: " + out[-1500:]
        rc, out, _ = R.run([exe], 60, env=self.ENV)
        if rc is None:
            return True, "the real code did not terminate within 60 s"
        if rc == 3 or rc == 0:
            return False, out[-1500:]
        return True, "exit %s\n%s" % (rc, out[-3000:])

    def search(self, r, secs):
        """random search for a failing input of an undischarged obligation"""
        if not r.goal.native:
            return None, "no native harness"
        d = tempfile.mkdtemp(dir=self.work)
        exe, cmd, out = self.native_build(r.goal, r.case, d, [])
        if exe is None:
            return None, "native build failed: " + out[-1500:]
        sh = os.path.join(d, "shared")
        rc, out, _ = R.run([exe, "random", str(self.seed), str(secs), sh],
                           secs + 30, env=self.ENV)
        if rc == 0:
            return False, out.strip()
        if rc in (3, 4):
            return None, out[-500:]
        try:
            s, it, done = struct.unpack("<QQQ", open(sh, "rb").read(24))
        except Exception:
            return None, out[-500:]
        if rc is None:
            return None, "native run did not stop (case %d)" % s
        rc2, out2, _ = R.run([exe, "replay", str(s)], 60, env=self.ENV)
        if rc2 in (0, 3):
            return None, "random failure did not repeat: " + out[-500:]
        return True, "random case %d (iteration %d): exit %s\n%s" % (
            s, it, rc2, out2[-3000:])


def load_props():
    import goals
    return goals.PROPS


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--goal")
    ap.add_argument("--budget", type=float)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--selftest", action="store_true")
    ap.add_argument("--nosearch", action="store_true")
    a = ap.parse_args()
    if a.selftest:
        for t in ("goto-cc", "goto-instrument", "cbmc", "cvc5", "gcc"):
            if not shutil.which(t):
                print("missing tool", t)
                return 2
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        return 0
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    props = load_props()
    if a.prop not in props:
        print("unknown property", a.prop)
        return 2
    prop = dict(props[a.prop], id=a.prop)
    budget = a.budget or (560 if a.tier == "quick" else 840)
    P = Prover(prop, a.tier, seed, a.v, t0 + budget)
    try:
        return run(P, prop, a, seed, t0)
    finally:
        shutil.rmtree(P.work, ignore_errors=True)


def run(P, prop, a, seed, t0):
    goals = [g for g in prop["goals"]
             if (a.tier == "thorough" or g.tier == "quick")
             and (not a.goal or a.goal in g.name)]
    jobs = [(g, c) for g in goals for c in g.cases]
    results = []
    stop = threading.Event()

    def one(job):
        if stop.is_set():
            r = Result(*job)
            r.wall = 0
            r.status, r.reason = "skipped", "another goal already failed"
            return r
        r = P.prove(*job)
        if r.status == "failed":
            ok, txt = P.replay(r)
            r.native = (ok, txt)
            if ok:
                stop.set()
        return r

    with cf.ThreadPoolExecutor(JOBS) as ex:
        results = list(ex.map(one, jobs))

    failed = [r for r in results if r.status == "failed"]
    undec = [r for r in results if r.status == "undecided"]
    confirmed = [r for r in failed if r.native and r.native[0]]
    # An obligation without a replayed input, or without a verdict: look for an
    # input natively before reporting.
    searched = 0
    if not confirmed and (failed or undec) and not a.nosearch:
        todo = failed + undec
        secs = max(4, min(20, (P.left() - 40) / max(1, (len(todo) + JOBS - 1) // JOBS)))

        def sr(r):
            if P.left() < 10:
                return r, (None, "no time left")
            return r, P.search(r, secs)
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for r, (ok, txt) in ex.map(sr, todo):
                searched += 1
                r.search = (ok, txt)
                P.log("  search %-40s %s %s" % (r.name, ok, txt[:300]))
                if ok:
                    r.native = (True, txt)
                    confirmed.append(r)
    viol = []
    os.makedirs(P.rdir, exist_ok=True)
    lines = []
    report = confirmed[:1] or failed[:1]
    for r in report:
        path = os.path.join(P.rdir, "%s-%s.txt" % (
            prop["id"], re.sub(r"[^A-Za-z0-9_=,.-]", "_", r.name)))
        with open(path, "w") as f:
            f.write("property: %s\ngoal: %s\nharness: harness/%s entry %s\n"
                    "contracts enforced: %s\n\nfailed obligations:\n" % (
                        prop["id"], r.name, r.goal.harness, r.goal.entry,
                        ", ".join(r.goal.fns)))
            for p, dsc in r.failed:
                f.write("  %s: %s\n" % (p, dsc))
            if not r.failed:
                f.write("  (obligation left undecided by the verifier: %s)\n"
                        % r.reason)
            f.write("\nverifier output:\n%s\n" % r.output_tail)
            f.write("\ncounterexample inputs (verifier):\n")
            for l, w, b in r.inputs:
                f.write("  %s = 0x%x (%d bits)\n" % (l, int(b, 2), w))
            f.write("\nreplay on the real code:\n%s\n" % (
                r.native[1] if r.native else "none"))
        rel = os.path.relpath(path, VERIF)
        l = "VIOLATION property=%s replay=%s" % (prop["id"], rel)
        if not (r.native and r.native[0]):
            l += " no-failing-input-found"
        lines.append(l)
        viol.append(r)
    write_evidence(P, prop, a, seed, t0, results, searched, len(viol))
    np = sum(r.status == "proved" for r in results)
    print("%s: %d/%d goals proved, %d obligations, %.1fs" % (
        prop["id"], np, len(results), sum(r.obligations for r in results),
        time.time() - t0))
    for r in undec:
        print("  undecided: %s: %s%s" % (
            r.name, r.reason.replace("\n", " ")[:300],
            "; native search: " + str(getattr(r, "search", ("", ""))[1])[:160]))
    for l in lines:
        print(l, flush=True)
    if viol:
        return 1
    if np == 0 and not any(getattr(r, "search", (None,))[0] is False
                           for r in undec):
        return 2
    return 0


def write_evidence(P, prop, a, seed, t0, results, searched, nviol):
    proved = [r for r in results if r.status == "proved"]
    full = [r for r in proved if not r.goal.bounded]
    bnd = [r for r in proved if r.goal.bounded]
    undec = [r for r in results if r.status == "undecided"]
    fns = sorted({f for r in full for f in r.goal.fns})
    bfns = sorted({f for r in bnd for f in r.goal.fns} - set(fns))
    backends = {}
    for r in proved:
        k = {"sat": "cbmc built-in SAT (MiniSat 2.2.1)",
             "cadical": "cbmc with CaDiCaL", "cvc5": "cvc5 1.1.2",
             "cvc5fpa": "cvc5 1.1.2, floating-point theory", "z3": "z3 4.8.12",
             "z3fpa": "z3 4.8.12, floating-point theory",
             "uf": "z3-new 5.3.2, z3 4.8.12 or cvc5 1.1.2, floating-point and "
                   "library functions uninterpreted"}.get(r.solver, r.solver)
        e = backends.setdefault(k, {"goals": 0, "obligations": 0, "seconds": 0})
        e["goals"] += 1
        e["obligations"] += r.obligations
        e["seconds"] = round(e["seconds"] + r.seconds, 2)
    nuf = sum(r.uf for r in proved)
    if nuf:
        backends["z3-new, z3 4.8.12 or cvc5 1.1.2, floating-point "
                 "operations uninterpreted"] = {
            "obligations": nuf, "note": "counted in the goals above"}
    assume = list(prop.get("assumptions", []))
    repl = sorted({f for r in proved for f in r.goal.replace})
    if repl:
        assume.append("callee contracts assumed at call sites: " + ", ".join(
            repl))
    nob = sorted({m for r in results for m in r.nobody})
    if nob:
        assume.append("functions without a body, return value unconstrained: " +
                      "; ".join(nob)[:800])
    for r in bnd:
        n = "bounded, not proved: %s: %s" % (r.goal.name, r.goal.bounded)
        if n not in assume:
            assume.append(n)
    for r in undec:
        assume.append("undecided: %s (%s); native search: %s" % (
            r.name, r.reason[:200].replace("\n", " "),
            str(getattr(r, "search", ("", "none"))[1])[:200]))
    assume.append("gcc compiles the sources as goto-cc reads them "
                  "(x86-64, LP64, little endian, IEEE-754)")
    ev = {
        "property": prop["id"], "tier": a.tier, "seed": seed,
        "level": prop.get("level", "proof"),
        "coverage": {
            "obligations": sum(r.obligations for r in results),
            "discharged": sum(r.obligations for r in proved),
            "checker_cmd": " && ".join(" ".join(c) for c in P.cmds)
                           .replace(P.work, "$WORK"),
            "trusted_base": [
                "goto-cc / goto-instrument --dfcc / cbmc 6.11.0",
                "back ends: " + (", ".join(backends) or "none"),
                "the contracts and specification functions in /verif/harness",
            ],
            "goals": len(results),
            "goals_proved_unbounded": len(full),
            "goals_proved_bounded": len(bnd),
            "goals_undecided": len(undec),
            "functions_under_contract": fns,
            "functions_checked_bounded_only": bfns,
            "backends": backends,
            "solver_seconds": round(sum(r.seconds for r in results), 2),
            "reachability_guards_passed": sum(1 for r in proved if r.reach),
            "goal_list": [
                {"goal": r.name, "status": r.status, "obligations":
                 r.obligations, "solver": r.solver,
                 "seconds": round(r.seconds, 2),
                 "kind": "bounded: " + r.goal.bounded if r.goal.bounded
                 else "unbounded"} for r in results],
        },
        "assumptions": assume,
        "wall_s": round(time.time() - t0, 2),
        "violations": nviol,
    }
    p = os.path.join(VERIF, "evidence", prop["id"] + ".json")
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if a.goal:
        return
    with open(p, "w") as f:
        json.dump(ev, f, indent=1)


if __name__ == "__main__":
    sys.exit(main())
