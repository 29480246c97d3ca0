#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough] [--only HARNESS] [--keep]
   check.py --replay FILE

Decides one property of /repo's current sources with CBMC (see DESIGN.md).
Exit 0: held for every value within the bounds. Exit 1 + "VIOLATION property=.. replay=..":
a solver counterexample that was reproduced natively. Exit 2: no verdict (tool error,
timeout, or a counterexample that does not reproduce)."""
import sys, os, re, json, time, shutil, subprocess, argparse, hashlib, resource, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
REPO = os.environ.get("VERIF_REPO", "/repo")
HDIR = os.path.join(VERIF, "harness")
OUT = os.path.join(VERIF, "out")
sys.path.insert(0, os.path.join(VERIF, "tools"))
import registry

BASE_DEFS = ["-DHAVE_CONFIG_H", "-DWITH_OOMF", "-DWITH_PTHREADS", "-D_GNU_SOURCE",
             '-DSYSCONFDIR="/usr/local/etc"', '-DCONMAN_CONF="/usr/local/etc/conman.conf"']
MEM = 12 << 30
T_START = time.time()

class Inconclusive(Exception):
    pass

def run(cmd, cwd=None, timeout=None, mem=None, env=None):
    def pre():
        os.setsid()
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    p = subprocess.Popen(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         preexec_fn=pre, env=env, stdin=subprocess.DEVNULL)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o.decode("utf8", "replace"), e.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        o, e = p.communicate()
        return None, o.decode("utf8", "replace"), e.decode("utf8", "replace")

# --------------------------------------------------------------------------- build

def stage(h, work, native=False):
    """Copy the current sources, with this harness's scaled constants, into work/src.
    For CBMC only, apply the layout transforms (registry.T_*)."""
    src = os.path.join(work, "nsrc" if native else "src")
    if os.path.isdir(src):
        return src
    os.makedirs(src)
    for f in os.listdir(os.path.join(REPO, "src")):
        if f.endswith((".c", ".h")):
            shutil.copyfile(os.path.join(REPO, "src", f), os.path.join(src, f))
    shutil.copyfile(os.path.join(HDIR, "config.h"), os.path.join(src, "config.h"))
    scaled = {}
    for name, val in h.scale.items():
        n = 0
        for f in sorted(os.listdir(src)):
            p = os.path.join(src, f)
            t = open(p, errors="surrogateescape").read()
            t2, k = re.subn(r"(?m)^([ \t]*#[ \t]*define[ \t]+%s)[ \t]+[^\n]*?([ \t]*(/\*.*)?)$" % re.escape(name),
                            lambda m: "%s %s%s" % (m.group(1), val, m.group(2)), t)
            if k:
                open(p, "w", errors="surrogateescape").write(t2)
                n += k
        scaled[name] = n
    # intercepted public functions: the definition becomes real_<name>, callers reach the harness
    for f in h.files + h.included:
        p = os.path.join(src, f)
        t = t0 = open(p, errors="surrogateescape").read()
        for fn in h.intercept:
            t = re.sub(r"(?m)^((?:static\s+)?[A-Za-z_][\w \t\*]*?[ \t\*\n])%s(\s*\([^;{}]*?\)\s*\{)" % re.escape(fn),
                       lambda m: re.sub(r"^static\s+", "", m.group(1)) + "real_" + fn + m.group(2), t)
        if t != t0:
            open(p, "w", errors="surrogateescape").write(t)
    if not native:
        for f in sorted(os.listdir(src)):
            p = os.path.join(src, f)
            t = t0 = open(p, errors="surrogateescape").read()
            for rx, rep in h.transform:
                t = re.sub(rx, rep, t)
            if t != t0:
                open(p, "w", errors="surrogateescape").write(t)
    return src

def compile_all(h, work, src, cc, extra, replay):
    tag = "nat" if replay else "cb"
    objs = []
    inc = ["-I", src, "-I", HDIR]
    defs = list(BASE_DEFS) + ["-D%s=%s" % kv if kv[1] is not None else "-D%s" % kv[0] for kv in h.defs.items()]
    if replay:
        defs.append("-DREPLAY")
    else:
        defs.append("-D__NO_CTYPE")
    if registry.T_BUF[0] in h.transform:
        defs.append("-DTBUF")
    redir = ["-D%s=st_%s" % (r, r) for r in h.redirect]
    jobs = []
    for f in h.files:
        if not replay and f in h.model:         # a verified-elsewhere module: reference model for the solver
            jobs.append((os.path.join(HDIR, h.model[f]), os.path.join(work, "%s_h_%s.o" % (tag, h.model[f])), h.harness_defs))
            continue
        d = list(redir) + h.file_defs.get(f, [])
        jobs.append((os.path.join(src, f), os.path.join(work, "%s_%s.o" % (tag, f)), d))
    for f in [h.src] + h.extra_src + (["nd_replay.c"] if replay else ["nd_cbmc.c", "libc_model.c"]):
        d = []
        if f in (h.src, "libc_model.c") or f in h.extra_src:
            d = h.harness_defs
        jobs.append((os.path.join(HDIR, f), os.path.join(work, "%s_h_%s.o" % (tag, f)), d))
    for s, o, d in jobs:
        cmd = [cc] + extra + ["-c", s, "-o", o] + inc + defs + d
        rc, so, se = run(cmd, timeout=120)
        if rc != 0:
            raise Inconclusive("compile failed: %s\n%s" % (" ".join(cmd), se[-3000:] + so[-1000:]))
        objs.append(o)
    exe = os.path.join(work, "%s_%s" % (tag, h.name))
    cmd = [cc] + extra + objs + ["-o", exe]
    if replay:
        cmd += ["-lpthread"] + h.native_libs
    rc, so, se = run(cmd, timeout=120)
    if rc != 0 and replay:
        # functions of modules that are not part of this harness: reaching one is "no verdict"
        und = sorted(set(re.findall(r"undefined reference to .(\w+)'", se)))
        gap = os.path.join(work, "gap.c")
        with open(gap, "w") as f:
            f.write("#include <stdio.h>\n#include <unistd.h>\n")
            for u in und:
                f.write('void %s(void) { printf("HARNESS-GAP %s\\n"); fflush(NULL); _exit(91); }\n' % (u, u))
        if und:
            rc, so, se = run(cmd + [gap, "-fno-builtin"], timeout=120)
    if rc != 0:
        raise Inconclusive("link failed: %s\n%s" % (" ".join(cmd), se[-3000:] + so[-1000:]))
    return exe

def native(h, work):
    src = stage(h, work, True)
    with h.lock:
        if h.native_exe is None:
            h.native_exe = compile_all(h, work, src, "gcc",
                ["-g", "-O1", "-w", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined",
                 "-fno-sanitize=alignment",
                 "-fno-omit-frame-pointer", "-ftrivial-auto-var-init=pattern", "-U_FORTIFY_SOURCE"] + h.native_flags, True)
    return h.native_exe

def run_native(h, exe, vals, work, tmo=20):
    fn = os.path.join(work, "nd_%s_%d.txt" % (h.name, threading.get_ident()))
    with open(fn, "w") as f:
        f.write("\n".join(str(v) for v in vals) + "\n")
    env = dict(os.environ, ND_FILE=fn, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=0:max_malloc_fill_size=65536:malloc_fill_byte=190",
               UBSAN_OPTIONS="print_stacktrace=0:halt_on_error=1:exitcode=98")
    rc, o, e = run([exe], cwd=work, timeout=tmo, env=env)
    return rc, o, e

def classify(rc, o, e):
    """(confirmed?, reason)"""
    m = re.search(r"REPLAY-CHECK-FAILED (.*)", o)
    if rc == 3 and m:
        return True, "assertion fails: " + m.group(1)
    if rc is None:
        return True, "does not terminate"
    if "AddressSanitizer" in e:
        m = re.search(r"ERROR: AddressSanitizer: ([^\n]*)", e)
        return True, "AddressSanitizer: " + (m.group(1) if m else "error")
    if "runtime error:" in e:
        m = re.search(r"([^/\n]*runtime error: [^\n]*)", e)
        return True, "UndefinedBehaviorSanitizer: " + m.group(1)
    if rc is not None and rc < 0:
        return True, "killed by signal %d" % -rc
    return False, "native run rc=%s %s" % (rc, (o + e)[-300:].replace("\n", " | "))

# --------------------------------------------------------------------------- cbmc

def parse_json(out):
    try:
        return json.loads(out)
    except ValueError:
        # truncated
        return None

def nd_values(trace):
    vals = []
    for st in trace:
        if st.get("stepType") == "assignment" and st.get("lhs") == "nd__value":
            v = st.get("value", {})
            if "binary" in v:
                vals.append(int(v["binary"], 2))
            else:
                vals.append(int(re.sub(r"[^0-9-]", "", v.get("data", "0")) or 0))
    # the first assignment is the static initialiser
    return vals[1:] if vals else vals

def harness_loops(h, gb):
    """Loops of the harness and models have concrete bounds: unwind them on their own budget."""
    rc, o, e = run(["goto-instrument", "--show-loops", gb], timeout=60)
    return {m.group(1): h.hunwind for m in re.finditer(r"Loop (\S+):\s*\n\s*file (\S+)", o) if m.group(2).startswith(HDIR + os.sep)}

def cbmc_cmd(h, gb, factor, nopc=False):
    cmd = ["cbmc", gb, "--json-ui", "--trace", "--verbosity", "8",
           "--unwind", str(h.unwind * factor)]
    us = {k: v * factor for k, v in h.unwindset.items()}
    if h.hunwind:
        us = dict(harness_loops(h, gb), **us)
    if us:
        cmd += ["--unwindset", ",".join("%s:%d" % kv for kv in us.items())]
    cmd += ["--object-bits", str(h.object_bits), "--drop-unused-functions"]
    if not h.malloc_fail:
        cmd.append("--no-malloc-may-fail")
    cmd += h.opts
    if nopc:
        cmd += ["--no-pointer-check", "--no-pointer-primitive-check"]
    return cmd

class Res:
    pass

def solve(h, gb, factor, tmo, nopc=False):
    r = Res()
    t0 = time.time()
    r.cmd = cbmc_cmd(h, gb, factor, nopc)
    rc, o, e = run(r.cmd, timeout=tmo, mem=h.mem or MEM)
    r.wall = time.time() - t0
    r.raw = o
    if rc is None:
        raise Inconclusive("%s: cbmc timed out after %ds" % (h.name, tmo))
    js = parse_json(o)
    if js is None:
        raise Inconclusive("%s: cbmc output unreadable (rc=%s) %s" % (h.name, rc, (o[-500:] + e[-500:])))
    r.props, r.msgs = [], []
    for item in js:
        if "result" in item:
            r.props = item["result"]
        if "messageText" in item:
            r.msgs.append(item["messageText"])
    if not r.props or any(p["status"] not in ("SUCCESS", "FAILURE", "UNKNOWN") for p in r.props):
        errs = [i for i in js if i.get("messageType") in ("ERROR",)]
        raise Inconclusive("%s: cbmc gave no verdict (rc=%s): %s" % (h.name, rc, json.dumps(errs)[:2000] + e[-800:]))
    txt = "\n".join(r.msgs)
    m = re.search(r"size of program expression: (\d+) steps", txt); r.steps = int(m.group(1)) if m else 0
    m = re.findall(r"Generated (\d+) VCC\(s\), (\d+) remaining", txt)
    r.vccs = sum(int(a) for a, b in m); r.vccs_left = sum(int(b) for a, b in m)
    m = re.findall(r"(\d+) variables, (\d+) clauses", txt)
    r.vars = max([int(a) for a, b in m] or [0]); r.clauses = max([int(b) for a, b in m] or [0])
    r.queries = len(re.findall(r"Runtime Solver: ", txt)) or len(m)
    r.solver_s = sum(float(x) for x in re.findall(r"Runtime Solver: ([0-9.e+-]+)s", txt))
    r.nobody = sorted(set(re.findall(r"no body for function '?([A-Za-z0-9_]+)'?", txt)))
    return r

def functions(h, gb, src):
    rc, o, e = run(["goto-instrument", "--reachable-call-graph", gb], timeout=60)
    fns = set()
    for l in o.splitlines():
        m = re.match(r"(\S+) -> (\S+)", l)
        if m:
            fns.update(m.groups())
    # keep those defined in the repository's files
    defined = set()
    for f in h.files + h.included:
        if f in h.model:
            continue
        t = open(os.path.join(src, f), errors="replace").read()
        for fn in fns:
            if re.search(r"(?m)^[A-Za-z_][\w \t\*]*\b%s\s*\(" % re.escape(fn), t):
                defined.add("%s:%s" % (f, fn))
    return sorted(defined)

def is_unwind(p):
    return ".unwind." in p["property"] or ".recursion" in p["property"] or "unwinding assertion" in p.get("description", "")

def is_memcheck(p):
    return bool(re.search(r"\.(pointer_dereference|pointer_arithmetic|pointer|pointer_primitives|bounds|array_bounds)\.", p["property"]))

def confirm(h, prop, work, cands):
    """Replay each counterexample natively; returns (violations, unconfirmed messages)."""
    viols, unconfirmed = [], []
    for p in sorted(cands, key=lambda q: 0 if ".assertion." in q["property"] else 1):
        vals = nd_values(p.get("trace", []))
        exe = native(h, work)
        rc, o, e = run_native(h, exe, vals, work)
        ok, why = classify(rc, o, e)
        if ok:
            rid = hashlib.sha1((h.name + p["property"] + str(vals)).encode()).hexdigest()[:10]
            d = os.path.join(OUT, "replay", prop)
            os.makedirs(d, exist_ok=True)
            fn = os.path.join(d, "%s-%s.json" % (h.name, rid))
            loc = p.get("sourceLocation", {})
            json.dump({"property": prop, "harness": h.name, "assertion": p["description"],
                       "location": "%s:%s" % (os.path.basename(loc.get("file", "?")), loc.get("line", "?")),
                       "native_result": why, "native_stdout": o[-2000:], "native_stderr": e[-3000:], "nd": vals}, open(fn, "w"), indent=1)
            m = re.search(r"REPLAY-CHECK-FAILED (.*)", o)
            viols.append({"desc": p["description"], "why": why, "replay": fn, "harness": h.name,
                          "check": m.group(1) if rc == 3 and m else why})
        else:
            unconfirmed.append("%s %s [%s] not reproduced: %s" % (h.name, p["property"], p["description"], why))
        if len(viols) >= 8 or len(unconfirmed) > 12:
            break
    return viols, unconfirmed

def check_harness(h, prop, work_root, deadline):
    """Returns a dict for the evidence; raises Inconclusive; may contain violations."""
    work = os.path.join(work_root, h.name)
    os.makedirs(work)
    src = stage(h, work)
    gb = compile_all(h, work, src, "goto-cc", ["-O0"], False)
    ev = {"harness": h.name, "bounds": h.bounds, "functions": functions(h, gb, src)}
    viols = []
    factor, nopc = 1, False
    while True:
        tmo = min(h.timeout, deadline - time.time())
        if tmo <= 5:
            raise Inconclusive("%s: out of time" % h.name)
        r = solve(h, gb, factor, tmo, nopc)
        fails = [p for p in r.props if p["status"] == "FAILURE"]
        wit = [p for p in r.props if p["description"].startswith("WITNESS ")]
        unw = [p for p in fails if is_unwind(p)]
        bad = [p for p in fails if not is_unwind(p) and not p["description"].startswith("WITNESS ")]
        unknown = [p for p in r.props if p["status"] == "UNKNOWN"]
        if unw and not bad and factor < 4:
            factor *= 2
            continue
        viols, unconfirmed = confirm(h, prop, work, bad + unw)
        if unconfirmed and not viols and not nopc and all(is_memcheck(p) for p in bad + unw):
            # pedantic pointer check that has no observable effect: decide without that class
            nopc = True
            continue
        break
    unexpected_nobody = [n for n in r.nobody if n not in h.allow_nobody]
    ev.update(steps=r.steps, vccs=r.vccs, vccs_after_simplification=r.vccs_left, variables=r.vars,
              clauses=r.clauses, solver_queries=r.queries, solver_s=round(r.solver_s, 3),
              wall_s=round(r.wall, 2), properties=len(r.props) - len(wit), unwind_factor=factor,
              undefined_functions=r.nobody, pointer_checks=not nopc)
    if unconfirmed and not viols:
        raise Inconclusive("; ".join(unconfirmed))
    if unknown and not viols:
        raise Inconclusive("%s: %d properties undecided, e.g. %s" % (h.name, len(unknown), unknown[0]["property"]))
    if unexpected_nobody and not viols:
        raise Inconclusive("%s: no model for function(s) %s" % (h.name, ", ".join(unexpected_nobody)))
    # vacuity: every witness must be reachable, and (sampled) reproduces natively
    ev["witnesses"] = {}
    if not viols:
        missing = [p["description"] for p in wit if p["status"] != "FAILURE"]
        if h.any_witness and len(missing) < len(wit):
            wit, missing = [p for p in wit if p["status"] == "FAILURE"], []
        if missing or (not wit and not h.no_witness):
            raise Inconclusive("%s: witness not reachable (vacuous check): %s" % (h.name, missing))
        exe = native(h, work)
        for p in wit:
            vals = nd_values(p.get("trace", []))
            rc, o, e = run_native(h, exe, vals, work)
            conf = ("REPLAY-WITNESS " + p["description"]) in o
            bad_native, why = classify(rc, o, e)
            if bad_native and h.expect_native_clean:
                raise Inconclusive("%s: witness trace for %r misbehaves natively although the solver proved it cannot: %s"
                                   % (h.name, p["description"], why))
            ev["witnesses"][p["description"][8:]] = {"nd_values": len(vals), "reproduced_natively": bool(conf),
                                                      "head": vals[:24]}
            if not conf and h.expect_native_clean:
                raise Inconclusive("%s: witness %r not reproduced natively: rc=%s %s" % (h.name, p["description"], rc, (o + e)[-400:]))
    ev["violations"] = viols
    return ev

def known_findings(prop):
    out = []
    fn = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(fn):
        for k in json.load(open(fn)):
            if k["property"] == prop and k["status"] == "known":
                out.append(k)
    return out

def replay_file(fn):
    d = json.load(open(fn))
    h = registry.HARNESSES[d["harness"]]
    h.init()
    work = os.path.join(OUT, "work", "replay-%d" % os.getpid())
    os.makedirs(work)
    try:
        exe = native(h, work)
        rc, o, e = run_native(h, exe, d["nd"], work)
        ok, why = classify(rc, o, e)
        print(o, e, sep="\n")
        print("reproduced:" if ok else "not reproduced:", why)
        return 0 if not ok else 1
    finally:
        shutil.rmtree(work, ignore_errors=True)

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--replay")
    ap.add_argument("-j", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    a = ap.parse_args()
    if a.replay:
        return replay_file(a.replay)
    prop, tier = a.prop, a.tier
    t0 = time.time()
    spec = registry.PROPS[prop]
    names = list(spec["quick"]) + (list(spec.get("thorough", [])) if tier == "thorough" else [])
    if a.only:
        names = a.only.split(",")
    budget = (800 if tier == "quick" else 6 * 3600)
    deadline = t0 + budget
    work_root = os.path.join(OUT, "work", "%s-%d" % (prop, os.getpid()))
    shutil.rmtree(work_root, ignore_errors=True)
    os.makedirs(work_root)
    evs, errs, adv = [], [], []
    try:
        def one(n):
            h = registry.HARNESSES[n]
            h.init()
            try:
                return check_harness(h, prop, work_root, deadline)
            except Inconclusive as x:
                return str(x)
        with ThreadPoolExecutor(a.j) as ex:
            # the slowest first
            order = sorted(names, key=lambda n: -registry.HARNESSES[n].weight)
            for n, r in zip(order, ex.map(one, order)):
                if isinstance(r, str):
                    (adv if registry.HARNESSES[n].advisory else errs).append(r)
                else:
                    evs.append(r)
    finally:
        if not a.keep:
            shutil.rmtree(work_root, ignore_errors=True)
    viols = [v for e in evs for v in e["violations"]]
    known = known_findings(prop)
    new = []
    seen_known = {}
    for v in viols:
        k = next((k for k in known if k["harness"] == v["harness"] and k["check"] == v["check"]), None)
        if k:
            seen_known[k["id"]] = k
        else:
            new.append(v)
    wall = time.time() - t0
    tot = lambda f: sum(e.get(f, 0) for e in evs)
    cov = {
        "explanation": "Bounded symbolic execution of the real C functions by CBMC; every value within the stated bounds is "
                       "covered by the solver's verdict (no sampling). states = symbolic program steps (SSA) encoded; "
                       "transitions = verification conditions generated from them; traces_validated_against_impl = solver "
                       "witness traces that were re-run on the natively compiled sources and reached the same point.",
        "states": tot("steps"), "transitions": tot("vccs"),
        "traces_validated_against_impl": sum(1 for e in evs for w in e.get("witnesses", {}).values() if w["reproduced_natively"]),
        "samples": [{"harness": e["harness"], "witness": w, "symbolic_inputs_head": x["head"]}
                    for e in evs for w, x in list(e.get("witnesses", {}).items())[:2]][:12],
        "functions_encoded": sorted({f for e in evs for f in e["functions"]}),
        "assertions_discharged": tot("properties") - len(viols),
        "solver_queries": tot("solver_queries"),
        "solver_seconds": round(sum(e["solver_s"] for e in evs), 2),
        "bounds": {e["harness"]: e["bounds"] for e in evs},
        "harnesses": [{k: v for k, v in e.items() if k not in ("functions", "violations")} for e in evs],
        "exhaustive": False,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump({"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick",
               "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
               "coverage": cov, "wall_s": round(wall, 2), "violations": len(new),
               "assumptions": spec.get("assumptions", []) + registry.COMMON_ASSUMPTIONS,
               "inconclusive": errs, "advisory_inconclusive": adv},
              open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    for k in seen_known.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for e in evs:
        print("%-28s %5d obligations %8d steps %7.1fs solver %6.1fs%s" % (e["harness"], e["properties"], e["steps"], e["wall_s"], e["solver_s"],
              "  VIOLATED" if e["violations"] else ""))
    if new:
        for v in new:
            print("  %s: %s -- %s" % (v["harness"], v["desc"], v["why"]))
        print("VIOLATION property=%s replay=%s" % (prop, new[0]["replay"]))
        return 1
    if errs or not evs:
        for x in errs + adv:
            print("INCONCLUSIVE " + x[:3000])
        return 2
    print("property %s held within bounds (%d harnesses, %.1fs)" % (prop, len(evs), wall))
    return 0

if __name__ == "__main__":
    sys.exit(main())
