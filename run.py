#!/usr/bin/env python3
"""Decides one property by abstract interpretation of the project's IR.

usage: run.py setup | run.py check <ID> [--tier quick|thorough] [--only ENTRY] [-v]

The deciding step compiles the witness units of the property (which
instantiate /repo's *current* headers) and every non-test source file of /repo
with the project's own compiler and flags to LLVM bitcode, and analyses each
witness entry with engine/aint.  Nothing compiled here is ever executed.
"""
import concurrent.futures as cf
import glob, hashlib, json, os, re, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(V, "build")
CXX = "/usr/bin/clang++-17"
LLVM = "/usr/lib/llvm-18"
FLAGS = ("-std=c++20 -stdlib=libc++ -U_FORTIFY_SOURCE -fno-omit-frame-pointer "
         "-iquote . -w -g1 -O1 -Xclang -disable-llvm-passes -emit-llvm -c").split()
ENGINE_FLAGS = ("-std=c++20 -O2 -fno-rtti -w -I/usr/lib/llvm-18/include -D_GNU_SOURCE "
                "-D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS").split()


# Properties whose code branches on std::is_constant_evaluated().
CONSTEXPR = ("B01", "P01", "S01", "S02", "T01")


class Broken(Exception):
    pass


class Rejected(Exception):
    """The project compiles, but no longer accepts a use that the property quantifies over."""


def sh(cmd, cwd=None, timeout=800):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       text=True, timeout=timeout)
    return p


def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:24]


def engine():
    os.makedirs(BUILD, exist_ok=True)
    src = glob.glob(os.path.join(V, "engine", "*"))
    key = digest(src, " ".join(ENGINE_FLAGS))
    out = os.path.join(BUILD, "aint-" + key)
    if not os.path.exists(out):
        for old in glob.glob(os.path.join(BUILD, "aint-*")):
            os.unlink(old)
        tmp = out + ".%d.tmp" % os.getpid()
        p = sh(["/usr/bin/g++", *ENGINE_FLAGS, os.path.join(V, "engine", "aint.cc"), "-o", tmp,
                "-L/usr/lib/llvm-18/lib", "-lLLVM-18"])
        if p.returncode:
            raise Broken("engine does not build:\n" + p.stderr[-3000:])
        os.rename(tmp, out)
    return out


def repo_sources():
    """Every library translation unit of the project (no tests, no mains)."""
    out = []
    for f in sorted(glob.glob(os.path.join(REPO, "best", "**", "*.cc"), recursive=True)):
        rel = os.path.relpath(f, REPO)
        if rel.endswith("_test.cc") or "/test/" in rel or "toy" in os.path.basename(rel):
            continue
        with open(f, errors="replace") as fh:
            if re.search(r"\bint\s+main\s*\(", fh.read()):
                continue
        out.append(rel)
    return out


def repo_key():
    fs = [f for f in glob.glob(os.path.join(REPO, "best", "**", "*"), recursive=True)
          if f.endswith((".h", ".cc", ".inc"))]
    return digest(fs)


def compile_one(src, out, defs):
    cmd = [CXX, *FLAGS, *defs, "-iquote", os.path.join(V, "witness"), src, "-o", out]
    p = sh(cmd, cwd=REPO)
    if p.returncode:
        return p.stderr
    return None


def modules(files, defs):
    """witness file -> linked, sroa'd module"""
    rk = repo_key()
    os.makedirs(os.path.join(BUILD, "bc"), exist_ok=True)
    ck = hashlib.sha256((rk + " ".join(FLAGS + defs)).encode()).hexdigest()[:16]
    jobs = []
    libs = []
    for s in repo_sources() + [os.path.join(V, "witness", "support.cc")]:
        o = os.path.join(BUILD, "bc", "%s-%s.bc" % (s.strip("/").replace("/", "_"), ck))
        libs.append(o)
        if not os.path.exists(o):
            jobs.append((s, o))
    mods = {}
    for w in files:
        wk = digest([w] + glob.glob(os.path.join(V, "witness", "*.h")), ck)
        o = os.path.join(BUILD, "bc", "%s-%s.raw.bc" % (os.path.basename(w), wk))
        mods[w] = o
        if not os.path.exists(o):
            jobs.insert(0, (w, o))
    errs = {}
    with cf.ThreadPoolExecutor(8) as ex:
        futs = {ex.submit(compile_one, s, o + ".%d.tmp" % os.getpid(), defs): (s, o) for s, o in jobs}
        for f in cf.as_completed(futs):
            s, o = futs[f]
            e = f.result()
            if e is not None:
                errs[s] = e
            else:
                os.rename(o + ".%d.tmp" % os.getpid(), o)
    if errs:
        s, e = sorted(errs.items())[0]
        first = next((l for l in e.splitlines() if "error:" in l), "")
        if s.startswith(V) and first and not ("fatal error" in first or (first.startswith(V) and "_internal" in first)):
            if all(k.startswith(V) for k in errs):
                raise Rejected("%s\n%s" % (first, "\n".join(e.splitlines()[:60])))
        raise Broken("does not compile: %s\n%s" % (s, "\n".join(e.splitlines()[:30])))

    # One library module, linked repeatedly: each --only-needed pass adds what the previous one needs.
    lib = os.path.join(BUILD, "bc", "lib-%s.bc" % ck)
    if not os.path.exists(lib):
        tmp = lib + ".%d.tmp" % os.getpid()
        p = sh([LLVM + "/bin/llvm-link", *libs, "-o", tmp])
        if p.returncode:
            raise Broken("link: " + p.stderr[:2000])
        os.rename(tmp, lib)

    def link(w):
        final = mods[w][:-7] + ".final.bc"
        if not os.path.exists(final):
            tmp = final + ".%d.tmp" % os.getpid()
            p = sh([LLVM + "/bin/llvm-link", mods[w], "--only-needed", lib, lib, lib, lib, "-o", tmp + ".l"])
            if p.returncode:
                return p.stderr
            p = sh([LLVM + "/bin/opt", "-passes=sroa", tmp + ".l", "-o", tmp])
            if p.returncode:
                return p.stderr
            os.unlink(tmp + ".l")
            os.rename(tmp, final)
        mods[w] = final
        return None
    with cf.ThreadPoolExecutor(8) as ex:
        for e in ex.map(link, list(files)):
            if e:
                raise Broken("link: " + e[:2000])
    return mods


def analyse(mods, secs, only, last):
    eng = engine()
    res = []
    for w, m in mods.items():
        p = sh([eng, m, "-j", "8", "-t", str(secs), "-T", "%.0f" % max(1, last - time.time()), *only], timeout=5000)
        if p.returncode:
            raise Broken("analyser failed on %s: %s" % (w, p.stderr[-2000:]))
        for line in p.stdout.splitlines():
            r = json.loads(line)
            r["unit"] = os.path.relpath(w, V)
            res.append(r)
    return res


def expected(files, defs):
    """Entries each unit must contain, from its W()/CONTROL() instances."""
    n = {}
    for w in files:
        with open(w) as f:
            t = f.read()
        n[w] = len(re.findall(r"^\s*(?:W|CONTROL|W_[A-Z0-9_]+)\(", t, re.M))
    return n


def load_findings():
    out = []
    p = os.path.join(V, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line or line.startswith("#") or line.startswith("fixed:"):
                continue
            m = re.match(r"property=(\S+)\s+entry=(\S+)\s+msg=\"([^\"]*)\"\s+(.*)", line)
            if m:
                out.append(m.groups())
    return out


def evidence(pid, ev):
    base = {"property": pid, "tier": os.environ.get("VERIF_TIER", "quick"), "seed": int(os.environ.get("VERIF_SEED", "1")),
            "level": "other", "assumptions": [], "wall_s": 0}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", pid + ".json"), "w") as f:
        json.dump({**base, **ev}, f, indent=1)


def check(pid, tier, only, verbose):
    t0 = time.time()
    files = sorted(glob.glob(os.path.join(V, "witness", pid + "*.cc")))
    if not files:
        raise Broken("no witness unit for " + pid)
    thorough = tier == "thorough"
    confs = [("default", ["-DVP_THOROUGH"] if thorough else [])]
    if thorough:
        confs.append(("ndebug", ["-DVP_THOROUGH", "-DNDEBUG"]))
    # Constant evaluation takes branches of its own; this makes the compiler emit those instead.
    if pid in CONSTEXPR:
        confs.append(("constexpr", confs[0][1] + ["-D__builtin_is_constant_evaluated()=true"]))
    # Processor seconds per entry, and the time by which the whole check must have answered.
    secs = 1200 if thorough else 300
    last = t0 + (3600 if thorough else 780)
    allres = []
    floors = json.load(open(os.path.join(V, "witness", "floors.json"))).get(pid, {})
    for cname, defs in confs:
        mods = modules(files, defs)
        res = analyse(mods, secs, only, last)
        for r in res:
            r["config"] = cname
        allres += res
        if not only:
            w = [r for r in res if r["entry"].startswith("w_")]
            c = [r for r in res if r["entry"].startswith("c_")]
            if len(w) < floors.get("entries", 1):
                raise Broken("%s: %d witness entries analysed, expected at least %d" % (pid, len(w), floors.get("entries", 1)))
            if len(c) < 1:
                raise Broken("%s: no must-fire control" % pid)
    known = load_findings()
    bad, unk, und, knownhits, vac, dead = [], [], [], [], [], []
    for r in allres:
        if r["entry"].startswith("c_"):
            if r["status"] not in ("REFUTED", "ALARM"):
                dead.append("control %s did not fire (%s %s)" % (r["entry"], r["status"], r["unknown"]))
            continue
        if r["status"] in ("REFUTED", "ALARM"):
            left = []
            for f in r["findings"]:
                if not f["confirmed"]:
                    und.append((r, f))
                    continue
                k = [x for x in known if x[0] == pid and x[1] == r["entry"] and x[2] == f["msg"]]
                (knownhits if k else left).append((r, f, k[0] if k else None))
            bad += left
        if r["unknown"] and not [f for f in r["findings"] if f["confirmed"]]:
            unk.append(r)
        elif r["status"] == "PROVED" and not r["reached"] and not r["crash_paths"]:
            vac.append(r)
    wres = [r for r in allres if r["entry"].startswith("w_")]
    fns = sorted({f for r in wres for f in r["functions"]})
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other",
        "coverage": {
            "explanation": "Abstract interpretation of the LLVM IR of the current sources: each witness entry "
                           "instantiates the API on unconstrained abstract inputs; every partition of the abstract "
                           "state space is followed to its end and every obligation (witness assertion, memory access, "
                           "object typestate event, arithmetic side condition, reachability of a forbidden call) must be "
                           "discharged by the numeric domain. A rule fires on an obligation that is not discharged.",
            "entries": len(wres),
            "obligations": sum(r["obligations"] for r in wres),
            "partitions": sum(r["partitions"] for r in wres),
            "abstract_paths": sum(r["paths"] for r in wres),
            "crash_paths": sum(r["crash_paths"] for r in wres),
            "transfer_steps": sum(r["steps"] for r in wres),
            "functions_analysed": len(fns),
            "function_list": fns,
            "controls_fired": [r["entry"] for r in allres if r["entry"].startswith("c_")],
            "incomplete": [r["entry"] for r in unk],
            "undecided": [{"entry": r["entry"], "obligation": f["msg"], "at": f["where"]} for r, f in und],
            "samples": [{"entry": r["entry"], "config": r["config"], "status": r["status"], "paths": r["paths"],
                         "crash_paths": r["crash_paths"], "reached": r["reached"], "obligations": r["obligations"]} for r in wres],
        },
        "assumptions": ["clang's IR generation", "malloc never fails", "little-endian x86-64 layout as compiled"],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(bad),
    }
    evidence(pid, ev)
    if verbose:
        for r in allres:
            print("%-34s %-8s paths=%d crash=%d steps=%d obl=%d fns=%d t=%.1f %s" % (
                r["entry"], r["status"], r["paths"], r["crash_paths"], r["steps"], r["obligations"], len(r["functions"]), r["seconds"], r["reached"]))
            if r["unknown"]:
                print("     UNKNOWN", r["unknown"])
            if r["entry"].startswith("w_"):
                for f in r["findings"]:
                    print("     FINDING", f["msg"], "@", f["where"], "" if f["confirmed"] else "(unconfirmed)", "| inputs:", f["model"][:400])
                    if verbose > 1:
                        for s in f["stack"]:
                            print("           ", s)
    seen = set()
    for r, f, k in knownhits:
        if k in seen:
            continue
        seen.add(k)
        print("KNOWN-FINDING: property=%s %s" % (pid, k[3]))
    if bad:
        rp = os.path.join(BUILD, "replay")
        os.makedirs(rp, exist_ok=True)
        path = os.path.join(rp, pid + ".txt")
        with open(path, "w") as o:
            for r, f, _ in bad:
                o.write("entry %s (%s, %s)\n  violated obligation: %s\n  at: %s\n  abstract state contains the inputs: %s\n  path through the call graph (innermost first):\n" % (
                    r["entry"], r["unit"], r["config"], f["msg"], f["where"], f["model"] or ("(none enumerated)")))
                for s in f["stack"]:
                    o.write("    %s\n" % s)
        for r, f, _ in bad[:8]:
            print("  %s: %s at %s [%s]" % (r["entry"], f["msg"], f["where"], f["model"][:300]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if dead:
        raise Broken("; ".join(dead))
    for r, f in und:
        print("undecided: %s: %s at %s: neither discharged nor violated by any state found" % (r["entry"], f["msg"], f["where"]))
    for r in unk:
        print("analysis incomplete: %s: %s (explored so far: %d obligations, none violated)" % (r["entry"], r["unknown"], r["obligations"]))
    if 2 * len({r["entry"] for r in unk + [r for r, _ in und]}) > len({r["entry"] for r in wres}):
        return 2
    if not only and not unk and not und and len(fns) < floors.get("functions", 1):
        raise Broken("%s: only %d project functions analysed, expected at least %d" % (pid, len(fns), floors.get("functions", 1)))
    if vac and not only:
        for r in vac:
            print("analysis vacuous: %s reaches none of its obligations" % r["entry"])
        return 2
    print("%s held: %d entries, %d obligations, %d abstract paths, %d functions, %.1fs" % (
        pid, len(wres), ev["coverage"]["obligations"], ev["coverage"]["abstract_paths"], len(fns), time.time() - t0))
    return 0


def main():
    a = sys.argv[1:]
    try:
        if a[0] == "setup":
            engine()
            return 0
        if a[0] == "check":
            tier = os.environ.get("VERIF_TIER", "quick")
            only, v = [], 0
            i = 2
            while i < len(a):
                if a[i] == "--tier":
                    tier = a[i + 1]; i += 2
                elif a[i] == "--only":
                    only.append(a[i + 1]); i += 2
                elif a[i] == "-v":
                    v = 1; i += 1
                elif a[i] == "-vv":
                    v = 2; i += 1
                else:
                    raise Broken("unknown argument " + a[i])
            return check(a[1], tier, only, v)
    except Rejected as e:
        rp = os.path.join(BUILD, "replay")
        os.makedirs(rp, exist_ok=True)
        path = os.path.join(rp, a[1] + ".txt")
        with open(path, "w") as o:
            o.write("a use that the property covers is rejected by the type checker:\n%s\n" % e)
        evidence(a[1], {"violations": 1, "coverage": {"explanation": "The witness units are type-checked against the current headers; one was rejected: " + str(e).splitlines()[0]}})
        print("  rejected by the type checker: " + str(e).splitlines()[0])
        print("VIOLATION property=%s replay=%s" % (a[1], path))
        return 1
    except Broken as e:
        print("ERROR:", e)
        return 2
    except subprocess.TimeoutExpired as e:
        print("ERROR: timeout:", e)
        return 2
    print(__doc__)
    return 2


sys.exit(main())
