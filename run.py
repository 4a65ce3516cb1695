#!/usr/bin/env python3
"""run.py PROPERTY [--tier quick|thorough] [--replay FILE] - build the harness of a property against
/repo's working tree, explore its bounded space in parallel shards, write evidence/<id>.json, and
exit 0 (held on everything explored) or 1 (VIOLATION line printed)."""
import threading, sys, os, json, subprocess, hashlib, time, shutil, struct, argparse, tempfile, glob, concurrent.futures as cf

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.environ.get("VF_BUILD", os.path.join(VERIF, "build"))
NCPU = os.cpu_count() or 4
BASE = ["-std=gnu++17", "-DJASS_VERIFY_MAX_DOCUMENTS=400000", "-w", "-fPIC", "-DNDEBUG", "-D_GLIBCXX_USE_CXX11_ABI=1", "-march=native", "-mbmi", "-mavx2",
        "-I" + REPO + "/source", "-I" + REPO + "/anytime", "-I" + REPO + "/tools", "-I" + VERIF + "/harness", "-I" + VERIF + "/mc"]
sys.path.insert(0, VERIF)
from checks import CHECKS

class BuildError(Exception):
    pass

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)

def compile_obj(src, flags, cxx="g++"):
    """Content-addressed object: the key is the preprocessed source, the flags and the compiler."""
    lang = []
    if src.endswith(".c"):
        flags = [f for f in flags if not f.startswith("-std=")]; cxx = "gcc"
    pp = sh([cxx, "-E", "-P"] + flags + [src])
    if pp.returncode:
        raise BuildError(src + "\n" + pp.stderr.decode(errors="replace")[-3000:])
    h = hashlib.sha256()
    h.update(pp.stdout); h.update(" ".join([cxx] + flags).encode()); h.update(fingerprint())
    out = os.path.join(BUILD, "obj", h.hexdigest()[:32] + ".o")
    if not os.path.exists(out):
        tmp = out + ".%d.tmp" % os.getpid() + hashlib.md5(src.encode()).hexdigest()[:6]
        r = sh([cxx] + flags + ["-c", src, "-o", tmp])
        if r.returncode:
            raise BuildError(src + "\n" + r.stderr.decode(errors="replace")[-3000:])
        os.replace(tmp, out)
    return out

_fp = None
def fingerprint():
    global _fp
    if _fp is None:
        _fp = hashlib.sha256(sh(["g++", "-march=native", "-dM", "-E", "-x", "c++", "/dev/null"]).stdout + sh(["g++", "--version"]).stdout).digest()
    return _fp

def link(objs, out, flags, libs):
    h = hashlib.sha256(("\n".join(objs) + " ".join(flags + libs)).encode()).hexdigest()[:16]
    final = out + "-" + h
    if os.path.exists(final):
        return final
    tmp = final + ".tmp%d" % os.getpid()
    r = sh(["g++"] + objs + ["-o", tmp] + flags + libs)
    if r.returncode:
        return r.stderr.decode(errors="replace")
    os.replace(tmp, final)
    return final

def src(name):
    return os.path.join(REPO, "source", name)

GEN_FLAGS = [f for f in BASE if not f.startswith("-march")] + ["-O1"]
def gen_tables():
    """Generate ascii.cpp and unicode.cpp from the tree's generator programs and Unicode data."""
    os.makedirs(os.path.join(BUILD, "gen"), exist_ok=True)
    objs = {}
    with cf.ThreadPoolExecutor(NCPU) as ex:
        fs = {n: ex.submit(compile_obj, p, GEN_FLAGS) for n, p in {
            "u": REPO + "/tools/unicode_database_to_c.cpp", "a": REPO + "/tools/ascii_database_to_c.cpp", "file": src("file.cpp"), "asserts": src("asserts.cpp"), "bitstring": src("bitstring.cpp")}.items()}
        objs = {n: f.result() for n, f in fs.items()}
    made = {}
    data = [REPO + "/external/Unicode/" + f for f in ("UnicodeData.txt", "PropList.txt", "CaseFolding.txt")]
    for n, target, args in (("u", "unicode.cpp", data), ("a", "ascii.cpp", [])):
        key = hashlib.sha256((objs[n] + objs["file"] + objs["asserts"] + objs["bitstring"]).encode() + b"".join(open(d, "rb").read() for d in args)).hexdigest()[:24]
        path = os.path.join(BUILD, "gen", key + "-" + target)
        if not os.path.exists(path):
            exe = link([objs[n], objs["file"], objs["asserts"], objs["bitstring"]], os.path.join(BUILD, "bin", "gen_" + n), [], [])
            if not os.path.exists(exe):
                raise BuildError(exe)
            with open(path + ".tmp%d" % os.getpid(), "wb") as f:
                r = subprocess.run([exe] + args, stdout=f, stderr=subprocess.PIPE, cwd=os.path.join(BUILD, "gen"))
            if r.returncode:
                raise BuildError("generator failed for " + target)
            # the generators print a date in a comment; drop it so that the object is the same on every run
            text = open(path + ".tmp%d" % os.getpid(), "rb").read()
            text = text.replace(text[:text.find(b"*/") + 2], b"", 1) if text.lstrip().startswith(b"/*") else text
            open(path, "wb").write(text); os.remove(path + ".tmp%d" % os.getpid())
        made[target] = path
    return made

def find_sources():
    return {os.path.basename(p): p for p in sorted(glob.glob(REPO + "/source/*.cpp"))}

def build(name, spec, variant=None):
    """spec: harness, sources (basenames, or 'codecs', 'all'), flags, libs, extra"""
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True); os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    flags = BASE + spec.get("opt", ["-O1"]) + spec.get("flags", []) + (variant or [])
    lflags = spec.get("lflags", []) + [f for f in flags if f.startswith("-fsanitize") and f != "-fsanitize=thread"]
    libs = spec.get("libs", []) + ["-lz", "-lzstd", "-lpthread"]
    avail = find_sources()
    want = []
    for s in spec.get("sources", []):
        if s == "codecs":
            want += [n for n in avail if n.startswith("compress_integer")]
        elif s == "eval":
            want += [n for n in avail if n.startswith("evaluate")]
        elif s == "all":
            want += [n for n in avail]
        else:
            want.append(s)
    harness = [h if h.startswith("/") else os.path.join(VERIF, h) for h in spec["harness"]]
    hflags = spec.get("hflags")
    def attempt(names):
        jobs = []
        plain = [f for f in flags]
        with cf.ThreadPoolExecutor(NCPU) as ex:
            need_gen = "unicode.cpp" in names or "ascii.cpp" in names
            gen = ex.submit(gen_tables) if need_gen else None
            hard = ["compress_integer_qmx_jass_v1.cpp"]
            order = sorted(set(names) - {"unicode.cpp", "ascii.cpp"}, key=lambda n: (n not in hard, n))
            for n in order:
                if n.startswith("/"):
                    jobs.append(ex.submit(compile_obj, REPO + n, flags))
                elif n in avail:
                    fl = [f for f in flags if f not in spec.get("not_for_source", [])]
                    fl = [f for f in fl if not (f == "-fsanitize=address" and n in hard)]
                    jobs.append(ex.submit(compile_obj, avail[n], fl))
            for h in harness:
                jobs.append(ex.submit(compile_obj, h, (BASE + spec.get("opt", ["-O1"]) + hflags + (variant or [])) if (hflags is not None and h.startswith(VERIF)) else flags))
            for h in spec.get("runtime", []):
                jobs.append(ex.submit(compile_obj, os.path.join(VERIF, h), BASE + ["-O2"]))
            for h in spec.get("csources", []):
                jobs.append(ex.submit(compile_obj, os.path.join(REPO, h), [f for f in flags if not f.startswith("-fsanitize")] + ["-I" + REPO + "/external/streamvbyte/include"]))
            if gen:
                made = gen.result()
                for t in ("unicode.cpp", "ascii.cpp"):
                    if t in names:
                        # pure data: no sanitizer, one object for every harness
                        jobs.append(ex.submit(compile_obj, made[t], ["-w", "-O0", "-fPIC", "-I" + REPO + "/source"]))
            return [j.result() for j in jobs]
    objs = attempt(want)
    exe = link(objs, os.path.join(BUILD, "bin", name), lflags, libs)
    if not os.path.exists(exe):
        # a definition has moved to another file: link everything
        want = list(avail) + ["unicode.cpp", "ascii.cpp"] + [n for n in want if n.startswith("/")]
        objs = attempt(want)
        exe = link(objs, os.path.join(BUILD, "bin", name + "-all"), lflags, libs)
        if not os.path.exists(exe):
            raise BuildError(exe[-3000:])
    return exe

class Shard:
    pass

def run_shard(exe, tier, scratch, tag, args, limit, timeout, env):
    d = os.path.join(scratch, tag); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    out, status = os.path.join(d, "out.json"), os.path.join(d, "status")
    cwd = os.path.join(d, "cwd"); os.makedirs(cwd)
    e = dict(os.environ); e.update(env); e["TMPDIR"] = cwd
    e.setdefault("ASAN_OPTIONS", "detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=0")
    t0 = time.time()
    with open(os.path.join(d, "log"), "wb") as log:
        p = subprocess.Popen([exe, "--tier", tier, "--out", out, "--status", status, "--limit", str(limit)] + args, cwd=cwd, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL if not os.environ.get("VF_STDOUT") else log, stderr=log, env=e, start_new_session=True)
        try:
            rc = p.wait(timeout)
            timed = False
        except subprocess.TimeoutExpired:
            timed = True; rc = -9
        try:
            os.killpg(p.pid, 9)
        except Exception:
            pass
        p.wait()
    res = {"rc": rc, "timed": timed, "wall": time.time() - t0, "dir": d}
    try:
        res["out"] = json.load(open(out, errors="replace")) if rc == 0 else None
    except Exception:
        res["out"] = None
    try:
        b = open(status, "rb").read()
        res["case"] = struct.unpack("<Q", b[:8])[0]; res["text"] = b[16:].split(b"\0")[0].decode(errors="replace")
    except Exception:
        res["case"], res["text"] = None, ""
    res["log"] = open(os.path.join(d, "log"), errors="replace").read()[-4000:]
    res["distinct"] = out + ".distinct"
    return res

def known_findings(prop):
    try:
        k = json.load(open(os.path.join(VERIF, "known_findings.json")))
    except FileNotFoundError:
        return []
    return [f for f in k["findings"] if f["property"] == prop and f.get("status", "open") == "open"]

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick")); ap.add_argument("--replay"); ap.add_argument("--build-only", action="store_true")
    a = ap.parse_args()
    prop = a.property; C = CHECKS[prop]; tier = a.tier; t0 = time.time()
    replay_case = None
    if a.replay:
        r = json.load(open(a.replay)); tier = r["tier"]; replay_case = r
    os.makedirs(BUILD, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="vf-%s-" % prop, dir="/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None)
    code = 2
    try:
        code = check(prop, C, tier, scratch, replay_case, t0, a.build_only)
    except BuildError as e:
        print("BUILD FAILED for", prop, "\n", str(e)[-4000:])
    finally:
        if not os.environ.get("VF_KEEP"):
            shutil.rmtree(scratch, ignore_errors=True)
        else:
            print("kept", scratch)
    sys.stdout.flush()
    sys.exit(code)

def check(prop, C, tier, scratch, replay_case, t0, build_only=False):
    units = []
    for u in C["units"]:
        for vn, vf in (u.get("variants") or {"": []}).items():
            if tier == "quick" and vn in u.get("thorough_variants", []):
                continue
            units.append((u, vn, vf))
    exes = {}
    extra_env = {}
    for tool in C.get("tools", []):
        extra_env["VF_TOOL_" + tool["name"].upper()] = build(prop + "-tool-" + tool["name"], tool)
    if C.get("prebuild"):
        extra_env.update(C["prebuild"](sys.modules[__name__]))
    for u, vn, vf in units:
        name = prop + "-" + u["name"] + ("-" + vn if vn else "")
        exes[(u["name"], vn)] = build(name, u, vf)
    extra_env["VF_REPO"] = REPO
    built = time.time() - t0
    if build_only:
        print("built in %.1fs" % built, exes); return 0
    total_limit = C.get("time", {}).get(tier, 600 if tier == "quick" else 36000)
    jobs = []
    if replay_case:
        u, vn = replay_case["unit"], replay_case["variant"]
        jobs = [(u, vn, ["--only", str(replay_case["case"])] , next(x for x, n, _ in units if x["name"] == u and n == vn), "r")]
    else:
        for u, vn, vf in units:
            n = u.get("shards", NCPU)
            if callable(n): n = n(tier)
            for s in range(n):
                jobs.append((u["name"], vn, ["--shard", str(s), "--shards", str(n)], u, "s%d" % s))
    results = []; failures = []
    # quick: nothing runs past this, and once a hang is confirmed no more shards are started
    deadline = t0 + C.get("time", {}).get("deadline", 800) if tier == "quick" else t0 + 10**7
    stop = threading.Event(); skipped = []
    left = lambda most: max(5, min(most, deadline - time.time()))
    def one(j):
        un, vn, args, u, tag = j
        exe = exes[(un, vn)]
        out = []
        limit = u.get("limit", {}).get(tier, 60)
        extra = []
        for attempt in range(6):
            if stop.is_set() or time.time() > deadline: break
            r = run_shard(exe, tier, scratch, "%s-%s-%s-%d" % (un, vn, tag, attempt), args + extra, limit, left(total_limit), extra_env)
            r["unit"], r["variant"] = un, vn
            out.append(r)
            if r["out"] is not None:
                break
            # crash, hang or unexpected exit: replay that case alone before believing it
            if r["case"] is None or r["case"] == 2**64 - 1:
                r["failure"] = {"case": None, "key": "startup", "text": "", "msg": "harness ended (rc %s) before its first case: %s" % (r["rc"], r["log"][-600:])}
                break
            if stop.is_set() or deadline - time.time() < limit: break
            again = run_shard(exe, tier, scratch, "%s-%s-%s-%d-again" % (un, vn, tag, attempt), ["--only", str(r["case"])], int(left(limit * 2)), left(limit * 2 + 60) + 30, extra_env)
            if again["out"] is None:
                kind = "hang" if again["rc"] == 97 or again["timed"] else "crash"
                if kind == "hang" and tier == "quick": stop.set()
                r["failure"] = {"case": r["case"], "key": kind + ":" + r["text"], "text": r["text"], "msg": "%s (rc %s) %s" % (kind, again["rc"], first_line(again["log"]))}
                break
            if again["out"]["fails"]:
                f = again["out"]["fails"][0]; r["failure"] = dict(f)
                break
            print("note: case %s of %s did not fail again on its own (rc %s, %.0fs); continuing after it" % (r["case"], un, r["rc"], r["wall"]))
            extra = ["--from", str(r["case"] + 1)]
        return out
    width = max(1, C.get("parallel", NCPU))
    with cf.ThreadPoolExecutor(width) as ex:
        for rs in ex.map(one, jobs):
            results += rs
            if not rs: skipped.append(1)
    evals = runs = trans = cases = 0; samples = []; distinct = set(); dcount = 0; bounds = []; incomplete = bool(skipped)
    for r in results:
        o = r["out"]
        if r.get("failure"):
            failures.append((r, r["failure"]))
        if o is None:
            incomplete = True
            continue
        evals += o["evals"]; runs += o["run"]; trans += o["transitions"]
        samples += o["samples"][:2]
        if o.get("bounds") and o["bounds"] not in bounds: bounds.append(o["bounds"])
        try:
            raw = open(r["distinct"], "rb").read()
            distinct.update(struct.unpack("<%dQ" % (len(raw) // 8), raw))
        except FileNotFoundError:
            pass
        seen = set()
        for f in o["fails"]:
            if f["key"] not in seen:
                seen.add(f["key"]); failures.append((r, f))
    # known findings
    known = known_findings(prop); matched = {}
    new = []
    for r, f in failures:
        k = next((k for k in known if k["key"] == f["key"]), None)
        if k: matched[k["key"]] = k
        else: new.append((r, f))
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]) + ("" if k["key"] in matched or replay_case else " (not reached in this run)"))
    # the same failure (key) is reported once
    uniq = {}
    for r, f in sorted(new, key=lambda x: (x[1].get("case") is None, x[1].get("case") or 0)):
        uniq.setdefault(f["key"], (r, f))
    new = list(uniq.values())
    if os.environ.get("VF_ALL") or len(new) > 1:
        for r, f in new: print("   failure %s [%s/%s case %s: %s] %s" % (f["key"][:200], r["unit"], r["variant"], f.get("case"), f["text"][:200], f["msg"][:400]))
    confirmed = []
    for r, f in sorted(new, key=lambda x: (x[1].get("case") is None, x[1].get("case") or 0))[:12]:
        if len(confirmed) >= 3: break
        # replay before report
        if f.get("case") is not None and not replay_case and not f["key"].startswith(("crash:", "hang:")):
            u = next(x for x, n, _ in units if x["name"] == r["unit"] and n == r["variant"])
            again = run_shard(exes[(r["unit"], r["variant"])], tier, scratch, "confirm", ["--only", str(f["case"])], 3 * u.get("limit", {}).get(tier, 60), left(total_limit) + 30, extra_env)
            if again["out"] is not None and not again["out"]["fails"]:
                print("note: a reported failure did not replay, so it is not believed: %s %s" % (f["key"], f["msg"][:300]))
                continue
        confirmed.append((r, f))
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    for r, f in confirmed:
        path = os.path.join(VERIF, "replays", "%s-%s.json" % (prop, hashlib.md5((str(f.get("key")) + str(f.get("case"))).encode()).hexdigest()[:10]))
        json.dump({"property": prop, "tier": tier, "unit": r["unit"], "variant": r["variant"], "case": f.get("case"), "key": f["key"], "text": f["text"], "msg": f["msg"], "replay": "python3 run.py %s --replay %s" % (prop, path)}, open(path, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("   key  : %s\n   case : %s %s\n   what : %s" % (f["key"][:300], f.get("case"), f["text"][:1200], f["msg"][:1500]))
    wall = time.time() - t0
    if not replay_case:
        cov = {"evaluations": evals, "distinct_nontrivial": len(distinct), "rule": C["rule"], "samples": samples[:6] or ["(none recorded)"],
               "numbered_cases": runs, "bounds": bounds, "build_s": round(built, 1), "exhaustive": bool(not incomplete and C.get("exhaustive", True))}
        if C["level"] == "model_checking":
            cov.update({"states": C.get("states", lambda d, e, t: d)(len(distinct), evals, trans), "transitions": trans, "traces_validated_against_impl": evals})
        else:
            cov["steps"] = trans
        ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": C["level"], "coverage": cov,
              "assumptions": C.get("assumptions", []), "wall_s": round(wall, 1), "violations": len(confirmed)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    print("%s %s: %d evaluations, %d cases, %d distinct, %d steps, build %.0fs, wall %.0fs%s" % (prop, tier, evals, runs, len(distinct), trans, built, wall, "" if not incomplete else " INCOMPLETE"))
    if confirmed: return 1
    if incomplete and not failures: return 2
    return 0

def first_line(log):
    ls = [l for l in log.splitlines() if "ERROR" in l or "terminate" in l or "SUMMARY" in l or "assert" in l.lower() or "VF-" in l]
    return " | ".join(ls[:3]) if ls else log[-300:]

if __name__ == "__main__":
    main()
