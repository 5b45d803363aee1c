#!/usr/bin/env python3
"""Driver: check.py ID [--tier quick|thorough] [--replay FILE] | --build-all

Builds the harness of property ID from /repo's working tree, explores its spaces on all
cores, replays anything found before reporting it and writes evidence/ID.json.
Exit 0: held on everything explored.  Exit 1: VIOLATION line printed.  Exit 2: error.
"""
import glob, hashlib, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "tools"))
from props import HARNESS, LIBS, META  # noqa: E402

CXX = "clang++"
BASE = ["-std=c++17", "-O1", "-g1", "-w", "-fno-omit-frame-pointer", "-UNDEBUG", "-D_GLIBCXX_ASSERTIONS", "-ftrivial-auto-var-init=pattern",
        "-I" + REPO, "-I" + REPO + "/webm_parser", "-I" + REPO + "/webm_parser/include", "-I" + VERIF + "/harness"]
SAN = ["-fsanitize=address,bounds,return,unreachable,integer-divide-by-zero",
       "-fno-sanitize-recover=all", "-fsanitize-address-use-after-return=never"]
MEMLIMIT_MB = 3000


def sh_hash(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def lib_sources(lib):
    out = []
    for pat in LIBS[lib]["src"]:
        out += sorted(glob.glob(os.path.join(REPO, pat)))
    skip = r"(_test|_tests)\.cc$" if LIBS[lib].get("mains") else r"(_test|_main|_tests)\.cc$"
    return [s for s in out if not re.search(skip, s)]


_hdr_hash = None


def header_hash():
    """Content of every header the library or harness could include."""
    global _hdr_hash
    if _hdr_hash is None:
        hs = []
        for pat in ("*.h", "*.hpp", "common/*.h", "mkvmuxer/*.h", "mkvparser/*.h", "m2ts/*.h", "webvtt/*.h",
                    "webm_parser/src/*.h", "webm_parser/include/webm/*.h", "common/*.inc", "mkvmuxer/*.inc", "mkvparser/*.inc"):
            hs += glob.glob(os.path.join(REPO, pat))
        parts = []
        for p in sorted(hs):
            parts += [p.encode(), read(p)]
        _hdr_hash = sh_hash(*parts)
    return _hdr_hash


def harness_hdr_hash():
    parts = []
    for p in sorted(glob.glob(VERIF + "/harness/*.h")):
        parts += [p, read(p)]
    return sh_hash(*parts)


def compile_one(job):
    src, obj, cmd = job
    if os.path.exists(obj):
        os.utime(obj)
        return None
    tmp = obj + ".%d.tmp" % os.getpid()
    r = subprocess.run(cmd + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        return "compile %s failed:\n%s" % (src, r.stdout.decode(errors="replace")[-4000:])
    os.rename(tmp, obj)
    return None


def build(harnesses):
    bdir = os.path.join(VERIF, "build")
    os.makedirs(bdir + "/obj", exist_ok=True)
    jobs, links = {}, []
    for h in harnesses:
        spec = HARNESS[h]
        objs = []
        flags = BASE + ([] if spec.get("nosan") else SAN) + spec.get("flags", [])
        for lib in spec["libs"]:
            lflags = flags + LIBS[lib].get("flags", [])
            for s in lib_sources(lib):
                key = sh_hash(" ".join(lflags), s, read(s), header_hash())
                obj = "%s/obj/%s-%s.o" % (bdir, os.path.basename(s).replace(".cc", ""), key)
                jobs[obj] = (s, obj, [CXX] + lflags)
                objs.append(obj)
        for s in ["mc.cc"] + spec["src"]:
            p = os.path.join(VERIF, "harness", s)
            key = sh_hash(" ".join(flags), p, read(p), header_hash(), harness_hdr_hash())
            obj = "%s/obj/H_%s-%s.o" % (bdir, s.replace(".cc", ""), key)
            jobs[obj] = (p, obj, [CXX] + flags)
            objs.append(obj)
        exe = "%s/%s-%s" % (bdir, h, sh_hash(*objs))
        links.append((h, exe, objs, flags))
    order = sorted(jobs.values(), key=lambda j: -os.path.getsize(j[0]))
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex:
        errs = [e for e in ex.map(compile_one, order) if e]
    if errs:
        print("BUILD ERROR\n" + errs[0])
        sys.exit(2)
    exes = {}
    for h, exe, objs, flags in links:
        if not os.path.exists(exe):
            tmp = exe + ".%d.tmp" % os.getpid()
            r = subprocess.run([CXX] + [f for f in flags if f.startswith("-fsan")] + objs + ["-o", tmp, "-lpthread"],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode != 0:
                print("LINK ERROR\n" + r.stdout.decode(errors="replace")[-4000:])
                sys.exit(2)
            os.rename(tmp, exe)
        else:
            os.utime(exe)
        exes[h] = exe
    # drop stale build products
    now = time.time()
    for p in glob.glob(bdir + "/obj/*") + glob.glob(bdir + "/*-*"):
        if os.path.isfile(p) and now - os.path.getmtime(p) > 6 * 3600:
            try:
                os.unlink(p)
            except OSError:
                pass
    return exes


FILLS = [0xA5, 0x00, 0x01, 0xFE]  # contents of fresh heap memory, by shard: results must not depend on them


def env(fill=0xA5):
    e = dict(os.environ)
    e["MALLOC_PERTURB_"] = str(fill ^ 0xFF)
    e["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:max_allocation_size_mb=1500:"
                         "malloc_fill_byte=%d:max_malloc_fill_size=65536:detect_stack_use_after_return=0:quarantine_size_mb=16:malloc_context_size=12:handle_abort=1:"
                         "hard_rss_limit_mb=%d" % (fill, MEMLIMIT_MB))
    e["UBSAN_OPTIONS"] = "print_stacktrace=1"
    e["VERIF_KNOWN"] = ",".join("%s:%s" % (k["property"], k["key"]) for k in known_findings() if k["status"] == "open")
    return e


def known_findings():
    p = os.path.join(VERIF, "known_findings.jsonl")
    if not os.path.exists(p):
        return []
    return [json.loads(l) for l in open(p) if l.strip()]


def read_shared(path):
    d = read(path)
    if len(d) < 4024:
        return None
    magic, space, n, done = struct.unpack_from("<IIII", d, 0)
    sub, = struct.unpack_from("<q", d, 16)
    vals = list(struct.unpack_from("<1000i", d, 24))[:n]
    return dict(space=space, sub=sub, vals=vals, done=done)


def space_names(exe, prop):
    return None


def write_replay(path, prop, space, tier, sub, vals):
    with open(path, "w") as f:
        f.write("%s %s %s %d %d\n%s\n" % (prop, space, tier, sub, len(vals), " ".join(map(str, vals))))


def run_replay(exe, prop, path, scratch, fill=0xA5, timeout=300):
    try:
        r = subprocess.run([exe, "--prop", prop, "--replay", path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           env=env(fill), cwd=scratch, timeout=timeout)
        return r.returncode, r.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return 99, "timeout"


def main():
    args = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    prop, replay, space = None, None, None
    i = 0
    while i < len(args):
        if args[i] == "--tier":
            tier = args[i + 1]; i += 1
        elif args[i] == "--replay":
            replay = args[i + 1]; i += 1
        elif args[i] == "--space":
            space = args[i + 1]; i += 1
        elif args[i] == "--build-all":
            build(list(HARNESS)); return 0
        else:
            prop = args[i]
        i += 1
    if prop not in META:
        print("unknown property", prop)
        return 2
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    hname = META[prop]["harness"]
    exe = build([hname])[hname]
    tb = time.time() - t0
    scratch = os.path.join(VERIF, "build", "run-%s-%d" % (prop, os.getpid()))
    os.makedirs(scratch)
    # files the harnesses make go into a directory of this run, in memory where possible
    os.environ["VERIF_SCRATCH"] = tempfile.mkdtemp(prefix="verif-%s-" % prop, dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else scratch)
    try:
        if replay:
            fill = re.search(r"^# heap fill (\d+)", read(replay).decode(errors="replace"), re.M)
            rc, out = run_replay(exe, prop, os.path.abspath(replay), scratch, int(fill.group(1)) if fill else 0xA5)
            print(out)
            return 1 if rc else 0
        return explore(prop, tier, exe, scratch, t0, tb, space)
    finally:
        shutil.rmtree(os.environ["VERIF_SCRATCH"], ignore_errors=True)
        shutil.rmtree(scratch, ignore_errors=True)


def explore(prop, tier, exe, scratch, t0, tb, space):
    n = os.cpu_count() or 8
    procs = []
    for k in range(n):
        d = "%s/w%d" % (scratch, k)
        os.makedirs(d)
        log = open(d + "/log", "wb")
        cmd = [exe, "--prop", prop, "--tier", tier, "--shard", "%d/%d" % (k, n), "--shared", d + "/shared", "--out", d + "/out.json"]
        if space:
            cmd += ["--space", space]
        procs.append((subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT, env=env(FILLS[k % 4]), cwd=d), d))
    limit = 840 if tier == "quick" else 6 * 3600
    bad = None
    pending = dict(enumerate(procs))
    while pending:
        for k, (p, d) in list(pending.items()):
            rc = p.poll()
            if rc is None:
                continue
            del pending[k]
            if rc != 0 and bad is None:
                bad = (k, rc, d)
        if bad:
            break
        if time.time() - t0 > limit:
            for _, (p, d) in pending.items():
                p.kill()
            print("check %s: time limit reached before the space was exhausted" % prop)
            return 2
        time.sleep(0.02)
    if bad:
        for _, (p, d) in pending.items():
            p.kill()
            p.wait()
    stats = dict(cases=0, states=0, transitions=0)
    outcomes, samples, spaces, known = set(), [], {}, {}
    for p, d in procs:
        try:
            j = json.load(open(d + "/out.json"))
        except Exception:
            continue
        for f in stats:
            stats[f] += j[f]
        for s, c in j["spaces"].items():
            spaces[s] = spaces.get(s, 0) + c
        for s, c in j["known"].items():
            known[s] = known.get(s, 0) + c
        outcomes.update(j["outcomes"])
        samples += j["samples"]
    violations = 0
    rc_final = 0
    for kf in known_findings():
        if kf["status"] == "open" and kf["property"] == prop:
            print("KNOWN-FINDING: property=%s %s [met %d times]" % (prop, kf["what"], known.get("%s:%s" % (prop, kf["key"]), 0)))
    vio = None
    if bad:
        k, rc, d = bad
        log = read(d + "/log").decode(errors="replace")
        if rc == 2:
            print(log[-3000:])
            return 2
        sh = read_shared(d + "/shared")
        names = META[prop].get("_spaces") or list_spaces(exe, prop)
        os.makedirs(VERIF + "/replays", exist_ok=True)
        rp = "%s/replays/%s-%s.txt" % (VERIF, prop, sh_hash(json.dumps([sh["space"], sh["sub"], sh["vals"], tier]))[:10])
        write_replay(rp, prop, names[sh["space"]], tier, sh["sub"], sh["vals"])
        confirmed = 0
        last = ""
        for _ in range(2):
            r, out = run_replay(exe, prop, rp, scratch, FILLS[k % 4])
            if r not in (0, 2):
                confirmed += 1
                last = out
        if confirmed < 2:
            # a failure that depends on what ran before it in the same process (e.g. on memory contents):
            # repeat the shard itself; a second failure confirms it.
            d2 = scratch + "/again"
            os.makedirs(d2)
            r2 = subprocess.run([exe, "--prop", prop, "--tier", tier, "--shard", "%d/%d" % (k, n), "--shared", d2 + "/shared"],
                                stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env(FILLS[k % 4]), cwd=d2)
            if r2.returncode in (0, 2):
                print(log[-3000:])
                print("check %s: failure did not reproduce; no verdict" % prop)
                return 2
            last = r2.stdout.decode(errors="replace")
        print(trim(last))
        with open(rp, "a") as f:
            f.write("\n# heap fill %d" % FILLS[k % 4])
            f.write("\n# re-run: %s/check.py %s --replay %s\n" % (VERIF, prop, rp))
            f.write("".join("# " + l + "\n" for l in trim(last).splitlines()))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        violations, rc_final = 1, 1
    m = META[prop]
    cov = dict(exhaustive=not bad, spaces=spaces, distinct_outcomes=len(outcomes), samples=samples[:6] or ["(none)"])
    if m["level"] == "model_checking":
        cov.update(states=stats["states"], transitions=stats["transitions"], traces_validated_against_impl=stats["cases"])
    else:
        cov.update(evaluations=stats["states"], distinct_nontrivial=len(outcomes), rule=m["rule"],
                   cases=stats["cases"], operations=stats["transitions"])
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level=m["level"], coverage=cov,
              assumptions=m.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=violations)
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    with open("%s/evidence/%s.json" % (VERIF, prop), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: cases=%d states=%d transitions=%d distinct outcomes=%d spaces=%s build=%.1fs wall=%.1fs%s" % (
        prop, tier, stats["cases"], stats["states"], stats["transitions"], len(outcomes), json.dumps(spaces), tb,
        time.time() - t0, "" if not bad else " VIOLATED"))
    if not bad and stats["cases"] == 0:
        print("nothing explored")
        return 2
    return rc_final


def list_spaces(exe, prop):
    r = subprocess.run([exe, "--prop", prop, "--list"], stdout=subprocess.PIPE, env=env())
    return r.stdout.decode().split()


def trim(s):
    lines = s.splitlines()
    return "\n".join(l[:2000] for l in (lines if len(lines) < 60 else lines[:45] + ["..."] + lines[-10:]))


if __name__ == "__main__":
    sys.exit(main())
