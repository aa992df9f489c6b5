#!/usr/bin/env python3
"""Runs the check of one property:  run.py <ID> [--tier quick|thorough] [--replay FILE] [--keep]

Rebuilds the code under test from /repo's working tree in a scratch directory, links it with the property's
harness, explores the harness' whole bounded space in parallel shards, replays every reported violation on its
own, compares with KNOWN_FINDINGS.txt, and writes evidence/<ID>.json.
Exit 0: held on everything explored.  Exit 1: VIOLATION line(s).  Exit 2: the check itself could not run."""
import sys, os, json, subprocess, glob, shutil, tempfile, time, struct, concurrent.futures as cf

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VC_REPO", "/repo")
sys.path.insert(0, VERIF)
from registry import CHECKS, PROPS

COMPAT = os.path.join(VERIF, "compat")
NCPU = os.cpu_count() or 8
BASE = ["-std=gnu++14", "-DNDEBUG", "-DHAVE_LAPACK", "-DHAVE_MSGPACK", "-DCOMPILER_USE_CXX11", "-DTIXML_USE_STL",
        "-w", "-include", "ctime"]
INCS = ["-I" + REPO + "/src", "-I" + COMPAT, "-I" + REPO + "/3rd/boost-bindings",
        "-I" + REPO + "/3rd/log4cpp/include", "-I" + REPO + "/3rd/tinyxml", "-I" + VERIF + "/harness"]
MODES = {
    "plain": ["-O1", "-g1", "-ftrivial-auto-var-init=pattern"],
    "asan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address"],
    "ubsan": ["-O1", "-g1", "-fno-omit-frame-pointer",
              "-fsanitize=address,bounds,null,return,shift,integer-divide-by-zero,vla-bound,signed-integer-overflow",
              "-fno-sanitize-recover=all"],
    "tsan": ["-O1", "-g1", "-fsanitize=thread"],
    # instrumented for the scheduler in harness/mc.hpp, which stands in for the sanitizer's runtime
    "instr": ["-O1", "-g1", "-fsanitize=thread", "--param=tsan-distinguish-volatile=1"],
}
LIBS = ["-lboost_serialization", "-lboost_regex", "-lboost_filesystem", "-lboost_thread", "-lboost_chrono",
        "-lboost_date_time", "-lboost_system", "-llapack", "-lblas", "-lpthread"]


def sources(which):
    r = []
    if which in ("core",):
        r += sorted(glob.glob(REPO + "/src/**/*.cpp", recursive=True))
    if which in ("core", "log4cpp"):
        r += sorted(glob.glob(REPO + "/3rd/log4cpp/src/*.cpp"))
    if which in ("core", "tinyxml"):
        r += [f for f in sorted(glob.glob(REPO + "/3rd/tinyxml/*.cpp")) if "xmltest" not in f]
    return r


def die(msg):
    print("CHECK-ERROR " + msg)
    sys.exit(2)


def compile_one(args):
    src, obj, flags = args
    cc = ["g++"]
    if os.environ.get("VC_CCACHE"):
        cc = ["ccache", "g++"]
    p = subprocess.run(cc + flags + ["-c", src, "-o", obj], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return src, p.returncode, p.stdout.decode("utf8", "replace")


def build(units, work):
    jobs, exes = [], []
    done = {}
    for u in units:
        mode = u.get("mode", "plain")
        flags = BASE + MODES[mode] + u.get("defs", []) + INCS
        objs = []
        for s in sources(u.get("repo", "core")):
            k = (s, mode, tuple(u.get("rdefs", [])))
            if k not in done:
                o = os.path.join(work, "o%d.o" % len(done))
                done[k] = o
                jobs.append((s, o, BASE + MODES[mode] + u.get("rdefs", []) + INCS))
            objs.append(done[k])
        hobj = os.path.join(work, u["name"] + ".h.o")
        jobs.insert(0, (os.path.join(VERIF, "harness", u["src"]), hobj, flags))
        exes.append((u, os.path.join(work, u["name"]), hobj, objs))
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for src, rc, out in ex.map(compile_one, jobs):
            if rc:
                die("cannot compile %s\n%s" % (src, out[-6000:]))
    for u, exe, hobj, objs in exes:
        mode = u.get("mode", "plain")
        fl = [f for f in MODES[mode] if f.startswith("-fsanitize") and mode != "instr"]
        lib = exe + ".a"
        subprocess.run(["ar", "rcs", lib] + objs, check=True)
        link = ["-Wl,--whole-archive", lib, "-Wl,--no-whole-archive"] if u.get("whole") else [lib, lib]
        p = subprocess.run(["g++"] + fl + ["-rdynamic"] + u.get("ldflags", []) + [hobj] + link + LIBS + ["-ldl", "-o", exe],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            die("cannot link %s\n%s" % (u["src"], p.stdout.decode("utf8", "replace")[-6000:]))
    return exes


def run_shard(u, exe, work, tier, shard, nshard, only=None, hang=None, trace=False):
    out = os.path.join(work, "%s.%s.out" % (u["name"], shard if only is None else "only%d" % only))
    for f in (out, out + ".h"):
        if os.path.exists(f):
            os.remove(f)
    scratch = tempfile.mkdtemp(prefix="s", dir=work)
    env = dict(os.environ, VC_SHARD=str(shard), VC_NSHARD=str(nshard), VC_OUT=out, VC_TIER=tier, VC_SCRATCH=scratch,
               LC_ALL="C", TZ="UTC", OPENBLAS_NUM_THREADS="1", MALLOC_PERTURB_="165",
               ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:detect_stack_use_after_return=1:alloc_dealloc_mismatch=0:allocator_may_return_null=1:max_malloc_fill_size=4096:handle_abort=0",
               UBSAN_OPTIONS="print_stacktrace=1", TSAN_OPTIONS="halt_on_error=1:exitcode=66:report_thread_leaks=0")
    env.update(u.get("env", {}))
    if only is not None:
        env["VC_ONLY"] = str(only)
    if hang:
        env["VC_HANG"] = str(hang)
    if trace:
        env["VC_TRACE"] = "1"
    err = open(out + ".err", "wb")
    try:
        p = subprocess.run([exe], env=env, cwd=scratch, stdout=subprocess.DEVNULL, stderr=err,
                           timeout=u.get("timeout", {"quick": 780, "thorough": 5400}[tier]))
        rc = p.returncode
    except subprocess.TimeoutExpired:
        rc = "timeout"
    err.close()
    shutil.rmtree(scratch, ignore_errors=True)
    recs = []
    if os.path.exists(out):
        for line in open(out, encoding="utf8", errors="replace"):
            try:
                recs.append(json.loads(line))
            except ValueError:
                pass
    hs = set()
    if os.path.exists(out + ".h"):
        b = open(out + ".h", "rb").read()
        hs = set(struct.unpack("<%dQ" % (len(b) // 8), b))
    with open(out + ".err", "rb") as f:
        f.seek(max(0, os.path.getsize(out + ".err") - 6000))
        tail = f.read().decode("utf8", "replace")
    return dict(rc=rc, recs=recs, hashes=hs, stderr=tail)


def known_findings(pid):
    r = []
    fn = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(fn):
        for line in open(fn):
            line = line.strip()
            # finding: property=<id> key=<key> <text>
            if line.startswith("finding: property=%s key=" % pid):
                rest = line.split(" key=", 1)[1]
                key, _, text = rest.partition(" ")
                r.append((key, text))
    return r


def main():
    a = sys.argv[1:]
    if not a:
        die("usage: run.py ID [--tier T]")
    pid = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    replay = a[a.index("--replay") + 1] if "--replay" in a else None
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    chk = CHECKS[pid]
    t0 = time.time()
    bdir = os.path.join(VERIF, "build")
    os.makedirs(bdir, exist_ok=True)
    work = tempfile.mkdtemp(prefix=pid + ".", dir=bdir)
    try:
        rc = go(pid, chk, tier, seed, replay, work, t0)
    finally:
        if "--keep" not in a:
            shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def go(pid, chk, tier, seed, replay, work, t0):
    units = [u for u in chk["units"] if tier in u.get("tiers", ("quick", "thorough"))]
    if replay:
        rp = json.load(open(replay))
        tier = rp["tier"]
        units = [u for u in chk["units"] if u["name"] == rp["unit"]]
    exes = build(units, work)
    tb = time.time() - t0
    if replay:
        u, exe = exes[0][0], exes[0][1]
        if rp["case"] is None:
            r = run_shard(u, exe, work, tier, rp["shard"], rp["nshard"])
        else:
            r = run_shard(u, exe, work, tier, 0, 1, only=rp["case"], hang=u.get("hang", 60) * 2, trace=True)
        print(r["stderr"])
        bad = [v for v in r["recs"] if v["kind"] != "summary"]
        for v in bad:
            print("REPLAYED %s: %s" % (v["key"], v["msg"]))
        return 1 if bad else 0
    tasks = []
    for u, exe, _, _ in exes:
        n = u.get("shards", NCPU)
        for i in range(n):
            tasks.append((u, exe, i, n))
    results = []
    with cf.ThreadPoolExecutor(NCPU) as ex:
        futs = [ex.submit(run_shard, u, exe, work, tier, i, n, None, u.get("hang", 60)) for u, exe, i, n in tasks]
        for t, f in zip(tasks, futs):
            results.append((t, f.result()))
    tot = dict(cases=0, evaluated=0, states=0, transitions=0, checks=0)
    hashes, samples, notes, viol = set(), [], [], []
    per_unit = {}
    for (u, exe, i, n), r in results:
        summ = [x for x in r["recs"] if x["kind"] == "summary"]
        vs = [x for x in r["recs"] if x["kind"] != "summary"]
        if not summ and not vs:
            # killed without a record: run again alone before judging
            r = run_shard(u, exe, work, tier, i, n, None, u.get("hang", 60) * 2)
            summ = [x for x in r["recs"] if x["kind"] == "summary"]
            vs = [x for x in r["recs"] if x["kind"] != "summary"]
            if not summ and not vs:
                if r["rc"] == "timeout":
                    die("unit %s shard %d exceeded its time limit" % (u["name"], i))
                vs = [dict(kind="died", key="died", case=None, desc="shard %d/%d of %s" % (i, n, u["name"]),
                           msg="harness process ended with %s\n%s" % (r["rc"], r["stderr"][-1500:]))]
        for s in summ:
            for k in ("evaluated", "states", "transitions", "checks"):
                tot[k] += s[k]
            d = per_unit.setdefault(u["name"], dict(cases=0, executions=0))
            d["cases"] = s["cases"]
            d["executions"] += s["evaluated"]
            samples += s["samples"] if i == 0 else s["samples"][-2:]
            notes += s["notes"]
        hashes |= r["hashes"]
        for v in vs:
            viol.append((u, exe, i, n, v, r["stderr"]))
    # one representative per (unit,key), lowest case first; replay before report
    rep = {}
    for x in viol:
        k = (x[0]["name"], x[4]["key"])
        c = x[4]["case"] if x[4]["case"] is not None else -1
        if k not in rep or c < rep[k][0]:
            rep[k] = (c, x)
    known = known_findings(pid)
    confirmed, known_hit, unrepro = [], [], []
    for k in sorted(rep, key=lambda k: rep[k][0])[:40]:
        u, exe, i, n, v, err = rep[k][1]
        if v["case"] is not None:
            r2 = run_shard(u, exe, work, tier, 0, 1, only=v["case"], hang=u.get("hang", 60) * 2, trace=True)
            again = [x for x in r2["recs"] if x["kind"] != "summary"]
            if again:
                err = r2["stderr"]
            else:
                # the case alone passes: state carried over from earlier cases of the shard, so replay the shard
                r2 = run_shard(u, exe, work, tier, i, n, None, u.get("hang", 60) * 2)
                again = [x for x in r2["recs"] if x["kind"] != "summary"]
                if not again:
                    unrepro.append((u["name"], v))
                    continue
                v = dict(v, case=None)
        kf = [t for kk, t in known if kk == v["key"]]
        if kf:
            known_hit.append((v["key"], kf[0]))
        else:
            confirmed.append((u, i, n, v, err))
    for k, t in known:
        # a listed finding is announced whenever it is observed
        if any(kh[0] == k for kh in known_hit):
            print("KNOWN-FINDING: property=%s %s" % (pid, t))
    rdir = os.path.join(VERIF, "replays")
    vout = []
    for j, (u, i, n, v, err) in enumerate(confirmed):
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%s-%d.json" % (pid, tier, j))
        json.dump(dict(property=pid, unit=u["name"], tier=tier, case=v["case"], shard=i, nshard=n, key=v["key"],
                       description=v["desc"], message=v["msg"], stderr=err[-4000:],
                       replay_cmd="python3 run.py %s --replay %s" % (pid, path)), open(path, "w"), indent=1)
        vout.append(dict(key=v["key"], case=v["case"], description=v["desc"][:2000], message=v["msg"][:1000], replay=path))
        print("  violated: %s: %s\n    case: %s" % (v["key"], v["msg"][:600], v["desc"][:1500]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
    for n_, v in unrepro:
        print("note: %s reported %s once and did not reproduce; not counted" % (n_, v["key"]))
    lvl = chk["level"]
    cov = dict(chk.get("coverage", {}))
    cov.update(evaluations=tot["evaluated"], distinct_nontrivial=len(hashes), rule=chk["rule"],
               samples=samples[:24], oracle_comparisons=tot["checks"], exhaustive=not confirmed and not unrepro,
               units=per_unit, bounds=chk["bounds"][tier] if isinstance(chk["bounds"], dict) else chk["bounds"],
               notes=sorted(set(notes)), build_s=round(tb, 1))
    if lvl == "model_checking":
        # the model is executed in lockstep with the implementation: every explored history is a validated trace
        cov["traces_validated_against_impl"] = cov.pop("evaluations")
    if tot["states"]:
        cov["states"] = tot["states"]
    if tot["transitions"]:
        cov["transitions"] = tot["transitions"]
    ev = dict(property=pid, tier=tier, seed=seed, level=lvl, coverage=cov, wall_s=round(time.time() - t0, 2),
              violations=len(vout), violation_details=vout, known_findings=[k for k, _ in known_hit], assumptions=chk.get("assumptions", []))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    print("%s %s: %d executions, %d states, %d transitions, %d comparisons, %d distinct outcomes, %.1fs (build %.1fs)" % (
        pid, tier, tot["evaluated"], tot["states"], tot["transitions"], tot["checks"], len(hashes), time.time() - t0, tb))
    return 1 if confirmed else 0


if __name__ == "__main__":
    main()
