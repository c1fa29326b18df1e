#!/usr/bin/env python3
"""Driver of every check:  check.py <property> [quick|thorough] [--replay FILE] [--keep]
Builds the property's harness(es) from /repo's working tree, runs the exhaustive enumeration in
shards, confirms every failure by replaying it alone, matches known findings, writes evidence."""
import sys, os, json, subprocess, time, hashlib, shutil, struct, threading, mmap, signal, glob
V = os.path.realpath(os.path.join(os.path.dirname(__file__), ".."))
sys.path.insert(0, os.path.join(V, "checks"))
REPO = os.environ.get("HX_REPO", "/repo")
NCPU = min(8, os.cpu_count() or 4)
CXX = "clang++-20"
SH_FMT = "7Q2048s14000s"

def sh_read(path):
    try:
        with open(path, "rb") as f: b = f.read()
        v = struct.unpack_from(SH_FMT, b)
        cs = lambda x: x.split(b"\0")[0].decode("utf-8", "replace")
        return dict(idx=v[0], executions=v[1], states=v[2], transitions=v[3], validated=v[4], done=v[5], capped=v[6], id=cs(v[7]), detail=cs(v[8]))
    except Exception:
        return dict(idx=0, executions=0, states=0, transitions=0, validated=0, done=0, capped=0, id="", detail="")

def tree_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        if os.path.isfile(p): fs = [p]
        else:
            fs = []
            for d, _, n in sorted(os.walk(p)):
                fs += [os.path.join(d, x) for x in sorted(n)]
        for f in fs:
            h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()

SAN = {
  "asan": ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=alignment,vptr,function,nonnull-attribute,pointer-overflow,signed-integer-overflow,shift,float-cast-overflow,enum,bool"],
  "mcsched": ["-fsanitize=thread"],
  "none": [],
}
BASE = ["-std=c++20", "-w", "-g1", "-fno-omit-frame-pointer", "-ferror-limit=5"]

def cc_cmds(spec, bdir):
    """(compile commands, link command, exe)"""
    san = SAN[spec.get("san", "asan")]
    inc = [f"-I{V}/lib", f"-I{V}/checks", f"-I{REPO}/include", f"-I{REPO}/lib/liburing/include"]
    defs = ["-D" + d for d in spec.get("defs", [])]
    opt = [spec.get("opt", "-O1")]
    cmds, objs = [], []
    for i, s in enumerate(spec["src"]):
        nosan = False
        if s.startswith("nosan:"): nosan, s = True, s[6:]
        src = s.replace("{repo}", REPO) if s.startswith("{repo}") else os.path.join(V, s)
        o = os.path.join(bdir, f"o{i}.o")
        f = [] if nosan else san
        cmds.append([CXX] + BASE + (["-O2"] if nosan else opt) + f + inc + defs + spec.get("cflags", []) + ["-c", src, "-o", o])
        objs.append(o)
    exe = os.path.join(bdir, "h")
    lsan = [] if spec.get("san") == "mcsched" else san
    link = [CXX] + lsan + objs + ["-o", exe, "-lpthread"] + spec.get("libs", [])
    return cmds, link, exe

def build(pid, k, spec):
    srcs = [(s[6:] if s.startswith("nosan:") else s) for s in spec["src"]]
    srcs = [s.replace("{repo}", REPO) if s.startswith("{repo}") else os.path.join(V, s) for s in srcs]
    key = tree_hash([f"{REPO}/include", f"{REPO}/lib/liburing", f"{V}/lib", f"{V}/checks"] + srcs)[:16]
    key = hashlib.sha256((key + json.dumps(spec, sort_keys=True, default=str)).encode()).hexdigest()[:16]
    bdir = os.path.join(V, "build", f"{pid}_{k}_{key}")
    exe = os.path.join(bdir, "h")
    if os.path.exists(exe): return exe, None
    for old in glob.glob(os.path.join(V, "build", f"{pid}_{k}_*")): shutil.rmtree(old, ignore_errors=True)
    os.makedirs(bdir, exist_ok=True)
    cmds, link, exe = cc_cmds(spec, bdir)
    procs = [(c, subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)) for c in cmds]
    for c, p in procs:
        o, _ = p.communicate()
        if p.returncode: return None, " ".join(c) + "\n" + o.decode("utf-8", "replace")
    p = subprocess.run(link + [], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode: return None, " ".join(link) + "\n" + p.stdout.decode("utf-8", "replace")
    return exe, None

def env_for(spec, wdir):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=1:allow_user_segv_handler=1:symbolize=1:max_allocation_size_mb=1024"
    e["UBSAN_OPTIONS"] = "halt_on_error=1:exitcode=77:print_stacktrace=1"
    e["MC_WORK"] = wdir
    e["TMPDIR"] = wdir
    e.update(spec.get("env", {}))
    return e

def classify_crash(rc, err):
    if rc == 99: return "hang"
    if "AddressSanitizer" in err:
        for w in err.split("AddressSanitizer: ")[1:]: return "memory-error:" + w.split()[0].rstrip(":")
    if "runtime error:" in err: return "undefined-behaviour:" + err.split("runtime error:")[1].split("\n")[0].strip()[:60]
    if rc in (134, -6): return "abort"
    if rc < 0: return f"signal-{-rc}"
    return f"exit-{rc}"

def cpu_of(pid):
    """CPU seconds used so far by a process we started, and by its ended children"""
    try:
        f = open(f"/proc/{pid}/stat").read().rsplit(")", 1)[1].split(); return sum(int(x) for x in f[11:15]) / os.sysconf("SC_CLK_TCK")
    except Exception: return 0.0

def run_one(exe, spec, args, wdir, cur, out, wall):
    """runs the harness once; returns (rc, stderr-text, timedout)"""
    errf = out + ".err"
    with open(errf, "wb") as ef:
        p = subprocess.Popen([exe] + args + ["--cur", cur, "--out", out, "--hang", str(spec.get("hang", 10))], stdout=ef, stderr=ef,
                             env=env_for(spec, wdir), cwd=wdir, start_new_session=True)
        to = stalled = False
        t0 = time.time(); last = None; lastt = t0; cpu0 = 0.0; stall = spec.get("stall", 60)
        while True:
            try:
                p.wait(timeout=0.02 if time.time() - t0 < 1 else 0.1); break
            except subprocess.TimeoutExpired: pass
            now = time.time()
            s = sh_read(cur); st = (s["idx"], s["executions"])
            if st != last: last, lastt, cpu0 = st, now, cpu_of(p.pid)
            # no progress at all for a long time and no CPU used: blocked for ever
            if now - t0 > wall or (now - lastt > stall and cpu_of(p.pid) - cpu0 < stall / 10) or now - lastt > 6 * stall:
                to = True; stalled = now - t0 <= wall
                try: os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError: pass
                p.wait(); break
        try: os.killpg(p.pid, signal.SIGKILL)
        except Exception: pass
    with open(errf, "rb") as f:
        f.seek(0, 2); n = f.tell(); f.seek(max(0, n - 20000)); txt = f.read().decode("utf-8", "replace")
    return p.returncode, txt, to, stalled

class Shard(threading.Thread):
    def __init__(self, exe, spec, tier, i, n, wdir, deadline):
        super().__init__(); self.exe, self.spec, self.tier, self.i, self.n, self.wdir, self.deadline = exe, spec, tier, i, n, wdir, deadline
        self.fails, self.stats, self.errors, self.agg = [], [], [], dict(executions=0, states=0, transitions=0, validated=0, capped=0)
        self.out = os.path.join(wdir, f"s{i}.out"); self.complete = False; self.skipped = 0
    def run(self):
        start = 0
        for attempt in range(self.spec.get("max_crashes", 4) + 1):
            cur = os.path.join(self.wdir, f"s{self.i}_{attempt}.cur")
            wall = max(5, self.deadline - time.time())
            a = ["--shard", f"{self.i}/{self.n}", "--start", str(start)] + (["--thorough"] if self.tier == "thorough" else [])
            rc, err, to, stalled = run_one(self.exe, self.spec, a, self.wdir, cur, self.out, wall)
            s = sh_read(cur)
            for k in self.agg: self.agg[k] += s[k]
            if s["done"] and rc == 0: self.complete = True; return
            if to and not stalled:
                self.errors.append(("deadline", f"shard {self.i} did not finish before the deadline at case {s['id']}")); return
            key = "hang" if (to and stalled) else classify_crash(rc, err)
            self.fails.append(dict(t="crash", key=key, case=s["id"], idx=s["idx"], choices=s["detail"], msg=f"harness process ended with {key} (rc={rc}) while running this case\n" + tail(err)))
            start = s["idx"] + 1
        self.skipped = 1

def tail(s, n=2500):
    i = s.find("ERROR: AddressSanitizer")
    if i >= 0: return s[i:i+n]
    return s[-n:]

def load_known(pid):
    """known_findings.txt lines:  known: property=<id> key=<key> case=<case id, or prefix*> | <what fails>
                                  fixed: property=<id> <commit> <what failed>   (suppresses nothing)"""
    r = []
    f = os.path.join(V, "known_findings.txt")
    if os.path.exists(f):
        for l in open(f):
            if not l.startswith("known: "): continue
            head, what = l[7:].rstrip("\n").split(" | ", 1)
            d = dict(x.split("=", 1) for x in head.split(" "))
            if d["property"] == pid: r.append(dict(key=d["key"], case=d["case"], what=what))
    return r

def match_known(known, fl):
    for k in known:
        if k["key"] == fl["key"] and (k["case"] == fl["case"] or (k["case"].endswith("*") and fl["case"].startswith(k["case"][:-1]))): return k
    return None

def main():
    pid = sys.argv[1]; tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2 and sys.argv[2] in ("quick", "thorough"): tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    from specs import SPECS
    spec = SPECS[pid]; t0 = time.time()
    harnesses = spec["harnesses"]
    if "--replay" in sys.argv:
        rp = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        h = harnesses[rp["harness"]]; exe, err = build(pid, rp["harness"], h)
        wdir = f"/tmp/hxmc_{pid}_{os.getpid()}"; os.makedirs(wdir, exist_ok=True)
        a = ["--only", rp["case"]] + (["--choices", rp["choices"]] if rp.get("choices") else []) + (["--thorough"] if rp.get("tier") == "thorough" else [])
        r = run_one(exe, h, a, wdir, wdir + "/cur", wdir + "/out", 120)
        print(open(wdir + "/out").read()); print(r[1]); shutil.rmtree(wdir, ignore_errors=True); return 0
    built = [None] * len(harnesses)
    def b(k): built[k] = build(pid, k, harnesses[k])
    ths = [threading.Thread(target=b, args=(k,)) for k in range(len(harnesses))]
    [t.start() for t in ths]; [t.join() for t in ths]
    for k, (exe, err) in enumerate(built):
        if err:
            print(f"BUILD-ERROR property={pid} harness={k}\n{err[-4000:]}"); return 2
    tb = time.time() - t0
    known = load_known(pid); viols, knowns, flaky, errors = [], {}, [], []
    agg = dict(executions=0, states=0, transitions=0, validated=0, capped=0); counters = {}; samples = []; oc = set(); cases = 0; skipped = 0
    wroot = f"/tmp/hxmc_{pid}_{os.getpid()}"
    budget = spec.get("budget", {}).get(tier, 640 if tier == "quick" else 3000)
    for k, h in enumerate(harnesses):
        wdir = os.path.join(wroot, str(k)); os.makedirs(wdir, exist_ok=True)
        if h.get("world_writable"): os.chmod(wroot, 0o777); os.chmod(wdir, 0o777)
        exe = built[k][0]; n = h.get("shards", NCPU)
        shards = [Shard(exe, h, tier, i, n, wdir, t0 + budget) for i in range(n)]
        [s.start() for s in shards]; [s.join() for s in shards]
        hf = []
        for s in shards:
            for kk in agg: agg[kk] += s.agg[kk]
            errors += s.errors; skipped += s.skipped; hf += s.fails
            if os.path.exists(s.out):
                for l in open(s.out):
                    try: j = json.loads(l)
                    except Exception: continue
                    if j["t"] == "fail": hf.append(j)
                    elif j["t"] == "end":
                        cases = max(cases, 0)
                        for c, v in j["counters"].items(): counters[c] = counters.get(c, 0) + v
                        if len(samples) < 8: samples += j["samples"]
            if os.path.exists(s.out + ".oc"):
                b_ = open(s.out + ".oc", "rb").read()
                oc.update((k, x) for x in struct.unpack(f"{len(b_)//8}Q", b_))
        # confirm by replaying alone, one representative per (key, case group)
        seen = set(); conf = 0
        hf.sort(key=lambda f: (f["idx"], f["key"]))
        for f in hf:
            kn = match_known(known, f)
            sig = (f["key"], f["case"]) if kn is None else ("known", kn["key"], f["case"])
            if sig in seen: continue
            seen.add(sig)
            if kn is not None:
                knowns.setdefault(kn["key"], (kn, f)); continue
            if len(viols) >= 12 or sum(v["key"] == f["key"] for v in viols) >= 3 or (viols and time.time() - t0 > 700): continue
            cur, out = os.path.join(wdir, f"r{conf}.cur"), os.path.join(wdir, f"r{conf}.out"); conf += 1
            a = ["--only", f["case"]] + (["--choices", f["choices"]] if f.get("choices") and h.get("explore", True) else []) + (["--thorough"] if tier == "thorough" else [])
            hh = dict(h); hh["hang"] = h.get("hang", 10) * (2 if f["key"] == "hang" else 1)
            rc, err, to, st = run_one(exe, hh, a, wdir, cur, out, 120)
            rep = []
            if os.path.exists(out):
                for l in open(out):
                    try:
                        j = json.loads(l)
                        if j["t"] == "fail": rep.append(j["key"])
                    except Exception: pass
            if not (sh_read(cur)["done"] and rc == 0): rep.append("hang" if to else classify_crash(rc, err))
            f["harness"] = k; f["tier"] = tier
            if f["key"] in rep or (f["t"] == "crash" and rep): viols.append(f)
            elif rep:   # fails differently when alone: still a failure of the same case
                viols.append(f)
            else: flaky.append(f)
    shutil.rmtree(wroot, ignore_errors=True)
    wall = time.time() - t0
    level = spec["level"]
    cov = {"evaluations": agg["executions"], "distinct_nontrivial": len(oc), "rule": spec["rule"], "samples": samples[:8] or ["(none)"],
           "counters": counters, "bounds": spec["bounds"][tier] if isinstance(spec["bounds"], dict) else spec["bounds"],
           "exhaustive": not agg["capped"] and not skipped and not errors, "build_s": round(tb, 1)}
    if level == "model_checking":
        cov.update(states=agg["states"] or agg["executions"], transitions=agg["transitions"], traces_validated_against_impl=agg["validated"] or agg["executions"])
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": spec.get("assumptions", []), "wall_s": round(wall, 2), "violations": len(viols)}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)
    print(f"{pid} {tier}: executions={agg['executions']} states={agg['states']} transitions={agg['transitions']} distinct_outcomes={len(oc)} capped={agg['capped']} wall={wall:.1f}s (build {tb:.1f}s)")
    for key, (kn, f) in knowns.items(): print(f"KNOWN-FINDING: property={pid} {kn['what']} [key={key}; e.g. case {f['case']}]")
    for f in flaky: print(f"NOTE: not reproduced on replay, ignored: key={f['key']} case={f['case']}")
    for i, f in enumerate(viols):
        rd = os.path.join(V, "replays"); os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, f"{pid}_{i}.json"); json.dump(f, open(rp, "w"), indent=1)
        print(f"VIOLATION property={pid} replay={rp}")
        print(f"  key={f['key']} case={f['case'][:300]} choices={f.get('choices','')[:200]}\n  {f['msg'][:1500]}")
    if viols: return 1
    if flaky and not viols:
        print("ERROR: failures that do not replay"); return 3
    if errors:
        for e in errors: print("ERROR:", e)
        return 4
    if skipped:
        print("ERROR: too many crashes"); return 5
    return 0
if __name__ == "__main__":
    sys.exit(main())
