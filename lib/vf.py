"""Machinery shared by all checks: build, explore, validate with TLC, report."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time, glob
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.environ.get("VF_BUILD") or os.path.join(VERIF, "build")
EVID = os.environ.get("VF_EVIDENCE") or os.path.join(VERIF, "evidence")
HARNESS = os.path.join(VERIF, "harness")
SPEC = os.path.join(VERIF, "spec")
NPROC = int(os.environ.get("VF_NPROC") or min(8, os.cpu_count() or 4))
FAST = int(os.environ.get("VF_FAST") or 0)   # tools/mutate.py: a first, cheap look
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CXX = "g++"


class InfraError(Exception):
    pass


class Rejected(Exception):
    """The compiler rejects a client program of the specification: no behaviour of it can be produced any more."""


def log(*a):
    print(*a, flush=True)


# ------------------------------------------------------------------- build
def _files(root, exts):
    out = []
    for d, _, fs in os.walk(root):
        for f in fs:
            if f.endswith(exts):
                out.append(os.path.join(d, f))
    return sorted(out)


def _hash(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def _config_h(own):
    src = open(os.path.join(REPO, "macoro", "config.h.in")).read()
    on = {"MACORO_CPP_20": "ON"}
    if not own:
        on["MACORO_HAS_STD_STOP_TOKEN"] = "ON"

    def sub(m):
        name = m.group(1)
        return f"#define {name} {on[name]}" if name in on else f"/* #undef {name} */"
    return re.sub(r"#cmakedefine\s+(\w+).*", sub, src)


def run(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, **kw)


# drivers compiled differently: without optimisation the compiler's own accesses to coroutine frames stay visible
# bulk: with the tail calls of an optimised build, or a row of awaits takes stack in any case
_TAIL = ["-O2", "--param", "tsan-instrument-func-entry-exit=0"]
SCEN_FLAGS = {("coro", "own"): ["-O0"], ("bulk", "own"): _TAIL, ("bulk", "std"): _TAIL}


def build(scens, cfgs):
    """Compile the scenario drivers against REPO's working tree; returns {(scen, cfg): exe}."""
    repo_files = _files(os.path.join(REPO, "macoro"), (".h", ".cpp", ".in", ".hpp", ".inl", ".ipp"))
    har = _files(HARNESS, (".h", ".cpp"))
    key = _hash(repo_files + har, REPO + repr(SCEN_FLAGS))
    root = os.path.join(BUILD, key)
    os.makedirs(root, exist_ok=True)
    # drop older builds
    for d in os.listdir(BUILD):
        p = os.path.join(BUILD, d)
        if d != key and d[:4] != "vrt-" and os.path.isdir(p) and time.time() - os.path.getmtime(p) > 3600:
            shutil.rmtree(p, ignore_errors=True)
    jobs = {}
    vd = os.path.join(BUILD, "vrt-" + _hash([os.path.join(HARNESS, f) for f in ("vrt.h", "vrt.cpp")]))
    os.makedirs(vd, exist_ok=True)
    vrt = os.path.join(vd, "vrt.o")
    jobs[vrt] = [CXX, "-std=c++20", "-O2", "-g", "-c", os.path.join(HARNESS, "vrt.cpp")]
    links = {}
    for cfg in cfgs:
        own = cfg == "own"
        cd = os.path.join(root, cfg)
        os.makedirs(os.path.join(cd, "inc", "macoro"), exist_ok=True)
        with open(os.path.join(cd, "inc", "macoro", "config.h"), "w") as f:
            f.write(_config_h(own))
        flags = ["-std=c++20", "-O1", "-g1", "-w", "-fsanitize=thread"] + ([] if own else ["-DNDEBUG"]) + \
            ["-I", os.path.join(cd, "inc"), "-I", REPO, "-I", HARNESS, "-I", os.path.join(HARNESS, "scen")]
        libs = []
        for s in repo_files:
            b = os.path.basename(s)
            if s.endswith(".cpp") and not b.startswith("win32") and (own or not b.startswith("stop_")):
                o = os.path.join(cd, b + ".o")
                jobs[o] = [CXX] + flags + ["-c", s]
                libs.append(o)
        for sc in scens:
            o = os.path.join(cd, "scen_" + sc + ".o")
            jobs[o] = [CXX] + flags + SCEN_FLAGS.get((sc, cfg), []) + ["-c", os.path.join(HARNESS, "scen", sc + ".cpp")]
            links[(sc, cfg)] = (os.path.join(cd, sc), [o] + libs + [vrt])

    failed = []

    def comp(item):
        o, cmd = item
        if os.path.exists(o):
            return
        tmp = f"{o}.{os.getpid()}.o"
        r = run(cmd + ["-o", tmp], timeout=800)
        if r.returncode:
            if os.path.basename(o).startswith("scen_") and re.search(r": error: |: undefined reference", r.stdout) and \
                    not re.search(r"internal compiler error|Killed|No space left|cannot write|No such file", r.stdout):
                failed.append((o, r.stdout))
                return
            raise InfraError("compile failed: " + " ".join(cmd) + "\n" + r.stdout[-4000:])
        os.replace(tmp, o)

    def link(item):
        exe, objs = item
        if os.path.exists(exe):
            return
        tmp = f"{exe}.{os.getpid()}"
        r = run([CXX] + objs + ["-o", tmp, "-ldl"])
        if r.returncode:
            raise InfraError("link failed: " + r.stdout[-4000:])
        os.replace(tmp, exe)

    with ThreadPoolExecutor(NPROC) as ex:
        list(ex.map(comp, jobs.items()))
        if failed:   # everything else compiled
            o, out = sorted(failed)[0]
            raise Rejected(f"{os.path.relpath(o, root)}: " + "\n".join([l for l in out.splitlines() if ": error: " in l][:5]) + "\n" + out[-3000:])
        list(ex.map(link, links.values()))
    return {k: v[0] for k, v in links.items()}


# ----------------------------------------------------------------- explore
BAD = {"DataRace", "UseAfterFree", "OutOfBounds", "DoubleFree", "BadFree", "BadUnlock", "Leak", "Crash", "Hang",
       "Deadlock", "Livelock", "Assert", "Terminate", "Unhandled", "BadPayload"}


def explore(exe, progs, opts, seed, workdir, tag, nproc=NPROC):
    """Run every program of progs under controlled schedules; returns (traces, stats)."""
    pf = os.path.join(workdir, tag + ".progs")
    with open(pf, "w") as f:
        f.write("\n".join(progs) + "\n")
    n = min(nproc, len(progs))
    procs = []
    for i in range(n):
        out = os.path.join(workdir, f"{tag}.{i}.out")
        cmd = [exe, f"--progs={pf}", f"--out={out}", f"--first={i}", f"--stride={n}", f"--seed={seed}"]
        cmd += [f"--{k}={v}" for k, v in opts.items()]
        procs.append((subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True), out))
    traces, stats = [], []
    for p, out in procs:
        o, _ = p.communicate()
        if p.returncode:
            raise InfraError(f"explorer {exe} failed ({p.returncode}): {o[-2000:]}")
        with open(out) as f:
            for line in f:
                d = json.loads(line)
                if "stat" in d:
                    stats.append(d)
                else:
                    traces.append(d)
        os.remove(out)
    return traces, stats


def replay(exe, progs_file, idx, ch, opts, verbose=False):
    cmd = [exe, f"--progs={progs_file}", "--out=/dev/stdout", f"--replay={idx}", f"--ch={ch}"]
    cmd += [f"--{k}={v}" for k, v in opts.items() if k not in ("pb", "dfs", "rnd", "time")]
    if verbose:
        cmd.append("--verbose")
    try:
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=60)
    except subprocess.TimeoutExpired:
        return None


# ---------------------------------------------------------------- validate
class Trie:
    def __init__(self):
        self.nodes = [{"ev": {"e": "root"}, "kids": []}]
        self.idx = {}
        self.parent = [0]

    def add(self, tr):
        n = 0
        for e in tr:
            k = (n, json.dumps(e, sort_keys=True))
            m = self.idx.get(k)
            if m is None:
                m = len(self.nodes)
                self.idx[k] = m
                self.nodes.append({"ev": e, "kids": []})
                self.parent.append(n)
                self.nodes[n]["kids"].append(m + 1)
            n = m
        return n


def tlc(spec, cfg, env=None, workers=1, timeout=800, mem="3g", extra=(), workdir=None):
    md = tempfile.mkdtemp(prefix="tlc", dir=workdir)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", f"-Xmx{mem}", "-Xss64m", "-cp", JAR, f"-Djava.io.tmpdir={md}",
           "tlc2.TLC", "-workers", str(workers), "-metadir", md, "-noGenerateSpecTE", "-config", cfg, *extra, spec + ".tla"]
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise InfraError(f"TLC timed out on {spec}/{cfg}")
    finally:
        shutil.rmtree(md, ignore_errors=True)
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found, ([\d,]+) states left", r.stdout)
    st = (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)
    return r.returncode, r.stdout, st


def validate(spec, cfg, traces, workdir, tag, constants=None):
    """Check all traces against spec; returns (rejected [(trace, matched_len)], states, transitions, tries)."""
    # group by program, spread over the JVMs
    total = sum(len(t["tr"]) for t in traces)
    nsh = max(1, min(NPROC, total // 3000 + 1))
    groups = {}
    for t in traces:
        groups.setdefault(json.dumps(t["tr"][:1]) + str(t["p"]), []).append(t)
    shards = [[] for _ in range(nsh)]
    for g in sorted(groups.values(), key=len, reverse=True):
        min(shards, key=len).extend(g)
    shards = [s for s in shards if s]

    def one(i):
        trie = Trie()
        leaf = [trie.add(t["tr"]) for t in shards[i]]
        fi = os.path.join(workdir, f"{tag}.{i}.tr.json")
        fo = os.path.join(workdir, f"{tag}.{i}.res.json")
        json.dump(trie.nodes, open(fi, "w"))
        if os.path.exists(fo):
            os.remove(fo)
        rc, out, st = tlc(spec, cfg, {"VF_TRACES": fi, "VF_OUT": fo}, 1, workdir=workdir)
        rej = []
        if rc == 0:
            if not os.path.exists(fo):
                raise InfraError(f"TLC wrote no result for {spec}: {out[-3000:]}")
            n, un = json.load(open(fo))
            if n != len(trie.nodes):
                raise InfraError("TLC read a different number of nodes")
            un = {u - 1 for u in un}
        elif rc in (12, 13) and "is violated" in out:
            # an invariant of the specification does not hold in a state of a recorded execution
            nn = [int(x) for x in re.findall(r"node = (\d+)", out)]
            bad = nn[-1] - 1 if nn else 0
            inv = re.search(r"(Invariant|Action property|Temporal properties?) ?(\S*) (is|were) violated", out)
            for t, n in zip(shards[i], leaf):
                m = n
                path = []
                while m:
                    path.append(m)
                    m = trie.parent[m]
                if bad in path:
                    rej.append((t, len(path) - path.index(bad), "invariant " + (inv.group(2) if inv else "?")))
                    break
            os.remove(fi)
            return rej, st, len(trie.nodes)
        elif rc == 75 and "The behavior up to this point is" in out and "overflow" not in out.lower() and "memory" not in out.lower():
            # a step after this state is so far off that the specification does not even evaluate
            nn = [int(x) for x in re.findall(r"node = (\d+)", out)]
            bad = nn[-1] - 1 if nn else 0
            for t, n in zip(shards[i], leaf):
                m, path = n, []
                while m:
                    path.append(m)
                    m = trie.parent[m]
                if bad in path[1:]:
                    rej.append((t, len(path) - path.index(bad), "the specification is undefined here"))
            if not rej:
                raise InfraError(f"TLC failed on {spec}/{cfg} (rc={rc}):\n{out[-4000:]}")
            os.remove(fi)
            return rej, st, len(trie.nodes)
        else:
            raise InfraError(f"TLC failed on {spec}/{cfg} (rc={rc}):\n{out[-4000:]}")
        for t, n in zip(shards[i], leaf):
            if n in un:
                m, depth = n, len(t["tr"])
                while m in un:
                    m = trie.parent[m]
                    depth -= 1
                rej.append((t, depth, ""))
        os.remove(fi)
        os.remove(fo)
        return rej, st, len(trie.nodes)

    rej, gen, dist, nodes = [], 0, 0, 0
    with ThreadPoolExecutor(NPROC) as ex:
        for r, st, nn in ex.map(one, range(len(shards))):
            rej += r
            gen += st[0]
            dist += st[1]
            nodes += nn
    return rej, dist, gen, nodes


# ------------------------------------------------------------------- check
class Suite:
    """One scenario driver, a set of client programs and the trace specification that judges them."""

    def __init__(self, scen, spec, progs, cfgs=("std", "own"), cfg=None, opts=None, thorough=None, cfg_opts=None):
        only = os.environ.get("VF_CFGS")   # tools/mutate.py: one configuration
        if only and set(only.split(",")) & set(cfgs):
            cfgs = tuple(c for c in cfgs if c in only.split(","))
        self.scen, self.spec, self.progs, self.cfgs = scen, spec, progs, cfgs
        self.cfg = cfg or spec + ".cfg"
        self.opts = dict(pb=2, dfs=4000, rnd=1500, time=4)
        self.opts.update(opts or {})
        self.thorough = dict(pb=3, dfs=60000, rnd=20000, time=20)
        self.thorough.update({k: v for k, v in (opts or {}).items() if k not in ("dfs", "rnd", "time", "pb")})
        self.thorough.update(thorough or {})
        self.cfg_opts = cfg_opts or {}


class Model:
    """An exhaustive TLC run on the specification itself."""

    def __init__(self, spec, cfg=None, tcfg=None, workers=4):
        self.spec, self.cfg, self.tcfg, self.workers = spec, cfg or spec + ".cfg", tcfg, workers


def known_findings(prop):
    p = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"] if k["property"] == prop and k.get("status") == "open"]


def matches(k, scen, prog, tr, depth, detail):
    if k.get("scen") != scen:
        return False
    if "prog" in k and prog not in k["prog"]:
        return False
    if "event" in k:
        ev = tr[depth] if depth < len(tr) else {"e": "<end>"}
        if any(ev.get(a) != b for a, b in k["event"].items()):
            return False
    return True


def check(prop, suites, models, tier, seed):
    t0 = time.time()
    wd = tempfile.mkdtemp(prefix="vf")
    repdir = os.path.join(EVID, "replay")
    os.makedirs(repdir, exist_ok=True)
    try:
        return _check(prop, suites, models, tier, seed, t0, wd, repdir)
    except Rejected as e:
        rp = os.path.join(repdir, f"{prop}-build.json")
        json.dump(dict(property=prop, what="client programs of the specification no longer compile against the library", log=str(e)), open(rp, "w"), indent=1)
        ev = dict(property=prop, tier=tier, seed=seed, level="model_checking",
                  coverage=dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[dict(compiler=str(e)[:1000])]),
                  assumptions=[], wall_s=round(time.time() - t0, 2), violations=1)
        json.dump(ev, open(os.path.join(EVID, prop + ".json"), "w"), indent=1)
        log(f"[{prop}] the client programs are rejected by the compiler: {str(e)[:600]}")
        print(f"VIOLATION property={prop} replay={rp}", flush=True)
        return 1
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def _check(prop, suites, models, tier, seed, t0, wd, repdir):
    scens = sorted({s.scen for s in suites})
    cfgs = sorted({c for s in suites for c in s.cfgs})
    ex = ThreadPoolExecutor(4)

    def run_model(m):
        cfg = m.tcfg if (tier == "thorough" and m.tcfg) else m.cfg
        rc, out, st = tlc(m.spec, cfg, workers=m.workers, timeout=3000 if tier == "thorough" else 800, workdir=wd, mem="4g")
        if rc != 0:
            raise InfraError(f"the specification {m.spec} does not satisfy its own properties (rc={rc}):\n{out[-3000:]}")
        return m.spec, cfg, st
    mf = [ex.submit(run_model, m) for m in ([] if FAST else models)]
    exes = build(scens, cfgs)
    log(f"[{prop}] built {len(exes)} drivers in {time.time()-t0:.1f}s")
    runs = points = ntr = tstates = ttrans = nprog = 0
    violations, known, samples, suite_info = [], [], [], []
    for si, s in enumerate(suites):
        progs = s.progs(seed, tier)
        if not progs:
            continue
        nprog += len(progs)
        opts = dict(s.thorough if tier == "thorough" else s.opts)
        for kv in os.environ.get("VF_OPTS", "").split():
            k, v = kv.split("=")
            opts[k] = int(v)
        if FAST > 1:
            opts.update(dfs=max(1, opts["dfs"] // FAST), rnd=opts["rnd"] // FAST)
        allt = {}
        sruns = 0
        complete = 0
        for c in s.cfgs:
            o = dict(opts)
            o.update(s.cfg_opts.get(c, {}))
            tr, st = explore(exes[(s.scen, c)], progs, o, seed, wd, f"s{si}{c}")
            if len(st) != len(progs):
                raise InfraError(f"explorer reported {len(st)} of {len(progs)} programs")
            if tier == "thorough" and o["dfs"] > 100:   # once more, with reads of older stores in the exhaustive part
                tr2, st2 = explore(exes[(s.scen, c)], progs, {**o, "wmm": 2, "pb": 2, "rnd": 0}, seed, wd, f"s{si}{c}w")
                tr += tr2
                if len(st2) != len(progs):
                    raise InfraError(f"explorer reported {len(st2)} of {len(progs)} programs")
                sruns += sum(x["runs"] for x in st2)
                points += sum(x["points"] for x in st2)
            sruns += sum(x["runs"] for x in st)
            points += sum(x["points"] for x in st)
            complete += sum(1 for x in st if x["complete"])
            for t in tr:
                t["cfg"] = c
                k = (t["p"], json.dumps(t["tr"]))
                if k not in allt:
                    allt[k] = t
        runs += sruns
        traces = list(allt.values())
        if not traces:
            raise InfraError("no traces recorded")
        rej, ds, gs, nn = validate(s.spec, s.cfg, traces, wd, f"s{si}")
        ntr += len(traces)
        tstates += ds
        ttrans += gs
        suite_info.append(dict(scenario=s.scen, spec=s.spec, programs=len(progs), runs=sruns, distinct_traces=len(traces),
                               trie_nodes=nn, programs_with_complete_bounded_dfs=complete, rejected=len(rej)))
        log(f"[{prop}] {s.scen}/{s.spec}: {len(progs)} programs, {sruns} runs, {len(traces)} distinct traces, "
            f"{nn} nodes, {len(rej)} rejected, {time.time()-t0:.1f}s")
        for t in traces[:: max(1, len(traces) // 2)][:2]:
            samples.append(dict(scenario=s.scen, config=t["cfg"], program=progs[t["p"]], trace=t["tr"][:60]))
        pf = os.path.join(wd, "replay.progs")
        with open(pf, "w") as f:
            f.write("\n".join(progs) + "\n")
        rej.sort(key=lambda r: (len(r[0]["tr"]), r[0]["p"]))
        confirmed = 0
        for t, depth, why in rej:
            # confirm: replay the schedule against the real code
            exe = exes[(s.scen, t["cfg"])]
            r = replay(exe, pf, t["p"], t["ch"], opts)
            same = False
            if r is None:
                same = t["tr"] and t["tr"][-1]["e"] in ("Hang",)
            elif r.returncode < 0:
                same = t["tr"] and t["tr"][-1]["e"] in ("Crash", "Hang")
            elif r.returncode == 0:
                try:
                    same = json.loads(r.stdout.strip().splitlines()[0])["tr"] == t["tr"]
                except Exception:
                    same = False
            if not same:
                if r is not None:
                    log(f"[{prop}] not reproduced: {s.scen} {t['cfg']} prog={progs[t['p']]!r} ch={t['ch']} rc={r.returncode} {r.stderr[-300:]}")
                continue
            prog = progs[t["p"]]
            k = next((k for k in known_findings(prop) if matches(k, s.scen, prog, t["tr"], depth, t.get("d", ""))), None)
            if k is not None:
                if k["what"] not in known:
                    known.append(k["what"])
                continue
            confirmed += 1
            nxt = t["tr"][depth] if depth < len(t["tr"]) else {"e": "<end of trace>"}
            rp = os.path.join(repdir, f"{prop}-{s.scen}-{len(violations)}.json")
            json.dump(dict(property=prop, scenario=s.scen, config=t["cfg"], spec=s.spec, program=prog, choices=t["ch"],
                           options={a: b for a, b in opts.items() if a not in ("pb", "dfs", "rnd", "time")},
                           matched_events=depth, first_event_not_allowed=nxt, why=why, detail=t.get("d", ""), trace=t["tr"],
                           how="build with bin/check build, then: <driver> --progs=<file with the program> --replay=0 --ch=<choices> --verbose"),
                      open(rp, "w"), indent=1)
            violations.append((rp, s.scen, prog, nxt, t.get("d", ""), why))
            if confirmed >= 3:
                break
        if rej and not confirmed and not known:
            raise InfraError(f"{len(rej)} rejected traces of {s.scen} could not be reproduced")
        if violations and tier == "quick":
            break
    ms = mt = 0
    minfo = []
    for f in mf:
        spec, cfg, st = f.result()
        ms += st[1]
        mt += st[0]
        minfo.append(dict(spec=spec, cfg=cfg, distinct_states=st[1], states_generated=st[0]))
    for i in minfo:
        log(f"[{prop}] model {i['spec']} ({i['cfg']}): {i['distinct_states']} distinct states")
    wall = time.time() - t0
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking",
              coverage=dict(states=ms + tstates, transitions=mt + ttrans, traces_validated_against_impl=ntr,
                            samples=samples[:6], client_programs=nprog, executions_of_real_code=runs, scheduling_points=points,
                            suites=suite_info, exhaustive_models=minfo),
              assumptions=["client programs and preemption bounds as listed per suite", "x86-TSO store buffering, a view-based model of C++20 atomics (no load buffering) and happens-before race detection stand for the C++ memory model"],
              wall_s=round(wall, 2), violations=len(violations))
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in known:
        print(f"KNOWN-FINDING: property={prop} {k}")
    for rp, sc, prog, nxt, d, why in violations:
        log(f"[{prop}] {sc} program {prog!r}: event {json.dumps(nxt)} is not allowed here {why} {d}")
        print(f"VIOLATION property={prop} replay={rp}", flush=True)
    log(f"[{prop}] {'VIOLATED' if violations else 'held'}: {runs} executions, {ntr} traces, {ms+tstates} states, {wall:.1f}s")
    return 1 if violations else 0
