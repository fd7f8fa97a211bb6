#!/usr/bin/env python3
"""Mutation campaign: which small changes to the library do the checks miss?

mutate.py OUT.jsonl [FILE...]   first pass on every mutant, cheap settings (one configuration, reduced exploration),
                                a full quick check on those that survive.
Each line of OUT.jsonl: file, line, what, props tried, verdict (caught/survived/build). Works on scratch copies.
"""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {
    "channel.h": "C01 C02", "sequence_barrier.h": "C03", "sequence_mpsc.h": "C04 C03 C01", "sequence_spsc.h": "C04 C03 C01",
    "sequence_range.h": "C04", "sequence_traits.h": "C03", "barrier.h": "C20 C05", "async_scope.h": "C05 C06 C18",
    "detail/scoped_task_promise.h": "C06 C05 C19", "when_all_scope.h": "C19 C18", "task.h": "C07 C18",
    "when_all.h": "C08", "detail/when_all_awaitable.h": "C08 C18", "detail/when_all_task.h": "C08 C18", "detail/when_all_counter.h": "C08",
    "manual_reset_event.h": "C09", "detail/stop_callback.h": "C10", "detail/stop_source.cpp": "C10", "detail/stop_source.h": "C10",
    "detail/stop_state.cpp": "C10", "detail/stop_state.h": "C10", "detail/stop_token.cpp": "C10", "detail/stop_token.h": "C10",
    "stop.h": "C11", "thread_pool.h": "C12 C13", "timeout.h": "C14", "take_until.h": "C14", "wrap.h": "C16",
    "result.h": "C16", "sync_wait.h": "C15 C18", "coro_frame.h": "C17", "coroutine_handle.h": "C17", "awaiter.h": "C17", "macros.h": "C17 C18",
    "type_traits.h": "C17", "trace.h": "C18", "start_on.h": "C12", "transfer_to.h": "C12", "detail/manual_lifetime.h": "C06",
    "inline_scheduler.h": "C15",
}
SRC = os.environ.get("VF_REPO", "/repo")
ORD = ("acquire", "release", "acq_rel", "seq_cst", "consume")


def mutants(text):
    lines = text.split("\n")
    incom = False
    code = []
    for l in lines:
        s = l
        if incom:
            if "*/" in s:
                s = s.split("*/", 1)[1]
                incom = False
            else:
                code.append("")
                continue
        while "/*" in s:
            a, b = s.split("/*", 1)
            if "*/" in b:
                s = a + b.split("*/", 1)[1]
            else:
                s = a
                incom = True
        code.append(re.sub(r"//.*", "", s))
    stmt = re.compile(r"^\s*(?!return\b|using\b|typedef\b|friend\b|struct\b|class\b|template\b|static_assert|assert|public|private|#|case\b|break\b)[\w:*&<(+\-~!][^{}]*;\s*$")
    for i, c in enumerate(code):
        if not c.strip() or c.strip().startswith("#") or c.rstrip().endswith("\\"):
            if not c.rstrip().endswith("\\"):
                continue

        def rep(new, what):
            m = lines[:]
            m[i] = new
            return i + 1, what, "\n".join(m)
        if re.search(r"= (default|delete);|^\s*static constexpr", c):
            continue
        simple = stmt.match(c) and c.count("(") == c.count(")") and not re.match(r"^\s*(for|while|if|else|do)\b", c)
        prev = code[i - 1].rstrip() if i else ""
        starts = prev.endswith((";", "{", "}", ":")) or not prev.strip()
        if simple and starts and "(" in c + "(" and not re.match(r"^\s*(const\s+)?[\w:<>,*& ]+\s+[\w]+\s*;\s*$", c):
            yield rep("", "delete: " + c.strip())
            nx = code[i + 1] if i + 1 < len(code) else ""
            decl = r"^\s*(const )?[\w:<>,]+[&* ]+\w+( =.*)?;|noexcept;"
            if stmt.match(nx) and not re.match(decl, c) and not re.match(decl, nx) and nx.count("(") == nx.count(")") and not re.match(r"^\s*(for|while|if|else|do)\b", nx):
                m = lines[:]
                m[i], m[i + 1] = m[i + 1], m[i]
                yield i + 1, "swap with next: " + c.strip(), "\n".join(m)
        mm = re.match(r"^(\s*(?:\}?\s*else\s+)?(?:if|while)\s*)\((.*)\)(\s*\{?\s*)$", c)
        if mm and mm.group(2).count("(") == mm.group(2).count(")") and ";" not in mm.group(2) and "constexpr" not in c:
            yield rep(f"{mm.group(1)}(!({mm.group(2)})){mm.group(3)}", "negate: " + c.strip())
        mm = re.match(r"^(\s*return\s+)([^;]*(?:==|!=|<|>|&&|\|\||\.ready|done\(\))[^;]*);\s*$", c)
        if mm and "<" not in mm.group(2).replace("<=", "").replace(" < ", ""):
            yield rep(f"{mm.group(1)}!({mm.group(2)});", "negate: " + c.strip())
        for a, b in ((" < ", " <= "), (" <= ", " < "), (" > ", " >= "), (" >= ", " > "), (" == ", " != "), (" != ", " == "),
                     (" && ", " || "), (" || ", " && "), (" + 1", ""), (" - 1", ""), ("++", "--"), ("--", "++"), ("true", "false"),
                     ("false", "true"), ("fetch_add", "fetch_sub"), ("fetch_sub", "fetch_add"), (" + ", " - "), (" - ", " + "),
                     ("notify_all", "notify_one"), ("std::move", "")):
            if a in c and not c.strip().startswith(("template", "using", "static_assert", "assert")):
                if a.strip() in ("<", ">") and ("template" in c or "requires" in c):
                    continue
                k = c.find(a)
                if a in ("true", "false") and (c[k - 1:k].isalnum() or c[k - 1:k] == "_" or c[k + len(a):k + len(a) + 1].isalnum() or c[k + len(a):k + len(a) + 1] == "_"):
                    continue
                yield rep(c.replace(a, b, 1), f"{a!r} -> {b!r}: " + c.strip())
        for o in ORD:
            k = "memory_order_" + o
            if k in c:
                yield rep(c.replace(k, "memory_order_relaxed", 1), "relaxed: " + c.strip())
                if c.count(k) > 1:
                    p = c.rfind(k)
                    yield rep(c[:p] + "memory_order_relaxed" + c[p + len(k):], "relaxed(last): " + c.strip())
        if re.search(r"std::(unique_lock|lock_guard|scoped_lock)", c) and c.strip().endswith(";"):
            yield rep("", "no lock: " + c.strip())


def mutants2(text):
    """more: statements doubled or moved further, conditions reduced, loops, early exits, literals"""
    base = {new for _, _, new in mutants(text)}
    lines = text.split("\n")
    code = [re.sub(r"//.*", "", l) for l in lines]
    skip = re.compile(r"^\s*(for|while|if|else|do|return|using|typedef|friend|struct|class|template|static_assert|assert|public|private|#|case|break|continue|namespace)\b")
    stmt = re.compile(r"^\s*[\w:*&<(+\-~!][^{}]*;\s*$")

    def simple(i):
        c = code[i]
        return stmt.match(c) and not skip.match(c) and c.count("(") == c.count(")") and "= default" not in c and "= delete" not in c and "noexcept;" not in c
    decl = re.compile(r"^\s*(const )?[\w:<>,]+[&* ]+\w+( =.*|\{.*|\(.*)?;|^\s*auto ")
    for i, c in enumerate(code):
        if not c.strip() or c.strip().startswith("#"):
            continue

        def rep(new, what):
            m = lines[:]
            m[i] = new
            return i + 1, what, "\n".join(m)
        out = []
        if simple(i) and not decl.match(c) and c.rstrip().endswith(";"):
            out.append(rep(c + " " + c.strip(), "twice: " + c.strip()))
            for step in (1, -1):
                j, k = i + step, 0
                while 0 <= j < len(code) and k < 4 and simple(j):
                    k += 1
                    if k >= 2:
                        m = lines[:]
                        l = m.pop(i)
                        m.insert(j, l)
                        out.append((i + 1, f"moved {step * k:+d}: " + c.strip(), "\n".join(m)))
                    j += step
                # across the end or the beginning of the block
                if 0 <= j < len(code) and code[j].strip() == ("}" if step > 0 else "{") and k < 4:
                    m = lines[:]
                    l = m.pop(i)
                    if step > 0:
                        m.insert(j, l)
                    else:
                        q = j - 1
                        if re.match(r"^\s*(if|while|for|do|else)\b", code[q]) or not code[q].strip():
                            m.insert(q if code[q].strip() else j, l)
                        else:
                            m = None
                    if m:
                        out.append((i + 1, f"moved out {step:+d}: " + c.strip(), "\n".join(m)))
        mm = re.search(r"std::exchange\(([^,()]+), *[^()]*(\{\})?\)", c)
        if mm:
            out.append(rep(c.replace(mm.group(0), mm.group(1)), "no exchange: " + c.strip()))
        if re.match(r"^\s*while\b", c):
            out.append(rep(c.replace("while", "if", 1), "while -> if: " + c.strip()))
        mm = re.match(r"^(\s*(?:\}?\s*else\s+)?(?:if|while)\s*)\((.*)\)(\s*\{?\s*)$", c)
        if mm:
            for op in ("&&", "||"):
                t = mm.group(2).split(op)
                if len(t) == 2 and all(x.count("(") == x.count(")") for x in t):
                    out.append(rep(f"{mm.group(1)}({t[0]}){mm.group(3)}", f"without the right of {op}: " + c.strip()))
                    out.append(rep(f"{mm.group(1)}({t[1]}){mm.group(3)}", f"without the left of {op}: " + c.strip()))
            out.append(rep(f"{mm.group(1)}(true){mm.group(3)}", "always: " + c.strip()) if "if" in mm.group(1) and "constexpr" not in c else None)
            out.append(rep(f"{mm.group(1)}(false && ({mm.group(2)})){mm.group(3)}", "never: " + c.strip()) if "constexpr" not in c else None)
        if re.match(r"^\s*(break|continue|return);\s*$", c):
            out.append(rep(re.sub(r"(break|continue|return);", ";", c), "without: " + c.strip()))
        if re.match(r"^\s*else if\b", c):
            out.append(rep(c.replace("else if", "if", 1), "else dropped: " + c.strip()))
        for mm in re.finditer(r"(?<![\w.])([01])(?![\w.])", c):
            if not c.strip().startswith(("template", "using", "static_assert", "assert", "for")) and "= 0;" not in c:
                out.append(rep(c[:mm.start()] + ("1" if mm.group(1) == "0" else "2") + c[mm.end():], "literal: " + c.strip()))
        if "[&]" in c:
            out.append(rep(c.replace("[&]", "[=]", 1), "by copy: " + c.strip()))
        for o in out:
            if o and o[2] not in base and o[2] != text:
                yield o


def main():
    out = sys.argv[1]
    files = sys.argv[2:] or sorted(MAP)
    jobs = []
    for f in files:
        t = open(SRC + "/macoro/" + f).read()
        seen = {t}
        for ln, what, new in (mutants2 if os.environ.get("OPS") == "2" else mutants)(t):
            if new not in seen:
                seen.add(new)
                jobs.append((f, ln, what, new))
    lim = int(os.environ.get("LIMIT") or 0)
    if lim:
        import random
        byf = {}
        for j in jobs:
            byf.setdefault(j[0], []).append(j)
        jobs = [j for f in byf for j in (byf[f] if len(byf[f]) <= lim else random.Random(1).sample(byf[f], lim))]
    done = set()
    if os.path.exists(out):
        for l in open(out):
            d = json.loads(l)
            done.add((d["file"], d["line"], d["what"]))
    jobs = [j for j in jobs if (j[0], j[1], j[2]) not in done]
    print(len(jobs), "mutants", flush=True)
    if os.environ.get("COUNT"):
        return
    W = int(os.environ.get("WORKERS", 4))
    import queue
    slots = queue.Queue()
    for i in range(W):
        slots.put(i)

    def run(prop, repo, slot, fast, cfgs):
        env = dict(os.environ, VF_REPO=repo, VF_BUILD=f"/tmp/mutbuild{slot}", VF_EVIDENCE=f"/tmp/mutev{slot}", VERIF_SEED="1", VERIF_TIER="quick",
                   VF_NPROC=str(max(1, 8 // W)), VF_FAST=str(fast))
        if cfgs:
            env["VF_CFGS"] = cfgs
        try:
            p = subprocess.run([VERIF + "/bin/check", prop, "quick"], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
            return p.returncode, p.stdout
        except subprocess.TimeoutExpired:
            return 99, "timeout"

    def one(j):
        f, ln, what, new = j
        slot = slots.get()
        d = f"/tmp/mutrepo{slot}"
        try:
            shutil.rmtree(d, ignore_errors=True)
            shutil.copytree(SRC + "/macoro", d + "/macoro")
            open(d + "/macoro/" + f, "w").write(new)
            for x in os.listdir(f"/tmp/mutbuild{slot}") if os.path.isdir(f"/tmp/mutbuild{slot}") else []:
                if not x.startswith("vrt-"):
                    shutil.rmtree(f"/tmp/mutbuild{slot}/{x}", ignore_errors=True)
            tried = []
            props = MAP[f].split()
            stage = [(p, 6, "own" if p in ("C10",) else "std") for p in props] + ([(p, 1, "") for p in props] if os.environ.get("FULL") else [])
            verdict, info = "survived", ""
            for p, fast, cfgs in stage:
                rc, o = run(p, d, slot, fast, cfgs)
                tried.append([p, fast, rc])
                if rc == 1:
                    verdict = "caught"
                    m = re.search(r"event .* is not allowed.*", o)
                    info = p + " " + (m.group(0)[:150] if m else "")
                    break
                if rc != 0:
                    if "compile failed" in o or "link failed" in o:
                        verdict = "build"
                    else:
                        verdict = "noanswer"
                        info = o[-300:]
                    break
            with open(out, "a") as fo:
                fo.write(json.dumps(dict(file=f, line=ln, what=what, verdict=verdict, tried=tried, info=info)) + "\n")
        finally:
            slots.put(slot)
    with ThreadPoolExecutor(W) as ex:
        list(ex.map(one, jobs))
    for i in range(W):
        for p in ("mutrepo", "mutbuild", "mutev"):
            shutil.rmtree(f"/tmp/{p}{i}", ignore_errors=True)


if __name__ == "__main__":
    main()
