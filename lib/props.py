"""Which scenarios, programs and specifications decide which property."""
import random
import re
from vf import Suite, Model


def rng(seed, tag):
    return random.Random(f"{seed}/{tag}")


def dedup(l):
    return list(dict.fromkeys(l))


# ------------------------------------------------------------------ event
def event_progs(seed, tier):
    core = ["0|w|s", "0|wwwwww|s", "0|www|wwww|s", "0|wwwwsrwwws", "0|wwwww|srs", "0|ww|s", "0|w|w|s", "0|wq|sq", "0|w|s|r", "0|ws|rw|s", "0|W|s", "0|W|sr|s", "1|w|r", "1|rw|s",
            "0|w|s|s", "0|ww|srs", "0|wsq|wrq", "1|rwq|sw", "0|W|W|s", "0|w|w|w|s", "1|q|r|s", "0|sq|rq", "0|q", "1|q", "1|r q", "0|s r", "0|w|srs|r", "0|wr|ws|s"]
    r = rng(seed, "event")
    n = 12 if tier == "quick" else 120
    for _ in range(n):
        k = r.choice([2, 3, 3])
        ops = ["".join(r.choice("ssrqwwW") for _ in range(r.randint(1, 3 if k == 2 else 2))) for _ in range(k)]
        core.append(f"{r.randint(0, 1)}|" + "|".join(ops))
    return dedup(core)


# ------------------------------------------------------------------ scopes
def scope_progs(seed, tier):
    core = ["v|a0 ; w0 j|o0", "eveven|a0 a1 a2 a3 a4 a5 d0 d1 d2 d4 ; w3 j|o3 o1 o5 o0|o2 o4 w5", "EEEVee|a0 a1 a2 a3 a4 a5 d5 d1 d0 ; d2 j|o5 o4 d4 d3", "e|a0 ; d0 j|o0", "e|a0 d0 ; j|o0", "e|a0 ; w0 j|o0", "n|a0 ; w0 j|o0", "v|a0 ; q0 d0 j|o0",
            "vv|a0 a1 ; w0 d1 j|o0|o1", "ev|a0 d0 a1 ; w1 j|o0|o1", "ee|a0 a1 d0 d1 ; j|o0|o1", "ee|a0 a1 ; d0 j|o1 d1|o0",
            "c1e|a0 ; d0 j|o0 o1", "l1v|a0 d0 ; j|o0|o1", "l1E|a0 d0 ; j|o0", "l1e|a0 ; w0 j|o0|o1", "VE|a0 a1 d1 ; d0 j", "vv|a0 a1 ; j|o0 w0|o1 w1",
            "v|a0 ; m0 w0 j|o0", "v|; a0 j|o0", "vv|; a0 d0 a1 j|o0|o1", "vev|a0 a1 a2 ; j|o0 d1|o1 o2 w0", "l1l2v|a0 d0 ; j|o0 o1|o2",
            "e|a0 ; j|o0 d0", "v|a0 ; j|w0|o0", "e|a0 ; |w0|o0", "e|a0 ; |d0|o0", "n|a0 ; j|d0|o0", "v|a0 ; j w0|o0", "e|a0 ; j d0|o0",
            "u|a0 ; w0 j|o0", "u|a0 ; d0 j|o0", "r|a0 ; w0 j|o0", "s|a0 ; w0 j|o0", "s|a0 ; x0 j|o0", "i|a0 ; d0 j|o0", "i|a0 ; w0 j|o0", "e|a0 x0 ; j|o0",
            "v|a0 ; x0 j|o0", "URSI|a0 a1 a2 a3 d0 m1 x2 ; w1 q3 d3 j", "rn|a0 a1 q0 ; w0 j|o0 q1 o1", "ui|a0 a1 x0 d1 ; j|o0|o1", "r|a0 ; m0 |o0"]
    r = rng(seed, "scope")
    for _ in range(16 if tier == "quick" else 160):
        n = r.choice([1, 2, 2, 3])
        kinds, top = [], list(range(n))
        for i in range(n):
            kinds.append(r.choice("vvveenVEursi"))
        if n < 3 and r.random() < 0.3:
            kinds[0] = r.choice("cl") + str(n)
            kinds.append(r.choice("veE"))
        nt = r.choice([1, 2])
        th = [[] for _ in range(nt)]
        pro, main = [], []
        for i in top:
            inpro = r.random() < 0.6
            (pro if inpro else main).append(f"a{i}")
            x = r.choice("dwwdm.qx")
            if x != ".":
                if x in "mq":
                    (pro if inpro else main).append(f"{x}{i}")
                    x = r.choice("dw")
                if inpro and r.random() < 0.5:
                    th[r.randrange(nt)].append(f"{x}{i}")
                else:
                    main.append(f"{x}{i}")
        # every add precedes the join
        adds = [m for m in main if m[0] == "a"]
        rest = [m for m in main if m[0] != "a"]
        if r.random() < 0.85:
            rest.insert(r.randint(0, len(rest)), "j")
        for i in range(len(kinds)):
            t = th[r.randrange(nt)]
            t.insert(r.randint(0, len(t)), f"o{i}")
        core.append("".join(kinds) + "|" + " ".join(pro) + " ; " + " ".join(adds + rest) + "|" + "|".join(" ".join(t) for t in th))
    return dedup(core)


def wascope_progs(seed, tier, throwing):
    core = ["v|a0 w0|o0", "v|a0 d0|o0", "v|a0|o0", "vv|a0 a1 d0 g0 w1|o0 o1|b0", "vv|a0 a1 d0 r|o0|o1", "v|g0 a0|o0|b0", "V|a0", "VV|a0 a1 w0 d1",
            "vv|a0 g0 a1 r|o0|o1 b0", "vv|a0 a1 w0 w1|o0|o1", "v|r|o0", "vvv|a0 a1 a2 d0 d1 w2|o0 o1|o2", "ev|a0 w0 a1|o0|o1", "e|a0 g0 w0|o0|b0"]
    bad = ["v|a0 t|o0", "e|a0 d0|o0", "e|a0|o0", "vv|a0 a1 d0 g0 t|o0|o1 b0", "E|a0 d0", "V|t", "ev|a0 a1 t|o0|o1", "ee|a0 a1 w0|o0|o1"]
    r = rng(seed, "wascope")
    for _ in range(10 if tier == "quick" else 100):
        n = r.choice([1, 2, 2, 3])
        kinds = [r.choice("vvV") for _ in range(n)]
        body, k = [], 0
        for i in range(n):
            body.append(f"a{i}")
            if r.random() < 0.3:
                body.append("g0")
            x = r.choice("dw.")
            if x != ".":
                body.insert(r.randint(body.index(f"a{i}") + 1, len(body)), f"{x}{i}")
        if body.count("g0") > 1:
            body = [b for i, b in enumerate(body) if b != "g0" or i == body.index("g0")]
        if r.random() < 0.4:
            body.append("r")
        th = [["b0"], []]
        for i in range(n):
            th[r.randrange(2)].append(f"o{i}")
        r.shuffle(th[0])
        core.append("".join(kinds) + "|" + " ".join(body) + "|" + "|".join(" ".join(t) for t in th))
        kk = [r.choice("veE") for _ in range(n)]
        bad.append("".join(kk) + "|" + " ".join(body + (["t"] if r.random() < 0.5 and "r" not in body else [])) + "|" + "|".join(" ".join(t) for t in th))
    out = bad if throwing else core
    out += [re.sub(r"\ba(\d)", r"p\1", p) for p in out[::4]]
    return dedup(out)


# -------------------------------------------------------------- sequences
def seq_wait_progs(seed, tier):
    """barriers and sequencers: several waiters with different targets"""
    core = ["bz2d|p0 p1|w0|w1 w0", "bz2d|p1|w0 w1|w1", "bz4d|p0 p1 p2|w1|w0 w2|w2", "bu4w|p0 p1 p2|w0 w2|w1", "bz4d|p0 p3|w3|w1|w0", "bz4d|p1 l p2|w2 l|w0 l",
            "bu4w|p0 p2 p3|w3 l|w2", "bc4w|p0 p1 p4|w1 w4|w2 w3", "bh4w|p0 p4|w4|w1|w2", "bz4i|p0 p1|w1|w0",
            "mz4d|c c|w0|w1|w0", "mz4d|x|w0|w1", "mz4d|c|c|w0|w1", "mz4d|x c|w2|w0", "mz4d|E2|w1|w0", "mz4d|C3|w2|w1|w0", "mz4d|o o P P|w0 w1|w1",
            "mz4d|c c|c|w2|w0|w1", "mu4w|c c c|w2|w0|w1", "mu4w|x x|w3|w1", "mu4w|C2 c|w2|w0 w1", "mz4d|c c c|w0 w1 w2|w2", "mc4w|c c c|w2|w1|w0", "mh4w|x c|w2|w1",
            "mz2d|c c c|r r r", "mz2d|c c|c|r r r", "mz2d|x c|r r r", "mu2w|c c c c|r r r r", "mu2w|c c|c c|r r r r", "mu4w|E3 c|R2 R2", "mz2d|c l c|r l r",
            "sz2d|c c c|r r r", "su2w|c c c c|r r r r", "sz2d|C2 C2|R1 R1 R1", "su2w|C2 c c|r R2", "mz4d|F3 i|W3|w1", "bz4d|p0 p1|W0|W1 w0", "mu4w|i i|W1|W0 r", "sz4d|F3 i|r r r", "su4w|i F3|W1 r r", "sz2d|i i c|W0 r r r", "sc2w|c c c c|r r r r", "sz3d|C3 c|r r r r"]
    r = rng(seed, "seqw")
    for _ in range(14 if tier == "quick" else 150):
        k = r.choice("bmmmms")
        ty = r.choice(["zd", "uw", "zw", "hw", "uw", "zi"])
        n = r.choice([2, 3, 4])
        if k == "b":
            hi, ops = -1, []
            for _ in range(r.randint(1, 3)):
                hi += r.randint(1, 2)
                ops.append(f"p{hi}")
            th = [" ".join(ops)]
            for _ in range(r.choice([2, 2, 3])):
                th.append(" ".join(r.choice([f"{r.choice('wwW')}{r.randint(0, hi)}"] * 3 + ["l"]) for _ in range(r.randint(1, 2))))
            core.append(f"b{ty[0]}4{ty[1]}|" + "|".join(th))
        elif r.random() < 0.5 and k == "m":
            n, tot, th = 4, 0, []
            for _ in range(r.choice([1, 2])):
                ops = []
                for _ in range(r.randint(1, 2)):
                    o = r.choice(["c", "c", "x", "C2", "E2"])
                    c = 1 if o == "c" else 2
                    if tot + c <= 4:
                        tot += c
                        ops.append(o)
                if ops:
                    th.append(" ".join(ops))
            for _ in range(r.choice([2, 2, 3]) if len(th) == 1 else 2):
                th.append(" ".join(f"{r.choice('wwW')}{r.randint(0, tot - 1)}" for _ in range(r.randint(1, 2))))
            core.append(f"m{ty[0]}4{ty[1]}|" + "|".join(th))
        else:
            if k == "b": k = "m"
            if k == "m": n = r.choice([1, 2, 4])
            np = 1 if k == "s" else r.choice([1, 2])
            th, tot = [], 0
            for _ in range(np):
                ops = []
                for _ in range(r.randint(1, 3 if np == 1 else 2)):
                    ops.append("c")
                    tot += 1
                th.append(" ".join(ops))
            th.append(" ".join(["r"] * tot))
            core.append(f"{k}{ty[0]}{n}{ty[1]}|" + "|".join(th))
    return dedup(core)


def seq_claim_progs(seed, tier):
    core = ["mz1d|a c a|r a", "mz1d|c c|r", "mz2d|c c c|r", "mz2d|a c a c a|r", "mz2d|C2 C2|r r", "mz2d|C3 c|R2", "mz2d|c c|c|r", "mz1d|c|c|r r", "mz4d|C2|C3|r r", "mu2w|a c a c a|r r",
            "mz2d|E2 c|r r r", "mz2d|c a|c a|r", "mu4w|C3|E2|R2 r", "mc2w|a c a c a c a|r r", "mh2w|C2 C2|r r", "mz4d|a C4 a|k3 a", "mz1d|a|a", "mz2d|c c a|r a",
            "sz1d|c c|r", "sz2d|c c c|r r", "sz2d|C2 C2|r r", "sz2d|C5|r", "su2w|C2 C2 C2|r r r", "sc2w|C2 C3 C2|r r r", "sh4w|C3 C3|r r r", "sz3d|C2 C2 C2|r R1 r", "sz4d|c C4|r r", "su4w|C3 C9|r R2",
            "sc4w|c C9 c|r r r", "sc1i|C4 C4|r r", "sh2d|C4 C4|r r r", "sz4i|C3 C3|R2 R1", "mz4d|F3 i a|r R2", "mz4d|F2|F2 a|r r r", "sz4d|F3 F3|r r R2", "su4w|i F4|R2 r", "sc4w|F3 i|r r", "mz2d|i i|i|r"]
    r = rng(seed, "seqc")
    for _ in range(14 if tier == "quick" else 150):
        k = r.choice("mms")
        ty = r.choice(["zd", "uw", "zw", "hw", "cw", "zi", "uw"])
        n = r.choice([1, 2, 4]) if k == "m" else r.choice([1, 2, 3, 4])
        th, tot = [], 0
        for _ in range(1 if k == "s" else r.choice([1, 1, 2])):
            ops = []
            for _ in range(r.randint(1, 3)):
                c = r.choice([1, 1, 2, 3])
                o = r.choice("cci") if c == 1 else r.choice("CEF") + str(c)
                tot += min(c, n) if k == "m" else 1
                ops.append(o)
                if k == "m" and r.random() < 0.3:
                    ops.append("a")
            th.append(" ".join(ops))
        th.append(" ".join(["r"] * max(1, tot - r.randint(0, 2))) + (" a" if k == "m" and r.random() < 0.3 else ""))
        core.append(f"{k}{ty[0]}{n}{ty[1]}|" + "|".join(th))
    return dedup(core)


# --------------------------------------------------------------- channels
def chan_progs(seed, tier):
    core = ["m1|s|r", "m8|ssssssssss|rrrrrrrrrr", "s4|sssssssss|rrrrrrrrr", "m4|sssss|sssss|l", "s8|ssssssssssssc|l", "m2|ssss|ssss|rrrrrrrr", "m16|ssssssssssssssssss|rrrrrrrrrrrrrrrrrr", "m1|ss|rr", "m2|sss|rrr", "m2|ss|s|rrr", "m1|s|s|rr", "m2|x|rr", "m4|x|s|rrr", "m2|dc|RR", "m2|tt|rr", "m1|tc|rr", "m2|sc|l", "m2|sc|sc|l", "m2|s|c|ll", "m1|sc|frf",
            "m2|hsp|rr", "m4|hhspp|rrr", "m2|em|gq", "m2|ss|fr", "m1|sss|rr", "m2|sss|r", "m2|c|fr", "m1|ss|s|rr", "m2|t|t|t|rrr", "m2|a|MM", "m2|a|s|rMr", "m4|aa|MrMr", "m2|ac|l", "m2|s|d|rr", "m4|xc|l", "m4|ss|sc|l", "m2|cs|rr",
            "s1|s|r", "s1|ss|rr", "s2|sss|rrr", "s2|sc|l", "s1|sc|rr", "s2|tdc|l", "s2|em|gq", "s1|sss|r", "s1|tt|rR", "s2|ss|frfr", "s4|sssc|l", "s2|c|ffr", "s1|c|r", "s1|ss|MM", "s2|a|rM", "s4|aac|l", "s2|ssc|MrM", "m1|n|r", "s1|nn|MM", "m2|ns|n|rMr"]
    r = rng(seed, "chan")
    for _ in range(16 if tier == "quick" else 160):
        k = r.choice("mms")
        cap = r.choice([1, 1, 2, 4])
        th, tot = [], 0
        for _ in range(1 if k == "s" else r.choice([1, 2, 2])):
            ops = [r.choice("sstdemn" + ("xa" if k == "m" and cap > 1 else "")) for _ in range(r.randint(1, 3))]
            if r.random() < 0.35:
                ops.append("c")
            tot += sum(2 if o in "xa" else 1 for o in ops)
            th.append("".join(ops))
        if sum(t.count("x") + t.count("a") for t in th) > 1 and cap < 4:   # two half-finished pairs can block each other
            th = [t.replace("x", "s").replace("a", "s") for t in th]
        if any("c" in t for t in th) and r.random() < 0.5:
            rc = "l"
        else:
            rc = "".join(r.choice(["r", "r", "R", "q", "g", "fr", "M"]) for _ in range(max(1, tot - r.choice([0, 0, 0, 1]))))
        core.append(f"{k}{cap}|" + "|".join(th) + "|" + rc)
    return dedup(core)


# ------------------------------------------------------------------ tasks
def task_progs(seed, tier):
    core = ["Evg0|c0 ; a0|o0", "Evg0 Lva0 Lva1 Lva2 Lva3 Lva4|c0 c1 c2 c3 c4 c5 ; a5|o0", "Evxg0 Evf0 Lvf1 Evf2 Nvf3 Mvf4|c0 c1 c2 c3 c4 c5 ; a5|o0", "Evg0|c0 ; A0|o0", "Evg0|c0 ; w0|o0", "Evxg0|c0 ; a0|o0", "Erg0|c0 ; a0|o0", "Eng0|c0 ; w0|o0", "Enxg0|c0 ; A0|o0", "Evg0|c0 ; z0 a0|o0", "Evg0|c0 ; z0|o0",
            "Evg0|c0 ; q0 q0 a0|o0", "Evg0|c0 ; |o0|a0", "Evg0|c0 m0 ; A0|o0", "Ev|c0 q0 a0", "Ev|c0 d0", "Evx|c0 e0", "Evg0|c0 o0 d0",
            "Lv|c0 a0", "Lv|c0 d0", "Lv|c0 e0", "Lv|c0 m0 q0 A0", "Lvx|c0 a0", "Lr|c0 A0", "Ln|c0 w0", "Lnx|c0 A0", "Lvg0|c0 ; a0|o0", "Lvxg0|c0 ; A0|o0", "Lvg0|c0 ; w0|o0", "b|b",
            "Evg0 Nvf0|c0 c1 ; a1|o0", "Evg0 Nvf0|c0 c1 ; z1 a1|o0", "Lvg0 Mvf0|c0 c1 ; a1|o0", "Lv Mvf0|c0 c1 d1", "Lvx Nvf0|c0 c1 A1", "Lvg0 Nvf0|c0 c1 ; w1|o0", "Evg0 Mvf0|c0 c1 ; a1|o0", "Eng0 Nnf0|c0 c1 ; a1|o0", "Erg0 Nrf0|c0 c1 ; a1|o0",
            "Evg0 Evf0|c0 c1 ; a1|o0", "Evxg0 Lvf0|c0 c1 ; a1|o0", "Lvg0 Evf0|c0 c1 ; A1|o0", "Lrg0 Lrf0|c0 c1 ; w1|o0", "Eng0 Enf0|c0 c1 ; a1|o0",
            "Evg0 Lva0 Lva1|c0 c1 c2 ; a2|o0", "Evg0 Evg1a0|c0 c1 ; a1|o0|o1", "Evg0 Evg1 Lva0A1|c0 c1 c2 ; a2|o0|o1", "Lvg0 Lvg1a0|c0 c1 ; a1|o0 o1", "Evg0 Evw0|c0 c1 ; a1|o0",
            "Evg0 Evg1 Evf0 Evf1|c0 c1 c2 c3 ; a2 a3|o0|o1", "Evg0g1|c0 ; a0|o0|o1", "Lvs1a1 Evg0|c0 ; a0|o0", "Evg0 Evf0 Evf1|c0 c1 c2 ; a2|o0", "Lvg0 Mvf0 Nvf1|c0 c1 c2 ; a2|o0",
            "Evg0 Ev|c0 c1 ; z0|a1 o0|q1"]
    core = [c for c in core if c != "b|b"] + ["Lv|b c0 d0"]
    core = [c for c in core if not c.endswith("|q1")]
    r = rng(seed, "task")
    for _ in range(24 if tier == "quick" else 250):
        n = r.choice([1, 2, 2, 3])
        defs, free, created = [], [], []
        for k in range(n):
            kind = r.choice("LLEEE") if k == 0 else r.choice("LLEEEMN")
            ty = r.choice("vvrn")
            if kind in "MN":
                c = [j for j in free]
                if not c:
                    kind = r.choice("LE")
                else:
                    j = r.choice(c)
                    free.remove(j)
                    defs.append(kind + defs[j][1] + f"f{j}")
                    free.append(k)
                    continue
            d = kind + ty + ("x" if r.random() < 0.25 else "")
            fw = None
            for _ in range(r.randint(0, 2)):
                x = r.random()
                if x < 0.6:
                    d += f"g{r.randint(0, n - 1)}"
                elif free:
                    j = r.choice(free)
                    free.remove(j)
                    d += r.choice("aAw") + str(j)
            c = [j for j in free if defs[j][1] == ty]
            if c and "x" not in d and r.random() < 0.3:
                j = r.choice(c)
                free.remove(j)
                d += f"f{j}"
            defs.append(d)
            free.append(k)
        pro = [f"c{k}" for k in range(n)]
        nt = r.choice([2, 2, 3])
        th = [[] for _ in range(nt)]
        for k in free:
            ops = r.choice([["a"], ["A"], ["w"], ["z", "a"], ["q", "A"], ["a"], ["m", "w"], ["z"]])
            if ops == ["z", "a"]: ops = ["q", "a"]
            th[r.randrange(nt)] += [f"{o}{k}" for o in ops]
        for g in range(n):
            t = th[r.randrange(nt)]
            t.insert(r.randint(0, len(t)), f"o{g}")
        core.append(" ".join(defs) + "|" + " ".join(pro) + " ; " + " ".join(th[0]) + "|" + "|".join(" ".join(t) for t in th[1:]))
    return dedup(core)


# --------------------------------------------------------------- when_all
def whenall_progs(seed, tier):
    core = ["Lvg0 Lvg1/t01|W0|o0|o1", "Lvg0 Evg1/t01|W0|o0|o1", "Lvxg0 Lng1/t01|W0|o0|o1", "Lrg0 Lv Lvg1/t012|W0|o0|o1", "Evg0/t0|W0|o0", "Lv/t0|W0", "/t|W0", "/V|W0",
            "Lvg0 Lvg1 Lvxg2/V012|W0|o0|o1 o2", "Evg0 Evxg1/V01|W0|o0|o1", "Lng0 Lnxg1/V01|W0|o0|o1", "Lrg0 Lrg1/V01|W0|o0 o1", "Eng0/V0|W0|o0", "Er/V0|W0",
            "Eng0 Lng1/l01|W0|o0|o1", "Lng0/l0|W0|o0", "Lvg0 Lvg1/q01|W0|o0|o1", "Lvxg0/q0|W0|o0", "Lv Ln/q01|W0",
            "Lvw1 Lvg0 Lvg1/t0 t12|W0|o0|o1", "Lvw1 Lvg0 Lvg1 Lng2/t03 V12|W0|o0 o1|o2", "Lvg0 Lvg0 Lvg0/V012|W0|o0", "Lvg0 Lv Lvx/t012|o0|W0", "Lvg0 Lvg1/t0 t1|W0 o1|W1 o0",
            "Evx Lvx/t01|W0", "Lvg0g1 Lvg1/t01|W0|o0|o1", "Ev Lvw1 Lng0/t01 t2|W0|o0"]
    # one gate, one waiter
    core = [c for c in core if c != "Lvg0 Lvg0 Lvg0/V012|W0|o0" and c != "Lvg0g1 Lvg1/t01|W0|o0|o1"]
    r = rng(seed, "whenall")
    for _ in range(24 if tier == "quick" else 250):
        defs, groups, gates = [], [], 0
        ng = r.choice([1, 1, 2])
        for g in range(ng):
            sh = r.choice("tttVVlq")
            n = {"t": r.randint(1, 3), "V": r.randint(0, 3), "l": r.randint(1, 2), "q": r.randint(1, 2)}[sh]
            ids = []
            vk, vt = r.choice("LLE"), r.choice("vvrn")
            for i in range(n):
                kd, ty = r.choice("LLE"), r.choice("vvrn")
                if sh == "V": kd, ty = vk, vt
                if sh == "l": kd, ty = ("L" if n == 1 or i == 1 else "E"), "n"
                if sh == "q" or (sh == "t" and n == 3 and i > 0): kd = "L"
                if sh == "t" and n == 3 and i == 2: ty = "v"
                d = kd + ty + ("x" if r.random() < 0.25 else "")
                for _ in range(r.choice([0, 1, 1, 2])):
                    if gates < 5:
                        d += f"g{gates}"
                        gates += 1
                ids.append(len(defs))
                defs.append(d)
            groups.append((sh, ids))
        th = [[] for _ in range(r.choice([2, 2, 3]))]
        tops = list(range(ng))
        if ng == 2 and groups[0][1] and r.random() < 0.5:
            k = r.choice(groups[0][1])
            defs[k] += "w1"
            tops = [0]
        for g in tops:
            th[r.randrange(len(th))].append(f"W{g}")
        for g in range(gates):
            t = th[r.randrange(len(th))]
            t.insert(r.randint(0, len(t)), f"o{g}")
        core.append(" ".join(defs) + "/" + " ".join(s + "".join(map(str, i)) for s, i in groups) + "|" + "|".join(" ".join(t) for t in th))
    return dedup(core)


# ------------------------------------------------------------------- stop
def stop_progs(seed, tier):
    core = ["|r0 ; s|d0", "|r0 ; s|s|r1 d0 q p", "|r0 r1 ; s|d0 d1", "0:d1r2|r0 r1 ; s|", "0:d1|r0 r1 ; s|r2", "|; s|r0|r1", "|; s|r0 d0 r1", "|; s|s|q q", "|; q s q|q p q", "|; S|p p S|p",
            "|; s S|S p q", "0:q|r0 ; s S|d0 p", "|n P M k ; s k|k k r0|M", "|r0 ; M s|k r1 k d1|Q s", "0:d0|r0 ; s|", "0:d0|r0 r1 ; s|d1", "0:d1 1:d0|r0 r1 ; s", "0:s|r0 ; s|q", "0:r1|r0 ; s|r2|s",
            "|R0-17 ; s|r18 d18", "|R0-17 D2-12 R20-33 ; s", "|R0-15 ; r16 s|d3", "|R0-40 ; s", "|R0-15 D0-15 R16-31 D16-20 R32-50 ; s|", "|; R0-4|R5-9|s", "|r0 ; d0 r1 s|s r2", "|r0 d0 ; |p q", "|r0 r1 ; d0 d1|s|s",
            "|r0 ; s d0|r1 d1|r2 d2", "|r0 ; S|r1 S p", "|; k|S k|S p"]
    r = rng(seed, "stop")
    for _ in range(24 if tier == "quick" else 250):
        nxt, beh, pro = 0, [], []
        n = r.choice([2, 2, 3])
        th = [[] for _ in range(n)]
        own = [[] for _ in range(n)]
        for _ in range(r.randint(0, 3)):
            pro.append(f"r{nxt}")
            own[r.randrange(n)].append(nxt)
            nxt += 1
        inpro = list(range(nxt))
        for i in inpro:
            if r.random() < 0.3:
                b = r.choice("qrd")
                if b == "r":
                    beh.append(f"{i}:r{12 + i}")
                elif b == "d":
                    # a callback deregisters itself or another; nobody else does
                    j = r.choice(inpro)
                    if any(f"d{j}" in x for x in beh):
                        continue
                    beh.append(f"{i}:d{j}")
                    for o in own:
                        if j in o:
                            o.remove(j)
                else:
                    beh.append(f"{i}:q")
        for t in range(n):
            gone = False
            for _ in range(r.randint(1, 3)):
                x = r.random()
                if x < 0.3 and not gone:
                    th[t].append("s")
                elif x < 0.5:
                    th[t].append(f"r{nxt}")
                    own[t].append(nxt)
                    nxt += 1
                elif x < 0.7 and own[t]:
                    th[t].append(f"d{own[t].pop(0)}")
                elif x < 0.8:
                    th[t].append(r.choice("qp"))
                elif x < 0.9:
                    th[t].append("k" if gone else r.choice("kMQ"))
                elif not gone:
                    th[t].append("S")
                    gone = True
        core.append(" ".join(beh) + "|" + " ".join(pro) + " ; " + "|".join(" ".join(t) for t in th))
    return dedup(core)


def stopaw_progs(seed, tier):
    core = ["w|s", "W|s", "t|s|w", "n|S", "ws|w", "w|s|s", "ww|s|t", "sw|w", "wS|s", "wS|S", "W|W|s", "wt|ws|s", "s|w|t", "tS|tS"]
    r = rng(seed, "stopaw")
    for _ in range(14 if tier == "quick" else 150):
        th = []
        for _ in range(r.choice([2, 2, 3])):
            o = ""
            for _ in range(r.randint(1, 3)):
                c = r.choice("wwtWss" + ("S" if r.random() < .3 else "w"))
                o += c
                if c == "S":
                    break
            th.append(o)
        core.append("|".join(th))
    return dedup(core)


# ------------------------------------------------------------ thread pool
def _pool(r, delays):
    """A random program over the pool; every thread that may block is released by somebody who does not."""
    nitems, bodies, pro = 0, [], []
    cons = r.random() < 0.3
    nthr = r.choice([1, 1, 2])
    pro = [f"C{nthr}"] if cons else (["w0", f"n{nthr}"] if r.random() < 0.8 else ["w0"])
    toks, nw = [0], 1
    if r.random() < 0.3:
        pro.append("w1")
        toks.append(1)
        nw = 2
    if r.random() < 0.15:
        pro.append("V")
    nt = r.choice([1, 2, 2])
    th = [[] for _ in range(nt)]
    items = []

    def new_item(depth):
        nonlocal nitems
        k = nitems
        nitems += 1
        ops = []
        if depth < 2 and nitems < 8:
            for _ in range(r.choice([0, 0, 1, 1, 2])):
                ops.append(post(depth + 1))
            if toks and r.random() < 0.25:
                ops.append(r.choice("xX") + str(toks.pop()))
            if r.random() < 0.2 and nitems < 8:
                j = new_item(2)
                ops.append(f"Y{j}@{r.choice([1, 3, 5])}" if delays and r.random() < 0.5 else f"y{j}")
        if ops:
            bodies.append(f"{k}:" + ".".join(ops))
        return k

    def post(depth):
        k = new_item(depth)
        if delays and r.random() < 0.6:
            c = r.choice("lll" if depth == 0 else "lL")
            if c == "l" and depth == 0:
                items.append(k)
            return f"{c}{k}@{r.choice([0, 2, 3, 5, 8])}"
        return r.choice("pppPqguGt") + str(k)
    n = r.choice([1, 2, 3])
    for _ in range(n):
        th[r.randrange(nt)].append(post(0))
    for k in items:
        if r.random() < 0.6:
            t = th[r.randrange(nt)]
            t.insert(r.randint(0, len(t)), f"c{k}")
    for w in toks:
        t = th[r.randrange(nt)]
        t.insert(r.randint(0, len(t)), r.choice("xXx") + str(w))
    if nt == 2 and r.random() < 0.3:
        th[1].append("r")
    if r.random() < 0.3:
        th[0].append("j")
    for t in th:
        if "r" not in t and r.random() < 0.2:
            t.insert(r.randint(0, len(t)), "&")
    return " ".join(bodies) + "|" + " ".join(pro) + " ; " + "|".join(" ".join(t) for t in th)


def pool_progs(seed, tier):
    core = ["|w0 n1 ; & g0 x0", "|w0 n1 ; p0 & G1 x0|g2", "0:g1|w0 n2 ; & g0 P2 x0 j", "|w0 n1 ; & u0 t1 g2 x0 D", "|w0 n1 ; p0 p1 x0|p2", "|w0 w1 n1 a0@1! ; p0 x0|p1", "|w0 w1 n2 ; a0@1! p0 x0 j", "|w0 n1 a1@0 ; x1|p0", "|w0 w1 n1 a2@0 a0@1 a2@0! ; p0 x2 j", "0:a0@1!.x0|w0 w1 n1 ; p0|p1", "|w0 w1 ; a1@0! x1 r", "|C1 w1 a1@0! ; p0|x1", "|w0 n2 ; p0 x0|p1", "|w0 ; p0 p1 x0 r", "|w0 ; p0 x0|r", "|w0 ; x0|r|r", "0:g1 1:p2|w0 n1 ; p0 x0 j", "0:x0|w0 n1 ; p0 j", "0:x0|w0 n1 ; D|p0", "0:x0|w0 n1 ; D|g0", "|w0 n1 ; D|x0",
            "|w0 w1 n1 ; D|x0|X1", "0:y1 1:y2|w0 n2 ; p0 x0|p3", "|C2 V ; p0 P1|q2 x0", "|w0 n1 V ; u0 t1|x0", "0:b0 1:o0|w0 n2 ; p0|p1 x0", "0:b0 1:o0.o1|w0 n2 ; p0 p1 b1 x0", "0:b0 2:o0.o1|w0 n3 ; p0 p1 b1|p2", "0:b0 1:b2 2:o0.o1 3:o2|w0 n3 ; p0 p1|p2 p3 b1", "0:b0 1:o0|w0 n2 ; g0 G1 x0", "0:p1.x0 1:p2|w0 n2 ; p0 j|p3",
            "0:G1.g2|w0 n1 ; u0 x0", "0:x0|w0 n2 w1 ; p0|x1", "0:w1.p1 1:x1|w0 n1 ; p0 x0 j", "|p0 n1 ; j|p1", "0:n1.p1|w0 n1 ; p0 x0|p2", "|w0 w1 m0 m1 n1 ; x0|X1|p0", "|p0 p1 p2 ; r|r", "|C1 ; G0|g1|x0", "|n1 ; n2 j|p0", "|p0 ; n2 j|n1", "|w0 ; n1|n2|p0 x0"]
    r = rng(seed, "pool")
    return dedup(core + [_pool(r, False) for _ in range(20 if tier == "quick" else 200)])


def delay_progs(seed, tier):
    core = ["0:b0 1:o0.x0|w0 n2 ; l1@5 p0", "|w0 n1 ; L0@5 L1@3 L2@8 L3@1 L4@6 L5@2 L6@7 x0 j", "|w0 n1 ; l0@5 l1@3 l2@8 l3@1 l4@6 l5@2 c2 c0 c4 x0 j", "|w0 n1 l0@7 l1@3 l2@8 l3@1 l4@6 l5@9 ; c2 c3|c0 x0", "|w0 n2 l0@70 l1@30 l2@80 l3@10 l4@60 l5@90 ; c4 x0|c5", "0:b0 1:o0.x0|w0 n2 ; l1@5|p0", "0:b0 1:o0.x0|w0 n2 ; p0 l1@5", "0:b0 1:o0.x0|w0 n2 ; l1@50 p0|c1", "|w0 n1 ; l0@5 x0", "|w0 n1 ; l0@5 l1@3 x0", "|w0 n2 ; l0@5 x0|c0", "|w0 n1 ; l0@5 x0|c0", "|l0@5 ; r|c0", "|w0 n1 ; c0 l0@50 x0 j", "|w0 n2 ; l0@50 l1@20 x0|c0", "|w0 n2 ; l0@50 l1@20 x0|c1",
            "0:b0 2:o0|w0 n2 ; l0@5 p1 x0|l2@9", "0:b0 1:o0|w0 n2 ; l1@5 p0 x0", "0:b0 1:o0|w0 n2 ; p0 x0|l1@5", "0:b0 1:o0|w0 n2 ; l2@50 p0 x0|l1@5", "0:Y1@3 1:Y2@2|w0 n1 ; p0 x0", "0:Y1@3 3:c1|w0 n2 ; p0 x0|p3",
            "|w0 n1 ; L0@4 L1@4 L2@1 x0 j", "0:L1@2.g2|w0 n1 ; L0@2 x0", "|l0@9 l1@3 n2 ; c0|c1", "|w0 n2 V ; l0@5 c0 x0|l1@3 c1", "0:c1|w0 n2 ; l1@50 l0@3 x0", "0:c1|w0 n1 ; l1@50 l0@3 x0|p2", "|w0 n3 ; l0@50 x0|c0",
            "0:b0 1:o0|w0 n2 ; l1@50 p0 x0|c1", "|w0 ; l0@0 x0 r|c0", "|l0@5 n1 ; j", "|l0@5 n2 ; c0|j", "|w0 n1 ; & l0@3 g1 x0 j", "|L0@3 ; n2 j|l1@2", "|w0 l0@5 x0 n1 ; j"]
    r = rng(seed, "delay")
    return dedup(core + [_pool(r, True) for _ in range(24 if tier == "quick" else 250)])


# ---------------------------------------------------- timeout, take_until
def timeout_progs(seed, tier):
    core = ["|T0@5 ; A0@3", "|T0@5 ; A0@3|x1", "|Y0@2 ; A0@4|x0|x1", "|T0@0 ; A0@4|s0 x1", "|Y0@5 m0 ; a0|x0", "|T0@4 m0 ; A0@4|x1", "P2|T0@3 ; A0@3|x1",
            "|T0@5 ; a0|c0", "|T0@5 ; a0|s0", "|R0@5 ; a0 q0|c0|s0", "|Y0@5 ; a0|x0", "|Y0@5 x0 ; a0|", "|x0 ; Y0@5 a0|", "|T0@0 ; a0|c0", "|T0@5 m0 ; a0|c0", "|; T0@3 a0|T1@4 c1", "|T0@5 T1@3 ; a0|a1 q0|c1", "|Y0@5 ; c0 q0|x0 q0", "|T0@5 ; q0|c0 q0",
            "P2|T0@5 ; a0|c0", "P2|Y0@3 ; a0|x0|c0",
            "0:vw|T0@5 ; k0|", "0:vw|T0@5 ; k0|c0", "0:eg0|T0@5 ; k0|o0", "0:vg0|T0@5 ; k0|o0", "0:ng0|T0@5 ; k0|o0|s0", "0:xg0|T0@5 ; k0|o0", "0:v|T0@5 ; k0|", "0:e|Y0@5 ; k0|x0", "0:vs3|T0@5 ; k0", "0:vs7|T0@5 ; k0", "0:vs5|T0@5 ; k0", "0:vs3w|T0@5 ; k0|s0",
            "0:vqg0q|T0@5 ; k0|o0", "0:vwg0|T0@5 ; k0|o0", "0:vg0w|Y0@5 ; k0|o0|x0", "0:vw 1:eg1|T0@5 T1@3 ; k0|k1|o1", "P2 0:vs3|T0@3 ; k0", "P2 0:nw|T0@3 ; k0|s0",
            "0:vg0u|; k0|o0", "0:ng0U|; k0|o0|o9", "0:eg0E|; k0|o9 o0", "0:vg0uE|; k0|o0", "0:vU|; k0|o9", "0:xuE|; k0", "0:vg0U|; |k0 o9|o0", "0:vs3u|; k0", "0:es3U|; k0|o9"]
    r = rng(seed, "timeout")
    for _ in range(16 if tier == "quick" else 200):
        n = r.choice([1, 1, 2])
        defs, pro = [], []
        nt = r.choice([1, 2, 2, 3])
        th = [[] for _ in range(nt)]
        p2 = r.random() < 0.25
        gate = 0
        for k in range(n):
            hand = r.random() < 0.25
            kind = r.choice("vvenx")
            make = r.choice("TTYR") + f"{k}@{r.choice([0, 1, 3, 5])}"
            mode = r.choice("akk")
            if hand:
                mode = "k"
            steps, opens = "", []
            if mode == "k":
                for _ in range(r.choice([0, 1, 1, 2])):
                    c = r.choice("gsq" if hand else "gswwq")
                    if c == "g":
                        if gate > 7:
                            continue
                        steps += f"g{gate}"
                        opens.append(gate)
                        gate += 1
                    elif c == "s":
                        steps += f"s{r.choice([1, 3, 6])}"
                    else:
                        steps += c
                if hand:
                    own = r.random() < 0.5 or "9" in [x[1] for t in th for x in t if x[0] == "o"]
                    steps += ("u" if own else "U") + ("E" if r.random() < 0.3 else "")
                    if not own:
                        th[r.randrange(nt)].append("o9")
                defs.append(f"{k}:{kind}{steps}")
            if not hand:
                pro.append(make)
                if r.random() < 0.15:
                    pro.append(f"m{k}")
                for _ in range(r.choice([0, 1, 1, 2])):
                    th[r.randrange(nt)].append(r.choice("s" if mode == "k" else "cs") + str(k))
                if make[0] == "Y" and r.random() < 0.7:
                    th[r.randrange(nt)].append(f"x{k}")
                if r.random() < 0.4:
                    th[r.randrange(nt)].append(f"q{k}")
            t = th[r.randrange(nt)]
            t.insert(0, f"{mode}{k}")
            for g in opens:
                t = th[r.randrange(nt)]
                t.insert(r.randint(0, len(t)), f"o{g}")
        # one gate 9
        seen9 = False
        for t in th:
            for i in range(len(t) - 1, -1, -1):
                if t[i] == "o9":
                    if seen9:
                        del t[i]
                    seen9 = True
        if sum(d.count("u") + d.count("U") for d in defs) > 1:
            continue
        core.append(("P2 " if p2 else "") + " ".join(defs) + "|" + " ".join(pro) + " ; " + "|".join(" ".join(t) for t in th))
    return dedup(core)


# ------------------------------------------------------------- sync_wait
def syncwait_progs(seed, tier):
    core = []
    for t in "vrn":
        for k in "LE":
            for x in ("", "x"):
                core += [f"{k}{t}{x}g0|s0|o0", f"{k}{t}{x}|l0", f"{k}{t}{x}g0|l0|o0", f"{k}{t}{x}g0|M0 ; G0|o0", f"{k}{t}{x}g0|P0 o0 m0 G0"]
        for k in "ACF":
            for m in "qvbh":
                core += [f"{k}{t}{m}g0|{o}0|o0" for o in "sl"] + [f"{k}{t}{m}g0|M0 ; m0 G0|o0"]
            for x in "rse":
                core += [f"{k}{t}{m}g0X{x}|p0|o0" for m in ("vb" if x == "s" else "qb")] + ([f"{k}{t}rX{x}|l0"] if x != "s" else [])
        core += [f"L{t}g0 L{t}g1|s0|s1 o0|o1", f"A{t}vg0 E{t}g1|s0|l1 o0|o1", f"L{t}g0g1|s0|o0|o1", f"A{t}bg0 L{t}xg0|s0|o0"]
    core += ["Wng0g1|s0|o0|o1", "Wng0g1|M0 ; G0|o0|o1", "Wng0g1|p0|o0 o1", "Lvg0|M0 o0 D0", "Lvg0 Lvg1|M0 M1 o0 T01 ; G1|o1", "Lvxg0 Lvg1|M0 M1 o0 T01 ; m1 G1|o1", "Avbg0 Avbg1|M0 M1 o0 ; T01 G1|o1", "Lrg0 Lrxg1|M0 M1 o0 ; T01 G1|o1", "Ev Evg1|M0 M1 T01 ; G1|o1", "Lvxg0 Arvg1|M0 M1 ; G0|o0 o1|G1", "Lvg0|M0 ; G0|o0", "Lvg0|M0 ; |G0|o0",
             "Avvg0|M0 ; m0 |o0", "Lrg0 Lrg1|M0 M1 ; G1|G0 |o0 o1"]
    core = [c for c in core if not c.endswith("m0 |o0")]
    r = rng(seed, "syncwait")
    for _ in range(20 if tier == "quick" else 400):
        n = r.choice([1, 2, 3])
        defs = []
        for i in range(n):
            k, t = r.choice("LEACF"), r.choice("vrn")
            if k in "LE":
                d = f"{k}{t}{r.choice(['', 'x'])}" + "".join(f"g{g}" for g in r.sample([2 * i, 2 * i + 1], r.randint(0, 2)))
            else:
                d = f"{k}{t}{r.choice('vbh')}g{2 * i}" + r.choice(["", "", "Xr", "Xs", "Xe"])
            defs.append(d)
        pro, main, th = [], [], [[], [], []]
        for i in range(n):
            if r.random() < .5:
                pro.append(r.choice("MP") + str(i))
                th[r.randrange(2)].append(f"G{i}")
            else:
                th[r.randrange(2)].append(r.choice("slp") + str(i))
        th[2] = [f"o{g}" for g in r.sample(range(2 * n), 2 * n)]
        core.append(" ".join(defs) + "|" + " ".join(pro) + " ; " + " ".join(th[0]) + "|" + " ".join(th[1]) + "|" + " ".join(th[2]))
    return dedup(core)


# ---------------------------------------------------------------- result
RESULT_TYPES = [t + e for t in "icmdv" for e in "xic"]


class ResultGen:
    """Random or given op sequences; tracks the kind of every slot so that only meaningful operations are issued."""

    def __init__(self, ty, r):
        self.t, self.e, self.r, self.k, self.out = ty[0], ty[1], r, {}, []

    def emit(self, op, s, *a):
        self.out.append(op + str(s) + "".join(map(str, a)))

    def step(self, mx=4):
        r, t, e = self.r, self.t, self.e
        have = [s for s in self.k]
        p = lambda: r.randint(1, 9)
        x = r.random()
        if not have or x < .25:
            s = r.randrange(mx)
            c = r.choice("doeoeW")
            if c == "d":
                self.emit("d", s); self.k[s] = "v" if t != "d" else ("e" if e != "x" else "m")
            elif c in "oe":
                self.emit(c, s, r.choice("clm"), p()); self.k[s] = "v" if c == "o" else "e"
            elif e == "x" and r.random() < .4:
                k = r.choice("oleEtrRwW")
                self.emit(r.choice("Ff"), s, k, p()); self.k[s] = "e" if k in "teERW" else "v"
            elif e == "x":
                k = r.choice("txpTXayAgGYrwzZ")
                if t == "m" and k == "T": k = "t"
                self.emit("W", s, k, p()); self.k[s] = "e" if k in "xXyYZ" else "v"
            return
        s = r.choice(have)
        kind = self.k[s]
        ops = ["q", "O", "E", "c", "K", "k", "M", "m", "r", "b", "a"]
        if kind == "m":     # moved from error: only replace it
            ops = ["q", "O", "E", "c", "K", "M"]
        else:
            ops += ["v", "v", "s", "S", "=", "!", "a", "w"]
        o = r.choice(ops)
        if o in "OE":
            self.emit(o, s, r.choice("clmCLM"), p()); self.k[s] = "v" if o == "O" else "e"
        elif o == "c":
            self.emit(o, s); del self.k[s]
        elif o in "kKmMw":
            if o in "kmw":
                d, f = r.randrange(mx), s
            else:
                d, f = s, r.choice(have)
            if (d == f and o != "K") or self.k[f] == "m" or (o in "kK" and t == "m") or (o == "w" and e != "x"):
                return
            self.emit(o, d, f, *([r.randint(0, 1)] if o == "w" else []))
            self.k[d] = self.k[f]
            if o in "mM" and self.k[f] == "e" and e != "i":
                self.k[f] = "m"
        elif o == "q":
            self.emit(o, s)
        elif o == "v":
            self.emit(o, s, r.choice("mcsk"))
        elif o == "r":
            self.emit(o, s, r.choice("mc"))
        elif o in "ab":
            self.emit(o, s, r.choice("rlc"), p())
        elif o in "sS":
            self.emit(o, s, p())
        elif o in "=!":
            self.emit(o, s, r.choice("oe"), r.choice("clm"), r.choice([1, 2, p()]))


def result_progs(seed, tier):
    out = []
    for ty in RESULT_TYPES:
        t, e = ty
        allq = "q0 v0m v0c v0s v0k r0m r0c a0r7 a0l7 a0c7 b0r8 b0l8 b0c8"
        for mk in ["o0c3", "o0l3", "o0m3", "e0c4", "e0l4", "e0m4", "d0 O0c3", "d0 E0l4", "o0l3 E0c4", "e0m4 O0l3", "o0m1 O0c2 E0m3 E0l4 O0l5"] + (["d0"] if t != "d" or e != "x" else []):
            cmp_ = " ".join(f"{o}0{k}{f}{p}" for o in "=!" for k in "oe" for f in "clm" for p in "34")
            out.append(f"{ty} {mk} {allq} {cmp_}")
            rel = [f"{o}0{c}{f}{p}" for c, k in (("o", t), ("e", e)) if k == "i" for o in "=!" for f in "CM" for p in "34"]
            if rel:
                out.append(f"{ty} {mk} " + " ".join(rel))
            for o in "OE":
                for f in "CLM":
                    out.append(f"{ty} {mk} {o}0{f}6 q0 v0c r0c")
        for a in ("o0m1", "e0m1"):
            for b in ("o1m2", "e1m2"):
                for o in ["k01", "K01", "m01", "M01", "K00"] + (["w01", "w010", "w011"] if e == "x" else []):
                    if not (t == "m" and o[0] in "kK"):
                        out.append(f"{ty} {a} {b} {o} {allq}" + (" v1c" if o[0] in "kK" else ""))
        for o in ("o0m1 s05 v0k S06 r0c", "e0m1 s05 S06 r0m v0c", "o0m1 E0m2 O0m3 S04 v0c"):
            out.append(f"{ty} {o}")
        for a in ("o0m1", "e0m1", "d0 O0m3", "d0 E0m4"):
            if not a.startswith("d0") or t + e != "dx":
                out.append(f"{ty} {a} ~0c v0c r0c ~0l ~0m v0m r0m" + (" ^0 v0c r0c ^0 q0 v0m r0c" if t == e else ""))
            if "c" in ty or t == "d":
                for b in ("o1m2", "e1m2"):
                    out.append(f"{ty} {a if a[0] != 'd' or t + e != 'dx' else 'o0m1'} {b} TO0c5 q0 v0c r0c TE0c6 q0 v0c r0c TO0l5 q0 TE0l6 q0 T~0c q0" + (" TK01 q0 v0c r0c" if t != "m" else "") + (" T^0 q0" if t == e else "") + " O0c7 v0c")
        if e == "x":
            for k in "oleEtrRwW":
                out.append(f"{ty} F0{k}5 {allq} o1m3 f1{k}6 q1 v1c r1m")
            for k in "txpTXayAgGYrwzZ":
                if not (t == "m" and k == "T"):
                    out.append(f"{ty} W0{k}5 {allq} o1m3 W1{k}6 q1")
    r = rng(seed, "result")
    for i in range(600 if tier == "quick" else 12000):
        g = ResultGen(RESULT_TYPES[i % len(RESULT_TYPES)], r)
        for _ in range(r.choice([8, 14, 25])):
            g.step(r.choice([2, 4]))
        out.append(RESULT_TYPES[i % len(RESULT_TYPES)] + " " + " ".join(g.out))
    return dedup(out)


def coro_stmts(rt, tr, unh):
    """All statements of the driver coro.cpp that a coroutine with this promise can contain."""
    some = [("v", "2"), ("b", "0"), ("h", "3")]
    allt = [(r, h) for r in "vbh" for h in "0123"]
    ops = []
    for r, h in allt: ops.append(("a", "P", r, h))
    for f, kinds in (("a", "LXMF"), ("s", "PML"), ("t", "PF"), ("f", "PM"), ("A", "P"), ("Y", "P")) + ((("R", "PM"),) if rt == "i" else ()):
        for k in kinds:
            for r, h in some: ops.append((f, k, r, h))
    ops += [(f, "I", "v", "2") for f in "astf"]
    out = []
    for f, k, r, h in ops:
        for m in "rscpd":
            if m == "p" and r != "h" or m == "d" and r != "v": continue
            if m == "c" and r == "v" and unh == "r": continue
            if m == "c" and f == "Y" and rt == "i" and unh == "r": continue
            for x in "-ctorsey":
                if x == "c" and (k in "LXI"): continue
                if x == "o" and k not in "MF": continue
                if x == "t" and tr == "0": continue
                if x == "y" and f != "Y": continue
                if x == "s" and m == "r": continue
                if m == "d" and x == "e": continue
                out.append(f + k + r + h + m + x)
    for f in "yz" + ("Z" if rt == "i" else ""):
        for m in "rsc":
            if m == "c" and rt == "i" and unh == "r": continue
            for x in "-crsey":
                if x == "s" and m == "r": continue
                out.append(f + "---" + m + x)
    return out


CORO_OPS = ["tTqrtTqr", "qqqqqqqq", "TTTTTTTT", "w", "e", "E", "rw", "rE", "te", "Tw", "qd", "rrE", "rrw", "rrrE", "rrrrw", "rrrrrrrr", "RRRRRRRR", "rRrRrRrR", "", "D", "rd", "rD", "Rd", "RD", "rrd", "rrD", "rRd", "rrrd", "rrrD", "rrrrd", "rrrrD"]


def coro_progs(seed, tier):
    r = rng(seed, "coro")
    quick = tier == "quick"
    out = []

    def conf(rt=None, tr=None, unh=None):
        rt = rt or r.choice("vi"); fin = r.choice("nss" if rt == "v" else "nssp")
        k, ini, unh = r.choice("MMMMMMN"), r.choice("ssrrssrrF"), unh or r.choice("sr")
        return (k, rt, tr or r.choice("012" if rt == "v" else "01"), "s" if k == "N" and unh == "r" else ini, fin, unh, r.choice("MN"))

    def add(c, st, ops):
        st = list(st)
        if c[1] == "i" and (not st or st[-1][0] not in "RZrx"): st.append(r.choice(["r---r-", "r---r-", "x---r-"]))
        elif st and st[-1][0] not in "Rrx" and r.random() < .25: st.append(r.choice(["r---r-", "x---r-"]))
        out.append("%s | %s | %s" % ("".join(c), " ".join(st), ops))

    out.append("Hv0ssrM |  | ")
    # no statement, and every way to end, with every promise and owner
    for k in "MN":
        for rt in "vi":
            for tr in "01":
                for ini in "srEF":
                    for fin in ("ns" if rt == "v" else "nsp"):
                        for unh in "sr":
                            for end in ([""] if rt == "v" else []) + ["r---r-", "x---r-"]:
                                for ops in ("rr", "RR", "", "D", "rd", "rD"):
                                    if k == "N" and (unh == "r" and ini in "rE" or r.random() < .7): continue
                                    out.append("%s | %s | %s" % (k + rt + tr + ini + fin + unh + r.choice("MN"), end, ops))
    # every statement with every promise kind, with some owners
    for rt in "vi":
        for tr in "012" if rt == "v" else "01":
            for unh in "sr":
                for s in coro_stmts(rt, tr, unh):
                    for n in range(1 if quick else 8):
                        add(conf(rt, tr, unh), [s], r.choice(CORO_OPS))
    # several statements
    for n in range(1500 if quick else 30000):
        c = conf(); ss = coro_stmts(c[1], c[2], c[5])
        add(c, [r.choice(ss) for _ in range(r.randint(2, 3 if quick else 5))], r.choice(CORO_OPS))
    return dedup(out)


CALL_OPS = dict(
    n=["at", "am", "aV", "aM", "aR", "as", "ae", "aE", "lt", "lm", "lV", "lR", "wt", "wm", "wV", "ws", "b[tm", "b[VR", "v[t", "v[tm", "v[mmt", "ut", "kt", "kV", "jt", "xt", "xV", "yt", "yR", "ot", "om", "g[t", "g[tm"],
    m=["at", "am", "aV", "aM", "aR", "ae", "aE", "lt", "lm", "lV", "wt", "wm", "wV", "b[tm", "v[t", "v[tm", "kt", "jt", "xt", "yt", "ot", "g[t"],
    s=["at", "am", "as", "wt", "dt", "dm", "ds", "dV", "b[tm"])


def call_ops(kind):
    return CALL_OPS["s" if kind == "s" else "m" if kind in "mME" else "n"]


def call_item(op, subs):
    """op: mode and child kinds; subs: the bodies of the children"""
    if op[1] == "[":
        return op[0] + "[" + "".join(f"{k}({b})" for k, b in zip(op[2:], subs)) + "]"
    return f"{op[0]}{op[1]}({subs[0]})"


def call_body(r, kind, depth, hops):
    """a random body of a node of the given kind at the given depth"""
    out = []
    for _ in range(r.choice([1, 2, 2, 3])):
        x = r.random()
        if x < .3 and kind != "s":
            out.append("?")
        elif x < .5 and hops[0]:
            hops[0] -= 1
            out.append("p")
        elif depth < 3:
            op = r.choice(call_ops(kind))
            ks = op[2:] if op[1] == "[" else op[1:]
            out.append(call_item(op, [call_body(r, k, depth + 1, hops) for k in ks]))
    if kind != "s" and "?" not in out:
        out.append("?")
    return ",".join(out)


def calls_progs(seed, tier):
    out = []
    roots = ["S" + k for k in "tmVMReEs"] + ["Bt", "Bm", "Ft", "Fm", "FV", "Fe"]
    ask = lambda k: "" if k == "s" else "?"
    for ro in roots:
        out.append(f"{ro[0]} {ro[1]}({ask(ro[1])},p,{ask(ro[1])})".replace("(,", "(").replace(",)", ")"))
    for k in "tVRemMEs":     # every parent with every operation and kind of child
        for op in call_ops(k):
            ks = op[2:] if op[1] == "[" else op[1:]
            for b in ("{}", "{},p,{}"):
                it = call_item(op, ["at(?,p,?)" if c == "s" else b.replace("{}", "?") for c in ks])
                a = "" if k == "s" else ",?"
                out.append(f"S {k}({it}{a})")
                if b != "{}":
                    it2 = call_item(op, ["dt(?,p)" if c == "s" else "?" for c in ks])
                    out.append(f"S t(a{k}(p,{it2}{a}),?)")
    r = rng(seed, "calls")
    for i in range(700 if tier == "quick" else 8000):
        ro = roots[i % len(roots)]
        out.append(f"{ro[0]} {ro[1]}({call_body(r, ro[1], 0, [3])})")
    return dedup(out)


# ----------------------------------------------------------------- barrier
def barrier_progs(seed, tier):
    core = ["1|w ; d", "1|; w|d", "1|; m|d", "0|w m ; q", "2|; w|d|d", "2|; m q|d q|d q", "0|a2 w ; d|d", "1|a1 ; d w|d", "1|X ; d", "1|; X|d", "2|; X|d|d",
            "1|; R|d", "1|R ; d", "0|R ; q", "1|; w|d a1 d", "1|; w|a1 d|d", "1|; w|a2 d d|d q", "0|; w|a1 d", "0|; m|a1 d|a2 d d q", "3|; w|d d|d q",
            "2|; q q w|d|d", "1|; d q|q q|w", "0|a3 ; w d|d|d", "1|; R q|d a1 d", "0|; a1 d q w|a1 d q"]
    r = rng(seed, "barrier")
    for _ in range(30 if tier == "quick" else 250):
        k = r.choice([2, 2, 3])
        init = r.randint(0, 2)
        pro, th = [], [[] for _ in range(k)]
        left = init
        if r.random() < .4:
            n = r.randint(1, 2)
            pro.append(f"a{n}")
            left += n
        own = [0] * k
        for _ in range(left):       # who takes down what is there
            if r.random() < .85:
                own[r.randrange(k)] += 1
        wt = r.randrange(k)
        for t in range(k):
            ops = []
            for _ in range(own[t]):
                ops.append("d")
            if r.random() < .35:    # and raises and lowers on its own
                n = r.randint(1, 2)
                at = r.randint(0, len(ops))
                ops[at:at] = [f"a{n}"] + ["d"] * n
            for _ in range(r.choice([0, 0, 1])):
                ops.insert(r.randint(0, len(ops)), "q")
            th[t] = ops
        x = r.choice("wwmmRwm")
        (pro if r.random() < .3 else th[wt]).append(x) if r.random() < .5 else th[wt].insert(r.randint(0, len(th[wt])), x)
        core.append(f"{init}|" + " ".join(pro) + " ; " + "|".join(" ".join(o) for o in th))
    return dedup(core)


# ------------------------------------------------------------ long histories
def bulk_progs(*parts):
    def gen(seed, tier):
        r = rng(seed, "bulk")
        n = 6 if tier == "quick" else 30
        out = {
            "s": ["s 4 70000 1 0", "s 4 70000 4 1", "s 256 70000 256 0", "s 1024 20000 700 1", "s 131072 140000 131072 0"],
            "m": ["m 4 70000 1 1", "m 64 70000 64 0", "m 512 20000 300 0", "m 1 300 1 0", "m 131072 140000 131072 0"],
            "qs": ["qs h 256 140000 256", "qs c 64 2000 40", "qs z 64 70000 0", "qs h 16384 70000 9000", "qs u 1024 70000 300"],
            "qm": ["qm h 256 140000 256", "qm c 64 2000 40", "qm z 64 70000 0", "qm h 16384 70000 9000", "qm u 1024 70000 300"],
            "event": ["event 300 20", "event 1 200", "event 70000 1"],
            "barrier": ["barrier 0 1 300", "barrier 0 70000 70000", "barrier 2 3 70000", "barrier 65536 3 3", "barrier 0 300 1"],
            "scope": ["scope 300", "scope 70000", "scope 3"], "wascope": ["wascope 300", "wascope 70000", "wascope 4"],
            "whenall": ["whenall 300", "whenall 70000", "whenall 20"], "task": ["task 3000 100", "task 300 1000"], "stop": ["stop 3000 1000", "stop 40 0", "stop 17 3", "stop 200 70000", "stop 5000 10"],
            "pool": ["pool 70000 300 100", "pool 10 20 40", "pool 300 70000 1000"], "wait": ["wait 1000", "wait 20"], "stack": ["stack 100", "stack 1000", "stack 7"],
            "stopaw": ["stopaw 300", "stopaw 10000", "stopaw 17"], "timeout": ["timeout 1000", "timeout 20"],
        }
        for k, ks in dict(task="ltewm", whenall="avx", scope="hfj", wascope="s").items():
            out[k] += [f"rows {x} {c}" for x in ks for c in (70000, r.randint(1, 2000))]
        for _ in range(n):
            for k in "sm":
                c, b = 2 ** r.randint(0, 9), r.randint(1, 600)
                b = min(b, c)
                out[k].append(f"{k} {c} {r.randint(1, 3000) + b * r.randint(1, 20)} {b} {r.randint(0, 1)}")
            for k in ("qs", "qm"):
                t = r.choice("chuz")
                c = 2 ** r.randint(0, 6 if t == "c" else 10)
                out[k].append(f"{k} {t} {c} {r.randint(1, 30) * 100 + r.randint(0, 99)} {r.choice([0, r.randint(1, 2 * c)])}")
            out["event"].append(f"event {r.randint(1, 100)} {r.randint(1, 20)}")
            out["barrier"].append(f"barrier {r.choice([0, 0, 1, 7])} {r.randint(1, 300)} {r.randint(1, 300)}")
            for k in ("scope", "wascope", "whenall", "wait", "stopaw", "timeout"):
                out[k].append(f"{k} {r.randint(3, 200)}")
            out["task"].append(f"task {r.randint(1, 300)} {r.randint(1, 60)}")
            out["stop"].append(f"stop {r.randint(1, 400)} {r.randint(1, 50)}")
            out["pool"].append(f"pool {r.randint(1, 300)} {r.randint(1, 60)} {r.randint(1, 60)}")
            out["stack"].append(f"stack {r.randint(1, 50)}")
        return dedup([x for p in parts for x in out[p]])
    o = dict(dfs=1, rnd=0, wmm=0, weakcas=0, races=0, maxsteps=100000000)
    return Suite("bulk", "BulkTrace", gen, opts=o, thorough=dict(dfs=1, rnd=0))


CHECKS = {
    "C20": dict(suites=[Suite("barrier", "BarrierTrace", barrier_progs)], models=[Model("BarrierMC")]),
    "C18": dict(suites=[Suite("calls", "CallStackTrace", calls_progs, opts=dict(pb=1, dfs=40, rnd=8), thorough=dict(pb=2, dfs=300, rnd=60))],
                models=[Model("CallStackMC", tcfg="CallStackMC2.cfg")]),
    "C17": dict(suites=[Suite("coro", "CoroTrace", coro_progs, opts=dict(dfs=1, rnd=0, fence=1), thorough=dict(dfs=1, rnd=0, fence=1))],
                models=[Model("CoroMC", tcfg="CoroMC2.cfg")]),
    "C16": dict(suites=[Suite("result", "ResultTrace", result_progs, opts=dict(dfs=1, rnd=0), thorough=dict(dfs=1, rnd=0))], models=[Model("ResultMC")]),
    "C15": dict(suites=[Suite("syncwait", "SyncWaitTrace", syncwait_progs, opts=dict(pb=3, dfs=3000, rnd=400), thorough=dict(pb=5))], models=[Model("SyncWaitMC")]),
    "C14": dict(suites=[Suite("timeout", "TimeoutTrace", timeout_progs), Suite("timeout", "TimeoutTrace", timeout_progs, opts=dict(timer=1, dfs=1200, rnd=600))], models=[Model("TimeoutMC", tcfg="TimeoutMC2.cfg")]),
    "C12": dict(suites=[Suite("pool", "PoolTrace", pool_progs)], models=[Model("PoolMC", tcfg="PoolMCt.cfg")]),
    "C13": dict(suites=[Suite("pool", "PoolTrace", delay_progs), Suite("pool", "PoolTrace", lambda s, t: [p for p in delay_progs(s, t) if p.lower().count("l") < 6], opts=dict(timer=1, dfs=1500, rnd=800))], models=[Model("PoolMC", tcfg="PoolMCt.cfg")]),
    "C11": dict(suites=[Suite("stopaw", "StopAwaitTrace", stopaw_progs)], models=[Model("StopAwaitMC")]),
    "C10": dict(suites=[Suite("stop", "StopTrace", lambda s, t: [p for p in stop_progs(s, t) if "R" not in p]),
                        Suite("stop", "StopTrace", lambda s, t: [p for p in stop_progs(s, t) if "R" in p], cfg="StopTraceBig.cfg", opts=dict(dfs=1500, rnd=500))], models=[Model("StopMC")]),
    "C08": dict(suites=[Suite("whenall", "WhenAllTrace", whenall_progs)], models=[Model("WhenAllMC")]),
    "C07": dict(suites=[Suite("task", "TaskTrace", task_progs)], models=[Model("TaskMC", tcfg="TaskMC3.cfg")]),
    "C01": dict(suites=[Suite("chan", "ChannelTrace", chan_progs)], models=[Model("ChannelMC")]),
    "C02": dict(suites=[Suite("chan", "ChannelTrace", chan_progs)], models=[Model("ChannelMC")]),
    "C03": dict(suites=[Suite("seq", "SeqTrace", seq_wait_progs)], models=[Model("SeqMC")]),
    "C04": dict(suites=[Suite("seq", "SeqTrace", seq_claim_progs)], models=[Model("SeqMC")]),
    "C05": dict(suites=[Suite("scope", "ScopeTrace", scope_progs)], models=[Model("ScopeMC")]),
    "C06": dict(suites=[Suite("scope", "ScopeTrace", scope_progs)], models=[Model("ScopeMC")]),
    "C19": dict(suites=[Suite("wascope", "ScopeTrace", lambda s, t: wascope_progs(s, t, False)),
                        Suite("wascope", "ScopeTrace", lambda s, t: wascope_progs(s, t, True), cfg="ScopeTraceSwallow.cfg"),
                        Suite("wascope", "ScopeTrace", lambda s, t: ["v|a0 t|o0", "e|a0 d0|o0"])],
                models=[Model("ScopeMC")]),
    "C09": dict(suites=[Suite("event", "EventTrace", event_progs)], models=[Model("EventMC")]),
}

for _c, _parts in {"C01": "s m", "C03": "qs qm", "C04": "qs qm", "C05": "scope", "C06": "scope", "C07": "task", "C08": "whenall", "C09": "event", "C10": "stop", "C11": "stopaw", "C14": "timeout",
                   "C12": "pool", "C13": "pool", "C15": "wait", "C18": "stack", "C19": "wascope", "C20": "barrier"}.items():
    CHECKS[_c]["suites"].append(bulk_progs(*_parts.split()))
    CHECKS[_c]["models"].append(Model("BulkMC"))
