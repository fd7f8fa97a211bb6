// See vrt.h.  This file is compiled WITHOUT -fsanitize=thread.
#include "vrt.h"
#include <cerrno>
#include <climits>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dlfcn.h>
#include <exception>
#include <fstream>
#include <link.h>
#include <linux/futex.h>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <set>
#include <signal.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>
#include <cxxabi.h>

extern char __libc_single_threaded;
namespace __cxxabiv1 { extern "C" struct __cxa_eh_globals* __cxa_get_globals() noexcept; }

namespace {

template<class T> struct MA { using value_type = T; MA() = default; template<class U> MA(const MA<U>&) {}
    T* allocate(size_t n) { return (T*)malloc(n * sizeof(T)); } void deallocate(T* p, size_t) { free(p); }
    bool operator==(const MA&) const { return true; } };
template<class T> using Vec = std::vector<T, MA<T>>;

constexpr int MAXT = 16;
constexpr size_t STACK = 512 * 1024;
constexpr uintptr_t ARENA_BASE = 0x200000000000ull;
constexpr size_t ARENA_SIZE = 256u << 20;
constexpr uintptr_t STACK_BASE = 0x210000000000ull;
constexpr size_t STACKS_SIZE = MAXT * STACK;
constexpr size_t EVMAX = 1 << 18;
constexpr int MAXCH = 1 << 16;

// ---------------------------------------------------------------- clocks
struct VC {
    uint32_t c[MAXT];
    void clear() { memset(c, 0, sizeof c); }
    void join(const VC& o) { for (int i = 0; i < MAXT; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; }
};

enum St { FREE, READY, BLOCKED, DONE };
enum Wait { W_NONE, W_MUTEX, W_COND, W_JOIN, W_SLEEP, W_FUTEX, W_SETTLE };

struct BufStore { uintptr_t addr; int size; unsigned __int128 val; bool rel; VC clk; uint32_t ep; bool sc; };

struct Fiber {
    int id;
    St st;
    void* sp;
    char* stack;
    Vec<char> tls;
    uintptr_t eh[2];
    VC clk, acqPending, relFence, view; // view: what seq_cst fences make visible
    Wait wait;
    uintptr_t waddr;
    long long deadline; // ns, -1 none
    bool timedout;
    bool noPoint; // between vrt::fence() and the next event
    int waitSeq;
    void* (*fn)(void*);
    void* arg;
    void* ret;
    bool detached;
    Vec<BufStore> sb;
    int spin;      // consecutive ops without a switch
    unsigned ymask; // threads that have to run before this one does again (it yielded)
    int prio;
    const char* spawnEv; // event to record for every thread this one creates
};

Fiber F[MAXT];
int nf;
int cur = -1; // running fiber, -1 host
void* hostSp;
char* tlsBase; size_t tlsSize; Vec<char> tlsInit; uintptr_t hostEh[2];
Vec<char> tlsHost;
long long nowNs;
int waitSeqCtr;

// ---------------------------------------------------------------- shared
struct Ch { uint8_t chosen, n; uint16_t costly; };
struct Shared {
    volatile int inRun;
    long runs, badRuns;
    int phase;        // 0 dfs 1 random 2 done
    int nch;          // choices in current run
    int nprefix;      // prefix to replay
    Ch ch[MAXCH];
    long dfsRuns, rndRuns;
    bool dfsComplete;
    size_t evLen;
    int nev;
    char evbuf[EVMAX];
    char detail[4096];
    long points;
    int crashes;
};
Shared* S;

// ---------------------------------------------------------------- options
struct Opt {
    int pb = 2; long maxDfs = 20000; long maxRnd = 2000; uint64_t seed = 1;
    double tmax = 10; bool tso = true; int wmm = 1; bool timer = false, fence = false; bool spurious = true;
    int verbose = 0; long maxSteps = 20000; bool races = true; bool leaks = true; int stackraces = 1;
    bool weakcas = true; int maxBad = 12; long maxTraces = 100000;
} opt;

uint64_t rs;
uint64_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 0x2545F4914F6CDD1Dull >> 11; }
bool randomMode;
int strat; double switchP; int pctChange[8]; int npct; int pctLow;
long step; bool ended;
struct Mx { int owner; VC clk; int depth; };
struct Rw { int writer, readers; VC wclk, rclk; };

// open-addressing map addr -> V, cleared per run
template<class V> struct Map {
    struct E { uintptr_t k; uint32_t gen; V v; };
    Vec<E> t; uint32_t gen = 1; size_t cnt = 0;
    Map() : t(1 << 12) { for (auto& e : t) e.gen = 0; }
    void clear() { ++gen; cnt = 0; }
    V* find(uintptr_t k, bool create) {
        if (cnt * 2 > t.size()) grow();
        size_t m = t.size() - 1, i = (k * 0x9E3779B97F4A7C15ull >> 20) & m;
        while (t[i].gen == gen) { if (t[i].k == k) return &t[i].v; i = (i + 1) & m; }
        if (!create) return nullptr;
        ++cnt; t[i].gen = gen; t[i].k = k; memset((void*)&t[i].v, 0, sizeof(V)); return &t[i].v;
    }
    void grow() { Vec<E> o = std::move(t); t.resize(o.size() * 2); for (auto& e : t) e.gen = 0; uint32_t g = gen; cnt = 0;
        for (auto& e : o) if (e.gen == g) *find(e.k, true) = e.v; }
};
struct Loc { VC rel; uint32_t hist; };
Map<Loc> locs;
// Weak memory (--wmm): every atomic location keeps its modification order; a load that is not bound by happens-before,
// coherence or the seq_cst order to a newer store may return an older one. The order of recorded events counts as
// seq_cst fences: an operation that returned before another one was called is seen by it.
struct HStore { unsigned __int128 val; VC rel; };
struct HLog { uint32_t ep, ix; };
struct Hist { Vec<HStore> st; Vec<HLog> log[MAXT]; uint32_t lastSC; };
Vec<Hist> hists; size_t nhist;
VC gsc, gscStores; // made visible by seq_cst fences so far; written by seq_cst stores so far
int staleLeft;
Map<Mx> mutexes; Map<Rw> rwlocks;
struct Cv { VC dummy; };

// ---------------------------------------------------------------- arena
struct Blk { uintptr_t a; size_t n; bool freed; bool forgiven, fence; };
size_t arenaTop; bool fenced = false;
Vec<Blk> blks;
Map<uint32_t> blkAt; // addr -> index+1
uint8_t* astate; // per byte: 0 unalloc 1 live 2 freed
struct Cell { uint32_t w; uint8_t wt; uint8_t used; uint8_t noRace; uint8_t at; uint32_t r[MAXT]; };
Cell* ashadow; Cell* sshadow;
size_t stackLow[MAXT]; // lowest touched offset of each stack shadow

inline bool inArena(uintptr_t a) { return a - ARENA_BASE < ARENA_SIZE; }
inline bool inStacks(uintptr_t a) { return a - STACK_BASE < STACKS_SIZE; }

[[noreturn]] void endRun();
void report(const char* kind, const char* fmt, ...) {
    if (ended) return;
    va_list ap; va_start(ap, fmt);
    vsnprintf(S->detail, sizeof S->detail, fmt, ap);
    va_end(ap);
    vrt::ev("{\"e\":\"%s\"}", kind);
    if (opt.verbose) fprintf(stderr, "%s: %s (thread %d)\n", kind, S->detail, cur);
    ++S->badRuns;
    endRun();
}

// ---------------------------------------------------------------- switching
extern "C" void vrt_swap(void** from, void* to);
asm(R"(
.text
.globl vrt_swap
.type vrt_swap,@function
vrt_swap:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size vrt_swap,.-vrt_swap
.globl vrt_tramp
.type vrt_tramp,@function
vrt_tramp:
  xorl %ebp,%ebp
  call vrt_fiber_entry
  ud2
.size vrt_tramp,.-vrt_tramp
.section .note.GNU-stack,"",@progbits
.text
)");
extern "C" void vrt_tramp();

void saveCtx(int f) {
    uintptr_t* g = (uintptr_t*)__cxxabiv1::__cxa_get_globals();
    if (f < 0) { hostEh[0] = g[0]; hostEh[1] = g[1]; memcpy(tlsHost.data(), tlsBase, tlsSize); }
    else { F[f].eh[0] = g[0]; F[f].eh[1] = g[1]; if (tlsSize) memcpy(F[f].tls.data(), tlsBase, tlsSize); }
}
void loadCtx(int f) {
    uintptr_t* g = (uintptr_t*)__cxxabiv1::__cxa_get_globals();
    if (f < 0) { g[0] = hostEh[0]; g[1] = hostEh[1]; if (tlsSize) memcpy(tlsBase, tlsHost.data(), tlsSize); }
    else { g[0] = F[f].eh[0]; g[1] = F[f].eh[1]; if (tlsSize) memcpy(tlsBase, F[f].tls.data(), tlsSize); }
}
void switchTo(int to) {
    int from = cur;
    if (from == to) return;
    saveCtx(from);
    loadCtx(to);
    cur = to;
    void** fs = from < 0 ? &hostSp : &F[from].sp;
    void* ts = to < 0 ? hostSp : F[to].sp;
    vrt_swap(fs, ts);
}
[[noreturn]] void endRun() {
    ended = true;
    switchTo(-1);
    abort();
}

int newFiber(void* (*fn)(void*), void* arg) {
    if (nf == MAXT) { fprintf(stderr, "vrt: too many threads\n"); _exit(99); }
    int i = nf++;
    Fiber& f = F[i];
    f.id = i; f.st = READY; f.fn = fn; f.arg = arg; f.ret = nullptr; f.detached = false;
    f.stack = (char*)STACK_BASE + i * STACK;
    f.tls = tlsInit; f.eh[0] = f.eh[1] = 0;
    f.clk.clear(); f.acqPending.clear(); f.relFence.clear(); f.view.clear();
    if (cur >= 0) f.clk = F[cur].clk;
    f.clk.c[i] = 1;
    f.wait = W_NONE; f.deadline = -1; f.timedout = false; f.sb.clear(); f.spin = 0; f.ymask = 0; f.spawnEv = nullptr;
    f.prio = randomMode ? 100 + (int)(rnd() % 1000) : 0;
    uintptr_t* sp = (uintptr_t*)(f.stack + STACK - 64);
    *--sp = 0; *--sp = 0;           // alignment
    *--sp = (uintptr_t)&vrt_tramp;  // return address
    for (int k = 0; k < 6; ++k) *--sp = 0;
    f.sp = sp;
    return i;
}

// ---------------------------------------------------------------- choices
const uint16_t NOEXPAND = 0x8000; bool staleOn;
long clockCalls; // since the last scheduling point
int choose(int n, unsigned costly) {
    if (n <= 1) return 0;
    int c;
    int pos = S->nch;
    if (pos >= MAXCH) { report("Livelock", "too many choices"); }
    if (pos < S->nprefix) {
        c = S->ch[pos].chosen;
        if (c >= n) { // nondeterminism in the replay: must not happen
            fprintf(stderr, "vrt: replay divergence at %d (n=%d, chosen=%d)\n", pos, n, c);
            _exit(98);
        }
    } else if (randomMode) {
        c = -1;
        if (costly == 0) c = rnd() % n;
        else c = (rnd() % 1000) < switchP * 1000 ? 1 + rnd() % (n - 1) : 0;
    } else c = 0;
    S->ch[pos] = Ch{(uint8_t)c, (uint8_t)n, (uint16_t)costly};
    S->nch = pos + 1;
    return c;
}
// choice recorded, but value dictated in random mode (PCT)
int chooseFixed(int n, unsigned costly, int want) {
    int pos = S->nch;
    if (pos >= MAXCH) report("Livelock", "too many choices");
    int c = pos < S->nprefix ? S->ch[pos].chosen : want;
    if (c >= n) c = 0;
    S->ch[pos] = Ch{(uint8_t)c, (uint8_t)n, (uint16_t)costly};
    S->nch = pos + 1;
    return c;
}

Cell* cellOf(uintptr_t a);
template<class T> Hist* histOf(const volatile T* p, Loc* l) {
    uintptr_t a = (uintptr_t)p;
    if (l->hist) {
        Hist& h = hists[l->hist - 1];
        if (!h.st.empty() && (T)h.st.back().val == *p) return &h;
        h.st.clear(); for (auto& g : h.log) g.clear(); h.lastSC = 0;
    } else {
        if (nhist == hists.size()) hists.emplace_back();
        Hist& h = hists[nhist++];
        h.st.clear(); for (auto& g : h.log) g.clear(); h.lastSC = 0;
        l->hist = nhist;
    }
    Hist& h = hists[l->hist - 1];
    h.st.push_back({(unsigned __int128)*p, l->rel});
    if (inArena(a) || inStacks(a)) cellOf(a)->at = 1;
    return &h;
}
void histReset(uintptr_t a) {
    if (Loc* l = locs.find(a, false)) if (l->hist) { Hist& h = hists[l->hist - 1]; h.st.clear(); for (auto& g : h.log) g.clear(); h.lastSC = 0; }
}
void histStore(uintptr_t a, Loc* l, unsigned __int128 v, const VC& rel, int t, uint32_t ep, bool sc) {
    if (!l->hist) return;
    Hist& h = hists[l->hist - 1];
    h.st.push_back({v, rel});
    uint32_t ix = h.st.size() - 1;
    h.log[t].push_back({ep, ix});
    if (sc) h.lastSC = ix;
}
uint32_t histLow(Hist& h, Fiber& f, bool sc) {
    uint32_t lb = sc ? h.lastSC : 0;
    for (int u = 0; u < nf; ++u) {
        auto& g = h.log[u];
        uint32_t e = std::max(f.clk.c[u], f.view.c[u]);
        if (sc) e = std::max(e, gsc.c[u]);
        if (u == f.id) e = ~0u;
        for (size_t i = g.size(); i-- > 0;) if (g[i].ep <= e) { lb = std::max(lb, g[i].ix); break; }
    }
    return lb;
}
void scFence(Fiber& f) {
    gsc.join(f.clk); gsc.join(f.view); gsc.join(gscStores);
    f.view.join(gsc);
    f.clk.c[f.id]++;
}
void commit(Fiber& f, const BufStore& b) {
    switch (b.size) {
    case 1: *(volatile uint8_t*)b.addr = (uint8_t)b.val; break;
    case 2: *(volatile uint16_t*)b.addr = (uint16_t)b.val; break;
    case 4: *(volatile uint32_t*)b.addr = (uint32_t)b.val; break;
    case 8: *(volatile uint64_t*)b.addr = (uint64_t)b.val; break;
    default: *(volatile unsigned __int128*)b.addr = b.val; break;
    }
    Loc* l = locs.find(b.addr, true);
    if (opt.wmm) histStore(b.addr, l, b.val, b.clk, f.id, b.ep, b.sc);
    if (b.rel) l->rel = b.clk; else l->rel = b.clk; // clk = release clock (fence clock for relaxed)
}
void drain(Fiber& f) {
    if (f.sb.empty()) return;
    for (auto& b : f.sb) commit(f, b);
    f.sb.clear();
}
void drainAll() { for (int i = 0; i < nf; ++i) drain(F[i]); }

bool anyTimed(long long& best) {
    best = LLONG_MAX;
    for (int i = 0; i < nf; ++i) if (F[i].st == BLOCKED && F[i].deadline >= 0 && F[i].deadline < best) best = F[i].deadline;
    return best != LLONG_MAX;
}
void fireTimers() {
    for (int i = 0; i < nf; ++i) if (F[i].st == BLOCKED && F[i].deadline >= 0 && F[i].deadline <= nowNs) {
        F[i].st = READY; F[i].timedout = true; F[i].deadline = -1;
    }
}
void advance(long long to, bool idle) {
    if (to > nowNs) {
        nowNs = to;
        vrt::ev("{\"e\":\"Tick\",\"now\":%lld,\"idle\":%s}", nowNs - 999999000, idle ? "true" : "false");
    }
    fireTimers();
}

// pick next fiber. curEnabled: the current fiber may continue. yielding: prefers another.
void schedule(bool curEnabled, bool yielding) {
    clockCalls = 0;
    if (++step > opt.maxSteps) report("Livelock", "more than %ld scheduling points", opt.maxSteps);
    for (;;) {
        int opts[MAXT + 2]; int n = 0; unsigned costly = 0;
        bool preferOther = yielding;
        unsigned ready = 0;
        if (!curEnabled && F[cur].st == READY) { curEnabled = true; preferOther = false; } // its own timer fired
        for (int i = 0; i < nf; ++i) if (i != cur && F[i].st == READY) ready |= 1u << i;
        // fairness: who yielded waits until everyone who was ready then has run
        if (yielding && curEnabled) F[cur].ymask = ready;
        if (curEnabled && !preferOther) opts[n++] = cur;
        unsigned readyCur = ready | (curEnabled ? 1u << cur : 0u);
        // others in round-robin order
        for (int k = 1; k <= nf; ++k) {
            int i = (cur + k) % nf;
            if (i == cur) continue;
            if (F[i].st == READY && !(F[i].ymask & readyCur)) { if (curEnabled && !preferOther) costly |= 1u << n; opts[n++] = i; }
        }
        if (n == 0 && ready) for (int k = 1; k <= nf; ++k) { int i = (cur + k) % nf; if (i != cur && F[i].st == READY) opts[n++] = i; }
        if (curEnabled && preferOther && n == 0) opts[n++] = cur;
        int base = n;
        long long best;
        if (opt.timer && anyTimed(best) && n > 0) { costly |= 1u << n; opts[n++] = MAXT; }
        if (n == 0) {
            drainAll();
            // settle waiters first
            for (int i = 0; i < nf; ++i) if (F[i].st == BLOCKED && F[i].wait == W_SETTLE) { F[i].st = READY; opts[n++] = i; break; }
            if (n) continue;
            if (anyTimed(best)) { advance(best, true); continue; }
            char b[512]; int bl = 0; b[0] = 0;
            for (int i = 0; i < nf; ++i) if (F[i].st == BLOCKED) bl += snprintf(b + bl, sizeof b - bl, " t%d:%d", i, F[i].wait);
            report("Deadlock", "all threads blocked:%s", b);
        }
        int c;
        if (n == 1) c = 0;
        else if (randomMode && strat == 1 && S->nch >= S->nprefix) {
            // PCT: run the highest priority enabled thread
            for (int k = 0; k < npct; ++k) if (pctChange[k] == step && curEnabled) F[cur].prio = --pctLow;
            if (yielding) F[cur].prio = --pctLow;
            int bi = 0;
            for (int k = 1; k < base; ++k) if (F[opts[k]].prio > F[opts[bi]].prio) bi = k;
            if (base < n && rnd() % 40 == 0) bi = n - 1;
            c = chooseFixed(n, costly, bi);
        } else {
            c = choose(n, costly);
        }
        if (opts[c] == MAXT) { anyTimed(best); advance(best, false); continue; }
        int nx = opts[c];
        F[nx].ymask = 0;
        for (int i = 0; i < nf; ++i) F[i].ymask &= ~(1u << nx);
        F[nx].spin = (nx == cur) ? F[nx].spin + 1 : 0;
        if (nx != cur) switchTo(nx);
        return;
    }
}
void pointImpl() {
    if (cur < 0 || ended) return;
    Fiber& f = F[cur];
    if (f.noPoint) return;
    ++S->points;
    bool y = false;
    if (f.spin > 60) { y = true; f.spin = 0; drain(f); for (int i = 0; i < nf; ++i) drain(F[i]); }
    schedule(true, y);
}
void blockOn(Wait w, uintptr_t a, long long deadline) {
    Fiber& f = F[cur];
    drain(f);
    f.st = BLOCKED; f.wait = w; f.waddr = a; f.deadline = deadline; f.timedout = false; f.waitSeq = ++waitSeqCtr;
    if (deadline >= 0 && deadline <= nowNs) { f.st = READY; f.timedout = true; f.deadline = -1; schedule(true, true); }
    else schedule(false, false);
    f.wait = W_NONE; f.deadline = -1;
}
void wake(int i) { F[i].st = READY; F[i].deadline = -1; F[i].timedout = false; }

extern "C" void vrt_fiber_entry() {
    Fiber& f = F[cur];
    f.ret = f.fn(f.arg);
    drain(f);
    f.st = DONE;
    f.clk.c[f.id]++;
    for (int i = 0; i < nf; ++i) if (F[i].st == BLOCKED && F[i].wait == W_JOIN && F[i].waddr == (uintptr_t)f.id) wake(i);
    bool all = true;
    for (int i = 0; i < nf; ++i) if (F[i].st != DONE) all = false;
    if (all) endRun();
    schedule(false, false);
    abort();
}

// ---------------------------------------------------------------- memory
const char* symtid(char* b, uintptr_t a) {
    if (inArena(a)) {
        for (size_t i = blks.size(); i-- > 0;) if (a >= blks[i].a && a < blks[i].a + blks[i].n) {
            sprintf(b, "heap block #%zu (+%zu of %zu)", i, (size_t)(a - blks[i].a), blks[i].n); return b; }
        return "heap (outside of any block)";
    }
    if (inStacks(a)) { sprintf(b, "stack of thread %d", (int)((a - STACK_BASE) / STACK)); return b; }
    return "?";
}
uintptr_t moduleBase;
Cell* cellOf(uintptr_t a) { return inArena(a) ? ashadow + (a - ARENA_BASE) : sshadow + (a - STACK_BASE); }

void access(uintptr_t a, size_t n, bool write, bool atomic, uintptr_t pc) {
    if (cur < 0 || ended) return;
    bool ar = inArena(a);
    if (!ar && !inStacks(a)) return;
    if (ar) {
        for (size_t i = 0; i < n; ++i) {
            uint8_t s = astate[a - ARENA_BASE + i];
            if (s != 1) {
                char b[128];
                report(s == 2 ? "UseAfterFree" : "OutOfBounds", "%s %s of %zu bytes at %s pc=+0x%zx", atomic ? "atomic" : "plain", write ? "write" : "read", n, symtid(b, a), (size_t)(pc - moduleBase));
                return;
            }
        }
    } else {
        int t = (a - STACK_BASE) / STACK; size_t off = (a - STACK_BASE) % STACK;
        if (off < stackLow[t]) stackLow[t] = off;
        if (!opt.stackraces && !opt.wmm) return;
    }
    if (opt.wmm && write && !atomic) { Cell* c = cellOf(a); for (size_t i = 0; i < n; ++i, ++c) if (c->at) { c->at = 0; histReset(a + i); } }
    if (!opt.races) return;
    Fiber& f = F[cur];
    Cell* c = cellOf(a);
    for (size_t i = 0; i < n; ++i, ++c) {
        if (c->noRace) continue;
        if (c->used) {
            bool bad = false; int other = -1; bool ow = false;
            if (c->w && c->wt != cur && c->w > f.clk.c[c->wt]) { bad = true; other = c->wt; ow = true; }
            if (!bad && write && !atomic)
                for (int t = 0; t < nf; ++t) if (t != cur && c->r[t] > f.clk.c[t]) { bad = true; other = t; break; }
            if (bad) {
                char b[128];
                report("DataRace", "%s %s of %zu bytes at %s (byte %zu) by thread %d races with %s by thread %d pc=+0x%zx", atomic ? "atomic" : "plain", write ? "write" : "read", n, symtid(b, a), i, cur, ow ? "write" : "access", other, (size_t)(pc - moduleBase));
                return;
            }
        }
        c->used = 1;
        if (write && !atomic) { c->w = f.clk.c[cur]; c->wt = cur; }
        else c->r[cur] = f.clk.c[cur];
    }
}

void* arenaAlloc(size_t n) {
    if (n == 0) n = 1;
    size_t top = (arenaTop + 15) & ~15ull;
    size_t tot = n + 32;
    // with the fence every block has pages of its own, which become inaccessible when it is freed: this finds uses by code that is not instrumented
    bool fence = opt.fence && arenaTop < (4u << 20);
    if (fence) { top = (arenaTop + 4095) & ~4095ull; tot = (n + 32 + 4095) & ~4095ull; }
    if (top + tot > ARENA_SIZE) report("Livelock", "arena exhausted");
    uintptr_t a = ARENA_BASE + top;
    arenaTop = top + tot;
    memset((void*)a, 0xA5, n);
    memset(astate + top, 1, n);
    *blkAt.find(a, true) = blks.size() + 1;
    blks.push_back({a, n, false, false, fence});
    // the allocation is a write by the allocating thread
    if (opt.races) for (size_t i = 0; i < n; ++i) { Cell& c = ashadow[top + i]; c.used = 1; c.w = F[cur].clk.c[cur]; c.wt = cur; }
    return (void*)a;
}
void arenaFree(void* p, uintptr_t pc) {
    uintptr_t a = (uintptr_t)p;
    if (cur < 0 || ended) return;
    drain(F[cur]);
    uint32_t* ix = blkAt.find(a, false);
    if (!ix || !*ix) { report("BadFree", "free of a pointer that was not allocated, pc=+0x%zx", (size_t)(pc - moduleBase)); return; }
    Blk& b = blks[*ix - 1];
    if (b.freed) { report("DoubleFree", "block #%u freed twice, pc=+0x%zx", *ix - 1, (size_t)(pc - moduleBase)); return; }
    access(a, b.n, true, false, pc);
    b.freed = true;
    memset(astate + (a - ARENA_BASE), 2, b.n);
    memset(p, 0xDD, b.n);
    if (b.fence) { mprotect(p, (b.n + 32 + 4095) & ~4095ull, PROT_NONE); fenced = true; }
}

void resetRun() {
    // arena
    if (fenced) { mprotect((void*)ARENA_BASE, (arenaTop + 4095) & ~4095ull, PROT_READ | PROT_WRITE); fenced = false; }
    memset(astate, 0, arenaTop);
    if (opt.races) memset((void*)ashadow, 0, arenaTop * sizeof(Cell));
    arenaTop = 0; blks.clear(); blkAt.clear();
    for (int t = 0; t < MAXT; ++t) if (stackLow[t] < STACK) {
        memset((void*)(sshadow + t * STACK + stackLow[t]), 0, (STACK - stackLow[t]) * sizeof(Cell));
        stackLow[t] = STACK;
    }
    nhist = 0; gsc.clear(); gscStores.clear(); staleLeft = 3;
    locs.clear(); mutexes.clear(); rwlocks.clear();
    nf = 0; nowNs = 1000000000ll; waitSeqCtr = 0; step = 0; ended = false;
    S->nch = 0; S->evLen = 0; S->nev = 0; S->detail[0] = 0; S->evbuf[0] = 0;
}

void* mainFiber(void*) { scenario_main(); return nullptr; }

void oneRun() {
    resetRun();
    S->inRun = 1;
    newFiber(mainFiber, nullptr);
    tlsHost.assign(tlsSize, 0);
    switchTo(0);
    bool clean = true;
    for (int i = 0; i < nf; ++i) if (F[i].st != DONE) clean = false;
    if (clean && opt.leaks) {
        long n = 0; size_t sz = 0;
        for (auto& b : blks) if (!b.freed && !b.forgiven) { ++n; sz = b.n; }
        if (n) {
            cur = -1; ended = false;
            snprintf(S->detail, sizeof S->detail, "%ld blocks not released (last of %zu bytes)", n, sz);
            vrt::ev("{\"e\":\"Leak\"}");
            ++S->badRuns;
        }
    }
    S->inRun = 0;
    ++S->runs;
}

bool nextDfs() {
    int n = S->nch;
    // cost prefix
    Vec<int> cost(n + 1, 0);
    for (int i = 0; i < n; ++i) cost[i + 1] = cost[i] + ((S->ch[i].costly >> S->ch[i].chosen) & 1);
    for (int i = n - 1; i >= 0; --i) {
        if (S->ch[i].costly == NOEXPAND) continue;
        for (int c = S->ch[i].chosen + 1; c < S->ch[i].n; ++c) {
            int k = (S->ch[i].costly >> c) & 1;
            if (cost[i] + k <= opt.pb) {
                S->ch[i].chosen = c;
                S->nprefix = i + 1;
                return true;
            }
        }
    }
    return false;
}

double nowS() { timespec ts; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }

FILE* outf;
std::unordered_set<uint64_t>* seen;
uint64_t hash(const char* p, size_t n) { uint64_t h = 1469598103934665603ull; for (size_t i = 0; i < n; ++i) { h ^= (unsigned char)p[i]; h *= 1099511628211ull; } return h ^ (h >> 29); }
void emit(int prog, bool force) {
    uint64_t h = hash(S->evbuf, S->evLen);
    if (!force && !seen->insert(h).second) return;
    if (!force && (long)seen->size() > opt.maxTraces) return;
    std::string ch;
    char b[16];
    // trim trailing default choices
    int n = S->nch; while (n > 0 && S->ch[n - 1].chosen == 0) --n;
    for (int i = 0; i < n; ++i) { sprintf(b, i ? ",%d" : "%d", S->ch[i].chosen); ch += b; }
    std::string d;
    for (char* p = S->detail; *p; ++p) if (*p == '"' || *p == '\\') d += '\''; else if (*p == '\n') d += ' '; else d += *p;
    fprintf(outf, "{\"p\":%d,\"tr\":[%s],\"ch\":\"%s\",\"d\":\"%s\"}\n", prog, S->evbuf, ch.c_str(), d.c_str());
    fflush(outf);
}

void childExplore(int prog, double deadline) {
    while (S->phase < 2) {
        if (S->phase == 0) {
            if (opt.maxDfs == 0 || S->dfsRuns >= opt.maxDfs || nowS() > deadline) { S->phase = 1; S->nprefix = 0; continue; }
            randomMode = false;
            ++S->dfsRuns;
            alarm(10); // for one run
            oneRun();
            emit(prog, false);
            if (!nextDfs()) { S->dfsComplete = true; S->phase = 1; S->nprefix = 0; }
        } else {
            if (S->rndRuns >= opt.maxRnd || nowS() > deadline) { S->phase = 2; break; }
            S->nprefix = 0;
            randomMode = true;
            rs = opt.seed * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull * (S->rndRuns + 1); rs |= 1;
            for (int i = 0; i < 4; ++i) rnd();
            strat = S->rndRuns % 3 == 2 ? 1 : 0;
            static const double ps[] = {0.02, 0.1, 0.3, 0.6};
            switchP = ps[rnd() % 4];
            staleOn = rnd() % 3 != 0;
            npct = 1 + rnd() % 4; pctLow = 50;
            long avg = S->runs ? S->points / S->runs + 2 : 50;
            for (int i = 0; i < npct; ++i) pctChange[i] = 1 + rnd() % avg;
            ++S->rndRuns;
            alarm(10);
            oneRun();
            emit(prog, false);
        }
        if (S->badRuns >= opt.maxBad) { S->phase = 2; }
    }
}

int hangs; // programs that hung
int explore(int prog, const std::string& text) {
    S->runs = S->badRuns = 0; S->phase = 0; S->nprefix = 0; S->dfsRuns = S->rndRuns = 0; S->dfsComplete = false; S->points = 0; S->crashes = 0;
    double t0 = nowS();
    double deadline = t0 + opt.tmax;
    for (;;) {
        fflush(outf);
        S->inRun = 0;
        pid_t p = fork();
        if (p == 0) {
            seen = new std::unordered_set<uint64_t>;
            scenario_load(text);
            childExplore(prog, deadline);
            fflush(outf);
            _exit(0);
        }
        int st;
        while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) break;
        if (WIFEXITED(st)) { fprintf(stderr, "vrt: explorer child failed with %d\n", WEXITSTATUS(st)); return 2; }
        int sig = WTERMSIG(st);
        if (!S->inRun) { fprintf(stderr, "vrt: explorer child died outside of a run (signal %d)\n", sig); return 2; }
        if (sig == SIGKILL) { fprintf(stderr, "vrt: explorer child killed\n"); return 2; }
        snprintf(S->detail, sizeof S->detail, "signal %d", sig);
        vrt::ev("{\"e\":\"%s\"}", sig == SIGALRM ? "Hang" : "Crash");
        ++S->runs; ++S->badRuns; ++S->crashes;
        emit(prog, true);
        if (sig == SIGALRM) ++hangs;
        if (S->crashes >= 4 || sig == SIGALRM) break;
        if (S->phase == 0) { if (!nextDfs()) { S->phase = 1; S->nprefix = 0; } }
    }
    double t = nowS() - t0;
    fprintf(outf, "{\"stat\":%d,\"runs\":%ld,\"dfs\":%ld,\"rnd\":%ld,\"complete\":%s,\"points\":%ld,\"t\":%.3f}\n", prog, S->runs, S->dfsRuns, S->rndRuns, S->dfsComplete ? "true" : "false", S->points, t);
    fflush(outf);
    return 0;
}

int phdrCb(dl_phdr_info* i, size_t, void*) {
    // first entry = main program
    moduleBase = i->dlpi_addr;
    for (int k = 0; k < i->dlpi_phnum; ++k) if (i->dlpi_phdr[k].p_type == PT_TLS) {
        tlsSize = i->dlpi_phdr[k].p_memsz;
        tlsBase = (char*)i->dlpi_tls_data;
        tlsInit.assign(tlsSize, 0);
        memcpy(tlsInit.data(), (char*)(i->dlpi_addr + i->dlpi_phdr[k].p_vaddr), i->dlpi_phdr[k].p_filesz);
    }
    return 1;
}
void* mapAt(uintptr_t a, size_t n) {
    void* p = mmap((void*)a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | (a ? MAP_FIXED_NOREPLACE : 0), -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); _exit(97); }
    return p;
}
void init() {
    mapAt(ARENA_BASE, ARENA_SIZE); mapAt(STACK_BASE, STACKS_SIZE);
    for (int i = 0; i < MAXT; ++i) mprotect((void*)(STACK_BASE + i * STACK), 4096, PROT_NONE);
    astate = (uint8_t*)mapAt(0, ARENA_SIZE);
    ashadow = (Cell*)mapAt(0, ARENA_SIZE * sizeof(Cell));
    sshadow = (Cell*)mapAt(0, STACKS_SIZE * sizeof(Cell));
    for (auto& s : stackLow) s = STACK;
    S = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    dl_iterate_phdr(phdrCb, nullptr);
    tlsHost.assign(tlsSize, 0);
    __libc_single_threaded = 0;
}
} // namespace

// ------------------------------------------------------------------ vrt API
namespace vrt {
void ev(const char* fmt, ...) {
    if (ended) return;
    if (opt.wmm && cur >= 0) { scFence(F[cur]); F[cur].noPoint = false; }
    char b[1024];
    va_list ap; va_start(ap, fmt);
    int n = vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    if (S->evLen + n + 2 >= EVMAX) { S->detail[0] = 0; if (cur >= 0) endRun(); return; }
    if (S->nev++) S->evbuf[S->evLen++] = ',';
    memcpy(S->evbuf + S->evLen, b, n); S->evLen += n; S->evbuf[S->evLen] = 0;
    if (opt.verbose) fprintf(stderr, "  t%d %s\n", cur, b);
}
void point() { pointImpl(); }
void fence() { if (opt.wmm && cur >= 0) { pointImpl(); scFence(F[cur]); F[cur].noPoint = true; } }
int tid() { return cur; }
void spawn_event(const char* e) { if (cur >= 0) F[cur].spawnEv = e; }
void stop_run() { endRun(); }
int choice(int n) { return choose(n, 0); }
void settle() { if (cur >= 0) { blockOn(W_SETTLE, 0, -1); if (opt.wmm) for (int i = 0; i < nf; ++i) F[cur].view.join(F[i].clk); } }
long live_blocks() { long n = 0; for (auto& b : blks) if (!b.freed) ++n; return n; }
void forgive_leaks() { for (auto& b : blks) b.forgiven = true; }
void no_race(void* p, size_t n) { uintptr_t a = (uintptr_t)p; if (inArena(a) || inStacks(a)) for (size_t i = 0; i < n; ++i) cellOf(a)[i].noRace = 1; }
}

// ------------------------------------------------------------------ new/delete
void* operator new(size_t n) {
    if (cur >= 0 && !ended) return arenaAlloc(n);
    void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p;
}
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return operator new(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return operator new(n); }
static void del(void* p, uintptr_t pc) { if (!p) return; if (inArena((uintptr_t)p)) arenaFree(p, pc); else free(p); }
void operator delete(void* p) noexcept { del(p, (uintptr_t)__builtin_return_address(0)); }
void operator delete[](void* p) noexcept { del(p, (uintptr_t)__builtin_return_address(0)); }
void operator delete(void* p, size_t) noexcept { del(p, (uintptr_t)__builtin_return_address(0)); }
void operator delete[](void* p, size_t) noexcept { del(p, (uintptr_t)__builtin_return_address(0)); }
static void* alnew(size_t n, size_t al) {
    if (cur >= 0 && !ended) { if (al > 16) arenaTop = (arenaTop + al - 1) & ~(al - 1); return arenaAlloc(n); }
    return aligned_alloc(al, (n + al - 1) & ~(al - 1));
}
void* operator new(size_t n, std::align_val_t a) { return alnew(n, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return alnew(n, (size_t)a); }
void operator delete(void* p, std::align_val_t) noexcept { del(p, (uintptr_t)__builtin_return_address(0)); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { del(p, (uintptr_t)__builtin_return_address(0)); }
void operator delete[](void* p, std::align_val_t) noexcept { del(p, (uintptr_t)__builtin_return_address(0)); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { del(p, (uintptr_t)__builtin_return_address(0)); }

// ------------------------------------------------------------------ tsan ABI
#define PC ((uintptr_t)__builtin_return_address(0))
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(N) \
void __tsan_read##N(void* a) { access((uintptr_t)a, N, false, false, PC); } \
void __tsan_write##N(void* a) { access((uintptr_t)a, N, true, false, PC); } \
void __tsan_unaligned_read##N(void* a) { access((uintptr_t)a, N, false, false, PC); } \
void __tsan_unaligned_write##N(void* a) { access((uintptr_t)a, N, true, false, PC); } \
void __tsan_volatile_read##N(void* a) { access((uintptr_t)a, N, false, false, PC); } \
void __tsan_volatile_write##N(void* a) { access((uintptr_t)a, N, true, false, PC); } \
void __tsan_unaligned_volatile_read##N(void* a) { access((uintptr_t)a, N, false, false, PC); } \
void __tsan_unaligned_volatile_write##N(void* a) { access((uintptr_t)a, N, true, false, PC); } \
void __tsan_read##N##_pc(void* a, void*) { access((uintptr_t)a, N, false, false, PC); } \
void __tsan_write##N##_pc(void* a, void*) { access((uintptr_t)a, N, true, false, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, size_t n) { access((uintptr_t)a, n, false, false, PC); }
void __tsan_write_range(void* a, size_t n) { access((uintptr_t)a, n, true, false, PC); }
void __tsan_vptr_update(void** a, void* v) { if (*a != v) access((uintptr_t)a, 8, true, false, PC); }
void __tsan_vptr_read(void** a) { access((uintptr_t)a, 8, false, false, PC); }
}

namespace {
// memory orders: 0 relaxed 1 consume 2 acquire 3 release 4 acq_rel 5 seq_cst
inline bool isAcq(int mo) { mo &= 0xffff; return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
inline bool isRel(int mo) { mo &= 0xffff; return mo == 3 || mo == 4 || mo == 5; }
void hbLoad(uintptr_t a, int mo) {
    Fiber& f = F[cur];
    if (Loc* l = locs.find(a, false)) { if (isAcq(mo)) f.clk.join(l->rel); f.acqPending.join(l->rel); }
}
// the store a load reads: the newest or, sometimes, an older one (never one that wrote `*not_this`)
template<class T> uint32_t wPick(const volatile T* p, Loc* l, int mo, const T* not_this) {
    Hist& h = *histOf<T>(p, l);
    uint32_t last = h.st.size() - 1;
    if (staleLeft <= 0) return last;
    uint32_t lb = histLow(h, F[cur], (mo & 0xffff) == 5), cand[4]; int n = 0;
    cand[n++] = last;
    for (uint32_t i = last; i > lb && n < 4;) if (--i, !not_this || (T)h.st[i].val != *not_this) cand[n++] = i;
    if (n == 1) return last;
    // --wmm=1: only in the random runs; 2: in the exhaustive ones as well
    int c = opt.wmm == 2 || (staleOn && randomMode && S->nch >= S->nprefix) ? choose(n, 0xfffe) : chooseFixed(n, NOEXPAND, 0);
    if (c) --staleLeft;
    return cand[c];
}
template<class T> T wTake(Loc* l, uint32_t ix, int mo) {
    Fiber& f = F[cur];
    Hist& h = hists[l->hist - 1];
    if (isAcq(mo)) f.clk.join(h.st[ix].rel);
    f.acqPending.join(h.st[ix].rel);
    h.log[cur].push_back({f.clk.c[cur], ix});
    return (T)h.st[ix].val;
}
template<class T> T aLoad(const volatile T* p, int mo, uintptr_t pc) {
    if (cur < 0 || ended) return *p;
    pointImpl();
    access((uintptr_t)p, sizeof(T), false, true, pc);
    Fiber& f = F[cur];
    for (size_t i = f.sb.size(); i-- > 0;) if (f.sb[i].addr == (uintptr_t)p) return (T)f.sb[i].val;
    if (opt.wmm) { Loc* l = locs.find((uintptr_t)p, true); return wTake<T>(l, wPick<T>(p, l, mo, nullptr), mo); }
    hbLoad((uintptr_t)p, mo);
    return *p;
}
VC relClock(int mo) { Fiber& f = F[cur]; return isRel(mo) ? f.clk : f.relFence; }
template<class T> void aStore(volatile T* p, T v, int mo, uintptr_t pc) {
    if (cur < 0 || ended) { *p = v; return; }
    pointImpl();
    access((uintptr_t)p, sizeof(T), true, true, pc);
    Fiber& f = F[cur];
    if (opt.wmm) histOf<T>(p, locs.find((uintptr_t)p, true));
    BufStore b{(uintptr_t)p, (int)sizeof(T), (unsigned __int128)v, isRel(mo), relClock(mo), f.clk.c[cur], (mo & 0xffff) == 5};
    if (b.sc) gscStores.c[cur] = f.clk.c[cur];
    if (isRel(mo)) f.clk.c[cur]++;
    if ((mo & 0xffff) == 5) { drain(f); commit(f, b); return; }
    int alive = 0; for (int i = 0; i < nf; ++i) alive += F[i].st == READY;
    if (!f.sb.empty()) { f.sb.push_back(b); return; }
    if (opt.tso && alive > 1 && choose(2, 2) == 1) f.sb.push_back(b);
    else commit(f, b);
}
template<class T, class Fn> T aRmw(volatile T* p, int mo, uintptr_t pc, Fn fn) {
    if (cur < 0 || ended) { T o = *p; *p = fn(o); return o; }
    pointImpl();
    access((uintptr_t)p, sizeof(T), true, true, pc);
    Fiber& f = F[cur];
    drain(f);
    Loc* l = locs.find((uintptr_t)p, true);
    if (isAcq(mo)) f.clk.join(l->rel);
    f.acqPending.join(l->rel);
    if (opt.wmm) histOf<T>(p, l);
    T o = *p; *p = fn(o);
    l->rel.join(relClock(mo)); // RMW continues the release sequence
    if (opt.wmm) { histStore((uintptr_t)p, l, (unsigned __int128)*p, l->rel, cur, f.clk.c[cur], (mo & 0xffff) == 5); if ((mo & 0xffff) == 5) gscStores.c[cur] = f.clk.c[cur]; }
    if (isRel(mo)) f.clk.c[cur]++;
    return o;
}
template<class T> int aCas(volatile T* p, T* exp, T des, int mo, int fmo, bool weak, uintptr_t pc) {
    if (cur < 0 || ended) { if (*p == *exp) { *p = des; return 1; } *exp = *p; return 0; }
    pointImpl();
    access((uintptr_t)p, sizeof(T), true, true, pc);
    Fiber& f = F[cur];
    drain(f);
    if (opt.wmm) { // fails because it reads an older value
        Loc* l = locs.find((uintptr_t)p, true);
        uint32_t ix = wPick<T>(p, l, fmo, exp);
        if (ix + 1 != hists[l->hist - 1].st.size()) { *exp = wTake<T>(l, ix, fmo); return 0; }
    }
    T o = *p;
    bool spur = false;
    if (weak && opt.weakcas && o == *exp) spur = chooseFixed(2, 2, randomMode && rnd() % 16 == 0) == 1;
    if (o == *exp && !spur) {
        Loc* l = locs.find((uintptr_t)p, true);
        if (isAcq(mo)) f.clk.join(l->rel);
        f.acqPending.join(l->rel);
        *p = des;
        l->rel.join(relClock(mo));
        if (opt.wmm) { histStore((uintptr_t)p, l, (unsigned __int128)des, l->rel, cur, f.clk.c[cur], (mo & 0xffff) == 5); if ((mo & 0xffff) == 5) gscStores.c[cur] = f.clk.c[cur]; }
        if (isRel(mo)) f.clk.c[cur]++;
        return 1;
    }
    if (opt.wmm) { Loc* l = locs.find((uintptr_t)p, true); wTake<T>(l, hists[l->hist - 1].st.size() - 1, fmo); }
    else hbLoad((uintptr_t)p, fmo);
    *exp = o;
    return 0;
}
}
#define A(BITS, T) \
extern "C" T __tsan_atomic##BITS##_load(const volatile T* a, int mo) { return aLoad<T>(a, mo, PC); } \
extern "C" void __tsan_atomic##BITS##_store(volatile T* a, T v, int mo) { aStore<T>(a, v, mo, PC); } \
extern "C" T __tsan_atomic##BITS##_exchange(volatile T* a, T v, int mo) { return aRmw<T>(a, mo, PC, [=](T) { return v; }); } \
extern "C" T __tsan_atomic##BITS##_fetch_add(volatile T* a, T v, int mo) { return aRmw<T>(a, mo, PC, [=](T o) { return (T)(o + v); }); } \
extern "C" T __tsan_atomic##BITS##_fetch_sub(volatile T* a, T v, int mo) { return aRmw<T>(a, mo, PC, [=](T o) { return (T)(o - v); }); } \
extern "C" T __tsan_atomic##BITS##_fetch_and(volatile T* a, T v, int mo) { return aRmw<T>(a, mo, PC, [=](T o) { return (T)(o & v); }); } \
extern "C" T __tsan_atomic##BITS##_fetch_or(volatile T* a, T v, int mo) { return aRmw<T>(a, mo, PC, [=](T o) { return (T)(o | v); }); } \
extern "C" T __tsan_atomic##BITS##_fetch_xor(volatile T* a, T v, int mo) { return aRmw<T>(a, mo, PC, [=](T o) { return (T)(o ^ v); }); } \
extern "C" T __tsan_atomic##BITS##_fetch_nand(volatile T* a, T v, int mo) { return aRmw<T>(a, mo, PC, [=](T o) { return (T)~(o & v); }); } \
extern "C" int __tsan_atomic##BITS##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) { return aCas<T>(a, c, v, mo, fmo, false, PC); } \
extern "C" int __tsan_atomic##BITS##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) { return aCas<T>(a, c, v, mo, fmo, true, PC); } \
extern "C" T __tsan_atomic##BITS##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) { aCas<T>(a, &c, v, mo, fmo, false, PC); return c; }
A(8, unsigned char) A(16, unsigned short) A(32, unsigned int) A(64, unsigned long)
extern "C" void __tsan_atomic_thread_fence(int mo) {
    if (cur < 0 || ended) return;
    pointImpl();
    Fiber& f = F[cur];
    if (isAcq(mo)) f.clk.join(f.acqPending);
    if (isRel(mo)) { f.relFence = f.clk; f.clk.c[cur]++; }
    if ((mo & 0xffff) == 5) { drain(f); if (opt.wmm) scFence(f); }
}
extern "C" void __tsan_atomic_signal_fence(int) {}

// ------------------------------------------------------------------ pthread
extern "C" {
int pthread_create(pthread_t* t, const pthread_attr_t*, void* (*fn)(void*), void* arg) noexcept {
    if (cur < 0) { fprintf(stderr, "vrt: thread outside of a run\n"); _exit(96); }
    pointImpl();
    drain(F[cur]);
    int i = newFiber(fn, arg);
    if (F[cur].spawnEv) vrt::ev("{\"e\":\"%s\",\"t\":%d,\"by\":%d}", F[cur].spawnEv, i, cur);
    F[cur].clk.c[cur]++;
    *t = (pthread_t)(i + 1);
    return 0;
}
int pthread_join(pthread_t t, void** r) {
    int i = (int)t - 1;
    if (cur < 0) return 0;
    pointImpl();
    while (F[i].st != DONE) blockOn(W_JOIN, i, -1);
    F[cur].clk.join(F[i].clk);
    if (r) *r = F[i].ret;
    return 0;
}
int pthread_detach(pthread_t t) noexcept { F[(int)t - 1].detached = true; return 0; }
pthread_t pthread_self() noexcept { return cur < 0 ? (pthread_t)9999 : (pthread_t)(cur + 1); }
int pthread_equal(pthread_t a, pthread_t b) noexcept { return a == b; }

static void chk(void* m, uintptr_t pc, const char*) { access((uintptr_t)m, 8, false, true, pc); }
int pthread_mutex_init(pthread_mutex_t*, const pthread_mutexattr_t*) noexcept { return 0; }
int pthread_mutex_destroy(pthread_mutex_t*) noexcept { return 0; }
static bool recursive(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
static void lockNoPoint(pthread_mutex_t* m) {
    for (;;) {
        Mx* x = mutexes.find((uintptr_t)m, true);
        if (x->owner == 0) { x->owner = cur + 1; x->depth = 1; F[cur].clk.join(x->clk); return; }
        if (x->owner == cur + 1 && recursive(m)) { ++x->depth; return; }
        if (x->owner == cur + 1) report("Deadlock", "mutex locked twice by one thread");
        blockOn(W_MUTEX, (uintptr_t)m, -1);
    }
}
static void unlockNoPoint(pthread_mutex_t* m) {
    Mx* x = mutexes.find((uintptr_t)m, true);
    if (x->owner != cur + 1) report("BadUnlock", "mutex unlocked by a thread that does not own it");
    if (x->depth > 1 && recursive(m)) { --x->depth; return; }
    drain(F[cur]);
    x->owner = 0; x->depth = 0; x->clk = F[cur].clk; F[cur].clk.c[cur]++;
    for (int i = 0; i < nf; ++i) if (F[i].st == BLOCKED && F[i].wait == W_MUTEX && F[i].waddr == (uintptr_t)m) wake(i);
}
int pthread_mutex_lock(pthread_mutex_t* m) noexcept {
    if (cur < 0 || ended) return 0;
    pointImpl(); chk(m, PC, "mutex");
    drain(F[cur]);
    lockNoPoint(m);
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept {
    if (cur < 0 || ended) return 0;
    pointImpl(); chk(m, PC, "mutex");
    drain(F[cur]);
    Mx* x = mutexes.find((uintptr_t)m, true);
    if (x->owner == cur + 1 && recursive(m)) { ++x->depth; return 0; }
    if (x->owner) return EBUSY;
    x->owner = cur + 1; x->depth = 1; F[cur].clk.join(x->clk);
    return 0;
}
static int lockUntil(pthread_mutex_t* m, long long dl) {
    if (cur < 0 || ended) return 0;
    pointImpl(); chk(m, PC, "mutex");
    drain(F[cur]);
    for (;;) {
        Mx* x = mutexes.find((uintptr_t)m, true);
        if (x->owner == 0 || (x->owner == cur + 1 && recursive(m))) { lockNoPoint(m); return 0; }
        if (nowNs >= dl) return ETIMEDOUT;
        blockOn(W_MUTEX, (uintptr_t)m, dl);
    }
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* ts) noexcept { return lockUntil(m, ts->tv_sec * 1000000000ll + ts->tv_nsec); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const timespec* ts) noexcept { return lockUntil(m, ts->tv_sec * 1000000000ll + ts->tv_nsec); }
// std::shared_mutex
static bool rwTry(pthread_rwlock_t* m, bool wr) {
    Rw* x = rwlocks.find((uintptr_t)m, true);
    if (x->writer || (wr && x->readers)) return false;
    F[cur].clk.join(x->wclk);
    if (wr) { F[cur].clk.join(x->rclk); x->writer = cur + 1; } else ++x->readers;
    return true;
}
static int rwLock(pthread_rwlock_t* m, bool wr, bool tr, long long dl) {
    if (cur < 0 || ended) return 0;
    pointImpl(); chk(m, PC, "mutex");
    drain(F[cur]);
    while (!rwTry(m, wr)) {
        if (tr) return EBUSY;
        if (dl >= 0 && nowNs >= dl) return ETIMEDOUT;
        blockOn(W_MUTEX, (uintptr_t)m, dl);
    }
    return 0;
}
int pthread_rwlock_init(pthread_rwlock_t*, const pthread_rwlockattr_t*) noexcept { return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t*) noexcept { return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* m) noexcept { return rwLock(m, false, false, -1); }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) noexcept { return rwLock(m, true, false, -1); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) noexcept { return rwLock(m, false, true, -1); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) noexcept { return rwLock(m, true, true, -1); }
int pthread_rwlock_clockrdlock(pthread_rwlock_t* m, clockid_t, const timespec* ts) noexcept { return rwLock(m, false, false, ts->tv_sec * 1000000000ll + ts->tv_nsec); }
int pthread_rwlock_clockwrlock(pthread_rwlock_t* m, clockid_t, const timespec* ts) noexcept { return rwLock(m, true, false, ts->tv_sec * 1000000000ll + ts->tv_nsec); }
int pthread_rwlock_unlock(pthread_rwlock_t* m) noexcept {
    if (cur < 0 || ended) return 0;
    chk(m, PC, "mutex");
    Rw* x = rwlocks.find((uintptr_t)m, true);
    drain(F[cur]);
    if (x->writer == cur + 1) { x->writer = 0; x->wclk = F[cur].clk; }
    else if (x->readers > 0) { --x->readers; x->rclk.join(F[cur].clk); }
    else report("BadUnlock", "shared mutex unlocked by a thread that does not own it");
    F[cur].clk.c[cur]++;
    for (int i = 0; i < nf; ++i) if (F[i].st == BLOCKED && F[i].wait == W_MUTEX && F[i].waddr == (uintptr_t)m) wake(i);
    pointImpl();
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept {
    if (cur < 0 || ended) return 0;
    chk(m, PC, "mutex");
    unlockNoPoint(m);
    pointImpl();
    return 0;
}
int pthread_cond_init(pthread_cond_t*, const pthread_condattr_t*) noexcept { return 0; }
int pthread_cond_destroy(pthread_cond_t*) noexcept { return 0; }
static int condWait(pthread_cond_t* c, pthread_mutex_t* m, long long dl, uintptr_t pc) {
    chk(c, pc, "cond"); chk(m, pc, "mutex");
    unlockNoPoint(m);
    if (opt.spurious && chooseFixed(2, 2, randomMode && rnd() % 24 == 0) == 1) {
        pointImpl(); // spurious wakeup
        lockNoPoint(m);
        return 0;
    }
    blockOn(W_COND, (uintptr_t)c, dl);
    bool to = F[cur].timedout;
    lockNoPoint(m);
    return to ? ETIMEDOUT : 0;
}
static long long ns(const timespec* ts) { return ts->tv_sec * 1000000000ll + ts->tv_nsec; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return condWait(c, m, -1, PC); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* ts) { return condWait(c, m, ns(ts), PC); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const timespec* ts) { return condWait(c, m, ns(ts), PC); }
int pthread_cond_signal(pthread_cond_t* c) noexcept {
    if (cur < 0 || ended) return 0;
    pointImpl(); chk(c, PC, "cond");
    int w[MAXT], n = 0;
    for (int i = 0; i < nf; ++i) if (F[i].st == BLOCKED && F[i].wait == W_COND && F[i].waddr == (uintptr_t)c) w[n++] = i;
    if (!n) return 0;
    for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) if (F[w[j]].waitSeq < F[w[i]].waitSeq) std::swap(w[i], w[j]);
    wake(w[n > 1 ? choose(n, 0) : 0]);
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) noexcept {
    if (cur < 0 || ended) return 0;
    pointImpl(); chk(c, PC, "cond");
    for (int i = 0; i < nf; ++i) if (F[i].st == BLOCKED && F[i].wait == W_COND && F[i].waddr == (uintptr_t)c) wake(i);
    return 0;
}
int pthread_once(pthread_once_t* o, void (*f)()) { if (*o == 0) { *o = 2; f(); } return 0; }
int sched_yield() noexcept {
    if (cur < 0 || ended) return 0;
    drain(F[cur]); // fairness
    for (int i = 0; i < nf; ++i) drain(F[i]);
    schedule(true, true);
    return 0;
}
int nanosleep(const timespec* ts, timespec*) {
    if (cur < 0 || ended) return 0;
    blockOn(W_SLEEP, 0, nowNs + ns(ts));
    return 0;
}
int clock_nanosleep(clockid_t, int flags, const timespec* ts, timespec*) {
    if (cur < 0 || ended) return 0;
    blockOn(W_SLEEP, 0, (flags & TIMER_ABSTIME) ? ns(ts) : nowNs + ns(ts));
    return 0;
}
int usleep(useconds_t u) { timespec ts{(time_t)(u / 1000000), (long)(u % 1000000) * 1000}; return nanosleep(&ts, nullptr); }
int clock_gettime(clockid_t, timespec* ts) noexcept {
    long long t = nowNs;
    if (cur < 0) { syscall(SYS_clock_gettime, CLOCK_MONOTONIC, ts); return 0; }
    if (++clockCalls > 50000) report("Livelock", "spinning on the clock");
    ts->tv_sec = t / 1000000000ll; ts->tv_nsec = t % 1000000000ll;
    return 0;
}
static long rawsyscall(long n, long a, long b, long c, long d, long e, long f) {
    long r;
    register long r10 asm("r10") = d; register long r8 asm("r8") = e; register long r9 asm("r9") = f;
    asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    if (r < 0 && r > -4096) { errno = -r; return -1; }
    return r;
}
long syscall(long n, ...) noexcept {
    va_list ap; va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_futex && cur >= 0 && !ended) {
        int op = (int)b & 127;
        uintptr_t ad = (uintptr_t)a;
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            pointImpl();
            drain(F[cur]);
            access(ad, 4, false, true, PC);
            if (*(volatile int*)ad != (int)c) { errno = EAGAIN; return -1; }
            long long dl = -1;
            if (d) dl = ns((timespec*)d) + (op == FUTEX_WAIT ? nowNs : 0);
            blockOn(W_FUTEX, ad, dl);
            if (F[cur].timedout) { errno = ETIMEDOUT; return -1; }
            return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
            pointImpl();
            drain(F[cur]);
            long k = 0;
            for (int i = 0; i < nf && k < c; ++i) if (F[i].st == BLOCKED && F[i].wait == W_FUTEX && F[i].waddr == ad) { wake(i); ++k; }
            return k;
        }
    }
    return rawsyscall(n, a, b, c, d, e, f);
}
void __assert_fail(const char* ex, const char* file, unsigned line, const char*) noexcept {
    if (cur >= 0 && !ended) { const char* s = strrchr(file, '/'); report("Assert", "%s:%u %s", s ? s + 1 : file, line, ex); }
    fprintf(stderr, "assert %s %s:%u\n", ex, file, line);
    _exit(95);
}
}
static void onTerminate() {
    if (cur >= 0 && !ended) report("Terminate", "std::terminate called");
    _exit(94);
}
// an exception leaving a fiber's main calls std::terminate through the unwinder

// ------------------------------------------------------------------ main
static std::vector<std::string> readLines(const char* f) {
    std::vector<std::string> v; std::ifstream i(f); std::string l;
    while (std::getline(i, l)) if (!l.empty()) v.push_back(l);
    return v;
}
int main(int argc, char** argv) {
    std::string out = "/dev/stdout", progs; int replay = -1; std::string replayCh;
    long first = 0, stride = 1;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i]; auto e = a.find('='); std::string k = a.substr(0, e), v = e == std::string::npos ? "" : a.substr(e + 1);
        if (k == "--progs") progs = v; else if (k == "--out") out = v; else if (k == "--pb") opt.pb = atoi(v.c_str());
        else if (k == "--dfs") opt.maxDfs = atol(v.c_str()); else if (k == "--rnd") opt.maxRnd = atol(v.c_str());
        else if (k == "--seed") opt.seed = strtoull(v.c_str(), 0, 10); else if (k == "--time") opt.tmax = atof(v.c_str());
        else if (k == "--tso") opt.tso = atoi(v.c_str()); else if (k == "--wmm") opt.wmm = atoi(v.c_str()); else if (k == "--timer") opt.timer = atoi(v.c_str()); else if (k == "--fence") opt.fence = atoi(v.c_str());
        else if (k == "--spurious") opt.spurious = atoi(v.c_str()); else if (k == "--races") opt.races = atoi(v.c_str());
        else if (k == "--stackraces") opt.stackraces = atoi(v.c_str());
        else if (k == "--leaks") opt.leaks = atoi(v.c_str()); else if (k == "--verbose") opt.verbose = 1;
        else if (k == "--first") first = atol(v.c_str()); else if (k == "--stride") stride = atol(v.c_str());
        else if (k == "--weakcas") opt.weakcas = atoi(v.c_str());
        else if (k == "--maxbad") opt.maxBad = atoi(v.c_str()); else if (k == "--maxsteps") opt.maxSteps = atol(v.c_str());
        else if (k == "--replay") { replay = atoi(v.c_str()); } else if (k == "--ch") replayCh = v;
        else if (k == "--maxtraces") opt.maxTraces = atol(v.c_str());
        else { fprintf(stderr, "unknown option %s\n", argv[i]); return 2; }
    }
    std::set_terminate(onTerminate);
    init();
    auto P = readLines(progs.c_str());
    outf = fopen(out.c_str(), "a");
    if (!outf) { perror(out.c_str()); return 2; }
    if (replay >= 0) {
        seen = new std::unordered_set<uint64_t>;
        const char* p = replayCh.c_str(); int n = 0;
        while (*p) { S->ch[n++].chosen = strtol(p, (char**)&p, 10); if (*p == ',') ++p; }
        S->nprefix = n;
        // choices beyond the prefix are the defaults; random-only choice kinds still are recorded in order
        randomMode = false;
        alarm(60);
        scenario_load(P.at(replay));
        oneRun();
        emit(replay, true);
        return 0;
    }
    for (size_t i = first; i < P.size(); i += stride) if (hangs >= 3) {
        // the program is not explored, the hangs are reported
        fprintf(outf, "{\"stat\":%zu,\"runs\":0,\"dfs\":0,\"rnd\":0,\"complete\":false,\"points\":0,\"t\":0}\n", i);
    } else { int r = explore((int)i, P[i]); if (r) return r; }
    return 0;
}
