// task, eager_task, make_task, make_eager.  Program: "defs|ops of main (prologue ; rest)|ops of thread 1|..."
// def (word k = task k): <L|E|M|N><v|r|n>[x]<steps>   L lazy, E eager, M make_task(child), N make_eager(child); v value, r reference, n void; x throws
// steps: gK wait for gate K, aK await task K by move, AK await it as an lvalue (twice), fK forward the outcome of K as own (last), sK start eager K (create)
// ops: cK create, aK await by move, AK await as lvalue twice, wK when_ready then await, dK drop, eK drop by assignment, mK move, qK is_ready, zK drop if ready, oK open gate, b await an empty task
#include "scen.h"
#include "macoro/task.h"
using namespace macoro; using namespace sc;

struct Def { char kind, type; bool thr; std::vector<std::string> steps; };
static std::vector<Def> D; static std::vector<std::vector<std::string>> O; static std::vector<std::string> PRO;
void scenario_load(const std::string& p) {
    auto v = split(p, '|'); D.clear(); O.clear(); PRO.clear();
    for (auto& w : words(v[0])) {
        Def d{w[0], w[1], false, {}}; size_t i = 2;
        if (i < w.size() && w[i] == 'x') d.thr = true, ++i;
        for (; i + 1 < w.size(); i += 2) d.steps.push_back(w.substr(i, 2));
        D.push_back(d);
    }
    for (size_t i = 1; i < v.size(); ++i) O.push_back(words(v[i]));
    std::vector<std::string> rest; bool semi = false;
    for (auto& w : O[0]) if (w == ";") semi = true; else (semi ? rest : PRO).push_back(w);
    if (!semi) rest.swap(PRO);
    O[0] = rest;
}
static void E(const char* e, int k) { ev("{\"e\":\"%s\",\"k\":%d}", e, k); }
static void R(const char* e, int k, int v, int d) { ev("{\"e\":\"%s\",\"k\":%d,\"v\":%d,\"d\":%d}", e, k, v, d); }
struct Handle {     // type-erased owner of a task
    virtual ~Handle() {} virtual void drop2() = 0; virtual bool ready() = 0; virtual void move() = 0;
};
template<class T, bool L> struct H : Handle {
    task<T, L> t; H(task<T, L> x) : t(std::move(x)) {}
    void drop2() override { t = task<T, L>{}; } bool ready() override { return t.is_ready(); }
    void move() override { task<T, L> x(std::move(t)); task<T, L> y; y = std::move(x); t = std::move(y); }
};
struct St { Gate g[6]; int data[6] = {}; int slot[6]; std::unique_ptr<Handle> h[6]; };
static void create(St& s, int k);
static int src(int k) { for (auto& st : D[k].steps) if (st[0] == 'f') return src(st[1] - '0'); return k; }
// what an await of task k looks like, for any kind
template<class T, bool L, class F> static task<void> awaitT(St& s, int k, task<T, L>& t, char mode, int* own, F out) {
    for (int rep = 0; rep < (mode == 'A' ? 2 : 1); ++rep) {
        E("AwaitInv", *own);
        try {
            if (mode == 'w') { co_await t.when_ready(); E("WhenReady", *own); ev("{\"e\":\"Ready\",\"k\":%d,\"v\":%s}", *own, t.is_ready() ? "true" : "false"); }
            if constexpr (std::is_void_v<T>) { if (mode == 'A') co_await t; else co_await std::move(t); out("AwaitRet", src(k)); }
            else if constexpr (std::is_reference_v<T>) { T r = mode == 'A' ? co_await t : co_await std::move(t); out("AwaitRet", r); }
            else if (mode == 'A') { Obj& o = co_await t; out("AwaitRet", o.get()); }
            else { Obj o = co_await std::move(t); out("AwaitRet", o.get()); }
        } catch (Err& e) { out("AwaitExc", e.v); }
    }
}
static bool lazyK(int k) { return D[k].kind == 'L' || D[k].kind == 'M'; }
static int dataOf(St& s, int k) { return s.data[src(k)]; }
// drop as part of the owner's program
static void dropH(St& s, int k, std::unique_ptr<Handle> h, bool assign) { E("DropInv", k); if (assign) h->drop2(); else h.reset(); E("DropRet", k); if (assign) h.reset(); }
template<class F> static void visit(Handle* h, int k, F f) {
    bool lazy = lazyK(k);
    auto go = [&](auto tag) { using T = typename decltype(tag)::type; if (lazy) f(static_cast<H<T, true>*>(h)->t); else f(static_cast<H<T, false>*>(h)->t); };
    if (D[k].type == 'v') go(std::type_identity<Obj>{}); else if (D[k].type == 'r') go(std::type_identity<int&>{}); else go(std::type_identity<void>{});
}
static task<void> awaitOwned(St& s, int k, char mode) {
    std::unique_ptr<Handle> h = std::move(s.h[k]);
    std::unique_ptr<int> own(new int(k));
    task<void> inner;
    visit(h.get(), k, [&](auto& t) { inner = awaitT(s, k, t, mode, own.get(), [&s, k](const char* e, int v) { R(e, k, v, dataOf(s, k)); }); });
    co_await inner;
    dropH(s, k, std::move(h), mode == 'A');
}
static task<void> step(St& s, std::string st) {
    int j = st[1] - '0';
    if (st[0] == 'g') co_await s.g[j];
    else if (st[0] == 's') create(s, j);
    else co_await awaitOwned(s, j, st[0]);
}
struct Param { int k; int* p; Param(int x) : k(x), p(new int(x)) {} Param(Param&& o) noexcept : k(o.k), p(std::exchange(o.p, nullptr)) {} ~Param() { if (p) { delete p; E("ParamOut", k); } } };
template<class T, bool L> static task<T, L> body(St& s, int k, Param p) {
    Local l("BodyOut", k);
    E("BodyIn", k);
    for (auto& st : D[k].steps) {
        if (st[0] == 'f') {
            int j = st[1] - '0';
            if (lazyK(j)) { auto& c = static_cast<H<T, true>*>(s.h[j].get())->t; E("AwaitInv", j); if constexpr (std::is_void_v<T>) { co_await std::move(c); co_return; } else co_return co_await std::move(c); }
            else { auto& c = static_cast<H<T, false>*>(s.h[j].get())->t; E("AwaitInv", j); if constexpr (std::is_void_v<T>) { co_await std::move(c); co_return; } else co_return co_await std::move(c); }
        }
        if (st[0] == 'g') co_await s.g[st[1] - '0'];     // inline, without another coroutine in between
        else co_await step(s, st);
    }
    s.data[k] = k + 1;
    if constexpr (std::is_same_v<T, Obj>) if (D[k].thr && k % 2) co_return Bomb{k};
    if (D[k].thr) throw Err(k);
    if constexpr (std::is_void_v<T>) co_return; else if constexpr (std::is_reference_v<T>) co_return s.slot[k]; else co_return Obj(k);
}
static void create(St& s, int k) {
    E("CreateInv", k);
    auto go = [&](auto tag) {
        using T = typename decltype(tag)::type;
        char kd = D[k].kind;
        if (kd == 'L') s.h[k] = std::make_unique<H<T, true>>(body<T, true>(s, k, Param(k)));
        else if (kd == 'E') s.h[k] = std::make_unique<H<T, false>>(body<T, false>(s, k, Param(k)));
        else {
            int j = D[k].steps[0][1] - '0'; std::unique_ptr<Handle> c = std::move(s.h[j]);
            auto mk = [&](auto& t) { if (kd == 'M') s.h[k] = std::make_unique<H<T, true>>(make_task(std::move(t))); else s.h[k] = std::make_unique<H<T, false>>(std::move(t) | make_eager()); };
            if (lazyK(j)) mk(static_cast<H<T, true>*>(c.get())->t); else mk(static_cast<H<T, false>*>(c.get())->t);
        }
    };
    if (D[k].type == 'v') go(std::type_identity<Obj>{}); else if (D[k].type == 'r') go(std::type_identity<int&>{}); else go(std::type_identity<void>{});
    E("CreateRet", k);
}
static fire run(task<void> t) { co_await t; }
static fire empty() { try { co_await task<Obj>{}; E("NotBroken", 0); } catch (broken_promise&) { E("Broken", 0); } try { eager_task<void> e; co_await e; E("NotBroken", 0); } catch (broken_promise&) { E("Broken", 0); } }
void scenario_main() {
    auto sp = std::make_unique<St>(); St& s = *sp;
    for (int i = 0; i < 6; ++i) s.slot[i] = i;
    std::string c; 
    for (size_t k = 0; k < D.size(); ++k) { char b[120]; int f = -1; for (auto& st : D[k].steps) if (st[0] == 'f') f = st[1] - '0';
        snprintf(b, sizeof b, "%s{\"lazy\":%s,\"body\":%s,\"thr\":%s,\"fwd\":%d}", k ? "," : "", D[k].kind == 'L' || D[k].kind == 'M' ? "true" : "false", D[k].kind == 'L' || D[k].kind == 'E' ? "true" : "false", D[k].thr ? "true" : "false", f); c += b; }
    ev("{\"e\":\"Cfg\",\"defs\":[%s]}", c.c_str());
    auto runops = [&](const std::vector<std::string>& ops) {
        for (auto& w : ops) {
            int k = w.size() > 1 ? w[1] - '0' : -1;
            switch (w[0]) {
            case 'c': create(s, k); break;
            case 'a': case 'A': case 'w': if (s.h[k]) run(awaitOwned(s, k, w[0])); break;
            case 'd': dropH(s, k, std::move(s.h[k]), false); break;
            case 'e': dropH(s, k, std::move(s.h[k]), true); break;
            case 'm': s.h[k]->move(); break;
            case 'q': { vrt::fence(); bool b = s.h[k]->ready(); ev("{\"e\":\"Ready\",\"k\":%d,\"v\":%s}", k, b ? "true" : "false"); break; }
            case 'z': { vrt::fence(); bool b = s.h[k]->ready(); ev("{\"e\":\"Ready\",\"k\":%d,\"v\":%s}", k, b ? "true" : "false"); if (b) dropH(s, k, std::move(s.h[k]), false); break; }
            case 'o': s.g[k].open(); break;
            case 'b': empty(); break;
            }
        }
    };
    runops(PRO);
    threads((int)O.size(), [&](int t) { runops(O[t]); });
    ev("{\"e\":\"Quiesce\"}");
    for (auto& g : s.g) g.open();
    ev("{\"e\":\"Quiesce\"}");
    for (int k = 5; k >= 0; --k) if (s.h[k]) dropH(s, k, std::move(s.h[k]), k & 1);
    sp.reset();
    ev("{\"e\":\"End\"}");
}
