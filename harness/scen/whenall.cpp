// when_all_ready.  Program: "children/groups|ops of main|ops of thread 1|..."
// child k: <L|E><v|r|n>[x]<steps>  L lazy, E eager task; x throws; steps gK wait for gate, wJ await group J
// group j: <t|V|l|q><child digits>  t pack of temporaries, V vector, l pack of lvalues (En Ln), q pack, awaited as an lvalue (twice)
// ops: WJ start a coroutine awaiting group J, oK open gate K
#include "scen.h"
#include "macoro/task.h"
#include "macoro/when_all.h"
using namespace macoro; using namespace sc;

struct Def { char kind, type; bool thr; std::vector<std::string> steps; };
static std::vector<Def> D; static std::vector<std::string> G; static std::vector<std::vector<std::string>> O;
void scenario_load(const std::string& p) {
    auto v = split(p, '|'); auto h = split(v[0], '/'); D.clear(); O.clear(); G = words(h[1]);
    for (auto& w : words(h[0])) {
        Def d{w[0], w[1], false, {}}; size_t i = 2;
        if (i < w.size() && w[i] == 'x') d.thr = true, ++i;
        for (; i + 1 < w.size(); i += 2) d.steps.push_back(w.substr(i, 2));
        D.push_back(d);
    }
    for (size_t i = 1; i < v.size(); ++i) O.push_back(words(v[i]));
}
static void E(const char* e, int k) { ev("{\"e\":\"%s\",\"k\":%d}", e, k); }
struct St { Gate g[6]; int data[8] = {}; int slot[8]; };
struct Param { int k; int* p; Param(int x) : k(x), p(new int(x)) {} Param(Param&& o) noexcept : k(o.k), p(std::exchange(o.p, nullptr)) {} ~Param() { if (p) { delete p; E("ParamOut", k); } } };
static task<void> group(St& s, int j);
template<class T, bool L> static task<T, L> body(St& s, int k, Param p) {
    Local l("ChildOut", k);
    E("ChildIn", k);
    for (auto& st : D[k].steps) { if (st[0] == 'g') co_await s.g[st[1] - '0']; else co_await group(s, st[1] - '0'); }
    s.data[k] = k + 1;
    if constexpr (std::is_same_v<T, Obj>) if (D[k].thr && k % 2) co_return Bomb{k};
    if (D[k].thr) throw Err(k);
    if constexpr (std::is_void_v<T>) co_return; else if constexpr (std::is_reference_v<T>) co_return s.slot[k]; else co_return Obj(k);
}
template<class W> static void res1(St& s, int a, int k, W&& w) {
    // reading it twice gives the same (value results are moved out last)
    for (int rep = 0; rep < 2; ++rep) {
        bool exc = false; int v = -1;
        try {
            using R = decltype(w.result());
            if constexpr (std::is_void_v<R>) { w.result(); v = k; }
            else if constexpr (std::is_same_v<std::remove_cvref_t<R>, int>) v = w.result();
            else if (rep == 0) v = w.result().get();
            else { Obj o = std::move(w).result(); v = o.get(); }
        } catch (Err& e) { exc = true; v = e.v; }
        ev("{\"e\":\"Res\",\"k\":%d,\"exc\":%s,\"v\":%d,\"d\":%d}", k, exc ? "true" : "false", v, s.data[k]);
    }
}
template<class C> static void results(St& s, int a, C&& c) {
    const std::string& g = G[a];
    if constexpr (requires { c.size(); }) { for (size_t i = 0; i < c.size(); ++i) res1(s, a, g[i + 1] - '0', c[i]); if (c.size() + 1 != g.size()) E("WrongSize", a); }
    else std::apply([&](auto&... x) { size_t i = 0; (res1(s, a, g[++i] - '0', x), ...); }, c);
}
template<bool Tw, class MK> static task<void> awaitAll(St& s, int a, MK mk) {
    {
        auto w0 = mk();
        auto w = std::move(w0);   // it may be moved until it is awaited
        E("AllInv", a);
        if constexpr (Tw) {
            auto& c = co_await w;
            E("AllRet", a);
            { auto& c2 = co_await w; if (&c != &c2) E("Moved", a); E("AllAgain", a); }
            results(s, a, c);
        } else {
            auto c = co_await std::move(w);
            E("AllRet", a);
            results(s, a, c);
            E("DropInv", a);
        }
        if (Tw) E("DropInv", a);
    }
}
// call f with the i-th child as a task of its static type
template<class F> static void mkChild(St& s, int k, F f) {
    auto go = [&](auto tag) { using T = typename decltype(tag)::type; if (D[k].kind == 'E') f(body<T, false>(s, k, Param(k))); else f(body<T, true>(s, k, Param(k))); };
    if (D[k].type == 'v') go(std::type_identity<Obj>{}); else if (D[k].type == 'r') go(std::type_identity<int&>{}); else go(std::type_identity<void>{});
}
template<class F> static void mkLazy(St& s, int k, F f) {
    if (D[k].type == 'v') f(body<Obj, true>(s, k, Param(k))); else if (D[k].type == 'r') f(body<int&, true>(s, k, Param(k))); else f(body<void, true>(s, k, Param(k)));
}
static task<void> group(St& s, int a) {
    const std::string g = G[a]; int n = (int)g.size() - 1; auto id = [&](int i) { return g[i + 1] - '0'; };
    task<void> t;
    std::vector<std::shared_ptr<void>> keep;
    if (g[0] == 'V') {
        auto go = [&](auto tag) {
            using T = typename decltype(tag)::type;
            std::vector<T> v;
            auto add = [&](auto x) { if constexpr (std::is_same_v<decltype(x), T>) v.push_back(std::move(x)); };
            for (int i = 0; i < n; ++i) mkChild(s, id(i), add);
            t = awaitAll<false>(s, a, [v = std::make_shared<std::vector<T>>(std::move(v))] { return when_all_ready(std::move(*v)); });
        };
        bool e = n && D[id(0)].kind == 'E'; char ty = n ? D[id(0)].type : 'v';
        if (e) { if (ty == 'v') go(std::type_identity<eager_task<Obj>>{}); else if (ty == 'r') go(std::type_identity<eager_task<int&>>{}); else go(std::type_identity<eager_task<void>>{}); }
        else { if (ty == 'v') go(std::type_identity<task<Obj>>{}); else if (ty == 'r') go(std::type_identity<task<int&>>{}); else go(std::type_identity<task<void>>{}); }
    } else if (g[0] == 'l') {
        auto go = [&](auto... x) {
            auto p = std::make_shared<std::tuple<decltype(x)...>>(std::move(x)...); keep.push_back(p);
            t = awaitAll<false>(s, a, [p] { return std::apply([](auto&... y) { return when_all_ready(y...); }, *p); });
        };
        // (lvalue tasks of other result types are not supported by when_all_ready)
        if (n == 1) go(body<void, true>(s, id(0), Param(id(0))));
        else go(body<void, false>(s, id(0), Param(id(0))), body<void, true>(s, id(1), Param(id(1))));
    } else if (g[0] == 'q') {
        auto go = [&](auto... x) {
            auto p = std::make_shared<std::tuple<decltype(x)...>>(std::move(x)...);
            t = awaitAll<true>(s, a, [p] { return std::apply([](auto&... y) { return when_all_ready(std::move(y)...); }, *p); });
        };
        if (n == 1) mkLazy(s, id(0), [&](auto x) { go(std::move(x)); });
        else mkLazy(s, id(0), [&](auto x) { mkLazy(s, id(1), [&](auto y) { go(std::move(x), std::move(y)); }); });
    } else {
        auto go = [&](auto... x) {
            auto p = std::make_shared<std::tuple<decltype(x)...>>(std::move(x)...);
            t = awaitAll<false>(s, a, [p] { return std::apply([](auto&... y) { return when_all_ready(std::move(y)...); }, *p); });
        };
        if (n == 0) t = awaitAll<false>(s, a, [] { return when_all_ready(); });
        else if (n == 1) mkChild(s, id(0), [&](auto x) { go(std::move(x)); });
        else if (n == 2) mkChild(s, id(0), [&](auto x) { mkChild(s, id(1), [&](auto y) { go(std::move(x), std::move(y)); }); });
        else mkChild(s, id(0), [&](auto x) { mkLazy(s, id(1), [&](auto y) { go(std::move(x), std::move(y), body<Obj, true>(s, id(2), Param(id(2)))); }); });
    }
    co_await std::move(t);
    t = {}; keep.clear();
    E("DropRet", a);
}
static fire run(task<void> t) { co_await std::move(t); }
void scenario_main() {
    auto sp = std::make_unique<St>(); St& s = *sp;
    for (int i = 0; i < 8; ++i) s.slot[i] = i;
    std::string c, g; char b[120];
    for (size_t k = 0; k < D.size(); ++k) { snprintf(b, sizeof b, "%s{\"lazy\":%s,\"thr\":%s}", k ? "," : "", D[k].kind != 'E' ? "true" : "false", D[k].thr ? "true" : "false"); c += b; }
    for (size_t j = 0; j < G.size(); ++j) { g += j ? ",[" : "["; for (size_t i = 1; i < G[j].size(); ++i) { if (i > 1) g += ","; g += G[j][i]; } g += "]"; }
    ev("{\"e\":\"Cfg\",\"defs\":[%s],\"groups\":[%s]}", c.c_str(), g.c_str());
    threads((int)O.size(), [&](int t) { for (auto& w : O[t]) { int k = w[1] - '0'; if (w[0] == 'W') run(group(s, k)); else s.g[k].open(); } });
    ev("{\"e\":\"Quiesce\"}");
    for (auto& x : s.g) x.open();
    ev("{\"e\":\"Quiesce\"}");
    sp.reset();
    ev("{\"e\":\"End\"}");
}
