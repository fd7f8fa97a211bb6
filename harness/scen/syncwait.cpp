// sync_wait, make_blocking.  Program: "defs|ops of main (prologue ; rest)|ops of thread 1|..."
// def (word k = operation k): L|E (task, eager_task) + type (v value, r reference, n void) + [x] throws + gJ.. gates it waits for
//   or A|C|F (awaiter, member / free operator co_await) + type + mode (r ready, q ready if the gate is open, v void suspend, b bool suspend, h handle suspend) + [gJ] + [X][r|s|e] throws in ready/suspend/resume
//   or W (when_all_ready of two void tasks) n gI gJ
// ops: sK sync_wait(rvalue), lK sync_wait(lvalue) twice, pK rvalue | sync_wait(), MK make_blocking, PK rvalue | make_blocking(), GK get, mK move the blocking task about, DK drop it without get, TKJ assign the one of J to the finished one of K, oJ open gate
#include "scen.h"
#include "macoro/task.h"
#include "macoro/sync_wait.h"
#include "macoro/when_all.h"
using namespace sc; namespace mc = macoro;

struct Def { char kind = 'L', type = 'v', mode = 0, thr = 0; std::vector<int> g; };
static std::vector<Def> D; static std::vector<std::vector<std::string>> O; static std::vector<std::string> PRO;
void scenario_load(const std::string& p) {
    auto v = split(p, '|'); D.clear(); O.clear(); PRO.clear();
    for (auto& w : words(v[0])) {
        Def d; d.kind = w[0]; d.type = w[1]; size_t i = 2;
        if (strchr("ACF", d.kind)) d.mode = w[i++];
        for (; i < w.size(); ++i) if (w[i] == 'x') d.thr = 'e'; else if (w[i] == 'X') d.thr = w[++i]; else if (w[i] == 'g') d.g.push_back(w[++i] - '0');
        D.push_back(d);
    }
    for (size_t i = 1; i < v.size(); ++i) O.push_back(words(v[i]));
    std::vector<std::string> rest; bool semi = false;
    for (auto& w : O[0]) if (w == ";") semi = true; else (semi ? rest : PRO).push_back(w);
    if (!semi) rest.swap(PRO);
    O[0] = rest;
}
static void E(const char* e, int k) { ev("{\"e\":\"%s\",\"k\":%d}", e, k); }
static void R(bool x, int k, int v, int d) { ev("{\"e\":\"Ret\",\"k\":%d,\"x\":%s,\"v\":%d,\"d\":%d}", k, x ? "true" : "false", v, d); }
struct St { Gate g[6]; int gd[6] = {}; int data[6] = {}; int slot[6]; };
static St* S;
// ---- operations
template<class T> struct Body {
    static mc::task<T> lazy(int k) { Local l("Out", k); E("In", k); for (int j : D[k].g) co_await S->g[j]; S->data[k] = k + 1; if (D[k].thr) throw Err(k); if constexpr (std::is_void_v<T>) co_return; else if constexpr (std::is_reference_v<T>) co_return S->slot[k]; else co_return Obj(k); }
    static mc::eager_task<T> eager(int k) { Local l("Out", k); E("In", k); for (int j : D[k].g) co_await S->g[j]; S->data[k] = k + 1; if (D[k].thr) throw Err(k); if constexpr (std::is_void_v<T>) co_return; else if constexpr (std::is_reference_v<T>) co_return S->slot[k]; else co_return Obj(k); }
};
template<class T, char Mode> struct Aw {
    int k; int* own;
    Aw(int x) : k(x), own(new int(x)) {}
    Aw(Aw&& o) noexcept : k(o.k), own(std::exchange(o.own, nullptr)) {}
    ~Aw() { delete own; }
    void thr(char c) { if (*own != k) E("BadPayload", k); if (D[k].thr == c) { S->data[k] = k + 1; throw Err(k); } }
    bool await_ready() { E("In", k); thr('r'); return Mode == 'r' || (Mode == 'q' && S->g[D[k].g[0]].await_ready()); }
    bool reg(std::coroutine_handle<> h) { thr('s'); return Mode == 'r' ? false : S->g[D[k].g[0]].await_suspend(h); }
    template<class P> auto await_suspend(std::coroutine_handle<P> h) {
        if constexpr (Mode == 'v') { if (!reg(h)) h.resume(); }
        else if constexpr (Mode == 'h') return reg(h) ? std::coroutine_handle<>(std::noop_coroutine()) : std::coroutine_handle<>(h);
        else return reg(h);
    }
    T await_resume() {
        thr('e');
        S->data[k] = k + 1;
        if (!D[k].g.empty() && S->gd[D[k].g[0]] != D[k].g[0] + 1) E("BadPayload", k);
        if constexpr (std::is_void_v<T>) return; else if constexpr (std::is_reference_v<T>) return S->slot[k]; else return Obj(k);
    }
};
template<class T, char M> struct Mem { int k; int* own; Mem(int x) : k(x), own(new int(x)) {} Mem(Mem&& o) noexcept : k(o.k), own(std::exchange(o.own, nullptr)) {} ~Mem() { delete own; }
    Aw<T, M> operator co_await() { return Aw<T, M>(*own); } };
namespace other { template<class T, char M> struct Fre { int k; int* own; Fre(int x) : k(x), own(new int(x)) {} Fre(Fre&& o) noexcept : k(o.k), own(std::exchange(o.own, nullptr)) {} ~Fre() { delete own; } };
template<class T, char M> Aw<T, M> operator co_await(Fre<T, M>&& f) { return Aw<T, M>(*f.own); }
template<class T, char M> Aw<T, M> operator co_await(Fre<T, M>& f) { return Aw<T, M>(*f.own); } }
static mc::task<void> half(int k, int j) { co_await S->g[j]; }
// ---- results
template<class F> static void take(int k, F f) {
    try {
        using T = decltype(f());
        if constexpr (std::is_void_v<T>) { f(); R(false, k, k, S->data[k]); }
        else if constexpr (std::is_same_v<std::remove_cvref_t<T>, int>) { T r = f(); R(false, k, &r == &S->slot[k] ? r : -9, S->data[k]); }
        else if constexpr (std::is_same_v<T, Obj>) { Obj o = f(); R(false, k, o.get(), S->data[k]); }
        else if constexpr (std::is_same_v<T, Obj&>) { Obj& o = f(); R(false, k, o.get(), S->data[k]); }
        else if constexpr (std::is_same_v<T, Obj&&>) { Obj o = f(); R(false, k, o.get(), S->data[k]); }
        else { auto&& t = f(); (void)t; S->data[k] = k + 1; R(false, k, k, S->data[k]); }
    } catch (Err& e) { R(true, k, e.v, S->data[k]); }
}
struct Hold { virtual ~Hold() {} virtual void get(int k) = 0; virtual void move() = 0; virtual void over(Hold& o) = 0; };
template<class A> struct HoldT : Hold {
    mc::blocking_task<A> b; HoldT(mc::blocking_task<A> x) : b(std::move(x)) {}
    void get(int k) override { take(k, [&]() -> decltype(auto) { return b.get(); }); }
    void over(Hold& o) override { b = std::move(dynamic_cast<HoldT&>(o).b); }
    void move() override { mc::blocking_task<A> x(std::move(b)); mc::blocking_task<A> y; y = std::move(x); b = std::move(y); }
};
static std::unique_ptr<Hold> H[6];
template<class Mk> static void op(int k, char c, Mk mk) {
    using A = decltype(mk());
    switch (c) {
    case 's': E("Inv", k); take(k, [&]() -> decltype(auto) { return mc::sync_wait(mk()); }); break;
    case 'p': E("Inv", k); take(k, [&]() -> decltype(auto) { return mk() | mc::sync_wait(); }); break;
    case 'l': { A a = mk(); for (int i = 0; i < 2; ++i) { E("Inv", k); take(k, [&]() -> decltype(auto) { if (i) return a | mc::sync_wait(); else return mc::sync_wait(a); }); } break; }
    case 'M': E("Inv", k); H[k].reset(new HoldT<A>(mc::make_blocking(mk()))); E("Made", k); break;
    case 'P': E("Inv", k); H[k].reset(new HoldT<A>(mk() | mc::make_blocking())); E("Made", k); break;
    }
}
template<class T> static void op2(int k, char c) {
    auto m = [&](auto mode) {
        constexpr char M = decltype(mode)::value;
        if (D[k].kind == 'A') op(k, c, [k] { return Aw<T, M>(k); });
        else if (D[k].kind == 'C') op(k, c, [k] { return Mem<T, M>(k); });
        else op(k, c, [k] { return other::Fre<T, M>(k); });
    };
    switch (D[k].kind) {
    case 'L': op(k, c, [k] { return Body<T>::lazy(k); }); break;
    case 'E': op(k, c, [k] { return Body<T>::eager(k); }); break;
    case 'W': if constexpr (std::is_void_v<T>) op(k, c, [k] { E("In", k); return mc::when_all_ready(half(k, D[k].g[0]), half(k, D[k].g[1])); }); break;
    default: switch (D[k].mode) {
        case 'r': m(std::integral_constant<char, 'r'>{}); break; case 'q': m(std::integral_constant<char, 'q'>{}); break;
        case 'v': m(std::integral_constant<char, 'v'>{}); break; case 'b': m(std::integral_constant<char, 'b'>{}); break;
        case 'h': m(std::integral_constant<char, 'h'>{}); break;
        }
    }
}
void scenario_main() {
    auto sp = std::make_unique<St>(); S = sp.get(); St& s = *S;
    for (int i = 0; i < 6; ++i) s.slot[i] = i;
    std::string c;
    for (size_t k = 0; k < D.size(); ++k) {
        std::string g; if (!(D[k].mode == 'r' || D[k].thr == 'r' || D[k].thr == 's')) for (int j : D[k].g) g += (g.empty() ? "" : ",") + std::to_string(j);
        char b[160]; snprintf(b, sizeof b, "%s{\"eager\":%s,\"body\":%s,\"thr\":%s,\"g\":[%s]}", k ? "," : "", D[k].kind == 'E' || D[k].kind == 'W' ? "true" : "false", D[k].kind == 'L' || D[k].kind == 'E' ? "true" : "false", D[k].thr ? "true" : "false", g.c_str()); c += b; }
    ev("{\"e\":\"Cfg\",\"defs\":[%s]}", c.c_str());
    auto runops = [&](const std::vector<std::string>& ops) {
        for (auto& w : ops) {
            int k = w[1] - '0';
            switch (w[0]) {
            case 'G': E("GetInv", k); H[k]->get(k); H[k].reset(); E("Drop", k); break;
            case 'm': H[k]->move(); break;
            case 'T': { int j = w[2] - '0'; H[k]->over(*H[j]); E("Drop", k); H[j] = std::move(H[k]); break; }
            case 'D': H[k].reset(); E("Drop", k); break;
            case 'o': s.gd[k] = k + 1; E("Open", k); s.g[k].open(); break;
            default: if (D[k].type == 'v') op2<Obj>(k, w[0]); else if (D[k].type == 'r') op2<int&>(k, w[0]); else op2<void>(k, w[0]);
            }
        }
    };
    runops(PRO);
    threads((int)O.size(), [&](int t) { runops(O[t]); });
    ev("{\"e\":\"End\"}");
    for (auto& h : H) h.reset();
    sp.reset();
}
