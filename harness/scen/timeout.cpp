// timeout and take_until.  Program: "ops of operations|prologue ; ops of main|ops of thread 1|..."
// operations: words k:kind[steps]   operation k of take_until; kind v value, e throws, n void; x void and throws
//             steps: w wait for the stop token of trigger k, gJ wait for gate J, sD sleep D ms on the pool, q ask the token
// trigger k is timeout k if there is one, else a hand made one that ends when asked to (u) or when gate 9 opens (U); E: it throws
// ops: Tk@d make timeout k of d ms, Yk@d with an outer token, Rk@d default construct, then reset, ck request_stop, sk through a copy of the source,
//      xk request stop of the outer token, ak await timeout k, mk move it away and back, qk ask its token,
//      Ak@d await timeout k, then use the object again as timeout k + 1 (following its outer token) and await that
//      kK take_until(operation K, trigger K), oJ open gate J
#include "scen.h"
#include "macoro/thread_pool.h"
#include "macoro/task.h"
#include "macoro/timeout.h"
#include "macoro/take_until.h"
using namespace macoro; using namespace sc;

struct Op { char c; int k; int d; };
constexpr int NT = 4;
static std::string D[NT]; static int P; static std::vector<Op> PRO; static std::vector<std::vector<Op>> O;
static Op parse(const std::string& w) {
    Op o{w[0], 0, 0}; auto at = w.find('@');
    if (w.size() > 1) o.k = w[1] - '0';
    if (at != std::string::npos) o.d = atoi(w.c_str() + at + 1);
    return o;
}
void scenario_load(const std::string& p) {
    auto v = split(p, '|'); for (auto& d : D) d.clear(); PRO.clear(); O.clear();
    P = 1;
    for (auto& w : words(v[0])) if (w == "P2") P = 2; else D[w[0] - '0'] = w.substr(2);
    for (size_t i = 1; i < v.size(); ++i) {
        std::vector<Op> ops; bool semi = false;
        for (auto& w : words(v[i])) if (w == ";") { semi = true; PRO = ops; ops.clear(); } else ops.push_back(parse(w));
        if (i == 1 && !semi) { PRO = ops; ops.clear(); }
        O.push_back(ops);
    }
}
static void E(const char* e, int k) { ev("{\"e\":\"%s\",\"k\":%d}", e, k); }
struct Cb { int k; void operator()() { E("Stopped", k); } };
struct St {
    std::unique_ptr<thread_pool> pool; thread_pool::work w;
    std::optional<timeout> t[NT]; stop_source outer[NT]; std::optional<stop_source> src[NT]; std::optional<stop_callback> cb[NT];
    Gate g[10]; int data[NT] = {}; stop_source usrc[NT]; stop_token tok[NT];
};
static void query(St& s, int k) { vrt::fence(); bool b = s.tok[k].stop_requested(); ev("{\"e\":\"Ask\",\"k\":%d,\"v\":%s}", k, b ? "true" : "false"); }
// hand made trigger: lazily waits for gate 9 or the request
struct Trig {
    St* s; int k; bool own, thr;
    std::unique_ptr<int> live{new int(0)};
    void request_stop() { E("TrigStop", k); s->usrc[k].request_stop(); if (own) s->g[9].open(); }
    task<void> run() && { E("TrigIn", k); co_await s->g[9]; E("TrigOut", k); if (thr) throw sc::Err(77); }
    auto operator co_await() && { return TrigAwaiter{std::move(*this).run(), {}}; }
    struct TrigAwaiter {
        task<void> t; std::optional<decltype(std::declval<task<void>&&>().operator co_await())> a;
        bool await_ready() { a.emplace(std::move(t).operator co_await()); return a->await_ready(); }
        template<class H> auto await_suspend(H h) { return a->await_suspend(h); }
        void await_resume() { a->await_resume(); }
    };
};
static void make(St& s, const Op& o) {
    int k = o.k;
    ev("{\"e\":\"MakeInv\",\"k\":%d,\"d\":%d,\"outer\":%s}", k, o.d, o.c == 'Y' ? "true" : "false");
    auto d = std::chrono::nanoseconds(o.d);
    if (o.c == 'T') s.t[k].emplace(*s.pool, d);
    else if (o.c == 'Y') s.t[k].emplace(*s.pool, d, s.outer[k].get_token());
    else { s.t[k].emplace(); s.t[k]->reset(*s.pool, d); }
    s.src[k] = s.t[k]->get_source(); s.tok[k] = s.t[k]->get_token();
    E("MakeRet", k);
    s.cb[k].emplace(s.tok[k], Cb{k});
}
static fire awaiter(St& s, int k) {
    std::unique_ptr<int> own(new int(k));
    co_await *s.t[k];
    E("AwaitRet", *own); query(s, k);
}
// the object is used again for timeout k + 1 as soon as it fired
static fire again(St& s, int k, int d) {
    std::unique_ptr<int> own(new int(k));
    co_await *s.t[k];
    E("AwaitRet", *own); query(s, k);
    ++k;
    ev("{\"e\":\"MakeInv\",\"k\":%d,\"d\":%d,\"outer\":true}", k, d);
    timeout& t = *s.t[k - 1];
    if (d & 1) t.reset(*s.pool, std::chrono::nanoseconds(d), s.outer[k].get_token());
    else { timeout u(*s.pool, std::chrono::nanoseconds(d), s.outer[k].get_token()); t = std::move(u); }
    s.tok[k] = t.get_token();
    E("MakeRet", k);
    s.cb[k].emplace(s.tok[k], Cb{k});
    E("AwaitInv", k);
    co_await t;
    E("AwaitRet", k); query(s, k); query(s, k - 1);
}
template<class T> static task<T> oper(St& s, int k) {
    std::unique_ptr<int> own(new int(k));
    E("OpIn", k);
    char kind = D[k][0];
    for (size_t i = 1; i < D[k].size(); ++i) switch (D[k][i]) {
        case 'w': E("OpWait", k); co_await s.tok[k]; E("OpTok", k); break;
        case 'g': co_await s.g[D[k][++i] - '0']; break;
        case 's': co_await s.pool->schedule_after(std::chrono::nanoseconds(D[k][++i] - '0')); break;
        case 'q': query(s, k); break;
    }
    s.data[k] = k + 1;
    E("OpOut", *own);
    if (kind == 'e' || kind == 'x') throw sc::Err(k);
    if constexpr (!std::is_void_v<T>) co_return T(k);
}
template<class U> static fire taker(St& s, int k, U u) {
    std::unique_ptr<int> own(new int(k));
    char kind = D[k][0];
    try {
        if (kind == 'n' || kind == 'x') { co_await take_until(oper<void>(s, k), std::move(u)); ev("{\"e\":\"TakeRet\",\"k\":%d,\"x\":false,\"v\":%d,\"d\":%d}", *own, k, s.data[k]); }
        else { Obj o = co_await take_until(oper<Obj>(s, k), std::move(u)); ev("{\"e\":\"TakeRet\",\"k\":%d,\"x\":false,\"v\":%d,\"d\":%d}", *own, o.get(), s.data[k]); }
    } catch (sc::Err& e) { ev("{\"e\":\"TakeRet\",\"k\":%d,\"x\":true,\"v\":%d,\"d\":%d}", *own, e.v, s.data[k]); }
    query(s, k);
}
static void take(St& s, int k) {
    const std::string& d = D[k];
    ev("{\"e\":\"TakeInv\",\"k\":%d,\"exc\":%s,\"hand\":%s}", k, d[0] == 'e' || d[0] == 'x' ? "true" : "false", s.t[k] ? "false" : "true");
    if (s.t[k]) { timeout t(std::move(*s.t[k])); taker(s, k, std::move(t)); }
    else {
        s.tok[k] = s.usrc[k].get_token(); s.cb[k].emplace(s.tok[k], Cb{k});
        taker(s, k, Trig{&s, k, d.find('u') != std::string::npos, d.find('E') != std::string::npos});
    }
    E("TakeStarted", k);
}
static void op(St& s, const Op& o) {
    int k = o.k;
    switch (o.c) {
    case 'T': case 'Y': case 'R': make(s, o); break;
    case 'c': E("ReqInv", k); s.t[k]->request_stop(); E("ReqRet", k); break;
    case 's': E("ReqInv", k); s.src[k]->request_stop(); E("ReqRet", k); break;
    case 'x': E("OuterInv", k); s.outer[k].request_stop(); E("OuterRet", k); break;
    case 'a': E("AwaitInv", k); awaiter(s, k); break;
    case 'm': { timeout t(std::move(*s.t[k])); s.t[k].emplace(); *s.t[k] = std::move(t); break; }
    case 'A': E("AwaitInv", k); again(s, k, o.d); break;
    case 'q': query(s, k); break;
    case 'k': take(s, k); break;
    case 'o': s.g[k].open(); break;
    }
}
void scenario_main() {
    auto sp = std::make_unique<St>(); St& s = *sp;
    s.pool = std::make_unique<thread_pool>(P, s.w);
    for (auto& o : PRO) op(s, o);
    threads((int)O.size(), [&](int t) { for (auto& o : O[t]) op(s, o); });
    for (auto& g : s.g) g.open();
    s.w.reset(); s.pool->join();
    ev("{\"e\":\"Quiesce\"}");
    for (int k = 0; k < NT; ++k) if (s.tok[k].stop_possible()) query(s, k);
    sp.reset();
    ev("{\"e\":\"End\"}");
}
