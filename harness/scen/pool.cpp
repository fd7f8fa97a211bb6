// thread_pool.  Program: "bodies|prologue ; ops of main|ops of thread 1|..."
// bodies: words k:op.op.op  what item k does when it runs (default nothing); ops are the same as those of the threads, and as
//         the last one yK: the coroutine of the item posts itself again as item K, YK@d: with a delay
// ops: pK post item K (schedule()), PK post a handle, qK schedule a handle, gK dispatch(), GK dispatch a handle, uK start_on, tK transfer_to
//      lK@d schedule after d ms with a stop token, LK@d without one, cK request stop of item K's token
//      wK make work token K, xK reset it, XK assign an empty one to it, mK move it away and back,
//      aK@J move token J into K, aK@J! also when K holds work (which is given back then)
//      nK create K threads, r run() by this thread, j join, D destroy the pool, V move the pool object, bK block on gate K, oK open it
//      & (of a thread) what follows is done by a coroutine that runs on another pool, which this thread runs
//      CK (first op of the prologue) construct the pool with K threads and work token 0
#include "scen.h"
#include <condition_variable>
#include "macoro/thread_pool.h"
#include "macoro/task.h"
#include "macoro/start_on.h"
#include "macoro/transfer_to.h"
#include "macoro/stop.h"
using namespace macoro; using namespace sc;

struct Op { char c; int k; int d; bool held = false; };
static Op parse(const std::string& w) {
    Op o{w[0], 0, 0}; auto at = w.find('@');
    if (w.size() > 1) o.k = atoi(w.c_str() + 1);
    if (at != std::string::npos) o.d = atoi(w.c_str() + at + 1);
    o.held = w.back() == '!';
    return o;
}
constexpr int NI = 12;
static std::vector<Op> B[NI], PRO; static std::vector<std::vector<Op>> O;
void scenario_load(const std::string& p) {
    auto v = split(p, '|');
    for (auto& b : B) b.clear(); PRO.clear(); O.clear();
    for (auto& w : words(v[0])) {
        auto c = w.find(':'); int k = atoi(w.substr(0, c).c_str());
        for (auto& o : split(w.substr(c + 1), '.')) B[k].push_back(parse(o));
    }
    for (size_t i = 1; i < v.size(); ++i) {
        std::vector<Op> ops; bool semi = false;
        for (auto& w : words(v[i])) if (w == ";") { semi = true; PRO = ops; ops.clear(); } else ops.push_back(parse(w));
        if (i == 1 && !semi) { PRO = ops; ops.clear(); }
        O.push_back(ops);
    }
}
struct BGate {
    std::mutex m; std::condition_variable c; bool o = false;
    void wait() { std::unique_lock<std::mutex> l(m); c.wait(l, [&] { return o; }); }
    void open() { std::lock_guard<std::mutex> l(m); o = true; c.notify_all(); }
};
struct St {
    thread_pool* pool = nullptr; thread_pool::work w[4]; BGate g[4]; stop_source src[NI]; int data[NI] = {};
    int nm[4] = {0, 1, 2, 3};   // the work a slot holds
};
static void E(const char* e, int k) { ev("{\"e\":\"%s\",\"k\":%d,\"t\":%d}", e, k, vrt::tid()); }
static void post_ev(St& s, int k, const char* how, int d = 0) {
    s.data[k] = k + 1;
    ev("{\"e\":\"PostInv\",\"k\":%d,\"how\":\"%s\",\"d\":%d,\"t\":%d}", k, how, d, vrt::tid());
}
static void ran(St& s, int k) {
    if (s.data[k] != k + 1) ev("{\"e\":\"BadPayload\"}");
    E("Run", k);
}
static void ops(St& s, const std::vector<Op>& v);
struct by_handle {
    thread_pool* p; char c;
    bool await_ready() { return false; }
    std::coroutine_handle<> await_suspend(std::coroutine_handle<> h) {
        if (c == 'P') { p->post(coroutine_handle<>(h)); return std::noop_coroutine(); }
        if (c == 'q') { p->schedule(coroutine_handle<>(h)); return std::noop_coroutine(); }
        return p->dispatch(coroutine_handle<>(h)).std_cast();
    }
    void await_resume() {}
};
static fire item(St& s, int k, char how, int d) {
    std::unique_ptr<int> own(new int(k));
    thread_pool* p = s.pool;
    for (;;) {
        switch (how) {
        case 'p': case 'y': if (*own & 1) co_await p->schedule(); else co_await p->post(); break;
        case 't': co_await transfer_to(*p); break;
        case 'g': co_await p->dispatch(); break;
        case 'l': case 'Y': { auto tok = s.src[*own].get_token(); co_await p->schedule_after(std::chrono::nanoseconds(d), std::move(tok)); break; }
        case 'L': co_await p->schedule_after(std::chrono::nanoseconds(d)); break;
        default: co_await by_handle{p, how}; break;
        }
        ran(s, *own);
        ops(s, B[*own]);
        auto& b = B[*own];
        bool again = !b.empty() && (b.back().c == 'y' || b.back().c == 'Y');
        E("RunOut", *own);
        if (!again) co_return;
        how = b.back().c; d = b.back().d; *own = b.back().k;
        post_ev(s, *own, how == 'Y' ? "d" : "q", d);
    }
}
static task<Obj> body(St& s, int k) { ran(s, k); ops(s, B[k]); E("RunOut", k); co_return Obj(k); }
static fire started(St& s, int k) {
    std::unique_ptr<int> own(new int(k));
    Obj o = (k & 1) ? co_await start_on(*s.pool, body(s, k)) : co_await (body(s, k) | start_on(*s.pool));
    if (o.get() != *own) ev("{\"e\":\"BadPayload\"}");
}
static void op(St& s, const Op& o) {
    int k = o.k;
    switch (o.c) {
    case 'p': case 'P': case 'q': case 't': post_ev(s, k, "q"); item(s, k, o.c, 0); E("PostRet", k); break;
    case 'g': case 'G': post_ev(s, k, "g"); item(s, k, o.c, 0); E("PostRet", k); break;
    case 'u': post_ev(s, k, "q"); started(s, k); E("PostRet", k); break;
    case 'l': case 'L': post_ev(s, k, "d", o.d); item(s, k, o.c, o.d); E("PostRet", k); break;
    case 'c': E("CancelInv", k); s.src[k].request_stop(); E("CancelRet", k); break;
    case 'w': E("WorkInv", k); if (k & 1) { thread_pool::work w(s.pool->make_work()); s.w[k] = std::move(w); } else s.w[k] = s.pool->make_work(); E("WorkRet", k); break;
    case 'x': E("DropInv", s.nm[k]); s.w[k].reset(); E("DropRet", s.nm[k]); break;
    case 'X': E("DropInv", s.nm[k]); s.w[k] = thread_pool::work{}; E("DropRet", s.nm[k]); break;
    case 'a': if (o.held) E("DropInv", s.nm[k]); s.w[k] = std::move(s.w[o.d]); if (o.held) E("DropRet", s.nm[k]); std::swap(s.nm[k], s.nm[o.d]); break;
    case 'm': { thread_pool::work w(std::move(s.w[k])); s.w[k] = std::move(w); break; }
    case 'n': E("CreateInv", k); vrt::spawn_event("Created"); if (k == 1) s.pool->create_thread(); else s.pool->create_threads(k); vrt::spawn_event(nullptr); E("CreateRet", k); break;
    case 'r': E("RunnerIn", 0); s.pool->run(); E("RunnerOut", 0); break;
    case 'j': E("JoinInv", 0); s.pool->join(); E("JoinRet", 0); break;
    case 'D': E("JoinInv", 0); delete s.pool; s.pool = nullptr; E("JoinRet", 0); break;
    case 'V': { auto p = new thread_pool(std::move(*s.pool)); delete s.pool; s.pool = p; break; }
    case 'b': s.g[k].wait(); break;
    case 'o': s.g[k].open(); break;
    }
}
static void ops(St& s, const std::vector<Op>& v) { for (auto& o : v) op(s, o); }
static fire abroad(thread_pool& other, St& s, const std::vector<Op>& v) { co_await other.schedule(); ops(s, v); }
static void threadOps(St& s, const std::vector<Op>& v) {
    std::vector<Op> here, there; bool f = false;
    for (auto& o : v) if (o.c == '&') f = true; else (f ? there : here).push_back(o);
    ops(s, here);
    if (f) { thread_pool other; abroad(other, s, there); other.run(); }
}
void scenario_main() {
    auto sp = std::make_unique<St>(); St& s = *sp;
    size_t i0 = 0; bool made[4] = {}, dropped[4] = {};
    auto scan = [&](const std::vector<Op>& v) { for (auto& o : v) { if (o.c == 'w') made[o.k] = true; if (o.c == 'C') made[0] = true; if (o.c == 'x' || o.c == 'X') dropped[o.k] = true; if (o.c == 'a') { made[o.k] = true; dropped[o.d] = true; } } };
    for (auto& b : B) scan(b); scan(PRO); for (auto& o : O) scan(o);
    if (!PRO.empty() && PRO[0].c == 'C') {
        i0 = 1; E("WorkMade", 0); E("CreateInv", PRO[0].k);
        vrt::spawn_event("Created"); s.pool = new thread_pool(PRO[0].k, s.w[0]); vrt::spawn_event(nullptr);
        E("CreateRet", 0); E("WorkRet", 0);
    } else s.pool = new thread_pool();
    for (size_t i = i0; i < PRO.size(); ++i) op(s, PRO[i]);
    threads((int)O.size(), [&](int t) { threadOps(s, O[t]); });
    // a blocked item holds up one thread only: the others meet the deadlines
    bool b = false, l = false;
    auto has = [&](const std::vector<Op>& v) { for (auto& o : v) { b |= o.c == 'b'; l |= o.c == 'l' || o.c == 'L' || o.c == 'Y'; } };
    for (auto& v : B) has(v); has(PRO); for (auto& o : O) has(o);
    if (b && l) { timespec ts{0, 100000000}; nanosleep(&ts, nullptr); }
    for (auto& g : s.g) g.open();
    if (s.pool) {
        for (int k = 0; k < 4; ++k) if (made[k] && !dropped[k]) op(s, {'x', k, 0});
        op(s, {'j', 0, 0});
        op(s, {'r', 0, 0});
        op(s, {'j', 0, 0});
    }
    ev("{\"e\":\"Quiesce\"}");
    delete s.pool; sp.reset();
    ev("{\"e\":\"End\"}");
}
