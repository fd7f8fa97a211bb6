// Long histories and large numbers, one thread.  Program: "part args".  What is counted is judged by spec/Bulk.tla:
// Cfg part; Made n, f: n more things were started (f of them fail); Open: they may be over from here on, Close: no longer;
// Done n, f, bad: n were over since the last report, f of them with an error, bad of them wrongly (wrong value, order, number of
// times, or a wrong answer); Drop n, f: n were taken back before they were over; Count v, hi: what the library says is open;
// All: everything has to be over.  hi counts in units of 2^32.
#include "scen.h"
#include "macoro/type_traits.h"
#include "macoro/optional.h"
#include "macoro/channel.h"
#include "macoro/sequence_spsc.h"
#include "macoro/sequence_mpsc.h"
#include "macoro/manual_reset_event.h"
#include "macoro/barrier.h"
#include "macoro/async_scope.h"
#include "macoro/when_all_scope.h"
#include "macoro/when_all.h"
#include "macoro/task.h"
#include "macoro/macros.h"
#include "macoro/stop.h"
#include "macoro/thread_pool.h"
#include "macoro/sync_wait.h"
#include "macoro/wrap.h"
#include "macoro/trace.h"
#include "macoro/timeout.h"
#include "macoro/take_until.h"
using namespace macoro; using namespace sc;
static std::vector<std::string> A;
void scenario_load(const std::string& p) { A = words(p); }
static long arg(size_t i) { return i < A.size() ? atol(A[i].c_str()) : 0; }
static void made(long n, long f = 0, long hi = 0) { ev("{\"e\":\"Made\",\"n\":%ld,\"f\":%ld,\"hi\":%ld}", n, f, hi); }
static void count(unsigned long v) { ev("{\"e\":\"Count\",\"v\":%ld,\"hi\":%ld}", (long)(v & 0x7fffffff), (long)(v >> 32)); }
static void drop(long n, long f = 0) { ev("{\"e\":\"Drop\",\"n\":%ld,\"f\":%ld}", n, f); }
static void sig(const char* e) { ev("{\"e\":\"%s\"}", e); }
struct C {
    long n = 0, bad = 0, f = 0;
    void report() { ev("{\"e\":\"Done\",\"n\":%ld,\"f\":%ld,\"bad\":%ld}", n, f, bad); n = bad = f = 0; }
};
// the driver resumes a coroutine that waits here
struct Turn {
    std::coroutine_handle<> h;
    bool await_ready() { return false; } void await_suspend(std::coroutine_handle<> x) { h = x; } void await_resume() {}
    void next() { if (h) std::exchange(h, nullptr).resume(); }
};
static unsigned val(long i) { return (unsigned)i * 2654435761u + 17u; }
static fire run(task<void> t) { co_await std::move(t); }

// ---- channel: n items, the sender gets b ahead where there is room
template<class TX> static fire sender(TX& tx, Turn& t, long n, long b) {
    for (long i = 0; i < n; ++i) {
        if (i % b == 0) co_await t;
        auto w = co_await tx.push(); w = val(i);
        if (i % 3) w.publish();
    }
    co_await t;
    co_await tx.close();
}
template<class RX> static fire receiver(RX& rx, Turn& t, C& c, bool& over, long b) {
    long i = 0;
    try {
        for (;; ++i) {
            if (b > 1 && i % b == 0) co_await t;
            if (i % 7 == 0) { unsigned x = co_await rx.front(); if (x != val(i)) ++c.bad; }
            auto w = co_await rx.pop();
            if (*w != val(i)) ++c.bad;
            ++c.n;
            if (i % 5) w.publish();
        }
    } catch (channel_closed_exception&) { over = true; }
}
template<class P> static void chan(P ends, long n, long b, bool first) {
    auto& [tx, rx] = ends; Turn ts, tr; C c; bool over = false;
    if (first) { receiver(rx, tr, c, over, b); sender(tx, ts, n, b); } else { sender(tx, ts, n, b); receiver(rx, tr, c, over, b); }
    sig("Open");
    long sent = 0, told = 0;
    while (sent < n) {
        long m = std::min(b, n - sent); sent += m;
        ts.next(); tr.next();
        if (sent - told > n / 50 || sent == n) { made(sent - told); told = sent; c.report(); }
    }
    ts.next(); for (int k = 0; k < 3; ++k) tr.next();
    if (!over) ++c.bad;
    c.report();
}
// ---- sequence: n sequences claimed up to k at a time and published as ranges
template<class S, class Q> static fire claimer(Q& q, long n, long k, bool one, std::vector<S>& ring, C& c) {
    long i = 0;
    while (i < n) {
        if (one) { S s = co_await q.claim_one(); ring[(size_t)s % ring.size()] = (S)i; if (s != (S)i) ++c.bad; q.publish(s); ++i; continue; }
        auto r = co_await q.claim_up_to((size_t)std::min<long>(k, n - i));
        if (r.size() < 1 || (long)r.size() > std::min<long>(k, n - i) || r.size() > ring.size() || r.front() != (S)i) ++c.bad;
        for (S s : r) { ring[(size_t)s % ring.size()] = (S)i; if (s != (S)i) ++c.bad; ++i; }
        q.publish(r);
    }
}
template<class S, class Q> static fire taker(Q& q, sequence_barrier<S>& bar, long n, long k, std::vector<S>& ring, C& c) {
    long i = 0; S lk = sequence_traits<S>::initial_sequence;
    while (i < n) {
        long to = std::min(n, i + k) - 1;          // wait for k more
        lk = co_await q.wait_until_published((S)to, lk);
        long d = (long)sequence_traits<S>::difference(lk, (S)to);
        if (d < 0 || d > (long)ring.size() || to + d >= n) ++c.bad;
        for (; i <= to; ++i) { if (ring[(size_t)i % ring.size()] != (S)i) ++c.bad; ++c.n; }
        lk = (S)to; bar.publish(lk);
    }
}
template<class S, class Q> static void seq(long N, long n, long k, bool one) {
    sequence_barrier<S> bar; auto q = std::make_unique<Q>(bar, (size_t)N); std::vector<S> ring((size_t)N); C c, c2;
    made(n); sig("Open");
    claimer<S>(*q, n, k, one, ring, c);
    taker<S>(*q, bar, n, std::min(k, N), ring, c2);
    c.report(); c2.report();
}
// ---- event
static fire onEvent(async_manual_reset_event& e, C& c, int& ran) { co_await e; ++ran; ++c.n; if (!e.is_set()) ++c.bad; }
static void event(long n, long cycles) {
    async_manual_reset_event e; C c;
    for (long k = 0; k < cycles; ++k) {
        std::vector<int> ran((size_t)n, 0);
        for (auto& r : ran) onEvent(e, c, r);
        made(n); if (c.n) c.report();
        sig("Open"); e.set(); e.set();
        int late = 0; made(1); onEvent(e, c, late);
        if (late != 1) ++c.bad;
        for (int r : ran) if (r != 1) ++c.bad;
        c.report();
        sig("Close"); e.reset(); if (e.is_set()) ++c.bad; c.report();
    }
    sig("Open");
}
// ---- barrier: init is a*2^32 + b; m are added and taken down again in between
static fire onBarrier(barrier& b, C& c, bool& over) { co_await b; over = true; if (b.count()) ++c.bad; }
static void barrierPart(long a, long b, long m) {
    size_t init = ((size_t)a << 32) + (size_t)b;
    barrier x(init); C c; bool over = false;
    made(b, 0, a); count(x.count()); sig("Open");
    if (!a) onBarrier(x, c, over);
    if (x.add((size_t)m) != init + (size_t)m) ++c.bad;
    made(m); count(x.count());
    if (a) { if (x.add((size_t)1 << 32) != init + (size_t)m + ((size_t)1 << 32)) ++c.bad; made(0, 0, 1); ++a; count(x.count()); }
    long left = b + m;
    for (long i = 0; i < b + m; ++i) {
        if (over) ++c.bad;
        --left; ++c.n;
        if (x.decrement() != ((size_t)a << 32) + (size_t)left) ++c.bad;
        if (i % 977 == 0) { c.report(); count(x.count()); }
    }
    if (over != !a) ++c.bad;
    c.report(); count(x.count());
}
// ---- the scopes: every third task throws, every third handle is given up, every third is awaited, the others are kept
static task<int> member(async_manual_reset_event& e, C& c, long i, int depth, bool fails) {
    co_await e;
    if (depth) co_await member(e, c, i, depth - 1, fails); else ++c.n;
    if (fails) { if (!depth) ++c.f; throw sc::Err((int)i); }
    co_return (int)val(i);
}
static fire awaitMember(scoped_task<int> t, long i, C& c) {
    try { int v = co_await std::move(t); if (v != (int)val(i)) ++c.bad; if (i % 3 == 0) ++c.bad; }
    catch (sc::Err& e) { if (i % 3 || e.v != (int)i) ++c.bad; }
    ++c.n;
}
template<class E> auto& list_of(E& e) { if constexpr (requires { e.exceptions(); }) return e.exceptions(); else return e.m_exceptions; }
// the exceptions that nobody saw, each once
template<class E> static void reported(E& e, long n, int how, C& c) {
    std::vector<int> seen((size_t)n, 0);
    for (auto& p : list_of(e)) { try { std::rethrow_exception(p); } catch (sc::Err& x) { if (x.v < 0 || x.v >= n) ++c.bad; else ++seen[(size_t)x.v]; } }
    for (long i = 0; i < n; ++i) if (seen[(size_t)i] != (i % 3 == 0 && i % 2 == how ? 1 : 0)) ++c.bad;
}
static task<void> joinAll(async_scope& s, long n, C& c, bool& over) {
    bool thrown = false;
    try { co_await s.join(); } catch (async_scope_exception& e) { thrown = true; reported(e, n, 0, c); }
    if (!thrown) ++c.bad;
    over = true;
}
static void scope(long n) {
    auto s = std::make_unique<async_scope>(); async_manual_reset_event e; C c, w; bool over = false;
    for (long i = 0; i < n; ++i) {
        auto t = s->add(member(e, c, i, 0, i % 3 == 0));
        if (i % 2) { awaitMember(std::move(t), i, w); }      // the others are given up here
    }
    made(n, (n + 2) / 3);
    if (w.n) ++c.bad;
    run(joinAll(*s, n, c, over));
    if (over) ++c.bad;
    c.report();
    sig("Open"); e.set();
    if (!over || w.n != n / 2) ++c.bad;
    c.bad += w.bad; c.report();
    s.reset();
}
// (the errors are all seen by those that await the tasks)
static when_all_scope waBody(async_manual_reset_event& e, long n, C& c, C& w) {
    for (long i = 0; i < n; ++i) {
        scoped_task<int> t = co_await scoped(member(e, c, i, 0, i % 6 == 3));
        if (i % 2) awaitMember(std::move(t), i, w);
    }
}
static task<void> waOuter(async_manual_reset_event& e, long n, C& c, C& w, bool& over) {
    try { co_await waBody(e, n, c, w); } catch (...) { ++c.bad; }
    over = true;
}
static void wascope(long n) {
    async_manual_reset_event e; C c, w; bool over = false;
    run(waOuter(e, n, c, w, over));
    made(n, (n + 2) / 6);
    if (over || w.n) ++c.bad;
    c.report(); sig("Open"); e.set();
    if (!over || w.n != n / 2) ++c.bad;
    c.bad += w.bad; c.report();
}
static task<void> waitAll(async_manual_reset_event& e, long n, C& c, bool& over) {
    std::vector<task<int>> v;
    for (long i = 0; i < n; ++i) v.push_back(member(e, c, i, 0, i % 3 == 0));
    auto r = co_await when_all_ready(std::move(v));
    if ((long)r.size() != n) ++c.bad;
    for (long i = 0; i < n && i < (long)r.size(); ++i) {
        try { if (r[(size_t)i].result() != (int)val(i) || i % 3 == 0) ++c.bad; } catch (sc::Err& x) { if (x.v != (int)i || i % 3) ++c.bad; }
    }
    over = true;
}
static void whenall(long n) {
    async_manual_reset_event e; C c; bool over = false;
    run(waitAll(e, n, c, over));
    made(n, (n + 2) / 3); if (over) ++c.bad;
    c.report(); sig("Open"); e.set(); if (!over) ++c.bad; c.report();
}
// ---- tasks: n awaits in a loop, and chains of depth d
static task<int> leaf(long i, C& c) { ++c.n; if (i % 3 == 0) { ++c.f; throw sc::Err((int)i); } co_return (int)val(i); }
static task<int> leafM(long i, C& c) {
    MC_BEGIN(task<int>, i, &c);
    ++c.n;
    if (i % 3 == 0) { ++c.f; throw sc::Err((int)i); }
    MC_RETURN((int)val(i));
    MC_END();
}
static eager_task<int> leafE(long i, C& c) { ++c.n; if (i % 3 == 0) { ++c.f; throw sc::Err((int)i); } co_return (int)val(i); }
static task<void> loop(long n, C& c) {
    for (long i = 0; i < n; ++i) {
        try {
            int v = i % 4 == 0 ? co_await leafM(i, c) : i % 4 == 1 ? co_await leafE(i, c) : i % 4 == 2 ? (co_await (leaf(i, c) | wrap())).value() : co_await leaf(i, c);
            if (v != (int)val(i) || i % 3 == 0) ++c.bad;
        } catch (sc::Err& e) { if (e.v != (int)i || i % 3) ++c.bad; }
    }
}
static task<void> loopM(long n, C& c) {
    MC_BEGIN(task<void>, n, &c, i = 0l, v = 0, r = result<int, std::exception_ptr>{});
    for (i = 0; i < n; ++i) {
        if (i % 3 == 0) { MC_AWAIT_TRY(r, leaf(i, c)); if (!r.has_error()) ++c.bad; }
        else { MC_AWAIT_SET(v, leafM(i, c)); if (v != (int)val(i)) ++c.bad; }
    }
    MC_END();
}
static task<void> chain(async_manual_reset_event& e, long i, int d, C& c) {
    try { int v = co_await member(e, c, i, d, i % 3 == 0); if (v != (int)val(i) || i % 3 == 0) ++c.bad; } catch (sc::Err& x) { if (x.v != (int)i || i % 3) ++c.bad; }
}
static void tasks(long n, long d) {
    C c; made(2 * n, 2 * ((n + 2) / 3)); sig("Open");
    run(loop(n, c)); c.report(); run(loopM(n, c)); c.report();
    sig("Close");
    async_manual_reset_event e;
    made(30, 10);
    for (long i = 0; i < 30; ++i) run(chain(e, i, (int)d, c));
    c.report(); sig("Open"); e.set(); c.report();
}
// ---- n awaits in a row, each completes at once: the stack may not grow with them (512 KB here).  Macro coroutines and native
// ones that resume each other in turn do not promise that.
static task<int> leafW(long i, C& c, async_manual_reset_event& e) { co_await e; ++c.n; co_return (int)val(i); }
static task<int> leafS(long i, C& c, async_manual_reset_event& e) { e.set(); ++c.n; co_return (int)val(i); }
static when_all_scope body(long i, C& c) { auto t = co_await scoped(leaf(3 * i + 1, c)); if (co_await std::move(t) != (int)val(3 * i + 1)) ++c.bad; }
static task<void> loopM2(long n, C& c) {
    MC_BEGIN(task<void>, n, &c, i = 0l, v = 0);
    for (i = 0; i < n; ++i) { MC_AWAIT_SET(v, leafM(3 * i + 2, c)); if (v != (int)val(3 * i + 2)) ++c.bad; }
    MC_END();
}
static task<void> rows(char k, long n, C& c) {
    async_scope all;
    for (long i = 0; i < n; ++i) {
        long j = 3 * i + 1; int v = (int)val(j);
        switch (k) {
        case 'l': v = co_await leaf(j, c); break;
        case 't': try { co_await leaf(3 * i, c); ++c.bad; } catch (sc::Err&) { } break;
        case 'e': v = co_await leafE(j, c); break;
        case 'w': v = (co_await (leaf(j, c) | wrap())).value(); break;
        case 'a': { auto r = co_await when_all_ready(leaf(j, c), leafE(j, c)); v = std::get<0>(r).result(); if (std::get<1>(r).result() != v) ++c.bad; break; }
        case 'v': { std::vector<task<int>> x; x.push_back(leaf(j, c)); x.push_back(leaf(j, c)); auto r = co_await when_all_ready(std::move(x)); v = r[0].result(); break; }
        case 'x': { async_manual_reset_event e; auto r = co_await when_all_ready(leafW(j, c, e), leafS(j, c, e)); v = std::get<0>(r).result(); break; }
        case 'h': { auto h = all.add(leaf(j, c)); v = co_await std::move(h); break; }
        case 'j': { async_scope s; s.add(leaf(j, c)); co_await s; break; }
        case 's': co_await body(i, c); break;
        case 'f': { async_scope s; async_manual_reset_event e; auto h = s.add(leafW(j, c, e)); e.set(); v = co_await std::move(h); co_await s; break; }
        }
        if (v != (int)val(j)) ++c.bad;
    }
    co_await all;
}
static void rowsPart(char k, long n) {
    C c; long m = k == 'a' || k == 'v' || k == 'x' ? 2 : 1;
    made(m * n, k == 't' ? n : 0); sig("Open");
    if (k == 'm') run(loopM2(n, c)); else sync_wait(rows(k, n, c));
    c.report();
}
// ---- n callbacks of one stop state, m tokens and sources
static void stopPart(long n, long m) {
    stop_source src; C c; auto tok = src.get_token();
    {
        std::vector<stop_token> ts; std::vector<stop_source> ss;
        for (long i = 0; i < m; ++i) { ts.push_back(i % 2 ? tok : src.get_token()); ss.push_back(src); }
        for (auto& t : ts) if (t.stop_requested() || !t.stop_possible()) ++c.bad;
        for (auto& t : ss) if (t.stop_requested() || !t.stop_possible()) ++c.bad;
        if (m) { src = ss[0]; tok = ts[0]; }
    }
    if (!tok.stop_possible() || tok.stop_requested()) ++c.bad;
    std::vector<int> ran((size_t)n, 0); std::vector<std::unique_ptr<stop_callback>> cb((size_t)n);
    auto reg = [&](long i) { cb[(size_t)i] = std::make_unique<stop_callback>(tok, [&, i] { ++ran[(size_t)i]; ++c.n; if (!tok.stop_requested()) ++c.bad; }); };
    for (long i = 0; i < n; ++i) reg(i);
    made(n);
    for (long i = 0; i < n; i += 3) cb[(size_t)i].reset();
    drop((n + 2) / 3);
    for (long i = 0; i < n; i += 6) reg(i);
    made((n + 5) / 6);
    for (long k = 0; k < 3; ++k) { for (long i = 1; i < n; i += 2) cb[(size_t)i].reset(); for (long i = n - 1 - (n % 2); i > 0; i -= 2) if (i % 3) reg(i); }
    // odd ones that are multiples of 3 are gone, the others are registered again
    c.report(); sig("Open");
    src.request_stop(); src.request_stop();
    for (long i = 0; i < n; ++i) if (ran[(size_t)i] != (i % 3 != 0 || i % 6 == 0)) ++c.bad;
    for (long i = 0; i < n; ++i) cb[(size_t)i].reset();
    made(1); { bool once = false; stop_callback late(tok, [&] { once = true; ++c.n; }); if (!once) ++c.bad; }
    c.report();
    { stop_source s2; stop_token t2 = s2.get_token(); { stop_source s3 = std::move(s2); } if (t2.stop_possible() || t2.stop_requested()) ++c.bad; }
    c.report();
}
// ---- pool
static fire reposts(thread_pool& p, long n, C& c, std::thread::id me) {
    for (long i = 0; i < n; ++i) { if (i % 3 == 0) co_await p.schedule(); else if (i % 3 == 1) co_await p.post(); else co_await p.schedule_after(std::chrono::milliseconds(0)); ++c.n; }
    if (std::this_thread::get_id() != me) ++c.bad;
}
static fire posted(thread_pool& p, long i, long& last, C& c) { co_await p.post(); if (i != last + 1) ++c.bad; last = i; ++c.n; }
static fire delayed(thread_pool& p, long ms, long& last, stop_token tok, bool cancelled, C& c) {
    if (cancelled) co_await p.schedule_after(std::chrono::milliseconds(ms), std::move(tok));
    else { co_await p.schedule_after(std::chrono::milliseconds(ms)); if (ms < last) ++c.bad; last = ms; }
    ++c.n;
}
static void pool(long n, long q, long d) {
    thread_pool p; C c; auto me = std::this_thread::get_id();
    sig("Open");
    made(n); reposts(p, n, c, me); p.run(); c.report();
    sig("Close");
    long last = -1; for (long i = 0; i < q; ++i) posted(p, i, last, c);
    made(q); c.report(); sig("Open"); p.run(); c.report();
    // delays in a scattered order, every fourth cancelled
    std::vector<stop_source> src((size_t)d); long lastMs = -1;
    sig("Close");
    for (long i = 0; i < d; ++i) delayed(p, (i * 37 % d) + 5, lastMs, src[(size_t)i].get_token(), i % 4 == 0, c);
    made(d); c.report(); sig("Open");
    for (long i = d - 1; i >= 0; --i) if (i % 4 == 0) src[(size_t)i].request_stop();
    p.run(); c.report();
    // w pieces of work keep the pool's threads
    sig("Close");
    { std::vector<thread_pool::work> w; for (long i = 0; i < q; ++i) w.push_back(p.make_work());
      p.create_thread();
      Turn never; made(1);
      sig("Open");
      std::atomic<long> k{0}; for (int i = 0; i < 1; ++i) [](thread_pool& p, std::atomic<long>& k) -> fire { co_await p.schedule(); ++k; }(p, k);
      while (w.size() > 1) { if (w.size() % 2) w.back().reset(); w.pop_back(); }
      w.clear(); p.join(); c.n = k; }
    c.report();
}
// ---- n coroutines await a token, one awaits n tokens in turn
static fire onStop(stop_token t, C& c, int& ran) { co_await t; ++ran; ++c.n; if (!t.stop_requested()) ++c.bad; }
static fire manyStops(std::vector<stop_source>& s, C& c, std::vector<int>& ran) { for (size_t i = 0; i < s.size(); ++i) { auto t = s[i].get_token(); co_await t; ++ran[i]; ++c.n; if (!t.stop_requested()) ++c.bad; } }
static void stopAwait(long n) {
    C c; stop_source src; std::vector<int> ran((size_t)n, 0);
    for (auto& r : ran) onStop(src.get_token(), c, r);
    made(n); c.report(); sig("Open"); src.request_stop();
    for (int& r : ran) { if (r != 1) ++c.bad; r = 0; }
    c.report(); sig("Close");
    std::vector<stop_source> s((size_t)n); made(n); manyStops(s, c, ran); c.report(); sig("Open");
    for (long i = 0; i < n; ++i) { if (c.n != i) ++c.bad; s[(size_t)i].request_stop(); }
    for (int& r : ran) if (r != 1) ++c.bad;
    c.report();
}
// ---- timeouts one after the other: every third operation waits until it is given up
static task<int> limited(thread_pool& p, stop_token t, long i) {
    if (i % 3 == 0) co_await t; else co_await p.schedule_after(std::chrono::milliseconds(1));
    if (t.stop_requested() != (i % 3 == 0)) throw sc::Err(-7);
    if (i % 5 == 4) throw sc::Err((int)i);
    co_return (int)val(i);
}
static task<void> timeouts(thread_pool& p, long n, stop_source& outer, C& c) {
    for (long i = 0; i < n; ++i) {
        timeout to(p, std::chrono::milliseconds(i % 3 == 0 ? 2 : 3600000), i % 2 ? outer.get_token() : stop_token{});
        auto tok = to.get_token();
        try { int v = co_await take_until(limited(p, tok, i), std::move(to)); if (v != (int)val(i) || i % 5 == 4) ++c.bad; }
        catch (sc::Err& e) { ++c.f; if (e.v != (int)i) ++c.bad; }
        if (!tok.stop_requested()) ++c.bad;
        ++c.n;
    }
}
static void timeoutPart(long n) {
    thread_pool p; C c; stop_source outer; auto t0 = std::chrono::steady_clock::now();
    made(n, n / 5); sig("Open");
    run(timeouts(p, n, outer, c)); p.run();
    auto dt = std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now() - t0).count();
    if (dt < n / 3 * 2 || dt > 3 * n + 1000) ++c.bad;
    c.report();
}
// ---- sync_wait
static void waits(long n) {
    C c; made(2 * n, 2 * ((n + 2) / 3)); sig("Open");
    for (long i = 0; i < 2 * n; ++i) {
        long k = i % n;
        try {
            int v = i < n ? sync_wait(leaf(k, c)) : [&] { auto b = make_blocking(leafM(k, c)); return b.get(); }();
            if (v != (int)val(k) || k % 3 == 0) ++c.bad;
        } catch (sc::Err& e) { if (e.v != (int)k || k % 3) ++c.bad; }
    }
    c.report();
}
// ---- call stacks of depth d: one entry per task and the one of the question itself
static task<void> deep(long d, long n, C& c) {
    if (d == 0) {
        trace t = co_await get_trace{};
        long k = 0; for (auto& l : t.stack) if (strstr(l.file_name(), "bulk.cpp")) ++k;
        if (k != n + 2) ++c.bad;
        ++c.n; co_return;
    }
    co_await deep(d - 1, n, c);
}
static void stack(long d) {
    C c; made(3); sig("Open");
    sync_wait(deep(d, d, c)); sync_wait(deep(1, 1, c)); sync_wait(deep(2 * d, 2 * d, c));
    c.report();
}
void scenario_main() {
    const std::string& p = A[0];
    ev("{\"e\":\"Cfg\",\"part\":\"%s\"}", p.c_str());
    // s/m capacity items batch receiver-first
    if (p == "s") chan(spsc::make_channel<unsigned>((size_t)arg(1)), arg(2), arg(3), arg(4) != 0);
    else if (p == "m") chan(mpsc::make_channel<unsigned>((size_t)arg(1)), arg(2), arg(3), arg(4) != 0);
    // qs/qm type size items batch(0: one by one)
    else if (p == "qs" || p == "qm") {
        long N = arg(2), n = arg(3), k = std::max(1l, arg(4)); bool one = !arg(4);
        auto go = [&](auto s) { using S = decltype(s); if (p == "qs") seq<S, sequence_spsc<S>>(N, n, k, one); else seq<S, sequence_mpsc<S>>(N, n, k, one); };
        if (A[1] == "c") go((uint8_t)0); else if (A[1] == "h") go((uint16_t)0); else if (A[1] == "u") go((uint32_t)0); else go((size_t)0);
    }
    else if (p == "event") event(arg(1), arg(2));
    else if (p == "barrier") barrierPart(arg(1), arg(2), arg(3));
    else if (p == "scope") scope(arg(1));
    else if (p == "wascope") wascope(arg(1));
    else if (p == "whenall") whenall(arg(1));
    else if (p == "task") tasks(arg(1), arg(2));
    else if (p == "rows") rowsPart(A[1][0], arg(2));
    else if (p == "stop") stopPart(arg(1), arg(2));
    else if (p == "pool") pool(arg(1), arg(2), arg(3));
    else if (p == "stopaw") stopAwait(arg(1));
    else if (p == "timeout") timeoutPart(arg(1));
    else if (p == "wait") waits(arg(1));
    else if (p == "stack") stack(arg(1));
    sig("All");
}
