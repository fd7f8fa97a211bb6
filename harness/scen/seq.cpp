// sequence_barrier, sequence_spsc, sequence_mpsc.  Program: "<b|s|m><c|h|u|z><size><d|w|i>|ops of thread 0|ops of thread 1|..."
// sequence type c uint8, h uint16, u uint32, z size_t; first slot: d default (0), w shortly before wrap-around, i initial sequence 0
// ops, executed by one coroutine per thread: c claim one, write, publish; CK claim up to K, publish as a range;
// EK claim up to K, publish one by one in reverse order; x claim two, publish the second first; o claim one (published by 'P')
// FK claim up to K, publish the first one and the rest as two ranges; upper case W: wait with an awaitable that was moved, i: claim with one
// wT wait for T; kT hand slots up to T back; r receive the next item (wait, read ring, hand back); RK receive, taking all published but at least K
// a any_available; l last published; pT publish T (barrier)
#include "scen.h"
#include <cstdint>
#include "macoro/sequence_barrier.h"
#include "macoro/sequence_spsc.h"
#include "macoro/sequence_mpsc.h"
using namespace macoro; using namespace sc;

static char Ki, Ty, In; static int N; static std::vector<std::vector<std::string>> O;
void scenario_load(const std::string& p) {
    auto v = split(p, '|'); O.clear();
    Ki = v[0][0]; Ty = v[0][1]; N = atoi(v[0].c_str() + 2); In = v[0].back();
    for (size_t i = 1; i < v.size(); ++i) O.push_back(words(v[i]));
}
template<class S> struct St {
    S init; sequence_barrier<S> bar; std::unique_ptr<sequence_spsc<S>> sp; std::unique_ptr<sequence_mpsc<S>> mp;
    std::vector<int> ring; int data[40] = {}; std::atomic<int> live{0};
    S first() const { return (S)(init + 1); }
    int idx(S s) const { return (int)sequence_traits<S>::difference(s, first()); }
    S seq(int i) const { return (S)(first() + (S)i); }
    St() : init(In == 'd' ? sequence_traits<S>::initial_sequence : In == 'i' ? (S)0 : (S)(sequence_traits<S>::initial_sequence - 2)), bar(init), ring(N, -1) {
        if (Ki == 's') sp = std::make_unique<sequence_spsc<S>>(bar, N, init);
        if (Ki == 'm') mp = std::make_unique<sequence_mpsc<S>>(bar, N, init);
    }
};
template<class S, class Q> static fire prog(St<S>& s, Q& q, int t) {
    constexpr bool multi = std::is_same_v<Q, sequence_mpsc<S>>;
    constexpr bool isbar = std::is_same_v<Q, sequence_barrier<S>>;
    std::unique_ptr<int> own(new int(t));
    int lk = -1, got = 0;
    std::vector<S> held;
    auto write = [&](S x) { int i = s.idx(x); s.ring[(size_t)i % N] = i; if (i >= 0 && i < 40) s.data[i] = i + 1; };
    auto pinv = [&](int lo, int hi) { ev("{\"e\":\"PubInv\",\"p\":%d,\"lo\":%d,\"hi\":%d}", *own, lo, hi); };
    auto pret = [&] { ev("{\"e\":\"PubRet\",\"p\":%d}", *own); };
    auto seen = [&](int lo, int hi) { int ok = 1; for (int i = lo; i <= hi; ++i) if (i >= 0 && i < 40 && s.data[i] != i + 1) ok = 0; return ok; };
    for (auto& w : O[t]) {
        char op = w[0]; int k = w.size() > 1 ? atoi(w.c_str() + 1) : 0;
        if constexpr (isbar) {
            if (op == 'p') { for (int i = 0; i <= k; ++i) if (!s.data[i]) s.data[i] = i + 1; pinv(0, k); q.publish(s.seq(k)); pret(); }
        } else {
            if (op == 'c' || op == 'o' || op == 'i') {
                ev("{\"e\":\"ClaimInv\",\"p\":%d,\"n\":1}", t);
                S x;
                if (op == 'i') { auto a = q.claim_one(); auto b = std::move(a); x = co_await b; } else x = co_await q.claim_one();
                ev("{\"e\":\"ClaimRet\",\"p\":%d,\"lo\":%d,\"hi\":%d}", *own, s.idx(x), s.idx(x));
                write(x);
                if (op == 'o') { held.push_back(x); continue; }
                pinv(s.idx(x), s.idx(x)); q.publish(x); pret();
            }
            if (op == 'P') { S x = held.back(); held.pop_back(); pinv(s.idx(x), s.idx(x)); q.publish(x); pret(); }
            if (op == 'C' || op == 'E' || op == 'F') {
                ev("{\"e\":\"ClaimInv\",\"p\":%d,\"n\":%d}", t, k);
                auto r = co_await q.claim_up_to(k);
                int lo = s.idx(r.front()), hi = s.idx(r.back());
                ev("{\"e\":\"ClaimRet\",\"p\":%d,\"lo\":%d,\"hi\":%d}", *own, lo, hi);
                if (hi - lo > 30) { vrt::forgive_leaks(); vrt::stop_run(); co_return; }
                { int n = 0; bool ok = (int)r.size() == hi - lo + 1 && !r.empty() && decltype(r)().empty() && !r.size() == r.empty() && r.end() - r.begin() == hi - lo + 1 && r.first(0).empty();
                  for (auto i = r.begin(); i != r.end(); ++i, ++n) ok = ok && s.idx(*i) == lo + n && r[n] == *i && *(r.begin() + n) == *i && *(r.end() - (hi - lo + 1 - n)) == *i;
                  auto i = r.begin(); auto j = i++; ok = ok && *j == r.front() && (hi == lo || *i == r[1]); --i; ok = ok && i == j; j = i--; ok = ok && j != i && s.idx(*i) == lo - 1;
                  if (!ok || n != hi - lo + 1) ev("{\"e\":\"BadPayload\"}"); }
                for (S x : r) write(x);
                if (op == 'F') {
                    if constexpr (sizeof(S) >= 4) {
                        auto a = r.first(1), b = r.skip(1);
                        if (!r.skip(hi - lo + 9).empty() || r.first(hi - lo + 9).size() != r.size() || a.size() != 1 || (int)b.size() != hi - lo) ev("{\"e\":\"BadPayload\"}");
                        if constexpr (multi) if (hi > lo) { pinv(s.idx(b.front()), s.idx(b.back())); q.publish(b); pret(); }
                        pinv(s.idx(a.front()), s.idx(a.back())); q.publish(a); pret();
                        if constexpr (!multi) if (hi > lo) { pinv(s.idx(b.front()), s.idx(b.back())); q.publish(b); pret(); }
                    } else { pinv(lo, hi); q.publish(r); pret(); }
                    continue;
                }
                if (op == 'C') { pinv(lo, hi); q.publish(r); pret(); }
                else for (int i = multi ? hi : lo; multi ? i >= lo : i <= hi; multi ? --i : ++i) { pinv(i, i); q.publish(s.seq(i)); pret(); }
            }
            if (op == 'a') if constexpr (multi) {
                ev("{\"e\":\"AvailInv\",\"p\":%d}", t); bool b = q.any_available();
                ev("{\"e\":\"AvailRet\",\"p\":%d,\"v\":%s}", *own, b ? "true" : "false");
            }
        }
        if (op == 'l') {
            ev("{\"e\":\"LastInv\",\"p\":%d}", t);
            int r;
            if constexpr (multi) r = s.idx(q.last_published_after(s.seq(lk))); else r = s.idx(q.last_published());
            ev("{\"e\":\"LastRet\",\"p\":%d,\"r\":%d,\"ok\":%d}", *own, r, seen(got, r));
            lk = r;
        }
        if (op == 'w' || op == 'W' || op == 'r' || op == 'R') {
            bool mv = op == 'W'; if (mv) op = 'w';
            int tg = op == 'w' ? k : op == 'r' ? got : got + k - 1, r;
            ev("{\"e\":\"WaitInv\",\"p\":%d,\"t\":%d}", t, tg);
            if (mv) {
                auto op1 = [&] { if constexpr (multi) return q.wait_until_published(s.seq(tg), s.seq(lk)); else return q.wait_until_published(s.seq(tg)); }();
                auto op2 = std::move(op1); r = s.idx(co_await op2);
            }
            else if constexpr (multi) r = s.idx(co_await q.wait_until_published(s.seq(tg), s.seq(lk)));
            else r = s.idx(co_await q.wait_until_published(s.seq(tg)));
            ev("{\"e\":\"WaitRet\",\"p\":%d,\"r\":%d,\"ok\":%d}", *own, r, seen(op == 'w' ? 0 : got, r));
            if (r > 39) { vrt::forgive_leaks(); vrt::stop_run(); co_return; }
            lk = r;
            if (op != 'w') {
                int last = op == 'r' ? got : r;
                for (; got <= last; ++got) if (s.ring[(size_t)got % N] != got) ev("{\"e\":\"BadPayload\",\"i\":%d,\"v\":%d}", got, s.ring[(size_t)got % N]);
                k = last;
            }
        }
        if (op == 'k' || op == 'r' || op == 'R') {
            if (k + 1 > got) got = k + 1;
            ev("{\"e\":\"ConsInv\",\"c\":%d}", k); s.bar.publish(s.seq(k)); ev("{\"e\":\"ConsRet\",\"c\":%d}", k);
        }
    }
    s.live--;
}
template<class S> static void go() {
    auto up = std::make_unique<St<S>>(); St<S>& s = *up;
    ev("{\"e\":\"Cfg\",\"kind\":\"%c\",\"n\":%d}", Ki, N);
    s.live = (int)O.size();
    threads((int)O.size(), [&](int t) {
        if (Ki == 's') prog(s, *s.sp, t); else if (Ki == 'm') prog(s, *s.mp, t); else prog(s, s.bar, t);
    });
    ev("{\"e\":\"Quiesce\"}");
    if (s.live) { vrt::forgive_leaks(); vrt::stop_run(); return; }
    up.reset();
    ev("{\"e\":\"End\"}");
}
void scenario_main() {
    if (Ty == 'c') go<uint8_t>(); else if (Ty == 'h') go<uint16_t>(); else if (Ty == 'u') go<uint32_t>(); else go<size_t>();
}
