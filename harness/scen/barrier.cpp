// barrier.  Program: "init|prologue ; ops of main|ops of thread 1|..."
// ops (words): aN add N (a1 uses increment()), d decrement, q count, w/m start a (native / macro) coroutine that awaits
//              the barrier, R the same, and it uses the barrier again once resumed, X the same, and it destroys the
//              barrier once resumed
#include "scen.h"
#include "macoro/barrier.h"
#include "macoro/task.h"
#include "macoro/macros.h"
using namespace macoro; using namespace sc;

static int g_init, g_calls, g_wids; static bool g_payload;
static std::vector<std::vector<std::string>> O; static std::vector<std::string> PRO; static std::vector<std::vector<int>> ID; static std::vector<int> PID;
void scenario_load(const std::string& p) {
    auto v = split(p, '|');
    g_init = atoi(v[0].c_str()); O.clear(); PRO.clear(); ID.clear(); PID.clear();
    for (size_t i = 1; i < v.size(); ++i) O.push_back(words(v[i]));
    std::vector<std::string> rest; bool semi = false;
    for (auto& w : O[0]) if (w == ";") semi = true; else (semi ? rest : PRO).push_back(w);
    if (!semi) rest.swap(PRO);
    O[0] = rest;
    // the prologue brings the count to what the threads take down again: then everything they did before is visible
    // to whoever finds the count at zero
    int total = g_init, dec = 0; g_payload = true; g_calls = g_wids = 0;
    auto id = [&](const std::string& w) { int r = 0; switch (w[0]) { case 'w': case 'm': case 'X': return g_wids++; case 'R': r = g_wids; g_wids += 2; return r; default: return g_calls++; } };
    for (auto& w : PRO) { PID.push_back(id(w)); if (w[0] == 'a') total += atoi(w.c_str() + 1); if (w[0] == 'd') --total; }
    for (auto& o : O) { ID.emplace_back(); for (auto& w : o) { ID.back().push_back(id(w)); if (w[0] == 'a' || w[0] == 'R') g_payload = false; if (w[0] == 'd') ++dec; } }
    if (dec != total || !total) g_payload = false;
    for (auto& w : PRO) if (w[0] == 'R') g_payload = false;
}
struct St { std::unique_ptr<barrier> b; int data[24] = {}; bool quiet = false; };
static void look(St& s) {
    if (!g_payload || s.quiet) return;
    int n = 0; for (int d : s.data) n += d;
    ev("{\"e\":\"Sum\",\"v\":%d}", n);
}
static void add(St& s, int c, int n) { int t = vrt::tid(); ev("{\"e\":\"AddInv\",\"c\":%d,\"t\":%d,\"n\":%d}", c, t, n); auto r = n == 1 ? s.b->increment() : s.b->add(n); ev("{\"e\":\"Ret\",\"c\":%d,\"v\":%lu}", c, (unsigned long)r); }
static void dec(St& s, int c) { int t = vrt::tid(); s.data[c] += 1; ev("{\"e\":\"DecInv\",\"c\":%d,\"t\":%d}", c, t); auto r = s.b->decrement(); ev("{\"e\":\"Ret\",\"c\":%d,\"v\":%lu}", c, (unsigned long)r); }
static void inv(int w) { ev("{\"e\":\"WaitInv\",\"w\":%d,\"t\":%d}", w, vrt::tid()); }
static void res(int w) { ev("{\"e\":\"Resume\",\"w\":%d,\"t\":%d}", w, vrt::tid()); }
static fire native(St& s, int w) { std::unique_ptr<int> own(new int(w)); inv(w); co_await *s.b; res(*own); look(s); }
static fire destroyer(St& s, int w) { std::unique_ptr<int> own(new int(w)); inv(w); co_await *s.b; res(*own); s.b.reset(); look(s); }
static fire again(St& s, int w) {
    std::unique_ptr<int> own(new int(w)); inv(w); co_await *s.b; res(*own);
    add(s, 12, 2); native(s, w + 1); ev("{\"e\":\"WaitRet\",\"w\":%d,\"t\":%d}", w + 1, vrt::tid());
    dec(s, 13); dec(s, 14);
}
static task<void> macro(St& s, int w) {
    MC_BEGIN(task<void>, &s, w, own = std::unique_ptr<int>(new int(w)));
    inv(w);
    MC_AWAIT(*s.b);
    res(*own); look(s);
    MC_END();
}
static fire run(task<void> t) { co_await std::move(t); }
void scenario_main() {
    auto sp = std::make_unique<St>(); St& s = *sp;
    s.b = std::make_unique<barrier>(g_init);
    if (!g_init) { barrier z; if (z.count() != 0) ev("{\"e\":\"BadInit\"}"); }
    ev("{\"e\":\"Cfg\",\"n\":%d,\"total\":%d}", g_init, [] { int n = 0; for (auto& o : O) for (auto& w : o) n += w[0] == 'd'; for (auto& w : PRO) n += w[0] == 'd'; return n; }());
    auto ops = [&](const std::vector<std::string>& o, const std::vector<int>& ids) {
        for (size_t i = 0; i < o.size(); ++i) {
            auto& w = o[i]; int c = ids[i], me = vrt::tid();
            switch (w[0]) {
            case 'a': add(s, c, atoi(w.c_str() + 1)); break;
            case 'd': dec(s, c); break;
            case 'q': { ev("{\"e\":\"CountInv\",\"c\":%d,\"t\":%d}", c, me); auto r = s.b->count(); if (!r) look(s); ev("{\"e\":\"Ret\",\"c\":%d,\"v\":%lu}", c, (unsigned long)r); break; }
            case 'w': native(s, c); break;
            case 'm': run(macro(s, c)); break;
            case 'R': again(s, c); break;
            case 'X': destroyer(s, c); break;
            }
            if (strchr("wmRX", w[0])) ev("{\"e\":\"WaitRet\",\"w\":%d,\"t\":%d}", c, me);
        }
    };
    ops(PRO, PID);
    threads((int)O.size(), [&](int t) { ops(O[t], ID[t]); });
    ev("{\"e\":\"Quiesce\",\"v\":%ld}", s.b ? (long)s.b->count() : 0L);
    s.quiet = true;
    for (int c = 15; s.b && s.b->count() && c < 21; ++c) dec(s, c);   // releases whoever still waits
    sp.reset();
    ev("{\"e\":\"End\"}");
}
