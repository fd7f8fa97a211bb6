// stop_source / stop_token / stop_callback.  Program: "behaviours|ops of main (prologue ; rest)|ops of thread 1|..."
// behaviour: I:<dJ deregister J><rJ register J><q><s request stop again>... what callback I does when it runs
// ops: rI register callback I, dI deregister, RI-J / DI-J ranges, s request stop, q stop_requested, Q throw_if_stop_requested (own) , p stop_possible, P stop_possible of the source,
//      S drop the thread's source, M move/copy-assign it around, k copy+drop tokens, n token without state
#include "scen.h"
#include "macoro/stop.h"
#ifndef MACORO_HAS_STD_STOP_TOKEN
#include "macoro/detail/operation_cancelled.h"
#endif
using namespace macoro; using namespace sc;

struct Op { char c; int a, b; };
static std::vector<Op> parse(const std::string& s) {
    std::vector<Op> v;
    for (auto& w : words(s)) {
        Op o{w[0], -1, -1};
        if (w.size() > 1) { size_t d = w.find('-'); o.a = atoi(w.c_str() + 1); o.b = d == std::string::npos ? o.a : atoi(w.c_str() + d + 1); }
        v.push_back(o);
    }
    return v;
}
static std::vector<std::vector<Op>> O; static std::vector<Op> PRO; static std::vector<std::vector<Op>> B(64); static int g_sets;
void scenario_load(const std::string& p) {
    auto v = split(p, '|'); O.clear(); PRO.clear(); for (auto& b : B) b.clear(); g_sets = 0;
    for (auto& w : words(v[0])) { auto c = split(w, ':'); std::string s; for (char x : c[1]) { if (isalpha(x)) s += ' '; s += x; } B[atoi(c[0].c_str())] = parse(s); }
    for (size_t i = 1; i < v.size(); ++i) {
        if (i == 1) { auto h = split(v[1], ';'); if (h.size() > 1) { PRO = parse(h[0]); O.push_back(parse(h[1])); continue; } }
        O.push_back(parse(v[i]));
    }
    for (auto& t : O) for (auto& o : t) if (o.c == 's') ++g_sets;
    for (auto& o : PRO) if (o.c == 's') ++g_sets;
    for (auto& b : B) for (auto& o : b) if (o.c == 's') g_sets = 9;
}
struct St {
    std::vector<std::unique_ptr<stop_source>> src; stop_token tok;
    std::unique_ptr<stop_callback> cb[64]; int ran[64] = {}; int data = 0;
};
static void T(const char* e) { ev("{\"e\":\"%s\",\"t\":%d}", e, vrt::tid()); }
static void K(const char* e, int i) { ev("{\"e\":\"%s\",\"k\":%d,\"t\":%d}", e, i, vrt::tid()); }
static void BV(const char* e, bool b) { ev("{\"e\":\"%s\",\"t\":%d,\"v\":%s}", e, vrt::tid(), b ? "true" : "false"); }
static void exec(St& s, const Op& o, int t, stop_token& tok);
static void callback(St& s, int i) {
    K("CbIn", i);
    if (g_sets == 1 && s.data != 7) ev("{\"e\":\"BadPayload\"}");
    vrt::point();
    s.ran[i]++;
    stop_token tok = s.tok;
    for (auto& o : B[i]) exec(s, o, -1, tok);
    K("CbOut", i);
}
static void reg(St& s, int i, const stop_token& tok) {
    K("RegInv", i);
    auto c = std::make_unique<stop_callback>(tok, [&s, i] { callback(s, i); });
    K("RegRet", i);
    s.cb[i] = std::move(c);
}
static void dereg(St& s, int i) {
    if (!s.cb[i]) return;
    K("DerInv", i);
    { auto c = std::move(s.cb[i]); }
    K("DerRet", i);
    if (s.ran[i] > 1) K("RanTwice", i);
}
static void exec(St& s, const Op& o, int t, stop_token& tok) {
    switch (o.c) {
    case 'r': reg(s, o.a, tok); break;
    case 'd': dereg(s, o.a); break;
    case 'R': for (int i = o.a; i <= o.b; ++i) reg(s, i, tok); break;
    case 'D': for (int i = o.a; i <= o.b; ++i) dereg(s, i); break;
    case 's': {
        stop_source* src = nullptr; for (auto& x : s.src) if (t >= 0 && &x == &s.src[t]) src = x.get(); if (t < 0) src = s.src.back().get();
        if (g_sets == 1) s.data = 7;
        T("ReqInv");
#ifdef MACORO_HAS_STD_STOP_TOKEN
        bool b = src->request_stop(); ev("{\"e\":\"ReqRet\",\"t\":%d,\"w\":\"%s\"}", vrt::tid(), b ? "y" : "n");
#else
        src->request_stop(); ev("{\"e\":\"ReqRet\",\"t\":%d,\"w\":\"?\"}", vrt::tid());
#endif
        break; }
    case 'q': { T("QInv"); bool b = tok.stop_requested(); BV("QRet", b); if (b && g_sets == 1 && s.data != 7) ev("{\"e\":\"BadPayload\"}"); break; }
    case 'Q': { T("QInv"); bool b = false;
#ifdef MACORO_HAS_STD_STOP_TOKEN
        b = s.src[t]->stop_requested();
#else
        if (tok.stop_requested() && !s.src[t]->stop_requested()) T("SourceNotPossible");
        try { tok.throw_if_stop_requested(); } catch (operation_cancelled&) { b = true; }
#endif
        BV("QRet", b); break; }
    case 'p': { T("PInv"); bool b = tok.stop_possible(); BV("PRet", b); break; }
    case 'P': { bool b = s.src[t]->stop_possible() && !stop_token{}.stop_possible() && !stop_token{}.stop_requested(); if (!b) T("SourceNotPossible"); break; }
    case 'S': ev("{\"e\":\"SrcDropInv\",\"k\":%d}", t); s.src[t].reset(); ev("{\"e\":\"SrcDropRet\",\"k\":%d}", t); break;
    case 'M': { stop_source a(*s.src[t]); stop_source b(std::move(a)); stop_source c; c = b; stop_source d; d = std::move(c); d = d; *s.src[t] = d; if (!(d.get_token().stop_possible())) T("SourceNotPossible");
        // the only reference to its state, assigned to itself
        stop_source z; auto& zr = z; z = zr; stop_token y = z.get_token(); if (!y.stop_possible() || y.stop_requested()) T("SourceNotPossible"); z.request_stop(); if (!y.stop_requested() || !z.stop_requested()) T("SourceNotPossible");
        // sources and tokens that hold a state are given another one
        stop_source f; if (f.stop_requested()) T("SourceNotPossible"); f = z; if (!f.stop_requested()) T("SourceNotPossible"); stop_source g; g = std::move(f); if (!g.stop_requested()) T("SourceNotPossible"); break; }
    case 'k': { stop_token a(tok); stop_token b(std::move(a)); stop_token c; c = b; tok = c; stop_token d; d = std::move(c); std::swap(d, b); d = d; a = std::move(d);
        stop_token y; { stop_source z; y = z.get_token(); z.request_stop(); } auto& yr = y; y = yr; if (!y.stop_requested()) T("SourceNotPossible");
        stop_source f; stop_token g = f.get_token(), h; h = g; if (!h.stop_possible() || h.stop_requested()) T("SourceNotPossible"); h = y; if (!h.stop_requested()) T("SourceNotPossible"); g = std::move(h); if (!g.stop_requested()) T("SourceNotPossible"); swap(g, y); y = stop_token{}; if (y.stop_possible() || y.stop_requested()) T("SourceNotPossible"); break; }
    case 'n': { int ran = 0; stop_callback c(stop_token{}, [&] { ++ran; }); if (ran) T("RanWithoutState"); break; }
    }
}
void scenario_main() {
    auto sp = std::make_unique<St>(); St& s = *sp;
    int n = (int)O.size();
    stop_source first;
    for (int i = 0; i < n; ++i) s.src.push_back(std::make_unique<stop_source>(first));
    s.src.push_back(std::make_unique<stop_source>(first));      // for the callbacks
    s.tok = first.get_token();
    bool noreq = true; for (auto& b : B) for (auto& o : b) if (o.c == 's') noreq = false;
    if (noreq) s.src.back().reset();
    { stop_source x(std::move(first)); }
    ev("{\"e\":\"Cfg\",\"srcs\":%d}", noreq ? n : n + 1);
    for (auto& o : PRO) exec(s, o, 0, s.tok);
    threads(n, [&](int t) { stop_token tok = s.tok; for (auto& o : O[t]) exec(s, o, t, tok); });
    ev("{\"e\":\"Quiesce\"}");
    for (int i = 0; i < 64; ++i) dereg(s, i);
    s.src.clear();
    sp.reset();
    ev("{\"e\":\"End\"}");
}
