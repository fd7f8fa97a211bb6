// channel.  Program: "<m|s><capacity>|ops of thread 0|ops of thread 1|..."; every thread runs one coroutine.
// send ops: s push, assign, publish(); t push(T&&) on the channel itself; d the same by destructor of the wrapper; e through T&; m wrapper moved before use
//           a the same wrapper variable for two sends (assigning the second wrapper publishes the first item)
//           n a default constructed wrapper is assigned
//           x two pushes, published in reverse order; h push kept unpublished, p publish a kept one; c close
// receive ops: f front; r pop, take, publish(); R pop, read through ->, release by destructor; q pop, release without reading
//              M pop, wrapper moved and move-assigned before reading, release by assigning an empty one
//              g front (item modified in place), then pop; l pop until closed
#include "scen.h"
#include "macoro/type_traits.h"
#include "macoro/optional.h"
#include "macoro/channel.h"
using namespace macoro; using namespace sc;

static char Ki; static int Cap; static std::vector<std::string> O;
void scenario_load(const std::string& p) {
    auto v = split(p, '|'); O.clear();
    Ki = v[0][0]; Cap = atoi(v[0].c_str() + 1);
    for (size_t i = 1; i < v.size(); ++i) O.push_back(v[i]);
}
template<class CH> struct St {
    std::shared_ptr<CH> ch; std::unique_ptr<channel_sender<CH>> tx; std::unique_ptr<channel_receiver<CH>> rx; std::atomic<int> live{0};
    St() {
        bool direct = false; for (auto& o : O) if (o.find('t') != o.npos) direct = true;
        if (direct) { ch = std::make_shared<CH>(Cap); tx = std::make_unique<channel_sender<CH>>(ch); rx = std::make_unique<channel_receiver<CH>>(ch); return; }
        auto from = [&](auto&& p) { tx = std::make_unique<channel_sender<CH>>(std::move(p.first)); rx = std::make_unique<channel_receiver<CH>>(std::move(p.second)); };
        if constexpr (std::is_same_v<CH, mpsc::channel<Obj>>) from(mpsc::make_channel<Obj>(Cap)); else from(spsc::make_channel<Obj>(Cap));
    }
};
// a default constructed wrapper in memory that held something else before
template<class W> struct Fresh {
    alignas(W) unsigned char b[sizeof(W)]; W* w;
    Fresh(int fill) { memset(b, fill, sizeof b); unsigned char* p = b; asm volatile("" : "+r"(p) : : "memory"); w = new (p) W; }
    ~Fresh() { w->~W(); }
};
template<class CH> static fire prog(St<CH>& s, int t) {
    std::unique_ptr<int> own(new int(t));
    using PW = typename CH::push_wrapper;
    std::vector<std::pair<int, PW>> kept;
    int n = 0; bool closed = false;
    auto E = [](const char* e, int v) { ev("{\"e\":\"%s\",\"v\":%d}", e, v); };
    auto inv = [&](int v, int a) { ev("{\"e\":\"PushInv\",\"p\":%d,\"v\":%d,\"auto\":%s}", *own, v, a ? "true" : "false"); };
    for (size_t i = 0; i < O[t].size(); ++i) {
        char op = O[t][i]; int v = *own * 10 + ++n;
        switch (op) {
        case 's': case 'd': case 'e': case 'm': case 'h': {
            inv(v, 0);
            auto w = co_await s.tx->push();
            E("PushGot", v);
            if (op == 'e') { Obj& r = w; r = Obj(v); Obj& r2 = w; if (&r != &r2 || r2.get() != v) ev("{\"e\":\"SlotChanged\"}"); } else if (op != 'm') w = Obj(v);
            if (op == 'h') { kept.emplace_back(v, std::move(w)); break; }
            if (op == 'm') { PW x = std::move(w); x = Obj(v); E("PubInv", v); x.publish(); x.publish(); E("PubRet", v); break; }
            E("PubInv", v);
            if (op == 'd') { PW x = std::move(w); } else w.publish();
            E("PubRet", v); break; }
        case 'a': {
            int v2 = *own * 10 + ++n;
            inv(v, 0); auto w = co_await s.tx->push(); E("PushGot", v); w = Obj(v + 100); w = Obj(v);
            inv(v2, 0); auto w2 = co_await s.tx->push(); E("PushGot", v2); w2 = Obj(v2);
            E("PubInv", v); w = std::move(w2); E("PubRet", v); E("PubInv", v2); w.publish(); w2.publish(); E("PubRet", v2); break; }
        case 'n': {
            Fresh<PW> f(1); PW& w = *f.w;
            inv(v, 0); w = co_await s.tx->push(); E("PushGot", v); w = Obj(v);
            E("PubInv", v); w.publish(); E("PubRet", v); break; }
        case 'x': {
            int v2 = *own * 10 + ++n;
            inv(v, 0); auto w = co_await s.tx->push(); E("PushGot", v); w = Obj(v);
            inv(v2, 0); auto w2 = co_await s.tx->push(); E("PushGot", v2); w2 = Obj(v2);
            E("PubInv", v2); w2.publish(); E("PubRet", v2); E("PubInv", v); w.publish(); E("PubRet", v); break; }
        case 'p': { int k = kept.back().first; E("PubInv", k); kept.pop_back(); E("PubRet", k); break; }
        case 't': { inv(v, 1); co_await s.ch->push(Obj(v)); E("AutoRet", v); break; }
        case 'c': { inv(-1 - *own, 1); co_await s.tx->close(); E("AutoRet", -1 - *own); break; }
        case 'f': {
            E("RecvInv", 0);
            try { Obj& o = co_await s.rx->front(); E("Front", o.get()); } catch (channel_closed_exception&) { E("Closed", 0); } break; }
        case 'g': case 'r': case 'R': case 'M': case 'q': case 'l': {
            if (op == 'g') {
                E("RecvInv", 0);
                try { Obj& o = co_await s.rx->front(); E("Front", o.get()); o = Obj(o.get()); } catch (channel_closed_exception&) { E("Closed", 0); }
            }
            do {
                E("RecvInv", 0);
                try {
                    auto w = co_await s.rx->pop();
                    if (op == 'R') { E("Pop", w->get()); auto y = std::move(w); E("RelInv", 0); }
                    else if (op == 'M') {
                        using RW = typename CH::pop_wrapper;
                        RW y = std::move(w); Fresh<RW> f(0); RW& z = *f.w; z = std::move(y); w.publish(); y.publish();
                        E("Pop", (*z).get()); E("RelInv", 0); z = RW(); }
                    else if (op == 'q') { E("PopBlind", 0); E("RelInv", 0); w.publish(); }
                    else { Obj o = *w; E("Pop", o.get()); E("RelInv", 0); w.publish(); w.publish(); }
                } catch (channel_closed_exception&) { E("Closed", 0); closed = true; continue; }
                E("RelRet", 0);
            } while (op == 'l' && !closed && ++n < 12);
            break; }
        }
    }
    s.live--;
}
template<class CH> static void go() {
    auto up = std::make_unique<St<CH>>(); St<CH>& s = *up;
    using TX = channel_sender<CH>; using RX = channel_receiver<CH>;
    // one endpoint each, except for the senders of a multi-producer channel
    ev("{\"e\":\"Cfg\",\"kind\":\"%c\",\"n\":%d,\"txcopy\":%s,\"rxcopy\":%s,\"move\":%s}", Ki, Cap, std::is_copy_constructible_v<TX> ? "true" : "false",
        std::is_copy_constructible_v<RX> || std::is_copy_assignable_v<RX> || std::is_copy_constructible_v<typename CH::pop_wrapper> || std::is_copy_constructible_v<typename CH::push_wrapper> ? "true" : "false",
        std::is_move_constructible_v<TX> && std::is_move_assignable_v<TX> && std::is_move_constructible_v<RX> && std::is_move_assignable_v<RX> && std::is_default_constructible_v<TX> && std::is_default_constructible_v<RX> ? "true" : "false");
    { TX a; a = std::move(*s.tx); *s.tx = std::move(a); if constexpr (std::is_copy_constructible_v<TX>) { TX c(*s.tx); TX d(std::move(c)); *s.tx = std::move(d); } RX b; b = std::move(*s.rx); *s.rx = std::move(b); }
    s.live = (int)O.size();
    threads((int)O.size(), [&](int t) { prog(s, t); });
    ev("{\"e\":\"Quiesce\"}");
    if (s.live) { vrt::forgive_leaks(); vrt::stop_run(); return; }
    up.reset();
    ev("{\"e\":\"End\"}");
}
void scenario_main() { if (Ki == 'm') go<mpsc::channel<Obj>>(); else go<spsc::channel<Obj>>(); }
