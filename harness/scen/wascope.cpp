// when_all_scope.  Program: "kinds|body|ops of thread 1|..."
// kinds: v value, e throws, n void; upper case: finishes synchronously
// body words: aK spawn child K, pK the same written child | scoped(), dK drop its handle, wK await it, gN await body gate N, t throw, r return
// threads: oK open the gate of child K, bN open body gate N
#include "scen.h"
#include "macoro/when_all_scope.h"
#include "macoro/task.h"
using namespace macoro; using namespace sc;
struct Kind { char c; bool gated; };
static std::vector<Kind> K; static std::vector<std::vector<std::string>> O; static std::vector<std::string> B;
void scenario_load(const std::string& p) {
    auto v = split(p, '|'); K.clear(); O.clear(); O.emplace_back();
    for (char c : v[0]) K.push_back({(char)tolower(c), islower(c) != 0});
    B = words(v[1]);
    for (size_t i = 2; i < v.size(); ++i) O.push_back(words(v[i]));
}
template<class E> auto& list_of(E& e) { if constexpr (requires { e.exceptions(); }) return e.exceptions(); else return e.m_exceptions; }
struct St { Gate g[6], b[4]; int data[6] = {}; int bodyData = 0; bool bodyMoved = B.size() % 2; };
static task<Obj> child(St& s, int k) {
    Local l("BodyOut", k);
    ev("{\"e\":\"BodyIn\",\"k\":%d}", k);
    if (K[k].gated) co_await s.g[k];
    s.data[k] = k + 1;
    if (K[k].c == 'e' && k % 2) co_return Bomb{k};
    if (K[k].c == 'e') throw Err(k);
    co_return Obj(k);
}
static when_all_scope body(St& s) {
    std::optional<scoped_task<Obj>> h[6];
    Local l("ScopeBodyOut", 0);
    ev("{\"e\":\"ScopeBodyIn\"}");
    for (auto& w : B) {
        int k = w.size() > 1 ? w[1] - '0' : 0;
        if (w[0] == 'p') { ev("{\"e\":\"AddInv\",\"k\":%d}", k); h[k].emplace(co_await (child(s, k) | scoped())); ev("{\"e\":\"AddRet\",\"k\":%d}", k); }
        else if (w[0] == 'a') { ev("{\"e\":\"AddInv\",\"k\":%d}", k); h[k].emplace(co_await scoped(child(s, k))); ev("{\"e\":\"AddRet\",\"k\":%d}", k); }
        else if (w[0] == 'd') { ev("{\"e\":\"DropInv\",\"k\":%d}", k); h[k].reset(); ev("{\"e\":\"DropRet\",\"k\":%d}", k); }
        else if (w[0] == 'w') {
            ev("{\"e\":\"AwaitInv\",\"k\":%d}", k);
            try { Obj o = co_await std::move(*h[k]); ev("{\"e\":\"AwaitRet\",\"k\":%d,\"v\":%d,\"d\":%d}", k, o.get(), s.data[k]); }
            catch (Err& e) { ev("{\"e\":\"AwaitExc\",\"k\":%d,\"v\":%d,\"d\":%d}", k, e.v, s.data[k]); }
        }
        else if (w[0] == 'g') co_await s.b[k];
        else if (w[0] == 't') { s.bodyData = 5; { ev("{\"e\":\"BodyThrow\"}"); throw Err(50); }; }
        else if (w[0] == 'r') { s.bodyData = 5; co_return; }
    }
    s.bodyData = 5;
}
static task<void> outer(St& s) {
    Local l("OuterOut", 0);
    std::string ex;
    { auto never = body(s); auto moved = std::move(never); }      // starts when it is awaited, not before
    ev("{\"e\":\"ScopeInv\"}");
    try { if (s.bodyMoved) { auto b = body(s); auto c = std::move(b); co_await c; } else co_await body(s); }
    catch (async_scope_exception& e) {
        for (auto& p : list_of(e)) { try { std::rethrow_exception(p); } catch (Err& x) { ex += (ex.empty() ? "" : ",") + std::to_string(x.v); } catch (...) { ex += (ex.empty() ? "" : ",") + std::string("99"); } }
    }
    ev("{\"e\":\"ScopeRet\",\"ex\":[%s],\"d\":%d,\"thrown\":%s}", ex.c_str(), s.bodyData, ex.empty() ? "false" : "true");
}
static fire run(task<void> t) { co_await std::move(t); ev("{\"e\":\"OuterRet\"}"); }
void scenario_main() {
    auto sp = std::make_unique<St>(); St& s = *sp;
    std::string kinds; for (auto& k : K) kinds += (kinds.empty() ? "\"" : ",\"") + std::string(1, k.c) + "\"";
    ev("{\"e\":\"Cfg\",\"kinds\":[%s]}", kinds.c_str());
    threads((int)O.size(), [&](int t) {
        if (t == 0) { run(outer(s)); return; }
        for (auto& w : O[t]) { int k = w[1] - '0'; if (w[0] == 'o') s.g[k].open(); else s.b[k].open(); }
    });
    ev("{\"e\":\"Quiesce\"}");
    sp.reset();
    ev("{\"e\":\"End\"}");
}
