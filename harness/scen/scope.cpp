// async_scope / scoped_task.  Program: "kinds|ops of main|ops of thread 1|..."
// kinds: one letter per task: v value, e throws, n void, u void and throws, r reference, s reference and throws, i throws an int, cK adds task K (digit follows) before its gate, lK after it
//        upper case = not gated (finishes synchronously)
// ops (words): aK add, dK drop handle, xK drop it by assigning an empty one, wK await handle, mK move handle, oK open gate, j join, J join again later,
//              xK await handle in another thread is expressed by using wK in that thread for a task added by main
#include "scen.h"
#include "macoro/async_scope.h"
#include "macoro/task.h"
using namespace macoro; using namespace sc;

struct Kind { char c; int child; bool gated; bool late; };
static std::vector<Kind> K; static std::vector<std::vector<std::string>> O; static std::vector<std::string> PRO;
void scenario_load(const std::string& p) {
    auto v = split(p, '|');
    K.clear(); O.clear();
    for (size_t i = 0; i < v[0].size(); ++i) {
        char c = v[0][i]; Kind k{(char)tolower(c), -1, islower(c) != 0, false};
        if (k.c == 'l') { k.late = true; k.c = 'c'; }
        if (k.c == 'c') k.child = v[0][++i] - '0';
        K.push_back(k);
    }
    for (size_t i = 1; i < v.size(); ++i) O.push_back(words(v[i]));
    // ops of main before ';' are a prologue that runs before the threads exist
    PRO.clear(); std::vector<std::string> rest; bool semi = false;
    for (auto& w : O[0]) if (w == ";") semi = true; else (semi ? rest : PRO).push_back(w);
    if (!semi) rest.swap(PRO);
    O[0] = rest;
}
struct St {
    Gate g[6]; int data[6] = {}; int slot[6] = {0, 1, 2, 3, 4, 5};
    std::optional<scoped_task<Obj>> h[6]; std::optional<scoped_task<void>> hv[6]; std::optional<scoped_task<int&>> hr[6];
    std::unique_ptr<async_scope> scope = std::make_unique<async_scope>();
};
static void add(St& s, int k);
static void fail(int k) { if (K[k].c == 'i') throw k; if (strchr("eus", K[k].c)) throw Err(k); }
template<class T> static task<T> body(St& s, int k) {
    Local l("BodyOut", k);
    ev("{\"e\":\"BodyIn\",\"k\":%d}", k);
    if (K[k].child >= 0 && !K[k].late) add(s, K[k].child);
    if (K[k].gated) co_await s.g[k];
    if (K[k].child >= 0 && K[k].late) add(s, K[k].child);
    s.data[k] = k + 1;
    if constexpr (std::is_same_v<T, Obj>) if (K[k].c == 'e' && k % 2) co_return Bomb{k};
    fail(k);
    if constexpr (std::is_same_v<T, int&>) co_return s.slot[k];
    else if constexpr (!std::is_void_v<T>) co_return T(k);
}
static bool isv(int k) { return K[k].c == 'n' || K[k].c == 'u'; }
static bool isr(int k) { return K[k].c == 'r' || K[k].c == 's'; }
template<class F> static void visit(St& s, int k, F f) { if (isv(k)) f(s.hv[k]); else if (isr(k)) f(s.hr[k]); else f(s.h[k]); }
static void add(St& s, int k) {
    ev("{\"e\":\"AddInv\",\"k\":%d}", k);
    if (isv(k)) s.hv[k].emplace(s.scope->add(body<void>(s, k)));
    else if (isr(k)) s.hr[k].emplace(s.scope->add(body<int&>(s, k)));
    else s.h[k].emplace(s.scope->add(body<Obj>(s, k)));
    ev("{\"e\":\"AddRet\",\"k\":%d}", k);
}
template<class T> static fire waiter(St& s, int k, scoped_task<T> t) {
    std::unique_ptr<int> own(new int(k));
    try {
        int v = k;
        if constexpr (std::is_void_v<T>) co_await std::move(t);
        else if constexpr (std::is_same_v<T, int&>) { int& r = co_await std::move(t); v = &r == &s.slot[k] ? r : -2; }
        else { T o = co_await std::move(t); v = o.get(); }
        ev("{\"e\":\"AwaitRet\",\"k\":%d,\"v\":%d,\"d\":%d}", *own, v, s.data[k]);
    } catch (Err& e) { ev("{\"e\":\"AwaitExc\",\"k\":%d,\"v\":%d,\"d\":%d}", *own, e.v, s.data[k]); }
    catch (int e) { ev("{\"e\":\"AwaitExc\",\"k\":%d,\"v\":%d,\"d\":%d}", *own, e, s.data[k]); }
}
template<class E> auto& list_of(E& e) { if constexpr (requires { e.exceptions(); }) return e.exceptions(); else return e.m_exceptions; }
// every collected exception is named by what()
template<class E> void check_what(E& e) {
    size_t n = list_of(e).size(); std::string w = static_cast<std::exception&>(e).what();
    for (size_t i = 0; i < n; ++i) {
        std::string x = "unknown exception";
        try { std::rethrow_exception(list_of(e)[i]); } catch (Err& b) { x = b.what(); } catch (int) {} catch (...) { x = "?"; }
        if (w.find(std::to_string(i) + ": " + x) == w.npos) { ev("{\"e\":\"BadPayload\"}"); return; }
    }
    if (w != static_cast<std::exception&>(e).what()) ev("{\"e\":\"BadPayload\"}");
}
static task<void> joiner(St& s, int id) {
    std::unique_ptr<int> own(new int(id));
    std::string ex;
    try { if (id & 1) co_await s.scope->join(); else co_await *s.scope; }
    catch (async_scope_exception& e) {
        check_what(e);
        for (auto& p : list_of(e)) { if (ex.size()) ex += ","; try { std::rethrow_exception(p); } catch (Err& x) { ex += std::to_string(x.v); } catch (int x) { ex += std::to_string(x); } catch (...) { ex += "99"; } }
    }
    ev("{\"e\":\"JoinRet\",\"j\":%d,\"ex\":[%s]}", *own, ex.c_str());
}
// giving up a handle by assigning an empty one to it
template<class H> static H assigned(H& h) { H e; h = std::move(e); return H{}; }
template<class H> static void self(H& h) { H& o = h; h = std::move(o); }
static fire run(task<void> t) { co_await std::move(t); }
void scenario_main() {
    auto sp = std::make_unique<St>(); St& s = *sp;
    int nj = 0;
    std::string kinds; for (auto& k : K) kinds += (kinds.empty() ? "\"" : ",\"") + std::string(1, strchr("usi", k.c) ? 'e' : k.c == 'r' ? 'v' : k.c) + "\"";
    ev("{\"e\":\"Cfg\",\"kinds\":[%s]}", kinds.c_str());
    auto runops = [&](const std::vector<std::string>& ops) {
        for (auto& w : ops) {
            int k = w.size() > 1 ? w[1] - '0' : -1;
            switch (w[0]) {
            case 'a': add(s, k); break;
            case 'd': ev("{\"e\":\"DropInv\",\"k\":%d}", k); visit(s, k, [](auto& h) { h.reset(); }); ev("{\"e\":\"DropRet\",\"k\":%d}", k); break;
            case 'x': ev("{\"e\":\"DropInv\",\"k\":%d}", k); visit(s, k, [&](auto& h) { h.emplace(assigned(*h)); }); ev("{\"e\":\"DropRet\",\"k\":%d}", k); visit(s, k, [](auto& h) { h.reset(); }); break;
            case 'm': visit(s, k, [](auto& h) { auto x = std::move(*h); std::decay_t<decltype(x)> y; y = std::move(x); h.emplace(std::move(y)); self(*h); if (x.is_ready() || y.is_ready()) ev("{\"e\":\"BadPayload\"}"); }); break;
            case 'q': visit(s, k, [&](auto& h) { vrt::fence(); bool b = h->is_ready(); ev("{\"e\":\"Ready\",\"k\":%d,\"v\":%s}", k, b ? "true" : "false"); }); break;
            case 'w': ev("{\"e\":\"AwaitInv\",\"k\":%d}", k); visit(s, k, [&](auto& h) { auto x = std::move(*h); h.reset(); waiter(s, k, std::move(x)); }); break;
            case 'o': s.g[k].open(); break;
            case 'j': { int id = nj++; ev("{\"e\":\"JoinInv\",\"j\":%d}", id); run(joiner(s, id)); break; }
            }
        }
    };
    runops(PRO);
    threads((int)O.size(), [&](int t) { runops(O[t]); });
    ev("{\"e\":\"Quiesce\"}");
    // whoever still is held is dropped; a last join reports what is left
    for (int k = 0; k < (int)K.size(); ++k) visit(s, k, [&](auto& h) { if (!h) return; bool b = h->is_ready(); ev("{\"e\":\"ReadyEnd\",\"k\":%d,\"v\":%s}", k, b ? "true" : "false"); ev("{\"e\":\"DropInv\",\"k\":%d}", k); h.reset(); ev("{\"e\":\"DropRet\",\"k\":%d}", k); });
    ev("{\"e\":\"JoinInv\",\"j\":%d}", nj); run(joiner(s, nj));
    ev("{\"e\":\"Quiesce\"}");
    s.scope.reset(); sp.reset();
    ev("{\"e\":\"End\"}");
}
