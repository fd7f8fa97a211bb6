// result<T, E>: sequences of constructions, assignments, accesses, comparisons, awaits and wraps.
// Program: "TE op op ..."   T: i int, c copyable object, m move-only object, d copyable without default, v void.  E: x exception_ptr, i int, c copyable object
// ops on slots (s, t): ds default; osFp / esFp construct from Ok/Err, OsFp / EsFp assign; F: c const lvalue, l lvalue, m rvalue
//   kst copy construct s from t, Kst copy assign, mst move construct, Mst move assign, qs queries, vsF value (m mutable, c const, s *, k const *), rsF error (m, c)
//   asFp value_or, bsFp error_or (F: r rvalue, l lvalue, c const), ssp write through value(), Ssp write through error(), =soFp/=seFp, !soFp/!seFp compare
//   wst s := coroutine { co_return Ok(co_await slot t) }, Wskp s := wrapped await (k: t task, T lvalue task, p pipe, x throwing task, X throwing lvalue, a awaiter, A lvalue awaiter, g/G suspending, y throwing awaiter; r reference, z MC_AWAIT_TRY, Z throwing)
//   Fskp / fskp s := result coroutine (native / macro; k: o co_return Ok(rvalue), l Ok(lvalue), e Err, t throw, r a result object, w / W after awaiting another result type holding a value / an error)
//   OsDp / EsDp, D in C L M: assign an Ok/Err of a related type;  =s..  forms C L M compare with one
//   cs drop slot s, ~sF assign the stored value / error to the slot it is stored in (F: c l m), ^s the stored value as an error or the error as a value
//   T before an operation: the first copy it makes throws
#include "scen.h"
#include "macoro/task.h"
#include "macoro/wrap.h"
#include "macoro/result.h"
#include "macoro/sync_wait.h"
#include "macoro/macros.h"
namespace mc = macoro; using sc::Gate; using vrt::ev;

static bool armed = false;   // the next copy throws
static int cp(int v) { if (std::exchange(armed, false)) throw sc::Err(77); return v; }
struct Cp { int* p; Cp() : p(new int(0)) {} explicit Cp(int v) : p(new int(v)) {} Cp(const Cp& o) : p(nullptr) { int v = cp(o.get()); p = new int(v); } Cp(Cp&& o) noexcept : p(std::exchange(o.p, nullptr)) {}
    Cp& operator=(const Cp& o) { if (this != &o) { int v = cp(o.get()); delete p; p = new int(v); } return *this; } Cp& operator=(Cp&& o) noexcept { if (this != &o) { delete p; p = std::exchange(o.p, nullptr); } return *this; }
    ~Cp() { delete p; } int get() const { return p ? *p : -1; } bool operator==(const Cp& o) const { return get() == o.get(); } };
struct Nd : Cp { Nd() = delete; explicit Nd(int v) : Cp(v) {} };
struct Mv : sc::Obj { using sc::Obj::Obj; bool operator==(const Mv& o) const { return get() == o.get(); } };
using X = std::exception_ptr;
template<class T> static T mk(int p) { if constexpr (std::is_same_v<T, X>) return std::make_exception_ptr(sc::Err(p)); else return T(p); }
template<class T> static int rd(const T& t) { if constexpr (std::is_same_v<T, X>) { if (!t) return -1; try { std::rethrow_exception(t); } catch (sc::Err& e) { return e.v; } catch (...) { return -7; } } else if constexpr (std::is_arithmetic_v<T>) return (int)t; else return t.get(); }
template<class T> static void wr(T& t, int p) { t = mk<T>(p); }
static std::vector<std::string> W;
void scenario_load(const std::string& p) { W = sc::words(p); }
static const char* b(bool x) { return x ? "true" : "false"; }

template<class T> struct Aw { int p; Gate* g; bool thr; bool await_ready() { return !g; } bool await_suspend(std::coroutine_handle<> h) { return g->await_suspend(h); }
    T await_resume() { if (thr) throw sc::Err(p); if constexpr (!std::is_void_v<T>) return mk<T>(p); } };
template<class T> static mc::task<T> tsk(int p, bool thr) { if (thr) throw sc::Err(p); if constexpr (std::is_void_v<T>) co_return; else co_return mk<T>(p); }
template<class T> static mc::task<T&> rtsk(T* p) { co_return *p; }

template<class T, class E> struct M {
    using R = mc::result<T, E>; static constexpr bool V = std::is_void_v<T>; using TT = std::conditional_t<V, int, T>;
    static constexpr bool CT = std::is_copy_constructible_v<TT>, CE = std::is_copy_constructible_v<E>, C = CT && CE;
    static constexpr bool mT = !V && !std::is_same_v<T, int>, mE = !std::is_same_v<E, int>;
    std::optional<R> s[4];
    void err(const char* op, int i, std::exception_ptr x) {
        try { std::rethrow_exception(x); } catch (sc::Err& e) { got(op, i, "err", e.v); } catch (int e) { got(op, i, "err", e); } catch (E& e) { got(op, i, "err", rd(e)); }
        catch (std::runtime_error&) { got(op, i, "bad", 0); } catch (...) { got(op, i, "other", 0); }
    }
    void got(const char* op, int i, const char* o, int p) { ev("{\"e\":\"%s\",\"s\":%d,\"o\":\"%s\",\"p\":%d}", op, i, o, p); }
    // how the source of a construction or assignment looks afterwards
    template<bool ok, class S, class F> void tag(const char* op, int i, char f, int p, F use) {
        if (!std::is_copy_constructible_v<S>) f = 'm';
        S src = mk<S>(p); const S& c = src;
        if constexpr (ok) { if (f == 'c') { if constexpr (std::is_copy_constructible_v<S>) use(mc::Ok(c)); } else if (f == 'l') { if constexpr (std::is_copy_constructible_v<S>) use(mc::Ok(src)); } else use(mc::Ok(std::move(src))); }
        else { if (f == 'c') { if constexpr (std::is_copy_constructible_v<S>) use(mc::Err(c)); } else if (f == 'l') { if constexpr (std::is_copy_constructible_v<S>) use(mc::Err(src)); } else use(mc::Err(std::move(src))); }
        ev("{\"e\":\"%s\",\"s\":%d,\"ok\":%s,\"p\":%d,\"src\":%d}", op, i, b(ok), p, f == 'm' ? p : rd(src));
    }
    template<bool ok, class S> using Rel = std::conditional_t<std::is_same_v<S, int>, long, int>;
    template<bool ok, class S, class F> void rel(const char* op, int i, char f, int p, F use) {
        if constexpr (std::is_same_v<S, Mv> || std::is_same_v<S, X>) tag<ok, S>(op, i, tolower(f), p, use); else tag<ok, Rel<ok, S>>(op, i, tolower(f), p, use);
    }
    static R plain(char k, int p) { if (k == 'e') return mc::Err(mk<E>(p)); if constexpr (V) return mc::Ok(); else return mc::Ok(mk<T>(p)); }
    using R2 = mc::result<std::conditional_t<V, long, void>, E>; using R3 = mc::result<long, E>;
    static R2 other(bool thr, int p) { if (thr) return mc::Err(mk<E>(p)); if constexpr (V) return mc::Ok(long(p)); else return mc::Ok(); }
    static R3 other3(bool thr, int p) { if (thr) return mc::Err(mk<E>(p)); return mc::Ok(long(p)); }
    static R native(char k, int p) {
        sc::Obj local(3);
        switch (k) {
        case 't': throw sc::Err(p);
        case 'e': co_return mc::Err(mk<E>(p));
        case 'E': { const E e = mk<E>(p); co_return mc::Err(e); }
        case 'r': co_return plain('o', p);
        case 'R': co_return plain('e', p);
        case 'w': case 'W': co_await other(k == 'W', p); { R3 x = other3(k == 'W', p); long got = co_await x; p = (int)got; } break;
        }
        if constexpr (V) co_return mc::Ok(); else if constexpr (CT) { T t = mk<T>(p); if (k == 'l') co_return mc::Ok(t); co_return mc::Ok(std::move(t)); } else co_return mc::Ok(mk<T>(p));
    }
    static R macro(char k, int p) {
        MC_BEGIN(R, k, p, local = sc::Obj(3), got = long(0), x = R3(mc::Ok(0l)));
        if (k == 't') throw sc::Err(p);
        if (k == 'e') MC_RETURN(mc::Err(mk<E>(p)));
        if (k == 'E') MC_RETURN(mc::Err(static_cast<const E&>(mk<E>(p))));
        if (k == 'r') MC_RETURN(plain('o', p));
        if (k == 'R') MC_RETURN(plain('e', p));
        if (k == 'w' || k == 'W') {
            MC_AWAIT(other(k == 'W', p));
            x = other3(k == 'W', p);
            MC_AWAIT_SET(got, x);
            p = (int)got;
        }
        if constexpr (V) MC_RETURN(mc::Ok()); else MC_RETURN(mc::Ok(mk<T>(p)));
        MC_END();
    }
    R coawait(R* r) { if constexpr (V) { co_await *r; co_return mc::Ok(); } else { T t = co_await std::move(*r); co_return mc::Ok(std::move(t)); } }
    R coawaitL(R* r) { if constexpr (V) { co_await *r; co_return mc::Ok(); } else { T t = co_await *r; co_return mc::Ok(std::move(t)); } }
    // wraps (E is exception_ptr)
    mc::task<void> wrapop(int i, char k, int p, Gate* g) {
        if constexpr (std::is_same_v<E, X>) {
            bool thr = strchr("xXyYZ", k);
            switch (k) {
            case 't': case 'x': s[i].emplace(co_await mc::wrap(tsk<T>(p, thr))); break;
            case 'p': s[i].emplace(co_await (tsk<T>(p, thr) | mc::wrap())); break;
            case 'T': case 'X': { auto t = tsk<T>(p, thr); if constexpr (V) s[i].emplace(co_await mc::wrap(t)); else if constexpr (CT) { auto r = co_await mc::wrap(t); ev("{\"e\":\"Wrapped\",\"ok\":%s,\"p\":%d,\"wok\":%s,\"wp\":%d}", b(r.has_value()), r.has_value() ? rd(r.value()) : rd(r.error()), b(!thr), V && !thr ? 0 : p); auto r2 = co_await mc::wrap(t); if (r2.has_value()) s[i].emplace(mc::Ok(std::move(r2.value()))); else s[i].emplace(mc::Err(std::move(r2.error()))); } else s[i].emplace(co_await mc::wrap(std::move(t))); break; }
            case 'a': case 'y': s[i].emplace(co_await mc::wrap(Aw<T>{p, nullptr, thr})); break;
            case 'g': case 'Y': s[i].emplace(co_await mc::wrap(Aw<T>{p, g, thr})); break;
            case 'A': case 'G': { Aw<T> a{p, k == 'G' ? g : nullptr, thr}; s[i].emplace(co_await (a | mc::wrap())); break; }
            case 'r': if constexpr (!V && CT) { T obj = mk<T>(p); auto r = co_await mc::wrap(rtsk<T>(&obj)); s[i].emplace(mc::Ok(std::move(r.value()))); ev("{\"e\":\"Referent\",\"p\":%d,\"v\":%d}", p, rd(obj)); break; } else { s[i].emplace(co_await mc::wrap(tsk<T>(p, false))); break; }
            case 'w': { s[i].emplace(mc::Err(mk<E>(0))); auto rr = co_await mc::wrap(mc::wrap(tsk<T>(p, false))); if (rr.has_value()) s[i].emplace(std::move(rr.value())); break; }
            }
        }
        co_return;
    }
    mc::task<void> tryop(int i, bool thr, int p) {
        MC_BEGIN(mc::task<void>, this, i, thr, p, r = R{mc::Err(mk<E>(0))});
        MC_AWAIT_TRY(r, tsk<T>(p, thr));
        s[i].emplace(std::move(r));
        MC_END();
    }
    void run() {
        ev("{\"e\":\"Cfg\",\"mt\":%s,\"me\":%s,\"dv\":%s,\"xe\":%s}", b(mT), b(mE), b(V || std::is_default_constructible_v<TT>), b(std::is_same_v<E, X>));
        for (size_t n = 1; n < W.size(); ++n) {
            auto w = W[n]; armed = w[0] == 'T'; if (armed) w = w.substr(1);
            int i = w[1] - '0', j = w.size() > 2 ? w[2] - '0' : 0; char f = w.size() > 2 ? w[2] : 0; int p = w.size() > 3 ? w[3] - '0' : 0;
            R* r = s[i] ? &*s[i] : nullptr; const R* cr = r;
            try { switch (w[0]) {
            case 'd': s[i].emplace(); ev("{\"e\":\"Def\",\"s\":%d}", i); break;
            case 'o': if constexpr (V) { s[i].emplace(mc::Ok()); ev("{\"e\":\"Set\",\"s\":%d,\"ok\":true,\"p\":0,\"src\":0}", i); } else tag<true, TT>("Set", i, f, p, [&](auto&& t) { s[i].emplace(std::move(t)); }); break;
            case 'O': if constexpr (V) { *r = mc::Ok(); ev("{\"e\":\"Set\",\"s\":%d,\"ok\":true,\"p\":0,\"src\":0}", i); } else if (isupper(f)) rel<true, TT>("Set", i, f, p, [&](auto&& t) { *r = std::move(t); }); else tag<true, TT>("Set", i, f, p, [&](auto&& t) { *r = std::move(t); }); break;
            case 'e': tag<false, E>("Set", i, f, p, [&](auto&& t) { s[i].emplace(std::move(t)); }); break;
            case 'F': case 'f': if constexpr (std::is_same_v<E, X>) {
                    s[i].emplace(w[0] == 'F' ? native(f, p) : macro(f, p));
                    ev("{\"e\":\"Wrap\",\"s\":%d,\"ok\":%s,\"p\":%d}", i, b(!strchr("teERW", f)), V && !strchr("teERW", f) ? 0 : p); } break;
            case 'E': if constexpr (!V) if (isupper(f)) { rel<false, E>("Set", i, f, p, [&](auto&& t) { *r = std::move(t); }); break; }
                f = tolower(f); tag<false, E>("Set", i, f, p, [&](auto&& t) { *r = std::move(t); }); break;
            case 'k': if constexpr (C) { s[i].emplace(*static_cast<const R*>(&*s[j])); ev("{\"e\":\"Copy\",\"s\":%d,\"t\":%d}", i, j); } break;
            case 'K': if constexpr (C) { *r = *static_cast<const R*>(&*s[j]); ev("{\"e\":\"Copy\",\"s\":%d,\"t\":%d}", i, j); } break;
            case 'm': s[i].emplace(std::move(*s[j])); ev("{\"e\":\"Move\",\"s\":%d,\"t\":%d}", i, j); break;
            case 'M': *r = std::move(*s[j]); ev("{\"e\":\"Move\",\"s\":%d,\"t\":%d}", i, j); break;
            case 'q': ev("{\"e\":\"Query\",\"s\":%d,\"hv\":%s,\"he\":%s,\"bo\":%s,\"chv\":%s,\"che\":%s}", i, b(r->has_value()), b(r->has_error()), b(bool(*r)), b(cr->has_value()), b(cr->has_error()));
                if constexpr (requires { bool(*cr); }) ev("{\"e\":\"Query\",\"s\":%d,\"hv\":%s,\"he\":%s,\"bo\":%s,\"chv\":%s,\"che\":%s}", i, b(r->has_value()), b(r->has_error()), b(bool(*cr)), b(cr->has_value()), b(cr->has_error())); break;
            case 'v': try {
                    if constexpr (V) { if (f == 'm') r->value(); else if (f == 'c') cr->value(); else if (f == 's') **r; else **cr; got("Value", i, "val", 0); }
                    else { int x = f == 'm' ? rd(r->value()) : f == 'c' ? rd(cr->value()) : f == 's' ? rd(**r) : rd(**cr); got("Value", i, "val", x); }
                } catch (...) { err("Value", i, std::current_exception()); } break;
            case 'r': try { int x = f == 'm' ? rd(r->error()) : rd(cr->error()); got("Error", i, "err", x); } catch (...) { err("Error", i, std::current_exception()); } break;
            case 'a': if constexpr (!V && CT) {
                    T alt = mk<T>(p); int x; bool al = false;
                    if (f == 'r') { T o = r->value_or(mk<T>(p)); x = rd(o); al = x == p && !r->has_value(); }
                    else if (f == 'l') { T& o = r->value_or(alt); x = rd(o); al = &o == &alt; } else { const T& o = cr->value_or(static_cast<const T&>(alt)); x = rd(o); al = &o == &alt; }
                    ev("{\"e\":\"ValueOr\",\"s\":%d,\"p\":%d,\"x\":%d,\"alt\":%s}", i, p, x, b(al));
                } break;
            case 'b': if constexpr (CE) {
                    E alt = mk<E>(p); int x; bool al = false;
                    if (f == 'r') { E o = r->error_or(mk<E>(p)); x = rd(o); al = x == p && r->has_value(); }
                    else if (f == 'l') { E& o = r->error_or(alt); x = rd(o); al = &o == &alt; } else { const E& o = cr->error_or(static_cast<const E&>(alt)); x = rd(o); al = &o == &alt; }
                    ev("{\"e\":\"ErrorOr\",\"s\":%d,\"p\":%d,\"x\":%d,\"alt\":%s}", i, p, x, b(al));
                } break;
            case 's': if constexpr (!V) { try { wr(r->value(), f - '0'); got("Write", i, "val", f - '0'); } catch (...) { err("Write", i, std::current_exception()); } } break;
            case 'S': try { wr(r->error(), f - '0'); got("WriteErr", i, "err", f - '0'); } catch (...) { err("WriteErr", i, std::current_exception()); } break;
            case '=': case '!': {
                bool ok = w[2] == 'o', ne = w[0] == '!', x = false; char g = w[3]; p = w[4] - '0';
                auto use = [&](auto&& t) { x = ne ? (*cr != std::move(t)) : (*cr == std::move(t)); };
                if (isupper(g)) { const long t = p; long m = p;
                    if constexpr (std::is_same_v<T, int>) if (ok) { if (g == 'M') use(mc::Ok(std::move(m))); else use(mc::Ok(t)); }
                    if constexpr (std::is_same_v<E, int>) if (!ok) { if (g == 'M') use(mc::Err(std::move(m))); else use(mc::Err(t)); } }
                else if (ok) { if constexpr (V) use(mc::Ok()); else { T t = mk<T>(p); const T& c = t; if (g == 'm') use(mc::Ok(std::move(t))); else if constexpr (CT) { if (g == 'c') use(mc::Ok(c)); else use(mc::Ok(t)); } else use(mc::Ok(std::move(t))); } }
                else if constexpr (!std::is_same_v<E, X>) { E t = mk<E>(p); const E& c = t; if (g == 'm') use(mc::Err(std::move(t))); else if constexpr (CE) { if (g == 'c') use(mc::Err(c)); else use(mc::Err(t)); } else use(mc::Err(std::move(t))); }
                else { E t = r->has_error() && p == rd(r->error()) ? r->error() : mk<E>(p); use(mc::Err(std::move(t))); }
                ev("{\"e\":\"Eq\",\"s\":%d,\"ok\":%s,\"p\":%d,\"ne\":%s,\"x\":%s}", i, b(ok), V && ok ? 0 : p, b(ne), b(x)); break;
            }
            case 'w': if constexpr (std::is_same_v<E, X>) { s[i].emplace(p ? coawaitL(&*s[j]) : coawait(&*s[j])); ev("{\"e\":\"Await\",\"s\":%d,\"t\":%d}", i, j); } break;
            case 'W': if constexpr (std::is_same_v<E, X>) {
                    Gate g; s[i].reset(); ev("{\"e\":\"Drop\",\"s\":%d}", i);
                    if (f == 'z' || f == 'Z') mc::sync_wait(tryop(i, f == 'Z', p));
                    else { auto bt = mc::make_blocking(wrapop(i, f, p, &g)); if (strchr("gGY", f)) { ev("{\"e\":\"Early\",\"x\":%s}", b(s[i].has_value())); g.open(); } bt.get(); }
                    ev("{\"e\":\"Wrap\",\"s\":%d,\"ok\":%s,\"p\":%d}", i, b(!strchr("xXyYZ", f)), V && !strchr("xXyYZ", f) ? 0 : p);
                } break;
            case 'c': s[i].reset(); ev("{\"e\":\"Drop\",\"s\":%d}", i); break;
            case '~':
                if (r->has_value()) { if constexpr (V) *r = mc::Ok(); else { if constexpr (CT) { if (f == 'c') *r = mc::Ok(cr->value()); else if (f == 'l') *r = mc::Ok(r->value()); else *r = mc::Ok(std::move(r->value())); } else *r = mc::Ok(std::move(r->value())); } }
                else { if (f == 'c') *r = mc::Err(cr->error()); else if (f == 'l') *r = mc::Err(r->error()); else *r = mc::Err(std::move(r->error())); }
                ev("{\"e\":\"Self\",\"s\":%d}", i); break;
            case '^': if constexpr (std::is_same_v<T, E>) { if (r->has_value()) *r = mc::Err(cr->value()); else *r = mc::Ok(cr->error()); ev("{\"e\":\"Flip\",\"s\":%d}", i); } break;
            } } catch (sc::Err& e) { ev("{\"e\":\"Threw\",\"p\":%d}", e.v); }
            armed = false;
            // the state of every slot
            std::string st;
            for (int k = 0; k < 4; ++k) {
                char bb[60]; const char* kd = "none"; int q = 0;
                if (s[k]) { if (s[k]->has_value()) { kd = "val"; if constexpr (!V) q = rd(s[k]->value()); } else { kd = "err"; q = rd(s[k]->error()); } }
                snprintf(bb, sizeof bb, "%s{\"k\":\"%s\",\"p\":%d}", k ? "," : "", kd, q); st += bb;
            }
            ev("{\"e\":\"State\",\"r\":[%s]}", st.c_str());
        }
        for (auto& x : s) x.reset();
    }
};
template<class T> static void go(char e) { switch (e) { case 'x': M<T, X>{}.run(); break; case 'i': M<T, int>{}.run(); break; case 'c': M<T, Cp>{}.run(); break; } }
void scenario_main() {
    switch (W[0][0]) { case 'i': go<int>(W[0][1]); break; case 'c': go<Cp>(W[0][1]); break; case 'm': go<Mv>(W[0][1]); break; case 'd': go<Nd>(W[0][1]); break; case 'v': go<void>(W[0][1]); break; }
    ev("{\"e\":\"End\"}");
}
