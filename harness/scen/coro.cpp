// Macro coroutines against the semantics of native ones.
// Program: "<config> | statement ... | resumer op ..."
// config: [M|N] macro or native, [v|i] return type, [0|1|2] await_transform (none, same object, new object), initial [s|r] suspend/ready or throwing from [I] initial_suspend [Q] await_ready [S] await_suspend [E] await_resume [F] await_resume after suspending, final [n|s|p] never/suspend/transfer to the partner (p: only i), unhandled [s|r] swallow/rethrow, partner [M|N]
// statement: form kind ret hk mode throw, e.g. aPv0s-   (see coro_body.h; forms y z Z r x take mode and throw only: y--- s-)
//   mode: r ready, s suspend, c suspend then continue (false, own handle), p transfer to the partner, i resumed inside await_suspend, d destroyed inside await_suspend
//   throw: - or c constructor, t await_transform, o operator co_await, r ready, s suspend, e resume, y yield_value
// resumer: r/R resume by macoro/std handle, q by a macoro handle made of the std handle, t/T typed; d D w e E destroy likewise.  Kind H: handles of the noop coroutine and conversions only
#include "scen.h"
#include "macoro/macros.h"
#include "macoro/result.h"
#include "macoro/coroutine_handle.h"
namespace mc = macoro;
struct Stmt { char form, kind, ret, hk, mode, thr; };
struct St {
    char kind, rt, tr, ini, fin, unh, par; std::vector<Stmt> st; std::string ops;
    mc::coroutine_handle<> h; bool gone = false; int cur = -1; mc::coroutine_handle<> partner; std::vector<std::shared_ptr<void>> keep;
    void ev(const char* e, int i) { vrt::ev("{\"e\":\"%s\",\"i\":%d}", e, i); }
    bool is(char f, char k, char r, char h) { auto& x = st[cur]; return x.form == f && x.kind == k && x.ret == r && x.hk == h; }
    bool form(char f) { return st[cur].form == f; }
    int id() { return 10 * (cur + 1); }
    struct Fn { St* s; void operator()(int v) { s->ev("Fn", v); } } fn{this};
    void tried(mc::result<int>& r) { if (r.has_value()) ev("Got", r.value()); else ev("GotErr", id()); }
    template<char R, char H> auto& lv();
    bool (*typed)(void*, char); template<class P> static bool typedOp(void* a, char o) { auto h = mc::coroutine_handle<P>::from_address(a); if (o == 't') h.resume(); else if (o == 'T') h.std_cast().resume(); else if (o == 'e') h.destroy(); else if (o == 'E') h.std_cast().destroy(); else return h.done(); return false; }
    // mode of object id (10*stmt + 0 operand, 5 awaiter of an operand, 2 second awaiter, 3 yielded)
    char modeOf(int id) { if (id == 1) return strchr("sSF", ini) ? 's' : 'r'; if (id == 2) return fin == 'n' ? 'r' : fin; auto& x = st[id / 10 - 1]; return id % 10 == 0 || id % 10 == 4 || id % 10 == 5 || x.form == 'y' || x.form == 'z' || x.form == 'Z' ? x.mode : x.mode == 'p' ? 's' : x.mode == 'd' ? 's' : x.mode; }
    bool thr(int id, char c) { if (id == 1) return c == 'r' && ini == 'Q' || c == 's' && ini == 'S' || c == 'e' && strchr("EF", ini); if (id < 10) return false; auto& x = st[id / 10 - 1]; return x.thr == c && (id % 10 == 0 || id % 10 == 4 || id % 10 == 5 || strchr("yzZ", x.form)); }
    // the handle given to await_suspend is that of this coroutine
    template<class P> bool own(mc::coroutine_handle<P> x) { return x.address() == h.address(); }
    template<class P> bool own(std::coroutine_handle<P> x) { return x.address() == h.std_cast().address(); }
    template<class H> void susp(int id, H x) { vrt::ev("{\"e\":\"Suspend\",\"i\":%d,\"own\":%s,\"done\":%s,\"tr\":%s}", id, own(x) ? "true" : "false", x.done() ? "true" : "false", modeOf(id) == 'p' && !thr(id, 's') ? "true" : "false"); }
};
static St cfg0;
void scenario_load(const std::string& p) {
    auto v = sc::split(p, '|'); auto c = sc::words(v[0])[0]; cfg0 = St{};
    cfg0.kind = c[0]; cfg0.rt = c[1]; cfg0.tr = c[2]; cfg0.ini = c[3]; cfg0.fin = c[4]; cfg0.unh = c[5]; cfg0.par = c[6];
    for (auto& w : sc::words(v[1])) cfg0.st.push_back({w[0], w[1], w[2], w[3], w[4], w[5]});
    cfg0.ops = sc::words(v[2]).empty() ? "" : sc::words(v[2])[0];
}
// ---- awaiters; R: v void, b bool, h handle;  H: 0 std::coroutine_handle<>, 1 std::coroutine_handle<P>, 2 either <>, 3 either <P>
template<char R, char H> struct Core {
    St* s; int id; int* own;
    Core(St* s, int id, bool quiet = false) : s(s), id(id) { if (!quiet) { if (s->thr(id, 'c')) { s->ev("CtorThrow", id); throw sc::Err(id); } s->ev("Ctor", id); } own = quiet ? nullptr : new int(id); }
    Core(Core&&) = delete;
    ~Core() { if (own) { s->ev("Dtor", *own); delete own; } }
    void chk() { if (own && *own != id) s->ev("BadPayload", id); }
    bool await_ready() { chk(); s->ev("Ready", id); if (s->thr(id, 'r')) throw sc::Err(id); return s->modeOf(id) == 'r'; }
    template<class X> auto doSuspend(X h) {
        chk(); s->susp(id, h); if (s->thr(id, 's')) throw sc::Err(id);
        char m = s->modeOf(id);
        if constexpr (R == 'v') { if (m == 'i' || m == 'c') h.resume(); else if (m == 'd') h.destroy(); }
        else if constexpr (R == 'b') return m != 'c';
        else if constexpr (std::is_convertible_v<X, std::coroutine_handle<>>) return std::coroutine_handle<>(m == 'c' ? std::coroutine_handle<>(h) : m == 'p' ? s->partner.std_cast() : std::noop_coroutine());
        else return m == 'c' ? mc::coroutine_handle<>(h) : m == 'p' ? s->partner : mc::coroutine_handle<>(mc::noop_coroutine());
    }
    int resume() { chk(); s->ev("Resume", id); if (s->thr(id, 'e')) throw sc::Err(id); return id; }
};
template<char R, char H> struct Sus;
template<char R> struct Sus<R, '0'> : Core<R, '0'> { using Core<R, '0'>::Core; auto await_suspend(std::coroutine_handle<> h) { return this->doSuspend(h); } };
template<char R> struct Sus<R, '1'> : Core<R, '1'> { using Core<R, '1'>::Core; template<class P> auto await_suspend(std::coroutine_handle<P> h) { return this->doSuspend(h); } };
template<char R> struct Sus<R, '2'> : Core<R, '2'> { using Core<R, '2'>::Core; auto await_suspend(std::coroutine_handle<> h) { return this->doSuspend(h); } auto await_suspend(mc::coroutine_handle<> h) { return this->doSuspend(h); } };
template<char R> struct Sus<R, '3'> : Core<R, '3'> { using Core<R, '3'>::Core; template<class P> auto await_suspend(std::coroutine_handle<P> h) { return this->doSuspend(h); } template<class P> auto await_suspend(mc::coroutine_handle<P> h) { h.promise().touch(); return this->doSuspend(h); } };
template<char R, char H> struct Aw : Sus<R, H> { using Sus<R, H>::Sus; int await_resume() { return this->resume(); } };
// gives another awaiter
template<char R, char H> struct AwA : Sus<R, H> { using Sus<R, H>::Sus; Aw<R, H> await_resume() { this->resume(); return Aw<R, H>(this->s, this->id / 10 * 10 + 2); } };
template<char R, char H> struct Mem { St* s; int id; int* own;
    Mem(St* s, int id) : s(s), id(id) { if (s->thr(id, 'c')) { s->ev("CtorThrow", id); throw sc::Err(id); } s->ev("Ctor", id); own = new int(id); } Mem(Mem&&) = delete; ~Mem() { s->ev("Dtor", *own); delete own; }
    Aw<R, H> operator co_await() { s->ev("CoAwait", *own); if (s->thr(id, 'o')) throw sc::Err(id); return Aw<R, H>(s, id / 10 * 10 + 5); } };
namespace fr { template<char R, char H> struct Fre { St* s; int id; int* own;
    Fre(St* s, int id) : s(s), id(id) { if (s->thr(id, 'c')) { s->ev("CtorThrow", id); throw sc::Err(id); } s->ev("Ctor", id); own = new int(id); } Fre(Fre&&) = delete; ~Fre() { s->ev("Dtor", *own); delete own; } };
template<char R, char H> Aw<R, H> operator co_await(Fre<R, H>&& f) { f.s->ev("CoAwait", *f.own); if (f.s->thr(f.id, 'o')) throw sc::Err(f.id); return Aw<R, H>(f.s, f.id / 10 * 10 + 5); } }
template<char R, char H> auto& St::lv() { auto p = std::make_shared<Aw<R, H>>(this, id(), true); keep.push_back(p); return *p; }
// awaited by its name; must be awaited itself, not a copy
struct IdA { St* s; int id = 0, uses = 0; explicit IdA(St* s) : s(s) {}
    bool await_ready() { ++uses; s->ev("Ready", id); if (s->thr(id, 'r')) throw sc::Err(id); return s->modeOf(id) == 'r'; }
    template<class X> void await_suspend(X h) { ++uses; s->susp(id, h); if (s->thr(id, 's')) throw sc::Err(id); char m = s->modeOf(id); if (m == 'i' || m == 'c') h.resume(); else if (m == 'd') h.destroy(); }
    int await_resume() { ++uses; s->ev("Resume", id); if (s->thr(id, 'e')) throw sc::Err(id); return id; } };
// what an await_transform that returns a new object makes of its operand
template<char R, char H> Aw<R, H> twin(Aw<R, H>& x) { return Aw<R, H>(x.s, x.id + 4); }
template<char R, char H> AwA<R, H> twin(AwA<R, H>& x) { return AwA<R, H>(x.s, x.id + 4); }
template<char R, char H> Mem<R, H> twin(Mem<R, H>& x) { return Mem<R, H>(x.s, x.id + 4); }
template<char R, char H> fr::Fre<R, H> twin(fr::Fre<R, H>& x) { return fr::Fre<R, H>(x.s, x.id + 4); }
inline Aw<'v', '2'> twin(IdA& x) { return Aw<'v', '2'>(x.s, x.id + 4); }
// the awaiter of final_suspend
template<char R> struct Fin { St* s; int id; int* own;
    Fin(St* s, int id) noexcept : s(s), id(id) { s->ev("Ctor", id); own = new int(id); } Fin(Fin&&) = delete; ~Fin() { s->ev("Dtor", *own); delete own; }
    bool await_ready() noexcept { s->ev("Ready", id); return s->modeOf(id) == 'r'; }
    template<class X> auto sus(X h) noexcept { s->susp(id, h); if constexpr (R == 'v') return; else if constexpr (std::is_convertible_v<X, std::coroutine_handle<>>) return std::coroutine_handle<>(s->modeOf(id) == 'p' ? s->partner.std_cast() : std::noop_coroutine()); else return s->modeOf(id) == 'p' ? s->partner : mc::coroutine_handle<>(mc::noop_coroutine()); }
    template<class P> auto await_suspend(std::coroutine_handle<P> h) noexcept { return sus(h); }
    template<class P> auto await_suspend(mc::coroutine_handle<P> h) noexcept { return sus(h); }
    void await_resume() noexcept { s->ev("Resume", id); } };
// ---- promise
static St* S;
template<class P> struct Co { using promise_type = P; mc::coroutine_handle<P> h; };
template<class D, bool V> struct Ret { void return_void() { S->ev("RetVoid", 0); } };
template<class D> struct Ret<D, false> { void return_value(int v) { S->ev("RetVal", v); } };
template<int T> struct Trans {};
template<> struct Trans<2> { template<class X> auto await_transform(X&& x) { S->ev("Transform", x.id); if (S->thr(x.id, 't')) throw sc::Err(x.id); return twin(x); } };
template<> struct Trans<1> { template<class X> decltype(auto) await_transform(X&& x) { S->ev("Transform", x.id); if (S->thr(x.id, 't')) throw sc::Err(x.id); return static_cast<X&&>(x); } };
template<bool V, int T> struct Pr : Ret<Pr<V, T>, V>, Trans<T> {
    int* own; int touched = 0;
    Pr() : own(new int(7)) { S->ev("PromiseCtor", 0); } ~Pr() { S->ev("PromiseDtor", *own - 7); delete own; S->gone = true; }
    void touch() { touched = *own; }
    Co<Pr> get_return_object() { S->ev("GetRet", 0); auto h = mc::coroutine_handle<Pr>::from_promise(*this, mc::coroutine_handle_type::std); S->h = h; S->typed = &St::typedOp<Pr>; return {h}; }
    Co<Pr> macoro_get_return_object() { S->ev("GetRet", 0); auto h = mc::coroutine_handle<Pr>::from_promise(*this, mc::coroutine_handle_type::macoro); S->h = h; S->typed = &St::typedOp<Pr>; return {h}; }
    auto initial_suspend() { S->ev("Initial", 0); if (S->ini == 'I') throw sc::Err(1); return Aw<'v', '2'>(S, 1); }
    auto final_suspend() noexcept { S->ev("Final", 0); return Fin<V ? 'v' : 'h'>(S, 2); }
    auto yield_value(int v) { S->ev("Yield", v); if (S->thr(S->id(), 'y')) throw sc::Err(v); return Aw<V ? 'b' : 'v', V ? '0' : '3'>(S, S->id() + 3); }
    void unhandled_exception() { S->ev("Unhandled", 0); if (S->unh == 'r') throw; }
};
struct Param { St* s; int* p; Param(St* s) : s(s), p(new int(3)) {} Param(Param&& o) noexcept : s(o.s), p(std::exchange(o.p, nullptr)) {} ~Param() { if (p) { s->ev("ParamDtor", *p - 3); delete p; } } };

#define ALLT(X) X('v', '0') X('v', '1') X('v', '2') X('v', '3') X('b', '0') X('b', '1') X('b', '2') X('b', '3') X('h', '0') X('h', '1') X('h', '2') X('h', '3')
#define SOMET(X) X('v', '2') X('b', '0') X('h', '3')
// native
#define AW(e) co_await e
#define SET(v, e) v = co_await e
#define TRY(v, e) try { v = mc::Ok(co_await e); } catch (...) { v = mc::Err(std::current_exception()); }
#define FN(f, e) f(co_await e)
#define AA(e) co_await co_await e
#define YA(e) co_yield co_await e
#define RA(e) co_return co_await e
#define YI(e) co_yield e
#define YS(v, e) v = co_yield e
#define RY(e) co_return co_yield e
static Co<Pr<true, 2>> natt2(St* s, Param prm) {
    int i = 0, got = 0; mc::result<int> res; IdA idv(s);
#define RETA(...) 
#define RET(x) co_return
#include "coro_body.h"
#undef RET
#undef RETA
}
static Co<Pr<true, 1>> nattt(St* s, Param prm) {
    int i = 0, got = 0; mc::result<int> res; IdA idv(s);
#define RETA(...) 
#define RET(x) co_return
#include "coro_body.h"
#undef RET
#undef RETA
}
static Co<Pr<true, 0>> nattf(St* s, Param prm) {
    int i = 0, got = 0; mc::result<int> res; IdA idv(s);
#define RETA(...) 
#define RET(x) co_return
#include "coro_body.h"
#undef RET
#undef RETA
}
static Co<Pr<false, 1>> natft(St* s, Param prm) {
    int i = 0, got = 0; mc::result<int> res; IdA idv(s);
#define RETA(...) __VA_ARGS__
#define RET(x) co_return x
#include "coro_body.h"
#undef RET
#undef RETA
}
static Co<Pr<false, 0>> natff(St* s, Param prm) {
    int i = 0, got = 0; mc::result<int> res; IdA idv(s);
#define RETA(...) __VA_ARGS__
#define RET(x) co_return x
#include "coro_body.h"
#undef RET
#undef RETA
}
#undef AW
#undef SET
#undef TRY
#undef FN
#undef AA
#undef YA
#undef RA
#undef YI
#undef YS
#undef RY
// macro
#define AW(e) MC_AWAIT(e)
#define SET(v, e) MC_AWAIT_SET(v, e)
#define TRY(v, e) MC_AWAIT_TRY(v, e)
#define FN(f, e) MC_AWAIT_FN(f, e)
#define AA(e) MC_AWAIT_AWAIT(e)
#define YA(e) MC_YIELD_AWAIT(e)
#define RA(e) MC_RETURN_AWAIT(e)
#define YI(e) MC_YIELD(e)
#define YS(v, e) MC_YIELD_SET(v, e)
#define RY(e) MC_RETURN_YIELD(e)
static Co<Pr<true, 2>> mact2(St* s, Param prm) {
    using R = Co<Pr<true, 2>>;
    MC_BEGIN(R, s, prm = std::move(prm), i = 0, got = 0, res = mc::result<int>{}, idv = IdA(s));
#define RETA(...) 
#define RET(x) MC_RETURN_VOID()
#include "coro_body.h"
#undef RET
#undef RETA
    MC_END();
}
static Co<Pr<true, 1>> mactt(St* s, Param prm) {
    using R = Co<Pr<true, 1>>;
    MC_BEGIN(R, s, prm = std::move(prm), i = 0, got = 0, res = mc::result<int>{}, idv = IdA(s));
#define RETA(...) 
#define RET(x) MC_RETURN_VOID()
#include "coro_body.h"
#undef RET
#undef RETA
    MC_END();
}
static Co<Pr<true, 0>> mactf(St* s, Param prm) {
    using R = Co<Pr<true, 0>>;
    MC_BEGIN(R, s, prm = std::move(prm), i = 0, got = 0, res = mc::result<int>{}, idv = IdA(s));
#define RETA(...) 
#define RET(x) MC_RETURN_VOID()
#include "coro_body.h"
#undef RET
#undef RETA
    MC_END();
}
static Co<Pr<false, 1>> macft(St* s, Param prm) {
    using R = Co<Pr<false, 1>>;
    MC_BEGIN(R, s, prm = std::move(prm), i = 0, got = 0, res = mc::result<int>{}, idv = IdA(s));
#define RETA(...) __VA_ARGS__
#define RET(x) MC_RETURN(x)
#include "coro_body.h"
#undef RET
#undef RETA
    MC_END();
}
static Co<Pr<false, 0>> macff(St* s, Param prm) {
    using R = Co<Pr<false, 0>>;
    MC_BEGIN(R, s, prm = std::move(prm), i = 0, got = 0, res = mc::result<int>{}, idv = IdA(s));
#define RETA(...) __VA_ARGS__
#define RET(x) MC_RETURN(x)
#include "coro_body.h"
#undef RET
#undef RETA
    MC_END();
}
// ---- the partner: says that it ran, then suspends
struct PCo { struct promise_type { PCo get_return_object() { return {mc::coroutine_handle<promise_type>::from_promise(*this, mc::coroutine_handle_type::std)}; } PCo macoro_get_return_object() { return {mc::coroutine_handle<promise_type>::from_promise(*this, mc::coroutine_handle_type::macoro)}; }
    std::suspend_always initial_suspend() noexcept { return {}; } std::suspend_always final_suspend() noexcept { return {}; } void return_void() {} void unhandled_exception() { std::terminate(); } }; mc::coroutine_handle<promise_type> h; };
struct PAw { bool await_ready() { return false; } void await_suspend(std::coroutine_handle<>) {} void await_resume() {} };
static PCo natP(St* s) { for (;;) { s->ev("Partner", 0); co_await PAw{}; } }
static PCo macP(St* s) { MC_BEGIN(PCo, s); for (;;) { s->ev("Partner", 0); MC_AWAIT(PAw{}); } MC_END(); }

static void back(St& s, int exc) {
    if (s.gone) vrt::ev("{\"e\":\"Back\",\"exc\":%s,\"gone\":true}", exc ? "true" : "false");
    else vrt::ev("{\"e\":\"Back\",\"exc\":%s,\"gone\":false,\"done\":%s,\"tdone\":%s,\"sdone\":%s}", exc ? "true" : "false", s.h.done() ? "true" : "false", s.typed(s.h.address(), '?') ? "true" : "false", s.h.std_cast().done() ? "true" : "false");
}
template<class F> static void ctl(St& s, const char* e, F f) { vrt::ev("{\"e\":\"%s\"}", e); int exc = 0; try { f(); } catch (sc::Err&) { exc = 1; } back(s, exc); }
static void start(St& s) {
    bool v = s.rt == 'v', t = s.tr == '1'; Param p(&s);
#define GO(k) if (v) { if (s.tr == '2') k##t2(&s, std::move(p)); else if (t) k##tt(&s, std::move(p)); else k##tf(&s, std::move(p)); } else { if (t) k##ft(&s, std::move(p)); else k##ff(&s, std::move(p)); }
    if (s.kind == 'N') { GO(nat) } else { GO(mac) }
}
void scenario_main() {
    St s = cfg0; s.fn.s = &s; S = &s;
    std::string c;
    for (auto& x : s.st) { char b[100]; snprintf(b, sizeof b, "%s{\"f\":\"%c\",\"k\":\"%c\",\"m\":\"%c\",\"x\":\"%c\"}", c.empty() ? "" : ",", x.form, x.kind == 'I' ? 'L' : x.kind, x.ret == 'v' && x.mode == 'c' ? 'i' : x.mode, x.thr); c += b; }
    vrt::ev("{\"e\":\"Cfg\",\"void\":%s,\"tr\":\"%c\",\"ini\":\"%c\",\"fin\":\"%c\",\"unh\":\"%c\",\"st\":[%s]}", s.rt == 'v' ? "true" : "false", s.tr, s.ini, s.fin, s.unh, c.c_str());
    if (s.kind == 'H') { // the noop coroutine, and identities of handles
        mc::coroutine_handle<> n = mc::noop_coroutine(); n.resume(); n(); bool d = n.done(), sd = n.std_cast().done(); n.std_cast().resume(); n.std_cast().destroy(); n.destroy(); mc::noop_coroutine().resume(); mc::noop_coroutine().destroy();
        vrt::ev("{\"e\":\"Noop\",\"done\":%s}", d || sd || mc::noop_coroutine().done() ? "true" : "false");
        for (auto p : {macP(&s), natP(&s)}) {
            auto h = p.h; mc::coroutine_handle<> v = h; auto st = v.std_cast(); using P = PCo::promise_type;
            bool ok = h.address() == v.address() && mc::coroutine_handle<P>::from_address(h.address()).address() == v.address() && mc::coroutine_handle<>::from_address(v.address()) == v && st == h.std_cast() && std::coroutine_handle<>(v) == st && std::coroutine_handle<>(h) == st
                && mc::coroutine_handle<>(st).std_cast() == st && mc::coroutine_handle<>(st).is_std() && v && h && v != mc::coroutine_handle<>(mc::noop_coroutine()) && !mc::coroutine_handle<>(nullptr) && !mc::coroutine_handle<P>()
                && mc::coroutine_handle<P>::from_promise(h.promise(), v.is_std() ? mc::coroutine_handle_type::std : mc::coroutine_handle_type::macoro).address() == v.address() && (!v.is_std() || mc::coroutine_handle<>(st) == v);
            // the order of handles
            for (mc::coroutine_handle<> o : {v, mc::coroutine_handle<>(mc::noop_coroutine()), mc::coroutine_handle<>()}) {
                bool eq = v == o, lt = v < o, gt = v > o;
                ok = ok && eq + lt + gt == 1 && (v != o) == !eq && (v <= o) == !gt && (v >= o) == !lt && (o == v) == eq && (o < v) == gt && (o > v) == lt && eq == (v.address() == o.address());
            }
            ok = ok && bool(mc::noop_coroutine()) && mc::noop_coroutine().address() == mc::coroutine_handle<>(mc::noop_coroutine()).address();
            vrt::ev("{\"e\":\"Same\",\"ok\":%s}", ok ? "true" : "false"); h.destroy();
        }
        return;
    }
    s.partner = s.par == 'M' ? macP(&s).h : natP(&s).h;
    ctl(s, "Create", [&] { start(s); });
    for (char o : s.ops) {
        if (s.gone) break;
        if (strchr("rRqtT", o)) { if (s.h.done()) continue; ctl(s, "Go", [&] { if (o == 'r') s.h.resume(); else if (o == 'R') s.h.std_cast().resume(); else if (o == 'q') mc::coroutine_handle<>(s.h.std_cast()).resume(); else s.typed(s.h.address(), o); }); }
        else ctl(s, "Destroy", [&] { if (o == 'd') s.h.destroy(); else if (o == 'D') s.h.std_cast().destroy(); else if (o == 'w') mc::coroutine_handle<>(s.h.std_cast()).destroy(); else s.typed(s.h.address(), o); });
    }
    if (!s.gone) ctl(s, "Destroy", [&] { s.h.destroy(); });
    s.partner.destroy();
    vrt::ev("{\"e\":\"End\"}");
}
