// Call stacks: who waits for whom, and where.
// Program: "<root mode> <node>", node := kind '(' item,... ')'
// kinds: t task<int>  V task<void>  R task<int&>  m macro task<int>  M macro task<void>  s when_all_scope  e eager_task<int>  E macro eager_task<int>
// items: ? ask, p suspend and be resumed by another thread, otherwise a mode and the child nodes (in brackets if several):
//   a direct  l lvalue  w wrap  b when_all_ready(pack)  v when_all_ready(vector)  d scoped (in s)  g async_scope::add, join
//   u start_on  k make_task  x take_until  y when_ready  j make_eager  o nested sync_wait
// root mode: S sync_wait, B make_blocking, F a coroutine of another library
#include "scen.h"
#include "macoro/task.h"
#include "macoro/macros.h"
#include "macoro/sync_wait.h"
#include "macoro/when_all.h"
#include "macoro/when_all_scope.h"
#include "macoro/async_scope.h"
#include "macoro/wrap.h"
#include "macoro/trace.h"
#include "macoro/start_on.h"
#include "macoro/take_until.h"
#include "macoro/inline_scheduler.h"
#include <functional>
namespace mc = macoro;
struct Node; struct Item { char op; std::vector<Node*> ch; };
struct Node { char kind; int id, depth; std::vector<Item> items; };
static std::vector<std::unique_ptr<Node>> nodes; static char rootMode; static Node* root0;
static std::mutex hopMtx; static std::thread hops[64]; static int nhops;
static Node* parseNode(const char*& p, int depth) {
    nodes.push_back(std::make_unique<Node>()); Node* n = nodes.back().get(); n->id = (int)nodes.size(); n->depth = depth; n->kind = *p++;
    if (*p++ != '(') abort();
    while (*p != ')') {
        Item it; it.op = *p++;
        if (!strchr("?p", it.op)) { if (*p == '[') { ++p; while (*p != ']') it.ch.push_back(parseNode(p, depth + 1)); ++p; } else it.ch.push_back(parseNode(p, depth + 1)); }
        n->items.push_back(it); if (*p == ',') ++p;
    }
    ++p; return n;
}
void scenario_load(const std::string& s) {
    nodes.clear(); rootMode = s[0]; const char* p = s.c_str() + 2; root0 = parseNode(p, 0);
}
// the awaits of the drivers are in "usr"; an entry with no line or of a library file is not part of the user's program
static bool usr(const std::source_location& l) { return l.line() && !strcmp(l.file_name(), "usr"); }
static void asked(Node* n, int line, mc::trace& t) {
    std::string s = "[", str; 
    for (auto& l : t.stack) if (usr(l)) s += (s.size() > 1 ? "," : "") + std::to_string(l.line());
    for (size_t i = 0; i < t.stack.size(); ++i) str += std::to_string(i) + " " + t.stack[i].file_name() + ":" + std::to_string(t.stack[i].line()) + "\n";
    sc::ev("{\"e\":\"Ask\",\"n\":%d,\"loc\":%d,\"stack\":%s],\"str\":%s}", n->id, line, s.c_str(), str == t.str() ? "true" : "false");
}
// node c is about to be awaited by node p; r: what it runs in was started on its own
static Node* aw(Node* c, int p, int line, bool r = false) {
    if (c->kind == 'e' || c->kind == 'E') r = true;
    sc::ev("{\"e\":\"Await\",\"n\":%d,\"p\":%d,\"loc\":%d}", c->id, r ? 0 : p, r ? 0 : line); return c;
}
static void done(Node* n) { sc::ev("{\"e\":\"Done\",\"n\":%d}", n->id); }
// node c joins an async_scope that nobody's call stack belongs to
static Node* added(Node* c, int line) { sc::ev("{\"e\":\"Await\",\"n\":%d,\"p\":0,\"loc\":%d}", c->id, line); return c; }
struct Hop {
    bool await_ready() { return false; }
    void await_suspend(std::coroutine_handle<> h) { std::lock_guard<std::mutex> l(hopMtx); hops[nhops++] = std::thread([h] { h.resume(); }); }
    void await_suspend(mc::coroutine_handle<> h) { std::lock_guard<std::mutex> l(hopMtx); hops[nhops++] = std::thread([h]() mutable { h.resume(); }); }
    void await_resume() {}
};
struct Until { void request_stop() {} bool await_ready() { return true; } void await_suspend(std::coroutine_handle<>) {} void await_suspend(mc::coroutine_handle<>) {} void await_resume() {} };
static int cell;
#define MAXD 4
template<int D> mc::task<int> tk(Node*); template<int D> mc::task<void> tv(Node*); template<int D> mc::task<int&> tr(Node*);
template<int D> mc::task<int> mk(Node*); template<int D> mc::task<void> mv(Node*);
template<int D> mc::when_all_scope sk(Node*); template<int D> mc::eager_task<int> ek(Node*); template<int D> mc::eager_task<int> Ek(Node*);
#define DECL(D) template<> mc::task<int> tk<D>(Node*); template<> mc::task<void> tv<D>(Node*); template<> mc::task<int&> tr<D>(Node*); template<> mc::task<int> mk<D>(Node*); template<> mc::task<void> mv<D>(Node*); \
    template<> mc::when_all_scope sk<D>(Node*); template<> mc::eager_task<int> ek<D>(Node*); template<> mc::eager_task<int> Ek<D>(Node*);
DECL(0) DECL(1) DECL(2) DECL(3) DECL(4)
static bool is(Item& i, const char* op, char k) { return i.ch.size() && strchr(op, i.op) && i.ch[0]->kind == k; }
static std::vector<mc::task<int>> vec(Item& i, Node* n, int line, mc::task<int> (*mk_)(Node*), mc::task<int> (*tk_)(Node*)) { std::vector<mc::task<int>> v; for (auto c : i.ch) { aw(c, n->id, line); v.push_back(c->kind == 'm' ? mk_(c) : tk_(c)); } return v; }
#define DEPTH 0
#include "calls_body.h"
#undef DEPTH
#define DEPTH 1
#include "calls_body.h"
#undef DEPTH
#define DEPTH 2
#include "calls_body.h"
#undef DEPTH
#define DEPTH 3
#include "calls_body.h"
#undef DEPTH
#line 1000 "calls.cpp"
template<> mc::task<int> tk<MAXD>(Node*) { abort(); } template<> mc::task<void> tv<MAXD>(Node*) { abort(); } template<> mc::task<int&> tr<MAXD>(Node*) { abort(); }
template<> mc::task<int> mk<MAXD>(Node*) { abort(); } template<> mc::task<void> mv<MAXD>(Node*) { abort(); } template<> mc::when_all_scope sk<MAXD>(Node*) { abort(); }
template<> mc::eager_task<int> ek<MAXD>(Node*) { abort(); } template<> mc::eager_task<int> Ek<MAXD>(Node*) { abort(); }
void scenario_main() {
    nhops = 0;
    Node* c = root0; char k = c->kind; static std::atomic<int> fin; fin = 0;
#line 10 "usr"
    auto F = [&]() -> sc::fire {
        if (k == 't') { co_await tk<0>(aw(c, 0, __LINE__)); }
        if (k == 'm') { co_await mk<0>(aw(c, 0, __LINE__)); }
        if (k == 'V') { co_await tv<0>(aw(c, 0, __LINE__)); }
        if (k == 'e') { co_await ek<0>(aw(c, 0, __LINE__)); }
        fin = 1;
    };
    if (rootMode == 'S') {
        if (k == 't') { mc::sync_wait(tk<0>(aw(c, 0, __LINE__))); }
        if (k == 'm') { mc::sync_wait(mk<0>(aw(c, 0, __LINE__))); }
        if (k == 'V') { mc::sync_wait(tv<0>(aw(c, 0, __LINE__))); }
        if (k == 'M') { mc::sync_wait(mv<0>(aw(c, 0, __LINE__))); }
        if (k == 'R') { mc::sync_wait(tr<0>(aw(c, 0, __LINE__))); }
        if (k == 'e') { mc::sync_wait(ek<0>(aw(c, 0, __LINE__))); }
        if (k == 'E') { mc::sync_wait(Ek<0>(aw(c, 0, __LINE__))); }
        if (k == 's') { mc::sync_wait(sk<0>(aw(c, 0, __LINE__))); }
    } else if (rootMode == 'B') {
        if (k == 't') { auto b = mc::make_blocking(tk<0>(aw(c, 0, __LINE__))); b.get(); }
        if (k == 'm') { auto b = mc::make_blocking(mk<0>(aw(c, 0, __LINE__))); b.get(); }
    } else F();
#line 1020 "calls.cpp"
    for (int i = 0; ; ++i) { { std::lock_guard<std::mutex> l(hopMtx); if (i >= nhops) break; } hops[i].join(); }
    sc::ev("{\"e\":\"End\",\"fin\":%d}", rootMode == 'F' ? fin.load() : 1);
}
