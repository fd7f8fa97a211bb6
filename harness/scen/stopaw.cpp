// co_await stop_token.  Program: "ops of main|ops of thread 1|..."
// ops: w start a coroutine that awaits the token and ends at once, W one that awaits it twice, t a task<> whose awaiter then ends,
//      s request stop, S drop the thread's source, n await a token without state
#include "scen.h"
#include "macoro/stop.h"
#include "macoro/task.h"
using namespace macoro; using namespace sc;

static std::vector<std::string> O; static std::vector<std::vector<int>> ID; static bool g_payload; static bool g_drop;
void scenario_load(const std::string& p) {
    O = split(p, '|'); ID.clear(); int w = 0, sets = 0; g_drop = false;
    for (auto& o : O) { ID.emplace_back(); for (char c : o) { ID.back().push_back(w); if (strchr("wWtn", c)) ++w; if (c == 's') ++sets; if (c == 'S') g_drop = true; } }
    g_payload = sets == 1;
}
struct St { std::vector<std::unique_ptr<stop_source>> src; stop_token tok; int data = 0; };
static void K(const char* e, int i) { ev("{\"e\":\"%s\",\"k\":%d,\"t\":%d}", e, i, vrt::tid()); }
static fire waiter(St& s, int w, bool twice) {
    std::unique_ptr<int> own(new int(w));
    K("WaitInv", w);
    co_await s.tok;
    if (g_payload && !g_drop && s.data != 7) ev("{\"e\":\"BadPayload\"}");
    K("Resume", *own);
    if (twice) { K("WaitInv", w); co_await s.tok; K("Resume", *own); }
}
static task<void> inner(St& s, int w) { std::unique_ptr<int> own(new int(w)); K("WaitInv", w); co_await s.tok; K("Resume", *own); }
static fire outer(St& s, int w) { { auto t = inner(s, w); co_await t; } }
static fire none(int w) { K("NoneInv", w); co_await stop_token{}; K("NoneResume", w); }
void scenario_main() {
    auto sp = std::make_unique<St>(); St& s = *sp;
    int n = (int)O.size();
    { stop_source first; for (int i = 0; i < n; ++i) s.src.push_back(std::make_unique<stop_source>(first)); s.tok = first.get_token(); }
    ev("{\"e\":\"Cfg\",\"srcs\":%d}", n);
    threads(n, [&](int t) {
        for (size_t i = 0; i < O[t].size(); ++i) {
            int w = ID[t][i];
            switch (O[t][i]) {
            case 's': if (g_payload) s.data = 7; ev("{\"e\":\"ReqInv\",\"t\":%d}", t); s.src[t]->request_stop(); ev("{\"e\":\"ReqRet\",\"t\":%d}", t); break;
            case 'S': ev("{\"e\":\"SrcDropInv\"}"); s.src[t].reset(); ev("{\"e\":\"SrcDropRet\"}"); break;
            case 'w': case 'W': waiter(s, w, O[t][i] == 'W'); K("WaitRet", w); break;
            case 't': outer(s, w); K("WaitRet", w); break;
            case 'n': none(w); break;
            }
        }
    });
    ev("{\"e\":\"Quiesce\"}");
    bool any = false; for (auto& x : s.src) if (x && !any) { any = true; g_payload = g_payload; s.data = 7; ev("{\"e\":\"ReqInv\",\"t\":0}"); x->request_stop(); ev("{\"e\":\"ReqRet\",\"t\":0}"); ev("{\"e\":\"Quiesce\"}"); }
    if (!any && !s.tok.stop_requested()) { vrt::forgive_leaks(); vrt::stop_run(); return; }
    sp.reset();
    ev("{\"e\":\"End\"}");
}
