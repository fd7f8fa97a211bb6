// async_manual_reset_event.  Program: "init|ops of thread 0|ops of thread 1|..."
// ops: s set, r reset, q query, w start a coroutine that awaits the event,
//      W start a coroutine that awaits it twice
#include "scen.h"
#include "macoro/manual_reset_event.h"
using namespace macoro; using namespace sc;

static int g_init; static std::vector<std::string> g_ops; static std::vector<std::vector<int>> g_wid; static bool g_payload, g_waits;

void scenario_load(const std::string& p) {
    auto v = split(p, '|');
    g_init = v[0] == "1"; g_ops.assign(v.begin() + 1, v.end());
    int w = 0, sets = 0; g_wid.clear();
    for (auto& o : g_ops) { g_wid.emplace_back(); for (char c : o) { g_wid.back().push_back(w); if (c == 'w' || c == 'W') ++w; if (c == 's') ++sets; } }
    g_payload = !g_init && sets == 1; g_waits = w > 0;
}
struct St { std::unique_ptr<async_manual_reset_event> p; async_manual_reset_event& e; int payload = 0; St(bool b) : p(b ? new async_manual_reset_event(true) : new async_manual_reset_event()), e(*p) {} };
static fire waiter(St& s, int w, bool twice) {
    std::unique_ptr<int> own(new int(w));
    ev("{\"e\":\"WaitInv\",\"w\":%d,\"t\":%d}", w, vrt::tid());
    co_await s.e;
    if (g_payload && s.payload != 7) ev("{\"e\":\"BadPayload\"}");
    ev("{\"e\":\"Resume\",\"w\":%d,\"t\":%d}", *own, vrt::tid());
    if (twice) {
        ev("{\"e\":\"WaitInv\",\"w\":%d,\"t\":%d}", w, vrt::tid());
        co_await s.e;
        ev("{\"e\":\"Resume\",\"w\":%d,\"t\":%d}", *own, vrt::tid());
    }
}
void scenario_main() {
    ev("{\"e\":\"Cfg\",\"init\":%s}", g_init ? "true" : "false");
    auto s = std::make_unique<St>(g_init != 0);
    threads((int)g_ops.size(), [&](int t) {
        for (size_t i = 0; i < g_ops[t].size(); ++i) {
            char c = g_ops[t][i];
            int me = vrt::tid();
            switch (c) {
            case 's': if (g_payload) s->payload = 7;
                ev("{\"e\":\"SetInv\",\"t\":%d}", me); s->e.set(); ev("{\"e\":\"SetRet\",\"t\":%d}", me); break;
            case 'r': ev("{\"e\":\"ResetInv\",\"t\":%d}", me); s->e.reset(); ev("{\"e\":\"ResetRet\",\"t\":%d}", me); break;
            case 'q': { ev("{\"e\":\"QInv\",\"t\":%d}", me); bool b = s->e.is_set(); ev("{\"e\":\"QRet\",\"t\":%d,\"v\":%s}", me, b ? "true" : "false"); break; }
            case 'w': case 'W': waiter(*s, g_wid[t][i], c == 'W'); ev("{\"e\":\"WaitRet\",\"w\":%d,\"t\":%d}", g_wid[t][i], me); break;
            }
        }
    });
    bool b = s->e.is_set();
    ev("{\"e\":\"Quiesce\",\"v\":%s}", b ? "true" : "false");
    // release everybody (and those that wait again); an event nobody uses is destroyed as it is
    if (g_waits) {
        ev("{\"e\":\"SetInv\",\"t\":0}"); s->e.set(); ev("{\"e\":\"SetRet\",\"t\":0}");
        ev("{\"e\":\"Quiesce\",\"v\":true}");
    }
    s.reset();
    ev("{\"e\":\"End\"}");
}
