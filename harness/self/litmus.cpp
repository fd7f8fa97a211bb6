// Litmus tests of the runtime's memory models (tools/selftest.sh): program = name; prints the registers as one event.
#include "../vrt.h"
#include <atomic>
#include <thread>
#include <string>
#include <cstdio>
static std::string P; void scenario_load(const std::string& p) { P = p; }
#define MO(x) std::memory_order_##x
struct S { std::atomic<int> x{0}, y{0}, z{0}; int d = 0; int r[4] = {-1, -1, -1, -1}; };
template<class... F> static void par(F... f) { std::thread t[] = {std::thread(f)...}; for (auto& i : t) i.join(); }
void scenario_main() {
    { S* s = new S; auto& x = s->x; auto& y = s->y; auto& z = s->z; auto* r = s->r;
    auto sb = [&](auto st, auto ld) { par([=, &x, &y, &z] { x.store(1, st); r[0] = y.load(ld); z.load(MO(relaxed)); }, [=, &x, &y, &z] { y.store(1, st); r[1] = x.load(ld); z.load(MO(relaxed)); }); };
    auto sbx = [&](auto st, auto ld) { par([=, &x, &y, &z] { x.exchange(1, st); r[0] = y.load(ld); z.load(MO(relaxed)); }, [=, &x, &y, &z] { y.exchange(1, st); r[1] = x.load(ld); z.load(MO(relaxed)); }); };
    auto sbf = [&](bool f2) { par([=, &x, &y, &z] { x.store(1, MO(relaxed)); std::atomic_thread_fence(MO(seq_cst)); r[0] = y.load(MO(relaxed)); z.load(MO(relaxed)); }, [=, &x, &y, &z] { y.store(1, MO(relaxed)); if (f2) std::atomic_thread_fence(MO(seq_cst)); r[1] = x.load(MO(relaxed)); z.load(MO(relaxed)); }); };
    auto mp = [&](auto st, auto ld) { par([=, &x, &y] { x.store(1, MO(relaxed)); y.store(1, st); }, [=, &x, &y] { r[0] = y.load(ld); r[1] = x.load(MO(relaxed)); }); };
    auto corr = [&] { par([=, &x] { x.store(1, MO(relaxed)); x.store(2, MO(relaxed)); }, [=, &x] { r[0] = x.load(MO(relaxed)); r[1] = x.load(MO(relaxed)); }); };
    auto iriw = [&](auto ld) { par([&] { x.store(1, MO(seq_cst)); }, [&] { y.store(1, MO(seq_cst)); }, [=, &x, &y] { r[0] = x.load(ld); r[1] = y.load(ld); }, [=, &x, &y] { r[2] = y.load(ld); r[3] = x.load(ld); }); };
    auto wrc = [&](auto st, auto ld) { par([&] { x.store(1, MO(relaxed)); }, [=, &x, &y] { r[0] = x.load(MO(relaxed)); y.store(1, st); }, [=, &x, &y] { r[1] = y.load(ld); r[2] = x.load(MO(relaxed)); }); };
    auto rseq = [&](auto mid) { par([=, &x, &y] { x.store(1, MO(relaxed)); y.store(1, MO(release)); }, [=, &y] { y.fetch_add(1, mid); }, [=, &x, &y] { r[0] = y.load(MO(acquire)); r[1] = x.load(MO(relaxed)); }); };
    auto evs = [&] { par([=, &x] { x.store(1, MO(relaxed)); vrt::ev("{\"e\":\"w\"}"); }, [=, &x] { vrt::ev("{\"e\":\"r\"}"); r[0] = x.load(MO(acquire)); }); };
    if (P == "sb_sc") sb(MO(seq_cst), MO(seq_cst)); if (P == "sb_ra") sb(MO(release), MO(acquire)); if (P == "sb_scst") sb(MO(seq_cst), MO(acquire));
    if (P == "sbx_ra") sbx(MO(acq_rel), MO(acquire)); if (P == "sbx_sc") sbx(MO(seq_cst), MO(seq_cst));
    if (P == "sbf_2") sbf(true); if (P == "sbf_1") sbf(false);
    if (P == "mp_ra") mp(MO(release), MO(acquire)); if (P == "mp_rlx") mp(MO(relaxed), MO(acquire)); if (P == "mp_rlx2") mp(MO(release), MO(relaxed));
    if (P == "corr") corr(); if (P == "iriw_sc") iriw(MO(seq_cst)); if (P == "iriw_ra") iriw(MO(acquire));
    if (P == "wrc_ra") wrc(MO(release), MO(acquire)); if (P == "wrc_rlx") wrc(MO(relaxed), MO(relaxed)); if (P == "rseq") rseq(MO(relaxed)); if (P == "evs") evs();
    vrt::ev("{\"e\":\"%s\",\"r\":\"%d %d %d %d\"}", P.c_str(), r[0], r[1], r[2], r[3]);
    delete s; }
}
