// Body of a macro node; SIG, RTYPE, RETURN, N_ and LINE0 are given.
#line LINE0 "usr"
template<> SIG {
    MC_BEGIN(RTYPE, n, i = size_t(0), q = std::optional<mc::trace>{}, x = mc::task<int>{}, y = mc::task<void>{}, g = std::unique_ptr<mc::async_scope>{});
    for (; i < n->items.size(); ++i) {
        if (n->items[i].op == 'p') { MC_AWAIT(Hop{}); }
        else if (n->items[i].op == '?') { MC_AWAIT_SET(q, mc::get_trace{}); asked(n, __LINE__, *q); }
        else if (is(n->items[i], "a", 't')) { MC_AWAIT(tk<N_>(AW(C0))); }
        else if (is(n->items[i], "a", 'm')) { MC_AWAIT(mk<N_>(AW(C0))); }
        else if (is(n->items[i], "a", 'V')) { MC_AWAIT(tv<N_>(AW(C0))); }
        else if (is(n->items[i], "a", 'M')) { MC_AWAIT(mv<N_>(AW(C0))); }
        else if (is(n->items[i], "a", 'R')) { MC_AWAIT(tr<N_>(AW(C0))); }
        else if (is(n->items[i], "a", 'e')) { MC_AWAIT(ek<N_>(AW(C0))); }
        else if (is(n->items[i], "a", 'E')) { MC_AWAIT(Ek<N_>(AW(C0))); }
        else if (is(n->items[i], "l", 't')) { x = tk<N_>(AW(C0)); MC_AWAIT(x); x = {}; }
        else if (is(n->items[i], "l", 'm')) { x = mk<N_>(AW(C0)); MC_AWAIT(x); x = {}; }
        else if (is(n->items[i], "l", 'V')) { y = tv<N_>(AW(C0)); MC_AWAIT(y); y = {}; }
        else if (is(n->items[i], "w", 't')) { MC_AWAIT(mc::wrap(tk<N_>(AW(C0)))); }
        else if (is(n->items[i], "w", 'm')) { MC_AWAIT(mk<N_>(AW(C0)) | mc::wrap()); }
        else if (is(n->items[i], "w", 'V')) { MC_AWAIT(mc::wrap(tv<N_>(AW(C0)))); }
        else if (is(n->items[i], "b", 't')) { MC_AWAIT(mc::when_all_ready(tk<N_>(AW(C0)), mk<N_>(AW(C1)))); }
        else if (is(n->items[i], "v", 't')) { MC_AWAIT(mc::when_all_ready(vec(n->items[i], n, __LINE__, mk<N_>, tk<N_>))); }
        else if (is(n->items[i], "k", 't')) { MC_AWAIT(mc::make_task(tk<N_>(AW(C0)))); }
        else if (is(n->items[i], "j", 't')) { MC_AWAIT(mc::make_eager(tk<N_>(AWR(C0)))); }
        else if (is(n->items[i], "x", 't')) { MC_AWAIT(mc::take_until(tk<N_>(AW(C0)), Until{})); }
        else if (is(n->items[i], "y", 't')) { x = tk<N_>(AW(C0)); MC_AWAIT(x.when_ready()); x = {}; }
        else if (is(n->items[i], "o", 't')) { mc::sync_wait(tk<N_>(added(C0, __LINE__))); }
        else if (n->items[i].op == 'g') { g.reset(new mc::async_scope); { auto s1 = g->add(tk<N_>(added(C0, __LINE__))); } MC_AWAIT(*g); g.reset(); }
        else abort();
    }
    done(n);
    RETURN
    MC_END();
}
