// Body of a native node; SIG, RETURN, N_ (the depth of the children) and LINE0 are given.
#line LINE0 "usr"
template<> SIG {
    for (auto& I : n->items) {
        if (I.op == 'p') { co_await Hop{}; }
        else if (I.op == '?') { auto q = co_await mc::get_trace{}; asked(n, __LINE__, q); }
        else if (is(I, "a", 't')) { co_await tk<N_>(AW(C0)); }
        else if (is(I, "a", 'm')) { co_await mk<N_>(AW(C0)); }
        else if (is(I, "a", 'V')) { co_await tv<N_>(AW(C0)); }
        else if (is(I, "a", 'M')) { co_await mv<N_>(AW(C0)); }
        else if (is(I, "a", 'R')) { co_await tr<N_>(AW(C0)); }
        else if (is(I, "a", 's')) { co_await sk<N_>(AW(C0)); }
        else if (is(I, "a", 'e')) { co_await ek<N_>(AW(C0)); }
        else if (is(I, "a", 'E')) { co_await Ek<N_>(AW(C0)); }
        else if (is(I, "l", 't')) { auto x = tk<N_>(C0); AW(C0); co_await x; co_await x; }
        else if (is(I, "l", 'm')) { auto x = mk<N_>(C0); AW(C0); co_await x; }
        else if (is(I, "l", 'V')) { auto x = tv<N_>(C0); AW(C0); co_await x; }
        else if (is(I, "l", 'R')) { auto x = tr<N_>(C0); AW(C0); co_await x; }
        else if (is(I, "w", 't')) { co_await mc::wrap(tk<N_>(AW(C0))); }
        else if (is(I, "w", 'm')) { co_await (mk<N_>(AW(C0)) | mc::wrap()); }
        else if (is(I, "w", 'V')) { co_await mc::wrap(tv<N_>(AW(C0))); }
        else if (is(I, "w", 's')) { co_await mc::wrap(sk<N_>(AW(C0))); }
        else if (I.op == 'b' && is(I, "b", 't')) { auto x = tk<N_>(C0); auto y = mk<N_>(C1); AW(C0); AW(C1); co_await mc::when_all_ready(std::move(x), std::move(y)); }
        else if (I.op == 'b' && is(I, "b", 'V')) { auto x = tv<N_>(C0); auto y = tr<N_>(C1); AW(C0); AW(C1); co_await mc::when_all_ready(std::move(x), std::move(y)); }
        else if (I.op == 'v') { auto v = vec(I, n, __LINE__, mk<N_>, tk<N_>); co_await mc::when_all_ready(std::move(v)); }
        else if (is(I, "u", 't')) { mc::inline_scheduler ex; co_await mc::start_on(ex, tk<N_>(AWR(C0))); }
        else if (is(I, "k", 't')) { co_await mc::make_task(tk<N_>(AW(C0))); }
        else if (is(I, "k", 'V')) { co_await mc::make_task(tv<N_>(AW(C0))); }
        else if (is(I, "j", 't')) { co_await mc::make_eager(tk<N_>(AWR(C0))); }
        else if (is(I, "x", 't')) { co_await mc::take_until(tk<N_>(AW(C0)), Until{}); }
        else if (is(I, "x", 'V')) { co_await mc::take_until(tv<N_>(AW(C0)), Until{}); }
        else if (is(I, "y", 't')) { auto x = tk<N_>(AW(C0)); co_await x.when_ready(); co_await x; }
        else if (is(I, "y", 'R')) { auto x = tr<N_>(AW(C0)); co_await x.when_ready(); }
        else if (is(I, "o", 't')) { mc::sync_wait(tk<N_>(added(C0, __LINE__))); }
        else if (is(I, "o", 'm')) { mc::sync_wait(mk<N_>(added(C0, __LINE__))); }
        else if (I.op == 'g') { mc::async_scope g; { auto s1 = g.add(tk<N_>(added(C0, __LINE__))); if (I.ch.size() > 1) { auto s2 = g.add(mk<N_>(added(C1, __LINE__))); } } co_await g; }
        else abort();
    }
    done(n);
    RETURN
}
