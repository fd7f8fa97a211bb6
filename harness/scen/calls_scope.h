// Body of a when_all_scope node; SIG, N_ and LINE0 are given.
#line LINE0 "usr"
template<> SIG {
    for (auto& I : n->items) {
        if (I.op == 'p') { co_await Hop{}; }
        else if (is(I, "a", 't')) { co_await tk<N_>(AW(C0)); }
        else if (is(I, "a", 'm')) { co_await mk<N_>(AW(C0)); }
        else if (is(I, "a", 's')) { co_await sk<N_>(AW(C0)); }
        else if (is(I, "w", 't')) { co_await mc::wrap(tk<N_>(AW(C0))); }
        else if (is(I, "d", 't')) { auto s = co_await mc::scoped(tk<N_>(AW(C0))); }
        else if (is(I, "d", 'm')) { auto s = co_await mc::scoped(mk<N_>(AW(C0))); }
        else if (is(I, "d", 's')) { auto s = co_await mc::scoped(sk<N_>(AW(C0))); }
        else if (is(I, "d", 'V')) { auto s = co_await mc::scoped(tv<N_>(AW(C0))); co_await std::move(s); }
        else if (is(I, "b", 't')) { co_await mc::when_all_ready(tk<N_>(AW(C0)), mk<N_>(AW(C1))); }
        else abort();
    }
    done(n);
}
