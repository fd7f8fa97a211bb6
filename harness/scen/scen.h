// Shared helpers of the scenario drivers.
#pragma once
#include "vrt.h"
#include <cassert>
#include <coroutine>
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <exception>
#include <atomic>
#include <functional>
#include <memory>
#include <mutex>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>
#include <optional>
#include <iostream>
#include "macoro/config.h"
#include "macoro/coroutine_handle.h"

namespace sc {
using vrt::ev;

// A detached coroutine: starts at once, releases itself when it ends.
struct fire {
    struct promise_type {
        fire get_return_object() noexcept { return {}; }
        std::suspend_never initial_suspend() noexcept { return {}; }
        std::suspend_never final_suspend() noexcept { return {}; }
        void return_void() noexcept {}
        void unhandled_exception() noexcept { ev("{\"e\":\"Unhandled\"}"); vrt::stop_run(); }
    };
};

inline std::vector<std::string> split(const std::string& s, char d) {
    std::vector<std::string> v; std::string c;
    for (char x : s) if (x == d) { v.push_back(c); c.clear(); } else c += x;
    v.push_back(c);
    return v;
}
inline std::vector<std::string> words(const std::string& s) {
    std::vector<std::string> v; std::istringstream i(s); std::string w; while (i >> w) v.push_back(w); return v;
}

// run body(0..n-1), body(0) on the calling thread, the others on their own
template<class F> void threads(int n, F body) {
    std::vector<std::thread> th;
    for (int i = 1; i < n; ++i) th.emplace_back([body, i] { body(i); });
    body(0);
    for (auto& t : th) t.join();
}
}

namespace sc {
// One-shot gate: a coroutine awaits it, any thread opens it (resuming inline).
struct Gate {
    std::atomic<void*> st{nullptr};
    bool await_ready() const noexcept { return st.load(std::memory_order_acquire) == (void*)this; }
    bool await_suspend(std::coroutine_handle<> h) noexcept {
        void* e = nullptr;
        return st.compare_exchange_strong(e, h.address(), std::memory_order_acq_rel, std::memory_order_acquire);
    }
    bool await_suspend(macoro::coroutine_handle<> h) noexcept {
        return await_suspend(h.std_cast());
    }
    void await_resume() const noexcept {}
    void open() {
        void* o = st.exchange((void*)this, std::memory_order_acq_rel);
        if (o && o != (void*)this) std::coroutine_handle<>::from_address(o).resume();
    }
};

// Results with identity: construction and destruction are visible as heap traffic
// (leak / double free / use after free detection) and the value is checked.
struct Obj {
    int* p;
    Obj() : p(new int(0)) {}
    explicit Obj(int v) : p(new int(v)) {}
    Obj(Obj&& o) noexcept : p(std::exchange(o.p, nullptr)) {}
    Obj& operator=(Obj&& o) noexcept { if (this != &o) { delete p; p = std::exchange(o.p, nullptr); } return *this; }
    Obj(const Obj&) = delete;
    ~Obj() { delete p; }
    int get() const { return p ? *p : -1; }
};
// An exception with identity.
struct Err : std::exception {
    int v; int* p; std::string w;      // (an exception object that is never released is a leak)
    explicit Err(int x) : v(x), p(new int(x)), w("boom" + std::to_string(x)) {}
    Err(const Err& o) : v(o.v), p(new int(o.v)), w(o.w) {}
    Err& operator=(const Err&) = delete;
    ~Err() { delete p; }
    const char* what() const noexcept override { return w.c_str(); }
};
// A result that throws when it becomes an Obj.
struct Bomb { int v; operator Obj() const { throw Err(v); } };
// Emits an event when it is destroyed (a local of a coroutine body).
struct Local {
    const char* name; int id; int* h;
    Local(const char* n, int i) : name(n), id(i), h(new int(i)) {}
    Local(const Local&) = delete;
    ~Local() { delete h; ev("{\"e\":\"%s\",\"k\":%d}", name, id); }
};
}
