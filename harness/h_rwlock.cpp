// Every interleaving (within the preemption bound) of threads on the reader-writer lock and its scoped locks.
#include "sched.h"
#include "utils/mutex.h"
#include <thread>
using namespace vf;
using namespace ts;
namespace {
    typedef unique_read_lock<rwmutex> RL;
    typedef unique_write_lock<rwmutex> WL;
    struct Data { int a = 0, b = 0; int readers = 0, writers = 0; };   // a, b: plain, judged by the race detector
    struct Box { rwmutex m; Data d; std::mutex c; };
    void enter(Box &x, bool w) {
        std::unique_lock<std::mutex> l(x.c);
        if (w) { if (x.d.readers || x.d.writers) sfail("a writer enters while the lock is held by another"); x.d.writers++; }
        else { if (x.d.writers) sfail("a reader enters while a writer holds the lock"); x.d.readers++; }
    }
    void leave(Box &x, bool w) { std::unique_lock<std::mutex> l(x.c); if (w) x.d.writers--; else x.d.readers--; }
    void rd(Box &x) { rt_point(); if (x.d.a != x.d.b) sfail("a reader sees half of a write"); }
    void wr(Box &x) { x.d.a++; rt_point(); x.d.b++; }
    // style: 0 plain calls, 1 scoped, 2 scoped and moved. `check` adds bookkeeping that itself synchronises, so both variants are explored
    void op(Box &x, char k, int style, bool check) {
        bool w = k == 'W';
        auto body = [&] { if (check) enter(x, w); if (w) wr(x); else rd(x); if (check) leave(x, w); };
        if (style == 0) { if (w) x.m.lock_write(); else x.m.lock_read(); body(); if (w) x.m.release_write(); else x.m.release_read(); }
        else if (style == 1) { if (w) { WL l(x.m); body(); } else { RL l(x.m); body(); } }
        else { if (w) { WL l(x.m); WL k2(std::move(l)); body(); } else { RL l(x.m); RL k2(std::move(l)); body(); } }
    }
    // writes are counted in the end: none is lost, nobody is stranded (a stranded thread is a deadlock)
    void play(const std::vector<std::string> &threads, int style, bool check) {
        Box x; int writes = 0;
        for (auto &t : threads) for (auto k : t) writes += k == 'W';
        std::vector<std::thread> v;
        for (size_t i = 1; i < threads.size(); ++i) v.emplace_back([&, i] { for (auto k : threads[i]) op(x, k, style, check); });
        for (auto k : threads[0]) op(x, k, style, check);
        for (auto &t : v) t.join();
        if (x.d.a != writes || x.d.b != writes) sfail("a write is lost");
        x.m.lock_write(); x.m.release_write();
        x.m.lock_read(); x.m.release_read();
        rt_outcome(writes);
    }
}
int main(int argc, const char **argv) {
    parse(argc, argv);
    auto &X = explorer();
    const bool th = S().thorough;
    std::vector<std::string> one = {"R", "W"}, two = {"R", "W", "RR", "RW", "WR", "WW"};
    auto go = [&](const std::vector<std::string> &t, int style, bool check, int bound) {
        std::string n = std::string(style == 0 ? "calls " : style == 1 ? "scoped " : "moved ") + (check ? "counted " : "");
        for (auto &s : t) n += s + "|";
        X.explore(n, bound, 1, true, [=] { play(t, style, check); }, 8);
    };
    for (int style = 0; style < 3; ++style) for (bool check : {false, true}) {
        for (auto &a : two) for (auto &b : two) go({a, b}, style, check, th ? 4 : style == 0 ? 3 : 2);
        for (auto &a : one) for (auto &b : one) for (auto &c : one) go({a, b, c}, style, check, style == 0 ? (th ? 3 : 2) : 1);
        if (style == 0) for (auto &a : two) for (auto &b : two) for (auto &c : two) if (a.size() + b.size() + c.size() > 3 && (th || a.size() + b.size() + c.size() <= 4)) go({a, b, c}, style, check, th ? 2 : 1);
    }
    // readers hold the lock together: each waits inside until the other is inside
    for (int style : {0, 1}) X.explore(std::string("two readers inside together, style ") + std::to_string(style), 3, 1, true, [=] {
        rwmutex m; std::mutex g; std::condition_variable c; int in = 0;
        auto f = [&] { auto body = [&] { std::unique_lock<std::mutex> l(g); ++in; c.notify_all(); while (in < 2) c.wait(l); };
            if (style == 0) { m.lock_read(); body(); m.release_read(); } else { RL l(m); body(); } };
        std::thread t(f); f(); t.join(); });
    // moves between scoped locks; afterwards the lock must be free, and in between exactly the owned locks are held
    struct Mv { const char *n; std::function<void(rwmutex &, rwmutex &)> f; };
    std::vector<Mv> mv = {
        {"move a read lock", [=](rwmutex &m, rwmutex &) { RL a(m); RL b(std::move(a)); }},
        {"move a write lock", [=](rwmutex &m, rwmutex &) { WL a(m); WL b(std::move(a)); }},
        {"assign over a held read lock", [=](rwmutex &m, rwmutex &k) { RL a(m); { RL b(k); a = std::move(b); } }},
        {"assign over a held write lock", [=](rwmutex &m, rwmutex &k) { WL a(m); { WL b(k); a = std::move(b); } }},
        {"assign an emptied lock", [=](rwmutex &m, rwmutex &k) { WL a(m); WL b(std::move(a)); WL c(k); c = std::move(a); }},
        {"move inside a vector", [=](rwmutex &m, rwmutex &k) { std::vector<WL> v; v.emplace_back(m); v.emplace_back(k); }},
        {"assign to itself", [=](rwmutex &m, rwmutex &) { WL a(m); WL &r = a; a = std::move(r); }},
    };
    for (auto &x : mv) X.explore(std::string("scoped locks: ") + x.n, th ? 3 : 2, 1, true, [=] {
        rwmutex m, k; int v = 0;
        std::thread t([&] { m.lock_write(); ++v; m.release_write(); k.lock_write(); k.release_write(); });
        x.f(m, k);
        m.lock_write(); ++v; m.release_write(); k.lock_write(); k.release_write();
        t.join();
        if (v != 2) sfail("a write is lost"); });
    finish();
}
