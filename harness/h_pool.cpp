// Every interleaving (within the preemption bound) of the thread pool and its users.
#include "sched.h"
#include "runtime/inside/thread_pool.h"
#include "runtime/inside/parallel.h"
#include "utils/ctxmgr_lite.h"
#include <thread>
using namespace vf;
using namespace ts;
namespace {
    // plain memory: the race detector judges whether the library orders the accesses
    struct Log {
        int ran[8]; int after[8]; int on[8]; int inside[4]; int value[8];
        Log() { memset(this, 0, sizeof *this); memset(on, -1, sizeof on); }
    };
    std::string str(int i) { return std::to_string(i); }
    struct G { std::mutex m; std::condition_variable c; bool open = false;
        void wait() { std::unique_lock<std::mutex> l(m); while (!open) c.wait(l); }
        void set() { std::unique_lock<std::mutex> l(m); open = true; c.notify_all(); } };
    Thread::task_type task(Log *l, int i, int size) {
        return [=](int id) {
            if (id < 0 || id >= size) sfail("task runs with worker number " + str(id));
            if (l->inside[id]++ != 0) sfail("two tasks at once on one worker");
            rt_point();
            l->ran[i]++; l->on[i] = id; l->value[i] = 100 + i;
            if (--l->inside[id] != 0) sfail("two tasks at once on one worker");
        };
    }
    Thread::after_task_type after(Log *l, int i) {
        return [=](int id) { if (l->ran[i] != 1) sfail("the follow-up runs before its task"); l->after[i]++; if (id != l->on[i]) sfail("the follow-up gets another worker number"); };
    }
    void expect(Log &l, int n, bool aft, const char *when) {
        uint64_t h = 7;
        for (int i = 0; i < 8; ++i) {
            if (l.ran[i] != (i < n ? 1 : 0)) sfail("task " + str(i) + " ran " + str(l.ran[i]) + " times " + when);
            if (i < n && l.value[i] != 100 + i) sfail("what the task wrote is missing");
            if (aft && l.after[i] != (i < n ? 1 : 0)) sfail("the follow-up of task " + str(i) + " ran " + str(l.after[i]) + " times " + when);
            h = h * 31 + l.on[i];
        }
        rt_outcome(h);
    }
}
int main(int argc, const char **argv) {
    parse(argc, argv);
    auto &X = explorer();
    const bool th = S().thorough;
    const int B = th ? 3 : 2;
    auto go = [&](const std::string &n, int bound, const std::function<void()> &f) { X.explore(n, bound, 1, true, f); };

    go("worker: create and destroy", B, [] { Thread t; });
    go("worker: run, join", B, [] { Log l; { Thread t; t.run(0, task(&l, 0, 1)); t.join(); expect(l, 1, false, "by the end of join"); } expect(l, 1, false, "in the end"); });
    go("worker: run with follow-up, join", B, [] { Log l; { Thread t; t.run(0, task(&l, 0, 1), after(&l, 0)); t.join(); expect(l, 1, true, "by the end of join"); } });
    go("worker: run, destroy", B, [] { Log l; { Thread t; t.run(0, task(&l, 0, 1), after(&l, 0)); } expect(l, 1, true, "by the end of the destructor"); });
    go("worker: run twice, join", B, [] { Log l; { Thread t; t.run(0, task(&l, 0, 1)); t.run(0, task(&l, 1, 1)); t.join(); expect(l, 2, false, "by the end of join"); } });
    go("worker: run twice, destroy", B, [] { Log l; { Thread t; t.run(0, task(&l, 0, 1), after(&l, 0)); t.run(0, task(&l, 1, 1), after(&l, 1)); } expect(l, 2, true, "by the end of the destructor"); });
    go("worker: run, join, run, join", B, [] { Log l; { Thread t; t.run(0, task(&l, 0, 1)); t.join(); t.run(0, task(&l, 1, 1)); t.join(); expect(l, 2, false, "by the end of join"); if (t.busy()) sfail("busy after join"); } });
    go("worker: join without task", B, [] { Thread t; t.join(); if (t.busy()) sfail("busy without task"); });
    go("worker: two threads submit, join", B, [] {
        Log l; { Thread t; std::thread u([&] { t.run(0, task(&l, 0, 1)); }); t.run(0, task(&l, 1, 1)); u.join(); t.join(); expect(l, 2, false, "by the end of join"); } });
    go("worker: busy while the task runs", B, [] {
        G started, finish; Thread t;
        t.run(0, [&](int) { started.set(); finish.wait(); });
        if (!t.busy()) sfail("not busy although the submitted task is not finished");
        started.wait();
        if (!t.busy()) sfail("not busy although the task runs");
        finish.set(); t.join();
        if (t.busy()) sfail("busy after join"); });
    for (int size : {0, 1, 2}) for (int n : {0, 1, 2, 3}) {
        if (size == 0 && n == 0) continue;
        auto tag = "pool of " + str(size) + ", " + str(n) + " tasks: ";
        int b = B;
        if (size == 2 && n == 3) b = th ? 2 : 1;
        go(tag + "join", b, [=] {
            Log l; { ThreadPool p(size); for (int i = 0; i < n; ++i) p.run(task(&l, i, std::max(size, 1))); p.join(); expect(l, n, false, "by the end of join"); if (p.busy()) sfail("busy after join"); } expect(l, n, false, "in the end"); });
        go(tag + "follow-ups, join", b, [=] {
            Log l; { ThreadPool p(size); for (int i = 0; i < n; ++i) p.run(task(&l, i, std::max(size, 1)), after(&l, i)); p.join(); expect(l, n, true, "by the end of join"); } });
        go(tag + "destroy", b, [=] {
            Log l; { ThreadPool p(size); for (int i = 0; i < n; ++i) p.run(task(&l, i, std::max(size, 1))); } expect(l, n, false, "by the end of the destructor"); });
    }
    go("pool: join between tasks", B, [] {
        Log l; { ThreadPool p(2); p.run(task(&l, 0, 2)); p.join(); expect(l, 1, false, "by the first join"); p.run(task(&l, 1, 2)); p.run(task(&l, 2, 2)); p.join(); p.join(); expect(l, 3, false, "by the second join"); } });
    go("pool: two submitting threads", th ? 2 : 1, [] {
        Log l; { ThreadPool p(2); std::thread u([&] { p.run(task(&l, 0, 2)); p.join(); if (l.ran[0] != 1) sfail("join returns before the task submitted by the same thread"); }); p.run(task(&l, 1, 2)); u.join(); p.join(); expect(l, 2, false, "by the end of join"); } });
    go("pool: two threads compete for one worker", th ? 2 : 1, [] {
        Log l; { ThreadPool p(1); std::thread u([&] { p.run(task(&l, 0, 1)); p.run(task(&l, 1, 1)); }); p.run(task(&l, 2, 1)); u.join(); p.join(); expect(l, 3, false, "by the end of join"); } });
    // two threads use one pool: every pair of words over submit (R) and join (J)
    {
        std::vector<std::string> words;
        for (size_t len = 1; len <= (th ? 3u : 2u); ++len) for (int c = 0; c < (1 << len); ++c) { std::string w; for (size_t i = 0; i < len; ++i) w += c >> i & 1 ? 'J' : 'R'; words.push_back(w); }
        for (auto &a : words) for (auto &b : words) {
            int ra = int(std::count(a.begin(), a.end(), 'R')), rb = int(std::count(b.begin(), b.end(), 'R'));
            if (ra + rb == 0) continue;
            go("worker: one thread " + a + ", another " + b, 1, [=] {
                Log l; { Thread t;
                auto use = [&](const std::string &w, int first) {
                    int n = 0;
                    for (char k : w) {
                        if (k == 'R') t.run(0, task(&l, first + n, 1), after(&l, first + n)), ++n;
                        else { t.join(); for (int i = 0; i < n; ++i) if (l.after[first + i] != 1) sfail("join returns before a task submitted by the same thread"); }
                    } };
                std::thread u([&] { use(b, ra); }); use(a, 0); u.join(); t.join(); expect(l, ra + rb, true, "by the end of join"); } });
        }
        for (int size : {1, 2}) for (auto &a : words) for (auto &b : words) {
            int ra = int(std::count(a.begin(), a.end(), 'R')), rb = int(std::count(b.begin(), b.end(), 'R'));
            if (ra + rb == 0 || (size == 2 && ra + rb < 2)) continue;
            go("pool of " + str(size) + ": one thread " + a + ", another " + b, 1, [=] {
                Log l; { ThreadPool p(size);
                auto use = [&](const std::string &w, int first) {
                    int n = 0;
                    for (char k : w) {
                        if (k == 'R') p.run(task(&l, first + n++, size));
                        else { p.join(); for (int i = 0; i < n; ++i) if (l.ran[first + i] != 1) sfail("join returns before a task submitted by the same thread"); }
                    } };
                std::thread u([&] { use(b, ra); }); use(a, 0); u.join(); p.join(); expect(l, ra + rb, false, "by the end of join"); } });
        }
    }
    go("pool: busy while a task runs", B, [] {
        G finish; { ThreadPool p(2); if (p.busy()) sfail("busy without task"); p.run([&](int) { finish.wait(); });
        if (!p.busy()) sfail("not busy although the submitted task is not finished");
        finish.set(); p.join(); if (p.busy()) sfail("busy after join"); } });
    for (int size : {1, 2}) for (int n : {1, 2, 3, 5}) for (int kind : {0, 1, 2}) {
        auto tag = std::string(kind == 0 ? "parallel_run" : kind == 1 ? "parallel_range" : "parallel_run without join") + " over " + str(n) + " with " + str(size) + " workers";
        go(tag, th ? 2 : 1, [=] {
            int hit[16]; memset(hit, 0, sizeof hit);
            {
                ThreadPool p(size); ctx::bind<ThreadPool> _p(p);
                auto f = [&](int id, int b, int e) { if (id < 0 || id >= size) sfail("worker number " + str(id)); for (int i = b; i < e; ++i) { if (i < 3 || i >= 3 + n) sfail("index outside the range"); hit[i]++; } };
                if (kind == 1) parallel_range([&](int id, const Range &r) { f(id, r.first, r.second); }, 3, 3 + n);
                else parallel_run(f, 3, 3 + n, kind == 0);
                if (kind == 2) parallel_sync();
                for (int i = 3; i < 3 + n; ++i) if (hit[i] != 1) sfail("index " + str(i) + " is covered " + str(hit[i]) + " times");
            }
        });
    }
    finish();
}
