// Threads sharing one locked mirrored value: every schedule inside the preemption bound.
#include "sched.h"
#include <core/sync/sync_block.h>
#include <memory>
#include <thread>
#include <atomic>
using namespace vf;
namespace {
    typedef ts::SyncBlock<int, int> B;
    // letters: a,b = sync to device 1,2; 0 = sync to device 0; v,w = view of device 1,2 and its value; r = value; k = view of the own device; i = iterate
    void play(const std::vector<std::string> &threads) {
        std::atomic<int> n1(0), n2(0);
        B b(0, 7, [&](const int &v, const int &from, const int &to) -> int { rt_point(); if (to == 1) n1++; else if (to == 2) n2++; else sfail("a conversion nobody needs"); if (v != 7 + from) sfail("a conversion is given another value than that of its device"); return v + to - from; }, true);
        auto op = [&](char k) {
            int got = 0, want = 0;
            if (k == 'a') got = b.sync(1), want = 8;
            else if (k == 'b') got = b.sync(2), want = 9;
            else if (k == '0') got = b.sync(0), want = 7;
            else if (k == 'v') { auto x = b.view(1); got = x->value(); want = 8; if (x->key() != 1) sfail("a view names another device"); }
            else if (k == 'w') { auto x = b.view(1)->view(2); got = x->value(); want = 9; }
            else if (k == 'k') { auto x = b.view(0); got = x->value(); want = 7; }
            else if (k == 'i') { got = want = 0; b.foreach([&](const int &d, const int &v) { if (v != 7 + d) sfail("iteration shows a wrong value"); }); }
            else got = b.value(), want = 7;
            if (got != want) sfail("a thread reads a wrong value");
        };
        std::vector<std::thread> t;
        for (size_t i = 1; i < threads.size(); ++i) t.emplace_back([&, i] { for (auto k : threads[i]) op(k); });
        for (auto k : threads[0]) op(k);
        for (auto &x : t) x.join();
        if (n1 > 1 || n2 > 1) sfail("a device was brought up to date more than once");
        rt_outcome(n1 * 10 + n2);
    }
}
int main(int argc, const char **argv) {
    parse(argc, argv);
    auto &X = explorer();
    const bool th = S().thorough;
    std::string all = "ab0vwrki";
    auto go = [&](const std::vector<std::string> &t, int bound) { std::string n; for (auto &s : t) n += s + "|"; X.explore(n, bound, 0, true, [=] { play(t); }, 8); };
    for (size_t i = 0; i < all.size(); ++i) for (size_t j = i; j < all.size(); ++j) go({std::string(1, all[i]), std::string(1, all[j])}, th ? 4 : 3);
    std::vector<std::string> two = {"ab", "va", "rb", "wr", "ai"};
    for (auto &a : two) for (auto &b : two) go({a, b}, th ? 3 : 2);
    std::string three = "avri";
    for (char a : three) for (char b : three) for (char c : three) if (a <= b && b <= c) go({std::string(1, a), std::string(1, b), std::string(1, c)}, th ? 2 : 1);
    finish();
}
