// Every interleaving (within the preemption bound) of threads that each use workbenches of their own.
#include "sched.h"
#include "ops.h"
#include "module/menu.h"
#include "global/operator_factory.h"
#include "global/hard_allocator.h"
#include "global/hard_converter.h"
#include "global/memory_device.h"
#include "global/device_admin.h"
#include "global/fp16_operator_factory.h"
#include "global/shape_inferer_factory.h"
#include "runtime/program.h"
#include "runtime/instruction/instruction_factory.h"
#include "runtime/image_filter.h"
#include "core/device_context.h"
#include "core/tensor_builder.h"
#include "frontend/frontend.h"
#include "frontend/intime.h"
#include "module/io/sstream.h"
#include "utils/ctxmgr_lite.h"
#include "api/tennis.h"
#include <thread>
using namespace vf;
using namespace ts;
namespace {
    std::string str(double v) { std::ostringstream o; o << v; return o.str(); }
    Tensor vec(const std::vector<float> &v, const Shape &s) { Tensor t(MemoryDevice(CPU), FLOAT32, s); for (size_t i = 0; i < v.size(); ++i) t.data<float>()[i] = v[i]; return t; }
    void same(const Tensor &t, const std::vector<float> &want, const char *what) {
        if (t.dtype() != FLOAT32 || t.count() != int(want.size())) sfail(std::string(what) + ": wrong type or size");
        for (size_t i = 0; i < want.size(); ++i) if (t.data<float>()[i] != want[i]) sfail(std::string(what) + ": element " + std::to_string(i) + " is " + str(t.data<float>()[i]) + " instead of " + str(want[i]));
    }
    // runs both bodies on their own threads; an exception is a violation
    void both(const std::function<void()> &a, const std::function<void()> &b) {
        auto safe = [](const std::function<void()> &f) { try { f(); } catch (const std::exception &e) { sfail(std::string("exception: ") + e.what()); } };
        std::thread t([&] { safe(b); }); safe(a); t.join();
    }
    // x -> transpose(x) + c, relu, gather(c, 1), c : shared constants, operator parameters read while running
    Module::shared small() {
        Graph g; ctx::bind<Graph> _g(g);
        auto x = bubble::param("x");
        auto c = bubble::data("c", vec({1, 2, 3, 4}, {2, 2}));
        auto t = bubble::op("t", "_transpose", {x}); t->set("permute", tensor::build(INT32, {2}, {1, 0}));
        auto s = bubble::op("s", "add", {t, c});
        auto r = bubble::op("r", "relu", {s});
        auto m = Module::Load(g, std::vector<Node>{r, c}); m->sort_inputs({"x"}); return m;
    }
    Module::shared net() {
        Graph g; ctx::bind<Graph> _g(g);
        auto x = bubble::param("x");
        auto w = bubble::data("w", vec({1, 0, 0, 1, 2, 1, 1, 2}, {2, 1, 2, 2}));
        auto b = bubble::data("b", vec({1, -1}, {2}));
        auto conv = bubble::op("conv", "conv2d", {x, w});
        conv->set("format", tensor::from("NCHW")); conv->set("padding", tensor::build(INT32, {4, 2}, {0, 0, 0, 0, 0, 0, 0, 0}));
        conv->set("stride", tensor::build(INT32, {1, 1, 1, 1})); conv->set("dilation", tensor::build(INT32, {1, 1, 1, 1}));
        auto bias = bubble::op("bias", "add_bias", {conv, b}); bias->set("dim", tensor::from<int32_t>(1));
        auto act = bubble::op("act", "relu", {bias});
        auto pool = bubble::op("pool", "pooling2d", {act});
        pool->set("format", tensor::from("NCHW")); pool->set("type", tensor::from<int32_t>(0)); pool->set("padding", tensor::build(INT32, {4, 2}, {0, 0, 0, 0, 0, 0, 0, 0}));
        pool->set("ksize", tensor::build(INT32, {1, 1, 2, 2})); pool->set("stride", tensor::build(INT32, {1, 1, 1, 1}));
        auto f = bubble::op("f", "flatten", {pool});
        auto k = bubble::data("k", vec({1, 2, 3, 4}, {2, 2}));
        auto ip = bubble::op("ip", "inner_prod", {f, k});
        auto m = Module::Load(g, std::vector<Node>{ip}); m->sort_inputs({"x"}); return m;
    }
    const std::vector<float> NETIN = {1, 2, 3, 4, 5, 6, 7, 8, 9};
    std::vector<float> netout(float scale) {
        // conv 3x3 * 2x2 -> 2x2 per channel; + bias; max over 2x2; 2 values times K
        float best[2] = {0, 0}; const float w[2][4] = {{1, 0, 0, 1}, {2, 1, 1, 2}}, b[2] = {1, -1};
        for (int c = 0; c < 2; ++c) for (int y = 0; y < 2; ++y) for (int x = 0; x < 2; ++x) {
            float v = b[c]; for (int j = 0; j < 2; ++j) for (int i = 0; i < 2; ++i) v += w[c][j * 2 + i] * scale * NETIN[(y + j) * 3 + x + i];
            best[c] = std::max(best[c], v); }
        return {best[0] * 1 + best[1] * 3, best[0] * 2 + best[1] * 4};
    }
    void use_small(Workbench &b, float k, const char *who) {
        b.input(0, vec({k, 2 * k, -50, 4 * k}, {2, 2}));
        b.run();
        same(b.output(0), {k + 1, 0, 2 * k + 3, 4 * k + 4}, who);
        same(b.output(1), {1, 2, 3, 4}, who);
    }
    void use_net(Workbench &b, float k, const char *who) {
        auto v = NETIN; for (auto &x : v) x *= k;
        b.input("x", vec(v, {1, 1, 3, 3})); b.run(); same(b.output(0), netout(k), who);
    }
    std::shared_ptr<Workbench> bench() { return std::make_shared<Workbench>(ComputingDevice(CPU), 1); }
}
int main(int argc, const char **argv) {
    parse(argc, argv);
    setenv("TENNIS_NUMBER_THREADS", "1", 1);
    auto &X = explorer();
    const bool th = S().thorough;
    auto go = [&](const std::string &n, int bound, bool atomics, const std::function<void()> &f) { X.explore(n, bound, 0, atomics, f, 16, 1000000, true, true); };
    const int B = th ? 2 : 1;
    // ---- first use of everything happens on two threads at once (each execution is a fresh process)
    go("cold: registry lookups", B, false, [] {
        auto f = [] {
            auto op = OperatorCreator::Create(CPU, "add", true); if (!op) sfail("operator not found");
            if (OperatorCreator::Query(CPU, "no such operator")) sfail("operator invented");
            if (!HardAllocator::Query(CPU)) sfail("allocator not found");
            if (!HardConverter::Query(CPU, CPU)) sfail("converter not found");
            if (!(ComputingMemory::Query(ComputingDevice(CPU)) == MemoryDevice(CPU))) sfail("memory device not found");
            DeviceAdmin::Query(CPU);
            InstructionCreator::Query("_copy"); Fp16OperatorCreator::Query(CPU, "add", false); ShapeInferer::Query("add");
        };
        both(f, f); });
    go("cold: create a workbench, run an operator", B, false, [] {
        auto f = [] { auto b = bench(); Bubble bub("add", "a"); std::vector<Tensor> out; auto op = b->offline_create(bub); b->offline_run(op, {vec({1, 2}, {2}), vec({5}, {1})}, out); same(out.at(0), {6, 7}, "add"); };
        both(f, f); });
    go("cold: build, compile, run", B, false, [] {
        auto f = [](float k) { auto m = small(); auto b = bench(); b->setup(b->compile(m)); use_small(*b, k, "own module"); };
        both([&] { f(1); }, [&] { f(2); }); });
    go("cold: immediate evaluation", B, false, [] {
        auto f = [] { auto b = bench(); ctx::bind<Workbench> _b(*b); auto a = intime::add(vec({-1, 2}, {2}), vec({1}, {1})); same(a, {0, 3}, "sum"); };
        both(f, f); });
    go("cold: failing calls through the C interface", B, false, [] {
        auto f = [](const char *name) {
            if (ts_Module_Load(name, TS_BINARY) != nullptr) sfail("a module is loaded from nowhere");
            std::string e = ts_last_error_message(); if (e.find(name) == std::string::npos) sfail("the message of another thread: " + e); };
        both([&] { f("/nonexistent/first"); }, [&] { f("/nonexistent/second"); }); });
    go("cold: logging and errors", B, false, [] {
        auto f = [] { bool t = false; try { TS_LOG_ERROR << "refused" << eject; } catch (const Exception &) { t = true; } if (!t) sfail("no exception"); };
        both(f, f); });
    // ---- everything below is warm: the shared module and program exist before the threads start
    auto ms = small(), mn = net();
    Program::shared ps, pn; std::shared_ptr<Workbench> w1, w2, n1, n2;
    std::string saved;
    auto prepare = [&](int what) {
        rt_quiet(1);
        {
            auto b = bench();
            if (what & 1) { ps = b->compile(ms); w1 = bench(); w1->setup(ps); w2 = w1->clone(); use_small(*w1, 3, "warm"); use_small(*w2, 3, "warm"); }
            if (what & 2) { pn = b->compile(mn); n1 = bench(); n1->setup(pn); n2 = n1->clone(); use_net(*n1, 1, "warm"); use_net(*n2, 1, "warm"); }
        }
        rt_quiet(0);
    };
    auto warm = [&](const std::string &n, int bound, bool atomics, const std::function<void()> &f) { go(n, bound, atomics, [&] { prepare((n.find("network") != n.npos ? 2 : 1)); f(); }); };
    warm("two clones run", B, true, [&] { both([&] { use_small(*w1, 1, "first"); }, [&] { use_small(*w2, 2, "second"); }); });
    warm("two clones of a network run", B, false, [&] { both([&] { use_net(*n1, 1, "first"); }, [&] { use_net(*n2, 2, "second"); }); });
    warm("two clones run twice", 1, false, [&] { both([&] { use_small(*w1, 1, "first"); use_small(*w1, 5, "first"); }, [&] { use_small(*w2, 2, "second"); use_small(*w2, 4, "second"); }); });
    warm("each clones its own", B, false, [&] { both([&] { auto c = w1->clone(); use_small(*c, 1, "first"); }, [&] { auto c = w2->clone(); use_small(*c, 2, "second"); }); });
    warm("both clone the same idle program", B, false, [&] { auto f = [&](float k) { auto b = bench(); b->setup(ps->clone()); use_small(*b, k, "clone"); }; both([&] { f(1); }, [&] { f(2); }); });
    warm("one clones, the other destroys", B, true, [&] {
        auto a = w1->clone(), b = w1->clone(); both([&] { a.reset(); }, [&] { auto c = b->clone(); b.reset(); use_small(*c, 2, "clone of a clone"); }); });
    warm("both destroy a clone", B, true, [&] { auto a = w1->clone(), b = w1->clone(); w1.reset(); w2.reset(); ps.reset(); both([&] { a.reset(); }, [&] { b.reset(); }); });
    warm("run and destroy a network", B, th, [&] { auto a = n1->clone(), b = n1->clone(); n1.reset(); n2.reset(); pn.reset(); both([&] { a.reset(); }, [&] { use_net(*b, 1, "survivor"); }); });
    warm("outputs outlive their bench on another thread", B, false, [&] { both([&] { use_small(*w1, 1, "first"); Tensor o = w1->output(0), c = w1->output(1); w1.reset(); same(c, {1, 2, 3, 4}, "constant"); same(o, {2, 0, 5, 8}, "output"); }, [&] { use_small(*w2, 2, "second"); w2.reset(); }); });
    warm("compile the same module", B, false, [&] { auto f = [&](float k) { auto b = bench(); b->setup(b->compile(ms)); use_small(*b, k, "compiled"); }; both([&] { f(1); }, [&] { f(2); }); });
    warm("compile the same network with options", 1, false, [&] { auto f = [&](float k, const char *o) { auto b = bench(); b->setup(b->compile(mn, o)); use_net(*b, k, "compiled"); }; both([&] { f(1, "--filter"); }, [&] { f(2, ""); }); });
    warm("one set-up program shared by two benches is cloned by both", B, false, [&] { auto f = [&](std::shared_ptr<Workbench> &w, float k) { auto c = w->clone(); auto d = c->clone(); c.reset(); use_small(*d, k, "clone of a clone"); }; both([&] { f(w1, 1); }, [&] { f(w2, 2); }); });
    warm("set an operator parameter of one clone", B, false, [&] { both([&] { w1->set_operator_param("t", "permute", tensor::build(INT32, {2}, {0, 1})); w1->input(0, vec({1, 2, 3, 4}, {2, 2})); w1->run(); same(w1->output(0), {2, 4, 6, 8}, "changed clone"); }, [&] { use_small(*w2, 2, "unchanged clone"); }); });
    warm("failing run beside a correct one", B, false, [&] { both([&] { w1->input(0, vec({1, 2, 3}, {3})); bool t = false; try { w1->run(); } catch (const std::exception &) { t = true; } if (!t) sfail("a wrong input is accepted"); use_small(*w1, 1, "after the failure"); }, [&] { use_small(*w2, 2, "second"); }); });
    warm("save the same module", B, false, [&] { auto f = [&](const char *) { Module::Save("/dev/null", ms); }; both([&] { f("a"); }, [&] { f("b"); }); });
    warm("hooks stay on their thread", B, false, [&] {
        int n[2] = {0, 0};
        auto f = [&](std::shared_ptr<Workbench> &w, float k, int i) { w->input(0, vec({k, 2 * k, -50, 4 * k}, {2, 2})); w->run_hook({"s"}); same(w->output("s"), {k + 1, -48, 2 * k + 3, 4 * k + 4}, "hooked"); ++n[i]; };
        both([&] { f(w1, 1, 0); }, [&] { f(w2, 2, 1); }); });
    warm("image filter per thread", 1, false, [&] {
        auto f = [&](float k) { auto b = bench(); ctx::bind<Workbench> _b(*b); ImageFilter q{ComputingDevice(CPU)}; q.to_float(); q.scale(k); Tensor img(MemoryDevice(CPU), UINT8, {1, 2, 1}); img.data<uint8_t>()[0] = 7; img.data<uint8_t>()[1] = 9; q.compile(); same(q.run(img), {7 * k, 9 * k}, "filtered"); };
        both([&] { f(1); }, [&] { f(2); }); });
    // ---- shared handles
    go("copies of one tensor", th ? 3 : 2, true, [] {
        Tensor t = vec({1, 2}, {2}); bool *freed = nullptr; (void) freed;
        std::unique_ptr<Tensor> a(new Tensor(t)), b(new Tensor(t)); t = Tensor();
        auto f = [](std::unique_ptr<Tensor> &p) { Tensor c = *p; Tensor d = c; p.reset(); same(d, {1, 2}, "shared tensor"); c = Tensor(); };
        both([&] { f(a); }, [&] { f(b); }); });
    go("copies of one packed tensor", B, true, [] {
        std::vector<Tensor> fs = {vec({1}, {1}), vec({2, 3}, {2})}; Tensor t; t.pack(fs); fs.clear();
        std::unique_ptr<Tensor> a(new Tensor(t)), b(new Tensor(t)); t = Tensor();
        auto f = [](std::unique_ptr<Tensor> &p) { auto u = p->unpack(); p.reset(); same(u.at(1), {2, 3}, "field"); u.clear(); };
        both([&] { f(a); }, [&] { f(b); }); });
    go("reshapes and clones of one tensor", B, true, [] {
        Tensor t = vec({1, 2, 3, 4}, {4}); std::unique_ptr<Tensor> a(new Tensor(t)), b(new Tensor(t)); t = Tensor();
        both([&] { Tensor c = a->reshape({2, 2}); a.reset(); same(c, {1, 2, 3, 4}, "reshape"); }, [&] { Tensor c = b->clone(); b.reset(); same(c, {1, 2, 3, 4}, "clone"); }); });
    go("views of one tensor", B, true, [] {
        Tensor t = vec({1, 2, 3, 4}, {4}); Tensor a = t, b = t; t = Tensor();
        auto f = [](Tensor &x) { Tensor v = x.view(MemoryDevice(CPU)); x = Tensor(); same(v, {1, 2, 3, 4}, "view"); };
        both([&] { f(a); }, [&] { f(b); }); });
    go("handles of one memory block", th ? 3 : 2, true, [] {
        int freed = 0; char buf[8];
        { Memory m(MemoryDevice(CPU), 8); m.data<char>()[0] = 5; std::unique_ptr<Memory> a(new Memory(m)), b(new Memory(m)); { Memory e; m = e; }
          auto f = [](std::unique_ptr<Memory> &p) { Memory c = *p; p.reset(); if (c.data<char>()[0] != 5) sfail("content lost"); };
          both([&] { f(a); }, [&] { f(b); }); } (void) freed; (void) buf; });
    finish();
}
