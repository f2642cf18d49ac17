// Contexts: every nesting of bindings over two threads against a stack per thread, and every library call of
// the list below started from every combination of contexts, which must be the same ones afterwards.
#include "hist.h"
#include "ops.h"
#include <thread>
#include <mutex>
#include <condition_variable>
#include "module/menu.h"
#include "module/module.h"
#include "global/operator_factory.h"
#include "runtime/program.h"
#include "runtime/image_filter.h"
#include "runtime/inferer.h"
#include "runtime/runtime.h"
#include "runtime/inside/thread_pool.h"
#include "core/device_context.h"
#include "frontend/intime.h"
#include "board/hook.h"
#include "board/profiler.h"
#include "utils/ctxmgr_lite.h"
using namespace vf;
using namespace ts;
namespace {
    // a thread that performs one job at a time
    struct Hand {
        std::mutex m; std::condition_variable c; std::function<void()> job; bool busy = false, stop = false; std::thread t;
        Hand() : t([this] { std::unique_lock<std::mutex> l(m); for (;;) { c.wait(l, [this] { return busy || stop; }); if (stop) return; job(); busy = false; c.notify_all(); } }) {}
        ~Hand() { { std::unique_lock<std::mutex> l(m); stop = true; c.notify_all(); } t.join(); }
        void run(const std::function<void()> &f) { std::unique_lock<std::mutex> l(m); job = f; busy = true; c.notify_all(); c.wait(l, [this] { return !busy; }); }
    };
    template<typename T> struct Nest {
        static std::string apply(Hand *h, std::vector<std::unique_ptr<ctx::bind<T>>> *st, std::vector<T *> *m, T **v, int i) {
            int t = i % 2, k = i / 2; std::string e;
            h[t].run([&] {
                try {
                    if (k < 3) { if (k == 2) st[t].emplace_back(new ctx::bind<T>(static_cast<T *>(nullptr))); else if (k == 1) st[t].emplace_back(new ctx::bind<T>(*v[1])); else st[t].emplace_back(new ctx::bind<T>(v[0])); m[t].push_back(k == 2 ? nullptr : v[k]); }
                    else if (k == 3) { if (!st[t].empty()) { st[t].pop_back(); m[t].pop_back(); } }
                    else if (k == 4) { ctx::set<T>(v[2]); m[t].back() = v[2]; }                  // replaces the innermost one
                    else if (k == 5) {                                                           // two bindings left by an exception
                        try { ctx::bind<T> a(v[1]); ctx::bind<T> b(v[2]); if (ctx::get<T>() != v[2]) e = "the innermost binding is not current"; throw std::runtime_error("x"); } catch (const std::runtime_error &) {}
                    }
                } catch (const std::exception &x) { e = std::string("refused: ") + x.what(); }
            });
            for (int u = 0; u < 2 && e.empty(); ++u) h[u].run([&] {
                T *want = m[u].back();
                if (ctx::get<T>() != want || ctx::ptr<T>() != want || ctx::of<T>::get() != want) { e = "thread " + std::to_string(u) + " sees another context than its innermost binding"; return; }
                try { if (&ctx::ref<T>() != want) e = "ref() is another context"; else if (!want) e = "ref() without a context was not refused"; } catch (const std::exception &) { if (want) e = "ref() was refused"; }
            });
            return e;
        }
        static void walk(const char *name) {
            Hand h[2]; std::vector<std::unique_ptr<ctx::bind<T>>> st[2]; std::vector<T *> m[2];
            static long long mem[3][64]; T *v[3] = {(T *) mem[0], (T *) mem[1], (T *) mem[2]};   // only their addresses are used
            static const char *nm[] = {"bind A", "bind B", "bind nothing", "leave", "set C", "throw through two"};
            auto clear = [&] { for (int t = 0; t < 2; ++t) h[t].run([&, t] { while (!st[t].empty()) st[t].pop_back(); ctx::set<T>(static_cast<T *>(nullptr)); }); for (auto &x : m) x.assign(1, nullptr); };
            Hist q; q.nops = 12;
            q.reset = clear;
            q.name = [&](int i) { return std::string(nm[i / 2]) + " on thread " + std::to_string(i % 2); };
            q.apply = [&](int i) { return apply(h, st, m, v, i); };
            q.hash = [&] { std::string k = name; for (auto &x : m) { k += '|'; for (auto p : x) for (int i = 0; i < 3; ++i) k += p == v[i] ? char('a' + i) : '.'; } return hash_str(k); };
            q.walk(std::string("bindings of ") + name, S().thorough ? 5 : 4);
            clear();
        }
    };
    // what an operator sees while it runs
    struct Seen { Workbench *w; RuntimeContext *r; DeviceContext *d; ThreadPool *p; Hook *h; Profiler *pr; };
    std::vector<Seen> seen;
    Seen now() { return Seen{ctx::get<Workbench>(), ctx::get<RuntimeContext>(), ctx::get<DeviceContext>(), ctx::get<ThreadPool>(), ctx::get<Hook>(), ctx::get<Profiler>()}; }
    bool failing = false;
    class Look : public Operator {
    public:
        void init() override {}
        int infer(Stack &stack, std::vector<Tensor::Prototype> &o) override { o = {stack[0].proto()}; return 1; }
        int run(Stack &stack) override {
            seen.push_back(now());
            if (failing) throw ts::Exception("asked to fail");
            Tensor t = stack[0].clone(); stack.push(t); return 1;
        }
    };
    struct All {
        Graph *g; Seen s;
        static All get() { return All{ctx::get<Graph>(), now()}; }
        std::string diff(const All &o) const {
            std::string e;
            if (g != o.g) e += " graph"; if (s.w != o.s.w) e += " workbench"; if (s.r != o.s.r) e += " runtime"; if (s.d != o.s.d) e += " device";
            if (s.p != o.s.p) e += " pool"; if (s.h != o.s.h) e += " hook"; if (s.pr != o.s.pr) e += " profiler"; return e;
        }
    };
    Tensor vec(float a, float b) { Tensor t(MemoryDevice(CPU), FLOAT32, {2}); t.data<float>()[0] = a; t.data<float>()[1] = b; return t; }
    Tensor img() { Tensor t(MemoryDevice(CPU), UINT8, {2, 2, 3}); for (int i = 0; i < 12; ++i) t.data<uint8_t>()[i] = i; return t; }
    Module::shared module(const std::string &opname) {
        Graph g; ctx::bind<Graph> _g(g);
        auto a = bubble::param("a"); auto n = bubble::op("n", opname, {a}); auto k = bubble::op("k", "add", {n, bubble::data("c", vec(1, 2))});
        return Module::Load(g, std::vector<Node>{k});
    }
}
int main(int argc, const char **argv) {
    parse(argc, argv);
    quiet();
    ts_setup();
    OperatorCreator::Register(CPU, "vf_look", [] { return std::make_shared<Look>(); });
    Nest<Graph>::walk("graph"); Nest<Workbench>::walk("workbench"); Nest<DeviceContext>::walk("device"); Nest<RuntimeContext>::walk("runtime");
    Nest<ThreadPool>::walk("thread pool"); Nest<Hook>::walk("hook"); Nest<Profiler>::walk("profiler");

    ComputingDevice cpu(CPU, 0);
    auto outer = std::make_shared<Workbench>(cpu);
    Graph og; DeviceContext od(cpu); RuntimeContext orun; ThreadPool op(2); Hook oh; Profiler opr;
    auto good = module("vf_look"), bad = module("vf_no_such_operator");
    auto path = std::string("ctx.") + std::to_string(getpid());
    typedef std::function<void()> F;
    struct Call { std::string name; F f; bool throws; Workbench *own; int runs; bool hook; };
    std::vector<Call> L;
    auto add = [&](const std::string &n, const F &f, bool throws = false, Workbench *own = nullptr, int runs = 0, bool hook = false) { L.push_back(Call{n, f, throws, own, runs, hook}); };
    auto wb = std::make_shared<Workbench>(cpu); Program::shared prog;
    { ctx::bind<Workbench> _w(static_cast<Workbench *>(nullptr)); prog = wb->compile(good); wb->setup(prog); wb->input(0, vec(1, 2)); }
    auto threaded = std::make_shared<Workbench>(cpu, 3); threaded->setup(threaded->compile(good)); threaded->input(0, vec(3, 4));
    auto empty = std::make_shared<Workbench>(cpu);
    auto filter = std::make_shared<ImageFilter>(cpu); filter->to_float(); { ctx::bind<Workbench> _w(*outer); filter->compile(); }
    auto filtered = std::make_shared<Workbench>(cpu); filtered->setup(filtered->compile(good)); filtered->bind_filter(0, filter); filtered->input(0, img());
    for (auto c : {All::get()}) { (void) c; }
    ctx::set<Graph>(static_cast<Graph *>(nullptr)); ctx::set<Workbench>(static_cast<Workbench *>(nullptr)); ctx::set<DeviceContext>(static_cast<DeviceContext *>(nullptr));
    ctx::set<RuntimeContext>(static_cast<RuntimeContext *>(nullptr)); ctx::set<ThreadPool>(static_cast<ThreadPool *>(nullptr)); ctx::set<Hook>(static_cast<Hook *>(nullptr)); ctx::set<Profiler>(static_cast<Profiler *>(nullptr));

    add("make and drop a workbench", [&] { Workbench w(cpu); });
    add("make and drop a workbench with threads", [&] { Workbench w(cpu, 2); });
    add("compile", [&] { wb->compile(good); });
    add("compile with options", [&] { wb->compile(good, "--float16"); });
    add("compile an unknown operator", [&] { wb->compile(bad); }, true);
    add("Workbench::Load", [&] { Workbench::Load(good, cpu); });
    add("Workbench::Load with options", [&] { Workbench::Load(good, cpu, "--pack"); });
    add("Workbench::Load of an unknown operator", [&] { Workbench::Load(bad, cpu); }, true);
    add("Program::Compile", [&] { ctx::bind<Workbench> _w(*outer); Program::Compile(good, cpu); });
    add("Program::Compile of an unknown operator", [&] { ctx::bind<Workbench> _w(*outer); Program::Compile(bad, cpu); }, true);
    add("clone a program", [&] { prog->clone(); });
    add("clone a workbench", [&] { wb->clone(); });
    add("setup", [&] { wb->setup(prog); wb->input(0, vec(1, 2)); });
    add("set a wrong input", [&] { wb->input("nobody", vec(1, 2)); }, true);
    add("run", [&] { wb->run(); }, false, wb.get(), 1);
    add("run twice", [&] { wb->run(); wb->run(); }, false, wb.get(), 2);
    add("run with threads", [&] { threaded->run(); }, false, threaded.get(), 1);
    add("run with a filter", [&] { filtered->input(0, img()); filtered->run(); }, true, filtered.get(), 1);   // the shapes do not fit the constant: fails after the operator
    add("run without a program", [&] { empty->run(); }, true);
    add("run with a failing operator", [&] { failing = true; wb->run(); }, true, wb.get(), 1);
    add("run_hook", [&] { wb->run_hook({"n", "k"}); }, false, wb.get(), 1, true);
    add("run_hook with a failing operator", [&] { failing = true; wb->run_hook({"n"}); }, true, wb.get(), 1, true);
    add("set a parameter an operator does not have", [&] { wb->set_operator_param("n", "x", vec(1, 2)); }, true);
    add("launch_offline", [&] { outer->launch_offline(prog, std::vector<Tensor>{vec(1, 2)}); }, false, outer.get(), 1);
    add("launch_offline by name", [&] { outer->launch_offline(prog, std::map<std::string, Tensor>{{"a", vec(1, 2)}}); }, false, outer.get(), 1);
    add("launch_offline with a failing operator", [&] { failing = true; outer->launch_offline(prog, std::vector<Tensor>{vec(1, 2)}); }, true, outer.get(), 1);
    add("launch_offline with too few inputs", [&] { outer->launch_offline(prog, std::vector<Tensor>{}); }, true);
    auto lookb = [] { Bubble b("vf_look", "z"); return b; };
    add("online_run of a bubble", [&] { outer->clear(); outer->online_run(lookb(), std::vector<Tensor>{vec(1, 2)}); outer->clear(); }, false, outer.get(), 1);
    add("online_run of a failing bubble", [&] { failing = true; outer->clear(); outer->online_run(lookb(), std::vector<Tensor>{vec(1, 2)}); }, true, outer.get(), 1);
    add("online_create of an unknown operator", [&] { outer->online_create(Bubble("vf_no_such_operator", "z")); }, true);
    add("offline_run", [&] { auto o = outer->offline_create(lookb()); std::vector<Tensor> r; outer->offline_run(o, {vec(1, 2)}, r); }, false, outer.get(), 1);
    add("offline_run of a failing operator", [&] { auto o = outer->offline_create(lookb()); std::vector<Tensor> r; failing = true; outer->offline_run(o, {vec(1, 2)}, r); }, true, outer.get(), 1);
    add("offline_infer", [&] { auto o = outer->offline_create(lookb()); std::vector<Tensor::Prototype> r; outer->offline_infer(o, {vec(1, 2)}, r); });
    add("immediate sum", [&] { ctx::bind<Workbench> _w(*outer); intime::add(vec(1, 2), vec(3, 4)); });
    add("immediate operator that fails", [&] { ctx::bind<Workbench> _w(*outer); failing = true; intime::run(lookb(), {vec(1, 2)}); }, true, outer.get(), 1);
    add("immediate operator", [&] { ctx::bind<Workbench> _w(*outer); intime::run(lookb(), {vec(1, 2)}); }, false, outer.get(), 1);
    add("Module::Save", [&] { Module::Save(path, good); });
    add("Module::Load", [&] { Module::Load(path); });
    add("Module::Load of nothing", [&] { Module::Load(path + ".none"); }, true);
    add("Module::Load of something else", [&] { std::ofstream(path + ".x") << "not a module"; Module::Load(path + ".x"); }, true);
    add("Module::Translate", [&] { Module::Translate(good, cpu, ""); });
    add("Module::Fusion", [&] { Module::Fusion({good, good}, {Module::Route(0, 0, 1, 0)}); });
    add("Module::Fusion with a wrong route", [&] { Module::Fusion({good, good}, {Module::Route(0, 7, 1, 0)}); }, true);
    add("infer a graph of unknown shapes", [&] { auto n = good->output(0); ts::infer(n); }, true);
    add("infer a value", [&] { Graph g; ctx::bind<Graph> _g(g); auto n = bubble::op("s", "add", {bubble::data("x", vec(1, 2)), bubble::data("y", vec(3, 4))}); ts::infer(n); ts::infer_value(n); });
    add("make and drop a filter", [&] { ImageFilter f(cpu); });
    add("build a filter", [&] { ImageFilter f(cpu); f.to_float(); f.scale(2); f.sub_mean({1, 2, 3}); f.div_std({1, 2, 3}); f.resize(3, 4); f.resize(5); f.center_crop(2, 2); f.center_crop(2); f.channel_swap({2, 1, 0}); f.prewhiten(); f.letterbox(4, 4); f.divided(2, 2, 0); f.force_color(); f.norm_image(1e-3f); f.to_chw(); f.clear(); });
    add("run a filter", [&] { ctx::bind<Workbench> _w(*outer); ImageFilter f(cpu); f.to_float(); f.scale(2); f.force_gray(); f.compile(); f.run(img()); });
    add("run a filter that was compiled before", [&] { ctx::bind<Workbench> _w(*outer); filter->run(img()); });
    add("run a filter that fails", [&] { ctx::bind<Workbench> _w(*outer); ImageFilter f(cpu); f.to_float(); f.sub_mean({1, 2}); f.compile(); f.run(img()); }, true);
    add("clone a filter", [&] { ctx::bind<Workbench> _w(*outer); filter->clone()->run(img()); });
    add("bind a filter", [&] { filtered->bind_filter(0, filter); });
    add("summary", [&] { wb->summary(); });
    add("drop the last handle of a cloned workbench", [&] { auto c = wb->clone(); c->input(0, vec(5, 6)); c->run(); }, false, (Workbench *) 1, 1);

    // every context present or absent: none, all, each alone, all but one
    std::vector<int> masks{0, 127}; for (int i = 0; i < 7; ++i) { masks.push_back(1 << i); masks.push_back(127 ^ (1 << i)); }
    if (S().thorough) { masks.clear(); for (int i = 0; i < 128; ++i) masks.push_back(i); }
    auto bindings = [&](int mask, const F &f) {
        ctx::bind<Graph> g(mask & 1 ? &og : nullptr); ctx::bind<Workbench> w(mask & 2 ? outer.get() : nullptr); ctx::bind<DeviceContext> d(mask & 4 ? &od : nullptr);
        ctx::bind<RuntimeContext> r(mask & 8 ? &orun : nullptr); ctx::bind<ThreadPool> p(mask & 16 ? &op : nullptr); ctx::bind<Hook> h(mask & 32 ? &oh : nullptr); ctx::bind<Profiler> pr(mask & 64 ? &opr : nullptr);
        f();
    };
    auto check = [&](const Call &c) {
        auto before = All::get(); seen.clear(); failing = false; bool threw = false; std::string why;
        size_t nodes = og.nodes().size();
        try { c.f(); } catch (const std::exception &e) { threw = true; why = e.what(); }
        failing = false;
        step();
        auto after = All::get();
        auto e = before.diff(after);
        if (!e.empty()) fail("left:" + c.name, "after \"" + c.name + "\" the thread has another" + e);
        if (threw != c.throws) fail("outcome:" + c.name, threw ? "was refused: " + why : "was not refused");
        if (int(seen.size()) != c.runs) fail("runs:" + c.name, "the operator ran " + std::to_string(seen.size()) + " times instead of " + std::to_string(c.runs));
        for (auto &s : seen) {
            if (c.own == (Workbench *) 1) { if (!s.w || s.w == wb.get() || s.w == outer.get()) fail("inside:" + c.name, "a clone's operator does not see the clone"); }
            else if (s.w != c.own) fail("inside:" + c.name, "the operator does not see the workbench it runs on");
            if (s.w && (s.r != &s.w->runtime() || s.d != &s.w->device() || s.p != &s.w->runtime().thread_pool())) fail("inside:" + c.name, "the operator sees the runtime, device or pool of another workbench");
            if (c.hook ? (s.h == before.s.h || !s.h) : s.h != before.s.h) fail("inside:" + c.name, "the operator sees another hook");
        }
        if (og.nodes().size() != nodes) fail("graph:" + c.name, "nodes were added to the caller's graph");
        state(c.name + std::to_string(threw) + after.diff(All{}));
    };
    for (int mask : masks) for (size_t i = 0; i < L.size(); ++i) {
        if (!take("calls", [&] { return L[i].name + " with contexts " + std::to_string(mask); })) continue;
        if (L[i].name == "Module::Load") Module::Save(path, good);
        bindings(mask, [&] { check(L[i]); });
        if (All::get().diff(All{}) != "") { fail("after:" + L[i].name, "contexts remain after the outermost binding ended"); }
    }
    // two calls in a row, without new bindings between
    for (int mask : {0, 127}) for (size_t i = 0; i < L.size(); ++i) for (size_t j = 0; j < L.size(); ++j) {
        if (!take("pairs of calls", [&] { return L[i].name + ", then " + L[j].name + " with contexts " + std::to_string(mask); })) continue;
        Module::Save(path, good);
        bindings(mask, [&] { check(L[i]); check(L[j]); });
    }
    unlink(path.c_str()); unlink((path + ".x").c_str());
    finish();
}
