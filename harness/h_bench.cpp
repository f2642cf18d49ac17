// Workbench histories: every sequence of calls against a model that only knows the latest inputs.
#include "hist.h"
#include "ops.h"
#include "module/menu.h"
#include "global/operator_factory.h"
#include "runtime/program.h"
#include "core/device_context.h"
using namespace vf;
using namespace ts;
namespace {
    typedef uint64_t u64;
    u64 mix(u64 h, u64 x) { h ^= x + 0x9E3779B97F4A7C15ULL + (h << 6) + (h >> 2); h *= 0xD6E8FEB86659FD93ULL; h ^= h >> 29; return h; }
    u64 f2(u64 a, u64 b) { return mix(mix(12, a), b); }
    u64 f1(u64 k, u64 a) { return mix(mix(34, k), a); }
    const u64 BADV = 666;
    u64 rd(const Tensor &t) { return t.dtype() == INT64 && t.count() == 1 ? u64(t.data<int64_t>()[0]) : 0xBAD; }
    Tensor mk(u64 v) { Tensor t(MemoryDevice(CPU), INT64, Shape({1})); t.data<int64_t>()[0] = int64_t(v); return t; }
    class F2 : public Operator {
    public:
        int run(ts::Stack &s) override {
            u64 a = rd(s[0]), b = rd(s[1]);
            if (a == BADV) { s.push(INT64, Shape({3})); s.push(INT64, Shape({2})); throw Exception("operator fails"); }
            s.push(INT64, Shape({1}))->data<int64_t>()[0] = int64_t(f2(a, b)); return 1; }
        int infer(ts::Stack &, std::vector<Tensor::Prototype> &o) override { o.assign(1, Tensor::Prototype(INT64, Shape({1}))); return 1; }
    };
    class F1 : public Operator {
    public:
        int k = 0;
        F1() { field("k", OPTIONAL, ts::tensor::from<int32_t>(7)); }
        void init() override { Operator::init(); k = ts::tensor::to_int(get("k")); }
        int run(ts::Stack &s) override { u64 a = rd(s[0]); s.push(INT64, Shape({1}))->data<int64_t>()[0] = int64_t(f1(k, a)); return 1; }
        int infer(ts::Stack &, std::vector<Tensor::Prototype> &o) override { o.assign(1, Tensor::Prototype(INT64, Shape({1}))); return 1; }
    };
    typedef std::pair<bool, u64> Opt;   // (known, value)
    struct Prog { char kind; Program::shared p; std::shared_ptr<int> k; };
    struct W {
        Workbench::shared b; char kind = 0; std::shared_ptr<int> k;
        std::vector<Opt> in, out;
    };
    struct Kept { Tensor t; u64 v; };
    struct Sys {
        W w[2]; Prog A, B; std::vector<Kept> kept;
        Module::shared mA, mB;
        Workbench::shared compiler;
        void modules() {
            compiler = std::make_shared<Workbench>(ComputingDevice(CPU), 1);
            Graph g; ctx::bind<Graph> _g(g);
            auto x = bubble::param("x"), y = bubble::param("y");
            auto o1 = bubble::op("o1", "vf_f2", {x, y}); auto o2 = bubble::op("o2", "vf_f1", {y});
            o2->set("k", ts::tensor::from<int32_t>(7));
            mA = Module::Load(g, std::vector<Node>{o1, o2}); mA->sort_inputs({"x", "y"});
            Graph h; ctx::bind<Graph> _h(h);
            auto z = bubble::param("z"); auto c = bubble::data("c", mk(31));
            auto p1 = bubble::op("p1", "vf_f2", {z, c});
            mB = Module::Load(h, std::vector<Node>{p1, c, c}); mB->sort_inputs({"z"});
            progs();
        }
        void progs() { A = {'A', compiler->compile(mA), std::make_shared<int>(7)}; B = {'B', compiler->compile(mB), nullptr}; }
        W fresh(const Prog &p) { W x; x.b = std::make_shared<Workbench>(ComputingDevice(CPU), 1); load(x, p); return x; }
        void load(W &x, const Prog &p) { x.b->setup(p.p); x.kind = p.kind; x.k = p.k; x.in.assign(p.kind == 'A' ? 2 : 1, Opt(false, 0)); x.out.assign(p.kind == 'A' ? 2 : 3, Opt(false, 0)); }
        void reset() {
            w[0] = W(); w[1] = W(); kept.clear();
            if (*A.k != 7) progs();
            w[0] = fresh(A);
        }
        std::string check() {
            for (int i = 0; i < 2; ++i) {
                auto &x = w[i]; if (!x.b) continue;
                std::string n = "bench " + std::to_string(i) + ": ";
                if (x.b->stack().size() != 0 || x.b->stack().base() != 0) return n + "the stack is not empty between calls";
                if (x.b->input_count() != int(x.in.size()) || x.b->output_count() != int(x.out.size())) return n + "wrong number of inputs or outputs";
                for (size_t j = 0; j < x.in.size(); ++j) if (x.in[j].first && rd(x.b->input(int(j))) != x.in[j].second) return n + "input " + std::to_string(j) + " does not read back";
                for (size_t j = 0; j < x.out.size(); ++j) if (x.out[j].first && rd(x.b->output(int(j))) != x.out[j].second) return n + "output " + std::to_string(j) + " is not the result of the last run";
            }
            for (size_t i = 0; i < kept.size(); ++i) if (rd(kept[i].t) != kept[i].v) return "a result obtained earlier was changed";
            return "";
        }
    };
    Sys Z;
    std::vector<Opt> results(char kind, int k, const std::vector<u64> &in) {
        if (kind == 'A') return {Opt(true, f2(in[0], in[1])), Opt(true, f1(k, in[1]))};
        return {Opt(true, f2(in[0], 31)), Opt(true, 31), Opt(true, 31)};
    }
    std::string set_in(W &x, size_t slot, u64 v, bool by_name) {
        if (!x.b) return "";
        if (slot >= x.in.size()) {
            try { x.b->input(int(slot), mk(v)); } catch (const std::exception &) { return Z.check(); }
            return "an input slot that does not exist is accepted";
        }
        std::string name = x.kind == 'B' ? "z" : slot ? "y" : "x";
        if (by_name) x.b->input(name, mk(v)); else x.b->input(int(slot), mk(v));
        x.in[slot] = Opt(true, v);
        return Z.check();
    }
    std::string run(W &x) {
        if (!x.b) return "";
        bool known = true; std::vector<u64> in; for (auto &o : x.in) { known = known && o.first; in.push_back(o.second); }
        bool bad = known && x.kind != 0 && in[0] == BADV;
        try { x.b->run(); }
        catch (const std::exception &e) {
            if (x.kind == 0 || !known) return Z.check();
            if (bad) { for (auto &o : x.out) o.first = false; return Z.check(); }
            return std::string("a correct run fails: ") + e.what();
        }
        if (x.kind == 0) return "a workbench without program runs";
        if (bad) return "a run with a failing operator succeeds";
        if (known) x.out = results(x.kind, x.k ? *x.k : 0, in); else for (auto &o : x.out) o.first = false;
        return Z.check();
    }
    template<typename F> std::string refuse(F f) { try { f(); } catch (const std::exception &) { return Z.check(); } return "an invalid call is accepted"; }
    std::string offline(W &x, const std::vector<u64> &in, bool map) {
        if (!x.b) return "";
        std::vector<Tensor> a; for (auto v : in) a.push_back(mk(v));
        std::vector<Tensor> o;
        bool legal = in.size() == 2 && in[0] != BADV;
        try {
            if (map) { std::map<std::string, Tensor> m; if (in.size() > 0) m["x"] = a[0]; if (in.size() > 1) m["y"] = a[1]; if (in.size() > 2) m["nosuch"] = a[2]; o = x.b->launch_offline(Z.A.p, m); }
            else o = x.b->launch_offline(Z.A.p, a);
        } catch (const std::exception &e) { if (legal) return std::string("launch_offline fails: ") + e.what(); return Z.check(); }
        if (!legal) return "launch_offline accepts an invalid call";
        auto w = results('A', *Z.A.k, in);
        if (o.size() != 2 || rd(o[0]) != w[0].second || rd(o[1]) != w[1].second) return "launch_offline returns another result";
        Z.kept.push_back({o[0], w[0].second});
        return Z.check();
    }
    std::vector<std::pair<std::string, std::function<std::string()>>> A_;
    void op(const std::string &n, const std::function<std::string()> &a) { A_.push_back({n, a}); }
}
int main(int argc, const char **argv) {
    parse(argc, argv);
    setenv("TENNIS_NUMBER_THREADS", "1", 1);
    quiet();
    ts_setup();
    OperatorCreator::Register(CPU, "vf_f2", [] { return std::make_shared<F2>(); });
    OperatorCreator::Register(CPU, "vf_f1", [] { return std::make_shared<F1>(); });
    Z.modules();
    op("run", [] { return run(Z.w[0]); });
    op("input(0)=1", [] { return set_in(Z.w[0], 0, 1, false); });
    op("input(first name)=2", [] { return set_in(Z.w[0], 0, 2, true); });
    op("input(1)=3", [] { return set_in(Z.w[0], 1, 3, false); });
    op("input(second name)=4", [] { if (Z.w[0].kind != 'A') return std::string(); return set_in(Z.w[0], 1, 4, true); });
    op("input(0)=value the operator refuses", [] { return set_in(Z.w[0], 0, BADV, false); });
    op("input(-1), input(2), output(-1), output(9), unknown names", [] {
        auto b = Z.w[0].b; std::string e;
        for (int i : {-1, 2, 1000}) { if (e.empty()) e = refuse([&] { b->input(i, mk(5)); }); if (e.empty()) e = refuse([&] { b->output(i == 2 ? 9 : i); }); }
        for (std::string n : {"", "X", "o3", "nosuch"}) { if (e.empty()) e = refuse([&] { b->input(n, mk(5)); }); if (e.empty()) e = refuse([&] { b->output(n); }); }
        return e; });
    op("keep the outputs", [] {
        auto &x = Z.w[0]; if (!x.b) return std::string();
        const char *na[] = {"o1", "o2"}; const char *nb[] = {"p1", "c", "c"};
        for (size_t i = 0; i < x.out.size(); ++i) if (x.out[i].first) {
            auto t = x.b->output(int(i)); auto u = x.b->output(std::string(x.kind == 'A' ? na[i] : nb[i]));
            if (rd(u) != x.out[i].second) return std::string("output by name differs");
            Z.kept.push_back({t, x.out[i].second});
        }
        return Z.check(); });
    op("write into the outputs obtained", [] {
        // a handle shares its memory with the slot it came from; everything else is unaffected
        for (auto &k : Z.kept) { auto p = k.t.data(); u64 nv = 5000 + k.v % 1000;
            for (auto &x : Z.w) if (x.b) for (size_t i = 0; i < x.out.size(); ++i) if (x.out[i].first && x.b->output(int(i)).data() == p) x.out[i].first = false;
            for (auto &q : Z.kept) if (q.t.data() == p) q.v = nv;
            k.t.data<int64_t>()[0] = int64_t(nv); k.v = nv; }
        return Z.check(); });
    op("clone into bench 1", [] {
        auto &x = Z.w[0]; W y; y.b = x.b->clone(); y.kind = x.kind; y.k = x.k ? std::make_shared<int>(*x.k) : nullptr;
        y.in.assign(x.in.size(), Opt(false, 0)); y.out.assign(x.out.size(), Opt(false, 0));
        Z.w[1] = y; return Z.check(); });
    op("bench 1: inputs 8, 9", [] { auto e = set_in(Z.w[1], 0, 8, false); return e.empty() ? (Z.w[1].kind == 'B' ? std::string() : set_in(Z.w[1], 1, 9, false)) : e; });
    op("bench 1: run", [] { return run(Z.w[1]); });
    op("bench 1: input(0)=refused value", [] { return set_in(Z.w[1], 0, BADV, false); });
    op("exchange bench 0 and 1", [] { if (!Z.w[1].b) return std::string(); std::swap(Z.w[0], Z.w[1]); return Z.check(); });
    op("bench 1 := new bench with the program of bench 0", [] {
        auto &x = Z.w[0]; Prog p = x.kind == 'B' ? Z.B : Z.A; Z.w[1] = Z.fresh(p); return Z.check(); });
    op("setup(other program)", [] { auto &x = Z.w[0]; Z.load(x, x.kind == 'A' ? Z.B : Z.A); return Z.check(); });
    op("setup(null)", [] { auto &x = Z.w[0]; x.b->setup(nullptr); x.kind = 0; x.k.reset(); x.in.clear(); x.out.clear(); return Z.check(); });
    op("replace bench 0 by a fresh one", [] { Z.w[0] = Z.fresh(Z.A); return Z.check(); });
    op("launch_offline(11,12)", [] { return offline(Z.w[0], {11, 12}, false); });
    op("launch_offline by names", [] { return offline(Z.w[0], {13, 14}, true); });
    op("launch_offline with wrong arguments", [] {
        std::string e; for (bool m : {false, true}) for (auto &in : std::vector<std::vector<u64>>{{}, {1}, {1, 2, 3}, {BADV, 2}}) if (e.empty()) e = offline(Z.w[0], in, m);
        return e; });
    op("launch_offline(null program)", [] { return refuse([&] { Z.w[0].b->launch_offline(Program::shared(), std::vector<Tensor>{}); }); });
    op("set_operator_param(o2,k)", [] {
        auto &x = Z.w[0]; int v = x.k ? *x.k + 1 : 3; x.b->set_operator_param("o2", "k", ts::tensor::from<int32_t>(v)); if (x.k) *x.k = v;
        if (x.k != Z.A.k && x.kind == 'A') {} return Z.check(); });
    op("offline operator, accepted and refused", [] {
        auto b = Z.w[0].b; Bubble bub("vf_f2", "n"); auto o = b->offline_create(bub, true); std::vector<Tensor> r;
        b->offline_run(o, {mk(21), mk(22)}, r);
        if (r.size() != 1 || rd(r[0]) != f2(21, 22)) return std::string("offline_run result differs");
        Z.kept.push_back({r[0], f2(21, 22)});
        auto e = refuse([&] { std::vector<Tensor> q; b->offline_run(o, {mk(BADV), mk(22)}, q); });
        if (!e.empty()) return e;
        return refuse([&] { std::vector<Tensor> q; b->offline_create(Bubble("no_such_operator", "n"), true); throw Exception("strict creation"); }); });
    op("online operator over other stack contents", [] {
        auto b = Z.w[0].b; Bubble bub("vf_f2", "n"); std::string e;
        b->stack().push(mk(40)); b->stack().push(mk(41));
        auto n = b->online_run(b->online_create(bub, true), std::vector<Tensor>{mk(42), mk(43)});
        if (n != 1 || b->stack().size() != 3 || rd(b->stack()[0]) != 40 || rd(b->stack()[1]) != 41 || rd(b->stack()[2]) != f2(42, 43)) e = "online_run does not take the given inputs";
        b->stack().clear();
        return e.empty() ? Z.check() : e; });
    op("run_hook(o2)", [] {
        auto &x = Z.w[0]; if (x.kind == 0) return refuse([&] { x.b->run_hook({"o2"}); });
        if (!x.b || x.kind != 'A' || !x.in[0].first || !x.in[1].first || x.in[0].second == BADV) return std::string();
        x.b->run_hook({"o2"}); x.out = results('A', *x.k, {x.in[0].second, x.in[1].second});
        if (rd(x.b->output("o2")) != x.out[1].second) return std::string("the hooked node has another value");
        if (rd(x.b->output("y")) != x.in[1].second) return std::string("the hooked input has another value");
        return Z.check(); });
    Hist h;
    h.nops = int(A_.size());
    h.reset = [] { Z.reset(); };
    h.name = [](int i) { return A_[i].first; };
    h.apply = [](int i) { try { return A_[i].second(); } catch (const std::exception &e) { return std::string("an exception in a valid call: ") + e.what(); } };
    h.hash = [] {
        std::string s; std::map<u64, int> c;
        for (auto &x : Z.w) { s += x.b ? x.kind ? x.kind : '0' : '-'; for (auto &o : x.in) s += o.first ? std::to_string(o.second) + "," : "?"; s += "|"; for (auto &o : x.out) s += o.first ? std::to_string(o.second) + "," : "?"; s += x.k ? std::to_string(*x.k) : ""; s += ";"; }
        return hash_str(s); };
    h.walk("workbench calls", S().thorough ? 5 : S().mode == "short" ? 3 : 4);
    Z.w[0] = W(); Z.w[1] = W(); Z.kept.clear();
    finish();
}
