// Every small computation graph, compiled and run, against evaluation of its nodes in a free algebra:
// each operator combines 64-bit tags injectively, so any misplaced operand gives another value.
#include "ops.h"
#include "module/menu.h"
#include "global/operator_factory.h"
#include "runtime/program.h"
#include "core/device_context.h"
using namespace vf;
using namespace ts;
namespace {
    typedef uint64_t u64;
    u64 mix(u64 h, u64 x) { h ^= x + 0x9E3779B97F4A7C15ULL + (h << 6) + (h >> 2); h *= 0xD6E8FEB86659FD93ULL; h ^= h >> 29; return h; }
    typedef std::vector<u64> Val;    // one tag per field
    u64 tag(const Val &v) { u64 h = 77 + v.size(); for (auto x : v) h = mix(h, x); return h; }
    Val f_op(int code, const std::vector<Val> &in) { u64 h = 1000 + code; for (auto &v : in) h = mix(h, tag(v)); return {h}; }
    Val f_multi(const Val &a) { u64 h = mix(555, tag(a)); return {mix(h, 1), mix(h, 2)}; }
    Val fields(const Tensor &t) { Val v; for (auto &f : t.unpack()) v.push_back(f.count() == 1 && f.dtype() == INT64 ? u64(f.data<int64_t>()[0]) : 0xBAD); return v; }
    long executed = 0;
    class HashOp : public Operator {
    public:
        int code;
        explicit HashOp(int code) : code(code) {}
        int run(ts::Stack &stack) override {
            ++executed;
            std::vector<Val> in; for (size_t i = 0; i < stack.size(); ++i) in.push_back(fields(stack[i]));
            auto v = f_op(code, in);
            auto &t = *stack.push(INT64, Shape({1}));
            t.data<int64_t>()[0] = int64_t(v[0]);
            return 1;
        }
        int infer(ts::Stack &, std::vector<Tensor::Prototype> &o) override { o.assign(1, Tensor::Prototype(INT64, Shape({1}))); return 1; }
    };
    class MultiOp : public Operator {
    public:
        int run(ts::Stack &stack) override {
            ++executed;
            auto v = f_multi(fields(stack[0]));
            auto a = stack.make(INT64, Shape({1})), b = stack.make(INT64, Shape({1}));
            a.data<int64_t>()[0] = int64_t(v[0]); b.data<int64_t>()[0] = int64_t(v[1]);
            stack.push(Tensor::Pack({a, b}));
            return 1;
        }
        int infer(ts::Stack &, std::vector<Tensor::Prototype> &o) override { o.assign(2, Tensor::Prototype(INT64, Shape({1}))); return 1; }
    };
    class IdOp : public Operator {   // hands its input on, sharing the memory
    public:
        int run(ts::Stack &stack) override { ++executed; stack.push(Tensor(*stack.index(0))); return 1; }
        int infer(ts::Stack &stack, std::vector<Tensor::Prototype> &o) override { o.assign(1, stack[0].proto()); return 1; }
    };
    enum Kind { IN, CONST, U, ID, COPY, B, T, PACK, MULTI, F0, F1 };
    const char *KN[] = {"in", "const", "u", "id", "_copy", "b", "t", "_pack", "multi", "field0", "field1"};
    struct N { Kind k; int a[3]; int n; bool packed; };
    typedef std::vector<N> G;
    std::string show(const G &g, const std::vector<int> &outs, const std::vector<int> &order) {
        std::ostringstream o;
        for (size_t i = 0; i < g.size(); ++i) { o << "n" << i << "=" << KN[g[i].k] << "("; for (int j = 0; j < g[i].n; ++j) o << (j ? "," : "") << "n" << g[i].a[j]; o << ") "; }
        o << "inputs"; for (int i : order) o << " n" << i; o << " outputs"; for (int i : outs) o << " n" << i;
        return o.str();
    }
    Val constant(int i) { return {u64(900 + i)}; }
    std::vector<Val> eval(const G &g, const std::vector<Val> &in) {
        std::vector<Val> v(g.size());
        for (size_t i = 0; i < g.size(); ++i) {
            auto &n = g[i];
            switch (n.k) {
                case IN: v[i] = in[i]; break;
                case CONST: v[i] = constant(int(i)); break;
                case U: v[i] = f_op(1, {v[n.a[0]]}); break;
                case ID: case COPY: v[i] = v[n.a[0]]; break;
                case B: v[i] = f_op(2, {v[n.a[0]], v[n.a[1]]}); break;
                case T: v[i] = f_op(3, {v[n.a[0]], v[n.a[1]], v[n.a[2]]}); break;
                case PACK: v[i] = {v[n.a[0]][0], v[n.a[1]][0]}; break;
                case MULTI: v[i] = f_multi(v[n.a[0]]); break;
                case F0: v[i] = {v[n.a[0]][0]}; break;
                case F1: v[i] = {v[n.a[0]][1]}; break;
            }
        }
        return v;
    }
    Tensor T1(u64 x) { Tensor t(MemoryDevice(CPU), INT64, Shape({1})); t.data<int64_t>()[0] = int64_t(x); return t; }
    Bench *bench;
    int shape_class = 0;
    void one(const std::string &cls, const G &g, const std::vector<int> &outs, const std::vector<int> &order, bool full) {
        if (!take(cls, [&] { return show(g, outs, order); })) return;
        std::string key = show(g, outs, order);
        try {
            Graph graph;
            ctx::bind<Graph> _g(graph);
            std::vector<Node> nodes;
            for (size_t i = 0; i < g.size(); ++i) {
                auto &n = g[i]; auto name = "n" + std::to_string(i);
                std::vector<Node> a; for (int j = 0; j < n.n; ++j) a.push_back(nodes[n.a[j]]);
                switch (n.k) {
                    case IN: nodes.push_back(bubble::param(name)); break;
                    case CONST: nodes.push_back(bubble::data(name, T1(constant(int(i))[0]))); break;
                    case U: nodes.push_back(bubble::op(name, "vf_u", a)); break;
                    case ID: nodes.push_back(bubble::op(name, "vf_id", a)); break;
                    case COPY: nodes.push_back(bubble::op(name, "_copy", a)); break;
                    case B: nodes.push_back(bubble::op(name, "vf_b", a)); break;
                    case T: nodes.push_back(bubble::op(name, "vf_t", a)); break;
                    case PACK: nodes.push_back(bubble::op(name, "_pack", a)); break;
                    case MULTI: nodes.push_back(bubble::op(name, "vf_m", a)); break;
                    case F0: case F1: { auto f = bubble::op(name, "_field", a); f->set("offset", ts::tensor::from<int32_t>(n.k == F1)); nodes.push_back(f); break; }
                }
            }
            std::vector<Node> o; for (int i : outs) o.push_back(nodes[i]);
            std::vector<Node> in; for (int i : order) in.push_back(nodes[i]);
            auto m = Module::Load(graph, o);
            m->sort_inputs(in);
            auto prog = bench->b->compile(m);
            step();
            if (prog->input_count() != int(order.size()) || prog->output_count() != int(outs.size())) { fail("graph:" + key, "the program has another number of inputs or outputs"); return; }
            std::vector<std::vector<Tensor>> kept; std::vector<std::vector<Val>> want;
            std::vector<std::vector<Tensor>> args;
            for (int r = 0; r < 3; ++r) {
                std::vector<Val> iv(g.size()); std::vector<Tensor> ti;
                for (size_t i = 0; i < g.size(); ++i) iv[i] = {u64(10 * (i + 1) + (r % 2) * 1000)};
                auto v = eval(g, iv);
                for (int i : order) ti.push_back(T1(iv[i][0]));
                std::vector<Tensor> got;
                if (r < 2 || !full) got = bench->b->launch_offline(prog, ti);
                else {
                    bench->b->setup(prog);
                    for (size_t i = 0; i < ti.size(); ++i) { if (i % 2) bench->b->input(int(i), ti[i]); else bench->b->input("n" + std::to_string(order[i]), ti[i]); }
                    bench->b->run();
                    for (size_t i = 0; i < outs.size(); ++i) got.push_back(i % 2 ? bench->b->output("n" + std::to_string(outs[i])) : bench->b->output(int(i)));
                }
                step();
                if (bench->b->stack().size() != 0) { fail("graph:" + key, "the run leaves tensors on the stack"); return; }
                if (got.size() != outs.size()) { fail("graph:" + key, "number of outputs"); return; }
                std::vector<Val> w; for (int i : outs) w.push_back(v[i]);
                kept.push_back(got); want.push_back(w); args.push_back(ti);
                for (size_t k = 0; k < kept.size(); ++k) for (size_t i = 0; i < outs.size(); ++i)
                    if (fields(kept[k][i]) != want[k][i]) { fail("graph:" + key, "output " + std::to_string(i) + (k + 1 == kept.size() ? " has a wrong value in run " + std::to_string(r) : " of run " + std::to_string(k) + " was changed by run " + std::to_string(r))); return; }
                for (size_t i = 0; i < order.size(); ++i) if (u64(ti[i].data<int64_t>()[0]) != iv[order[i]][0]) { fail("graph:" + key, "the run changed the caller's input"); return; }
            }
            // independence of outputs: writing into one result must not change the program's next results
            for (auto &t : kept[0]) for (auto &f : t.unpack()) const_cast<Tensor &>(f).data<int64_t>()[0] = 4242;
            {
                std::vector<Tensor> ti; for (int i : order) ti.push_back(T1(10 * (i + 1)));
                auto got = bench->b->launch_offline(prog, ti);
                for (size_t i = 0; i < outs.size(); ++i) if (fields(got[i]) != want[0][i]) { fail("graph-write:" + key, "writing into an output of an earlier run changes output " + std::to_string(i) + " of a later run"); return; }
            }
            std::string st; for (size_t p = 0; p < prog->length(); ++p) st += prog->instruction(p)->str();
            state(st);
        } catch (const std::exception &e) { fail("graph:" + key, std::string("a valid graph is refused: ") + e.what()); }
    }
    struct Gen {
        std::string cls; int ni, nc, N; std::vector<Kind> kinds; int omax; bool allin;
        void rec(G &g) {
            int base = ni + nc;
            if (int(g.size()) == base + N) { emit(g); return; }
            int n = int(g.size());
            for (auto k : kinds) {
                int ar = k == B || k == PACK ? 2 : k == T ? 3 : 1;
                Sh lim(ar, n);
                each(lim, [&](const Sh &c) {
                    for (int x : c) {
                        bool p = g[x].packed;
                        if ((k == F0 || k == F1) && !p) return;
                        if (k == PACK && p) return;
                    }
                    N_(g, k, c, ar);
                    rec(g);
                    g.pop_back();
                });
            }
        }
        void N_(G &g, Kind k, const Sh &c, int ar) {
            ::N x; x.k = k; x.n = ar; for (int i = 0; i < ar; ++i) x.a[i] = c[i];
            x.packed = k == PACK || k == MULTI || ((k == ID || k == COPY) && g[c[0]].packed);
            g.push_back(x);
        }
        void emit(const G &g) {
            int n = int(g.size()), base = ni + nc;
            for (int len = 1; len <= omax; ++len) each(Sh(len, n), [&](const Sh &c) {
                // every operator node must be reachable from the outputs
                std::vector<char> live(n, 0);
                for (int x : c) live[x] = 1;
                for (int i = n - 1; i >= 0; --i) if (live[i]) for (int j = 0; j < g[i].n; ++j) live[g[i].a[j]] = 1;
                for (int i = base; i < n; ++i) if (!live[i]) return;
                bool dead_const = false; for (int i = ni; i < base; ++i) if (!live[i]) dead_const = true;
                if (dead_const) return;
                std::vector<int> order; for (int i = 0; i < ni; ++i) order.push_back(i);
                do { one(cls, g, c, order, ni < 3); } while (allin && std::next_permutation(order.begin(), order.end()));
            });
        }
        void go() {
            G g;
            for (int i = 0; i < ni; ++i) g.push_back({IN, {0, 0, 0}, 0, false});
            for (int i = 0; i < nc; ++i) g.push_back({CONST, {0, 0, 0}, 0, false});
            rec(g);
        }
    };
}
int main(int argc, const char **argv) {
    parse(argc, argv);
    quiet();
    Bench b; bench = &b;
    OperatorCreator::Register(CPU, "vf_u", [] { return std::make_shared<HashOp>(1); });
    OperatorCreator::Register(CPU, "vf_b", [] { return std::make_shared<HashOp>(2); });
    OperatorCreator::Register(CPU, "vf_t", [] { return std::make_shared<HashOp>(3); });
    OperatorCreator::Register(CPU, "vf_m", [] { return std::make_shared<MultiOp>(); });
    OperatorCreator::Register(CPU, "vf_id", [] { return std::make_shared<IdOp>(); });
    bool th = S().thorough;
    std::vector<Kind> all = {U, ID, COPY, B, PACK, MULTI, F0, F1};
    for (int ni = 0; ni <= 3; ++ni) Gen{"no operator", ni, 1, 0, all, 3, true}.go();
    for (int ni = 1; ni <= 2; ++ni) for (int nc = 0; nc <= 1; ++nc) {
        Gen{"1 operator", ni, nc, 1, {U, ID, COPY, B, T, PACK, MULTI}, 3, true}.go();
        Gen{"2 operators", ni, nc, 2, {U, ID, COPY, B, PACK, MULTI, F0, F1}, ni + nc < 3 ? 3 : 2, true}.go();
    }
    Gen{"0 inputs", 0, 1, 2, all, 2, false}.go();
    Gen{"3 operators", 1, 0, 3, all, 2, false}.go();
    Gen{"3 operators", 2, 0, 3, {U, B}, 3, true}.go();
    Gen{"3 operators", 1, 1, 3, {U, B, MULTI, F1}, 2, false}.go();
    Gen{"3 operators", 2, 0, 3, {MULTI, F0, F1, B}, 2, true}.go();
    Gen{"4 operators", 1, 0, 4, {U, B}, 2, false}.go();
    Gen{"3 operators", 2, 1, 3, all, 2, true}.go();
    Gen{"4 operators", 2, 0, 4, {U, B}, 2, true}.go();
    Gen{"4 operators", 1, 1, 4, {U, B}, 2, false}.go();
    Gen{"4 operators", 1, 0, 4, {B, MULTI, F0, F1}, 2, false}.go();
    Gen{"5 operators", 1, 0, 5, {B}, 1, false}.go();
    // longer chains: node i combines node i-1 with any earlier node, in either order
    for (int n = 5; n <= (th ? 8 : 7); ++n) {
        Sh lim; for (int i = 0; i < n; ++i) lim.push_back(i + 1);
        each(lim, [&](const Sh &c) {
            if (n > 6 && !th && (c[2] != 0 && c[2] != 2)) return;
            for (int flip = 0; flip < (n > 6 ? 1 : 4); ++flip) {
                G g; g.push_back({IN, {0, 0, 0}, 0, false});
                for (int i = 0; i < n; ++i) { int x = i, y = c[i]; if ((flip >> (i & 1)) & 1) std::swap(x, y); g.push_back({B, {x, y, 0}, 2, false}); }
                one("chain", g, {n}, {0}, false);
                if (flip == 0) { one("chain", g, {n, n / 2}, {0}, false); one("chain", g, {1, n}, {0}, false); }
            }
        });
    }
    if (th) {
        Gen{"4 operators", 2, 0, 4, {U, ID, B, MULTI, F0, F1}, 2, false}.go();
        Gen{"4 operators", 1, 1, 4, {U, COPY, B, MULTI, F0, F1}, 2, false}.go();
        Gen{"5 operators", 1, 0, 5, {U, B}, 2, false}.go();
        Gen{"5 operators", 2, 0, 5, {B}, 1, false}.go();
    }
    finish();
}
