// The shapes a graph announces before it runs: all chains of operators over a pool that passes shapes, values and
// packed fields along, inferred as a whole (all nodes at once, in every order of asking) against executing the
// nodes one after another, and the program compiled from the graph that was asked.
#include "ops.h"
#include "module/menu.h"
#include "module/module.h"
#include "global/shape_inferer_factory.h"
#include "runtime/inferer.h"
#include "runtime/program.h"
#include "core/device_context.h"
using namespace vf;
using namespace ts;
namespace {
    struct Op { std::string op; int arity; std::vector<P> par; bool sizes; };   // sizes: arithmetic on its input keeps a size a size
    struct Nd { int op; std::vector<int> a; };
    std::vector<Op> pool;
    Bench *bench;
    std::string show(const Op &o) { std::string s = o.op; for (auto &p : o.par) { s += " " + p.name + "="; for (double x : read(p.value).v) s += std::to_string(int(x)) + ","; } return s; }
    std::vector<Tensor> leaves;
    std::vector<std::string> lname;
    Tensor mk(DTYPE dt, const Sh &s, int start = 1) { return vf::make(iota(dt, s, start)); }
    std::string show(const std::vector<Nd> &g) {
        std::string s;
        for (auto &n : g) { s += "n" + std::to_string(&n - &g[0]) + "=" + show(pool[n.op]) + "("; for (int a : n.a) s += (a < int(leaves.size()) ? lname[a] : "n" + std::to_string(a - int(leaves.size()))) + " "; s += ") "; }
        return s;
    }
    void one(const std::string &cls, const std::vector<Nd> &g, const std::vector<Tensor> &val) {
        if (!take(cls, [&] { return show(g); })) return;
        size_t L = leaves.size();
        std::set<int> used; for (auto &n : g) for (int a : n.a) if (a < int(L)) used.insert(a);
        bool shape = false; for (auto &n : g) if (pool[n.op].op == "_shape" || pool[n.op].op == "_dims") shape = true;
        std::string key = "proto;"; for (auto &n : g) key += (key.size() > 6 ? ">" : "") + pool[n.op].op;
        ts::ctx::bind<ts::Workbench> _wb(bench->b.get());     // operators may call others
        ts::ctx::bind<ts::RuntimeContext> _rt(bench->b->runtime());
        int first = *used.begin();
        int sizes = int(leaves[first].dims());
        // 0: constants; 1: the first input an argument; 2: all arguments; 3...: one size of the first is not known
        for (int how = 0; how < 3 + sizes; ++how) {
            if (how >= 3 && shape) break;   // sizes that are computed from sizes not known
            for (int order = 0; order < 2; ++order) {
                Graph graph; ctx::bind<Graph> _g(graph);
                std::map<size_t, Node> nodes; std::vector<Node> args; std::vector<Tensor> argv;
                for (int i : used) {
                    bool arg = how == 2 || (how && i == first);
                    auto z = leaves[i].sizes().std(); if (how >= 3 && i == first) z[how - 3] = -1;
                    nodes.emplace(i, arg ? bubble::param(lname[i], leaves[i].dtype(), Shape(z)) : bubble::data(lname[i], leaves[i]));
                    if (arg) { args.push_back(nodes.at(i)); argv.push_back(leaves[i]); }
                }
                for (size_t i = 0; i < g.size(); ++i) {
                    std::vector<Node> in; for (int a : g[i].a) in.push_back(nodes.at(a));
                    auto n = bubble::op("n" + std::to_string(i), pool[g[i].op].op, in);
                    for (auto &p : pool[g[i].op].par) n->set(p.name, p.value);
                    nodes.emplace(L + i, n);
                }
                std::vector<Node> ask; for (size_t i = 0; i < g.size(); ++i) ask.push_back(nodes.at(L + i));
                if (order) std::reverse(ask.begin(), ask.end());
                std::string w = how == 0 ? "constants" : how == 1 ? "first input an argument" : how == 2 ? "arguments" : "size " + std::to_string(how - 3) + " not known";
                std::vector<TensorPrototype> ps, again;
                try {
                    std::unordered_map<Node, TensorPrototype> cache;
                    ps = ts::infer(ask, cache); again = ts::infer(ask, cache);
                } catch (const std::exception &e) { if (how == 0) fail(key + ";answer", w + ": " + e.what()); continue; }
                step();
                if (ps.size() != g.size() || again.size() != g.size()) { fail(key + ";count", "number of answers"); return; }
                if (order) { std::reverse(ps.begin(), ps.end()); std::reverse(again.begin(), again.end()); }
                for (size_t i = 0; i < g.size(); ++i) {
                    auto &p = ps[i]; auto out = val[L + i].unpack(); auto n = nodes.at(L + i);
                    if (p.dtype() == VOID) { if (how == 0) { fail(key + ";answer", "node " + std::to_string(i) + " is not inferred from constants"); } break; }
                    if (p.fields_count() != out.size()) { fail(key + ";fields", w + ": node " + std::to_string(i) + ": " + std::to_string(p.fields_count()) + " fields inferred, " + std::to_string(out.size()) + " produced"); break; }
                    bool bad = false;
                    for (size_t k = 0; k < out.size() && !bad; ++k) {
                        auto f = p.field(k); auto a = f.sizes().std(), z = out[k].sizes().std();
                        bool ok = a.size() == z.size() && f.dtype() == out[k].dtype();
                        for (size_t d = 0; ok && d < a.size(); ++d) if (a[d] != z[d] && (a[d] != -1 || how < 3)) ok = false;
                        if (!ok) { fail(key + (how < 3 ? ";shape" : ";unknown"), w + ": node " + std::to_string(i) + " field " + std::to_string(k) + ": " + vf::show(f) + " inferred, " + vf::show(out[k].proto()) + " produced"); bad = true; break; }
                        if (!(again[i].fields_count() == p.fields_count() && again[i].field(k) == f)) { fail(key + ";again", w + ": node " + std::to_string(i) + " is inferred as another shape when asked again"); bad = true; break; }
                        // what the graph keeps for its readers
                        auto sk = "#shape" + (k ? "_" + std::to_string(k) : std::string()), dk = "#dtype" + (k ? "_" + std::to_string(k) : std::string());
                        if (!n->has(sk) || !n->has(dk) || tensor::array::to_int(n->get(sk)) != a || DTYPE(tensor::to_int(n->get(dk))) != f.dtype()) { fail(key + ";kept", w + ": node " + std::to_string(i) + " keeps another shape or type than it answers"); bad = true; break; }
                    }
                    if (bad) break;
                    if (how < 3 && n->has("#value")) {
                        auto u = n->get("#value").unpack();
                        std::string d = u.size() == out.size() ? "" : "number of fields";
                        for (size_t k = 0; k < out.size() && d.empty(); ++k) d = diff(read(u[k]), read(out[k]), 1e-6);
                        if (!d.empty()) { fail(key + ";value", w + ": the value of node " + std::to_string(i) + " known without running is another one: " + d); break; }
                    }
                    if (i + 1 == g.size()) state(w + std::to_string(how) + vf::show(p.field(0)));
                }
                if (how >= 3) continue;
                // asking changes nothing in what the graph computes
                try {
                    auto m = Module::Load(graph, {nodes.at(L + g.size() - 1)});
                    if (args.size() > 1) m->sort_inputs(args);
                    auto prog = bench->b->compile(m);
                    std::vector<Tensor> av; for (auto &t : argv) av.push_back(t.clone());
                    auto got = bench->b->launch_offline(prog, av);
                    auto gu = got.size() == 1 ? got[0].unpack() : got; auto out = val.back().unpack();
                    std::string d = gu.size() == out.size() ? "" : "number of fields";
                    for (size_t k = 0; k < out.size() && d.empty(); ++k) { if (gu[k].dtype() != out[k].dtype()) d = "type"; else d = diff(read(gu[k]), read(out[k]), 1e-6); }
                    if (!d.empty()) fail(key + ";run", w + ": the inferred graph runs to another result: " + d);
                } catch (const std::exception &e) { fail(key + ";run", w + ": the inferred graph is refused: " + std::string(e.what())); }
                step();
            }
        }
    }
    void rec(const std::string &cls, int depth, const std::vector<int> &use, std::vector<Nd> &g, std::vector<Tensor> &val) {
        int n = int(val.size());
        for (int o : use) {
            auto &op = pool[o];
            each(Sh(op.arity, n), [&](const Sh &c) {
                // a chain: every node uses the one before
                if (!g.empty()) { bool prev = false; for (int x : c) prev = prev || x == n - 1; if (!prev) return; }
                std::vector<Tensor> in;
                for (int x : c) { if (val[x].fields_count() > 1 && op.op != "_field" && op.op != "_copy") return; in.push_back(val[x].clone()); }
                if (op.op == "_field" && val[c[0]].fields_count() < 2) return;
                // a broadcast to no or less than no elements has no meaning
                if (op.op == "_reshape_v2") for (double x : read(in[1]).v) if (x < -1) return;
                if (op.op == "broadcast") for (double x : read(in[1]).v) if (x < 1) return;
                auto r = bench->run(op.op, op.par, in);
                if (!r.ok || r.t.empty()) return;
                Tensor t = r.t.size() == 1 ? r.t[0] : Tensor::Pack(r.t);
                for (auto &f : t.unpack()) if (f.count() == 0 || f.dims() > 5) return;
                g.push_back({o, std::vector<int>(c.begin(), c.end())}); val.push_back(t);
                one(cls, g, val);
                if (int(g.size()) < depth) rec(cls, depth, use, g, val);
                g.pop_back(); val.pop_back();
            });
        }
    }
}
int main(int argc, const char **argv) {
    parse(argc, argv);
    quiet();
    Bench b; bench = &b; b.keep = true;
    bool th = S().thorough;
    auto add = [](const std::string &op, int ar, const std::vector<P> &par = {}) { pool.push_back({op, ar, par, false}); };
    add("abs", 1); add("_shape", 1); add("_dims", 1); add("_copy", 1);
    add("_transpose", 1); add("_transpose", 1, {{"permute", pv({1, 0})}});
    add("_reshape", 1, {{"shape", pv({-1})}}); add("_reshape", 1, {{"shape", pv({0, -1})}});
    add("flatten", 1); add("unsqueeze", 1, {{"axes", pv({0})}}); add("squeeze", 1, {{"axes", pv({0})}});
    add("reduce_sum", 1, {{"dims", pv({-1})}, {"keep_dims", pb(false)}}); add("reduce_sum", 1, {{"dims", pv({0})}});
    add("_cast", 1, {{"dtype", pi(FLOAT32)}}); add("_cast", 1, {{"dtype", pi(INT32)}});
    add("topkv2", 1, {{"number", pi(1)}}); add("argmax", 1, {{"dim", pi(0)}});
    add("chunk", 1, {{"chunks", pi(2)}, {"dim", pi(0)}});
    add("_field", 1, {{"offset", pi(0)}}); add("_field", 1, {{"offset", pi(1)}}); add("_field", 1, {{"offset", pi(-1)}});
    add("constant_of_shape", 1); add("tile", 1, {{"repeats", pv({2, 1})}});
    add("slice_v2", 3); add("pad", 2); add("range", 3); add("where", 3);
    add("add", 2); add("mul", 2); add("concat", 2, {{"dim", pi(0)}}); add("_pack", 2); add("stack", 2, {{"axis", pi(0)}});
    add("_reshape_v2", 2); add("_expand", 2); add("broadcast", 2); add("gather", 2, {{"axis", pi(0)}}); add("gemm", 2);
    std::vector<int> all, small, un;
    for (int i = 0; i < int(pool.size()); ++i) {
        auto &o = pool[i].op;
        if (pool[i].arity < 3) all.push_back(i);
        for (auto s : {"_shape", "_dims", "_reshape_v2", "_expand", "constant_of_shape", "gather", "concat", "broadcast", "_field", "_pack", "chunk", "add"}) if (o == s) { small.push_back(i); break; }
        if (pool[i].arity == 1) un.push_back(i);
    }
    std::vector<int> every; for (int i = 0; i < int(pool.size()); ++i) every.push_back(i);
    auto go = [&](const std::string &cls, int depth, const std::vector<int> &use) { std::vector<Nd> g; std::vector<Tensor> v = leaves; rec(cls, depth, use, g, v); };
    auto set = [&](const std::vector<Tensor> &l) { leaves = l; lname.clear(); for (size_t i = 0; i < l.size(); ++i) lname.push_back(std::string("x") + char('0' + i) + "_" + vf::show(l[i].proto())); };
    auto I = [](std::vector<int> v) { return tensor::build(INT32, v); };
    auto F23 = mk(FLOAT32, {2, 3}), F13 = mk(FLOAT32, {1, 3}), I21 = mk(INT32, {2, 1}), F3 = mk(FLOAT32, {3}), F232 = mk(FLOAT32, {2, 3, 2});
    set({F23, I({1, 0})}); go("two steps", 2, all);
    set({F13, I({3, 1})}); go("two steps", 2, all);
    set({I21, I({1, 2})}); go("two steps", 2, all);
    set({F232, F3}); go("two steps", 2, all);
    set({F23}); go("three unary steps", 3, un);
    set({F232}); go("three unary steps", 3, un);
    set({F23}); go("three steps", 3, small);
    set({I21}); go("three steps", 3, small);
    set({I({1, 0}), I({1, 2})}); go("values", 2, every);
    set({F23, I({1, 0})}); go("three steps of all", 3, all);
    set({F23}); go("four unary steps", 4, un);
    set({I21}); go("four steps", 4, small);
    if (th) {
        set({F13, I({3, 1})}); go("three steps of all", 3, all);
        set({I21, I({1, 2})}); go("three steps of all", 3, all);
        set({F232, F3}); go("three steps of all", 3, all);
        set({F232}); go("five unary steps", 5, un);
        set({F13}); go("four steps", 4, small);
    }
    finish();
}
