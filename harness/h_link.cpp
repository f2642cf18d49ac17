// Graph editing: links, replacement, release of graphs; building, ordering and fusing modules.
#include "hist.h"
#include "ops.h"
#include "modfmt.h"
#include <module/menu.h>
#include <core/tensor_builder.h>
#include <runtime/workbench.h>
#include <api/module.h>
#include "../src/api/declare_module.h"
#include <unordered_set>
using namespace vf;
using namespace ts;
namespace {
    // ---- the model: who feeds whom (-1: a dead node)
    struct M { std::vector<std::vector<int>> in; std::vector<int> live, kind, graph; };
    typedef std::vector<int> V;
    V outs_of(const M &m, int i) { V v; for (size_t j = 0; j < m.in.size(); ++j) if (m.live[j]) for (int a : m.in[j]) if (a == i) v.push_back(int(j)); return v; }
    struct Op { char k; int a; V b; };
    std::string show(const Op &o) { switch (o.k) { case 'l': return "link n" + std::to_string(o.a) + " to " + str(o.b); case 's': return "link n" + std::to_string(o.a) + " to its own inputs"; case 'r': return "replace n" + std::to_string(o.a) + " by n" + std::to_string(o.b[0]); case 'k': return "release n" + std::to_string(o.a); case 'g': return "release the second graph"; default: return o.a ? "make a node in the second graph" : "make a node"; } }
    bool model_apply(M &m, const Op &o) {   // false: refused, nothing changes
        switch (o.k) {
            case 'l': { if (!m.live[o.a]) return false; for (int x : o.b) if (!m.live[x]) return false; m.in[o.a] = o.b; return true; }
            case 's': { if (!m.live[o.a]) return false; for (int x : m.in[o.a]) if (x < 0) return false; return true; }
            case 'r': { if (!m.live[o.a] || !m.live[o.b[0]]) return false; for (auto &v : m.in) for (int &x : v) if (x == o.a) x = o.b[0]; return true; }
            case 'k': case 'g': { for (size_t i = 0; i < m.in.size(); ++i) if (m.live[i] && (o.k == 'k' ? int(i) == o.a : m.graph[i] == 1)) { m.live[i] = 0; m.in[i].clear(); for (auto &v : m.in) for (int &x : v) if (x == int(i)) x = -1; } return true; }
            default: m.in.push_back({}); m.live.push_back(1); m.kind.push_back(1); m.graph.push_back(o.a); return true;
        } }
    uint64_t mhash(const M &m) { std::string s; for (size_t i = 0; i < m.in.size(); ++i) s += std::to_string(m.live[i]) + std::to_string(m.graph[i]) + str(m.in[i]) + ";"; return hash_str(s); }
    // ---- LinkedValue on its own
    void values(int depth) {
        typedef LinkedValue<int> L; M m; std::vector<L::shared> own; std::vector<L::weak> w; std::vector<L *> raw;
        const int N = 3; std::vector<Op> ops;
        for (int i = 0; i < N; ++i) { ops.push_back({'l', i, {}}); for (int a = 0; a < N; ++a) { ops.push_back({'l', i, {a}}); for (int b = 0; b < N; ++b) ops.push_back({'l', i, {a, b}}); } ops.push_back({'s', i, {}}); ops.push_back({'k', i, {}}); for (int a = 0; a < N; ++a) ops.push_back({'r', i, {a}}); }
        Hist H; H.nops = int(ops.size()); H.name = [&](int o) { return show(ops[o]); };
        H.reset = [&] { own.clear(); w.clear(); raw.clear(); m = M(); for (int i = 0; i < N; ++i) { own.push_back(std::make_shared<L>(i)); w.push_back(own[i]); raw.push_back(own[i].get()); m.in.push_back({}); m.live.push_back(1); m.kind.push_back(1); m.graph.push_back(0); } };
        H.hash = [&] { return mhash(m); };
        H.apply = [&](int n) -> std::string {
            auto &o = ops[n]; bool want = model_apply(m, o), got = true;
            try { if (o.k == 'l') { std::vector<L::weak> b; for (int x : o.b) b.push_back(w[x]); L::Link(w[o.a], b); } else if (o.k == 's') { auto p = w[o.a].lock(); if (!p) throw NullPointerException("gone"); L::Link(w[o.a], p->inputs()); } else if (o.k == 'r') L::ReplaceOutput(w[o.a], w[o.b[0]]); else own[o.a].reset(); } catch (const NullPointerException &) { got = false; }
            if (got != want) return want ? "refused" : "a dead node is accepted";
            for (int i = 0; i < N; ++i) { auto p = w[i].lock(); if (bool(p) != bool(m.live[i])) return "a node lives or dies against its owner"; if (!p) continue;
                auto id = [&](const L::weak &x) { auto q = x.lock(); return q ? q->value() : -1; };
                V in, out; for (auto &x : p->inputs()) in.push_back(id(x)); for (auto &x : p->outputs()) if (id(x) >= 0) out.push_back(id(x));
                if (in != m.in[i]) return "n" + std::to_string(i) + " has inputs " + str(in) + " instead of " + str(m.in[i]);
                auto e = outs_of(m, i); std::sort(out.begin(), out.end()); if (out != e) return "n" + std::to_string(i) + " has outputs " + str(out) + " instead of " + str(e); }
            return ""; };
        H.walk("linked values", depth, 1); }
    // ---- nodes of two graphs, one of which may be released
    struct World { M m; std::unique_ptr<Graph> g[2]; std::vector<Node> n; };
    int find(const World &w, const Node &x) { if (!x.ptr()) return -1; for (size_t i = 0; i < w.n.size(); ++i) if (w.n[i] == x) return int(i); return -2; }
    void make(World &w, int graph, bool param) { auto name = "n" + std::to_string(w.n.size()); w.n.push_back(param ? w.g[graph]->make(Bubble::Parameter, name) : w.g[graph]->make("op", name)); w.m.in.push_back({}); w.m.live.push_back(1); w.m.kind.push_back(param ? 0 : 1); w.m.graph.push_back(graph); }
    bool reach(const M &m, const V &outs, std::set<int> &seen, bool &cyc, bool &dead, bool &foreign, bool &bare, int graph) {
        std::map<int, int> c; std::function<void(int)> f = [&](int i) { if (i < 0) { dead = true; return; } if (c[i] == 1) { cyc = true; return; } if (c[i]) return; c[i] = 1; seen.insert(i); if (m.graph[i] != graph) foreign = true; if (m.kind[i] == 1 && m.in[i].empty()) bare = true; for (int a : m.in[i]) f(a); c[i] = 2; };
        for (int o : outs) f(o); return !(cyc || dead); }
    std::string order_ok(const World &w, const V &order, const std::set<int> &want) { std::set<int> seen; for (int i : order) { if (i < 0) return "lists a node that is not there"; for (int a : w.m.in[i]) if (!seen.count(a)) return "lists n" + std::to_string(i) + " before its input n" + std::to_string(a); if (!seen.insert(i).second) return "lists n" + std::to_string(i) + " twice"; } return seen == want ? "" : "does not list the reachable nodes"; }
    std::set<uint64_t> judged;
    std::string modules(World &w) {
        auto &m = w.m; int N = int(m.in.size());
        std::string key; for (int i = 0; i < N; ++i) key += std::to_string(m.live[i]) + std::to_string(m.graph[i]) + str(m.in[i]) + (m.live[i] ? std::to_string(w.n[i].outputs().size()) : "-") + ";";
        if (!judged.insert(hash_str(key)).second) return "";
        std::vector<V> lists; for (int i = 0; i < N; ++i) if (m.live[i]) { lists.push_back({i}); for (int j = 0; j < N; ++j) if (m.live[j]) lists.push_back({i, j}); }
        for (int g = 0; g < 2; ++g) if (w.g[g]) {
            for (auto &l : lists) {
                std::set<int> seen; bool cyc = false, dead = false, foreign = false, bare = false; reach(m, l, seen, cyc, dead, foreign, bare, g);
                std::vector<Node> o; for (int i : l) o.push_back(w.n[i]); Module::shared mod; bool threw = false; step();
                try { mod = Module::Load(*w.g[g], o); } catch (const Exception &) { threw = true; }
                bool bad = cyc || dead || foreign || bare; std::string t = "a module of " + str(l) + " ";
                if (bad != threw) return t + (bad ? std::string("is accepted although ") + (cyc ? "nodes depend on themselves" : dead ? "an input has died" : foreign ? "a node is of another graph" : "an operator has no inputs") : "is refused");
                if (g == 0) {
                    // ordering and printing do not care about graphs
                    threw = false; V order; try { for (auto &p : Module::list_reference_nodes(o)) order.push_back(find(w, p.first)); } catch (const Exception &) { threw = true; }
                    if (!dead) { if (cyc != threw) return cyc ? "nodes that depend on themselves are put in an order" : "nodes are not put in an order"; if (!cyc) { auto e = order_ok(w, order, seen); if (!e.empty()) return "the computation order of " + str(l) + " " + e; } }
                    if (!dead && !cyc) { std::ostringstream s; plot_graph(s, o); V q; std::istringstream in(s.str()); std::string line; while (std::getline(in, line)) { auto p = line.find(": [n"); if (p == std::string::npos) return "unexpected plot: " + line; q.push_back(std::atoi(line.c_str() + p + 4)); } auto e = order_ok(w, q, seen); if (!e.empty()) return "the plot of " + str(l) + " " + e; }
                }
                if (bad) continue;
                if (mod->outputs().size() != l.size()) return t + "has other outputs"; for (size_t i = 0; i < l.size(); ++i) if (find(w, mod->output(i)) != l[i]) return t + "has other outputs";
                std::set<int> ps, ms; for (int i : seen) if (m.kind[i] == 0) ps.insert(i); for (auto &n : mod->inputs()) if (!ms.insert(find(w, n)).second) return t + "has an input twice"; if (ps != ms) return t + "has other inputs than the parameters it needs";
                V a, b; for (auto &n : mod->inputs()) a.push_back(find(w, n)); auto again = Module::Load(*w.g[g], o); for (auto &n : again->inputs()) b.push_back(find(w, n)); if (a != b) return t + "has its inputs in another order the second time";
            }
            // the module of a whole graph ends in the nodes nothing uses
            V ends; for (int i = 0; i < N; ++i) if (m.live[i] && m.graph[i] == g && outs_of(m, i).empty()) ends.push_back(i);
            std::set<int> seen; bool cyc = false, dead = false, foreign = false, bare = false; reach(m, ends, seen, cyc, dead, foreign, bare, g); bool threw = false; Module::shared mod; step();
            try { mod = Module::Load(*w.g[g]); } catch (const Exception &) { threw = true; }
            if ((cyc || dead || foreign || bare) != threw) return threw ? "the module of a graph is refused" : "the module of a broken graph is accepted";
            if (!threw) { V o; for (auto &n : mod->outputs()) o.push_back(find(w, n)); if (o != ends) return "the module of a graph ends in " + str(o) + " instead of " + str(ends); }
        }
        return ""; }
    void graphs(const char *cls, int N, bool grow, int depth) {
        World w; std::vector<Op> ops; int T = N + (grow ? 1 : 0);
        for (int i = 1; i < T; ++i) { ops.push_back({'l', i, {}}); for (int a = 0; a < T; ++a) { ops.push_back({'l', i, {a}}); for (int b = 0; b < T; ++b) ops.push_back({'l', i, {a, b}}); } }
        for (int i = 0; i < T; ++i) for (int a = 0; a < T; ++a) ops.push_back({'r', i, {a}});
        ops.push_back({'g', 0, {}}); if (grow) { ops.push_back({'m', 0, {}}); ops.push_back({'m', 1, {}}); }
        Hist H; H.nops = int(ops.size()); H.name = [&](int o) { return show(ops[o]); };
        H.reset = [&] { w.n.clear(); w.m = M(); for (auto &g : w.g) g.reset(new Graph); make(w, 0, true); make(w, 0, false); for (int i = 2; i < N; ++i) make(w, i == 2 ? 1 : 0, false); };
        H.enabled = [&](int o) { auto &x = ops[o]; int n = int(w.n.size()); if (x.k == 'm') return n < T && w.g[x.a]; if (x.k == 'g') return bool(w.g[1]); if (x.a >= n) return false; for (int b : x.b) if (b >= n) return false; return true; };
        H.hash = [&] { return mhash(w.m); };
        H.apply = [&](int k) -> std::string {
            auto &o = ops[k]; bool want = true, got = true;
            if (o.k == 'm') make(w, o.a, false); else { want = model_apply(w.m, o); try { if (o.k == 'l') { std::vector<Node> b; for (int x : o.b) b.push_back(w.n[x]); Node::Link(w.n[o.a], b); } else if (o.k == 'r') Node::ReplaceOutput(w.n[o.a], w.n[o.b[0]]); else w.g[1].reset(); } catch (const NullPointerException &) { got = false; } }
            if (want != got) return want ? "refused" : "a dead node is accepted";
            auto &m = w.m;
            for (size_t i = 0; i < w.n.size(); ++i) {
                auto &x = w.n[i]; std::string t = "n" + std::to_string(i);
                if (!m.live[i]) { int c = 0; try { x.inputs(); } catch (const NullPointerException &) { ++c; } try { x.outputs(); } catch (const NullPointerException &) { ++c; } try { x.bubble(); } catch (const NullPointerException &) { ++c; } if (c != 3 || x.ptr()) return t + " is dead but can still be used"; continue; }
                if (x->name() != t) return t + " has another name"; V in, out; for (auto &y : x.inputs()) in.push_back(find(w, y)); for (auto &y : x.outputs()) out.push_back(find(w, y)); std::sort(out.begin(), out.end());
                if (in != m.in[i]) return t + " has inputs " + str(in) + " instead of " + str(m.in[i]); auto e = outs_of(m, int(i)); if (out != e) return t + " has outputs " + str(out) + " instead of " + str(e); }
            for (int g = 0; g < 2; ++g) if (w.g[g]) { V have, want_n; for (auto &x : w.g[g]->nodes()) have.push_back(find(w, x)); for (size_t i = 0; i < w.n.size(); ++i) if (m.graph[i] == g) want_n.push_back(int(i)); if (have != want_n) return "a graph holds " + str(have) + " instead of " + str(want_n); }
            return modules(w); };
        H.walk(cls, depth, 1); }
    // ---- larger graphs terminate quickly
    void large() {
        for (int n : {2, 30, 200, 3000}) for (int kind = 0; kind < 3; ++kind) if (take("large graphs", [&] { return std::string(kind == 0 ? "chain of " : kind == 1 ? "ladder of " : "ring of ") + std::to_string(n); })) {
            step(); Graph g; ctx::bind<Graph> _b(g); std::string k = "large:" + std::to_string(kind) + ":" + std::to_string(n); std::vector<Node> v = {bubble::param("x")}; for (int i = 1; i <= n; ++i) v.push_back(kind == 1 ? bubble::op("n" + std::to_string(i), "add", {v.back(), v.back()}) : bubble::op("n" + std::to_string(i), "_copy", {v.back()}));
            if (kind == 2) Node::Link(v[1], {v[n]});
            bool threw = false; try { auto m = Module::Load(g, {v[n]}); auto l = Module::list_reference_nodes({v[n]}); if (int(l.size()) != n + 1) fail(k, "lists " + std::to_string(l.size()) + " nodes"); std::ostringstream s; plot_graph(s, {v[n]}); std::string drawn = s.str(); if (std::count(drawn.begin(), drawn.end(), '\n') != n + 1) fail(k, "plots another number of nodes"); mf::Out o; Module::Save(o, m); mf::In in(o.b); Module::Load(in); } catch (const Exception &) { threw = true; }
            if (threw != (kind == 2)) fail(k, threw ? "refused" : "a ring is accepted"); } }
    // ---- fusion
    typedef std::vector<float> F;
    struct Sub { const char *name; int ins, outs; std::function<std::vector<F>(const std::vector<F> &)> eval; std::function<Module::shared()> build; };
    Tensor vec(float a, float b) { Tensor t(FLOAT32, Shape({2})); t.data<float>()[0] = a; t.data<float>()[1] = b; return t; }
    F mp(const F &a, const F &b, float (*f)(float, float)) { return {f(a[0], b[0]), f(a[1], b[1])}; }
    std::vector<Sub> subs;
    void make_subs() {
        auto add = [](float a, float b) { return a + b; }; auto sub = [](float a, float b) { return a - b; };
        subs.push_back({"addc", 1, 1, [=](const std::vector<F> &i) { return std::vector<F>{mp(i[0], {1, 2}, add)}; }, [] { Graph g; ctx::bind<Graph> _b(g); auto x = bubble::param("x"); return Module::Load(g, {bubble::op("a", "add", {x, bubble::data("c", vec(1, 2))})}); }});
        subs.push_back({"sub", 2, 1, [=](const std::vector<F> &i) { return std::vector<F>{mp(i[0], i[1], sub)}; }, [] { Graph g; ctx::bind<Graph> _b(g); auto x = bubble::param("x"), y = bubble::param("y"); auto m = Module::Load(g, {bubble::op("s", "sub", {x, y})}); m->sort_inputs({x, y}); return m; }});
        subs.push_back({"two", 1, 2, [=](const std::vector<F> &i) { return std::vector<F>{mp({10, 20}, i[0], sub), mp(i[0], {3, 5}, add)}; }, [] { Graph g; ctx::bind<Graph> _b(g); auto x = bubble::param("x"); return Module::Load(g, {bubble::op("d", "sub", {bubble::data("c", vec(10, 20)), x}), bubble::op("e", "add", {x, bubble::data("k", vec(3, 5))})}); }});
        subs.push_back({"pass", 1, 1, [=](const std::vector<F> &i) { return std::vector<F>{i[0]}; }, [] { Graph g; ctx::bind<Graph> _b(g); auto x = bubble::param("x"); return Module::Load(g, std::vector<Node>{x}); }});
        subs.push_back({"const", 0, 1, [=](const std::vector<F> &) { return std::vector<F>{{7, 9}}; }, [] { Graph g; ctx::bind<Graph> _b(g); return Module::Load(g, std::vector<Node>{bubble::data("c", vec(7, 9))}); }});
        subs.push_back({"spare", 2, 1, [=](const std::vector<F> &i) { return std::vector<F>{mp(i[1], {4, 6}, sub)}; }, [] { Graph g; ctx::bind<Graph> _b(g); auto u = bubble::param("u"), x = bubble::param("x"); auto m = Module::Load(g, {bubble::op("s", "sub", {x, bubble::data("c", vec(4, 6))})}); m->sort_inputs({u, x}); return m; }});
    }
    struct R4 { int a, s, b, t; };
    std::string rname(const V &l, const std::vector<R4> &r, bool same) { std::string s; for (int i : l) s += std::string(subs[i].name) + " "; if (same) s += "(one module) "; for (auto &x : r) s += "[" + std::to_string(x.a) + "." + std::to_string(x.s) + "->" + std::to_string(x.b) + "." + std::to_string(x.t) + "]"; return s; }
    struct Norm { bool bad = false, twice = false; std::map<std::pair<int, int>, std::pair<int, int>> src; };
    Norm normal(const V &l, const std::vector<R4> &rs) {
        Norm n; int k = int(l.size());
        for (auto r : rs) { if (r.a < 0 || r.a >= k || r.b < 0 || r.b >= k) { n.bad = true; return n; } int o = subs[l[r.a]].outs, i = subs[l[r.b]].ins; if (r.s < 0 && o == 1) r.s = 0; if (r.t < 0 && i == 1) r.t = 0; if (r.s < 0 || r.s >= o || r.t < 0 || r.t >= i) { n.bad = true; return n; } if (!n.src.insert({{r.b, r.t}, {r.a, r.s}}).second) n.twice = true; }
        // modules feeding themselves: what depends on what is a matter of slots, here every output needs every input except a spare one
        return n; }
    std::string expect(const V &l, const Norm &n, std::vector<std::pair<int, int>> &ins, std::vector<F> &res, bool &cyc) {
        std::set<std::pair<int, int>> used; for (auto &s : n.src) used.insert(s.second);
        for (int i = 0; i < int(l.size()); ++i) for (int s = 0; s < subs[l[i]].ins; ++s) if (!n.src.count({i, s})) ins.push_back({i, s});
        std::map<int, int> c; std::map<int, std::vector<F>> val;
        std::function<void(int)> ev = [&](int i) { if (c[i] == 1) { cyc = true; return; } if (c[i]) return; c[i] = 1; std::vector<F> a; for (int s = 0; s < subs[l[i]].ins; ++s) { auto it = n.src.find({i, s}); if (it == n.src.end()) { int k = 0; while (ins[k] != std::make_pair(i, s)) ++k; a.push_back({float(3 + 10 * k), float(4 + 7 * k)}); } else { ev(it->second.first); if (cyc) return; a.push_back(val[it->second.first][it->second.second]); } } val[i] = subs[l[i]].eval(a); c[i] = 2; };
        for (int i = 0; i < int(l.size()) && !cyc; ++i) ev(i);
        if (!cyc) for (int i = 0; i < int(l.size()); ++i) for (int s = 0; s < subs[l[i]].outs; ++s) if (!used.count({i, s})) res.push_back(val[i][s]);
        return ""; }
    std::string fused(const Module::shared &m, const V &l, const Norm &n, const std::vector<std::pair<int, int>> &ins, const std::vector<F> &res, const std::vector<Module::shared> &src) {
        if (m->inputs().size() != ins.size()) return "has " + std::to_string(m->inputs().size()) + " inputs instead of " + std::to_string(ins.size());
        if (m->outputs().size() != res.size()) return "has " + std::to_string(m->outputs().size()) + " outputs instead of " + std::to_string(res.size());
        for (size_t i = 0; i < ins.size(); ++i) if (m->input(i)->op() != Bubble::Parameter || m->input(i)->name() != src[ins[i].first]->input(ins[i].second)->name()) return "has another input " + std::to_string(i);
        auto b = Workbench::Load(m, ComputingDevice(ts::CPU)); for (size_t i = 0; i < ins.size(); ++i) b->input(int(i), vec(float(3 + 10 * i), float(4 + 7 * i))); b->run();
        for (size_t i = 0; i < res.size(); ++i) { auto t = tensor::cast(FLOAT32, b->output(int(i))); if (t.count() != 2 || t.data<float>(0) != res[i][0] || t.data<float>(1) != res[i][1]) return "output " + std::to_string(i) + " is not what the modules compute"; }
        (void) l; (void) n; return ""; }
    void fuse(const V &l, bool same, const std::vector<R4> &r) {
        auto n = normal(l, r); if (n.twice && !n.bad) return;   // two routes into one input: not defined
        std::string k = "fusion:" + rname(l, r, same); std::vector<std::pair<int, int>> ins; std::vector<F> res; bool cyc = false; step();
        if (!n.bad) expect(l, n, ins, res, cyc);
        // "spare" does not read its first input: a ring through it alone is no ring of values
        bool spare = false; for (int i : l) if (i == 5) spare = true; if (cyc && spare) return;
        std::vector<Module::shared> src; std::vector<std::string> text; for (size_t i = 0; i < l.size(); ++i) { src.push_back(same && i ? src[0] : subs[l[i]].build()); text.push_back(mf::canon(*src.back())); }
        std::vector<Module::Route> routes; for (auto &x : r) routes.emplace_back(x.a, x.s, x.b, x.t);
        Module::shared m; bool threw = false; std::string what; try { m = Module::Fusion(src, routes); } catch (const std::exception &e) { threw = true; what = e.what(); }
        for (size_t i = 0; i < l.size(); ++i) if (mf::canon(*src[i]) != text[i]) { fail(k, "fusing changes a module"); return; }
        if (threw != (n.bad || cyc)) { fail(k, threw ? "refused: " + what : n.bad ? "an invalid route is accepted" : "modules that need their own results are fused"); return; }
        if (!threw) try { auto e = fused(m, l, n, ins, res, src); if (!e.empty()) fail(k, "the fused module " + e); } catch (const std::exception &e) { fail(k, std::string("the fused module fails: ") + e.what()); }
        if (r.size() == 1 && l.size() == 2 && r[0].a == 0 && r[0].b == 1) {
            ts_Module a(src[0]), b(src[1]); auto c = ts_Module_Fusion(&a, r[0].s, &b, r[0].t); if (bool(c) == (n.bad || cyc)) fail(k, c ? "ts_Module_Fusion accepts it" : "ts_Module_Fusion refuses it"); else if (c) { try { auto e = fused(c->pointer, l, n, ins, res, src); if (!e.empty()) fail(k, "ts_Module_Fusion: the fused module " + e); } catch (const std::exception &e) { fail(k, std::string("ts_Module_Fusion: ") + e.what()); } } else if (!*ts_last_error_message()) fail(k, "ts_Module_Fusion fails without a message"); ts_free_Module(c); }
        state(hash_str(k)); }
    void fusion() {
        bool th = S().thorough, sh = S().mode == "shallow"; int K = int(subs.size());
        for (int a = 0; a < K; ++a) if (take("fusion of one", [&] { return std::string(subs[a].name); })) { fuse({a}, false, {}); for (int s = -1; s < 3; ++s) for (int t = -1; t < 3; ++t) { ++S().evaluations; fuse({a}, false, {{0, s, 0, t}}); } }
        std::vector<R4> all; for (int a = -1; a < 3; ++a) for (int b = -1; b < 3; ++b) for (int s = -1; s < 3; ++s) for (int t = -1; t < 3; ++t) if ((a >= 0 && b >= 0 && a < 2 && b < 2) || (s == 0 && t == 0)) all.push_back({a, s, b, t});
        for (int a = 0; a < K; ++a) for (int b = 0; b < K; ++b) for (int same = 0; same < (a == b ? 2 : 1); ++same) {
            if (take("fusion of two", [&] { return std::string(subs[a].name) + " " + subs[b].name + (same ? " (one module)" : ""); })) { fuse({a, b}, same, {}); for (auto &r : all) { ++S().evaluations; fuse({a, b}, same, {r}); } }
            if (sh) continue;
            if (take("fusion of two by two routes", [&] { return std::string(subs[a].name) + " " + subs[b].name + (same ? " (one module)" : ""); })) { --S().evaluations; for (auto &r : all) for (auto &q : all) { if (!th && r.s < 0 && q.s < 0) continue; ++S().evaluations; fuse({a, b}, same, {r, q}); } } }
        for (int a = 0; a < K; ++a) for (int b = 0; b < K; ++b) for (int c = 0; c < K; ++c) {
            std::vector<R4> v; int l[] = {a, b, c}; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) if (i != j) for (int s = 0; s < subs[l[i]].outs; ++s) for (int t = 0; t < subs[l[j]].ins; ++t) v.push_back({i, s, j, t});
            if (sh && (a > 1 || b > 1 || c > 1)) continue;
            bool same = a == b && b == c;
            if (take("fusion of three", [&] { return std::string(subs[a].name) + " " + subs[b].name + " " + subs[c].name; })) { --S().evaluations; for (int sm = 0; sm <= int(same); ++sm) for (auto &r : v) for (auto &q : v) { ++S().evaluations; fuse({a, b, c}, sm, {r, q}); if ((a < 3 && b < 3 && c < 3 && !sh) || th) for (auto &p : v) { ++S().evaluations; fuse({a, b, c}, sm, {r, q, p}); } } } } }
    // ---- names
    void names() {
        const char *nm[] = {"a", "b", "o"};
        for (int c = 0; c < 27; ++c) { int x[] = {c % 3, c / 3 % 3, c / 9}; if (!take("names", [&] { return std::string(nm[x[0]]) + nm[x[1]] + nm[x[2]]; })) continue;
            std::string key = std::string("names:") + nm[x[0]] + nm[x[1]] + nm[x[2]]; Graph g; ctx::bind<Graph> _b(g); auto p = bubble::param(nm[x[0]]), q = bubble::param(nm[x[1]]); auto o = bubble::op(nm[x[2]], "sub", {p, q}); std::vector<Node> all = {p, q, o};
            std::vector<std::vector<std::string>> lists = {{}}; const char *ask[] = {"a", "b", "o", "z"}; for (auto s : ask) { lists.push_back({s}); for (auto t : ask) { lists.push_back({s, t}); for (auto u : ask) lists.push_back({s, t, u}); } }
            for (auto &l : lists) { step(); std::set<std::string> uniq(l.begin(), l.end()); std::string k = key + " asked"; for (auto &s : l) k += " " + s;
                // outputs by name
                bool bad = false; V want; for (auto &s : l) { int hits = 0; for (int i = 0; i < 3; ++i) if (all[i]->name() == s) { ++hits; want.push_back(i); } if (hits != 1) bad = true; }
                bool threw = false; Module::shared m; try { m = Module::Load(g, l); } catch (const Exception &) { threw = true; }
                if (bad != threw) fail(k, bad ? "outputs with missing or ambiguous names are accepted" : "outputs by name are refused");
                if (!threw && !bad) { if (m->outputs().size() != want.size()) fail(k, "another number of outputs"); else for (size_t i = 0; i < want.size(); ++i) if (m->output(i) != all[want[i]]) fail(k, "another output"); }
                // inputs by name
                if (uniq.size() != l.size()) continue;
                auto n = Module::Load(g, {o}); bool amb = p->name() == q->name(), miss = !uniq.count(p->name()) || !uniq.count(q->name()), unknown = false; for (auto &s : l) if (s != p->name() && s != q->name()) unknown = true;
                std::vector<Node> before = n->inputs(); threw = false; try { n->sort_inputs(l); } catch (const Exception &) { threw = true; }
                if (threw != (amb || miss || unknown)) fail(k, threw ? "inputs by name are refused" : "inputs with missing, unknown or ambiguous names are accepted");
                else if (threw) { if (n->inputs() != before) fail(k, "a refused order changes the inputs"); } else for (size_t i = 0; i < l.size(); ++i) if (n->input(i)->name() != l[i]) fail(k, "another order of inputs");
            }
            // parameters by name
            for (auto s : ask) { step(); Graph h; ctx::bind<Graph> _c(h); auto a = bubble::param(nm[x[0]]), b = bubble::param(nm[x[1]]); auto e = bubble::op(nm[x[2]], "sub", {a, b}); auto m = Module::Load(h, {e}); m->set_param(s, "t", tensor::from(5)); for (auto &y : {a, b, e}) if (y->has("t") != (y->name() == s) || (y->has("t") && tensor::to_int(y->get("t")) != 5)) fail(key + " set " + s, "a parameter is set on other nodes than the named ones"); }
        } }
}
int main(int argc, const char **argv) {
    parse(argc, argv); quiet(); setenv("TENNIS_NUMBER_THREADS", "1", 1); ts_setup();
    bool th = S().thorough, sh = S().mode == "shallow"; make_subs();
    values(sh ? 3 : th ? 5 : 4);
    graphs("two graphs, three nodes", 3, false, sh ? 2 : th ? 5 : 4);
    graphs("two graphs, four nodes", 4, false, sh ? 2 : th ? 4 : 3);
    graphs("two graphs, growing", 3, true, sh ? 2 : th ? 4 : 3);
    large(); fusion(); names();
    finish();
}
