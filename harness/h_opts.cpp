// Compile options: every bounded network x every option string (and every pair of them, one after the other on the
// same module) against evaluation of the network node by node with the plain operators.
#include "ops.h"
#include "module/menu.h"
#include "module/module.h"
#include "runtime/program.h"
#include "core/device_context.h"
using namespace vf;
using namespace ts;
namespace {
    struct N { char kind; std::string name, op; std::vector<P> ps; std::vector<int> in; Tensor value; int dtype = 0; };   // kind: p parameter, c constant, o operator
    struct Net { std::vector<N> n; std::vector<int> outs; std::string what;
        int param(const std::string &name, int dtype = 0) { N x; x.kind = 'p'; x.name = name; x.dtype = dtype; n.push_back(x); return int(n.size()) - 1; }
        int data(const std::string &name, const Tensor &v) { N x; x.kind = 'c'; x.name = name; x.value = v; n.push_back(x); return int(n.size()) - 1; }
        int op(const std::string &name, const std::string &o, const std::vector<int> &in, const std::vector<P> &ps = {}) { N x; x.kind = 'o'; x.name = name; x.op = o; x.in = in; x.ps = ps; n.push_back(x); return int(n.size()) - 1; }
    };
    Bench *B;
    Module::shared build(const Net &t, Graph &g) {
        ctx::bind<Graph> _g(g);
        std::vector<Node> v; std::vector<std::string> ins;
        for (auto &x : t.n) {
            std::vector<Node> one;
            if (x.kind == 'p') { one.push_back(x.dtype ? bubble::param(x.name, DTYPE(x.dtype)) : bubble::param(x.name)); ins.push_back(x.name); }
            else if (x.kind == 'c') one.push_back(bubble::data(x.name, x.value.clone()));
            else { std::vector<Node> in; for (int i : x.in) in.push_back(v[i]); one.push_back(bubble::op(x.name, x.op, in)); for (auto &p : x.ps) one[0]->set(p.name, p.value.clone()); }
            v.push_back(one[0]);
        }
        std::vector<Node> o; for (int i : t.outs) o.push_back(v[i]);
        auto m = Module::Load(g, o);
        if (m->inputs().size() == ins.size()) m->sort_inputs(ins);
        return m;
    }
    // everything observable about a module
    std::string dump(const Module::shared &m) {
        std::map<std::string, int> unused; std::vector<Node> order; std::function<int(const Node &)> visit = [&](const Node &n) {
            for (size_t i = 0; i < order.size(); ++i) if (order[i] == n) return int(i);
            for (auto &i : n.inputs()) visit(i);
            order.push_back(n); return int(order.size()) - 1; };
        std::ostringstream o;
        o << "out"; for (auto &n : m->outputs()) o << " " << visit(n);
        o << " in"; for (auto &n : m->inputs()) o << " " << visit(n);
        for (size_t i = 0; i < order.size(); ++i) {
            auto &n = order[i];
            o << "\n" << i << " " << n->name() << " " << n->op() << " (";
            for (auto &k : n.inputs()) o << " " << visit(k);
            o << " )";
            std::map<std::string, Tensor> ps(n->params().begin(), n->params().end());
            for (auto &p : ps) { auto r = read(p.second); o << " " << p.first << "=" << type_str(r.dt) << vf::str(r.s) << std::hex << hashR(r) << std::dec; }
        }
        return o.str();
    }
    bool oracle(const Net &t, const std::vector<R> &in, std::vector<R> &out) {
        std::vector<Tensor> v; size_t k = 0;
        for (auto &x : t.n) {
            if (x.kind == 'p') { auto r = in[k++]; if (x.dtype) r.dt = DTYPE(x.dtype); v.push_back(make(r)); }
            else if (x.kind == 'c') v.push_back(x.value.clone());
            else { std::vector<Tensor> a; for (int i : x.in) a.push_back(v[i].clone()); auto o = B->run(x.op, x.ps, a); if (!o.ok || o.t.size() != 1) return false; v.push_back(o.t[0].clone()); }
        }
        for (int i : t.outs) out.push_back(read(v[i]));
        return true;
    }
    std::string attempt(const Module::shared &m, const std::string &opt, const Net &t, const std::vector<R> &in, const std::vector<R> &want, double tol) {
        try {
            auto b = std::make_shared<Workbench>(ComputingDevice(CPU), 1);
            b->setup(opt == "<none>" ? b->compile(m) : b->compile(m, opt));
            if (b->output_count() != int(want.size())) return "number of outputs " + std::to_string(b->output_count());
            if (b->input_count() != int(in.size())) return "number of inputs " + std::to_string(b->input_count());
            for (int round = 0; round < 2; ++round) {
                for (size_t i = 0; i < in.size(); ++i) b->input(int(i), make(in[i]));
                b->run();
                for (size_t i = 0; i < want.size(); ++i) { auto d = diff(read(b->output(int(i))), want[i], tol); if (!d.empty()) return "output " + std::to_string(i) + ": " + d; }
            }
            size_t k = 0;
            for (auto &x : t.n) if (x.kind == 'p') { b->input(x.name, make(in[k])); ++k; }
            // looking an output up by name is only unambiguous when the name is unique
            for (size_t i = 0; i < t.outs.size(); ++i) { auto &nm = t.n[t.outs[i]].name; auto d = diff(read(b->output(nm)), want[i], tol); if (!d.empty()) return "output named " + nm + ": " + d; }
        } catch (const std::exception &e) { return std::string("refused: ") + e.what(); }
        return "";
    }
    R vals(DTYPE dt, const Sh &s, int k) { R r(dt, s); for (size_t i = 0; i < r.v.size(); ++i) r.v[i] = double((int(i) * 7 + k * 5) % 11 - 5) / (k % 2 ? 4.0 : 2.0); return r; }
    Tensor T(DTYPE dt, const Sh &s, int k) { return make(vals(dt, s, k)); }
    std::vector<std::string> OPTS = {"<none>", "", "--pack", "--no-pack", "--filter", "--no-pack --filter", "--float16", "--no-pack --float16", "--pack --no-pack", "--winograd", "--no-winograd --filter --pack", "--some-unknown-option", "-v:cuda:cpu --no-pack"};
    void judge(const std::string &cls, const Net &t, const std::vector<R> &in, bool pairs) {
        std::vector<R> want; bool have = false, ok = false;
        for (size_t a = 0; a < OPTS.size(); ++a) {
            if (!take(cls, [&] { return t.what + " | option " + OPTS[a] + (pairs ? " then every option" : ""); })) continue;
            if (!have) { ok = oracle(t, in, want); have = true; }
            if (!ok) { ++S().skipped_domain; continue; }
            Graph g; auto m = build(t, g); auto d0 = dump(m);
            auto r = attempt(m, OPTS[a], t, in, want, 1e-4);
            step();
            for (auto &x : want) state(hashR(x));
            if (!r.empty()) { fail(cls + ";" + OPTS[a], r); continue; }
            if (dump(m) != d0) { fail(cls + ";module-changed", "compiling with " + OPTS[a] + " changes the source module\nbefore " + d0 + "\nafter " + dump(m)); }
            if (pairs) for (size_t b = 0; b < OPTS.size(); ++b) {
                auto q = attempt(m, OPTS[b], t, in, want, 1e-4); step();
                if (!q.empty()) { fail(cls + ";compiled-again", "compiled again with " + OPTS[b] + ": " + q); break; }
            }
        }
    }
    std::vector<P> convp(int stride, int pad, int dil = 1) { return {{"format", ps("NCHW")}, {"padding", p42({0, 0, 0, 0, pad, pad, pad, pad})}, {"stride", pv({1, 1, stride, stride})}, {"dilation", pv({1, 1, dil, dil})}}; }
    std::vector<P> convp2(int stride, int dil = 1) { return {{"format", ps("NCHW")}, {"stride", pv({1, 1, stride, stride})}, {"dilation", pv({1, 1, dil, dil})}}; }
}
int main(int argc, const char **argv) {
    parse(argc, argv); quiet(); setenv("TENNIS_NUMBER_THREADS", "1", 1);
    Bench bench; B = &bench;
    const bool th = S().thorough;
    std::vector<DTYPE> fl = {FLOAT32, FLOAT64};
    // 1. one operator with a constant operand: output sets around it
    auto outsets = [&](const std::string &cls, Net t, int x, int w, int y, const std::vector<R> &in, bool pairs) {
        std::vector<std::pair<std::string, std::vector<int>>> sets = {{"op", {y}}, {"op,const", {y, w}}, {"const,op", {w, y}}, {"op,op", {y, y}}, {"input,op", {x, y}}};
        for (auto &s : sets) { Net u = t; u.outs = s.second; u.what += " outputs " + s.first; judge(cls, u, in, pairs && s.first == "op"); }
    };
    std::vector<int> chans = th ? std::vector<int>{1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17} : std::vector<int>{1, 3, 8, 9};
    for (auto dt : fl) for (int oc : chans) for (int ic : {1, 3}) for (int k : {1, 2, 3}) for (int pad : {0, 1}) for (int stride : {1, 2}) for (int v2 = 0; v2 < 2; ++v2) {
        Net t; int x = t.param("x"); int w = t.data("w", T(dt, {oc, ic, k, k}, 1)); int y;
        if (!v2) y = t.op("y", "conv2d", {x, w}, convp(stride, pad));
        else { int p = t.data("pad", make(R(INT32, {4, 2}, {0, 0, 0, 0, double(pad), double(pad), double(pad), double(pad)}))); y = t.op("y", "conv2d_v2", {x, p, w}, convp2(stride)); }
        t.what = std::string(v2 ? "conv2d_v2 " : "conv2d ") + type_str(dt) + " kernel " + vf::str(Sh{oc, ic, k, k}) + " pad " + std::to_string(pad) + " stride " + std::to_string(stride);
        outsets("convolution", t, x, w, y, {vals(dt, {2, ic, 4, 5}, 3)}, k == 2 && ic == 1);
    }
    for (auto dt : fl) for (int N : chans) for (int K : {1, 3, 8, 9}) for (int tr : {0, 1, 2}) {
        Net t; int x = t.param("x"); int w = t.data("w", T(dt, tr == 1 ? Sh{N, K} : Sh{K, N}, 1));
        std::vector<P> p; if (tr < 2) p = {{"transpose", pb(tr == 1)}};
        int y = t.op("y", "inner_prod", {x, w}, p);
        t.what = std::string("inner_prod ") + type_str(dt) + " N " + std::to_string(N) + " K " + std::to_string(K) + " transpose " + std::to_string(tr);
        for (auto s : {Sh{2, K}, Sh{9, K}, Sh{2, K, 1, 1}}) outsets("inner_prod", t, x, w, y, {vals(dt, s, 3)}, N == 3);
    }
    // gemm: which operands are constant, transpositions, coefficients given or not
    for (auto dt : fl) for (int cm = 0; cm < 8; ++cm) for (int trA = 0; trA < 2; ++trA) for (int trB = 0; trB < 2; ++trB) for (int ab = 0; ab < 5; ++ab) for (int cs = 0; cs < 3; ++cs) {
        int M = 2, K = 3, Nn = 9;
        Net t; std::vector<R> in;
        Sh sa = trA ? Sh{K, M} : Sh{M, K}, sb = trB ? Sh{Nn, K} : Sh{K, Nn}, sc = cs == 0 ? Sh{M, Nn} : cs == 1 ? Sh{Nn} : Sh{1, 1};
        auto mk = [&](const char *nm, bool c, const Sh &s, int k) { if (c) return t.data(nm, T(dt, s, k)); in.push_back(vals(dt, s, k)); return t.param(nm); };
        int a = mk("a", cm & 1, sa, 1), b = mk("b", cm & 2, sb, 2), c = mk("c", cm & 4, sc, 3);
        std::vector<P> p;
        if (ab < 4) { const float al[] = {1, 0.5f, 1, 2}, be[] = {1, 1, 0, 0.5f}; p = {{"alpha", pf(al[ab])}, {"beta", pf(be[ab])}, {"transA", pb(trA)}, {"transB", pb(trB)}}; }
        else { if (trA) p.push_back({"transA", pb(true)}); if (trB) p.push_back({"transB", pb(true)}); }
        int y = t.op("y", "gemm", {a, b, c}, p);
        t.what = std::string("gemm ") + type_str(dt) + " constants " + std::to_string(cm) + " transA " + std::to_string(trA) + " transB " + std::to_string(trB) + " coefficients " + std::to_string(ab) + " C " + vf::str(sc);
        t.outs = {y}; judge("gemm", t, in, cs == 1);
        if (cm & 2) { t.outs = {b, y}; t.what += " outputs const,op"; judge("gemm", t, in, false); }
    }
    // 2. two operators sharing one constant
    {
        auto use = [&](Net &t, int kind, int x, int m, int w, const std::string &nm) {
            switch (kind) {   // w is a 4x4 matrix, x an image [1,4,3,3], m a matrix [2,4]
                case 0: return t.op(nm, "inner_prod", {m, w}, {{"transpose", pb(false)}});
                case 1: return t.op(nm, "inner_prod", {m, w}, {{"transpose", pb(true)}});
                case 2: return t.op(nm, "gemm", {m, w, t.data(nm + "z", T(FLOAT32, {4}, 4))}, {{"alpha", pf(1)}, {"beta", pf(1)}, {"transA", pb(false)}, {"transB", pb(true)}});
                case 3: return t.op(nm, "gemm", {w, w, t.data(nm + "z", T(FLOAT32, {4}, 4))}, {{"alpha", pf(2)}, {"beta", pf(1)}, {"transA", pb(true)}, {"transB", pb(false)}});
                case 4: return t.op(nm, "add", {w, t.data(nm + "z", T(FLOAT32, {4}, 4))});
                case 5: { int r = t.op(nm + "r", "_reshape", {w}, {{"shape", pv({4, 4, 1, 1})}}); return t.op(nm, "conv2d", {x, r}, convp(1, 0)); }
                case 6: return t.op(nm, "inner_prod", {w, w}, {{"transpose", pb(true)}});
                default: return t.op(nm, "matmul", {m, w});
            } };
        for (int i = 0; i < 8; ++i) for (int j = 0; j < 8; ++j) for (int rev = 0; rev < 2; ++rev) {
            Net t; int x = t.param("x"), m = t.param("m"); int w = t.data("w", T(FLOAT32, {4, 4}, 1));
            int a = use(t, i, x, m, w, "a"), b = use(t, j, x, m, w, "b"); int xi = t.op("xi", "relu", {x}), mi = t.op("mi", "relu", {m});
            t.outs = rev ? std::vector<int>{b, a, w, xi, mi} : std::vector<int>{a, b, xi, mi};
            t.what = "one matrix used by kinds " + std::to_string(i) + " and " + std::to_string(j) + (rev ? ", also an output" : "");
            judge("shared constant", t, {vals(FLOAT32, {1, 4, 3, 3}, 2), vals(FLOAT32, {2, 4}, 3)}, true);
        }
        // the same convolution kernel used twice, directly and in a chain
        for (int oc : {2, 8, 9}) for (int chain = 0; chain < 2; ++chain) for (int v2 = 0; v2 < 2; ++v2) {
            Net t; int x = t.param("x"); int w = t.data("w", T(FLOAT32, {oc, oc, 3, 3}, 1)); int p = t.data("pad", make(R(INT32, {4, 2}, {0, 0, 0, 0, 1, 1, 1, 1})));
            int a = v2 ? t.op("a", "conv2d_v2", {x, p, w}, convp2(1)) : t.op("a", "conv2d", {x, w}, convp(1, 1));
            int b = t.op("b", "conv2d", {chain ? a : x, w}, convp(1, 1));
            t.outs = {b, a}; t.what = "one kernel used by two convolutions, channels " + std::to_string(oc) + (chain ? " chained" : "");
            judge("shared constant", t, {vals(FLOAT32, {1, oc, 4, 4}, 2)}, true);
        }
    }
    // 3. declared input types
    for (auto dt : {FLOAT32, FLOAT64, INT32, UINT8}) for (auto from : {FLOAT32, UINT8, INT32}) {
        Net t; int x = t.param("x", dt); int y = t.op("y", "relu", {x}); if (dt == UINT8 || dt == INT32) y = t.op("y2", "add", {x, t.data("one", make(R(dt, {1}, {1})))}); t.outs = {y};
        t.what = std::string("input declared ") + type_str(dt) + ", given " + type_str(from);
        R r(from, {3}, {0, 1, 3}); judge("declared input type", t, {r}, true);
    }
    // 4. chains of layers
    struct L { std::string name; std::function<int(Net &, int, Sh &, int)> f; };
    auto nm = [](const char *b, int i) { return b + std::to_string(i); };
    std::vector<L> layers = {
        {"conv", [&](Net &t, int x, Sh &s, int i) { if (s.size() != 4) return -1; int w = t.data(nm("w", i), T(FLOAT32, {3, s[1], 3, 3}, i)); s = {s[0], 3, s[2], s[3]}; return t.op(nm("conv", i), "conv2d", {x, w}, convp(1, 1)); }},
        {"conv s2", [&](Net &t, int x, Sh &s, int i) { if (s.size() != 4) return -1; int w = t.data(nm("w", i), T(FLOAT32, {9, s[1], 1, 1}, i)); s = {s[0], 9, (s[2] - 1) / 2 + 1, (s[3] - 1) / 2 + 1}; return t.op(nm("convs", i), "conv2d", {x, w}, convp(2, 0)); }},
        {"depthwise", [&](Net &t, int x, Sh &s, int i) { if (s.size() != 4) return -1; int w = t.data(nm("w", i), T(FLOAT32, {1, s[1], 3, 3}, i)); return t.op(nm("dw", i), "depthwise_conv2d", {x, w}, convp(1, 1)); }},
        {"bias", [&](Net &t, int x, Sh &s, int i) { int b = t.data(nm("b", i), T(FLOAT32, {s[1]}, i)); return t.op(nm("bias", i), "add_bias", {x, b}, {{"dim", pi(1)}}); }},
        {"batch norm", [&](Net &t, int x, Sh &s, int i) { R v = vals(FLOAT32, {s[1]}, i); for (auto &q : v.v) q = q * q + 0.5; int m = t.data(nm("mean", i), T(FLOAT32, {s[1]}, i)), va = t.data(nm("var", i), make(v)); return t.op(nm("bn", i), "batch_norm", {x, m, va}, {{"dim", pi(1)}, {"epsilon", pf(0.01f)}}); }},
        {"relu", [&](Net &t, int x, Sh &, int i) { return t.op(nm("relu", i), "relu", {x}); }},
        {"pool", [&](Net &t, int x, Sh &s, int i) { if (s.size() != 4 || s[2] < 2) return -1; s[2] = (s[2] + 1) / 2; s[3] = (s[3] + 1) / 2; return t.op(nm("pool", i), "pooling2d", {x}, {{"format", ps("NCHW")}, {"type", pi(0)}, {"padding", p42({0, 0, 0, 0, 0, 0, 0, 0})}, {"ksize", pv({1, 1, 2, 2})}, {"stride", pv({1, 1, 2, 2})}}); }},
        {"inner_prod", [&](Net &t, int x, Sh &s, int i) { int k = int(cnt(s)) / s[0]; int w = t.data(nm("w", i), T(FLOAT32, {9, k}, i)); s = {s[0], 9}; return t.op(nm("ip", i), "inner_prod", {x, w}, {{"transpose", pb(true)}}); }},
        {"gemm", [&](Net &t, int x, Sh &s, int i) { if (s.size() != 2) return -1; int w = t.data(nm("w", i), T(FLOAT32, {s[1], 5}, i)), c = t.data(nm("c", i), T(FLOAT32, {5}, i + 1)); s = {s[0], 5}; return t.op(nm("gemm", i), "gemm", {x, w, c}); }},
        {"softmax", [&](Net &t, int x, Sh &, int i) { return t.op(nm("sm", i), "softmax", {x}, {{"dim", pi(1)}}); }},
        {"add self", [&](Net &t, int x, Sh &, int i) { return t.op(nm("add", i), "add", {x, x}); }},
        {"mul const", [&](Net &t, int x, Sh &, int i) { return t.op(nm("mul", i), "mul", {x, t.data(nm("k", i), T(FLOAT32, {1}, i + 2))}); }},
    };
    int L0 = int(layers.size());
    for (int len = 1; len <= (th ? 4 : 3); ++len) {
        std::vector<int> q(len, 0);
        while (true) {
            Net t; int x = t.param("x"); Sh s = {2, 2, 5, 4}; bool ok = true; std::string w; std::vector<int> mids;
            for (int i = 0; i < len && ok; ++i) { x = layers[q[i]].f(t, x, s, i + 1); w += (i ? " > " : "") + layers[q[i]].name; if (x < 0) ok = false; else mids.push_back(x); }
            if (ok) { t.outs = {x}; if (len > 1) t.outs.push_back(mids[len - 2]); t.what = w; judge("chain of " + std::to_string(len), t, {vals(FLOAT32, {2, 2, 5, 4}, 1)}, len <= 2); }
            int i = len - 1; for (; i >= 0; --i) { if (++q[i] < L0) break; q[i] = 0; }
            if (i < 0) break;
        }
    }
    // 5. devices named in the options
    for (auto o : {"-v:cpu:cpu", "-v:cpu:gpu -v:gpu:cpu", "-v:a:b -v:b:a", "-v:cuda:cpu", "-V:x:y"}) {
        if (!take("device mapping", [&] { return std::string(o); })) continue;
        Net t; int x = t.param("x"); t.outs = {t.op("y", "relu", {x})}; Graph g; auto m = build(t, g);
        try { auto b = std::make_shared<Workbench>(ComputingDevice(CPU), 1); b->setup(b->compile(m, o)); b->input(0, make(R(FLOAT32, {2}, {-1, 1}))); b->run(); auto d = diff(read(b->output(0)), R(FLOAT32, {2}, {0, 1})); if (!d.empty()) fail(std::string("device mapping;") + o, d); }
        catch (const std::exception &e) { if (std::string(o) == "-v:cuda:cpu" || std::string(o) == "-V:x:y" || std::string(o) == "-v:a:b -v:b:a") fail(std::string("device mapping;") + o, e.what()); }
        step();
    }
    finish();
}
