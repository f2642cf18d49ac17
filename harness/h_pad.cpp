// Automatic paddings of convolution and pooling against the size rule each framework publishes.
#include "ops.h"
#include <functional>
using namespace vf;
using namespace ts;
namespace {
    struct G { int x, k, s, d, a, b; };   // size, kernel, stride, dilation, static padding before and after, of one axis
    int fdiv(int a, int b) { int q = a / b; return q * b > a ? q - 1 : q; }
    int cdiv(int a, int b) { return -fdiv(-a, b); }
    // what the rule asks of one axis
    struct W { bool defined; int out, before, after; bool exact; };   // exact: after is prescribed too, otherwise only through the output size
    W same(const G &g, bool upper) { int n = g.x + g.a + g.b, ke = (g.k - 1) * g.d + 1, out = cdiv(n, g.s), t = (out - 1) * g.s + ke - n, h = std::max(t, 0) / 2; if (!upper) h = std::max(t, 0) - h; return {true, out, g.a + h, g.b + t - h, t >= 0}; }
    W valid(const G &g) { int n = g.x + g.a + g.b, ke = (g.k - 1) * g.d + 1; return {n >= ke, cdiv(n - ke + 1, g.s), g.a, 0, false}; }
    std::string str(const G &g) { std::ostringstream o; o << "size " << g.x << " kernel " << g.k << " stride " << g.s << " dilation " << g.d << " static padding " << g.a << "," << g.b; return o.str(); }
    R ramp(const Sh &s) { R r(FLOAT32, s); for (size_t i = 0; i < r.v.size(); ++i) r.v[i] = double(int(i * 7 % 23) - 30); return r; }
}
int main(int argc, const char **argv) {
    parse(argc, argv); quiet(); setenv("TENNIS_NUMBER_THREADS", "1", 1);
    Bench bench; Judge J(bench);
    const bool th = S().thorough;
    std::vector<G> gs, gp;
    const int top = th ? 24 : 16, kt = th ? 7 : 5, stt = th ? 5 : 4;
    for (int x = 1; x <= top; ++x) for (int k = 1; k <= kt; ++k) for (int s = 1; s <= stt; ++s) for (int d = 1; d <= 3; ++d) for (int a = 0; a <= 2; ++a) for (int b = 0; b <= 2; ++b) { if (d > 1 && (a > 1 || b > 1) && !th) continue; gs.push_back({x, k, s, d, a, b}); if (d == 1) gp.push_back({x, k, s, d, a, b}); }
    auto four = [](bool nhwc, int h, int w, int other) { return pv(nhwc ? std::vector<int>{other, h, w, other} : std::vector<int>{other, other, h, w}); };
    auto pads = [](bool nhwc, const G &h, const G &w) { return p42(nhwc ? std::vector<int>{0, 0, h.a, h.b, w.a, w.b, 0, 0} : std::vector<int>{0, 0, 0, 0, h.a, h.b, w.a, w.b}); };
    // compares the computed padding with the rule, axis by axis; ceil: the consumer rounds its output size up
    auto judge = [&](const std::string &key, const Out &o, bool nhwc, const G *g, const W *w, bool ceil) {
        if (J.infer_mode) { J.infer(key, o); return false; }
        if (!o.ok) { fail(key, "refused: " + o.err); return false; }
        R p = read(o.t[0]);
        if (p.s != Sh{4, 2} || p.dt != INT32) { fail(key, "gave " + show(p)); return false; }
        int at = nhwc ? 2 : 4;
        for (int i = 0; i < 8; ++i) if ((i < at || i >= at + 4) && p.v[i] != 0) { fail(key, "pads batch or channels: " + show(p)); return false; }
        for (int i = 0; i < 2; ++i) {
            int a = int(p.v[at + 2 * i]), b = int(p.v[at + 2 * i + 1]), ke = (g[i].k - 1) * g[i].d + 1, room = g[i].x + a + b - ke, out = (ceil ? cdiv(room, g[i].s) : fdiv(room, g[i].s)) + 1;
            std::ostringstream m; m << (i ? "width: " : "height: ") << str(g[i]) << ": padding " << a << "," << b << " gives output size " << out << "; the rule: output size " << w[i].out << ", padding before " << w[i].before; if (w[i].exact) m << ", after " << w[i].after;
            if (out != w[i].out) { fail(key + ";output size", m.str()); return false; }
            if (a != w[i].before || (w[i].exact && b != w[i].after)) { fail(key + ";sides", m.str()); return false; }
        }
        return true;
    };
    // windows of the two axes of a pooling or convolution that starts `before` outside the image
    auto windows = [&](const R &x, const G *g, const W *w, const std::function<double(const std::vector<std::pair<int, double>> &)> &f) {
        R o(FLOAT32, {x.s[0], x.s[1], w[0].out, w[1].out});
        each(o.s, [&](const Sh &c) { std::vector<std::pair<int, double>> v; for (int i = 0; i < g[0].k; ++i) for (int j = 0; j < g[1].k; ++j) { int y = c[2] * g[0].s - w[0].before + i * g[0].d, z = c[3] * g[1].s - w[1].before + j * g[1].d; if (y >= 0 && z >= 0 && y < g[0].x && z < g[1].x) v.push_back({i * g[1].k + j, x.at({c[0], c[1], y, z})}); } o.at(c) = f(v); });
        return o;
    };
    auto second = [&](const std::vector<G> &v, size_t i) { return v[(i * 7919 + 13) % v.size()]; };
    // ---- convolution
    for (size_t i = 0; i < gs.size(); ++i) for (int op = 0; op < 2; ++op) for (int nhwc = 0; nhwc < 2; ++nhwc) for (const char *m : {"SAME", "VALID", "SAME_UPPER", "SAME_LOWER", "NOTSET"}) {
        std::string method = m; bool tf = op == 0;
        if (tf && method != "SAME" && method != "VALID") continue;
        G g[2] = {gs[i], second(gs, i)};
        if (!tf) { if (method[0] == 'S') for (auto &q : g) q.a = q.b = 0; }      // Dragon ignores static paddings there
        if (!take(tf ? "TensorFlow convolution" : "Dragon convolution", [&] { return method + (nhwc ? " NHWC " : " NCHW ") + str(g[0]) + " / " + str(g[1]); })) continue;
        W w[2]; bool dragon_valid = !tf && method[0] != 'S';
        for (int q = 0; q < 2; ++q) {
            if (method[0] != 'S') w[q] = valid(g[q]); else w[q] = same(g[q], true);
            if (dragon_valid) { w[q].after = g[q].b; w[q].exact = true; w[q].out = fdiv(g[q].x + g[q].a + g[q].b - (g[q].k - 1) * g[q].d - 1, g[q].s) + 1; }
        }
        if (!w[0].defined || !w[1].defined) { ++S().skipped_domain; continue; }
        R x(FLOAT32, nhwc ? Sh{1, g[0].x, g[1].x, 2} : Sh{1, 2, g[0].x, g[1].x}), k(FLOAT32, nhwc ? Sh{3, g[0].k, g[1].k, 2} : Sh{3, 2, g[0].k, g[1].k});
        std::vector<P> p = {{"format", ps(nhwc ? "NHWC" : "NCHW")}, {"stride", four(nhwc, g[0].s, g[1].s, 1)}, {"padding_method", ps(method)}};
        bool dil = g[0].d > 1 || g[1].d > 1;
        if (dil || i % 2) p.push_back({"dilation", four(nhwc, g[0].d, g[1].d, 1)});
        if (g[0].a || g[0].b || g[1].a || g[1].b || i % 3 == 0) p.push_back({"padding", pads(nhwc, g[0], g[1])});
        std::string key = std::string(tf ? "TensorFlow" : "Dragon") + " convolution;" + method + (nhwc ? ";NHWC" : "") + (dil || i % 2 ? "" : ";no dilation given");
        Out o = J.call(tf ? "_tf_conv2d_padding" : "_dragon_conv2d_padding", p, {x, k});
        if (!tf && method[0] == 'S' && o.ok) {       // Dragon puts the odd row on either side, by method
            R r = read(o.t[0]); int at = nhwc ? 2 : 4;
            for (int q = 0; q < 2 && r.v.size() == 8; ++q) { W u = same(g[q], false); if (int(r.v[at + 2 * q]) == u.before) w[q] = u; }
        }
        if (!judge(key, o, nhwc, g, w, false)) continue;
        if (nhwc || i % (th ? 3 : 11) || w[0].out < 1 || w[1].out < 1) continue;
        // the convolution run with that padding is the one the framework defines
        R img = ramp({1, 2, g[0].x, g[1].x}), ker(FLOAT32, {3, 2, g[0].k, g[1].k}); for (size_t q = 0; q < ker.v.size(); ++q) ker.v[q] = double(int(q * 5 % 7) - 3);
        R want(FLOAT32, {1, 3, w[0].out, w[1].out});
        each(want.s, [&](const Sh &c) { double t = 0; for (int ch = 0; ch < 2; ++ch) for (int a = 0; a < g[0].k; ++a) for (int b = 0; b < g[1].k; ++b) { int y = c[2] * g[0].s - w[0].before + a * g[0].d, z = c[3] * g[1].s - w[1].before + b * g[1].d; if (y >= 0 && z >= 0 && y < g[0].x && z < g[1].x) t += img.at({0, ch, y, z}) * ker.at({c[1], ch, a, b}); } want.at(c) = t; });
        Tensor pad = o.t[0].clone();
        J.want(key + ";run", J.callt("conv2d_v2", {{"format", ps("NCHW")}, {"stride", four(false, g[0].s, g[1].s, 1)}, {"dilation", four(false, g[0].d, g[1].d, 1)}}, {make(img), pad, make(ker)}), {want});
    }
    // ---- pooling
    for (size_t i = 0; i < gp.size(); ++i) for (int op = 0; op < 4; ++op) for (int nhwc = 0; nhwc < 2; ++nhwc) for (const char *m : {"SAME", "VALID", "SAME_UPPER", "SAME_LOWER", "NOTSET", "ceil", "floor"}) {
        std::string method = m; static const char *ops[] = {"_tf_pooling2d_padding", "_mx_pooling2d_padding", "_onnx_pooling2d_padding", "_dragon_pooling2d_padding"}, *names[] = {"TensorFlow pooling", "MXNet pooling", "ONNX pooling", "Dragon pooling"};
        if (op == 0 && method != "SAME" && method != "VALID") continue;
        if (op == 1 && method != "ceil" && method != "floor") continue;
        if (op == 2 && method != "VALID" && method != "SAME_UPPER" && method != "SAME_LOWER" && method != "NOTSET") continue;
        if (op >= 2 && nhwc) continue;
        G g[2] = {gp[i], second(gp, i)};
        bool sm = method[0] == 'S';
        if (op == 3 && sm) for (auto &q : g) q.a = q.b = 0;
        if (!take(names[op], [&] { return method + (nhwc ? " NHWC " : " NCHW ") + str(g[0]) + " / " + str(g[1]); })) continue;
        W w[2];
        for (int q = 0; q < 2; ++q) {
            int n = g[q].x + g[q].a + g[q].b, room = n - g[q].k;
            if (sm) w[q] = same(g[q], method == "SAME_UPPER" || (op == 0 && method == "SAME"));
            else if (method == "ceil" && op == 1) w[q] = {room >= 0, cdiv(room, g[q].s) + 1, g[q].a, g[q].b, true};
            else if (op == 3) { bool ceil = method != "floor"; int out = (ceil ? cdiv(room, g[q].s) : fdiv(room, g[q].s)) + 1; if ((out - 1) * g[q].s >= n) --out; w[q] = {room >= 0, out, g[q].a, 0, false}; }
            else w[q] = valid(g[q]);
        }
        if (!w[0].defined || !w[1].defined) { ++S().skipped_domain; continue; }
        R x = ramp(nhwc ? Sh{1, g[0].x, g[1].x, 2} : Sh{1, 2, g[0].x, g[1].x});
        std::vector<P> p;
        if (op < 2) p.push_back({"format", ps(nhwc ? "NHWC" : "NCHW")});
        if (op == 0) p.push_back({"padding_method", ps(method)});
        if (op == 1) p.push_back({"valid", pi(method == "floor")});
        if (op >= 2 && method != "ceil" && method != "floor" && !(op == 2 && method == "NOTSET" && i % 2)) p.push_back({"auto_pad", ps(method)});
        if (op == 3 && (method == "ceil" || method == "floor")) p.push_back({"ceil", pb(method == "ceil")});
        if (op == 1 || g[0].a || g[0].b || g[1].a || g[1].b || i % 3 == 0) p.push_back({"padding", pads(nhwc, g[0], g[1])});
        std::string key = std::string(names[op]) + ";" + method + (nhwc ? ";NHWC" : "");
        Tensor ks = four(nhwc, g[0].k, g[1].k, 1), st = four(nhwc, g[0].s, g[1].s, 1);
        if (i % 5 == 4) { ks = tensor::cast(INT64, ks); st = tensor::cast(INT64, st); }
        Out o = J.callt(ops[op], p, {make(x), ks, st});
        if (!judge(key, o, nhwc, g, w, true)) continue;
        if (nhwc || i % (th ? 2 : 5) || w[0].out < 1 || w[1].out < 1) continue;
        R want = windows(x, g, w, [](const std::vector<std::pair<int, double>> &v) { double t = v.empty() ? 0 : -1e30; for (auto &e : v) t = std::max(t, e.second); return t; });
        Tensor pad = o.t[0].clone();
        J.want(key + ";run", J.callt("pooling2d_v2", {{"format", ps("NCHW")}, {"type", pi(0)}, {"padding_type", pi(0)}}, {make(x), pad, four(false, g[0].k, g[1].k, 1), four(false, g[0].s, g[1].s, 1)}), {want});
    }
    // methods and formats that do not exist
    auto no = [&](const std::string &op, const std::vector<P> &p, const std::vector<Tensor> &in, const std::string &what) { if (take("refused", [&] { return op + " " + what; })) J.rejected(op + ";" + what, J.callt(op, p, in)); };
    Tensor x = make(ramp({1, 2, 5, 5})), k = make(ramp({3, 2, 3, 3})), ks = pv({1, 1, 3, 3}), st = pv({1, 1, 2, 2});
    for (const char *m : {"same", "", "FULL", "SAME_LOWE"}) {
        no("_tf_conv2d_padding", {{"format", ps("NCHW")}, {"stride", st}, {"dilation", pv({1, 1, 1, 1})}, {"padding_method", ps(m)}}, {x, k}, std::string("method ") + m);
        no("_dragon_conv2d_padding", {{"format", ps("NCHW")}, {"stride", st}, {"dilation", pv({1, 1, 1, 1})}, {"padding_method", ps(m)}}, {x, k}, std::string("method ") + m);
        no("_tf_pooling2d_padding", {{"format", ps("NCHW")}, {"padding_method", ps(m)}}, {x, ks, st}, std::string("method ") + m);
        no("_onnx_pooling2d_padding", {{"auto_pad", ps(m)}}, {x, ks, st}, std::string("method ") + m);
        no("_dragon_pooling2d_padding", {{"auto_pad", ps(m)}}, {x, ks, st}, std::string("method ") + m);
    }
    for (const char *f : {"nchw", "NHW", "NCWH", ""}) {
        no("_tf_conv2d_padding", {{"format", ps(f)}, {"stride", st}, {"dilation", pv({1, 1, 1, 1})}, {"padding_method", ps("SAME")}}, {x, k}, std::string("format ") + f);
        no("_dragon_conv2d_padding", {{"format", ps(f)}, {"stride", st}, {"dilation", pv({1, 1, 1, 1})}, {"padding_method", ps("SAME")}}, {x, k}, std::string("format ") + f);
        no("_tf_pooling2d_padding", {{"format", ps(f)}, {"padding_method", ps("SAME")}}, {x, ks, st}, std::string("format ") + f);
        no("_mx_pooling2d_padding", {{"format", ps(f)}, {"valid", pi(1)}, {"padding", p42({0, 0, 0, 0, 0, 0, 0, 0})}}, {x, ks, st}, std::string("format ") + f);
    }
    finish();
}
