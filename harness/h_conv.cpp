// Convolutions and poolings against the direct definition.
#include "ops.h"
using namespace vf;
using namespace ts;
namespace {
    Tensor p4(int a, int b) { return pv({1, 1, a, b}); }
    struct Ax { int n, k, s, d, p0, p1; };   // one spatial axis
    std::string str(const Ax &a) { std::ostringstream o; o << "size " << a.n << " kernel " << a.k << " stride " << a.s << " dilation " << a.d << " pads " << a.p0 << "," << a.p1; return o.str(); }
    R val(DTYPE dt, const Sh &s, int k) { R r(dt, s); for (size_t i = 0; i < r.v.size(); ++i) r.v[i] = double((int(i) * 7 + k * 5 + int(i) / 11) % 13 - 6); return r; }
    int fwd(const Ax &a) { return (a.n + a.p0 + a.p1 - (a.d * (a.k - 1) + 1)) / a.s + 1; }
    int bwd(const Ax &a) { return (a.n - 1) * a.s + a.d * (a.k - 1) + 1 - a.p0 - a.p1; }
    bool fits(const Ax &a) { return a.n + a.p0 + a.p1 >= a.d * (a.k - 1) + 1; }
    R conv(const R &x, const R &w, const Ax &h, const Ax &v, double pv) {
        int N = x.s[0], C = x.s[1], O = w.s[0], H = fwd(h), W = fwd(v);
        R o(x.dt, {N, O, H, W}); size_t q = 0;
        for (int n = 0; n < N; ++n) for (int oc = 0; oc < O; ++oc) for (int i = 0; i < H; ++i) for (int j = 0; j < W; ++j) {
            double s = 0;
            for (int c = 0; c < C; ++c) for (int a = 0; a < h.k; ++a) { int y = i * h.s + a * h.d - h.p0; for (int b = 0; b < v.k; ++b) { int z = j * v.s + b * v.d - v.p0;
                double e = y < 0 || y >= h.n || z < 0 || z >= v.n ? pv : x.v[((n * C + c) * h.n + y) * size_t(v.n) + z];
                s += e * w.v[((oc * C + c) * h.k + a) * size_t(v.k) + b]; } }
            o.v[q++] = s;
        }
        return o;
    }
    R depth(const R &x, const R &w, const Ax &h, const Ax &v, double pv) {
        int N = x.s[0], C = x.s[1], H = fwd(h), W = fwd(v);
        R o(x.dt, {N, C, H, W}); size_t q = 0;
        for (int n = 0; n < N; ++n) for (int c = 0; c < C; ++c) for (int i = 0; i < H; ++i) for (int j = 0; j < W; ++j) {
            double s = 0;
            for (int a = 0; a < h.k; ++a) for (int b = 0; b < v.k; ++b) { int y = i * h.s + a * h.d - h.p0, z = j * v.s + b * v.d - v.p0;
                s += (y < 0 || y >= h.n || z < 0 || z >= v.n ? pv : x.v[((n * C + c) * h.n + y) * v.n + z]) * w.v[(c * h.k + a) * v.k + b]; }
            o.v[q++] = s;
        }
        return o;
    }
    R trans(const R &x, const R &w, const Ax &h, const Ax &v) {
        int N = x.s[0], C = x.s[1], O = w.s[1], H = bwd(h), W = bwd(v);
        R o(x.dt, {N, O, H, W});
        for (int n = 0; n < N; ++n) for (int c = 0; c < C; ++c) for (int oc = 0; oc < O; ++oc) for (int i = 0; i < h.n; ++i) for (int j = 0; j < v.n; ++j) for (int a = 0; a < h.k; ++a) for (int b = 0; b < v.k; ++b) {
            int y = i * h.s + a * h.d - h.p0, z = j * v.s + b * v.d - v.p0;
            if (y < 0 || y >= H || z < 0 || z >= W) continue;
            o.v[((n * O + oc) * H + y) * W + z] += x.v[((n * C + c) * h.n + i) * v.n + j] * w.v[((c * O + oc) * h.k + a) * v.k + b];
        }
        return o;
    }
    int pfwd(const Ax &a) { int q = a.n + a.p0 + a.p1 - a.k; return (q >= 0 ? (q + a.s - 1) / a.s : -((-q) / a.s)) + 1; }
    R pool(const R &x, const Ax &h, const Ax &v, int type, int white) {
        int N = x.s[0], C = x.s[1], H = pfwd(h), W = pfwd(v);
        R o(x.dt, {N, C, H, W}); size_t q = 0;
        for (int n = 0; n < N; ++n) for (int c = 0; c < C; ++c) for (int i = 0; i < H; ++i) for (int j = 0; j < W; ++j) {
            double s = 0, m = 0; int k = 0;
            for (int a = 0; a < h.k; ++a) for (int b = 0; b < v.k; ++b) { int y = i * h.s + a - h.p0, z = j * v.s + b - v.p0;
                if (y < 0 || y >= h.n || z < 0 || z >= v.n) continue;
                double e = x.v[((n * C + c) * h.n + y) * v.n + z]; s += e; m = k ? std::max(m, e) : e; ++k; }
            o.v[q++] = type == 0 ? m : white ? s / (h.k * v.k) : k ? s / k : 0;
        }
        return o;
    }
    std::vector<int> pads(const Ax &h, const Ax &v) { return {0, 0, 0, 0, h.p0, h.p1, v.p0, v.p1}; }
    R padr(const Ax &h, const Ax &v) { R r(INT32, {4, 2}); auto p = pads(h, v); for (int i = 0; i < 8; ++i) r.v[i] = p[i]; return r; }
    R i4(int a, int b) { R r(INT32, {4}); r.v = {1, 1, double(a), double(b)}; return r; }
    std::vector<P> base(const Ax &h, const Ax &v, double pv, bool padding) {
        std::vector<P> p = {{"format", ps("NCHW")}, {"stride", p4(h.s, v.s)}, {"dilation", p4(h.d, v.d)}};
        if (padding) p.push_back({"padding", p42(pads(h, v))});
        if (pv != 0) p.push_back({"padding_value", pf(float(pv))});
        return p;
    }
}
int main(int argc, const char **argv) {
    parse(argc, argv); quiet(); setenv("TENNIS_NUMBER_THREADS", "1", 1);
    Bench bench; Judge J(bench);
    const bool th = S().thorough;
    std::vector<DTYPE> fl = {FLOAT32, FLOAT64};
    // the axis along which everything is varied, and the ones it is combined with
    std::vector<Ax> all, mates = {{4, 1, 1, 1, 0, 0}, {5, 3, 1, 1, 1, 1}, {5, 2, 2, 1, 0, 1}, {6, 3, 2, 1, 0, 1}, {5, 2, 1, 2, 1, 0}, {9, 3, 2, 1, 1, 0}, {12, 3, 1, 1, 0, 0}};
    for (int n = 1; n <= (th ? 10 : 7); ++n) for (int k = 1; k <= (th ? 4 : 3); ++k) for (int s = 1; s <= 3; ++s) for (int d = 1; d <= 2; ++d) for (int a = 0; a <= 2; ++a) for (int b = 0; b <= 2; ++b) if (k > 1 || d == 1) all.push_back({n, k, s, d, a, b});
    for (int k : {5, 7}) for (int n : {1, 4, 7, 9, 12}) for (int s = 1; s <= 2; ++s) for (int p : {0, 1, 3}) all.push_back({n, k, s, 1, p, p});
    auto dsc = [](const Ax &h, const Ax &v, DTYPE dt, int N, int C, int O, double pv) { return std::string(type_str(dt)) + " batch " + std::to_string(N) + " channels " + std::to_string(C) + " to " + std::to_string(O) + "; height " + str(h) + "; width " + str(v) + "; padding value " + std::to_string(pv); };
    auto one = [&](const Ax &h, const Ax &v, DTYPE dt, int N, int C, int O, double pv, int what) {
        bool tr = what & 8;
        if (tr ? bwd(h) < 1 || bwd(v) < 1 : !fits(h) || !fits(v)) return;
        auto d = [&] { return dsc(h, v, dt, N, C, O, pv); };
        std::string k = std::string(";") + type_str(dt) + ";kernel " + std::to_string(h.k) + "x" + std::to_string(v.k) + (h.s + v.s > 2 ? ";strided" : "") + (h.d + v.d > 2 ? ";dilated" : "") + (h.p0 + h.p1 + v.p0 + v.p1 ? ";padded" : "") + (pv != 0 ? ";padding value" : "");
        if ((what & 1) && take("conv2d", d)) { R x = val(dt, {N, C, h.n, v.n}, 1), w = val(dt, {O, C, h.k, v.k}, 2); J.want("conv2d" + k, J.call("conv2d", base(h, v, pv, true), {x, w}), {conv(x, w, h, v, pv)}); }
        if ((what & 2) && take("conv2d_v2", d)) { R x = val(dt, {N, C, h.n, v.n}, 1), w = val(dt, {O, C, h.k, v.k}, 2); J.want("conv2d_v2" + k, J.call("conv2d_v2", base(h, v, pv, false), {x, padr(h, v), w}), {conv(x, w, h, v, pv)}); }
        if ((what & 4) && take("depthwise_conv2d", d)) { R x = val(dt, {N, C, h.n, v.n}, 1), w = val(dt, {1, C, h.k, v.k}, 2); J.want("depthwise_conv2d" + k, J.call("depthwise_conv2d", base(h, v, pv, true), {x, w}), {depth(x, w, h, v, pv)}); }
        if ((what & 16) && take("depthwise_conv2d_v2", d)) { R x = val(dt, {N, C, h.n, v.n}, 1), w = val(dt, {1, C, h.k, v.k}, 2); J.want("depthwise_conv2d_v2" + k, J.call("depthwise_conv2d_v2", base(h, v, pv, false), {x, padr(h, v), w}), {depth(x, w, h, v, pv)}); }
        if (tr && take("transpose_conv2d", d)) { R x = val(dt, {N, C, h.n, v.n}, 1), w = val(dt, {C, O, h.k, v.k}, 2); J.want("transpose_conv2d" + k, J.call("transpose_conv2d", base(h, v, 0, true), {x, w}), {trans(x, w, h, v)}); }
    };
    int z = 0;
    for (auto dt : fl) for (auto &a : all) for (size_t m = 0; m < mates.size(); ++m) for (int sw = 0; sw < 2; ++sw) {
        auto &h = sw ? mates[m] : a; auto &v = sw ? a : mates[m];
        for (int what : {1, 2, 4, 8, 16}) {
            if ((what == 2 || what == 16) && (m & 1)) continue;
            ++z;
            one(h, v, dt, 1 + z % 2, 1 + z % 3, 1 + z % 5, what == 8 || z % 3 ? 0 : 1.5, what);
            if (what == 1 && z % 4 == 0) one(h, v, dt, 1, 3, 9, 0, what);
        }
    }
    // both axes alike: every size of both axes for the usual kernels (here the special algorithms are chosen)
    for (auto dt : fl) for (int H = 1; H <= (th ? 14 : 10); ++H) for (int W = 1; W <= (th ? 22 : 18); ++W) for (int k = 1; k <= 3; ++k) for (int s = 1; s <= 2; ++s) for (int p = 0; p < 3; ++p) for (double pv : {0.0, -2.0}) {
        if (dt == FLOAT64 && (H + W) % 3) continue;
        if (pv != 0 && !p) continue;
        one({H, k, s, 1, p, p}, {W, k, s, 1, p, p}, dt, 1, 2, 3, pv, 1 | 4);
        one({H, k, s, 1, p, 0}, {W, k, s, 1, 0, p}, dt, 2, 3, 2, pv, 4 | 16);
        if (pv == 0) one({H, k, s, 1, p, p}, {W, k, s, 1, p, p}, dt, 2, 2, 3, 0, 8);
    }
    // channel counts around the vector widths
    for (auto dt : fl) for (int C = 1; C <= (th ? 20 : 18); ++C) for (int O = 1; O <= (th ? 34 : 18); ++O) for (int k : {1, 2, 3}) for (int s : {1, 2}) {
        one({4, k, s, 1, k / 2, k / 2}, {5, k, s, 1, k / 2, k / 2}, dt, 2, C, O, 0, 1);
        if (k != 2) one({4, k, s, 1, 0, 0}, {3, k, s, 1, 0, 0}, dt, 1, C, O, 0, 2);
        if (O == 1) one({5, k, s, 1, k / 2, k / 2}, {6, k, s, 1, k / 2, k / 2}, dt, 2, C, O, 0, 4);
        if (C < 10 && O < 10) one({3, k, s, 1, 0, 0}, {2, k, s, 1, 0, 0}, dt, 2, C, O, 0, 8);
    }
    // Winograd
    auto wino = [&](int H, int W, const std::vector<int> &p, int N, int C, int O, double pv, int v2, double tol) {
        Ax h{H, 3, 1, 1, p[0], p[1]}, v{W, 3, 1, 1, p[2], p[3]};
        if (!fits(h) || !fits(v)) return;
        if (!take(v2 ? "conv2d_winograd_v2" : "conv2d_winograd", [&] { return dsc(h, v, FLOAT32, N, C, O, pv); })) return;
        R x = val(FLOAT32, {N, C, H, W}, 1 + H), w = val(FLOAT32, {O, C, 3, 3}, 2 + W % 3);
        std::vector<P> q = {{"format", ps("NCHW")}};
        if (!v2) q.push_back({"padding", p42(pads(h, v))});
        if (pv != 0) q.push_back({"padding_value", pf(float(pv))});
        std::string k = std::string(v2 ? "conv2d_winograd_v2" : "conv2d_winograd") + (C * O >= 65536 && H > 16 && W > 16 ? ";large tiles" : "") + (pv != 0 ? ";padding value" : p[0] + p[1] + p[2] + p[3] ? ";padded" : "");
        R wt = conv(x, w, h, v, pv);
        J.want(k, v2 ? J.call("conv2d_winograd_v2", q, {x, padr(h, v), w}) : J.call("conv2d_winograd", q, {x, w}), {wt}, tol);
    };
    std::vector<std::vector<int>> wp = {{0, 0, 0, 0}, {1, 1, 1, 1}, {1, 0, 0, 1}, {0, 1, 1, 0}, {2, 0, 1, 2}, {0, 2, 2, 1}, {2, 2, 2, 2}, {0, 0, 1, 1}};
    for (int v2 = 0; v2 < 2; ++v2) for (auto &p : wp) for (int H = 1; H <= (th ? 13 : 10); ++H) for (int W = 1; W <= (th ? 19 : 13); ++W) for (double pv : {0.0, 1.5}) {
        if (pv != 0 && (&p == &wp[0] || (H + W) % 2)) continue;
        wino(H, W, p, 1 + (H + W) % 2, 1 + H % 3, 1 + W % 5, pv, v2, 1e-5);
    }
    for (int C = 1; C <= (th ? 18 : 10); ++C) for (int O = 1; O <= (th ? 34 : 18); ++O) { wino(5, 6, wp[1], 2, C, O, 0, 0, 1e-5); wino(4, 9, wp[0], 1, C, O, 0, 1, 1e-5); }
    // kernels transformed beforehand
    for (int v2 = 0; v2 < 2; ++v2) for (int f63 = 0; f63 < 2; ++f63) for (int C : {1, 2, 3, 8, 9}) for (int O : {1, 3, 8, 17}) for (int H : {3, 4, 8, 9}) for (int W : {3, 5, 8, 14}) {
        Ax h{H, 3, 1, 1, 1, 0}, v{W, 3, 1, 1, 1, 1};
        if (!take("transformed kernel", [&] { return std::string(v2 ? "conv2d_winograd_v2 " : "conv2d_winograd ") + (f63 ? "large" : "small") + " tiles; " + dsc(h, v, FLOAT32, 2, C, O, 0); })) continue;
        R x = val(FLOAT32, {2, C, H, W}, 1), w = val(FLOAT32, {O, C, 3, 3}, 2 + H);
        auto tk = J.call("winograd_transform_kernel", {{"winograd_mode", ps(f63 ? "winograd_f63" : "winograd_f23")}}, {w});
        if (!tk.ok || tk.t.size() != 1) { fail("winograd_transform_kernel", "refused: " + tk.err); continue; }
        std::vector<P> q = {{"format", ps("NCHW")}, {"kernel_winograd_transformed", pb(true)}};
        if (!v2) q.push_back({"padding", p42(pads(h, v))});
        R kt = read(tk.t[0]);
        J.want("transformed kernel", v2 ? J.call("conv2d_winograd_v2", q, {x, padr(h, v), kt}) : J.call("conv2d_winograd", q, {x, kt}), {conv(x, w, h, v, 0)}, f63 ? 1e-3 : 1e-4);
    }
    // enough channels for the large tiles
    struct Big { int H, W, C, O, p; };
    std::vector<Big> big; J.reuse = false;
    for (auto co : {std::pair<int, int>{1, 65536}, {2, 32768}, {128, 512}, {259, 254}}) for (auto hw : {std::pair<int, int>{17, 17}, {17, 18}, {18, 20}, {20, 17}, {19, 23}, {22, 19}, {26, 21}, {16, 17}, {17, 16}}) {
        if (!th && (co.first > 1) && (co.second > 1 || hw.first > 18) && !(co.first == 128 && hw.first == 20)) continue;
        for (int p = 0; p < 3; ++p) { if (!th && p == 2) continue; big.push_back({hw.first, hw.second, co.first, co.second, p}); }
    }
    for (auto &b : big) wino(b.H, b.W, wp[b.p == 0 ? 0 : b.p == 1 ? 1 : 4], 1, b.C, b.O, 0, b.p & 1, 1e-3);
    J.reuse = true;
    // pooling
    std::vector<Ax> pa, pm = {{4, 1, 1, 1, 0, 0}, {5, 3, 2, 1, 1, 1}, {5, 2, 2, 1, 0, 1}, {6, 3, 2, 1, 0, 0}, {7, 3, 2, 1, 0, 1}, {8, 2, 2, 1, 1, 0}, {5, 3, 1, 1, 1, 1}, {6, 2, 3, 1, 0, 2}};
    for (int n = 1; n <= (th ? 14 : 9); ++n) for (int k = 1; k <= 4; ++k) for (int s = 1; s <= 3; ++s) for (int a = 0; a <= 2; ++a) for (int b = 0; b <= 2; ++b) pa.push_back({n, k, s, 1, a, b});
    auto pl = [&](const Ax &h, const Ax &v, DTYPE dt, int N, int C, int type, int white, int v2) {
        if (pfwd(h) < 1 || pfwd(v) < 1) return;
        if (!take(v2 ? "pooling2d_v2" : "pooling2d", [&] { return dsc(h, v, dt, N, C, C, 0) + (type ? " average" : " maximum") + (white ? " white" : " black"); })) return;
        R x = val(dt, {N, C, h.n, v.n}, 3);
        for (auto &e : x.v) e -= 7;   // a zero from the padding would win
        std::vector<P> q = {{"format", ps("NCHW")}, {"type", pi(type)}, {"padding_type", pi(white ? 3 : 0)}};
        bool out = h.s > h.k || v.s > v.k || h.p0 >= h.k || h.p1 >= h.k || v.p0 >= v.k || v.p1 >= v.k;
        std::string k = std::string(v2 ? "pooling2d_v2;" : "pooling2d;") + type_str(dt) + (type ? ";average" : ";maximum") + (white ? ";white" : "") + ";kernel " + std::to_string(h.k) + "x" + std::to_string(v.k) + ";stride " + std::to_string(h.s) + "x" + std::to_string(v.s) + (out ? ";window may miss the image" : "");
        if (!v2) { q.push_back({"padding", p42(pads(h, v))}); q.push_back({"ksize", p4(h.k, v.k)}); q.push_back({"stride", p4(h.s, v.s)}); J.want(k, J.call("pooling2d", q, {x}), {pool(x, h, v, type, white)}, dt == FLOAT32 ? 1e-6 : 1e-14); }
        else J.want(k, J.call("pooling2d_v2", q, {x, padr(h, v), i4(h.k, v.k), i4(h.s, v.s)}), {pool(x, h, v, type, white)}, dt == FLOAT32 ? 1e-6 : 1e-14);
    };
    for (auto dt : fl) for (auto &a : pa) for (auto &m : pm) for (int sw = 0; sw < 2; ++sw) for (int t = 0; t < 2; ++t) { auto &h = sw ? m : a; auto &v = sw ? a : m; ++z; pl(h, v, dt, 1 + z % 2, 1 + z % 3, t, z / 3 % 2, z / 5 % 2); }
    for (auto dt : fl) for (int v2 = 0; v2 < 2; ++v2) for (int H = 1; H <= (th ? 16 : 11); ++H) for (int W = 1; W <= (th ? 24 : 20); ++W) for (int k = 2; k <= 3; ++k) for (int p = 0; p < 16; ++p) {
        if (dt == FLOAT64 && (H + W) % 2) continue;
        pl({H, k, 2, 1, p & 1, p >> 1 & 1}, {W, k, 2, 1, p >> 2 & 1, p >> 3 & 1}, dt, 1 + v2, 2, 0, p % 2, v2);
    }
    for (auto dt : fl) for (int H = 1; H <= 9; ++H) for (int W = 1; W <= 9; ++W) for (int t = 0; t < 2; ++t) for (int c = 1; c <= 5; ++c) {
        if (!take("global_pooling2d", [&] { return std::string(type_str(dt)) + " " + std::to_string(H) + "x" + std::to_string(W) + " type " + std::to_string(t) + " channels " + std::to_string(c); })) continue;
        R x = val(dt, {1 + c % 2, c, H, W}, 4); for (auto &e : x.v) e -= 7;
        J.want("global_pooling2d;" + std::string(type_str(dt)), J.call("global_pooling2d", {{"format", ps("NCHW")}, {"type", pi(t)}}, {x}), {pool(x, {H, H, 1, 1, 0, 0}, {W, W, 1, 1, 0, 0}, t, 0)}, dt == FLOAT32 ? 1e-6 : 1e-14);
    }
    // operands that do not belong together
    auto no = [&](const std::string &op, const std::vector<P> &p, const std::vector<R> &in, const std::string &what) { if (take("refused " + op, [&] { return what; })) J.rejected(op + ";refused " + what, J.call(op, p, in)); };
    Ax a3{5, 3, 1, 1, 1, 1};
    for (auto dt : fl) {
        auto od = dt == FLOAT32 ? FLOAT64 : FLOAT32; R x = val(dt, {2, 3, 5, 5}, 1);
        for (int c : {1, 2, 4, 6}) {
            no("conv2d", base(a3, a3, 0, true), {x, val(dt, {2, c, 3, 3}, 1)}, "kernel of other channels");
            no("conv2d_v2", base(a3, a3, 0, false), {x, padr(a3, a3), val(dt, {2, c, 3, 3}, 1)}, "kernel of other channels");
            no("depthwise_conv2d", base(a3, a3, 0, true), {x, val(dt, {1, c, 3, 3}, 1)}, "kernel of other channels");
            no("depthwise_conv2d_v2", base(a3, a3, 0, false), {x, padr(a3, a3), val(dt, {1, c, 3, 3}, 1)}, "kernel of other channels");
            no("transpose_conv2d", base(a3, a3, 0, true), {x, val(dt, {c, 2, 3, 3}, 1)}, "kernel of other channels");
            if (dt == FLOAT32) { no("conv2d_winograd", {{"format", ps("NCHW")}, {"padding", p42(pads(a3, a3))}}, {x, val(dt, {2, c, 3, 3}, 1)}, "kernel of other channels"); no("conv2d_winograd_v2", {{"format", ps("NCHW")}}, {x, padr(a3, a3), val(dt, {2, c, 3, 3}, 1)}, "kernel of other channels"); }
        }
        no("conv2d", base(a3, a3, 0, true), {x, val(od, {2, 3, 3, 3}, 1)}, "mixed types");
        no("conv2d_v2", base(a3, a3, 0, false), {x, padr(a3, a3), val(od, {2, 3, 3, 3}, 1)}, "mixed types");
        no("depthwise_conv2d", base(a3, a3, 0, true), {x, val(od, {1, 3, 3, 3}, 1)}, "mixed types");
        no("transpose_conv2d", base(a3, a3, 0, true), {x, val(od, {3, 2, 3, 3}, 1)}, "mixed types");
        if (dt == FLOAT32) for (Sh s : {Sh{2, 3, 2, 2}, Sh{2, 3, 5, 5}, Sh{2, 3, 3, 2}, Sh{2, 3, 1, 1}}) { no("conv2d_winograd", {{"format", ps("NCHW")}, {"padding", p42(pads(a3, a3))}}, {x, val(dt, s, 1)}, "kernel " + vf::str(s)); no("conv2d_winograd_v2", {{"format", ps("NCHW")}}, {x, padr(a3, a3), val(dt, s, 1)}, "kernel " + vf::str(s)); }
        for (Sh s : {Sh{}, Sh{5}, Sh{5, 5}, Sh{3, 5, 5}, Sh{1, 1, 3, 5, 5}}) {
            no("conv2d", base(a3, a3, 0, true), {val(dt, s, 1), val(dt, {2, 3, 3, 3}, 1)}, "image " + vf::str(s));
            no("depthwise_conv2d", base(a3, a3, 0, true), {val(dt, s, 1), val(dt, {1, 3, 3, 3}, 1)}, "image " + vf::str(s));
            no("transpose_conv2d", base(a3, a3, 0, true), {val(dt, s, 1), val(dt, {3, 2, 3, 3}, 1)}, "image " + vf::str(s));
            no("pooling2d", {{"format", ps("NCHW")}, {"type", pi(0)}, {"padding", p42(pads(a3, a3))}, {"ksize", p4(3, 3)}, {"stride", p4(1, 1)}}, {val(dt, s, 1)}, "image " + vf::str(s));
            no("global_pooling2d", {{"format", ps("NCHW")}, {"type", pi(0)}}, {val(dt, s, 1)}, "image " + vf::str(s));
        }
    }
    finish();
}
