// Modulated deformable convolution (DCNv2) against its definition.
#include "ops.h"
#include <functional>
using namespace vf;
using namespace ts;
int main(int argc, const char **argv) {
    parse(argc, argv); quiet(); setenv("TENNIS_NUMBER_THREADS", "1", 1);
    Bench bench; Judge J(bench);
    const bool th = S().thorough;
    auto num = [](double x) { std::ostringstream o; o << x; return o.str(); };
    for (int N = 1; N <= 2; ++N) for (int G = 1; G <= 2; ++G) for (int cpg = 1; cpg <= 2; ++cpg) for (int O = 1; O <= 3; ++O) for (int H : {1, 3, 4}) for (int W : {2, 5}) for (int kh = 1; kh <= 3; ++kh) for (int kw = 1; kw <= 2; ++kw) for (int s = 1; s <= 2; ++s) for (int pad = 0; pad < 4; ++pad) for (int d = 1; d <= 2; ++d) for (int of = 0; of < 4; ++of) {
        if (!th && (N + G * 3 + cpg * 5 + O * 7 + H + W * 3 + kh * 11 + kw * 13 + s * 5 + pad * 3 + d + of) % 4) continue;
        const int ph = pad % 2, pw = pad / 2, dh = d, dw = 3 - d, sh = s, sw = 3 - s;
        const int oh = (H + 2 * ph - (dh * (kh - 1) + 1)) / sh + 1, ow = (W + 2 * pw - (dw * (kw - 1) + 1)) / sw + 1;
        if (H + 2 * ph < dh * (kh - 1) + 1 || W + 2 * pw < dw * (kw - 1) + 1) continue;
        if (!take("deformable convolution", [&] { return "x " + str(Sh{N, G * cpg, H, W}) + " groups " + num(G) + " w " + str(Sh{O, G * cpg, kh, kw}) + " stride " + num(sh) + "," + num(sw) + " padding " + num(ph) + "," + num(pw) + " dilation " + num(dh) + "," + num(dw) + " offsets " + num(of); })) continue;
        const int C = G * cpg, K = kh * kw;
        R x(FLOAT32, {N, C, H, W}), w(FLOAT32, {O, C, kh, kw}), b(FLOAT32, {O}), off(FLOAT32, {N, G * 2 * K, oh, ow}), mask(FLOAT32, {N, G * K, oh, ow}), want(FLOAT32, {N, O, oh, ow});
        for (size_t i = 0; i < x.v.size(); ++i) x.v[i] = double(int(i * 7 % 13) - 5);
        for (size_t i = 0; i < w.v.size(); ++i) w.v[i] = double(int(i * 5 % 7) - 3);
        for (size_t i = 0; i < b.v.size(); ++i) b.v[i] = double(i) * 2 - 1;
        const double OF[4][7] = {{0, 0, 0, 0, 0, 0, 0}, {0.25, -0.5, 1, 0, -1.25, 0.75, 2}, {-3, 3, 0.5, -0.75, 8, -8, 0.25}, {0.5, 0.5, -0.5, 0.125, -0.875, 1.5, -2.25}};
        for (size_t i = 0; i < off.v.size(); ++i) off.v[i] = OF[of][(i * 3 + i / 7) % 7];
        for (size_t i = 0; i < mask.v.size(); ++i) mask.v[i] = of == 0 ? 1 : double(i * 3 % 5) * 0.25;
        each(want.s, [&](const Sh &c) {
            double t = b.v[c[1]];
            for (int ch = 0; ch < C; ++ch) for (int i = 0; i < kh; ++i) for (int j = 0; j < kw; ++j) {
                const int g = ch / cpg, k = i * kw + j;
                double y = c[2] * sh - ph + i * dh + off.at({c[0], g * 2 * K + 2 * k, c[2], c[3]}), q = c[3] * sw - pw + j * dw + off.at({c[0], g * 2 * K + 2 * k + 1, c[2], c[3]});
                double y0 = std::floor(y), q0 = std::floor(q), v = 0;
                for (int a = 0; a < 2; ++a) for (int e = 0; e < 2; ++e) { int yy = int(y0) + a, qq = int(q0) + e; if (yy < 0 || yy >= H || qq < 0 || qq >= W) continue; v += (a ? y - y0 : 1 - (y - y0)) * (e ? q - q0 : 1 - (q - q0)) * x.at({c[0], ch, yy, qq}); }
                t += w.at({c[1], ch, i, j}) * v * mask.at({c[0], g * K + k, c[2], c[3]});
            }
            want.at(c) = t;
        });
        J.want("deformable convolution", J.call("dcn_v2_forward", {{"format", ps("NCHW")}, {"padding", p42({0, 0, 0, 0, ph, ph, pw, pw})}, {"stride", pv({1, 1, sh, sw})}, {"dilation", pv({1, 1, dh, dw})}, {"deformable_groups", pi(G)}}, {x, w, b, off, mask}), {want}, 1e-5);
    }
    finish(); return 0;
}
