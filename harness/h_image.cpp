// Image steps: resampling operators, letterbox, crops, colour, whitening; and ImageFilter pipelines and histories (P22).
#include "ops.h"
#include "hist.h"
#include "runtime/image_filter.h"
#include "backend/name.h"
#include "module/module.h"
#include "utils/ctxmgr_lite.h"
#include <memory>
#include <limits>
using namespace vf;
using namespace ts;
namespace {
    typedef std::vector<double> A;            // acceptable values of one element
    struct E { DTYPE dt = FLOAT32; Sh s; std::vector<A> v; bool loose = false; };   // what is expected of one tensor
    bool isint(DTYPE d) { return d != FLOAT32 && d != FLOAT64; }
    double lo(DTYPE d) { switch (d) { case INT8: return -128; case UINT8: case UINT16: return 0; case INT16: return -32768; case INT32: return -2147483648.; default: return -1e300; } }
    double hi(DTYPE d) { switch (d) { case INT8: return 127; case UINT8: return 255; case INT16: return 32767; case UINT16: return 65535; case INT32: return 2147483647.; default: return 1e300; } }
    // exact: values that are only moved must come out as they are; computed integers may be rounded either way
    std::string differ(const R &g, const E &w, double tol = 2e-4) {
        if (g.dt != w.dt) return std::string("type ") + type_str(g.dt) + " instead of " + type_str(w.dt);
        if (g.s != w.s) return "shape " + str(g.s) + " instead of " + str(w.s);
        for (size_t i = 0; i < g.v.size(); ++i) {
            bool ok = false;
            for (double a : w.v[i]) {
                if (isint(w.dt)) { a = std::max(lo(w.dt), std::min(hi(w.dt), a)); ok = ok || (a == std::floor(a) && !w.loose ? g.v[i] == a : std::fabs(g.v[i] - a) < 1 + 1e-6); }
                else ok = ok || std::fabs(g.v[i] - a) <= tol * std::max(1., std::fabs(a)) || (a != a && g.v[i] != g.v[i]);
            }
            if (!ok) { std::ostringstream o; o.precision(9); o << "element " << i << " is " << g.v[i] << " instead of "; for (double a : w.v[i]) o << a << " "; o << "; got " << show(g); return o.str(); }
        }
        return "";
    }
    E exactly(const R &r) { E e; e.dt = r.dt; e.s = r.s; for (double x : r.v) e.v.push_back({x}); return e; }
    // ---- sampling one plane with replicated borders
    enum { LINEAR = 0, CUBIC = 1, NEAREST = 2, HARD = 3 };
    typedef std::function<double(int, int)> Plane;
    double px(const Plane &p, int h, int w, int y, int x) { return p(std::max(0, std::min(h - 1, y)), std::max(0, std::min(w - 1, x))); }
    double cub(double t) { const double a = -0.75; t = std::fabs(t); return t <= 1 ? (a + 2) * t * t * t - (a + 3) * t * t + 1 : t < 2 ? a * t * t * t - 5 * a * t * t + 8 * a * t - 4 * a : 0; }
    A sample(int type, const Plane &p, int h, int w, double y, double x) {
        A out;
        if (type == LINEAR) {
            y = std::max(0., std::min(h - 1., y)); x = std::max(0., std::min(w - 1., x));
            int a = int(y), b = int(x); double v = y - a, u = x - b;
            out.push_back((1 - v) * (1 - u) * px(p, h, w, a, b) + (1 - v) * u * px(p, h, w, a, b + 1) + v * (1 - u) * px(p, h, w, a + 1, b) + v * u * px(p, h, w, a + 1, b + 1));
        } else if (type == CUBIC) {
            int a = int(std::floor(y)), b = int(std::floor(x)); double t = 0;
            for (int i = -1; i <= 2; ++i) for (int j = -1; j <= 2; ++j) t += cub(y - a - i) * cub(x - b - j) * px(p, h, w, a + i, b + j);
            out.push_back(t);
        } else {
            std::vector<int> ys, xs;
            for (int k = 0; k < 2; ++k) { double q = (k ? x : y) + (type == NEAREST ? 0.5 : 0); auto &o = k ? xs : ys; int f = int(std::floor(q)); o.push_back(f); if (q - f < 1e-4) o.push_back(f - 1); if (q - f > 1 - 1e-4) o.push_back(f + 1); }
            for (int a : ys) for (int b : xs) out.push_back(px(p, h, w, a, b));
        }
        return out;
    }
    // resamples dims d,d+1 of x to (oh,ow); pos gives the place in x of an output pixel; outer: value for places outside, or null
    E resample(const R &x, int d, int oh, int ow, int type, std::function<std::pair<double, double>(int, int)> pos, const double *outer = nullptr, bool precise = true) {
        E e; e.dt = x.dt; e.s = x.s; e.s[d] = oh; e.s[d + 1] = ow; e.loose = type <= CUBIC;
        int h = x.s[d], w = x.s[d + 1]; double o = outer ? *outer : 0; if (isint(x.dt)) o = std::trunc(o);
        each(e.s, [&](const Sh &c) {
            Plane p = [&](int a, int b) { Sh q = c; q[d] = a; q[d + 1] = b; return x.at(q); };
            auto at = pos(c[d], c[d + 1]);
            A v;
            if (!outer) v = sample(type, p, h, w, at.first, at.second);
            else {
                double m = precise ? 0 : 1e-4; bool in = true, out = false;
                for (int k = 0; k < 2; ++k) { double q = k ? at.second : at.first, n = k ? w : h; if (q < m || q > n - 1 - m) in = in && precise && q >= 0 && q <= n - 1; if (q <= -1 || q >= n) out = true; }
                if (!out) v = sample(type, p, h, w, at.first, at.second);
                if (!in) v.push_back(o);
            }
            e.v.push_back(v);
        });
        return e;
    }
    E resize(const R &x, int d, int oh, int ow, int type) {
        double sy = double(x.s[d]) / oh, sx = double(x.s[d + 1]) / ow;
        if (oh == x.s[d] && ow == x.s[d + 1]) return exactly(x);
        return resample(x, d, oh, ow, type, [=](int a, int b) { return type == HARD ? std::make_pair(a * sy, b * sx) : std::make_pair((a + .5) * sy - .5, (b + .5) * sx - .5); });
    }
    R pixels(DTYPE dt, const Sh &s, unsigned seed = 1) {
        R r(dt, s); unsigned z = seed * 7919u + 17;
        for (auto &v : r.v) { z = z * 1664525u + 1013904223u; v = dt == UINT8 ? double((z >> 24) & 255) : dt == UINT16 ? double((z >> 16) & 65535) : isint(dt) ? double(int((z >> 24) & 255) - 128) : double(int((z >> 20) & 63) - 24) / 4; }
        return r;
    }
    R pad_to(const R &x, const Sh &before, const Sh &s, double v) {   // crops where before is negative or s smaller
        R r(x.dt, s);
        each(s, [&](const Sh &c) { Sh q(c.size()); bool in = true; for (size_t i = 0; i < c.size(); ++i) { q[i] = c[i] - before[i]; in = in && q[i] >= 0 && q[i] < x.s[i]; } r.at(c) = in ? x.at(q) : v; });
        return r;
    }
    E whiten(const R &x, bool pre, double eps) {
        E e; e.dt = x.dt; e.s = x.s; long n = x.s[0], m = long(x.v.size()) / n;
        for (long b = 0; b < n; ++b) {
            double mean = 0, dev = 0; for (long i = 0; i < m; ++i) mean += x.v[b * m + i]; mean /= m;
            for (long i = 0; i < m; ++i) dev += (x.v[b * m + i] - mean) * (x.v[b * m + i] - mean); dev = std::sqrt(dev / m);
            dev = pre ? std::max(dev, 1 / std::sqrt(double(m))) : dev + eps;
            for (long i = 0; i < m; ++i) e.v.push_back({(x.v[b * m + i] - mean) / dev});
        }
        return e;
    }
    // ---- steps of a filter
    struct Step { std::string name; std::function<void(ImageFilter &)> add; std::function<bool(const R &, E &)> want; bool exact; };   // want false: must be refused
    int letter(double a) { return int(a); }
    std::vector<Step> steps() {
        typedef ImageFilter F; typedef F::ResizeMethod M;
        std::vector<Step> s;
        auto flt = [](const R &x) { return x.dt == FLOAT32 || x.dt == FLOAT64; };
        s.push_back({"to_float", [](F &f) { f.to_float(); }, [](const R &x, E &e) { e = exactly(x); e.dt = FLOAT32; return true; }, true});
        s.push_back({"scale(0.5)", [](F &f) { f.scale(0.5f); }, [=](const R &x, E &e) { e = exactly(x); e.dt = FLOAT32; for (auto &a : e.v) a[0] *= 0.5; return true; }, false});
        auto chan = [=](const std::vector<float> &k, bool div) { return [=](const R &x, E &e) {
            int c = x.s[3], n = int(k.size()); if (c != n && c != 1 && n != 1) return false;
            e.dt = FLOAT32; e.s = x.s; e.s[3] = std::max(c, n); e.v.clear(); each(e.s, [&](const Sh &q) { Sh p = q; if (c == 1) p[3] = 0; double v = x.at(p), m = k[n == 1 ? 0 : q[3]]; e.v.push_back({div ? v / m : v - m}); }); return true; }; };
        s.push_back({"sub_mean(1,2,3)", [](F &f) { f.sub_mean({1, 2, 3}); }, chan({1, 2, 3}, false), false});
        s.push_back({"div_std(2,4,5)", [](F &f) { f.div_std({2, 4, 5}); }, chan({2, 4, 5}, true), false});
        s.push_back({"sub_mean(4)", [](F &f) { f.sub_mean({4}); }, chan({4}, false), false});
        for (int m = 0; m < 3; ++m) {
            std::string mm = m == 0 ? "" : m == 1 ? ",cubic" : ",nearest";
            s.push_back({"resize(5,2" + mm + ")", [=](F &f) { f.resize(5, 2, M(m)); }, [=](const R &x, E &e) { e = resize(x, 1, 2, 5, m); return true; }, false});
            s.push_back({"resize(3" + mm + ")", [=](F &f) { f.resize(3, M(m)); }, [=](const R &x, E &e) { int h = x.s[1], w = x.s[2]; e = h > w ? resize(x, 1, 3 * h / w, 3, m) : resize(x, 1, 3, 3 * w / h, m); return true; }, false});
            s.push_back({"letterbox(4,3,7" + mm + ")", [=](F &f) { f.letterbox(4, 3, 7, M(m)); }, [=](const R &x, E &e) {
                double z = std::min(4. / x.s[2], 3. / x.s[1]), o = 7; float zf = std::min(4.f / x.s[2], 3.f / x.s[1]); bool precise = zf == z && double(1 / zf) == 1 / z && (1 / z) * 8 == std::floor((1 / z) * 8);
                e = resample(x, 1, 3, 4, m, [=](int a, int b) { return std::make_pair(a / z, b / z); }, &o, precise); return true; }, false});
        }
        auto crop = [](int w, int h) { return [=](const R &x, E &e) {
            // the middle: what is left over may fall on either side
            R r[4]; for (int k = 0; k < 4; ++k) { auto off = [](int d, int up) { int q = d / 2; return d % 2 && up ? q + (d > 0 ? 1 : -1) : q; }; r[k] = pad_to(x, {0, off(h - x.s[1], k & 1), off(w - x.s[2], k >> 1), 0}, {x.s[0], h, w, x.s[3]}, 0); }
            e = exactly(r[0]); return true; }; };
        s.push_back({"center_crop(3,2)", [](F &f) { f.center_crop(3, 2); }, crop(3, 2), true});
        s.push_back({"center_crop(4)", [](F &f) { f.center_crop(4); }, crop(4, 4), true});
        auto swap = [](const std::vector<int> &k) { return [=](const R &x, E &e) { for (int i : k) if (i >= x.s[3]) return false; R r(x.dt, {x.s[0], x.s[1], x.s[2], int(k.size())}); each(r.s, [&](const Sh &c) { Sh q = c; q[3] = k[c[3]]; r.at(c) = x.at(q); }); e = exactly(r); return true; }; };
        s.push_back({"channel_swap(2,1,0)", [](F &f) { f.channel_swap({2, 1, 0}); }, swap({2, 1, 0}), true});
        s.push_back({"to_chw", [](F &f) { f.to_chw(); }, [](const R &x, E &e) { R r(x.dt, {x.s[0], x.s[3], x.s[1], x.s[2]}); each(r.s, [&](const Sh &c) { r.at(c) = x.at({c[0], c[2], c[3], c[1]}); }); e = exactly(r); return true; }, true});
        s.push_back({"prewhiten", [](F &f) { f.prewhiten(); }, [=](const R &x, E &e) { if (!flt(x)) return false; e = whiten(x, true, 0); return true; }, false});
        s.push_back({"norm_image(0.5)", [](F &f) { f.norm_image(0.5f); }, [=](const R &x, E &e) { if (!flt(x)) return false; e = whiten(x, false, 0.5); return true; }, false});
        s.push_back({"divided(4,3,5)", [](F &f) { f.divided(4, 3, 5); }, [](const R &x, E &e) { e = exactly(pad_to(x, {0, 0, 0, 0}, {x.s[0], (x.s[1] + 2) / 3 * 3, (x.s[2] + 3) / 4 * 4, x.s[3]}, 5)); return true; }, true});
        s.push_back({"force_color", [](F &f) { f.force_color(); }, [](const R &x, E &e) { if (x.s[3] != 1 && x.s[3] != 3) return false; Sh q = x.s; q[3] = 3; R r(x.dt, q); each(q, [&](const Sh &c) { Sh p = c; if (x.s[3] == 1) p[3] = 0; r.at(c) = x.at(p); }); e = exactly(r); return true; }, true});
        auto gray = [](std::vector<double> k, bool fixed) { return [=](const R &x, E &e) { int c = x.s[3]; if (c == 1) { e = exactly(x); return true; } if (c != int(k.size())) return false; e = E(); e.dt = x.dt; e.s = x.s; e.s[3] = 1; e.loose = true;
            each(e.s, [&](const Sh &q) { double t = 0; for (int i = 0; i < c; ++i) { Sh p = q; p[3] = i; t += k[i] * x.at(p); } e.v.push_back({t}); }); return true; }; };
        s.push_back({"force_gray", [](F &f) { f.force_gray(); }, gray({0.114, 0.587, 0.299}, true), false});
        s.push_back({"force_gray(0.25,0.75)", [](F &f) { f.force_gray({0.25f, 0.75f}); }, gray({0.25, 0.75}, false), false});
        return s;
    }
    struct Ran { bool ok = false; R r; std::string err; };
    Ran run(ImageFilter &f, const Tensor &t) {
        Ran o; step();
        try { o.r = read(f.run(t)); o.ok = true; } catch (const Exception &e) { o.err = e.what(); }
        state(o.ok ? hashR(o.r) : hash_str("refused"));
        return o;
    }
    bool same(const Ran &a, const Ran &b) { return a.ok == b.ok && (!a.ok || (a.r.dt == b.r.dt && a.r.s == b.r.s && !memcmp(a.r.v.data(), b.r.v.data(), a.r.v.size() * sizeof(double)))); }
    std::string brief(const Ran &a) { return a.ok ? show(a.r) : "refused (" + a.err.substr(0, 120) + ")"; }
}
int main(int argc, const char **argv) {
    parse(argc, argv); quiet(); setenv("TENNIS_NUMBER_THREADS", "1", 1);
    Bench bench; Judge J(bench);
    const bool th = S().thorough;
    auto want = [&](const std::string &key, const Out &o, const E &w, double tol = 2e-4) {
        if (J.infer_mode) { J.infer(key, o); return; }
        if (!o.ok) { fail(key, "refused: " + o.err); return; }
        if (o.t.size() != 1) { fail(key, "number of results"); return; }
        auto d = differ(read(o.t[0]), w, tol); if (!d.empty()) fail(key, d);
    };
    const char *tn[] = {"linear", "cubic", "nearest", "hard"};
    const int N = th ? 9 : 6;
    // ---- resize2d on every pair of sizes
    for (int type = 0; type < 4; ++type) for (int h = 1; h <= N; ++h) for (int w = 1; w <= N; ++w) for (int oh = 1; oh <= N + 1; ++oh) for (int ow = 1; ow <= N + 1; ++ow) {
        int mix = h * 7 + w * 5 + oh * 3 + ow;
        for (int v = 0; v < (th ? 3 : 1); ++v) {
            int lay = (mix + v) % 3; DTYPE dt = (mix / 3 + v) % 3 == 0 ? UINT8 : (mix / 3 + v) % 3 == 1 ? FLOAT32 : (mix % 2 ? FLOAT64 : INT16);
            if (!take("resize2d", [&] { return std::string(tn[type]) + " " + std::to_string(h) + "x" + std::to_string(w) + " to " + std::to_string(oh) + "x" + std::to_string(ow) + (lay == 0 ? " NHWC " : lay == 1 ? " HW " : " CHW ") + type_str(dt); })) continue;
            R x = pixels(dt, lay == 0 ? Sh{2, h, w, 3} : lay == 1 ? Sh{h, w} : Sh{2, h, w}, mix);
            Sh sz = lay == 0 ? Sh{-1, oh, ow, -1} : lay == 1 ? Sh{oh, ow} : Sh{-1, oh, ow};
            if (lay == 0 && mix % 5 == 0) sz[3] = 3;
            std::vector<P> p; if (type != LINEAR || mix % 2) p.push_back({"type", pi(type)});
            Tensor size = mix % 4 == 0 ? tensor::cast(INT64, pv(sz)) : pv(sz);
            want(std::string("resize2d;") + tn[type] + (h < 4 || w < 4 ? ";small" : ""), J.callt("_resize2d", p, {make(x), size}), resize(x, lay == 1 ? 0 : 1, oh, ow, type));
            if (type == NEAREST && mix % 3 == 0) want("resize_nearest_neighbor", J.callt(name::layer::resize_nearest_neighbor(), {{"dim", pi(lay == 1 ? 0 : 1)}}, {make(x), pv({oh, ow})}), resize(x, lay == 1 ? 0 : 1, oh, ow, NEAREST));
        }
    }
    // constant pictures stay constant, whatever the resampling
    for (int type = 0; type < 4; ++type) for (int h = 1; h <= 5; ++h) for (int w = 1; w <= 5; ++w) for (int oh = 1; oh <= 6; ++oh) for (double v : {0., 1., 254., 255.}) if (take("constant", [&] { return std::string(tn[type]) + " " + std::to_string(h) + "x" + std::to_string(w) + " value " + std::to_string(v); })) {
        R x(UINT8, {1, h, w, 1}); for (auto &q : x.v) q = v;
        E e; e.dt = UINT8; e.s = {1, oh, 4, 1}; e.loose = true; e.v.assign(cnt(e.s), {v});
        want(std::string("constant;") + tn[type], J.call("_resize2d", {{"type", pi(type)}}, {x, R(INT32, {4}, {-1, double(oh), 4, -1})}), e);
    }
    // sizes that are no image sizes
    for (auto &sz : std::vector<Sh>{{-1, -1, 3}, {4, -1, 3}, {0, 3, -1}, {3, 0, -1}, {5, 6, 7}, {3, 3}, {-1, 3, 3, -1}, {-1, -1, -1}}) if (take("resize2d refused", [&] { return str(sz); })) J.rejected("resize2d refused", J.callt("_resize2d", {}, {make(pixels(FLOAT32, {3, 4, 5})), pv(sz)}));
    // ---- sample2d (a scaled sampling), sample2d_v2 (a scaled resize)
    for (int type = -1; type < 4; ++type) for (int h = 1; h <= 5; ++h) for (int w = 1; w <= 5; ++w) for (double sc : {0.5, 1., 2., 3., 1.5, 0.25}) for (int dim : {-9, -2, -3, 1}) {
        int oh = int(h * sc), ow = int(w * sc); if (!oh || !ow) continue;
        if (!take("sample2d", [&] { return std::string(type < 0 ? "default" : tn[type]) + " " + std::to_string(h) + "x" + std::to_string(w) + " scale " + std::to_string(sc) + " dim " + std::to_string(dim); })) continue;
        bool tail = dim == -3 || dim == 1; R x = pixels(FLOAT32, tail ? Sh{2, h, w, 2} : Sh{2, h, w}, h * 5 + w); int d = 1; double o = 0;
        std::vector<P> p = {{"scale", pf(float(sc))}}; if (type >= 0) p.push_back({"type", pi(type)}); if (dim != -9) p.push_back({"dim", pi(dim)});
        bool precise = sc != 3 && sc != 1.5;
        if (type < 3) want(std::string("sample2d;") + (type < 0 ? "default" : tn[type]), J.call("sample2d", p, {x}), resample(x, d, oh, ow, type < 0 ? NEAREST : type, [=](int a, int b) { return std::make_pair(a / sc, b / sc); }, &o, precise));
        if (dim == -9) { std::vector<P> q; if (type >= 0) q.push_back({"type", pi(type)}); if (oh != h || ow != w || true) want(std::string("sample2d_v2;") + (type < 0 ? "default" : tn[type]), J.callt("sample2d_v2", q, {make(x), pvf({1.f, float(sc), float(sc)})}), resize(x, 1, oh, ow, type < 0 ? HARD : type)); }
    }
    // ---- affine_sample2d: shifts, scales, flips, turns
    struct Af { const char *n; float m[6]; bool precise; };
    static const Af afs[] = {{"identity", {1, 0, 0, 0, 1, 0}, true}, {"shift", {1, 0, 1, 0, 1, -1}, true}, {"half shift", {1, 0, .5f, 0, 1, .25f}, true}, {"half", {2, 0, 0, 0, 2, 0}, true}, {"double", {.5f, 0, 0, 0, .5f, 0}, true},
        {"flip", {-1, 0, 3, 0, 1, 0}, true}, {"transpose", {0, 1, 0, 1, 0, 0}, true}, {"turn", {0, -1, 2, 1, 0, 0}, true}, {"shear", {1, .5f, 0, .25f, 1, 0}, true}, {"third", {3, 0, 1, 0, 3, 1}, true}, {"rotate", {.8f, -.6f, 1.1f, .6f, .8f, -.3f}, false}, {"away", {1, 0, 50, 0, 1, 0}, true}, {"before", {1, 0, -50, 0, 1, -50}, true}};
    for (auto &af : afs) for (int type = -1; type < 4; ++type) for (int h = 1; h <= (th ? 6 : 5); ++h) for (int w = 1; w <= (th ? 6 : 5); ++w) for (int outer = 0; outer < 2; ++outer) for (int oh : {1, 3, 5}) {
        int dim = (h + w + oh) % 3;   // default, -3, 1
        DTYPE dt = (h + oh) % 3 == 0 ? UINT8 : (h + oh) % 3 == 1 ? FLOAT32 : w % 2 ? INT16 : FLOAT64;
        if (type < 0 && (outer || oh != 3)) continue;
        if (!take("affine_sample2d", [&] { return std::string(af.n) + " " + (type < 0 ? "defaults" : tn[type]) + " " + std::to_string(h) + "x" + std::to_string(w) + " to " + std::to_string(oh) + "x4 " + (outer ? "outer value " : "") + type_str(dt); })) continue;
        R x = pixels(dt, dim == 0 ? Sh{2, h, w} : Sh{2, h, w, 2}, h * 9 + w); double o = 3;
        std::vector<P> p; if (type >= 0) p.push_back({"type", pi(type)}); if (dim) p.push_back({"dim", pi(dim == 1 ? -3 : 1)}); else if (type >= 0 && h % 2) p.push_back({"dim", pi(-2)}); if (outer) p.push_back({"outer_value", pf(3)});
        float m[9] = {af.m[0], af.m[1], af.m[2], af.m[3], af.m[4], af.m[5], 0, 0, 1};
        Tensor mt = tensor::build(FLOAT32, Shape({3, 3}), std::vector<float>(m, m + 9)); if (h == 3) mt = tensor::cast(FLOAT64, mt);
        E e = resample(x, 1, oh, 4, type < 0 ? LINEAR : type, [&](int a, int b) { return std::make_pair(af.m[3] * b + af.m[4] * a + af.m[5], af.m[0] * b + af.m[1] * a + af.m[2]); }, outer ? &o : nullptr, af.precise);
        // without an outer value hard sampling between -1 and 0 has one answer: the nearest pixel
        want(std::string("affine_sample2d;") + (type < 0 ? "defaults" : tn[type]) + (outer ? ";outer" : ""), J.callt("affine_sample2d", p, {make(x), oh == 3 ? tensor::cast(INT64, pv({oh, 4})) : pv({oh, 4}), mt}), e);
    }
    if (J.infer_mode) { finish(); exit(0); }
    // ---- steps of filters
    auto st = steps();
    bench.keep = true; ctx::bind<Workbench> _bench(bench.b.get());
    // pictures are bytes; floating point ones come out of a first step
    auto chain = [&](const std::vector<int> &q, const Tensor &t) { ImageFilter f; for (int i : q) st[i].add(f); return run(f, t); };
    int toflt = 0; for (int i = 0; i < int(st.size()); ++i) if (st[i].name == "to_float") toflt = i;
    auto judge = [&](int i, const R &x, const Ran &o) {
        E e; bool ok = st[i].want(x, e); std::string key = "step;" + st[i].name;
        if (!ok) { if (o.ok) fail(key + ";refused", "accepted " + show(x) + " and gave " + brief(o)); return; }
        if (!o.ok) { fail(key, "refused " + show(x) + ": " + o.err.substr(0, 200)); return; }
        auto d = differ(o.r, e); if (!d.empty()) fail(key, d + " from " + show(x));
    };
    for (int i = 0; i < int(st.size()); ++i) for (int h = 1; h <= (th ? 8 : 6); ++h) for (int w = 1; w <= (th ? 8 : 6); ++w) for (int c = 1; c <= 4; ++c) for (int k = 0; k < 4; ++k) {
        if (!take("step", [&] { return st[i].name + " on " + std::to_string(h) + "x" + std::to_string(w) + "x" + std::to_string(c) + (k == 3 ? " made float" : "") + (k == 1 ? " batch 2" : k == 2 ? " HWC" : ""); })) continue;
        int n = k == 1 ? 2 : 1; R x = pixels(UINT8, {n, h, w, c}, h * 31 + w * 7 + c);
        R in = x; if (k == 2) in.s = c == 1 && (h + w) % 2 ? Sh{h, w} : Sh{h, w, c};
        Tensor t = make(in); auto before = hashR(in);
        Ran o = k == 1 || k == 3 ? chain({toflt, i}, t) : chain({i}, t);
        if (hashR(read(t)) != before) fail("step;" + st[i].name + ";input", "the picture itself was changed");
        if (k == 1 || k == 3) x.dt = FLOAT32;
        judge(i, x, o);
    }
    // ---- every sequence of steps equals doing them one after another: each step must do to the result of the
    // steps before it what it does to a picture
    static const Sh pics[] = {{1, 4, 5, 3}, {2, 3, 3, 3}, {1, 5, 2, 1}, {1, 1, 1, 3}};
    for (int pi_ = 0; pi_ < 4; ++pi_) for (int len = 2; len <= (th ? 4 : 3); ++len) {
        if (len == 4 && pi_ != 1) continue;
        R x = pixels(UINT8, pics[pi_], 5); Tensor t = make(x);
        std::vector<int> q(len, 0); long total = 1; for (int i = 0; i < len; ++i) total *= long(st.size());
        std::vector<int> have; Ran base;
        for (long z = 0; z < total; ++z) {
            long y = z; for (int i = len - 1; i >= 0; --i) { q[i] = int(y % long(st.size())); y /= long(st.size()); }
            if (!take("pipeline", [&] { std::string s = "picture " + std::to_string(pi_) + ": "; for (int i : q) s += st[i].name + " "; return s; })) continue;
            std::vector<int> pre(q.begin(), q.end() - 1);
            if (pre != have) { have = pre; base = chain(pre, t); }
            ImageFilter f; for (int i : q) st[i].add(f);
            Ran o = run(f, t);
            if (!base.ok) { if (o.ok) fail("pipeline;refused;" + st[q[len - 2]].name, "the first steps alone are refused, all steps give " + brief(o)); continue; }
            judge(q[len - 1], base.r, o);
            if (z % 7 == 0) { Ran o2 = run(f, t); if (!same(o, o2)) fail("pipeline;again", "a second run gives " + brief(o2) + " after " + brief(o)); }
        }
    }
    // ---- every step added to a filter that was used before, with every step in front of it
    for (int pi_ = 0; pi_ < 3; ++pi_) for (int a = -1; a < int(st.size()); ++a) for (int b = 0; b < int(st.size()); ++b) {
        if (!take("added later", [&] { return "picture " + std::to_string(pi_) + ": " + (a < 0 ? "no step" : st[a].name) + ", used, then " + st[b].name; })) continue;
        R x = pixels(UINT8, pics[pi_], 5); Tensor t = make(x);
        std::vector<int> two; if (a >= 0) two.push_back(a); two.push_back(b);
        Ran want2 = chain(two, t), want1 = chain({b}, t), want0 = chain(a < 0 ? std::vector<int>() : std::vector<int>{a}, t);
        for (int how = 0; how < 5; ++how) {
            static const char *n[] = {"run", "compiled", "run and cloned", "run and cleared", "compiled and cleared"};
            std::shared_ptr<ImageFilter> f = std::make_shared<ImageFilter>(), g;
            try {
                if (a >= 0) st[a].add(*f);
                if (how == 1 || how == 4) f->compile(); else { auto o = run(*f, t); if (!same(o, want0)) fail("added later;before", brief(o) + " instead of " + brief(want0)); }
                if (how == 2) { g = f->clone(); st[b].add(*g); } else if (how > 2) { f->clear(); st[b].add(*f); } else st[b].add(*f);
                auto &w = how > 2 ? want1 : want2;
                auto o = run(g ? *g : *f, t); if (!same(o, w)) fail("added later;" + st[b].name, std::string("a filter that was ") + n[how] + " gives " + brief(o) + " instead of " + brief(w));
                if (g) { auto o2 = run(*f, t); if (!same(o2, want0)) fail("added later;original", "a step added to the clone changes the original: " + brief(o2) + " instead of " + brief(want0)); }
            } catch (const Exception &e) { fail("added later;" + st[b].name, std::string(n[how]) + ": threw " + e.what()); }
        }
    }
    // ---- histories of two filters (an original and its clone)
    {
        std::shared_ptr<ImageFilter> f[2]; std::vector<int> model[2]; bool has[2];
        R x = pixels(UINT8, {1, 3, 4, 3}, 9); Tensor t = make(x); R x8 = pixels(UINT8, {1, 2, 5, 3}, 4); Tensor t8 = make(x8);
        std::map<std::vector<int>, Ran> memo[2];
        int which[] = {0, 1, 0}; for (int i = 0; i < int(st.size()); ++i) { if (st[i].name == "to_float") which[0] = i; if (st[i].name == "channel_swap(2,1,0)") which[1] = i; if (st[i].name == "resize(5,2)") which[2] = i; }
        Hist hs;
        auto fresh = [&](const std::vector<int> &m, int p) -> const Ran & { auto it = memo[p].find(m); if (it != memo[p].end()) return it->second; ImageFilter g; for (int i : m) st[i].add(g); return memo[p][m] = run(g, p ? t8 : t); };
        // 0-2 add a step; 3 compile; 4 run; 5 clear; 6 clone (into the other), 7 add to the clone, 8 run the clone, 9 drop the original
        hs.nops = 10;
        hs.name = [&](int o) { static const char *n[] = {"add to_float", "add channel_swap", "add resize", "compile", "run", "clear", "clone", "add channel_swap to the clone", "run the clone", "replace the original by its clone"}; return std::string(n[o]); };
        hs.reset = [&] { for (int i = 0; i < 2; ++i) { f[i].reset(); model[i].clear(); has[i] = false; } f[0] = std::make_shared<ImageFilter>(); has[0] = true; };
        hs.enabled = [&](int o) { return o < 7 || has[1]; };
        auto runs = [&](int i) -> std::string { for (int p = 0; p < 2; ++p) { Ran o = run(*f[i], p ? t8 : t); auto &w = fresh(model[i], p); if (!same(o, w)) return std::string(i ? "the clone" : "the filter") + " gives " + brief(o) + " instead of " + brief(w); } return ""; };
        hs.apply = [&](int o) -> std::string {
            try {
                if (o < 3) { st[which[o]].add(*f[0]); model[0].push_back(which[o]); }
                else if (o == 3) f[0]->compile();
                else if (o == 4) return runs(0);
                else if (o == 5) { f[0]->clear(); model[0].clear(); }
                else if (o == 6) { f[1] = f[0]->clone(); model[1] = model[0]; has[1] = true; }
                else if (o == 7) { st[which[1]].add(*f[1]); model[1].push_back(which[1]); }
                else if (o == 8) return runs(1);
                else { f[0] = f[1]; model[0] = model[1]; f[1].reset(); has[1] = false; }
                return "";
            } catch (const Exception &e) { return std::string("threw ") + e.what(); }
        };
        hs.hash = [&] { uint64_t h = 7; for (int i = 0; i < 2; ++i) { h = hash_bytes(&has[i], 1, h); h = hash_bytes(model[i].data(), model[i].size() * sizeof(int), h); } return h; };
        // the end of every history runs both filters
        hs.after = [&] { for (int i = 0; i < 2; ++i) if (has[i] && f[i]) { std::string e; try { e = runs(i); } catch (const Exception &x) { e = x.what(); } if (!e.empty()) fail(std::string("history end;") + (i ? "clone" : "filter"), e); } };
        hs.walk("history", th ? 6 : 5);
    }
    finish();
}
