// Activations, reductions, normalisations and casts against their formulas.
#include "ops.h"
#include "backend/name.h"
#include <functional>
#include <limits>
using namespace vf;
using namespace ts;
namespace {
    const double INF = std::numeric_limits<double>::infinity();
    const std::vector<DTYPE> ints = {INT8, UINT8, INT16, UINT16, INT32, UINT32, INT64, UINT64};
    const std::vector<DTYPE> all = {INT8, UINT8, INT16, UINT16, INT32, UINT32, INT64, UINT64, FLOAT32, FLOAT64};
    bool uns(DTYPE d) { return d == UINT8 || d == UINT16 || d == UINT32 || d == UINT64; }
    bool flt(DTYPE d) { return d == FLOAT32 || d == FLOAT64; }
    double hi(DTYPE d) {
        switch (d) { case INT8: return 127; case UINT8: return 255; case INT16: return 32767; case UINT16: return 65535; case INT32: return 2147483647.0; case UINT32: return 4294967295.0;
            case INT64: case UINT64: return 9007199254740992.0; default: return INF; }
    }
    double lo(DTYPE d) { return flt(d) ? -INF : uns(d) ? 0 : d == INT64 ? -9007199254740992.0 : -hi(d) - 1; }
    double conv(DTYPE d, double x) { return flt(d) ? round_to(d, x) : std::trunc(x); }
    bool fits(DTYPE d, double x) { return flt(d) || (std::isfinite(x) && std::trunc(x) >= lo(d) && std::trunc(x) <= hi(d)); }
    // the values an element of type d is given
    std::vector<double> pool(DTYPE d) {
        if (flt(d)) {
            std::vector<double> v = {0, 1, -1, 0.5, -0.5, 2.25, -2.25, 3, -3, 7.75, -7.75, 0.001, -0.001, 1e-6, -1e-6, 16, -16, 30, -30, 87, -87, 100, -100, 1000, -1000, 12345.5, -12345.5, 1e9, -1e9, 1e30, -1e30, INF, -INF};
            for (auto &x : v) x = round_to(d, x);
            return v;
        }
        std::vector<double> v;
        for (double x : {0., 1., 2., 3., 4., 5., 9., 10., 11., 15., 16., 20., 25., 60., 100., 120., 127., 128., 200., 255., 256., 300., 32767., 32768., 65535., 65536., 1e6, 2147483647., 2147483648., 4294967295., 4294967296., 1e12})
            for (int s : {1, -1}) if (fits(d, s * x) && (x || s > 0)) v.push_back(s * x);
        return v;
    }
    R fill(DTYPE dt, const Sh &s, const std::vector<double> &p, int k = 0) { R r(dt, s); for (size_t i = 0; i < r.v.size(); ++i) r.v[i] = p[(i + k) % p.size()]; return r; }
    typedef std::function<double(DTYPE, double)> F;
    double sg(DTYPE, double x) { return x >= 0 ? 1 / (1 + std::exp(-x)) : std::exp(x) / (1 + std::exp(x)); }
    double sp(DTYPE, double x) { return std::max(x, 0.0) + std::log1p(std::exp(-std::fabs(x))); }
    int ax(int a, int rank) { return a < 0 ? a + rank : a; }
    std::vector<int> pos(const std::vector<int> &d, int rank) { std::vector<int> r; for (int x : d) r.push_back(ax(x, rank)); return r; }
    Sh without(const Sh &s, const std::vector<int> &d, bool keep) {
        Sh o; for (int i = 0; i < int(s.size()); ++i) { bool in = std::count(d.begin(), d.end(), i); if (!in) o.push_back(s[i]); else if (keep) o.push_back(1); } return o;
    }
    // groups the elements of x that share all coordinates outside `d`; calls f(group index, values, positions)
    void groups(const R &x, const std::vector<int> &d, const std::function<void(long, const std::vector<double> &, const std::vector<long> &)> &f) {
        std::map<Sh, std::pair<std::vector<double>, std::vector<long>>> g; long k = 0;
        each(x.s, [&](const Sh &c) { Sh r = c; for (int i : d) r[i] = 0; auto &e = g[r]; e.first.push_back(x.v[k]); e.second.push_back(k); ++k; });
        long i = 0; for (auto &e : g) f(i++, e.second.first, e.second.second);
    }
    R small(DTYPE dt, const Sh &s, int k = 0) {   // values whose sums stay inside the type
        R r(dt, s); int top = (dt == INT8 ? 127 : 255) / std::max<int>(1, int(cnt(s)));
        for (size_t i = 0; i < r.v.size(); ++i) { int q = int((i * 7 + k * 3) % 11) - (uns(dt) ? 0 : 5); r.v[i] = flt(dt) ? q * 0.75 : top < 11 ? double(q % (top + 1)) : double(q); }
        return r;
    }
}
int main(int argc, const char **argv) {
    parse(argc, argv); quiet(); setenv("TENNIS_NUMBER_THREADS", "1", 1);
    Bench bench; Judge J(bench);
    const bool th = S().thorough;
    std::vector<Sh> forms = shapes(0, 4, {1, 2, 3});
    for (int n = 4; n <= (th ? 130 : 40); ++n) forms.push_back({n});
    for (Sh s : {Sh{64}, Sh{127}, Sh{257}, Sh{1023}, Sh{5, 7}, Sh{2, 3, 17}, Sh{1, 4, 5, 9}, Sh{2, 1, 3, 1, 2}}) forms.push_back(s);
    auto name = [&](DTYPE dt, const Sh &s, const std::string &more = "") { return std::string(type_str(dt)) + str(s) + more; };
    // ---- activations
    struct A { std::string op, tag; std::vector<P> p; std::vector<DTYPE> t; F f; double tol; };
    std::vector<A> acts;
    auto act = [&](const std::string &op, const std::vector<DTYPE> &t, F f, double tol, const std::vector<P> &p = {}, const std::string &tag = "") { acts.push_back({op, tag, p, t, f, tol}); };
    const std::vector<DTYPE> fl = {FLOAT32, FLOAT64};
    const double E = 2e-6;
    act("abs", all, [](DTYPE, double x) { return std::fabs(x); }, 0);
    act("ceil", all, [](DTYPE, double x) { return std::ceil(x); }, 0);
    act("floor", all, [](DTYPE, double x) { return std::floor(x); }, 0);
    act("erf", fl, [](DTYPE, double x) { return std::erf(x); }, E);
    act("exp", fl, [](DTYPE, double x) { return std::exp(x); }, E);
    act("tanh", fl, [](DTYPE, double x) { return std::tanh(x); }, E);
    act("rsqrt", fl, [](DTYPE, double x) { return 1 / std::sqrt(x); }, E);
    act("sqrt", all, [](DTYPE, double x) { return std::sqrt(x); }, E);
    act("square", all, [](DTYPE, double x) { return x * x; }, E);
    act("relu", all, [](DTYPE, double x) { return std::max(x, 0.0); }, 0);
    act("sigmoid", all, sg, E);
    act("softplus", all, sp, E);
    for (double m : {0., 1., 6., 0.5, 100., -1.}) act("relu_max", m == 0.5 ? fl : all, [m](DTYPE, double x) { return std::min(std::max(x, 0.0), m); }, 0, {{"max", pf(float(m))}}, ";max");
    for (double m : {0., 1., 2., -1., 0.125, -0.5}) act("leaky_relu", m == std::trunc(m) ? all : fl, [m](DTYPE, double x) { return x > 0 ? x : x * m; }, 0, {{"scale", pf(float(m))}}, ";scale");
    act("hard_sigmoid", fl, [](DTYPE, double x) { return std::max(0., std::min(1., double(0.2f) * x + 0.5)); }, E);
    for (double a : {0.25, 1., -0.5}) for (double b : {0., 0.5, -1.}) act("hard_sigmoid", fl, [=](DTYPE, double x) { return std::max(0., std::min(1., a * x + b)); }, E, {{"alpha", pf(float(a))}, {"beta", pf(float(b))}}, ";alpha,beta");
    for (double y : {0., 1., 2., 3., -1., 0.5, -2.5}) act("pow", fl, [y](DTYPE, double x) { return std::pow(x, y); }, E, {{"y", pf(float(y))}}, ";y");
    for (auto &a : acts) for (auto dt : a.t) {
        std::vector<double> vals;
        for (double x : pool(dt)) {
            if (uns(dt) && a.p.size()) { double q = read(a.p[0].value).v[0]; if ((a.op == "pow" || a.op == "relu_max" || a.op == "leaky_relu") && q < 0) continue; }   // such a parameter has no value of the type
            double y = a.f(dt, x); if (std::isnan(y) && (flt(dt) ? a.op != "sqrt" && a.op != "rsqrt" : true)) continue;
            if (!fits(dt, y)) continue;
            vals.push_back(x);
        }
        if (vals.empty()) continue;
        for (auto &s : forms) for (int rot = 0; rot < (th ? 4 : 2); ++rot) {
            if (!take(a.op, [&] { return name(dt, s, a.p.empty() ? "" : " parameter " + show(read(a.p[0].value)) + " from value " + std::to_string(rot * 7)); })) continue;
            R x = fill(dt, s, vals, rot * 7), w = x;
            for (auto &v : w.v) v = conv(dt, a.f(dt, v));
            J.want(a.op + ";" + type_str(dt) + a.tag, J.call(a.op, a.p, {x}), {w}, flt(dt) ? a.tol : 0);
        }
    }
    // ---- reductions
    const std::vector<Sh> rs = shapes(1, th ? 5 : 4, {1, 2, 3});
    std::vector<Sh> big = rs; for (Sh s : {Sh{17}, Sh{40}, Sh{3, 33}, Sh{33, 3}, Sh{2, 9, 5}, Sh{1, 8, 4, 4}}) big.push_back(s);
    for (auto dt : all) for (auto &s : big) for (int a = -int(s.size()); a < int(s.size()); ++a) {
        int n = int(s.size());
        for (int keep = -1; keep < 2; ++keep) {
            bool k = keep != 0; std::vector<int> d = {ax(a, n)};
            auto nm = [&] { return name(dt, s, " axis " + std::to_string(a) + " keep " + std::to_string(keep)); };
            if (take("max", nm)) {
                R x = flt(dt) ? fill(dt, s, pool(dt), int(cnt(s)) * 5 + a) : fill(dt, s, pool(dt), 3), w(dt, without(s, d, k));
                groups(x, d, [&](long i, const std::vector<double> &v, const std::vector<long> &) { w.v[i] = *std::max_element(v.begin(), v.end()); });
                std::vector<P> p = {{"dim", pi(a)}}; if (keep >= 0) p.push_back({"keep_dims", pi(keep)});
                J.want("max;" + std::string(type_str(dt)), J.call("max", p, {x}), {w});
            }
            R x = small(dt, s, a);
            if (take("reduce_sum", nm)) {
                R w(dt, without(s, d, k));
                groups(x, d, [&](long i, const std::vector<double> &v, const std::vector<long> &) { double t = 0; for (double q : v) t += q; w.v[i] = t; });
                std::vector<P> p = {{"dims", pi(a)}}; if (keep >= 0) p.push_back({"keep_dims", pb(keep)});
                J.want("reduce_sum;" + std::string(type_str(dt)), J.call("reduce_sum", p, {x}), {w}, E);
            }
        }
        if (!flt(dt)) continue;
        for (int kind = 0; kind < 4; ++kind) for (int smooth = -1; smooth < 2; ++smooth) if (take("softmax", [&] { return name(dt, s, " axis " + std::to_string(a) + " values " + std::to_string(kind) + " smooth " + std::to_string(smooth)); })) {
            if (smooth == 0 && kind > 1) { ++S().skipped_domain; continue; }   // the unshifted form is documented to overflow
            const std::vector<double> src[] = {{0.5, -1.25, 3, 2, -4, 0}, {-30, -31, -29.5, -33}, {1000, 999, -1000, 1000, 0}, {-1e9, -1e9, -1e9 + 64, 1e9}};
            R x = fill(dt, s, src[kind]), w = x; for (auto &v : x.v) v = round_to(dt, v);
            groups(x, {ax(a, n)}, [&](long, const std::vector<double> &v, const std::vector<long> &at) {
                double m = *std::max_element(v.begin(), v.end()), t = 0; for (double q : v) t += std::exp(q - m);
                for (size_t i = 0; i < v.size(); ++i) w.v[at[i]] = std::exp(v[i] - m) / t; });
            std::vector<P> p = {{"dim", pi(a)}}; if (smooth >= 0) p.push_back({"smooth", pb(smooth)});
            J.want("softmax;" + std::string(type_str(dt)) + ";values " + std::to_string(kind), J.call("softmax", p, {x}), {w}, E);
        }
    }
    for (auto dt : all) for (auto &s : big) for (int a = -int(s.size()) - 1; a < int(s.size()); ++a) for (double eps : {-1., 0.25, 1e-10}) for (int kind = 0; kind < 3; ++kind)
        if (take("l2_norm", [&] { return name(dt, s, " axis " + (a < -int(s.size()) ? std::string("default") : std::to_string(a)) + " epsilon " + std::to_string(eps) + " values " + std::to_string(kind)); })) {
            int n = int(s.size()); bool dflt = a < -n;
            R x = small(dt, s, a); if (kind == 1) for (auto &v : x.v) v = 0; if (kind == 2) { if (!flt(dt)) { ++S().skipped_domain; continue; } for (auto &v : x.v) v = v * 1000 + 0.25; }
            R w = x; double e = eps < 0 ? 1e-10 : eps;
            groups(x, {ax(dflt ? -1 : a, n)}, [&](long, const std::vector<double> &v, const std::vector<long> &at) { double t = double(float(e)); for (double q : v) t += q * q; for (size_t i = 0; i < v.size(); ++i) w.v[at[i]] = conv(dt, v[i] / std::sqrt(t)); });
            if (!flt(dt)) { // the sum is taken in the element type, so only zeros and axes of one element have a type-independent answer
                if (kind != 1) { ++S().skipped_domain; continue; } }
            std::vector<P> p; if (!dflt) p.push_back({"dim", pi(a)}); if (eps >= 0) p.push_back({"epsilon", pf(float(eps))});
            J.want("l2_norm;" + std::string(type_str(dt)) + (s[ax(dflt ? -1 : a, n)] == 1 ? ";axis of one" : ""), J.call("l2_norm", p, {x}), {w}, E);
        }
    // mean over a run of neighbouring axes
    for (auto dt : all) for (auto &s : big) { int n = int(s.size()); for (int b = 0; b < n; ++b) for (int len = 1; b + len <= n; ++len) for (int neg = 0; neg < 5; ++neg) for (int keep = -1; keep < 2; ++keep) {
        std::vector<int> d, dp; for (int i = 0; i < len; ++i) { dp.push_back(b + i); d.push_back(neg == 1 || (neg == 4 && i > 0) ? b + i - n : b + i); }
        if (neg == 2 && len > 1) continue;          // 2: one axis given as a plain number
        if (neg == 4 && len < 2) continue;          // 4: the first axis counted from the front, the others from the back
        if (!take("reduce_mean", [&] { return name(dt, s, " axes " + strv(d) + " form " + std::to_string(neg) + " keep " + std::to_string(keep)); })) continue;
        R x = small(dt, s, b); if (uns(dt)) for (auto &v : x.v) v = v + hi(dt == UINT8 ? UINT8 : UINT16) - 20; // the mean fits the type though the sum need not
        R w(dt, without(s, dp, keep != 0));
        groups(x, dp, [&](long i, const std::vector<double> &v, const std::vector<long> &) { double t = 0; for (double q : v) t += q; w.v[i] = conv(dt, t / double(v.size())); });
        std::vector<P> p = {{"dims", neg == 2 ? pi(d[0]) : neg == 3 ? tensor::cast(INT64, pv(d)) : pv(d)}}; if (keep >= 0) p.push_back({"keep_dims", pb(keep)});
        J.want("reduce_mean;" + std::string(type_str(dt)) + (neg == 4 ? ";mixed signs" : neg == 3 ? ";int64 axes" : ""), J.call("reduce_mean", p, {x}), {w}, E);
    } }
    // axes that are not there, or that do not form a run
    for (auto &s : rs) { int n = int(s.size());
        for (int a : {n, -n - 1, n + 3, -n - 5}) for (auto op : {"max", "reduce_sum", "reduce_mean", "softmax", "l2_norm"})
            if (take("refused", [&] { return std::string(op) + " " + str(s) + " axis " + std::to_string(a); })) { std::string o = op; J.rejected(o + ";axis", J.call(o, {{o == "reduce_sum" || o == "reduce_mean" ? "dims" : "dim", pi(a)}}, {small(FLOAT32, s)})); }
        for (int a = -n; a < n; ++a) for (int b = -n; b < n; ++b) { if (ax(b, n) == ax(a, n) + 1) continue;
            if (take("refused", [&] { return "reduce_mean " + str(s) + " axes " + std::to_string(a) + "," + std::to_string(b); })) J.rejected("reduce_mean;axes that are no run", J.call("reduce_mean", {{"dims", pv({a, b})}}, {small(FLOAT32, s)})); }
    }
    // every item of the batch is brought to mean zero and deviation one
    for (auto dt : fl) for (auto &s : big) for (double eps : {-1., 1., 1e-3}) for (int kind = 0; kind < 3; ++kind) for (auto op : {"norm_image"})
        if (take(op, [&] { return name(dt, s, " epsilon " + std::to_string(eps) + " values " + std::to_string(kind)); })) {
            R x = small(dt, s, kind); if (kind == 1) for (size_t i = 0; i < x.v.size(); ++i) x.v[i] = double(i * i % 37) * 7; if (kind == 2) for (auto &v : x.v) v = 42.5;
            R w = x; double e = eps < 0 ? 1e-5 : eps; std::vector<int> d; for (int i = 1; i < int(s.size()); ++i) d.push_back(i);
            groups(x, d, [&](long, const std::vector<double> &v, const std::vector<long> &at) { double m = 0, q = 0; for (double y : v) m += y; m /= double(v.size()); for (double y : v) q += (y - m) * (y - m); q = std::sqrt(q / double(v.size()));
                for (size_t i = 0; i < v.size(); ++i) w.v[at[i]] = (v[i] - m) / (q + double(float(e))); });
            std::vector<P> p; if (eps >= 0) p.push_back({"epsilon", pf(float(eps))});
            J.want(std::string(op) + ";" + type_str(dt), J.call(op, p, {x}), {w}, 2e-5);
        }
    // ---- conversions
    const std::vector<DTYPE> ct = {INT8, UINT8, INT16, UINT16, INT32, UINT32, INT64, UINT64, FLOAT16, FLOAT32, FLOAT64, BOOLEAN};
    for (auto from : ct) for (auto to : ct) for (auto &s : forms) {
        if (s.size() == 4 && cnt(s) > 12 && !th) continue;
        bool tf = to == FLOAT32;
        for (int op = 0; op < (tf ? 2 : 1); ++op) if (take(op ? "to_float" : "cast", [&] { return name(from, s, std::string(" to ") + type_str(to)); })) {
            std::vector<double> v;
            for (double x : {0., 1., -1., 2.5, -2.5, 100., -100., 127., 200., 255., 1000., -1000., 2000., 40000., 65535., 100000., -100000., 2e9, 3e9, 1e12, -1e12, 0.25, 1e-3}) {
                auto ok = [&](DTYPE d, double q) { return d == BOOLEAN ? q == 0 || q == 1 : d == FLOAT16 ? std::fabs(q) <= 2048 && q * 4 == std::trunc(q * 4) && (std::fabs(q) < 512 || q == std::trunc(q)) : fits(d, q); };
                double y = from == FLOAT16 || from == BOOLEAN ? x : conv(from, x);
                if (ok(from, x) && ok(to, y)) v.push_back(y);
            }
            if (v.empty()) continue;
            R x = fill(from, s, v), w = x; w.dt = to; for (auto &q : w.v) q = to == FLOAT16 || to == BOOLEAN ? q : conv(to, q);
            J.want(std::string(op ? "to_float" : "cast") + ";" + type_str(from) + " to " + type_str(to), op ? J.call("to_float", {}, {x}) : J.call(name::layer::cast(), {{"dtype", pi(to)}}, {x}), {w});
        }
    }
    finish();
}
