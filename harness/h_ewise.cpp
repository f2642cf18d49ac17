// Broadcasting element-wise operators: every pair of small shapes, every numeric type.
#include "ops.h"
using namespace vf;

static bool bcast(const Sh &a, const Sh &b, Sh &out) {
    size_t n = std::max(a.size(), b.size());
    out.assign(n, 1);
    for (size_t i = 0; i < n; ++i) {
        int x = i + a.size() >= n ? a[i + a.size() - n] : 1;
        int y = i + b.size() >= n ? b[i + b.size() - n] : 1;
        if (x != y && x != 1 && y != 1) return false;
        out[i] = x == 1 ? y : x;
    }
    return true;
}
static double pick(const R &r, const Sh &c) {
    long k = 0;
    for (size_t i = 0; i < r.s.size(); ++i) { int x = c[i + c.size() - r.s.size()]; k = k * r.s[i] + (r.s[i] == 1 ? 0 : x); }
    return r.v[k];
}
static bool is_float(DTYPE d) { return d == ts::FLOAT32 || d == ts::FLOAT64; }
static double apply(const std::string &op, DTYPE dt, double a, double b) {
    if (op == "add") return round_to(dt, a + b);
    if (op == "sub") return round_to(dt, a - b);
    if (op == "mul") return round_to(dt, a * b);
    if (op == "div") return is_float(dt) ? round_to(dt, a / b) : std::trunc(a / b);
    if (op == "maximum") return a > b ? a : b;
    if (op == "mod") return is_float(dt) ? std::fmod(a, b) : std::fmod(a, b);
    if (op == "equal") return a == b;
    abort();
}
static R values(const std::string &op, DTYPE dt, const Sh &s, bool rhs) {
    R r(dt, s);
    bool uns = dt == ts::UINT8 || dt == ts::UINT16 || dt == ts::UINT32 || dt == ts::UINT64;
    for (size_t i = 0; i < r.v.size(); ++i) {
        double x = rhs ? 1 + double((i * 5 + 2) % 7) : double((i * 7 + 3) % 11);
        if (op == "equal") x = double(i % 3);
        if (op == "sub" && uns) x = rhs ? double(i % 5) : 5 + double(i % 9);
        if (!uns && op != "equal" && i % 3 == 1) x = -x;
        r.v[i] = x;
    }
    return r;
}

int main(int argc, const char **argv) {
    parse(argc, argv);
    quiet();
    Bench bench;
    Judge J(bench);
    bool th = S().thorough;
    std::vector<DTYPE> all = {ts::FLOAT32, ts::INT32, ts::FLOAT64, ts::INT8, ts::UINT8, ts::INT16, ts::UINT16, ts::UINT32, ts::INT64, ts::UINT64};
    std::vector<DTYPE> ints = {ts::INT32, ts::INT8, ts::UINT8, ts::INT16, ts::UINT16, ts::UINT32, ts::INT64, ts::UINT64};
    auto small = shapes(0, 3, {1, 2, 3});
    auto four = shapes(4, 4, {1, 2});
    // longer innermost runs for the vectorised paths
    std::vector<Sh> wide = {{1}, {5}, {9}, {17}, {2, 5}, {2, 1}, {1, 9}, {9, 1}, {3, 9}, {1, 1}, {3, 1}, {3, 17}, {1, 17}, {2, 3, 9}, {1, 3, 1}, {2, 1, 9}, {2, 3, 1}, {1, 1, 9}, {2, 1, 1}, {3, 9, 5}, {9, 1}, {9, 5}, {1, 9, 1}, {5, 1}, {1, 5, 3, 4}, {2, 5, 3, 4}, {5, 1, 1}, {1, 1, 3, 4}, {2, 1, 3, 4}};
    std::vector<std::pair<Sh, Sh>> pairs;
    for (auto &a : small) for (auto &b : small) pairs.push_back({a, b});
    for (auto &a : four) for (auto &b : four) pairs.push_back({a, b});
    for (auto &a : wide) for (auto &b : wide) pairs.push_back({a, b});
    if (th) { auto big = shapes(4, 4, {1, 2, 3}); for (auto &a : big) for (auto &b : big) pairs.push_back({a, b}); for (auto &a : big) for (auto &b : small) { pairs.push_back({a, b}); pairs.push_back({b, a}); } }
    for (std::string op : {"add", "sub", "mul", "div", "maximum", "mod", "equal"}) {
        for (auto dt : op == "mod" ? ints : all) {
            // every dtype shares the traversal code; the full pair set is walked for the two main ones
            bool full = dt == ts::FLOAT32 || dt == ts::INT32 || th;
            long k = 0;
            for (auto &p : pairs) {
                if (!full && (k++ % 7) && p.first != p.second) continue;
                auto &a = p.first; auto &b = p.second;
                if (!take("binary " + op, [&] { return op + " " + ts::type_str(dt) + str(a) + str(b); })) continue;
                Sh os;
                bool ok = bcast(a, b, os);
                R x = values(op, dt, a, false), y = values(op, dt, b, true);
                auto o = J.call(op, {}, {x, y});
                std::string key = "op=" + op + ";" + ts::type_str(dt) + str(a) + str(b);
                if (!ok) { J.rejected(key, o); continue; }
                R w(op == "equal" ? ts::BOOLEAN : dt, os);
                size_t i = 0;
                each(os, [&](const Sh &c) { w.v[i++] = apply(op, dt, pick(x, c), pick(y, c)); });
                J.want(key, o, {w}, op == "div" && is_float(dt) ? 1e-6 : 0);
            }
        }
    }
    // mixed operand types: promotion is symmetric and value preserving for values both can hold
    for (std::string op : {"add", "sub", "mul", "div", "maximum"})
        for (auto da : all) for (auto db : all) {
            if (!take("mixed " + op, [&] { return op + " " + ts::type_str(da) + "," + ts::type_str(db); })) continue;
            R x(da, {2, 3}, {9, 8, 7, 12, 10, 11}), y(db, {3}, {3, 2, 7});
            auto o = J.call(op, {}, {x, y});
            std::string key = "op=" + op + ";mixed " + std::to_string(da) + "," + std::to_string(db);
            if (J.infer_mode) { J.infer(key, o); continue; }
            if (!o.ok) { fail(key, "refused: " + o.err); continue; }
            auto g = read(o.t[0]);
            R w(g.dt, {2, 3});
            for (int i = 0; i < 6; ++i) w.v[i] = apply(op, g.dt, x.v[i], y.v[i % 3]);
            auto d = diff(g, w, 1e-6);
            if (!d.empty()) fail(key, d);
            auto o2 = J.call(op, {}, {R(db, {2}, {1, 1}), R(da, {2}, {1, 1})});
            if (!o2.ok || o2.t[0].dtype() != g.dt) fail(key, "promotion depends on operand order");
            if ((is_float(da) || is_float(db)) && !is_float(g.dt)) fail(key, "a float operand produced an integer result");
            if (ts::type_bytes(g.dt) < std::max(ts::type_bytes(da), ts::type_bytes(db)) && is_float(da) == is_float(db)) fail(key, "result type narrower than an operand");
        }
    // where(cond, lhs, rhs)
    {
        auto sh = shapes(0, 2, {1, 2, 3});
        std::vector<Sh> extra = {{2, 3, 2}, {1, 3, 1}, {2, 1, 2}, {3, 1}, {2, 3, 1}, {1, 1, 2}};
        for (auto dt : all) for (auto &c : sh) for (auto &a : sh) for (auto &b : sh) {
            if (dt != ts::FLOAT32 && dt != ts::INT32 && !th && !(c == a && a == b)) continue;
            if (!take("where", [&] { return std::string("where ") + ts::type_str(dt) + str(c) + str(a) + str(b); })) continue;
            Sh t, os;
            bool ok = bcast(c, a, t) && bcast(t, b, os);
            R rc(ts::BOOLEAN, c), x = values("add", dt, a, false), y = values("add", dt, b, true);
            for (size_t i = 0; i < rc.v.size(); ++i) rc.v[i] = (i * 3 + 1) % 4 < 2;
            for (auto &v : y.v) v += v < 0 ? 0 : 20;
            auto o = J.call("where", {}, {rc, x, y});
            std::string key = std::string("op=where;") + ts::type_str(dt) + str(c) + str(a) + str(b);
            if (!ok) { J.rejected(key, o); continue; }
            R w(dt, os);
            size_t i = 0;
            each(os, [&](const Sh &q) { w.v[i++] = pick(rc, q) ? pick(x, q) : pick(y, q); });
            J.want(key, o, {w});
        }
        for (auto &c : extra) for (auto &a : extra) for (auto &b : extra) {
            if (!take("where", [&] { return std::string("where float ") + str(c) + str(a) + str(b); })) continue;
            Sh t, os;
            bool ok = bcast(c, a, t) && bcast(t, b, os);
            R rc(ts::BOOLEAN, c), x = values("add", ts::FLOAT32, a, false), y = values("add", ts::FLOAT32, b, true);
            for (size_t i = 0; i < rc.v.size(); ++i) rc.v[i] = (i * 3 + 1) % 4 < 2;
            for (auto &v : y.v) v += 20;
            auto o = J.call("where", {}, {rc, x, y});
            std::string key = std::string("op=where;float32") + str(c) + str(a) + str(b);
            if (!ok) { J.rejected(key, o); continue; }
            R w(ts::FLOAT32, os);
            size_t i = 0;
            each(os, [&](const Sh &q) { w.v[i++] = pick(rc, q) ? pick(x, q) : pick(y, q); });
            J.want(key, o, {w});
        }
    }
    // per-channel operators: add_bias, batch_scale, batch_norm, fused_batch_norm, prelu
    {
        auto sh = shapes(1, 4, {1, 2, 3});
        std::vector<Sh> more = {{2, 5}, {3, 9}, {2, 3, 5}, {1, 3, 9}, {2, 3, 3, 3}, {1, 5, 2, 9}, {2, 9, 1, 17}, {1, 4, 4, 4}};
        sh.insert(sh.end(), more.begin(), more.end());
        for (auto dt : {ts::FLOAT32, ts::FLOAT64})
            for (auto &s : sh) for (int dim = 0; dim < int(s.size()); ++dim)
                for (std::string op : {"add_bias", "batch_scale", "batch_norm", "fused_batch_norm", "prelu"}) {
                    if (!take("channel " + op, [&] { return op + " " + ts::type_str(dt) + str(s) + " dim " + std::to_string(dim); })) continue;
                    int ch = s[dim];
                    R x = values("add", dt, s, false);
                    R c1(dt, {ch}), c2(dt, {ch}), c3(dt, {ch}), c4(dt, {ch});
                    for (int i = 0; i < ch; ++i) { c1.v[i] = i * 2 - 3; c2.v[i] = 3 - i; c3.v[i] = 1 + i; c4.v[i] = 2 * i - 1; }
                    R w(dt, s);
                    std::vector<R> in = {x, c1};
                    std::vector<P> par = {{"dim", pi(dim)}};
                    float eps = 0.25f;
                    double tol = 0;
                    size_t i = 0;
                    if (op == "add_bias") each(s, [&](const Sh &c) { w.v[i] = x.v[i] + c1.v[c[dim]]; ++i; });
                    else if (op == "prelu") each(s, [&](const Sh &c) { w.v[i] = x.v[i] > 0 ? x.v[i] : x.v[i] * c1.v[c[dim]]; ++i; });
                    else if (op == "batch_scale") { in = {x, c1, c2}; each(s, [&](const Sh &c) { w.v[i] = x.v[i] * c1.v[c[dim]] + c2.v[c[dim]]; ++i; }); }
                    else if (op == "batch_norm") { in = {x, c1, c3}; par.push_back({"epsilon", pf(eps)}); tol = 2e-5; each(s, [&](const Sh &c) { w.v[i] = (x.v[i] - c1.v[c[dim]]) / std::sqrt(c3.v[c[dim]] + eps); ++i; }); }
                    else { in = {x, c1, c3, c2, c4}; par.push_back({"epsilon", pf(eps)}); tol = 2e-5; each(s, [&](const Sh &c) { w.v[i] = (x.v[i] - c1.v[c[dim]]) / std::sqrt(c3.v[c[dim]] + eps) * c2.v[c[dim]] + c4.v[c[dim]]; ++i; }); }
                    auto o = J.call(op, par, in);
                    J.want("op=" + op + ";" + ts::type_str(dt) + str(s) + "dim" + std::to_string(dim), o, {w}, tol);
                }
        // without a stated epsilon the documented 1e-5 is added to the variance; vectors of another length are refused
        for (auto dt : {ts::FLOAT32, ts::FLOAT64}) for (auto &s : shapes(2, 4, {1, 2, 3})) for (int dim = 0; dim < int(s.size()); ++dim) {
            int ch = s[dim];
            R x = values("add", dt, s, false), m(dt, {ch}), v(dt, {ch}), k(dt, {ch}), b(dt, {ch}), w(dt, s);
            for (int i = 0; i < ch; ++i) { m.v[i] = i; v.v[i] = i == 1 ? 0 : 1e-5 * (i + 1); k.v[i] = i + 1; b.v[i] = -i; }
            for (int f = 0; f < 2; ++f) if (take("channel default epsilon", [&] { return std::string(f ? "fused_" : "") + "batch_norm " + ts::type_str(dt) + str(s) + " dim " + std::to_string(dim); })) {
                size_t i = 0;
                each(s, [&](const Sh &c) { int q = c[dim]; w.v[i] = (x.v[i] - m.v[q]) / std::sqrt(v.v[q] + 1e-5); if (f) w.v[i] = w.v[i] * k.v[q] + b.v[q]; ++i; });
                std::vector<R> in = {x, m, v}; if (f) { in.push_back(k); in.push_back(b); }
                J.want(std::string("op=") + (f ? "fused_" : "") + "batch_norm;default epsilon", J.call(f ? "fused_batch_norm" : "batch_norm", {{"dim", pi(dim)}}, in), {w}, 2e-5);
            }
            struct O { const char *op; int n; };
            for (auto o : {O{"add_bias", 1}, O{"batch_scale", 2}, O{"batch_norm", 2}, O{"fused_batch_norm", 4}, O{"prelu", 1}}) for (int bad = 0; bad < o.n; ++bad) for (int by : {-1, 1, 2}) {
                if (ch + by < 1) continue;
                if (!take("channel refused", [&] { return std::string(o.op) + " " + ts::type_str(dt) + str(s) + " dim " + std::to_string(dim) + " vector " + std::to_string(bad) + " of " + std::to_string(ch + by); })) continue;
                std::vector<R> in = {x};
                for (int i = 0; i < o.n; ++i) { R t(dt, {i == bad ? ch + by : ch}); for (auto &y : t.v) y = 1; in.push_back(t); }
                J.rejected(std::string("op=") + o.op + ";vector of another length", J.call(o.op, {{"dim", pi(dim)}}, in));
            }
        }
        // add_bias by format
        for (std::string fmt : {"NCHW", "NHWC"}) for (auto &s : shapes(4, 4, {1, 2, 3})) {
            if (!take("channel add_bias format", [&] { return fmt + str(s); })) continue;
            int dim = fmt == "NCHW" ? 1 : 3, ch = s[dim];
            R x = values("add", ts::FLOAT32, s, false), b(ts::FLOAT32, {ch}), w(ts::FLOAT32, s);
            for (int i = 0; i < ch; ++i) b.v[i] = 10 * (i + 1);
            size_t i = 0;
            each(s, [&](const Sh &c) { w.v[i] = x.v[i] + b.v[c[dim]]; ++i; });
            J.want("op=add_bias;format" + fmt + str(s), J.call("add_bias", {{"format", ps(fmt)}}, {x, b}), {w});
        }
    }
    finish();
}
