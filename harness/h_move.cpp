// Data-movement operators: every small shape x every legal and near-legal parameter value.
#include "ops.h"
using namespace vf;

static long off(const Sh &s, const Sh &c) { long k = 0; for (size_t i = 0; i < s.size(); ++i) k = k * s[i] + c[i]; return k; }
static Sh without(const Sh &s, int a) { Sh r = s; r.erase(r.begin() + a); return r; }
// builds a result of shape os whose element at c is f(c)
template<typename F> static R build(DTYPE dt, const Sh &os, F f) { R w(dt, os); long i = 0; each(os, [&](const Sh &c) { w.v[i++] = f(c); }); return w; }
static std::vector<DTYPE> DT = {ts::FLOAT32, ts::UINT8, ts::INT16, ts::FLOAT64};
static DTYPE dt_of(size_t k) { return DT[k % DT.size()]; }
static R src(DTYPE dt, const Sh &s, int start = 1) { R r(dt, s); for (size_t i = 0; i < r.v.size(); ++i) r.v[i] = (start + int(i)) % 120; return r; }

struct Call { std::string op; std::vector<P> par; std::vector<R> in; std::vector<R> w; bool legal = true; std::string what; };
// near-legal calls where the documentation leaves the answer open are marked legal=false,open=true: only absence of a crash is judged

struct M {
    Judge &J; size_t k = 0;
    M(Judge &J) : J(J) {}
    // lazily built call
    void go(const std::string &op, const std::string &what, const std::function<Call(DTYPE)> &f, bool alltypes = false) {
        for (size_t d = 0; d < (alltypes ? DT.size() : 1); ++d) {
            auto dt = alltypes ? DT[d] : dt_of(k++);
            if (!take(op, [&] { return op + " " + ts::type_str(dt) + " " + what; })) continue;
            auto c = f(dt);
            auto o = J.call(op, c.par, c.in);
            std::string key = "op=" + op + ";" + what;
            if (c.legal) J.want(key, o, c.w); else J.rejected(key, o);
        }
    }
    // packed result
    void gop(const std::string &op, const std::string &what, const std::function<Call(DTYPE)> &f) {
        auto dt = dt_of(k++);
        if (!take(op, [&] { return op + " " + ts::type_str(dt) + " " + what; })) return;
        auto c = f(dt);
        auto o = J.call(op, c.par, c.in);
        std::string key = "op=" + op + ";" + what;
        if (!c.legal) { J.rejected(key, o); return; }
        if (J.graph_mode) return; if (J.infer_mode) {
            if (!o.ok) return;
            std::vector<ts::Tensor::Prototype> got;
            for (auto &t : o.t) for (auto &f : t.unpack()) got.push_back(f.proto());
            if (!o.inferred) { fail(key + ";infer", "inference refused: " + o.infer_err); return; }
            if (got.size() != o.proto.size()) { fail(key + ";infer", "inferred " + std::to_string(o.proto.size()) + " fields, produced " + std::to_string(got.size())); return; }
            for (size_t i = 0; i < got.size(); ++i) if (show(got[i]) != show(o.proto[i])) fail(key + ";infer", "field " + std::to_string(i) + " inferred " + show(o.proto[i]) + " produced " + show(got[i]));
            return;
        }
        if (!o.ok) { fail(key, "refused: " + o.err); return; }
        if (o.t.size() != 1) { fail(key, "not one packed output"); return; }
        auto fs = o.t[0].unpack();
        if (fs.size() != c.w.size()) { fail(key, "packed " + std::to_string(fs.size()) + " fields instead of " + std::to_string(c.w.size())); return; }
        for (size_t i = 0; i < fs.size(); ++i) { auto d = diff(read(fs[i]), c.w[i]); if (!d.empty()) { fail(key, "field " + std::to_string(i) + ": " + d); return; } }
    }
};
static R join(const std::vector<R> &in, int a) {
    Sh os = in[0].s; os[a] = 0; for (auto &r : in) os[a] += r.s[a];
    return build(in[0].dt, os, [&](const Sh &c) { Sh q = c; for (auto &r : in) { if (q[a] < r.s[a]) return r.at(q); q[a] -= r.s[a]; } abort(); return 0.0; });
}
static R part(const R &x, int a, int b, int n) { Sh os = x.s; os[a] = n; return build(x.dt, os, [&](const Sh &c) { Sh q = c; q[a] += b; return x.at(q); }); }
static R slice(const R &x, const Sh &b, const Sh &n) { return build(x.dt, n, [&](const Sh &c) { Sh q = c; for (size_t i = 0; i < q.size(); ++i) q[i] += b[i]; return x.at(q); }); }
static R tr(const R &x, const Sh &p) { Sh os; for (int d : p) os.push_back(x.s[d]); return build(x.dt, os, [&](const Sh &c) { Sh q(c.size()); for (size_t i = 0; i < p.size(); ++i) q[p[i]] = c[i]; return x.at(q); }); }
static R shaped(const R &x, const Sh &s) { R r = x; r.s = s; return r; }
static std::vector<int> pyidx(int n, bool hb, int b, bool he, int e, int st) {   // python slice indices
    if (st > 0) { int lo = 0, hi = n; if (hb) lo = b < 0 ? std::max(0, b + n) : std::min(b, n); if (he) hi = e < 0 ? std::max(0, e + n) : std::min(e, n); std::vector<int> r; for (int i = lo; i < hi; i += st) r.push_back(i); return r; }
    int lo = n - 1, hi = -1; if (hb) lo = b < 0 ? std::max(-1, b + n) : std::min(b, n - 1); if (he) hi = e < 0 ? std::max(-1, e + n) : std::min(e, n - 1);
    std::vector<int> r; for (int i = lo; i > hi; i += st) r.push_back(i); return r;
}
static R takeax(const R &x, int a, const std::vector<int> &ix) { Sh os = x.s; os[a] = int(ix.size()); return build(x.dt, os, [&](const Sh &c) { Sh q = c; q[a] = ix[c[a]]; return x.at(q); }); }
static R padr(const R &x, const std::vector<int> &p, double v) {
    Sh os = x.s; for (size_t i = 0; i < os.size(); ++i) os[i] += p[2 * i] + p[2 * i + 1];
    return build(x.dt, os, [&](const Sh &c) { Sh q = c; for (size_t i = 0; i < q.size(); ++i) { q[i] -= p[2 * i]; if (q[i] < 0 || q[i] >= x.s[i]) return v; } return x.at(q); });
}
static R i32(const Sh &s, const std::vector<int> &v) { return R(ts::INT32, s, std::vector<double>(v.begin(), v.end())); }
static R i32(const std::vector<int> &v) { return i32({int(v.size())}, v); }

int main(int argc, const char **argv) {
    parse(argc, argv);
    quiet();
    Bench bench; Judge J(bench); M m(J);
    bool th = S().thorough;
    auto s3 = shapes(1, 3, {1, 2, 3});
    auto s4 = shapes(4, 4, {1, 2});
    auto all = s3; all.insert(all.end(), s4.begin(), s4.end()); all.push_back({2, 3, 4, 5}); all.push_back({1, 3, 5, 9}); all.push_back({2, 9, 5, 3});
    if (th) { auto b = shapes(4, 4, {1, 2, 3}); all.insert(all.end(), b.begin(), b.end()); }

    // ---- concat ----
    for (auto &s : all) for (int a = -int(s.size()) - 1; a <= int(s.size()); ++a) for (int n = 1; n <= 3; ++n) for (int v = 0; v < 3; ++v)
        m.go("concat", str(s) + " dim " + std::to_string(a) + " n" + std::to_string(n) + " v" + std::to_string(v), [&](DTYPE dt) {
            Call c; int d = a < 0 ? a + int(s.size()) : a; c.legal = d >= 0 && d < int(s.size());
            c.par = {{"dim", pi(a)}};
            for (int i = 0; i < n; ++i) { Sh t = s; if (c.legal) t[d] = 1 + (i + v) % 3; c.in.push_back(src(dt, t, 1 + 30 * i)); }
            if (c.legal) c.w = {join(c.in, d)};
            return c;
        });
    for (auto &s : s3) for (int a = 0; a < int(s.size()); ++a) for (int bad = 0; bad < int(s.size()); ++bad) if (bad != a)
        m.go("concat", str(s) + " dim " + std::to_string(a) + " mismatch " + std::to_string(bad), [&](DTYPE dt) {
            Call c; c.legal = false; c.par = {{"dim", pi(a)}}; Sh t = s; t[bad]++; c.in = {src(dt, s), src(dt, t)}; return c; });
    // ---- split / chunk ----
    for (auto &s : all) for (int a = -int(s.size()); a < int(s.size()); ++a) {
        int d = a < 0 ? a + int(s.size()) : a, n = s[d];
        for (int x = 0; x <= n + 1; ++x) for (int y = 0; y <= n + 1; ++y) {
            std::vector<int> sz = y == 0 ? std::vector<int>{x} : std::vector<int>{x, y};
            if (x == 0) continue;
            int sum = 0; for (int z : sz) sum += z;
            m.gop("split", str(s) + " axis " + std::to_string(a) + " sizes " + str(sz), [&](DTYPE dt) {
                Call c; c.legal = sum == n; c.par = {{"axis", pi(a)}}; R x = src(dt, s); c.in = {x, i32(sz)}; int b = 0;
                if (c.legal) for (int z : sz) { c.w.push_back(part(x, d, b, z)); b += z; }
                return c; });
        }
    }
    for (int n = 1; n <= 12; ++n) for (int ch = 1; ch <= 5; ++ch) for (int pos = 0; pos < 3; ++pos) for (int neg = 0; neg < 2; ++neg) {
        Sh s = {2, 3, 2}; s[pos] = n;
        m.gop("chunk", str(s) + " chunks " + std::to_string(ch) + " dim " + std::to_string(neg ? pos - 3 : pos), [&](DTYPE dt) {
            Call c; c.par = {{"chunks", pi(ch)}, {"dim", pi(neg ? pos - 3 : pos)}}; R x = src(dt, s); c.in = {x}; c.legal = true;
            // `chunks` consecutive pieces of ceil(n / chunks), the last one takes the rest; refused when that gives fewer pieces
            int step = (n + ch - 1) / ch, at = 0; c.legal = n >= ch && (n + step - 1) / step == ch;
            if (c.legal) for (int i = 0; i < ch; ++i) { int z = std::min(step, n - at); c.w.push_back(part(x, pos, at, z)); at += z; }
            return c; });
    }
    // ---- stack ----
    for (auto &s : shapes(0, 3, {1, 2, 3})) for (int a = -int(s.size()) - 2; a <= int(s.size()) + 1; ++a) for (int n = 1; n <= 3; ++n)
        m.go("stack", str(s) + " axis " + std::to_string(a) + " n" + std::to_string(n), [&](DTYPE dt) {
            Call c; int r = int(s.size()) + 1, d = a < 0 ? a + r : a; c.legal = d >= 0 && d < r; c.par = {{"axis", pi(a)}};
            for (int i = 0; i < n; ++i) c.in.push_back(src(dt, s, 1 + 30 * i));
            if (c.legal) { Sh os = s; os.insert(os.begin() + d, n); c.w = {build(dt, os, [&](const Sh &q) { return c.in[q[d]].at(without(q, d)); })}; }
            return c; });
    // ---- slice, slice_v2 ----
    for (auto &s : shapes(1, 2, {1, 2, 3})) {
        Sh lim; for (size_t i = 0; i < s.size(); ++i) { lim.push_back(s[i] + 3); lim.push_back(s[i] + 4); }
        each(lim, [&](const Sh &k) {
            Sh b, n, on; bool legal = true;
            for (size_t i = 0; i < s.size(); ++i) { b.push_back(k[2 * i] - 1); n.push_back(k[2 * i + 1] - 1); }
            for (size_t i = 0; i < s.size(); ++i) { int z = n[i] < 0 ? s[i] - b[i] : n[i]; on.push_back(z); if (b[i] < 0 || b[i] >= s[i] || b[i] + z > s[i]) legal = false; }
            for (std::string op : {"slice", "slice_v2"})
                m.go(op, str(s) + " begin " + str(b) + " size " + str(n), [&](DTYPE dt) {
                    Call c; c.legal = legal; R x = src(dt, s); c.in = {x};
                    if (op == "slice") c.par = {{"begin", pv(b)}, {"size", pv(n)}}; else { c.in.push_back(i32(b)); c.in.push_back(i32(n)); }
                    if (legal) c.w = {slice(x, b, on)};
                    return c; });
        });
    }
    for (auto &s : {Sh{2, 3, 4}, Sh{3, 2, 2, 3}}) each(s, [&](const Sh &b) { each(s, [&](const Sh &e) {
        Sh n; bool ok = true; for (size_t i = 0; i < s.size(); ++i) { n.push_back(e[i] + 1 - b[i]); if (n[i] < 1) ok = false; }
        if (!ok) return;
        for (std::string op : {"slice", "slice_v2"}) m.go(op, str(s) + " begin " + str(b) + " size " + str(n), [&](DTYPE dt) {
            Call c; R x = src(dt, s); c.in = {x};
            if (op == "slice") c.par = {{"begin", pv(b)}, {"size", pv(n)}}; else { c.in.push_back(i32(b)); c.in.push_back(i32(n)); }
            c.w = {slice(x, b, n)}; return c; });
    }); });
    // ---- strided_slice / slice_v3 : 1-d, all begins, ends, strides, masks ----
    for (int n = 1; n <= 4; ++n) for (int b = -n - 2; b <= n + 2; ++b) for (int e = -n - 2; e <= n + 2; ++e) for (int st = -3; st <= 3; ++st) {
        if (st == 0) continue;
        auto ix = pyidx(n, true, b, true, e, st);
        m.go("slice_v3", "[" + std::to_string(n) + "] " + std::to_string(b) + ":" + std::to_string(e) + ":" + std::to_string(st), [&](DTYPE dt) {
            Call c; R x = src(dt, {n}); c.in = {x, i32({b}), i32({e}), i32({0}), i32({st})}; c.w = {takeax(x, 0, ix)}; return c; });
        for (int mask = 0; mask < 4; ++mask) {
            auto iy = pyidx(n, !(mask & 1), b, !(mask & 2), e, st);
            m.go("strided_slice", "[" + std::to_string(n) + "] " + std::to_string(b) + ":" + std::to_string(e) + ":" + std::to_string(st) + " masks " + std::to_string(mask), [&](DTYPE dt) {
                Call c; R x = src(dt, {n}); c.in = {x}; c.par = {{"begin", pv({b})}, {"end", pv({e})}, {"stride", pv({st})}, {"begin_mask", pi(mask & 1)}, {"end_mask", pi(mask >> 1)}};
                c.w = {takeax(x, 0, iy)}; return c; });
        }
    }
    for (std::string op : {"slice_v3", "strided_slice"}) m.go(op, "stride zero", [&](DTYPE dt) {
        Call c; c.legal = false; R x = src(dt, {3}); c.in = {x};
        if (op == "slice_v3") { c.in.push_back(i32({0})); c.in.push_back(i32({2})); c.in.push_back(i32({0})); c.in.push_back(i32({0})); }
        else c.par = {{"begin", pv({0})}, {"end", pv({2})}, {"stride", pv({0})}};
        return c; });
    // several axes, negative axes, partial axes
    {
        struct Ax { int b, e, st; };
        std::vector<Ax> opt = {{0, 2, 1}, {1, 3, 1}, {-1, -4, -1}, {2, 0, -2}, {0, 1000, 2}, {-2, 1000, 1}, {1, 1, 1}, {1000, -1000, -1}};
        Sh s = {3, 4, 2};
        for (auto &p : opt) for (auto &q : opt) for (int ax = 0; ax < 3; ++ax) for (int ay = ax + 1; ay < 3; ++ay) for (int neg = 0; neg < 4; ++neg) for (int kind = 0; kind < 3; ++kind) {
            if (kind == 0 && (ax != 0 || ay != 1 || neg)) continue;            // no axes given
            if (kind != 2 && (p.st != 1 || q.st != 1)) continue;               // no steps given
            std::ostringstream d; d << str(s) << " axes " << (neg & 1 ? ax - 3 : ax) << "," << (neg & 2 ? ay - 3 : ay) << " " << p.b << ":" << p.e << ":" << p.st << "," << q.b << ":" << q.e << ":" << q.st << " form" << kind;
            m.go("slice_v3", d.str(), [&](DTYPE dt) {
                Call c; R x = src(dt, s); c.in = {x, i32({p.b, q.b}), i32({p.e, q.e})};
                if (kind > 0) c.in.push_back(i32({neg & 1 ? ax - 3 : ax, neg & 2 ? ay - 3 : ay}));
                if (kind > 1) c.in.push_back(i32({p.st, q.st}));
                c.w = {takeax(takeax(x, ax, pyidx(s[ax], true, p.b, true, p.e, p.st)), ay, pyidx(s[ay], true, q.b, true, q.e, q.st))};
                return c; });
        }
        for (int ax = -5; ax <= 4; ++ax) m.go("slice_v3", "axis " + std::to_string(ax), [&](DTYPE dt) {
            Call c; R x = src(dt, s); c.in = {x, i32({1}), i32({2}), i32({ax})}; int d = ax < 0 ? ax + 3 : ax; c.legal = d >= 0 && d < 3; if (c.legal) c.w = {takeax(x, d, {1})}; return c; });
        // strided slice: one kind per axis.  r range, R reverse range, s shrink, n new axis, e ellipsis
        for (auto &s2 : {Sh{3, 4, 2}, Sh{2, 3}, Sh{4}, Sh{2, 2, 3, 2}}) {
            std::string kinds = "rRsne";
            for (int len = 1; len <= int(s2.size()) + 1; ++len) each(Sh(len, 5), [&](const Sh &k) {
                std::string f; int used = 0, ell = 0; for (int x : k) { f += kinds[x]; if (kinds[x] == 'e') ++ell; else if (kinds[x] != 'n') ++used; }
                if (ell > 1 || used > int(s2.size()) || std::count(f.begin(), f.end(), 'n') > 2) return;   // the library holds at most seven dimensions
                m.go("strided_slice", str(s2) + " form " + f, [&](DTYPE dt) {
                    Call c; R x = src(dt, s2); c.in = {x}; std::vector<int> b, e, st; int em = 0, nm = 0, sm = 0, bm = 0;
                    R w = x; int at = 0; size_t i = 0; Sh shrunk;
                    for (char ch : f) {
                        if (ch == 'r') { b.push_back(1); e.push_back(1000); st.push_back(1); w = takeax(w, at, pyidx(w.s[at], true, 1, true, 1000, 1)); ++at; }
                        if (ch == 'R') { b.push_back(1000); e.push_back(-1000); st.push_back(-1); w = takeax(w, at, pyidx(w.s[at], false, 0, false, 0, -1)); ++at; }
                        if (ch == 's') { b.push_back(1); e.push_back(2); st.push_back(1); sm |= 1 << i; w = takeax(w, at, {1}); w.s.erase(w.s.begin() + at); }
                        if (ch == 'n') { b.push_back(0); e.push_back(1); st.push_back(1); nm |= 1 << i; w.s.insert(w.s.begin() + at, 1); ++at; }
                        if (ch == 'e') { b.push_back(0); e.push_back(0); st.push_back(1); em |= 1 << i; at += int(s2.size()) - used; }
                        ++i;
                    }
                    c.par = {{"begin", pv(b)}, {"end", pv(e)}, {"stride", pv(st)}, {"begin_mask", pi(bm)}, {"ellipsis_mask", pi(em)}, {"new_axis_mask", pi(nm)}, {"shrink_axis_mask", pi(sm)}};
                    c.w = {w}; return c; });
            });
        }
    }
    // ---- gather, gather_elements, gatherv2 (gather_nd), scatter_nd ----
    for (auto &s : s3) for (int a = -int(s.size()) - 1; a <= int(s.size()); ++a) for (auto &is : {Sh{}, Sh{1}, Sh{2}, Sh{1, 2}}) {
        int d = a < 0 ? a + int(s.size()) : a; bool la = d >= 0 && d < int(s.size()); int n = la ? s[d] : 1;
        each(Sh(cnt(is), 2 * n + 2), [&](const Sh &k) {
            std::vector<int> ix; bool legal = la; for (int x : k) { ix.push_back(x - n - 1); if (ix.back() < -n || ix.back() >= n) legal = false; }
            m.go("gather", str(s) + " axis " + std::to_string(a) + " idx " + str(is) + str(ix), [&](DTYPE dt) {
                Call c; c.legal = legal; R x = src(dt, s); c.in = {x, i32(is, ix)}; c.par = {{"axis", pi(a)}};
                if (legal) { Sh os(s.begin(), s.begin() + d); os.insert(os.end(), is.begin(), is.end()); os.insert(os.end(), s.begin() + d + 1, s.end());
                    c.w = {build(dt, os, [&](const Sh &q) { Sh ic(q.begin() + d, q.begin() + d + is.size()); int v = ix[off(is, ic)]; if (v < 0) v += n;
                        Sh xc(q.begin(), q.begin() + d); xc.push_back(v); xc.insert(xc.end(), q.begin() + d + is.size(), q.end()); return x.at(xc); })}; }
                return c; });
        });
    }
    for (auto &s : shapes(1, 3, {1, 2, 3})) for (int a = -int(s.size()); a < int(s.size()); ++a) for (int l = 1; l <= 3; ++l) for (int pat = 0; pat < 5; ++pat) {
        int d = a < 0 ? a + int(s.size()) : a, n = s[d]; Sh is = s; is[d] = l;
        m.go("gather_elements", str(s) + " axis " + std::to_string(a) + " len " + std::to_string(l) + " pattern " + std::to_string(pat), [&](DTYPE dt) {
            Call c; R x = src(dt, s); std::vector<int> ix; for (int i = 0; i < cnt(is); ++i) ix.push_back(pat == 0 ? 0 : pat == 1 ? n - 1 : pat == 2 ? (i * 7 + 1) % n : pat == 3 ? -1 - (i % n) : (i == 0 ? n : 0));
            c.legal = pat != 4; c.in = {x, i32(is, ix)}; c.par = {{"axis", pi(a)}};
            if (c.legal) c.w = {build(dt, is, [&](const Sh &q) { Sh p = q; p[d] = ix[off(is, q)]; if (p[d] < 0) p[d] += n; return x.at(p); })};
            return c; });
    }
    for (auto &s : shapes(1, 3, {1, 2, 3})) for (int dep = 1; dep <= int(s.size()); ++dep) for (int rows = 1; rows <= 2; ++rows) for (int pat = 0; pat < 4; ++pat)
        m.go("gatherv2", str(s) + " depth " + std::to_string(dep) + " rows " + std::to_string(rows) + " pattern " + std::to_string(pat), [&](DTYPE dt) {
            Call c; R x = src(dt, s); std::vector<int> ix; c.legal = pat != 3;
            for (int r = 0; r < rows; ++r) for (int q = 0; q < dep; ++q) ix.push_back(pat == 0 ? 0 : pat == 1 ? s[q] - 1 : pat == 2 ? (r + q + 1) % s[q] : s[q]);
            c.in = {x, i32({rows, dep}, ix)};
            if (c.legal) { Sh os = {rows}; os.insert(os.end(), s.begin() + dep, s.end());
                c.w = {build(dt, os, [&](const Sh &q) { Sh p(ix.begin() + q[0] * dep, ix.begin() + q[0] * dep + dep); p.insert(p.end(), q.begin() + 1, q.end()); return x.at(p); })}; }
            return c; });
    for (auto &s : s3) for (int rows = 1; rows <= 2; ++rows) for (int i0 = -1; i0 <= s[0]; ++i0) for (int i1 = 0; i1 < (rows == 2 ? s[0] : 1); ++i1)
        m.go("scatter_nd", str(s) + " rows " + std::to_string(rows) + " at " + std::to_string(i0) + "," + std::to_string(i1), [&](DTYPE dt) {
            Call c; R x = src(dt, s); std::vector<int> ix = {i0}; if (rows == 2) ix.push_back(i1);
            Sh us = s; us[0] = rows; R u = src(dt, us, 70); c.in = {x, i32({rows, 1}, ix), u}; c.legal = i0 >= 0 && i0 < s[0];
            if (c.legal) { R w = x; long wd = cnt(s) / s[0]; for (int r = 0; r < rows; ++r) for (long j = 0; j < wd; ++j) w.v[ix[r] * wd + j] = u.v[r * wd + j]; c.w = {w}; }
            return c; });
    // ---- transpose ----
    {
        std::vector<Sh> ts_ = shapes(1, 3, {1, 2, 3}); auto f = shapes(4, 4, {1, 2, 3}); ts_.insert(ts_.end(), f.begin(), f.end());
        for (int w : {4, 5, 7, 8, 9, 12, 17, 33}) { ts_.push_back({1, 3, 2, w}); ts_.push_back({2, 3, 1, w}); ts_.push_back({2, 3, w, 3}); ts_.push_back({1, w, 2, 3}); ts_.push_back({2, 2, w, 3}); ts_.push_back({w, 2, 3}); ts_.push_back({2, w, 4}); ts_.push_back({2, w, 5, 3}); ts_.push_back({1, 3, w, w}); }
        for (auto &s : ts_) {
            Sh p; for (size_t i = 0; i < s.size(); ++i) p.push_back(int(i));
            do m.go("_transpose", str(s) + " perm " + str(p), [&](DTYPE dt) { Call c; R x = src(dt, s); c.in = {x}; c.par = {{"permute", pv(p)}}; c.w = {tr(x, p)}; return c; }, s.size() == 4 && cnt(s) > 20);
            while (std::next_permutation(p.begin(), p.end()));
            m.go("_transpose", str(s) + " default", [&](DTYPE dt) { Call c; R x = src(dt, s); c.in = {x}; Sh q = p; if (s.size() > 1) std::swap(q[s.size() - 1], q[s.size() - 2]); c.w = {tr(x, q)}; return c; });
        }
        for (auto &bad : {Sh{0, 0}, Sh{0, 2}, Sh{0, -1}, Sh{1, 1}, Sh{0}}) m.go("_transpose", "[2,3] perm " + str(bad), [&](DTYPE dt) { Call c; c.legal = false; c.in = {src(dt, {2, 3})}; c.par = {{"permute", pv(bad)}}; return c; });
    }
    // ---- reshape family ----
    {
        std::vector<int> opts = {-1, 0, 1, 2, 3, 4, 6, 12};
        for (auto &s : {Sh{2, 3, 2}, Sh{12}, Sh{4, 3}, Sh{1, 2, 6}, Sh{}}) for (int len = 1; len <= 3; ++len) each(Sh(len, int(opts.size())), [&](const Sh &k) {
            Sh t; for (int i : k) t.push_back(opts[i]);
            int neg = 0; long prod = 1; bool legal = true; Sh os = t;
            for (size_t i = 0; i < t.size(); ++i) { if (t[i] == 0) { if (i < s.size()) os[i] = s[i]; else { legal = false; os[i] = 1; } } if (os[i] < 0) ++neg; else prod *= os[i]; }
            long n = cnt(s);
            if (neg > 1) legal = false;
            if (legal && neg == 1) { if (n % prod) legal = false; else for (auto &z : os) if (z < 0) z = int(n / prod); }
            if (legal && neg == 0 && prod != n) legal = false;
            for (std::string op : {"_reshape", "_reshape_v2"}) m.go(op, str(s) + " to " + str(t), [&](DTYPE dt) {
                Call c; c.legal = legal; R x = src(dt, s); c.in = {x}; if (op == "_reshape") c.par = {{"shape", pv(t)}}; else c.in.push_back(i32(t)); if (legal) c.w = {shaped(x, os)}; return c; });
        });
    }
    for (auto &s : all) {
        int r = int(s.size());
        for (int d = 0; d <= r; ++d) for (std::string op : {"flatten", "flatten2d"}) {
            if (op == "flatten" && d == r) continue;
            m.go(op, str(s) + " dim " + std::to_string(d), [&](DTYPE dt) {
                Call c; R x = src(dt, s); c.in = {x}; c.par = {{"dim", pi(d)}}; int a = 1, b = 1; for (int i = 0; i < r; ++i) (i < d ? a : b) *= s[i];
                Sh os = op == "flatten2d" ? Sh{a, b} : Sh(s.begin(), s.begin() + d); if (op == "flatten") os.push_back(b); c.w = {shaped(x, os)}; return c; });
        }
        // squeeze: every subset of axes
        for (int mask = 1; mask < (1 << r); ++mask) {
            std::vector<int> ax; bool legal = true; Sh os; for (int i = 0; i < r; ++i) if (mask >> i & 1) { ax.push_back(i); if (s[i] != 1) legal = false; } else os.push_back(s[i]);
            m.go("squeeze", str(s) + " axes " + str(ax), [&](DTYPE dt) { Call c; c.legal = legal; R x = src(dt, s); c.in = {x}; c.par = {{"axes", pv(ax)}}; if (legal) c.w = {shaped(x, os)}; return c; });
        }
        for (int a = -r; a <= r; ++a) m.go("unsqueeze", str(s) + " axis " + std::to_string(a), [&](DTYPE dt) {
            Call c; R x = src(dt, s); c.in = {x}; c.par = {{"axes", pv({a})}}; Sh os = s; os.insert(os.begin() + (a < 0 ? a + r + 1 : a), 1); c.w = {shaped(x, os)}; return c; });
        for (int a = 0; a <= r; ++a) for (int b = a + 1; b <= r + 1; ++b) m.go("unsqueeze", str(s) + " axes " + std::to_string(a) + "," + std::to_string(b), [&](DTYPE dt) {
            Call c; R x = src(dt, s); c.in = {x}; c.par = {{"axes", pv({a, b})}}; Sh os = s; os.insert(os.begin() + a, 1); os.insert(os.begin() + b, 1); c.w = {shaped(x, os)}; return c; });
        for (int want = r - 1; want <= r + 3; ++want) for (int fr = -1; fr <= 2; ++fr) for (int en = -1; en <= 2; ++en) for (int inv = 0; inv < 2; ++inv) m.go("_expand", str(s) + " dims " + std::to_string(want) + " front " + std::to_string(fr) + " end " + std::to_string(en) + " inv " + std::to_string(inv), [&](DTYPE dt) {
            Call c; R x = src(dt, s); c.in = {x, i32({}, {want})}; c.par = {{"front", pi(fr)}, {"end", pi(en)}, {"inverse", pb(inv)}};
            int need = want - r, f = 0, e = 0; auto lim = [&](int l) { return l < 0 ? need : std::min(need, l); };
            if (need < 0) { c.legal = false; return c; }
            if (!inv) { f = lim(fr); need -= f; e = lim(en); need -= e; } else { e = lim(en); need -= e; f = lim(fr); need -= f; }
            c.legal = need == 0; Sh os(f, 1); os.insert(os.end(), s.begin(), s.end()); os.insert(os.end(), e, 1); if (c.legal) c.w = {shaped(x, os)}; return c; });
        // _shape, _dims, copy
        m.go("_shape", str(s), [&](DTYPE dt) { Call c; c.in = {src(dt, s)}; c.w = {i32(s)}; return c; });
        m.go("_dims", str(s), [&](DTYPE dt) { Call c; c.in = {src(dt, s)}; c.w = {i32({}, {r})}; return c; });
        m.go("_copy", str(s), [&](DTYPE dt) { Call c; R x = src(dt, s); c.in = {x}; c.w = {x}; return c; });
    }
    // ---- tile, broadcast ----
    for (auto &s : shapes(1, 3, {1, 2, 3})) for (int len = 1; len <= 4; ++len) each(Sh(len, len > 2 ? 3 : 5), [&](const Sh &k) {
        Sh rep; bool legal = true; for (int x : k) { rep.push_back(len > 2 ? x : x - 1); if (rep.back() < 0) legal = false; }
        if (len == 4 && cnt(s) > 4) return;
        for (std::string op : {"tile", "tile_v2"}) m.go(op, str(s) + " rep " + str(rep), [&](DTYPE dt) {
            Call c; c.legal = legal; R x = src(dt, s); c.in = {x}; if (op == "tile") c.par = {{"repeats", pv(rep)}}; else c.in.push_back(i32(rep));
            if (legal) { Sh xs = s, rs = rep; while (xs.size() < rs.size()) xs.insert(xs.begin(), 1); while (rs.size() < xs.size()) rs.insert(rs.begin(), 1); Sh os; for (size_t i = 0; i < xs.size(); ++i) os.push_back(xs[i] * rs[i]); R y = shaped(x, xs); c.w = {build(dt, os, [&](const Sh &q) { Sh p = q; for (size_t i = 0; i < p.size(); ++i) p[i] %= xs[i]; return y.at(p); })}; }
            return c; });
    });
    {
        auto bs = shapes(1, 3, {1, 2, 3}); for (auto &x : {Sh{5}, Sh{1, 5}, Sh{5, 1}, Sh{2, 1, 5}, Sh{2, 5, 1}, Sh{1, 1, 1, 1}, Sh{2, 1, 3, 1}, Sh{1, 2, 1, 5}, Sh{2, 2, 3, 5}}) bs.push_back(x);
        for (auto &s : bs) for (auto &t : bs) m.go("broadcast", str(s) + " to " + str(t), [&](DTYPE dt) {
            Call c; R x = src(dt, s); c.in = {x, i32(t)}; Sh xs = s, tt = t; while (xs.size() < tt.size()) xs.insert(xs.begin(), 1); while (tt.size() < xs.size()) tt.insert(tt.begin(), 1);
            Sh os; for (size_t i = 0; i < xs.size(); ++i) { if (xs[i] != tt[i] && xs[i] != 1 && tt[i] != 1) c.legal = false; os.push_back(std::max(xs[i], tt[i])); }
            if (c.legal) { R y = shaped(x, xs); c.w = {build(dt, os, [&](const Sh &q) { Sh p = q; for (size_t i = 0; i < p.size(); ++i) if (xs[i] == 1) p[i] = 0; return y.at(p); })}; }
            return c; });
    }
    // ---- pad, crop_nd, crop_to, limit ----
    auto padcase = [&](const Sh &s, const std::vector<int> &p) {
        Sh os = s; for (size_t i = 0; i < s.size(); ++i) { os[i] += p[2 * i] + p[2 * i + 1]; if (os[i] < 1) return; }
        m.go("pad", str(s) + " by " + str(p), [&](DTYPE dt) { Call c; R x = src(dt, s); c.in = {x, i32({int(s.size()), 2}, p)}; c.par = {{"padding_value", pf(77)}}; c.w = {padr(x, p, 77)}; return c; });
    };
    for (auto &s : shapes(1, 2, {1, 2, 3})) each(Sh(s.size() * 2, 5), [&](const Sh &k) { std::vector<int> p; for (int x : k) p.push_back(x - 2); padcase(s, p); });
    for (auto &s : shapes(3, 3, {1, 3})) each(Sh(6, 3), [&](const Sh &k) { std::vector<int> p; for (int x : k) p.push_back(x - 1); padcase(s, p); });
    for (auto &s : {Sh{1, 2, 3, 2}, Sh{2, 1, 1, 3}, Sh{2, 3, 2, 1}, Sh{1, 3, 4, 9}}) each(Sh(8, 3), [&](const Sh &k) { std::vector<int> p; int nz = 0; for (int x : k) { p.push_back(x - 1); nz += x != 1; } if (nz > (th ? 8 : 5)) return; padcase(s, p); });
    for (auto &s : {Sh{1, 2, 3, 9}, Sh{2, 5, 9, 3}, Sh{1, 3, 17, 4}}) for (int t = 0; t <= 2; ++t) for (int b = 0; b <= 2; ++b) for (int l = -1; l <= 3; ++l) for (int r = -1; r <= 3; ++r) { padcase(s, {0, 0, 0, 0, t, b, l, r}); padcase(s, {0, 0, t, b, l, r, 0, 0}); }
    for (auto &s : shapes(1, 3, {2, 3})) each(Sh(s.size(), 6), [&](const Sh &k) {
        Sh z; for (int x : k) z.push_back(x - 1);
        m.go("crop_nd", str(s) + " size " + str(z), [&](DTYPE dt) {
            Call c; R x = src(dt, s); c.in = {x, i32(z)}; std::vector<int> p; for (size_t i = 0; i < s.size(); ++i) { int t = z[i] <= 0 ? 0 : (z[i] - s[i]) / 2; p.push_back(t); p.push_back(z[i] <= 0 ? 0 : z[i] - s[i] - t); } c.w = {padr(x, p, 0)}; return c; });
        each(Sh(s.size(), 4), [&](const Sh &h) {
            Sh sh; for (int x : h) sh.push_back(x - 1);
            if (s.size() == 3 && (k[0] + h[1]) % 3) return;
            m.go("crop_nd", str(s) + " size " + str(z) + " shift " + str(sh), [&](DTYPE dt) {
                Call c; R x = src(dt, s); c.in = {x, i32(z)}; c.par = {{"shift", pv(sh)}}; std::vector<int> p; for (size_t i = 0; i < s.size(); ++i) { p.push_back(-sh[i]); p.push_back(z[i] <= 0 ? sh[i] : sh[i] + z[i] - s[i]); } c.w = {padr(x, p, 0)}; return c; });
        });
        m.go("_limit", str(s) + " shape " + str(z), [&](DTYPE dt) {
            Call c; R x = src(dt, s); c.in = {x}; c.par = {{"shape", pv(z)}}; std::vector<int> p; for (size_t i = 0; i < s.size(); ++i) { int d = z[i] <= 0 || s[i] <= z[i] ? 0 : z[i] - s[i]; p.push_back(d / 2); p.push_back(d - d / 2); } c.w = {padr(x, p, 0)}; return c; });
        if (s.size() > 1) { Sh z1(z.begin() + 1, z.end()); m.go("_limit", str(s) + " shape " + str(z1), [&](DTYPE dt) {
            Call c; R x = src(dt, s); c.in = {x}; c.par = {{"shape", pv(z1)}}; std::vector<int> p = {0, 0}; for (size_t i = 1; i < s.size(); ++i) { int d = z[i] <= 0 || s[i] <= z[i] ? 0 : z[i] - s[i]; p.push_back(d / 2); p.push_back(d - d / 2); } c.w = {padr(x, p, 0)}; return c; }); }
    });
    for (auto &s : {Sh{2, 3, 3}, Sh{1, 2, 4, 5}, Sh{3, 4}}) for (int ax = -int(s.size()) - 1; ax <= int(s.size()); ++ax) for (int o1 = 0; o1 < 3; ++o1) for (int o2 = 0; o2 < 2; ++o2) for (int less = 0; less <= 2; ++less) for (int give = 0; give < 2; ++give)
        m.go("crop_to", str(s) + " axis " + std::to_string(ax) + " off " + std::to_string(o1) + "," + std::to_string(o2) + " less " + std::to_string(less) + (give ? "" : " none"), [&](DTYPE dt) {
            Call c; int r = int(s.size()), d = ax < 0 ? ax + r : ax; c.legal = d >= 0 && d < r; R x = src(dt, s); Sh ys = s; for (int i = 0; i < r; ++i) ys[i] = std::max(1, ys[i] - less); c.in = {x, src(dt, ys)}; c.par = {{"axis", pi(ax)}};
            if (c.legal) { std::vector<int> of; for (int i = d; i < r; ++i) of.push_back(give ? (i % 2 ? o1 : o2) : 0); if (give) c.par.push_back({"offset", pv(of)}); std::vector<int> p(2 * d, 0); for (int i = d; i < r; ++i) { p.push_back(-of[i - d]); p.push_back(ys[i] - s[i] + of[i - d]); } c.w = {padr(x, p, 0)}; }
            return c; });
    // ---- dimshuffle ----
    for (auto &s : s3) for (int d = -1; d <= int(s.size()); ++d) for (int len = 1; len <= 3; ++len) each(Sh(len, d >= 0 && d < int(s.size()) ? s[d] + 2 : 1), [&](const Sh &k) {
        std::vector<int> sh; bool legal = d >= 0 && d < int(s.size()); for (int x : k) { sh.push_back(x - 1); if (legal && (x - 1 < 0 || x - 1 >= s[d])) legal = false; }
        if (d < 0) return;
        m.go("_dimshuffle", str(s) + " dim " + std::to_string(d) + " by " + str(sh), [&](DTYPE dt) { Call c; c.legal = legal; R x = src(dt, s); c.in = {x}; c.par = {{"dim", pi(d)}, {"shuffle", pv(sh)}}; if (legal) c.w = {takeax(x, d, sh)}; return c; });
    });
    // ---- space/batch ----
    for (int n = 1; n <= 2; ++n) for (int ch = 1; ch <= 2; ++ch) for (int h = 1; h <= 4; ++h) for (int w = 1; w <= 4; ++w) for (int bh = 1; bh <= 3; ++bh) for (int bw = 1; bw <= 3; ++bw) for (int pt = 0; pt <= 2; ++pt) for (int pl = 0; pl <= 1; ++pl) for (int pb_ = 0; pb_ <= 1; ++pb_) {
        int pr = pl ^ pb_; int H = h + pt + pb_, W = w + pl + pr;
        if (H % bh || W % bw) continue;
        std::ostringstream d; d << str({n, ch, h, w}) << " block " << bh << "," << bw << " pad " << pt << "," << pb_ << "," << pl << "," << pr;
        m.go("space_to_batch4d", d.str(), [&](DTYPE dt) {
            Call c; R x = src(dt, {n, ch, h, w}); c.in = {x}; c.par = {{"padding", p42({pt, pb_, pl, pr})}, {"block_shape", pv({bh, bw})}}; R y = padr(x, {0, 0, 0, 0, pt, pb_, pl, pr}, 0);
            c.w = {build(dt, {n * bh * bw, ch, H / bh, W / bw}, [&](const Sh &q) { int b = q[0] / n, nn = q[0] % n; return y.at({nn, q[1], q[2] * bh + b / bw, q[3] * bw + b % bw}); })}; return c; });
        int N = n * bh * bw;
        if (h * bh - pt - pb_ < 1 || w * bw - pl - pr < 1) continue;
        m.go("batch_to_space4d", d.str(), [&](DTYPE dt) {
            Call c; R x = src(dt, {N, ch, h, w}); c.in = {x}; c.par = {{"crop", p42({pt, pb_, pl, pr})}, {"block_shape", pv({bh, bw})}};
            R y = build(dt, {n, ch, h * bh, w * bw}, [&](const Sh &q) { int b = (q[2] % bh) * bw + q[3] % bw; return x.at({b * n + q[0], q[1], q[2] / bh, q[3] / bw}); });
            c.w = {padr(y, {0, 0, 0, 0, -pt, -pb_, -pl, -pr}, 0)}; return c; });
    }
    // ---- constant_of_shape, range, divided ----
    for (auto &s : shapes(1, 3, {1, 2, 3, 5})) {
        for (auto dt : {ts::FLOAT32, ts::INT32, ts::UINT8, ts::INT64, ts::FLOAT64, ts::INT16}) if (take("constant_of_shape", [&] { return std::string(ts::type_str(dt)) + str(s); })) {
            R w(dt, s); for (auto &v : w.v) v = 7;
            J.want("op=constant_of_shape;" + std::string(ts::type_str(dt)) + str(s), J.call("constant_of_shape", {{"value", make(R(dt, {1}, {7}))}}, {i32(s)}), {w});
        }
        m.go("constant_of_shape", str(s) + " default", [&](DTYPE) { Call c; c.in = {i32(s)}; c.w = {R(ts::FLOAT32, s)}; return c; });
    }
    for (auto &s : {Sh{-1}, Sh{-2, 1}, Sh{2, -1}, Sh{3, 1, -4}}) if (take("constant_of_shape", [&] { return "negative size " + str(s); })) J.rejected("op=constant_of_shape;negative size", J.call("constant_of_shape", {}, {i32(s)}));
    for (auto dt : {ts::INT32, ts::FLOAT32, ts::UINT8}) if (take("range", [&] { return std::string("delta 0 "); })) J.rejected("op=range;delta 0", J.call("range", {}, {R(dt, {}, {0}), R(dt, {}, {3}), R(dt, {}, {0})}));
    for (auto dt : {ts::INT32, ts::FLOAT32, ts::INT64, ts::INT8}) for (int a = -3; a <= 4; ++a) for (int b = -3; b <= 6; ++b) for (int dl = -3; dl <= 3; ++dl) if (dl) {
        std::ostringstream d; d << ts::type_str(dt) << " " << a << ".." << b << " by " << dl;
        if (!take("range", [&] { return d.str(); })) continue;
        std::vector<double> v; if (dl > 0) for (int x = a; x < b; x += dl) v.push_back(x); else for (int x = a; x > b; x += dl) v.push_back(x);
        J.want("op=range;" + d.str(), J.call("range", {}, {R(dt, {}, {double(a)}), R(dt, {}, {double(b)}), R(dt, {}, {double(dl)})}), {R(dt, {int(v.size())}, v)});
    }
    for (auto &s : all) each(Sh(std::min<size_t>(s.size(), 2), 4), [&](const Sh &k) {
        std::vector<int> z; for (int x : k) z.push_back(x + 1);
        m.go("divided", str(s) + " by " + str(z), [&](DTYPE dt) { Call c; R x = src(dt, s); c.in = {x}; c.par = {{"size", pv(z)}, {"padding_value", pf(7)}}; std::vector<int> p(2 * s.size(), 0); for (size_t i = 0; i < z.size(); ++i) { size_t d = s.size() - z.size() + i; p[2 * d + 1] = (s[d] + z[i] - 1) / z[i] * z[i] - s[d]; } c.w = {padr(x, p, 7)}; return c; });
    });
    finish();
}
