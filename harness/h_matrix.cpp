// Matrix products against the triple loop.
#include "ops.h"
using namespace vf;
using namespace ts;
namespace {
    R mat(DTYPE dt, const Sh &s, int k) { R r(dt, s); for (size_t i = 0; i < r.v.size(); ++i) r.v[i] = double((int(i) * 7 + k * 5 + int(i) / 11) % 13 - 6); return r; }
    // rows x depth times depth x columns, operands given in row-major order, possibly transposed
    R product(const R &a, const R &b, int M, int N, int K, bool ta, bool tb) {
        R o(a.dt, {M, N});
        for (int m = 0; m < M; ++m) for (int n = 0; n < N; ++n) { double s = 0; for (int k = 0; k < K; ++k) s += (ta ? a.v[k * M + m] : a.v[m * K + k]) * (tb ? b.v[n * K + k] : b.v[k * N + n]); o.v[m * N + n] = s; }
        return o;
    }
}
int main(int argc, const char **argv) {
    parse(argc, argv); quiet(); setenv("TENNIS_NUMBER_THREADS", "1", 1);
    Bench bench; Judge J(bench);
    const bool th = S().thorough;
    const int top = th ? 40 : 24;
    for (auto dt : {FLOAT32, FLOAT64}) for (int M = 1; M <= top; ++M) for (int N = 1; N <= top; ++N) for (int K = 1; K <= top; ++K) for (int t = 0; t < 2; ++t) {
        if (!take("inner_prod", [&] { return std::string(type_str(dt)) + " M " + std::to_string(M) + " N " + std::to_string(N) + " K " + std::to_string(K) + (t ? " transposed" : ""); })) continue;
        R a = mat(dt, {M, K}, 1), b = mat(dt, t ? Sh{N, K} : Sh{K, N}, 2);
        J.want("inner_prod;" + std::string(type_str(dt)) + (t ? ";transposed" : ""), J.call("inner_prod", {{"transpose", pb(t)}}, {a, b}), {product(a, b, M, N, K, false, t)});
    }
    // a left operand of more dimensions is flattened after its first one
    for (auto dt : {FLOAT32, FLOAT64}) for (auto &s : shapes(3, 4, {1, 2, 3, 5})) for (int N : {1, 2, 8, 9}) for (int t = 0; t < 3; ++t) {
        if (!take("inner_prod flattened", [&] { return std::string(type_str(dt)) + " x " + str(s) + " N " + std::to_string(N) + " transpose " + std::to_string(t); })) continue;
        int K = int(cnt(s)) / s[0]; R a = mat(dt, s, 1), b = mat(dt, t == 1 ? Sh{N, K} : Sh{K, N}, 2);
        std::vector<P> p; if (t < 2) p = {{"transpose", pb(t)}};
        J.want("inner_prod;flattened", J.call("inner_prod", p, {a, b}), {product(a, b, s[0], N, K, false, t == 1)});
    }
    const std::vector<int> few = th ? std::vector<int>{1, 2, 3, 4, 5, 7, 8, 9, 16, 17} : std::vector<int>{1, 2, 3, 5, 8, 9};
    const double al[] = {1, 0.5, 2, 1, 0, -1, 1}, be[] = {1, 1, 0.5, 0, 1, 2, 1};
    for (auto dt : {FLOAT32, FLOAT64}) for (int M : few) for (int N : few) for (int K : few) for (int t = 0; t < 4; ++t) for (int c = 0; c < 6; ++c) for (int ab = 0; ab < 7; ++ab) {
        if (!take("gemm", [&] { return std::string(type_str(dt)) + " M " + std::to_string(M) + " N " + std::to_string(N) + " K " + std::to_string(K) + " transpositions " + std::to_string(t) + " third operand " + std::to_string(c) + " coefficients " + std::to_string(ab); })) continue;
        bool ta = t & 1, tb = t & 2;
        Sh sc[] = {{M, N}, {1, N}, {M, 1}, {N}, {1}, {}};
        R a = mat(dt, ta ? Sh{K, M} : Sh{M, K}, 1), b = mat(dt, tb ? Sh{N, K} : Sh{K, N}, 2), C = mat(dt, sc[c], 3);
        std::vector<P> p;
        if (ab < 6) { p = {{"alpha", pf(float(al[ab]))}, {"beta", pf(float(be[ab]))}, {"transA", pb(ta)}, {"transB", pb(tb)}}; }
        else { if (ta) p.push_back({"transA", pb(true)}); if (tb) p.push_back({"transB", pb(true)}); }
        R w = product(a, b, M, N, K, ta, tb);
        Sh cs = sc[c]; while (cs.size() < 2) cs.insert(cs.begin(), 1);
        for (int m = 0; m < M; ++m) for (int n = 0; n < N; ++n) { double cv = C.v[(cs[0] == 1 ? 0 : m) * cs[1] + (cs[1] == 1 ? 0 : n)]; w.v[m * N + n] = al[ab] * w.v[m * N + n] + be[ab] * cv; }
        J.want("gemm;" + std::string(type_str(dt)) + ";third operand of rank " + std::to_string(sc[c].size()), J.call("gemm", p, {a, b, C}), {w});
    }
    // matmul: the second operand is one matrix, the first one may have any number of leading dimensions
    for (auto dt : {FLOAT32, FLOAT64}) for (auto &s : shapes(1, 4, {1, 2, 3, 5})) for (int N : {1, 2, 3, 8, 9, 17}) {
        if (!take("matmul", [&] { return std::string(type_str(dt)) + " a " + str(s) + " N " + std::to_string(N); })) continue;
        int K = s.back(), M = int(cnt(s)) / K; R a = mat(dt, s, 1), b = mat(dt, {K, N}, 2);
        R w = product(a, b, M, N, K, false, false); w.s = s; w.s.back() = N;
        J.want("matmul;rank " + std::to_string(s.size()), J.call("matmul", {}, {a, b}), {w});
    }
    for (auto dt : {FLOAT32, FLOAT64}) for (int M : few) for (int N : few) for (int K : few) {
        if (!take("matmul of two images", [&] { return std::string(type_str(dt)) + " M " + std::to_string(M) + " N " + std::to_string(N) + " K " + std::to_string(K); })) continue;
        R a = mat(dt, {1, 1, M, K}, 1), b = mat(dt, {1, 1, K, N}, 2);
        R w = product(a, b, M, N, K, false, false); w.s = {1, 1, M, N};
        J.want("matmul;images", J.call("matmul", {}, {a, b}), {w});
    }
    // operands that do not fit together
    for (int M : {1, 2, 8}) for (int N : {1, 2, 9}) for (int K : {1, 2, 3, 8}) for (int d : {-1, 1, 2}) {
        if (K + d < 1) continue;
        auto name = [&] { return "M " + std::to_string(M) + " N " + std::to_string(N) + " K " + std::to_string(K) + " and " + std::to_string(K + d); };
        R a = mat(FLOAT32, {M, K}, 1), at = mat(FLOAT32, {K, M}, 1), b = mat(FLOAT32, {K + d, N}, 2), bt = mat(FLOAT32, {N, K + d}, 2), c = mat(FLOAT32, {N}, 3);
        for (int t = 0; t < 4; ++t) {
            if (t < 2 && take("refused inner_prod", name)) J.rejected("inner_prod;refused", J.call("inner_prod", {{"transpose", pb(t)}}, {a, t ? bt : b}));
            if (take("refused gemm", name)) J.rejected("gemm;refused", J.call("gemm", {{"transA", pb(t & 1)}, {"transB", pb(t & 2)}}, {t & 1 ? at : a, t & 2 ? bt : b, c}));
        }
        if (take("refused matmul", name)) J.rejected("matmul;refused", J.call("matmul", {}, {a, b}));
        if (take("refused matmul", name)) J.rejected("matmul;refused", J.call("matmul", {}, {mat(FLOAT32, {2, M, K}, 1), b}));
        if (take("refused matmul", name)) J.rejected("matmul;refused", J.call("matmul", {}, {mat(FLOAT32, {1, 1, M, K}, 1), mat(FLOAT32, {1, 1, K + d, N}, 1)}));
    }
    auto no = [&](const std::string &op, const std::vector<P> &p, const std::vector<R> &in, const std::string &what) { if (take("refused " + op, [&] { return what; })) J.rejected(op + ";refused " + what, J.call(op, p, in)); };
    for (auto dt : {FLOAT32, FLOAT64}) {
        auto od = dt == FLOAT32 ? FLOAT64 : FLOAT32;
        no("inner_prod", {}, {mat(dt, {2, 3}, 1), mat(od, {3, 2}, 1)}, "mixed types");
        no("matmul", {}, {mat(dt, {2, 3}, 1), mat(od, {3, 2}, 1)}, "mixed types");
        no("gemm", {}, {mat(dt, {2, 3}, 1), mat(od, {3, 2}, 1), mat(dt, {2}, 1)}, "mixed types");
        no("gemm", {}, {mat(dt, {2, 3}, 1), mat(dt, {3, 2}, 1), mat(od, {2}, 1)}, "third operand of another type");
        for (Sh s : {Sh{3}, Sh{2, 3}, Sh{3, 4}, Sh{1, 3}, Sh{3, 1}, Sh{4, 2}, Sh{1, 1, 4}}) no("gemm", {}, {mat(dt, {2, 3}, 1), mat(dt, {3, 4}, 1), mat(dt, s, 1)}, "third operand " + str(s) + " for [2,4]");
        for (Sh s : {Sh{}, Sh{3}, Sh{6}, Sh{1, 2, 3}}) no("gemm", {}, {mat(dt, s, 1), mat(dt, {3, 4}, 1), mat(dt, {4}, 1)}, "first operand " + str(s));
        for (Sh s : {Sh{}, Sh{3}, Sh{12}, Sh{1, 3, 4}}) { no("gemm", {}, {mat(dt, {2, 3}, 1), mat(dt, s, 1), mat(dt, {4}, 1)}, "second operand " + str(s)); no("inner_prod", {}, {mat(dt, {2, 3}, 1), mat(dt, s, 1)}, "second operand " + str(s)); no("inner_prod", {{"transpose", pb(true)}}, {mat(dt, {2, 3}, 1), mat(dt, s, 1)}, "second operand " + str(s)); no("matmul", {}, {mat(dt, {2, 3}, 1), mat(dt, s, 1)}, "second operand " + str(s)); }
        no("inner_prod", {}, {mat(dt, {}, 1), mat(dt, {1, 2}, 1)}, "scalar first operand");
        no("matmul", {}, {mat(dt, {}, 1), mat(dt, {1, 2}, 1)}, "scalar first operand");
        for (Sh s : {Sh{2, 1, 2, 3}, Sh{1, 2, 2, 3}, Sh{2, 2, 2, 3}}) { no("matmul", {}, {mat(dt, s, 1), mat(dt, {1, 1, 3, 2}, 1)}, "batch " + str(s)); Sh q = s; q[2] = 3; q[3] = 2; no("matmul", {}, {mat(dt, {1, 1, 2, 3}, 1), mat(dt, q, 1)}, "batch of second " + str(q)); }
        for (Sh s : {Sh{3}, Sh{2, 3}, Sh{1, 2, 3}, Sh{1, 1, 1, 2, 3}}) no("matmul", {}, {mat(dt, s, 1), mat(dt, {1, 1, 3, 2}, 1)}, "image as second operand of " + str(s));
    }
    finish();
}
