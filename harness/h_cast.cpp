// Element type conversion: every pair of types, every half pattern.
#include "ops.h"
#include "backend/name.h"
#include <limits>
using namespace vf;
using namespace ts;
namespace {
    // an independent reading of the half format
    double half(unsigned b) {
        int e = int(b >> 10 & 31), f = int(b & 1023); double s = b & 0x8000 ? -1 : 1;
        if (e == 31) return f ? std::numeric_limits<double>::quiet_NaN() : s * std::numeric_limits<double>::infinity();
        return s * (e ? std::ldexp(1024 + f, e - 25) : std::ldexp(f, -24));
    }
    float bitsf(uint32_t u) { float f; memcpy(&f, &u, 4); return f; }
    uint32_t fbits(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }
    struct Kind { DTYPE d; int cls; int bytes; long long lo; unsigned long long hi; };   // cls 0 integer, 1 float, 2 half, 3 boolean
    const std::vector<Kind> kinds = {
        {INT8, 0, 1, -128, 127}, {UINT8, 0, 1, 0, 255}, {INT16, 0, 2, -32768, 32767}, {UINT16, 0, 2, 0, 65535}, {INT32, 0, 4, -2147483648LL, 2147483647}, {UINT32, 0, 4, 0, 4294967295ULL},
        {INT64, 0, 8, std::numeric_limits<long long>::min(), 9223372036854775807ULL}, {UINT64, 0, 8, 0, std::numeric_limits<unsigned long long>::max()},
        {CHAR8, 0, 1, -128, 127}, {CHAR16, 0, 2, 0, 65535}, {CHAR32, 0, 4, 0, 4294967295ULL}, {FLOAT16, 2, 2, 0, 0}, {FLOAT32, 1, 4, 0, 0}, {FLOAT64, 1, 8, 0, 0}, {BOOLEAN, 3, 1, 0, 1}};
    // a number: an integer of any type is kept exactly, everything else as a double
    struct N { bool isint; bool neg; unsigned long long m; double d; };
    N in(long long x) { return {true, x < 0, x < 0 ? 0ULL - (unsigned long long) x : (unsigned long long) x, double(x)}; }
    N un(unsigned long long x) { return {true, false, x, double(x)}; }
    N fl(double x) { return {false, x < 0, 0, x}; }
    template<typename T> void st(unsigned char *p, T v) { memcpy(p, &v, sizeof v); }
    // stores n as an element of type k, if that type holds it exactly
    bool store(const Kind &k, const N &n, unsigned char *p) {
        if (k.cls == 0) {
            unsigned long long u = n.neg ? 0ULL - n.m : n.m;
            if (!n.isint || (n.neg ? k.lo >= 0 || n.m > 0ULL - (unsigned long long) k.lo : n.m > k.hi)) return false;
            memcpy(p, &u, k.bytes); return true;
        }
        if (k.cls == 3) { if (!n.isint || n.m > 1 || n.neg) return false; *p = (unsigned char) n.m; return true; }
        double d = n.d; if (n.isint && (n.m > (1ULL << 53))) return false;
        if (k.d == FLOAT64) { st<double>(p, d); return true; }
        if (k.d == FLOAT32) { if (!(double(float(d)) == d || d != d)) return false; st<float>(p, float(d)); return true; }
        static const std::map<double, unsigned> codes = [] { std::map<double, unsigned> m; for (unsigned b = 0; b < 0x7c00; ++b) m[half(b)] = b; return m; }();
        auto it = codes.find(std::fabs(d)); if (it == codes.end()) return false;
        st<uint16_t>(p, uint16_t(it->second | (std::signbit(d) ? 0x8000 : 0))); return true;
    }
    N load(const Kind &k, const unsigned char *p) {
        if (k.cls == 0) {
            unsigned long long u = 0; memcpy(&u, p, k.bytes);
            if (k.lo < 0) { int sh = 64 - 8 * k.bytes; return in((long long) (u << sh) >> sh); }
            return un(u);
        }
        if (k.cls == 3) return un(*p);
        if (k.d == FLOAT64) { double d; memcpy(&d, p, 8); return fl(d); }
        if (k.d == FLOAT32) { float d; memcpy(&d, p, 4); return fl(d); }
        uint16_t b; memcpy(&b, p, 2); return fl(half(b));
    }
    // whether `got` is a right result of converting n to k; unspecified conversions are marked by returning 2
    int right(const Kind &k, const N &n, const N &got) {
        if (k.cls == 3) return got.isint && !got.neg && got.m == (n.isint ? n.m != 0 : n.d != 0);
        if (k.cls == 0) {
            if (n.isint) {   // the usual wrap around
                unsigned long long u = n.neg ? 0ULL - n.m : n.m; unsigned char b[8]; memcpy(b, &u, 8); N w = load(k, b); return w.neg == got.neg && w.m == got.m;
            }
            if (!(n.d > -9.3e18 && n.d < 1.9e19)) return 2;
            double t = std::trunc(n.d);
            if (t < double(k.lo) || t > double(k.hi) || (t == double(k.hi) && k.bytes == 8)) return 2;
            return (t < 0 ? got.neg && double(got.m) == -t : !got.neg && double(got.m) == t);
        }
        double d = n.d;
        if (k.cls == 2 && d != d) return got.d != got.d || std::fabs(got.d) == 65504;
        if (d != d) return got.d != got.d;
        if (k.d == FLOAT64) return n.isint ? std::fabs((got.neg ? -1 : 1) * got.d) >= 0 && got.d == (n.neg ? -double(n.m) : double(n.m)) : got.d == d && std::signbit(got.d) == std::signbit(d);
        if (k.d == FLOAT32) { float f = n.isint ? (n.neg ? -float(n.m) : float(n.m)) : float(d); return got.d == double(f) && (f != 0 || std::signbit(got.d) == std::signbit(d) || n.isint); }
        if (n.isint) d = n.neg ? -double(n.m) : double(n.m);
        // half: exact when it can be, otherwise one of the two neighbours; what is too large or no number becomes the largest (or infinity)
        double g = got.d; if (g != g) return 0;
        if (d == 0) return g == 0;
        if (std::signbit(g) != std::signbit(d)) return 0;
        double a = std::fabs(d), h = std::fabs(g);
        if (a >= 65504) return h == 65504 || (a > 65504 && std::isinf(h));
        double below = a < std::ldexp(1, -14) ? std::ldexp(std::floor(std::ldexp(a, 24)), -24) : 0;
        if (a >= std::ldexp(1, -14)) { int e; std::frexp(a, &e); double u = std::ldexp(1, e - 11); below = std::floor(a / u) * u; if (below == a) return h == a; return h == below || h == below + u; }
        if (below == a) return h == a;
        return h == below || h == below + std::ldexp(1, -24);
    }
    std::string text(const N &n) { std::ostringstream o; o.precision(17); if (n.isint) o << (n.neg ? "-" : "") << n.m; else o << n.d; return o.str(); }
    Tensor raw(const Kind &k, const Sh &s, const std::vector<unsigned char> &b) { Tensor t(MemoryDevice(CPU), k.d, Shape(s.begin(), s.end())); memcpy(t.data(), b.data(), b.size()); return t; }
}
int main(int argc, const char **argv) {
    parse(argc, argv); quiet(); setenv("TENNIS_NUMBER_THREADS", "1", 1);
    Bench bench;
    const bool th = S().thorough;
    // values: every 8 and 16 bit integer, the neighbourhood of every power of two, some fractions
    std::vector<N> pool;
    for (int i = -32768; i < 65536; ++i) pool.push_back(in(i));
    for (int p = 16; p < 64; ++p) for (int d = -2; d <= 2; ++d) { unsigned long long v = (1ULL << p) + (unsigned long long) (long long) d; pool.push_back(un(v)); if (v <= (1ULL << 63)) pool.push_back({true, true, v, -double(v)}); }
    for (int d = 1; d < 4; ++d) pool.push_back(un(0ULL - (unsigned long long) d));
    std::vector<N> fp;
    for (int e = -150; e <= 130; ++e) for (double m : {1., 1.25, 1.5, 1.999}) for (int s : {1, -1}) { double x = s * std::ldexp(m, e); fp.push_back(fl(x)); fp.push_back(fl(double(float(x)))); }
    for (double x : {0., -0., 0.1, -0.1, 0.5, -0.5, 0.999999, 126.99, 127.5, 128.5, -128.5, 255.5, 32767.25, 65535.75, 2147483647., 2147483648., -2147483648., 4294967295., 1e15, 9.0071992547409915e15, 65504., 65519., 65520., 65536., 1e5, 1e300, -1e300, 1e-300, double(INFINITY), -double(INFINITY), double(NAN)}) fp.push_back(fl(x));
    for (unsigned b = 0; b < 65536; ++b) fp.push_back(fl(half(b)));
    const int chunk = 509;
    auto convert = [&](int way, DTYPE to, const Tensor &t, Tensor &out) {
        try {
            if (way == 0) out = tensor::cast(to, t);
            else if (way == 1) out = tensor::clone(to, t);
            else { auto o = bench.run(name::layer::cast(), {{"dtype", pi(to)}}, {t}); if (!o.ok) { fail("cast;refused", o.err); return false; } out = o.t[0]; }
            return true;
        } catch (const Exception &e) { fail("cast;refused", e.what()); return false; }
    };
    for (auto &from : kinds) {
        std::vector<unsigned char> bytes;
        for (auto *src : {&pool, &fp}) for (auto &n : *src) { if (from.cls == 2 && src == &pool && n.m > 2048) continue; if (from.cls == 2 && src == &fp && (&n - fp.data()) < long(fp.size()) - 65536) continue; unsigned char b[8]; if (from.cls == 2 && src == &fp) { uint16_t h = uint16_t(&n - &fp[fp.size() - 65536]); memcpy(b, &h, 2); } else if (!store(from, n, b)) continue; bytes.insert(bytes.end(), b, b + from.bytes); }
        long total = long(bytes.size()) / from.bytes;
        for (auto &to : kinds) for (long at = 0; at < total; at += chunk) for (int way = 0; way < (at == 0 || th ? 3 : 1); ++way) {
            long n = std::min<long>(chunk, total - at);
            if (!take("conversion", [&] { return std::string(type_str(from.d)) + " to " + type_str(to.d) + ", values " + std::to_string(at) + " to " + std::to_string(at + n - 1) + " route " + std::to_string(way); })) continue;
            std::vector<unsigned char> part(bytes.begin() + at * from.bytes, bytes.begin() + (at + n) * from.bytes);
            Tensor x = raw(from, {int(n)}, part), y;
            if (!convert(way, to.d, x, y)) continue;
            step();
            std::string key = std::string("conversion;") + type_str(from.d) + " to " + type_str(to.d);
            if (memcmp(x.data(), part.data(), part.size())) fail(key, "the source was changed");
            if (y.dtype() != to.d || y.dims() != 1 || y.size(0) != int(n)) { fail(key, "gave type " + std::string(type_str(y.dtype())) + " count " + std::to_string(y.count())); continue; }
            state(hash_bytes(y.data(), size_t(n) * to.bytes));
            auto p = (const unsigned char *) y.data();
            for (long i = 0; i < n; ++i) {
                N a = load(from, part.data() + i * from.bytes), b = load(to, p + i * to.bytes);
                if (from.d == to.d ? memcmp(part.data() + i * from.bytes, p + i * to.bytes, from.bytes) != 0 : right(to, a, b) == 0) {
                    std::string sub = from.cls == 2 || to.cls == 2 ? (std::isfinite(a.d) ? a.d != 0 && std::fabs(a.d) < std::ldexp(1, -14) ? ";subnormal" : "" : ";not finite") : "";
                    fail(key + sub, text(a) + " became " + text(b)); break; }
            }
        }
    }
    // every half pattern survives the way through float and double; floats around every half go to a neighbour
    for (int dbl = 0; dbl < 2; ++dbl) for (unsigned at = 0; at < 65536; at += 256) if (take("half round trip", [&] { return std::string("patterns ") + std::to_string(at) + " to " + std::to_string(at + 255) + (dbl ? " through double" : " through float"); })) {
        const Kind &h = kinds[11]; std::vector<unsigned char> b; for (unsigned i = 0; i < 256; ++i) { uint16_t u = uint16_t(at + i); b.push_back(u & 255); b.push_back(u >> 8); }
        Tensor x = raw(h, {256}, b), y = tensor::cast(FLOAT16, tensor::cast(dbl ? FLOAT64 : FLOAT32, x)); step(2);
        const uint16_t *p; bool done = false;
        p = (const uint16_t *) y.data();
        state(hash_bytes(p, 512));
        for (unsigned i = 0; i < 256 && !done; ++i) { unsigned u = at + i; if (!std::isfinite(half(u))) continue; if (p[i] != u) { fail("half round trip", "pattern " + std::to_string(u) + " came back as " + std::to_string(p[i])); done = true; } }
    }
    auto around = [&](const std::vector<float> &v, const std::string &what) {
        std::vector<unsigned char> b(v.size() * 4); memcpy(b.data(), v.data(), b.size());
        Tensor x = raw(kinds[12], {int(v.size())}, b), y = tensor::cast(FLOAT16, x); step();
        auto p = (const uint16_t *) y.data(); state(hash_bytes(p, v.size() * 2));
        for (size_t i = 0; i < v.size(); ++i) if (right(kinds[11], fl(v[i]), fl(half(p[i]))) != 1) { std::ostringstream o; o.precision(9); o << v[i] << " (bits " << fbits(v[i]) << ") became half pattern " << p[i] << " = " << half(p[i]); fail("float to half" + what + (std::isfinite(v[i]) ? std::fabs(v[i]) < 6.1e-5 ? ";subnormal" : "" : ";not finite"), o.str()); break; }
    };
    for (unsigned at = 0; at < 31744; at += 128) for (int sg = 0; sg < 2; ++sg) if (take("float around a half", [&] { return std::string("patterns ") + std::to_string(at) + " to " + std::to_string(at + 127) + (sg ? " negative" : ""); })) {
        std::vector<float> v;
        for (unsigned u = at; u < at + 128; ++u) {
            float a = float(half(u)), z = u == 31743 ? 65536.f : float(half(u + 1)), m = (a + z) / 2;
            for (float q : {a, z, m}) for (int d = -2; d <= 2; ++d) { uint32_t bits = fbits(q); if (d < 0 && bits < uint32_t(-d)) continue; v.push_back(bitsf(bits + uint32_t(d))); }
        }
        if (sg) for (auto &q : v) q = -q;
        around(v, "");
    }
    for (uint32_t hi = 0; hi < 65536; hi += th ? 1 : 64) if (take("float to half sweep", [&] { return std::string("floats with upper half ") + std::to_string(hi); })) {
        std::vector<float> v; for (uint32_t l = 0; l < 65536; l += th ? 1 : 257) v.push_back(bitsf(hi << 16 | l));
        around(v, "");
    }
    // shapes and the loop's tail; empty tensors
    std::vector<Sh> forms = shapes(0, 4, {1, 2, 3}); for (int n = 0; n < 20; ++n) forms.push_back({n}); for (Sh s : {Sh{0, 3}, Sh{2, 0, 3}, Sh{3, 0}}) forms.push_back(s);
    for (auto &from : kinds) for (auto &to : kinds) for (auto &s : forms) if (take("conversion of a shape", [&] { return std::string(type_str(from.d)) + str(s) + " to " + type_str(to.d); })) {
        long n = cnt(s); std::vector<unsigned char> b; for (long i = 0; i < n; ++i) { unsigned char q[8]; store(from, in(from.cls == 3 ? i & 1 : i + 1), q); b.insert(b.end(), q, q + from.bytes); }
        Tensor x = raw(from, s, b), y; if (!convert(0, to.d, x, y)) continue; step();
        Sh g(y.sizes().begin(), y.sizes().end()); state(hash_str(str(g) + type_str(y.dtype())));
        if (y.dtype() != to.d || g != s) { fail("conversion of a shape", "gave " + std::string(type_str(y.dtype())) + str(g)); continue; }
        for (long i = 0; i < n; ++i) { N a = in(from.cls == 3 ? i & 1 : i + 1), q = load(to, (const unsigned char *) y.data() + i * to.bytes); if (right(to, a, q) != 1) { fail("conversion of a shape;" + std::string(type_str(to.d)), "element " + std::to_string(i) + " is " + text(q)); break; } }
    }
    // single values
    for (auto &from : kinds) for (double v : {0., 1., 2., -3., 100., 127., 255., 256., 65536., 2.5, 0.5, -0.25}) {
        N n = v == std::trunc(v) ? in((long long) v) : fl(v); unsigned char q[8]; if (!store(from, n, q)) continue;
        if (from.d == CHAR8) continue;    // text
        if (!take("single value", [&] { return std::string(type_str(from.d)) + " " + text(n); })) continue;
        Tensor x = raw(from, {1}, std::vector<unsigned char>(q, q + from.bytes)); step();
        std::string key = std::string("single value;") + type_str(from.d);
        try {
            if (tensor::to_int(x) != int(v)) fail(key, "to_int");
            if (v >= 0 && tensor::to_uint(x) != (unsigned) v) fail(key, "to_uint");
            if (tensor::to_float(x) != float(v)) fail(key, "to_float");
            if (tensor::to_double(x) != v) fail(key, "to_double");
            if (tensor::to_bool(x) != (v != 0)) fail(key + ";bool", "to_bool of " + text(n));
            if (tensor::array::to_int(x) != std::vector<int>{int(v)}) fail(key, "array to_int");
            if (tensor::array::to_long(x) != std::vector<int64_t>{int64_t(v)}) fail(key, "array to_long");
            if (v >= 0 && tensor::array::to_uint(x) != std::vector<uint32_t>{uint32_t(v)}) fail(key, "array to_uint");
            if (tensor::array::to_float(x) != std::vector<float>{float(v)}) fail(key, "array to_float");
            if (tensor::array::to_double(x) != std::vector<double>{v}) fail(key, "array to_double");
            if (tensor::array::to_bool(x) != std::vector<bool>{v != 0}) fail(key + ";bool", "array to_bool of " + text(n));
        } catch (const Exception &e) { fail(key, e.what()); }
        state(key + text(n));
    }
    struct T { const char *s; int i; float f; bool b; };
    for (auto &t : {T{"0", 0, 0, false}, T{"12", 12, 12, false}, T{"-7", -7, -7, false}, T{"2.5", 2, 2.5f, false}, T{"true", 0, 0, true}, T{"TRUE", 0, 0, true}, T{"True", 0, 0, true}, T{"false", 0, 0, false}, T{"1e2", 1, 100, false}, T{"", 0, 0, false}, T{"abc", 0, 0, false}})
        if (take("text", [&] { return std::string("\"") + t.s + "\""; })) {
            Tensor x = tensor::from(std::string(t.s)); step(); state(std::string("text") + t.s);
            try { if (tensor::to_string(x) != t.s || tensor::to_int(x) != t.i || tensor::to_float(x) != t.f || tensor::to_double(x) != double(t.f) || tensor::to_bool(x) != t.b) fail("text", std::string(t.s)); }
            catch (const Exception &e) { fail("text", e.what()); }
        }
    // sizes, names, and types that have no conversion
    std::set<std::string> names;
    for (int d = 0; d <= 32; ++d) if (take("type", [&] { return "type code " + std::to_string(d); })) {
        const int bytes[] = {0, 1, 1, 2, 2, 4, 4, 8, 8, 2, 4, 8, 8, 1, 2, 4, 1, 2, 4, 8, 16, 1, 4, 8, 16, 1, 1, 1, 1, 1, 1, 1, 1};
        const char *nm[] = {"void", "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "float16", "float32", "float64"};
        step(); state("type" + std::to_string(d));
        if (type_bytes(DTYPE(d)) != bytes[d]) fail("type;size", "type " + std::to_string(d) + " has " + std::to_string(type_bytes(DTYPE(d))) + " bytes");
        if (d < 12 && std::string(type_str(DTYPE(d))) != nm[d]) fail("type;name", std::string(nm[d]) + " is called " + type_str(DTYPE(d)));
        for (int e = 0; e <= 32; ++e) if (e != d && std::string(type_str(DTYPE(d))) == type_str(DTYPE(e))) fail("type;name", "types " + std::to_string(d) + " and " + std::to_string(e) + " share the name " + type_str(DTYPE(d)));
        for (int n : {1, 3, 8}) { Tensor t(MemoryDevice(CPU), DTYPE(d), {n}); if (t.proto().type_bytes() != bytes[d] || t.count() != n) fail("type;size", "a tensor of type " + std::to_string(d)); }
        bool known = false; for (auto &k : kinds) known |= k.d == d;
        if (tensor::support(DTYPE(d)) != known) fail("type;support", "type " + std::to_string(d));
        for (int e = 1; e <= 32; ++e) {
            bool other = false; for (auto &k : kinds) other |= k.d == e;
            if (e == d || (known && other) || d == 0) continue;
            Tensor t(MemoryDevice(CPU), DTYPE(d), {2}); memset(t.data(), 0, 2 * bytes[d]); bool thrown = false;
            try { tensor::cast(DTYPE(e), t); } catch (const Exception &) { thrown = true; }
            if (!thrown) fail("type;refused", "type " + std::to_string(d) + " was converted to " + std::to_string(e));
        }
    }
    finish();
}
