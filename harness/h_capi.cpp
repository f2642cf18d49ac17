// The C interface: every function with every combination of null, wrong and valid arguments, histories of handles, and user operators.
#include "hist.h"
#include "ops.h"
#include "modfmt.h"
#include <api/tennis.h>
#include <api/operator.h>
#include <api/intime.h>
#include "../src/api/plugin.h"
#include <frontend/intime.h>
#include <runtime/image_filter.h>
#include <runtime/program.h>
#include <compiler/argparse.h>
#include <global/operator_factory.h>
#include <module/menu.h>
#include <core/tensor_builder.h>
#include <thread>
#include <mutex>
#include <condition_variable>
#include <algorithm>
extern "C" { const char *__asan_default_options() { return "allocator_may_return_null=1:detect_leaks=0:max_allocation_size_mb=4096"; } }
using namespace vf;
namespace {
    typedef std::string Str; typedef std::vector<int> Ix;
    Str dir; Str path(const Str &n) { return dir + "/" + n; }
    Str hex(const void *p, size_t n) { static const char *d = "0123456789abcdef"; Str s; for (size_t i = 0; i < n; ++i) { unsigned char c = static_cast<const unsigned char *>(p)[i]; s += d[c >> 4]; s += d[c & 15]; } return s; }
    // what a tensor is, seen through the interface / directly
    Str see(ts_Tensor *t) { if (!t) return "null"; Str s; int n = ts_Tensor_fields_count(t); s = "n" + std::to_string(n); for (int i = 0; i < n; ++i) { ts_Tensor *f = ts_Tensor_field(t, i); if (!f) { s += "?"; continue; } s += " t" + std::to_string(int(ts_Tensor_dtype(f))) + "["; long c = 1; const int32_t *sh = ts_Tensor_shape(f); for (int d = 0; d < ts_Tensor_shape_size(f); ++d) { s += std::to_string(sh[d]) + ","; c *= sh[d]; } s += "]"; void *p = ts_Tensor_data(f); int w = ts::type_bytes(DTYPE(ts_Tensor_dtype(f))); if (c > 0 && p) s += hex(p, size_t(c * w)); else if (c > 0 && w) s += "nodata"; ts_free_Tensor(f); } return s; }
    Str see(const Tensor &t) { Str s = "n" + std::to_string(t.fields_count()); for (size_t i = 0; i < t.fields_count(); ++i) { Tensor f = t.field(int(i)); s += " t" + std::to_string(int(f.dtype())) + "["; long c = 1; for (auto d : f.sizes()) { s += std::to_string(d) + ","; c *= d; } s += "]"; int w = ts::type_bytes(f.dtype()); if (c > 0 && f.data()) s += hex(f.data(), size_t(c * w)); else if (c > 0 && w) s += "nodata"; } return s; }
    // ---- arguments: null, wrong, valid
    enum Q { BAD = 0, GOOD = 1, MAYBE = 2 };
    struct Pool { Str name; std::vector<Str> item; std::vector<Q> q; Pool() {} Pool(const Str &n) : name(n) {} Pool &add(const Str &i, Q v) { item.push_back(i); q.push_back(v); return *this; } size_t size() const { return item.size(); } };
    // ---- everything that exists throughout
    struct World {
        std::vector<ts_Tensor *> T; std::vector<Tensor> C; std::vector<Str> TS;   // handles, the same directly, and what they are
        std::vector<ts_Module *> M; std::vector<ts_Program *> P; std::vector<ts_Workbench *> W; std::vector<ts_ImageFilter *> F;
    } w;
    const int NONE = 0;
    Pool pt("tensor"), pm("module"), pp("program"), pw("workbench"), pf("filter");
    void tensor(const Str &n, const Tensor &c, Q q = MAYBE) {
        ts_Tensor *t = nullptr; int k = int(c.fields_count()); std::vector<ts_Tensor *> fs;
        for (int i = 0; i < k; ++i) { Tensor f = c.field(i); std::vector<int32_t> sh(f.sizes().begin(), f.sizes().end()); fs.push_back(ts_new_Tensor(sh.data(), int32_t(sh.size()), ts_DTYPE(f.dtype()), f.data())); }
        if (k == 1) t = fs[0]; else { t = ts_Tensor_pack(fs.data(), k); for (auto f : fs) ts_free_Tensor(f); }
        pt.add(n, q); w.T.push_back(t); w.C.push_back(c); w.TS.push_back(see(c)); if (see(t) != see(c)) fail("setup:" + n, "a new tensor is " + see(t) + " instead of " + see(c)); }
    ts_Device cpu = {"cpu", 0};
    Pool pd = Pool("device").add("null", BAD).add("cpu", GOOD).add("unknown", BAD).add("no type", MAYBE);
    ts_Device devs[] = {{nullptr, 0}, {"cpu", 0}, {"warp drive", 0}, {nullptr, 3}}; const ts_Device *dev(int i) { return i ? &devs[i] : nullptr; }
    Tensor run1(ts_Workbench *b, float x, bool &ok) { ts_Tensor *in = ts_new_Tensor(nullptr, 0, TS_FLOAT32, &x), *out = ts_new_Tensor(nullptr, 0, TS_FLOAT32, nullptr); ok = ts_Workbench_input(b, 0, in) && ts_Workbench_run(b) && ts_Workbench_output(b, 0, out); float y = -1; if (ok && ts_Tensor_dtype(out) == TS_FLOAT32 && ts_Tensor_data(out)) y = *static_cast<float *>(ts_Tensor_data(out)); ts_free_Tensor(in); ts_free_Tensor(out); return ts::tensor::from<float>(y); }
    ts_Workbench *sentinel = nullptr, *base = nullptr; int beatn = 0;
    // every other handle is as it was
    void intact(const Str &k) {
        for (size_t i = 1; i < w.T.size(); ++i) if (see(w.T[i]) != w.TS[i]) { fail(k, "the tensor \"" + pt.item[i] + "\" is changed to " + see(w.T[i])); w.TS[i] = see(w.T[i]); }
        bool ok; float x = float(++beatn % 50); Tensor y = run1(sentinel, x, ok); if (!ok) fail(k, Str("another workbench does not run any more: ") + ts_last_error_message()); else if (y.data<float>(0) != x - 5) fail(k, "another workbench gives " + std::to_string(y.data<float>(0)) + " for " + std::to_string(x)); }
    struct Res { bool ok; Str out; };
    // -1: must fail, 0: open, 1: must succeed; out: what must come out (empty: not compared)
    struct Want { int v; Str out; };
    bool has_msg() { const char *m = ts_last_error_message(); return m && *m; }
    // all combinations
    void call(const Str &fn, const std::vector<Pool> &ps, const std::function<Res(const Ix &)> &f, const std::function<Want(const Ix &)> &lib = nullptr) {
        Ix ix(ps.size(), 0);
        while (true) {
            auto show = [&] { Str s = fn + "("; for (size_t i = 0; i < ps.size(); ++i) s += (i ? ", " : "") + ps[i].name + "=" + ps[i].item[size_t(ix[i])]; return s + ")"; };
            if (take("arguments of " + fn, show)) {
                step(); int want = 1; for (size_t i = 0; i < ps.size(); ++i) { Q q = ps[i].q[size_t(ix[i])]; if (q == BAD) want = -1; else if (q == MAYBE && want == 1) want = 0; }
                Want wl = {want, ""}; if (want >= 0 && lib) { try { wl = lib(ix); } catch (const std::exception &e) { wl = {-1, ""}; } }
                Str k = show(); Res r = {false, ""}; bool thrown = false; ts_set_error_message("");
                try { r = f(ix); } catch (const std::exception &e) { thrown = true; fail(k, Str("an exception leaves the interface: ") + e.what()); } catch (...) { thrown = true; fail(k, "something thrown leaves the interface"); }
                Str msg = ts_last_error_message() ? ts_last_error_message() : "";
                if (!thrown) { if (wl.v < 0 && r.ok) fail(k, "it succeeds, though it cannot: " + r.out); if (wl.v > 0 && !r.ok) fail(k, "it fails: " + msg); if (!r.ok && msg.empty()) fail(k, "it fails and leaves no message"); if (r.ok && wl.v >= 0 && !wl.out.empty() && r.out != wl.out) fail(k, "it gives " + r.out.substr(0, 300) + " where the library gives " + wl.out.substr(0, 300)); if (r.ok && !msg.empty()) fail(k, "it succeeds and leaves the message " + msg); }
                intact(k); state(fn + (r.ok ? "+" : "-") + r.out + (r.ok ? "" : msg.substr(0, 60)));
            }
            int i = int(ps.size()) - 1; for (; i >= 0; --i) { if (++ix[size_t(i)] < int(ps[size_t(i)].size())) break; ix[size_t(i)] = 0; } if (i < 0) break;
        }
    }
    // results: the message is looked at before the result is inspected and freed
    Res gone; Str keep_msg;
    Res res(ts_Tensor *t) { Str m = ts_last_error_message(); Res r = {t != nullptr, t ? see(t) : ""}; ts_free_Tensor(t); ts_set_error_message(m.c_str()); return r; }
    Str bench_out(ts_Workbench *b) { Str s = "in" + std::to_string(ts_Workbench_input_count(b)) + " out" + std::to_string(ts_Workbench_output_count(b)); for (int i = 0; i < ts_Workbench_input_count(b); ++i) { float x = 2.f + float(i); ts_Tensor *t = ts_new_Tensor(nullptr, 0, TS_FLOAT32, &x); if (!ts_Workbench_input(b, i, t)) s += "!"; ts_free_Tensor(t); } s += ts_Workbench_run(b) ? " ran" : " failed"; for (int i = 0; i < ts_Workbench_output_count(b); ++i) { ts_Tensor *t = ts_new_Tensor(nullptr, 0, TS_FLOAT32, nullptr); if (ts_Workbench_output(b, i, t)) s += " " + see(t); ts_free_Tensor(t); } return s; }
    Res res(ts_Workbench *b) { Str m = ts_last_error_message(); Res r = {b != nullptr, ""}; if (b) r.out = bench_out(b); ts_free_Workbench(b); ts_set_error_message(m.c_str()); return r; }
    Str prog_out(ts_Program *p) { Str s = "p" + std::to_string(ts_Program_input_count(p)) + "/" + std::to_string(ts_Program_output_count(p)); ts_Workbench *b = ts_new_Workbench(&cpu); s += ts_Workbench_setup(b, p) ? " " + bench_out(b) : " no setup"; ts_free_Workbench(b); return s; }
    Res res(ts_Program *p) { Str m = ts_last_error_message(); Res r = {p != nullptr, ""}; if (p) r.out = prog_out(p); ts_free_Program(p); ts_set_error_message(m.c_str()); return r; }
    Res res(ts_Module *x) { Str m = ts_last_error_message(); Res r = {x != nullptr, ""}; if (x) { ts_Program *p = ts_Program_Compile(x, &cpu); r.out = p ? prog_out(p) : "does not compile"; ts_free_Program(p); } ts_free_Module(x); ts_set_error_message(m.c_str()); return r; }
    Res resb(ts_bool b) { return {b != 0, ""}; }
    // what a module does, computed by hand: a = x - 5; b: x + y, x - y; f: x - 5 and then x + 1
    Str val(float f) { return "n1 t10[]" + hex(&f, 4); }
    Str aout(const Str &pre) { return pre + "in1 out1 ran " + val(-3); }
    Str bout(const Str &pre) { return pre + "in2 out2 ran " + val(5) + " " + val(-1); }
    Str slurp(const Str &p) { std::ifstream f(p, std::ios::binary); std::ostringstream o; o << f.rdbuf(); return o.str(); }
    Str abin, bbin;
    ts::Module::shared mod_a() { ts::Graph g; ts::ctx::bind<ts::Graph> _b(g); auto x = ts::bubble::param("x"); auto o = ts::bubble::op("s", "sub", {x, ts::bubble::data("c", make(R(ts::FLOAT32, {}, {5})))}); return ts::Module::Load(g, {o}); }
    ts::Module::shared mod_b() { ts::Graph g; ts::ctx::bind<ts::Graph> _b(g); auto x = ts::bubble::param("x"), y = ts::bubble::param("y"); auto o = ts::bubble::op("a", "add", {x, y}), q = ts::bubble::op("d", "sub", {x, y}); return ts::Module::Load(g, {o, q}); }
    struct Src { Str b; size_t at; size_t chunk; };
    uint64_t s_read(void *o, char *d, uint64_t n) { Src *s = static_cast<Src *>(o); size_t k = std::min(size_t(n), s->b.size() - s->at); std::memcpy(d, s->b.data() + s->at, k); s->at += k; return k; }
    uint64_t s_none(void *, char *, uint64_t) { return 0; }
    void s_rew(void *o) { static_cast<Src *>(o)->at = 0; }
    void arguments(); void lifetimes(); void benches(); void threads(); void users(); void contexts();
    void world() {
        pt.add("null", BAD); w.T.push_back(nullptr); w.C.push_back(Tensor()); w.TS.push_back("");
        R f(ts::FLOAT32, {2, 3}); for (size_t i = 0; i < 6; ++i) f.v[i] = double(i) - 1.5; tensor("float[2,3]", make(f));
        R n(ts::INT32, {3}, {2, 0, 1}); tensor("int[3]", make(n));
        R u(ts::UINT8, {5, 4, 3}); for (size_t i = 0; i < 60; ++i) u.v[i] = double(i * 4 % 251); tensor("byte[5,4,3]", make(u));
        Tensor pk; pk.pack({make(f), make(n)}); tensor("packed", pk);
        R sc(ts::FLOAT32, {}, {7}); tensor("scalar", make(sc));
        R ch(ts::CHAR8, {3}, {'a', 'b', 'c'}); tensor("text", make(ch));
        R ep(ts::FLOAT32, {0, 2}); tensor("empty[0,2]", make(ep));
        base = ts_new_Workbench(&cpu); ts_Workbench_setup_context(base);
        mf::Out oa; auto a = mod_a(), b = mod_b(); ts::Module::Save(oa, a); mf::Out ob; ts::Module::Save(ob, b); abin = oa.b; bbin = ob.b;
        { std::ofstream(path("a.tsm"), std::ios::binary) << abin; std::ofstream(path("b.tsm"), std::ios::binary) << bbin; std::ofstream(path("junk"), std::ios::binary) << "this is no module at all, and no tensor either"; std::ofstream(path("none"), std::ios::binary); std::ofstream(path("cut"), std::ios::binary) << abin.substr(0, abin.size() / 2); }
        pm.add("null", BAD).add("a", GOOD).add("b", GOOD); w.M = {nullptr, ts_Module_Load(path("a.tsm").c_str(), TS_BINARY), ts_Module_Load(path("b.tsm").c_str(), TS_BINARY)}; if (!w.M[1] || !w.M[2]) fail("setup", "modules do not load");
        pp.add("null", BAD).add("a", GOOD).add("b", GOOD); w.P = {nullptr, ts_Program_Compile(w.M[1], &cpu), ts_Program_Compile(w.M[2], &cpu)};
        pw.add("null", BAD).add("a", GOOD).add("b", GOOD).add("no program", GOOD); w.W = {nullptr, ts_Workbench_Load(w.M[1], &cpu), ts_Workbench_Load(w.M[2], &cpu), ts_new_Workbench(&cpu)};
        pf.add("null", BAD).add("filter", GOOD); w.F = {nullptr, ts_new_ImageFilter(nullptr)}; ts_ImageFilter_to_float(w.F[1]);
        sentinel = ts_Workbench_Load(w.M[1], &cpu);
    }
}
int main(int argc, const char **argv) {
    parse(argc, argv); quiet(); setenv("TENNIS_NUMBER_THREADS", "1", 1); ts_setup();
    char tmp[] = "./capi.XXXXXX"; dir = mkdtemp(tmp); world();
    arguments(); lifetimes(); benches(); contexts(); threads(); users();
    for (auto f : {"a.tsm", "b.tsm", "junk", "none", "cut", "t", "u"}) std::remove(path(f).c_str()); rmdir(dir.c_str());
    finish();
}
namespace {
    const ts::Tensor &cx(int i) { return w.C[size_t(i)]; }
    Want give(const Tensor &t) { return {1, see(t)}; }
    void arguments() {
        // shapes: pointer, length and what is meant
        static const int32_t s_a[] = {2, 3}, s_b[] = {6}, s_c[] = {3, -1}, s_d[] = {-1, -1}, s_e[] = {1 << 16, 1 << 16, 1 << 16}, s_f[] = {0}, s_g[] = {-7}, s_h[] = {3, 5, 4}, s_i[] = {1, 1, 1, 1, 1, 1, 1, 1, 6}; struct SH { const int32_t *p; int32_t n; };
        static const std::vector<SH> shs = {{nullptr, 0}, {s_a, 2}, {s_b, 1}, {s_c, 2}, {s_d, 2}, {s_e, 3}, {s_f, 1}, {s_g, 1}, {s_h, 3}, {s_a, -1}, {s_a, -2147483647 - 1}, {nullptr, 2}, {nullptr, -1}, {s_a, 0}, {s_i, 9}};
        auto odd = [](int i) { return i >= 3 && i <= 7 && i != 6; }; auto names = [&](const char *n) { Pool p(n); for (auto x : {"null", "[2,3]", "[6]", "[3,-1]", "[-1,-1]", "huge", "[0]", "[-7]", "[3,5,4]", "length -1", "least length", "null of length 2", "null of length -1", "length 0", "nine"}) p.add(x, MAYBE); return p; };
        Pool ps = names("shape"); for (int i : {9, 10, 14}) ps.q[size_t(i)] = BAD; ps.q[12] = MAYBE; ps.q[11] = MAYBE;
        Pool pr = names("shape"); for (int i : {4, 5, 9, 10, 11, 12}) pr.q[size_t(i)] = BAD;
        static const std::vector<int> dts = {TS_FLOAT32, TS_INT32, TS_UINT8, TS_CHAR8, TS_VOID, 99, -1, TS_FLOAT64, TS_INT8, TS_UINT16, TS_UINT64, 9, 12}; Pool pdt = Pool("type").add("float", GOOD).add("int", GOOD).add("byte", GOOD).add("char", GOOD).add("void", MAYBE).add("99", MAYBE).add("-1", MAYBE).add("double", GOOD).add("int8", GOOD).add("uint16", GOOD).add("uint64", GOOD).add("half", MAYBE).add("pointer", MAYBE);
        static char data[8 * 64]; for (size_t i = 0; i < sizeof data; ++i) data[i] = char(i * 3 + 1);
        Pool pdata = Pool("data").add("null", GOOD).add("data", GOOD); Pool flow = Pool("flow").add("host", GOOD).add("device", GOOD).add("7", MAYBE);
        auto sized = [&](const Ix &ix, int s, int d, int dt) -> Want { auto &q = shs[size_t(s)]; int len = q.p ? q.n : 0; Str o = "n1 t" + std::to_string(dt) + "["; long c = 1; for (int i = 0; i < len; ++i) { o += std::to_string(q.p[i]) + ","; c *= q.p[i]; } o += "]"; int b = ts::type_bytes(DTYPE(dt)); if (dt == TS_VOID || dt == 9 || dt == 12 || dt == 99 || dt == -1) return {0, ""}; for (int i = 0; i < len; ++i) if (q.p[i] < 0 || q.p[i] > 9999) return {0, ""}; if (d) o += c > 0 ? hex(data, size_t(c * b)) : Str(); else o = ""; return {1, o}; };
        call("ts_new_Tensor", {ps, pdt, pdata}, [&](const Ix &x) { auto &s = shs[size_t(x[0])]; auto t = ts_new_Tensor(s.p, s.n, ts_DTYPE(dts[size_t(x[1])]), x[2] ? data : nullptr); if (t && (!x[2] || odd(x[0]))) { Str m = ts_last_error_message(); Res r = {true, ""}; int len = s.p ? s.n : 0; if (ts_Tensor_shape_size(t) != len) fail("ts_new_Tensor", "wrong shape"); ts_free_Tensor(t); ts_set_error_message(m.c_str()); return r; } return res(t); }, [&](const Ix &x) { return sized(x, x[0], x[2], dts[size_t(x[1])]); });
        // a workbench has to be bound for memory in flow; without one it is refused
        ts_Workbench *ctxb = ts_new_Workbench(&cpu);
        for (int bound = 0; bound < 2; ++bound) { if (bound) ts_Workbench_setup_context(ctxb); else ts::ctx::set<ts::Workbench>(nullptr); Str bs = bound ? " bound" : "";
            if (!bound) { Pool fl = flow; for (auto &q : fl.q) q = BAD; fl.q[2] = MAYBE; call("ts_new_Tensor_in_flow", {fl, Pool("shape").add("[2,3]", GOOD), Pool("type").add("float", GOOD), pdata}, [&](const Ix &x) { return res(ts_new_Tensor_in_flow(ts_InFlow(x[0] == 2 ? 7 : x[0]), s_a, 2, TS_FLOAT32, x[3] ? data : nullptr)); }, [](const Ix &) -> Want { return {0, ""}; }); }
            else call("ts_new_Tensor_in_flow bound", {flow, ps, pdt, pdata}, [&](const Ix &x) { auto &s = shs[size_t(x[1])]; auto t = ts_new_Tensor_in_flow(ts_InFlow(x[0] == 2 ? 7 : x[0]), s.p, s.n, ts_DTYPE(dts[size_t(x[2])]), x[3] ? data : nullptr); if (t && (!x[3] || odd(x[1]))) { Str m = ts_last_error_message(); ts_free_Tensor(t); ts_set_error_message(m.c_str()); return Res{true, ""}; } return res(t); }, [&](const Ix &x) -> Want { if (x[0] == 2) return {0, ""}; return sized(x, x[1], x[3], dts[size_t(x[2])]); });
            call("ts_Tensor_view_in_flow" + bs, {pt, flow}, [&](const Ix &x) { return res(ts_Tensor_view_in_flow(w.T[size_t(x[0])], ts_InFlow(x[1] == 2 ? 7 : x[1]))); }, [&](const Ix &x) -> Want { if (x[1] == 2) return {0, ""}; if (x[1] == 1 && !bound) return {-1, ""}; return give(cx(x[0])); });
            // immediate operators against the library with the same workbench
            typedef std::function<Tensor(const Ix &)> L; auto imm = [&](const Str &n, const std::vector<Pool> &p, const std::function<ts_Tensor *(const Ix &)> &f, const L &l) { call(n + bs, p, [&](const Ix &x) { return res(f(x)); }, [&](const Ix &x) -> Want { return give(l(x)); }); };
            static const int32_t pmt[][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 0}, {2, 1, 0}, {-1, 5, 0}}; struct PM { const int32_t *p; int n; }; static const std::vector<PM> pms = {{nullptr, 2}, {pmt[0], 2}, {pmt[1], 2}, {pmt[2], 2}, {pmt[3], 3}, {pmt[4], 2}, {pmt[0], 0}, {pmt[0], -1}, {pmt[0], 1}}; Pool pp1("permute"); for (auto s : {"null", "1,0", "0,1", "0,0", "2,1,0", "-1,5", "none", "length -1", "1"}) pp1.add(s, MAYBE); pp1.q[0] = BAD; pp1.q[7] = BAD;
            imm("ts_intime_transpose", {pt, pp1}, [&](const Ix &x) { return ts_intime_transpose(w.T[size_t(x[0])], pms[size_t(x[1])].p, pms[size_t(x[1])].n); }, [&](const Ix &x) { auto &q = pms[size_t(x[1])]; return ts::intime::transpose(cx(x[0]), std::vector<int32_t>(q.p, q.p + q.n)); });
            imm("ts_intime_sigmoid", {pt}, [&](const Ix &x) { return ts_intime_sigmoid(w.T[size_t(x[0])]); }, [&](const Ix &x) { return ts::intime::sigmoid(cx(x[0])); });
            Pool ax("axis"); for (auto s : {"0", "1", "-1", "9", "-9"}) ax.add(s, MAYBE); static const int axs[] = {0, 1, -1, 9, -9};
            imm("ts_intime_softmax", {pt, ax, Pool("smooth").add("yes", GOOD)}, [&](const Ix &x) { return ts_intime_softmax(w.T[size_t(x[0])], axs[x[1]], 1); }, [&](const Ix &x) { return ts::intime::softmax(cx(x[0]), axs[x[1]], true); });
            Pool idx("indices"); static const std::vector<std::vector<int>> idv = {{}, {0, 1}, {1, 1, 0}, {5}, {-1}}; std::vector<ts_Tensor *> idt; std::vector<Tensor> idc; for (size_t i = 0; i < idv.size(); ++i) { idx.add(i ? strv(idv[i]) : "null", i ? MAYBE : BAD); int32_t n = int32_t(idv[i].size()); idt.push_back(i ? ts_new_Tensor(&n, 1, TS_INT32, idv[i].data()) : nullptr); Tensor c(ts::MemoryDevice(ts::CPU), ts::INT32, ts::Shape({n})); for (int j = 0; j < n; ++j) c.data<int32_t>()[j] = idv[i][size_t(j)]; idc.push_back(c); } idx.q[3] = idx.q[4] = MAYBE;
            imm("ts_intime_gather", {pt, idx, ax}, [&](const Ix &x) { return ts_intime_gather(w.T[size_t(x[0])], idt[size_t(x[1])], axs[x[2]]); }, [&](const Ix &x) { return ts::intime::gather(cx(x[0]), idc[size_t(x[1])], axs[x[2]]); });
            Pool lst = Pool("list").add("null", BAD).add("of one", GOOD).add("of two", GOOD).add("with null", BAD).add("length 0", MAYBE).add("length -1", MAYBE);
            imm("ts_intime_concat", {pt, lst, ax}, [&](const Ix &x) { auto t = w.T[size_t(x[0])]; const ts_Tensor *l[] = {t, x[1] == 3 ? nullptr : t}; static const int n[] = {2, 1, 2, 2, 0, -1}; return ts_intime_concat(x[1] ? l : nullptr, n[x[1]], axs[x[2]]); }, [&](const Ix &x) { return ts::intime::concat(std::vector<Tensor>(x[1] == 1 ? 1 : x[1] == 2 ? 2 : 0, cx(x[0])), axs[x[2]]); });
            Pool pad("padding"); std::vector<ts_Tensor *> padt; std::vector<Tensor> padc; static const std::vector<std::vector<int>> padv = {{}, {0, 1, 1, 0}, {1, 1}, {-9, -9, 0, 0}, {0, 0, 0, 0, 1, 1}}; for (size_t i = 0; i < padv.size(); ++i) { pad.add(i ? strv(padv[i]) : "null", i ? MAYBE : BAD); int32_t sh[] = {int32_t(padv[i].size() / 2), 2}; padt.push_back(i ? ts_new_Tensor(sh, 2, TS_INT32, padv[i].data()) : nullptr); Tensor c(ts::MemoryDevice(ts::CPU), ts::INT32, ts::Shape({sh[0], 2})); for (size_t j = 0; j < padv[i].size(); ++j) c.data<int32_t>()[j] = padv[i][j]; padc.push_back(c); }
            imm("ts_intime_pad", {pt, pad}, [&](const Ix &x) { return ts_intime_pad(w.T[size_t(x[0])], padt[size_t(x[1])], 3); }, [&](const Ix &x) { return ts::intime::pad(cx(x[0]), padc[size_t(x[1])], 3); });
            imm("ts_intime_cast", {pt, pdt}, [&](const Ix &x) { return ts_intime_cast(w.T[size_t(x[0])], ts_DTYPE(dts[size_t(x[1])])); }, [&](const Ix &x) { return ts::intime::cast(cx(x[0]), DTYPE(dts[size_t(x[1])])); });
            Pool sz("size"); static const std::vector<std::vector<int>> szv = {{}, {3, 2, -1}, {-1, -1, -1}, {2, 2}, {0, 3, -1}, {-5, -5}}; std::vector<ts_Tensor *> szt; std::vector<Tensor> szc; for (size_t i = 0; i < szv.size(); ++i) { sz.add(i ? strv(szv[i]) : "null", i ? MAYBE : BAD); int32_t n = int32_t(szv[i].size()); szt.push_back(i ? ts_new_Tensor(&n, 1, TS_INT32, szv[i].data()) : nullptr); Tensor c(ts::MemoryDevice(ts::CPU), ts::INT32, ts::Shape({n})); for (int j = 0; j < n; ++j) c.data<int32_t>()[j] = szv[i][size_t(j)]; szc.push_back(c); } sz.q[4] = MAYBE;
            Pool met("method"); for (auto s : {"linear", "cubic", "nearest", "hard"}) met.add(s, GOOD);
            imm("ts_intime_resize2d", {pt, sz, met}, [&](const Ix &x) { return ts_intime_resize2d(w.T[size_t(x[0])], szt[size_t(x[1])], x[2]); }, [&](const Ix &x) { return ts::intime::resize2d(cx(x[0]), szc[size_t(x[1])], ts::desc::ResizeType(x[2])); });
            float am[9] = {1, 0, 0.5f, 0, 1, 0.25f, 0, 0, 1}; int32_t ash[] = {3, 3}; ts_Tensor *aft = ts_new_Tensor(ash, 2, TS_FLOAT32, am); Tensor afc(ts::MemoryDevice(ts::CPU), ts::FLOAT32, ts::Shape({3, 3})); std::memcpy(afc.data(), am, sizeof am); Pool aff = Pool("affine").add("null", BAD).add("a matrix", GOOD).add("int[3]", MAYBE);
            auto at = [=](int i) { return i == 0 ? nullptr : i == 1 ? aft : w.T[2]; }; auto ac = [=](int i) { return i == 1 ? afc : cx(2); };
            imm("ts_intime_affine_sample2d", {pt, sz, aff, ax}, [&](const Ix &x) { return ts_intime_affine_sample2d(w.T[size_t(x[0])], szt[size_t(x[1])], at(x[2]), axs[x[3]], 1.5f, 0); }, [&](const Ix &x) { return ts::intime::affine_sample2d(cx(x[0]), szc[size_t(x[1])], ac(x[2]), axs[x[3]], 1.5f, ts::desc::ResizeType(0)); });
            imm("ts_intime_affine_on_sample2d", {pt, sz, aff, ax}, [&](const Ix &x) { return ts_intime_affine_on_sample2d(w.T[size_t(x[0])], szt[size_t(x[1])], at(x[2]), axs[x[3]], 0); }, [&](const Ix &x) { return ts::intime::affine_on_sample2d(cx(x[0]), szc[size_t(x[1])], ac(x[2]), axs[x[3]], ts::desc::ResizeType(0)); });
            Pool pt2 = pt; pt2.name = "other"; Pool yn = Pool("transpose").add("no", GOOD).add("yes", GOOD);
            imm("ts_intime_matmul", {pt, pt2, yn}, [&](const Ix &x) { return ts_intime_matmul(w.T[size_t(x[0])], w.T[size_t(x[1])], x[2]); }, [&](const Ix &x) { return ts::intime::matmul(cx(x[0]), cx(x[1]), x[2] != 0); });
            for (auto t : idt) ts_free_Tensor(t); for (auto t : padt) ts_free_Tensor(t); for (auto t : szt) ts_free_Tensor(t); ts_free_Tensor(aft);
        }
        ts_Workbench_setup_context(base); ts_free_Workbench(ctxb);
        { int32_t sh = 8; Pool d = Pool("to").add("null", BAD).add("a tensor", GOOD), s = Pool("from").add("null", BAD).add("a tensor", GOOD), n = Pool("bytes").add("0", GOOD).add("3", GOOD).add("8", GOOD), o = Pool("offset").add("0", GOOD).add("2", GOOD), dp = Pool("to pointer").add("null", GOOD).add("given", GOOD), sp = Pool("from pointer").add("null", GOOD).add("given", GOOD);
          call("ts_intime_memcpy", {d, dp, o, s, sp, o, n}, [&](const Ix &x) { static const int ns[] = {0, 3, 8}; char own[16] = {0}, in[16], da[12], sa[12]; for (int i = 0; i < 16; ++i) in[i] = char(90 + i); int32_t big = 12; (void) sh; std::memset(da, 1, 12); for (int i = 0; i < 12; ++i) sa[i] = char(40 + i); ts_Tensor *a = x[0] ? ts_new_Tensor(&big, 1, TS_UINT8, da) : nullptr, *b = x[3] ? ts_new_Tensor(&big, 1, TS_UINT8, sa) : nullptr; ts_set_error_message(""); int do_ = x[2] * 2, so = x[5] * 2; long r = ts_intime_memcpy(a, x[1] ? own : nullptr, do_, b, x[4] ? in : nullptr, so, ns[x[6]]); Str m = ts_last_error_message(); Res q = {x[6] ? r != 0 : m.empty(), ""};
              if (m.empty()) { if (r != ns[x[6]]) fail("ts_intime_memcpy", "it copies " + std::to_string(r) + " bytes"); const char *to = x[1] ? own : static_cast<char *>(ts_Tensor_data(a)), *fr = x[4] ? in : static_cast<char *>(ts_Tensor_data(b)); for (int i = 0; i < 12; ++i) { char want = i >= do_ && i < do_ + ns[x[6]] ? fr[so + i - do_] : x[1] ? char(0) : char(1); if (to[i] != want) { fail("ts_intime_memcpy", "byte " + std::to_string(i) + " is wrong"); break; } } } ts_free_Tensor(a); ts_free_Tensor(b); ts_set_error_message(m.c_str()); return q; }); }
        // tensors
        call("ts_free_Tensor", {Pool("tensor").add("null", GOOD)}, [](const Ix &) { ts_free_Tensor(nullptr); return Res{true, ""}; });
        call("ts_Tensor_shape", {pt}, [&](const Ix &x) { auto p = ts_Tensor_shape(w.T[size_t(x[0])]); Res r = {p != nullptr || Str(ts_last_error_message()).empty(), ""}; if (p) for (size_t i = 0; i < cx(x[0]).sizes().size(); ++i) r.out += std::to_string(p[i]) + ","; return r; }, [&](const Ix &x) -> Want { Str s; for (auto v : cx(x[0]).sizes()) s += std::to_string(v) + ","; return {1, s}; });
        auto num = [&](const Str &n, const std::function<long(ts_Tensor *)> &f, const std::function<long(const Tensor &)> &l) { call(n, {pt}, [&](const Ix &x) { long v = f(w.T[size_t(x[0])]); bool ok = Str(ts_last_error_message()).empty(); if (!ok && v != 0) fail(n, "it fails with " + std::to_string(v)); return Res{ok, std::to_string(v)}; }, [&](const Ix &x) -> Want { return {1, std::to_string(l(cx(x[0])))}; }); };
        num("ts_Tensor_shape_size", [](ts_Tensor *t) { return long(ts_Tensor_shape_size(t)); }, [](const Tensor &t) { return long(t.dims()); });
        num("ts_Tensor_dtype", [](ts_Tensor *t) { return long(ts_Tensor_dtype(t)); }, [](const Tensor &t) { return long(t.dtype()); });
        num("ts_Tensor_packed", [](ts_Tensor *t) { return long(ts_Tensor_packed(t)); }, [](const Tensor &t) { return long(t.packed()); });
        num("ts_Tensor_fields_count", [](ts_Tensor *t) { return long(ts_Tensor_fields_count(t)); }, [](const Tensor &t) { return long(t.fields_count()); });
        call("ts_Tensor_data", {pt}, [&](const Ix &x) { auto p = ts_Tensor_data(w.T[size_t(x[0])]); return Res{p != nullptr || Str(ts_last_error_message()).empty(), ""}; }, [&](const Ix &) -> Want { return {1, ""}; });
        call("ts_Tensor_clone", {pt}, [&](const Ix &x) { return res(ts_Tensor_clone(w.T[size_t(x[0])])); }, [&](const Ix &x) { return give(cx(x[0])); });
        call("ts_Tensor_sync_cpu", {pt}, [&](const Ix &x) { return resb(ts_Tensor_sync_cpu(w.T[size_t(x[0])])); }, [&](const Ix &) -> Want { return {1, ""}; });
        call("ts_Tensor_cast", {pt, pdt}, [&](const Ix &x) { return res(ts_Tensor_cast(w.T[size_t(x[0])], ts_DTYPE(dts[size_t(x[1])]))); }, [&](const Ix &x) { return give(ts::tensor::cast(DTYPE(dts[size_t(x[1])]), cx(x[0]))); });
        call("ts_Tensor_reshape", {pt, pr}, [&](const Ix &x) { auto &s = shs[size_t(x[1])]; return res(ts_Tensor_reshape(w.T[size_t(x[0])], s.p, s.n)); }, [&](const Ix &x) { auto &s = shs[size_t(x[1])]; ts::Shape h; if (s.p) h = ts::Shape(s.p, s.p + s.n); return give(cx(x[0]).reshape(h)); });
        Pool ni("index"); static const int ns[] = {0, 1, 2, -1, -2, 5, 2147483647, -2147483647 - 1}; for (int n : ns) ni.add(std::to_string(n), MAYBE); Pool nj = ni; nj.name = "end";
        call("ts_Tensor_field", {pt, ni}, [&](const Ix &x) { return res(ts_Tensor_field(w.T[size_t(x[0])], ns[x[1]])); }, [&](const Ix &x) -> Want { int n = ns[x[1]], k = int(cx(x[0]).fields_count()); if (n >= k || n < -k) return {-1, ""}; if (n < 0) return {0, see(cx(x[0]).field(n + k))}; return give(cx(x[0]).field(n)); });
        call("ts_Tensor_slice", {pt, ni}, [&](const Ix &x) { return res(ts_Tensor_slice(w.T[size_t(x[0])], ns[x[1]])); }, [&](const Ix &x) { Tensor t = cx(x[0]); Tensor s = t.slice(ns[x[1]]); return give(s); });
        call("ts_Tensor_slice_v2", {pt, ni, nj}, [&](const Ix &x) { return res(ts_Tensor_slice_v2(w.T[size_t(x[0])], ns[x[1]], ns[x[2]])); }, [&](const Ix &x) { Tensor t = cx(x[0]); Tensor s = t.slice(ns[x[1]], ns[x[2]]); return give(s); });
        { Pool l = Pool("list").add("null", BAD).add("of one", GOOD).add("of two", GOOD).add("with null", BAD).add("length 0", MAYBE).add("length -1", MAYBE), q = pt; q.name = "second"; Pool pf0 = pt; pf0.q[0] = q.q[0] = MAYBE; call("ts_Tensor_pack", {pf0, q, l}, [&](const Ix &x) { ts_Tensor *a[] = {w.T[size_t(x[0])], x[2] == 3 ? nullptr : w.T[size_t(x[1])]}; static const int n[] = {2, 1, 2, 2, 0, -1}; return res(ts_Tensor_pack(x[2] ? a : nullptr, n[x[2]])); }, [&](const Ix &x) -> Want { if (x[2] > 3) return {0, ""}; if (x[0] == 0 || (x[2] == 2 && x[1] == 0)) return {-1, ""}; std::vector<Tensor> v = {cx(x[0])}; if (x[2] == 2) v.push_back(cx(x[1])); Tensor t; t.pack(v); return give(t); }); }
        Pool files = Pool("file").add("null", BAD).add("missing", BAD).add("directory", BAD).add("empty name", BAD).add("junk", MAYBE).add("nothing in it", BAD); auto fname = [&](int i) -> const char * { static Str s; if (i == 0) return nullptr; s = i == 1 ? path("missing/x") : i == 2 ? dir : i == 3 ? "" : i == 4 ? path("junk") : i == 5 ? path("none") : ""; return s.c_str(); };
        { Pool to = Pool("file").add("null", BAD).add("missing directory", BAD).add("directory", BAD).add("empty name", BAD).add("a new file", GOOD); call("ts_Tensor_save", {to, pt}, [&](const Ix &x) { Str p = path("t"); bool ok = ts_Tensor_save(x[0] == 4 ? p.c_str() : fname(x[0]), w.T[size_t(x[1])]) != 0; Res r = {ok, ""}; if (ok) { Tensor t = ts::tensor::load(p); r.out = see(t); } return r; }, [&](const Ix &x) { return give(cx(x[1])); }); }
        for (size_t i = 1; i < w.T.size(); ++i) { files.add("a saved " + pt.item[i], GOOD); } 
        call("ts_Tensor_load", {files}, [&](const Ix &x) { Str p = path("u"); if (x[0] >= 6) ts::tensor::save(p, cx(x[0] - 5)); return res(ts_Tensor_load(x[0] >= 6 ? p.c_str() : fname(x[0]))); }, [&](const Ix &x) -> Want { if (x[0] < 6) return {0, ""}; return give(cx(x[0] - 5)); });
        // modules
        Pool mfiles = Pool("file").add("null", BAD).add("missing", BAD).add("directory", BAD).add("empty name", BAD).add("junk", BAD).add("nothing in it", BAD).add("half", BAD).add("a", GOOD).add("b", GOOD), form = Pool("format").add("binary", GOOD).add("text", MAYBE).add("9", MAYBE); static const int forms[] = {TS_BINARY, TS_TEXT, 9};
        auto mname = [&](int i) -> const char * { static Str s; if (i < 6) return fname(i); s = path(i == 6 ? "cut" : i == 7 ? "a.tsm" : "b.tsm"); return s.c_str(); };
        auto mwant = [&](int k, int f) -> Want { if (f) return {0, ""}; return {1, k ? bout("p2/2 ") : aout("p1/1 ")}; };
        call("ts_Module_Load", {mfiles, form}, [&](const Ix &x) { return res(ts_Module_Load(mname(x[0]), ts_SerializationFormat(forms[x[1]]))); }, [&](const Ix &x) { return mwant(x[0] == 8, x[1]); });
        { Pool buf = Pool("other weights").add("null", MAYBE).add("some bytes", GOOD), bl = Pool("size").add("0", MAYBE).add("8", GOOD).add("-1", MAYBE); static const int bls[] = {0, 8, -1}; call("ts_Module_LoadV2", {mfiles, buf, bl, form}, [&](const Ix &x) { return res(ts_Module_LoadV2(mname(x[0]), x[1] ? data : nullptr, bls[x[2]], ts_SerializationFormat(forms[x[3]]))); }, [&](const Ix &) -> Want { return {0, ""}; }); 
          Pool so = Pool("stream").add("null", BAD).add("a", GOOD).add("junk", BAD).add("half", BAD).add("nothing", BAD), rd = Pool("reader").add("null", BAD).add("reader", GOOD).add("reader of nothing", BAD), rw = Pool("rewind").add("null", BAD).add("rewind", GOOD);
          auto src = [&](int i) { return Src{i == 1 ? abin : i == 2 ? Str("junkjunkjunkjunkjunk") : i == 3 ? abin.substr(0, abin.size() / 2) : Str(), 0, 0}; };
          call("ts_Module_LoadFromStream", {so, rd, form}, [&](const Ix &x) { Src s = src(x[0]); return res(ts_Module_LoadFromStream(x[0] ? &s : nullptr, x[1] == 0 ? nullptr : x[1] == 1 ? s_read : s_none, ts_SerializationFormat(forms[x[2]]))); }, [&](const Ix &x) { return mwant(0, x[2]); });
          call("ts_Module_LoadFromStreamV2", {so, rd, rw, buf, bl, form}, [&](const Ix &x) { Src s = src(x[0]); return res(ts_Module_LoadFromStreamV2(x[0] ? &s : nullptr, x[1] == 0 ? nullptr : x[1] == 1 ? s_read : s_none, x[2] ? s_rew : nullptr, x[3] ? data : nullptr, bls[x[4]], ts_SerializationFormat(forms[x[5]]))); }, [&](const Ix &) -> Want { return {0, ""}; }); }
        call("ts_free_Module", {Pool("module").add("null", GOOD)}, [](const Ix &) { ts_free_Module(nullptr); return Res{true, ""}; });
        Pool slot("slot"); static const int slots[] = {0, 1, 2, -1, 7, -9}; for (int n : slots) slot.add(std::to_string(n), MAYBE); Pool slot2 = slot; slot2.name = "to slot"; Pool pm2 = pm; pm2.name = "second";
        call("ts_Module_Fusion", {pm, slot, pm2, slot2}, [&](const Ix &x) { return res(ts_Module_Fusion(w.M[size_t(x[0])], slots[x[1]], w.M[size_t(x[2])], slots[x[3]])); }, [&](const Ix &x) -> Want { int n = x[0], o = slots[x[1]], i = slots[x[3]]; if (o >= n || i >= x[2]) return {-1, ""}; if (o < 0 || i < 0) return {0, ""}; return {1, ""}; });
        Pool opt = Pool("options").add("null", BAD).add("none", GOOD).add("--winograd", GOOD).add("--pack --filter", MAYBE).add("--no-such-thing", MAYBE); static const char *opts[] = {nullptr, "", "--winograd", "--pack --filter", "--no-such-thing"};
        auto pwant = [&](int m) -> Want { return {1, m == 1 ? aout("p1/1 ") : bout("p2/2 ")}; }; auto wwant = [&](int m) -> Want { return {1, m == 1 ? aout("") : bout("")}; };
        // programs
        call("ts_Program_Compile", {pm, pd}, [&](const Ix &x) { return res(ts_Program_Compile(w.M[size_t(x[0])], dev(x[1]))); }, [&](const Ix &x) { return pwant(x[0]); });
        call("ts_Program_Compile_v2", {pm, pd, opt}, [&](const Ix &x) { return res(ts_Program_Compile_v2(w.M[size_t(x[0])], dev(x[1]), opts[x[2]])); }, [&](const Ix &x) -> Want { auto q = pwant(x[0]); if (x[2] > 2) q.v = 0; return q; });
        call("ts_free_Program", {Pool("program").add("null", GOOD)}, [](const Ix &) { ts_free_Program(nullptr); return Res{true, ""}; });
        call("ts_Program_clone", {pp}, [&](const Ix &x) { return res(ts_Program_clone(w.P[size_t(x[0])])); }, [&](const Ix &x) { return pwant(x[0]); });
        auto cntp = [&](const Str &n, const std::function<int(int)> &f, const Pool &p, const std::function<int(int)> &l) { call(n, {p}, [&](const Ix &x) { int v = f(x[0]); bool ok = Str(ts_last_error_message()).empty(); if (!ok && v) fail(n, "it fails with " + std::to_string(v)); return Res{ok, std::to_string(v)}; }, [&](const Ix &x) -> Want { return {1, std::to_string(l(x[0]))}; }); };
        cntp("ts_Program_input_count", [&](int i) { return ts_Program_input_count(w.P[size_t(i)]); }, pp, [](int i) { return i; }); cntp("ts_Program_output_count", [&](int i) { return ts_Program_output_count(w.P[size_t(i)]); }, pp, [](int i) { return i; });
        Pool nn = Pool("node").add("null", BAD).add("unknown", MAYBE).add("a node", GOOD), pn = Pool("parameter").add("null", BAD).add("unknown", MAYBE).add("#op", MAYBE); auto nname = [](int i, int j) -> const char * { return i == 0 ? nullptr : i == 1 ? "nobody" : j == 1 ? "s" : "d"; }; auto pname = [](int i) -> const char * { return i == 0 ? nullptr : i == 1 ? "no_such" : "#op"; };
        call("ts_Program_set_operator_param", {pp, nn, pn, pt}, [&](const Ix &x) { return resb(ts_Program_set_operator_param(x[0] ? w.P[size_t(x[0])] : nullptr, nname(x[1], x[0]), pname(x[2]), w.T[size_t(x[3])])); }, [&](const Ix &) -> Want { return {0, ""}; });
        // workbenches
        call("ts_Workbench_Load", {pm, pd}, [&](const Ix &x) { return res(ts_Workbench_Load(w.M[size_t(x[0])], dev(x[1]))); }, [&](const Ix &x) { return wwant(x[0]); });
        call("ts_Workbench_Load_v2", {pm, pd, opt}, [&](const Ix &x) { return res(ts_Workbench_Load_v2(w.M[size_t(x[0])], dev(x[1]), opts[x[2]])); }, [&](const Ix &x) -> Want { auto q = wwant(x[0]); if (x[2] > 2) q.v = 0; return q; });
        call("ts_free_Workbench", {Pool("workbench").add("null", GOOD)}, [](const Ix &) { ts_free_Workbench(nullptr); return Res{true, ""}; });
        { Pool d0 = pd; d0.q[0] = GOOD; d0.q[2] = MAYBE; call("ts_new_Workbench", {d0}, [&](const Ix &x) { auto b = ts_new_Workbench(dev(x[0])); Res r = {b != nullptr, ""}; Str m = ts_last_error_message(); if (b && x[0] < 2) { ts_Workbench_setup(b, w.P[1]); r.out = bench_out(b); } ts_free_Workbench(b); ts_set_error_message(m.c_str()); return r; }, [&](const Ix &x) -> Want { if (x[0] >= 2) return {0, ""}; return wwant(1); });
          Pool d1 = d0; call("ts_new_ImageFilter", {d1}, [&](const Ix &x) { auto b = ts_new_ImageFilter(dev(x[0])); Res r = {b != nullptr, ""}; Str m = ts_last_error_message(); ts_free_ImageFilter(b); ts_set_error_message(m.c_str()); return r; }, [&](const Ix &x) -> Want { if (x[0] == 2) return {0, ""}; return {1, ""}; }); }
        call("ts_Workbench_clone", {pw}, [&](const Ix &x) { return res(ts_Workbench_clone(w.W[size_t(x[0])])); }, [&](const Ix &x) -> Want { if (x[0] == 3) return {1, "in0 out0 failed"}; return wwant(x[0]); });
        auto W = [&](int i) { return w.W[size_t(i)]; };
        auto incount = [](int b) { return b == 3 ? 0 : b; };
        call("ts_Workbench_input", {pw, slot, pt}, [&](const Ix &x) { return resb(ts_Workbench_input(W(x[0]), slots[x[1]], w.T[size_t(x[2])])); }, [&](const Ix &x) -> Want { int s = slots[x[1]], n = incount(x[0]); if (s >= n || s < -n) return {-1, ""}; return {s < 0 ? 0 : 1, ""}; });
        Pool inn = Pool("name").add("null", BAD).add("unknown", BAD).add("x", GOOD).add("y", MAYBE).add("empty", BAD); static const char *inns[] = {nullptr, "nobody", "x", "y", ""};
        call("ts_Workbench_input_by_name", {pw, inn, pt}, [&](const Ix &x) { return resb(ts_Workbench_input_by_name(W(x[0]), inns[x[1]], w.T[size_t(x[2])])); }, [&](const Ix &x) -> Want { if (x[0] == 3 || (x[0] == 1 && x[1] == 3)) return {-1, ""}; return {1, ""}; });
        // leave something in them that runs
        auto fill = [&](int b) { for (int i = 0; i < incount(b); ++i) ts_Workbench_input(W(b), i, w.T[5]); };
        call("ts_Workbench_run", {pw}, [&](const Ix &x) { if (x[0]) fill(x[0]); return resb(ts_Workbench_run(W(x[0]))); }, [&](const Ix &x) -> Want { return {x[0] == 3 ? -1 : 1, ""}; });
        auto out = [&](ts_Tensor *t, const std::function<ts_bool(ts_Tensor *)> &f) { Str was = see(t); ts_set_error_message(""); bool ok = f(t); Str m = ts_last_error_message(); Res r = {ok, ok && t ? see(t) : Str()}; if (!ok && see(t) != was) fail("output", "a refused call changes the tensor it was given"); ts_free_Tensor(t); ts_set_error_message(m.c_str()); return r; };
        Pool ot = Pool("tensor").add("null", BAD).add("a tensor", GOOD); auto owant = [&](int b, int s) -> Want { if (b == 1) return {1, val(2)}; return {1, s ? val(0) : val(14)}; };
        call("ts_Workbench_output", {pw, slot, ot}, [&](const Ix &x) { if (x[0]) { fill(x[0]); ts_Workbench_run(W(x[0])); } return out(x[2] ? ts_Tensor_clone(w.T[1]) : nullptr, [&](ts_Tensor *t) { return ts_Workbench_output(W(x[0]), slots[x[1]], t); }); }, [&](const Ix &x) -> Want { int s = slots[x[1]], n = incount(x[0]); if (s >= n || s < -n) return {-1, ""}; if (s < 0) return {0, ""}; return owant(x[0], s); });
        Pool on = Pool("name").add("null", BAD).add("unknown", BAD).add("s", MAYBE).add("a", MAYBE).add("d", MAYBE).add("empty", BAD); static const char *ons[] = {nullptr, "nobody", "s", "a", "d", ""};
        call("ts_Workbench_output_by_name", {pw, on, ot}, [&](const Ix &x) { if (x[0]) { fill(x[0]); ts_Workbench_run(W(x[0])); } return out(x[2] ? ts_Tensor_clone(w.T[1]) : nullptr, [&](ts_Tensor *t) { return ts_Workbench_output_by_name(W(x[0]), ons[x[1]], t); }); }, [&](const Ix &x) -> Want { if (x[0] == 3 || (x[0] == 1) != (x[1] == 2)) return {-1, ""}; return owant(x[0], x[1] == 4); });
        Pool th = Pool("threads").add("1", GOOD).add("2", GOOD).add("0", MAYBE).add("-3", MAYBE); static const int ths[] = {1, 2, 0, -3};
        call("ts_Workbench_set_computing_thread_number", {pw, th}, [&](const Ix &x) { bool ok = ts_Workbench_set_computing_thread_number(W(x[0]), ths[x[1]]) != 0; Str m = ts_last_error_message(); if (ok && (x[0] == 1 || x[0] == 2)) { Str o = bench_out(W(x[0])); if (o != wwant(x[0]).out) fail("ts_Workbench_set_computing_thread_number", "with " + std::to_string(ths[x[1]]) + " threads: " + o); } ts_set_error_message(m.c_str()); return Res{ok, ""}; }, [&](const Ix &x) -> Want { return {x[1] < 2 ? 1 : 0, ""}; });
        { Pool cm = Pool("mode").add("balance", MAYBE).add("big", MAYBE).add("little", MAYBE).add("9", MAYBE); call("ts_Workbench_set_cpu_mode", {pw, cm}, [&](const Ix &x) { ts_Workbench *b = x[0] ? ts_Workbench_clone(W(x[0])) : nullptr; ts_set_error_message(""); bool ok = ts_Workbench_set_cpu_mode(b, ts_CpuPowerMode(x[1] == 3 ? 9 : x[1])) != 0; Str m = ts_last_error_message(); ts_free_Workbench(b); if (!ok && m.empty() && x[0]) m = "not on this machine"; ts_set_error_message(m.c_str()); return Res{ok, ""}; }, [&](const Ix &) -> Want { return {0, ""}; }); }
        call("ts_Workbench_bind_filter", {pw, slot, pf}, [&](const Ix &x) { ts_Workbench *b = x[0] ? ts_Workbench_clone(W(x[0])) : nullptr; ts_set_error_message(""); bool ok = ts_Workbench_bind_filter(b, slots[x[1]], w.F[size_t(x[2])]) != 0; Str m = ts_last_error_message(); ts_free_Workbench(b); ts_set_error_message(m.c_str()); return Res{ok, ""}; }, [&](const Ix &x) -> Want { int s = slots[x[1]], n = incount(x[0]); if (s >= n || s < -n) return {-1, ""}; return {s < 0 ? 0 : 1, ""}; });
        call("ts_Workbench_bind_filter_by_name", {pw, inn, pf}, [&](const Ix &x) { ts_Workbench *b = x[0] ? ts_Workbench_clone(W(x[0])) : nullptr; ts_set_error_message(""); bool ok = ts_Workbench_bind_filter_by_name(b, inns[x[1]], w.F[size_t(x[2])]) != 0; Str m = ts_last_error_message(); ts_free_Workbench(b); ts_set_error_message(m.c_str()); return Res{ok, ""}; }, [&](const Ix &x) -> Want { if (x[0] == 3 || (x[0] == 1 && x[1] == 3)) return {-1, ""}; return {1, ""}; });
        call("ts_Workbench_setup", {pw, pp}, [&](const Ix &x) { ts_Workbench *b = x[0] ? ts_Workbench_clone(W(x[0])) : nullptr; ts_set_error_message(""); bool ok = ts_Workbench_setup(b, w.P[size_t(x[1])]) != 0; Str m = ts_last_error_message(); Res r = {ok, ok ? bench_out(b) : Str()}; ts_free_Workbench(b); ts_set_error_message(m.c_str()); return r; }, [&](const Ix &x) { return wwant(x[1]); });
        call("ts_Workbench_compile", {pw, pm}, [&](const Ix &x) { return res(ts_Workbench_compile(W(x[0]), w.M[size_t(x[1])])); }, [&](const Ix &x) { return pwant(x[1]); });
        call("ts_Workbench_compile_v2", {pw, pm, opt}, [&](const Ix &x) { return res(ts_Workbench_compile_v2(W(x[0]), w.M[size_t(x[1])], opts[x[2]])); }, [&](const Ix &x) -> Want { auto q = pwant(x[1]); if (x[2] > 2) q.v = 0; return q; });
        for (int k = 0; k < 3; ++k) { static const char *n[] = {"ts_Workbench_setup_context", "ts_Workbench_setup_device", "ts_Workbench_setup_runtime"}; call(n[k], {pw}, [&](const Ix &x) { auto f = k == 0 ? ts_Workbench_setup_context : k == 1 ? ts_Workbench_setup_device : ts_Workbench_setup_runtime; bool ok = f(W(x[0])) != 0; Str m = ts_last_error_message(); Res r = {ok, ""}; if (ok) { auto t = ts_intime_sigmoid(w.T[1]); r.out = t ? "bound" : "not bound"; ts_free_Tensor(t); } ts_Workbench_setup_context(base); ts_set_error_message(m.c_str()); return r; }, [](const Ix &) -> Want { return {1, "bound"}; }); }
        cntp("ts_Workbench_input_count", [&](int i) { return ts_Workbench_input_count(W(i)); }, pw, incount); cntp("ts_Workbench_output_count", [&](int i) { return ts_Workbench_output_count(W(i)); }, pw, incount);
        { Pool nl = Pool("nodes").add("null", BAD).add("none", GOOD).add("s", GOOD).add("unknown", MAYBE).add("with null", BAD).add("length -1", MAYBE).add("null of length 0", MAYBE); call("ts_Workbench_run_hook", {pw, nl}, [&](const Ix &x) { if (x[0]) fill(x[0]); const char *l[] = {x[1] == 3 ? "nobody" : x[0] == 2 ? "a" : "s", x[1] == 4 ? nullptr : "zz"}; static const int n[] = {1, 0, 1, 1, 2, -1, 0}; ts_set_error_message(""); bool ok = ts_Workbench_run_hook(W(x[0]), x[1] == 0 || x[1] == 6 ? nullptr : l, n[x[1]]) != 0; Str m = ts_last_error_message(); Res r = {ok, ""}; if (ok && x[1] == 2) { ts_Tensor *t = ts_new_Tensor(nullptr, 0, TS_FLOAT32, nullptr); if (ts_Workbench_output_by_name(W(x[0]), l[0], t)) r.out = see(t); ts_free_Tensor(t); } ts_set_error_message(m.c_str()); return r; }, [&](const Ix &x) -> Want { if (x[0] == 3) return {-1, ""}; if (x[1] == 2) return {1, owant(x[0], 0).out}; return {x[1] == 1 ? 1 : 0, ""}; }); }
        call("ts_Workbench_set_operator_param", {pw, nn, pn, pt}, [&](const Ix &x) { ts_Workbench *b = x[0] ? ts_Workbench_clone(W(x[0])) : nullptr; ts_set_error_message(""); bool ok = ts_Workbench_set_operator_param(b, nname(x[1], x[0]), pname(x[2]), w.T[size_t(x[3])]) != 0; Str m = ts_last_error_message(); ts_free_Workbench(b); ts_set_error_message(m.c_str()); return Res{ok, ""}; }, [&](const Ix &) -> Want { return {0, ""}; });
        call("ts_Workbench_summary", {pw}, [&](const Ix &x) { auto s = ts_Workbench_summary(W(x[0])); Res r = {s != nullptr, ""}; if (s && (Str(s).find("\"device\": \"cpu:0\"") == Str::npos || *s != '{' || Str(s).back() != '}')) fail("ts_Workbench_summary", Str("it is ") + s); return r; }, [](const Ix &) -> Want { return {1, ""}; });
        // filters: a step on a filter of its own, then the image
        call("ts_free_ImageFilter", {Pool("filter").add("null", GOOD)}, [](const Ix &) { ts_free_ImageFilter(nullptr); return Res{true, ""}; });
        typedef std::function<ts_bool(ts_ImageFilter *)> S; typedef std::function<void(ts::ImageFilter &)> SC;
        auto stp = [&](const Str &n, const std::vector<Pool> &more, const std::function<S(const Ix &)> &f, const std::function<SC(const Ix &)> &l) { std::vector<Pool> p = {pf}; p.insert(p.end(), more.begin(), more.end()); call(n, p, [&](const Ix &x) { ts_ImageFilter *t = x[0] ? ts_new_ImageFilter(nullptr) : nullptr; ts_set_error_message(""); bool ok = f(Ix(x.begin() + 1, x.end()))(t) != 0; Str m = ts_last_error_message(); Res r = {ok, ""}; if (ok) { auto y = ts_ImageFilter_run(t, w.T[3]); r.out = see(y); ts_free_Tensor(y); } ts_free_ImageFilter(t); ts_set_error_message(m.c_str()); return r; }, [&](const Ix &x) -> Want { ts::ImageFilter c; l(Ix(x.begin() + 1, x.end()))(c); Str o = "null"; try { o = see(c.run(cx(3))); } catch (const std::exception &) {} return {1, o}; }); };
        stp("ts_ImageFilter_clear", {}, [](const Ix &) -> S { return ts_ImageFilter_clear; }, [](const Ix &) -> SC { return [](ts::ImageFilter &f) { f.clear(); }; });
        stp("ts_ImageFilter_compile", {}, [](const Ix &) -> S { return ts_ImageFilter_compile; }, [](const Ix &) -> SC { return [](ts::ImageFilter &f) { f.compile(); }; });
        stp("ts_ImageFilter_to_float", {}, [](const Ix &) -> S { return ts_ImageFilter_to_float; }, [](const Ix &) -> SC { return [](ts::ImageFilter &f) { f.to_float(); }; });
        stp("ts_ImageFilter_to_chw", {}, [](const Ix &) -> S { return ts_ImageFilter_to_chw; }, [](const Ix &) -> SC { return [](ts::ImageFilter &f) { f.to_chw(); }; });
        stp("ts_ImageFilter_prewhiten", {}, [](const Ix &) -> S { return ts_ImageFilter_prewhiten; }, [](const Ix &) -> SC { return [](ts::ImageFilter &f) { f.prewhiten(); }; });
        stp("ts_ImageFilter_force_color", {}, [](const Ix &) -> S { return ts_ImageFilter_force_color; }, [](const Ix &) -> SC { return [](ts::ImageFilter &f) { f.force_color(); }; });
        stp("ts_ImageFilter_force_gray", {}, [](const Ix &) -> S { return ts_ImageFilter_force_gray; }, [](const Ix &) -> SC { return [](ts::ImageFilter &f) { f.force_gray(); }; });
        Pool fv = Pool("factor").add("0.5", GOOD).add("0", GOOD).add("-2", GOOD); static const float fvs[] = {0.5f, 0, -2};
        stp("ts_ImageFilter_scale", {fv}, [](const Ix &x) -> S { return [x](ts_ImageFilter *f) { return ts_ImageFilter_scale(f, fvs[x[0]]); }; }, [](const Ix &x) -> SC { return [x](ts::ImageFilter &f) { f.scale(fvs[x[0]]); }; });
        stp("ts_ImageFilter_norm_image", {fv}, [](const Ix &x) -> S { return [x](ts_ImageFilter *f) { return ts_ImageFilter_norm_image(f, fvs[x[0]]); }; }, [](const Ix &x) -> SC { return [x](ts::ImageFilter &f) { f.norm_image(fvs[x[0]]); }; });
        static const float v3[] = {1, 2, 4}; Pool pl = Pool("values").add("null", BAD).add("three", GOOD), ln = Pool("length").add("3", GOOD).add("1", MAYBE).add("0", MAYBE).add("-1", BAD); static const int lns[] = {3, 1, 0, -1};
        stp("ts_ImageFilter_sub_mean", {pl, ln}, [](const Ix &x) -> S { return [x](ts_ImageFilter *f) { return ts_ImageFilter_sub_mean(f, x[0] ? v3 : nullptr, lns[x[1]]); }; }, [](const Ix &x) -> SC { return [x](ts::ImageFilter &f) { f.sub_mean(std::vector<float>(v3, v3 + lns[x[1]])); }; });
        stp("ts_ImageFilter_div_std", {pl, ln}, [](const Ix &x) -> S { return [x](ts_ImageFilter *f) { return ts_ImageFilter_div_std(f, x[0] ? v3 : nullptr, lns[x[1]]); }; }, [](const Ix &x) -> SC { return [x](ts::ImageFilter &f) { f.div_std(std::vector<float>(v3, v3 + lns[x[1]])); }; });
        stp("ts_ImageFilter_force_gray_v2", {pl, ln}, [](const Ix &x) -> S { return [x](ts_ImageFilter *f) { return ts_ImageFilter_force_gray_v2(f, x[0] ? v3 : nullptr, lns[x[1]]); }; }, [](const Ix &x) -> SC { return [x](ts::ImageFilter &f) { f.force_gray(std::vector<float>(v3, v3 + lns[x[1]])); }; });
        static const int32_t shf[] = {2, 1, 0}, shg[] = {0, 9, -4}; Pool sp = Pool("order").add("null", BAD).add("2,1,0", GOOD).add("0,9,-4", MAYBE); 
        stp("ts_ImageFilter_channel_swap", {sp, ln}, [](const Ix &x) -> S { return [x](ts_ImageFilter *f) { return ts_ImageFilter_channel_swap(f, x[0] == 0 ? nullptr : x[0] == 1 ? shf : shg, lns[x[1]]); }; }, [](const Ix &x) -> SC { return [x](ts::ImageFilter &f) { auto p = x[0] == 1 ? shf : shg; f.channel_swap(std::vector<int>(p, p + lns[x[1]])); }; });
        Pool wd("width"), hg("height"); static const int sv[] = {3, 6, 0, -2}; for (int s : sv) { wd.add(std::to_string(s), MAYBE); hg.add(std::to_string(s), MAYBE); } Pool rm("method"); for (auto s : {"linear", "cubic", "nearest", "hard"}) rm.add(s, GOOD); static const ts_ResizeMethod rms[] = {TS_RESIZE_BILINEAR, TS_RESIZE_BICUBIC, TS_RESIZE_NEAREST, ts_ResizeMethod(3)};
        typedef ts::ImageFilter::ResizeMethod RM;
        stp("ts_ImageFilter_resize", {wd, hg}, [](const Ix &x) -> S { return [x](ts_ImageFilter *f) { return ts_ImageFilter_resize(f, sv[x[0]], sv[x[1]]); }; }, [](const Ix &x) -> SC { return [x](ts::ImageFilter &f) { f.resize(sv[x[0]], sv[x[1]], RM::BILINEAR); }; });
        stp("ts_ImageFilter_resize_v2", {wd, hg, rm}, [](const Ix &x) -> S { return [x](ts_ImageFilter *f) { return ts_ImageFilter_resize_v2(f, sv[x[0]], sv[x[1]], rms[x[2]]); }; }, [](const Ix &x) -> SC { return [x](ts::ImageFilter &f) { f.resize(sv[x[0]], sv[x[1]], RM(x[2])); }; });
        stp("ts_ImageFilter_resize_scalar", {wd}, [](const Ix &x) -> S { return [x](ts_ImageFilter *f) { return ts_ImageFilter_resize_scalar(f, sv[x[0]]); }; }, [](const Ix &x) -> SC { return [x](ts::ImageFilter &f) { f.resize(sv[x[0]], RM::BILINEAR); }; });
        stp("ts_ImageFilter_resize_scalar_v2", {wd, rm}, [](const Ix &x) -> S { return [x](ts_ImageFilter *f) { return ts_ImageFilter_resize_scalar_v2(f, sv[x[0]], rms[x[1]]); }; }, [](const Ix &x) -> SC { return [x](ts::ImageFilter &f) { f.resize(sv[x[0]], RM(x[1])); }; });
        stp("ts_ImageFilter_center_crop", {wd, hg}, [](const Ix &x) -> S { return [x](ts_ImageFilter *f) { return ts_ImageFilter_center_crop(f, sv[x[0]], sv[x[1]]); }; }, [](const Ix &x) -> SC { return [x](ts::ImageFilter &f) { f.center_crop(sv[x[0]], sv[x[1]]); }; });
        stp("ts_ImageFilter_letterbox", {wd, hg, fv}, [](const Ix &x) -> S { return [x](ts_ImageFilter *f) { return ts_ImageFilter_letterbox(f, sv[x[0]], sv[x[1]], fvs[x[2]]); }; }, [](const Ix &x) -> SC { return [x](ts::ImageFilter &f) { f.letterbox(sv[x[0]], sv[x[1]], fvs[x[2]], RM::BILINEAR); }; });
        stp("ts_ImageFilter_letterbox_v2", {wd, hg, fv, rm}, [](const Ix &x) -> S { return [x](ts_ImageFilter *f) { return ts_ImageFilter_letterbox_v2(f, sv[x[0]], sv[x[1]], fvs[x[2]], rms[x[3]]); }; }, [](const Ix &x) -> SC { return [x](ts::ImageFilter &f) { f.letterbox(sv[x[0]], sv[x[1]], fvs[x[2]], RM(x[3])); }; });
        stp("ts_ImageFilter_divided", {wd, hg, fv}, [](const Ix &x) -> S { return [x](ts_ImageFilter *f) { return ts_ImageFilter_divided(f, sv[x[0]], sv[x[1]], fvs[x[2]]); }; }, [](const Ix &x) -> SC { return [x](ts::ImageFilter &f) { f.divided(sv[x[0]], sv[x[1]], fvs[x[2]]); }; });
        call("ts_ImageFilter_run", {pf, pt}, [&](const Ix &x) { return res(ts_ImageFilter_run(w.F[size_t(x[0])], w.T[size_t(x[1])])); }, [&](const Ix &x) { ts::ImageFilter f; f.to_float(); return give(f.run(cx(x[1]))); });
        call("ts_ImageFilter_module", {pf}, [&](const Ix &x) { auto m = ts_ImageFilter_module(w.F[size_t(x[0])]); Str e = ts_last_error_message(); Res r = {m != nullptr, ""}; if (m) { auto b = ts_Workbench_Load(m, &cpu); auto o = ts_new_Tensor(nullptr, 0, TS_FLOAT32, nullptr); int32_t s4[] = {1, 5, 4, 3}; auto t = ts_Tensor_reshape(w.T[3], s4, 4); r.out = b && ts_Workbench_input(b, 0, t) && ts_Workbench_run(b) && ts_Workbench_output(b, 0, o) ? see(o) : "does not run"; ts_free_Tensor(t); ts_free_Tensor(o); ts_free_Workbench(b); ts_free_Module(m); } ts_set_error_message(e.c_str()); return r; }, [&](const Ix &) -> Want { ts::ImageFilter f; f.to_float(); return give(f.run(cx(3))); });
        // operators and plugins
        call("ts_OperatorParams_get", {Pool("table").add("null", BAD), Pool("name").add("null", BAD).add("a name", GOOD)}, [&](const Ix &x) { return res(ts_OperatorParams_get(nullptr, x[1] ? "name" : nullptr)); });
        auto quietly = [](const std::function<void()> &f) { f(); return Res{!has_msg(), ""}; };
        { Pool a = Pool("device").add("null", BAD).add("cpu", GOOD), b = Pool("name").add("null", BAD).add("a name", GOOD), f1 = Pool("new").add("null", BAD).add("given", GOOD), f2 = Pool("free").add("null", BAD).add("given", GOOD), f3 = Pool("init").add("null", BAD).add("given", GOOD), f4 = Pool("infer").add("null", GOOD).add("given", GOOD), f5 = Pool("run").add("null", BAD).add("given", GOOD);
          static ts_new_Operator *fn = []() -> void * { return &cpu; }; static ts_free_Operator *ff = [](const void *) {}; static ts_Operator_init *fi = [](void *, const ts_OperatorParams *, ts_OperatorContext *) {}; static ts_Operator_init_ex *fe = [](void *, const ts_OperatorParams *, ts_OperatorContext *) -> ts_bool { return 1; }; static ts_Operator_infer *fr = [](void *, int32_t, ts_Tensor **, ts_OperatorContext *) -> ts_Tensor * { return nullptr; };
          for (int ex = 0; ex < 2; ++ex) call(ex ? "ts_Operator_RegisterEx" : "ts_Operator_Register", {a, b, f1, f2, f3, f4, f5}, [&](const Ix &x) { return quietly([&] { const char *d = x[0] ? "cpu" : nullptr, *n = x[1] ? "capi:some" : nullptr; if (ex) ts_Operator_RegisterEx(d, n, x[2] ? fn : nullptr, x[3] ? ff : nullptr, x[4] ? fe : nullptr, x[5] ? fr : nullptr, x[6] ? fr : nullptr); else ts_Operator_Register(d, n, x[2] ? fn : nullptr, x[3] ? ff : nullptr, x[4] ? fi : nullptr, x[5] ? fr : nullptr, x[6] ? fr : nullptr); }); }); }
        for (int k = 0; k < 4; ++k) { static const char *n[] = {"ts_plugin_flush_creator", "ts_plugin_bind_device_context", "ts_plugin_free_creator_map", "ts_plugin_free_device_context"}; call(n[k], {Pool("handle").add("null", k < 2 ? BAD : GOOD)}, [&](const Ix &) { return quietly([&] { if (k == 0) ts_plugin_flush_creator(nullptr); else if (k == 1) ts_plugin_bind_device_context(nullptr); else if (k == 2) ts_plugin_free_creator_map(nullptr); else ts_plugin_free_device_context(nullptr); }); }); }
        call("ts_plugin_initial_device_context", {pd}, [&](const Ix &x) { auto was = ts::ctx::get<ts::DeviceContext>(); auto c = ts_plugin_initial_device_context(dev(x[0])); Str m = ts_last_error_message(); ts::ctx::set<ts::DeviceContext>(was); ts_plugin_free_device_context(c); ts_set_error_message(m.c_str()); return Res{c != nullptr, ""}; });
        call("ts_plugin_get_creator_map", {}, [&](const Ix &) { auto c = ts_plugin_get_creator_map(); Str m = ts_last_error_message(); ts_plugin_free_creator_map(c); ts_set_error_message(m.c_str()); return Res{c != nullptr, ""}; });
        call("ts_set_error_message", {Pool("message").add("null", GOOD).add("empty", GOOD).add("text", GOOD)}, [&](const Ix &x) { ts_set_error_message("before"); ts_set_error_message(x[0] == 0 ? nullptr : x[0] == 1 ? "" : "a text"); Str m = ts_last_error_message(); if (x[0] && m != (x[0] == 1 ? "" : "a text")) fail("ts_set_error_message", "the message is " + m); ts_set_error_message(""); return Res{true, ""}; });
    }
    // ---- handles are freed in every order, and what is left works after each
    void lifetimes() {
        bool sh = S().mode == "shallow"; struct O { const char *name; std::function<Str()> use; std::function<void()> drop; };
        for (int set = 0; set < 2; ++set) {
            int n = S().thorough ? 8 : sh ? 5 : 7; std::vector<int> ord; for (int i = 0; i < n; ++i) ord.push_back(i); long at = 0;
            do { Str os; for (int i : ord) os += std::to_string(i) + " ";
                if (at++ % 1 == 0 && take(set ? "freeing tensors and filters" : "freeing modules, programs and workbenches", [&] { return os; })) {
                    std::vector<O> o; ts_Module *m = nullptr, *mf_ = nullptr; ts_Program *p = nullptr, *p2 = nullptr; ts_Workbench *b = nullptr, *b2 = nullptr, *b3 = nullptr; ts_Tensor *t[8] = {}; ts_ImageFilter *f = nullptr;
                    auto one = [](ts_Workbench *b) -> Str { bool ok; Tensor y = run1(b, 9, ok); return ok && y.data<float>(0) == 4 ? Str() : Str("it does not run: ") + ts_last_error_message(); };
                    auto same = [](ts_Tensor *t, const Str &want) { return see(t) == want ? Str() : "it is " + see(t); };
                    if (set == 0) {
                        m = ts_Module_Load(path("a.tsm").c_str(), TS_BINARY); p = ts_Program_Compile(m, &cpu); p2 = ts_Program_clone(p); b = ts_new_Workbench(&cpu); ts_Workbench_setup(b, p); b2 = ts_Workbench_clone(b); b3 = ts_Workbench_Load(m, &cpu); float x = 8; t[0] = ts_new_Tensor(nullptr, 0, TS_FLOAT32, &x); t[1] = ts_new_Tensor(nullptr, 0, TS_FLOAT32, nullptr); ts_Workbench_input(b, 0, t[0]); ts_Workbench_run(b); ts_Workbench_output(b, 0, t[1]);
                        o = {{"module", [&] { auto q = ts_Program_Compile(m, &cpu); Str s = q ? prog_out(q) : "does not compile"; ts_free_Program(q); return s == aout("p1/1 ") ? Str() : s; }, [&] { ts_free_Module(m); }},
                             {"program", [&] { Str s = prog_out(p); return s == aout("p1/1 ") ? Str() : s; }, [&] { ts_free_Program(p); }},
                             {"workbench", [&] { return one(b); }, [&] { ts_free_Workbench(b); }},
                             {"clone", [&] { return one(b2); }, [&] { ts_free_Workbench(b2); }},
                             {"output", [&] { return same(t[1], val(3)); }, [&] { ts_free_Tensor(t[1]); }},
                             {"input", [&] { return same(t[0], val(8)); }, [&] { ts_free_Tensor(t[0]); }},
                             {"program clone", [&] { Str s = prog_out(p2); return s == aout("p1/1 ") ? Str() : s; }, [&] { ts_free_Program(p2); }},
                             {"loaded workbench", [&] { return one(b3); }, [&] { ts_free_Workbench(b3); }}};
                    } else {
                        t[0] = ts_new_Tensor(nullptr, 0, TS_FLOAT32, nullptr); ts_free_Tensor(t[0]); int32_t s3[] = {5, 4, 3}, s4[] = {1, 5, 4, 3}, s2[] = {20, 3}; t[0] = ts_new_Tensor(s3, 3, TS_UINT8, ts_Tensor_data(w.T[3])); f = ts_new_ImageFilter(nullptr); ts_ImageFilter_to_float(f); t[1] = ts_ImageFilter_run(f, t[0]); t[2] = ts_Tensor_reshape(t[0], s4, 4); t[3] = ts_Tensor_cast(t[0], TS_INT32); ts_Tensor *pk[] = {t[0], t[3]}; t[4] = ts_Tensor_pack(pk, 2); t[5] = ts_Tensor_field(t[4], 1); t[6] = ts_Tensor_clone(t[2]); mf_ = ts_ImageFilter_module(f); t[7] = ts_Tensor_reshape(t[6], s2, 2);
                        std::vector<Str> want; for (int i = 0; i < 8; ++i) want.push_back(see(t[i]));
                        for (int i = 0; i < 8; ++i) { static const char *nm[] = {"image", "filtered image", "reshaped image", "cast image", "packed images", "field of it", "clone", "reshaped clone"}; Str wi = want[size_t(i)]; int k = i; if (i == 0) o.push_back({nm[i], [&t, same, wi] { return same(t[0], wi); }, [&t] { ts_free_Tensor(t[0]); }}); else o.push_back({nm[i], [&t, same, wi, k] { return same(t[k], wi); }, [&t, k] { ts_free_Tensor(t[k]); }}); }
                        // the filter and its module go at once with the first
                        Str w1 = want[1]; o[2] = {"filter", [&, w1] { auto y = ts_ImageFilter_run(f, w.T[3]); Str s = see(y); ts_free_Tensor(y); return s == w1 ? Str() : "it gives " + s; }, [&] { ts_free_ImageFilter(f); f = nullptr; }};
                        O r2 = {"filter module", [&] { auto q = ts_Program_Compile(mf_, &cpu); Str s = q ? Str() : Str("it does not compile"); ts_free_Program(q); return s; }, [&] { ts_free_Module(mf_); mf_ = nullptr; }}; if (n > 3) o[3] = r2;
                        ts_free_Tensor(t[2]); ts_free_Tensor(t[3]); }
                    std::vector<bool> gone(8, false); Str hist;
                    for (size_t i = 0; i < ord.size(); ++i) { step(); o[size_t(ord[i])].drop(); gone[size_t(ord[i])] = true; hist += Str(o[size_t(ord[i])].name) + "; "; bool last = i + 1 == ord.size(); for (size_t j = 0; j < 8 && !(last && false); ++j) if (!gone[j]) { Str e = o[j].use(); if (!e.empty()) { fail("free:" + hist + " " + o[j].name, Str("after freeing ") + hist + " the " + o[j].name + " does not work: " + e); break; } } }
                    for (size_t j = 0; j < 8; ++j) if (!gone[j]) o[j].drop();
                    state(hash_str(hist)); }
            } while (std::next_permutation(ord.begin(), ord.end()));
        }
    }
    // ---- histories on one workbench and its clone
    void benches() {
        Hist h; struct B { int prog = 0; float in[2] = {0, 0}; bool has[2] = {false, false}; int ran = 0; float out[2] = {0, 0}; bool free_ = false, open_out = true; }; static B m[2]; static ts_Workbench *b[2]; static ts_Tensor *o;
        static const std::vector<Str> nm = {"setup a", "setup b", "input 0", "input 1", "input 7 refused", "input by name x", "input by unknown name refused", "run", "output 0", "output 1", "output unknown refused", "clone", "hooked run", "switch to clone", "free the other", "set up null refused", "bad input"};
        static int cur;
        h.nops = int(nm.size()); h.name = [](int i) { return nm[size_t(i)]; };
        h.reset = [] { if (b[0]) ts_free_Workbench(b[0]); if (b[1]) ts_free_Workbench(b[1]); if (o) ts_free_Tensor(o); o = ts_new_Tensor(nullptr, 0, TS_FLOAT32, nullptr); b[0] = ts_new_Workbench(&cpu); b[1] = nullptr; m[0] = B(); m[1] = B(); cur = 0; };
        h.enabled = [](int op) { return op == 13 || op == 14 ? b[1] != nullptr : op == 11 ? b[1] == nullptr : true; };
        h.hash = [] { Str s; for (auto &x : m) s += std::to_string(x.prog) + (x.has[0] ? "x" : "-") + (x.has[1] ? "y" : "-") + std::to_string(x.ran) + (x.open_out ? "?" : "!") + std::to_string(x.in[0]) + std::to_string(x.in[1]) + "|"; return hash_str(s + std::to_string(cur)); };
        h.apply = [](int op) -> Str {
            B &q = m[cur]; ts_Workbench *x = b[cur]; ts_set_error_message(""); auto failed = [](bool ok) { return !ok && has_msg(); };
            switch (op) {
                case 0: case 1: if (!ts_Workbench_setup(x, w.P[size_t(op + 1)])) return "setup fails"; q.prog = op + 1; q.has[0] = q.has[1] = false; q.open_out = true; break;
                case 2: case 3: case 5: { int s = op == 3; static float v = 0; v = v > 90 ? 1 : v + 1; ts_Tensor *t = ts_new_Tensor(nullptr, 0, TS_FLOAT32, &v); bool ok = op == 5 ? ts_Workbench_input_by_name(x, "x", t) : ts_Workbench_input(x, s, t); Str e = ts_last_error_message(); ts_free_Tensor(t); if (ok != (q.prog > s)) return ok ? "an input that does not exist is accepted" : "the input is refused"; if (!ok && e.empty()) return "no message"; if (ok) { q.in[s] = v; q.has[s] = true; } break; }
                case 4: if (!failed(ts_Workbench_input(x, 7, w.T[1]))) return "not refused"; break;
                case 6: if (!failed(ts_Workbench_input_by_name(x, "nobody", w.T[1]))) return "not refused"; break;
                case 7: case 12: { bool ok; if (op == 12) { const char *n[] = {"s", "a"}; ok = ts_Workbench_run_hook(x, n, 2); } else ok = ts_Workbench_run(x); if (!ok && !has_msg()) return "no message"; bool all = q.prog > 0; for (int i = 0; i < q.prog; ++i) if (!q.has[i]) all = false; if (q.prog == 0) { if (ok) return "it runs without a program"; break; } if (all && !ok) return Str("it does not run: ") + ts_last_error_message(); q.open_out = !all; if (all) { q.out[0] = q.prog == 1 ? q.in[0] - 5 : q.in[0] + q.in[1]; q.out[1] = q.in[0] - q.in[1]; } break; }
                case 8: case 9: { int s = op - 8; bool ok = ts_Workbench_output(x, s, o); if (ok != (q.prog > s)) return ok ? "an output that does not exist is given" : "the output is refused"; if (!ok && !has_msg()) return "no message"; if (ok && !q.open_out) { if (see(o) != val(q.out[s])) return "the output is " + see(o) + " instead of " + val(q.out[s]); } break; }
                case 10: if (!failed(ts_Workbench_output_by_name(x, "nobody", o))) return "not refused"; break;
                case 11: b[1] = ts_Workbench_clone(x); if (!b[1]) return "no clone"; if (cur != 0) return "?"; m[1] = q; m[1].open_out = true; break;
                case 13: cur = 1 - cur; break;
                case 14: ts_free_Workbench(b[1 - cur]); if (cur == 1) { b[0] = b[1]; m[0] = m[1]; cur = 0; } b[1] = nullptr; m[1] = B(); break;
                case 15: if (!failed(ts_Workbench_setup(x, nullptr))) return "not refused"; break;
                case 16: { if (q.prog == 0) break; if (!ts_Workbench_input(x, 0, w.T[6])) return "the input is refused"; q.has[0] = false; q.open_out = true; break; }
            }
            if (ts_Workbench_input_count(b[cur]) != m[cur].prog) return "wrong number of inputs"; if (ts_Workbench_output_count(b[cur]) != m[cur].prog) return "wrong number of outputs"; return ""; };
        h.walk("histories of workbenches", S().mode == "shallow" ? 3 : S().thorough ? 6 : 4, 2);
    }
    // ---- the bound workbench
    void contexts() {
        Hist h; static ts_Workbench *b[2]; static int bound; static std::vector<std::pair<ts_Tensor *, Str>> made; static const std::vector<Str> nm = {"bind first", "bind second", "free first", "free second", "new first", "new second", "sigmoid", "tensor in flow", "view in flow", "run first", "free a tensor"};
        h.nops = int(nm.size()); h.name = [](int i) { return nm[size_t(i)]; };
        auto clear = [] { for (auto &x : made) ts_free_Tensor(x.first); made.clear(); for (auto &x : b) { ts_free_Workbench(x); x = nullptr; } ts::ctx::set<ts::Workbench>(nullptr); };
        h.reset = [clear] { clear(); bound = 0; for (auto &x : b) { x = ts_new_Workbench(&cpu); ts_Workbench_setup(x, w.P[1]); } }; h.after = clear;
        h.enabled = [](int op) { return op < 4 || op == 9 ? b[op == 9 ? 0 : op % 2] != nullptr : op < 6 ? b[op % 2] == nullptr : op == 10 ? !made.empty() : true; };
        h.hash = [] { return hash_str(std::to_string(bound) + (b[0] ? "a" : "-") + (b[1] ? "b" : "-") + std::to_string(made.size())); };
        h.apply = [](int op) -> Str {
            ts_set_error_message(""); ts_Tensor *t = nullptr; Str want;
            switch (op) {
                case 0: case 1: if (!ts_Workbench_setup_context(b[op])) return "binding fails"; bound = op + 1; break;
                case 2: case 3: ts_free_Workbench(b[op - 2]); b[op - 2] = nullptr; if (bound == op - 1) bound = 0; break;
                case 4: case 5: b[op - 4] = ts_new_Workbench(&cpu); ts_Workbench_setup(b[op - 4], w.P[1]); break;
                case 6: { t = ts_intime_sigmoid(w.T[5]); float v = 1 / (1 + std::exp(-7.f)); want = ""; if (t && std::fabs(*static_cast<float *>(ts_Tensor_data(t)) - v) > 1e-6) return "a wrong value"; break; }
                case 7: { int32_t n = 3; float d[] = {1, 2, 3}; t = ts_new_Tensor_in_flow(TS_HOST, &n, 1, TS_FLOAT32, d); want = "n1 t10[3,]" + hex(d, 12); break; }
                case 8: t = ts_Tensor_view_in_flow(w.T[1], TS_DEVICE); want = w.TS[1]; break;
                case 9: { bool ok; Tensor y = run1(b[0], 20, ok); if (!ok || y.data<float>(0) != 15) return "it does not run"; break; }
                case 10: ts_free_Tensor(made.back().first); made.pop_back(); break; }
            if (op >= 6 && op <= 8) { if (!bound) { if (t) return "it works without a workbench"; if (!has_msg()) return "no message"; } else { if (!t) return Str("it fails: ") + ts_last_error_message(); Str s = see(t); if (!want.empty() && s != want) return "it is " + s; made.push_back({t, s}); } }
            for (auto &x : made) if (see(x.first) != x.second) return "an earlier result is changed to " + see(x.first); return ""; };
        h.walk("the bound workbench", S().mode == "shallow" ? 4 : S().thorough ? 7 : 6, 2);
        ts_Workbench_setup_context(base);
    }
    // ---- every interleaving of the calls of two threads: the message belongs to the thread
    void threads() {
        int n = 3, kinds = 4; std::vector<int> a(size_t(2 * n), 0);
        for (int c = 0; c < 4096; ++c) for (int il = 0; il < (1 << 6); ++il) { if (__builtin_popcount(unsigned(il)) != n) continue; std::vector<int> op; for (int i = 0, v = c; i < 6; ++i, v /= kinds) op.push_back(v % kinds); if (S().mode == "shallow" && c % 7) continue; if (!S().thorough && c % 3) continue;
            if (take("messages of two threads", [&] { return "calls " + strv(op) + " order " + std::to_string(il); })) {
                std::mutex mu; std::condition_variable cv; int turn = 0; std::vector<Str> bad;
                auto body = [&](int me) { Str mine = ""; bool known = false; int k = 0; ts_Tensor *t = nullptr; { std::unique_lock<std::mutex> l(mu); }
                    for (int pos = 0; pos < 6; ++pos) { if (((il >> pos) & 1) != me) continue; std::unique_lock<std::mutex> l(mu); cv.wait(l, [&] { return turn == pos; }); int o = op[size_t(me * 3 + k)]; ++k;
                        if (known && Str(ts_last_error_message()) != mine) bad.push_back("thread " + std::to_string(me) + " finds \"" + ts_last_error_message() + "\" instead of \"" + mine + "\"");
                        if (o == 0) { if (ts_Tensor_clone(nullptr)) bad.push_back("?"); if (!has_msg()) bad.push_back("no message"); } else if (o == 1) { if (ts_Module_Load(path("missing").c_str(), TS_BINARY)) bad.push_back("?"); if (!has_msg()) bad.push_back("no message"); } else if (o == 2) { t = ts_Tensor_clone(w.T[1]); if (!t || has_msg()) bad.push_back("a good call fails or leaves a message"); ts_free_Tensor(t); } else ts_set_error_message(("own " + std::to_string(me) + std::to_string(k)).c_str());
                        mine = ts_last_error_message(); known = true; ++turn; cv.notify_all(); }
                    std::unique_lock<std::mutex> l(mu); cv.wait(l, [&] { return turn == 6; }); if (known && Str(ts_last_error_message()) != mine) bad.push_back("a message was replaced by another thread"); };
                std::thread t0(body, 0), t1(body, 1); t0.join(); t1.join(); step(6); if (!bad.empty()) fail("threads:" + strv(op) + std::to_string(il), bad[0]); state(hash_str(strv(op) + std::to_string(il))); } }
    }
    // ---- user operators that fail at any stage
    int u_live = 0, u_what = 0, u_stage = 0; std::vector<int> u_infer; bool u_infer_null = false;
    // what: 0 fine, 1 returns null/false, 2 throws through the interface, 3 sets a message and fails, 4 throws a standard exception
    bool at(int stage) { return u_stage == stage && u_what != 0; }
    void misbehave() { if (u_what == 2) ts_Operator_Throw("told so"); if (u_what == 3) ts_set_error_message("told so"); if (u_what == 4) throw std::runtime_error("told so"); if (u_what == 5) ts_Operator_Throw(nullptr); if (u_what == 6) ts_Operator_ThrowV2("told so", "file", 3); }
    void *u_new() { if (at(0)) { misbehave(); return nullptr; } ++u_live; return &u_live; }
    void u_free(const void *p) { if (p != &u_live) fail("user", "a wrong object is freed"); --u_live; }
    float u_add = 0;
    bool u_params(const ts_OperatorParams *d) { ts_Tensor *t = ts_OperatorParams_get(d, "bias"); if (!t) return false; u_add = *static_cast<float *>(ts_Tensor_data(t)); ts_free_Tensor(t); t = ts_OperatorParams_get(d, "nothing"); if (t) fail("user", "a missing parameter is given"); ts_free_Tensor(t); return true; }
    ts_bool u_init(void *, const ts_OperatorParams *d, ts_OperatorContext *) { u_params(d); if (at(1)) { misbehave(); return 0; } return 1; }
    void u_init0(void *, const ts_OperatorParams *d, ts_OperatorContext *) { u_params(d); if (at(1)) misbehave(); }
    ts_Tensor *u_inf(void *, int32_t, ts_Tensor **, ts_OperatorContext *) { if (at(2)) { misbehave(); return nullptr; } int32_t n = int32_t(u_infer.size()); return ts_new_Tensor(&n, 1, TS_INT32, u_infer.data()); }
    ts_Tensor *u_run(void *, int32_t n, ts_Tensor **v, ts_OperatorContext *) { if (at(3)) { misbehave(); return nullptr; } if (n != 1) return nullptr; float x = *static_cast<float *>(ts_Tensor_data(v[0])) + u_add; return ts_new_Tensor_in_flow(TS_HOST, nullptr, 0, TS_FLOAT32, &x); }
    void users() {
        ts_Operator_RegisterEx("cpu", "capi:ex", u_new, u_free, u_init, nullptr, u_run); ts_Operator_RegisterEx("cpu", "capi:exi", u_new, u_free, u_init, u_inf, u_run); ts_Operator_Register("cpu", "capi:plain", u_new, u_free, u_init0, nullptr, u_run); ts_Operator_Register("cpu", "capi:plaini", u_new, u_free, u_init0, u_inf, u_run);
        static const char *opn[] = {"capi:ex", "capi:exi", "capi:plain", "capi:plaini"};
        for (int o = 0; o < 4; ++o) for (int stage = 0; stage < 4; ++stage) for (int what = 0; what < 7; ++what) for (int bias = 0; bias < 2; ++bias) if (take("failing user operators", [&] { return Str(opn[o]) + " stage " + std::to_string(stage) + " way " + std::to_string(what); })) {
            step(); u_what = 0; u_stage = stage; u_infer = {1, TS_FLOAT32, 0}; u_add = 0; int live0 = u_live; Str k = "user:" + Str(opn[o]) + "/" + std::to_string(stage) + "/" + std::to_string(what);
            ts::Module::shared m; { ts::Graph g; ts::ctx::bind<ts::Graph> _b(g); auto x = ts::bubble::param("x"); auto q = ts::bubble::op("u", opn[o], {x}); if (bias) q.bubble().set("bias", ts::tensor::from<float>(2.5f)); m = ts::Module::Load(g, {q}); } { mf::Out f; ts::Module::Save(f, m); std::ofstream(path("u"), std::ios::binary) << f.b; }
            u_what = what; bool expect = what == 0 || (stage == 2) || (stage == 1 && o >= 2 && (what == 1 || what == 3)); u_add = 0;
            try { ts_set_error_message(""); auto mo = ts_Module_Load(path("u").c_str(), TS_BINARY); auto b = mo ? ts_Workbench_Load(mo, &cpu) : nullptr; Str msg = ts_last_error_message(); bool ok = false; Tensor y; if (b) { float v = 4; ts_Tensor *in = ts_new_Tensor(nullptr, 0, TS_FLOAT32, &v), *out = ts_new_Tensor(nullptr, 0, TS_FLOAT32, nullptr); ts_Workbench_input(b, 0, in); ok = ts_Workbench_run(b) != 0; msg = ts_last_error_message(); if (ok) { ts_Workbench_output(b, 0, out); float want = 4 + (bias ? 2.5f : 0); if (see(out) != val(want)) fail(k, "it gives " + see(out)); } ts_free_Tensor(in); ts_free_Tensor(out); }
                if (stage == 2 && what) { /* prediction may or may not be asked for */ } else if (ok != expect) fail(k, ok ? "it runs although its operator fails" : "it fails: " + msg); if (!ok && msg.empty()) fail(k, "no message"); if (!ok && (what == 2 || what == 3 || what == 4 || what == 6) && msg.find("told so") == Str::npos) fail(k, "the message does not say what the operator said: " + msg);
                ts_free_Workbench(b); ts_free_Module(mo); } catch (const std::exception &e) { fail(k, Str("an exception leaves the interface: ") + e.what()); }
            if (u_live != live0) { fail(k, std::to_string(u_live - live0) + " objects are not freed"); u_live = live0; } u_what = 0; intact(k); state(hash_str(k)); }
        // what an operator may say of its output
        static const int vs[] = {-1, 0, 1, 2, 3, TS_FLOAT32}; int len = S().thorough ? 6 : S().mode == "shallow" ? 4 : 5;
        for (int n = 0; n <= len; ++n) { Ix ix(size_t(n), 0); while (true) { 
            if (take("predictions of user operators", [&] { Str s; for (int i : ix) s += std::to_string(vs[i]) + " "; return s; })) {
                step(); u_infer.clear(); for (int i : ix) u_infer.push_back(vs[i]); u_what = 0; std::vector<std::pair<int, Sh>> want; bool good = n > 0 && u_infer[0] > 0; size_t p = 1; for (int f = 0; good && f < u_infer[0]; ++f) { if (p + 2 > u_infer.size()) { good = false; break; } int t = u_infer[p++], d = u_infer[p++]; if (d < 0 || p + size_t(d) > u_infer.size()) { good = false; break; } Sh s(u_infer.begin() + long(p), u_infer.begin() + long(p) + d); p += size_t(d); want.push_back({t, s}); }
                bool open = good && p != u_infer.size(); for (auto &q : want) { if (q.first < 0) open = true; for (int d : q.second) if (d < 0) open = true; } 
                Str k = "infer:" + strv(u_infer); Bench bench; std::vector<Tensor::Prototype> got; bool ok = false; Str msg; try { auto op = bench.b->offline_create(ts::Bubble("capi:exi", "n"), true); R x(ts::FLOAT32, {}, {1}); bench.b->offline_infer(op, {make(x)}, got); ok = true; } catch (const std::exception &e) { msg = e.what(); }
                if (ok && !good) fail(k, "a meaningless prediction is accepted"); if (!ok && good && !open) fail(k, "a prediction is refused: " + msg); if (ok && good && !open) { bool same = got.size() == want.size(); for (size_t i = 0; same && i < got.size(); ++i) same = int(got[i].dtype()) == want[i].first && Sh(got[i].sizes().begin(), got[i].sizes().end()) == want[i].second; if (!same) fail(k, "the prediction is read wrongly"); } state(hash_str(k)); }
            int i = n - 1; for (; i >= 0; --i) { if (++ix[size_t(i)] < 6) break; ix[size_t(i)] = 0; } if (i < 0) break; } }
    }
}
