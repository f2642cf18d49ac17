// One operator call by every route the library offers (operator object, bubble from the frontend,
// immediate call in C++ / C / the C++ wrapper, node of a compiled graph with inputs given at run time or
// as constants), against the operator itself with its documented parameters; and hooks, profiler and
// user operators on small graphs against the order in which the operators execute.
#include "ops.h"
#include "module/menu.h"
#include "global/operator_factory.h"
#include "runtime/program.h"
#include "core/device_context.h"
#include "frontend/intime.h"
#include "frontend/frontend.h"
#include "board/hook.h"
#include "board/profiler.h"
#include "../src/api/declare_tensor.h"
#include <api/tennis.h>
#include <api/intime.h>
#include <api/operator.h>
#include <api/cpp/tennis.h>
#include <api/cpp/intime.h>
using namespace vf;
using namespace ts;
namespace {
    Bench *bench;
    struct Res { bool ok = false; std::string err; std::vector<R> v; };
    std::string text(const Res &r) { if (!r.ok) return "refused (" + r.err.substr(0, 120) + ")"; std::string s; for (auto &x : r.v) s += vf::show(x) + " "; return s; }
    Res from(const Tensor &t) { Res r; r.ok = true; for (auto &f : t.unpack()) r.v.push_back(read(f)); return r; }
    template<typename F> Res attempt(F f) {
        Res r; size_t depth = bench->b->stack().size();
        try { r = f(); } catch (const std::exception &e) { r = Res(); r.err = e.what(); }
        if (bench->b->stack().size() != depth) fail("stack:" + S().cls, "the stack of the workbench is not restored");
        return r;
    }
    bool same(const Res &a, const Res &b) { if (a.ok != b.ok) return false; if (!a.ok) return true; if (a.v.size() != b.v.size()) return false; for (size_t i = 0; i < a.v.size(); ++i) if (!diff(a.v[i], b.v[i]).empty()) return false; return true; }
    typedef std::vector<Tensor> TV; typedef std::vector<Node> NV; typedef std::vector<frontend::NodeOrTensor> FV; typedef std::vector<ts_Tensor *> CV; typedef std::vector<api::Tensor> AV;
    struct FC {
        std::string op; std::vector<P> par; std::vector<R> in;
        bool graph = true;                         // may also run inside a program
        bool bare = true;
        std::function<Bubble()> desc;
        std::function<Tensor(const TV &)> intime;
        std::vector<std::pair<std::string, std::function<Tensor(const TV &)>>> more;
        std::function<ts_Tensor *(const CV &)> capi;
        std::function<api::Tensor(const AV &)> cpp;
        std::function<Node(const NV &)> sym;
        std::function<Node(const FV &)> front;
        std::vector<std::pair<std::string, std::function<Node(const FV &)>>> fmore;
    };
    Tensor last_kept; R last_value; bool have_last = false; std::string last_what;
    Res program(const std::function<Node(Graph &, NV &)> &build, const TV &ti, int params) {
        Graph g; ctx::bind<Graph> _g(g);
        NV in; auto n = build(g, in);
        auto m = Module::Load(g, NV{n});
        if (!in.empty()) m->sort_inputs(in);
        auto p = bench->b->compile(m);
        TV args(ti.begin(), ti.begin() + params);
        auto o = bench->b->launch_offline(p, args);
        auto o2 = bench->b->launch_offline(p, args);
        step(2);
        auto a = from(o.at(0)), b = from(o2.at(0));
        if (!same(a, b)) fail("twice:" + S().cls, "the second run gives " + text(b) + " after " + text(a));
        return a;
    }
    void judge(const std::string &name, const FC &c) {
        if (!take(name, [&] { std::ostringstream o; o << c.op; for (auto &p : c.par) o << " " << p.name << "=" << vf::show(read(p.value)); for (auto &r : c.in) o << " " << vf::show(r); return o.str(); })) return;
        auto &b = *bench->b;
        TV ti; std::vector<uint64_t> before; for (auto &r : c.in) { ti.push_back(make(r)); before.push_back(hashR(r)); }
        Res want;
        { auto o = bench->run(c.op, c.par, ti); want.ok = o.ok; want.err = o.err; for (auto &t : o.t) for (auto &f : t.unpack()) want.v.push_back(read(f)); }
        step();
        for (auto &r : want.v) state(hashR(r)); if (!want.ok) state(name + " refused");
        std::vector<std::pair<Tensor, std::string>> keep;
        auto cmp = [&](const std::string &route, const Res &got) {
            step();
            if (!same(got, want)) fail(route + ":" + name, route + " gives " + text(got) + " instead of " + text(want));
            for (size_t i = 0; i < ti.size(); ++i) if (hashR(read(ti[i])) != before[i]) fail("input:" + route + ":" + name, "input " + std::to_string(i) + " was changed");
            for (auto &k : keep) if (!same(from(k.first), want)) fail("kept:" + name, "the result of " + k.second + " changed during " + route);
        };
        auto now = [&](const std::string &route, const std::function<Tensor()> &f) { Tensor t; auto r = attempt([&] { t = f(); return from(t); }); cmp(route, r); if (r.ok && same(r, want)) keep.push_back({t, route}); };
        if (c.desc) {
            now("frontend bubble", [&] { return ts::intime::run(b, c.desc(), ti); });
            ctx::bind<Workbench> _b(b);
            now("frontend bubble on the bound workbench", [&] { return ts::intime::run(c.desc(), ti); });
        }
        now("immediate bubble", [&] { Bubble u(c.op, "n"); for (auto &p : c.par) u.set(p.name, p.value); return ts::intime::run(b, u, ti); });
        {
            ctx::bind<Workbench> _b(b);
            if (c.intime) now("intime", [&] { return c.intime(ti); });
            for (auto &m : c.more) now("intime " + m.first, [&] { return m.second(ti); });
            if (c.capi) now("C interface", [&] {
                std::vector<std::unique_ptr<ts_Tensor>> h; CV v; for (auto &t : ti) { h.emplace_back(new ts_Tensor(t)); v.push_back(h.back().get()); }
                std::unique_ptr<ts_Tensor> r(c.capi(v)); if (!r) throw Exception(ts_last_error_message()); return Tensor(**r); });
            if (c.cpp) now("C++ wrapper", [&] {
                AV v; for (auto &t : ti) v.push_back(api::Tensor::NewRef(new ts_Tensor(t)));
                auto r = c.cpp(v); return Tensor(**r.get_raw()); });
        }
        if (c.graph) {
            auto params = [&](NV &in) { for (size_t i = 0; i < ti.size(); ++i) in.push_back(bubble::param("in" + std::to_string(i))); };
            auto run = [&](const std::string &route, int np, const std::function<Node(NV &in)> &f) { cmp(route, attempt([&] { return program([&](Graph &, NV &in) { return f(in); }, ti, np); })); };
            run("operator node", int(ti.size()), [&](NV &in) { params(in); auto n = bubble::op("n", c.op, in); for (auto &p : c.par) n->set(p.name, p.value); return n; });
            if (c.desc) run("bubble node", int(ti.size()), [&](NV &in) { params(in); auto n = bubble::bubble(c.desc(), "n"); Node::Link(n, in); return n; });
            if (c.sym) run("symbol node", int(ti.size()), [&](NV &in) { params(in); return c.sym(in); });
            if (c.front) {
                run("frontend node", int(ti.size()), [&](NV &in) { params(in); FV v(in.begin(), in.end()); return c.front(v); });
                run("frontend node of constants", 0, [&](NV &) { FV v; for (auto &t : ti) v.emplace_back(t); return c.front(v); });
                if (ti.size() > 1) run("frontend node of an input and constants", 1, [&](NV &in) { in.push_back(bubble::param("in0")); FV v; v.emplace_back(in[0]); for (size_t i = 1; i < ti.size(); ++i) v.emplace_back(ti[i], CPU); return c.front(v); });
            }
            for (auto &m : c.fmore) {
                run("frontend " + m.first, 1, [&](NV &in) { in.push_back(bubble::param("in0")); FV v; v.emplace_back(in[0]); for (size_t i = 1; i < ti.size(); ++i) v.emplace_back(ti[i], MemoryDevice(CPU)); return m.second(v); });
                run("frontend of constants " + m.first, 0, [&](NV &) { FV v; for (auto &t : ti) v.emplace_back(t, "cpu"); return m.second(v); });
            }
        }
        // a result stays what it was while other calls are made
        if (have_last && hashR(read(last_kept)) != hashR(last_value)) { fail("kept-later:" + name, "a result of " + last_what + " changed after later calls"); have_last = false; }
        if (!keep.empty() && keep[0].first.fields_count() == 1) { last_kept = keep[0].first; last_value = read(last_kept); last_what = name; have_last = true; }
    }
    R ivec(const std::vector<int> &v) { return R(INT32, Sh{int(v.size())}, std::vector<double>(v.begin(), v.end())); }
    void routes(bool th) {
        std::vector<DTYPE> num = {FLOAT32, FLOAT64, INT32, INT8};
        // arithmetic
        struct Ar { std::string op; Bubble (*d)(); Tensor (*i)(const Tensor &, const Tensor &); Node (*s)(const std::string &, const Node &, const Node &); Node (*f)(const std::string &, const frontend::NodeOrTensor &, const frontend::NodeOrTensor &); };
        for (auto &a : {Ar{"add", desc::add, ts::intime::add, symbol::add, frontend::add}, Ar{"sub", desc::sub, ts::intime::sub, symbol::sub, frontend::sub}, Ar{"mul", desc::mul, ts::intime::mul, symbol::mul, frontend::mul}, Ar{"div", desc::div, ts::intime::div, symbol::div, frontend::div}})
            for (auto dt : num) for (auto &s : {Sh{2}, Sh{3}, Sh{1}, Sh{2, 3}, Sh{2, 1}, Sh{}, Sh{2, 2, 3}}) for (auto &t : {Sh{2}, Sh{3}, Sh{1}, Sh{2, 3}, Sh{1, 3}, Sh{}}) {
                FC c; c.op = a.op; c.in = {iota(dt, s, 2), iota(dt, t, 3)}; c.desc = a.d; c.intime = [&](const TV &x) { return a.i(x[0], x[1]); }; c.sym = [&](const NV &x) { return a.s("n", x[0], x[1]); }; c.front = [&](const FV &x) { return a.f("n", x[0], x[1]); };
                judge(a.op, c);
            }
        // transpose
        for (auto dt : {FLOAT32, UINT8, INT64}) for (auto &s : {Sh{3}, Sh{2, 3}, Sh{2, 3, 2}, Sh{1, 2, 3, 2}}) for (int len = 1; len <= 4; ++len) each(Sh(len, len < 4 ? len + 1 : len), [&](const Sh &k) {
            Sh p = k; if (len == 4 && !th && dt != FLOAT32) return; if (len == 4) { auto q = p; std::sort(q.begin(), q.end()); if (std::unique(q.begin(), q.end()) != q.end()) return; }
            FC c; c.op = "_transpose"; c.par = {{"permute", pv(p)}}; c.in = {iota(dt, s)}; c.desc = [p] { return desc::transpose(p); }; c.intime = [p](const TV &x) { return ts::intime::transpose(x[0], p); };
            c.capi = [p](const CV &x) { return ts_intime_transpose(x[0], p.data(), int(p.size())); }; c.cpp = [p](const AV &x) { return api::intime::transpose(x[0], p); };
            c.sym = [p](const NV &x) { return symbol::transpose("n", x[0], p); }; c.front = [p](const FV &x) { return frontend::transpose("n", x[0], p); };
            judge("transpose", c);
        });
        for (auto dt : {FLOAT32, FLOAT64, INT32, UINT8}) for (auto &s : {Sh{}, Sh{3}, Sh{2, 3}, Sh{1, 9}}) {
            FC c; c.op = "sigmoid"; c.in = {iota(dt, s)}; c.desc = desc::sigmoid; c.intime = [](const TV &x) { return ts::intime::sigmoid(x[0]); }; c.capi = [](const CV &x) { return ts_intime_sigmoid(x[0]); }; c.cpp = [](const AV &x) { return api::intime::sigmoid(x[0]); };
            c.sym = [](const NV &x) { return symbol::sigmoid("n", x[0]); }; c.front = [](const FV &x) { return frontend::sigmoid("n", x[0]); };
            judge("sigmoid", c);
        }
        // gather
        for (auto dt : {FLOAT32, INT32}) for (auto &s : {Sh{3}, Sh{2, 3}, Sh{3, 2, 2}}) for (auto &ix : {std::vector<int>{0}, {1}, {1, 0}, {0, 0, 1}, {1, 1, 0, 0}, {5}, {-1}, {0, 9}}) for (int ax = -3; ax <= 3; ++ax) {
            FC c; c.op = "gather"; c.par = {{"axis", pi(ax)}}; c.in = {iota(dt, s), ivec(ix)}; c.desc = [ax] { return desc::gather(ax); }; c.intime = [ax](const TV &x) { return ts::intime::gather(x[0], x[1], ax); };
            c.more = {{"vector", [ax, ix](const TV &x) { return ts::intime::gather(x[0], ix, ax); }}};
            c.capi = [ax](const CV &x) { return ts_intime_gather(x[0], x[1], ax); }; c.cpp = [ax](const AV &x) { return api::intime::gather(x[0], x[1], ax); };
            c.sym = [ax](const NV &x) { return symbol::gather("n", x[0], x[1], ax); }; c.front = [ax](const FV &x) { return frontend::gather("n", x[0], x[1], ax); };
            judge("gather", c);
        }
        // concat
        for (auto dt : {FLOAT32, UINT8}) for (auto &s : {Sh{2}, Sh{2, 3}, Sh{1, 3}, Sh{2, 1, 2}}) for (auto &t : {Sh{2}, Sh{3}, Sh{2, 3}, Sh{2, 1}, Sh{2, 1, 2}, Sh{2, 2, 2}}) for (int n = 1; n <= 3; ++n) for (int d = -3; d <= 3; ++d) {
            if (n == 1 && (t != Sh{2} || d >= int(s.size()) || d < -int(s.size()))) continue;    // one tensor is handed on as it is
            FC c; c.op = "concat"; c.par = {{"dim", pi(d)}}; c.in = {iota(dt, s)}; if (n > 1) c.in.push_back(iota(dt, t, 50)); if (n > 2) c.in.push_back(iota(dt, s, 80));
            c.desc = [d] { return desc::concat(d); }; c.intime = [d](const TV &x) { return ts::intime::concat(x, d); }; c.capi = [d](const CV &x) { return ts_intime_concat(x.data(), int(x.size()), d); }; c.cpp = [d](const AV &x) { return api::intime::concat(x, d); };
            c.sym = [d](const NV &x) { return symbol::concat("n", x, d); }; c.front = [d](const FV &x) { return frontend::concat("n", x, d); };
            judge("concat", c);
        }
        // softmax
        for (auto dt : {FLOAT32, FLOAT64, INT32}) for (auto &s : {Sh{3}, Sh{2, 3}, Sh{2, 1, 3}}) for (int d = -4; d <= 3; ++d) for (int sm = 0; sm < 2; ++sm) {
            if (!sm && dt == INT32) continue;
            FC c; c.op = "softmax"; c.par = {{"dim", pi(d)}, {"smooth", pb(sm)}}; c.in = {iota(dt, s)}; bool q = sm; c.desc = [d, q] { return desc::softmax(d, q); }; c.intime = [d, q](const TV &x) { return ts::intime::softmax(x[0], d, q); };
            if (q) c.more = {{"default", [d](const TV &x) { return ts::intime::softmax(x[0], d); }}};
            c.capi = [d, sm](const CV &x) { return ts_intime_softmax(x[0], d, sm); }; c.cpp = [d, q](const AV &x) { return api::intime::softmax(x[0], d, q); };
            c.sym = [d, q](const NV &x) { return symbol::softmax("n", x[0], d, q); }; c.front = [d, q](const FV &x) { return frontend::softmax("n", x[0], d, q); };
            judge("softmax", c);
        }
        // pad
        for (auto dt : {FLOAT32, INT16}) for (auto &s : {Sh{3}, Sh{2, 3}}) each(Sh(s.size() * 2, s.size() == 1 ? 5 : 3), [&](const Sh &k)
            {
            std::vector<int> p; for (int x : k) p.push_back(x - (s.size() == 1 ? 2 : 1));
            for (int extra = 0; extra < (k[0] == 1 ? 2 : 1); ++extra) for (float v : {0.f, 7.f}) {
                auto pp = p; if (extra) { pp.push_back(0); pp.push_back(1); }
                bool small = false; for (size_t i = 0; i < s.size(); ++i) if (s[i] + p[2 * i] + p[2 * i + 1] < 1) small = true;
                if (small) continue;
                FC c; c.op = "pad"; c.par = {{"padding_value", pf(v)}}; R pr(INT32, Sh{int(pp.size()) / 2, 2}, std::vector<double>(pp.begin(), pp.end())); c.in = {iota(dt, s), pr};
                c.desc = [v] { return desc::pad(v); }; c.intime = [v](const TV &x) { return ts::intime::pad(x[0], x[1], v); }; c.capi = [v](const CV &x) { return ts_intime_pad(x[0], x[1], v); }; c.cpp = [v](const AV &x) { return api::intime::pad(x[0], x[1], v); };
                c.sym = [v](const NV &x) { return symbol::pad("n", x[0], x[1], v); }; c.front = [v](const FV &x) { return frontend::pad("n", x[0], x[1], v); };
                std::vector<frontend::DimPadding> dp; for (size_t i = 0; i < pp.size(); i += 2) dp.push_back({pp[i], pp[i + 1]});
                c.fmore = {{"with the padding given as numbers", [dp, v](const FV &x) { return frontend::pad("n", x[0], dp, v); }}};
                if (v == 0) c.more = {{"default", [](const TV &x) { return ts::intime::pad(x[0], x[1]); }}};
                judge("pad", c);
            }
        });
        // cast
        for (auto a : {BOOLEAN, INT8, UINT8, INT16, INT32, INT64, FLOAT32, FLOAT64, FLOAT16}) for (auto t : {BOOLEAN, INT8, UINT8, INT16, UINT16, INT32, UINT32, INT64, UINT64, FLOAT32, FLOAT64, FLOAT16, CHAR8, VOID}) for (auto &s : {Sh{3}, Sh{}}) {
            FC c; c.op = "_cast"; c.par = {{"dtype", pi(int(t))}}; c.in = {iota(a, s)}; c.desc = [t] { return desc::cast(t); }; c.intime = [t](const TV &x) { return ts::intime::cast(x[0], t); }; c.capi = [t](const CV &x) { return ts_intime_cast(x[0], ts_DTYPE(t)); }; c.cpp = [t](const AV &x) { return api::intime::cast(x[0], ts_DTYPE(t)); };
            c.sym = [t](const NV &x) { return symbol::cast("n", x[0], t); }; c.front = [t](const FV &x) { return frontend::cast("n", x[0], t); };
            judge("cast", c);
        }
        // resize2d
        for (auto dt : {FLOAT32, UINT8}) for (auto &s : {Sh{2, 3}, Sh{2, 3, 1}, Sh{1, 2, 2, 3}}) for (auto &z : {std::vector<int>{4, 3}, {1, 1}, {-1, 4, 3, -1}, {-1, 1, 5, -1}, {4, 3, -1}, {-1, 4, 3}, {-1}, {-1, -1}, {2, 3, -1, -1}}) for (int t = 0; t < 4; ++t) {
            FC c; auto rt = desc::ResizeType(t); c.op = "_resize2d"; c.par = {{"type", pi(t)}}; c.in = {iota(dt, s), ivec(z)}; c.desc = [rt] { return desc::resize2d(rt); }; c.intime = [rt](const TV &x) { return ts::intime::resize2d(x[0], x[1], rt); };
            c.more = {{"vector", [rt, z](const TV &x) { return ts::intime::resize2d(x[0], z, rt); }}}; if (t == 0) c.more.push_back({"default", [](const TV &x) { return ts::intime::resize2d(x[0], x[1]); }});
            c.capi = [t](const CV &x) { return ts_intime_resize2d(x[0], x[1], t); }; c.cpp = [t](const AV &x) { return api::intime::resize2d(x[0], x[1], api::intime::ResizeMethod(t)); };
            c.sym = [rt](const NV &x) { return symbol::resize2d("n", x[0], x[1], rt); }; c.front = [rt](const FV &x) { return frontend::resize2d("n", x[0], x[1], rt); };
            c.fmore = {{"with the size given as numbers", [rt, z](const FV &x) { return frontend::resize2d("n", x[0], z, rt); }}};
            judge("resize2d", c);
        }
        // affine sampling
        for (auto dt : {FLOAT32, UINT8}) for (auto &s : {Sh{3, 2}, Sh{2, 3, 2}, Sh{1, 3, 2, 2}}) for (auto &z : {std::vector<int>{2, 3}, {3, 1}}) for (int mi = 0; mi < 4; ++mi) for (int d = -4; d <= 3; ++d) for (int t = 0; t < 5; ++t) for (int on = 0; on < 3; ++on) {
            if (t == 4 && mi) continue;
            static const std::array<float, 9> ms[4] = {{1, 0, 0, 0, 1, 0, 0, 0, 1}, {1, 0, -1, 0, 1, 1, 0, 0, 1}, {0, 1, 0, 1, 0, 0, 0, 0, 1}, {.5f, 0, .25f, 0, 2, 0, 0, 0, 1}};
            auto m = ms[mi]; std::array<int32_t, 2> za = {z[0], z[1]}; float ov = on == 2 ? 9.f : 0.f; auto rt = desc::ResizeType(t); auto at = api::intime::ResizeMethod(t);
            FC c; c.op = "affine_sample2d"; c.par = {{"type", pi(t)}, {"dim", pi(d)}}; if (on) c.par.push_back({"outer_value", pf(ov)}); R mr(FLOAT32, Sh{3, 3}, std::vector<double>(m.begin(), m.end())); c.in = {iota(dt, s), ivec(z), mr};
            if (on) {
                c.desc = [=] { return desc::affine_sample2d(d, ov, rt); };
                c.intime = [=](const TV &x) { return ts::intime::affine_sample2d(x[0], x[1], x[2], d, ov, rt); };
                c.more = {{"size", [=](const TV &x) { return ts::intime::affine_sample2d("n", x[0], za, x[2], d, ov, rt); }}, {"matrix", [=](const TV &x) { return ts::intime::affine_sample2d("n", x[0], x[1], m, d, ov, rt); }}, {"both", [=](const TV &x) { return ts::intime::affine_sample2d("n", x[0], za, m, d, ov, rt); }},
                          {"wrapper size", [=](const TV &x) { auto r = api::intime::affine_sample2d(api::Tensor::NewRef(new ts_Tensor(x[0])), za, api::Tensor::NewRef(new ts_Tensor(x[2])), d, ov, at); return Tensor(**r.get_raw()); }}, {"wrapper matrix", [=](const TV &x) { auto r = api::intime::affine_sample2d(api::Tensor::NewRef(new ts_Tensor(x[0])), api::Tensor::NewRef(new ts_Tensor(x[1])), m, d, ov, at); return Tensor(**r.get_raw()); }}, {"wrapper both", [=](const TV &x) { auto r = api::intime::affine_sample2d(api::Tensor::NewRef(new ts_Tensor(x[0])), za, m, d, ov, at); return Tensor(**r.get_raw()); }}};
                c.capi = [=](const CV &x) { return ts_intime_affine_sample2d(x[0], x[1], x[2], d, ov, t); }; c.cpp = [=](const AV &x) { return api::intime::affine_sample2d(x[0], x[1], x[2], d, ov, at); };
                c.sym = [=](const NV &x) { return symbol::affine_sample2d("n", x[0], x[1], x[2], d, ov, rt); }; c.front = [=](const FV &x) { return frontend::affine_sample2d("n", x[0], x[1], x[2], d, ov, rt); };
                c.fmore = {{"size", [=](const FV &x) { return frontend::affine_sample2d("n", x[0], za, x[2], d, ov, rt); }}, {"matrix", [=](const FV &x) { return frontend::affine_sample2d("n", x[0], x[1], m, d, ov, rt); }}, {"both", [=](const FV &x) { return frontend::affine_sample2d("n", x[0], za, m, d, ov, rt); }}};
            } else {
                c.desc = [=] { return desc::affine_on_sample2d(d, rt); };
                c.intime = [=](const TV &x) { return ts::intime::affine_on_sample2d(x[0], x[1], x[2], d, rt); };
                c.more = {{"size", [=](const TV &x) { return ts::intime::affine_on_sample2d("n", x[0], za, x[2], d, rt); }}, {"matrix", [=](const TV &x) { return ts::intime::affine_on_sample2d("n", x[0], x[1], m, d, rt); }}, {"both", [=](const TV &x) { return ts::intime::affine_on_sample2d("n", x[0], za, m, d, rt); }}};
                c.capi = [=](const CV &x) { return ts_intime_affine_on_sample2d(x[0], x[1], x[2], d, t); }; c.cpp = [=](const AV &x) { return api::intime::affine_on_sample2d(x[0], x[1], x[2], d, at); };
                c.sym = [=](const NV &x) { return symbol::affine_on_sample2d("n", x[0], x[1], x[2], d, rt); }; c.front = [=](const FV &x) { return frontend::affine_on_sample2d("n", x[0], x[1], x[2], d, rt); };
                c.fmore = {{"size", [=](const FV &x) { return frontend::affine_on_sample2d("n", x[0], za, x[2], d, rt); }}, {"matrix", [=](const FV &x) { return frontend::affine_on_sample2d("n", x[0], x[1], m, d, rt); }}, {"both", [=](const FV &x) { return frontend::affine_on_sample2d("n", x[0], za, m, d, rt); }}};
            }
            judge(on ? "affine" : "affine, nearest outside", c);
        }
        // matrix product
        for (auto dt : {FLOAT32, FLOAT64}) for (auto &s : {Sh{1, 1}, Sh{2, 3}, Sh{3, 2}, Sh{2, 1, 3}, Sh{3}}) for (auto &t : {Sh{1, 1}, Sh{3, 2}, Sh{2, 3}, Sh{3, 1}, Sh{3}}) for (int tr = 0; tr < 2; ++tr) {
            FC c; bool q = tr; c.op = "inner_prod"; c.par = {{"transpose", pb(q)}}; c.in = {iota(dt, s), iota(dt, t, 3)}; c.desc = [q] { return desc::matmul(q); }; c.intime = [q](const TV &x) { return ts::intime::matmul(x[0], x[1], q); }; c.capi = [tr](const CV &x) { return ts_intime_matmul(x[0], x[1], tr); }; c.cpp = [q](const AV &x) { return api::intime::matmul(x[0], x[1], q); };
            if (!q) c.more = {{"default", [](const TV &x) { return ts::intime::matmul(x[0], x[1]); }}};
            c.sym = [q](const NV &x) { return symbol::matmul("n", x[0], x[1], q); }; c.front = [q](const FV &x) { return frontend::matmul("n", x[0], x[1], q); };
            judge("matmul", c);
        }
        // broadcast
        for (auto dt : {FLOAT32, UINT8}) for (auto &s : {Sh{1}, Sh{3}, Sh{2, 1}, Sh{2, 3}, Sh{1, 1, 2}}) for (auto &z : {std::vector<int>{3}, {1}, {2, 3}, {2, 1}, {2, 2, 3}, {1, 1, 1, 3}, {4}}) {
            FC c; c.op = "broadcast"; c.in = {iota(dt, s), ivec(z)}; c.desc = desc::broadcast; c.intime = [](const TV &x) { return ts::intime::broadcast(x[0], x[1]); }; c.more = {{"vector", [z](const TV &x) { return ts::intime::broadcast(x[0], z); }}};
            c.sym = [](const NV &x) { return symbol::broadcast("n", x[0], x[1]); }; c.front = [](const FV &x) { return frontend::broadcast("n", x[0], x[1]); };
            c.fmore = {{"with the shape given as numbers", [z](const FV &x) { return frontend::broadcast("n", x[0], z); }}};
            judge("broadcast", c);
        }
        // operators without a builder, some with several results
        struct G { std::string op; std::vector<P> par; std::vector<R> in; };
        for (auto &g : std::vector<G>{{"chunk", {{"chunks", pi(2)}, {"dim", pi(0)}}, {iota(FLOAT32, Sh{4, 2})}}, {"chunk", {{"chunks", pi(3)}, {"dim", pi(1)}}, {iota(INT32, Sh{1, 6})}}, {"topkv2", {{"number", pi(2)}}, {iota(FLOAT32, Sh{2, 4})}}, {"_shape", {}, {iota(FLOAT32, Sh{2, 4})}}, {"_dims", {}, {iota(FLOAT32, Sh{2, 4})}},
                                      {"relu", {}, {iota(FLOAT32, Sh{5})}}, {"flatten", {}, {iota(FLOAT32, Sh{2, 3, 2})}}, {"no such operator", {}, {iota(FLOAT32, Sh{2})}}, {"flatten", {{"no such field", pi(1)}}, {iota(FLOAT32, Sh{2, 3})}}, {"concat", {}, {iota(FLOAT32, Sh{2})}}, {"_transpose", {{"permute", pf(1)}}, {iota(FLOAT32, Sh{2, 3})}}, {"relu", {}, {}}, {"add", {}, {iota(FLOAT32, Sh{2})}}, {"_copy", {}, {iota(FLOAT32, Sh{3})}}}) {
            FC c; c.op = g.op; c.par = g.par; c.in = g.in; if (g.op == "flatten" && !g.par.empty()) c.graph = false;
            judge("other", c);
        }
        // copying bytes between tensors
        for (int dn = 1; dn <= 3; ++dn) for (int sn = 1; sn <= 3; ++sn) for (int ds = 0; ds <= 12; ds += 2) for (int ss = 0; ss <= 12; ss += 3) for (int n = 0; n <= 12; ++n) for (int raw = 0; raw < 4; ++raw) {
            if (ds + n > dn * 4 || ss + n > sn * 4) continue;
            if (!take("memcpy", [&] { return "of " + std::to_string(n) + " bytes from " + std::to_string(ss) + " to " + std::to_string(ds) + " raw " + std::to_string(raw); })) continue;
            for (int route = 0; route < 3; ++route) {
                Tensor d = make(iota(INT32, Sh{dn}, 100)), s = make(iota(INT32, Sh{sn}, 7)); std::vector<char> rd(12, 3), rs(12, 9); for (int i = 0; i < 12; ++i) rs[i] = char(i + 40);
                std::vector<char> w(d.data<char>(), d.data<char>() + dn * 4), wr = rd; const char *src = raw & 2 ? rs.data() : s.data<char>(); (raw & 1 ? wr : w).size();
                std::memcpy((raw & 1 ? wr : w).data() + ds, src + ss, n);
                void *dp = raw & 1 ? rd.data() : nullptr; const void *sp = raw & 2 ? rs.data() : nullptr; int64_t got = -1;
                try {
                    if (route == 0) got = ts::intime::memcpy(d, dp, ds, s, sp, ss, n);
                    else { ts_Tensor cd(d), cs(s); got = ts_intime_memcpy(&cd, dp, ds, &cs, sp, ss, n); }
                } catch (const std::exception &e) { fail("memcpy", std::string("refused: ") + e.what()); continue; }
                step();
                if (got != n) fail("memcpy:count", "route " + std::to_string(route) + " returns " + std::to_string(got));
                if (std::vector<char>(d.data<char>(), d.data<char>() + dn * 4) != w || rd != wr) fail("memcpy:bytes", "route " + std::to_string(route) + " writes other bytes");
            }
            state("memcpy" + std::to_string(n));
        }
        // without a workbench immediate calls are refused
        if (take("unbound", [] { return std::string("no workbench bound"); })) {
            Tensor x = make(iota(FLOAT32, Sh{2, 2}));
            int ok = 0;
            try { ts::intime::sigmoid(x); ++ok; } catch (const std::exception &) {}
            try { ts::intime::add(x, x); ++ok; } catch (const std::exception &) {}
            ts_Tensor h(x); std::unique_ptr<ts_Tensor> r(ts_intime_sigmoid(&h)); if (r) ++ok;
            if (ok) fail("unbound", "an immediate call without a workbench is not refused");
            if (std::string(ts_last_error_message()).empty()) fail("unbound", "no message");
            step(3); state("unbound");
        }
    }

    // ---- hooks, profiler, user operators ----
    typedef uint64_t u64;
    u64 mix(u64 h, u64 x) { h ^= x + 0x9E3779B97F4A7C15ULL + (h << 6) + (h >> 2); h *= 0xD6E8FEB86659FD93ULL; h ^= h >> 29; return h; }
    std::vector<std::string> logv;      // what happened, in order
    Tensor T1(u64 x) { Tensor t(MemoryDevice(CPU), INT64, Shape({1})); t.data<int64_t>()[0] = int64_t(x); return t; }
    u64 tag(const Tensor &t) { auto c = t.view(MemoryDevice(CPU)); return c.fields_count() == 1 && c.dtype() == INT64 && c.count() == 1 ? u64(c.data<int64_t>()[0]) : 0xBAD; }
    int boom = -1, ran = 0;             // which execution fails
    class Log : public Operator {
    public:
        int run(ts::Stack &stack) override {
            logv.push_back("run " + name());
            if (ran++ == boom) throw Exception("boom");
            u64 h = 1000 + stack.size(); for (size_t i = 0; i < stack.size(); ++i) h = mix(h, tag(stack[i]));
            auto &t = *stack.push(INT64, Shape({1})); t.data<int64_t>()[0] = int64_t(h);
            return 1;
        }
        int infer(ts::Stack &, std::vector<Tensor::Prototype> &o) override { o.assign(1, Tensor::Prototype(INT64, Shape({1}))); return 1; }
    };
    int c_new = 0, c_free = 0, c_init = 0, c_run = 0;
    void *cop_new() { ++c_new; return new int(5); }
    void cop_free(const void *p) { ++c_free; delete (const int *) p; }
    ts_bool cop_init(void *p, const ts_OperatorParams *, ts_OperatorContext *) { ++c_init; ++*(int *) p; return 1; }
    ts_Tensor *cop_run(void *p, int32_t n, ts_Tensor **a, ts_OperatorContext *) {
        ++c_run; logv.push_back("run user");
        if (*(int *) p != 6) { ts_set_error_message("not initialised exactly once"); return nullptr; }
        if (ran++ == boom) { ts_set_error_message("boom"); return nullptr; }
        u64 h = 1000 + n; for (int i = 0; i < n; ++i) h = mix(h, tag(**a[i]));
        return new ts_Tensor(T1(h));
    }
    struct Op { int n; int a[2]; bool user; std::string name; };
    void watch(bool th) {
        OperatorCreator::Register(CPU, "vf_log", [] { return std::make_shared<Log>(); });
        ts_Operator_RegisterEx("cpu", "vf_user", cop_new, cop_free, cop_init, nullptr, cop_run);
        std::vector<std::vector<std::string>> names = {{"a", "b", "c", "d"}, {"100%", "a%s%n", "%04d", "op"}};
        for (int k = 1; k <= 3; ++k) for (int ns = 0; ns < 2; ++ns) for (int user = 0; user < (1 << k); ++user) {
            if (ns && user) continue;
            std::vector<Op> ops;
            std::function<void(int)> rec = [&](int i) {
                if (i == k) {
                    for (int outs = 1; outs < (1 << k); ++outs) {
                        if (!(outs >> (k - 1) & 1)) continue;
                        if (!take("watched graph", [&] { std::ostringstream o; for (auto &p : ops) { o << p.name << (p.user ? "*" : "") << "("; for (int j = 0; j < p.n; ++j) o << p.a[j] << (j + 1 < p.n ? "," : ""); o << ") "; } o << "outputs " << outs; return o.str(); })) continue;
                        try {
                            Graph g; ctx::bind<Graph> _g(g); NV n = {bubble::param("x"), bubble::param("y")}; std::vector<u64> val;
                            u64 iv[2] = {10, 20}; val = {iv[0], iv[1]};
                            for (auto &p : ops) { NV a; u64 h = 1000 + p.n; for (int j = 0; j < p.n; ++j) { a.push_back(n[p.a[j]]); h = mix(h, val[p.a[j]]); } val.push_back(h); n.push_back(bubble::op(p.name, p.user ? "vf_user" : "vf_log", a)); }
                            NV o; std::vector<int> oi; for (int i = 0; i < k; ++i) if (outs >> i & 1) { o.push_back(n[2 + i]); oi.push_back(2 + i); }
                            auto m = Module::Load(g, o);
                            std::vector<char> live(n.size(), 0); for (int i : oi) live[i] = 1;
                            for (int i = k + 1; i >= 2; --i) if (live[i]) for (int j = 0; j < ops[i - 2].n; ++j) live[ops[i - 2].a[j]] = 1;
                            NV in; std::vector<int> ii; for (int i = 0; i < 2; ++i) if (live[i]) { in.push_back(n[i]); ii.push_back(i); }
                            m->sort_inputs(in);
                            int n0 = c_new, f0 = c_free;
                            {
                                Bench fresh; auto &b = *fresh.b; auto prog = b.compile(m); b.setup(prog);
                                for (int i : ii) b.input(i ? "y" : "x", T1(iv[i]));
                                // the live operators, each once
                                std::multiset<std::string> expect; for (int i = 0; i < k; ++i) if (live[2 + i]) expect.insert("run " + (ops[i].user ? std::string("user") : ops[i].name));
                                std::vector<std::string> order;
                                auto right = [&](const std::string &cfg) { for (size_t i = 0; i < oi.size(); ++i) if (tag(b.output(int(i))) != val[oi[i]]) fail("watch:" + cfg, "output " + std::to_string(i) + " has another value"); };
                                auto once = [&](const std::string &cfg) { if (std::multiset<std::string>(logv.begin(), logv.end()) != expect) fail("watch-once:" + cfg, "an operator is not executed exactly once"); if (order.empty()) order = logv; else if (order != logv) fail("watch-order:" + cfg, "the operators are executed in another order"); };
                                logv.clear(); b.run(); step(); right("plain"); once("plain");
                                // hooks
                                for (int h = 1; h < 4; ++h) for (int prof = 0; prof < 2; ++prof) {
                                    std::string cfg = "hook " + std::to_string(h) + (prof ? " profiled" : "");
                                    Hook hook; std::vector<std::string> ev; std::vector<std::string> bad; size_t inner = 0;
                                    auto who = [&](const Operator *op) { for (auto &p : ops) if (p.name == op->name() && op->op() == (p.user ? "vf_user" : "vf_log")) return int(&p - &ops[0]); bad.push_back("unknown operator " + op->name()); return -1; };
                                    if (h & 1) hook.before_run([&](const Hook::StructBeforeRun &s) { int i = who(s.op); ev.push_back("before " + std::to_string(i)); if (inner != logv.size()) bad.push_back("before is called late"); if (i >= 0) { if (int(s.stack->size()) != ops[i].n) bad.push_back("before sees other arguments"); else for (int j = 0; j < ops[i].n; ++j) if (tag((*s.stack)[j]) != val[ops[i].a[j]]) bad.push_back("before sees another argument"); } });
                                    if (h & 2) hook.after_run([&](const Hook::StructAfterRun &s) { int i = who(s.op); ev.push_back("after " + std::to_string(i)); ++inner; if (inner != logv.size()) bad.push_back("after is called early"); if (i >= 0) { if (s.stack->size() != 1 || tag((*s.stack)[0]) != val[2 + i]) bad.push_back("after sees another result"); } });
                                    if (h == 1) hook.after_run([&](const Hook::StructAfterRun &) { ++inner; });
                                    b.do_profile(prof);
                                    logv.clear();
                                    { ctx::bind<Hook> _h(hook); b.run(); }
                                    b.do_profile(false);
                                    step(); right(cfg); once(cfg);
                                    if (!bad.empty()) fail("watch-event:" + cfg, bad[0]);
                                    if (ev.size() != logv.size() * (h == 3 ? 2 : 1)) fail("watch-events:" + cfg, "hooks are called " + std::to_string(ev.size()) + " times for " + std::to_string(logv.size()) + " executions");
                                    else { size_t at = 0; for (auto &l : logv) for (const char *w : {"before ", "after "}) { if (!(h & (*w == 'b' ? 1 : 2))) continue; auto e = ev[at++]; int i = atoi(e.substr(e.find(' ') + 1).c_str()); if (e.compare(0, strlen(w), w) || i < 0 || l != "run " + (ops[i].user ? std::string("user") : ops[i].name)) { fail("watch-sequence:" + cfg, "event " + e + " at " + l); break; } } }
                                }
                                // a profiler of one's own
                                {
                                    Profiler p; logv.clear();
                                    { ctx::bind<Profiler> _p(p); b.run(); b.run(); }
                                    step(2); right("profiler");
                                    for (int i = 0; i < k; ++i) if (live[2 + i]) {
                                        size_t c = 0; std::string tail = std::string(":") + (ops[i].user ? "vf_user" : "vf_log") + ":" + ops[i].name;
                                        for (auto &kv : p.board()) if (kv.first.compare(0, 3, "op(") == 0 && kv.first.size() > tail.size() && kv.first.compare(kv.first.size() - tail.size(), tail.size(), tail) == 0) c += kv.second.count();
                                        if (c != 2) fail("profile-count", "operator " + ops[i].name + " has " + std::to_string(c) + " timings after two runs");
                                    }
                                    size_t all = 0; for (auto &kv : p.board()) if (kv.first.compare(0, 3, "op(") == 0) all += kv.second.count();
                                    if (all != 2 * order.size()) fail("profile-all", std::to_string(all) + " timings for " + std::to_string(2 * order.size()) + " executions");
                                    std::ostringstream ls; p.log(ls);
                                }
                                // run_hook: every set of names
                                std::vector<std::string> pool; for (auto &p : ops) pool.push_back(p.name); pool.push_back("x"); pool.push_back("nobody");
                                for (int set = 0; set < (1 << pool.size()); ++set) {
                                    std::vector<std::string> hn; for (size_t i = 0; i < pool.size(); ++i) if (set >> i & 1) hn.push_back(pool[i]); if (set % 3 == 1 && !hn.empty()) hn.push_back(hn[0]);
                                    logv.clear(); b.run_hook(hn); step(); right("run_hook"); once("run_hook");
                                    for (int i = 0; i < k; ++i) {
                                        bool asked = set >> i & 1, is_out = outs >> i & 1; u64 got = 0; bool has = true; try { got = tag(b.output(ops[i].name)); } catch (const std::exception &) { has = false; }
                                        bool want = is_out || (asked && live[2 + i]);
                                        if (has != want) fail("run_hook-has", std::string(has ? "a value" : "no value") + " for node " + ops[i].name); else if (has && got != val[2 + i]) fail("run_hook-value", "another value for node " + ops[i].name);
                                    }
                                    for (int i : ii) { u64 got = 0; try { got = tag(b.output(i ? "y" : "x")); } catch (const std::exception &) {} if (got != iv[i]) fail("run_hook-input", "the value of an input is not reported"); }
                                }
                                b.run(); step(); for (int i = 0; i < k; ++i) if (!(outs >> i & 1)) { bool has = true; try { b.output(ops[i].name); } catch (const std::exception &) { has = false; } if (has) fail("run_hook-stale", "the value of an inner node is still there after an ordinary run"); }
                                // an operator fails at each point: reported, events stop there, and the next run is right
                                for (int at = 0; at < int(order.size()); ++at) for (int how = 0; how < 4; ++how) {
                                    Hook hook; int before = 0, after = 0; hook.before_run([&](const Hook::StructBeforeRun &) { ++before; }); hook.after_run([&](const Hook::StructAfterRun &) { ++after; });
                                    boom = at; ran = 0; logv.clear(); bool threw = false;
                                    try { if (how == 1) { ctx::bind<Hook> _h(hook); b.run(); } else if (how == 2) { b.do_profile(true); b.run(); } else if (how == 3) b.run_hook({ops[0].name}); else b.run(); } catch (const std::exception &) { threw = true; }
                                    b.do_profile(false); boom = -1; step();
                                    if (!threw) fail("watch-fail", "the failure of an operator is not reported");
                                    if (how == 1 && (before != at + 1 || after != at)) fail("watch-fail-events", "hooks are called " + std::to_string(before) + "/" + std::to_string(after) + " times");
                                    if (b.stack().size()) fail("watch-fail-stack", "the stack is not restored");
                                    if (ctx::get<Hook>() || ctx::get<Profiler>()) fail("watch-fail-bound", "a hook or profiler stays bound");
                                    logv.clear(); b.run(); right("after failure"); if (logv != order) fail("watch-fail-again", "the run after a failure is another");
                                }
                                // a clone of the workbench executes operators of its own
                                { auto d = b.clone(); for (int i : ii) d->input(i ? "y" : "x", T1(iv[i])); logv.clear(); d->run(); step(); if (logv != order) fail("watch-clone", "the clone executes other operators"); for (size_t i = 0; i < oi.size(); ++i) if (tag(d->output(int(i))) != val[oi[i]]) fail("watch-clone-value", "the clone gives another value"); }
                                std::string st; for (auto &l : order) st += l + ";"; state(st + std::to_string(outs));
                            }
                            if (c_new - n0 != c_free - f0) fail("user-free", std::to_string(c_new - n0) + " user operators made, " + std::to_string(c_free - f0) + " freed");
                        } catch (const std::exception &e) { fail("watch-refused", e.what()); }
                    }
                    return;
                }
                for (int n = 1; n <= 2; ++n) each(Sh(n, i + 2), [&](const Sh &a) {
                    if (k == 3 && !th && ns == 0 && user && i == 0 && n == 2 && a[0] == a[1]) return;
                    ops.push_back({n, {a[0], n > 1 ? a[1] : 0}, bool(user >> i & 1), names[ns][i]}); rec(i + 1); ops.pop_back(); });
            };
            rec(0);
        }
    }
}
int main(int argc, const char **argv) {
    parse(argc, argv);
    quiet();
    Bench b; bench = &b; b.keep = true;
    routes(S().thorough);
    watch(S().thorough);
    finish();
}
