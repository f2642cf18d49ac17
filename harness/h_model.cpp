// Saving and loading: every small graph by every route, every kind of tensor and parameter, streams, failing writers.
#include "hist.h"
#include "ops.h"
#include "modfmt.h"
#include <module/menu.h>
#include <module/io/fstream.h>
#include <module/io/sstream.h>
#include <global/module_loader_factory.h>
#include <global/hard_allocator.h>
#include <global/hard_converter.h>
#include <core/tensor_builder.h>
#include <api/module.h>
#include "../src/api/declare_module.h"
#include <unistd.h>
using namespace vf;
using namespace ts;
namespace {
    std::string dir;
    std::string path(const std::string &n) { return dir + "/" + n; }
    std::string slurp(const std::string &p) { std::ifstream f(p, std::ios::binary); std::ostringstream o; o << f.rdbuf(); return o.str(); }
    void spit(const std::string &p, const std::string &b) { std::ofstream f(p, std::ios::binary); f << b; }
    struct CIn { const std::string *b; size_t at; };
    uint64_t c_read(void *o, char *d, uint64_t n) { auto c = static_cast<CIn *>(o); n = std::min<uint64_t>(n, c->b->size() - c->at); std::memcpy(d, c->b->data() + c->at, n); c->at += n; return n; }
    void c_rewind(void *o) { static_cast<CIn *>(o)->at = 0; }
    int loader_mode = 0;   // what a foreign loader does before it says "not mine"
    Module::shared foreign(StreamReaderV2 &s, const void *, int32_t, Module::SerializationFormat) {
        std::vector<char> b(loader_mode == 1 ? 5 : 1 << 20); if (loader_mode) s.read(b.data(), b.size());
        throw FormatMismatchException("not mine"); }
    std::string text(const Module &m) { return mf::canon(m); }
    // every way to read the same bytes; "" when all agree with want
    std::string routes(const std::string &b, const std::string &want, bool files) {
        auto check = [&](const char *n, const std::function<Module::shared()> &f) -> std::string {
            step();
            try { auto m = f(); if (!m) return std::string(n) + " gives no module"; auto t = text(*m); if (t != want) return std::string(n) + " gives another module: " + t.substr(0, 700) + " instead of " + want.substr(0, 700); } catch (const std::exception &e) { return std::string(n) + " refuses a saved module: " + e.what(); }
            return ""; };
        std::string e;
        e = check("Load(stream)", [&] { mf::In in(b); auto m = Module::Load(in); if (in.at != b.size()) throw Exception("not all bytes are read"); return m; }); if (!e.empty()) return e;
        e = check("Load(string stream)", [&] { StringStreamReader in(b); return Module::Load(in); }); if (!e.empty()) return e;
        for (loader_mode = 0; loader_mode < 3; ++loader_mode) { e = check("LoadV2(stream)", [&] { mf::In2 in(b); return Module::LoadV2(in, "", 0); }); if (!e.empty()) return e; }
        auto c = [](ts_Module *m) { if (!m) throw Exception(std::string("failed: ") + ts_last_error_message()); auto p = m->pointer; ts_free_Module(m); return p; };
        e = check("ts_Module_LoadFromStream", [&] { CIn in = {&b, 0}; return c(ts_Module_LoadFromStream(&in, c_read, TS_BINARY)); }); if (!e.empty()) return e;
for (loader_mode = 0; loader_mode < 3; ++loader_mode) { e = check("ts_Module_LoadFromStreamV2", [&] { CIn in = {&b, 0}; return c(ts_Module_LoadFromStreamV2(&in, c_read, c_rewind, nullptr, 0, TS_BINARY)); }); if (!e.empty()) return e; }
        if (files) {
            auto p = path("m"); spit(p, b);
            e = check("Load(file)", [&] { return Module::Load(p); }); if (!e.empty()) return e;
            for (loader_mode = 0; loader_mode < 3; ++loader_mode) { e = check("LoadV2(file)", [&] { return Module::LoadV2(p, "", 0); }); if (!e.empty()) return e; }
            e = check("Load(FileStreamReaderV2)", [&] { FileStreamReaderV2 in(p); return Module::Load(in); }); if (!e.empty()) return e;
            e = check("Load(FileStream)", [&] { FileStream in(p); if (!in.is_open()) throw Exception("a FileStream does not open an existing file"); return Module::Load(in); }); if (!e.empty()) return e;
            e = check("ts_Module_Load", [&] { return c(ts_Module_Load(p.c_str(), TS_BINARY)); }); if (!e.empty()) return e;
            e = check("ts_Module_LoadV2", [&] { return c(ts_Module_LoadV2(p.c_str(), "", 0, TS_BINARY)); }); if (!e.empty()) return e;
        }
        return "";
    }
    std::string saved(Module::shared m) { mf::Out o; Module::Save(o, m); return o.b; }
    std::string whole(Module::shared m, bool files) {
        auto want = text(*m); std::string b;
        try { b = saved(m); } catch (const std::exception &e) { return std::string("a module cannot be saved: ") + e.what(); }
        if (text(*m) != want) return "saving changes the module";
        try { mf::Parser p(b); auto q = p.module(); if (p.at != b.size()) return "the file has bytes nothing refers to"; auto t = mf::canon(q); if (t != want) return "the file does not hold the module: " + t.substr(0, 700) + " instead of " + want.substr(0, 700); } catch (const mf::Bad &x) { return "the file does not follow the documented format: " + x.why; }
        auto e = routes(b, want, files); if (!e.empty()) return e;
        // further generations, and the other writers
        mf::In in(b); auto n = Module::Load(in); auto b2 = saved(n); e = routes(b2, want, false); if (!e.empty()) return "second generation: " + e;
        if (files) {
            Module::Save(path("s"), m); e = routes(slurp(path("s")), want, false); if (!e.empty()) return "saved to a file: " + e;
            { std::remove(path("t").c_str()); FileStream f(path("t")); if (!f.is_open()) return "a FileStream does not create its file"; Module::Save(f, n); } e = routes(slurp(path("t")), want, false); if (!e.empty()) return "saved to a FileStream: " + e;
            StringStream ss; Module::Save(ss, m); e = routes(ss.str(), want, false); if (!e.empty()) return "saved to a StringStream: " + e;
            { auto l = Module::Load(ss); if (text(*l) != want) return "a StringStream gives another module"; }
            StringStreamWriter sw; Module::Save(sw, m); e = routes(sw.str(), want, false); if (!e.empty()) return "saved to a StringStreamWriter: " + e;
        }
        state(hash_str(want));
        return "";
    }
    // ---- graphs
    struct GN { int k, a, b; };   // 0 param, 1 typed param, 2 const, 3 _copy, 4 sub, 5 shared const
    Tensor value(int i) { Tensor t(FLOAT32, Shape({2})); t.data<float>()[0] = float(i + 1) * 1.5f; t.data<float>()[1] = -float(i); return t; }
    std::string gname(const std::vector<GN> &g, const std::vector<int> &outs, int order) { std::ostringstream o; static const char *n[] = {"param", "typed param", "const", "copy", "sub"}; for (size_t i = 0; i < g.size(); ++i) { o << "n" << i << "=" << n[g[i].k]; if (g[i].k >= 3) o << "(" << g[i].a; if (g[i].k == 4) o << "," << g[i].b; if (g[i].k >= 3) o << ")"; o << " "; } o << "out"; for (int i : outs) o << " " << i; o << " order " << order; return o.str(); }
    Module::shared build(const std::vector<GN> &g, const std::vector<int> &outs, int order, int names) {
        Graph gr; ctx::bind<Graph> _b(gr); std::vector<Node> v; std::vector<Node> ins, oo;
        for (size_t i = 0; i < g.size(); ++i) { auto &x = g[i]; std::string nm = names == 0 ? "n" + std::to_string(i) : names == 1 ? "" : "same";
            if (x.k == 0) v.push_back(bubble::param(nm)); else if (x.k == 1) v.push_back(bubble::param(nm, FLOAT32, Shape({-1, 2}))); else if (x.k == 2) v.push_back(bubble::data(nm, value(int(i)))); else if (x.k == 3) v.push_back(bubble::op(nm, "_copy", {v[x.a]})); else v.push_back(bubble::op(nm, "sub", {v[x.a], v[x.b]})); }
        for (int i : outs) oo.push_back(v[i]);
        auto m = Module::Load(gr, oo);
        // the declared order of inputs: first to last, last to first, or with the unreachable parameters as well
        std::set<int> reach; std::function<void(int)> w = [&](int i) { if (!reach.insert(i).second) return; if (g[i].k >= 3) w(g[i].a); if (g[i].k == 4) w(g[i].b); }; for (int i : outs) w(i);
        for (size_t i = 0; i < g.size(); ++i) if (g[i].k <= 1 && (order == 2 || reach.count(int(i)))) ins.push_back(v[i]);
        if (order == 1) std::reverse(ins.begin(), ins.end());
        m->sort_inputs(ins);
        return m; }
    std::string results(Module::shared m, Module::shared n, size_t nin) {
        std::vector<Tensor> r[2];
        for (int k = 0; k < 2; ++k) { auto bench = Workbench::Load(k ? n : m, ComputingDevice(ts::CPU)); if (size_t(bench->input_count()) != nin) return "the program takes another number of inputs";
            for (size_t i = 0; i < nin; ++i) { Tensor t(FLOAT32, Shape({1, 2})); t.data<float>()[0] = float(3 + i * 10); t.data<float>()[1] = float(4 + i * 7); bench->input(int(i), t); }
            bench->run(); for (int i = 0; i < bench->output_count(); ++i) r[k].push_back(bench->output(i).clone()); }
        if (r[0].size() != r[1].size()) return "the loaded module has another number of outputs";
        for (size_t i = 0; i < r[0].size(); ++i) if (mf::show(mf::pack_of(r[0][i])) != mf::show(mf::pack_of(r[1][i]))) return "output " + std::to_string(i) + " of the loaded module is " + mf::show(mf::pack_of(r[1][i])) + " instead of " + mf::show(mf::pack_of(r[0][i]));
        return ""; }
    void graphs(size_t n) {
        std::vector<GN> g(n);
        std::function<void(size_t)> rec = [&](size_t i) {
            if (i < n) { for (int k = 0; k < 3; ++k) { g[i] = {k, 0, 0}; rec(i + 1); } for (int a = 0; a < int(i); ++a) { g[i] = {3, a, 0}; rec(i + 1); } for (int a = 0; a < int(i); ++a) for (int b = 0; b < int(i); ++b) { g[i] = {4, a, b}; rec(i + 1); } return; }
            // outputs: every list of one or two nodes that includes the last node
            std::vector<std::vector<int>> outs; int l = int(n) - 1; outs.push_back({l}); for (int a = 0; a < int(n); ++a) { outs.push_back({l, a}); if (a != l) outs.push_back({a, l}); }
            std::string nm = gname(g, {}, 0);
            if (!take("graphs of " + std::to_string(n), [&] { return nm; })) return;
            --S().evaluations;
            for (auto &o : outs) for (int order = 0; order < 3; ++order) {
                ++S().evaluations;
                try {
                    auto m = build(g, o, order, order == 1 ? 1 : order == 2 && n < 3 ? 2 : 0);
                    auto e = whole(m, n <= 3 || (order == 0 && o.size() == 1));
                    if (e.empty()) { auto b = saved(m); mf::In in(b); auto q = Module::Load(in); e = results(m, q, m->inputs().size()); }
                    if (!e.empty()) fail("graph:" + gname(g, o, order), e);
                } catch (const std::exception &x) { fail("graph:" + gname(g, o, order), std::string("refused: ") + x.what()); }
            }
        };
        rec(0);
    }
    // ---- tensors
    Tensor filled(int t, const std::vector<int> &d, int seed, const MemoryDevice &dev = MemoryDevice(CPU)) { Shape shp(d); Tensor x(MemoryDevice(CPU), DTYPE(t), shp); int n = x.count() * mf::width(t); auto p = static_cast<unsigned char *>(n > 0 ? x.data() : nullptr); for (int i = 0; i < n; ++i) p[i] = (unsigned char)(i * 37 + seed * 11 + 5); if (dev.type() == CPU) return x; return x.view(dev); }
    std::string trip(const Tensor &t, bool files) {
        auto want = mf::show(mf::pack_of(t)); mf::Out o; size_t w = t.serialize(o);
        if (w != o.b.size()) return "serialize reports " + std::to_string(w) + " bytes and writes " + std::to_string(o.b.size());
        if (mf::show(mf::pack_of(t)) != want) return "writing changes the tensor";
        try { mf::Parser p(o.b); auto q = p.tensor(); if (p.at != o.b.size() || mf::show(q) != want) return "the bytes do not hold the tensor: " + mf::show(q) + " instead of " + want; } catch (const mf::Bad &x) { return "the bytes do not follow the documented format: " + x.why; }
        std::string twice = o.b + o.b + "tail";
        { mf::In in(twice); Tensor a, b = filled(FLOAT32, {2}, 1); size_t r = a.externalize(in); if (r != w) return "externalize reports another number of bytes"; r = b.externalize(in); if (in.at != 2 * w || r != w) return "externalize does not consume the tensor exactly"; for (auto x : {&a, &b}) if (mf::show(mf::pack_of(*x)) != want || x->fields_count() != t.fields_count()) return "reading gives another tensor: " + mf::show(mf::pack_of(*x)); }
        { StringStreamWriter ws; tensor::save(ws, t); if (ws.str() != o.b) return "a string stream writer gets other bytes"; StringStreamReader rs(ws.str()); if (mf::show(mf::pack_of(tensor::load(rs))) != want) return "a string stream gives another tensor"; }
        if (files) { tensor::save(path("x"), t); if (slurp(path("x")) != o.b) return "a file gets other bytes"; if (mf::show(mf::pack_of(tensor::load(path("x")))) != want) return "a file gives another tensor"; }
        // as a parameter
        Bubble bu("op", "name"); bu.set("p", t); bu.set("#q", t); mf::Out ob; if (bu.serialize(ob) != ob.b.size()) return "a parameter table reports another number of bytes"; Bubble c("other", "other", Shape({9})); c.set("stale", t); mf::In in(ob.b); c.externalize(in);
        if (in.at != ob.b.size() || c.op() != "op" || c.name() != "name" || c.params().size() != bu.params().size() || c.has("stale") || !c.has("p") || mf::show(mf::pack_of(c.get("p"))) != want || mf::show(mf::pack_of(c.get("#q"))) != want) return "a parameter table read back differs";
        if (!c.shape().empty()) return "reading a parameter table keeps the former shape";
        state(hash_str(want)); return ""; }
    void tensors() {
        std::vector<std::vector<int>> sh = {{}, {0}, {1}, {3}, {2, 2}, {2, 0, 2}, {1, 3, 1}, {1, 1, 1, 1, 1, 1, 2}, {300}};
        for (int t = 1; t <= 32; ++t) for (auto &d : sh) for (int dv = 0; dv < 2; ++dv) {
            if (!take("tensors", [&] { return "type " + std::to_string(t) + " sizes " + str(d) + (dv ? " on another device" : ""); })) continue;
            std::string k = "tensor:" + std::to_string(t) + str(d) + (dv ? "@m1" : ""); step();
            try { auto e = trip(filled(t, d, 1, dv ? MemoryDevice("m1", 0) : MemoryDevice(CPU)), true); if (!e.empty()) fail(k, e); } catch (const std::exception &x) { fail(k, std::string("refused: ") + x.what()); }
        }
        std::vector<int> ty = {UINT8, FLOAT32, FLOAT64, BOOLEAN, CHAR8};
        std::vector<Tensor> pool; for (size_t i = 0; i < ty.size(); ++i) pool.push_back(filled(ty[i], i == 1 ? std::vector<int>{2, 2} : i == 2 ? std::vector<int>{} : i == 3 ? std::vector<int>{0} : std::vector<int>{3}, int(i)));
        pool.push_back(Tensor()); pool.push_back(filled(INT16, {4}, 3, MemoryDevice("m1", 0))); static Tensor whole = filled(FLOAT32, {5}, 2); pool.push_back(whole.slice(1, 3)); pool.push_back(filled(INT32, {2, 3}, 7).reshape({3, 2}));
        for (size_t n = 1; n <= 3; ++n) { std::vector<size_t> q(n, 0); while (true) {
                if (take("packed tensors", [&] { std::string s; for (auto i : q) s += std::to_string(i) + " "; return s; })) { std::vector<Tensor> f; std::string k = "packed:"; for (auto i : q) { f.push_back(pool[i]); k += std::to_string(i) + ","; } step();
                    try { auto e = trip(Tensor::Pack(f), n < 3); if (!e.empty()) fail(k, e); } catch (const std::exception &x) { fail(k, std::string("refused: ") + x.what()); } }
                size_t i = 0; for (; i < n; ++i) { if (++q[i] < pool.size()) break; q[i] = 0; } if (i == n) break; } }
        for (int n = 0; n <= 300; n += n < 40 ? 1 : 13) { if (!take("strings", [&] { return std::to_string(n) + " characters"; })) continue; std::string s; for (int i = 0; i < n; ++i) s += char(i * 7 + n); step();
            try { if (tensor::to_string(tensor::from(s)) != s) fail("string:" + std::to_string(n), "a string becomes another"); auto e = trip(tensor::from(s), false); if (!e.empty()) fail("string:" + std::to_string(n), e); } catch (const std::exception &x) { fail("string:" + std::to_string(n), std::string("refused: ") + x.what()); } }
    }
    // ---- parameter tables: names, retained fields, copies and moves
    void bubbles() {
        std::vector<std::string> names = {"", "a", std::string("b\0c", 3), std::string(31, 'x'), std::string(700, 'y'), "\xe4\xb8\xad", "#z"};
        std::vector<std::vector<int>> shapes = {{}, {1}, {-1, 3}, {1, 2, 3, 4, 5, 6, 7}};
        for (size_t mask = 0; mask < 128; ++mask) for (size_t s = 0; s < shapes.size(); ++s) for (int ty = 0; ty < 3; ++ty) {
            if (!take("parameter tables", [&] { return "names " + std::to_string(mask) + " shape " + std::to_string(s) + " type " + std::to_string(ty); })) continue;
            std::string k = "table:" + std::to_string(mask) + "," + std::to_string(s) + "," + std::to_string(ty); step();
            try {
                Bubble b(mask & 1 ? std::string("op") : std::string(Bubble::Parameter), mask & 2 ? "nm" : "", shapes[s].empty() ? Shape() : Shape(shapes[s]));
                if (ty) b.dtype(ty == 1 ? FLOAT32 : BOOLEAN);
                for (size_t i = 0; i < names.size(); ++i) if (mask >> i & 1) b.set(names[i], filled(UINT8, {int(i)}, int(i)));
                auto same = [&](const Bubble &c) -> std::string {
                    if (c.op() != b.op()) return "the operator is " + c.op(); if (c.name() != b.name()) return "the name is " + c.name(); if (c.dtype() != b.dtype()) return "the type differs";
                    Shape cs = c.shape(); if (std::vector<int>(cs.begin(), cs.end()) != shapes[s]) return "the shape differs";
                    if (c.params().size() != b.params().size()) return "the number of parameters differs";
                    for (auto &p : b.params()) { if (!c.has(p.first)) return "a parameter is missing"; if (mf::show(mf::pack_of(c.get(p.first))) != mf::show(mf::pack_of(p.second))) return "a parameter differs"; } return ""; };
                mf::Out o; b.serialize(o);
                { mf::In in(o.b); Bubble c; c.externalize(in); auto e = same(c); if (!e.empty()) fail(k, "read back: " + e); }
                { mf::In in(o.b); Bubble c("x", "y", Shape({5, 5})); c.dtype(INT8); c.externalize(in); auto e = same(c); if (!e.empty()) fail(k, "read into a used one: " + e); }
                { Bubble c(b); auto e = same(c); if (!e.empty()) fail(k, "copied: " + e); Bubble d(std::move(c)); e = same(d); if (!e.empty()) fail(k, "moved: " + e); Bubble f("x"); f = std::move(d); e = same(f); if (!e.empty()) fail(k, "move-assigned: " + e); }
                { Graph g; ctx::bind<Graph> _b(g); auto n = bubble::bubble(b); Bubble c(n.bubble()); auto e = same(c); if (!e.empty()) fail(k, "as a node: " + e); }
                { Bubble c(b); c.op("newop"); c.name("newname"); c.shape(Shape({4})); mf::Out p; c.serialize(p); mf::In in(p.b); Bubble d; d.externalize(in); if (d.op() != "newop" || d.name() != "newname" || d.shape() != Shape({4})) fail(k, "renamed and read back: the old values return"); if (!same(b).empty()) fail(k, "changing a copy changes the original"); }
            } catch (const std::exception &x) { fail(k, std::string("refused: ") + x.what()); }
        }
    }
    // ---- modules with every kind of content, and writers that fail
    std::vector<Module::shared> special() {
        std::vector<Module::shared> r;
        auto mod = [&](const std::function<std::vector<Node>()> &f) { Graph g; ctx::bind<Graph> _b(g); r.push_back(Module::Load(g, f())); };
        mod([] { auto p = bubble::param("x", Shape({-1, 2})); auto c = bubble::data("c", value(1)); auto n = bubble::op("n", "sub", {p, c}); n->set("s", tensor::from(std::string("text"))); n->set("i", tensor::from<int32_t>(7)); return std::vector<Node>{n}; });
        mod([] { auto a = bubble::param("a"), b = bubble::param("b"); auto c = bubble::data("c", Tensor::Pack({value(1), filled(UINT8, {3}, 1), filled(FLOAT64, {}, 2)})); auto s = bubble::op("s", "sub", {a, b}); auto t = bubble::op("t", "sub", {s, s}); auto u = bubble::op("u", "_pack", {s, t, c, a}); return std::vector<Node>{u, s, a}; });
        mod([] { return std::vector<Node>{bubble::param("only")}; });
        mod([] { return std::vector<Node>{bubble::data("only", filled(INT8, {0}, 1))}; });
        mod([] { auto n = bubble::param("x"); for (int i = 0; i < 150; ++i) n = bubble::op("c" + std::to_string(i), "_copy", {n}); return std::vector<Node>{n}; });
        mod([] { auto n = bubble::param("x"); std::vector<Node> v; for (int i = 0; i < 60; ++i) v.push_back(bubble::op("c", "_copy", {n})); v.push_back(n); return std::vector<Node>{bubble::op("p", "_pack", v)}; });
        mod([] { auto n = bubble::param("x"); for (int i = 0; i < 14; ++i) n = bubble::op("d", "sub", {n, n}); return std::vector<Node>{n}; });
        mod([] { auto c = bubble::data("dev", value(3), CPU); auto p = bubble::param("x", FLOAT32); return std::vector<Node>{bubble::op("o", "sub", {c, p}), c}; });
        mod([] { auto w = bubble::data("big", filled(FLOAT32, {64, 65}, 3)); auto p = bubble::param("x", INT64, Shape({1, 2, 3, 4})); return std::vector<Node>{bubble::op("o", "_copy", {w}), bubble::op("q", "_copy", {p})}; });
        return r; }
    void specials() {
        auto ms = special();
        for (size_t i = 0; i < ms.size(); ++i) {
            if (take("special modules", [&] { return std::to_string(i); })) { try { auto e = whole(ms[i], true); if (!e.empty()) fail("special:" + std::to_string(i), e); } catch (const std::exception &x) { fail("special:" + std::to_string(i), std::string("refused: ") + x.what()); } }
            if (i > 3) continue;
            auto b = saved(ms[i]); auto want = text(*ms[i]);
            for (size_t lim = 0; lim < b.size(); ++lim) {
                if (!take("writers that fail", [&] { return "module " + std::to_string(i) + " after " + std::to_string(lim) + " bytes"; })) continue;
                step(); mf::Out o; o.limit = lim; bool threw = false; try { Module::Save(o, ms[i]); } catch (const Exception &) { threw = true; }
                if (!threw) fail("full:" + std::to_string(i) + "@" + std::to_string(lim), "a module is saved although the stream takes only " + std::to_string(lim) + " of " + std::to_string(b.size()) + " bytes");
                if (saved(ms[i]).size() != b.size() || text(*ms[i]) != want) fail("full:" + std::to_string(i), "a failed save changes the module");
            }
        }
        if (take("writers that fail", [] { return "a full disk"; })) { bool threw = false; try { Module::Save("/dev/full", ms[0]); } catch (const Exception &) { threw = true; } if (!threw) fail("full:disk", "a module is saved to a full disk without an error"); }
        if (take("writers that fail", [] { return "a full disk, tensor"; })) { bool threw = false; try { tensor::save("/dev/full", value(1)); } catch (const Exception &) { threw = true; } if (!threw) fail("full:tensor", "a tensor is saved to a full disk without an error"); }
        if (take("writers that fail", [] { return "no such directory"; })) { bool threw = false; try { Module::Save(path("no/such/dir"), ms[0]); } catch (const Exception &) { threw = true; } if (!threw) fail("full:path", "saving to a path that cannot be opened is not reported"); }
    }
    // ---- string and file streams
    void streams(int depth) {
        typedef std::function<std::string()> Act; static std::vector<std::pair<std::string, Act>> A;
        static std::unique_ptr<StringStream> ss; static std::string m; static size_t rp; static int nv;
        A.clear();
        for (int n : {0, 1, 3}) A.push_back({"write " + std::to_string(n), [=]() -> std::string { std::string b; for (int i = 0; i < n; ++i) b += char('a' + nv++ % 26); if (ss->write(b.data(), b.size()) != b.size()) return "a write is short"; m += b; return ""; }});
        for (int n : {0, 1, 2, 5}) A.push_back({"read " + std::to_string(n), [=]() -> std::string { char b[8]; size_t k = ss->read(b, size_t(n)), w = std::min(size_t(n), m.size() - rp); if (k != w) return "read gives " + std::to_string(k) + " bytes instead of " + std::to_string(w); if (m.compare(rp, w, b, w)) return "other bytes are read"; rp += w; return ""; }});
        A.push_back({"clear", []() -> std::string { ss->clear(); m.clear(); rp = 0; return ""; }});
        Hist H; H.nops = int(A.size()); H.reset = [] { ss.reset(new StringStream()); m.clear(); rp = 0; nv = 0; }; H.name = [](int i) { return A[i].first; };
        H.apply = [](int i) -> std::string { auto e = A[i].second(); if (e.empty() && ss->str() != m) e = "the text is \"" + ss->str() + "\" instead of \"" + m + "\""; return e; };
        H.hash = [] { return hash_str(std::to_string(m.size()) + "/" + std::to_string(rp)); };
        H.walk("string stream", depth);
        static std::unique_ptr<StringStreamReader> sr; static std::unique_ptr<FileStreamReaderV2> fr; A.clear();
        auto rd = [](StreamReader &r, int n) -> std::string { char b[16]; size_t k = r.read(b, size_t(n)), w = std::min(size_t(n), m.size() - rp); if (k != w) return "read gives " + std::to_string(k) + " bytes instead of " + std::to_string(w); if (m.compare(rp, w, b, w)) return "other bytes are read"; rp += w; return ""; };
        for (int n : {1, 2, 5}) A.push_back({"read " + std::to_string(n), [=] { return rd(*sr, n); }});
        A.push_back({"set text", [=]() -> std::string { m = "uvwxyz"; sr->str(m); rp = 0; return ""; }}); A.push_back({"clear", [=]() -> std::string { sr->clear(); m.clear(); rp = 0; return ""; }});
        H.nops = int(A.size()); H.reset = [] { m = "abcd"; sr.reset(new StringStreamReader(m)); rp = 0; }; H.apply = [](int i) -> std::string { auto e = A[i].second(); if (e.empty() && sr->str() != m) e = "the text differs"; return e; };
        H.walk("string reader", depth + 1);
        A.clear(); for (int n : {1, 3, 9}) A.push_back({"read " + std::to_string(n), [=] { return rd(*fr, n); }}); A.push_back({"rewind", []() -> std::string { fr->rewind(); rp = 0; return ""; }});
        A.push_back({"reopen", []() -> std::string { fr->close(); fr->open(path("r")); rp = 0; return fr->is_open() ? "" : "not open"; }});
        H.nops = int(A.size()); H.reset = [] { m = "abcdefg"; spit(path("r"), m); fr.reset(new FileStreamReaderV2(path("r"))); rp = 0; }; H.apply = [](int i) { return A[i].second(); };
        H.walk("file reader", depth);
        if (take("string writer", [] { return "text given and taken"; })) { StringStreamWriter w; w.str("abc"); if (w.str() != "abc") fail("writer:str", "the text given to a string writer is not kept"); w.clear(); w.write("xy", 2); if (w.str() != "xy") fail("writer:clear", "a cleared writer keeps text"); }
    }
}
int main(int argc, const char **argv) {
    parse(argc, argv); quiet(); setenv("TENNIS_NUMBER_THREADS", "1", 1); ts_setup();
    char tmp[] = "./model.XXXXXX"; dir = mkdtemp(tmp);
    ts::HardAllocator::Register(ts::DeviceType("m1"), [](int, size_t n, void *mem, size_t) -> void * { std::free(mem); return n ? std::malloc(n) : nullptr; });
    for (auto a : {"cpu", "m1"}) for (auto b : {"cpu", "m1"}) ts::HardConverter::Register(ts::DeviceType(a), ts::DeviceType(b), [](int, void *d, int, const void *s, size_t n) { std::memcpy(d, s, n); });
    ModuleLoader::Register("a foreign format", foreign);
    bool sh = S().mode == "shallow";
    tensors(); bubbles(); specials();
    for (size_t n = 1; n <= (S().thorough ? 5u : 4u) - (sh ? 1 : 0); ++n) graphs(n);
    streams(S().thorough ? 6 : 5);
    for (auto f : {"m", "s", "t", "x", "r"}) std::remove(path(f).c_str()); rmdir(dir.c_str());
    finish();
}
