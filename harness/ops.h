// Runs one operator of the real library, and a boring reference tensor to compare with.
#ifndef VF_OPS_H
#define VF_OPS_H
#include "vf.h"
#include "core/tensor.h"
#include "core/tensor_builder.h"
#include "core/ieee754_float.h"
#include "module/bubble.h"
#include "runtime/workbench.h"
#include "runtime/stack.h"
#include "runtime/operator.h"
#include "runtime/inferer.h"
#include "module/menu.h"
#include "global/shape_inferer_factory.h"
#include "api/setup.h"
#include "utils/log.h"
#include "global/hard_allocator.h"
#include "utils/except.h"
#include <mutex>
#include <cmath>

namespace vf {
    using ts::Tensor;
    using ts::DTYPE;
    typedef std::vector<int> Sh;

    inline std::string str(const Sh &s) {
        std::ostringstream o; o << "["; for (size_t i = 0; i < s.size(); ++i) o << (i ? "," : "") << s[i]; o << "]"; return o.str();
    }
    template<typename T> inline std::string strv(const std::vector<T> &s) {
        std::ostringstream o; o << "["; for (size_t i = 0; i < s.size(); ++i) o << (i ? "," : "") << s[i]; o << "]"; return o.str();
    }
    inline long cnt(const Sh &s) { long n = 1; for (auto x : s) n *= x; return n; }

    struct R {   // reference tensor
        DTYPE dt = ts::FLOAT32;
        Sh s;
        std::vector<double> v;
        R() {}
        R(DTYPE dt, const Sh &s) : dt(dt), s(s), v(cnt(s), 0) {}
        R(DTYPE dt, const Sh &s, const std::vector<double> &v) : dt(dt), s(s), v(v) {}
        double &at(const Sh &c) { long k = 0; for (size_t i = 0; i < s.size(); ++i) k = k * s[i] + c[i]; return v[k]; }
        double at(const Sh &c) const { long k = 0; for (size_t i = 0; i < s.size(); ++i) k = k * s[i] + c[i]; return v[k]; }
    };
    // next coordinate in row-major order; false at the end
    inline bool next(Sh &c, const Sh &s) {
        for (int i = int(s.size()) - 1; i >= 0; --i) { if (++c[i] < s[i]) return true; c[i] = 0; }
        return false;
    }
    template<typename F> inline void each(const Sh &s, F f) {
        if (cnt(s) == 0) return;
        Sh c(s.size(), 0);
        do { f(c); } while (next(c, s));
    }

    template<typename T> inline void put(Tensor &t, const std::vector<double> &v) { auto p = t.data<T>(); for (size_t i = 0; i < v.size(); ++i) p[i] = T(v[i]); }
    template<typename T> inline void get(const Tensor &t, std::vector<double> &v) { auto p = t.data<T>(); for (size_t i = 0; i < v.size(); ++i) v[i] = double(p[i]); }
    inline Tensor make(const R &r) {
        Tensor t(ts::MemoryDevice(ts::CPU), r.dt, ts::Shape(r.s.begin(), r.s.end()));
        if (r.v.empty()) return t;
        switch (r.dt) {
            case ts::INT8: put<int8_t>(t, r.v); break;
            case ts::UINT8: case ts::BOOLEAN: put<uint8_t>(t, r.v); break;
            case ts::CHAR8: put<char>(t, r.v); break;
            case ts::INT16: put<int16_t>(t, r.v); break;
            case ts::UINT16: put<uint16_t>(t, r.v); break;
            case ts::INT32: put<int32_t>(t, r.v); break;
            case ts::UINT32: put<uint32_t>(t, r.v); break;
            case ts::INT64: put<int64_t>(t, r.v); break;
            case ts::UINT64: put<uint64_t>(t, r.v); break;
            case ts::FLOAT32: put<float>(t, r.v); break;
            case ts::FLOAT64: put<double>(t, r.v); break;
            case ts::FLOAT16: { auto p = t.data<ts::float16>(); for (size_t i = 0; i < r.v.size(); ++i) p[i] = ts::float16(float(r.v[i])); break; }
            default: fprintf(stderr, "make: dtype %d\n", int(r.dt)); abort();
        }
        return t;
    }
    inline R read(const Tensor &t0) {
        Tensor t = t0.view(ts::MemoryDevice(ts::CPU));
        R r;
        r.dt = t.dtype();
        r.s = Sh(t.sizes().begin(), t.sizes().end());
        long n = cnt(r.s);
        r.v.assign(n < 0 ? 0 : n, 0);
        if (n <= 0) return r;
        switch (r.dt) {
            case ts::INT8: get<int8_t>(t, r.v); break;
            case ts::UINT8: case ts::BOOLEAN: get<uint8_t>(t, r.v); break;
            case ts::CHAR8: get<char>(t, r.v); break;
            case ts::INT16: get<int16_t>(t, r.v); break;
            case ts::UINT16: get<uint16_t>(t, r.v); break;
            case ts::INT32: get<int32_t>(t, r.v); break;
            case ts::UINT32: get<uint32_t>(t, r.v); break;
            case ts::INT64: get<int64_t>(t, r.v); break;
            case ts::UINT64: get<uint64_t>(t, r.v); break;
            case ts::FLOAT32: get<float>(t, r.v); break;
            case ts::FLOAT64: get<double>(t, r.v); break;
            case ts::FLOAT16: { auto p = t.data<ts::float16>(); for (size_t i = 0; i < r.v.size(); ++i) r.v[i] = float(p[i]); break; }
            default: break;
        }
        return r;
    }
    inline std::string show(const R &r) { std::ostringstream o; o << ts::type_str(r.dt) << str(r.s) << "{"; for (size_t i = 0; i < r.v.size() && i < 24; ++i) o << (i ? "," : "") << r.v[i]; if (r.v.size() > 24) o << ",..."; o << "}"; return o.str(); }
    inline uint64_t hashR(const R &r) {
        uint64_t h = hash_bytes(&r.dt, sizeof r.dt);
        h = hash_bytes(r.s.data(), r.s.size() * sizeof(int), h);
        return hash_bytes(r.v.data(), r.v.size() * sizeof(double), h);
    }
    // empty string when equal (relative tolerance tol against scale max(1,|a|,|b|))
    inline std::string diff(const R &got, const R &want, double tol = 0, bool check_dtype = true) {
        if (check_dtype && got.dt != want.dt) return std::string("dtype ") + ts::type_str(got.dt) + " instead of " + ts::type_str(want.dt);
        if (got.s != want.s) return "shape " + str(got.s) + " instead of " + str(want.s);
        for (size_t i = 0; i < want.v.size(); ++i) {
            double a = got.v[i], b = want.v[i];
            if (std::isnan(a) && std::isnan(b)) continue;
            if (a == b) continue;
            double scale = std::max(1.0, std::max(std::fabs(a), std::fabs(b)));
            if (!(std::fabs(a - b) <= tol * scale)) {
                std::ostringstream o; o.precision(9);
                o << "element " << i << " is " << a << " instead of " << b << "; got " << show(got) << " want " << show(want);
                return o.str();
            }
        }
        return "";
    }

    struct P { std::string name; Tensor value; };
    inline Tensor pi(int x) { return ts::tensor::from<int32_t>(x); }
    inline Tensor pf(float x) { return ts::tensor::from<float>(x); }
    inline Tensor pb(bool x) { return ts::tensor::from<bool>(x); }
    inline Tensor ps(const std::string &x) { return ts::tensor::from(x); }
    inline Tensor pv(const std::vector<int> &x) { return ts::tensor::build(ts::INT32, x); }
    inline Tensor pvf(const std::vector<float> &x) { return ts::tensor::build(ts::FLOAT32, x); }
    inline Tensor p42(const std::vector<int> &x) { return ts::tensor::build(ts::INT32, ts::Shape({int(x.size()) / 2, 2}), x); }

    struct Out {
        bool ok = false;
        std::string err;
        std::vector<Tensor> t;
        std::vector<ts::Tensor::Prototype> proto;
        bool inferred = false;
        std::string infer_err;
    };
    // A stand-in for the CPU allocator that surrounds every block with sentinel bytes, so that a kernel
    // writing outside the tensors it was given is seen, not only when the stray value is read back.
    // The sentinels are 0xFF (NaN, -1), which shows an out-of-range read that has an influence on a result.
    struct Guard {
        enum { PAD = 64 };
        std::mutex m;
        std::map<void *, size_t> live;
        std::string broken;
        static Guard &g() { static Guard *x = new Guard; return *x; }
        static bool clean(const uint8_t *p, size_t n, std::string &why) {
            for (int i = 1; i <= PAD; ++i) if (p[-i] != 0xFF) { why = "byte -" + std::to_string(i) + " before a block of " + std::to_string(n) + " bytes"; return false; }
            for (int i = 0; i < PAD; ++i) if (p[n + i] != 0xFF) { why = "byte " + std::to_string(i) + " after a block of " + std::to_string(n) + " bytes"; return false; }
            return true;
        }
        void *get(size_t n) {
            auto raw = (uint8_t *) ::aligned_alloc(64, (n + 2 * PAD + 63) / 64 * 64);
            if (!raw) throw ts::OutOfMemoryException(ts::MemoryDevice(ts::CPU, 0), n);
            std::memset(raw, 0xFF, n + 2 * PAD);
            std::lock_guard<std::mutex> l(m);
            live[raw + PAD] = n;
            return raw + PAD;
        }
        void put(void *p) {
            if (!p) return;
            {
                std::lock_guard<std::mutex> l(m);
                auto it = live.find(p);
                if (it == live.end()) { std::free(p); return; }     // allocated before the stand-in was there
                std::string why;
                if (!clean((uint8_t *) p, it->second, why) && broken.empty()) broken = why;
                live.erase(it);
            }
            std::free((uint8_t *) p - PAD);
        }
        static void *alloc(int, size_t n, void *mem, size_t size) {
            auto &s = g();
            if (n == 0) { s.put(mem); return nullptr; }
            if (mem && !size) { s.put(mem); mem = nullptr; }
            auto p = s.get(n);
            if (mem) { std::memcpy(p, mem, std::min(n, size)); s.put(mem); }
            return p;
        }
        std::string check() {
            std::lock_guard<std::mutex> l(m);
            for (auto &b : live) { std::string why; if (!clean((uint8_t *) b.first, b.second, why)) { if (broken.empty()) broken = why; std::memset((uint8_t *) b.first - PAD, 0xFF, PAD); std::memset((uint8_t *) b.first + b.second, 0xFF, PAD); } }
            std::string r; r.swap(broken); return r;
        }
    };
    struct Bench {
        std::shared_ptr<ts::Workbench> b;
        int threads;
        bool keep = false;      // the workbench is bound elsewhere
        Bench(int threads = 1) : threads(threads) {
            ts_setup();
            static bool guarded = false;
            if (!guarded) { ts::HardAllocator::Register(ts::CPU, Guard::alloc); guarded = true; }
            renew();
        }
        void renew() { b = std::make_shared<ts::Workbench>(ts::ComputingDevice(ts::CPU), threads); }
        ts::Operator::shared create(const std::string &op, const std::vector<P> &params, std::string *err = nullptr) {
            try {
                ts::Bubble bub(op, "n");
                for (auto &p : params) bub.set(p.name, p.value);
                return b->offline_create(bub, true);
            } catch (const ts::Exception &e) { if (err) *err = e.what(); return nullptr; }
            catch (const std::exception &e) { if (err) *err = std::string("std:") + e.what(); return nullptr; }
        }
        Out run(const std::string &op, const std::vector<P> &params, const std::vector<Tensor> &in, bool infer = false) {
            Out o;
            auto p = create(op, params, &o.err);
            if (!p) { if (o.err.empty()) o.err = "no operator " + op; return o; }
            return run(p, in, infer);
        }
        Out run(ts::Operator::shared p, const std::vector<Tensor> &in, bool infer = false) {
            Out o;
            // a fresh workbench has no spare memory: every tensor of the call is a block of its own size
            if (S().mode != "infer" && S().mode != "graph" && !keep) renew();
            auto depth = b->stack().size();
            if (infer) {
                try { b->offline_infer(p, in, o.proto); o.inferred = true; }
                catch (const ts::Exception &e) { o.infer_err = e.what(); }
                catch (const std::exception &e) { o.infer_err = std::string("std:") + e.what(); }
            }
            try { b->offline_run(p, in, o.t); o.ok = true; }
            catch (const ts::Exception &e) { o.err = e.what(); }
            catch (const std::exception &e) { o.err = std::string("std:") + e.what(); }
            if (b->stack().size() != depth) fail("workbench stack not restored", "depth changed");
            auto stray = Guard::g().check();
            if (!stray.empty()) fail("op=" + p->op() + ";stray-write", "memory outside every tensor was written: " + stray);
            return o;
        }
    };
    inline std::string show(const ts::Tensor::Prototype &p) { return std::string(ts::type_str(p.dtype())) + str(Sh(p.sizes().begin(), p.sizes().end())); }

    // Judges one operator execution.  In --mode infer only the agreement between the inferred and the
    // produced prototype is judged; otherwise the values.  `key` names the operator and the call shape.
    struct Judge {
        Bench &b;
        bool infer_mode, graph_mode;
        std::set<std::string> graphs;
        bool reuse = true;
        struct Prev { std::vector<Tensor> in; uint64_t out; std::string what; };
        std::map<uint64_t, Prev> prev;
        static std::string brief(const Tensor &t) { return t.fields_count() > 1 ? "packed" : show(read(t)); }
        static uint64_t outhash(const Out &o) {
            uint64_t h = o.ok ? 1 : 2;
            if (o.ok) for (auto &t : o.t) for (auto &f : t.unpack()) { auto x = hashR(read(f)); h = hash_bytes(&x, 8, h); }
            return h;
        }
        Judge(Bench &b) : b(b), infer_mode(S().mode == "infer" || S().mode == "graph"), graph_mode(S().mode == "graph") {}
        Out call(const std::string &op, const std::vector<P> &params, const std::vector<R> &in) {
            std::vector<Tensor> ti;
            for (auto &r : in) ti.push_back(make(r));
            return callt(op, params, ti);
        }
        Out callt(const std::string &op, const std::vector<P> &params, const std::vector<Tensor> &ti) {
            std::vector<uint64_t> before;
            for (auto &t : ti) before.push_back(t.fields_count() > 1 ? 0 : hashR(read(t)));
            std::string cerr;
            auto inst = b.create(op, params, &cerr);
            Out o;
            if (!inst) o.err = cerr.empty() ? "no operator " + op : cerr;
            else o = b.run(inst, ti, infer_mode && !graph_mode);
            step();
            if (graph_mode) { graph(op, params, ti, o); return o; }
            if (inst && infer_mode) {
                // the prediction leaves the inputs alone and has no part in the result
                auto depth = b.b->stack().size();
                std::vector<ts::Tensor::Prototype> proto;
                std::string again;
                try { b.b->offline_infer(inst, ti, proto); for (auto &p : proto) again += show(p); }
                catch (const std::exception &) { again = "refused"; }
                if (b.b->stack().size() != depth) fail("op=" + op + ";infer-stack", "stack not restored by the prediction");
                for (size_t i = 0; i < ti.size(); ++i)
                    if (ti[i].fields_count() <= 1 && hashR(read(ti[i])) != before[i]) fail("op=" + op + ";infer-input-modified", "input " + std::to_string(i) + " was changed");
                std::string first = "refused";
                if (o.inferred) { first.clear(); for (auto &p : o.proto) first += show(p); }
                if (o.ok && first != again) fail("op=" + op + ";infer-again", "predicted " + first + ", after running " + again);
                auto fresh = b.create(op, params);
                if (fresh) {
                    auto o2 = b.run(fresh, ti);
                    step();
                    if (outhash(o2) != outhash(o)) fail("op=" + op + ";infer-effect", "an operator object asked for its prediction first gives another result: " + (o.ok ? (o.t.empty() ? "nothing" : brief(o.t[0])) : "refused " + o.err) + " instead of " + (o2.ok ? (o2.t.empty() ? "nothing" : brief(o2.t[0])) : "refused " + o2.err));
                }
            }
            if (inst && reuse && !infer_mode) {
                // an operator object is reused by every run of a program: its result may only depend on
                // the parameters and the inputs of the call, not on calls made before
                uint64_t pk = hash_str(op);
                for (auto &p : params) { pk = hash_str(p.name, pk); auto h = hashR(read(p.value)); pk = hash_bytes(&h, 8, pk); }
                auto it = prev.find(pk);
                if (it != prev.end()) {
                    auto o2 = b.run(inst, it->second.in);
                    step();
                    if (outhash(o2) != it->second.out) {
                        fail("op=" + op + ";reused-object", "the same operator object, used a second time (after the present case) on " + it->second.what + ", gives another result than a fresh one: " + (o2.ok ? (o2.t.empty() ? "nothing" : brief(o2.t[0])) : "refused " + o2.err));
                    }
                }
                Prev q; for (auto &t : ti) q.in.push_back(t.clone()); q.out = outhash(o); q.what = S().desc ? S().desc() : "";
                prev[pk] = q;
            }
            for (size_t i = 0; i < ti.size(); ++i)
                if (ti[i].fields_count() <= 1 && hashR(read(ti[i])) != before[i] && !infer_mode) fail("op=" + op + ";input-modified", "input " + std::to_string(i) + " was changed by the operator");
            for (auto &t : o.t) if (t.fields_count() <= 1) state(hashR(read(t)));
            if (!o.ok) state(hash_str(op + ":rejected"));
            return o;
        }
        // What a graph with this one node says about it before it is run: a type and a shape, where -1 is a size not known.
        void graph(const std::string &op, const std::vector<P> &params, const std::vector<Tensor> &ti, const Out &o) {
            if (!o.ok || !ts::ShapeInferer::Query(op)) return;     // what cannot run has no type and shape
            std::vector<Tensor> out = o.t;
            if (out.size() == 1) out = out[0].unpack();
            // how many rows there are depends on the values
            bool rows = op == "non_max_suppression_v3" || op == "proposal" || op == "yolo_poster";
            // a call that differs only in its data is judged once (small integers may be shapes or axes)
            auto mem = [](const Tensor &t) { return std::string((const char *) t.data(), size_t(t.count()) * t.proto().type_bytes()); };
            std::string seen = op;
            for (auto &p : params) seen += "|" + p.name + "=" + mem(p.value);
            for (auto &t : ti) { seen += "|"; for (auto &f : t.unpack()) { seen += show(f.proto()); if (f.count() <= 16 && f.dtype() != ts::FLOAT32 && f.dtype() != ts::FLOAT64) seen += mem(f); } }
            if (!graphs.insert(seen).second) return;
            auto sh = [](const Tensor &t) { auto z = t.sizes(); return Sh(z.begin(), z.end()); };
            ts::ctx::bind<ts::RuntimeContext> _rt(b.b->runtime());
            // 0: every input is a constant; 1: the first is an argument; 2: every input is an argument;
            // 3...: the first is an argument of which one size is not known
            int first = ti.empty() || ti[0].fields_count() > 1 ? 0 : int(ti[0].dims());
            for (int how = 0; how < 3 + first; ++how) {
                ts::Graph g; ts::ctx::bind<ts::Graph> _g(g);
                std::vector<ts::Node> in;
                for (size_t i = 0; i < ti.size(); ++i) {
                    auto name = "i" + std::to_string(i);
                    bool arg = ti[i].fields_count() <= 1 && (how == 2 || (how != 0 && i == 0));
                    if (!arg) { in.push_back(ts::bubble::data(name, ti[i])); continue; }
                    auto z = sh(ti[i]); if (how >= 3) z[size_t(how - 3)] = -1;
                    in.push_back(ts::bubble::param(name, ti[i].dtype(), ts::Shape(z)));
                }
                auto node = ts::bubble::op("node", op, in);
                for (auto &p : params) node->set(p.name, p.value);
                auto key = "graph;op=" + op; std::string w = how == 0 ? "all inputs constants" : how == 1 ? "first input an argument" : how == 2 ? "all inputs arguments" : "size " + std::to_string(how - 3) + " of the argument not known";
                step();
                ts::TensorPrototype p;
                try { p = ts::infer(node); } catch (const std::exception &e) { if (how < 1) fail(key + ";answer", "the operator runs, but its shape is refused with " + w + ": " + e.what()); continue; }
                if (p.dtype() == ts::VOID) { if (how < 1) fail(key + ";answer", "the operator runs, but no shape is inferred with " + w); continue; }
                size_t n = p.fields_count();
                if (n != out.size()) { fail(key + ";fields", w + ": " + std::to_string(n) + " fields inferred, " + std::to_string(out.size()) + " produced"); continue; }
                for (size_t i = 0; i < n; ++i) {
                    auto f = p.field(i); Sh a(f.sizes().begin(), f.sizes().end()), z = sh(out[i]);
                    std::string got = std::string(ts::type_str(f.dtype())) + str(a), run = std::string(ts::type_str(out[i].dtype())) + str(z);
                    bool ok = a.size() == z.size();
                    for (size_t k = rows ? 1 : 0; ok && k < a.size(); ++k) if (a[k] != z[k] && a[k] != -1) ok = false;
                    if (!ok) { fail(key + (how < 3 ? ";shape" : ";unknown"), w + ": " + got + " inferred, " + run + " produced"); break; }
                    if (f.dtype() != out[i].dtype()) { fail(key + ";dtype", w + ": " + got + " inferred, " + run + " produced"); break; }
                }
                if (how < 3 && node->has("#value")) {
                    auto v = node->get("#value"); auto u = v.unpack();
                    if (u.size() != out.size()) { fail(key + ";value", w + ": a value of " + std::to_string(u.size()) + " fields"); continue; }
                    for (size_t i = 0; i < u.size(); ++i) { auto d = diff(read(u[i]), read(out[i]), 1e-6); if (!d.empty()) { fail(key + ";value", w + ": the value found without running is another one: " + d); break; } }
                }
            }
        }
        void infer(const std::string &key, const Out &o) {
            if (!o.ok || graph_mode) return;
            if (!o.inferred) { fail(key + ";infer", "the operator runs but its shape inference is refused: " + o.infer_err); return; }
            if (o.t.size() == 1 && o.t[0].fields_count() > 1 && o.proto.size() == o.t[0].fields_count()) {   // the fields of one packed output
                Out u = o; u.t = o.t[0].unpack(); infer(key, u); return;
            }
            if (o.proto.size() != o.t.size()) { fail(key + ";infer", "inferred " + std::to_string(o.proto.size()) + " outputs, produced " + std::to_string(o.t.size())); return; }
            for (size_t i = 0; i < o.t.size(); ++i) {
                if (o.t[i].fields_count() > 1) {
                    continue;
                }
                if (o.proto[i].dtype() != o.t[i].dtype() || Sh(o.proto[i].sizes().begin(), o.proto[i].sizes().end()) != Sh(o.t[i].sizes().begin(), o.t[i].sizes().end()))
                    fail(key + ";infer", "output " + std::to_string(i) + " inferred " + show(o.proto[i]) + " produced " + show(o.t[i].proto()));
            }
        }
        // how many rows there are depends on the values: only the rest is predicted
        void infer_bound(const std::string &key, const Out &o) {
            if (!o.ok || graph_mode) return;
            if (!o.inferred) { fail(key + ";infer", "the operator runs but its shape inference is refused: " + o.infer_err); return; }
            std::vector<Tensor> t = o.t; if (t.size() == 1) t = t[0].unpack();
            if (o.proto.size() != t.size()) { fail(key + ";infer", "inferred " + std::to_string(o.proto.size()) + " outputs, produced " + std::to_string(t.size())); return; }
            for (size_t i = 0; i < t.size(); ++i) {
                auto &p = o.proto[i]; bool ok = p.dtype() == t[i].dtype() && p.sizes().size() == t[i].sizes().size();
                if (ok && !p.sizes().empty()) ok = p.sizes().back() == t[i].sizes().back();
                if (!ok) fail(key + ";infer", "output " + std::to_string(i) + " inferred rows as in " + show(p) + " produced " + show(t[i].proto()));
            }
        }
        void want(const std::string &key, const Out &o, const std::vector<R> &w, double tol = 0) {
            if (infer_mode) { infer(key, o); return; }
            if (!o.ok) { fail(key, "refused: " + o.err); return; }
            if (o.t.size() != w.size()) { fail(key, "produced " + std::to_string(o.t.size()) + " outputs instead of " + std::to_string(w.size())); return; }
            for (size_t i = 0; i < w.size(); ++i) {
                auto d = diff(read(o.t[i]), w[i], tol);
                if (!d.empty()) { fail(key, "output " + std::to_string(i) + ": " + d); return; }
            }
        }
        void rejected(const std::string &key, const Out &o) {
            if (infer_mode) return;
            if (o.ok) fail(key, "accepted an invalid call, produced " + (o.t.empty() ? std::string("nothing") : show(read(o.t[0]))));
        }
    };
    // quiet library logging (it writes to stdout)
    inline void quiet() { std::cout.setstate(std::ios::failbit); }

    // distinct, sign-varying small integers that are exact in every arithmetic dtype
    inline R iota(DTYPE dt, const Sh &s, int start = 1, int mod = 0) {
        R r(dt, s);
        bool uns = dt == ts::UINT8 || dt == ts::UINT16 || dt == ts::UINT32 || dt == ts::UINT64 || dt == ts::BOOLEAN;
        for (size_t i = 0; i < r.v.size(); ++i) { double x = double(start) + double(i); if (mod) x = std::fmod(x, mod); if (!uns && i % 3 == 1) x = -x; r.v[i] = dt == ts::BOOLEAN ? double(int(x) & 1) : x; }
        return r;
    }
    // all shapes with dims in [lo,hi] and sizes drawn from `sizes`
    inline std::vector<Sh> shapes(int lo, int hi, const std::vector<int> &sizes) {
        std::vector<Sh> out;
        for (int d = lo; d <= hi; ++d) {
            std::vector<int> k(d, 0);
            while (true) {
                Sh s(d); for (int i = 0; i < d; ++i) s[i] = sizes[k[i]];
                out.push_back(s);
                int i = d - 1;
                for (; i >= 0; --i) { if (++k[i] < int(sizes.size())) break; k[i] = 0; }
                if (i < 0) break;
            }
        }
        return out;
    }
    inline double round_to(DTYPE dt, double x) {
        switch (dt) {
            case ts::FLOAT32: return double(float(x));
            case ts::FLOAT64: return x;
            default: return x;
        }
    }
}
#endif
