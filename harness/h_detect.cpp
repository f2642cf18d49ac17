// Selection and detection operators against reference definitions: top-k, argmax, non-maximum suppression,
// SSD detection output and prior boxes, RPN proposals, ROI align, shape indexed patches, YOLO layers.
#include "ops.h"
#include <algorithm>
#include <functional>
#include <numeric>
using namespace vf;
using namespace ts;
namespace {
    typedef std::vector<double> D;
    typedef std::vector<int> I;
    std::string show(const I &v) { return strv(v); }
    std::string show(const D &v) { std::ostringstream o; o << "["; for (size_t i = 0; i < v.size(); ++i) o << (i ? "," : "") << v[i]; o << "]"; return o.str(); }
    // every table of n entries over m values
    bool odo(I &c, int m) { for (int i = int(c.size()) - 1; i >= 0; --i) { if (++c[i] < m) return true; c[i] = 0; } return false; }
    // every order of `score` that is descending: f(order) returns true to stop
    bool orders(const D &score, I cand, const std::function<bool(const I &)> &f, long limit = 5040) {
        std::stable_sort(cand.begin(), cand.end(), [&](int a, int b) { return score[a] > score[b]; });
        std::vector<std::pair<int, int>> groups;
        for (int i = 0; i < int(cand.size());) { int j = i; while (j < int(cand.size()) && score[cand[j]] == score[cand[i]]) ++j; if (j - i > 1) groups.push_back({i, j}); i = j; }
        for (auto &g : groups) std::sort(cand.begin() + g.first, cand.begin() + g.second);
        std::function<bool(size_t)> rec = [&](size_t g) -> bool {
            if (--limit < 0) return false;
            if (g == groups.size()) return f(cand);
            auto b = cand.begin() + groups[g].first, e = cand.begin() + groups[g].second;
            do { if (rec(g + 1)) return true; } while (std::next_permutation(b, e));
            return false;
        };
        return rec(0);
    }
    struct Box { double a, b, c, d; };     // two corners
    std::string show(const Box &b) { return show(D{b.a, b.b, b.c, b.d}); }
    const DTYPE NUM[] = {FLOAT32, INT8, UINT8, INT16, UINT16, INT32, UINT32, INT64, UINT64, FLOAT64};
    bool is_unsigned(DTYPE t) { return t == UINT8 || t == UINT16 || t == UINT32 || t == UINT64; }
    std::string text(const std::vector<std::string> &v) { std::string s; for (auto &x : v) s += (s.empty() ? "" : " ") + x; return s; }
    std::string num(double x) { std::ostringstream o; o << x; return o.str(); }
    std::vector<Tensor> fields(const Out &o) { return o.t.empty() ? std::vector<Tensor>() : o.t[0].unpack(); }
}
int main(int argc, const char **argv) {
    parse(argc, argv); quiet(); setenv("TENNIS_NUMBER_THREADS", "1", 1);
    Bench bench; Judge J(bench);
    const bool th = S().thorough;
    // ------------------------------------------------------------------ top-k
    for (DTYPE dt : NUM) for (int rows = 1; rows <= (dt == FLOAT32 ? 2 : 1); ++rows) for (int w = 1; w <= (rows == 2 ? 2 : dt == FLOAT32 ? (th ? 6 : 5) : 4); ++w) {
        I c(rows * w, 0);
        do {
            R x(dt, rows == 2 ? Sh{2, w} : w == 3 ? Sh{1, 1, w} : Sh{w});
            for (size_t i = 0; i < c.size(); ++i) x.v[i] = is_unsigned(dt) ? c[i] * 100 : dt == FLOAT32 || dt == FLOAT64 ? (c[i] - 1) * 1.5 : (c[i] - 1) * 100;
            for (int k = 1; k <= w + 1; ++k) for (int sorted = 0; sorted < 2; ++sorted) {
                if (!take("top-k", [&] { return std::string(type_str(dt)) + " " + show(x.v) + " rows " + num(rows) + " k " + num(k) + " sorted " + num(sorted); })) continue;
                auto o = J.call("topkv2", {{"number", pi(k)}, {"sorted", pb(sorted)}}, {x});
                std::string key = std::string("top-k;") + type_str(dt);
                if (J.infer_mode) { J.infer(key, o); continue; }
                if (!o.ok) { fail(key, "refused: " + o.err); continue; }
                auto f = fields(o);
                if (f.size() != 2) { fail(key, "does not give values and indices"); continue; }
                R v = read(f[0]), n = read(f[1]); int kk = std::min(k, w);
                Sh s = x.s; s.back() = kk;
                if (v.s != s || n.s != s || v.dt != dt || n.dt != INT32) { fail(key, "gave " + show(v) + " and " + show(n)); continue; }
                for (int r = 0; r < rows; ++r) {
                    D row(x.v.begin() + r * w, x.v.begin() + (r + 1) * w), best = row; std::sort(best.rbegin(), best.rend()); best.resize(kk);
                    D got(v.v.begin() + r * kk, v.v.begin() + (r + 1) * kk); D idx(n.v.begin() + r * kk, n.v.begin() + (r + 1) * kk);
                    D cmp = got; if (!sorted) std::sort(cmp.rbegin(), cmp.rend());
                    if (cmp != best) { fail(key + ";values", "row " + num(r) + " gives " + show(got) + " instead of " + show(best)); break; }
                    std::set<int> seen; bool bad = false;
                    for (int i = 0; i < kk; ++i) bad |= idx[i] < 0 || idx[i] >= w || !seen.insert(int(idx[i])).second || row[int(idx[i])] != got[i];
                    if (bad) { fail(key + ";indices", "row " + num(r) + " gives indices " + show(idx) + " for " + show(got)); break; }
                }
            }
        } while (odo(c, rows * w >= 6 ? 2 : 3));
    }
    // ------------------------------------------------------------------ argmax
    for (DTYPE dt : NUM) for (auto &s : shapes(1, 3, {1, 2, 3})) {
        if (cnt(s) > 9 && dt != FLOAT32 && dt != INT8) continue;
        const bool small = cnt(s) <= (dt == FLOAT32 || th ? 4 : 3);
        I c(small ? cnt(s) : 1, 0);
        do {
            R x(dt, s);
            for (size_t i = 0; i < x.v.size(); ++i) { int q = small ? c[i] : int((i * 7 + c[0] * 5 + i / 3) % 5) - 1; x.v[i] = is_unsigned(dt) ? (q + 1) * 50 : dt == FLOAT32 || dt == FLOAT64 ? (q - 1) * 1.25 : (q - 1) * 30; }
            for (int axis = -int(s.size()); axis < int(s.size()); ++axis) {
                if (!take("argmax", [&] { return show(x) + " axis " + num(axis); })) continue;
                int a = axis < 0 ? axis + int(s.size()) : axis;
                Sh os = s; os.erase(os.begin() + a);
                R want(INT32, os);
                long k = 0;
                auto put = [&](const Sh &oc) { Sh ic = oc; ic.insert(ic.begin() + a, 0); int best = 0; double bv = 0; for (int m = 0; m < s[a]; ++m) { ic[a] = m; double v = x.at(ic); if (m == 0 || v > bv) { bv = v; best = m; } } want.v[k++] = best; };
                if (os.empty()) put({}); else each(os, put);
                J.want(std::string("argmax;") + type_str(dt), J.call("argmax", {{"dim", pi(axis)}}, {x}), {want});
            }
        } while (odo(c, small ? 3 : 4));
    }
    // ------------------------------------------------------------------ non-maximum suppression
    {
        const std::vector<Box> B = {{0, 0, 4, 4}, {0, 0, 4, 2}, {0, 2, 4, 6}, {4, 4, 8, 8}, {4, 4, 0, 0}, {1, 1, 1, 3}, {-2, 0, 2, 4}, {0, 0, 4, 3}};
        const double SC[] = {0.25, 0.5, 0.75};
        for (int n = 1; n <= 4; ++n) {
            const int nb = n <= 2 ? 8 : n == 3 ? (th ? 8 : 5) : (th ? 5 : 3);
            I c(n, 0);
            do {
                I s(n, 0);
                do {
                    int turn = 0;
                    for (int i = 0; i < n; ++i) turn = turn * 5 + c[i] * 3 + s[i];
                    for (int mode = 0; mode < 2; ++mode) for (int mx = 1; mx <= n + 1; ++mx) for (double it : {0.0, 0.25, 0.5, 0.75}) for (double st : {0.0, 0.5}) {
                        if (n > 2 && ((turn + mode * 5 + mx * 3 + int(it * 4) * 7 + int(st * 2)) % (n == 3 ? 8 : 16))) continue;
                        if (!take("non-max suppression", [&] { std::string d = (mode ? "xywh" : "xyxy"); for (int i = 0; i < n; ++i) d += " " + show(B[c[i]]) + "@" + num(SC[s[i]]); return d + " limit " + num(mx) + " iou " + num(it) + " score " + num(st); })) continue;
                        R x(FLOAT32, {n, 4}), sc(FLOAT32, {n});
                        std::vector<Box> bx;
                        for (int i = 0; i < n; ++i) {
                            Box q = B[c[i]]; double v[4] = {q.a, q.b, mode ? q.c - q.a : q.c, mode ? q.d - q.b : q.d};
                            for (int k = 0; k < 4; ++k) x.v[i * 4 + k] = v[k];
                            sc.v[i] = SC[s[i]];
                            bx.push_back({std::min(q.a, q.c), std::min(q.b, q.d), std::max(q.a, q.c), std::max(q.b, q.d)});
                        }
                        auto sup = [&](int i, int j) { double ai = (bx[i].c - bx[i].a) * (bx[i].d - bx[i].b), aj = (bx[j].c - bx[j].a) * (bx[j].d - bx[j].b); if (ai <= 0 || aj <= 0) return false; double w = std::min(bx[i].c, bx[j].c) - std::max(bx[i].a, bx[j].a), h = std::min(bx[i].d, bx[j].d) - std::max(bx[i].b, bx[j].b); double in = std::max(w, 0.) * std::max(h, 0.); return in / (ai + aj - in) > it; };
                        auto o = J.call("non_max_suppression_v3", {{"max_output_size", pi(mx)}, {"iou_threshold", pf(it)}, {"score_threshold", pf(st)}, {"mode", ps(mode ? "xywh" : "xyxy")}}, {x, sc});
                        const std::string key = "non-max suppression";
                        if (J.infer_mode) { J.infer(key, o); continue; }
                        if (!o.ok) { fail(key, "refused: " + o.err); continue; }
                        R got = read(o.t[0]);
                        if (got.s != Sh{mx} || got.dt != INT32) { fail(key, "gave " + show(got)); continue; }
                        I cand; for (int i = 0; i < n; ++i) if (sc.v[i] > st) cand.push_back(i);
                        D first; bool any = orders(sc.v, cand, [&](const I &ord) {
                            D sel; for (int i : ord) { if (int(sel.size()) == mx) break; bool ok = true; for (double j : sel) ok &= !sup(i, int(j)); if (ok) sel.push_back(i); }
                            sel.resize(mx, -1); if (first.empty()) first = sel; return sel == got.v;
                        });
                        if (!any) fail(key, "selected " + show(got.v) + " instead of " + show(first));
                    }
                } while (odo(s, 3));
            } while (odo(c, nb));
        }
    }
    // ------------------------------------------------------------------ prior boxes
    {
        const std::vector<std::vector<float>> mins = {{4}, {4, 10}}, maxs = {{}, {9, 16}}, ars = {{}, {2}, {1, 2, 3}, {0.5f, 2}}, vars = {{}, {0.2f}, {0.1f, 0.1f, 0.2f, 0.2f}};
        for (int h = 1; h <= 3; ++h) for (int w = 1; w <= 3; ++w) for (int a = 0; a < 2; ++a) for (int b = 0; b < 2; ++b) for (size_t r = 0; r < ars.size(); ++r) for (int flip = 0; flip < 3; ++flip) for (int clip = 0; clip < 3; ++clip) for (size_t v = 0; v < vars.size(); ++v) for (int img = 0; img < 3; ++img) for (int step = 0; step < 4; ++step) for (int off = 0; off < 3; ++off) {
            if (!th && (h * 3 + w + a + 2 * b + int(r) * 5 + flip * 7 + clip * 11 + int(v) * 3 + img * 13 + step * 17 + off) % 5) continue;
            if (!take("prior boxes", [&] { return "map " + num(h) + "x" + num(w) + " sizes " + num(a) + " max " + num(b) + " ratios " + strv(ars[r]) + " flip " + num(flip) + " clip " + num(clip) + " variance " + strv(vars[v]) + " image " + num(img) + " step " + num(step) + " offset " + num(off); })) continue;
            auto mn = mins[a]; std::vector<float> mxs = b ? (a ? maxs[1] : std::vector<float>{9}) : maxs[0];
            std::vector<P> p = {{"min_size", pvf(mn)}, {"max_size", mxs.empty() ? Tensor(MemoryDevice(CPU), FLOAT32, {0}) : pvf(mxs)}, {"aspect_ratio", ars[r].empty() ? Tensor(MemoryDevice(CPU), FLOAT32, {0}) : pvf(ars[r])}};
            bool fl = flip != 2 ? flip == 0 : true; if (flip < 2) p.push_back({"flip", pb(fl)});
            bool cl = clip == 1; if (clip < 2) p.push_back({"clip", pb(cl)});
            D var(4, 0.1); if (!vars[v].empty()) { p.push_back({"variance", vars[v].size() == 1 ? pf(vars[v][0]) : pvf(vars[v])}); for (int i = 0; i < 4; ++i) var[i] = vars[v][vars[v].size() == 1 ? 0 : i]; }
            double ih = 20, iw = 30; if (img == 1) { p.push_back({"img_size", pi(24)}); ih = iw = 24; } if (img == 2) { p.push_back({"img_h", pi(16)}); p.push_back({"img_w", pi(40)}); ih = 16; iw = 40; }
            double sh = ih / h, sw = iw / w; if (step == 1) { p.push_back({"step", pf(6.5f)}); sh = sw = 6.5; } if (step == 2) { p.push_back({"step_h", pf(7)}); p.push_back({"step_w", pf(5)}); sh = 7; sw = 5; } if (step == 3) { p.push_back({"step_h", pf(7.5f)}); p.push_back({"step_w", pf(5.25f)}); sh = 7.5; sw = 5.25; }
            double of = 0.5; if (off) { of = off == 1 ? 0 : 0.25; p.push_back({"offset", pf(float(of))}); }
            D ar = {1}; for (double q : ars[r]) { bool dup = false; for (double z : ar) dup |= std::fabs(z - q) < 1e-6; if (dup) continue; ar.push_back(q); if (fl) ar.push_back(1 / q); }
            D boxes;
            for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) {
                double cx = (x + of) * sw, cy = (y + of) * sh;
                auto add = [&](double bw, double bh) { for (double q : {(cx - bw / 2) / iw, (cy - bh / 2) / ih, (cx + bw / 2) / iw, (cy + bh / 2) / ih}) boxes.push_back(cl ? std::min(1., std::max(0., q)) : q); };
                for (size_t s = 0; s < mn.size(); ++s) { add(mn[s], mn[s]); if (!mxs.empty()) { double g = std::sqrt(double(mn[s]) * mxs[s]); add(g, g); } for (size_t k = 1; k < ar.size(); ++k) add(mn[s] * std::sqrt(ar[k]), mn[s] / std::sqrt(ar[k])); }
            }
            R want(FLOAT32, {1, 2, int(boxes.size())});
            for (size_t i = 0; i < boxes.size(); ++i) { want.v[i] = boxes[i]; want.v[boxes.size() + i] = var[i % 4]; }
            std::string key = std::string("prior boxes") + (step == 3 ? ";fractional step" : "");
            J.want(key, J.call("prior_box", p, {R(FLOAT32, {1, 2, h, w}), R(FLOAT32, {1, 3, 20, 30})}), {want}, 1e-5);
        }
    }
    // ------------------------------------------------------------------ SSD detection output
    {
        const std::vector<Box> PB = {{0.25, 0.25, 0.75, 0.75}, {0.25, 0.25, 0.75, 0.5}, {0, 0.5, 0.5, 1}};
        const double SC[] = {0.125, 0.5, 0.75};
        // score tables: 2 priors x 2 classes (background and one), 2 x 3, 3 x 2, and two images
        struct Cfg { int num, P, C; };
        for (Cfg g : {Cfg{1, 1, 2}, Cfg{1, 2, 2}, Cfg{1, 3, 2}, Cfg{1, 2, 3}, Cfg{2, 1, 2}, Cfg{2, 2, 2}, Cfg{1, 3, 3}}) {
            I s(g.num * g.P * (g.C - 1), 0);     // scores of the classes that are not the background
            if (!th && s.size() > 4) s.resize(3);
            do for (int turn = 0; turn < (th ? 96 : 48); ++turn) {
                int hsh = turn; for (int q : s) hsh = hsh * 31 + q * 7; hsh = (hsh ^ (hsh >> 5)) & 0xffff;
                const int code = 1 + turn % 3; const bool share = (turn / 3) % 2, vit = (turn / 6) % 2; const double nms = (turn / 12) % 2 ? 0.25 : 0.5;
                const int bg = (hsh / 3) % 5 == 4 ? -1 : (hsh / 3) % 5 == 3 ? g.C - 1 : 0, topk = I{-1, 1, 2, 5}[hsh % 4], keep = I{-1, 1, 2, 0, 7}[(hsh / 7) % 5];
                const double eta = (hsh / 11) % 3 == 2 ? 0.5 : 1, thr = (hsh / 13) % 2 ? 0.25 : 0.0, shift = (turn / 24) % 2 ? 0.25 : 0;
                const std::string key = std::string("detection output;code ") + num(code) + (bg == -1 ? ";no background" : "");
                if (!take("detection output", [&] { return num(g.num) + " images " + num(g.P) + " priors " + num(g.C) + " classes scores " + show(s) + " code " + num(code) + " shared " + num(share) + " variance in target " + num(vit) + " nms " + num(nms) + " eta " + num(eta) + " background " + num(bg) + " top " + num(topk) + " keep " + num(keep) + " threshold " + num(thr) + " shift " + num(shift) + " turn " + num(turn); })) continue;
                const int LC = share ? 1 : g.C;
                R loc(FLOAT32, {g.num, g.P * LC * 4}), conf(FLOAT32, {g.num, g.P * g.C}), prior(FLOAT32, {1, 2, g.P * 4});
                for (size_t i = 0; i < loc.v.size(); ++i) loc.v[i] = ((i * 5 + turn) % 3 ? 0 : ((i / 3 + turn / 5) % 2 ? shift : -shift));
                int at = 0;
                for (int n = 0; n < g.num; ++n) for (int p = 0; p < g.P; ++p) for (int c = 0; c < g.C; ++c) conf.v[(n * g.P + p) * g.C + c] = c == (bg == -1 ? 0 : bg) ? 0.625 : SC[s[at++ % s.size()]];
                for (int p = 0; p < g.P; ++p) { Box b = PB[(p + turn / 7) % 3]; double q[4] = {b.a, b.b, b.c, b.d}; for (int k = 0; k < 4; ++k) { prior.v[p * 4 + k] = q[k]; prior.v[(g.P + p) * 4 + k] = k < 2 ? 0.5 : 0.25; } }
                // reference
                bool border = false;
                auto decode = [&](int n, int p, int c) -> Box {
                    const double *q = &prior.v[p * 4], *v = &prior.v[(g.P + p) * 4], *l = &loc.v[((n * g.P + p) * LC + (share ? 0 : c)) * 4];
                    double e[4]; for (int k = 0; k < 4; ++k) e[k] = vit ? l[k] : l[k] * v[k];
                    double w = q[2] - q[0], h = q[3] - q[1];
                    if (code == 1) return {q[0] + e[0], q[1] + e[1], q[2] + e[2], q[3] + e[3]};
                    if (code == 3) return {q[0] + e[0] * w, q[1] + e[1] * h, q[2] + e[2] * w, q[3] + e[3] * h};
                    double cx = (q[0] + q[2]) / 2 + e[0] * w, cy = (q[1] + q[3]) / 2 + e[1] * h, bw = std::exp(e[2]) * w, bh = std::exp(e[3]) * h;
                    return {cx - bw / 2, cy - bh / 2, cx + bw / 2, cy + bh / 2};
                };
                auto area = [](const Box &b) { return b.c < b.a || b.d < b.b ? 0. : (b.c - b.a) * (b.d - b.b); };
                auto iou = [&](const Box &a, const Box &b) { double w = std::min(a.c, b.c) - std::max(a.a, b.a), h = std::min(a.d, b.d) - std::max(a.b, b.b); if (w <= 0 || h <= 0) return 0.; double in = w * h; return in / (area(a) + area(b) - in); };
                struct Det { int label, idx; double score; Box b; };
                std::vector<std::vector<Det>> kept(g.num);
                for (int n = 0; n < g.num; ++n) for (int c = 0; c < g.C; ++c) {
                    if (c == bg) continue;
                    std::vector<Det> d; for (int p = 0; p < g.P; ++p) { double q = conf.v[(n * g.P + p) * g.C + c]; if (q > thr) d.push_back({c, p, q, decode(n, p, c)}); }
                    std::stable_sort(d.begin(), d.end(), [](const Det &a, const Det &b) { return a.score > b.score; });
                    if (topk > -1 && int(d.size()) > topk) d.resize(topk);
                    double t = nms; std::vector<Det> sel;
                    for (auto &x : d) { bool ok = true; for (auto &y : sel) { double u = iou(x.b, y.b); if (u != t && std::fabs(u - t) < 1e-5) border = true; if (code == 2 && std::fabs(u - t) < 1e-5) border = true; ok &= u <= t; } if (ok) { sel.push_back(x); if (eta < 1 && t > 0.5) t *= eta; } }
                    kept[n].insert(kept[n].end(), sel.begin(), sel.end());
                }
                if (border) { ++S().skipped_domain; continue; }
                auto o = J.call("detection_output", {{"num_classes", pi(g.C)}, {"share_location", pb(share)}, {"background_label_id", pi(bg)}, {"nms_threshold", pf(float(nms))}, {"nms_top_k", pi(topk)}, {"nms_eta", pf(float(eta))}, {"code_type", pi(code)}, {"variance_encoded_in_target", pb(vit)}, {"keep_top_k", pi(keep)}, {"confidence_threshold", pf(float(thr))}}, {loc, conf, prior});
                if (J.infer_mode) { J.infer_bound(key, o); continue; }
                if (!o.ok) { fail(key, "refused: " + o.err); continue; }
                R got = read(o.t[0]);
                // every way to cut a tie at keep_top_k
                std::vector<std::vector<D>> images(g.num);   // alternatives per image, flattened rows
                for (int n = 0; n < g.num; ++n) {
                    auto flat = [&](const std::vector<Det> &d) { D r; for (int c = 0; c < g.C; ++c) for (auto &x : d) if (x.label == c) { D row = {double(n), double(c), x.score, x.b.a, x.b.b, x.b.c, x.b.d}; r.insert(r.end(), row.begin(), row.end()); } return r; };
                    if (keep > -1 && int(kept[n].size()) > keep) {
                        D sc; I all; for (size_t i = 0; i < kept[n].size(); ++i) { sc.push_back(kept[n][i].score); all.push_back(int(i)); }
                        orders(sc, all, [&](const I &ord) { std::vector<Det> d; for (int i = 0; i < keep; ++i) d.push_back(kept[n][ord[i]]); images[n].push_back(flat(d)); return false; });
                    } else images[n].push_back(flat(kept[n]));
                }
                std::vector<D> alts = {D()};
                for (auto &im : images) { std::vector<D> nx; for (auto &a : alts) for (auto &b : im) { D z = a; z.insert(z.end(), b.begin(), b.end()); nx.push_back(z); } alts = nx; }
                std::string why; bool any = false;
                for (auto &a : alts) {
                    R w(FLOAT32, {1, 1, int(a.size() / 7), 7}, a);
                    if (a.empty()) { w = R(FLOAT32, {1, 1, g.num, 7}); for (int n = 0; n < g.num; ++n) for (int k = 0; k < 7; ++k) w.v[n * 7 + k] = k ? -1 : n; }
                    auto d = diff(got, w, 1e-5); if (d.empty()) { any = true; break; } if (why.empty()) why = d;
                }
                if (!any) fail(key, why);
            } while (odo(s, 3));
        }
    }
    // ------------------------------------------------------------------ RPN proposals
    {
        struct Cfg { std::vector<std::pair<int, int>> maps; I strides; std::vector<float> ratios, scales; };
        const std::vector<Cfg> C = {{{{1, 2}}, {4}, {1}, {2}}, {{{2, 2}}, {8}, {1}, {1}}, {{{1, 1}}, {8}, {0.5f, 1, 2}, {1, 2}}, {{{1, 2}}, {4}, {1, 2}, {2}}, {{{1, 2}, {1, 1}}, {4, 8}, {1}, {2, 2}}, {{{1, 1}, {1, 1}}, {4, 16}, {0.5f, 1}, {1, 1}}};
        for (size_t ci = 0; ci < C.size(); ++ci) for (int batch = 1; batch <= 2; ++batch) for (int sc = 0; sc < 6; ++sc) for (int dl = 0; dl < 4; ++dl) for (int pre : {1, 2, 100}) for (int post : {1, 3, 100}) for (double nms : {0.3, 0.7}) for (int ms : {0, 12}) for (int lv = 0; lv < 3; ++lv) {
            auto &c = C[ci];
            if (!th && (ci + batch + sc * 5 + dl * 3 + pre + post * 7 + int(nms * 10) + ms + lv) % 3) continue;
            if (!take("proposals", [&] { return "layout " + num(ci) + " images " + num(batch) + " scores " + num(sc) + " deltas " + num(dl) + " pre " + num(pre) + " post " + num(post) + " nms " + num(nms) + " min size " + num(ms) + " levels " + num(lv); })) continue;
            const bool multi = c.strides.size() > 1;
            int total = 0; for (auto &m : c.maps) total += m.first * m.second * int(c.ratios.size()) * (multi ? 1 : int(c.scales.size()));
            const int A = int(c.ratios.size() * (multi ? 1 : c.scales.size())), K = c.maps[0].first * c.maps[0].second;
            std::vector<R> in;
            for (auto &m : c.maps) in.push_back(R(FLOAT32, {batch, 1, m.first, m.second}));
            R prob(FLOAT32, multi ? Sh{batch, total} : Sh{batch, A, c.maps[0].first, c.maps[0].second}), bb(FLOAT32, multi ? Sh{batch, 4, total} : Sh{batch, 4 * A, c.maps[0].first, c.maps[0].second}), info(FLOAT32, {batch, 3});
            for (int n = 0; n < batch; ++n) {
                for (int i = 0; i < total; ++i) prob.v[n * total + i] = sc == 5 ? 0.5 : 0.125 * (1 + (i * (1 + 2 * sc) + sc + 3 * n) % 7);
                for (int i = 0; i < 4 * total; ++i) bb.v[n * 4 * total + i] = dl == 0 ? 0 : dl == 3 ? ((i + n) % 5 - 2) * 0.5 : ((i * (dl + 1) + n) % 3 - 1) * 0.25;
                info.v[n * 3] = 16 + 4 * n; info.v[n * 3 + 1] = 20 - 3 * n; info.v[n * 3 + 2] = n ? 0.5 : 1;
            }
            in.push_back(prob); in.push_back(bb); in.push_back(info);
            const int lo = lv == 0 ? 3 : lv == 1 ? 2 : 3, hi = lv == 0 ? 3 : lv == 1 ? 4 : 5, canon = lv == 2 ? 8 : 16, cl = lv == 2 ? 4 : 3;
            // reference candidates per image
            struct Cand { double b[4], s; };
            bool border = false;
            std::vector<std::vector<Cand>> cand(batch);
            for (int n = 0; n < batch; ++n) {
                std::vector<Cand> an(total);     // in the order of prob
                int at = 0;
                for (size_t l = 0; l < c.maps.size(); ++l) {
                    const int st = c.strides[l]; I rt; std::vector<D> base;
                    for (double r : c.ratios) { double rw = std::floor(std::sqrt(st * st / r) + 0.5), rh = std::floor(rw * r + 0.5); for (size_t k = 0; k < (multi ? 1 : c.scales.size()); ++k) { double w = rw * c.scales[k], h = rh * c.scales[k], m = 0.5 * (st - 1); base.push_back({m - 0.5 * (w - 1), m - 0.5 * (h - 1), m + 0.5 * (w - 1), m + 0.5 * (h - 1)}); } }
                    for (size_t a = 0; a < base.size(); ++a) for (int y = 0; y < c.maps[l].first; ++y) for (int x = 0; x < c.maps[l].second; ++x) { Cand q; q.b[0] = base[a][0] + x * st; q.b[1] = base[a][1] + y * st; q.b[2] = base[a][2] + x * st; q.b[3] = base[a][3] + y * st; an[at++] = q; }
                }
                for (int i = 0; i < total; ++i) {
                    double d[4]; for (int k = 0; k < 4; ++k) d[k] = multi ? bb.v[(n * 4 + k) * total + i] : bb.v[n * 4 * total + ((i / K) * 4 + k) * K + i % K];
                    auto &q = an[i]; double w = q.b[2] - q.b[0] + 1, h = q.b[3] - q.b[1] + 1, cx = q.b[0] + w / 2 + d[0] * w, cy = q.b[1] + h / 2 + d[1] * h, pw = std::exp(d[2]) * w, ph = std::exp(d[3]) * h;
                    double im_h = info.v[n * 3], im_w = info.v[n * 3 + 1], mb = ms * info.v[n * 3 + 2];
                    double e[4] = {cx - pw / 2, cy - ph / 2, cx + pw / 2, cy + ph / 2};
                    for (int k = 0; k < 4; ++k) q.b[k] = std::max(0., std::min(e[k], (k % 2 ? im_h : im_w) - 1));
                    double bw = q.b[2] - q.b[0] + 1, bh = q.b[3] - q.b[1] + 1;
                    if (dl && (std::fabs(bw - mb) < 1e-4 || std::fabs(bh - mb) < 1e-4)) border = true;
                    q.s = (bw >= mb && bh >= mb) ? prob.v[n * total + i] : 0;
                }
                cand[n] = an;
            }
            auto iou = [&](const Cand &a, const Cand &b) { double w = std::max(0., std::min(a.b[2], b.b[2]) - std::max(a.b[0], b.b[0]) + 1), h = std::max(0., std::min(a.b[3], b.b[3]) - std::max(a.b[1], b.b[1]) + 1); if (a.b[0] > b.b[2] || a.b[2] < b.b[0] || a.b[1] > b.b[3] || a.b[3] < b.b[1]) return 0.; double in = w * h; double u = in / ((a.b[2] - a.b[0] + 1) * (a.b[3] - a.b[1] + 1) + (b.b[2] - b.b[0] + 1) * (b.b[3] - b.b[1] + 1) - in); if (std::fabs(u - nms) < 1e-4) border = true; return u; };
            // all results per image (ties may be visited in any order)
            std::vector<std::vector<D>> alt(batch);
            for (int n = 0; n < batch; ++n) {
                D s; I all; for (int i = 0; i < total; ++i) { s.push_back(cand[n][i].s); all.push_back(i); }
                std::set<D> uniq;
                orders(s, all, [&](const I &ord) {
                    I sel; for (int i = 0; i < std::min(pre, total) && int(sel.size()) < post; ++i) { bool ok = true; for (int j : sel) ok &= !(iou(cand[n][ord[i]], cand[n][j]) > nms); if (ok) sel.push_back(ord[i]); }
                    D r; for (int i : sel) { r.push_back(n); for (int k = 0; k < 4; ++k) r.push_back(cand[n][i].b[k]); }
                    uniq.insert(r); return false;
                });
                alt[n].assign(uniq.begin(), uniq.end());
            }
            if (border) { ++S().skipped_domain; continue; }
            auto o = J.call("proposal", {{"strides", pv(c.strides)}, {"ratios", pvf(c.ratios)}, {"scales", pvf(c.scales)}, {"pre_nms_top_n", pi(pre)}, {"post_nms_top_n", pi(post)}, {"nms_thresh", pf(float(nms))}, {"min_size", pi(ms)}, {"min_level", pi(lo)}, {"max_level", pi(hi)}, {"canonical_scale", pi(canon)}, {"canonical_level", pi(cl)}}, in);
            const std::string key = std::string("proposals") + (multi ? ";pyramid" : ";one level") + (batch > 1 ? ";batch" : "");
            if (J.infer_mode) { J.infer_bound(key, o); continue; }
            if (!o.ok) { fail(key, "refused: " + o.err); continue; }
            auto f = fields(o);
            if (int(f.size()) != hi - lo + 1) { fail(key, "gave " + num(f.size()) + " outputs instead of " + num(hi - lo + 1)); continue; }
            std::vector<D> rows = {D()};
            for (auto &im : alt) { std::vector<D> nx; for (auto &a : rows) for (auto &b : im) { D z = a; z.insert(z.end(), b.begin(), b.end()); nx.push_back(z); } rows = nx; }
            std::string why; bool any = false;
            for (auto &a : rows) {
                std::vector<D> bins(hi - lo + 1);
                for (size_t i = 0; i < a.size(); i += 5) { double w = a[i + 3] - a[i + 1] + 1, h = a[i + 4] - a[i + 2] + 1, q = cl + std::log2(std::max(std::sqrt(w * h), 1.) / canon); if (std::fabs(q - std::floor(q + 0.5)) < 1e-6 && dl) border = true; int L = std::min(hi, std::max(lo, int(q + (std::fabs(q - std::floor(q + 0.5)) < 1e-9 ? 1e-9 : 0)))); auto &bn = bins[hi > lo ? L - lo : 0]; bn.insert(bn.end(), a.begin() + i, a.begin() + i + 5); }
                std::string d;
                for (size_t l = 0; l < bins.size() && d.empty(); ++l) {
                    D v = bins[l]; if (v.empty() && bins.size() > 1) v = {0, 0, 0, 1, 1};
                    d = diff(read(f[l]), R(FLOAT32, {int(v.size() / 5), 5}, v), 1e-4); if (!d.empty()) d = "level " + num(lo + l) + ": " + d;
                }
                if (d.empty()) { any = true; break; } if (why.empty()) why = d;
            }
            if (!any && border) { ++S().skipped_domain; continue; }
            if (!any) fail(key, why);
        }
    }
    // ------------------------------------------------------------------ ROI align
    {
        const D XS = {-3, -1.5, 0, 0.75, 2, 3.5, 6};
        for (int N = 1; N <= 2; ++N) for (int Cn = 1; Cn <= 2; ++Cn) for (int H : {1, 3}) for (int W : {1, 2, 4}) for (int ph : {1, 2}) for (int pw : {1, 3}) for (int sr : {-1, 0, 1, 2, 3}) for (double sc : {1.0, 0.5}) {
            if (!take("ROI align", [&] { return "x " + str(Sh{N, Cn, H, W}) + " pool " + num(ph) + "x" + num(pw) + " sampling " + num(sr) + " scale " + num(sc); })) continue;
            R x(FLOAT32, {N, Cn, H, W}); for (size_t i = 0; i < x.v.size(); ++i) x.v[i] = double(int(i * 5 % 17) - 6);
            std::vector<D> rois;
            for (size_t a = 0; a < XS.size(); ++a) for (size_t b = 0; b < XS.size(); ++b) for (size_t c = 0; c < XS.size(); ++c) { int d = int(a * 3 + b * 5 + c) % 7; rois.push_back({double((a + b + c) % (N + 1)) - (N == 1 ? 1 : 0) * 0, XS[a], XS[b], XS[c], XS[d]}); }
            for (auto &q : rois) if (q[0] >= N) q[0] = -1;
            // drop regions with a sampling point on the rim of the map, where rounding decides
            auto one = [&](const D &q, int c, int py, int px, bool &rim) {
                double x0 = q[1] * sc, y0 = q[2] * sc, rw = std::max(q[3] * sc - x0, 1.), rh = std::max(q[4] * sc - y0, 1.), bh = rh / ph, bw = rw / pw; int gh = sr > 0 ? sr : int(std::ceil(rh / ph)), gw = sr > 0 ? sr : int(std::ceil(rw / pw));
                double sum = 0;
                for (int i = 0; i < gh; ++i) for (int j = 0; j < gw; ++j) {
                    double y = y0 + py * bh + (i + .5) * bh / gh, xx = x0 + px * bw + (j + .5) * bw / gw;
                    for (double t : {y + 1, y - H, xx + 1, xx - W}) if (std::fabs(t) < 1e-4) rim = true;
                    if (y < -1 || y > H || xx < -1 || xx > W) continue;
                    y = std::min(std::max(y, 0.), double(H - 1)); xx = std::min(std::max(xx, 0.), double(W - 1));
                    int yl = int(y), xl = int(xx), yh = std::min(yl + 1, H - 1), xh = std::min(xl + 1, W - 1); double ly = y - yl, lx = xx - xl, hy = 1 - ly, hx = 1 - lx; int n = int(q[0]);
                    sum += hy * hx * x.at({n, c, yl, xl}) + hy * lx * x.at({n, c, yl, xh}) + ly * hx * x.at({n, c, yh, xl}) + ly * lx * x.at({n, c, yh, xh});
                }
                return sum / (gh * gw);
            };
            std::vector<D> use; for (auto &q : rois) { bool rim = false; if (q[0] >= 0) for (int a = 0; a < ph; ++a) for (int b = 0; b < pw; ++b) one(q, 0, a, b, rim); if (!rim) use.push_back(q); }
            R r(FLOAT32, {int(use.size()), 5}), want(FLOAT32, {int(use.size()), Cn, ph, pw});
            for (size_t i = 0; i < use.size(); ++i) for (int k = 0; k < 5; ++k) r.v[i * 5 + k] = use[i][k];
            bool rim = false; each(want.s, [&](const Sh &c) { if (use[c[0]][0] >= 0) want.at(c) = one(use[c[0]], c[1], c[2], c[3], rim); });
            std::vector<P> p = {{"pool_h", pi(ph)}, {"pool_w", pi(pw)}}; if (sc != 1) p.push_back({"spatial_scale", pf(float(sc))}); if (sr != 2) p.push_back({"sampling_ratio", pi(sr)});
            J.want("ROI align", J.call("roi_align", p, {x, r}), {want}, 2e-5);
        }
    }
    // ------------------------------------------------------------------ shape indexed patches
    for (int N = 1; N <= 2; ++N) for (int Cn = 1; Cn <= 2; ++Cn) for (int H : {1, 2, 5}) for (int W : {3, 4}) for (int L = 1; L <= 2; ++L) for (int oph : {1, 2, 3}) for (int opw : {1, 2, 5}) for (int oh : {2, 5}) for (int ow : {3, 8}) for (int sh = 0; sh < 3; ++sh) {
        int h = int(std::floor(double(oph) * H / oh + 0.5)), w = int(std::floor(double(opw) * W / ow + 0.5));
        if (h < 1 || w < 1) continue;
        if (!take("shape indexed patch", [&] { return "x " + str(Sh{N, Cn, H, W}) + " landmarks " + num(L) + " patch " + num(oph) + "x" + num(opw) + " of " + num(oh) + "x" + num(ow) + " positions " + num(sh); })) continue;
        R x = iota(FLOAT32, {N, Cn, H, W}), pos(FLOAT32, {N, 2 * L, 1, 1}), want(FLOAT32, {N, Cn, h, L, w});
        // positions whose patch starts exactly on a pixel, inside, across the border and outside
        for (int n = 0; n < N; ++n) for (int i = 0; i < L; ++i) {
            int px = (n * 3 + i * 2 + sh * 2) % (W + 3) - 1, py = (n + i * 3 + sh) % (H + 2) - 1;
            pos.v[n * 2 * L + 2 * i] = W > 1 ? (px + (w - 1) / 2.0) / (W - 1) : 0.5; pos.v[n * 2 * L + 2 * i + 1] = H > 1 ? (py + (h - 1) / 2.0) / (H - 1) : 0.5;
            if (H == 1) { double v = -(h - 1) / 2.0 + 0.5; py = int(v); }
            for (int c = 0; c < Cn; ++c) for (int a = 0; a < h; ++a) for (int b = 0; b < w; ++b) { int yy = py + a, xx = px + b; want.at({n, c, a, i, b}) = yy < 0 || xx < 0 || yy >= H || xx >= W ? 0 : x.at({n, c, yy, xx}); }
        }
        bool neg = false;     // a start left of the image: rounding towards zero or down are both in use
        for (int n = 0; n < N; ++n) for (int i = 0; i < L; ++i) { double sy = pos.v[n * 2 * L + 2 * i + 1] * (H - 1) - (h - 1) / 2.0 + 0.5, sx = pos.v[n * 2 * L + 2 * i] * (W - 1) - (w - 1) / 2.0 + 0.5; neg |= sy < 0 || sx < 0; }
        if (neg) { ++S().skipped_domain; continue; }
        J.want("shape indexed patch", J.call("shape_index_patch", {{"origin_patch", pv({oph, opw})}, {"origin", pv({oh, ow})}}, {x, pos}), {want});
    }
    // ------------------------------------------------------------------ YOLO
    auto yolo_in = [&](DTYPE dt, int N, int n, int C, int h, int w, int turn) { R x(dt, {N, n * (C + 5), h, w}); for (size_t i = 0; i < x.v.size(); ++i) x.v[i] = double(int((i * (2 * turn + 3) + i / 3 + turn * 5) % 11) - 5) * 0.4375; return x; };
    auto sig = [](double x) { return 1 / (1 + std::exp(-x)); };
    for (DTYPE dt : {FLOAT32, FLOAT64}) for (int N = 1; N <= 2; ++N) for (int n = 1; n <= 3; ++n) for (int C = 1; C <= 3; ++C) for (int h = 1; h <= 3; ++h) for (int w = 1; w <= 2; ++w) for (int turn = 0; turn < 3; ++turn) {
        if (!take("YOLO layer", [&] { return std::string(type_str(dt)) + " images " + num(N) + " anchors " + num(n) + " classes " + num(C) + " map " + num(h) + "x" + num(w) + " values " + num(turn); })) continue;
        R x = yolo_in(dt, N, n, C, h, w, turn), want = x;
        each(x.s, [&](const Sh &c) { int e = c[1] % (C + 5); if (e != 2 && e != 3) want.at(c) = sig(x.at(c)); });
        I mask; std::vector<float> an; for (int i = 0; i < n; ++i) { mask.push_back(i); an.push_back(float(3 + i)); an.push_back(float(4 + 2 * i)); }
        auto o = J.call("yolo", {{"classes", pi(C)}, {"mask", pv(mask)}, {"anchors", pvf(an)}}, {x});
        if (J.infer_mode) { J.infer("YOLO layer", o); continue; }
        if (!o.ok) { fail("YOLO layer", "refused: " + o.err); continue; }
        auto f = fields(o);
        if (f.size() != 4) { fail("YOLO layer", "gave " + num(f.size()) + " fields"); continue; }
        Out u; u.ok = true; u.t = f;
        R cl(INT32, {}, {double(C)}), mk(INT32, {n}), ak(FLOAT32, {2 * n}); for (int i = 0; i < n; ++i) { mk.v[i] = i; ak.v[2 * i] = an[2 * i]; ak.v[2 * i + 1] = an[2 * i + 1]; }
        R f1 = read(f[1]); cl.s = f1.s;      // a scalar in either form
        J.want("YOLO layer", u, {want, cl, mk, ak}, dt == FLOAT32 ? 1e-6 : 1e-12);
    }
    for (int N = 1; N <= 2; ++N) for (int lays = 1; lays <= 2; ++lays) for (int n = 1; n <= 3; ++n) for (int C = 1; C <= 3; ++C) for (int big = 0; big < 3; ++big) for (int turn = 0; turn < (th ? 24 : 8); ++turn) for (double thr : {0.0, 0.2, 0.45, 0.99}) for (double nms : {0.0, 0.3, 0.6}) {
        if (big == 2 && (turn > 1 || n < 3)) continue;
        if (!take("YOLO boxes", [&] { return num(N) + " images, " + num(lays) + " layers, " + num(n) + " anchors, " + num(C) + " classes, size " + num(big) + " values " + num(turn) + " threshold " + num(thr) + " nms " + num(nms); })) continue;
        std::vector<Tensor> in = {make(R(FLOAT32, {N, 3, 32, 48}))};
        bool bad = false, border = false;
        struct Det { double x, y, w, h, obj; D p; };
        std::vector<std::vector<Det>> det(N);
        for (int l = 0; l < lays; ++l) {
            int h = big == 2 ? 7 : big == 1 ? 2 : 1, w = big == 2 ? 8 : l + 1;
            R x = yolo_in(FLOAT32, N, n, C, h, w, turn + 3 * l);
            I mask; std::vector<float> an; for (int i = 0; i < n; ++i) mask.push_back((i + l) % n); for (int i = 0; i < n; ++i) { an.push_back(float(8 + 9 * i)); an.push_back(float(6 + 5 * i + l)); }
            std::vector<P> p = {{"classes", pi(C)}, {"mask", pv(mask)}, {"anchors", pvf(an)}};
            auto o = bench.run("yolo", p, {make(x)});
            if (!o.ok) { bad = true; break; }
            in.push_back(o.t[0]);
            for (int b = 0; b < N; ++b) for (int q = 0; q < h * w; ++q) for (int a = 0; a < n; ++a) {
                auto at = [&](int e) { return x.at({b, a * (C + 5) + e, q / w, q % w}); };
                double obj = sig(at(4)); if (std::fabs(obj - thr) < 1e-5) border = true; if (obj <= thr) continue;
                Det d; d.x = (q % w + sig(at(0))) / w; d.y = (q / w + sig(at(1))) / h; d.w = std::exp(at(2)) * an[2 * mask[a]] / 48; d.h = std::exp(at(3)) * an[2 * mask[a] + 1] / 32; d.obj = obj;
                for (int k = 0; k < C; ++k) { double v = obj * sig(at(5 + k)); if (std::fabs(v - thr) < 1e-5) border = true; d.p.push_back(v > thr ? v : 0); }
                det[b].push_back(d);
            }
        }
        if (bad) { fail("YOLO boxes", "the layer is refused"); continue; }
        std::vector<D> want(N);
        for (int b = 0; b < N; ++b) {
            auto &v = det[b];
            for (auto &d : v) { auto c = [](double q) { return std::min(1., std::max(0., q)); }; double l = c(d.x - d.w / 2), r = c(d.x + d.w / 2), t = c(d.y - d.h / 2), m = c(d.y + d.h / 2); d.x = l; d.y = t; d.w = r - l; d.h = m - t; }
            auto iou = [](const Det &a, const Det &c) { double w = std::min(a.x + a.w, c.x + c.w) - std::max(a.x, c.x), h = std::min(a.y + a.h, c.y + c.h) - std::max(a.y, c.y); double in = w < 0 || h < 0 ? 0 : w * h; return in / (a.w * a.h + c.w * c.h - in); };
            for (int k = 0; k < C; ++k) {
                I ord(v.size()); std::iota(ord.begin(), ord.end(), 0); std::stable_sort(ord.begin(), ord.end(), [&](int a, int c) { return v[a].p[k] > v[c].p[k]; });
                for (size_t i = 0; i < ord.size(); ++i) { if (v[ord[i]].p[k] == 0) continue; for (size_t j = i + 1; j < ord.size(); ++j) { if (v[ord[j]].p[k] == 0) continue; double u = iou(v[ord[i]], v[ord[j]]); if (std::fabs(u - nms) < 1e-5 && !(u == 0 && nms == 0)) border = true; if (std::fabs(v[ord[i]].p[k] - v[ord[j]].p[k]) < 1e-6 && u > nms) border = true; if (u > nms) v[ord[j]].p[k] = 0; } }
            }
            for (auto &d : v) for (int k = 0; k < C; ++k) if (d.p[k] > thr) { D row = {d.x, d.y, d.w, d.h, d.p[k], double(k)}; want[b].insert(want[b].end(), row.begin(), row.end()); }
        }
        if (border) { ++S().skipped_domain; continue; }
        auto o = J.callt("yolo_poster", {{"thresh", pf(float(thr))}, {"nms", pf(float(nms))}}, in);
        const std::string key = std::string("YOLO boxes") + (big == 2 ? ";many" : "") + (N > 1 ? ";batch" : "");
        if (J.infer_mode) { J.infer_bound(key, o); continue; }
        if (!o.ok) { fail(key, "refused: " + o.err); continue; }
        Out u; u.ok = true; u.t = fields(o); std::vector<R> w; for (auto &q : want) w.push_back(R(FLOAT32, {int(q.size() / 6), 6}, q));
        J.want(key, u, w, 2e-5);
    }
    finish(); return 0;
}
