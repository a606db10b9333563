// Generators of datasets and a plain model of a dataset used as the oracle's side.
#pragma once
#include "vh.hpp"
#include "ufjfmltk/core/Data.hpp"
#include "ufjfmltk/core/Point.hpp"
#include <algorithm>
#include <memory>

namespace gen {
using mltk::Data;
using mltk::Point;
using DD = Data<double>;
using PD = Point<double>;

struct Row {
    long long id = 0;
    double y = 0;
    std::vector<double> x;
    double alpha = 0;
    bool operator==(const Row &o) const { return id == o.id && y == o.y && x == o.x && alpha == o.alpha; }
    bool operator<(const Row &o) const {
        if (id != o.id) return id < o.id;
        if (y != o.y) return y < o.y;
        if (x != o.x) return x < o.x;
        return alpha < o.alpha;
    }
};
inline std::ostream &operator<<(std::ostream &o, const Row &r) {
    o << "#" << r.id << ":" << r.y << ":" << vh::show(r.x, 8);
    return o;
}
using Rows = std::vector<Row>;

inline Row row_of(const PD &p) {
    Row r;
    r.id = (long long)p.Id();
    r.y = p.Y();
    r.alpha = p.Alpha();
    r.x = p.X();
    return r;
}
inline Rows rows_of(const DD &d) {
    Rows r;
    for (size_t i = 0; i < d.size(); i++) r.push_back(row_of(*d.point((int)i)));
    return r;
}
inline PD point_of(const Row &r) {
    PD p(r.x.size());
    for (size_t k = 0; k < r.x.size(); k++) p[k] = r.x[k];
    p.Y() = r.y;
    p.Id() = (size_t)r.id;
    p.Alpha() = r.alpha;
    return p;
}
inline DD data_of(const Rows &rows, bool keep = true) {
    DD d;
    for (auto &r : rows) d.insertPoint(point_of(r), keep);
    return d;
}
inline std::map<int, size_t> histogram(const Rows &rows) {
    std::map<int, size_t> h;
    for (auto &r : rows) h[(int)r.y]++;
    return h;
}

// one feature value; kind selects the distribution
// a seed other than 0; small ones are what people write
inline size_t seed_of(vh::Rng &g) { return g.chance(0.25) ? (size_t)g.i(1, 4) : g.chance(0.1) ? 42 : (size_t)g.i(1, 1 << 20); }
// now and then a size well past the usual ones, so that thresholds on sizes are crossed
inline size_t grow(vh::Rng &g, size_t n, double p = 0.02, size_t most = 600) {
    if (!g.chance(p)) return n;
    static const size_t marks[] = {64, 100, 128, 200, 256, 300, 500, 512, 600, 1000, 1024};
    size_t m;
    do m = g.chance(0.5) ? marks[g.below(11)] + g.below(5) : (size_t)std::exp(g.d(std::log(40.0), std::log((double)most))); while (m > most + 4);
    vh::count("datasets well past the usual sizes");
    return std::max(n, m);
}
inline size_t wide(vh::Rng &g, size_t d, double p = 0.02, size_t most = 130) {
    if (!g.chance(p)) return d;
    vh::count("datasets with many features");
    size_t m = (size_t)std::exp(g.d(std::log(16.0), std::log((double)most)));
    return std::max(d, m);
}
// now and then many classes
inline size_t many(vh::Rng &g, size_t k, double p = 0.02, size_t most = 14) {
    if (!g.chance(p)) return k;
    vh::count("datasets of many classes");
    return std::max(k, (size_t)g.i(5, (long long)most));
}
inline double value(vh::Rng &g, int kind) {
    switch (kind) {
        case 0: return (double)g.i(-3, 3);          // many ties
        case 1: return g.gauss();
        case 2: return g.decimal(5, -4, 4);
        case 3: return g.d(0, 1);
        case 4: return g.chance(0.5) ? 0.0 : g.d(-100, 100);   // sparse
        default: return g.d(-1e3, 1e3);
    }
}
inline std::vector<int> labels(vh::Rng &g, size_t k) {
    switch (g.below(4)) {
        case 0: { std::vector<int> v; for (size_t j = 0; j < k; j++) v.push_back((int)j + 1); return v; }
        case 1: { std::vector<int> v; for (size_t j = 0; j < k; j++) v.push_back((int)j); return v; }
        case 2: if (k == 2) return g.chance(0.5) ? std::vector<int>{1, -1} : std::vector<int>{-1, 1};
            // fallthrough
        default: {
            std::set<int> s;
            while (s.size() < k) s.insert((int)g.i(-9, 40));
            std::vector<int> v(s.begin(), s.end());
            g.shuffle(v);
            return v;
        }
    }
}
// rows with every label used at least `least` times; ids 1..n in order
inline Rows rows(vh::Rng &g, size_t n, size_t d, const std::vector<int> &labs, int kind = -1, size_t least = 1) {
    if (kind < 0) kind = (int)g.below(6);
    Rows out;
    std::vector<int> ys;
    for (int l : labs) for (size_t j = 0; j < least && ys.size() < n; j++) ys.push_back(l);
    while (ys.size() < n) ys.push_back(labs[g.below(labs.size())]);
    g.shuffle(ys);
    for (size_t k = 0; k < n; k++) {
        Row r;
        r.id = (long long)k + 1;
        r.y = ys[k];
        for (size_t j = 0; j < d; j++) r.x.push_back(value(g, kind));
        out.push_back(r);
    }
    return out;
}
// separable two-class rows (labels +1/-1) with functional margin at least m w.r.t. a random hyperplane
inline Rows separable(vh::Rng &g, size_t n, size_t d, double m, bool bias, std::vector<double> *wout = nullptr) {
    std::vector<double> w(d);
    double nn = 0;
    do { nn = 0; for (auto &v : w) { v = g.gauss(); nn += v * v; } } while (nn < 1e-6);
    for (auto &v : w) v /= std::sqrt(nn);
    double b = bias ? g.d(-1, 1) : 0;
    Rows out;
    while (out.size() < n) {
        Row r;
        double f = b;
        for (size_t j = 0; j < d; j++) { r.x.push_back(g.d(-5, 5)); f += w[j] * r.x[j]; }
        int want = out.size() == 0 ? 1 : out.size() == 1 ? -1 : (g.chance(0.5) ? 1 : -1);
        // shift along w onto the wanted side, at distance >= m
        double target = want * (m + std::fabs(g.gauss()) * 2);
        for (size_t j = 0; j < d; j++) r.x[j] += (target - f) * w[j];
        r.y = want;
        out.push_back(r);
    }
    g.shuffle(out);
    for (size_t k = 0; k < n; k++) out[k].id = (long long)k + 1;
    if (wout) { *wout = w; wout->push_back(b); }
    return out;
}
inline std::string digest(const Rows &r) {
    std::ostringstream o;
    o.precision(17);
    for (auto &x : r) o << x << ";";
    return o.str();
}

// Structural consistency of a classification dataset (invariant over its public state).
inline void check_consistent(const DD &d, const std::string &where, bool classification = true) {
    auto pts = d.points();
    VCHECK("bookkeeping:size", pts.size() == d.size(), where, ": size()=", d.size(), " but points().size()=", pts.size());
    size_t n = 0;
    for (auto it = d.begin(); it != d.end(); ++it) n++;
    VCHECK("bookkeeping:iteration", n == d.size(), where, ": iterating yields ", n, " points, size()=", d.size());
    for (size_t i = 0; i < pts.size(); i++) {
        VCHECK("bookkeeping:null-point", pts[i] != nullptr, where, ": point ", i, " is null");
        VCHECK("bookkeeping:ragged", pts[i]->size() == d.dim(), where, ": point ", i, " has ", pts[i]->size(), " features, dim()=", d.dim());
    }
    if (!pts.empty())
        VCHECK("bookkeeping:names", d.getFeaturesNames().size() == d.dim(), where, ": ", d.getFeaturesNames().size(), " feature names for dim ", d.dim());
    VCHECK("bookkeeping:empty-flag", pts.empty() || !d.isEmpty(), where, ": isEmpty() on a dataset of ", pts.size(), " points");
    auto lab = d.getLabels();
    VCHECK("bookkeeping:labels", lab.size() == pts.size(), where, ": getLabels() has ", lab.size(), " entries for ", pts.size(), " points");
    for (size_t i = 0; i < pts.size(); i++)
        VCHECK("bookkeeping:labels", lab[i] == pts[i]->Y() || (std::isnan(lab[i]) && std::isnan(pts[i]->Y())), where, ": label ", i, " is ", lab[i], " but the point has ", pts[i]->Y());
    if (!classification) return;
    auto cl = d.classes();
    auto di = d.classesDistribution();
    VCHECK("bookkeeping:classes-distribution-length", cl.size() == di.size(), where, ": ", cl.size(), " classes ", vh::show(cl), " but distribution ", vh::show(di));
    VCHECK("bookkeeping:class-names-length", d.classesNames().size() == cl.size(), where, ": ", cl.size(), " classes but ", d.classesNames().size(), " class names");
    std::map<int, size_t> h;
    for (auto &p : pts) h[(int)p->Y()]++;
    std::set<int> seen;
    size_t sum = 0;
    for (size_t k = 0; k < cl.size(); k++) {
        VCHECK("bookkeeping:duplicate-class", seen.insert(cl[k]).second, where, ": class ", cl[k], " listed twice in ", vh::show(cl));
        VCHECK("bookkeeping:class-count", di[k] == (h.count(cl[k]) ? h[cl[k]] : 0), where, ": class ", cl[k], " reported ", di[k], " times, actually ", (h.count(cl[k]) ? h[cl[k]] : 0));
        sum += di[k];
    }
    for (auto &kv : h) VCHECK("bookkeeping:missing-class", seen.count(kv.first), where, ": label ", kv.first, " not in classes ", vh::show(cl));
    VCHECK("bookkeeping:count-sum", sum == pts.size(), where, ": distribution sums to ", sum, " for ", pts.size(), " points");
}
inline void check_rows(const std::string &key, const DD &d, const Rows &want, const std::string &where) {
    VCHECK(key + ":size", d.size() == want.size(), where, ": ", d.size(), " points, expected ", want.size());
    for (size_t i = 0; i < want.size(); i++) {
        Row r = row_of(*d.point((int)i));
        VCHECK(key + ":point", r == want[i], where, ": point ", i, " is ", r, ", expected ", want[i]);
    }
}
}  // namespace gen
