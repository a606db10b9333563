// D03: removing, selecting and keeping features always keeps every other column with its name and its points.
#include "gen.hpp"
using namespace gen;
namespace {
struct Model { std::vector<int> names; Rows rows; };
DD source(vh::Rng &g, Model &m, bool shuffled = false) {
    size_t n = gen::grow(g, 1 + g.below(14)), d = gen::wide(g, 2 + g.below(10));
    m.rows = gen::rows(g, n, d, labels(g, 1 + g.below(3)), -1, 1);
    for (auto &r : m.rows) { if (g.chance(0.3)) r.alpha = g.d(0, 2); if (g.chance(0.2)) r.id += 100; }
    // distinct values per column in a third of the cases, so a swapped column cannot hide
    if (g.chance(0.5)) for (size_t i = 0; i < n; i++) for (size_t j = 0; j < d; j++) m.rows[i].x[j] = 1000.0 * (double)(j + 1) + (double)i;
    DD x = data_of(m.rows, true);
    int nm = shuffled && g.chance(0.3) ? -1 : 0;
    bool gaps = g.chance(0.6);
    for (size_t j = 0; j < d; j++) { nm += 1 + (gaps ? (int)g.below(4) : 0); m.names.push_back(nm); }
    if (shuffled && g.chance(0.3)) { g.shuffle(m.names); vh::count("names out of order"); }
    x.setFeaturesNames(m.names);
    return x.copy();
}
std::vector<int> subset(vh::Rng &g, const std::vector<int> &names, size_t k) {
    std::vector<int> v = names;
    g.shuffle(v);
    v.resize(std::min(k, v.size()));
    return v;
}
void check(const DD &d, const Model &m, const std::string &how, bool names = true) {
    check_consistent(d, how);
    check_rows("columns:" + how, d, m.rows, how);
    if (names) VCHECK("columns:names:" + how, d.getFeaturesNames() == m.names, how, ": names ", vh::show(d.getFeaturesNames()), " expected ", vh::show(m.names));
    VCHECK("columns:dim:" + how, d.dim() == m.names.size(), how, ": dim ", d.dim(), " expected ", m.names.size());
    for (size_t j = 0; j < m.names.size(); j++) {
        auto c = d.getFeature((int)j);
        for (size_t i = 0; i < m.rows.size(); i++) VCHECK("columns:getFeature", c.size() == m.rows.size() && c[i] == m.rows[i].x[j], how, ": getFeature(", j, ")[", i, "]=", c[i]);
    }
}
Model keep(const Model &m, const std::set<int> &k) {
    Model o;
    for (size_t j = 0; j < m.names.size(); j++) if (k.count(m.names[j])) o.names.push_back(m.names[j]);
    for (auto r : m.rows) {
        std::vector<double> x;
        for (size_t j = 0; j < m.names.size(); j++) if (k.count(m.names[j])) x.push_back(r.x[j]);
        r.x = x;
        o.rows.push_back(r);
    }
    return o;
}
Model drop(const Model &m, const std::set<int> &k) {
    std::set<int> s;
    for (int v : m.names) if (!k.count(v)) s.insert(v);
    return keep(m, s);
}
}  // namespace

WORKLOAD(remove_chain, 8000, 150000) {
    Model m;
    DD d = source(rng, m, true);
    check(d, m, "source");
    std::string trace;
    int steps = 1 + (int)rng.below(4);
    for (int s = 0; s < steps && m.names.size() > 1; s++) {
        size_t k = 1 + rng.below(m.names.size() - 1);
        auto f = subset(rng, m.names, k);
        bool unknown = rng.chance(0.45), twice = rng.chance(0.2);
        std::vector<int> arg = f;
        if (unknown) for (int q = 0; q < 1 + (int)rng.below(6); q++) { int v = rng.chance(0.5) ? (int)rng.i(0, *std::max_element(m.names.begin(), m.names.end()) + 3) : (int)rng.i(0, 60); if (std::find(m.names.begin(), m.names.end(), v) == m.names.end()) { arg.push_back(v); vh::count("unknown names"); } }
        if (twice) { arg.push_back(arg[0]); vh::count("repeated names"); }
        rng.shuffle(arg);
        Model want = drop(m, std::set<int>(f.begin(), f.end()));
        if (rng.chance(0.4)) {
            // the const form: only the first `size` of the given names count
            bool part = rng.chance(0.5) && !unknown && !twice;
            const DD &c = d;
            size_t q = part ? rng.below(arg.size() + 1) : arg.size();
            Model w2 = drop(m, std::set<int>(arg.begin(), arg.begin() + q));
            DD r = part ? c.removeFeatures(arg, (int)q) : c.removeFeatures(arg, -1);
            check(r, w2, "removeFeatures(const)");
            check(d, m, "source of removeFeatures(const)");
            vh::count("const removals");
            if (w2.names.size() >= 1) { d = r.copy(); m = w2; }
        } else {
            bool ok = d.removeFeatures(arg);
            VCHECK("columns:remove-result", ok, "removeFeatures returned false");
            check(d, want, "removeFeatures");
            vh::count("removals");
            m = want;
        }
        trace += vh::show(arg) + ";";
    }
    vh::nontrivial(trace + digest(m.rows));
    vh::sample(trace + " left " + vh::show(m.names));
}
WORKLOAD(select, 6000, 120000) {
    Model m;
    DD d = source(rng, m);
    auto f = subset(rng, m.names, 1 + rng.below(m.names.size()));
    Model want = keep(m, std::set<int>(f.begin(), f.end()));
    {
        std::vector<size_t> a(f.begin(), f.end());
        bool part = rng.chance(0.3);
        Model w = want;
        if (part) {   // the `size` lowest of the names
            size_t q = 1 + rng.below(f.size());
            std::set<int> s(want.names.begin(), want.names.begin() + q);
            w = keep(m, s);
            DD r = d.selectFeatures(a, (int)q);
            check(r, w, "selectFeatures(size)", false);
        } else {
            if (rng.chance(0.25)) { a.push_back(0); vh::count("selections naming no feature"); }   // 0 names no feature
            rng.shuffle(a);
            DD r = d.selectFeatures(a);
            check(r, w, "selectFeatures", false);
            VCHECK("columns:select-name", r.name() == d.name(), "selectFeatures loses the dataset name");
        }
        vh::count("selections");
    }
    check(d, m, "source after selection");
    for (auto &p : d) {
        std::vector<size_t> pos;
        for (size_t j = 0; j < m.names.size(); j++) if (rng.chance(0.5)) pos.push_back(j);
        if (pos.empty()) continue;
        auto a = pos;
        rng.shuffle(a);
        auto q = p->selectFeatures(a);
        VCHECK("columns:point-select", q.size() == pos.size() && q.Y() == p->Y() && q.Id() == p->Id() && q.Alpha() == p->Alpha(), "Point::selectFeatures changed size, label, id or weight");
        for (size_t j = 0; j < pos.size(); j++) VCHECK("columns:point-select", q[j] == p->X()[pos[j]], "Point::selectFeatures[", j, "]=", q[j], " expected feature ", pos[j], "=", p->X()[pos[j]]);
        vh::count("point selections");
    }
    vh::nontrivial(vh::show(f) + digest(m.rows));
    vh::sample("names " + vh::show(m.names) + " keep " + vh::show(f));
}
WORKLOAD(keepers, 6000, 120000) {
    Model m;
    DD d = source(rng, m, true);
    auto f = subset(rng, m.names, 1 + rng.below(m.names.size()));
    Model want = keep(m, std::set<int>(f.begin(), f.end()));
    {
        bool keepId = rng.chance(0.5);
        DD r = d.insertFeatures(f, keepId);
        Model w = want;
        if (!keepId) for (size_t i = 0; i < w.rows.size(); i++) w.rows[i].id = (long long)i + 1;
        check(r, w, "insertFeatures");
        vh::count("keepers");
    }
    check(d, m, "source after insertFeatures");
    vh::nontrivial(vh::show(f) + digest(m.rows));
}
VH_MAIN
