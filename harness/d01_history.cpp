// D01: dataset bookkeeping under random edit histories, against a plain row model.
#include "gen.hpp"
using namespace gen;

namespace {
struct Model {
    Rows rows;
    std::vector<int> names;
    bool regression = false, normalized = false;
};
std::string trace;
void note(const std::string &s) { if (trace.size() < 2500) trace += s + " "; }

void check(const DD &d, const Model &m) {
    check_consistent(d, trace, !m.regression);
    VCHECK("bookkeeping:normalized-flag", d.isNormalized() == m.normalized, trace, ": isNormalized() is ", d.isNormalized());
    if (m.regression) VCHECK("bookkeeping:regression-classes", d.classes().empty() && d.classesDistribution().empty(), trace, ": a regression dataset lists classes ", vh::show(d.classes()));
    check_rows("content", d, m.rows, trace);
    if (!m.rows.empty()) {
        VCHECK("content:names", d.getFeaturesNames() == m.names, trace, ": feature names ", vh::show(d.getFeaturesNames()), " expected ", vh::show(m.names));
        size_t f = m.rows.size() % m.names.size();
        auto col = d.getFeature((int)f);
        VCHECK("content:column", col.size() == m.rows.size(), trace, ": getFeature length");
        for (size_t i = 0; i < m.rows.size(); i++) VCHECK("content:column", col[i] == m.rows[i].x[f], trace, ": getFeature(", f, ")[", i, "]");
        auto idx = d.getIndex();
        VCHECK("bookkeeping:index", idx.size() >= m.rows.size(), trace, ": index vector has ", idx.size(), " entries for ", m.rows.size(), " points");
        std::set<int> seen;
        for (size_t i = 0; i < m.rows.size(); i++)
            VCHECK("bookkeeping:index", idx[i] >= 0 && (size_t)idx[i] < m.rows.size() && seen.insert(idx[i]).second, trace, ": index vector ", vh::show(idx), " is not a permutation of positions");
    }
}
bool unique_id(const Model &m, long long id) {
    size_t c = 0;
    for (auto &r : m.rows) c += r.id == id;
    return c == 1;
}
Row fresh(vh::Rng &g, size_t d, const std::vector<int> &labs, long long id) {
    Row r;
    r.id = id;
    r.y = g.chance(0.9) ? labs[g.below(labs.size())] : (double)g.i(-20, 60);
    for (size_t k = 0; k < d; k++) r.x.push_back(value(g, 0));
    r.alpha = g.chance(0.3) ? g.d(0, 1) : 0;
    return r;
}
}  // namespace

static void history(vh::Rng &g, size_t n, size_t d, int steps, bool reshuffle, bool regression = false) {
    trace.clear();
    auto labs = labels(g, gen::many(g, 1 + g.below(4), 0.01));
    Model m;
    m.rows = gen::rows(g, n, d, labs, 0, 0);
    for (size_t k = 0; k < d; k++) m.names.push_back((int)k + 1);
    auto build = [&](const Rows &rows, bool shared = false) {
        if (!regression) return data_of(rows, shared);
        DD x;
        x.setType("Regression");
        for (auto &r : rows) x.insertPoint(point_of(r), true);
        return x;
    };
    if (regression) for (auto &r : m.rows) r.y = r.y + (g.chance(0.5) ? g.d(-1, 1) : 0);
    m.regression = regression;
    DD data = build(m.rows, g.chance(0.5));
    long long next_id = (long long)n + 1;
    note(vh::cat("n=", n, " d=", d, " labels=", vh::show(labs)));
    check(data, m);
    std::set<std::string> kinds;
    for (int s = 0; s < steps; s++) {
        size_t dim = m.rows.empty() ? 0 : m.rows[0].x.size();
        int op = (int)g.below(16);
        switch (op) {
            case 0: case 1: {   // insert, three spellings, fresh id kept or assigned
                bool keep = g.chance(0.5);
                Row r = fresh(g, dim, labs, next_id++);
                bool ok;
                int how = (int)g.below(3);
                note(vh::cat("insert", how, "(", r, ",keep=", keep, ")"));
                if (how == 0) ok = data.insertPoint(point_of(r), keep);
                else if (how == 1) ok = data.insertPoint(std::make_shared<PD>(point_of(r)), keep);
                else {
                    Rows other = gen::rows(g, 3, dim, labs, 0, 0);
                    other[1] = r;
                    DD o = build(other, true);
                    ok = data.insertPoint(o, 1, keep);
                    check_rows("source-dataset", o, other, trace + " source of insertPoint");
                    Row before = r;
                    data.point((int)data.size() - 1)->X()[0] += 1;   // must not write through to the source
                    check_rows("source-dataset", o, other, trace + " source of insertPoint after editing the copy");
                    data.point((int)data.size() - 1)->X()[0] = before.x[0];
                }
                VCHECK("return:insert", ok, trace, ": insertion of a point of matching dimension refused");
                if (!keep) r.id = (long long)m.rows.size() + 1;
                m.rows.push_back(r);
                if (!keep) next_id = std::max(next_id, r.id + 1);
                break;
            }
            case 2: {   // wrong dimension, wrong source position: refused, nothing changes
                int how = (int)g.below(3);
                note(vh::cat("bad-insert", how));
                bool ok;
                size_t bad = g.chance(0.5) || dim < 2 ? dim + 1 + g.below(3) : dim - 1;
                Row r = fresh(g, bad, labs, next_id++);
                if (how == 0) ok = data.insertPoint(point_of(r), g.chance(0.5));
                else if (how == 1) { DD o = build({r}); ok = data.insertPoint(o, 0, g.chance(0.5)); }
                else { DD o = build(gen::rows(g, 3, dim, labs, 0, 0)); ok = data.insertPoint(o, 3 + (int)g.below(3)); }
                VCHECK("return:bad-insert", !ok, trace, ": impossible insertion reported as done");
                break;
            }
            case 3: case 4: {   // remove one
                if (m.rows.empty()) break;
                size_t at = g.below(m.rows.size());
                long long id = m.rows[at].id;
                if (!unique_id(m, id)) break;
                note(vh::cat("remove(", id, ")"));
                bool ok = data.removePoint((int)id);
                if (m.rows.size() == 1) { VCHECK("return:remove-last", !ok, trace, ": removing the only point"); break; }
                VCHECK("return:remove", ok, trace, ": removal of an existing id refused");
                m.rows.erase(m.rows.begin() + (long)at);
                break;
            }
            case 5: {   // remove an id nobody has
                long long id = g.chance(0.3) ? -(long long)g.below(4) : next_id + (long long)g.below(5);
                if (g.chance(0.4)) { id = 1; while (std::any_of(m.rows.begin(), m.rows.end(), [&](const Row &r) { return r.id == id; })) id++; }
                note(vh::cat("remove-missing(", id, ")"));
                bool ok = data.removePoint((int)id);
                VCHECK("return:remove-missing", !ok, trace, ": removal of an absent id reported as done");
                break;
            }
            case 6: {   // remove several
                if (m.rows.size() < 3) break;
                std::set<int> ids;
                size_t k = 1 + g.below(g.chance(0.2) ? m.rows.size() : std::min<size_t>(m.rows.size(), 4));
                for (size_t j = 0; j < k; j++) {
                    long long id = g.chance(0.85) ? m.rows[g.below(m.rows.size())].id : next_id + (long long)g.below(4);
                    if (unique_id(m, id) || std::none_of(m.rows.begin(), m.rows.end(), [&](const Row &r) { return r.id == id; })) ids.insert((int)id);
                }
                if (ids.empty()) break;
                std::vector<int> v(ids.begin(), ids.end());
                note(vh::cat("removePoints", vh::show(v)));
                auto miss = data.removePoints(v);
                VCHECK("return:remove-many", miss.size() == v.size(), trace, ": ", miss.size(), " flags for ", v.size(), " ids");
                // the last remaining point is never removed
                Rows left;
                size_t remaining = m.rows.size();
                std::set<long long> gone;
                for (auto &r : m.rows) {
                    if (ids.count((int)r.id) && remaining > 1) { remaining--; gone.insert(r.id); } else left.push_back(r);
                }
                for (size_t j = 0; j < v.size(); j++)
                    VCHECK("return:remove-many", miss[j] == !gone.count(v[j]), trace, ": flag of id ", v[j], " is ", (bool)miss[j], ", removed=", gone.count(v[j]));
                m.rows = left;
                break;
            }
            case 7: case 8: {   // relabel
                if (m.rows.empty()) break;
                size_t at = g.below(m.rows.size());
                double y = g.chance(0.7) ? labs[g.below(labs.size())] : (double)g.i(-20, 60);
                note(vh::cat("relabel(", at, ",", y, ")"));
                bool ok = data.updatePointValue(at, y);
                VCHECK("return:relabel", ok, trace);
                m.rows[at].y = y;
                if (g.chance(0.2)) VCHECK("return:relabel-range", !data.updatePointValue(m.rows.size() + g.below(3), y), trace, ": relabel past the end accepted");
                break;
            }
            case 9: {   // merge with another dataset
                Rows other = gen::rows(g, 1 + g.below(5), dim, g.chance(0.6) ? labs : labels(g, 3), 0, 0);
                for (auto &r : other) r.id = next_id++;
                DD o = build(other, true);
                note(vh::cat("join(", other.size(), " labels ", vh::show(o.classes()), ")"));
                data.join(o);
                check_rows("source-dataset", o, other, trace + " joined source");
                check_consistent(o, trace + " joined source", !regression);
                m.rows.insert(m.rows.end(), other.begin(), other.end());
                break;
            }
            case 10: {   // shuffle: same multiset, seed decides the order
                if (!reshuffle) break;
                size_t seed = 1 + g.below(1000);
                note(vh::cat("shuffle(", seed, ")"));
                DD twin = data.copy();
                data.shuffle(seed);
                twin.shuffle(seed);
                Rows after = rows_of(data), tw = rows_of(twin);
                VCHECK("shuffle:seed", after == tw, trace, ": same seed, different order");
                Rows a = after, b = m.rows;
                std::sort(a.begin(), a.end());
                std::sort(b.begin(), b.end());
                VCHECK("shuffle:conservation", a == b, trace, ": shuffling changed the set of points");
                m.rows = after;
                break;
            }
            case 11: {   // drop features by name
                if (m.names.size() < 2) break;
                std::set<int> rem;
                size_t k = 1 + g.below(m.names.size() - 1);
                while (rem.size() < k) rem.insert(m.names[g.below(m.names.size())]);
                std::vector<int> v(rem.begin(), rem.end());
                if (g.chance(0.3)) v.push_back(1000 + (int)g.below(5));   // not a feature
                if (g.chance(0.3)) v.push_back(v[0]);                     // named twice
                g.shuffle(v);
                note(vh::cat("removeFeatures", vh::show(v)));
                data.removeFeatures(v);
                Rows nr;
                std::vector<int> nn;
                for (size_t c = 0; c < m.names.size(); c++) if (!rem.count(m.names[c])) nn.push_back(m.names[c]);
                for (auto &r : m.rows) {
                    Row q = r;
                    q.x.clear();
                    for (size_t c = 0; c < m.names.size(); c++) if (!rem.count(m.names[c])) q.x.push_back(r.x[c]);
                    nr.push_back(q);
                }
                m.rows = nr;
                m.names = nn;
                break;
            }
            case 12: {   // transform in place
                note("apply");
                data.apply([](mltk::PointPointer<double> p) { for (auto &v : p->X()) v = v * 2 + 1; });
                for (auto &r : m.rows) for (auto &v : r.x) v = v * 2 + 1;
                break;
            }
            case 13: {   // recount
                note("recount");
                data.computeClassesDistribution();
                if (g.chance(0.3)) data.resetIndex();
                break;
            }
            case 14: {   // every point is extended by a one and divided by its p-norm
                if (dim == 0 || dim > 9 || !g.chance(0.4)) break;
                double p = g.pick(std::vector<double>{1, 2, 3, 1.5});
                note(vh::cat("normalize(", p, ")"));
                data.normalize(p);
                VCHECK("normalize:size", data.size() == m.rows.size(), trace);
                int added = data.getFeaturesNames().empty() ? 0 : data.getFeaturesNames().back();
                VCHECK("normalize:name", std::find(m.names.begin(), m.names.end(), added) == m.names.end(), trace, ": the new column is called ", added, ", which is taken: ", vh::show(m.names));
                m.names.push_back(added);
                for (size_t i = 0; i < m.rows.size(); i++) {
                    auto &x = m.rows[i].x;
                    x.push_back(1);
                    double norm = 0;
                    for (double v : x) norm += std::pow(std::fabs(v), p);
                    norm = std::pow(norm, 1 / p);
                    auto &got = data.point((int)i)->X();
                    VCHECK("normalize:dim", got.size() == x.size(), trace, ": point ", i, " has ", got.size(), " features");
                    for (size_t j = 0; j < x.size(); j++) {
                        VCHECK("normalize:value", vh::close(got[j], x[j] / norm, 1e-9, 1e-12), trace, ": feature ", j, " of point ", i, " is ", got[j], " expected ", x[j] / norm);
                        x[j] = got[j];
                    }
                }
                m.normalized = true;
                vh::count("normalisations");
                break;
            }
            default: {   // start over in the same object
                if (!g.chance(0.15)) break;
                note("clear+refill");
                data.clear();
                VCHECK("clear", data.size() == 0 && data.isEmpty() && data.classes().empty() && data.classesDistribution().empty() && data.getFeaturesNames().empty(), trace, ": state left behind by clear()");
                Rows nr = gen::rows(g, 1 + g.below(6), 1 + g.below(4), labs, 0, 0);
                for (auto &r : nr) { r.id = next_id++; data.insertPoint(point_of(r), true); }
                m.rows = nr;
                if (regression) data.setType("Regression");
                m.normalized = false;
                m.names.clear();
                for (size_t k = 0; k < nr[0].x.size(); k++) m.names.push_back((int)k + 1);
            }
        }
        kinds.insert(std::to_string(op));
        vh::count("ops");
        vh::count("op" + std::to_string(op));
        check(data, m);
    }
    vh::nontrivial(trace);
    if (kinds.size() > 3) vh::sample(trace);
}

WORKLOAD(short_histories, 6000, 120000) { history(rng, 1 + rng.below(8), 1 + rng.below(5), 12, true); }
WORKLOAD(long_histories, 250, 6000) { history(rng, gen::grow(rng, 5 + rng.below(40)), gen::wide(rng, 1 + rng.below(9), 0.03, 60), 120, true); }
WORKLOAD(regression_histories, 1500, 25000) { history(rng, 1 + rng.below(10), 1 + rng.below(5), 15, true, true); }
WORKLOAD(positional_histories, 1200, 20000) { history(rng, 2 + rng.below(12), 1 + rng.below(4), 25, false); }

// the same bookkeeping when the dataset came from a file instead of insertions
WORKLOAD(loaded_histories, 800, 12000) {
    static int serial = 0;
    size_t n = 2 + rng.below(12), d = 1 + rng.below(4);
    auto labs = labels(rng, gen::many(rng, 1 + rng.below(3)));
    Rows rs = gen::rows(rng, n, d, labs, 0, 0);
    std::string path = vh::scratch_dir() + "/h" + std::to_string(serial++ % 4) + ".csv";
    { std::ofstream f(path); for (auto &r : rs) { f << r.y; for (double v : r.x) f << "," << v; f << "\n"; } }
    DD data;
    VCHECK("load:refused", data.load(path), "well-formed csv refused");
    trace = vh::cat("loaded n=", n, " d=", d, " labels ", vh::show(labs));
    check_consistent(data, trace);
    Rows m = rs;
    for (int s = 0; s < 8; s++) {
        switch (rng.below(5)) {
            case 0: { Row r = fresh(rng, d, labs, 0); data.insertPoint(point_of(r)); r.id = (long long)m.size() + 1; m.push_back(r); note("insert"); break; }
            case 1: { Rows o = gen::rows(rng, 2, d, labs, 0, 0); for (auto &r : o) r.id += 500 + 10 * s; data.join(data_of(o)); m.insert(m.end(), o.begin(), o.end()); note("join"); break; }
            case 2: { size_t at = rng.below(m.size()); double y = rng.chance(0.5) ? 77 : labs[0]; data.updatePointValue(at, y); m[at].y = y; note("relabel"); break; }
            case 3: { size_t at = rng.below(m.size()); double y = rng.pick(data.classes()); data.point((int)at)->Y() = y; m[at].y = y; data.computeClassesDistribution(); note("edit+recount"); break; }
            default: {
                if (!rng.chance(0.3)) break;
                VCHECK("load:refused", data.load(path), trace, ": reload refused");
                m = rs;
                note("reload");
            }
        }
        check_consistent(data, trace);
        check_rows("content", data, m, trace);
        vh::count("ops");
    }
    vh::nontrivial(trace + digest(m));
}
VH_MAIN
