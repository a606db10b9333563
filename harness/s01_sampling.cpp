// S01/S02: over-sampling adds points between minority neighbours and touches nothing else; subspace methods pick valid features.
#include "vh.hpp"
#include "gen.hpp"
#include "ufjfmltk/core/Statistics.hpp"
#include "ufjfmltk/core/Sampling.hpp"
using namespace gen;
namespace {
double dist(const std::vector<double> &a, const std::vector<double> &b) { double s = 0; for (size_t k = 0; k < a.size(); k++) s += (a[k] - b[k]) * (a[k] - b[k]); return std::sqrt(s); }
// is p on the segment a-b?
bool between(const std::vector<double> &p, const std::vector<double> &a, const std::vector<double> &b) {
    double num = 0, den = 0;
    for (size_t k = 0; k < p.size(); k++) { num += (p[k] - a[k]) * (b[k] - a[k]); den += (b[k] - a[k]) * (b[k] - a[k]); }
    double t = den > 0 ? num / den : 0;
    if (t < -1e-9 || t > 1 + 1e-9) return false;
    for (size_t k = 0; k < p.size(); k++) if (!vh::close(p[k], a[k] + t * (b[k] - a[k]), 1e-9, 1e-9 * (1 + std::fabs(a[k]) + std::fabs(b[k])))) return false;
    return true;
}
Rows skewed(vh::Rng &rng) {
    size_t C = (size_t)rng.i(2, 3), d = gen::wide(rng, (size_t)rng.i(1, 4), 0.015);
    auto labs = gen::labels(rng, C);
    Rows out;
    int kind = (int)rng.below(6);
    size_t least = gen::grow(rng, (size_t)rng.i(1, 8), 0.015, 130);
    for (size_t c = 0; c < C; c++) {
        size_t m = c ? least + (size_t)rng.i(1, 15) : least;
        Rows r = gen::rows(rng, m, d, {labs[c]}, kind, 0);
        for (auto &x : r) { for (auto &v : x.x) v += 2.0 * (double)c; out.push_back(x); }
    }
    if (rng.chance(0.3)) for (int t = 0; t < 3; t++) { auto &a = out[rng.below(out.size())]; auto &b = out[rng.below(out.size())]; if (a.y == b.y) a.x = b.x; }
    rng.shuffle(out);
    for (size_t i = 0; i < out.size(); i++) out[i].id = (long long)i + 1;
    return out;
}
struct Neighbour { size_t at; double d; };
// neighbours of row i among `pool`, one distance per step, as the method defines them
std::vector<double> steps(const Rows &rows, size_t i, const std::vector<size_t> &pool) {
    std::set<double> s;
    for (size_t j : pool) { double v = dist(rows[i].x, rows[j].x); if (v > 0) s.insert(v); }
    return {s.begin(), s.end()};
}
void originals(const std::string &who, const DD &d, const Rows &rows) {
    VCHECK("oversampling:originals", d.size() >= rows.size(), who, " left ", d.size(), " of ", rows.size(), " points");
    for (size_t i = 0; i < rows.size(); i++) VCHECK("oversampling:originals", row_of(*d.point((int)i)) == rows[i], who, ": original point ", i, " is now ", row_of(*d.point((int)i)), " was ", rows[i]);
}
}  // namespace

WORKLOAD(smote, 4000, 120000) {
    Rows rows = skewed(rng);
    size_t k = (size_t)rng.i(1, 5), seed = gen::seed_of(rng);
    auto run = [&](size_t s) {
        DD d = data_of(rows);
        mltk::SMOTE<double> sm(k, rng.d(0, 2), s);
        DD r = sm(d);
        VCHECK("oversampling:result", rows_of(r) == rows_of(d), "the returned dataset differs from the one that was extended");
        return d;
    };
    DD d = run(seed);
    check_consistent(d, "SMOTE");
    originals("SMOTE", d, rows);
    auto src = data_of(rows);
    auto cl = src.classes();
    auto di = src.classesDistribution();
    int least = cl[std::min_element(di.begin(), di.end()) - di.begin()];
    size_t ties = (size_t)std::count(di.begin(), di.end(), *std::min_element(di.begin(), di.end()));
    Rows all = rows_of(d);
    if (all.size() > rows.size()) least = (int)all[rows.size()].y;
    VCHECK("oversampling:minority", di[std::find(cl.begin(), cl.end(), least) - cl.begin()] == *std::min_element(di.begin(), di.end()), "points of class ", least, " were added, which is not the smallest of ", vh::show(cl), " ", vh::show(di));
    std::vector<size_t> pool;
    for (size_t i = 0; i < rows.size(); i++) if (rows[i].y == least) pool.push_back(i);
    size_t want = 0;
    bool near_tie = false;
    for (size_t i : pool) {
        auto s = steps(rows, i, pool);
        want += std::min(k, s.size());
        for (size_t q = 1; q < s.size(); q++) near_tie |= s[q] - s[q - 1] < 1e-9 * s[q];
    }
    if (all.size() == rows.size() && ties > 1) { vh::count("skipped: tied classes"); return; }
    if (!near_tie) VCHECK("oversampling:amount", all.size() - rows.size() == want, all.size() - rows.size(), " points were added, ", k, " neighbours of ", pool.size(), " minority points give ", want);
    std::vector<size_t> budget;
    for (size_t a = rows.size(); a < all.size(); a++) {
        VCHECK("oversampling:minority", all[a].y == least, "an artificial point of class ", all[a].y, ", the smallest class is ", least);
        bool ok = false;
        for (size_t i : pool) {
            auto s = steps(rows, i, pool);
            if (s.empty()) continue;
            double reach = s[std::min(k, s.size()) - 1] * (1 + 1e-9);
            for (size_t j : pool) if (j != i && !ok) { double v = dist(rows[i].x, rows[j].x); ok = v > 0 && v <= reach && between(all[a].x, rows[i].x, rows[j].x); }
            if (ok) break;
        }
        VCHECK("oversampling:between", ok, "artificial point ", all[a], " is not between a minority point and one of its ", k, " nearest minority neighbours");
        vh::count("artificial points");
    }
    // ids stay unique
    std::set<long long> ids;
    for (auto &r : all) VCHECK("oversampling:ids", ids.insert(r.id).second, "id ", r.id, " is used twice after over-sampling");
    DD e = run(seed);
    VCHECK("oversampling:seeded", rows_of(e) == all, "the same seed gives other artificial points");
    if (all.size() > rows.size() + 2) {
        DD f = run(seed + 1);
        VCHECK("oversampling:seed-matters", rows_of(f) != all, "another seed gives the same artificial points");
    }
    vh::nontrivial(digest(rows) + std::to_string(k) + "/" + std::to_string(seed));
    vh::sample(vh::cat("classes ", vh::show(di), " k=", k, " added ", all.size() - rows.size()));
}
WORKLOAD(borderline, 2000, 60000) {
    Rows rows = skewed(rng);
    size_t k = (size_t)rng.i(1, 4), m = (size_t)rng.i(1, 6), seed = gen::seed_of(rng);
    auto run = [&](size_t s) {
        DD d = data_of(rows);
        mltk::BorderlineSMOTEOne<double> sm(k, 0.1, m, s);
        sm(d);
        return d;
    };
    DD d = run(seed);
    check_consistent(d, "BorderlineSMOTEOne");
    originals("BorderlineSMOTEOne", d, rows);
    Rows all = rows_of(d);
    DD e = run(seed);
    VCHECK("oversampling:seeded", rows_of(e) == all, "the same seed gives other artificial points");
    // danger points: at least half, but not all, of the m nearest other places belong to the largest class
    auto src = data_of(rows);
    auto cl = src.classes();
    auto di = src.classesDistribution();
    int most = cl[std::max_element(di.begin(), di.end()) - di.begin()];
    bool tied_classes = std::count(di.begin(), di.end(), *std::max_element(di.begin(), di.end())) > 1;
    auto danger = [&](size_t i) {       // 1 yes, 0 no, -1 depends on how ties are broken
        std::vector<std::pair<double, double>> ds;
        for (size_t j = 0; j < rows.size(); j++) { double v = dist(rows[i].x, rows[j].x); if (v > 0) ds.push_back({v, rows[j].y}); }
        std::sort(ds.begin(), ds.end());
        for (size_t q = 1; q < ds.size(); q++) if (ds[q].first - ds[q - 1].first < 1e-9 * ds[q].first) return -1;
        size_t c = 0;
        for (size_t q = 0; q < m && q < ds.size(); q++) c += ds[q].second == most;
        return c >= m / 2 && c < m ? 1 : 0;
    };
    std::set<std::vector<double>> have;
    for (auto &r : rows) have.insert(r.x);
    for (size_t a = rows.size(); a < all.size(); a++) {
        bool copy = false, mid = false;
        for (auto &r : rows) copy |= r.x == all[a].x && r.y == all[a].y;
        if (copy && !tied_classes) {
            bool fits = false;
            for (size_t i = 0; i < rows.size(); i++) if (rows[i].x == all[a].x && rows[i].y == all[a].y) fits |= danger(i) != 0;
            VCHECK("borderline:danger", fits, "point ", all[a], " was taken for a borderline point, with ", m, " neighbours and largest class ", most);
            vh::count("borderline points judged");
        }
        if (!copy) for (size_t i = 0; i < rows.size() && !mid; i++) for (size_t j = 0; j < rows.size() && !mid; j++) mid = i != j && between(all[a].x, rows[i].x, rows[j].x);
        VCHECK("oversampling:between", copy || mid, "added point ", all[a], " is neither on a segment between two samples nor a copy of one");
    }
    std::set<long long> ids;
    for (auto &r : all) VCHECK("oversampling:ids", ids.insert(r.id).second, "id ", r.id, " is used twice after borderline over-sampling");
    vh::count("borderline runs");
    if (all.size() > rows.size()) vh::count("borderline runs that added points");
    vh::nontrivial(digest(rows) + vh::cat("/", k, "/", m, "/", seed));
    for (size_t a = rows.size(); a < all.size(); a++) VCHECK("borderline-repeats-originals", !have.count(all[a].x), "borderline over-sampling adds an original point again: ", all[a]);
}
WORKLOAD(subspaces, 3000, 100000) {
    size_t dims = gen::wide(rng, (size_t)rng.i(1, 12)), seed = (size_t)rng.i(0, 1 << 20);
    double r = rng.chance(0.2) ? 1 : rng.d(0.01, 1);
    Rows rows = gen::rows(rng, gen::grow(rng, (size_t)rng.i(3, 15), 0.015, 200), dims, gen::labels(rng, 2), -1, 1);
    for (size_t c = 0; c < dims; c++) if (rng.chance(0.1)) for (auto &x : rows) x.x[c] = 2.5;
    DD data = data_of(rows);
    mltk::RSM<double> a(r, dims, seed), b(r, dims, seed);
    std::set<size_t> ever;
    for (int t = 0; t < 3; t++) {
        auto f = a(data), g = b(data);
        VCHECK("subspace:size", f.size() == (size_t)std::ceil(r * (double)dims), "a random subspace of ", f.size(), " of ", dims, " features for the share ", r);
        std::set<size_t> s(f.begin(), f.end());
        VCHECK("subspace:distinct", s.size() == f.size() && (s.empty() || *s.rbegin() < dims), "random subspace ", vh::show(f, 20), " of ", dims, " features");
        VCHECK("subspace:seeded", f == g, "two random subspace generators with seed ", seed, " differ");
        vh::count("random subspaces");
    }
    size_t k = (size_t)rng.i(1, 4), n = (size_t)rng.i(1, (long long)dims);
    mltk::DSM<double> m(data, k, n, rng.d(0, 1));
    auto S = m(data);
    VCHECK("subspace:size", S.size() == k, S.size(), " subspaces of ", k);
    for (auto &s : S) {
        std::set<size_t> u(s.begin(), s.end());
        VCHECK("subspace:size", s.size() == n, "a subspace of ", s.size(), " features, asked for ", n);
        VCHECK("subspace:distinct", u.size() == n && *u.rbegin() < dims, "diverse subspace ", vh::show(s, 20), " of ", dims, " features, asked for ", n);
        vh::count("diverse subspaces");
    }
    check_rows("subspace:callers-data", data, rows, "after drawing subspaces");
    vh::nontrivial(digest(rows) + vh::cat(r, "/", seed, "/", k, "/", n));
}
VH_MAIN
