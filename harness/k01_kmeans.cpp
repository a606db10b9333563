// K01: k-means ends in a partition of its samples around the means of its clusters, and answers with the nearest centre.
#include "vh.hpp"
#include "gen.hpp"
#include "ufjfmltk/clusterer/KMeans.hpp"
#include "ufjfmltk/core/DistanceMetric.hpp"
using namespace gen;
using namespace mltk::clusterer;
namespace {
typedef long double LD;
struct Euc { static LD d(const std::vector<double> &a, const std::vector<double> &b) { LD s = 0; for (size_t k = 0; k < a.size(); k++) s += ((LD)a[k] - b[k]) * ((LD)a[k] - b[k]); return sqrtl(s); } };
struct Man { static LD d(const std::vector<double> &a, const std::vector<double> &b) { LD s = 0; for (size_t k = 0; k < a.size(); k++) s += fabsl((LD)a[k] - b[k]); return s; } };
struct Che { static LD d(const std::vector<double> &a, const std::vector<double> &b) { LD s = 0; for (size_t k = 0; k < a.size(); k++) s = std::max(s, fabsl((LD)a[k] - b[k])); return s; } };

template <class R, class KM> size_t nearest(KM &, const std::vector<std::vector<double>> &c, const std::vector<double> &x, LD &best, LD &second) {
    size_t at = 0;
    best = second = INFINITY;
    for (size_t k = 0; k < c.size(); k++) {
        LD v = R::d(c[k], x);
        if (v < best) { second = best; best = v; at = k; }
        else if (v < second) second = v;
    }
    return at;
}
template <class R, class KM> void judge(vh::Rng &rng, KM &km, size_t k, const Rows &rows, bool fixed_point, const std::string &what) {
    size_t n = rows.size(), d = rows[0].x.size();
    auto C = km.centers();
    VCHECK("kmeans:centres", C.size() == k, what, ": ", C.size(), " centres for ", k, " clusters");
    std::vector<std::vector<double>> c;
    for (auto &p : C) {
        VCHECK("kmeans:centres", p.size() == d, what, ": a centre of dimension ", p.size(), " for samples of dimension ", d);
        for (size_t j = 0; j < d; j++) VCHECK("kmeans:centres", std::isfinite(p[j]), what, ": centre component ", p[j]);
        c.push_back(p.X());
    }
    auto cl = km.clusters();
    VCHECK("kmeans:partition", cl.size() == k, what, ": ", cl.size(), " clusters of ", k);
    std::vector<int> where(n, -1);
    for (size_t q = 0; q < cl.size(); q++) for (size_t t = 0; t < cl[q].size(); t++) {
        size_t i = cl[q][t];
        VCHECK("kmeans:partition", i < n && where[i] == -1, what, ": position ", i, " of ", n, " is listed in cluster ", q, i < n ? vh::cat(" and ", where[i]) : std::string(""));
        where[i] = (int)q;
    }
    LD b, s;
    size_t used = 0;
    for (size_t i = 0; i < n; i++) {
        VCHECK("kmeans:partition", where[i] >= 0, what, ": point ", i, " is in no cluster");
        size_t at = nearest<R>(km, c, rows[i].x, b, s);
        VCHECK("kmeans:nearest", R::d(c[where[i]], rows[i].x) <= b + 1e-9L * (1 + b), what, ": point ", i, " is in cluster ", where[i], " at ", (double)R::d(c[where[i]], rows[i].x), " but cluster ", at, " is at ", (double)b);
    }
    auto again = km.clusters();
    for (size_t q = 0; q < k; q++) {
        VCHECK("kmeans:stable-answer", again[q].X() == cl[q].X(), what, ": asking for the clusters again gives another answer");
        used += cl[q].size() > 0;
    }
    // queries: training points and others
    for (int t = 0; t < 8; t++) {
        Row q = rows[rng.below(n)];
        if (t) for (auto &v : q.x) v += rng.gauss() * (t < 5 ? 1 : 30);
        size_t at = nearest<R>(km, c, q.x, b, s);
        double got = km.evaluate(point_of(q), rng.chance(0.3));
        VCHECK("kmeans:evaluate", got >= 0 && got < k && got == std::floor(got), what, ": answered ", got, " with ", k, " clusters");
        VCHECK("kmeans:evaluate", R::d(c[(size_t)got], q.x) <= b + 1e-9L * (1 + b), what, ": answered cluster ", got, " for ", q, ", the nearest centre is ", at);
        vh::count("k-means answers");
    }
    if (!fixed_point) return;
    double var = 0;
    for (size_t q = 0; q < k; q++) {
        size_t m = cl[q].size();
        if (!m) continue;
        for (size_t j = 0; j < d; j++) {
            LD mean = 0, sq = 0;
            for (size_t t = 0; t < m; t++) mean += rows[cl[q][t]].x[j];
            mean /= m;
            for (size_t t = 0; t < m; t++) sq += (rows[cl[q][t]].x[j] - mean) * (rows[cl[q][t]].x[j] - mean);
            var += (double)sq;
            VCHECK("kmeans:mean", fabsl(mean - c[q][j]) <= 1e-9L * (1 + fabsl(mean)), what, ": component ", j, " of centre ", q, " is ", c[q][j], ", the mean of its ", m, " points is ", (double)mean);
        }
        vh::count("cluster means compared");
    }
    double got = km.clusters_variance(cl);
    VCHECK("kmeans:variance", vh::close(got, var, 1e-8, 1e-8), what, ": variance within clusters ", got, " expected ", var);
    vh::count(vh::cat("clusters used:", used >= 4 ? "4+" : std::to_string(used)));
}
Rows points(vh::Rng &rng, bool integral, size_t dmax = 4) {
    size_t n = gen::grow(rng, (size_t)rng.i(1, 30), 0.02, 400), d = gen::wide(rng, (size_t)rng.i(1, (long long)dmax));
    Rows r = gen::rows(rng, n, d, gen::labels(rng, (size_t)rng.i(1, 3)), integral ? 0 : -1, 0);
    if (integral) for (auto &p : r) for (auto &v : p.x) v *= (double)rng.i(1, 3);
    if (rng.chance(0.4)) {       // clumps
        size_t c = (size_t)rng.i(1, 4);
        for (auto &p : r) { size_t q = rng.below(c); for (auto &v : p.x) v += 20.0 * (double)q; }
    }
    if (rng.chance(0.3)) for (size_t i = 0; i < n / 2; i++) r[rng.below(n)].x = r[rng.below(n)].x;
    if (rng.chance(0.4)) { auto ids = r; rng.shuffle(ids); for (size_t i = 0; i < n; i++) r[i].id = ids[i].id + (rng.chance(0.5) ? 0 : 50 * (long long)n); std::set<long long> s; for (auto &p : r) while (!s.insert(p.id).second) p.id += 1000; }
    return r;
}
template <class M, class R> void run(vh::Rng &rng, bool lloyd, const std::string &name) {
    Rows rows = points(rng, lloyd);
    DD data = data_of(rows);
    size_t k = (size_t)rng.i(1, std::min<long long>(6, (long long)rows.size() + 1)), seed = gen::seed_of(rng);
    std::string init = rng.chance(0.5) ? "random" : "kmeanspp";
    KMeans<double, M> a(data, k, init, seed), b(data, k, init, seed);
    for (auto *km : {&a, &b}) { km->setVerbose(0); km->setMaxTime(lloyd ? 1e9 : 20); VCHECK("kmeans:trains", km->train(), "training failed"); }
    std::string what = vh::cat(name, " ", init, " k=", k, " n=", rows.size());
    judge<R>(rng, a, k, rows, lloyd, what);
    if (lloyd) {
        auto ca = a.centers(), cb = b.centers();
        for (size_t q = 0; q < k; q++) VCHECK("kmeans:seeded", ca[q].X() == cb[q].X(), what, ": the same seed ends in different centres");
        if (k == 1) vh::count("single clusters");
    }
    VCHECK("kmeans:callers-data", rows_of(data) == rows, what, ": training changed its caller's dataset");
    if (rng.chance(0.5)) {      // the same object on other samples
        Rows r2 = points(rng, lloyd);
        a.setSamples(data_of(r2));
        a.setSeed(seed + 1);
        VCHECK("kmeans:trains", a.train(), "training failed");
        judge<R>(rng, a, k, r2, lloyd, what + " then other samples");
        vh::count("k-means moved to other samples");
    }
    vh::nontrivial(digest(rows) + what + std::to_string(seed));
    vh::sample(what + " " + digest(rows).substr(0, 200));
}
}  // namespace
WORKLOAD(lloyd, 4000, 100000) { run<mltk::metrics::dist::Euclidean<double>, Euc>(rng, true, "Euclidean"); }
WORKLOAD(other_distances, 800, 20000) {
    if (rng.chance(0.5)) run<mltk::metrics::dist::Manhattan<double>, Man>(rng, false, "Manhattan");
    else run<mltk::metrics::dist::Chebyshev<double>, Che>(rng, false, "Chebyshev");
}
WORKLOAD(seeding, 600, 10000) {
    // two distinct places: k-means++ never starts both centres at one of them
    size_t n = gen::grow(rng, (size_t)rng.i(2, 20), 0.02, 400), d = (size_t)rng.i(1, 3);
    Rows rows = gen::rows(rng, n, d, {1, 2}, 1, 0);
    auto A = rows[0].x, B = A;
    B[rng.below(d)] += rng.d(0.001, 100);
    for (size_t i = 0; i < n; i++) rows[i].x = (i == 0 || (i > 1 && rng.chance(0.8))) ? A : B;
    rng.shuffle(rows);
    KMeans<double> km(data_of(rows), 2, "kmeanspp", (size_t)rng.i(1, 1 << 30));
    km.setVerbose(0);
    km.setMaxTime(1e9);
    km.train();
    auto cl = km.clusters();
    VCHECK("kmeans:far-start", cl[0].size() && cl[1].size(), "k-means++ put both centres on one of two distinct places (", n, " points)");
    vh::count("two-place seedings");
    vh::nontrivial(digest(rows));
}
WORKLOAD(seeding_spread, 8, 40) {
    // three places 0, 1, 9: a second centre is rarely the near neighbour of the first
    Rows rows = gen::rows(rng, 3, 1, {1}, 1, 0);
    rows[0].x[0] = 0; rows[1].x[0] = 1; rows[2].x[0] = 9;
    rng.shuffle(rows);
    DD data = data_of(rows);
    size_t near = 0, N = 600, base = (size_t)rng.i(1, 1 << 30);
    for (size_t s = 0; s < N; s++) {
        KMeans<double> km(data, 2, "kmeanspp", base + s * 7919);
        km.setVerbose(0);
        km.setMaxTime(0);       // one assignment and one update
        km.train();
        auto c = km.centers();
        near += std::max(c[0][0], c[1][0]) < 8;
    }
    // by distance: 0.070; a uniform draw: 0.333
    VCHECK("kmeans:spread-start", near < N * 0.2, "in ", near, " of ", N, " runs k-means++ took the nearer of two other points as its second centre");
    vh::count("seedings counted", N);
    vh::nontrivial(vh::cat(base));
}
VH_MAIN
