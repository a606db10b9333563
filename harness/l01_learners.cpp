// Monitors of the single-model learners: what a successful training run promises is recomputed
// from the data and the published solution.
#include "vh.hpp"
#include "gen.hpp"
#include "ufjfmltk/classifier/KNNClassifier.hpp"
#include "ufjfmltk/classifier/Perceptron.hpp"
#include "ufjfmltk/classifier/IMA.hpp"
#include "ufjfmltk/classifier/SMO.hpp"
#include "ufjfmltk/regressor/KNNRegressor.hpp"
#include "ufjfmltk/regressor/LMS.hpp"
#include "ufjfmltk/core/DistanceMetric.hpp"

using namespace gen;
using namespace mltk::classifier;
using mltk::Solution;
namespace dist = mltk::metrics::dist;

static double dotp(const std::vector<double> &a, const std::vector<double> &b) {
    double s = 0;
    for (size_t k = 0; k < a.size(); k++) s += a[k] * b[k];
    return s;
}
static double qnorm(const std::vector<double> &w, double q) {
    double s = 0;
    if (q == -1) { for (double v : w) s = std::max(s, std::fabs(v)); return s; }
    for (double v : w) s += std::pow(std::fabs(v), q);
    return std::pow(s, 1 / q);
}
static double kval(int type, double param, const std::vector<double> &a, const std::vector<double> &b) {
    if (type == mltk::GAUSSIAN) {
        double s = 0;
        for (size_t k = 0; k < a.size(); k++) s += (a[k] - b[k]) * (a[k] - b[k]);
        return std::exp(-param * s);
    }
    double s = dotp(a, b);
    return (type == mltk::POLYNOMIAL && param > 1) ? std::pow(s, param) : s;
}
static double radius2(const Rows &rows) {
    double r = 0;
    for (auto &p : rows) r = std::max(r, dotp(p.x, p.x));
    return r;
}
// half the distance between the closest points of opposite classes: no margin can exceed it
static double margin_cap(const Rows &rows) {
    double best = 1e300;
    for (auto &p : rows) for (auto &q : rows) if (p.y > 0 && q.y < 0) {
        double s = 0;
        for (size_t k = 0; k < p.x.size(); k++) s += (p.x[k] - q.x[k]) * (p.x[k] - q.x[k]);
        best = std::min(best, std::sqrt(s) / 2);
    }
    return best;
}
static Rows noisy(vh::Rng &g, size_t n, size_t d) {
    Rows r = gen::rows(g, n, d, {1, -1}, (int)g.pick(std::vector<int>{0, 1, 3}));
    return r;
}
// plants a hyperplane: margin m around w*x+b with |w|=1
struct Planted { Rows rows; std::vector<double> w; double b, m; };
static Planted planted(vh::Rng &g, size_t nmax, size_t dmax, bool past = true) {
    Planted p;
    p.m = g.pick(std::vector<double>{0.3, 0.5, 1.0, 2.0});
    size_t n = gen::grow(g, (size_t)g.i(2, nmax), past ? 0.015 : 0, nmax >= 50 ? 600 : 150), d = gen::wide(g, (size_t)g.i(1, dmax), past ? 0.015 : 0, 70);
    p.rows = gen::separable(g, n, d, p.m, g.chance(0.7), &p.w);
    p.b = p.w.back();
    p.w.pop_back();
    if (g.chance(0.2)) for (size_t k = p.rows.size() / 2; k + 1 < p.rows.size(); k += 5) if (std::count_if(p.rows.begin(), p.rows.end(), [&](const Row &r) { return r.y == p.rows[k + 1].y; }) > 1) { p.rows[k + 1].x = p.rows[k].x; p.rows[k + 1].y = p.rows[k].y; }   // repeated points
    return p;
}
// Novikoff: mistakes of a perceptron with bias, started at w0 with |w0|<=v0
static double novikoff(const Planted &p, double v0 = 0, double rate = 1) {
    double R2 = radius2(p.rows) + 1, u = std::sqrt(1 + p.b * p.b), rho = p.m / u;
    return R2 / (rho * rho) + 2 * v0 / (rho * rate);
}
template <class L> static void plain(L &l, int max_up = 200000) {
    l.setVerbose(0);
    l.setMaxTime(1e7);          // ended by its counters, not by the clock
    l.setMaxUpdates(max_up);
    l.setMaxIterations(max_up);
}
static Rows ids_shuffled(vh::Rng &g, Rows r) {
    if (g.chance(0.3)) {
        std::vector<long long> ids;
        for (auto &x : r) ids.push_back(x.id);
        g.shuffle(ids);
        for (size_t k = 0; k < r.size(); k++) r[k].id = ids[k];
    }
    return r;
}
static void untouched(const std::string &who, const DD &d, const Rows &want) {
    auto now = rows_of(d);
    for (auto &r : now) r.alpha = 0;
    VCHECK("callers-data:" + who, now == want, who, " changed its caller's dataset: ", digest(now).substr(0, 300), " was ", digest(want).substr(0, 300));
}
// every training point strictly on its side, and predicted so
template <class L> static void separates(const std::string &who, L &l, const Rows &rows, double scale, double floor = 0) {
    for (auto &r : rows) {
        PD p = point_of(r);
        double f = l.evaluate(p, true);
        VCHECK("success-separates:" + who, r.y * f >= floor - 1e-9 * (scale + std::fabs(f)), who, " reported success but y*f=", r.y * f, " < ", floor, " for ", r);
        if (std::fabs(f) > 1e-9 * scale) {
            VCHECK("prediction-is-sign:" + who, l.evaluate(p, false) == (f >= 0 ? 1 : -1), who, " predicts ", l.evaluate(p, false), " where its function is ", f);
        }
        vh::count("training points re-evaluated");
    }
}

// ------------------------------------------------------------------ k nearest neighbours
struct Near {
    std::vector<size_t> sure, tie;   // strictly among the k nearest; tied for the last places
    size_t k;
};
static Near nearest(const std::vector<double> &d, size_t k) {
    Near n;
    n.k = std::min(k, d.size());
    std::vector<double> s = d;
    std::sort(s.begin(), s.end());
    double cut = s[n.k - 1], tol = 1e-12 + 1e-9 * std::fabs(cut);
    for (size_t i = 0; i < d.size(); i++) {
        if (d[i] < cut - tol) n.sure.push_back(i);
        else if (d[i] <= cut + tol) n.tie.push_back(i);
    }
    return n;
}
static bool plurality_feasible(const Near &nb, const Rows &rows, int c) {
    std::map<int, long> F, T;
    for (size_t i : nb.sure) F[(int)rows[i].y]++;
    for (size_t i : nb.tie) T[(int)rows[i].y]++;
    long r = (long)nb.k - (long)nb.sure.size(), xc = std::min(T[c], r), total = F[c] + xc, room = 0;
    if (total == 0) return false;
    std::set<int> all;
    for (auto &kv : F) all.insert(kv.first);
    for (auto &kv : T) all.insert(kv.first);
    for (int o : all) if (o != c) {
        if (F[o] > total) return false;
        room += std::min(T[o], total - F[o]);
    }
    return room >= r - xc;
}
template <class M> static double metric_ref(const M &, const std::vector<double> &a, const std::vector<double> &b);
template <> double metric_ref(const dist::Euclidean<double> &, const std::vector<double> &a, const std::vector<double> &b) {
    double s = 0; for (size_t k = 0; k < a.size(); k++) s += (a[k] - b[k]) * (a[k] - b[k]); return std::sqrt(s);
}
template <> double metric_ref(const dist::Manhattan<double> &, const std::vector<double> &a, const std::vector<double> &b) {
    double s = 0; for (size_t k = 0; k < a.size(); k++) s += std::fabs(a[k] - b[k]); return s;
}
template <> double metric_ref(const dist::Chebyshev<double> &, const std::vector<double> &a, const std::vector<double> &b) {
    double s = 0; for (size_t k = 0; k < a.size(); k++) s = std::max(s, std::fabs(a[k] - b[k])); return s;
}
template <class M> static void knn_case(vh::Rng &rng, const char *mname) {
    size_t n = gen::grow(rng, (size_t)rng.i(1, 40)), d = gen::wide(rng, (size_t)rng.i(1, 5)), C = gen::many(rng, (size_t)rng.i(1, 4));
    Rows rows = ids_shuffled(rng, gen::rows(rng, n, d, gen::labels(rng, std::min(C, n)), -1));
    DD data = data_of(rows);
    size_t k = (size_t)rng.i(1, (long long)n + 3);
    M ref;
    auto dists = [&](const std::vector<double> &q) { std::vector<double> v; for (auto &r : rows) v.push_back(metric_ref(ref, q, r.x)); return v; };
    auto judge = [&](double pred, const std::vector<double> &q, const std::string &how) {
        auto nb = nearest(dists(q), k);
        VCHECK("knn-plurality:" + how, plurality_feasible(nb, rows, (int)pred) && pred == (int)pred, how, " ", mname, " k=", k, ": predicted ", pred, " for ", vh::show(q), " given ", digest(rows).substr(0, 1500));
        vh::count("kNN predictions");
        if (!nb.tie.empty() && nb.sure.size() + nb.tie.size() > nb.k) vh::count("kNN predictions with tied neighbours");
        return nb;
    };
    KNNClassifier<double, M> knn(data, k);
    knn.setVerbose(0);
    VCHECK("knn-trains", knn.train(), "kNN training failed");
    for (int t = 0; t < 6; t++) {
        Row q;
        q.id = rng.chance(0.5) ? 0 : rng.i(1, 99);
        if (rng.chance(0.4)) q.x = rows[rng.below(n)].x;
        else for (size_t j = 0; j < d; j++) q.x.push_back(gen::value(rng, (int)rng.below(6)));
        PD qp = point_of(q);
        double pr = knn.evaluate(qp);
        auto nb = judge(pr, q.x, "brute");
        if (nb.sure.size() + nb.tie.size() == nb.k) {
            size_t f = 0;
            for (auto &v : {nb.sure, nb.tie}) for (size_t i : v) f += rows[i].y == pr;
            double p = knn.getPredictionProbability();
            VCHECK("knn-probability", std::fabs(p - (double)f / nb.k) < 0.003, "k=", k, ": ", f, " of ", nb.k, " neighbours voted for ", pr, " but the probability is ", p);
            vh::count("kNN probabilities");
        }
        VCHECK("knn-repeatable", knn.evaluate(qp) == pr, "the same query answered ", pr, " and then ", knn.evaluate(qp));
    }
    auto batch = knn.batchEvaluate(data);
    VCHECK("knn-batch", batch.size() == n, "batchEvaluate of ", n, " points gave ", batch.size());
    for (size_t i = 0; i < n; i++) judge(batch[i], rows[i].x, "batch");
    for (bool diag : {false, true}) {
        KNNClassifier<double, M> pk(data, k);
        pk.setVerbose(0);
        DD whole = data_of(rows);
        auto mat = pk.precomputeDistances(whole, diag, (size_t)rng.i(1, 4));
        pk.setPrecomputedDistances(mat);
        for (size_t i = 0; i < n; i++) judge(pk.evaluate(point_of(rows[i])), rows[i].x, diag ? "precomputed-triangular" : "precomputed");
    }
    untouched("kNN", data, rows);
    vh::nontrivial(digest(rows) + mname + std::to_string(k));
    vh::sample(vh::cat(mname, " k=", k, " n=", n, " classes=", C));
}
WORKLOAD(knn_classify, 700, 20000) {
    switch (rng.below(3)) {
        case 0: return knn_case<dist::Euclidean<double>>(rng, "Euclidean");
        case 1: return knn_case<dist::Manhattan<double>>(rng, "Manhattan");
        default: return knn_case<dist::Chebyshev<double>>(rng, "Chebyshev");
    }
}
WORKLOAD(knn_regress, 1200, 40000) {
    size_t n = gen::grow(rng, (size_t)rng.i(1, 40)), d = gen::wide(rng, (size_t)rng.i(1, 5));
    Rows rows = gen::rows(rng, n, d, {1}, -1);
    for (auto &r : rows) r.y = rng.d(-50, 50);
    DD data;
    data.setType("regression"); 
    for (auto &r : rows) data.insertPoint(point_of(r), true);
    size_t k = (size_t)rng.i(1, (long long)n + 3);
    mltk::regressor::KNNRegressor<double> knn(data, k);
    for (int t = 0; t < 6; t++) {
        Row q;
        if (rng.chance(0.4)) q.x = rows[rng.below(n)].x;
        else for (size_t j = 0; j < d; j++) q.x.push_back(gen::value(rng, (int)rng.below(6)));
        std::vector<double> ds;
        for (auto &r : rows) ds.push_back(metric_ref(dist::Euclidean<double>(), q.x, r.x));
        auto nb = nearest(ds, k);
        double sure = 0;
        std::vector<double> ty;
        for (size_t i : nb.sure) sure += rows[i].y;
        for (size_t i : nb.tie) ty.push_back(rows[i].y);
        std::sort(ty.begin(), ty.end());
        size_t r = nb.k - nb.sure.size();
        double lo = sure, hi = sure;
        for (size_t j = 0; j < r; j++) { lo += ty[j]; hi += ty[ty.size() - 1 - j]; }
        double pr = knn.evaluate(point_of(q));
        VCHECK("knn-mean", pr >= lo / nb.k - 1e-9 && pr <= hi / nb.k + 1e-9, "k=", k, " of ", n, ": predicted ", pr, ", the mean of the nearest is within [", lo / nb.k, ",", hi / nb.k, "]");
        vh::count("kNN regressions");
    }
    untouched("kNN regressor", data, rows);
    vh::nontrivial(digest(rows) + std::to_string(k));
}

// ------------------------------------------------------------------ primal perceptrons
template <class L> static void bookkeeping(const std::string &who, L &l, double q) {
    auto s = l.getSolution();
    double nn = qnorm(s.w.X(), q);
    VCHECK("reported-norm:" + who, vh::close(s.norm, nn, 1e-6, 1e-9), who, " reports norm ", s.norm, ", its weights have ", nn, " (q=", q, ")");
}
template <class L> static double wdot(L &l, const Row &r) { auto s = l.getSolution(); return dotp(s.w.X(), r.x) + s.bias; }

WORKLOAD(perceptron_primal, 900, 40000) {
    bool sep = rng.chance(0.7);
    Planted pl;
    if (sep) pl = planted(rng, 60, 6); else pl.rows = noisy(rng, (size_t)rng.i(2, 40), (size_t)rng.i(1, 5));
    pl.rows = ids_shuffled(rng, pl.rows);
    DD data = data_of(pl.rows);
    double rate = rng.pick(std::vector<double>{0.5, 1.0, 0.1, 0.01});
    double bound = sep ? novikoff(pl) : 0;
    PerceptronPrimal<double> perc(data, 2, rate);
    plain(perc, sep ? (int)bound + 20 : 3000);
    for (int again = 0; again < 2; again++) {
        int before = perc.getCtot();
        bool ok = perc.train();
        if (sep && !again) {
            VCHECK("converges:perceptron", ok, "separable by ", pl.m, " around a planted hyperplane, but not learned in ", perc.getCtot(), " updates (at most ", bound, " are possible)");
            VCHECK("mistake-bound:perceptron", perc.getCtot() - before <= bound + 1, perc.getCtot(), " updates, at most ", bound, " are possible");
            vh::count("separable problems converged");
        }
        if (ok) {
            auto s = perc.getSolution();
            VCHECK("dimension:perceptron", s.w.size() == pl.rows[0].x.size(), "weights of dimension ", s.w.size());
            double scale = std::fabs(s.bias) + std::sqrt(dotp(s.w.X(), s.w.X()) * radius2(pl.rows)) + 1e-12;
            separates("perceptron", perc, pl.rows, scale);
            for (auto &r : pl.rows) VCHECK("raw-is-function:perceptron", vh::close(perc.evaluate(point_of(r), true), wdot(perc, r), 1e-9, 1e-9 * scale), "raw value ", perc.evaluate(point_of(r), true), ", w*x+b=", wdot(perc, r));
            vh::count("successful trainings");
        } else vh::count("trainings ended by a limit");
        bookkeeping("perceptron", perc, 2);
        plain(perc, perc.getCtot() + 3000);
    }
    untouched("perceptron", data, pl.rows);
    vh::nontrivial(digest(pl.rows));
    vh::sample(vh::cat("n=", pl.rows.size(), " d=", pl.rows[0].x.size(), " separable=", sep, " updates=", perc.getCtot(), " bound=", bound));
}
template <class L> static void fixed_margin(vh::Rng &rng, const std::string &who, bool isima) {
    bool sep = rng.chance(0.75);
    Planted pl;
    if (sep) pl = planted(rng, 50, 5); else pl.rows = noisy(rng, (size_t)rng.i(2, 30), (size_t)rng.i(1, 4));
    DD data = data_of(ids_shuffled(rng, pl.rows));
    pl.rows = rows_of(data);
    double q = rng.pick(std::vector<double>{2, 2, 2, 1, -1, 1.5, 3}), gamma = rng.chance(0.4) ? 0 : rng.d(0.01, sep ? pl.m * 0.8 : 0.5);
    double flexible = rng.chance(0.25) ? rng.pick(std::vector<double>{0.01, 0.1}) : 0.0;
    L l(data, gamma);
    l.setqNorm(q);
    l.setLearningRate(rng.pick(std::vector<double>{0.5, 1.0, 0.1}));
    l.setFlexible(flexible);
    double bound = sep && gamma == 0 && flexible == 0 ? novikoff(pl) : 0;
    plain(l, bound > 0 ? (int)bound + 20 : 20000);
    bool ok = l.train();
    if (bound > 0) {
        VCHECK("converges:" + who, ok, "separable by ", pl.m, ", not learned in ", l.getCtot(), " updates (at most ", bound, " are possible)");
        VCHECK("mistake-bound:" + who, l.getCtot() <= bound + 1, l.getCtot(), " updates, at most ", bound, " are possible");
        vh::count("separable problems converged");
    }
    auto s = l.getSolution();
    bookkeeping(who, l, q);
    if (ok) {
        double scale = std::fabs(s.bias) + std::sqrt(dotp(s.w.X(), s.w.X()) * radius2(pl.rows)) + gamma * s.norm + 1e-12;
        auto pts = l.getSamples()->points();
        for (auto &p : pts) {
            double f = dotp(s.w.X(), p->X()) + s.bias, need = gamma * s.norm - p->Alpha() * flexible;
            VCHECK("success-means-margin:" + who, p->Y() * f > need - 1e-9 * scale, who, " q=", q, " gamma=", gamma, " flexible=", flexible, " succeeded but y*f=", p->Y() * f, " <= ", need, " at ", row_of(*p));
            double raw = l.evaluate(*p, true);
            VCHECK("raw-is-function:" + who, vh::close(raw, f, 1e-9, 1e-9 * scale), "raw value ", raw, ", w*x+b=", f);
            if (std::fabs(f) > 1e-9 * scale) VCHECK("prediction-is-sign:" + who, l.evaluate(*p) == (f >= 0 ? 1 : -1), who, " predicts ", l.evaluate(*p), " where its function is ", f);
            vh::count("training points re-evaluated");
        }
        vh::count(gamma > 0 ? "successful trainings with a margin" : "successful trainings");
    } else vh::count("trainings ended by a limit");
    untouched(who, data, pl.rows);
    vh::nontrivial(digest(pl.rows) + std::to_string(q) + std::to_string(gamma));
}
WORKLOAD(fixed_margin_primal, 900, 40000) { fixed_margin<PerceptronFixedMarginPrimal<double>>(rng, "fixed-margin", false); }
WORKLOAD(fixed_margin_ima, 900, 40000) { fixed_margin<IMApFixedMargin<double>>(rng, "ima-fixed-margin", true); }

WORKLOAD(balanced, 600, 25000) {
    Planted pl = planted(rng, 60, 6);
    DD data = data_of(pl.rows);
    size_t seed = gen::seed_of(rng), d = pl.rows[0].x.size();
    double rate = rng.pick(std::vector<double>{0.5, 1.0, 0.1});
    auto run = [&](BalancedPerceptron<double> &b) {
        plain(b, 1 << 30);
        b.setLearningRate(rate);
        b.setMaxUpdates((int)novikoff(pl, std::sqrt((double)d) + 1, rate) + 20);
        b.setMaxEpochs(1 << 28);
        return b.train();
    };
    BalancedPerceptron<double> a(data, seed), b(data, seed);
    bool ok = run(a), ok2 = run(b);
    VCHECK("converges:balanced", ok, "separable by ", pl.m, " but the balanced perceptron did not learn it");
    auto s = a.getSolution(), s2 = b.getSolution();
    VCHECK("seed-reproduces:balanced", ok == ok2 && s.w.X() == s2.w.X() && s.bias == s2.bias, "two trainings with seed ", seed, " gave ", vh::show(s.w.X()), "+", s.bias, " and ", vh::show(s2.w.X()), "+", s2.bias);
    double scale = std::fabs(s.bias) + std::sqrt(dotp(s.w.X(), s.w.X()) * radius2(pl.rows)) + 1e-12;
    separates("balanced", a, pl.rows, scale);
    double mp = 1e300, mn = 1e300;
    for (auto &r : pl.rows) {
        double f = a.evaluate(point_of(r), true);
        VCHECK("raw-is-function:balanced", vh::close(f, wdot(a, r), 1e-9, 1e-9 * scale), "raw value ", f, ", w*x+b=", wdot(a, r));
        (r.y > 0 ? mp : mn) = std::min(r.y > 0 ? mp : mn, r.y * f);
    }
    if (mp < 1e299 && mn < 1e299) VCHECK("balanced-margins", vh::close(mp, mn, 1e-7, 1e-9 * scale), "the two classes lie ", mp, " and ", mn, " from the hyperplane: not balanced");
    untouched("balanced perceptron", data, pl.rows);
    vh::count("successful trainings");
    vh::nontrivial(digest(pl.rows));
}

// ------------------------------------------------------------------ dual perceptrons
struct Kern { int type; double param; };
static Kern kern(vh::Rng &g) {
    switch (g.below(3)) {
        case 0: return {mltk::INNER_PRODUCT, 0};
        case 1: return {mltk::POLYNOMIAL, (double)g.i(1, 3)};
        default: return {mltk::GAUSSIAN, g.pick(std::vector<double>{0.05, 0.5, 2.0})};
    }
}
static double dual_f(const Kern &k, const Rows &rows, const Solution &s, const std::vector<double> &x) {
    double f = s.bias;
    for (size_t r = 0; r < rows.size(); r++) f += s.alpha[r] * rows[r].y * kval(k.type, k.param, rows[r].x, x);
    return f;
}
static double dual_norm(const Kern &k, const Rows &rows, const std::vector<double> &a) {
    double s = 0;
    for (size_t i = 0; i < rows.size(); i++) for (size_t j = 0; j < rows.size(); j++) s += a[i] * a[j] * rows[i].y * rows[j].y * kval(k.type, k.param, rows[i].x, rows[j].x);
    return std::sqrt(std::max(0.0, s));
}
static double kmax(const Kern &k, const Rows &rows) {
    double mk = 0;
    for (auto &r : rows) mk = std::max(mk, std::fabs(kval(k.type, k.param, r.x, r.x)));
    return mk;
}
// the learner keeps its norm incrementally; squares are compared, up to cancellation in the sums
static bool same_norm(const Kern &k, const Rows &rows, const Solution &s) {
    double sa = 0, nn = dual_norm(k, rows, s.alpha);
    for (double a : s.alpha) sa += std::fabs(a);
    return std::fabs(s.norm * s.norm - nn * nn) <= 1e-4 * nn * nn + 1e-9 * sa * sa * kmax(k, rows) + 1e-12;
}
static double dual_scale(const Kern &k, const Rows &rows, const Solution &s) {
    double mk = 0, sa = std::fabs(s.bias);
    for (auto &r : rows) mk = std::max(mk, std::fabs(kval(k.type, k.param, r.x, r.x)));
    for (double a : s.alpha) sa += std::fabs(a) * mk;
    return sa + 1e-12;
}
// a feature's weight under a nonlinear kernel: what the squared norm loses when the feature is ignored
static void feature_weights(const std::string &who, const std::vector<double> &w, const Kern &k, const Rows &rows, const Solution &s) {
    size_t d = rows[0].x.size();
    VCHECK("feature-weights:" + who, w.size() == d, who, ": ", w.size(), " feature weights for ", d, " features");
    double sa = 0, mk = kmax(k, rows);
    for (double a : s.alpha) sa += std::fabs(a);
    for (size_t q = 0; q < d; q++) {
        double e = 0, m = 0;
        for (size_t i = 0; i < rows.size(); i++)
            for (size_t j = 0; j < rows.size(); j++) {
                if (s.alpha[i] == 0 || s.alpha[j] == 0) continue;
                auto a = rows[i].x, b = rows[j].x;
                double full = kval(k.type, k.param, a, b);
                a.erase(a.begin() + (long)q);
                b.erase(b.begin() + (long)q);
                double part = kval(k.type, k.param, a, b);
                e += s.alpha[i] * s.alpha[j] * rows[i].y * rows[j].y * (full - part);
                m = std::max(m, std::fabs(part));
            }
        VCHECK("feature-weights:" + who, vh::close(w[q], e, 1e-7, 1e-9 * sa * sa * (mk + m) + 1e-12), who, ": the weight of feature ", q, " is ", w[q], " expected ", e);
    }
    vh::count("feature weights of kernels");
}
template <class L> static void dual_checks(const std::string &who, L &l, const Kern &k, const Rows &rows, bool ok, double gamma, vh::Rng &rng) {
    auto s = l.getSolution();
    VCHECK("alphas:" + who, s.alpha.size() == rows.size(), who, " has ", s.alpha.size(), " alphas for ", rows.size(), " points");
    double scale = dual_scale(k, rows, s), nn = dual_norm(k, rows, s.alpha);
    // the expansion is what the classifier evaluates, at training points and elsewhere
    for (size_t t = 0; t < rows.size() + 3; t++) {
        std::vector<double> x;
        if (t < rows.size()) x = rows[t].x;
        else for (size_t j = 0; j < rows[0].x.size(); j++) x.push_back(rng.d(-5, 5));
        Row q;
        q.x = x;
        double raw = l.evaluate(point_of(q), true), f = dual_f(k, rows, s, x);
        VCHECK("raw-is-expansion:" + who, vh::close(raw, f, 1e-9, 1e-9 * scale), who, " evaluates to ", raw, ", its alphas and bias give ", f);
        if (std::fabs(f) > 1e-8 * scale) VCHECK("prediction-is-sign:" + who, l.evaluate(point_of(q), false) == (f >= 0 ? 1 : -1), who, " predicts ", l.evaluate(point_of(q), false), " where its function is ", f);
        vh::count("dual evaluations");
    }
    if (ok) {
        for (auto &r : rows) {
            double f = dual_f(k, rows, s, r.x);
            VCHECK("success-means-margin:" + who, r.y * f >= gamma * nn - 1e-7 * scale, who, " gamma=", gamma, " succeeded but y*f=", r.y * f, " < ", gamma * nn, " at ", r);
        }
        vh::count(gamma > 0 ? "successful trainings with a margin" : "successful trainings");
    } else vh::count("trainings ended by a limit");
    if (k.type == mltk::INNER_PRODUCT && s.w.size()) {
        for (size_t j = 0; j < s.w.size(); j++) {
            double w = 0;
            for (size_t i = 0; i < rows.size(); i++) w += s.alpha[i] * rows[i].y * rows[i].x[j];
            VCHECK("weights-are-expansion:" + who, vh::close(s.w[j], w, 1e-8, 1e-9 * scale), who, " weight ", j, " is ", s.w[j], ", its alphas give ", w);
        }
    }
    if (k.type != mltk::INNER_PRODUCT && s.w.size() && (who == "smo" || who == "ima-dual")) feature_weights(who, s.w.X(), k, rows, s);
    if (rng.chance(0.5)) feature_weights(who, l.getDualWeight().X(), k, rows, s);
    if (k.type == mltk::INNER_PRODUCT) {
        auto w = l.getWeight();
        for (size_t j = 0; j < rows[0].x.size(); j++) {
            double e = 0;
            for (size_t i = 0; i < rows.size(); i++) e += s.alpha[i] * rows[i].y * rows[i].x[j];
            VCHECK("weights-are-expansion:" + who, vh::close(w[j], e, 1e-8, 1e-9 * scale), who, " getWeight gives ", w[j], " for feature ", j, ", its alphas give ", e);
        }
    }
    if (k.type == mltk::INNER_PRODUCT || (k.type == mltk::POLYNOMIAL && k.param == 1)) feature_weights(who, l.getDualWeightProdInt().X(), k, rows, s);
}
WORKLOAD(perceptron_dual, 700, 25000) {
    Kern k = kern(rng);
    bool sep = k.type == mltk::INNER_PRODUCT && rng.chance(0.8);
    Planted pl;
    if (sep) pl = planted(rng, 35, 5); else pl.rows = noisy(rng, (size_t)rng.i(2, 25), (size_t)rng.i(1, 4));
    DD data = data_of(ids_shuffled(rng, pl.rows));
    pl.rows = rows_of(data);
    PerceptronDual<double> perc(data, (mltk::KernelType)k.type, k.param, rng.pick(std::vector<double>{0.5, 1.0, 0.1}));
    double bound = sep ? novikoff(pl) : 0;
    for (int again = 0; again < 2; again++) {
        int before = perc.getCtot();
        plain(perc, before + (sep ? (int)bound + 20 : 2000));
        bool ok = perc.train();
        if (sep) {
            VCHECK("converges:perceptron-dual", ok, "separable by ", pl.m, " but not learned in ", perc.getCtot(), " updates (at most ", bound, " are possible)");
            VCHECK("mistake-bound:perceptron-dual", perc.getCtot() - before <= bound + 1, perc.getCtot() - before, " updates, at most ", bound, " are possible");
            vh::count("separable problems converged");
        }
        dual_checks("perceptron-dual", perc, k, pl.rows, ok, 0, rng);
        auto s = perc.getSolution();
        if (k.type != mltk::POLYNOMIAL) VCHECK("reported-norm:perceptron-dual", same_norm(k, pl.rows, s), "reports norm ", s.norm, ", its alphas have ", dual_norm(k, pl.rows, s.alpha));
    }
    untouched("dual perceptron", data, pl.rows);
    vh::nontrivial(digest(pl.rows) + std::to_string(k.type) + std::to_string(k.param));
}
WORKLOAD(fixed_margin_dual, 600, 20000) {
    Kern k = kern(rng);
    bool sep = k.type == mltk::INNER_PRODUCT && rng.chance(0.8);
    Planted pl;
    if (sep) pl = planted(rng, 30, 5); else pl.rows = noisy(rng, (size_t)rng.i(2, 25), (size_t)rng.i(1, 4));
    DD data = data_of(ids_shuffled(rng, pl.rows));
    pl.rows = rows_of(data);
    double gamma = rng.chance(0.4) ? 0 : rng.d(0.01, sep ? pl.m * 0.6 : 0.1);
    PerceptronFixedMarginDual<double> l(data, (mltk::KernelType)k.type, k.param, gamma, rng.pick(std::vector<double>{0.5, 1.0, 0.1}));
    double bound = sep && gamma == 0 ? novikoff(pl) : 0;
    plain(l, bound > 0 ? (int)bound + 20 : 3000);
    bool ok = l.train();
    if (bound > 0) {
        VCHECK("converges:fixed-margin-dual", ok, "separable by ", pl.m, " but not learned in ", l.getCtot(), " updates (at most ", bound, " are possible)");
        vh::count("separable problems converged");
    }
    dual_checks("fixed-margin-dual", l, k, pl.rows, ok, gamma, rng);
    auto s = l.getSolution();
    if (k.type != mltk::POLYNOMIAL) VCHECK("reported-norm:fixed-margin-dual", same_norm(k, pl.rows, s), "reports norm ", s.norm, ", its alphas have ", dual_norm(k, pl.rows, s.alpha));
    untouched("dual fixed margin perceptron", data, pl.rows);
    vh::nontrivial(digest(pl.rows) + std::to_string(k.type) + std::to_string(gamma));
}

// ------------------------------------------------------------------ maximum margin learners
WORKLOAD(smo, 500, 15000) {
    Kern k = kern(rng);
    Planted pl;
    bool sep = k.type == mltk::INNER_PRODUCT || (k.type == mltk::POLYNOMIAL && k.param == 1);
    if (sep) pl = planted(rng, 40, 5);
    else if (k.type == mltk::GAUSSIAN) { pl = planted(rng, 30, 4); pl.m = 0; }
    else { pl = planted(rng, 20, 4, false); pl.m = 0; }
    DD data = data_of(ids_shuffled(rng, pl.rows));
    pl.rows = rows_of(data);
    SMO<double> l(data, (mltk::KernelType)k.type, k.param);
    l.setVerbose(0);
    l.setMaxEpochs(100000);
    l.setMaxTime(1e7);
    bool ok = l.train();
    auto s = l.getSolution();
    if (sep) VCHECK("converges:smo", ok, "SMO failed on data separable by ", pl.m);
    dual_checks("smo", l, k, pl.rows, false, 0, rng);
    if (!ok) return;
    vh::count("successful trainings");
    double sum = 0, tot = 0, scale = dual_scale(k, pl.rows, s);
    size_t svs = 0;
    for (size_t i = 0; i < pl.rows.size(); i++) {
        VCHECK("smo-alpha-range", s.alpha[i] >= 0, "alpha ", i, " is ", s.alpha[i]);
        sum += s.alpha[i] * pl.rows[i].y;
        tot += s.alpha[i];
        svs += s.alpha[i] > 0;
    }
    VCHECK("smo-equality", std::fabs(sum) <= 1e-6 * (tot + 1e-9), "sum of alpha*y is ", sum, " for alphas summing to ", tot);
    VCHECK("smo-svs", s.svs == svs, "reports ", s.svs, " support vectors, ", svs, " alphas are positive");
    double worst = 0, amax = 0;
    for (double a : s.alpha) amax = std::max(amax, a);
    if (amax > 1000) { vh::count("problems near the cost limit"); return; }   // not separable by this kernel: too ill-conditioned to judge
    for (size_t i = 0; i < pl.rows.size(); i++) {
        double r = pl.rows[i].y * dual_f(k, pl.rows, s, pl.rows[i].x) - 1;
        if (s.alpha[i] > 1e-8 * amax) worst = std::max(worst, std::fabs(r));
        else worst = std::max(worst, -r);
    }
    VCHECK("smo-optimality", worst <= 0.01 + 1e-8 * scale, "optimality conditions violated by ", worst, " (", pl.rows.size(), " points, kernel ", k.type, ")");
    double nn = dual_norm(k, pl.rows, s.alpha);
    VCHECK("smo-margin", std::fabs(1 / (s.margin * s.margin) - nn * nn) <= 1e-6 * nn * nn + 1e-11 * scale * scale / std::max(1e-300, kmax(k, pl.rows)) || (nn == 0 && std::isinf(s.margin)), "reports margin ", s.margin, ", its alphas give ", 1 / nn);
    if (sep && k.type == mltk::INNER_PRODUCT) {
        VCHECK("smo-margin-maximal", s.margin >= pl.m * 0.99, "margin ", s.margin, " although a hyperplane with ", pl.m, " exists");
        VCHECK("smo-margin-possible", s.margin <= margin_cap(pl.rows) * 1.01, "margin ", s.margin, " exceeds half the gap between the classes, ", margin_cap(pl.rows));
    }
    untouched("SMO", data, pl.rows);
    vh::nontrivial(digest(pl.rows) + std::to_string(k.type));
    vh::sample(vh::cat("kernel ", k.type, " n=", pl.rows.size(), " planted=", pl.m, " margin=", s.margin, " worst KKT residual=", worst));
}
static double half_gap(const Rows &rows, const std::vector<double> &w, double nn) {
    double lo = 1e300, hi = -1e300;
    for (auto &r : rows) {
        double f = dotp(w, r.x);
        if (r.y > 0) lo = std::min(lo, f); else hi = std::max(hi, f);
    }
    return (lo - hi) / 2 / nn;
}
// a separating direction of nearly the largest half gap: the difference of nearly the closest points of the two hulls
static double good_gap(const Rows &rows, double least, double q) {
    std::vector<const Row *> pos, neg;
    for (auto &r : rows) (r.y > 0 ? pos : neg).push_back(&r);
    size_t d = rows[0].x.size();
    std::vector<double> a = pos[0]->x, b = neg[0]->x, w(d);
    double best = q == 2 ? least : 0;
    for (int it = 0; it < 3000; it++) {
        double nn = 0;
        for (size_t k = 0; k < d; k++) { w[k] = a[k] - b[k]; nn += w[k] * w[k]; }
        if (nn <= 0) break;
        best = std::max(best, half_gap(rows, w, qnorm(w, q)));
        const Row *p = pos[0], *o = neg[0];
        for (auto r : pos) if (dotp(w, r->x) < dotp(w, p->x)) p = r;
        for (auto r : neg) if (dotp(w, r->x) > dotp(w, o->x)) o = r;
        double ga = dotp(w, a) - dotp(w, p->x), gb = dotp(w, o->x) - dotp(w, b);
        std::vector<double> step(d);
        std::vector<double> &c = ga > gb ? a : b;
        const std::vector<double> &to = ga > gb ? p->x : o->x;
        double num = 0, den = 0;
        for (size_t k = 0; k < d; k++) { step[k] = to[k] - c[k]; num -= (ga > gb ? 1 : -1) * w[k] * step[k]; den += step[k] * step[k]; }
        if (den <= 0 || num <= 0) break;
        double t = std::min(1.0, num / den);
        for (size_t k = 0; k < d; k++) c[k] += t * step[k];
    }
    return best;
}
WORKLOAD(ima_primal, 400, 12000) {
    Planted pl = planted(rng, 40, 5);
    DD data = data_of(pl.rows);
    double q = rng.pick(std::vector<double>{2, 2, 2, 1, -1, 3});
    // some trainings continue from a solution the caller has: they end with the first separator found from there
    bool given = rng.chance(0.25);
    mltk::Solution start;
    start.w = std::vector<double>(pl.w.size(), 0.0);
    for (auto &v : start.w) v = rng.gauss();
    if (rng.chance(0.2)) start.w = pl.w;
    start.bias = rng.gauss();
    double approx = rng.pick(std::vector<double>{0, 0, 0.05, 0.2});
    IMAp<double> l(data, (int)q, 0, 0, given ? &start : nullptr);
    plain(l, rng.pick(std::vector<int>{1000, 10000, 40000}) + (int)novikoff(pl, 1 + std::sqrt(radius2(pl.rows))));
    l.setAlphaAprox(approx);
    bool ok = l.train();
    VCHECK("converges:ima", ok, "data separable by ", pl.m, " but IMA found no hyperplane");
    auto s = l.getSolution();
    double scale = std::fabs(s.bias) + std::sqrt(dotp(s.w.X(), s.w.X()) * radius2(pl.rows)) + 1e-12;
    separates("ima", l, pl.rows, scale);
    double nn = qnorm(s.w.X(), q), gap = half_gap(pl.rows, s.w.X(), nn);
    VCHECK("reported-norm:ima", vh::close(s.norm, nn, 1e-6, 1e-9), "reports norm ", s.norm, ", its weights have ", nn, " (q=", q, ")");
    VCHECK("ima-margin", vh::close(s.margin, gap, 1e-6, 1e-8), "reports margin ", s.margin, ", the classes are ", gap, " from the middle (q=", q, ")");
    if (!given) {
        // it approximates the largest margin: never below 0.93 of it in tens of thousands of runs; a lost iteration shows far lower
        double best = good_gap(pl.rows, pl.m, q);
        VCHECK("ima-margin-large", s.margin >= 0.85 * best / (1 + approx), "margin ", s.margin, " after ", l.getCtot(), " updates although a separator of margin ", best, " exists (q=", q, ", approximation ", approx, ")");
        vh::count("margins compared with the best known");
    } else {
        vh::count("trainings from a given solution");
        double g0 = half_gap(pl.rows, start.w.X(), qnorm(start.w.X(), q));
        if (g0 > 1e-6) {      // a direction that separates already is kept, with the plane moved to the middle
            double t = qnorm(start.w.X(), q), lo = 1e300, hi = -1e300;
            for (auto &r : pl.rows) { double f = dotp(start.w.X(), r.x) / t; if (r.y > 0) lo = std::min(lo, f); else hi = std::max(hi, f); }
            for (size_t k = 0; k < start.w.size(); k++) VCHECK("ima-keeps-separator", vh::close(s.w[k] / nn, start.w[k] / t, 1e-9, 1e-9), "started from the separating direction ", vh::show(start.w.X()), " it ends with ", vh::show(s.w.X()), " (q=", q, ")");
            VCHECK("ima-keeps-separator", vh::close(s.bias / nn, -(lo + hi) / 2, 1e-9, 1e-9 * scale), "started from a separating direction its bias is ", s.bias / nn, ", the middle is at ", -(lo + hi) / 2, " (q=", q, ")");
            vh::count("given separators kept");
        }
    }
    if (q == 2) {
        VCHECK("ima-margin-possible", s.margin <= margin_cap(pl.rows) * (1 + 1e-9), "margin ", s.margin, " exceeds half the gap between the classes, ", margin_cap(pl.rows));

        vh::count(s.margin >= 0.9 * pl.m ? "margins within 10% of the planted one" : "margins below 90% of the planted one");
    }
    untouched("IMA", data, pl.rows);
    vh::count("successful trainings");
    vh::nontrivial(digest(pl.rows));
    vh::sample(vh::cat("q=", q, " n=", pl.rows.size(), " planted=", pl.m, " margin=", s.margin, " updates=", l.getCtot()));
}
WORKLOAD(ima_dual, 400, 10000) {
    Kern k = kern(rng);
    Planted pl = planted(rng, 25, 4);
    DD data = data_of(ids_shuffled(rng, pl.rows));
    pl.rows = rows_of(data);
    IMADual<double> l(data, (mltk::KernelType)k.type, k.param, rng.pick(std::vector<double>{1.0, 0.5}));
    bool sep = k.type == mltk::INNER_PRODUCT;
    plain(l, 3000 + (sep ? (int)novikoff(pl) : 0));
    bool ok = l.train();
    if (sep) VCHECK("converges:ima-dual", ok, "data separable by ", pl.m, " but IMA found no hyperplane");
    dual_checks("ima-dual", l, k, pl.rows, ok, 0, rng);
    if (ok) {
        auto s = l.getSolution();
        double nn = dual_norm(k, pl.rows, s.alpha), lo = 1e300, hi = 1e300;
        for (auto &r : pl.rows) {
            double f = r.y * dual_f(k, pl.rows, s, r.x) / nn;
            (r.y > 0 ? lo : hi) = std::min(r.y > 0 ? lo : hi, f);
        }
        double want = std::min(lo, hi);
        if (k.type != mltk::POLYNOMIAL) {
            VCHECK("ima-dual-margin", vh::close(s.margin, want, 1e-3, 1e-5), "reports margin ", s.margin, ", its nearest point is ", want, " away");
            VCHECK("reported-norm:ima-dual", same_norm(k, pl.rows, s), "reports norm ", s.norm, ", its alphas have ", nn);
        }
        vh::count("margins of dual IMA");
    }
    untouched("dual IMA", data, pl.rows);
    vh::nontrivial(digest(pl.rows) + std::to_string(k.type));
}

// ------------------------------------------------------------------ least mean squares
WORKLOAD(lms, 500, 15000) {
    size_t d = (size_t)rng.i(1, 4), n = gen::grow(rng, (size_t)rng.i((long long)d + 3, 40), 0.02, 400);
    std::vector<double> w;
    for (size_t j = 0; j < d; j++) w.push_back(rng.d(-2, 2));
    double b = rng.d(-2, 2);
    Rows rows;
    for (size_t i = 0; i < n; i++) {
        Row r;
        r.id = (long long)i + 1;
        for (size_t j = 0; j < d; j++) r.x.push_back(rng.d(-1, 1));
        r.y = dotp(w, r.x) + b;
        rows.push_back(r);
    }
    DD data;
    data.setType("regression");
    for (auto &r : rows) data.insertPoint(point_of(r), true);
    double rate = rng.d(0.02, 0.9) / d;
    auto run = [&](mltk::regressor::LMSPrimal<double> &l) {
        l.setMaxTime(1e7);
        l.setMaxIterations(3000);
        l.setEPS(1e-13);
        return l.train();
    };
    mltk::regressor::LMSPrimal<double> a(data, rate), c(data, rate);
    run(a);
    run(c);
    auto s = a.getSolution(), s2 = c.getSolution();
    VCHECK("lms-dimension", s.w.size() == d, "weights of dimension ", s.w.size());
    VCHECK("lms-deterministic", s.w.X() == s2.w.X() && s.bias == s2.bias, "two identical trainings gave different weights");
    double mse = 0, scale = 0, mean = 0;
    for (auto &r : rows) mean += r.y / n;
    for (auto &r : rows) {
        double p = a.evaluate(point_of(r));
        VCHECK("lms-evaluates-solution", vh::close(p, dotp(s.w.X(), r.x) + s.bias, 1e-9, 1e-9), "predicts ", p, ", w*x+b=", dotp(s.w.X(), r.x) + s.bias);
        mse += (p - r.y) * (p - r.y) / n;
        scale += (r.y - mean) * (r.y - mean) / n;
    }
    VCHECK("lms-fits", mse <= 1e-2 * scale + 1e-6, "exactly linear data (variance ", scale, ", n=", n, ", d=", d, ", rate ", rate, ") fitted with mean squared error ", mse, " after ", a.getSteps(), " passes");
    vh::count("exactly linear problems fitted");
    untouched("LMS", data, rows);
    vh::nontrivial(digest(rows));
    vh::sample(vh::cat("d=", d, " n=", n, " rate=", rate, " mse/variance=", mse / (scale + 1e-300), " passes=", a.getSteps()));
}
// one learner object moved from dataset to dataset behaves as a new one
WORKLOAD(reused_learners, 300, 10000) {
    int kind = (int)rng.below(7);
    std::vector<Planted> ps;
    for (int t = 0; t < 3; t++) ps.push_back(planted(rng, 25, 4));
    auto go = [&](auto &old, const char *who, auto fresh, bool kernel) {
        for (auto &p : ps) {
            DD d = data_of(p.rows);
            old.setSamples(d);
            plain(old, 1 << 28);
            if (kernel) { auto *dc = dynamic_cast<DualClassifier<double> *>(&old); dc->recomputeKernel(); }
            bool ok = old.train();
            VCHECK(vh::cat("reused-converges:", who), ok, who, " trained on a second dataset found no hyperplane though one with margin ", p.m, " exists");
            double f0 = 0;
            for (auto &r : p.rows) {
                double f = old.evaluate(point_of(r), true);
                VCHECK(vh::cat("reused-separates:", who), r.y * f >= -1e-9 * (1 + std::fabs(f)), who, " reused on another dataset reported success but y*f=", r.y * f);
                f0 += f;
            }
            (void)f0;
            (void)fresh;
            vh::count("trainings of reused learners");
        }
    };
    DD d0 = data_of(ps[0].rows);
    switch (kind) {
        case 0: { PerceptronPrimal<double> l(d0); go(l, "perceptron", 0, false); break; }
        case 1: { PerceptronFixedMarginPrimal<double> l(d0, 0); go(l, "fixed-margin", 0, false); break; }
        case 2: { PerceptronDual<double> l(d0, mltk::INNER_PRODUCT); go(l, "perceptron-dual", 0, true); break; }
        case 3: { PerceptronFixedMarginDual<double> l(d0, mltk::INNER_PRODUCT); go(l, "fixed-margin-dual", 0, true); break; }
        case 4: { IMApFixedMargin<double> l(d0, 0); go(l, "ima-fixed-margin", 0, false); break; }
        case 5: { BalancedPerceptron<double> l(d0, 7); go(l, "balanced", 0, false); break; }
        default: { SMO<double> l(d0); go(l, "smo", 0, true); break; }
    }
    vh::nontrivial(digest(ps[0].rows) + std::to_string(kind));
}
// the same, for kernel learners that are not told to forget their kernel
WORKLOAD(reused_kernel, 60, 600) {
    int kind = (int)rng.below(3);
    std::vector<Planted> ps;
    for (int t = 0; t < 2; t++) ps.push_back(planted(rng, 25, 4));
    bool same = rng.chance(0.5);
    if (same) {            // as many points, others
        ps[1] = ps[0];
        size_t a = rng.below(ps[0].rows.size());
        for (auto &r : ps[1].rows) for (auto &v : r.x) v = -v * 2;
        for (auto &r : ps[1].rows) r.x[a % r.x.size()] *= 1.5;
        for (auto &r : ps[1].rows) r.y = -r.y;
        rng.shuffle(ps[1].rows);
    }
    if (!same && ps[0].rows.size() == ps[1].rows.size()) return;
    auto go = [&](auto &old, const char *who) {
        for (int t = 0; t < 2; t++) {
            DD d = data_of(ps[t].rows);
            old.setSamples(d);
            plain(old, t && same ? 4000 : 1 << 28);
            bool ok = old.train();
            std::string key = t && same ? "dual-keeps-kernel" : vh::cat("reused-separates:", who);
            if (t) VCHECK(key, ok, who, " given other points finds no hyperplane though one exists");
            if (ok) for (auto &r : ps[t].rows) { double f = old.evaluate(point_of(r), true); VCHECK(key, r.y * f >= -1e-9 * (1 + std::fabs(f)), who, " given ", same ? "as many other points" : "other points", " without recomputeKernel() reported success but y*f=", r.y * f); }
            vh::count("kernel learners reused");
        }
    };
    DD d0 = data_of(ps[0].rows);
    switch (kind) {
        case 0: { PerceptronDual<double> l(d0, mltk::INNER_PRODUCT); go(l, "perceptron-dual"); break; }
        case 1: { PerceptronFixedMarginDual<double> l(d0, mltk::INNER_PRODUCT); go(l, "fixed-margin-dual"); break; }
        default: { SMO<double> l(d0); go(l, "smo"); break; }
    }
    vh::nontrivial(digest(ps[0].rows) + std::to_string(kind) + "k");
}
VH_MAIN
