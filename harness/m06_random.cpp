// Seeded randomness and the synthetic datasets built on it.
#include "gen.hpp"
#include "ufjfmltk/core/Datasets.hpp"
#include "ufjfmltk/core/Random.hpp"
#include <climits>
using namespace gen;
namespace mr = mltk::random;

WORKLOAD(ranges, 3000, 150000) {
    long long lo = rng.chance(0.3) ? rng.i(-5, 5) : rng.i(-1000000, 1000000);
    long long hi = lo + (rng.chance(0.5) ? rng.i(0, 6) : rng.i(0, 1000000));
    if (rng.chance(0.05)) { lo = INT_MIN; hi = INT_MAX; }
    std::set<long long> seen;
    size_t n = hi - lo < 7 ? 400 : 40;
    for (size_t k = 0; k < n; k++) {
        int v = mr::intInRange((int)lo, (int)hi);
        VCHECK("random:int-range", v >= lo && v <= hi, "intInRange(", lo, ",", hi, ") gave ", v);
        seen.insert(v);
        if (lo >= 0) {
            size_t w = mr::intInRange((size_t)lo, (size_t)hi);
            VCHECK("random:size-range", w >= (size_t)lo && w <= (size_t)hi, "intInRange of sizes (", lo, ",", hi, ") gave ", w);
        }
    }
    // every value of a short range comes up (a miss has probability below 1e-20)
    if (hi - lo < 7) {
        VCHECK("random:int-coverage", (long long)seen.size() == hi - lo + 1, "only ", seen.size(), " of the ", hi - lo + 1, " values in [", lo, ",", hi, "] came up in ", n, " draws");
        vh::count("ranges covered");
    }
    double a = rng.d(-1e3, 1e3), b = a + rng.d(1e-6, 1e3);
    bool low = false, high = false;
    for (size_t k = 0; k < 200; k++) {
        double v = mr::floatInRange(a, b);
        VCHECK("random:float-range", v >= a && v <= b, "floatInRange(", a, ",", b, ") gave ", v);
        (v < a + (b - a) / 2 ? low : high) = true;
    }
    VCHECK("random:float-coverage", low && high, "200 draws from [", a, ",", b, ") all fell into one half");
    size_t d = gen::wide(rng, (size_t)rng.i(1, 20));
    PD p = mltk::random_init<double>(d);
    VCHECK("random:init-point", p.size() == d, "random_init of ", d, " gave ", p.size());
    for (auto x : p.X()) VCHECK("random:init-point", x >= 0 && x <= 1, "random_init value ", x);
    PD q(d);
    mltk::random_init(q, (size_t)rng.i(1, 1000));
    for (auto x : q.X()) VCHECK("random:init-point", x >= 0 && x <= 1, "random_init value ", x);
    vh::count("draws", n + 200);
    vh::nontrivial(vh::cat(lo, hi, a, b));
}

// the same mix of draws for the same shape
static std::vector<double> stream(uint64_t shape, size_t n) {
    vh::Rng g(shape);
    std::vector<double> v;
    for (size_t k = 0; k < n; k++) {
        switch (g.below(4)) {
            case 0: v.push_back(mr::intInRange(0, 1000000)); break;
            case 1: v.push_back(mr::floatInRange(-1.0, 1.0)); break;
            case 2: v.push_back(mr::floatInRange<double, std::normal_distribution<double>>(0.0, 1.0)); break;
            default: v.push_back((double)mr::intInRange<size_t, size_t>(0, 1u << 30)); break;
        }
    }
    return v;
}
WORKLOAD(seeds, 2000, 100000) {
    unsigned seed = rng.chance(0.2) ? (unsigned)rng.i(1, 3) : (unsigned)rng.i(1, UINT_MAX);
    size_t n = gen::grow(rng, (size_t)rng.i(3, 40));
    uint64_t shape = rng.u64();
    size_t r1 = mr::init(seed);
    auto a = stream(shape, n);
    // anything may happen in between
    switch (rng.below(4)) {
        case 0: break;
        case 1: stream(shape, (size_t)rng.i(1, 50)); break;
        case 2: mr::init((unsigned)rng.i(0, 5)); stream(shape, 3); break;
        default: mltk::random_init<double>(4, (size_t)rng.i(0, 9)); break;
    }
    size_t r2 = mr::init(seed);
    auto b = stream(shape, n);
    VCHECK("seed:returned", r1 == seed && r2 == seed && mr::getSeed() == seed, "init(", seed, ") returned ", r1, ", ", r2, "; getSeed() ", mr::getSeed());
    VCHECK("seed:reproduces", a == b, "the sequence after init(", seed, ") differs the second time: ", vh::show(a, 5), " and ", vh::show(b, 5));
    unsigned other = seed ^ (unsigned)rng.i(1, 1u << 20);
    if (other == 0) other = seed + 1;
    mr::init(other);
    VCHECK("seed:distinguishes", stream(shape, n) != a, "seeds ", seed, " and ", other, " give the same sequence");
    // a seed chosen by the library can be used to get the sequence again
    size_t chosen = mr::init(0);
    auto c = stream(shape, n);
    if (chosen != 0) {
        mr::init((unsigned)chosen);
        VCHECK("seed:chosen", stream(shape, n) == c, "the seed ", chosen, " reported by init(0) does not reproduce its sequence");
    }
    size_t d = (size_t)rng.i(1, 10);
    PD p = mltk::random_init<double>(d, seed), q(d);
    mltk::random_init(q, (size_t)seed);
    VCHECK("seed:points", p.X() == q.X(), "random_init with seed ", seed, " differs between its forms");
    vh::count("seeded streams", 5);
    vh::nontrivial(vh::cat(seed, n, a[0]));
}

static void sequential_ids(const DD &d, const char *what) {
    std::set<long long> ids;
    for (size_t i = 0; i < d.size(); i++) ids.insert((long long)d.point((int)i)->Id());
    VCHECK("synthetic:ids", ids.size() == d.size() && *ids.begin() == 1 && *ids.rbegin() == (long long)d.size(), what, ": ids are not 1..", d.size());
}
static std::string all(const DD &d) { return digest(rows_of(d)); }

WORKLOAD(spirals, 400, 20000) {
    int nc = (int)rng.i(1, 6);
    size_t n = gen::grow(rng, (size_t)rng.i(nc, 60 + nc), 0.02, 1000), loops = (size_t)rng.i(1, 4), seed = gen::seed_of(rng);
    double noise = rng.chance(0.5) ? 0 : rng.d(0, 2), margin = rng.d(0.1, 2);
    bool sh = rng.chance(0.5);
    auto D = mltk::datasets::make_spirals(n, nc, sh, noise, loops, margin, seed);
    check_consistent(D, "spirals");
    size_t per = n / (size_t)nc;
    VCHECK("spirals:size", D.size() == per * nc && D.dim() == 2, "asked for ", n, " samples of ", nc, " classes, got ", D.size(), " of dimension ", D.dim());
    std::map<int, size_t> h = histogram(rows_of(D));
    VCHECK("spirals:classes", (int)h.size() == nc, h.size(), " classes, expected ", nc);
    for (auto &kv : h) VCHECK("spirals:balance", kv.second == per, "class ", kv.first, " has ", kv.second, " samples, expected ", per);
    sequential_ids(D, "spirals");
    for (auto &r : rows_of(D)) {
        int c = nc == 2 ? (r.y == -1 ? 0 : r.y == 1 ? 1 : -1) : (int)r.y - 1;
        VCHECK("spirals:label", c >= 0 && c < nc, "label ", r.y);
        double rad = std::hypot(r.x[0], r.x[1]);
        double tmax = (double)loops * 2 * M_PI;
        VCHECK("spirals:radius", rad <= tmax * margin * nc + noise * 1.5 + 1e-9, "radius ", rad, " beyond the ", loops, " loops");
        if (noise == 0) {
            double theta = rad / (margin * nc), want = theta + c * 2 * M_PI / nc;
            double ex = rad * std::cos(want), ey = rad * std::sin(want);
            VCHECK("spirals:curve", std::hypot(ex - r.x[0], ey - r.x[1]) <= 1e-9 * (1 + rad), "a sample of class ", r.y, " at (", r.x[0], ",", r.x[1], ") is not on its spiral");
            vh::count("samples on their spiral");
        }
    }
    auto D2 = mltk::datasets::make_spirals(n, nc, sh, noise, loops, margin, seed);
    VCHECK("synthetic:reproduces", all(D2) == all(D), "spirals with seed ", seed, " differ the second time");
    auto D3 = mltk::datasets::make_spirals(n, nc, sh, noise, loops, margin, seed + 1);
    VCHECK("synthetic:seeds-differ", all(D3) != all(D), "spirals with seeds ", seed, " and ", seed + 1, " are equal");
    vh::count("spirals");
    vh::nontrivial(vh::cat("s", n, nc, noise, loops, margin, seed, sh));
}

WORKLOAD(blobs, 400, 20000) {
    int nc = (int)rng.i(1, 6), d = (int)gen::wide(rng, (size_t)rng.i(1, 5));
    size_t n = gen::grow(rng, (size_t)rng.i(1, 60), 0.02, 1000), seed = gen::seed_of(rng);
    double cmin = rng.d(-50, 0), cmax = cmin + rng.d(1, 60), sd = rng.chance(0.3) ? 1e-6 : rng.d(0.1, 3);
    bool sh = rng.chance(0.5), given = rng.chance(0.5);
    std::vector<size_t> ns;
    std::vector<PD> cs;
    std::vector<double> sds;
    for (int c = 0; c < nc; c++) {
        ns.push_back(given ? (size_t)rng.i(0, 60) : n);
        sds.push_back(given ? rng.d(0.01, 3) : sd);
        PD p((size_t)d);
        for (int j = 0; j < d; j++) p[j] = rng.d(-80, 80);
        cs.push_back(p);
    }
    if (given && std::all_of(ns.begin(), ns.end(), [](size_t x) { return x == 0; })) ns[0] = 3;
    auto make = [&](size_t s) {
        return given ? mltk::datasets::make_blobs(ns, cs, sds, d, sh, true, s)
                     : mltk::datasets::make_blobs(n, nc, d, sd, cmin, cmax, sh, true, s);
    };
    auto P = make(seed);
    auto &D = P.dataset;
    check_consistent(D, "blobs");
    VCHECK("blobs:centers", (int)P.centers.size() == nc, P.centers.size(), " centres, expected ", nc);
    size_t total = 0;
    for (auto k : ns) total += k;
    VCHECK("blobs:size", D.size() == total && (int)D.dim() == d, D.size(), " samples of dimension ", D.dim(), ", expected ", total, " of ", d, given ? " (given counts)" : "");
    auto h = histogram(rows_of(D));
    for (int c = 0; c < nc; c++) {
        if (!given) for (int j = 0; j < d; j++) VCHECK("blobs:center-range", P.centers[c][j] >= cmin && P.centers[c][j] <= cmax, "centre coordinate ", P.centers[c][j], " outside [", cmin, ",", cmax, "]");
        else VCHECK("blobs:centers", P.centers[c].X() == cs[c].X(), "centre ", c, " changed");
        int lab = nc == 2 ? (c ? 1 : -1) : c + 1;
        VCHECK("blobs:count", h[lab] == ns[c], "blob ", c, " has ", h[lab], " samples, expected ", ns[c]);
        std::vector<double> m(d, 0);
        for (auto &r : rows_of(D)) {
            if ((int)r.y != lab) continue;
            for (int j = 0; j < d; j++) {
                m[j] += r.x[j] / ns[c];
                VCHECK("blobs:spread", std::fabs(r.x[j] - P.centers[c][j]) <= 8.5 * sds[c], "a sample of blob ", c, " lies ", std::fabs(r.x[j] - P.centers[c][j]) / sds[c], " deviations from its centre");
            }
            vh::count("blob samples");
        }
        if (ns[c] >= 4) for (int j = 0; j < d; j++) VCHECK("blobs:mean", std::fabs(m[j] - P.centers[c][j]) <= 8.5 * sds[c] / std::sqrt((double)ns[c]), "the mean of blob ", c, " is off its centre");
    }
    sequential_ids(D, "blobs");
    VCHECK("synthetic:reproduces", all(make(seed).dataset) == all(D), "blobs with seed ", seed, " differ the second time");
    VCHECK("synthetic:seeds-differ", all(make(seed + 1).dataset) != all(D), "blobs with seeds ", seed, " and ", seed + 1, " are equal");
    auto Q = mltk::datasets::make_blobs(ns, cs, sds, d, sh, false, seed).dataset;
    VCHECK("blobs:unlabelled", Q.size() == total && (int)Q.dim() == d && Q.getType() == "Clustering", "unlabelled blobs: ", Q.size(), " samples, type ", Q.getType());
    vh::count("blobs");
    vh::nontrivial(vh::cat("b", n, nc, d, seed, sd, given, sh));
}

WORKLOAD(regression, 400, 20000) {
    size_t n = gen::grow(rng, (size_t)rng.i(1, 50)), d = gen::wide(rng, (size_t)rng.i(1, 12)), inf = (size_t)rng.i(0, 14), seed = gen::seed_of(rng);
    double bias = rng.d(-20, 20), noise = rng.chance(0.6) ? 0 : rng.d(0.01, 2), mean = rng.d(-0.5, 0.5);
    bool sh = rng.chance(0.5);
    auto make = [&](size_t s) { return mltk::datasets::make_regression(n, d, bias, noise, mean, inf, sh, s); };
    auto P = make(seed);
    VCHECK("regression:size", P.dataset.size() == n && P.dataset.dim() == d && P.coef.size() == d, "size ", P.dataset.size(), " dim ", P.dataset.dim(), " coefficients ", P.coef.size());
    VCHECK("regression:type", P.dataset.getType() == "Regression", "type ", P.dataset.getType());
    for (size_t j = 0; j < d; j++) VCHECK("regression:informative", (P.coef[j] != 0) == (j < inf), "coefficient ", j, " is ", P.coef[j], " with ", inf, " informative features");
    std::set<std::vector<double>> distinct;
    for (auto &r : rows_of(P.dataset)) {
        long double f = bias;
        for (size_t j = 0; j < d; j++) f += (long double)r.x[j] * P.coef[j];
        if (noise == 0) VCHECK("regression:target", std::fabs((double)f - r.y) <= 1e-9 * (1 + std::fabs(r.y)), "target ", r.y, ", the coefficients give ", (double)f);
        else VCHECK("regression:noise", std::fabs((double)f - r.y + mean) <= 9 * noise + 1e-9, "target ", r.y, " is ", std::fabs((double)f - r.y) / noise, " deviations from ", (double)f);
        for (double x : r.x) VCHECK("regression:features", std::fabs(x) < 9, "feature value ", x);
        distinct.insert(r.x);
        vh::count("regression targets");
    }
    VCHECK("regression:distinct", distinct.size() == n, "only ", distinct.size(), " of ", n, " samples are different");
    sequential_ids(P.dataset, "regression");
    auto Q = make(seed);
    VCHECK("synthetic:reproduces", all(Q.dataset) == all(P.dataset) && Q.coef.X() == P.coef.X(), "regression data with seed ", seed, " differs the second time");
    VCHECK("synthetic:seeds-differ", all(make(seed + 1).dataset) != all(P.dataset), "regression data with seeds ", seed, " and ", seed + 1, " is equal");
    vh::nontrivial(vh::cat("r", n, d, inf, seed, bias, noise));
}
VH_MAIN
