// Point algebra, statistics, distance measures, kernels and text conversions, each judged against
// an elementwise scalar definition written here.
#include "gen.hpp"
#include "ufjfmltk/core/Statistics.hpp"
#include "ufjfmltk/core/DistanceMetric.hpp"
#include "ufjfmltk/core/Kernel.hpp"
#include "ufjfmltk/core/Utils.hpp"
#include <climits>
using namespace gen;
using vh::close;
typedef long double LD;

static std::vector<double> vec(vh::Rng &g, size_t d, int kind) {
    std::vector<double> v;
    for (size_t k = 0; k < d; k++) {
        double x = value(g, kind);
        if (g.chance(0.05)) x = 0;
        if (g.chance(0.02)) x = -x;
        v.push_back(x);
    }
    return v;
}
static std::vector<double> positive(vh::Rng &g, size_t d) {
    std::vector<double> v;
    for (size_t k = 0; k < d; k++) v.push_back(g.chance(0.3) ? g.d(1e-3, 1) : g.d(0.01, 50));
    return v;
}

// The same text evaluated on points and, per component, on doubles.
#define EXPR(name, ...)                                                                            \
    {                                                                                              \
        std::vector<double> want(d);                                                               \
        for (size_t k = 0; k < d; k++) {                                                           \
            using std::sin; using std::cos; using std::exp; using std::log; using std::pow;        \
            auto abs = [](double v) { return std::fabs(v); };                                      \
            const double a = va[k], b = vb[k], c = vc[k];                                          \
            (void)a; (void)b; (void)c; (void)abs;                                                  \
            want[k] = (__VA_ARGS__);                                                               \
        }                                                                                          \
        using mltk::sin; using mltk::cos; using mltk::exp; using mltk::log; using mltk::pow; using mltk::abs; \
        const PD &a = A, &b = B, &c = C;                                                           \
        (void)a; (void)b; (void)c;                                                                 \
        PD got = (__VA_ARGS__);                                                                    \
        VCHECK("expr:size", got.size() == d, #name ": ", got.size(), " components, expected ", d); \
        for (size_t k = 0; k < d; k++)                                                             \
            VCHECK("expr:" #name, close(got[k], want[k], 1e-12, 1e-300), #__VA_ARGS__, " component ", k, " is ", got[k], ", expected ", want[k], " for ", va[k], " ", vb[k], " ", vc[k], " s=", s, " n=", n); \
        vh::count("expressions");                                                                  \
    }

WORKLOAD(expressions, 3000, 200000) {
    size_t d = rng.chance(0.1) ? 1 : gen::wide(rng, (size_t)rng.i(1, 24), 0.03, 600);
    int kind = (int)rng.below(6);
    auto va = vec(rng, d, kind), vb = vec(rng, d, kind), vc = vec(rng, d, (int)rng.below(6));
    for (auto &x : vb) if (x == 0) x = 0.5;
    PD A(va), B(vb), C(vc);
    A.Y() = 3; A.Id() = 7;
    const double s = rng.d(-4, 4) + 0.001;
    const int n = (int)rng.i(1, 5);
    EXPR(add, a + b)
    EXPR(sub, a - b)
    EXPR(mul, a * b)
    EXPR(div, a / b)
    EXPR(scalar_add_l, s + a)
    EXPR(scalar_add_r, a + s)
    EXPR(scalar_sub_l, s - a)
    EXPR(scalar_sub_r, a - s)
    EXPR(scalar_mul_l, s * a)
    EXPR(scalar_mul_r, a * s)
    EXPR(scalar_div_r, a / s)
    EXPR(scalar_div_l, s / b)
    EXPR(int_add, n + a)
    EXPR(int_add_r, a + n)
    EXPR(int_sub, n - a)
    EXPR(int_sub_r, a - n)
    EXPR(int_mul, n * a)
    EXPR(int_mul_r, a * n)
    EXPR(int_div, a / n)
    EXPR(int_div_l, n / b)
    EXPR(nested, (a + b) * (a - c) / b)
    EXPR(nested2, a * (b - 2.0 * c) + s)
    EXPR(nested3, 1.0 / (1.0 + exp(-1.0 * sin(a))))
    EXPR(absolute, abs(a - b))
    EXPR(trig, sin(a) * sin(a) + cos(a) * cos(a))
    EXPR(exponential, exp(sin(a)) * b)
    EXPR(logarithm, log(abs(b)))
    EXPR(square, pow(a - c, 2))
    EXPR(realpow, pow(abs(b), 0.5))
    EXPR(chain, a + b + c - a + b * c * a)
    // compound assignment, including of a point with itself
    auto comp = [&](const char *what, const PD &got, const std::function<double(double, double)> &f) {
        VCHECK("compound:size", got.size() == d, what);
        for (size_t k = 0; k < d; k++)
            VCHECK("compound:value", close(got[k], f(va[k], vb[k]), 1e-12, 1e-300), what, " component ", k, " is ", got[k], ", expected ", f(va[k], vb[k]));
        vh::count("compound assignments");
    };
    { PD p = A; p += B; comp("+=", p, [](double x, double y) { return x + y; }); }
    { PD p = A; p -= B; comp("-=", p, [](double x, double y) { return x - y; }); }
    { PD p = A; p *= B; comp("*=", p, [](double x, double y) { return x * y; }); }
    { PD p = A; p /= B; comp("/=", p, [](double x, double y) { return x / y; }); }
    { PD p = A; p += s; comp("+= s", p, [&](double x, double) { return x + s; }); }
    { PD p = A; p -= s; comp("-= s", p, [&](double x, double) { return x - s; }); }
    { PD p = A; p *= s; comp("*= s", p, [&](double x, double) { return x * s; }); }
    { PD p = A; p /= s; comp("/= s", p, [&](double x, double) { return x / s; }); }
    { PD p = A; p += n; comp("+= n", p, [&](double x, double) { return x + n; }); }
    { PD p = A; p *= n; comp("*= n", p, [&](double x, double) { return x * n; }); }
    { PD p = A; p += B * s; comp("+= expr", p, [&](double x, double y) { return x + y * s; }); }
    { PD p = A; p -= B * s; comp("-= expr", p, [&](double x, double y) { return x - y * s; }); }
    { PD p = A; p += p; comp("+= self", p, [](double x, double) { return x + x; }); }
    { PD p = A; p -= p; comp("-= self", p, [](double x, double) { return x - x; }); }
    { PD p = A; p = p * B + p; comp("self expr", p, [](double x, double y) { return x * y + x; }); }
    // operands are never changed
    for (size_t k = 0; k < d; k++)
        VCHECK("expr:operand-changed", A[k] == va[k] && B[k] == vb[k] && C[k] == vc[k], "component ", k);
    VCHECK("expr:operand-changed", A.Y() == 3 && A.Id() == 7, "label or id of an operand changed");
    // equality and assignment over different sizes
    PD P = A;
    VCHECK("point:equality", P == A && !(P != A), "copy differs");
    size_t k = rng.below(d);
    P[k] = P[k] + 1 + std::fabs(P[k]);
    VCHECK("point:equality", P != A && !(P == A), "changed component ", k, " goes unnoticed");
    PD Q(rng.below(30));
    Q = A;
    VCHECK("point:assignment", Q == A, "assigned point differs: ", Q.size(), " vs ", A.size());
    // remainder, integers
    std::vector<int> ia, ib;
    for (size_t j = 0; j < d; j++) { ia.push_back((int)rng.i(-50, 50)); ib.push_back((int)rng.i(1, 9) * (rng.chance(.5) ? 1 : -1)); }
    mltk::Point<int> IA(ia), IB(ib);
    mltk::Point<int> r1 = IA + IB, r2 = IA * IB - IA, r3 = IA / IB, r4 = IA % n, r5 = 2 * IA + 1;
    for (size_t j = 0; j < d; j++) {
        VCHECK("expr:int", r1[j] == ia[j] + ib[j] && r2[j] == ia[j] * ib[j] - ia[j] && r3[j] == ia[j] / ib[j] && r4[j] == ia[j] % n && r5[j] == 2 * ia[j] + 1,
               "component ", j, " of ", ia[j], ",", ib[j], " n=", n, " gives ", r1[j], " ", r2[j], " ", r3[j], " ", r4[j], " ", r5[j]);
    }
    vh::nontrivial(vh::cat(d, kind, s, va[0], vb[0], vc[0]));
}

WORKLOAD(reductions, 3000, 200000) {
    size_t d = gen::wide(rng, (size_t)rng.i(1, 30), 0.03, 600);
    int kind = (int)rng.below(6);
    auto va = vec(rng, d, kind), vb = vec(rng, d, kind);
    int shift = rng.chance(0.3) ? (rng.chance(0.5) ? -1 : 1) : 0;    // all negative / all positive
    if (shift) for (auto &x : va) x = shift * (std::fabs(x) + 0.25);
    PD A(va), B(vb);
    LD sum = 0, dt = 0, n1 = 0, n2 = 0, n3 = 0, mag = 0, dmag = 0, mx = va[0], mn = va[0], inf = 0;
    for (size_t k = 0; k < d; k++) {
        sum += va[k]; mag += fabsl(va[k]); dt += (LD)va[k] * vb[k]; dmag += fabsl((LD)va[k] * vb[k]);
        n1 += fabsl(va[k]); n2 += (LD)va[k] * va[k]; n3 += powl(fabsl(va[k]), 3);
        mx = std::max<LD>(mx, va[k]); mn = std::min<LD>(mn, va[k]); inf = std::max<LD>(inf, fabsl(va[k]));
    }
    auto near = [](double got, LD want, LD scale) { return fabsl(got - want) <= 1e-12L * (scale + fabsl(want)) + 1e-300L; };
    VCHECK("reduce:sum", near(A.sum(), sum, mag), "sum ", A.sum(), " expected ", (double)sum);
    VCHECK("reduce:dot", near(mltk::dot(A, B), dt, dmag), "dot ", mltk::dot(A, B), " expected ", (double)dt);
    VCHECK("reduce:max", mltk::max(A) == (double)mx, "max ", mltk::max(A), " expected ", (double)mx, " of ", vh::show(va));
    VCHECK("reduce:min", mltk::min(A) == (double)mn, "min ", mltk::min(A), " expected ", (double)mn, " of ", vh::show(va));
    VCHECK("reduce:norm", near(A.norm(1), n1, n1), "L1 norm ", A.norm(1), " expected ", (double)n1);
    VCHECK("reduce:norm", near(A.norm(), sqrtl(n2), sqrtl(n2)), "L2 norm ", A.norm(), " expected ", (double)sqrtl(n2));
    VCHECK("reduce:norm", near(A.norm(3), cbrtl(n3), cbrtl(n3)), "L3 norm ", A.norm(3), " expected ", (double)cbrtl(n3));
    VCHECK("reduce:norm", near(A.norm(0), inf, inf), "Linf norm ", A.norm(0), " expected ", (double)inf);
    VCHECK("reduce:norm", near(mltk::norm(A, 2), sqrtl(n2), sqrtl(n2)), "free L2 norm");
    if (n2 > 0) {
        double q = rng.chance(0.5) ? 2 : 1;
        LD nn = q == 2 ? sqrtl(n2) : n1;
        PD N = mltk::normalize(A, q);
        for (size_t k = 0; k < d; k++) VCHECK("reduce:normalize", near(N[k], va[k] / nn, 0), "component ", k, " ", N[k], " expected ", (double)(va[k] / nn));
        VCHECK("reduce:normalize", A.X() == va, "normalize changed its argument");
        std::vector<double> vv = va;
        PD N2 = mltk::normalize(vv, q);
        for (size_t k = 0; k < d; k++) VCHECK("reduce:normalize", near(N2[k], va[k] / nn, 0) && vv[k] == N2[k], "in-place component ", k);
    }
    // linspace
    size_t N = (size_t)rng.i(2, 40);
    double lo = rng.d(-50, 50), hi = lo + rng.d(-20, 60);
    auto L = mltk::linspace(lo, hi, N);
    VCHECK("linspace:size", L.size() == N, L.size(), " values, expected ", N);
    for (size_t k = 0; k < N; k++)
        VCHECK("linspace:value", std::fabs(L[k] - (lo + (hi - lo) * k / (N - 1.0))) <= 1e-11 * (1 + std::fabs(lo) + std::fabs(hi)), "value ", k, " of linspace(", lo, ",", hi, ",", N, ") is ", L[k]);
    vh::count("reductions", 8);
    vh::nontrivial(vh::cat(d, kind, shift, va[0], vb[0], N));
}

WORKLOAD(statistics, 3000, 200000) {
    size_t n = gen::grow(rng, (size_t)rng.i(2, 40)), d = gen::wide(rng, (size_t)rng.i(1, 6));
    int kind = (int)rng.below(6);
    double off = rng.chance(0.3) ? rng.d(-1e3, 1e3) : 0;
    auto R = rows(rng, n, d, rng.chance(0.5) ? std::vector<int>{1, -1} : std::vector<int>{1, 2, 3}, kind);
    bool haspos = false, hasneg = false;
    for (auto &r : R) { for (auto &x : r.x) x += off; (r.y == 1 ? haspos : hasneg) = true; }
    DD D = data_of(R);
    std::vector<int> names;
    int nm = 0;
    for (size_t j = 0; j < d; j++) { nm += (int)rng.i(1, 3); names.push_back(nm); }
    D.setFeaturesNames(names);
    std::string before = digest(rows_of(D));
    std::vector<LD> mean(d, 0);
    LD scale = 1e-12L;
    for (auto &r : R) for (size_t j = 0; j < d; j++) { mean[j] += r.x[j]; scale = std::max(scale, fabsl(r.x[j])); }
    for (auto &m : mean) m /= n;
    LD s2 = scale * scale;
    auto near = [](double got, LD want, LD sc) { return fabsl(got - want) <= 1e-10L * sc + 1e-10L * fabsl(want); };
    std::vector<LD> ss(d, 0);
    for (auto &r : R) for (size_t j = 0; j < d; j++) ss[j] += (r.x[j] - mean[j]) * (r.x[j] - mean[j]);
    for (size_t j = 0; j < d; j++) {
        VCHECK("stats:mean", near(mltk::stats::mean(D, j), mean[j], scale), "mean of column ", j, " is ", mltk::stats::mean(D, j), " expected ", (double)mean[j]);
        double sd = mltk::stats::std_dev(D, j);
        VCHECK("stats:std_dev", fabsl((LD)sd * sd - ss[j] / (n - 1)) <= 1e-9L * s2 + 1e-9L * ss[j], "sample deviation of column ", j, " is ", sd, " expected ", (double)sqrtl(ss[j] / (n - 1)));
        PD col = D.getFeature((int)j);
        VCHECK("stats:mean", near(mltk::stats::mean(col), mean[j], scale), "mean of the column as a point");
        VCHECK("stats:var", fabsl(mltk::stats::var(col) - ss[j] / n) <= 1e-9L * s2 + 1e-9L * ss[j], "variance of the point is ", mltk::stats::var(col), " expected ", (double)(ss[j] / n));
        double psd = mltk::stats::std_dev(col);
        VCHECK("stats:std_dev", fabsl((LD)psd * psd - ss[j] / n) <= 1e-9L * s2 + 1e-9L * ss[j], "deviation of the point is ", psd, " expected ", (double)sqrtl(ss[j] / n));
        size_t o = rng.below(d);
        LD cv = 0;
        for (auto &r : R) cv += (r.x[j] - mean[j]) * (r.x[o] - mean[o]);
        double got = mltk::stats::covar(col, D.getFeature((int)o));
        VCHECK("stats:covar", fabsl(got - cv / (n - 1)) <= 1e-9L * s2, "covariance ", got, " expected ", (double)(cv / (n - 1)));
        VCHECK("stats:covar-symmetric", close(got, mltk::stats::covar(D.getFeature((int)o), col), 1e-12, (double)(1e-12L * s2)), "covariance depends on the order");
    }
    // spread, radius and distance of the centres, with and without one named feature
    int ignore = rng.chance(0.4) ? -1 : rng.pick(names);
    LD spread = 0, rad2 = 0, rad1 = 0, dc = 0;
    std::vector<LD> mp(d, 0), mn(d, 0);
    size_t np = 0, nn = 0;
    for (auto &r : R) {
        LD q = 0;
        (r.y == 1 ? np : nn)++;
        for (size_t j = 0; j < d; j++) {
            (r.y == 1 ? mp : mn)[j] += r.x[j];
            if (names[j] == ignore) continue;
            q += (r.x[j] - mean[j]) * (r.x[j] - mean[j]);
            rad1 = std::max(rad1, fabsl(r.x[j]));
        }
        spread += q;
        rad2 = std::max(rad2, sqrtl(q));
    }
    VCHECK("stats:spread", fabsl(mltk::stats::var(D, (size_t)(long long)ignore) - spread / n) <= 1e-9L * s2 * d, "mean squared distance to the centroid without ", ignore, " is ", mltk::stats::var(D, (size_t)(long long)ignore), " expected ", (double)(spread / n));
    VCHECK("stats:radius", near(mltk::stats::radius(D, ignore, 2.0), rad2, scale), "radius without ", ignore, " is ", mltk::stats::radius(D, ignore, 2.0), " expected ", (double)rad2);
    VCHECK("stats:radius", near(mltk::stats::radius(D, ignore, 1.0), rad1, scale), "L1 radius without ", ignore, " is ", mltk::stats::radius(D, ignore, 1.0), " expected ", (double)rad1);
    if (haspos && hasneg) {
        for (size_t j = 0; j < d; j++) if (names[j] != ignore) dc += (mp[j] / np - mn[j] / nn) * (mp[j] / np - mn[j] / nn);
        VCHECK("stats:centers", near(mltk::stats::distCenters(D, ignore), sqrtl(dc), scale), "distance of the centres without ", ignore, " is ", mltk::stats::distCenters(D, ignore), " expected ", (double)sqrtl(dc));
        vh::count("centre distances");
    }
    VCHECK("stats:modified", digest(rows_of(D)) == before, "computing statistics changed the dataset");
    vh::count("statistics", 5 * d + 3);
    vh::nontrivial(vh::cat(n, d, kind, ignore, before));
}

// ---- distance measures -------------------------------------------------------------------------
struct Metric {
    const char *name;
    bool symmetric, positive_only, zero_on_self, triangle;
    std::function<double(const PD &, const PD &)> lib;
    std::function<LD(const std::vector<double> &, const std::vector<double> &)> ref;
};
template <class F> static std::function<LD(const std::vector<double> &, const std::vector<double> &)> sum(F f) {
    return [f](const std::vector<double> &a, const std::vector<double> &b) { LD s = 0; for (size_t k = 0; k < a.size(); k++) s += f((LD)a[k], (LD)b[k]); return s; };
}
template <class M> static std::function<double(const PD &, const PD &)> lib() {
    return [](const PD &a, const PD &b) { M m; return (double)m(a, b); };
}
static LD sq(LD x) { return x * x; }
static const std::vector<Metric> &metrics() {
    using namespace mltk::metrics::dist;
    typedef const std::vector<double> &V;
    auto E2 = sum([](LD a, LD b) { return sq(a - b); });
    auto L1 = sum([](LD a, LD b) { return fabsl(a - b); });
    auto AB = sum([](LD a, LD b) { return a * b; });
    auto A2 = sum([](LD a, LD) { return a * a; });
    auto B2 = sum([](LD, LD b) { return b * b; });
    auto MX = [](V a, V b) { LD m = 0; for (size_t k = 0; k < a.size(); k++) m = std::max(m, fabsl((LD)a[k] - b[k])); return m; };
    auto H2 = sum([](LD a, LD b) { return sq(sqrtl(a) - sqrtl(b)); });
    auto NY = sum([](LD a, LD b) { return sq(a - b) / a; });
    auto PE = sum([](LD a, LD b) { return sq(a - b) / b; });
    auto KD = sum([](LD a, LD b) { return a * logl(2 * a / (a + b)); });
    auto KR = sum([](LD a, LD b) { return b * logl(2 * b / (a + b)); });
    static const std::vector<Metric> m = {
        {"Euclidean", true, false, true, true, lib<Euclidean<double>>(), [=](V a, V b) { return sqrtl(E2(a, b)); }},
        {"Manhattan", true, false, true, true, lib<Manhattan<double>>(), L1},
        {"Chebyshev", true, false, true, true, lib<Chebyshev<double>>(), MX},
        {"Lorentzian", true, false, true, true, lib<Lorentzian<double>>(), sum([](LD a, LD b) { return logl(1 + fabsl(a - b)); })},
        {"Canberra", true, true, true, false, lib<Canberra<double>>(), sum([](LD a, LD b) { return fabsl(a - b) / (fabsl(a) + fabsl(b)); })},
        {"Sorensen", true, true, true, false, lib<Sorensen<double>>(), [=](V a, V b) { return L1(a, b) / sum([](LD x, LD y) { return x + y; })(a, b); }},
        {"AvgManhattan", true, false, true, true, lib<AvgManhattan<double>>(), [=](V a, V b) { return L1(a, b) / a.size(); }},
        {"NonIntersection", true, false, true, true, lib<NonIntersection<double>>(), [=](V a, V b) { return L1(a, b) / 2; }},
        {"Jaccard", true, true, true, false, lib<Jaccard<double>>(), [=](V a, V b) { return E2(a, b) / (A2(a, b) + B2(a, b) - AB(a, b)); }},
        {"Cosine", true, true, true, false, lib<Cosine<double>>(), [=](V a, V b) { return 1 - AB(a, b) / (sqrtl(A2(a, b)) * sqrtl(B2(a, b))); }},
        {"Dice", true, true, true, false, lib<Dice<double>>(), [=](V a, V b) { return 1 - 2 * AB(a, b) / (A2(a, b) + B2(a, b)); }},
        {"Bhattacharyya", true, true, false, false, lib<Bhattacharyya<double>>(), [=](V a, V b) { return -logl(sum([](LD x, LD y) { return sqrtl(x * y); })(a, b)); }},
        {"SquaredChord", true, true, true, false, lib<SquaredChord<double>>(), H2},
        {"Matusita", true, true, true, true, lib<Matusita<double>>(), [=](V a, V b) { return sqrtl(H2(a, b)); }},
        {"Hellinger", true, true, true, true, lib<Hellinger<double>>(), [=](V a, V b) { return sqrtl(2 * H2(a, b)); }},
        {"SquaredEuclidean", true, false, true, false, lib<SquaredEuclidean<double>>(), E2},
        {"Clark", true, true, true, false, lib<Clark<double>>(), [=](V a, V b) { return sqrtl(sum([](LD x, LD y) { return sq(fabsl(x - y) / (fabsl(x) + fabsl(y))); })(a, b)); }},
        {"Neyman", false, true, true, false, lib<Neyman<double>>(), NY},
        {"Pearson", false, true, true, false, lib<Pearson<double>>(), PE},
        {"Squared", true, true, true, false, lib<Squared<double>>(), sum([](LD a, LD b) { return sq(a - b) / (a + b); })},
        {"ProbabilisticSymmetric", true, true, true, false, lib<ProbabilisticSymmetric<double>>(), sum([](LD a, LD b) { return 2 * sq(a - b) / (a + b); })},
        {"Divergence", true, true, true, false, lib<Divergence<double>>(), sum([](LD a, LD b) { return 2 * sq(a - b) / sq(a + b); })},
        {"AdditiveSymmetric", true, true, true, false, lib<AdditiveSymmetric<double>>(), sum([](LD a, LD b) { return 2 * sq(a - b) * (a + b) / (a * b); })},
        {"Average", true, false, true, true, lib<Average<double>>(), [=](V a, V b) { return sqrtl(E2(a, b) / a.size()); }},
        {"SquaredChiSquared", true, true, true, false, lib<SquaredChiSquared<double>>(), sum([](LD a, LD b) { return sq(a - b) / fabsl(a + b); })},
        {"KullbackLeibler", false, true, true, false, lib<KullbackLeibler<double>>(), sum([](LD a, LD b) { return a * logl(a / b); })},
        {"Jeffreys", true, true, true, false, lib<Jeffreys<double>>(), sum([](LD a, LD b) { return (a - b) * logl(a / b); })},
        {"KDivergence", false, true, true, false, lib<KDivergence<double>>(), KD},
        {"Topsoe", true, true, true, false, lib<Topsoe<double>>(), [=](V a, V b) { return KD(a, b) + KR(a, b); }},
        {"JensenShannon", true, true, true, false, lib<JensenShannon<double>>(), [=](V a, V b) { return (KD(a, b) + KR(a, b)) / 2; }},
        {"JensenDifference", true, true, true, false, lib<JensenDifference<double>>(), sum([](LD a, LD b) { return ((a * logl(a) + b * logl(b)) / 2 - (a + b) / 2 * logl((a + b) / 2)) / 2; })},
        {"MaxSymmetric", true, true, true, false, lib<MaxSymmetric<double>>(), [=](V a, V b) { return std::max(NY(a, b), PE(a, b)); }},
        {"MinSymmetric", true, true, true, false, lib<MinSymmetric<double>>(), [=](V a, V b) { return std::min(NY(a, b), PE(a, b)); }},
        {"AverageL1Linf", true, false, true, true, lib<AverageL1Linf<double>>(), [=](V a, V b) { return (L1(a, b) + MX(a, b)) / 2; }},
        {"Taneja", true, true, true, false, lib<Taneja<double>>(), sum([](LD a, LD b) { return (a + b) / 2 * logl((a + b) / (2 * sqrtl(a * b))); })},
        {"Hassanat", true, false, true, true, lib<Hassanat<double>>(), sum([](LD a, LD b) { LD lo = std::min(a, b), hi = std::max(a, b); return lo >= 0 ? 1 - (1 + lo) / (1 + hi) : 1 - 1 / (1 + hi - lo); })},
    };
    return m;
}
WORKLOAD(distances, 2500, 150000) {
    size_t d = gen::wide(rng, (size_t)rng.i(1, 12), 0.02, 300);
    bool pos = rng.chance(0.6);
    int kind = (int)rng.below(6);
    auto va = pos ? positive(rng, d) : vec(rng, d, kind), vb = pos ? positive(rng, d) : vec(rng, d, kind), vc = pos ? positive(rng, d) : vec(rng, d, kind);
    for (size_t k = 0; k < d; k++) if (rng.chance(0.15)) vb[k] = va[k];
    PD A(va), B(vb), C(vc);
    for (auto &m : metrics()) {
        if (m.positive_only && !pos) continue;
        double ab = m.lib(A, B), ba = m.lib(B, A);
        LD want = m.ref(va, vb);
        double scale = 1;
        for (size_t k = 0; k < d; k++) scale += std::fabs(va[k]) + std::fabs(vb[k]);
        // square roots of cancelling sums lose half the digits near zero
        VCHECK(std::string("metric:") + m.name, fabsl(ab - want) <= 1e-9L * fabsl(want) + 2e-8L * scale * (fabsl(want) < 1e-6 ? 1 : 1e-4L),
               m.name, " of ", vh::show(va), " and ", vh::show(vb), " is ", ab, ", by definition ", (double)want);
        if (m.symmetric) VCHECK(std::string("metric-symmetry:") + m.name, std::fabs(ab - ba) <= 1e-9 * std::fabs(ab) + 1e-9, m.name, " is ", ab, " one way and ", ba, " the other");
        if (m.zero_on_self) {
            double aa = m.lib(A, A);
            VCHECK(std::string("metric-self:") + m.name, std::fabs(aa) <= 1e-7, m.name, " of a point and itself is ", aa);
        }
        if (m.triangle) {
            double ac = m.lib(A, C), cb = m.lib(C, B);
            VCHECK(std::string("metric-triangle:") + m.name, ab <= (ac + cb) * (1 + 1e-9) + 1e-9, m.name, ": ", ab, " > ", ac, " + ", cb);
        }
        vh::count("distances");
    }
    VCHECK("metric:operand-changed", A.X() == va && B.X() == vb, "a distance changed its arguments");
    vh::nontrivial(vh::cat(d, pos, va[0], vb[0]));
}

// ---- kernels -----------------------------------------------------------------------------------
static LD kref(int type, double param, const std::vector<double> &a, const std::vector<double> &b, int skip = -1) {
    LD s = 0;
    for (size_t k = 0; k < a.size(); k++) {
        if ((int)k == skip) continue;
        s += type == mltk::GAUSSIAN ? sq((LD)a[k] - b[k]) : (LD)a[k] * b[k];
    }
    if (type == mltk::GAUSSIAN) return expl(-param * s);
    if (type == mltk::POLYNOMIAL && param > 1) return powl(s, param);
    return s;
}
WORKLOAD(kernels, 1500, 80000) {
    size_t n = gen::grow(rng, (size_t)rng.i(1, 14), 0.01, 130), d = gen::wide(rng, (size_t)rng.i(1, 6));
    auto R = rows(rng, n, d, {1, -1}, rng.chance(0.5) ? 1 : 0, 0);
    for (auto &r : R) r.alpha = rng.chance(0.4) ? 0 : rng.d(0, 3);
    auto D = std::make_shared<DD>(data_of(R));
    int type = (int)rng.below(3);
    double param = type == mltk::POLYNOMIAL ? (double)rng.i(1, 4) : type == mltk::GAUSSIAN ? rng.d(0.01, 2) : 0;
    mltk::Kernel<double> K(type, param);
    bool reused = rng.chance(0.5);
    if (reused) {       // the object was used before, on other samples or another kernel
        auto R2 = rows(rng, (size_t)rng.i(1, 14), d, {1, -1}, 1, 0);
        auto D2 = std::make_shared<DD>(data_of(R2));
        mltk::Kernel<double> K2((int)rng.below(3), 1.5);
        K = K2;
        if (rng.chance(0.5)) K(*D2); else K.compute(D2);
        K.generateMatrixH(D2);
        if (rng.chance(0.5)) K.generateMatrixHwithoutDim(D2, 0);
        K.setType(type);
        K.setParam(param);
        if (rng.chance(0.5)) K(*D2);
        K.recompute();
        vh::count("reused kernels");
    }
    bool switched = rng.chance(0.4);
    if (switched) {     // the same samples under another kernel: naming a new type or parameter is enough
        bool other_type = rng.chance(0.5);
        if (other_type) { K.setType((type + 1 + (int)rng.below(2)) % 3); if (rng.chance(0.5)) K.setParam(rng.chance(0.3) ? 0 : (double)rng.i(1, 3)); }
        else K.setParam(param + (double)rng.i(1, 3));
        K.recompute();
        K.compute(D);
        if (type == mltk::GAUSSIAN && rng.chance(0.3)) param = 0;
        if (other_type && rng.chance(0.5)) { K.setParam(param); K.setType(type); }
        else if (other_type) { K.setType(type); if (type != mltk::INNER_PRODUCT) K.setParam(param); }
        else K.setParam(param);
        vh::count("switched kernels");
    }
    bool call = !switched && rng.chance(0.5);
    if (call) K(*D); else K.compute(D);
    auto near = [](double got, LD want) { return fabsl(got - want) <= 1e-9L * fabsl(want) + 1e-9L; };
    auto M = K.getKernelMatrix();
    VCHECK("kernel:size", K.size() == n && M.size() == n, "matrix of ", M.size(), " rows for ", n, " samples");
    for (size_t i = 0; i < n; i++) {
        VCHECK("kernel:size", M[i].size() == n && K[i] == M[i], "row ", i, " has ", M[i].size(), " entries");
        for (size_t j = 0; j < n; j++) {
            VCHECK("kernel:value", near(M[i][j], kref(type, param, R[i].x, R[j].x)), "K[", i, "][", j, "] = ", M[i][j], " expected ", (double)kref(type, param, R[i].x, R[j].x), " type ", type, " param ", param);
            VCHECK("kernel:symmetric", M[i][j] == M[j][i], "K[", i, "][", j, "] differs from its transpose");
            if (type == mltk::GAUSSIAN) VCHECK("kernel:gaussian-range", M[i][j] >= 0 && M[i][j] <= 1 && (i != j || M[i][i] == 1), "gaussian value ", M[i][j]);
        }
    }
    size_t i = rng.below(n), j = rng.below(n);
    VCHECK("kernel:function", K(point_of(R[i]), point_of(R[j])) == M[i][j], "the kernel of two points differs from the matrix");
    // the H matrices and norms used by the dual learners
    auto H = *K.generateMatrixH(D);
    int skip = (int)rng.below(d);
    auto Hk = *K.generateMatrixHwithoutDim(D, skip);
    VCHECK("kernel:H-size", H.size() == n && Hk.size() == n, "H of ", H.size(), "/", Hk.size(), " rows for ", n, " samples");
    LD nrm = 0;
    for (size_t a = 0; a < n; a++) {
        VCHECK("kernel:H-size", H[a].size() == n && Hk[a].size() == n, "H row ", a, " of ", H[a].size(), "/", Hk[a].size());
        for (size_t b = 0; b < n; b++) {
            VCHECK("kernel:H", near(H[a][b], kref(type, param, R[a].x, R[b].x) * R[a].y * R[b].y), "H[", a, "][", b, "] = ", H[a][b]);
            VCHECK("kernel:H-without", near(Hk[a][b], kref(type, param, R[a].x, R[b].x, skip) * R[a].y * R[b].y), "H without dimension ", skip, " [", a, "][", b, "] = ", Hk[a][b], " expected ", (double)(kref(type, param, R[a].x, R[b].x, skip) * R[a].y * R[b].y));
            nrm += R[a].alpha * R[b].alpha * R[a].y * R[b].y * (LD)M[a][b];
        }
    }
    if (type != mltk::POLYNOMIAL && nrm > 1e-6) {
        VCHECK("kernel:norm", fabsl(K.featureSpaceNorm(D) - sqrtl(nrm)) <= 1e-6L * (1 + sqrtl(nrm)), "feature space norm ", K.featureSpaceNorm(D), " expected ", (double)sqrtl(nrm));
        VCHECK("kernel:norm", fabsl(K.norm(*D) - sqrtl(nrm)) <= 1e-6L * (1 + sqrtl(nrm)), "norm ", K.norm(*D), " expected ", (double)sqrtl(nrm));
        vh::count("kernel norms");
    }
    check_rows("kernel:modified", *D, R, "after kernel computations");
    // a user-supplied kernel
    mltk::Kernel<double> U(mltk::CUSTOM, 2.5);
    U(*D, [](PD &a, PD &b, double p) { double s = 0; for (size_t k = 0; k < a.size(); k++) s += a[k] * b[k]; return p + s * s; });
    VCHECK("kernel:custom", near(U.getKernelMatrix()[i][j], 2.5L + sq(kref(0, 0, R[i].x, R[j].x))), "custom kernel value ", U.getKernelMatrix()[i][j]);
    VCHECK("kernel:custom", near(U(point_of(R[i]), point_of(R[j])), 2.5L + sq(kref(0, 0, R[i].x, R[j].x))), "custom kernel of two points");
    vh::count("kernel entries", n * n * 3);
    vh::nontrivial(vh::cat(n, d, type, param, reused, digest(R)));
}

// ---- numbers and text --------------------------------------------------------------------------
static bool ref_number(const std::string &s) {
    size_t k = 0, dig = 0;
    if (k < s.size() && (s[k] == '+' || s[k] == '-')) k++;
    while (k < s.size() && isdigit((unsigned char)s[k])) { k++; dig++; }
    if (k < s.size() && s[k] == '.') { k++; while (k < s.size() && isdigit((unsigned char)s[k])) { k++; dig++; } }
    if (!dig) return false;
    if (k < s.size() && (s[k] == 'e' || s[k] == 'E')) {
        k++;
        if (k < s.size() && (s[k] == '+' || s[k] == '-')) k++;
        size_t e = 0;
        while (k < s.size() && isdigit((unsigned char)s[k])) { k++; e++; }
        if (!e) return false;
    }
    return k == s.size();
}
WORKLOAD(conversions, 20000, 2000000) {
    using namespace mltk::utils;
    // integers
    static const int special[] = {0, 1, -1, 9, 10, -10, 99, 100, INT_MAX, INT_MIN, INT_MIN + 1, INT_MAX - 1};
    int v = rng.chance(0.2) ? special[rng.below(12)] : (int)(rng.i(INT_MIN, INT_MAX) >> rng.below(31));
    VCHECK("text:itos", itos(v) == std::to_string(v), "itos(", v, ") = ", itos(v));
    VCHECK("text:stoin", stoin(std::to_string(v)) == v, "stoin of ", v, " = ", stoin(std::to_string(v)));
    VCHECK("text:stoin", stoin(std::string(rng.below(4), '0') + std::to_string(v < 0 ? 0 : v)) == (v < 0 ? 0 : v), "stoin with leading zeros of ", v);
    // reals: any magnitude, and neighbours of k*10^m
    double x;
    switch (rng.below(5)) {
        case 0: x = rng.gauss() * std::pow(10.0, (double)rng.i(-12, 20)); break;
        case 1: x = (double)rng.i(1, 999) * std::pow(10.0, (double)rng.i(-14, 16)); break;
        case 2: x = std::nextafter((double)rng.i(1, 9) * std::pow(10.0, (double)rng.i(-8, 15)), rng.chance(0.5) ? 0.0 : 1e300); break;
        case 3: x = rng.decimal(6, -9, 12); break;
        default: x = (double)rng.i(-1000000, 1000000); break;
    }
    if (rng.chance(0.3)) x = -x;
    std::string t = dtoa(x);
    VCHECK("text:dtoa-form", ref_number(t), "dtoa(", x, ") = ", t);
    double back = strtod(t.c_str(), nullptr);
    VCHECK("text:dtoa", std::fabs(back - x) <= 2e-9 * std::fabs(x) + (std::fabs(x) < 1e-9 ? 0 : 2e-9), "dtoa(", x, ") = ", t);
    // parsing: what is written is what is read, however it is spelled
    char buf[80];
    static const char *fmt[] = {"%.17g", "%.17e", "%.17E", "%+.17g", "%.20f"};
    double y = rng.chance(0.5) ? x : rng.gauss() * std::pow(10.0, (double)rng.i(-300, 300));
    int f = (int)rng.below(std::fabs(y) < 1e15 ? 5 : 4);
    snprintf(buf, sizeof buf, fmt[f], y);
    VCHECK("text:is_number", is_number(buf), "is_number(", buf, ") is false");
    VCHECK("text:atod", atod(buf) == strtod(buf, nullptr), "atod(", buf, ") = ", atod(buf));
    // arbitrary short strings over the alphabet of numbers
    std::string s;
    static const char al[] = "0123456789..--++eE ax";
    for (size_t k = rng.below(9); k > 0; k--) s += al[rng.below(rng.chance(0.15) ? 21 : 18)];
    VCHECK("text:is_number", is_number(s) == ref_number(s), "is_number(\"", s, "\") is ", is_number(s));
    if (ref_number(s)) vh::count("valid numbers drawn"); else vh::count("invalid numbers drawn");
    // tokens and trimming
    std::string line;
    std::vector<std::string> toks;
    bool open = false;
    for (size_t k = rng.below(14); k > 0; k--) {
        char c = "ab1, ;\t,,"[rng.below(9)];
        line += c;
        if (c == ',') open = false;
        else { if (!open) toks.emplace_back(); open = true; toks.back() += c; }
    }
    VCHECK("text:tokenize", tokenize(line, ',') == toks, "tokenize(\"", line, "\") = ", vh::show(tokenize(line, ',')));
    std::string core;
    for (size_t k = rng.below(5); k > 0; k--) core += "ab c"[rng.below(4)];
    while (!core.empty() && core.front() == ' ') core.erase(core.begin());
    while (!core.empty() && core.back() == ' ') core.pop_back();
    auto ws = [&]() { std::string w; for (size_t k = rng.below(4); k > 0; k--) w += " \t\n\r"[rng.below(4)]; return w; };
    std::string l = ws(), r = ws();
    VCHECK("text:trim", trim_copy(l + core + r) == core, "trim of \"", l + core + r, "\"");
    if (!core.empty()) VCHECK("text:trim", ltrim_copy(l + core + r) == core + r && rtrim_copy(l + core + r) == l + core, "one-sided trim of \"", l + core + r, "\"");
    vh::count("conversions", 8);
    vh::nontrivial(vh::cat(v, x, s, line));
}
VH_MAIN
