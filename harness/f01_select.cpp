// F01/F02: feature selection drops the features its ranking names, keeps every other column and leaves the caller's data alone.
#include "vh.hpp"
#include "gen.hpp"
#include "ufjfmltk/classifier/PrimalClassifier.hpp"
#include "ufjfmltk/classifier/DualClassifier.hpp"
#include "ufjfmltk/classifier/Perceptron.hpp"
#include "ufjfmltk/classifier/IMA.hpp"
#include "ufjfmltk/FeatureSelection.hpp"
using namespace gen;
using namespace mltk::classifier;
namespace fs = mltk::featselect;
namespace {
struct Model { std::vector<int> names; Rows rows; };
// what a subset of the columns of m looks like
Rows columns(const Model &m, const std::vector<int> &names) {
    Rows out = m.rows;
    for (auto &r : out) {
        std::vector<double> x;
        for (size_t j = 0; j < m.names.size(); j++) if (std::find(names.begin(), names.end(), m.names[j]) != names.end()) x.push_back(r.x[j]);
        r.x = x;
    }
    return out;
}
struct Step { std::vector<int> names; Rows rows; size_t dim; bool ok; };
std::vector<Step> LOG;
std::map<int, double> WEIGHT;      // what the stand-in answers for a feature, by name
std::set<size_t> FAIL;             // the trainings that fail
// a stand-in classifier: its weights are those of the features it is given
template <class Base> struct Weigher : public Base {
    bool train() override {
        Step s;
        s.names = this->samples->getFeaturesNames();
        s.rows = rows_of(*this->samples);
        s.dim = this->samples->dim();
        s.ok = !FAIL.count(LOG.size());
        if (s.ok) {
            std::vector<double> w;
            for (int f : s.names) w.push_back(WEIGHT.at(f));
            this->solution.w = w;
            this->solution.margin = 1.0 / (double)(1 + LOG.size());
            this->solution.svs = 2;
        }
        LOG.push_back(s);
        VCHECK("select:endless", LOG.size() < 3000, "still training after ", LOG.size(), " subsets");
        return s.ok;
    }
    double evaluate(const mltk::Point<double> &, bool = false) override { return 1; }
};
struct WPrimal : public Weigher<PrimalClassifier<double>> { };
struct WDual : public Weigher<DualClassifier<double>> { };
Model source(vh::Rng &rng, size_t dmin = 2, size_t dmax = 9, int kinds = 5) {
    Model m;
    size_t d = (size_t)rng.i((long long)dmin, (long long)dmax), n = gen::grow(rng, (size_t)rng.i(6, 30), 0.015, 300);
    m.rows = gen::rows(rng, n, d, {-1, 1}, (int)rng.below((uint64_t)kinds), 2);
    int nm = rng.chance(0.25) ? -1 : 0;
    bool gaps = rng.chance(0.5);
    for (size_t j = 0; j < d; j++) { nm += 1 + (gaps ? (int)rng.below(4) : 0); m.names.push_back(nm); }
    if (rng.chance(0.3)) rng.shuffle(m.names);
    for (size_t j = 0; j < d; j++) {           // features of different worth
        double s = rng.d(0, 3);
        if (rng.chance(0.7)) for (auto &r : m.rows) r.x[j] += r.y * s;
        double flat = rng.chance(0.5) ? rng.d(-3, 3) : rng.d(-1e4, 1e4);
        if (rng.chance(0.15)) for (auto &r : m.rows) r.x[j] = flat;                                // says nothing
        else if (rng.chance(0.05)) for (auto &r : m.rows) r.x[j] = r.y * (1 + s);                   // says everything
    }
    return m;
}
DD make(const Model &m) { DD d = data_of(m.rows); d.setFeaturesNames(m.names); return d; }
void intact(const std::string &who, const DD &d, const Model &m) {
    VCHECK("select:source", d.getFeaturesNames() == m.names && d.dim() == m.names.size(), who, " changed the names of the caller's data to ", vh::show(d.getFeaturesNames()), " from ", vh::show(m.names));
    check_rows("select:source", d, m.rows, "the caller's data after " + who);
}
// the answer is a subset of the features, with their columns, points, labels and ids unchanged
void subset_of(const std::string &who, const DD &r, const Model &m) {
    auto nm = r.getFeaturesNames();
    VCHECK("select:names", r.dim() == nm.size() && std::set<int>(nm.begin(), nm.end()).size() == nm.size(), who, " returned dim ", r.dim(), " with names ", vh::show(nm));
    for (int f : nm) VCHECK("select:names", std::find(m.names.begin(), m.names.end(), f) != m.names.end(), who, " returned feature ", f, ", not one of ", vh::show(m.names));
    std::vector<int> order;
    for (int f : m.names) if (std::find(nm.begin(), nm.end(), f) != nm.end()) order.push_back(f);
    VCHECK("select:names", order == nm, who, " returned the features in the order ", vh::show(nm), " of ", vh::show(m.names));
    check_rows("select:columns", r, columns(m, nm), who);
    check_consistent(r, who);
    vh::count("selections");
}
// each training saw exactly the columns its feature names say
void trainings(const std::string &who, const Model &m) {
    for (auto &s : LOG) {
        VCHECK("select:training", s.rows == columns(m, s.names) && s.dim == s.names.size(), who, " trained on columns that do not belong to the features ", vh::show(s.names));
        vh::count("trainings watched");
    }
}
struct Stat { double dif, sp, sn; };
std::map<int, Stat> stats(const Model &m) {
    std::map<int, Stat> out;
    for (size_t j = 0; j < m.names.size(); j++) {
        long double a[2] = {0, 0}, v[2] = {0, 0}; size_t n[2] = {0, 0};
        for (auto &r : m.rows) { int c = r.y > 0; a[c] += r.x[j]; n[c]++; }
        for (int c : {0, 1}) a[c] /= (long double)n[c];
        for (auto &r : m.rows) { int c = r.y > 0; v[c] += (r.x[j] - a[c]) * (r.x[j] - a[c]); }
        for (int c : {0, 1}) v[c] = std::sqrt(v[c] / (long double)(n[c] - 1));
        bool flat[2] = {true, true};
        double first[2] = {NAN, NAN};
        for (auto &r : m.rows) { int c = r.y > 0; if (std::isnan(first[c])) first[c] = r.x[j]; flat[c] = flat[c] && r.x[j] == first[c]; }
        out[m.names[j]] = {flat[0] && flat[1] ? std::fabs(first[1] - first[0]) : (double)std::fabs(a[1] - a[0]), flat[1] ? 0.0 : (double)v[1], flat[0] ? 0.0 : (double)v[0]};
    }
    return out;
}
double golub_score(const Stat &s) { return s.dif == 0 ? 0 : s.dif / (s.sp + s.sn); }
}  // namespace

// filters: the score of each feature is computed from the data, the weakest go first, one by one
WORKLOAD(filters, 6000, 100000) {
    Model m = source(rng);
    size_t d = m.names.size(), keep = (size_t)rng.i(1, (long long)d - 1);
    bool golub = rng.chance(0.6);
    std::string who = golub ? "Golub" : "Fisher";
    LOG.clear(); FAIL.clear(); WEIGHT.clear();
    for (int f : m.names) WEIGHT[f] = rng.d(-1, 1);
    size_t fail_at = 0;
    if (rng.chance(0.3)) { fail_at = 1 + rng.below(d - keep); FAIL.insert(fail_at); }
    if (rng.chance(0.15)) FAIL.insert(0);
    WPrimal wp; WDual wd;
    mltk::classifier::Classifier<double> *clf = rng.chance(0.5) ? (mltk::classifier::Classifier<double> *)&wp : &wd;
    DD src = make(m);
    DD r;
    if (golub) { fs::Golub<double> g(src, clf, (int)keep); r = g.selectFeatures(); }
    else { fs::Fisher<double> g(src, clf, (int)keep); r = g.selectFeatures(); }
    intact(who, src, m);
    subset_of(who, r, m);
    trainings(who, m);
    auto nm = r.getFeaturesNames();
    size_t want = fail_at ? d - fail_at + 1 : keep;
    VCHECK("select:dim", nm.size() == want, who, " kept ", nm.size(), " of ", d, " features, asked for ", keep, fail_at ? vh::cat(", training ", fail_at, " failed") : "");
    // the features leave one at a time
    VCHECK("select:steps", LOG.size() == (fail_at ? fail_at + 1 : d - keep + 1), who, " trained ", LOG.size(), " times to go from ", d, " to ", want);
    for (size_t s = 0; s < LOG.size(); s++) VCHECK("select:steps", LOG[s].names.size() == d - s, who, ": training ", s, " had ", LOG[s].names.size(), " features");
    if (!fail_at) VCHECK("select:steps", LOG.back().names == nm, who, " returned ", vh::show(nm), ", last trained on ", vh::show(LOG.back().names));
    if (fail_at && fail_at > 0) { VCHECK("select:partial", LOG[fail_at - 1].names == nm, who, " returned ", vh::show(nm), ", the last subset that trained is ", vh::show(LOG[fail_at - 1].names)); vh::count("failed trainings recovered"); }
    auto st = stats(m);
    // order of removal, across all trainings
    std::vector<int> gone;
    for (size_t s = 1; s < LOG.size(); s++) for (int f : LOG[s - 1].names) if (std::find(LOG[s].names.begin(), LOG[s].names.end(), f) == LOG[s].names.end()) gone.push_back(f);
    for (size_t s = 0; s < gone.size(); s++) for (int f : LOG[s + 1].names) {
        auto &a = st[gone[s]], &b = st[f];
        if (golub) {
            double x = golub_score(a), y = golub_score(b);
            VCHECK("select:golub-order", x <= y || (std::isfinite(x) && x <= y * (1 + 1e-9) + 1e-9), "Golub dropped feature ", gone[s], " with score ", x, " and kept feature ", f, " with score ", y);
        } else
            VCHECK("select:fisher-order", !(a.dif > b.dif * (1 + 1e-9) + 1e-9 && a.sp <= b.sp && a.sn <= b.sn && b.sp + b.sn > 1e-6), "Fisher dropped feature ", gone[s], " (distance ", a.dif, ", deviations ", a.sp, " ", a.sn, ") and kept feature ", f, " (", b.dif, ", ", b.sp, " ", b.sn, ")");
        vh::count("rankings compared");
    }
    vh::nontrivial(vh::cat(golub, keep, fail_at, vh::show(m.names), digest(m.rows)));
    vh::sample(vh::cat(who, " ", d, " -> ", nm.size(), " ", vh::show(nm)));
}

// recursive elimination: every level drops the `jump` features of smallest |w| as trained at that level
WORKLOAD(elimination, 6000, 100000) {
    Model m = source(rng);
    size_t d = m.names.size(), keep = (size_t)rng.i(1, (long long)d - 1);
    int jump = (int)rng.i(1, 3);
    LOG.clear(); FAIL.clear(); WEIGHT.clear();
    double scale = std::pow(10.0, (double)rng.i(-3, 3));
    int style = (int)rng.below(4);
    for (int f : m.names) {
        double w = rng.d(-1, 1) * scale;
        if (style == 1) w = (double)rng.i(-2, 2) * scale;           // ties and zeros
        if (style == 2) w = std::fabs(w);
        WEIGHT[f] = w;
    }
    size_t levels = (d - keep + (size_t)jump - 1) / (size_t)jump, fail_at = 0;
    if (rng.chance(0.3)) { fail_at = 1 + rng.below(levels); FAIL.insert(fail_at); }
    WPrimal wp; WDual wd;
    bool primal = rng.chance(0.5);
    mltk::classifier::Classifier<double> *clf = primal ? (mltk::classifier::Classifier<double> *)&wp : &wd;
    DD src = make(m);
    fs::RFE<double> rfe(src, clf, (int)keep, nullptr, 1, jump);
    int runs = rng.chance(0.3) ? 2 : 1;
    for (int run = 0; run < runs; run++) {
        LOG.clear();
        if (run) { FAIL.clear(); fail_at = 0; vh::count("selections repeated"); }
        DD r = rfe.selectFeatures();
        intact("RFE", src, m);
        subset_of("RFE", r, m);
        trainings("RFE", m);
        auto nm = r.getFeaturesNames();
        VCHECK("select:steps", LOG.size() == (fail_at ? fail_at + 1 : levels + 1), "RFE trained ", LOG.size(), " times to go from ", d, " to ", keep, " by ", jump, fail_at ? vh::cat(", training ", fail_at, " failed") : "");
        for (size_t s = 0; s < LOG.size(); s++) VCHECK("select:steps", LOG[s].names.size() == std::max(keep, d - std::min(d, s * (size_t)jump)), "RFE: training ", s, " had ", LOG[s].names.size(), " of ", d, " features, dropping ", jump, " down to ", keep);
        if (fail_at) { VCHECK("select:partial", nm == LOG[fail_at - 1].names, "RFE returned ", vh::show(nm), ", the last subset that trained is ", vh::show(LOG[fail_at - 1].names)); vh::count("failed trainings recovered"); }
        else VCHECK("select:dim", nm == LOG.back().names && nm.size() == keep, "RFE returned ", vh::show(nm), ", asked for ", keep, " features, last trained on ", vh::show(LOG.back().names));
        for (size_t s = 1; s < LOG.size(); s++) {
            double worst = -1, best = INFINITY;
            int wf = 0, bf = 0;
            for (int f : LOG[s - 1].names) {
                double w = std::fabs(WEIGHT[f]);
                if (std::find(LOG[s].names.begin(), LOG[s].names.end(), f) == LOG[s].names.end()) { if (w > worst) { worst = w; wf = f; } }
                else if (w < best) { best = w; bf = f; }
            }
            VCHECK("select:rfe-order", worst <= best, "RFE dropped feature ", wf, " of weight ", worst, " and kept feature ", bf, " of weight ", best);
            vh::count("rankings compared");
        }
    }
    vh::nontrivial(vh::cat(keep, jump, fail_at, primal, style, vh::show(m.names), digest(m.rows)));
    vh::sample(vh::cat("RFE ", d, " -> ", keep, " by ", jump, fail_at ? " with a failed training" : ""));
}

// ordered search: whatever way it searches, the answer is a subset of the asked size with its columns
WORKLOAD(ordered_search, 300, 8000) {
    Model m = source(rng, 2, 7, 4);
    size_t d = m.names.size(), keep = (size_t)rng.i(1, (long long)d - 1);
    LOG.clear(); FAIL.clear(); WEIGHT.clear();
    for (int f : m.names) WEIGHT[f] = rng.d(-1, 1);
    bool fails = rng.chance(0.2);
    if (fails) for (int q = 0; q < 3; q++) FAIL.insert(rng.below(12));
    WPrimal wp;
    DD src = make(m);
    int breadth = (int)rng.i(1, 4), sorting = rng.chance(0.3) ? 1 : (int)rng.i(1, 6), choice = (int)rng.i(1, 2), look = (int)rng.i(0, 2), cut = (int)rng.i(0, 3);
    fs::AOS<double> aos(src, &wp, (int)keep, nullptr, breadth, sorting, choice, look, cut);
    DD r = aos.selectFeatures();
    std::string who = vh::cat("AOS(breadth ", breadth, ", sorting ", sorting, ", choice ", choice, ", look-ahead ", look, ", cut ", cut, ")");
    intact(who, src, m);
    trainings(who, m);
    if (fails && r.size() == 0) { vh::count("searches given up"); return; }
    subset_of(who, r, m);
    if (!fails && breadth == 1 && sorting == 1) {      // nothing to choose from: the smallest weights go one by one
        double out = -1, in = INFINITY;
        auto nm = r.getFeaturesNames();
        for (int f : m.names) { double w = std::fabs(WEIGHT[f]); if (std::find(nm.begin(), nm.end(), f) == nm.end()) out = std::max(out, w); else in = std::min(in, w); }
        if (!look || choice == 1) { VCHECK("select:search-order", out <= in, who, " dropped a feature of weight ", out, " and kept one of weight ", in); vh::count("greedy searches"); }
    }
    if (!fails) VCHECK("select:dim", r.dim() == keep, who, " kept ", r.dim(), " of ", d, " features, asked for ", keep);
    vh::nontrivial(vh::cat(keep, who, vh::show(m.names), digest(m.rows)));
    vh::sample(vh::cat(who, " ", d, " -> ", r.dim()));
}
VH_MAIN
