// V01/V02: the arithmetic of validation reports, and what cross-validation trains and tests on.
#include "vh.hpp"
#include "gen.hpp"
#include "ufjfmltk/classifier/PrimalClassifier.hpp"
#include "ufjfmltk/classifier/DualClassifier.hpp"
#include "ufjfmltk/classifier/Perceptron.hpp"
#include "ufjfmltk/classifier/KNNClassifier.hpp"
#include "ufjfmltk/valid/Validation.hpp"
using namespace gen;
using namespace mltk::classifier;
namespace val = mltk::validation;
namespace {
struct Fold { std::vector<std::string> train, test; std::vector<double> truth, said; double w0; size_t nw; size_t seed; };
std::vector<Fold> LOG;
std::vector<int> ANSWERS;
int RIGHT = 60;
uint64_t UNSEEDED = 0;
std::string name_of(const PD &p) { return vh::cat(vh::show(p.X(), 99), "|", p.Y()); }
template <class Base> struct Rec : public Base {
    uint64_t salt = 0, key = 0;
    bool train() override {
        Fold f;
        std::set<std::string> s;
        for (size_t i = 0; i < this->samples->size(); i++) f.train.push_back(name_of((*this->samples)(i)));
        std::sort(f.train.begin(), f.train.end());
        f.nw = this->solution.w.size();
        f.w0 = this->solution.bias;
        f.seed = this->seed;
        key = salt ^ (this->seed ? 0 : ++UNSEEDED);      // a learner without a seed answers differently every time
        for (auto &x : f.train) key = vh::fnv(x, key);
        this->solution.w = std::vector<double>(3, 7.0);
        this->solution.bias = 123;
        LOG.push_back(f);
        return (key & 7) != 0;      // sometimes reports that it did not converge
    }
    double evaluate(const mltk::Point<double> &p, bool = false) override {
        uint64_t h = vh::fnv(name_of(p), key);
        double a = (double)(vh::splitmix(h) % 100);
        double out = a < RIGHT ? p.Y() : ANSWERS[vh::splitmix(h) % ANSWERS.size()];
        if (!LOG.empty()) { LOG.back().test.push_back(name_of(p)); LOG.back().truth.push_back(p.Y()); LOG.back().said.push_back(out); }
        return out;
    }
};
struct RecPrimal : public Rec<PrimalClassifier<double>> { };
struct RecDual : public Rec<DualClassifier<double>> { };
std::vector<std::string> names(const Rows &r) { std::vector<std::string> v; for (auto &x : r) v.push_back(name_of(point_of(x))); std::sort(v.begin(), v.end()); return v; }
std::vector<std::string> uniq(std::vector<std::string> v) { std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); return v; }
// rows whose points are all different, every class at least `least` times
Rows source(vh::Rng &rng, const std::vector<int> &labs, size_t nmax, size_t least) {
    size_t n = gen::grow(rng, (size_t)rng.i((long long)(least * labs.size()), (long long)std::max(nmax, least * labs.size())), 0.02, 500);
    Rows r = gen::rows(rng, n, gen::wide(rng, (size_t)rng.i(1, 4), 0.015), labs, 1, least);
    for (size_t i = 0; i < n; i++) r[i].x[0] += 10.0 * (double)i;
    return r;
}
struct Want { double error = 0, precision = 0, recall = 0, tnrate = 0; size_t tp = 0, tn = 0, fp = 0, fn = 0; };
Want tally(const std::vector<Fold> &folds, size_t from, size_t k) {
    Want w;
    for (size_t j = from; j < from + k; j++) {
        size_t tp = 0, tn = 0, fp = 0, fn = 0;
        std::map<std::string, std::pair<double, double>> once;
        for (size_t i = 0; i < folds[j].test.size(); i++) once[folds[j].test[i]] = {folds[j].truth[i], folds[j].said[i]};
        for (auto &kv : once) {
            bool good = kv.second.first == kv.second.second;
            if (kv.second.first == -1) (good ? tn : fp)++; else (good ? tp : fn)++;
        }
        w.error += 100.0 * (double)(fp + fn) / (double)once.size() / (double)k;
        w.precision += (double)tp / (double)(tp + fp) / (double)k;
        w.recall += (double)tp / (double)(tp + fn) / (double)k;
        w.tnrate += (double)tn / (double)(tn + fp) / (double)k;
        w.tp += tp; w.tn += tn; w.fp += fp; w.fn += fn;
    }
    return w;
}
// what every cross-validation run of k folds must have shown to its classifier; dual learners are the known finding
void judge_folds(const std::vector<Fold> &folds, size_t from, size_t k, const Rows &rows, const std::vector<int> &labs, bool stratified, bool leak_allowed, const std::string &what) {
    auto all = names(rows);
    std::vector<std::string> tested;
    std::map<double, size_t> count;
    for (auto &r : rows) count[r.y]++;
    for (size_t j = from; j < from + k; j++) {
        auto t = uniq(folds[j].test);
        VCHECK("cv-tests-something", !t.empty(), what, ": fold ", j - from + 1, " tests no point");
        tested.insert(tested.end(), t.begin(), t.end());
        std::vector<std::string> both, uni;
        auto tr = uniq(folds[j].train);
        VCHECK("cv-trains-once", tr.size() == folds[j].train.size(), what, ": fold ", j - from + 1, " trains on a point twice");
        std::set_intersection(tr.begin(), tr.end(), t.begin(), t.end(), std::back_inserter(both));
        std::set_union(tr.begin(), tr.end(), t.begin(), t.end(), std::back_inserter(uni));
        if (!leak_allowed) VCHECK("cv-trains-on-test", both.empty(), what, ": fold ", j - from + 1, " trains on ", both.size(), " of the ", t.size(), " points it tests");
        VCHECK("cv-uses-all", uni == all, what, ": fold ", j - from + 1, " trains and tests on ", uni.size(), " of ", all.size(), " points");
        if (stratified) for (int l : labs) {
            std::set<std::string> seen;
            for (size_t i = 0; i < folds[j].test.size(); i++) if (folds[j].truth[i] == l) seen.insert(folds[j].test[i]);
            double share = (double)count[l] / (double)k;
            VCHECK("cv-stratified", std::fabs((double)seen.size() - share) < 1, what, ": fold ", j - from + 1, " tests ", seen.size(), " points of class ", l, " which has ", count[l]);
        }
        vh::count("folds watched");
    }
    std::sort(tested.begin(), tested.end());
    VCHECK("cv-tests-each-once", tested == all, what, ": ", tested.size(), " test points in ", k, " folds over ", all.size(), " points");
}
}  // namespace

WORKLOAD(cross_validation, 1500, 40000) {
    std::vector<int> labs = rng.chance(0.6) ? (rng.chance(0.5) ? std::vector<int>{1, -1} : std::vector<int>{-1, 1}) : gen::labels(rng, gen::many(rng, (size_t)rng.i(2, 4)));
    bool pm = labs.size() == 2 && labs[0] * labs[1] == -1;
    size_t k = (size_t)rng.i(2, 6), seed = gen::seed_of(rng);
    Rows rows = source(rng, labs, 50, k);
    DD data = data_of(rows);
    ANSWERS = labs;
    RIGHT = (int)rng.i(0, 100);
    bool stratified = rng.chance(0.6), dual = rng.chance(0.3);
    RecPrimal p;
    RecDual d;
    Classifier<double> &c = dual ? (Classifier<double> &)d : (Classifier<double> &)p;
    mltk::Solution start;
    start.bias = rng.chance(0.5) ? rng.gauss() : 0;
    if (rng.chance(0.5)) start.w = std::vector<double>(rows[0].x.size(), 0.25);
    c.setSolution(start);
    std::string what = vh::cat(dual ? "dual" : "primal", " k=", k, stratified ? " stratified" : "", " n=", rows.size(), " seed=", seed);
    LOG.clear();
    int talk = rng.chance(0.12) ? (int)rng.i(1, 2) : 0;        // what is printed on the way must not matter
    auto rep = val::kfold(data, c, k, stratified, seed, talk);
    if (talk) vh::count("talkative validations");
    VCHECK("cv-folds", LOG.size() == k, what, ": ", LOG.size(), " trainings for ", k, " folds");
    auto first = LOG;
    judge_folds(first, 0, k, rows, labs, stratified, dual, what);
    for (auto &f : first) VCHECK("cv-fresh-start", f.w0 == start.bias && f.nw == start.w.size(), what, ": a fold starts from another solution (bias ", f.w0, ", ", f.nw, " weights) than the one the classifier was given (bias ", start.bias, ")");
    Want w = tally(first, 0, k);
    VCHECK("cv-error", vh::close(rep.error, w.error, 1e-9, 1e-9) && vh::close(rep.accuracy, 100 - w.error, 1e-9, 1e-9), what, ": error ", rep.error, " accuracy ", rep.accuracy, " but the folds erred on ", w.error, "%");
    if (pm) {
        VCHECK("cv-counts", rep.truePositive == w.tp && rep.trueNegative == w.tn && rep.falsePositive == w.fp && rep.falseNegative == w.fn, what, ": reported tp,tn,fp,fn ", rep.truePositive, ",", rep.trueNegative, ",", rep.falsePositive, ",", rep.falseNegative, " observed ", w.tp, ",", w.tn, ",", w.fp, ",", w.fn);
        if (std::isfinite(w.precision)) VCHECK("cv-ratios", vh::close(rep.precision, w.precision, 1e-9, 1e-9), what, ": precision ", rep.precision, " observed ", w.precision);
        if (std::isfinite(w.recall)) VCHECK("cv-ratios", vh::close(rep.recall, w.recall, 1e-9, 1e-9), what, ": recall ", rep.recall, " observed ", w.recall);
        if (std::isfinite(w.tnrate)) VCHECK("cv-ratios", vh::close(rep.tnrate, w.tnrate, 1e-9, 1e-9), what, ": true negative rate ", rep.tnrate, " observed ", w.tnrate);
        vh::count("reports with counts");
    }
    VCHECK("cv-callers-data", rows_of(data) == rows, what, ": cross-validation changed its caller's dataset");
    // the same seed validates the same way
    c.setSolution(start);
    LOG.clear();
    auto rep2 = val::kfold(data, c, k, stratified, seed, 0);
    bool same = LOG.size() == first.size() && rep2.error == rep.error;
    for (size_t j = 0; same && j < k; j++) same = LOG[j].train == first[j].train && uniq(LOG[j].test) == uniq(first[j].test) && LOG[j].seed == first[j].seed;
    VCHECK("cv-seeded", same, what, ": the same seed validates differently");
    vh::count(dual ? "dual validations" : "primal validations");
    vh::nontrivial(digest(rows) + what);
    vh::sample(vh::cat(what, " error=", rep.error));
    if (dual) for (auto &f : first) {
        auto t = uniq(f.test);
        for (auto &s : t) VCHECK("cv-dual-trains-on-test", !std::binary_search(f.train.begin(), f.train.end(), s), what, ": a dual classifier is trained on a point of its own test fold");
    }
}
WORKLOAD(repeated_validation, 400, 12000) {
    std::vector<int> labs = rng.chance(0.6) ? std::vector<int>{1, -1} : gen::labels(rng, gen::many(rng, (size_t)rng.i(2, 4)));
    size_t k = (size_t)rng.i(2, 4), q = (size_t)rng.i(1, 3), seed = gen::seed_of(rng);
    Rows rows = source(rng, labs, 40, k);
    DD data = data_of(rows);
    ANSWERS = labs;
    RIGHT = (int)rng.i(0, 100);
    bool stratified = rng.chance(0.6), dual = rng.chance(0.3);
    RecPrimal p;
    RecDual d;
    Classifier<double> &c = dual ? (Classifier<double> &)d : (Classifier<double> &)p;
    std::string what = vh::cat(dual ? "dual" : "primal", " ", q, "x", k, stratified ? " stratified" : "", " n=", rows.size(), " seed=", seed);
    LOG.clear();
    auto rep = val::kkfold(data, c, q, k, stratified, seed, rng.chance(0.12) ? (int)rng.i(1, 2) : 0);
    auto log = LOG;
    VCHECK("cv-folds", log.size() == q * k + 1, what, ": ", log.size(), " trainings for ", q, " executions of ", k, " folds and a final one");
    double err = 0;
    for (size_t i = 0; i < q; i++) {
        judge_folds(log, i * k, k, rows, labs, stratified, dual, vh::cat(what, " execution ", i + 1));
        err += tally(log, i * k, k).error / (double)q;
    }
    VCHECK("cv-error", vh::close(rep.error, err, 1e-9, 1e-9) && vh::close(rep.accuracy, 100 - err, 1e-9, 1e-9), what, ": error ", rep.error, " accuracy ", rep.accuracy, " but the folds erred on ", err, "%");
    if (q > 1 && rows.size() >= 34) {
        bool all_same = true;
        for (size_t j = 0; j < k; j++) all_same &= uniq(log[j].test) == uniq(log[k + j].test);
        VCHECK("cv-executions-differ", !all_same, what, ": two executions split the samples in exactly the same way");
    }
    // the final validation: one training part, one test part
    auto &f = log.back();
    auto t = uniq(f.test), tr = uniq(f.train), all = names(rows);
    std::vector<std::string> both, uni;
    std::set_intersection(tr.begin(), tr.end(), t.begin(), t.end(), std::back_inserter(both));
    std::set_union(tr.begin(), tr.end(), t.begin(), t.end(), std::back_inserter(uni));
    VCHECK("cv-uses-all", uni == all && tr.size() == f.train.size(), what, ": the final validation trains and tests on ", uni.size(), " of ", all.size(), " points");
    if (!dual) VCHECK("cv-trains-on-test", both.empty(), what, ": the final validation trains on ", both.size(), " test points");
    VCHECK("cv-callers-data", rows_of(data) == rows, what, ": cross-validation changed its caller's dataset");
    vh::count("repeated validations");
    vh::nontrivial(digest(rows) + what);
}
// called with nothing but the data, the learner and the number of folds, validation is stratified and its seed is drawn
WORKLOAD(default_arguments, 200, 6000) {
    std::vector<int> labs = rng.chance(0.5) ? std::vector<int>{1, -1} : gen::labels(rng, gen::many(rng, (size_t)rng.i(2, 4)));
    size_t k = (size_t)rng.i(2, 4), q = (size_t)rng.i(1, 2);
    Rows rows = source(rng, labs, 40, k);
    DD data = data_of(rows);
    ANSWERS = labs;
    RIGHT = (int)rng.i(0, 100);
    RecPrimal p;
    LOG.clear();
    bool many = rng.chance(0.5);
    double error = many ? val::kkfold(data, p, q, k).error : val::kfold(data, p, k).error;
    if (!many) q = 1;
    std::string what = vh::cat("default arguments ", q, "x", k, " n=", rows.size());
    VCHECK("cv-folds", LOG.size() == q * k + (many ? 1 : 0), what, ": ", LOG.size(), " trainings");
    double err = 0;
    for (size_t i = 0; i < q; i++) {
        judge_folds(LOG, i * k, k, rows, labs, true, false, what);
        err += tally(LOG, i * k, k).error / (double)q;
    }
    VCHECK("cv-error", vh::close(error, err, 1e-9, 1e-9), what, ": error ", error, " but the folds erred on ", err, "%");
    VCHECK("cv-callers-data", rows_of(data) == rows, what, ": cross-validation changed its caller's dataset");
    vh::count("default validations");
    vh::nontrivial(digest(rows) + what);
}
// real learners: cross-validation reports what training on the folds by hand gives
WORKLOAD(real_learners, 300, 8000) {
    std::vector<int> labs = {1, -1};
    size_t k = (size_t)rng.i(2, 5), seed = gen::seed_of(rng), kn = (size_t)rng.i(1, 3);
    Rows rows = source(rng, labs, 40, k);
    DD data = data_of(rows);
    bool stratified = rng.chance(0.5);
    KNNClassifier<double> knn(kn);
    knn.setVerbose(0);
    auto rep = val::kfold(data, knn, k, stratified, seed, 0);
    DD copy = data.copy();
    copy.shuffle(seed);
    auto folds = val::kfoldsplit(copy, k, stratified, true, seed);
    double err = 0;
    for (auto &f : folds) {
        size_t bad = 0;
        for (size_t i = 0; i < f.test.size(); i++) {
            // plain k nearest neighbours
            std::vector<std::pair<double, double>> ds;
            for (size_t j = 0; j < f.train.size(); j++) {
                double s = 0;
                for (size_t c = 0; c < rows[0].x.size(); c++) s += std::pow(f.train(j)[c] - f.test(i)[c], 2);
                ds.push_back({s, f.train(j).Y()});
            }
            std::sort(ds.begin(), ds.end());
            std::map<double, int> votes;
            for (size_t j = 0; j < std::min(kn, ds.size()); j++) votes[ds[j].second]++;
            if (votes[1] == votes[-1]) { vh::count("skipped: tied votes"); return; }
            bad += (votes[1] > votes[-1] ? 1 : -1) != f.test(i).Y();
        }
        err += 100.0 * (double)bad / (double)f.test.size() / (double)k;
    }
    VCHECK("cv-real-learner", vh::close(rep.error, err, 1e-9, 1e-9), "cross-validated nearest neighbours report ", rep.error, "% error, training on the folds by hand gives ", err, "%");
    vh::count("real cross-validations");
    vh::nontrivial(digest(rows) + std::to_string(seed));
}

// ---- arithmetic of reports -----------------------------------------------------------------------
WORKLOAD(confusion, 3000, 100000) {
    std::vector<int> labs = gen::labels(rng, gen::many(rng, (size_t)rng.i(2, 5)));
    Rows rows = source(rng, labs, 40, 1);
    DD data = data_of(rows);
    auto cl = data.classes();
    ANSWERS = labs;
    RIGHT = rng.chance(0.1) ? 100 : (int)rng.i(0, 100);
    RecPrimal p;
    p.salt = rng.u64();
    LOG.clear();
    auto said = [&](const Row &r) { return p.evaluate(point_of(r)); };
    std::vector<std::vector<size_t>> want(cl.size(), std::vector<size_t>(cl.size(), 0));
    size_t right = 0;
    for (auto &r : rows) {
        double s = said(r);
        size_t a = std::find(cl.begin(), cl.end(), (int)r.y) - cl.begin(), b = std::find(cl.begin(), cl.end(), (int)s) - cl.begin();
        want[a][b]++;
        right += s == r.y;
    }
    auto m = val::generateConfusionMatrix(data, p);
    VCHECK("confusion-matrix", m == want, "classes ", vh::show(cl), ": the matrix differs from the recount; first rows ", vh::show(m[0]), " expected ", vh::show(want[0]));
    VCHECK("accuracy", vh::close(val::confusionMatrixAccuracy(m), 100.0 * (double)right / (double)rows.size(), 1e-9, 1e-9), "accuracy of the confusion matrix ", val::confusionMatrixAccuracy(m), " with ", right, " of ", rows.size(), " right");
    VCHECK("accuracy", vh::close(val::accuracy(data, p), (double)right / (double)rows.size(), 1e-12, 0), "accuracy ", val::accuracy(data, p), " with ", right, " of ", rows.size(), " right");
    VCHECK("accuracy-trains", LOG.empty(), "computing the accuracy of a trained model trained it again");
    {   // a model said not to be trained is trained once, before it is asked
        RecPrimal q;
        q.salt = p.salt;
        q.setSamples(data);
        double a = val::accuracy(data, q, false);
        VCHECK("accuracy-untrained", LOG.size() == 1 && LOG[0].test.size() == rows.size(), "accuracy of an untrained model trained it ", LOG.size(), " times");
        size_t ok = 0;
        for (size_t i = 0; i < rows.size(); i++) ok += LOG[0].truth[i] == LOG[0].said[i];
        VCHECK("accuracy-untrained", vh::close(a, (double)ok / (double)rows.size(), 1e-12, 0), "accuracy ", a, " of a model trained first, which answered ", ok, " of ", rows.size(), " right");
        LOG.clear();
        vh::count("untrained models");
    }
    // one positive class
    size_t pos = rng.below(cl.size());
    auto rep = val::metricsReport(data, m, {cl[pos]});
    size_t tp = want[pos][pos], fn = 0, fp = 0, tn = 0, offrow = 0;
    for (size_t a = 0; a < cl.size(); a++) for (size_t b = 0; b < cl.size(); b++) {
        if (a == pos && b != pos) fn += want[a][b];
        if (a != pos && b == pos) fp += want[a][b];
        if (a != pos && a == b) tn += want[a][b];
        if (a != pos && a != b) offrow += want[a][b];
    }
    VCHECK("report-counts", rep.tp == tp && rep.fn == fn && rep.tn == tn, "tp,fn,tn ", rep.tp, ",", rep.fn, ",", rep.tn, " expected ", tp, ",", fn, ",", tn);
    VCHECK("report-counts", rep.tp + rep.tn + rep.fp + rep.fn == rows.size() && rep.errors == fn + offrow, "the counts ", rep.tp, "+", rep.tn, "+", rep.fp, "+", rep.fn, " do not cover ", rows.size(), " points, or errors=", rep.errors, " differs from ", fn + offrow);
    VCHECK("report-accuracy", vh::close(rep.accuracy, (double)right / (double)rows.size(), 1e-12, 1e-12) && vh::close(rep.error, 1 - (double)right / (double)rows.size(), 1e-12, 1e-12), "accuracy ", rep.accuracy, " error ", rep.error, " with ", right, " of ", rows.size(), " right");
    if (cl.size() == 2) {
        VCHECK("report-counts", rep.fp == fp, "false positives ", rep.fp, " expected ", fp);
        auto ratio = [&](double got, size_t a, size_t b, const char *w) { if (a + b) VCHECK("report-ratios", vh::close(got, (double)a / (double)(a + b), 1e-12, 1e-12), w, " ", got, " expected ", a, "/", a + b); };
        ratio(rep.sensitivity, tp, fn, "sensitivity");
        ratio(rep.recall, tp, fn, "recall");
        ratio(rep.specificity, tn, fp, "specificity");
        ratio(rep.precision, tp, fp, "precision");
        if (tp) VCHECK("report-ratios", vh::close(rep.fscore, 2.0 * (double)tp / (double)(2 * tp + fp + fn), 1e-9, 1e-12), "F score ", rep.fscore, " expected ", 2.0 * (double)tp / (double)(2 * tp + fp + fn));
        vh::count("binary reports");
    }
    VCHECK("report-callers-data", rows_of(data) == rows, "reporting changed the dataset");
    vh::count("confusion matrices");
    vh::nontrivial(digest(rows) + vh::show(m[0]));
    vh::sample(vh::cat("classes ", vh::show(cl), " right ", right, "/", rows.size()));
}
WORKLOAD(classification_report, 4000, 200000) {
    size_t n = gen::grow(rng, (size_t)rng.i(1, 30));
    bool binary = rng.chance(0.7);
    int other = rng.chance(0.5) ? -1 : rng.chance(0.5) ? 0 : 2;
    mltk::Point<int> real(n), pred(n);
    size_t tp = 0, tn = 0, fp = 0, fn = 0, right = 0;
    std::set<int> seen;
    for (size_t i = 0; i < n; i++) {
        real[i] = binary ? (rng.chance(0.5) ? 1 : other) : (int)rng.i(0, 3);
        pred[i] = rng.chance(0.6) ? real[i] : binary ? (rng.chance(0.5) ? 1 : other) : (int)rng.i(0, 3);
        seen.insert(real[i]); seen.insert(pred[i]);
        right += real[i] == pred[i];
        if (real[i] == 1) (pred[i] == 1 ? tp : fn)++; else (pred[i] == real[i] ? tn : fp)++;
    }
    auto rep = val::classificationReport(real, pred);
    VCHECK("report-accuracy", vh::close(rep.accuracy, (double)right / (double)n, 1e-12, 1e-12), "accuracy ", rep.accuracy, " with ", right, " of ", n, " right");
    if (binary && seen.size() == 2) {
        VCHECK("report-counts", rep.tp == tp && rep.tn == tn && rep.fp == fp && rep.fn == fn, "tp,tn,fp,fn ", rep.tp, ",", rep.tn, ",", rep.fp, ",", rep.fn, " expected ", tp, ",", tn, ",", fp, ",", fn);
        auto ratio = [&](double got, size_t a, size_t b, const char *w) { if (a + b) VCHECK("report-ratios", vh::close(got, (double)a / (double)(a + b), 1e-12, 1e-12), w, " ", got, " expected ", a, "/", a + b); };
        ratio(rep.sensitivity, tp, fn, "sensitivity");
        ratio(rep.recall, tp, fn, "recall");
        ratio(rep.specificity, tn, fp, "specificity");
        ratio(rep.precision, tp, fp, "precision");
        if (tp) VCHECK("report-ratios", vh::close(rep.fscore, 2.0 * (double)tp / (double)(2 * tp + fp + fn), 1e-9, 1e-12), "F score ", rep.fscore);
        vh::count("binary reports");
    }
    vh::count("label lists compared");
    vh::nontrivial(vh::cat(vh::show(real.X(), 99), vh::show(pred.X(), 99)));
}
VH_MAIN
