// D07/D08: train/test and k-fold splits conserve points; stratification and seed determinism.
#include "gen.hpp"
#include "ufjfmltk/valid/Validation.hpp"
using namespace gen;
namespace val = mltk::validation;

namespace {
using Key = std::vector<double>;
Key key_of(const Row &r, bool ids) {
    Key k;
    if (ids) k.push_back((double)r.id);
    k.push_back(r.y);
    k.push_back(r.alpha);
    k.insert(k.end(), r.x.begin(), r.x.end());
    return k;
}
std::multiset<Key> bag(const Rows &rs, bool ids) {
    std::multiset<Key> m;
    for (auto &r : rs) m.insert(key_of(r, ids));
    return m;
}
std::multiset<Key> bag(const DD &d, bool ids) { return bag(rows_of(d), ids); }
std::map<int, size_t> hist(const DD &d) { return histogram(rows_of(d)); }

// every point carries its serial number as its last feature, so occurrences are unambiguous
DD make(vh::Rng &g, size_t n, std::vector<int> labs, std::string *desc, bool regression = false) {
    size_t d = gen::wide(g, 1 + g.below(3), 0.01);
    Rows rs;
    // skewed class proportions
    std::vector<double> w;
    double tot = 0;
    for (size_t k = 0; k < labs.size(); k++) { w.push_back(g.chance(0.4) ? 0.05 + g.unit() * 0.2 : 1 + g.unit()); tot += w.back(); }
    for (size_t k = 0; k < n; k++) {
        Row r;
        r.id = (long long)k + 1;
        double u = g.unit() * tot;
        size_t c = 0;
        while (c + 1 < labs.size() && u > w[c]) u -= w[c++];
        r.y = regression ? g.gauss() * 3 : labs[c];
        for (size_t j = 0; j + 1 < d; j++) r.x.push_back((double)g.i(-2, 2));
        r.x.push_back((double)k);
        rs.push_back(r);
    }
    DD out;
    if (regression) out.setType("Regression");
    for (auto &r : rs) out.insertPoint(point_of(r), true);
    if (g.chance(0.3)) out.shuffle(1 + g.below(50));
    *desc = vh::cat("n=", n, " d=", d, " labels=", vh::show(labs), " dist=", vh::show(out.classesDistribution()), regression ? " regression" : "");
    return out;
}
void part_ok(const DD &part, const std::string &where, bool regression) {
    if (part.size()) check_consistent(part, where, !regression);
    if (regression) VCHECK("split:type", !part.isClassification() && part.classes().empty(), where, ": part of a regression dataset became classification with classes ", vh::show(part.classes()));
}
void pair_ok(DD &src, const val::TrainTestPair<double> &p, bool ids, const std::string &where, bool regression) {
    part_ok(p.train, where + " train", regression);
    part_ok(p.test, where + " test", regression);
    auto all = bag(src, ids), tr = bag(p.train, ids), te = bag(p.test, ids);
    std::multiset<Key> uni = tr;
    for (auto &k : te) uni.insert(k);
    for (auto &k : te) VCHECK("split:leak", !tr.count(k), where, ": point with serial ", k.back(), " is in both train and test");
    VCHECK("split:conservation", uni == all, where, ": train ", tr.size(), " + test ", te.size(), " is not the ", all.size(), " original points");
    VCHECK("split:empty-side", p.train.size() && p.test.size(), where, ": empty side");
}
}  // namespace

// D07 ------------------------------------------------------------------------------------------
WORKLOAD(kfold_conserves, 1500, 25000) {
    bool reg = rng.chance(0.2);
    size_t folds = 2 + rng.below(rng.chance(0.2) ? 10 : 4);
    size_t n = gen::grow(rng, folds + rng.below(40), 0.02, 1000);
    std::string desc;
    DD src = make(rng, n, labels(rng, gen::many(rng, 1 + rng.below(4))), &desc, reg);
    bool strat = rng.chance(0.5), keep = rng.chance(0.6);
    size_t seed = rng.chance(0.1) ? 0 : gen::seed_of(rng);
    Rows before = rows_of(src);
    size_t reps = rng.chance(0.3) ? 1 + rng.below(4) : 0;
    std::vector<val::TrainTestPair<double>> v = reps ? val::kfoldsplit(src, folds, reps, strat, keep, seed) : val::kfoldsplit(src, folds, strat, keep, seed);
    desc += vh::cat(" folds=", folds, " reps=", reps, " strat=", strat, " keep=", keep, " seed=", seed);
    VCHECK("split:count", v.size() == folds * (reps ? reps : 1), desc, ": ", v.size(), " pairs");
    for (size_t r = 0; r < (reps ? reps : 1); r++) {
        std::multiset<Key> tests;
        for (size_t f = 0; f < folds; f++) {
            auto &p = v[r * folds + f];
            pair_ok(src, p, keep, desc + vh::cat(" pair ", r, "/", f), reg);
            VCHECK("split:fold-number", p.fold == f + 1 && (!reps || p.execution == r + 1), desc, ": pair ", r, "/", f, " labelled fold ", p.fold, " execution ", p.execution);
            for (auto &k : bag(p.test, keep)) {
                VCHECK("split:test-twice", !tests.count(k), desc, ": point with serial ", k.back(), " is tested in two folds");
                tests.insert(k);
            }
            double lo = std::floor((double)n / folds), hi = std::ceil((double)n / folds);
            VCHECK("split:fold-size", p.test.size() >= lo && p.test.size() <= hi, desc, ": test fold of ", p.test.size(), " points for n/folds=", n, "/", folds);
        }
        VCHECK("split:every-point-tested", tests == bag(src, keep), desc, ": the test folds do not cover the dataset: ", tests.size(), "/", n);
    }
    VCHECK("split:source-changed", rows_of(src) == before, desc, ": splitting modified the source dataset");
    vh::count("kfold pairs", v.size());
    vh::nontrivial(desc);
    vh::sample(desc);
}
WORKLOAD(train_test_conserves, 1500, 25000) {
    bool reg = rng.chance(0.2);
    size_t folds = 2 + rng.below(6);
    size_t n = gen::grow(rng, folds + rng.below(40), 0.02, 1000);
    std::string desc;
    DD src = make(rng, n, labels(rng, gen::many(rng, 1 + rng.below(4))), &desc, reg);
    bool strat = rng.chance(0.5), keep = rng.chance(0.6);
    size_t seed = rng.chance(0.1) ? 0 : gen::seed_of(rng);
    Rows before = rows_of(src);
    auto p = val::partTrainTest(src, folds, strat, keep, seed);
    desc += vh::cat(" partTrainTest fold=", folds, " strat=", strat, " keep=", keep, " seed=", seed);
    pair_ok(src, p, keep, desc, reg);
    double lo = std::floor((double)n / folds), hi = std::ceil((double)n / folds);
    VCHECK("split:test-size", p.test.size() >= lo && p.test.size() <= hi, desc, ": test side has ", p.test.size(), " points");
    VCHECK("split:source-changed", rows_of(src) == before, desc, ": splitting modified the source dataset");
    vh::count("train/test pairs");
    vh::nontrivial(desc);
    vh::sample(desc);
}
WORKLOAD(parts_conserve, 2500, 40000) {
    bool reg = rng.chance(0.2);
    size_t parts = 1 + rng.below(7);
    size_t n = gen::grow(rng, parts + rng.below(30), 0.02, 1000);
    std::string desc;
    DD src = make(rng, n, labels(rng, gen::many(rng, 1 + rng.below(4))), &desc, reg);
    Rows before = rows_of(src);
    bool strat = rng.chance(0.5), keep = rng.chance(0.6);
    if (reg || rng.chance(0.7)) {
        auto v = src.splitSample(parts, strat, keep, 1 + rng.below(1000));
        desc += vh::cat(" splitSample parts=", parts, " strat=", strat, " keep=", keep);
        VCHECK("split:count", v.size() == parts, desc, ": ", v.size(), " parts");
        std::multiset<Key> got;
        for (auto &d : v) { part_ok(d, desc, reg); for (auto &k : bag(d, keep)) got.insert(k); }
        VCHECK("split:conservation", got == bag(src, keep), desc, ": parts hold ", got.size(), " of ", n, " points or altered ones");
    } else {
        auto v = src.splitByClasses(keep);
        desc += vh::cat(" splitByClasses keep=", keep);
        auto cl = src.classes();
        VCHECK("split:count", v.size() == cl.size(), desc, ": ", v.size(), " parts");
        std::multiset<Key> got;
        for (size_t k = 0; k < v.size(); k++) {
            part_ok(v[k], desc, false);
            for (auto &r : rows_of(v[k])) VCHECK("split:wrong-class", r.y == cl[k], desc, ": point of class ", r.y, " in the part of class ", cl[k]);
            for (auto &q : bag(v[k], keep)) got.insert(q);
        }
        VCHECK("split:conservation", got == bag(src, keep), desc, ": parts hold ", got.size(), " of ", n, " points or altered ones");
    }
    VCHECK("split:source-changed", rows_of(src) == before, desc, ": splitting modified the source dataset");
    vh::nontrivial(desc);
}
// D08 ------------------------------------------------------------------------------------------
WORKLOAD(stratified_balance, 2500, 40000) {
    size_t folds = 2 + rng.below(8);
    size_t n = gen::grow(rng, folds + rng.below(60), 0.02, 1000);
    std::string desc;
    DD src = make(rng, n, labels(rng, gen::many(rng, 2 + rng.below(4))), &desc);
    auto total = hist(src);
    size_t seed = gen::seed_of(rng);
    desc += vh::cat(" stratified folds=", folds, " seed=", seed);
    auto balanced = [&](const std::vector<DD> &parts, const std::string &what) {
        for (auto &kv : total) {
            size_t lo = SIZE_MAX, hi = 0;
            for (auto &p : parts) { auto h = hist(p); size_t c = h.count(kv.first) ? h[kv.first] : 0; lo = std::min(lo, c); hi = std::max(hi, c); }
            VCHECK("stratify:" + what, hi - lo <= 1, desc, ": class ", kv.first, " has between ", lo, " and ", hi, " points per part");
        }
    };
    balanced(src.splitSample(folds, true, rng.chance(0.5), seed), "parts");
    std::vector<DD> tests;
    for (auto &p : val::kfoldsplit(src, folds, true, true, seed)) {
        tests.push_back(p.test);
        auto ht = hist(p.train), he = hist(p.test);
        for (auto &kv : total) {
            double share = (double)kv.second / folds;
            VCHECK("stratify:test-share", std::fabs((double)he[kv.first] - share) <= 1, desc, ": class ", kv.first, " has ", he[kv.first], " of ", kv.second, " points in a test fold");
            VCHECK("stratify:train-share", ht[kv.first] + he[kv.first] == kv.second, desc, ": class ", kv.first);
        }
    }
    balanced(tests, "kfold-tests");
    auto p = val::partTrainTest(src, folds, true, true, seed);
    auto he = hist(p.test);
    for (auto &kv : total) VCHECK("stratify:train-test", std::fabs((double)he[kv.first] - (double)kv.second / folds) <= 1, desc, ": class ", kv.first, " has ", he[kv.first], " of ", kv.second, " points in the test side");
    vh::count("stratified splits", 3);
    vh::nontrivial(desc);
    vh::sample(desc);
}
WORKLOAD(seed_reproduces, 1500, 25000) {
    size_t folds = 2 + rng.below(4);
    size_t n = gen::grow(rng, folds + 6 + rng.below(40));
    std::string desc;
    DD src = make(rng, n, labels(rng, gen::many(rng, 1 + rng.below(3))), &desc);
    DD twin(src);
    bool strat = rng.chance(0.5), keep = rng.chance(0.5);
    size_t seed = gen::seed_of(rng);
    desc += vh::cat(" folds=", folds, " strat=", strat, " keep=", keep, " seed=", seed);
    auto same = [&](const DD &a, const DD &b, const std::string &what) {
        VCHECK("seed:" + what, rows_of(a) == rows_of(b), desc, ": two runs with one seed differ: ", vh::show(rows_of(a), 6), " vs ", vh::show(rows_of(b), 6));
    };
    auto k1 = val::kfoldsplit(src, folds, strat, keep, seed);
    mltk::random::init(rng.below(1000));   // global generator state must not matter
    mltk::random::floatInRange(0.0, 1.0);
    auto k2 = val::kfoldsplit(twin, folds, strat, keep, seed);
    for (size_t f = 0; f < folds; f++) { same(k1[f].train, k2[f].train, "kfold"); same(k1[f].test, k2[f].test, "kfold"); }
    auto r1 = val::kfoldsplit(src, folds, (size_t)3, strat, keep, seed), r2 = val::kfoldsplit(twin, folds, (size_t)3, strat, keep, seed);
    for (size_t f = 0; f < r1.size(); f++) { same(r1[f].train, r2[f].train, "repeated-kfold"); same(r1[f].test, r2[f].test, "repeated-kfold"); }
    auto p1 = val::partTrainTest(src, folds, strat, keep, seed), p2 = val::partTrainTest(twin, folds, strat, keep, seed);
    same(p1.train, p2.train, "train/test");
    same(p1.test, p2.test, "train/test");
    auto s1 = src.splitSample(folds, strat, keep, seed), s2 = twin.splitSample(folds, strat, keep, seed);
    for (size_t f = 0; f < folds; f++) same(s1[f], s2[f], "parts");
    same(src.sampling(n / 2, true, (int)seed), twin.sampling(n / 2, true, (int)seed), "sampling");
    same(src.sampling(n / 2, false, (int)seed), twin.sampling(n / 2, false, (int)seed), "sampling");
    // another seed gives another assignment at least once among several
    bool differs = false;
    for (size_t t = 1; t <= 6 && !differs; t++) {
        auto o = src.splitSample(folds, strat, true, seed + t), b = src.splitSample(folds, strat, true, seed);
        for (size_t f = 0; f < folds; f++) differs |= bag(o[f], true) != bag(b[f], true);
    }
    VCHECK("seed:ignored", differs, desc, ": seven seeds, one split");
    src.shuffle(seed);
    twin.shuffle(seed);
    same(src, twin, "shuffle");
    vh::count("seeded pairs compared", 2 * folds + 6);
    vh::nontrivial(desc);
}
WORKLOAD(sampling_draws, 2000, 30000) {
    size_t n = gen::grow(rng, 4 + rng.below(40), 0.02, 1000);
    std::string desc;
    auto labs = labels(rng, gen::many(rng, 1 + rng.below(4)));
    DD src = make(rng, n, labs, &desc);
    auto total = hist(src);
    size_t want = 1 + rng.below(n);
    bool repl = rng.chance(0.5);
    Rows before = rows_of(src);
    DD s = src.sampling(want, repl, (int)(1 + rng.below(100000)));
    desc += vh::cat(" sampling(", want, ",", repl ? "with" : "without", " replacement)");
    VCHECK("split:source-changed", rows_of(src) == before, desc, ": sampling modified the source");
    auto all = bag(src, false);
    std::set<Key> seen;
    for (auto &k : bag(s, false)) {
        VCHECK("sampling:foreign", all.count(k), desc, ": sampled point with serial ", k.back(), " is not in the dataset");
        bool fresh = seen.insert(k).second;
        VCHECK("sampling:repeat", repl || fresh, desc, ": point with serial ", k.back(), " drawn twice without replacement");
    }
    auto h = hist(s);
    for (auto &kv : total) {
        double share = (double)kv.second / n * want;
        double got = h.count(kv.first) ? (double)h[kv.first] : 0;
        VCHECK("sampling:share", got >= std::max(1.0, std::floor(share - 1e-9) - (std::fabs(share - std::round(share)) < 1e-6)) && got <= std::max(1.0, share + 1e-9), desc, ": class ", kv.first, " with ", kv.second, "/", n, " points got ", got);
    }
    check_consistent(s, desc);
    vh::count("points sampled", s.size());
    vh::nontrivial(desc);
}
VH_MAIN
