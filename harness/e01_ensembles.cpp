// Monitors of the wrappers that combine learners: recording stand-ins for the base learners show
// what each was trained on, and the combined answer is recomputed from their own answers.
#include "vh.hpp"
#include "gen.hpp"
#include "ufjfmltk/classifier/PrimalClassifier.hpp"
#include "ufjfmltk/classifier/Perceptron.hpp"
#include "ufjfmltk/classifier/SMO.hpp"
#include "ufjfmltk/classifier/IMA.hpp"
#include "ufjfmltk/classifier/KNNClassifier.hpp"
#include "ufjfmltk/classifier/OneVsAll.hpp"
#include "ufjfmltk/classifier/OneVsOne.hpp"
#include "ufjfmltk/Ensemble.hpp"
#include "ufjfmltk/ensemble/AutoWeightedVoting.hpp"

using namespace gen;
using namespace mltk::classifier;
using namespace mltk::ensemble;

struct Training { Rows rows; size_t seed; };
static std::vector<Training> LOG;          // every training run of a stand-in, in order
static std::vector<int> CLASSES;           // what stand-ins may answer
static int ACC = 70;                       // how often (of 100) a stand-in is right
static bool BINARY = false;                // stand-ins answer +1/-1 with a real raw value

template <typename T> struct Stand : public PrimalClassifier<T> {
    uint64_t salt = 0, key = 0;
    Stand() = default;
    explicit Stand(uint64_t s) : salt(s) {}
    Stand(const Stand &) = default;
    bool train() override {
        Training t;
        t.rows = rows_of(*this->samples);
        t.seed = this->seed;
        // what it learned depends on the training points and labels, not on their order
        std::vector<std::string> parts;
        for (auto &r : t.rows) parts.push_back(vh::cat(r.id, ":", r.y));
        std::sort(parts.begin(), parts.end());
        key = salt ^ (0x9e3779b97f4a7c15ULL * (this->seed + 1));
        for (auto &p : parts) key = vh::fnv(p, key);
        LOG.push_back(t);
        return true;
    }
    double evaluate(const mltk::Point<T> &p, bool raw = false) override {
        uint64_t h = vh::fnv(vh::cat(p.Id(), "/", p[0]), key);
        double u = (double)(vh::splitmix(h) >> 11) / 9007199254740992.0;
        if (BINARY) {
            double f = 2 * u - 1;
            return raw ? f : (f >= 0 ? 1 : -1);
        }
        double v = (double)(vh::splitmix(h) >> 11) / 9007199254740992.0;
        return u * 100 < ACC ? p.Y() : CLASSES[(size_t)(v * CLASSES.size())];
    }
};
static Rows source(vh::Rng &g, size_t C, size_t nmax = 40, size_t least = 1) {
    size_t n = gen::grow(g, (size_t)g.i((long long)(C * std::max<size_t>(least, 2)), (long long)nmax), 0.02, 400);
    return gen::rows(g, n, gen::wide(g, (size_t)g.i(1, 4), 0.015), gen::labels(g, C), -1, least);
}
static std::multiset<std::string> bag(const Rows &r, bool ids, const std::function<double(double)> &relabel = nullptr) {
    std::multiset<std::string> s;
    for (auto &x : r) s.insert(vh::cat(ids ? vh::cat(x.id) : "", "|", relabel ? relabel(x.y) : x.y, "|", vh::show(x.x)));
    return s;
}
static void untouched(const std::string &who, const DD &d, const Rows &want) {
    auto now = rows_of(d);
    for (auto &r : now) r.alpha = 0;
    VCHECK("callers-data:" + who, now == want, who, " changed its caller's dataset: ", digest(now).substr(0, 300), " was ", digest(want).substr(0, 300));
}
static Row query(vh::Rng &g, const Rows &rows) {
    Row q = rows[g.below(rows.size())];
    q.id = g.i(1, 100000);
    if (g.chance(0.7)) for (auto &v : q.x) v += g.gauss();
    return q;
}
static void is_maximal(const std::string &key, double answer, const std::vector<int> &classes, const std::vector<double> &score, const std::string &what) {
    double best = *std::max_element(score.begin(), score.end());
    size_t at = std::find(classes.begin(), classes.end(), (int)answer) - classes.begin();
    VCHECK(key, at < classes.size() && answer == classes[at] && score[at] >= best - 1e-9 * (1 + std::fabs(best)), what, ": answered ", answer, ", the scores of ", vh::show(classes), " are ", vh::show(score));
    vh::count("combined answers");
}

// over-sampling stand-in: adds copies of minority points under new ids
struct Over : public mltk::OverSampling<double> {
    int calls = 0;
    DD operator()(DD &d) override {
        calls++;
        auto cl = d.classes();
        auto di = d.classesDistribution();
        size_t tot = 0;
        for (size_t v : di) tot += v;
        VCHECK("oversampling-sees-distribution", cl.size() == di.size() && tot == d.size(), "the over-sampling method is given classes ", vh::show(cl), " distributed ", vh::show(di), " over ", d.size(), " points");
        std::map<int, size_t> h;
        for (size_t i = 0; i < d.size(); i++) h[(int)d[i]->Y()]++;
        for (size_t k = 0; k < cl.size(); k++) VCHECK("oversampling-sees-distribution", h[cl[k]] == di[k], "class ", cl[k], " has ", h[cl[k]], " points but the over-sampling method is told ", di[k]);
        int mc = cl[std::min_element(di.begin(), di.end()) - di.begin()];
        size_t n = d.size();
        for (size_t i = 0; i < n; i++) if (d[i]->Y() == mc) {
            PD p = *d[i];
            p.Id() = 100000 + i;
            d.insertPoint(p, true);
            vh::count("points added by over-sampling");
        }
        return d;
    }
};

WORKLOAD(one_vs_one, 500, 15000) {
    BINARY = true;
    size_t C = gen::many(rng, (size_t)rng.i(2, 5));
    Rows rows = source(rng, C);
    DD data = data_of(rows);
    auto classes = data.classes();
    Stand<double> base(rng.u64());
    Over over;
    bool os = rng.chance(0.3);
    LOG.clear();
    std::unique_ptr<OneVsOne<double>> ovo;
    if (os && rng.chance(0.7)) ovo.reset(new OneVsOne<double>(data, base, &over));
    else if (os) { base.setSamples(data); ovo.reset(new OneVsOne<double>(base, &over)); }
    else if (rng.chance(0.7)) ovo.reset(new OneVsOne<double>(data, base));
    else { base.setSamples(data); ovo.reset(new OneVsOne<double>(base)); }
    VCHECK("ovo-trains", ovo->train(), "training failed");
    if (os) VCHECK("ovo-oversamples", over.calls == (int)LOG.size(), "over-sampling used ", over.calls, " times for ", LOG.size(), " trainings");
    // every training set is one pair of classes, all of their points
    struct Duel { size_t pos, neg; uint64_t key; };
    std::vector<Duel> duels;
    std::set<std::pair<size_t, size_t>> pairs;
    std::map<long long, double> label;
    for (auto &r : rows) label[r.id] = r.y;
    for (auto &t : LOG) {
        std::set<double> pos, neg;
        Rows orig;
        for (auto &r : t.rows) {
            VCHECK("ovo-binary-labels", r.y == 1 || r.y == -1, "a pairwise learner was trained with label ", r.y);
            if (r.id >= 100000) continue;
            VCHECK("ovo-points", label.count(r.id), "a pairwise learner was trained with a point of id ", r.id);
            (r.y > 0 ? pos : neg).insert(label[r.id]);
            orig.push_back(r);
        }
        VCHECK("ovo-pair", pos.size() == 1 && neg.size() == 1 && *pos.begin() != *neg.begin(), "a pairwise learner was trained on ", pos.size(), " against ", neg.size(), " classes");
        double P = *pos.begin(), N = *neg.begin();
        Rows want;
        for (auto &r : rows) if (r.y == P || r.y == N) want.push_back(r);
        VCHECK("ovo-training-set", bag(orig, true) == bag(want, true, [P](double y) { return y == P ? 1 : -1; }), "the learner of ", P, " against ", N, " was not trained on exactly the points of both");
        if (os) {
            std::map<double, size_t> before, after;
            for (auto &r : want) before[r.y == P ? 1 : -1]++;
            for (auto &r : t.rows) after[r.y]++;
            size_t least = std::min(before[1], before[-1]);
            VCHECK("ovo-oversampled-training-set", t.rows.size() == want.size() + least, "over-sampling added ", least, " points, the learner was trained on ", t.rows.size(), " of ", want.size() + least);
        }
        size_t pi = std::find(classes.begin(), classes.end(), (int)P) - classes.begin(), ni = std::find(classes.begin(), classes.end(), (int)N) - classes.begin();
        Stand<double> copy(base);
        DD td = data_of(t.rows);
        copy.setSamples(td);
        std::vector<Training> save;
        save.swap(LOG);
        copy.train();
        save.swap(LOG);
        duels.push_back({pi, ni, copy.key});
        pairs.insert({std::min(pi, ni), std::max(pi, ni)});
        vh::count("pairwise trainings");
    }
    VCHECK("ovo-all-pairs", pairs.size() == C * (C - 1) / 2, pairs.size(), " of ", C * (C - 1) / 2, " pairs of classes have a learner");
    for (int t = 0; t < 8; t++) {
        Row q = query(rng, rows);
        std::vector<double> votes(C, 0);
        for (auto &d : duels) {
            Stand<double> s;
            s.key = d.key;
            votes[s.evaluate(point_of(q)) == 1 ? d.pos : d.neg]++;
        }
        is_maximal("ovo-plurality", ovo->evaluate(point_of(q)), classes, votes, "one against one");
    }
    untouched("one against one", data, rows);
    vh::nontrivial(digest(rows));
    vh::sample(vh::cat("classes=", C, " n=", rows.size(), " trainings=", LOG.size(), " oversampling=", os));
}
WORKLOAD(one_vs_all, 500, 15000) {
    BINARY = true;
    size_t C = gen::many(rng, (size_t)rng.i(2, 5));
    Rows rows = source(rng, C);
    DD data = data_of(rows);
    auto classes = data.classes();
    Stand<double> base(rng.u64());
    Over over;
    bool os = rng.chance(0.3);
    LOG.clear();
    OneVsAll<double> ova(data, base, os ? &over : nullptr);
    VCHECK("ova-trains", ova.train(), "training failed");
    if (os) VCHECK("ova-oversamples", over.calls == (int)LOG.size(), "over-sampling used ", over.calls, " times for ", LOG.size(), " trainings");
    std::map<long long, double> label;
    for (auto &r : rows) label[r.id] = r.y;
    std::vector<uint64_t> key(C, 0);
    std::set<size_t> have;
    for (auto &t : LOG) {
        std::set<double> pos;
        Rows orig;
        for (auto &r : t.rows) {
            VCHECK("ova-binary-labels", r.y == 1 || r.y == -1, "a learner was trained with label ", r.y);
            if (r.id >= 100000) continue;
            if (r.y > 0) pos.insert(label[r.id]);
            orig.push_back(r);
        }
        VCHECK("ova-one-class", pos.size() == 1, "a learner was trained to recognise ", pos.size(), " classes");
        double P = *pos.begin();
        VCHECK("ova-training-set", bag(orig, true) == bag(rows, true, [P](double y) { return y == P ? 1 : -1; }), "the learner of class ", P, " was not trained on exactly all points, its own positive");
        if (os) VCHECK("ova-oversampled-training-set", t.rows.size() > rows.size(), "points added by over-sampling never reached the learner");
        size_t at = std::find(classes.begin(), classes.end(), (int)P) - classes.begin();
        Stand<double> copy(base);
        DD td = data_of(t.rows);
        copy.setSamples(td);
        std::vector<Training> save;
        save.swap(LOG);
        copy.train();
        save.swap(LOG);
        key[at] = copy.key;
        have.insert(at);
        vh::count("one-against-all trainings");
    }
    VCHECK("ova-all-classes", have.size() == C && LOG.size() == C, have.size(), " of ", C, " classes have a learner (", LOG.size(), " trainings)");
    for (int t = 0; t < 8; t++) {
        Row q = query(rng, rows);
        std::vector<double> score(C);
        for (size_t c = 0; c < C; c++) { Stand<double> s; s.key = key[c]; score[c] = s.evaluate(point_of(q), true); }
        is_maximal("ova-maximum", ova.evaluate(point_of(q)), classes, score, "one against all");
    }
    untouched("one against all", data, rows);
    vh::nontrivial(digest(rows));
}
// real base learners on classes each separable from all others: every training point is recognised
WORKLOAD(real_multiclass, 250, 6000) {
    size_t C = (size_t)rng.i(2, 4), each = (size_t)rng.i(2, 8);
    auto labs = gen::labels(rng, C);
    Rows rows;
    bool even = rng.chance(0.5);
    for (size_t c = 0; c < C; c++)
        for (size_t k = 0; k < (even ? each : (size_t)rng.i(2, 8)); k++) {
            Row r;
            r.y = labs[c];
            for (size_t j = 0; j < C; j++) r.x.push_back((j == c ? 6 : 0) + rng.d(-1, 1));
            rows.push_back(r);
        }
    rng.shuffle(rows);
    for (size_t k = 0; k < rows.size(); k++) rows[k].id = (long long)k + 1;
    DD data = data_of(rows);
    auto limits = [](auto &l) { l.setVerbose(0); l.setMaxTime(1e7); l.setMaxUpdates(20000); l.setMaxIterations(20000); };
    auto go = [&](auto &base, const char *who) {
        limits(base);
        OneVsOne<double> ovo(data, base);
        OneVsAll<double> ova(data, base);
        ovo.train();
        ova.train();
        for (auto &r : rows) {
            VCHECK(vh::cat("ovo-recognises:", who), ovo.evaluate(point_of(r)) == r.y, "one against one over ", who, " predicts ", ovo.evaluate(point_of(r)), " for training point ", r, " of separable data");
            VCHECK(vh::cat("ova-recognises:", who), ova.evaluate(point_of(r)) == r.y, "one against all over ", who, " predicts ", ova.evaluate(point_of(r)), " for training point ", r, " of separable data");
            vh::count("training points recognised");
        }
    };
    switch (rng.below(6)) {
        case 0: { PerceptronPrimal<double> b; go(b, "perceptron"); break; }
        case 1: { PerceptronDual<double> b(data, mltk::INNER_PRODUCT); go(b, "dual perceptron"); break; }
        case 2: { SMO<double> b(data, mltk::INNER_PRODUCT); b.setMaxEpochs(50000); go(b, "SMO"); break; }
        case 3: { IMAp<double> b; go(b, "IMA"); break; }
        case 4: { IMADual<double> b(mltk::INNER_PRODUCT); go(b, "dual IMA"); break; }
        default: { PerceptronFixedMarginDual<double> b(data, mltk::INNER_PRODUCT, 0, 0); go(b, "dual fixed margin perceptron"); break; }
    }
    untouched("multiclass", data, rows);
    vh::nontrivial(digest(rows));
}

// ------------------------------------------------------------------ ensembles
template <class E> static std::vector<double> votes_of(E &e, const std::vector<int> &classes, const PD &p, const std::vector<double> &w = {}) {
    std::vector<double> v(classes.size(), 0);
    size_t k = 0;
    for (auto &l : e) {
        double a = l->evaluate(p);
        size_t at = std::find(classes.begin(), classes.end(), (int)a) - classes.begin();
        if (at < v.size()) v[at] += w.empty() ? 1 : w[k];
        k++;
    }
    return v;
}
WORKLOAD(bagging, 500, 15000) {
    BINARY = false;
    size_t C = gen::many(rng, (size_t)rng.i(2, 4)), m = (size_t)rng.i(1, 15), seed = gen::seed_of(rng);
    Rows rows = source(rng, C, 60);
    DD data = data_of(rows);
    CLASSES = data.classes();
    Stand<double> base(rng.u64());
    LOG.clear();
    BaggingClassifier<double> bagc(data, base, m, seed);
    VCHECK("bagging-trains", bagc.train(), "training failed");
    auto first = LOG;
    VCHECK("bagging-size", first.size() == m && bagc.size() == m, first.size(), " learners trained of ", m);
    std::set<std::string> have;
    for (auto &r : rows) have.insert(vh::cat(r.y, vh::show(r.x)));
    std::set<std::string> different;
    for (auto &t : first) {
        // a stratified share of the data for each learner, every class represented
        std::map<double, size_t> has, total;
        for (auto &r : t.rows) has[r.y]++;
        for (auto &r : rows) total[r.y]++;
        size_t part = std::max<size_t>(1, rows.size() / m);
        for (auto &kv : total) {
            double share = (double)kv.second * part / rows.size();
            VCHECK("bagging-sample-size", has[kv.first] + 1e-9 >= std::max(1.0, std::floor(share + 1e-9) - 1 + (std::fabs(share - std::round(share)) > 1e-6)) && has[kv.first] <= std::max(1.0, share + 1e-6), "a learner was trained on ", has[kv.first], " points of class ", kv.first, ", its share is ", share);
        }
        for (auto &r : t.rows) VCHECK("bagging-sample", have.count(vh::cat(r.y, vh::show(r.x))), "a learner was trained on ", r, ", which is not in the data");
        different.insert(digest(t.rows));
        vh::count("bagged training sets");
    }
    if (m >= 4 && rows.size() / m >= 5) VCHECK("bagging-varied", different.size() > 1, "all ", m, " learners were trained on the same ", rows.size() / m, " points");
    for (int t = 0; t < 6; t++) {
        Row q = query(rng, rows);
        is_maximal("bagging-plurality", bagc.evaluate(point_of(q)), CLASSES, votes_of(bagc, CLASSES, point_of(q)), "bagging");
    }
    LOG.clear();
    BaggingClassifier<double> again(data, base, m, seed);
    again.train();
    bool same = LOG.size() == first.size();
    for (size_t k = 0; same && k < first.size(); k++) same = LOG[k].rows == first[k].rows && LOG[k].seed == first[k].seed;
    VCHECK("bagging-reproducible", same, "the same seed ", seed, " gave other training sets");
    LOG.clear();
    BaggingClassifier<double> other(data, base, m, seed + 7919);
    other.train();
    if (m >= 2 && rows.size() / m >= 5) {
        bool equal = true;
        for (size_t k = 0; k < first.size(); k++) equal = equal && LOG[k].rows == first[k].rows;
        VCHECK("bagging-seeded", !equal, "seeds ", seed, " and ", seed + 7919, " gave the same training sets");
    }
    untouched("bagging", data, rows);
    vh::nontrivial(digest(rows) + std::to_string(m));
}
WORKLOAD(voting, 600, 15000) {
    BINARY = false;
    size_t C = gen::many(rng, (size_t)rng.i(2, 4));
    Rows rows = source(rng, C);
    DD data = data_of(rows);
    CLASSES = data.classes();
    Stand<double> a(1), b(2), c(3), d(4);
    ACC = (int)rng.i(0, 80);
    LOG.clear();
    bool soft = rng.chance(0.5), four = rng.chance(0.5);
    auto go = [&](auto &v) {
        size_t m = four ? 4 : 3;
        size_t seed = (size_t)rng.i(0, 1000);
        v.setSeed(seed);
        VCHECK("voting-trains", v.train(), "training failed");
        VCHECK("voting-all-trained", LOG.size() == m, LOG.size(), " of ", m, " learners were trained");
        std::vector<size_t> first;
        for (auto &t : LOG) first.push_back(t.seed);
        for (auto &t : LOG) VCHECK("voting-training-set", bag(t.rows, true) == bag(rows, true), "a member was not trained on exactly the given data");
        for (int round = 0; round < 2; round++) {
            std::vector<double> w;
            if (soft) {
                for (size_t k = 0; k < m; k++) w.push_back(rng.chance(0.2) ? 0 : rng.d(0, 1));
                v.setWeights(w);
            }
            for (int t = 0; t < 6; t++) {
                Row q = query(rng, rows);
                is_maximal("voting-plurality", v.evaluate(point_of(q)), CLASSES, votes_of(v, CLASSES, point_of(q), w), soft ? vh::cat("weighted vote with ", vh::show(w)) : std::string("vote"));
            }
            if (soft) VCHECK("voting-weights", v.getWeights().X() == w, "weights changed from ", vh::show(w), " to ", vh::show(v.getWeights().X()));
        }
        // the same voter asked for the other kind of vote and back: each answer follows the kind and weights in force
        for (int round = 0; round < 3; round++) {
            bool now_soft = rng.chance(0.5);
            std::vector<double> w;
            for (size_t k = 0; k < m; k++) w.push_back(rng.chance(0.2) ? 0 : rng.d(0, 1));
            bool first_type = rng.chance(0.5);
            if (first_type) v.setVotingType(now_soft ? "soft" : "hard");
            v.setWeights(w);
            if (!first_type) v.setVotingType(now_soft ? "soft" : "hard");
            if (!now_soft) w.clear();
            for (int t = 0; t < 6; t++) {
                Row q = query(rng, rows);
                is_maximal("voting-switched-kind", v.evaluate(point_of(q)), CLASSES, votes_of(v, CLASSES, point_of(q), w), now_soft ? vh::cat("weighted vote after a switch, with ", vh::show(w)) : std::string("plain vote after weights were given"));
            }
            vh::count("switched votes");
        }
        v.setVotingType(soft ? "soft" : "hard");
        for (size_t other : {seed + 1, seed}) {
            LOG.clear();
            v.setSeed(other);
            v.train();
            bool same = LOG.size() == first.size();
            for (size_t k = 0; same && k < first.size(); k++) same = LOG[k].seed == first[k];
            VCHECK("voting-seeded", same == (other == seed), "trained with seed ", seed, " and then ", other, ", the members were ", same ? "" : "not ", "given the same seeds");
        }
        VotingClassifier<double> copy;
        copy = v;
        for (int t = 0; t < 3; t++) {
            Row q = query(rng, rows);
            VCHECK("voting-assigned", copy.evaluate(point_of(q)) == v.evaluate(point_of(q)), "an assigned voter answers ", copy.evaluate(point_of(q)), ", the original ", v.evaluate(point_of(q)));
        }
        // given other members, it is they who vote
        auto members = v.learners();
        rng.shuffle(members);
        members.resize(rng.i(1, (long long)m));
        copy.setLearners(members);
        VCHECK("voting-members", copy.size() == members.size() && std::equal(members.begin(), members.end(), copy.begin()), "given ", members.size(), " members the voter holds ", copy.size(), " (others)");
        std::vector<double> w;
        for (size_t k = 0; soft && k < members.size(); k++) w.push_back(rng.d(0, 1));
        if (soft) copy.setWeights(w);
        for (int t = 0; t < 3; t++) {
            Row q = query(rng, rows);
            is_maximal("voting-members", copy.evaluate(point_of(q)), CLASSES, votes_of(copy, CLASSES, point_of(q), w), "vote of members given later");
        }
        vh::count("voters given other members");
    };
    if (four) { VotingClassifier<double> v(data, soft ? "soft" : "hard", a, b, c, d); go(v); }
    else { VotingClassifier<double> v(data, soft ? "soft" : "hard", a, b, c); go(v); }
    ACC = 70;
    untouched("voting", data, rows);
    vh::nontrivial(digest(rows) + std::to_string(soft) + std::to_string(four));
}
WORKLOAD(adaboost, 600, 15000) {
    BINARY = false;
    size_t C = gen::many(rng, (size_t)rng.i(2, 4)), m = (size_t)rng.i(1, 12);
    Rows rows = source(rng, C);
    DD data = data_of(rows);
    CLASSES = data.classes();
    ACC = (int)rng.i(20, 100);
    Stand<double> base(rng.u64());
    AdaBoostClassifier<double> ada(data, base, m);
    auto samples = std::make_shared<DD>(data);
    // one object boosted up to three times: another seed, and sometimes other samples (of the same or another size)
    int trainings = (int)rng.i(1, 3);
    for (int tr = 0; tr < trainings; tr++) {
        LOG.clear();
        if (tr) {
            if (rng.chance(0.5)) {
                rows = rng.chance(0.5) ? source(rng, C) : rows;
                for (auto &r : rows) for (auto &x : r.x) x += 0.5;
                data = data_of(rows);
                CLASSES = data.classes();
                samples = std::make_shared<DD>(data);
                ada.setSamples(samples);
            }
            vh::count("boosted again");
        }
        C = CLASSES.size();
        ada.setSeed((size_t)rng.i(1, 1000));
        VCHECK("adaboost-trains", ada.train(), "training failed");
        VCHECK("adaboost-all-trained", LOG.size() == m && ada.size() == m, LOG.size(), " of ", m, " learners were trained");
        std::set<size_t> seeds;
        for (auto &t : LOG) seeds.insert(t.seed);
        VCHECK("adaboost-member-seeds", seeds.size() == m, m, " members were trained with ", seeds.size(), " different seeds");
        for (auto &t : LOG) VCHECK("adaboost-training-set", bag(t.rows, true) == bag(rows, true), "a member was not trained on exactly the given data");
        // reference: multi-class exponential reweighting from the members' own answers
        std::vector<double> w(rows.size(), 1.0 / rows.size()), alpha;
        bool fine = true;
        for (auto &l : ada) {
            std::vector<bool> bad;
            double e = 0, tot = 0;
            for (size_t i = 0; i < rows.size(); i++) {
                bad.push_back(l->evaluate(point_of(rows[i])) != rows[i].y);
                tot += w[i];
                if (bad[i]) e += w[i];
            }
            e /= tot;
            if (e > 1 - 1e-12) fine = false;
            double al = (e > 0 ? std::log((1 - e) / e) : 1) + std::log((double)C - 1);
            alpha.push_back(al);
            double s = 0;
            for (size_t i = 0; i < rows.size(); i++) { if (bad[i]) w[i] *= std::exp(al); s += w[i]; }
            for (auto &v : w) v /= s;
        }
        if (!fine) { vh::count("skipped: a member was always wrong"); continue; }
        for (int t = 0; t < 8; t++) {
            Row q = query(rng, rows);
            is_maximal("adaboost-weighted-vote", ada.evaluate(point_of(q)), CLASSES, votes_of(ada, CLASSES, point_of(q), alpha), vh::cat("training ", tr + 1, ", boosting with member weights ", vh::show(alpha)));
        }
        vh::count("boosted ensembles");
        untouched("boosting", data, rows);
        vh::nontrivial(digest(rows) + std::to_string(m) + std::to_string(tr));
        vh::sample(vh::cat("classes=", C, " members=", m, " weights=", vh::show(alpha, 6)));
    }
    ACC = 70;
}
WORKLOAD(committee, 200, 5000) {
    size_t m = (size_t)rng.i(1, 9), n = (size_t)rng.i(4, 30), seed = gen::seed_of(rng);
    Rows rows = gen::separable(rng, n, (size_t)rng.i(1, 4), rng.d(0.2, 1), true);
    DD data = data_of(rows);
    auto classes = data.classes();
    PerceptronCommittee<double> a(data, m), b(data, m);
    for (auto *p : {&a, &b}) {
        p->setSeed(seed);
        p->setVerbose(0);
        VCHECK("committee-trains", p->train(), "training failed");
        VCHECK("committee-size", p->size() == m, p->size(), " members of ", m);
    }
    for (int t = 0; t < 8; t++) {
        Row q = query(rng, rows);
        is_maximal("committee-majority", a.evaluate(point_of(q)), classes, votes_of(a, classes, point_of(q)), "committee");
        VCHECK("committee-reproducible", votes_of(a, classes, point_of(q)) == votes_of(b, classes, point_of(q)), "two committees with seed ", seed, " vote differently");
    }
    for (auto &r : rows) VCHECK("committee-separates", a.evaluate(point_of(r)) == r.y, "a committee of separators misses training point ", r);
    untouched("committee", data, rows);
    vh::nontrivial(digest(rows) + std::to_string(m));
}
WORKLOAD(auto_weighted, 64, 1500) {
    BINARY = false;
    size_t C = (size_t)rng.i(2, 3);
    Rows rows = source(rng, C, 60, 12);
    DD data = data_of(rows);
    CLASSES = data.classes();
    ACC = (int)rng.i(30, 70);
    Stand<double> a(1), b(2), c(3);
    bool simplex = rng.chance(0.5);
    size_t seed = gen::seed_of(rng);
    int its = (int)rng.i(1, 3);
    double acc[2];
    std::vector<double> ws[3];
    auto score = [&](AutoWeightedVoting<double> &v, const std::vector<double> &w) {
        auto pair = v.getValidPair();
        size_t good = 0;
        for (auto &r : rows_of(pair.test)) good += v.evaluate(point_of(r)) == r.y;
        (void)w;
        return (double)good / pair.test.size();
    };
    for (int round = 0; round < 3; round++) {
        LOG.clear();
        AutoWeightedVoting<double> v(data, simplex, a, b, c);
        v.setSeed(seed);
        v.setMaxIterations(round == 0 ? 0 : its);
        VCHECK("auto-trains", v.train(), "training failed");
        auto pair = v.getValidPair();
        Rows tr = rows_of(pair.train), te = rows_of(pair.test), all = tr;
        all.insert(all.end(), te.begin(), te.end());
        VCHECK("auto-split", bag(all, true) == bag(rows, true), "training and validation points together are not the data");
        VCHECK("auto-all-trained", LOG.size() == 3, LOG.size(), " of 3 members trained");
        for (auto &t : LOG) VCHECK("auto-no-leak", bag(t.rows, true) == bag(tr, true), "a member was not trained on exactly the training part");
        auto w = v.getBestWeights().X();
        ws[round] = w;
        VCHECK("auto-weights", w.size() == 3, w.size(), " weights for 3 members");
        double s = 0;
        for (double x : w) { VCHECK("auto-weights", std::isfinite(x) && x >= 0, "weight ", x); s += x; }
        if (simplex) VCHECK("auto-simplex", std::fabs(s - 1) < 1e-6, "weights ", vh::show(w), " sum to ", s);
        for (int t = 0; t < 6; t++) {
            Row q = query(rng, rows);
            is_maximal("auto-weighted-vote", v.evaluate(point_of(q)), CLASSES, votes_of(v, CLASSES, point_of(q), w), vh::cat("weights ", vh::show(w)));
        }
        double mine = score(v, w);
        if (round < 2) acc[round] = mine;
        // three members have only six kinds of weights that vote differently: one outweighs the
        // others, or any two outweigh the third; a thousand random weights meet them all
        for (size_t lead = 0; lead < 3; lead++)
            for (bool alone : {true, false}) {
                std::vector<double> ref(3, alone ? 0.1 : 0.7);
                ref[lead] = 1;
                size_t good = 0;
                for (auto &r : te) {
                    auto votes = votes_of(v, CLASSES, point_of(r), ref);
                    good += CLASSES[std::max_element(votes.begin(), votes.end()) - votes.begin()] == r.y;
                }
                VCHECK("auto-best-weights", mine >= (double)good / te.size() - 1e-12, "the chosen weights ", vh::show(w), " have validation accuracy ", mine, ", weights ", vh::show(ref), " have ", (double)good / te.size());
            }
        vh::count("weight searches");
    }
    VCHECK("auto-reproducible", ws[1] == ws[2], "seed ", seed, " gave weights ", vh::show(ws[1]), " and then ", vh::show(ws[2]));
    if (!simplex) {
        AutoWeightedVoting<double> v(data, simplex, a, b, c);
        v.setSeed(seed + 1);
        v.setMaxIterations(0);
        v.train();
        VCHECK("auto-seeded", v.getBestWeights().X() != ws[0], "seeds ", seed, " and ", seed + 1, " gave the same weights ", vh::show(ws[0]));
        v.setSeed(seed);
        v.train();
        VCHECK("auto-reproducible", v.getBestWeights().X() == ws[0], "trained again with seed ", seed, " the weights ", vh::show(ws[0]), " became ", vh::show(v.getBestWeights().X()));
    }
    VCHECK("auto-never-worse", acc[1] >= acc[0] - 1e-12, "validation accuracy ", acc[0], " of the initial weights fell to ", acc[1], " after ", its, " generations");
    ACC = 70;
    untouched("weighted voting", data, rows);
    vh::nontrivial(digest(rows));
    vh::sample(vh::cat("simplex=", simplex, " weights ", vh::show(ws[1]), " accuracy ", acc[0], " -> ", acc[1]));
}
// with more members the first random weights are seldom the best: some searches must improve on them
WORKLOAD(auto_improves, 8, 120) {
    BINARY = false;
    ACC = 45;
    bool better = false;
    int runs = 0;
    for (int attempt = 0; attempt < 60 && !better; attempt++) {
        size_t C = 3;
        Rows rows = source(rng, C, 400, 60);
        DD data = data_of(rows);
        CLASSES = data.classes();
        std::vector<Stand<double>> s;
        for (size_t k = 0; k < 7; k++) s.emplace_back(rng.u64());
        bool simplex = rng.chance(0.5);
        size_t seed = gen::seed_of(rng);
        double acc[2];
        for (int round = 0; round < 2; round++) {
            AutoWeightedVoting<double> v(data, simplex, s[0], s[1], s[2], s[3], s[4], s[5], s[6]);
            v.setSeed(seed);
            v.setMaxIterations(round == 0 ? 0 : 3);
            v.train();
            auto pair = v.getValidPair();
            size_t good = 0;
            for (auto &r : rows_of(pair.test)) good += v.evaluate(point_of(r)) == r.y;
            acc[round] = (double)good / pair.test.size();
        }
        VCHECK("auto-never-worse", acc[1] >= acc[0] - 1e-12, "validation accuracy ", acc[0], " of the initial weights fell to ", acc[1]);
        better = acc[1] > acc[0];
        runs++;
        vh::count("longer searches");
    }
    VCHECK("auto-improves", better, runs, " weight searches over 7 members never improved on their first random weights");
    ACC = 70;
    vh::nontrivial(vh::cat(runs, " searches"));
    vh::sample(vh::cat("improved after ", runs, " searches"));
}
VH_MAIN
