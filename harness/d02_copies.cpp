// D02: copies and derived datasets share no state with their source.
#include "gen.hpp"
#include <memory>
#include "ufjfmltk/valid/Validation.hpp"
using namespace gen;

namespace {
struct Snap {
    Rows rows;
    std::vector<int> names, classes, index;
    std::vector<size_t> dist;
    std::vector<std::string> cnames;
    std::string name, type;
    bool normalized, empty;
    size_t dim;
    bool operator==(const Snap &o) const {
        return rows == o.rows && names == o.names && classes == o.classes && index == o.index && dist == o.dist &&
               cnames == o.cnames && name == o.name && type == o.type && normalized == o.normalized && empty == o.empty && dim == o.dim;
    }
};
std::ostream &operator<<(std::ostream &o, const Snap &s) {
    return o << "rows=" << vh::show(s.rows, 12) << " names=" << vh::show(s.names) << " classes=" << vh::show(s.classes) << " dist=" << vh::show(s.dist)
             << " cnames=" << vh::show(s.cnames) << " index=" << vh::show(s.index) << " name=" << s.name << " type=" << s.type << " norm=" << s.normalized
             << " empty=" << s.empty << " dim=" << s.dim;
}
Snap snap(const DD &d) {
    Snap s;
    s.rows = rows_of(d);
    s.names = d.getFeaturesNames();
    s.classes = d.classes();
    s.index = d.getIndex();
    s.dist = d.classesDistribution();
    s.cnames = d.classesNames();
    s.name = d.name();
    s.type = d.getType();
    s.normalized = d.isNormalized();
    s.empty = d.isEmpty();
    s.dim = d.dim();
    return s;
}
std::string mutate(vh::Rng &g, DD &d) {
    std::string t;
    int k = 1 + (int)g.below(3);
    for (int q = 0; q < k; q++) {
        if (d.size() == 0) return t;
        switch (g.below(11)) {
            case 0: d.point((int)g.below(d.size()))->X()[0] += 1.5; t += " edit-x"; break;
            case 1: if (q + 1 < k) continue;   // bypasses the class bookkeeping, so nothing may follow it
                d.point((int)g.below(d.size()))->Y() += 1; t += " edit-y"; break;
            case 2: d.point((int)g.below(d.size()))->Id() += 1000; t += " edit-id"; break;
            case 3: d.point((int)g.below(d.size()))->Alpha() += 1; t += " edit-alpha"; break;
            case 4: d.shuffle(1 + g.below(99)); t += " shuffle"; break;
            case 5: d.removePoint((int)d.point(0)->Id()); t += " removePoint"; break;
            case 6: if (d.dim() > 1) { d.removeFeatures({d.getFeaturesNames()[0]}); t += " removeFeatures"; } break;
            case 7: d.updatePointValue(g.below(d.size()), 91); t += " relabel"; break;
            case 8: d.normalize(2); t += " normalize"; break;
            case 9: { PD p(d.dim()); p.Y() = 93; d.insertPoint(p); t += " insert"; break; }
            default: d.apply([](mltk::PointPointer<double> p) { for (auto &v : p->X()) v = -v; }); t += " apply"; break;
        }
    }
    d.setName("mutated");
    return t;
}
void isolated(vh::Rng &g, DD &src, std::vector<DD *> derived, const std::string &how) {
    Snap before = snap(src);
    for (DD *d : derived) {
        if (d->size() == 0) continue;
        std::string t = mutate(g, *d);
        vh::count("mutations");
        VCHECK("isolation:derived->source:" + how, snap(src) == before, how, ": editing the result (", t, ") changed the source from ", before, " to ", snap(src));
    }
    std::vector<Snap> ds;
    for (DD *d : derived) ds.push_back(snap(*d));
    std::string t = mutate(g, src);
    vh::count("mutations");
    for (size_t k = 0; k < derived.size(); k++)
        VCHECK("isolation:source->derived:" + how, snap(*derived[k]) == ds[k], how, ": editing the source (", t, ") changed result ", k, " from ", ds[k], " to ", snap(*derived[k]));
    for (size_t a = 0; a < derived.size(); a++) {   // and the parts do not share points with each other
        std::set<const void *> seen;
        for (auto &p : src.points()) seen.insert(p.get());
        for (auto &p : derived[a]->points()) VCHECK("isolation:shared-point:" + how, seen.insert(p.get()).second, how, ": a point object is shared");
    }
}
DD source(vh::Rng &g) {
    size_t n = gen::grow(g, 4 + g.below(14)), d = gen::wide(g, 2 + g.below(4));
    DD x = data_of(gen::rows(g, n, d, labels(g, 1 + g.below(3)), 0, 1), true);
    if (g.chance(0.3)) { auto nm = x.getFeaturesNames(); for (auto &v : nm) v += 10; x.setFeaturesNames(nm); }
    x.setName("source");
    for (auto &p : x) if (g.chance(0.3)) p->Alpha() = g.d(0, 1);
    return x;
}
}  // namespace

WORKLOAD(full_copies, 4000, 60000) {
    DD src = source(rng);
    if (rng.chance(0.2)) src.normalize(2);
    if (rng.chance(0.3)) src.shuffle(7);
    if (rng.chance(0.2)) src.setType(rng.chance(0.5) ? "Regression" : "MultiClassification");
    Snap s0 = snap(src);
    int how = (int)rng.below(4);
    DD target;
    std::string name;
    if (how == 0) { name = "copy()"; DD c = src.copy(); target.copy(c); }
    else if (how == 1) { name = "copy constructor"; DD c(src); target.copy(c); }
    else if (how == 2) { name = "copy into non-empty"; target = data_of(gen::rows(rng, 3, 2, {5, 6}, 0, 1)).copy(); target.copy(src); }
    else { name = "train/test pair"; DD other = source(rng); mltk::validation::TrainTestPair<double> p(src, other); Snap o = snap(other); VCHECK("copy:equal", snap(p.test) == o, "pair test copy differs"); target.copy(p.train); }
    VCHECK("copy:equal", snap(target) == s0, name, ": copy ", snap(target), " differs from source ", s0);
    VCHECK("copy:operator==", target == src && !(target != src), name, ": copy does not compare equal");
    std::string desc = vh::cat(name, " n=", src.size(), " d=", src.dim(), " ", vh::show(s0.rows, 3));
    isolated(rng, src, {&target}, name);
    Snap a = snap(target), b = snap(src);
    bool same_x = a.rows.size() == b.rows.size();   // points compare by their features
    for (size_t k = 0; same_x && k < a.rows.size(); k++) same_x = a.rows[k].x == b.rows[k].x;
    if (!same_x || a.names != b.names) VCHECK("copy:operator!=", target != src && !(target == src), name, ": different datasets compare equal");
    vh::nontrivial(desc + digest(s0.rows));
    vh::sample(desc);
}
WORKLOAD(derived, 4000, 60000) {
    DD src = source(rng);
    size_t d = src.dim();
    auto names = src.getFeaturesNames();
    uint64_t tag = rng.s;
    std::string how;
    // results are kept where the library put them: copying a dataset (into a vector, say) would hide shared points
    std::vector<DD> parts;
    std::unique_ptr<DD> one;
    std::vector<mltk::validation::TrainTestPair<double>> pairs;
    std::unique_ptr<mltk::validation::TrainTestPair<double>> pair;
    std::vector<DD *> ptr;
    DD other = source(rng);
    switch (rng.below(9)) {
        case 0: how = "splitSample"; parts = src.splitSample(1 + rng.below(4), rng.chance(0.5), rng.chance(0.5), 5); break;
        case 1: how = "splitByClasses"; parts = src.splitByClasses(rng.chance(0.5)); break;
        case 2: how = "sampling"; { bool again = rng.chance(0.5); auto *t = new DD(src.sampling(1 + rng.below(src.size()), again, 9)); one.reset(t); } break;
        case 3: how = "selectFeatures"; { std::vector<size_t> f; for (int v : names) if (f.empty() || rng.chance(0.6)) f.push_back(v); one.reset(new DD(src.selectFeatures(f))); } break;
        case 4: how = "insertFeatures"; { std::vector<int> f; for (int v : names) if (rng.chance(0.6)) f.push_back(v); one.reset(new DD(src.insertFeatures(f, rng.chance(0.7)))); } break;
        case 5: how = "removeFeatures(const)"; { const DD &c = src; int q = (int)rng.below(names.size()); one.reset(new DD(c.removeFeatures(names, q))); } break;
        case 6: how = "kfoldsplit"; pairs = mltk::validation::kfoldsplit(src, 2 + rng.below(2), rng.chance(0.5), true, 3); break;
        case 7: how = "partTrainTest"; pair.reset(new mltk::validation::TrainTestPair<double>(mltk::validation::partTrainTest(src, 2 + rng.below(2), rng.chance(0.5), true, 3))); break;
        default: {
            how = "join";
            while (other.dim() != d) other = source(rng);
            one.reset(new DD);
            if (rng.chance(0.5)) one->copy(data_of(gen::rows(rng, 2, d, {1}, 0, 1)));
            one->join(src);
        }
    }
    for (auto &o : parts) ptr.push_back(&o);
    if (one) ptr.push_back(one.get());
    for (auto &p : pairs) { ptr.push_back(&p.train); ptr.push_back(&p.test); }
    if (pair) { ptr.push_back(&pair->train); ptr.push_back(&pair->test); }
    isolated(rng, src, ptr, how);
    vh::count("derived:" + how);
    vh::nontrivial(how + std::to_string(tag));
}
VH_MAIN
