// Pairwise distance matrix: every entry against a direct evaluation, for any thread count and id order.
#include "gen.hpp"
#include "ufjfmltk/core/DistanceMatrix.hpp"
#include "ufjfmltk/core/DistanceMetric.hpp"
using namespace gen;

template <class F> static void one(vh::Rng &rng, const char *name, const Rows &rows, F ref) {
    DD d = data_of(rows, true);
    Rows before = rows_of(d);
    size_t n = d.size();
    bool diag = rng.chance(0.5);
    size_t threads = rng.chance(0.03) ? (size_t)rng.i(9, 64) : (size_t)rng.i(1, 8);
    typedef mltk::metrics::dist::DistanceMatrix<F> M;
    M m(d, diag, threads);
    std::string w = vh::cat(name, " matrix of ", n, " points", diag ? " (diagonal)" : "", " on ", threads, " threads");
    VCHECK("matrix:size", m.size() == n, w, ": ", m.size(), " rows");
    VCHECK("matrix:diagonal-flag", m.isDiagonalMatrix() == diag, w, ": isDiagonalMatrix() is ", m.isDiagonalMatrix());
    for (size_t a = 0; a < n; a++) {
        size_t ia = (size_t)rows[a].id;
        const auto &row = m[ia - 1];
        VCHECK("matrix:row-length", row.size() == (diag ? ia : n), w, ": row of id ", ia, " has ", row.size(), " entries");
        for (size_t b = 0; b < n; b++) {
            size_t ib = (size_t)rows[b].id;
            if (diag && ib > ia) continue;
            double want = a == b ? 0.0 : ref(*d.point((int)a), *d.point((int)b));
            double got = row[ib - 1];
            VCHECK("matrix:entry", vh::close(got, want, 1e-12, 1e-300), w, ": distance between ids ", ia, " and ", ib, " is ", got, ", expected ", want);
            vh::count("matrix entries");
        }
    }
    VCHECK("matrix:data-changed", rows_of(d) == before, w, ": the dataset was changed");
    vh::nontrivial(vh::cat(name, diag, threads, digest(rows)));
}
WORKLOAD(matrices, 1500, 60000) {
    size_t n = rng.chance(0.15) ? 1 : gen::grow(rng, (size_t)rng.i(2, 40), 0.02, 300), d = gen::wide(rng, (size_t)rng.i(1, 8));
    auto labs = labels(rng, std::min<size_t>(n, (size_t)rng.i(1, 3)));
    Rows r = rows(rng, n, d, labs, (int)rng.below(6));
    if (rng.chance(0.6)) {   // ids in any order
        std::vector<long long> ids;
        for (size_t k = 0; k < n; k++) ids.push_back((long long)k + 1);
        rng.shuffle(ids);
        for (size_t k = 0; k < n; k++) r[k].id = ids[k];
        vh::count("permuted ids");
    }
    switch (rng.below(4)) {
        case 0: one(rng, "euclidean", r, mltk::metrics::dist::Euclidean<double>()); break;
        case 1: one(rng, "manhattan", r, mltk::metrics::dist::Manhattan<double>()); break;
        case 2: one(rng, "hassanat", r, mltk::metrics::dist::Hassanat<double>()); break;
        default: one(rng, "chebyshev", r, mltk::metrics::dist::Chebyshev<double>()); break;
    }
}
VH_MAIN
