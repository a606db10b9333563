"""Which harness decides which property, in which sanitizer build."""
def U(src, flavor="asan", **k):
    d = dict(src=src, flavor=flavor)
    d.update(k)
    return d

LC = ["core", "classifier"]

PROPS = {
    "D01": dict(
        units=[U("d01_history.cpp")],
        rule="A case is one random edit history (12-120 operations) on a dataset; it is distinct by its operation trace and non-trivial because every step is compared with the row model.",
        must_observe=["ops", "normalisations"],
    ),
    "D02": dict(units=[U("d02_copies.cpp")], rule="A case copies or derives a dataset, then edits one side and compares a full snapshot of the other.", must_observe=["mutations"]),
    "D03": dict(units=[U("d03_features.cpp")], rule="A case is one dataset with named columns and one chain of removals, or one selection; distinct by names, data and chosen columns.", must_observe=["removals", "const removals", "selections", "keepers", "point selections", "names out of order", "selections naming no feature"]),
    "D04": dict(units=[U("d04_files.cpp", workloads=["load_fidelity", "reload_same_object"])], rule="A case is one generated well-formed file (format, label style, number spelling, separators) or a sequence of loads into one object; distinct by file text.",
        must_observe=["loads:csv(label first)", "loads:csv(label last)", "loads:data", "loads:arff", "loads:txt", "reloads"]),
    "D05": dict(units=[U("d04_files.cpp", workloads=["write_then_load"])], rule="A case writes one dataset and reads the file back; distinct by content and format.", must_observe=["writes:csv", "writes:data", "writes:plt"]),
    "D06": dict(units=[U("d04_files.cpp", workloads=["malformed", "odd_paths"])], rule="A case is one mangled file or odd path given to a loader; distinct by bytes and outcome.", must_observe=["accepted", "rejected", "odd paths"]),
    "D07": dict(units=[U("d07_splits.cpp", workloads=["kfold_conserves", "train_test_conserves", "parts_conserve"])], rule="A case is one dataset split one way; distinct by data and split parameters; every point of every part is traced to the source.", must_observe=["kfold pairs"]),
    "D08": dict(units=[U("d07_splits.cpp", workloads=["stratified_balance", "seed_reproduces", "sampling_draws"])], rule="A case is one stratified split, or one seeded operation run twice; distinct by data and parameters.", must_observe=["stratified splits"]),
    "D09": dict(units=[U("m01_math.cpp", workloads=["conversions"])], rule="A case converts one integer, several reals, one arbitrary string over the number alphabet and one delimited line; distinct by those values.", must_observe=["conversions", "valid numbers drawn", "invalid numbers drawn"]),
    "M01": dict(units=[U("m01_math.cpp", workloads=["expressions", "reductions"])], rule="A case evaluates the full list of expression shapes, compound assignments and reductions on one triple of points; distinct by dimension and values.", must_observe=["expressions", "compound assignments", "reductions"]),
    "M02": dict(units=[U("m01_math.cpp", workloads=["statistics"])], rule="A case computes every statistic of one dataset, with and without one named feature; distinct by data and feature.", must_observe=["statistics", "centre distances"]),
    "M03": dict(units=[U("m01_math.cpp", workloads=["distances"])], rule="A case evaluates every applicable distance on one triple of points; distinct by points.", must_observe=["distances"]),
    "M04": dict(units=[U("m04_matrix.cpp"), U("m04_matrix.cpp", "tsan", scale=0.3)], rule="A case builds the distance matrix of one dataset for one distance, thread count and id order; distinct by those.", must_observe=["matrix entries", "permuted ids"]),
    "M05": dict(units=[U("m01_math.cpp", workloads=["kernels"])], rule="A case builds the kernel and H matrices of one dataset for one kernel, with a fresh or previously used kernel object; distinct by data and kernel.", must_observe=["kernel entries", "reused kernels", "kernel norms"]),
    "M06": dict(units=[U("m06_random.cpp", workloads=["ranges", "seeds"])], rule="A case draws from one set of ranges, or replays one seeded mixed stream; distinct by ranges or seed and stream.", must_observe=["draws", "ranges covered", "seeded streams"]),
    "M07": dict(units=[U("m06_random.cpp", workloads=["spirals", "blobs", "regression"])], rule="A case generates one synthetic dataset three times (twice with one seed, once with another) and checks it against its definition; distinct by parameters.", must_observe=["samples on their spiral", "blob samples", "regression targets"]),
    "C01": dict(units=[U("c01_pool.cpp", fl, workloads=["exactly_once", "destructor_drains", "fifo", "all_threads_work", "synced_lines"], libs=[]) for fl in ("tsan", "asan", "plain")],
        rule="A case runs one random set of tasks from several producers; distinct by the recorded order of start and end events (the interleaving actually seen).", must_observe=["tasks", "futures", "exceptions delivered", "tasks overlapping", "full pools", "pools destroyed"]),
    "C02": dict(units=[U("c01_pool.cpp", fl, workloads=["loop_coverage"], libs=[]) for fl in ("tsan", "asan", "plain")],
        rule="A case runs several parallel loops on one pool; distinct by bounds, index types, blocks and threads.", must_observe=["loops", "concurrent loops"]),
    "C03": dict(units=[U("c01_pool.cpp", fl, workloads=["pause_resume", "reset_keeps_tasks"], libs=[]) for fl in ("tsan", "asan", "plain")],
        rule="A case pauses, refills, resets and resumes one pool while tasks run; distinct by the recorded order of start and end events.", must_observe=["pauses", "tasks held back", "resets", "paused pools reset"]),
    "L01": dict(units=[U("l01_learners.cpp", workloads=["knn_classify", "knn_regress"], libs=LC)], rule="A case trains one nearest-neighbour model on one dataset (ties, repeated points and permuted ids included) and queries it singly, in batch and through precomputed distances; distinct by data, metric and k.",
        must_observe=["kNN predictions", "kNN predictions with tied neighbours", "kNN probabilities", "kNN regressions"]),
    "L02": dict(units=[U("l01_learners.cpp", workloads=["perceptron_primal", "fixed_margin_primal", "fixed_margin_ima", "balanced"], libs=LC)], rule="A case trains one primal perceptron on a planted separable or a noisy dataset and re-evaluates every training point; distinct by data.",
        must_observe=["separable problems converged", "successful trainings", "successful trainings with a margin", "training points re-evaluated"]),
    "L03": dict(units=[U("l01_learners.cpp", workloads=["perceptron_dual", "fixed_margin_dual"], libs=LC)], rule="A case trains one dual perceptron with one kernel and recomputes its function from its alphas at training and other points; distinct by data and kernel.",
        must_observe=["separable problems converged", "dual evaluations", "successful trainings with a margin", "feature weights of kernels"]),
    "L04": dict(units=[U("l01_learners.cpp", workloads=["smo"], libs=LC)], rule="A case trains SMO on one dataset with one kernel and checks the optimality conditions of its solution; distinct by data and kernel.",
        must_observe=["successful trainings", "dual evaluations", "feature weights of kernels"]),
    "L05": dict(units=[U("l01_learners.cpp", workloads=["ima_primal", "ima_dual"], libs=LC)], rule="A case trains an incremental-margin learner and recomputes its margin and norm from its solution; distinct by data and kernel or norm.",
        must_observe=["given separators kept", "margins compared with the best known", "margins of dual IMA", "successful trainings", "feature weights of kernels"]),
    "L06": dict(units=[U("l01_learners.cpp", workloads=["lms"], libs=LC)], rule="A case fits exactly linear data with least mean squares; distinct by data.", must_observe=["exactly linear problems fitted"]),
    "L07": dict(units=[U("l01_learners.cpp", workloads=["reused_learners", "reused_kernel"], libs=LC)], rule="A case moves one learner object through three datasets of different sizes and dimensions; distinct by learner and data.", must_observe=["trainings of reused learners", "kernel learners reused"]),
    "E01": dict(units=[U("e01_ensembles.cpp", workloads=["one_vs_one", "one_vs_all", "real_multiclass"], libs=LC)], rule="A case trains one multiclass wrapper over recording stand-ins (or real learners) on one dataset, with or without over-sampling, and queries it; distinct by data.",
        must_observe=["pairwise trainings", "one-against-all trainings", "combined answers", "training points recognised", "points added by over-sampling"]),
    "E02": dict(units=[U("e01_ensembles.cpp", workloads=["bagging", "voting", "committee"], libs=LC)], rule="A case trains one bagged, voting or committee ensemble and recounts its votes from its members' own answers; distinct by data, size and vote type.",
        must_observe=["voters given other members", "combined answers", "bagged training sets"]),
    "E03": dict(units=[U("e01_ensembles.cpp", workloads=["adaboost"], libs=LC)], rule="A case boosts stand-ins of one accuracy on one dataset and replays the reweighting from the members' answers; distinct by data and size.",
        must_observe=["combined answers", "boosted ensembles"]),
    "E04": dict(units=[U("e01_ensembles.cpp", workloads=["auto_weighted", "auto_improves"], libs=LC)], rule="A case searches weights three times (no generation, twice the same seed); distinct by data.",
        must_observe=["combined answers", "weight searches", "longer searches"]),
    "K01": dict(units=[U("k01_kmeans.cpp")], rule="A case clusters one dataset twice with one seed (and then other samples with the same object) and recomputes assignments, means and variance, or counts where the first centres were put; distinct by data, clusters and seed.",
        must_observe=["k-means answers", "cluster means compared", "two-place seedings", "seedings counted", "k-means moved to other samples"]),
    "V01": dict(units=[U("v01_validation.cpp", workloads=["confusion", "classification_report"])], rule="A case reports on one dataset with one predictor (or two label lists) and recounts matrix, counts and ratios; distinct by labels and predictions.",
        must_observe=["confusion matrices", "binary reports", "untrained models", "label lists compared"]),
    "V02": dict(units=[U("v01_validation.cpp", workloads=["cross_validation", "repeated_validation", "default_arguments", "real_learners"])], rule="A case cross-validates a recording stand-in (or a real learner) on one dataset of distinct points and retraces every training and test point; distinct by data, folds and seed.",
        must_observe=["folds watched", "primal validations", "dual validations", "reports with counts", "repeated validations", "default validations", "talkative validations", "real cross-validations"]),
    "S01": dict(units=[U("s01_sampling.cpp", workloads=["smote", "borderline"])], rule="A case over-samples one unbalanced dataset twice with one seed and locates every added point; distinct by data, neighbours and seed.",
        must_observe=["artificial points", "borderline runs that added points", "borderline points judged"]),
    "S02": dict(units=[U("s01_sampling.cpp", workloads=["subspaces"])], rule="A case draws random and diverse feature subspaces of one dataset; distinct by data, share, seed and sizes.",
        must_observe=["random subspaces", "diverse subspaces"]),
    "F01": dict(units=[U("f01_select.cpp", workloads=["filters", "elimination"], libs=LC)], rule="A case selects features of one dataset (unordered names and constant features included) with a stand-in classifier of set weights, some trainings failing; distinct by data, names and parameters.",
        must_observe=["selections", "rankings compared", "trainings watched", "failed trainings recovered", "selections repeated"]),
    "F02": dict(units=[U("f01_select.cpp", workloads=["ordered_search"], libs=LC)], rule="A case runs one ordered search on one dataset with one breadth, sorting, choice, look-ahead and cut; distinct by data and those.",
        must_observe=["selections", "trainings watched", "greedy searches"]),
    "G01": dict(units=[U("g01_visual.cpp", libs=["core", "classifier", "visual"])], rule="A case plots one dataset (named classes, dropped columns, shared or private sessions, other plots alive) several times and reads back the script sent to a recording gnuplot and the files it draws; distinct by data and plots.",
        must_observe=["plots", "series read back", "points seen in plots", "ranges", "separators evaluated", "regressors drawn", "surfaces", "grid points", "plot files kept", "foreign folders spared", "samples replaced"]),
}

# quick runs: every workload of a property is multiplied by this, so that a quick check works for 5-20 s
for _p, _q in dict(D01=12, D02=16, D03=12, D04=10, D05=16, D06=16, D07=10, D08=3, D09=40, M01=40, M02=25, M03=40, M04=5, M05=40, M06=40, M07=10,
                   C01=2, C02=4, C03=2, L01=8, L02=6, L03=20, L04=1.5, L05=8, L06=20, L07=40, E01=3, E02=15, E03=12, E04=1,
                   K01=8, V01=15, V02=10, S01=12, S02=30, F01=8, F02=1, G01=3).items():
    PROPS[_p]["qx"] = _q
