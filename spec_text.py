# Property texts (executed by spec.py).
H, I, C, S_, F = "histories", "inputs", "configurations", "schedules", "fault_sequences"
DATA = CORE + "Data.hpp"

P("D01", "Dataset bookkeeping stays exact through any sequence of edits",
  "After any sequence of inserting, removing, relabelling, joining, shuffling, normalising and clearing, a dataset holds exactly the points a plain list under the same edits would hold, in the same order and with the same ids, labels and values. Its size, dimension, feature names, empty flag, class list, class names and per-class counts always agree with those points. An edit that is refused changes nothing.",
  [H, I], "every edit sequence over every small dataset shape, label set and value distribution",
  "tests perform one or two edits on one fixed file; the state that goes wrong (counts, names, index) depends on the order of several edits",
  [DATA], [("insertion, removal, relabelling", DATA + ": insertPoint, removePoint, removePoints, updatePointValue"), ("join, clear, recount", DATA + ": join, clear, computeClassesDistribution")],
  ["size()", "dim()", "points()", "classes()", "classesDistribution()", "getFeaturesNames()"],
  tech="row-model monitor stepped alongside random edit histories")
P("D02", "Copies and derived datasets share no state with their source",
  "A copy of a dataset (copy() or copy construction) equals its source in points, labels, ids, feature names, classes, counts, name, type and flags. Editing a copy, or any dataset obtained by splitting, sampling, selecting, removing or joining, never changes the source, and editing the source never changes them.",
  [H, I], "every way of copying or deriving a dataset followed by any edit on either side",
  "tests compare a copy once right after making it and never edit one side while watching the other",
  [DATA, VAL], [("deep copies", DATA + ": copy, copy constructor"), ("derivation", DATA + ": splitSample, splitByClasses, sampling, selectFeatures, insertFeatures, join"), ("validation pairs", VAL + ": kfoldsplit, partTrainTest")],
  tech="snapshot comparison of both sides around random edits")
P("D03", "Feature removal and selection keep every remaining column intact",
  "Removing or selecting features by name leaves exactly the requested columns, in their original order, and every remaining value stays with its own point and its own feature name. Ids, labels, weights, classes and point order are untouched, names that do not exist are ignored on removal, and the non-modifying forms leave the source as it was.",
  [I, H], "every dataset shape and feature names (with or without gaps, in any order; point-wise selection by name: in increasing order), every subset of names in any order, and chains of removals",
  "tests remove one feature set from one dataset; misaligned columns need gaps in the names, unsorted requests or repeated removals",
  [DATA, CORE + "Point.hpp"], [("column edits", DATA + ": removeFeatures, selectFeatures, insertFeatures, getFeature"), ("point subset", CORE + "Point.hpp: selectFeatures")],
  tech="column-model monitor over random name subsets")
P("D04", "A well-formed file loads as exactly the samples it contains",
  "Loading a well-formed comma or semicolon separated, sparse-style, header-less ARFF or plain coordinate text file yields one point per line in order, with every number read at its written value, every class label mapped consistently to one class in order of first appearance, correct per-class counts, class names and feature names, and ids numbered from one. This holds for either position of the label, any usual spelling of numbers and padding, regression targets, and no matter what was loaded into the same object before.",
  [I, H], "every well-formed file of each format, label style and number spelling, and every sequence of loads into one object",
  "tests open a handful of shipped files and check sizes or one point",
  [DATA, CSRC + "Utils.cpp"], [("loaders", DATA + ": load, load_csv, load_data, load_arff, load_txt"), ("labels", DATA + ": process_class"), ("numbers", CSRC + "Utils.cpp: is_number, atod, stoin")],
  tech="generated files with known contents, compared value by value")
P("D05", "A dataset written to disk loads back the same",
  "Writing a dataset as a comma separated or sparse-style file and loading it again gives the same number of points in the same order with the same labels, class counts and, to the six significant digits written, the same feature values; the sparse-style form also keeps the feature names. The plain plotting form lists each label followed by its features. Writing never changes the dataset.",
  [I], "every dataset shape, label set and value magnitude",
  "no test writes a dataset and reads it back",
  [DATA], [("writer", DATA + ": write"), ("loaders", DATA + ": load")], tech="write/load round trips on generated datasets")
P("D06", "Malformed files are refused or give a consistent dataset, never corruption",
  "Whatever bytes a dataset file contains, loading it never reads or writes out of bounds, never throws and never hangs. It either reports failure and leaves the points and classes that were loaded before untouched, or yields one point per line with consistent dimensions, names, labels and class counts.",
  [I, F], "every mangling of files of every format (cut, spliced, blank lines, stray separators, odd tokens, wrong extension) and every odd path",
  "tests only open valid files",
  [DATA, CSRC + "Utils.cpp"], [("validation passes of the loaders", DATA + ": load_csv, load_data, load_arff, load_txt"), ("type identification", DATA + ": identifyFileType")],
  tech="mutation fuzzing under address/undefined sanitizers with a consistency oracle")
P("D07", "Splitting a dataset loses, duplicates and invents no points",
  "Splitting into folds, into a training and a test part, into classes or into equal parts distributes every point of the source to exactly one part (for cross-validation: to exactly one test fold and the training side of every other), with its label, features and, when asked, its id. Training and test sides never overlap and parts keep the dimension, classes and task type of the source.",
  [I, C], "every dataset size, class balance, number of folds or parts, stratified or not, and seed",
  "tests split one file with one seed and check sizes",
  [DATA, VAL], [("parts", DATA + ": splitSample, splitByClasses"), ("folds and train/test", VAL + ": kfoldsplit, partTrainTest")],
  tech="conservation oracle over split results")
P("D08", "Stratification is balanced and seeded splits and samples are reproducible",
  "A stratified split gives every part each class in its share of the source, up to one point. The same seed gives the same split, shuffle or sample, and sampling draws from every class its share of the requested size (rounded down, at least one point), only from the source, without repeats when drawn without replacement.",
  [I, C], "every class balance, part count, sample size and seed",
  "tests check one seed on one balanced file",
  [DATA, VAL], [("stratified distribution", DATA + ": splitSample; " + VAL + ": partTrainTest, kfoldsplit"), ("sampling", DATA + ": sampling, shuffle")],
  tech="share and reproducibility oracle over split and sample results")
PT = CORE + "Point.hpp"
P("D09", "Text and number conversions are exact and reject what is not a number",
  "Integers and reals converted to text and back give the same value (exactly for integers, to the requested digits for reals). A string is accepted as a number exactly when it is one, and delimited lines split into exactly their fields in order. No input string makes a conversion throw, hang or read out of bounds.",
  [I], "every integer, real and short string over the number alphabet, and every delimited line",
  "tests convert a few literals; the accepted language has signs, exponents, padding and partial forms",
  [CSRC + "Utils.cpp", CORE + "Utils.hpp"], [("conversions", CSRC + "Utils.cpp: itos, stoin, dtoa, atod, is_number")],
  tech="conversion round trips and an independent number grammar")
P("M01", "Vector arithmetic on points matches the plain definition",
  "Every expression built from points, scalars and elementwise functions evaluates, feature by feature, to what the same arithmetic on plain arrays gives, whatever the nesting and operand order, also when the target appears in its own expression and when the target has another size. Compound assignments, reductions, norms, dot products and comparisons agree with their definitions, and operands are left unchanged.",
  [I], "every shape of expression over points of any dimension and any finite values",
  "tests evaluate one expression on one pair of points; lazy evaluation goes wrong through aliasing, nesting and size changes",
  [PT], [("expressions and assignments", PT + ": operator=, operator+=, applyFunction"), ("reductions", PT + ": sum, norm, dot, max, min")],
  tech="plain-array reference evaluated beside every expression")
P("M02", "Statistics of a dataset match their definitions, also without one feature",
  "The mean, variance, standard deviation, covariance, correlation and range statistics of a dataset, and the radius and distance between class centres used for separable problems, equal their textbook definitions for every feature, with and without ignoring one named feature. Computing them never changes the dataset.",
  [I], "every dataset shape, value distribution and named feature",
  "tests compute each statistic for one feature of one file; leaving a feature out is never exercised away from the first or last",
  [CORE + "Statistics.hpp"], [("statistics", CORE + "Statistics.hpp: mean, var, stdev, covar, corr, radius, distCenters")],
  tech="definition-based reference beside every statistic")
P("M03", "Distances agree with their definitions and axioms",
  "Each distance between two points equals its published formula, is zero from a point to itself, non-negative and symmetric where the formula is, and the metric ones obey the triangle inequality; comparing never changes the points.",
  [I], "every triple of points of any dimension and finite values, zeros and negative values included",
  "tests check two distances on one pair",
  [CORE + "DistanceMetric.hpp"], [("distances", CORE + "DistanceMetric.hpp: Euclidean, Manhattan, Chebyshev, Hassanat, ...")],
  tech="formula reference and metric-axiom monitor")
P("M05", "Kernel matrices match their kernel, also when reused or with a feature left out",
  "Every entry of a computed kernel matrix is the kernel function of its two points, the matrix is symmetric, and the label-weighted matrix is the kernel entry times both labels. The same holds when the kernel object is reused for other data or parameters, and when one feature is left out. The feature-space norm equals its definition for the current weights.",
  [I, H], "every dataset, kernel type, parameter, omitted feature and sequence of recomputations",
  "tests compute one matrix of each type from one file with a fresh object",
  [CORE + "Kernel.hpp"], [("matrices", CORE + "Kernel.hpp: compute, generateMatrixH, generateMatrixHwithoutDim, recompute"), ("norm", CORE + "Kernel.hpp: featureSpaceNorm")],
  tech="entry-by-entry kernel reference on fresh and reused objects")
P("M06", "Random draws stay in range, cover it, and repeat for the same seed",
  "Every random draw lies inside the requested range, every value of a small integer range is reachable, and starting the generator again with the same seed reproduces the same sequence, whatever was drawn before. Asking for a chosen seed returns one that reproduces what follows.",
  [I, H], "every range, seed and interleaving of kinds of draws",
  "tests draw from one range",
  [CSRC + "Random.cpp", CORE + "Random.hpp"], [("generator", CSRC + "Random.cpp: init; " + CORE + "Random.hpp: intInRange, floatInRange")],
  tech="range, coverage and replay monitor over seeded draw streams")
P("M07", "Synthetic datasets have the promised shape, labels and geometry",
  "The generated spirals, blobs and regression problems have exactly the requested number of samples, dimension and classes, each sample sits on its own spiral, near its own centre, or exactly on the regression returned with it, ids are one to n, and the same seed gives the same dataset while another gives a different one.",
  [I], "every size, class count, noise level, dimension and seed",
  "tests check the size of one generated dataset",
  [CSRC + "Datasets.cpp", CORE + "Datasets.hpp"], [("generators", CSRC + "Datasets.cpp: make_spirals, make_blobs, make_regression")],
  tech="geometric oracle over generated datasets")
TP = CORE + "ThreadPool.hpp"
P("M04", "The distance matrix holds every pairwise distance, whatever the thread count",
  "Every entry of a computed distance matrix is the distance between the two points with those ids, zero on the diagonal, whether the full or the triangular form is asked for, whatever the order of ids in the dataset and however many threads compute it, without data races and without changing the dataset.",
  [I, S_, C], "every dataset, id order, distance, thread count and schedule of the worker threads",
  "the tests never compare its entries; wrong rows need permuted ids or an uneven split between threads",
  [CORE + "DistanceMatrix.hpp", TP], [("parallel fill", CORE + "DistanceMatrix.hpp: DistanceMatrix::compute")],
  tech="entry-by-entry reference plus race detector over thread counts")
P("C01", "The thread pool runs every task exactly once and waits for all of them",
  "Every task given to the pool, from any thread and also from inside another task, runs exactly once with its own arguments; at most the given number of threads run at a time and all of them are usable. Waiting, and destroying a running pool, return only after all given tasks are finished. Each future delivers its own task's result or exception, a single thread runs tasks in the order given, and the counters agree with what is queued and running. Lines printed through the synchronised stream never mix.",
  [S_, I], "every interleaving of producers, workers and waiters, any task mix and thread count",
  "tests never use the pool directly; lost, doubled or early-acknowledged tasks need a particular interleaving",
  [TP], [("queue", TP + ": push_task, pop_task, worker"), ("completion", TP + ": wait_for_tasks, destructor, submit"), ("printing", TP + ": synced_stream")],
  tech="recorded start/end event logs checked offline, plus race detector")
P("C02", "A parallel loop visits every index exactly once before it returns",
  "A loop split over the pool visits every index of its range exactly once, in non-empty blocks, no more blocks than asked for, for any integer types, negative or reversed bounds and empty ranges, also with other tasks queued or other loops running, and returns only when every block has finished.",
  [S_, I], "every range, index type, block count, thread count and interleaving",
  "tests use it only through one distance matrix",
  [TP], [("splitting", TP + ": parallelize_loop")],
  tech="per-index visit counts and block completion log, plus race detector")
P("C03", "Pausing holds tasks back and resetting keeps them",
  "While the pool is paused, waiting returns once running tasks are done and after that no task starts until it is resumed; nothing queued meanwhile is lost. Changing the number of threads at any moment keeps every queued task, keeps the paused state and leaves exactly the requested number of threads; afterwards every task has run exactly once.",
  [S_, H], "every moment of pausing, resuming and resetting relative to running and arriving tasks",
  "tests never pause or reset a pool",
  [TP], [("pause", TP + ": paused, pop_task, wait_for_tasks"), ("reset", TP + ": reset, destroy_threads, create_threads")],
  tech="recorded event logs around pause/reset points, plus race detector")
P("L01", "A nearest-neighbour model answers from the k nearest training points",
  "A k-nearest-neighbour classifier answers a label that is most frequent among k nearest training points under its metric, with that label's share as its probability, and a k-nearest-neighbour regressor answers the mean of their values. This holds with k above the number of points, repeated points, ids in any order, and alike for single, batch and precomputed-distance evaluation; the dataset is left unchanged and the same query gets the same answer.",
  [I], "every dataset, metric, k and query; where neighbours tie for the last place any choice among them is accepted",
  "tests check an accuracy on one file; a neighbour too few, a wrong id or a lost tie hardly moves it",
  [CLS + "KNNClassifier.hpp", REG + "KNNRegressor.hpp", CORE + "DistanceMatrix.hpp"], [("neighbour search", CLS + "KNNClassifier.hpp: evaluate, precomputed distances"), ("mean", REG + "KNNRegressor.hpp: evaluate")],
  tech="set-of-admissible-answers oracle beside every prediction")
P("L02", "Primal perceptrons: success means separated; separable data is learned in time",
  "When a primal perceptron (plain, balanced, fixed-margin, IMA fixed-margin) reports success, its published weights put every training point on its own side, by the demanded margin times the weight norm where one is demanded; the reported norm is that of the weights and evaluation is the sign of the published linear function. On linearly separable data the plain and zero-margin ones succeed within the mistake bound of the planted hyperplane. Training never changes the caller's dataset.",
  [I, H], "every two-class dataset, learning rate, norm, demanded margin and initial state",
  "tests only ask whether training one file returned true",
  [CLS + "Perceptron.hpp", CLS + "IMA.hpp"], [("update loops", CLS + "Perceptron.hpp: train; " + CLS + "IMA.hpp: IMApFixedMargin::train"), ("evaluation", CLS + "PrimalClassifier.hpp: evaluate")],
  tech="re-evaluation of every training point and mistake-bound monitor")
P("L03", "Dual perceptrons: the published alphas are the classifier",
  "A dual perceptron evaluates any point to the kernel expansion given by its published alphas and bias, and predicts its sign. When it reports success, every training point is on its own side, by the demanded margin where one is demanded. Its norm is the feature-space norm of those alphas, with the linear kernel its weights equal the expansion, the feature weights of a dual learner are what that squared norm loses when the feature is ignored, and separable data is learned within the mistake bound.",
  [I, H], "every two-class dataset, kernel, parameter, rate, demanded margin and retraining",
  "tests train each once on one file and only look at the returned flag",
  [CLS + "Perceptron.hpp", CLS + "DualClassifier.hpp", CORE + "Kernel.hpp"], [("update loops", CLS + "Perceptron.hpp: PerceptronDual::train, PerceptronFixedMarginDual::train"), ("evaluation", CLS + "DualClassifier.hpp: evaluate")],
  tech="kernel-expansion reference at training and fresh points")
P("L04", "A successful SMO run satisfies the optimality conditions of the maximum margin",
  "When SMO reports success its alphas are non-negative and balance between the classes, points with a positive alpha lie on the margin and all others outside it (within the solver's tolerance), the reported margin and number of support vectors are those of the alphas, and with the linear kernel the margin is at least that of any planted hyperplane and never above half the gap between the classes. It succeeds on separable data. Training never changes the caller's dataset.",
  [I], "every two-class dataset, kernel and parameter where the problem is separable in feature space",
  "tests only check that training one file returned true; a wrong error cache or clip still often does",
  [CLS + "SMO.hpp", CLS + "DualClassifier.hpp"], [("steps", CLS + "SMO.hpp: take_step, examine_example"), ("solution", CLS + "SMO.hpp: train")],
  tech="optimality-condition (KKT) monitor over the published solution")
P("L05", "The incremental margin algorithm reports the separator and margin it found",
  "When an incremental margin learner reports success, its hyperplane separates every training point, the reported norm is that of its weights or alphas, the reported margin is the one its function really has between the classes and never exceeds half the gap between them, and it succeeds on separable data, in primal form for each norm and in dual form for each kernel. In primal form, given updates enough, its margin comes close to (at least 85% of) the largest one in its norm.",
  [I], "every separable two-class dataset, norm, kernel, learning rate and update limit, including runs cut short by a limit",
  "tests only check that training one file returned true",
  [CLS + "IMA.hpp", CLS + "Perceptron.hpp"], [("margin increments", CLS + "IMA.hpp: IMAp::train, IMADual::train"), ("inner solver", CLS + "IMA.hpp: IMApFixedMargin::train")],
  tech="margin and norm recomputed from the published solution")
P("L06", "Least mean squares fits linear data, reproducibly",
  "Trained on exactly linear data, least mean squares reaches a small error against the data's own variance, evaluates exactly its published weights and bias, and gives the same solution when run again; the dataset is left unchanged.",
  [I], "every exactly linear dataset of small dimension and stable learning rate",
  "tests check that one file trains",
  [REG + "LMS.hpp"], [("updates", REG + "LMS.hpp: LMSPrimal::train, evaluate")],
  tech="fit-error and solution-evaluation monitor")
P("L07", "A learner given new samples learns them as a fresh one would",
  "After its samples are replaced by others, of any size or dimension, a perceptron, margin learner or SMO object trains on the new ones alone: it still succeeds on separable data and its success still means that the new training points are separated, with nothing left over from the earlier data.",
  [H, I], "every sequence of datasets given to one learner object",
  "tests build a new learner for every dataset",
  [CLS + "Perceptron.hpp", CLS + "IMA.hpp", CLS + "SMO.hpp", CORE + "Learner.hpp"], [("sample replacement", CORE + "Learner.hpp: setSamples; overrides in " + CLS + "Perceptron.hpp"), ("state reset", CLS + "SMO.hpp: train")],
  tech="separation monitor over sequences of datasets on one object")
P("E01", "Multiclass wrappers train the right binary problems and combine them rightly",
  "One-against-one trains a learner for every pair of classes on exactly the points of both, and predicts a class with the most pairwise wins. One-against-all trains one learner per class on all points, its own class positive, and predicts a class with the largest raw value. Over-sampling, when given, sees correct class counts and its points reach the learner. The caller's dataset is unchanged, and classes each separable from the rest are recognised.",
  [I, C], "every set of two or more classes, labels, class order and balance, and every base learner",
  "tests train one wrapper on one file and only check it runs or its size",
  [CLS + "OneVsOne.hpp", CLS + "OneVsAll.hpp"], [("one against one", CLS + "OneVsOne.hpp: train, evaluate"), ("one against all", CLS + "OneVsAll.hpp: train, evaluate")],
  tech="recording stand-in learners and recount of their answers")
P("E02", "Voting, bagging and committees answer what most of their members answer",
  "A voting, bagging or committee ensemble trains every member it was asked for on the given data (bagging: on a stratified share drawn from it, different per member) and answers a class with the most, or most heavily weighted, member votes. The same seed gives the same members, assigned voters answer alike, set weights are used, and the caller's dataset is unchanged.",
  [I, C], "every dataset, number of classes and members, weights and seed",
  "tests compare accuracies on one file with loose bounds",
  [ENS + "VotingClassifier.hpp", ENS + "BaggingClassifier.hpp", ENS + "PerceptronCommittee.hpp"], [("voting", ENS + "VotingClassifier.hpp: train, evaluate, setWeights"), ("bagging", ENS + "BaggingClassifier.hpp: train, evaluate"), ("committee", ENS + "PerceptronCommittee.hpp: train, evaluate")],
  tech="recording stand-in members and recount of their votes")
P("E03", "Boosting weighs its members by their weighted errors",
  "AdaBoost trains every member on the data, each with a seed of its own, and answers a class with the largest total member weight, where the weights follow the multiclass exponential rule: each member's weight is log((1-e)/e)+log(K-1) for its weighted error e, and points it gets wrong gain weight by its exponential before the next.",
  [I, C], "every dataset, number of classes and members, and member accuracy",
  "tests compare an accuracy on one file with a loose bound",
  [ENS + "AdaBoostClassifier.hpp"], [("reweighting", ENS + "AdaBoostClassifier.hpp: train"), ("weighted vote", ENS + "AdaBoostClassifier.hpp: evaluate")],
  tech="replay of the reweighting from the members' own answers")
P("E04", "Automatic weighting searches on held-out data and never loses ground",
  "Automatic weighted voting trains every member on the training part only, its training and validation parts together are the data, the weights it publishes are finite and non-negative (summing to one in simplex mode), are the ones its votes use, reach on the validation part the accuracy of the best member and of every way of voting of three members, never fall below the best initial weights and improve on them over more generations, and are the same again for the same seed.",
  [I, C], "every dataset, seed, weight mode and number of generations",
  "no test touches it",
  [ENS + "AutoWeightedVoting.hpp"], [("search", ENS + "AutoWeightedVoting.hpp: train, objective_function, new_sample"), ("answer", ENS + "AutoWeightedVoting.hpp: evaluate")],
  tech="search-outcome monitor with recording stand-in members")

P("K01", "K-means ends with every point in the cluster of its nearest centre",
  "After training, k-means has exactly the requested number of finite centres, its clusters partition the points by position, and every point, like every new point it is asked about, belongs to a cluster whose centre is nearest in the chosen distance. With the Euclidean distance each centre is the mean of its points. The reported variance is the sum of squared distances to the centres, the same seed gives the same answer, the seeding prefers far points (random seeding draws from the samples), and samples given earlier leave no trace.",
  [I, H], "every dataset with at least as many distinct places as clusters, number of clusters, distance, seeding method and seed",
  "tests cluster one generated dataset and only plot it",
  [CLU + "KMeans.hpp", CLU + "Clusterer.hpp"], [("assignment and update", CLU + "KMeans.hpp: train, assign_clusters, compute_centers, evaluate"), ("seeding", CLU + "KMeans.hpp: train")],
  tech="recomputation of assignments, means and variance, and counted seedings")
P("V01", "Validation reports count what the predictor actually answered",
  "The confusion matrix has one row and column per class in the dataset's class order and each entry is the number of points of the row's class answered as the column's. Accuracies, error rates, true and false positives and negatives, precision, recall, specificity and F score derived from a dataset and model, or from two label lists, equal a plain recount; computing them neither retrains the model nor changes the data.",
  [I], "every dataset, classes and predictor whose answers are among the classes, and every pair of label lists",
  "tests print reports or bound one accuracy",
  [VAL], [("matrix", VAL + ": generateConfusionMatrix, confusionMatrixAccuracy, accuracy"), ("report", VAL + ": metricsReport, classificationReport")],
  tech="recount of predictions of recording stand-ins")
P("V02", "Cross-validation tests every point once on a model that never saw it",
  "Cross-validation trains once per fold from the learner's initial state, tests every point of the data in exactly one fold, never trains a fold on its own test points, keeps the classes of every test fold within one point of their share, and reports exactly the error, counts and ratios that the folds' answers give. Repeated cross-validation uses different splits and averages them, the same seed validates identically, and the caller's dataset is unchanged.",
  [I, C], "every dataset of distinct points with at least as many points as folds, every number of folds and repetitions, seed and learner",
  "tests look at one accuracy; a leak between train and test data only makes it better",
  [VAL], [("k-fold", VAL + ": kfold, kkfold"), ("splits", VAL + ": kfoldsplit, partTrainTest")],
  tech="recording stand-in learners that log every point they train on or are asked about")
P("S01", "Over-sampling adds points between minority neighbours and nothing else",
  "SMOTE keeps every original point in place, with its label and id, and appends, for each point of the smallest class, one new point per requested (or available) nearest neighbour, of that class, on the segment between the point and that neighbour, with ids of its own. The borderline form only extends points whose neighbourhood is dominated, but not filled, by the largest class. Counts and classes stay exact and the same seed adds the same points.",
  [I], "every unbalanced dataset (repeated points included), number of neighbours, ratio and seed",
  "tests check how many points one file ends with",
  ["subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp"], [("SMOTE", CORE + "Sampling.hpp: SMOTE::operator()"), ("borderline", CORE + "Sampling.hpp: BorderlineSMOTEOne::operator()")],
  tech="geometric location of every added point")
P("S02", "Feature subspaces hold the requested number of distinct features",
  "Random subspaces hold the requested share of the features (rounded up), diverse subspaces the requested number, and there are as many as asked for; every feature in one is a valid position, none appears twice, the same seed draws the same random subspaces, and the data is unchanged.",
  [I], "every dataset (constant features included), share or size, number of subspaces and seed",
  "tests never draw a subspace",
  [CORE + "Sampling.hpp"], [("random subspaces", CORE + "Sampling.hpp: RSM::operator()"), ("diverse subspaces", CORE + "Sampling.hpp: DSM::operator()")],
  tech="set monitor over drawn subspaces")
P("F01", "Feature selection drops the features its ranking puts last",
  "Golub and Fisher selection drop the lowest ranked features one at a time (by |difference of class means| over the sum of deviations; Fisher keeps any feature at least as separated and spread as little), and recursive elimination drops at each level the requested number of features of smallest absolute weight as trained on that level, until exactly the requested number is left. Every training sees exactly the columns its feature names say, a failed training yields the last subset that trained, the answer's columns, labels, ids and names are those of the source, and the caller's data is unchanged. Selecting again gives the same kind of answer.",
  [I, H], "every two-class dataset (constant features, names in any order), number of features to keep, jump, weights and failing training, without the cross-validation stop",
  "tests check the dimension of the answer on one generated dataset",
  [FS + "Golub.hpp", FS + "Fisher.hpp", FS + "RFE.hpp"], [("filters", FS + "Golub.hpp, Fisher.hpp: selectFeatures"), ("recursive elimination", FS + "RFE.hpp: selectFeatures")],
  tech="stand-in classifier with set weights that records every training")
P("F02", "Ordered search returns a subset of the asked size with its columns intact",
  "Whatever breadth, ordering, choice, look-ahead depth and cut, the admissible ordered search stays within memory bounds, trains only on columns that belong to their feature names, and returns a subset of exactly the requested number of features, in their original order, with the source's columns, labels and ids; with nothing to choose from (breadth one, ordering by weight) it drops the features of smallest absolute weight. The caller's data is unchanged. If trainings fail the answer is a smaller search's subset or empty.",
  [I, C], "every two-class dataset, search configuration, weights and pattern of failing trainings",
  "tests check the dimension on two datasets and a few configurations",
  [FS + "AOS.hpp"], [("search", FS + "AOS.hpp: selectFeatures, mainLoop"), ("look-ahead and pruning", FS + "AOS.hpp: lookAhead, Heap::cut, Hash::add")],
  tech="stand-in classifier that records every training, under address/undefined sanitizers")
P("G01", "Plots draw every point under its own class and clean up after themselves",
  "A plot of a dataset draws every point exactly once, with its coordinates on the chosen features, under the name of its class, inside the drawn range; regression plots draw the target over the chosen features. Drawn separators, margins and regressors are those of the solution on the plotted features; a decision surface shows the learner's own answers over a grid that covers the points. The returned script is what gnuplot was sent. Plotting leaves the data unchanged and removes its own temporary files, and only those, unless asked to keep them.",
  [I, H], "every dataset (any class names, dropped columns), choice of features, scale of at least 1, solution with non-zero weights on the plotted axes, and number of live plots",
  "tests only check that plotting does not crash",
  [VIS + "Visualization.hpp"], [("series files", VIS + "Visualization.hpp: createTempFiles, sortLabels, getTempFilesNames"), ("plots", VIS + "Visualization.hpp: plot2D, plot3D, plot2DwithHyperplane, plot3DwithHyperplane, plotDecisionSurface2D"), ("clean up", VIS + "Visualization.hpp: removeTempFiles, create_plotfolder")],
  tech="a recording gnuplot; scripts and series files read back and compared with the data")
