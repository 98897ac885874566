#!/usr/bin/env python3
"""Writes properties.jsonl (kept as source so that statements stay in one place)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[], mechanism=[dict(name=m, where=w) for m, w in mech],
                               observe_at=observe or [], hook_needed=None)))
I, H, C, F = "inputs", "histories", "configurations", "fault_sequences"

p("C01", "Attribute values survive encoding, decoding and JSON",
  "For float, binary and categorical attributes, decoding the stored form of any representable value gives that value back (floats bit-for-bit, and printed with the attribute's precision), and the 64-bit packing helpers are mutual inverses. A categorical attribute gives each distinct label one code, codes never change once assigned, labels are listed in code order, and decoding inverts encoding. Serialising an attribute to JSON and back yields an attribute of the same type and name, equal to the first, with the same precision or the same labels in the same order.",
  [I, H], "all float64 bit patterns, all uint64, all label strings, all interleavings of label insertions and look-ups, all attribute names",
  "Unit tests encode a few labels and two floats; nothing quantifies over bit patterns, label histories or odd names.",
  ["base/util.go", "base/float.go", "base/binary.go", "base/categorical.go", "base/serialize_attributes.go"],
  [("PackU64ToBytes/UnpackBytesToU64", "base/util.go"), ("CategoricalAttribute.GetSysValFromString", "base/categorical.go"), ("SerializeAttribute/DeserializeAttribute", "base/serialize_attributes.go")])

p("C02", "An in-memory data grid behaves as a typed table",
  "After any sequence of adding attributes (by default or to named groups), reserving rows (repeatedly) and setting cells, reading any cell through any route (single read, row iteration, row text) returns the last value set there or zero, writes never disturb another cell, and reported size, attributes and class attributes match the operations performed; an attribute that does not fit a group of another kind, and removing a class that is none, are refused. A dense copy of any grid holds the same attributes, classes and cells as its source and is independent of it; a structural copy holds the same attributes and classes and no rows.",
  [I, H], "all operation sequences over mixed float, categorical and binary attributes, group layouts and sizes (including more binary attributes than fit in one byte and several storage groups per type)",
  "Existing tests build a handful of small grids; none checks bit-level independence, repeated reservation or mixed group layouts.",
  ["base/dense.go", "base/fixed.go", "base/bag.go", "base/util_attributes.go"],
  [("offset arithmetic of attribute groups", "base/fixed.go, base/bag.go"), ("AddAttribute/Extend/Set/Get", "base/dense.go"), ("NewDenseCopy", "base/dense.go")])

p("C03", "A view shows exactly the sub-table it was asked for",
  "A view built over any grid by row mapping, by visible rows and attributes, or by attributes alone (nested to any depth) shows, for each of its rows and attributes, the cell of the source row and attribute it stands for: single reads, row iteration (every row once, under its own view row number), row text, size, attribute list and class attributes all agree with that sub-table. Views reflect later writes to the source, stop iteration when asked, pass errors through, and refuse attributes they hide.",
  [I, H, C], "all grids, row mappings (partial, duplicated, permuted), attribute subsets and orders, nesting depths, and class changes",
  "Tests use one 4-row file and a single view level, and never compare iteration with single reads.",
  ["base/view.go", "base/util_attributes.go"],
  [("resolveRow", "base/view.go"), ("InstancesView.MapOverRows", "base/view.go"), ("addClassAttrsFromSrc", "base/view.go")])

p("C04", "Sorting orders rows by the chosen attributes and keeps them intact",
  "Sorting a grid, in place or as a view, on any list of float, categorical or binary attributes and in either direction produces rows ordered lexicographically by those attributes (first attribute most significant; floats in numeric order including negatives, categories in code order), in the requested direction. The result holds exactly the original rows (same multiset of whole rows), the view sort leaves its source unchanged, and both sorts agree on the sort keys.",
  [I, C], "all grids without NaN values, all non-empty lists of distinct attributes, both directions",
  "Tests sort iris on one or two positive attributes only; negative numbers, many categories, multi-key and mixed-type keys are untested.",
  ["base/sort.go"], [("createSortSpec", "base/sort.go"), ("Sort/LazySort", "base/sort.go")])

p("C05", "Shuffling, splitting and sampling only rearrange genuine rows",
  "Shuffling a grid (in place or as a view) yields a permutation of its rows; a train/test split yields two grids that together hold every source row exactly once with all attributes and classes, the second receiving approximately the requested fraction; sampling with replacement yields exactly the requested number of rows, each a whole row of the source, drawn from all of the source. These hold for dense grids and for views, and through single reads as well as iteration.",
  [I, C], "all grids (dense or views), sizes, fractions and random seeds",
  "Tests look at sizes on one file; no test compares row multisets, views, or iteration against reads.",
  ["base/util_instances.go", "base/view.go"],
  [("Shuffle/LazyShuffle", "base/util_instances.go"), ("InstancesTrainTestSplit", "base/util_instances.go"), ("SampleWithReplacement", "base/util_instances.go")])

p("C06", "Class counts and decompositions partition the data exactly",
  "Every class-distribution function counts each row exactly once under its own class (and, for the speculative splits, under the branch its attribute value selects, where numeric branches mean value greater than threshold or not). Decomposing a grid on an attribute's values or on a numeric threshold yields one child per occurring branch, whose rows are exactly the rows on that branch with all their other attribute values and class intact and the split attribute removed.",
  [I], "all grids (dense or views) with one categorical or binary-valued float class, all split attributes and thresholds, including thresholds equal to a value",
  "Tests decompose one weather file; equality with thresholds, views and repeated decomposition are not covered.",
  ["base/util_instances.go"], [("GetClassDistribution*", "base/util_instances.go"), ("DecomposeOn*", "base/util_instances.go")])

p("C07", "Parsing CSV yields the table written in the text",
  "Parsing well-formed CSV text yields one attribute per column (listed in column order by the attribute functions), named by the trimmed header (or the column number), float when the first data row's field is a number and categorical otherwise (with a display precision that shows every decimal of the first lines), one row per record with every non-empty field's trimmed value (missing fields keep the default), and the last column as class. Parsing against a template, or with explicit attribute groups and overrides, stores the same cells in the requested layout with compatible category codes, and malformed input (ragged records, bad numbers, no data rows) is reported as an error rather than as a table. The functions that take a file give what they give on its text, and a missing file, or one which cannot be read to its end, is an error.",
  [I, C], "all well-formed CSV texts (quoting, signs, exponents, spaces, missing fields, with or without header), templates, group assignments; ragged and non-numeric mutations",
  "Tests read a few shipped files; quoting, signs, exponents, missing fields, templates with other category orders and errors are not covered.",
  ["base/csv.go", "base/filewrapper.go"],
  [("ParseCSVSniffAttributeTypesFromReader", "base/csv.go"), ("ParseCSVBuildInstancesFromReader", "base/csv.go"), ("ParseMatchAttributes", "base/csv.go")])

p("C08", "Writing a grid as CSV and reading it back preserves the table",
  "Writing any dense grid or view as CSV (to a writer or over an existing or new file) and parsing the text back gives the same rows in the same order with the same values under the same attribute names (floats to the attribute's precision), and the class column last. Writing over an existing file leaves nothing of the old contents, and a writer that fails is reported as an error.",
  [I, C], "all grids with float and categorical attributes and one class, labels including separators, quotes and unicode, dense grids and views, overwritten targets",
  "No test parses what is written; overwriting is never tested.",
  ["base/serialize_instances.go", "base/csv.go", "base/filewrapper.go"],
  [("SerializeInstancesToCSVStream", "base/serialize_instances.go"), ("SerializeInstancesToCSV", "base/serialize_instances.go")])

p("C09", "ARFF text and data grids convert both ways without loss",
  "Parsing a well-formed ARFF document gives one attribute per declaration, in order, with the declared type (real, or nominal with the declared labels in the declared order), the declared number of data rows and their values, ignoring comments and blank lines, with the last attribute as class. Writing a grid as ARFF and parsing it again gives an equal grid, and documents with undeclared labels, non-numeric values, unsupported types, rows of the wrong length or no attributes are rejected with an error. A file that cannot be read to its end and a writer that fails (a full disk, say) are errors, too.",
  [I], "all ARFF documents within the supported subset (real/nominal attributes, quoted names, mixed-case keywords, comments, blank lines) and all float/categorical grids",
  "Tests parse two shipped files and round-trip one.",
  ["base/arff.go"], [("ParseARFFGetAttributes", "base/arff.go"), ("ParseARFFGetRows", "base/arff.go"), ("SerializeInstancesToDenseARFF", "base/arff.go")])

p("C10", "Binary serialisation of a grid round-trips exactly",
  "Serialising any grid (dense or view, any mix of float, categorical and binary attributes, any number of rows and class attributes) and deserialising it, to memory or over an existing file, gives a grid with the same attributes, the same class attributes, and bit-identical cells in every row; a writer that fails is reported as an error. Values written to a model archive under keys of their own (bytes, strings, numbers, JSON, attributes, grids, metadata) read back the same, and reading a key never written is an error.",
  [I, C], "all grids, including float bit patterns, many rows, odd row widths and many binary attributes",
  "The single test round-trips one iris file; row widths that straddle reads, binary attributes, several groups and views are not covered.",
  ["base/serialize_instances.go", "base/serialize.go", "base/serialize_attributes.go"],
  [("SerializeInstances/DeserializeInstances", "base/serialize_instances.go")])

p("C11", "Damaged archives are rejected, never silently accepted",
  "Reading a serialised grid or model archive that has been truncated at any point, emptied, or had bytes corrupted either reports an error or yields exactly the original content; it never crashes the process, never returns a grid or model with different content, and never hangs. The same holds for archives that lack an entry; those of another format version, or whose dimensions disagree with their attribute lists or data, are refused.",
  [F, I], "all truncation points and byte corruptions of archives produced from generated grids and models",
  "No test damages an archive.",
  ["base/serialize.go", "base/serialize_instances.go"],
  [("ReadSerializedClassifierStub", "base/serialize.go"), ("ClassifierDeserializer.GetBytesForKey", "base/serialize.go")])

p("C12", "A saved model predicts exactly as the original after loading",
  "For every classifier that can be saved (nearest neighbour, ID3 trees and their nodes, random trees, random forest, Bernoulli naive Bayes, linear support vector classifiers, one-vs-all and bagged combinations of them), loading a saved model into a new instance (a bagged model with as many members of the same kind, a one-vs-all model with the same kind of member) gives the same prediction for every row of every compatible grid as the original, and the same settings of nearest neighbours, support vectors, bags and forests, so that it can be trained again like the original. Saving changes neither the original nor its training data, replaces an existing file, and saving and loading leave no other file behind; a loaded model can be saved again. Loading a missing file, loading the file of another kind of model, loading into a bag of another size and saving into a missing directory are errors, and so is saving where the disk has no room for the whole file.",
  [I, H, C], "all trained models over generated data, configurations and compatible query grids",
  "Tests save and reload one iris model per type and compare one confusion matrix.",
  ["base/serialize.go", "knn/knn.go", "trees/id3.go", "trees/random.go", "ensemble/randomforest.go", "ensemble/multisvc.go", "naive/bernoulli_nb.go", "linear_models/linearsvc.go", "meta/bagging.go", "meta/one_v_all.go"],
  [("SaveWithPrefix/LoadWithPrefix", "every classifier")])

p("C13", "kd-tree search returns the true nearest neighbours",
  "For any set of points and any query, a kd-tree search for k neighbours returns k distinct stored points (every point at most once) with their true distances, in ascending order of distance, and the distances equal those of an exhaustive scan. Requests that cannot be answered (k larger than the number of points) are refused with an error.",
  [I, C], "all point sets (duplicates, ties, collinear, one point, 1 to several dimensions), queries, k and the euclidean, manhattan and chebyshev metrics",
  "Tests query a six-point tree once.",
  ["kdtree/kdtree.go", "kdtree/heap.go"], [("Tree.Build/Search", "kdtree/kdtree.go"), ("bounded max-heap", "kdtree/heap.go")])

p("C14", "Nearest-neighbour prediction is the vote of the true neighbours",
  "The k-nearest-neighbour classifier predicts, for every row, the label with the most votes (or with the greatest total inverse-distance weight when weighting is on) among the k training rows nearest to it under the configured distance, whichever search method or optimisation is used; the regressor predicts the mean of the k nearest training values. When several neighbour sets or labels tie, one of the admissible answers is given. Fitting again forgets the earlier fit.",
  [I, C], "all numeric training and query grids, k, distance functions, search algorithms, weighting and optimisation settings, views and dense grids",
  "Tests check a handful of queries on iris-like data.",
  ["knn/knn.go", "knn/knn_opt_euclidean.go", "kdtree/kdtree.go"],
  [("KNNClassifier.Predict", "knn/knn.go"), ("optimisedEuclideanPredict", "knn/knn_opt_euclidean.go"), ("KNNRegressor.Predict", "knn/knn.go")])

p("C15", "Pairwise metrics and kernels match their definitions",
  "Each pairwise metric and kernel (euclidean, manhattan, chebyshev, canberra, cosine, polynomial and RBF) returns the value of its mathematical definition for every pair of equally shaped vectors, in row or column form, without changing its arguments. The distances are symmetric and non-negative, zero between equal vectors, and the first three satisfy the triangle inequality; the polynomial and RBF kernels are symmetric, and the polynomial kernel's distance between two vectors is the root of the kernel of their difference with itself. Matrices of different shape are refused.",
  [I, C], "all pairs and triples of finite vectors of any length (zeros, negatives, equal, parallel), all kernel parameters",
  "Tests evaluate each on one or two vectors.",
  ["metrics/pairwise/euclidean.go", "metrics/pairwise/manhattan.go", "metrics/pairwise/chebyshev.go", "metrics/pairwise/cranberra.go", "metrics/pairwise/cosine.go", "metrics/pairwise/poly_kernel.go", "metrics/pairwise/rbf_kernel.go"],
  [("Distance/InnerProduct", "metrics/pairwise")])

p("C16", "Evaluation metrics equal their definitions over the true counts",
  "For any two equally long label columns the confusion matrix counts every row exactly once by reference and predicted label, and true/false positives/negatives, precision, recall, F1, accuracy and the micro and macro averages computed from it equal their textbook definitions over those counts. The printed summary and matrix show those counts. Grids of different length are refused.",
  [I], "all label sequences, label sets (including labels only ever predicted) and row counts",
  "Tests check one 2x2 matrix.",
  ["evaluation/confusion.go"], [("GetConfusionMatrix", "evaluation/confusion.go"), ("GetTruePositives...GetSummary", "evaluation/confusion.go")])

p("C17", "Cross-validation tests every row once on a model that never saw it",
  "k-fold cross-validation trains and tests the given classifier k times; in each fold the training and test rows are disjoint and together are the whole data set, over all folds each row is tested exactly once, rows and classes stay intact, and each fold's confusion matrix is that of the predictions on its test rows. The reported cross-validated mean and variance equal those of the folds' values, and errors from the classifier are passed on.",
  [I, C], "all data sets, fold counts from 2 to the number of rows, classifiers and seeds",
  "One test runs a random forest on iris and looks only at accuracy.",
  ["evaluation/cross_fold.go", "base/util_instances.go", "base/view.go"], [("GenerateCrossFoldValidationConfusionMatrices", "evaluation/cross_fold.go"), ("GetCrossValidatedMetric", "evaluation/cross_fold.go")])

p("C18", "Type-converting filters and filtered grids transform values faithfully",
  "Filtering a grid to binary attributes turns a two-valued category into its code, a many-valued category into exactly one set indicator per row (the one named after its label), and a number into whether it is non-zero; filtering to floats keeps every value as the equivalent number. A filtered grid shows every transformed and every untouched attribute with the same values through single reads, row iteration and row text, reports its own size and attributes, keeps class attributes, and a filter touches only the attributes it was given; attributes unknown to the grid are refused.",
  [I, C], "all grids with mixed attribute types, all subsets of filtered attributes, fitted or converted once, dense or view sources",
  "Tests filter two small files and read single cells.",
  ["filters/binary.go", "filters/float.go", "filters/disc.go", "base/filtered.go"],
  [("Transform", "filters/binary.go, filters/float.go"), ("LazilyFilteredInstances.Get/MapOverRows", "base/filtered.go")])

p("C19", "Equal-width binning puts each value in its own interval",
  "A trained equal-width binning filter assigns every training value to the bin floor((v-min)/(max-min)*bins) of its own attribute (values within 0.0001 bin widths below a boundary counting as on it), the largest value going to the topmost bin, so equal values share a bin, larger values never get a lower bin, and each label names where its bin starts. Values outside the training range go to the lowest or topmost bin. Attributes not given to the filter pass through unchanged.",
  [I, C], "all numeric grids, attribute subsets and numbers of bins",
  "The test checks four cells of one file.",
  ["filters/binning.go", "filters/disc.go"], [("BinningFilter.Train/Transform", "filters/binning.go")])

p("C20", "ChiMerge discretisation groups adjacent values by class similarity",
  "A trained ChiMerge filter maps each training value to the interval that contains it: intervals are contiguous, ordered and start at observed values, equal values share one, larger values never get a lower one; other values go to the interval starting at or next below them, or to the first. Merging stops only when every adjacent pair of intervals differs significantly in class distribution or the configured minimum number of intervals is reached, and the interval class counts are exactly those of the rows they hold.",
  [I, C], "all numeric attributes with categorical classes, significance levels, minimum and maximum row settings, dense grids and views",
  "Tests check one published example.",
  ["filters/chimerge.go", "filters/chimerge_funcs.go"], [("chiMerge", "filters/chimerge_funcs.go"), ("ChiMergeFilter.Transform", "filters/chimerge.go")])

p("C21", "Bernoulli naive Bayes predicts the most probable class",
  "After fitting on binary attributes, the classifier predicts for every row the class maximising prior times the smoothed per-feature Bernoulli likelihoods computed from the training rows, for single documents and for whole grids alike, for classes and features of any frequency: of a class with N rows, n of them with the feature, the likelihood of having it is (n+1)/(N+1) and of lacking it 1 minus that (or 1/(N+1) where that is zero). Features that are not binary, no or several class columns, query rows of the wrong width and unfitted models are refused, by error or panic.",
  [I], "all binary training grids with at least one feature, one row and any labels used or not, all query rows",
  "Tests check one tiny published corpus.",
  ["naive/bernoulli_nb.go"], [("Fit", "naive/bernoulli_nb.go"), ("PredictOne", "naive/bernoulli_nb.go")])

p("C22", "Decision trees split greedily, partition rows and predict their leaf",
  "An ID3 or random decision tree divides its training rows exactly: each node's class counts are those of the rows that reach it, its children's rows are the branches of its chosen attribute, each chosen split is the best by the configured rule (information gain, gain ratio or Gini) among the attributes considered, a numeric attribute's threshold being one of greatest information gain, and each leaf names a majority class of its rows. An ID3 tree stops dividing only where the rows are of one class, at most one attribute is left to split on, or no attribute left varies. Prediction for any row follows its own attribute values to a leaf and returns that leaf's class, and predicted class probabilities (asked for one row at a time) come from that leaf's counts. Fitting again forgets the earlier fit.",
  [I, C], "all categorical, numeric and mixed training grids, split rules, attribute-subset sizes and query rows whose categorical values were seen in training",
  "Tests check a few trees on the tennis and iris files.",
  ["trees/id3.go", "trees/entropy.go", "trees/gini.go", "trees/gr.go", "trees/random.go"],
  [("InferID3Tree", "trees/id3.go"), ("GetSplitRuleFromSelection", "trees/entropy.go, trees/gini.go, trees/gr.go"), ("DecisionTreeNode.Predict", "trees/id3.go")])

p("C23", "Pruning a decision tree never loses accuracy on the pruning set",
  "Pruning a decision tree against a hold-out grid never lowers the number of correctly classified hold-out rows, only removes subtrees (replacing them by a leaf predicting the node's majority class) and leaves every other prediction unchanged. Afterwards no inner node reached by hold-out rows could be replaced by such a leaf without losing correct hold-out rows.",
  [I], "all categorical and numeric training grids and hold-out grids",
  "One test prunes an iris tree and only checks that accuracy is above a bound.",
  ["trees/id3.go"], [("DecisionTreeNode.Prune", "trees/id3.go")])

p("C24", "CART trees make locally optimal splits and predict leaf summaries",
  "A CART classification or regression tree chooses at every node a threshold split with the lowest weighted impurity (Gini or entropy; mean absolute or squared error) over all features and midpoints of the rows reaching the node, never exceeds its maximum depth, and predicts a majority label (or the mean target) of the training rows in the leaf whose thresholds the query satisfies. Pure or unsplittable data yields a constant prediction, training rows predicted and unseen rows alike, and evaluating a classification tree reports the fraction of those predictions that are correct. Fitting again forgets the earlier fit, and unknown classification criteria and data without exactly one numeric class are refused.",
  [I, C], "all numeric training grids with integer-like labels or real targets, criteria, depth limits and query rows",
  "Tests check accuracy on iris and one Boston-like file.",
  ["trees/cart_classifier.go", "trees/cart_regressor.go", "trees/cart_utils.go"],
  [("bestSplit", "trees/cart_classifier.go, trees/cart_regressor.go"), ("predictSingle/evaluate", "trees/cart_classifier.go, trees/cart_regressor.go")])

p("C25", "Bagged ensembles train on genuine rows and vote by majority",
  "A bagged model trains each member on a bootstrap sample whose rows are whole rows of the training data restricted to the configured number of random features plus the class, and predicts for every row a label with the largest number of member votes for that row, each member being asked about the features it was trained on. A random forest grows the configured number of such trees, and an ensemble of one member predicts as that member does.",
  [I, C], "all training and query grids, member counts, feature counts, member classifiers and seeds",
  "Tests only check accuracy on iris.",
  ["meta/bagging.go", "ensemble/randomforest.go", "base/util_instances.go"],
  [("BaggedModel.Fit/Predict", "meta/bagging.go"), ("RandomForest.Fit", "ensemble/randomforest.go")])

p("C26", "One-vs-all trains one member per class and picks the strongest",
  "One-vs-all combination trains exactly one member per class value on all training rows, with target 1 exactly for the rows of that class and 0 otherwise and the other attributes unchanged, and predicts for each row the class whose member gives the largest output on that row. The multi-class linear support vector classifier built on it classifies training data correctly when each class is separable from the rest by a plane through the origin.",
  [I, C], "all numeric grids with categorical classes of two or more values, member classifiers and query grids",
  "Tests check one run on iris and a linear kernel.",
  ["meta/one_v_all.go", "ensemble/multisvc.go"], [("OneVsAllModel.Fit/Predict", "meta/one_v_all.go"), ("oneVsAllFilter", "meta/one_v_all.go")])

p("C27", "Linear regression finds the least-squares fit",
  "After fitting on any numeric grid with more rows than features and independent columns, linear regression's predictions on any grid are those of the ordinary least-squares solution: data generated by a linear law is reproduced, residuals on the training data are orthogonal to every feature and sum to zero, and the fit does not depend on row order. Too little training data, non-numeric class or an unfitted model is refused with an error.",
  [I], "all well-conditioned numeric grids with one float class, dense or views, and query grids",
  "Tests check one exam-results file.",
  ["linear_models/linear_regression.go"], [("LinearRegression.Fit", "linear_models/linear_regression.go")])

p("C28", "Linear classifiers use all features and separate separable data",
  "Logistic regression and the linear support vector classifier, trained on binary-class data separable by a plane through the origin (no intercept is fitted) with a large enough penalty weight, classify every training row and its clearly same-sided neighbours correctly, whatever the sign or position of the features carrying the signal. Predictions depend only on the row itself, and negating a feature in both training and query data leaves predictions on clearly separated rows unchanged. Fitting again forgets the earlier fit, and settings that name no solver and data without exactly one numeric class are refused.",
  [I, C], "all two-class numeric grids separable through the origin with margin and several rows of each class, feature signs and orders, class codings, penalty and loss settings",
  "Tests classify a few points of one file.",
  ["linear_models/linearsvc.go", "linear_models/logistic.go", "linear_models/liblinear.go", "linear_models/util.go"],
  [("convertInstancesToProblemVec", "linear_models/util.go"), ("Predict", "linear_models/liblinear.go")])

p("C29", "DBSCAN returns the density clusters of its definition",
  "DBSCAN returns disjoint clusters of row numbers such that two core points (points with at least the minimum number of points, counting themselves, within the radius) are in the same cluster exactly when they are density-connected, every core point is in a cluster, every non-core member lies within the radius of a core point of its cluster, and points that are within the radius of no core point are in none. A cluster that ends with fewer members than the minimum (its border points having gone to other clusters) is left out, as documented. Only the listed attributes count, the outcome on core points of the clusters kept does not depend on row order, it never fails on non-empty numeric data, leaves the data unchanged, and refuses non-numeric attributes.",
  [I, C], "all non-empty numeric data sets, radii, minimum counts and distance functions",
  "One test compares one synthetic data set with scikit-learn.",
  ["clustering/dbscan.go", "clustering/clustering.go"], [("DBSCAN", "clustering/dbscan.go"), ("computePairwiseDistances", "clustering/clustering.go")])

p("C30", "EM clustering assigns each row to its most likely fitted component",
  "Expectation-maximisation clustering of a data set with enough spread assigns every row to exactly one of the requested number of components, the component under which that row is most likely given the fitted means and covariances, with fitted parameters that are finite and in column order, and predicts the same assignment for the same row in any grid. Once fitted, a component that holds at least two rows has the mean of its rows and their covariance (only the variances when it holds no more rows than there are columns). Fewer than one component, fewer rows than components, and predicting before fitting are refused.",
  [I, C], "all gaussian-blob data sets (overlapping or separated) of full spread in every column, numbers of components and seeds, and all non-empty query grids",
  "One test compares one synthetic data set.",
  ["clustering/em.go"], [("Fit/Predict/expectation/maximization", "clustering/em.go")])

p("C31", "Cluster maps invert and compare as set partitions",
  "Inverting a cluster map gives, for every row in it, the cluster that contains it, and is refused when a row is in two clusters. Two cluster maps are reported equal exactly when some renaming of clusters makes them the same partition, whatever the order of rows and the names of clusters.",
  [I], "all cluster maps, permutations and renamings, and all single-row moves",
  "Tests compare three hand-written maps.",
  ["clustering/clustering.go"], [("ClusterMap.Invert/Equals", "clustering/clustering.go")])

p("C32", "PCA projects onto orthonormal directions of greatest variance",
  "Fitting a principal component analysis and projecting the same data gives centred, mutually uncorrelated components whose variances are in descending order and equal the largest variances of the data's covariance, with pairwise distances preserved when all components are kept; the caller's data is left unchanged. Fit followed by Transform on the same data equals FitTransform, new data are centred with the means of the training data, and the number of columns is the requested number of components. Projecting before fitting and negative numbers of components are refused.",
  [I, C], "all full-rank data matrices with more rows than columns and all component counts",
  "Tests check two fixed matrices.",
  ["pca/pca.go"], [("PCA.Fit/Transform/FitTransform", "pca/pca.go")])

p("C33", "Neural networks compute and learn by the stated equations",
  "Activating a network propagates values along weighted connections with biases through the given activation function exactly as the layered equations say, error back-propagation to every node that is not an input and weight and bias updates equal the gradient rule, and a network reports its weights and biases as set (biases of inputs cannot be). In a multi-layer network nodes are connected to those of the next layer only. One without hidden layers trains by exactly that rule, row by row; one with them moves towards the row it learns from; training stops before the given number of iterations only when the error is near the convergence limit. A trained multi-layer network predicts for each row from that row's own inputs alone, columns with more than two labels counting as one input or output per label, the class being the output node with the greatest activation, or above a half for a class with two labels. Predicting before fitting, several classes and grids with other columns are refused.",
  [I, C, H], "all small layer shapes, weights, biases, inputs, activation functions and learning rates",
  "Tests check XOR and one hand-built network.",
  ["neural/network.go", "neural/layered.go", "neural/neural.go"],
  [("Network.Activate/Error/UpdateWeights", "neural/network.go"), ("MultiLayerNet.Fit/Predict", "neural/layered.go")])

p("C34", "The averaged perceptron predicts by the sign of its learned weights",
  "A fitted averaged perceptron gives each row of any compatible grid a label decided by that row alone, by a linear rule: every row gets one of the two classes, the same wherever it stands in the query grid, whatever order the columns are in, and trained on data in which the rows of each class point to their own side it classifies each of them right. Unfitted models, grids with other columns, too few numeric columns, and classes that are missing, numeric or not of two labels are refused, by error, panic or no predictions.",
  [I], "all two-class numeric grids, query grids of any length including one row, learning rates and thresholds",
  "Tests run one file and only check accuracy.",
  ["perceptron/average.go"], [("AveragePerceptron.Fit/Predict/processData", "perceptron/average.go")])

p("C35", "Predictions depend on each row alone",
  "For every trained classifier and regressor, predicting a grid gives as many rows as the grid, with the class attribute of the training data and a valid label in each, and each row's prediction depends only on that row: it is the same when rows are reordered, duplicated, removed or predicted one at a time, when the grid is a view instead of a dense copy or has equal attributes of its own, when the class cells to predict hold other values, and when prediction is repeated. Models which find columns by attribute (all but the linear classifiers, CART and isolation forests, and up to rounding and ties between equally near neighbours) predict the same whatever the order of the columns. Predicting does not change the query grid, and neither fitting nor predicting changes the training grid.",
  [I, H, C], "all trained models (nearest neighbour, trees, forests, naive Bayes, linear, perceptron, neural, CART, isolation, ensembles), query grids and row selections; for CART and isolation forests, which return plain numbers, one per row; isolation forests use the class column as data",
  "Tests predict one test split once.",
  ["base/classifier.go", "base/util_instances.go", "knn/knn.go", "trees/id3.go", "trees/random.go", "ensemble/randomforest.go", "naive/bernoulli_nb.go", "linear_models/logistic.go", "linear_models/linearsvc.go", "linear_models/linear_regression.go", "meta/bagging.go", "meta/one_v_all.go", "perceptron/average.go", "neural/layered.go"],
  [("GeneratePredictionVector", "base/util_instances.go"), ("Predict", "every model")])

p("C36", "Isolation forest scores are valid and rank outliers highest",
  "A fitted isolation forest gives every row an anomaly score strictly between 0 and 1 determined by that row's average path length, equal rows get equal scores, and an isolated point far from a tight cluster scores higher than every cluster point. Each of its trees obeys the depth limit and divides its sample by its thresholds; fitting again grows a new forest.",
  [I, C], "all numeric grids with at least two rows (a float class counts as a data column), forest sizes, depths, sample sizes of two or more and seeds",
  "One test checks two scores in one file.",
  ["trees/isolation.go"], [("IsolationForest.Fit/Predict", "trees/isolation.go")])

p("C37", "Matrix and data-frame conversions keep every cell in place",
  "Converting rows to matrices, wrapping a matrix as a grid, and converting a data frame to a grid keep every value in its row and column: the matrix rows equal the grid's cells for the requested attributes in the requested order, a wrapped matrix reads and iterates as that matrix, and a converted data frame has the same names, types, labels and exact numeric values with the requested class column. Attributes and class columns that do not exist are refused.",
  [I], "all numeric grids (dense and views), attribute orders, matrices, and data frames of string, integer and float series",
  "Tests check one 2x3 matrix.",
  ["base/conversion.go", "base/mat.go", "base/dataframe_go.go"], [("ConvertRowToMat64/ConvertAllRowsToMat64", "base/conversion.go"), ("InstancesFromMat64", "base/mat.go"), ("ConvertDataFrameToInstances", "base/dataframe_go.go")])

p("C38", "Grid comparison and attribute-set helpers tell the truth",
  "Two grids are reported equal exactly when they have the same size, attributes of the same names and types, and the same values in every row; compatibility holds exactly when the attribute sets match, and strict compatibility exactly when the storage groups hold equal attributes in the same order. Attribute intersection, difference and the non-class selectors return exactly the mathematical sets, in the documented order.",
  [I], "all pairs of grids, single-cell and single-attribute mutations, all attribute lists",
  "Tests only ever compare grids that are equal.",
  ["base/util_instances.go", "base/util_attributes.go"], [("InstancesAreEqual/CheckCompatible/CheckStrictlyCompatible", "base/util_instances.go"), ("AttributeIntersect/AttributeDifference", "base/util_attributes.go")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
