"""writes properties.jsonl and MANIFEST.json from the table below"""
import json
import os

R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OV = "smote_variants/oversampling/"
BASE = "smote_variants/base/"
EV = "smote_variants/evaluation/"


def p(id, title, st, over, text, why, files, mech, observe=()):
    return dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe)))


PROPS = [
p("C01", "Oversamplers that only add samples keep every original and add minority only",
  "For every oversampling technique not documented as cleaning or editing the data set, the returned data set begins with the original samples and labels, value for value and in the original order. Everything appended after them carries the label of the minority class and has the same number of features.",
  ["inputs", "configurations"], "every data set with at least three minority samples, any two class labels, any random draws, any valid parameter combination and any proportion",
  "The tests compare shapes on a few fixed data sets; an added sample with the wrong label, a reordered or rescaled original, or a dropped sample on a rare branch passes them.",
  [OV, BASE + "_oversampling.py", BASE + "_base.py"],
  [("every technique stacks the inputs before the samples it generates", OV), ("class statistics name the minority label", BASE + "_base.py")],
  ["sample()"]),
p("C02", "The requested number of samples is generated",
  "A technique that generates a controllable number of samples generates exactly the truncation of proportion times the difference of the class cardinalities. When it cannot, it returns the data set unchanged and says so in the log.",
  ["inputs", "configurations"], "every data set with at least three minority samples, every proportion and every valid parameter combination, whatever the random draws",
  "Tests only assert that something was generated for one or two proportions; off-by-one counts at rounding boundaries or on rare branches stay invisible.",
  [OV, BASE + "_oversampling.py", BASE + "_simplexsampling.py"],
  [("det_n_to_sample", BASE + "_oversampling.py"), ("the simplex sampler's sampling loop", BASE + "_simplexsampling.py")], ["sample()"]),
p("C03", "Sampling does not touch what the caller passed in",
  "Sampling leaves the caller's feature array, label array and parameter dictionaries as they were. The arrays returned share no memory with the arrays passed in.",
  ["inputs", "configurations"], "every data set, every technique, every valid parameter combination, including the cases in which nothing is sampled",
  "No test compares the inputs before and after a call, and in-place edits only show on the branches that make them.",
  [OV, BASE], [("the sample() wrapper copies", BASE + "_oversampling.py"), ("techniques work on copies", OV)], ["sample()"]),
p("C04", "A seeded sampler is reproducible and ignores the process-wide random state",
  "Two samplers of the same technique, parameters and integer seed return identical results on identical data, whatever the state of the process-wide random generator. Sampling with a seed does not draw from that generator or change it.",
  ["inputs", "configurations", "histories"], "every technique, data set, seed and parameter combination, and every prior use of the process-wide generator",
  "The reproducibility tests run once with one global state, so a draw from the global generator on a branch they do not reach goes unnoticed.",
  [BASE + "_base.py", OV], [("random state of the object", BASE + "_base.py"), ("techniques draw from their own generator and pass it on", OV)], ["sample()"]),
p("C05", "Nothing to sample from, or nothing to sample: the data set comes back unchanged",
  "With one or two minority samples, with balanced classes, or with a proportion that asks for less than one sample, the data set returned equals the one passed in and is a copy of it; no exception is raised. Techniques which clean the data set whether or not they sample are exempt for balanced classes and zero requested samples.",
  ["inputs", "configurations"], "every such data set, any class labels, every technique and parameter combination",
  "The tests have one tiny data set per case and check only that the shapes are positive.",
  [OV, BASE + "_oversampling.py"], [("check_enough_min_samples_for_sampling and the n_to_sample == 0 guards", BASE + "_oversampling.py")], ["sample()"]),
p("C06", "Interpolating oversamplers stay within the samples they interpolate",
  "For the techniques that create samples by interpolation, each feature of each generated sample is finite and lies between the smallest and the largest value that feature takes among the samples interpolated: the minority samples, or all samples for the techniques that interpolate across classes.",
  ["inputs", "configurations"], "every data set with at least three minority samples, every random draw and every parameter combination",
  "Geometry of the generated samples is not tested at all; shapes are.",
  [OV, BASE + "_simplexsampling.py"], [("simplex sampling with weights that sum to one", BASE + "_simplexsampling.py"), ("interpolation formulas of the techniques", OV)], ["sample()"]),
p("C08", "Renaming the classes renames the output and changes nothing else",
  "Replacing the two class labels by any other two integers (in the same order of magnitude, for the techniques that order classes by label) gives the same generated features and the correspondingly renamed labels.",
  ["inputs", "configurations"], "every data set and every pair of distinct integer labels, any seed and parameter combination",
  "Tests use the labels 0 and 1 with 1 as minority almost exclusively, so a hard-coded label goes unnoticed.",
  [OV, BASE + "_base.py", BASE + "_metrictensor.py"], [("labels are taken from the class statistics", BASE + "_base.py")], ["sample()"]),
p("C07", "The simplex sampler draws inside the simplices it is given",
  "Simplex sampling returns exactly the requested number of points. Each is a convex combination of the vertices of one of the simplices it is given (of the neighbourhood rows, restricted to the within-simplex rule asked for), with weights that are non-negative and sum to one; base points are chosen from the points of non-zero weight only, and the deterministic choices allot every base the rounded share of its weight and divide an edge evenly. A point sampled between two points lies on their segment, and a jittered one within the range given.",
  ["inputs", "configurations"], "every data matrix, weight vector, draw of the random generator, within-simplex rule, sampling mode and number of samples, within the sizes named",
  "The unit tests sample a few hundred points from one fixed matrix and check shapes; a vertex index shifted by one, or a weight mixed up with its neighbour, keeps every shape.",
  [BASE + "_simplexsampling.py"],
  [("simplex enumeration, weights and Dirichlet draws", BASE + "_simplexsampling.py"), ("generate_samples of OverSamplingSimplex", BASE + "_simplexsampling.py")], ["simplex_sampling()", "OverSamplingSimplex.sample_simplex()"]),
p("C09", "Parameters are accepted exactly in their documented ranges and reported",
  "A technique accepts a numerical parameter exactly when it lies in the documented range and raises ValueError otherwise, whatever value is given. get_params reports every parameter of the constructor with the value in use, and an object built from the reported parameters reports the same parameters.",
  ["inputs", "configurations"], "every real (or integer) value of every numerical parameter of every technique, one at a time, and every other parameter set at its default",
  "Tests give one or two invalid values per technique; a boundary moved from strict to non-strict or a parameter left out of get_params is seen by none.",
  [OV, BASE + "_base.py"],
  [("check_* calls in the constructors", OV), ("get_params", OV)], ["constructors", "get_params()"]),
p("C10", "Noise filters remove exactly the samples their rules name",
  "Every noise filter returns a subset of the samples passed in, in no case altered or duplicated, each with its own label, and leaves its inputs alone. Tomek link removal removes exactly the majority members (or both members) of the mutual nearest neighbour pairs of different classes. Edited nearest neighbours removes exactly the samples (of the class asked for) that most of their three nearest neighbours contradict. The neighbourhood cleaning rule removes the contradicted majority samples and the majority neighbours of contradicted minority samples. Condensation keeps every minority sample, and the samples kept classify every sample removed correctly by their nearest neighbour. One-sided selection and CNN with Tomek links compose these two steps.",
  ["inputs", "configurations"], "every order of the pairwise distances of the samples, any class labels and filter parameters, within the sizes named",
  "The tests check that some samples are left; which ones are removed depends on the whole neighbourhood structure and is never compared with the rule.",
  ["smote_variants/noise_removal/"], [("one rule per filter", "smote_variants/noise_removal/"), ("nearest neighbours, mode", BASE)], ["remove_noise()"]),
p("C11", "Multiclass oversampling balances every class and keeps the originals",
  "Multiclass oversampling returns the original samples and labels first, value for value. With the default proportion every class with at least three samples ends with as many samples as the largest class, by both strategies; classes with fewer samples and the largest class stay as they are. Every generated sample carries the label of the class the oversampler was asked to extend, and no class is extended beyond the largest.",
  ["inputs", "configurations"], "every combination of class cardinalities and class labels, any features, both strategies, within the sizes named; proportions computed in floating point for all class sizes within the bound",
  "The tests balance two fixed data sets; a class that ends one sample short for particular cardinalities, ties for the largest class, or classes with two members do not occur there.",
  [OV + "_multiclassoversampling.py", "smote_variants/oversampling/"],
  [("proportions, label swapping and collection of the new samples", "MulticlassOversampling.sample_equalize_1_vs_many and ..._successive")], ["MulticlassOversampling.sample()"]),
p("C12", "Scores equal their definitions",
  "The confusion counts, accuracy, sensitivity, specificity, predictive values, g-mean, F1, MCC, balanced accuracy and the other label based measures equal their textbook formulas for any predictions, with the minority label as positive class. AUC equals the share of correctly ordered pairs, with ties counted half; log loss and brier score equal their definitions; p_top20 is the share of minority samples among the twenty percent of samples (truncated, at least one) with the highest predicted probability. Predictions at exactly one half are shared evenly between the classes.",
  ["inputs"], "every vector of labels with both classes present and every vector of predicted probabilities or labels, within the sizes named",
  "Tests compute the scores for one or two vectors and check that they are present; degenerate denominators, ties and non-standard labels are not among them.",
  ["smote_variants/base/_metrics.py"], [("calculate_atoms, calculate_label_scores, calculate_prob_scores, calculate_all_scores", "smote_variants/base/_metrics.py")], ["calculate_all_scores()"]),
p("C13", "With a metric tensor, distances and neighbours are those of the metric",
  "Distances with a metric tensor are the square root of the quadratic form of the difference of the two points, whatever the memory limit that decides how the matrix is computed in blocks. The neighbours found with a precomputed metric tensor are the nearest ones (or those within the radius) by these distances, for the query points given, in increasing order of distance. The dissimilarity implied by a classifier is the share of its trees which put the two samples into different leaves. The border points of the classes are the samples with one of the other class among their nearest neighbours, each with its label.",
  ["inputs", "configurations"], "every matrix of query and reference points, listed and symbolic diagonal positive definite tensors, every memory limit in the list, any radius",
  "Tests call these functions on one data set with the default memory limit, so the block-wise branch and queries that are not the fitted points are not covered.",
  [BASE + "_metrictensor.py"], [("pairwise_distances_mahalanobis, n_neighbors_func, NearestNeighborsWithMetricTensor, ClassifierImpliedDissimilarityMatrix", BASE + "_metrictensor.py")],
  ["pairwise_distances_mahalanobis()", "NearestNeighborsWithMetricTensor.kneighbors()"]),
p("C14", "The evaluation cache serves only complete results of the same job",
  "With a cache folder, sampling and evaluation results equal those of the uncached jobs, whatever ran before in the folder: a stored result is used only for a job with the same fold, scaler, technique, parameters and (for evaluations) classifier, and a different job never overwrites or receives it. When a run is interrupted at any point while it writes to the folder, running it again completes and returns what an uninterrupted run returns; a file written in part is never taken for a result. This holds with json and with pickle, and when runs with other validators or scalers used the folder before, where each name stands for one data set.",
  ["crash_points", "inputs", "histories"], "every step at which a run touches the file system as the interruption, every part of the text written by then, any feature values and predictions, listed pairs of different jobs, listed earlier runs",
  "Tests run a pipeline twice in a fresh folder; no test interrupts a run or mixes nearly equal jobs in one folder.",
  [EV + "_sampling.py", EV + "_evaluation.py", EV + "_functions.py", BASE + "_base.py"],
  [("job names derived from a hash of fold, technique and classifier", EV), ("dump_dict, load_dict", BASE + "_base.py"), ("reuse and clean-up", EV + "_functions.py")], ["evaluate_oversamplers()", "SamplingJob, EvaluationJob"]),
p("C15", "Folding is an exact, repeatable partition of the data set",
  "For each repeat, the test parts of the folds partition the data set: every sample is tested exactly once with its own features and label, and each training part is the complement of its test part. With the default validator every class is spread over the folds as evenly as its size allows. Fold descriptors number repeats and folds completely and without duplicates and state the size, the number of features and the class counts of the whole data set. The same validator parameters give the same folds every time, and folds written to disk hold the same arrays as those made in memory.",
  ["inputs", "configurations"], "any feature values, listed label patterns, splits and repeats",
  "Tests count the folds of one data set; a sample that leaks from the test into the training part, or a descriptor that is used twice, passes them.",
  [EV + "_folding.py"], [("fold, fold_descriptor, files", "Folding in " + EV + "_folding.py")], ["Folding.fold()", "Folding.folding_files()"]),
p("C16", "Evaluation trains on the training part only and scores every combination once",
  "For every fold, technique and classifier exactly one result is returned. The scaler is fitted on the training part only and applied to both parts; the technique sees the scaled training part only, and its transformation is applied to the test part; every classifier is fitted on the sampled training part and asked about the test part only. The reported labels are those of the fold's test part, the predictions are the classifier's own, and the scores are computed from these. A technique or classifier that fails or exceeds the time limit is reported by name, with the unsampled training part (or zero predictions) in place of its result, and never ends the evaluation. The caller's arrays are not changed.",
  ["inputs", "configurations"], "any feature values in both parts, any predictions, listed failures of the technique and of the classifiers, with and without a scaler",
  "Tests run the pipeline on a data set and look at the shape of the result table; what the classifier was trained on, or which fold a row belongs to, is not observable there.",
  [EV + "_sampling.py", EV + "_evaluation.py", EV + "_functions.py"],
  [("do_oversampling, do_evaluation", EV), ("evaluate_oversamplers", EV + "_functions.py")], ["evaluate_oversamplers()", "SamplingJob, EvaluationJob"]),
p("C17", "The job pool runs every job once, in order, within its limits, and always ends",
  "The pool returns one result per job, in the order of the jobs. A job that ends in time gives its own result, whatever its size; one that exceeds its time limit or dies gives its timeout fallback, and its process is stopped. No more processes run at a time than allowed. No schedule of the threads and processes makes the pool wait for ever, lose a result or mix up two of them, and the pool can be used again. A limit that is absent, zero or negative is no limit.",
  ["schedules", "inputs"], "every interleaving (with at most the stated number of preemptions) of the pool's threads with the job processes, and any times at which processes start, answer and end",
  "Tests run three jobs on an idle machine; deadlocks and lost results need a thread to be suspended between two particular steps.",
  [EV + "_parallelization.py"], [("ThreadTimeoutProcessPool, its threads, pipes and locks", EV + "_parallelization.py")], ["execute()", "apply()"]),
p("C18", "Result tables aggregate each combination's own folds and select a best one",
  "Parsing raw evaluation results gives one row per combination of data set, technique, technique parameters, classifier and classifier parameters, holding the mean and the standard deviation of every score over that combination's own folds and repeats and of no other, whatever the order of the results and whether they are passed or stored in files; unparsed results are returned as they are. Model selection evaluates every combination of the techniques and classifiers given on every fold and returns a technique and a classifier (with their parameters) than which no combination has a better average of the requested score. create_summary gives one row per combination, which lists the entries of all its folds in the order of the folds, and the entries at one position come from the same fold.",
  ["inputs", "configurations"], "any predicted probabilities and scores, listed numbers of data sets, techniques, parameters, classifiers, repeats and folds, any order",
  "Tests check that the tables have rows; scores assigned to the wrong row, or a selected model that is not the best, pass them.",
  [EV + "_processing.py", EV + "_functions.py"], [("parse_results, model_selection", EV + "_functions.py"), ("create_summary, calculate_scores", EV + "_processing.py")], ["evaluate_oversamplers()", "model_selection()", "create_summary()"]),
p("C19", "Wrapped classifiers learn from the sampled data and answer in its representation",
  "OversamplingClassifier samples once with the technique and parameters given, fits the classifier given on the sampled data, and answers predict and predict_proba with the classifier's own answers for the new samples in the representation the technique gives its data (preprocessing_transform). MLPClassifierWrapper fits a network with one hidden layer, whose size is the stated fraction (or the root) of the number of features, and asks that network. ErrorWarningClassifier raises or warns exactly when told to and otherwise behaves like a classifier. preprocessing_transform of every technique gives new data the columns of the sampled data, also after samplings that were not carried out. The arrays passed in are not changed, and get_params/set_params state and set what is used.",
  ["inputs", "configurations"], "any features, labels and predictions, listed techniques and parameters",
  "Tests look at the shape of the predictions on one data set; a prediction in the wrong representation has the right shape.",
  ["smote_variants/classifiers/", OV], [("OversamplingClassifier", "smote_variants/classifiers/_oversamplingclassifier.py"), ("MLPClassifierWrapper", "smote_variants/classifiers/_mlpclassifierwrapper.py"), ("preprocessing_transform", OV)], ["fit()", "predict()", "predict_proba()", "preprocessing_transform()"]),
p("C20", "Undersampling keeps the minority whole and as many different majority samples",
  "Random and oversampling driven undersampling return a balanced data set: every minority sample with its label, and as many different majority samples, each an original one with its own label. Oversampling driven undersampling keeps, in mode farthest, the majority samples closest to the generated ones, and in mode random never keeps the single farthest one when others remain. The same seed gives the same samples, and the arrays passed in are not changed, for any two labels.",
  ["inputs", "configurations"], "any feature values, any two labels, any random draws, listed sizes, modes and techniques",
  "Tests check the class counts of one data set.",
  ["smote_variants/undersampling/"], [("RandomUndersampling", "smote_variants/undersampling/_random_undersampling.py"), ("OversamplingDrivenUndersampling", "smote_variants/undersampling/_oversampling_driven_undersampling.py")], ["sample()"]),
p("C21", "Queries return exactly the techniques asked for, with complete parameter lists",
  "The queries for techniques return, without repetition, exactly the techniques with the requested properties: filters by category, simplex technique, proportion, metric learning and multiclass suitability; and with n_quickest the number asked for (or all there are), such that none left out is quicker than one returned. The parameter combinations of a technique are exactly the product of its parameter space, each set complete and accepted by the technique; a random subset has the requested number of different combinations and is the same for the same seed.",
  ["inputs", "configurations"], "any runtimes, numbers asked for and property values; listed queries and parameter spaces",
  "Tests count the techniques of two or three queries.",
  ["smote_variants/queries/_queries.py", BASE + "_base.py", OV], [("get_all_oversamplers and the filters", "smote_variants/queries/_queries.py"), ("generate_parameter_combinations", BASE + "_base.py"), ("parameter_combinations", OV)], ["get_all_oversamplers()", "get_simplex_sampling_oversamplers()", "generate_parameter_combinations()", "parameter_combinations()"]),
p("C22", "Parameter validators and shared helpers do what they state on every value",
  "Each parameter check accepts exactly the values it states (bounds inclusive or exclusive as named) and raises ValueError for the others. mode returns the most frequent value, the smallest of several. The class statistics name the rarer label as the minority, with the right counts. Density repair returns a probability distribution and keeps a valid one. The covariance, safe division, dictionary comparison, coalescing and shuffling helpers return what their names state, and shuffling keeps every sample with its label.",
  ["inputs"], "any numbers as values, bounds, weights, densities and labels, listed sizes",
  "Tests call each helper on one or two values away from the boundary.",
  [BASE + "_base.py", BASE + "_oversampling.py"], [("ParameterCheckingMixin, StatisticsMixin, mode, cov, fix_density, safe_divide, equal_dicts, coalesce", BASE)], ["check_*()", "class_label_statistics()", "mode()", "fix_density()"]),
p("C23", "Techniques that clean the data set never invent majority samples",
  "Of the techniques that remove or relabel samples: A_SUWO, DE_oversampling, Gazzah, ISMOTE, NRAS, SMOTE_ENN, SMOTE_FRST_2T, SMOTE_IPF, SMOTE_TomekLinks, SPY, Stefanowski, SUNDO and VIS_RST return as majority only majority samples that were passed in, each at most as often as passed in. AHC, ISMOTE, NEATER, SMOTE_FRST_2T, SPY, Stefanowski, SUNDO and VIS_RST return every minority sample as a minority sample. NEATER and NRAS return every majority sample as one. DSMOTE, NEATER, SMOTE_FRST_2T, SPY and VIS_RST return every sample, with one of the two labels. Features are compared up to rounding.",
  ["inputs", "configurations"], "every data set with at least three minority samples, any two labels, any random draws, every valid parameter combination",
  "The tests only look at the shapes these techniques return, which change from data set to data set by design.",
  [OV], [("the cleaning steps of the techniques", OV)], ["sample()"]),
p("C24", "Sampling a valid data set never fails and returns finite, labelled samples",
  "On every data set of finite features with at least three minority samples and at least two different samples in each class, sample() of every technique but DEAGO (which trains a network) returns, and raises no exception. It returns at least one sample; features are finite, there is one label per sample, and each is one of the two labels passed in.",
  ["inputs", "configurations"], "every such data set, every technique, proportion and valid parameter combination, any random draws",
  "Each technique has its own rare branches (no neighbour of the own class, an empty cluster, noise only) which the tests' data sets do not reach.",
  [OV, BASE + "_oversampling.py", BASE + "_simplexsampling.py"], [("guards of the techniques: neighbour counts limited to the data set, empty selections", OV)], ["sample()"]),
]

LEVEL = {"default": "model_checking"}
TECH = "symbolic execution of the real Python code with z3 (SMT), counterexamples replayed on the unmodified code"
NOTE_OV = ("Bounded: data sets of at most 14 samples and 4 features, listed parameter combinations; within a unit every value of the symbolic "
           "inputs (features or random draws, proportion) on the explored paths. Third-party estimators are replaced by contracts or run concretely; "
           "floats are reals. Paths left unexplored, unsupported operations and solver unknowns are counted in the evidence and not claimed.")
NOTES = {}
NOTE_FN = ("Bounded: the sizes stated in the evidence; within them every value of the symbolic inputs on the explored paths. Floats are reals; "
           "third-party code is a contract or runs concretely. Anything unexplored is counted in the evidence and not claimed.")
NA = {}


def main():
    with open(os.path.join(R, "properties.jsonl"), "w") as f:
        for q in PROPS:
            assert len(q["title"]) <= 80, q["title"]
            f.write(json.dumps(q) + "\n")
    checks, na = [], []
    for q in PROPS:
        i = q["id"]
        if os.path.exists(os.path.join(R, "checks", i.lower() + ".py")) and i not in NA:
            checks.append(dict(
                property=i, quick_cmd=f"/opt/venv/bin/python checks/run.py {i} quick", thorough_cmd=f"/opt/venv/bin/python checks/run.py {i} thorough",
                technique=TECH, level=LEVEL.get(i, "model_checking"),
                level_note=NOTES.get(i) or (NOTE_OV if q["anchors"]["files"][0] == OV or i in ("C04",) else NOTE_FN)))
        else:
            na.append(dict(property=i, reason=NA.get(i, "not built yet")))
    m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na)
    with open(os.path.join(R, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(checks), "checks", len(na), "n/a")


if __name__ == "__main__":
    main()
