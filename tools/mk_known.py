"""writes known_findings.json: repaired defects of the base tree (fixed entries suppress nothing)"""
import json
import os
import subprocess

R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {
    "ClosestNeighborsInClasses": ("C13", None),
    "ISOMAP_Hybrid failed on data sets": ("C24", None),
    "multiclass oversampling of classes tied": ("C11", "a class tied with the majority got a proportion of NaN and was resampled or raised"),
    "equalize_1_vs_many overshot": ("C11", "equalize_1_vs_many_successive: classes ended above the cardinality of the majority class"),
    "multiclass proportions lost a sample": ("C11", "proportions like 1/49*49 truncated to one sample less, classes ended one short"),
    "sampling job left the test fold unscaled": ("C16", "SamplingJob scaled the training data and not the test data"),
    "MLPClassifierWrapper.get_params": ("C19", "get_params omitted max_iter, clones lost it"),
    "folding statistics used class labels": ("C15", "fold descriptors were wrong or raised IndexError for labels other than 0 and 1"),
    "foldings shared one mutable fold descriptor": ("C15", "every fold yielded carried the descriptor of the last one"),
    "reused for other folds and scalers": ("C14", "cached samplings and evaluations of another validator or scaler were returned"),
    "truncated pickle caches": ("C14", "truncated pickles raised from the damage test and were not regenerated"),
    "process manager deadlocked": ("C17", "a result larger than the pipe buffer deadlocked the pool"),
    "equal_dicts raised": ("C22", "dictionaries with different keys raised KeyError instead of being unequal"),
    "p_top20 ignored": ("C12", "p_top20 ranked by predicted labels, not probabilities"),
    "ADASYN ignored proportion=0": ("C05", "ADASYN with proportion 0 generated samples"),
    "E_SMOTE drew from the global": ("C04", "E_SMOTE was not reproducible by its seed"),
    "SVM_balance disturbed": ("C04", "SVM_balance called numpy.random functions of the process-wide generator"),
    "SMOTE_AMSR returned the input": ("C03", "SMOTE_AMSR returned the caller's own arrays"),
    "NEATER assumed": ("C08", "NEATER"), "SL_graph_SMOTE assumed": ("C08", "SL_graph_SMOTE"), "ADG assumed": ("C08", "ADG"),
    "ISOMAP_Hybrid assumed": ("C08", "ISOMAP_Hybrid"), "SMMO assumed": ("C08", "SMMO"), "SMOTE_IPF assumed": ("C08", "SMOTE_IPF"),
    "DSRBF assumed": ("C08", "DSRBF"), "SSO assumed": ("C08", "SSO"), "cov_min metric tensor": ("C08", "the cov_min metric tensor (PDFOS)"),
    "get_params omitted constructor": ("C09", "get_params of SOMO, DEAGO, PDFOS, SMOTEWB, SPY and SYMPROD left out constructor parameters"),
    "accepted negative proportions": ("C09", "ADASYN and MSYN accepted a negative proportion, SYMPROD any n_jobs"),
    "one-sided selection raised": ("C10", "OneSidedSelection raised IndexError when Tomek link removal emptied a class"),
    "infinite recursion of the distance matrix": ("C13", "pairwise_distances_mahalanobis recursed without end when a single row exceeds the memory chunk"),
    "ignored the default radius": ("C13", "NearestNeighborsWithMetricTensor.radius_neighbors raised TypeError without an explicit radius"),
    "create_summary": ("C18", "create_summary dropped the results of techniques without ss_params"),
    "undersampling worked only": ("C20", "undersamplers worked for the labels 0 and 1 only"),
    "oversampling driven undersampling": ("C20", "oversampling driven undersampling failed when distances coincide"),
    "OversamplingClassifier": ("C19", None),
    "ErrorWarningClassifier": ("C19", "ErrorWarningClassifier.predict returned nothing"),
    "preprocessing_transform failed": ("C19", "preprocessing_transform failed after samplings that were not carried out"),
    "SMOTEWB lost": ("C02", "SMOTEWB: the share of a minority sample without neighbours was not generated"),
    "SMOTEWB did not pass": ("C04", "SMOTEWB fell back to an unseeded SMOTE"),
    "LN_SMOTE returned": ("C02", "LN_SMOTE generated nothing and said nothing"),
    "LLE_SMOTE failed": ("C24", "LLE_SMOTE raised ValueError with fewer minority samples than components"),
    "CBSO failed": ("C24", "CBSO raised ValueError with fewer samples than neighbours"),
    "MDO failed": ("C24", "MDO raised ValueError when no minority sample has a minority neighbour"),
    "ASMOBD failed": ("C24", "ASMOBD raised ValueError with negative densities"),
    "PDFOS failed": ("C24", "PDFOS raised ValueError when the minority samples coincide"),
    "G_SMOTE failed": ("C24", "G_SMOTE with the non-linear kernel overflowed and raised LinAlgError"),
    "KernelADASYN replaced": ("C01", "KernelADASYN returned PCA reconstructions instead of the originals"),
}


def main():
    log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True, check=True).stdout
    out = []
    for line in log.splitlines():
        h, s = line.split(" ", 1)
        if not s.startswith("fix:"):
            continue
        k = [m for m in MAP if m in s]
        if len(k) != 1:
            raise SystemExit(f"no entry for {line}")
        prop, what = MAP[k[0]]
        what = what or s[5:]
        if prop == "C08" and " " not in what or what.startswith("the cov_min"):
            what += " gave wrong results or raised for labels other than 0 and 1"
        out.append(f"fixed: property={prop} {h} {what}")
    d = json.load(open(os.path.join(R, "known_findings.json"))) if os.path.exists(os.path.join(R, "known_findings.json")) else {"findings": []}
    d["fixed"] = out
    with open(os.path.join(R, "known_findings.json"), "w") as f:
        json.dump(d, f, indent=1)
        f.write("\n")
    print("\n".join(out))


main()
