"""families of oversamplers and the clauses checked on them"""
import numpy as np

from symx import core
from symx.core import S, z3
from symx.snp import wrap

from . import common, overs

# documented as changing the majority class, or cleaning by algorithm
CHANGES = {
    "AHC", "AMSCO", "DE_oversampling", "DSMOTE", "E_SMOTE", "Gazzah", "IPADE_ID", "ISMOTE", "ISOMAP_Hybrid", "NEATER",
    "SMOTE_ENN", "SMOTE_FRST_2T", "SMOTE_IPF", "SMOTE_TomekLinks", "SPY", "Stefanowski", "SUNDO", "SVM_balance", "VIS_RST",
}
NOT_ADDITIVE = CHANGES | {"A_SUWO", "ADG", "MOT2LD", "NRAS"}
EXACT = """ADASYN ADOMS AND_SMOTE Assembled_SMOTE Borderline_SMOTE1 Borderline_SMOTE2 CBSO CE_SMOTE cluster_SMOTE DBSMOTE
distance_SMOTE Edge_Det_SMOTE G_SMOTE Gaussian_SMOTE polynom_fit_SMOTE_poly polynom_fit_SMOTE_mesh
KernelADASYN kmeans_SMOTE Lee LLE_SMOTE LN_SMOTE LVQ_SMOTE MCT MDO MWMOTE NRSBoundary_SMOTE NT_SMOTE OUPS PDFOS ProWSyn
Random_SMOTE ROSE RWO_sampling Safe_Level_SMOTE SDSMOTE Selected_SMOTE SL_graph_SMOTE SMOTE_Cosine SMOTE_OUT SMOTE
SN_SMOTE SOMO Supervised_SMOTE SYMPROD TRIM_SMOTE V_SYNTH MSMOTE SMOTE_AMSR SMOTEWB ANS ASMOBD CURE_SMOTE SMMO SMOBD
SOI_CJ DSMOTE DSRBF E_SMOTE""".split()
# no documented fall-back: exact for every data set with three or more minority samples
STRICT = set("""CBSO distance_SMOTE Edge_Det_SMOTE Gaussian_SMOTE polynom_fit_SMOTE_poly polynom_fit_SMOTE_mesh LLE_SMOTE
LVQ_SMOTE MCT NT_SMOTE OUPS ProWSyn Random_SMOTE ROSE RWO_sampling SDSMOTE Selected_SMOTE SMOTE_Cosine SMOTE_OUT SMOTE
SN_SMOTE Supervised_SMOTE""".split())
BOX = """ADASYN AND_SMOTE ANS ASMOBD Assembled_SMOTE Borderline_SMOTE1 CBSO CE_SMOTE cluster_SMOTE CURE_SMOTE DBSMOTE
distance_SMOTE Edge_Det_SMOTE G_SMOTE polynom_fit_SMOTE_star polynom_fit_SMOTE_bus polynom_fit_SMOTE_mesh kmeans_SMOTE
Lee MCT MSYN MWMOTE NRSBoundary_SMOTE NT_SMOTE ProWSyn Random_SMOTE SDSMOTE Selected_SMOTE SMMO SMOBD SMOTE_D
SMOTE SN_SMOTE SOMO Supervised_SMOTE SYMPROD TRIM_SMOTE SMOTE_AMSR SMOTEWB""".split()
# between samples of both classes
ALLBOX = "LN_SMOTE MSMOTE OUPS Safe_Level_SMOTE SL_graph_SMOTE Borderline_SMOTE2".split()


def all_names(sv):
    return sorted(c.__name__ for c in sv.get_all_oversamplers())


def eq(a, b):
    """symbolic or concrete equality as z3 / bool"""
    if isinstance(a, S) or isinstance(b, S):
        if core.nonfinite(a) or core.nonfinite(b):
            return False
        r = a == b
        return r.e if isinstance(r, S) else bool(r)
    return bool(a == b)


def conj(xs):
    out = []
    for x in xs:
        if isinstance(x, S):
            x = x.e
        if isinstance(x, (bool, np.bool_)):
            if not x:
                return False
            continue
        out.append(x)
    if not out:
        return True
    return z3.And(out)


def rows_eq(A, B):
    A, B = wrap(A), wrap(B)
    if A.shape != B.shape:
        return False
    return conj(eq(x, y) for x, y in zip(A.view(np.ndarray).reshape(-1), B.view(np.ndarray).reshape(-1)))


def min_label(y):
    v, n = np.unique(np.asarray(y), return_counts=True)
    return v[len(n) - 1 - np.argmin(n[::-1])]


def requested(n_maj, n_min, prop):
    return max(0, int((n_maj - n_min) * prop))


def shares(a, b):
    """whether two arrays share memory"""
    if a is b:
        return True
    if not isinstance(a, np.ndarray) or not isinstance(b, np.ndarray):
        return False
    return bool(np.may_share_memory(a.view(np.ndarray), b.view(np.ndarray)))
