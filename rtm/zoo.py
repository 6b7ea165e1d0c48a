"""Catalogue of the shipped methods with what each of them supports."""
import numpy as np
import skada
from sklearn.linear_model import LinearRegression, LogisticRegression, Ridge
from sklearn.neighbors import KernelDensity, KNeighborsClassifier
from sklearn.svm import SVC
from sklearn.naive_bayes import GaussianNB
from sklearn.tree import DecisionTreeClassifier, DecisionTreeRegressor
from skada._gradual_da import GradualEstimator


class Entry:
    def __init__(self, name, make, kind, tasks=("clf", "reg"), uses_y=False, seeded=False, perm=True, multi=True,
                 tol=1e-6, sign=False, weight=1.0, reads_target_y=False, adapter=True, produces=None, n_sources=None,
                 rows_independent=True, predicts_target=False, binary=False, domain_args=True):
        self.name, self.make, self.kind, self.tasks = name, make, kind, tasks
        self.uses_y, self.seeded, self.perm, self.multi = uses_y, seeded, perm, multi
        self.tol, self.sign, self.reads_target_y = tol, sign, reads_target_y
        self.produces, self.n_sources, self.rows_independent = produces, n_sources, rows_independent
        self.predicts_target, self.binary, self.domain_args = predicts_target, binary, domain_args

    def __repr__(self):
        return f"<{self.name}>"


def E(*a, **k):
    return Entry(*a, **k)


def reweighters():
    S = skada
    kw = dict(kind="reweight", produces="sample_weight")
    return [
        E("DensityReweight", lambda: S.DensityReweightAdapter(), **kw),
        E("DensityReweight-bw", lambda: S.DensityReweightAdapter(KernelDensity(bandwidth=.7)), **kw),
        E("GaussianReweight", lambda: S.GaussianReweightAdapter(), **kw),
        E("GaussianReweight-reg", lambda: S.GaussianReweightAdapter(reg=.3), **kw),
        E("DiscriminatorReweight", lambda: S.DiscriminatorReweightAdapter(), tol=1e-3, **kw),
        E("DiscriminatorReweight-nb", lambda: S.DiscriminatorReweightAdapter(GaussianNB()), **kw),
        E("KLIEPReweight", lambda: S.KLIEPReweightAdapter(gamma=.5, random_state=3), seeded=True, perm=False, **kw),
        E("KLIEPReweight-cv", lambda: S.KLIEPReweightAdapter(gamma=[.1, 1.], cv=3, random_state=3, n_centers=6), seeded=True,
          perm=False, **kw),
        E("KMMReweight", lambda: S.KMMReweightAdapter(gamma=.3, B=5.), tol=1e-3, **kw),
        E("KMMReweight-scipy", lambda: S.KMMReweightAdapter(gamma=.3, B=5., solver="scipy"), tol=1e-2, **kw),
        E("KMMReweight-smooth", lambda: S.KMMReweightAdapter(gamma=.3, smooth_weights=True), tol=1e-3, **kw),
        E("NearestNeighborReweight", lambda: S.NearestNeighborReweightAdapter(), **kw),
        E("NearestNeighborReweight-k3", lambda: S.NearestNeighborReweightAdapter(n_neighbors=3, weights="distance", laplace_smoothing=True), **kw),
        E("MMDTarSReweight", lambda: S.MMDTarSReweightAdapter(gamma=.5), uses_y=True, tasks=("clf", "reg"), tol=1e-2, **kw),
    ]


def mappers():
    S = skada
    kw = dict(kind="mapping", produces="X")
    return [
        E("OTMapping", lambda: S.OTMappingAdapter(), reads_target_y=True, **kw),
        E("OTMapping-norm", lambda: S.OTMappingAdapter(norm="max"), reads_target_y=True, **kw),
        E("EntropicOTMapping", lambda: S.EntropicOTMappingAdapter(reg_e=2.), reads_target_y=True, **kw),
        E("ClassRegularizerOTMapping", lambda: S.ClassRegularizerOTMappingAdapter(reg_e=2., norm="lpl1"), tasks=("clf",),
          uses_y=True, reads_target_y=True, tol=1e-4, **kw),
        E("ClassRegularizerOTMapping-l1l2", lambda: S.ClassRegularizerOTMappingAdapter(reg_e=2., norm="l1l2"), tasks=("clf",),
          uses_y=True, reads_target_y=True, tol=1e-4, **kw),
        E("LinearOTMapping", lambda: S.LinearOTMappingAdapter(reg=1e-3), **kw),
        E("LinearOTMapping-nobias", lambda: S.LinearOTMappingAdapter(reg=1e-3, bias=False), **kw),
        E("CORAL", lambda: S.CORALAdapter(), **kw),
        E("CORAL-reg", lambda: S.CORALAdapter(reg=.1), **kw),
        E("CORAL-centered", lambda: S.CORALAdapter(reg=.1, assume_centered=True), **kw),
        E("MMDLSConSMapping", lambda: S.MMDLSConSMappingAdapter(gamma=.1, max_iter=20), uses_y=True, tol=1e-3,
          tasks=("clf", "reg"), **kw),
        E("MultiLinearMongeAlignment", lambda: S.MultiLinearMongeAlignmentAdapter(reg=1e-3), tol=1e-5, **kw),
        E("MultiLinearMongeAlignment-tt", lambda: S.MultiLinearMongeAlignmentAdapter(reg=1e-3, test_time=True), tol=1e-5,
          **kw),
    ]


def subspaces():
    S = skada
    kw = dict(kind="subspace", produces="X", sign=True)
    return [
        E("SubspaceAlignment", lambda: S.SubspaceAlignmentAdapter(n_components=2, random_state=1), seeded=True, **kw),
        E("TransferComponentAnalysis", lambda: S.TransferComponentAnalysisAdapter(n_components=2), tol=1e-4, **kw),
        E("TransferComponentAnalysis-lin", lambda: S.TransferComponentAnalysisAdapter(n_components=1, kernel="linear"),
          tol=1e-4, **kw),
        E("TransferJointMatching", lambda: S.TransferJointMatchingAdapter(n_components=2, max_iter=10), tol=1e-3, **kw),
        E("TransferJointMatching-1", lambda: S.TransferJointMatchingAdapter(n_components=2, max_iter=1), tol=1e-2, **kw),
        E("TransferJointMatching-lin", lambda: S.TransferJointMatchingAdapter(n_components=2, kernel="linear", max_iter=5,
                                                                              tradeoff=.1), tol=1e-3, **kw),
        E("TransferSubspaceLearning", lambda: S.TransferSubspaceLearningAdapter(n_components=1, max_iter=10), tasks=("clf",),
          uses_y=True, tol=1e-2, **kw),
        E("TransferSubspaceLearning-pca", lambda: S.TransferSubspaceLearningAdapter(n_components=2, base_method="pca",
                                                                                    max_iter=10), tasks=("clf",), uses_y=True,
          tol=1e-2, **kw),
        E("TransferSubspaceLearning-lpp", lambda: S.TransferSubspaceLearningAdapter(n_components=2, base_method="lpp",
                                                                                    max_iter=10), tasks=("clf",), uses_y=True,
          tol=1e-2, **kw),
    ]


def labelprops():
    S = skada
    return [
        E("OTLabelProp", lambda: S.OTLabelPropAdapter(n_iter_max=100000), kind="labelprop", produces="y", uses_y=True, predicts_target=True),
        E("OTLabelProp-reg", lambda: S.OTLabelPropAdapter(reg=1.), kind="labelprop", produces="y", uses_y=True,
          predicts_target=True),
        E("JCPOTLabelProp", lambda: S.JCPOTLabelPropAdapter(reg=1., max_iter=50), kind="labelprop", produces="y", uses_y=True,
          tasks=("clf",), predicts_target=True),
    ]


def adapters():
    return reweighters() + mappers() + subspaces() + labelprops()


def base_for(task, produces, rng=None):
    if task == "reg":
        b = Ridge()
    else:
        b = LogisticRegression()
    if produces == "sample_weight":
        b = b.set_fit_request(sample_weight=True)
    return b


def da_estimators():
    """Domain-aware final estimators."""
    S = skada
    return [
        E("JDOTClassifier", lambda: S.JDOTClassifier(LogisticRegression(), n_iter_max=4), kind="est", tasks=("clf",), uses_y=True,
          tol=1e-3, perm=False),
        E("JDOTClassifier-hinge", lambda: S.JDOTClassifier(SVC(kernel="linear", decision_function_shape="ovr"), metric="hinge",
                                                           n_iter_max=3), kind="est", tasks=("clf",), uses_y=True, tol=1e-3,
          perm=False),
        E("JDOTRegressor", lambda: S.JDOTRegressor(Ridge(), n_iter_max=4), kind="est", tasks=("reg",), uses_y=True, tol=1e-4,
          perm=False),
        E("DASVM", lambda: S.DASVMClassifier(SVC(kernel="linear"), k=3, max_iter=30), kind="est", tasks=("clf",),
          uses_y=True, perm=False, binary=True, domain_args=False),
        E("Gradual", lambda: GradualEstimator(n_steps=3, base_estimator=LogisticRegression(), alpha=.5), kind="est",
          tasks=("clf",), uses_y=True, perm=False, reads_target_y=True, domain_args=False),
    ]


def factories(task):
    """The ready-made pipelines (functions returning a pipeline)."""
    S = skada
    b = (lambda: LogisticRegression()) if task == "clf" else (lambda: Ridge())
    bw = lambda: b().set_fit_request(sample_weight=True)
    f = {
        "CORAL()": lambda: S.CORAL(b(), reg=.1),
        "OTMapping()": lambda: S.OTMapping(b()),
        "EntropicOTMapping()": lambda: S.EntropicOTMapping(b(), reg_e=2.),
        "LinearOTMapping()": lambda: S.LinearOTMapping(b(), reg=1e-3),
        "MultiLinearMongeAlignment()": lambda: S.MultiLinearMongeAlignment(b(), reg=1e-3),
        "MMDLSConSMapping()": lambda: S.MMDLSConSMapping(b(), gamma=.1, max_iter=20),
        "SubspaceAlignment()": lambda: S.SubspaceAlignment(b(), n_components=2, random_state=0),
        "TransferComponentAnalysis()": lambda: S.TransferComponentAnalysis(b(), n_components=2),
        "TransferJointMatching()": lambda: S.TransferJointMatching(b(), n_components=2, max_iter=5),
        "DensityReweight()": lambda: S.DensityReweight(bw()),
        "GaussianReweight()": lambda: S.GaussianReweight(bw()),
        "DiscriminatorReweight()": lambda: S.DiscriminatorReweight(bw()),
        "KLIEPReweight()": lambda: S.KLIEPReweight(bw(), gamma=[.1, 1.], cv=3, random_state=0),
        "KMMReweight()": lambda: S.KMMReweight(bw(), gamma=.3, B=5.),
        "NearestNeighborReweight()": lambda: S.NearestNeighborReweight(bw()),
        "MMDTarSReweight()": lambda: S.MMDTarSReweight(bw(), gamma=.5),
        "OTLabelProp()": lambda: S.OTLabelProp(b()),
    }
    if task == "clf":
        f.update({
            "ClassRegularizerOTMapping()": lambda: S.ClassRegularizerOTMapping(b(), reg_e=2.),
            "TransferSubspaceLearning()": lambda: S.TransferSubspaceLearning(b(), n_components=1, max_iter=10),
            "JCPOTLabelProp()": lambda: S.JCPOTLabelProp(b(), reg=1., max_iter=50),
        })
    return f


def pick(rng, seq):
    return seq[int(rng.integers(len(seq)))]
