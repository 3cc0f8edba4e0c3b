"""Predictions that are not finite, or labels instead of probabilities, stop the fit: every nuisance function, fold and repetition."""
from . import driver
from .common import fill

SRC = '''
from sklearn.base import BaseEstimator, RegressorMixin, ClassifierMixin
class Reg(RegressorMixin, BaseEstimator):
    def __init__(self, a=1):
        self.a = a
    def fit(self, X, y, sample_weight=None):
        return self
    def predict(self, X):
        return np.full(X.shape[0], {bad} if self.a == 2 else 0.3)
class Cls(ClassifierMixin, BaseEstimator):
    def __init__(self, a=1):
        self.a = a
    def fit(self, X, y, sample_weight=None):
        self.classes_ = np.array([0, 1])
        return self
    def predict(self, X):
        return np.full(X.shape[0], 0)
    def predict_proba(self, X):
        return np.full((X.shape[0], 2), {bad} if self.a == 2 else 0.3)
def make():
    df = DF("y:{yk} d:{dk} x1:c x2:c z:{zk} z2:c t:b s:b")
    data = dml.DoubleMLData(df, y_col="y", d_cols="d", x_cols=["x1", "x2"]{kw})
    return {model}
def driver():
    for nm in make().params_names:
        if nm in {skip}:
            continue
        o = make()
        o.set_ml_nuisance_params(nm, "d", {"a": 2})
        RAISES("P94:{what} predictions of " + nm, lambda: o.fit(), "ValueError", before_fit=False)
        if nm not in {joint}:
            for r in range(2):
                for k in range(2):
                    o = make()
                    o.set_ml_nuisance_params(nm, "d", [[{"a": 2 if (q == r and p == k) else 1} for p in range(2)] for q in range(2)])
                    RAISES("P94:{what} predictions of " + nm + " in one fold", lambda: o.fit(), "ValueError", before_fit=False)
'''


def mod(name, model, yk="c", dk="c", zk="b", kw="", skip=(), joint=()):
    for what, bad in (("NaN", "np.nan"), ("infinite", "np.inf")):
        driver(f"nonfinite/{name} {what}", fill(SRC, yk=yk, dk=dk, zk=zk, kw=kw, model=model, skip=repr(list(skip)), what=what, bad=bad,
                                                joint=repr(list(joint))),
               tier="quick" if what == "NaN" else "thorough")


A = "n_folds=2, n_rep=2)"
mod("plr", "dml.DoubleMLPLR(data, Reg(), Reg(), " + A)
mod("plr iv", "dml.DoubleMLPLR(data, Reg(), Reg(), Reg(), score='IV-type', " + A)
mod("plr classifier", "dml.DoubleMLPLR(data, Reg(), Cls(), " + A, dk="b")
mod("pliv", "dml.DoubleMLPLIV(data, Reg(), Reg(), Reg(), " + A, zk="c", kw=', z_cols="z"')
mod("pliv iv", "dml.DoubleMLPLIV(data, Reg(), Reg(), Reg(), Reg(), score='IV-type', " + A, zk="c", kw=', z_cols="z"')
mod("pliv two instruments", "dml.DoubleMLPLIV(data, Reg(), Reg(), Reg(), " + A, zk="c", kw=', z_cols=["z", "z2"]')
mod("irm", "dml.DoubleMLIRM(data, Reg(), Cls(), " + A, dk="b")
mod("irm atte binary outcome", "dml.DoubleMLIRM(data, Cls(), Cls(), score='ATTE', " + A, dk="b", yk="b")
mod("apo", "dml.DoubleMLAPO(data, Reg(), Cls(), treatment_level=2, " + A, dk="l3")
mod("iivm", "dml.DoubleMLIIVM(data, Reg(), Cls(), Cls(), " + A, dk="b", kw=', z_cols="z"')
mod("did", "dml.DoubleMLDID(data, Reg(), Cls(), " + A, dk="b")
mod("did experimental", "dml.DoubleMLDID(data, Reg(), score='experimental', " + A, dk="b", skip=["ml_m"])
mod("ssm", "dml.DoubleMLSSM(data, Reg(), Cls(), Cls(), " + A, dk="b", kw=', s_col="s"')
mod("ssm nonignorable", "dml.DoubleMLSSM(data, Reg(), Cls(), Cls(), score='nonignorable', " + A, dk="b", kw=', s_col="s", z_cols="z"')
mod("didcs", "dml.DoubleMLDIDCS(data, Reg(), Cls(), " + A, dk="b", kw=', t_col="t"')
mod("didcs experimental", "dml.DoubleMLDIDCS(data, Reg(), score='experimental', " + A, dk="b", kw=', t_col="t"', skip=["ml_m"])

LAB = '''
from sklearn.base import BaseEstimator, RegressorMixin, ClassifierMixin
B = [0, 1, 0, 1, 1, 0, 1, 0, 1, 0, 1, 0]
B2 = [0, 0, 1, 1, 0, 0, 1, 1, 0, 1, 0, 1]
Y = [0.3, 1.2, -0.4, 2.2, 0.9, -1.1, 3.1, 0.2, 1.7, -0.6, 2.4, 0.7]
X = [1.3, 0.2, 2.4, -2.2, 1.9, -1.3, 0.1, 1.2, 0.7, -0.9, 1.4, 2.7]
L = [1, 1, 0, 0, 1, 0, 1, 1, 0, 0, 1, 1]
P = [0.2, 0.3, 0.4, 0.5, 0.6, 0.7, 0.6, 0.5, 0.4, 0.3, 0.2, 0.3]
class Reg(RegressorMixin, BaseEstimator):
    def __init__(self, a=-1, b=None):
        self.a = a
        self.b = b
    def fit(self, X, y, sample_weight=None):
        return self
    def predict(self, X):
        p = X[:, self.a] * 1.0
        if self.b is not None:
            p[np.where(X[:, -3] == 0.7)[0]] = self.b
        return p
class Cls(ClassifierMixin, BaseEstimator):
    def __init__(self, a=1):
        self.a = a
    def fit(self, X, y, sample_weight=None):
        self.classes_ = np.array([0, 1])
        return self
    def predict(self, X):
        return X[:, 1]
    def predict_proba(self, X):
        return np.column_stack((1 - X[:, -1], X[:, -1]))
S = [[(list(range(6, 12)), list(range(6))), (list(range(6)), list(range(6, 12)))]]
def make(ml, y):
    df = pd.DataFrame({"y": y, "d": B, "z": B2, "x1": X, "x2": L, "x3": P})
    data = dml.DoubleMLData(df, y_col="y", d_cols="d", x_cols=["x1", "x2", "x3"]{kw})
    o = {model}
    o.set_sample_splitting(S)
    return o
def driver():
    y = {y}
    RAISES("P94:labels predicted for a binary variable", lambda: make(Reg(-2), y).fit(), "ValueError", before_fit=False)
    for b in [0.5, 2, -1]:
        ACCEPTS("P94:predictions that are not all labels", lambda: make(Reg(-2, b), y).fit())
    ACCEPTS("P94:probabilities predicted for a binary variable", lambda: make(Reg(-1), y).fit())
    if {other}:
        ACCEPTS("P94:0/1 predictions for a variable that is not binary", lambda: make(Reg(-2), Y).fit())
'''


def lab(name, model, y="B2", kw="", other=True):
    driver(f"labels/{name}", fill(LAB, model=model, y=y, kw=kw, other=other))


lab("plr", "dml.DoubleMLPLR(data, Reg(-1), ml, n_folds=2)", y="Y", other=False)
lab("plr iv", "dml.DoubleMLPLR(data, Reg(-1), ml, Reg(-1), score='IV-type', n_folds=2)", y="Y", other=False)
lab("irm", "dml.DoubleMLIRM(data, ml, Cls(), n_folds=2)")
lab("irm atte", "dml.DoubleMLIRM(data, ml, Cls(), score='ATTE', n_folds=2)")
lab("apo", "dml.DoubleMLAPO(data, ml, Cls(), treatment_level=1, n_folds=2)")
lab("iivm", "dml.DoubleMLIIVM(data, ml, Cls(), Cls(), n_folds=2)", kw=', z_cols="z"')
