"""Scores that are not linear in the parameter (user models built from the mixin): estimate, standard error, clusters."""
from . import driver
from .common import fill

CLS = '''
from doubleml.double_ml_score_mixins import NonLinearScoreMixin
class Cubic(NonLinearScoreMixin, dml.DoubleMLPLR):
    """a partially linear model whose score is cubic in the parameter"""
    _coef_start_val = 0.5
    _coef_bounds = {bounds}
    @property
    def _score_element_names(self):
        return ["psi_a", "psi_b"]
    def _compute_score(self, psi_elements, coef):
        return psi_elements["psi_a"] * coef ** 3 + psi_elements["psi_b"]
    def _compute_score_deriv(self, psi_elements, coef):
        return 3 * coef ** 2 * psi_elements["psi_a"]
'''
PLAIN = '''
def driver():
    df = DF("y:c d:c d2:c x1:c x2:c")
    data = dml.DoubleMLData(df, "y", ["d", "d2"], ["x1", "x2"])
    o = Cubic(data, LRN("l", "regressor"), LRN("m", "regressor"), n_folds=2, n_rep=2)
    o.fit()
    for r in range(2):
        for j in range(2):
            a = o.psi_elements["psi_a"][:, r, j]; b = o.psi_elements["psi_b"][:, r, j]
            th = o.all_coef[j, r]
            ROOTS("P05,P07:estimate is a root of the score", th, lambda t: np.mean(a * t ** 3 + b))
            EQ("P04,P05,P07:score", o.psi[:, r, j], a * th ** 3 + b)
            EQ("P04,P05,P07:derivative", o.psi_deriv[:, r, j], 3 * th ** 2 * a)
            EQ("P05,P07:standard error", o.all_se[j, r],
               np.sqrt(np.mean(o.psi[:, r, j] ** 2) / np.mean(o.psi_deriv[:, r, j]) ** 2 / n))
    for j in range(2):
        EQ("P05,P07:median of the repetitions", o.coef[j], np.median(o.all_coef[j, :]))
'''
for nm, b in (("unbounded", "None"), ("half bounded", "(-np.inf, 3.0)"), ("bounded", "(-2.0, 3.0)")):
    driver("nonlinear/" + nm, fill(CLS, bounds=b) + PLAIN)
CL = '''
def driver():
    df = DF("y:c d:c x1:c x2:c k:i k2:i")
    data = dml.DoubleMLClusterData(df, "y", "d", cluster_cols={cols}, x_cols=["x1", "x2"])
    o = Cubic(data, LRN("l", "regressor"), LRN("m", "regressor"), n_folds=2)
    o.fit()
    c1 = df["k"]; c2 = {c2}
    sm = o.smpls[0]; sc = o.smpls_cluster[0]
    a = o.psi_elements["psi_a"][:, 0, 0]; b = o.psi_elements["psi_b"][:, 0, 0]
    th = o.all_coef[0, 0]
    def agg(v):
        s = 0.0
        for k in range(len(sm)):
            te = sm[k][1]
            w = 1.0 / len(sc[k][1][0])
            if c2 is not None:
                w = w / len(sc[k][1][1])
            s = s + w * np.sum(v[te])
        return s
    ROOTS("P05,P06:estimate is a root of the weighted score", th, lambda t: agg(a * t ** 3 + b))
    EQ("P04,P05:score", o.psi[:, 0, 0], a * th ** 3 + b)
    EQ("P04,P05:derivative", o.psi_deriv[:, 0, 0], 3 * th ** 2 * a)
    psi = o.psi[:, 0, 0]; der = o.psi_deriv[:, 0, 0]
    gam = 0.0; J = 0.0
    for k in range(len(sm)):
        te = sm[k][1]; I = sc[k][1][0]
        if c2 is None:
            for c in I:
                gam = gam + np.sum(psi[c1 == c]) ** 2 / len(I)
            J = J + np.sum(der[te]) / len(I)
        else:
            L = sc[k][1][1]
            f = min(len(I), len(L)) / (len(I) * len(L)) ** 2
            for c in I:
                gam = gam + f * np.sum(psi[(c1 == c) & np.isin(c2, L)]) ** 2
            for c in L:
                gam = gam + f * np.sum(psi[(c2 == c) & np.isin(c1, I)]) ** 2
            J = J + np.sum(der[te]) / (len(I) * len(L))
    gam = gam / len(sm); J = J / len(sm)
    C = len(np.unique(c1)) if c2 is None else min(len(np.unique(c1)), len(np.unique(c2)))
    EQ("P06,P05:cluster robust standard error", o.all_se[0, 0], np.sqrt(gam / (J ** 2 * C)))
'''
driver("nonlinear/clusters", fill(CLS, bounds="None") + fill(CL, cols='"k"', c2="None"))
driver("nonlinear/two-way clusters", fill(CLS, bounds="None") + fill(CL, cols='["k", "k2"]', c2='df["k2"]'))
