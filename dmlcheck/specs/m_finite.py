"""Covariates that are not finite: the option of the data container decides, and every model honours it."""
from . import driver
from .common import fill

SRC = '''
def driver():
    df = DF("y:{yk} d:{dk} d2:c x1:c m:{L} z:b z2:c t:b s:b k:i")
    data = {data}
    l = LRN("l", "{gk}"); m = LRN("m", "{mk}"); r_ = LRN("r", "{rk}")
    o = {model}
    ACCEPTS("P14:fit with covariates {W}", lambda: o.fit(store_predictions=True))
    o.fit()
    for nm in o.params_names:
        HOLDS("P14:predictions stored with covariates {W}", o.predictions[nm].shape[0] == n)
'''
OPT = {"NaN allowed": ("miss", '"allow-nan"'), "NaN": ("miss", "False"), "inf": ("inf", "False")}


def fin(name, model, yk="c", dk="c", gk="regressor", mk="regressor", rk="regressor", kw="", d='"d"', cls="dml.DoubleMLData(df, ", body=None):
    for what, (L, o) in OPT.items():
        data = cls + 'y_col="y", d_cols=%s, x_cols=["x1", "m"]%s, force_all_x_finite=%s)' % (d, kw, o)
        driver("finite/%s %s" % (name, what), fill(SRC, yk=yk, dk=dk, gk=gk, mk=mk, rk=rk, data=data, model=model, L=L, W=what),
               tier="quick" if what == "NaN" else "thorough")


A = "n_folds=2)"
fin("plr", "dml.DoubleMLPLR(data, l, m, r_, score='IV-type', " + A)
fin("plr clustered", "dml.DoubleMLPLR(data, l, m, " + A, cls='dml.DoubleMLClusterData(df, cluster_cols="k", ')
fin("pliv", "dml.DoubleMLPLIV(data, l, m, r_, " + A, kw=', z_cols="z"')
fin("pliv iv", "dml.DoubleMLPLIV(data, l, m, r_, LRN('g', 'regressor'), score='IV-type', " + A, kw=', z_cols="z"')
fin("pliv two instruments", "dml.DoubleMLPLIV(data, l, m, r_, " + A, kw=', z_cols=["z", "z2"]')
fin("pliv partial z", "dml.DoubleMLPLIV._partialZ(data, ml_r=r_, " + A, kw=', z_cols="z"')
fin("pliv partial xz", "dml.DoubleMLPLIV._partialXZ(data, l, m, r_, " + A, kw=', z_cols="z"')
fin("irm", "dml.DoubleMLIRM(data, l, m, " + A, dk="b", mk="classifier")
fin("apo", "dml.DoubleMLAPO(data, l, m, treatment_level=2, " + A, dk="l3", mk="classifier")
fin("iivm", "dml.DoubleMLIIVM(data, l, m, r_, " + A, dk="b", mk="classifier", rk="classifier", kw=', z_cols="z"')
fin("did", "dml.DoubleMLDID(data, l, m, " + A, dk="b", mk="classifier")
fin("didcs", "dml.DoubleMLDIDCS(data, l, m, " + A, dk="b", mk="classifier", kw=', t_col="t"')
fin("pq", "dml.DoubleMLPQ(data, l, m, " + A, dk="b", gk="classifier", mk="classifier")
fin("lpq", "dml.DoubleMLLPQ(data, l, m, " + A, dk="b", gk="classifier", mk="classifier", kw=', z_cols="z"')
fin("cvar", "dml.DoubleMLCVAR(data, l, m, " + A, dk="b", mk="classifier")
fin("ssm", "dml.DoubleMLSSM(data, l, r_, m, score='missing-at-random', " + A, dk="b", mk="classifier", rk="classifier", kw=', s_col="s"')
fin("ssm nonignorable", "dml.DoubleMLSSM(data, l, r_, m, score='nonignorable', " + A, dk="b", mk="classifier", rk="classifier", kw=', s_col="s", z_cols="z"')
