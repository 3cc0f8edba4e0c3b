"""Stored models: the model kept for a nuisance function, treatment, repetition and fold made the stored prediction."""
from . import driver
from .common import fill

SRC = '''
def driver():
    df = DF("y:{yk} d:{dk} d2:c x1:c x2:c z:{zk} z2:c t:b s:b")
    data = {data}
    l = LRN("l", "{gk}"); m = LRN("m", "{mk}"); r_ = LRN("r", "{rk}"); q = LRN("q", "{qk}")
    o = {model}
    {setup}
    o.fit(store_models=True)
    X = XCOLS(df, "x1 x2")
    xs = {xs}
    HOLDS("P19:a model slot for every nuisance function", set(o.models.keys()) == set(o.params_names))
    for nm in o.params_names:
        EQ("P19,P07:repetitions of the stored models", len(o.models[nm]["d"]), 2)
        for r in range(2):
            EQ("P19,P07:folds of the stored models", len(o.models[nm]["d"][r]), 2)
            for k in range(2):
                te = o.smpls[r][k][1]
                e = o.models[nm]["d"][r][k]
                F = xs[nm][r][te, :] if nm in xs else X[te, :]
                p = e.predict_proba(F)[:, 1] if nm in {clf} else e.predict(F)
                a = o.predictions[nm][:, r, 0]
                if nm in {trim}:
                    a = UNTRIM(a)
                EQ("P19,P07,P01:stored model of " + nm + " made the prediction", p, a[te])
'''


def mod(name, model, yk="c", dk="c", zk="b", gk="regressor", mk="regressor", rk="regressor", qk="regressor", kw="", clf=(), xs="{}", setup="pass", trim=("ml_m",)):
    data = 'dml.DoubleMLData(df, y_col="y", d_cols="d", x_cols=["x1", "x2"]%s)' % kw
    driver("models/" + name, fill(SRC, yk=yk, dk=dk, zk=zk, gk=gk, mk=mk, rk=rk, qk=qk, data=data, model=model, clf=repr(list(clf)), setup=setup, xs=xs,
           trim=repr([t for t in trim if t in clf])))


A = "n_folds=2, n_rep=2)"
mod("plr", "dml.DoubleMLPLR(data, l, m, " + A)
mod("plr iv", "dml.DoubleMLPLR(data, l, m, q, score='IV-type', " + A)
mod("plr classifier", "dml.DoubleMLPLR(data, l, m, " + A, dk="b", mk="classifier", clf=["ml_m"], trim=())
mod("pliv", "dml.DoubleMLPLIV(data, l, m, r_, " + A, kw=', z_cols="z"', zk="c")
mod("pliv iv", "dml.DoubleMLPLIV(data, l, m, r_, q, score='IV-type', " + A, kw=', z_cols="z"', zk="c")
mod("pliv two instruments", "dml.DoubleMLPLIV(data, l, m, r_, " + A, kw=', z_cols=["z", "z2"]', zk="c")
mod("irm", "dml.DoubleMLIRM(data, l, m, " + A, dk="b", mk="classifier", clf=["ml_m"])
mod("irm atte binary outcome", "dml.DoubleMLIRM(data, l, m, score='ATTE', " + A, dk="b", yk="b", gk="classifier", mk="classifier",
    clf=["ml_m", "ml_g0", "ml_g1"])
mod("apo", "dml.DoubleMLAPO(data, l, m, treatment_level=2, " + A, dk="l3", mk="classifier", clf=["ml_m"],
    xs='{"ml_g_d_lvl0": [XCOLS(df, "d x1 x2")] * 2}')
mod("iivm", "dml.DoubleMLIIVM(data, l, m, r_, " + A, dk="b", mk="classifier", rk="classifier", kw=', z_cols="z"', clf=["ml_m", "ml_r0", "ml_r1"])
mod("did", "dml.DoubleMLDID(data, l, m, " + A, dk="b", mk="classifier", clf=["ml_m"])
mod("didcs", "dml.DoubleMLDIDCS(data, l, m, " + A, dk="b", mk="classifier", kw=', t_col="t"', clf=["ml_m"])
mod("pq", "dml.DoubleMLPQ(data, l, m, " + A, dk="b", gk="classifier", mk="classifier", clf=["ml_g", "ml_m"])
mod("lpq", "dml.DoubleMLLPQ(data, l, m, " + A, dk="b", gk="classifier", mk="classifier", kw=', z_cols="z"',
    clf=["ml_m_z", "ml_m_d_z0", "ml_m_d_z1", "ml_g_du_z0", "ml_g_du_z1"])
mod("cvar", "dml.DoubleMLCVAR(data, l, m, " + A, dk="b", mk="classifier", clf=["ml_m"])
mod("ssm", "dml.DoubleMLSSM(data, l, r_, m, score='missing-at-random', " + A, dk="b", mk="classifier", rk="classifier", kw=', s_col="s"',
    clf=["ml_pi", "ml_m"], xs='{"ml_pi": [XCOLS(df, "x1 x2 d")] * 2}')
