"""Learners wrapped as global learners: the base learner is fitted to the whole training data without weights."""
from . import driver
from .common import fill

driver("global/learners", '''
def driver():
    from doubleml.utils import GlobalRegressor, GlobalClassifier
    from sklearn.base import clone
    df = DF("y:c d:b d3:l3 x1:c x2:c v:c"); w = ARR("w", lo=0.0)
    b = LRN("b", "regressor"); c = LRN("c", "classifier")
    X = XCOLS(df, "x1 x2"); Z = XCOLS(df, "x2 v")
    g = GlobalRegressor(b)
    RAISES("P15,P08:prediction before fit", lambda: g.predict(X), "NotFittedError")
    g.fit(X, df["y"], sample_weight=w)
    EQ("P08,P23:regression without weights", g.predict(Z), FITPRED(b, X, df["y"], Z))
    g.fit(Z, df["v"])
    EQ("P08,P13:refit replaces the fitted learner", g.predict(Z), FITPRED(b, Z, df["v"], Z))
    SAME("P08:base learner kept", g.base_estimator, b)
    h = GlobalClassifier(c)
    RAISES("P15,P08:probabilities before fit", lambda: h.predict_proba(X), "NotFittedError")
    h.fit(X, df["d"], sample_weight=w)
    EQ("P25,P08,P23:probabilities without weights", h.predict_proba(Z)[:, 1], FITPRED(c, X, df["d"], Z))
    EQ("P25,P08:labels without weights", h.predict(Z), FITPRED(c, X, df["d"], Z, method="predict"))
    RAISES("P15:classifier as regressor", lambda: GlobalRegressor(c).fit(X, df["y"]), "ValueError")
    RAISES("P15:regressor as classifier", lambda: GlobalClassifier(b).fit(X, df["d"]), "ValueError")
    k = clone(g)
    RAISES("P08:a clone is not fitted", lambda: k.predict(X), "NotFittedError")
    EQ("P08:the original stays fitted", g.predict(X), FITPRED(b, Z, df["v"], X))
    k.set_params(base_estimator__alpha=3)
    k.fit(X, df["y"])
    EQ("P08,P20:parameters of the clone", k.predict(Z), FITPRED(b, X, df["y"], Z, params={"alpha": 3}))
    g.fit(X, df["y"])
    EQ("P08,P20:parameters of the original unchanged", g.predict(Z), FITPRED(b, X, df["y"], Z))
''')
MODELS = {"plr": ('dml.DoubleMLPLR(data, R(l), R(m), n_folds=2, draw_sample_splitting=draw)', "c", "regressor", ("ml_l", "ml_m")),
          "irm": ('dml.DoubleMLIRM(data, R(l), C(m), n_folds=2, draw_sample_splitting=draw)', "b", "classifier", ("ml_g0", "ml_g1", "ml_m"))}
for nm, (mk, dk, mkind, preds) in MODELS.items():
    driver("global/" + nm, fill('''
from doubleml.utils import GlobalRegressor, GlobalClassifier
def driver():
    df = DF("y:c d:{dk} x1:c x2:c")
    l = LRN("l", "regressor"); m = LRN("m", "{mkind}")
    def build(R, C, draw):
        data = dml.DoubleMLData(df, "y", "d", ["x1", "x2"])
        return {mk}
    o = build(GlobalRegressor, GlobalClassifier, True)
    o.fit()
    q = build(lambda v: v, lambda v: v, False)
    q.set_sample_splitting(o.smpls)
    q.fit()
    for nm in {preds}:
        EQ("P08,P25,P01:predictions of the wrapped learner " + nm, o.predictions[nm][:, 0, 0], q.predictions[nm][:, 0, 0])
    EQ("P08,P05:estimate with wrapped learners", o.coef[0], q.coef[0])
''', dk=dk, mkind=mkind, mk=mk, preds=repr(preds)))
