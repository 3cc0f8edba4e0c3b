"""Conditional and group effects, policy trees and the best linear predictor."""
from . import driver

BLP = '''
import statsmodels.api as sm

def CHK_BLP(label, b, sig, basis, **kw):
    """coefficients, covariance and summary of the linear projection"""
    m = sm.OLS(sig, basis).fit(**kw)
    EQ("P21:signal " + label, b.orth_signal, sig)
    EQ("P21:basis " + label, b.basis, np.array(basis))
    EQ("P21:coefficients " + label, b.blp_model.params, m.params)
    EQ("P21:covariance " + label, b.blp_omega, np.array(m.cov_params()))
    s = b.summary
    EQ("P21:summary coef " + label, s["coef"], m.params)
    EQ("P21:summary se " + label, s["std err"], m.bse)
    EQ("P21:summary t " + label, s["t"], m.tvalues)
    EQ("P21:summary p " + label, s["P>|t|"], m.pvalues)
    ci = m.conf_int(alpha=0.05)
    EQ("P21:summary lower " + label, s["[0.025"], ci[0])
    EQ("P21:summary upper " + label, s["0.975]"], ci[1])
    return m
'''
IRM = BLP + '''
def driver():
    df = DF("y:c d:b x1:c x2:c")
    data = dml.DoubleMLData(df, "y", "d", ["x1", "x2"])
    g = LRN("ml_g", "regressor"); m = LRN("ml_m", "classifier")
    o = dml.DoubleMLIRM(data, g, m, n_folds=2)
    o.fit()
    sig = o.psi_elements["psi_b"][:, 0, 0]
    {body}
'''
APO = IRM.replace('"y:c d:b x1:c x2:c"', '"y:c d:l3 x1:c x2:c"').replace(
    "dml.DoubleMLIRM(data, g, m, n_folds=2)", "dml.DoubleMLAPO(data, g, m, treatment_level=1, n_folds=2)")
PLR = BLP + '''
def driver():
    df = DF("y:c d:c x1:c x2:c")
    data = dml.DoubleMLData(df, "y", "d", ["x1", "x2"])
    l = LRN("ml_l", "regressor"); m = LRN("ml_m", "regressor"); g = LRN("ml_g", "regressor")
    o = dml.DoubleMLPLR(data, l, m, {extra}n_folds=2)
    o.fit()
    mr = o.predictions["ml_m"][:, 0, 0]
    dt = df["d"] - mr
    sig = {sig}
    {body}
'''
CATE = '''
    basis = DF("b1:c b2:c b3:c")
    b = o.{cate}(basis)
    CHK_BLP("{cate}", b, sig, {bas}, cov_type="HC0")
    b = o.{cate}(basis, cov_type="HC3", use_t=True)
    CHK_BLP("{cate} HC3", b, sig, {bas}, cov_type="HC3", use_t=True)
'''
GATE = '''
    gr = DF("{groups}")
    b = o.{gate}(gr{kw})
    ind = {ind}
    m = CHK_BLP("{gate}", b, sig, {bas}, {cov})
    ci = b.confint(level=0.9)
    EQ("P21:group interval lower", ci.iloc[:, 0], m.params + norm.ppf((1 - 0.9) / 2) * m.bse)
    EQ("P21:group effect", ci.iloc[:, 1], m.params)
    EQ("P21:group interval upper", ci.iloc[:, 2], m.params + norm.ppf(1 - (1 - 0.9) / 2) * m.bse)
    HOLDS("P21:group interval columns", list(ci.columns) == ["5.0 %", "effect", "95.0 %"])
    HOLDS("P21:group names", list(ci.index) == list(ind.columns))
'''
GV = dict(
    bool2=("g1:bool g2:bool", 'pd.DataFrame({"g1": gr["g1"], "g2": gr["g2"]})'),
    int2=("g1:i g2:i", 'pd.DataFrame({"g1": gr["g1"], "g2": gr["g2"]})'),
    text=("g:s3", 'pd.DataFrame({"Group_A": gr["g"] == "A", "Group_B": gr["g"] == "B", "Group_C": gr["g"] == "C"})'),
)


def mdl(name, src, cate, gate, bas, bas_g, **kw):
    def put(s, **k):
        for a, b in k.items():
            s = s.replace("{" + a + "}", b)
        return s
    src = put(src, **kw)
    driver("blp/%s_cate" % name, put(src, body=put(CATE, cate=cate, bas=bas)))
    for g, (cols, ind) in GV.items():
        for cov in (("", 'cov_type="HC0"'), (', cov_type="HC1"', 'cov_type="HC1"')) if g == "bool2" else (("", 'cov_type="HC0"'),):
            driver("blp/%s_gate_%s%s" % (name, g, "_hc1" if cov[0] else ""),
                   put(src, body=put(GATE, gate=gate, groups=cols, ind=ind, bas=bas_g, kw=cov[0], cov=cov[1])))


mdl("irm", IRM, "cate", "gate", "basis", "ind")
mdl("apo", APO, "capo", "gapo", "basis", "ind")
DB = 'pd.DataFrame({k: %s[k] * dt for k in list(%s.columns)})'
mdl("plr", PLR, "cate", "gate", DB % ("basis", "basis"), DB % ("ind", "ind"), extra="",
    sig='df["y"] - o.predictions["ml_l"][:, 0, 0]')
mdl("plr_iv", PLR, "cate", "gate", DB % ("basis", "basis"), DB % ("ind", "ind"), extra='g, score="IV-type", ',
    sig='df["y"] - o.coef[0] * mr - o.predictions["ml_g"][:, 0, 0]')

driver("blp/confint", BLP + '''
def driver():
    sig = COL("sig", "c"); sig = np.array(sig)
    basis = DF("b1:c b2:c")
    b = dml.DoubleMLBLP(sig, basis)
    RAISES("P13:interval before fit", lambda: b.confint(), "ValueError")
    HOLDS("P13:summary before fit", b.summary.shape[0] == 0)
    r = b.fit()
    HOLDS("P21:fit returns the object", r is b)
    m = CHK_BLP("direct", b, sig, basis, cov_type="HC0")
    new = DF("b1:c b2:c")
    level = 0.9
    ci = b.confint(new, level=level)
    eff = new["b1"] * m.params[0] + new["b2"] * m.params[1]
    V = np.array(m.cov_params())
    se = np.sqrt(new["b1"] ** 2 * V[0, 0] + 2 * new["b1"] * new["b2"] * V[0, 1] + new["b2"] ** 2 * V[1, 1])
    EQ("P21:effect", ci.iloc[:, 1], eff)
    EQ("P21:lower", ci.iloc[:, 0], eff + norm.ppf((1 - level) / 2) * se)
    EQ("P21:upper", ci.iloc[:, 2], eff + norm.ppf(1 - (1 - 0.9) / 2) * se)
    HOLDS("P21:columns", list(ci.columns) == ["5.0 %", "effect", "95.0 %"])
    ci = b.confint(level=level)
    HOLDS("P21:coefficient columns", list(ci.columns) == ["5.0 %", "effect", "95.0 %"] and list(ci.index) == ["b1", "b2"])
    what = "level of the coefficient intervals is 1 - alpha / 2"
    EQ("P21:coefficient", ci.iloc[:, 1], m.params)
    EQK("P21:coefficient lower", ci.iloc[:, 0], m.conf_int(alpha=1 - level)[0], m.conf_int(alpha=(1 - level) / 2)[0], what)
    EQK("P21:coefficient upper", ci.iloc[:, 2], m.conf_int(alpha=1 - level)[1], m.conf_int(alpha=(1 - level) / 2)[1], what)
    RAISES("P15:level no float", lambda: b.confint(level=1), "TypeError")
    RAISES("P15:level out of range", lambda: b.confint(level=1.5), "ValueError")
    RAISES("P15:joint no bool", lambda: b.confint(joint=1), "TypeError")
    RAISES("P15:n_rep_boot no integer", lambda: b.confint(n_rep_boot=1.5), "TypeError")
    RAISES("P15:n_rep_boot not positive", lambda: b.confint(n_rep_boot=0), "ValueError")
    RAISES("P15:wrong number of columns", lambda: b.confint(DF("b1:c")), "ValueError")
    RAISES("P15:wrong order of columns", lambda: b.confint(DF("b2:c b1:c")), "ValueError")
    RAISES("P15:signal no array", lambda: dml.DoubleMLBLP([1.0, 2.0], basis), "TypeError")
    RAISES("P15:two-dimensional signal", lambda: dml.DoubleMLBLP(sig.reshape(-1, 1), basis), "ValueError")
    RAISES("P15:basis no frame", lambda: dml.DoubleMLBLP(sig, np.array(basis)), "TypeError")
''')
driver("blp/joint", BLP + '''
from scipy.linalg import sqrtm
def driver():
    sig = np.array(COL("sig", "c"))
    basis = DF("b1:bool b2:bool")
    b = dml.DoubleMLBLP(sig, basis, is_gate=True).fit()
    m = sm.OLS(sig, basis).fit(cov_type="HC0")
    V = np.array(m.cov_params())
    B = SCALAR("B", lo=1, integer=True)
    ci = b.confint(joint=True, level=0.9, n_rep_boot=B)
    HOLDS("P21:joint interval columns", list(ci.columns) == ["5.0 %", "effect", "95.0 %"])
    W = RNGS(ci.iloc[:, 0])
    HOLDS("P21:number of draws", len(W) == 1)
    z = W[0]
    ISRNG("P21:normal draws", z, "normal", 2, B)
    t = np.abs(np.dot(sqrtm(V), z).T / m.bse)
    crit = np.quantile(np.max(t, axis=1), 0.9)
    bad = np.quantile(np.max(t, axis=0), 0.9)
    what = "maximum over the replications instead of the points"
    EQ("P21:joint effect", ci.iloc[:, 1], m.params)
    EQK("P21:joint lower", ci.iloc[:, 0], m.params - crit * m.bse, m.params - bad * m.bse, what)
    EQK("P21:joint upper", ci.iloc[:, 2], m.params + crit * m.bse, m.params + bad * m.bse, what)
''')

POL = '''
def driver():
    df = DF("y:c d:b x1:c x2:c")
    data = dml.DoubleMLData(df, "y", "d", ["x1", "x2"])
    o = dml.DoubleMLIRM(data, LRN("ml_g", "regressor"), LRN("ml_m", "classifier"), n_folds=2)
    o.fit()
    sig = o.psi_elements["psi_b"][:, 0, 0]
    f = DF("f1:c f2:c")
    {body}
'''
driver("policy/tree", POL.replace("{body}", '''
    from sklearn.tree import DecisionTreeClassifier
    t = o.policy_tree(f, depth=3, ccp_alpha=0.5, max_features=1)
    EQ("P21:signal", t.orth_signal, sig)
    new = DF("f1:c f2:c")
    ref = DecisionTreeClassifier(max_depth=3, ccp_alpha=0.5, max_features=1, min_samples_leaf=8)
    ref.fit(f, (np.sign(sig) + 1) / 2, sample_weight=np.abs(sig))
    p = t.predict(new)
    EQ("P21:policy", p["pred_treatment"], ref.predict(new))
    HOLDS("P21:features kept", list(p.columns) == ["f1", "f2", "pred_treatment"])
    EQ("P21:features kept", p["f2"], new["f2"])
    t = o.policy_tree(f)
    ref = DecisionTreeClassifier(max_depth=2, ccp_alpha=0.01, min_samples_leaf=8)
    ref.fit(f, (np.sign(sig) + 1) / 2, sample_weight=np.abs(sig))
    EQ("P21:policy with default settings", t.predict(new)["pred_treatment"], ref.predict(new))
    RAISES("P15:missing feature", lambda: t.predict(DF("f1:c")), "KeyError")
    RAISES("P15:features no frame", lambda: t.predict(np.array(new)), "TypeError")
    RAISES("P15:features no frame", lambda: o.policy_tree(np.array(f)), "TypeError")
    RAISES("P15:depth no integer", lambda: o.policy_tree(f, depth=1.5), "TypeError")
    RAISES("P15:depth negative", lambda: o.policy_tree(f, depth=-1), "ValueError")
'''))
driver("policy/direct", '''
def driver():
    sig = np.array(COL("sig", "c")); f = DF("f1:c f2:c")
    t = dml.DoubleMLPolicyTree(sig, f)
    from sklearn.exceptions import NotFittedError
    RAISES("P13:prediction before fit", lambda: t.predict(f), "NotFittedError")
    RAISES("P13:plot before fit", lambda: t.plot_tree(), "NotFittedError")
    RAISES("P15:signal no array", lambda: dml.DoubleMLPolicyTree([1.0], f), "TypeError")
    RAISES("P15:two-dimensional signal", lambda: dml.DoubleMLPolicyTree(sig.reshape(-1, 1), f), "ValueError")
    RAISES("P15:features no frame", lambda: dml.DoubleMLPolicyTree(sig, np.array(f)), "TypeError")
    r = t.fit()
    HOLDS("P21:fit returns the object", r is t)
''')
driver("effects/refused", '''
def driver():
    df = DF("y:c d:b e:b x1:c x2:c")
    data = dml.DoubleMLData(df, "y", "d", ["x1", "x2"])
    g = LRN("ml_g", "regressor"); m = LRN("ml_m", "classifier")
    b = DF("b1:c b2:c")
    o = dml.DoubleMLIRM(data, g, m, score="ATTE", n_folds=2); o.fit()
    RAISES("P21:cate for ATTE", lambda: o.cate(b), "ValueError")
    RAISES("P21:gate for ATTE", lambda: o.gate(DF("g:s2")), "ValueError")
    RAISES("P21:policy tree for ATTE", lambda: o.policy_tree(b), "ValueError")
    o = dml.DoubleMLIRM(data, g, m, n_folds=2, n_rep=2); o.fit()
    RAISES("P21:cate for several repetitions", lambda: o.cate(b), "NotImplementedError")
    RAISES("P21:gate for several repetitions", lambda: o.gate(DF("g:s2")), "NotImplementedError")
    RAISES("P21:policy tree for several repetitions", lambda: o.policy_tree(b), "NotImplementedError")
    o = dml.DoubleMLIRM(data, g, m, n_folds=2); o.fit()
    RAISES("P15:groups no frame", lambda: o.gate(np.array(b)), "TypeError")
    RAISES("P15:several text columns", lambda: o.gate(DF("g:s2 h:s2")), "TypeError")
    o = dml.DoubleMLPLR(data, LRN("ml_l", "regressor"), m, n_folds=2, n_rep=2); o.fit()
    RAISES("P21:plr cate for several repetitions", lambda: o.cate(b), "NotImplementedError")
    data2 = dml.DoubleMLData(df, "y", ["d", "e"], ["x1", "x2"])
    o = dml.DoubleMLPLR(data2, LRN("ml_l", "regressor"), m, n_folds=2); o.fit()
    RAISES("P21:plr cate for several treatments", lambda: o.cate(b), "NotImplementedError")
    o = dml.DoubleMLPLR(data, LRN("ml_l", "regressor"), m, n_folds=2)
    o.fit(store_predictions=False)
    RAISES("P13:plr cate without predictions", lambda: o.cate(b), "ValueError")
    data3 = dml.DoubleMLData(DF("y:c d:l3 x1:c x2:c"), "y", "d", ["x1", "x2"])
    o = dml.DoubleMLAPO(data3, g, m, treatment_level=1, n_folds=2, n_rep=2); o.fit()
    RAISES("P21:capo for several repetitions", lambda: o.capo(b), "NotImplementedError")
    o = dml.DoubleMLAPO(data3, g, m, treatment_level=1, n_folds=2); o.fit()
    RAISES("P15:groups no frame", lambda: o.gapo(np.array(b)), "TypeError")
    RAISES("P15:several text columns", lambda: o.gapo(DF("g:s2 h:s2")), "TypeError")
''')
