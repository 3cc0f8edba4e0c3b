"""Printed reports: the numbers, names and settings shown are those of the object."""
from . import driver
from .common import fill

BASE = '''
def frame():
    return DF("y:{yk} d:{dk} d2:c x1:c x2:c z:b t:b s:b k:i")
def driver():
    df = frame()
    data = {data}
    l = LRN("l", "{gk}"); m = LRN("m", "{mk}"); r_ = LRN("r", "{rk}")
    o = {model}
    s0 = str(o)
    SHOWS("P26:class before fit", s0, "================== ", "{cls} Object")
    SHOWS("P26:outcome before fit", s0, "Outcome variable: ", "y")
    SHOWS("P26:treatments before fit", s0, "Treatment variable(s): ", data.d_cols)
    SHOWS("P26:covariates before fit", s0, "Covariates: ", data.x_cols)
    SHOWS("P26:instruments before fit", s0, "Instrument variable(s): ", data.z_cols)
    SHOWS("P26:observations before fit", s0, "No. Observations: ", n)
    SHOWS("P26:score before fit", s0, "Score function: ", o.score)
    SHOWS("P26:folds before fit", s0, "No. folds: ", {K})
    SHOWS("P26:repetitions before fit", s0, "No. repeated sample splits: ", 2)
    for nm in {learners}:
        SHOWS("P26:learner before fit", s0, "Learner " + nm + ": ", {learners}[nm])
    o.fit()
    for j in range(len(o.coef)):
        ASSUME(not np.isnan(o.coef[j]))
    s1 = str(o)
    SHOWS("P26:outcome", s1, "Outcome variable: ", "y")
    SHOWS("P26:treatments", s1, "Treatment variable(s): ", data.d_cols)
    SHOWS("P26:covariates", s1, "Covariates: ", data.x_cols)
    SHOWS("P26:instruments", s1, "Instrument variable(s): ", data.z_cols)
    SHOWS("P26:observations", s1, "No. Observations: ", n)
    SHOWS("P26:score", s1, "Score function: ", o.score)
    SHOWS("P26:folds", s1, "No. folds: ", {K})
    SHOWS("P26:repetitions", s1, "No. repeated sample splits: ", 2)
    {cluster}
    for nm in {learners}:
        SHOWS("P26:learner", s1, "Learner " + nm + ": ", {learners}[nm])
    for nm in {reg}:
        SHOWS("P26,P19:loss of a regression", s1, "Learner " + nm + " RMSE: ", o.nuisance_loss[nm])
    for nm in {clf}:
        SHOWS("P26,P19:loss of a classification", s1, "Learner " + nm + " Log Loss: ", o.nuisance_loss[nm])
    {rows}
    tab = pd.DataFrame(np.column_stack((o.coef, o.se, o.t_stat, o.pval, o.confint().values)),
                       columns=["coef", "std err", "t", "P>|t|", "2.5 %", "97.5 %"], index=data.d_cols)
    SHOWS("P26,P05:fit summary", s1, "Fit summary       ------------------\\n", tab)
'''


def rep(name, model, cls, learners, reg, clf, yk="c", dk="c", gk="regressor", mk="regressor", rk="regressor",
        data='dml.DoubleMLData(df, "y", "d", ["x1", "x2"])', K=3, cluster="pass", rows="pass"):
    driver("report/" + name, fill(BASE, model=model, cls=cls, learners=learners, reg=repr(reg), clf=repr(clf), yk=yk, dk=dk, gk=gk, mk=mk,
                                  rk=rk, data=data, K=K, cluster=cluster, rows=rows))


A = "n_folds=3, n_rep=2)"
Z = 'dml.DoubleMLData(df, "y", "d", ["x1", "x2"], z_cols="z")'
rep("plr", "dml.DoubleMLPLR(data, l, m, " + A, "DoubleMLPLR", "{'ml_l': l, 'ml_m': m}", ["ml_l", "ml_m"], [])
rep("plr two treatments", "dml.DoubleMLPLR(data, l, m, r_, score='IV-type', " + A, "DoubleMLPLR", "{'ml_l': l, 'ml_m': m, 'ml_g': r_}",
    ["ml_l", "ml_m", "ml_g"], [], data='dml.DoubleMLData(df, "y", ["d", "d2"], ["x1", "x2"])')
rep("plr classifier", "dml.DoubleMLPLR(data, l, m, " + A, "DoubleMLPLR", "{'ml_l': l, 'ml_m': m}", ["ml_l"], ["ml_m"], dk="b", mk="classifier")
rep("plr clustered", "dml.DoubleMLPLR(data, l, m, n_folds=2, n_rep=2)", "DoubleMLPLR", "{'ml_l': l, 'ml_m': m}", ["ml_l", "ml_m"], [], K=2,
    data='dml.DoubleMLClusterData(df, "y", "d", cluster_cols="k", x_cols=["x1", "x2"])',
    cluster='SHOWS("P26,P06:cluster variables", s1, "Cluster variable(s): ", data.cluster_cols); '
            'SHOWS("P26,P06:folds per cluster", s1, "No. folds per cluster: ", 2)')
rep("pliv", "dml.DoubleMLPLIV(data, l, m, r_, " + A, "DoubleMLPLIV", "{'ml_l': l, 'ml_m': m, 'ml_r': r_}", ["ml_l", "ml_m", "ml_r"], [], data=Z)
rep("irm", "dml.DoubleMLIRM(data, l, m, " + A, "DoubleMLIRM", "{'ml_g': l, 'ml_m': m}", ["ml_g0", "ml_g1"], ["ml_m"], dk="b", mk="classifier")
rep("irm binary outcome", "dml.DoubleMLIRM(data, l, m, score='ATTE', " + A, "DoubleMLIRM", "{'ml_g': l, 'ml_m': m}", [], ["ml_g0", "ml_m"], yk="b", dk="b",
    gk="classifier", mk="classifier")
rep("apo", "dml.DoubleMLAPO(data, l, m, treatment_level=2, " + A, "DoubleMLAPO", "{'ml_g': l, 'ml_m': m}",
    ["ml_g_d_lvl0", "ml_g_d_lvl1"], ["ml_m"], dk="l3", mk="classifier")
rep("iivm", "dml.DoubleMLIIVM(data, l, m, r_, " + A, "DoubleMLIIVM", "{'ml_g': l, 'ml_m': m, 'ml_r': r_}", ["ml_g0", "ml_g1"],
    ["ml_m", "ml_r0", "ml_r1"], dk="b", mk="classifier", rk="classifier", data=Z)
rep("did", "dml.DoubleMLDID(data, l, m, " + A, "DoubleMLDID", "{'ml_g': l, 'ml_m': m}", ["ml_g0", "ml_g1"], ["ml_m"], dk="b", mk="classifier")
rep("didcs", "dml.DoubleMLDIDCS(data, l, m, " + A, "DoubleMLDIDCS", "{'ml_g': l, 'ml_m': m}",
    ["ml_g_d0_t0", "ml_g_d0_t1", "ml_g_d1_t0", "ml_g_d1_t1"], ["ml_m"], dk="b", mk="classifier",
    data='dml.DoubleMLData(df, "y", "d", ["x1", "x2"], t_col="t")',
    cluster='SHOWS("P26:time variable", s1, "Time variable: ", "t")')
rep("pq", "dml.DoubleMLPQ(data, l, m, treatment=1, quantile=0.4, " + A, "DoubleMLPQ", "{'ml_g': l, 'ml_m': m}", [], ["ml_m"], dk="b",
    gk="classifier", mk="classifier")
rep("cvar", "dml.DoubleMLCVAR(data, l, m, treatment=0, quantile=0.4, " + A, "DoubleMLCVAR", "{'ml_g': l, 'ml_m': m}", ["ml_g"], ["ml_m"], dk="b",
    mk="classifier")
rep("ssm", "dml.DoubleMLSSM(data, l, r_, m, score='missing-at-random', " + A, "DoubleMLSSM", "{'ml_g': l, 'ml_pi': r_, 'ml_m': m}",
    ["ml_g_d0", "ml_g_d1"], ["ml_pi", "ml_m"], dk="b", mk="classifier", rk="classifier",
    data='dml.DoubleMLData(df, "y", "d", ["x1", "x2"], s_col="s")',
    cluster='SHOWS("P26:selection variable", s1, "Score/Selection variable: ", "s")')

# --- sensitivity analysis ------------------------------------------------------------------------------------------
SENS = '''
def driver():
    df = DF("y:c d:{dk} d2:c x1:c x2:c")
    data = dml.DoubleMLData(df, "y", {d}, ["x1", "x2"])
    l = LRN("l", "regressor"); m = LRN("m", "{mk}")
    o = {model}
    {before}
    o.fit()
    {pre}
    a = SCALAR("a", lo=0, hi=0.9); b = SCALAR("b", lo=0, hi=0.9); rho = SCALAR("rho", lo=-1, hi=1); lv = SCALAR("lv", lo=0.5, hi=0.99); h0 = SCALAR("h0"); h1 = SCALAR("h1")
    o.sensitivity_analysis(cf_y=a, cf_d=b, rho=rho, level=lv, null_hypothesis={h0})
    s = o.sensitivity_summary
    p = o.sensitivity_params
    SHOWS("P26,P18:level", s, "Significance Level: level=", lv)
    SHOWS("P26,P18:outcome strength", s, "Sensitivity parameters: cf_y=", a)
    SHOWS("P26,P18:treatment strength", s, "; cf_d=", b)
    SHOWS("P26,P18:correlation", s, ", rho=", rho)
    t1 = pd.DataFrame(np.transpose(np.vstack((p["ci"]["lower"], p["theta"]["lower"], o.coef, p["theta"]["upper"], p["ci"]["upper"]))),
                      columns=["CI lower", "theta lower", " theta", "theta upper", "CI upper"], index={names})
    SHOWS("P26,P18:bounds", s, "Bounds with CI    ------------------\\n", t1)
    t2 = pd.DataFrame(np.column_stack(({h0v}, 100 * p["rv"], 100 * p["rva"])),
                      columns=["H_0", "RV (%)", "RVa (%)"], index={names})
    SHOWS("P26,P18:robustness values", s, "Robustness Values ------------------\\n", t2)
    f = o.framework.sensitivity_summary
    SHOWS("P26,P18:framework bounds", f, "Bounds with CI    ------------------\\n", t1)
    o.sensitivity_analysis(cf_y=b, cf_d=a, rho=1.0, level=0.9)
    s2 = o.sensitivity_summary
    SHOWS("P26,P13:outcome strength of the latest analysis", s2, "Sensitivity parameters: cf_y=", b)
    SHOWS("P26,P13:level of the latest analysis", s2, "level=", 0.9)
'''
NOFIT = 'RAISES("P13:summary before the fit", lambda: o.sensitivity_summary, "ValueError")'
NU = '''for j in range({k}):
        for r in range({R}):
            ASSUME({e}["nu2"][0, r, j] > 0)'''


def srep(name, model, h0="h0", h0v="[h0]", names="data.d_cols", d='"d"', dk="c", mk="regressor", k=1, R=1, e="o.sensitivity_elements", tier="quick"):
    driver("report/" + name, fill(SENS, model=model, h0=h0, h0v=h0v, names=names, d=d, dk=dk, mk=mk, before=NOFIT,
                                  pre=NU.replace("{k}", str(k)).replace("{R}", str(R)).replace("{e}", e)), tier=tier)


srep("sensitivity plr", "dml.DoubleMLPLR(data, l, m, n_folds=2)")
srep("sensitivity plr two treatments", "dml.DoubleMLPLR(data, l, m, n_folds=2)", d='["d", "d2"]', k=2, h0v="[h0, h0]")
srep("sensitivity plr two null hypotheses", "dml.DoubleMLPLR(data, l, m, n_folds=2)", d='["d", "d2"]', k=2, h0="np.array([h0, h1])", h0v="[h0, h1]")
srep("sensitivity irm", "dml.DoubleMLIRM(data, l, m, n_folds=2)", dk="b", mk="classifier")
srep("sensitivity apos", "dml.DoubleMLAPOS(data, l, m, treatment_levels=[0, 2], n_folds=2)", dk="l3", mk="classifier", names="None", k=2, h0v="[h0, h0]",
     e="o.framework.sensitivity_elements")

# --- average potential outcomes and quantile effects -----------------------------------------------------------------
WRAP = '''
def driver():
    df = DF("y:c d:{dk} x1:c x2:c")
    data = dml.DoubleMLData(df, "y", "d", ["x1", "x2"])
    l = LRN("l", "{gk}"); m = LRN("m", "classifier")
    o = {model}
    s0 = str(o)
    SHOWS("P26:class before fit", s0, "================== ", "{cls} Object")
    EQ("P26:no rows before the fit", list(o.summary.columns), ["coef", "std err", "t", "P>|t|"])
    EQ("P26:no rows before the fit", o.summary.shape, (0, 4))
    o.fit()
    for j in range(2):
        ASSUME(not np.isnan(o.coef[j]))
    s1 = str(o)
    SHOWS("P26:class", s1, "================== ", "{cls} Object")
    tab = pd.DataFrame(np.column_stack((o.coef, o.se, o.t_stat, o.pval, o.confint().values)),
                       columns=["coef", "std err", "t", "P>|t|", "2.5 %", "97.5 %"], index={names})
    SHOWS("P26,P05,P22:fit summary", s1, "Fit summary       ------------------\\n", tab)
    EQ("P26,P22:framework coefficients", o.coef, o.framework.thetas)
'''
for nm, model, cls, dk, gk, names in [
        ("apos", "dml.DoubleMLAPOS(data, l, m, treatment_levels=[0, 2], n_folds=2, n_rep=2)", "DoubleMLAPOS", "l3", "regressor", "[0, 2]"),
        ("qte", "dml.DoubleMLQTE(data, l, m, quantiles=[0.25, 0.75], n_folds=2)", "DoubleMLQTE", "b", "classifier", "[0.25, 0.75]")]:
    driver("report/" + nm, fill(WRAP, model=model, cls=cls, dk=dk, gk=gk, names=names))

# --- effects ---------------------------------------------------------------------------------------------------------
driver("report/best linear predictor", '''
def driver():
    sig = np.array(COL("sig", "c"))
    basis = DF("b1:c b2:c")
    b = dml.DoubleMLBLP(sig, basis)
    SHOWS("P26:class before fit", str(b), "================== ", "DoubleMLBLP Object")
    EQ("P26:columns before the fit", list(b.summary.columns), ["coef", "std err", "t", "P>|t|", "[0.025", "0.975]"])
    EQ("P26:no rows before the fit", b.summary.shape, (0, 6))
    b.fit()
    r = b.blp_model
    ci = r.conf_int()
    t = b.summary
    EQ("P26,P21:columns", list(t.columns), ["coef", "std err", "t", "P>|t|", "[0.025", "0.975]"])
    EQ("P26,P21:coefficients", t["coef"], r.params)
    EQ("P26,P21:standard errors", t["std err"], r.bse)
    EQ("P26,P21:t statistics", t["t"], r.tvalues)
    EQ("P26,P21:p values", t["P>|t|"], r.pvalues)
    EQ("P26,P21:lower bounds", t["[0.025"], ci[0])
    EQ("P26,P21:upper bounds", t["0.975]"], ci[1])
    SHOWS("P26,P21:printed", str(b), "Fit summary ------------------\\n", t)
''')

driver("report/policy tree", '''
def driver():
    sig = np.array(COL("sig", "c"))
    f = DF("b1:c b2:c")
    t = dml.DoubleMLPolicyTree(sig, f, depth=3)
    SHOWS("P26:class before fit", str(t), "================== ", "DoubleMLPolicyTree Object")
    EQ("P26,P21:variables before the fit", list(t.summary["Decision Variables"]), ["b1", "b2"])
    t.fit()
    EQ("P26,P21:columns", list(t.summary.columns), ["Decision Variables", "Max Depth"])
    EQ("P26,P21:variables", list(t.summary["Decision Variables"]), ["b1", "b2"])
    EQ("P26,P21:depth", list(t.summary["Max Depth"]), [3, 3])
    SHOWS("P26,P21:printed", str(t), "Summary ------------------\\n", t.summary)
''')

# --- data ------------------------------------------------------------------------------------------------------------
driver("report/data", '''
from doubleml.double_ml_data import DoubleMLBaseData
def driver():
    df = DF("y:c d:c d2:c x1:c x2:c z:b t:b s:b k:i k2:i")
    s = str(dml.DoubleMLData(df, "y", ["d", "d2"], ["x1", "x2"]))
    SHOWS("P26,P14:class", s, "================== ", "DoubleMLData Object")
    SHOWS("P26,P14:outcome", s, "Outcome variable: ", "y\\n")
    SHOWS("P26,P14:treatments", s, "Treatment variable(s): ", ["d", "d2"])
    SHOWS("P26,P14:covariates", s, "Covariates: ", ["x1", "x2"])
    SHOWS("P26,P14:instruments", s, "Instrument variable(s): ", None)
    SHOWS("P26,P14:observations", s, "No. Observations: ", n)
    o = dml.DoubleMLData(df, "y", "d", ["x2", "x1"], z_cols="z", t_col="t", s_col="s")
    s = str(o)
    SHOWS("P26,P14:covariates in order", s, "Covariates: ", ["x2", "x1"])
    SHOWS("P26,P14:instrument", s, "Instrument variable(s): ", ["z"])
    SHOWS("P26,P14:time", s, "Time variable: ", "t\\n")
    SHOWS("P26,P14:selection", s, "Score/Selection variable: ", "s\\n")
    o.x_cols = ["x1"]
    SHOWS("P26,P13,P14:covariates after a change", str(o), "Covariates: ", ["x1"])
    s = str(dml.DoubleMLClusterData(df, "y", "d", cluster_cols=["k", "k2"], x_cols=["x1", "x2"], z_cols="z", t_col="t", s_col="s"))
    SHOWS("P26,P14,P06:class", s, "================== ", "DoubleMLClusterData Object")
    SHOWS("P26,P14,P06:cluster variables", s, "Cluster variable(s): ", ["k", "k2"])
    SHOWS("P26,P14:cluster treatments", s, "Treatment variable(s): ", ["d"])
    SHOWS("P26,P14:cluster covariates", s, "Covariates: ", ["x1", "x2"])
    SHOWS("P26,P14:cluster instrument", s, "Instrument variable(s): ", ["z"])
    SHOWS("P26,P14:cluster time", s, "Time variable: ", "t\\n")
    SHOWS("P26,P14:cluster selection", s, "Score/Selection variable: ", "s\\n")
    SHOWS("P26,P14:cluster outcome", s, "Outcome variable: ", "y\\n")
    SHOWS("P26,P14:cluster observations", s, "No. Observations: ", n)
    SHOWS("P26,P14:base observations", str(DoubleMLBaseData(df)), "No. Observations: ", n)
''')

# --- regression discontinuity ----------------------------------------------------------------------------------------
driver("report/rdd", '''
from doubleml.rdd import RDFlex
def driver():
    df = DF("y:c d:b x1:c x2:c s:c")
    data = dml.DoubleMLData(df, "y", "d", ["x1", "x2"], s_col="s")
    g = LRN("g", "regressor", sw=True); m = LRN("m", "classifier", sw=True)
    c = SCALAR("c")
    ASSUME((df["s"].min() <= c) and (c <= df["s"].max()))
    o = RDFlex(data, g, m, fuzzy=True, cutoff=c, n_folds=2, n_rep=1, h_fs=0.5)
    SHOWS("P26,P23:before the fit", str(o), "DoubleML RDFlex Object. ", "Run `.fit()` for estimation.")
    o.fit(n_iterations=1)
    ASSUME(np.any(~np.isnan(o._M_Y[:, 0])))
    s = str(o)
    SHOWS("P26,P23:conventional estimate", s, "\\nConventional      ", o.coef[0])
    SHOWS("P26,P23:design", s, "\\nDesign Type:        ", "Fuzzy")
    SHOWS("P26,P23:cutoff", s, "\\nCutoff:             ", c)
    SHOWS("P26,P23:kernel", s, "\\nFirst Stage Kernel: ", o.fs_kernel)
    SHOWS("P26,P23:bandwidth", s, "\\nFinal Bandwidth:    ", o.h)
    SHOWS("P26,P23:robust t statistic", s, "\\nRobust                 -        -     ", o.t_stat[2])
''')
