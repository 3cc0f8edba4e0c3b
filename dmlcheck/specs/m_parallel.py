"""Parallel execution: with n_jobs given, every task handed to joblib is analysed as a worker process would run it (on deep copies of its
arguments with large arrays mapped read-only, only the return value comes back).  All results equal those of the sequential run."""
from . import driver
from .common import fill

CMP = '''
def same(o, p, R, J, loss=True):
    """every result of p equals that of o"""
    for j in range(J):
        for r in range(R):
            EQ("P92,P07:estimate per repetition", p.all_coef[j, r], o.all_coef[j, r])
            EQ("P92,P07:standard error per repetition", p.all_se[j, r], o.all_se[j, r])
        EQ("P92:estimate", p.coef[j], o.coef[j])
        EQ("P92:standard error", p.se[j], o.se[j])

def sameone(o, p, R):
    same(o, p, R, 1)
    HOLDS("P92:same names of predictions", set(o.predictions) == set(p.predictions))
    for r in range(R):
        EQ("P92:score", p.psi[:, r, 0], o.psi[:, r, 0])
        EQ("P92:score derivative", p.psi_deriv[:, r, 0], o.psi_deriv[:, r, 0])
        for k in o.predictions:
            EQ("P92,P01:predictions of " + k, p.predictions[k][:, r, 0], o.predictions[k][:, r, 0])
            if o.nuisance_loss is not None:
                EQ("P92,P19:loss of " + k, p.nuisance_loss[k][r, 0], o.nuisance_loss[k][r, 0])
'''
MODEL = CMP + '''
def driver():
    df = DF("y:{yk} d:{dk} d2:c x1:c x2:c z:{zk} z2:c t:b s:b")
    data = {data}
    l = LRN("l", "{gk}"); m = LRN("m", "{mk}"); r_ = LRN("r", "{rk}"); q = LRN("q", "{qk}")
    o = {model}
    p = {model}
    p.set_sample_splitting(o.smpls)
    {setup}
    o.fit({seq})
    p.fit({par})
    sameone(o, p, 2)
    if {models}:
        for nm in o.models:
            for r in range(2):
                HOLDS("P92,P19:stored models", len(p.models[nm]["d"][r]) == len(o.models[nm]["d"][r]))
    p.fit({seq})
    sameone(o, p, 2)
    o.bootstrap(n_rep_boot=5); p.bootstrap(n_rep_boot=5)
'''


def mod(name, model, yk="c", dk="c", zk="b", gk="regressor", mk="regressor", rk="regressor", qk="regressor", kw="", setup="pass"):
    data = 'dml.DoubleMLData(df, y_col="y", d_cols="d", x_cols=["x1", "x2"]%s)' % kw
    for v, seq, par, tier in [("", "n_jobs_cv=1", "n_jobs_cv=2", "quick"),
                              (" models", "store_models=True", "store_models=True, n_jobs_cv=-1", "quick")]:
        driver("parallel/" + name + v, fill(MODEL, yk=yk, dk=dk, zk=zk, gk=gk, mk=mk, rk=rk, qk=qk, data=data, model=model, setup=setup, seq=seq,
                                            par=par, models="store_models" in seq), tier=tier)


A = "n_folds=2, n_rep=2)"
mod("plr", "dml.DoubleMLPLR(data, l, m, " + A)
mod("plr fold params", "dml.DoubleMLPLR(data, l, m, " + A,
    setup='[u.set_ml_nuisance_params("ml_l", "d", [[{"a": 1}, {"a": 2}], [{"a": 3}, {"a": 4}]]) for u in [o, p]]')
mod("plr params", "dml.DoubleMLPLR(data, l, m, " + A, setup='[u.set_ml_nuisance_params("ml_l", "d", {"a": 1}) for u in [o, p]]')
mod("plr iv", "dml.DoubleMLPLR(data, l, m, q, score='IV-type', " + A)
mod("plr classifier", "dml.DoubleMLPLR(data, l, m, " + A, dk="b", mk="classifier")
mod("pliv", "dml.DoubleMLPLIV(data, l, m, r_, " + A, kw=', z_cols="z"', zk="c")
mod("pliv partialXZ", "dml.DoubleMLPLIV._partialXZ(data, l, m, r_, " + A, kw=', z_cols="z"', zk="c")
mod("irm", "dml.DoubleMLIRM(data, l, m, " + A, dk="b", mk="classifier")
mod("apo", "dml.DoubleMLAPO(data, l, m, treatment_level=2, " + A, dk="l3", mk="classifier")
mod("iivm", "dml.DoubleMLIIVM(data, l, m, r_, " + A, dk="b", mk="classifier", rk="classifier", kw=', z_cols="z"')
mod("did", "dml.DoubleMLDID(data, l, m, " + A, dk="b", mk="classifier")
mod("didcs", "dml.DoubleMLDIDCS(data, l, m, " + A, dk="b", mk="classifier", kw=', t_col="t"')
mod("pq", "dml.DoubleMLPQ(data, l, m, " + A, dk="b", gk="classifier", mk="classifier")
mod("lpq", "dml.DoubleMLLPQ(data, l, m, " + A, dk="b", gk="classifier", mk="classifier", kw=', z_cols="z"')
mod("cvar", "dml.DoubleMLCVAR(data, l, m, " + A, dk="b", mk="classifier")
mod("ssm", "dml.DoubleMLSSM(data, l, r_, m, score='missing-at-random', " + A, dk="b", mk="classifier", rk="classifier", kw=', s_col="s"')
mod("ssm nonignorable", "dml.DoubleMLSSM(data, l, r_, m, score='nonignorable', " + A, dk="b", mk="classifier", rk="classifier",
    kw=', s_col="s", z_cols="z"')

WRAP = CMP + '''
def driver():
    df = DF("y:c d:{dk} x1:c x2:c z:b")
    data = dml.DoubleMLData(df, y_col="y", d_cols="d", x_cols=["x1", "x2"]{kw})
    g = LRN("g", "{gk}"); m = LRN("m", "classifier")
    o = {model}
    p = {model}
    p.set_sample_splitting(o.smpls)
    {setup}
    o.fit({seq})
    p.fit({par})
    same(o, p, {R}, {J})
    for i in range({J}):
        for r in range({R}):
            EQ("P92,P22:influence function", p.framework.scaled_psi[:, i, r], o.framework.scaled_psi[:, i, r])
    for a, b in {pairs}:
        sameone(a, b, {R})
        HOLDS("P92,P22:components keep the options", a.trimming_threshold == b.trimming_threshold and a.n_rep == b.n_rep and a.n_folds == b.n_folds)
    {post}
    p.fit({seq})
    same(o, p, {R}, {J})
    p.fit({par})
    same(o, p, {R}, {J})
'''
APOS = 'dml.DoubleMLAPOS(data, g, m, treatment_levels=[0, 2], n_folds=2, n_rep={R}{opts})'
SENS = '''for i in range(2):
        for r in range({R}):
            ASSUME(o.sensitivity_elements["nu2"][0, i, r] > 0)
            for k in ["sigma2", "nu2", "max_bias"]:
                EQ("P92,P18:sensitivity element " + k, p.sensitivity_elements[k][0, i, r], o.sensitivity_elements[k][0, i, r])
    c = o.causal_contrast(0); e = p.causal_contrast(0)
    EQ("P92,P22:contrast", e.thetas[0], c.thetas[0])
    EQ("P92,P22:standard error of the contrast", e.ses[0], c.ses[0])
    o.sensitivity_analysis(); p.sensitivity_analysis()
    for i in range(2):
        EQ("P92,P18:bound", p.sensitivity_params["theta"]["lower"][i], o.sensitivity_params["theta"]["lower"][i])
        EQ("P92,P18:standard error of the bound", p.sensitivity_params["se"]["upper"][i], o.sensitivity_params["se"]["upper"][i])'''
BENCH = '''b1 = o.sensitivity_benchmark(["x1"], fit_args={"n_jobs_models": None}); b2 = p.sensitivity_benchmark(["x1"], fit_args={"n_jobs_models": 2})
    for k in ["cf_y", "cf_d", "rho", "delta_theta"]:
        for i in range(2):
            EQ("P92,P18:benchmark " + k, b2[k].values[i], b1[k].values[i])'''


def wrap(name, model, J=2, R=1, dk="l3", kw="", gk="regressor", seq="", par="n_jobs_models=2", opts="", setup="pass", post="pass",
         pairs="zip(o.modellist, p.modellist)"):
    driver("parallel/" + name, fill(fill(WRAP, model=model, dk=dk, kw=kw, gk=gk, seq=seq, par=par, setup=setup, pairs=pairs, post=post),
                                    opts=opts, J=J, R=R))


wrap("apos", APOS, R=2, post=SENS)
wrap("apos benchmark", APOS, post=BENCH)
wrap("apos both", APOS, par="n_jobs_models=2, n_jobs_cv=2", post=SENS, opts=", normalize_ipw=True, trimming_threshold=0.05")
wrap("apos models", APOS, seq="store_models=True, store_predictions=True", par="n_jobs_models=-1, store_models=True")
wrap("apos external", APOS, seq="external_predictions=E", par="external_predictions=E, n_jobs_models=2",
     setup='E = {0: {"ml_m": ARR("em", 1)}, 2: {"ml_g_d_lvl1": ARR("eg", 1)}}')
wrap("apos cv only", APOS, R=2, par="n_jobs_cv=2")
QP = "list(zip(o.modellist_0, p.modellist_0)) + list(zip(o.modellist_1, p.modellist_1))"
QTE = 'dml.DoubleMLQTE(data, g, m, quantiles=[0.3, 0.6], n_folds=2, n_rep={R}{opts})'
wrap("qte pq", QTE, R=2, dk="b", gk="classifier", pairs=QP)
wrap("qte lpq", QTE, dk="b", gk="classifier", kw=', z_cols="z"', opts=', score="LPQ"', pairs=QP)
wrap("qte cvar", QTE, dk="b", opts=', score="CVaR"', pairs=QP, par="n_jobs_models=2, n_jobs_cv=2")
