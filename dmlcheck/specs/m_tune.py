"""Hyperparameter tuning: which search decides the parameters of which nuisance, and where they are used."""
from . import driver

HELP = '''
from sklearn.model_selection import KFold, GridSearchCV, RandomizedSearchCV

def BEST(learner, grid, X, y, rows, scoring=None, n_folds=5, mode="grid", n_iter=100):
    cv = KFold(n_splits=n_folds, shuffle=True)
    if mode == "grid":
        s = GridSearchCV(learner, grid, scoring=scoring, cv=cv)
    else:
        s = RandomizedSearchCV(learner, grid, scoring=scoring, cv=cv, n_iter=n_iter)
    return s.fit(np.array(X)[rows, :], np.array(y)[rows]).best_params_

def EQP(label, got, want):
    HOLDS(label + " keys", set(got) == set(want))
    for k in want:
        EQ(label, got[k], want[k])

def ROWS(train, sub):
    return train if sub is None else np.intersect1d(np.where(np.array(sub))[0], train)

def TUNED(name, o, dcol, learner, grid, X, y, folds, sub=None, **kw):
    lab = "P20,P07:tuned " + name
    for r in range(o.n_rep):
        for k in range(o.n_folds):
            rows = ROWS(o.smpls[r][k][0] if folds else np.arange(n), sub)
            EQP(lab, o.params[name][dcol][r][k], BEST(learner, grid, X, y, rows, **kw))

def GRID(name):
    return {"alpha": [SCALAR(name + "a1"), SCALAR(name + "a2")], "beta": [SCALAR(name + "b1")]}
'''

# ------------------------------------------------------------------------------------------------ PLR
PLR = HELP + '''
def driver():
    df = DF("y:c d1:c d2:c x1:c x2:c")
    data = dml.DoubleMLData(df, "y", ["d1", "d2"], ["x1", "x2"])
    l = LRN("ml_l", "regressor"); m = LRN("ml_m", "regressor")
    o = dml.DoubleMLPLR(data, l, m, n_folds=2, n_rep={R})
    gl = GRID("gl"); gm = GRID("gm")
    res = o.tune(USERLIST({"ml_l": gl, "ml_m": gm}, "user grids"), {opts})
    y = df["y"]
    for j in range(2):
        X = XCOLS(df, ["x1 x2 d2", "x1 x2 d1"][j]); dc = "d%d" % (j + 1)
        TUNED("ml_l", o, dc, l, gl, X, y, {folds}, {kl})
        TUNED("ml_m", o, dc, m, gm, X, df[dc], {folds}, {km})
    {more}
'''


def plr(name, R=1, opts="", folds="False", kl="", km="", more="", tier="quick"):
    src = PLR
    for k, v in dict(R=R, opts=opts, folds=folds, kl=kl, km=km, more=more).items():
        src = src.replace("{" + k + "}", str(v))
    driver("tune/" + name, src, tier=tier)


FITTED = '''
    HOLDS("P20:tune returns the model", res is o)
    o.fit()
    for j in range(2):
        X = XCOLS(df, ["x1 x2 d2", "x1 x2 d1"][j]); dc = "d%d" % (j + 1)
        for r in range({R}):
            pl = [BEST(l, gl, X, y, o.smpls[r][k][0] if {folds} else np.arange(n)) for k in range(2)]
            PRED("fit with tuned ml_l", o.predictions["ml_l"][:, r, j], l, X, y, o.smpls[r], params=pl, props="P20,P07")
'''
plr("plr_all", R=2, more=FITTED.replace("{R}", "2").replace("{folds}", "False"))
plr("plr_folds", R=2, opts="tune_on_folds=True", folds="True",
    more=FITTED.replace("{R}", "2").replace("{folds}", "True"))
plr("plr_scoring", opts='scoring_methods=USERLIST({"ml_m": "m_scoring"}, "user scoring"), n_folds_tune=3',
    kl="n_folds=3", km='n_folds=3, scoring="m_scoring"')
plr("plr_random", R=1, opts='search_mode="randomized_search", n_iter_randomized_search=7, tune_on_folds=True, '
    'scoring_methods={"ml_l": "l_scoring", "ml_m": "m_scoring"}', folds="True",
    kl='mode="random", n_iter=7, scoring="l_scoring"', km='mode="random", n_iter=7, scoring="m_scoring"')

driver("tune/plr_return", HELP + '''
def driver():
    df = DF("y:c d1:c d2:c x1:c x2:c")
    data = dml.DoubleMLData(df, "y", ["d1", "d2"], ["x1", "x2"])
    l = LRN("ml_l", "regressor"); m = LRN("ml_m", "regressor")
    o = dml.DoubleMLPLR(data, l, m, n_folds=2, n_rep=2)
    gl = GRID("gl"); gm = GRID("gm")
    y = df["y"]
    keep = SCALAR("keep")
    o.set_ml_nuisance_params("ml_l", "d1", {"alpha": keep})
    res = o.tune({"ml_l": gl, "ml_m": gm}, tune_on_folds=True, set_as_params=False, return_tune_res=True)
    EQ("P20:parameters unchanged if set_as_params=False", o.params["ml_l"]["d1"][0][0]["alpha"], keep)
    HOLDS("P20:parameters unchanged if set_as_params=False", all(x is None for x in o.params["ml_m"]["d1"]))
    HOLDS("P20:results per treatment", len(res) == 2)
    for j in range(2):
        X = XCOLS(df, ["x1 x2 d2", "x1 x2 d1"][j]); dc = "d%d" % (j + 1)
        HOLDS("P20:results per repetition", len(res[j]) == 2)
        for r in range(2):
            for k in range(2):
                tr = o.smpls[r][k][0]
                EQP("P20,P07:returned ml_l", res[j][r]["params"]["ml_l"][k], BEST(l, gl, X, y, tr))
                EQP("P20,P07:returned ml_m", res[j][r]["params"]["ml_m"][k], BEST(m, gm, X, df[dc], tr))
                EQP("P20,P07:returned search of ml_l", res[j][r]["tune_res"]["l_tune"][k].best_params_, BEST(l, gl, X, y, tr))
                EQP("P20,P07:returned search of ml_m", res[j][r]["tune_res"]["m_tune"][k].best_params_, BEST(m, gm, X, df[dc], tr))
    res = o.tune({"ml_l": gl, "ml_m": gm}, return_tune_res=True)
    for j in range(2):
        X = XCOLS(df, ["x1 x2 d2", "x1 x2 d1"][j])
        EQP("P20,P07:returned ml_l", res[j]["params"]["ml_l"][0], BEST(l, gl, X, y, np.arange(n)))
    TUNED("ml_l", o, "d1", l, gl, XCOLS(df, "x1 x2 d2"), y, False)
''')

IVT = HELP + '''
def driver():
    df = DF("y:{yk} d:{dk} {z} x1:c x2:c")
    data = dml.DoubleMLData(df, "y", "d", ["x1", "x2"]{zarg})
    l = LRN("ml_l", "regressor"); m = LRN("ml_m", "regressor"); g = LRN("ml_g", "regressor"); rl = LRN("ml_r", "regressor")
    o = {ctor}
    gl = GRID("gl"); gm = GRID("gm"); gg = GRID("gg"); gr = GRID("gr")
    o.tune({grids}, tune_on_folds={folds})
    y = np.array(df["y"]); d = np.array(df["d"]); X = XCOLS(df, "x1 x2")
    {z1}
    TUNED("ml_l", o, "d", l, gl, X, y, {folds})
    TUNED("ml_m", o, "d", m, gm, X, {mt}, {folds})
    {r1}
    lh = np.full_like(y, np.nan, dtype="float64"); vh = np.full_like(y, np.nan, dtype="float64")
    rh = np.full_like(y, np.nan, dtype="float64")
    XA = np.array(X)
    for k in range(2 if {folds} else 1):
        rows = o.smpls[0][k][0] if {folds} else np.arange(n)
        cv = KFold(n_splits=5, shuffle=True)
        lh[rows] = GridSearchCV(l, gl, cv=cv).fit(XA[rows, :], y[rows]).predict(XA[rows, :])
        vh[rows] = GridSearchCV(m, gm, cv=cv).fit(XA[rows, :], ({mt})[rows]).predict(XA[rows, :])
        {r2}
    t0 = {t0}
    TUNED("ml_g", o, "d", g, gg, X, y - t0 * d, {folds})
'''


def ivt(name, **kw):
    src = IVT
    kw = dict(dict(yk="c", dk="c", z="", zarg="", z1="", r1="", r2="", folds="False"), **kw)
    for k, v in kw.items():
        src = src.replace("{" + k + "}", str(v))
    driver("tune/" + name, src)


for _f in ("False", "True"):
    ivt("plr_iv_" + _f.lower(), ctor='dml.DoubleMLPLR(data, l, m, g, score="IV-type", n_folds=2)',
        grids='{"ml_l": gl, "ml_m": gm, "ml_g": gg}', mt="d", folds=_f,
        t0="np.nanmean((d - vh) * (y - lh)) / np.nanmean((d - vh) * (d - vh))")
    ivt("pliv_iv_" + _f.lower(), ctor='dml.DoubleMLPLIV(data, l, m, rl, g, score="IV-type", n_folds=2)',
        z="z:c", zarg=', "z"', z1='z = np.array(df["z"])', folds=_f,
        grids='{"ml_l": gl, "ml_m": gm, "ml_g": gg, "ml_r": gr}', mt="z",
        r1='TUNED("ml_r", o, "d", rl, gr, X, d, %s)' % _f,
        r2="rh[rows] = GridSearchCV(rl, gr, cv=cv).fit(XA[rows, :], d[rows]).predict(XA[rows, :])",
        t0="np.nanmean((z - vh) * (y - lh)) / np.nanmean((d - rh) * (z - vh))")
ivt("plr_iv_int", ctor='dml.DoubleMLPLR(data, l, m, g, score="IV-type", n_folds=2)', yk="i", dk="i",
    grids='{"ml_l": gl, "ml_m": gm, "ml_g": gg}', mt="d", folds="False",
    t0="np.nanmean((d - vh) * (y - lh)) / np.nanmean((d - vh) * (d - vh))")

# ------------------------------------------------------------------------------------------------ other models
GEN = HELP + '''
def driver():
    df = DF("{cols}")
    data = {data}
    {lrn}
    o = {ctor}
    {grids}
    scor = {scor}
    res = o.tune({gd}, tune_on_folds={folds}, scoring_methods=USERLIST(scor, "user scoring methods"), return_tune_res=True)
    y = np.array(df["y"]); X = np.array(XCOLS(df, "x1 x2"))
    {pre}
    {checks}
    found = res[0][0] if {folds} else res[0]
    HOLDS("P20:parameters of every nuisance are returned", all(nu in found["params"].keys() for nu in {nus}))
    for nu in {nus}:
        s = found["tune_res"]
        s = s[nu] if nu in s else (s["m_tune"][nu[5:]] if nu[5:] in ["z1", "z2"] else s[nu[3:] + "_tune"])
        HOLDS("P20:one search per training sample", len(s) == (2 if {folds} else 1))
        for k in range(len(s)):
            EQP("P20,P07:returned search of " + nu, s[k].best_params_, o.params[nu]["d"][0][k])
            EQP("P20,P07:returned parameters of " + nu, found["params"][nu][k], o.params[nu]["d"][0][k])
'''


def gen(name, cols, data, lrn, ctor, names, checks, pre="", scor=True):
    """checks: (nuisance, learner, covariates, target, subgroup) in the names of the driver"""
    for folds in ("False", "True"):
        grids = "; ".join("g_%s = GRID('%s')" % (x, x) for x in names)
        gd = "{" + ", ".join("'%s': g_%s" % (x, x) for x in names) + "}"
        sc = "{" + ", ".join("'%s': '%s_scoring'" % (x, x) for x in names) + "}" if folds == "True" else "None"
        ch = "\n    ".join('TUNED("%s", o, "d", %s, g_%s, %s, %s, %s, %s%s)' % (
            nu, le, le, X, y, folds, sub, ', scoring="%s_scoring"' % le if folds == "True" else "")
            for nu, le, X, y, sub in checks)
        src = GEN
        for k, v in dict(cols=cols, data=data, lrn=lrn, ctor=ctor, grids=grids, gd=gd, folds=folds, pre=pre,
                         checks=ch, scor=sc, nus=repr([c[0] for c in checks])).items():
            src = src.replace("{" + k + "}", v)
        driver("tune/%s_%s" % (name, "folds" if folds == "True" else "all"), src)


def lrns(spec):
    return "; ".join("%s = LRN('%s', '%s')" % (k, k, {"r": "regressor", "c": "classifier"}[v])
                     for k, v in (x.split(":") for x in spec.split()))


D = 'dml.DoubleMLData(df, "y", "d", ["x1", "x2"]%s)'
CD = "y:c d:b x1:c x2:c"
gen("irm", CD, D % "", lrns("ml_g:r ml_m:c"), "dml.DoubleMLIRM(data, ml_g, ml_m, n_folds=2)", ["ml_g", "ml_m"],
    [("ml_g0", "ml_g", "X", "y", "d == 0"), ("ml_g1", "ml_g", "X", "y", "d == 1"), ("ml_m", "ml_m", "X", "d", "None")],
    pre='d = np.array(df["d"])')
gen("iivm", CD + " z:b", D % ', "z"', lrns("ml_g:r ml_m:c ml_r:c"), "dml.DoubleMLIIVM(data, ml_g, ml_m, ml_r, n_folds=2)",
    ["ml_g", "ml_m", "ml_r"],
    [("ml_g0", "ml_g", "X", "y", "z == 0"), ("ml_g1", "ml_g", "X", "y", "z == 1"), ("ml_m", "ml_m", "X", "z", "None"),
     ("ml_r0", "ml_r", "X", "d", "z == 0"), ("ml_r1", "ml_r", "X", "d", "z == 1")],
    pre='d = np.array(df["d"]); z = np.array(df["z"])')
gen("iivm_sub", CD + " z:b", D % ', "z"', lrns("ml_g:r ml_m:c ml_r:c"),
    'dml.DoubleMLIIVM(data, ml_g, ml_m, ml_r, n_folds=2, subgroups={"always_takers": False, "never_takers": True})',
    ["ml_g", "ml_m", "ml_r"],
    [("ml_g0", "ml_g", "X", "y", "z == 0"), ("ml_g1", "ml_g", "X", "y", "z == 1"), ("ml_m", "ml_m", "X", "z", "None"),
     ("ml_r1", "ml_r", "X", "d", "z == 1")],
    pre='d = np.array(df["d"]); z = np.array(df["z"])')
for _nm, _at, _nt in (("iivm_sub_nt", True, False), ("iivm_sub_none", False, False)):
    gen(_nm, CD + " z:b", D % ', "z"', lrns("ml_g:r ml_m:c ml_r:c"),
        'dml.DoubleMLIIVM(data, ml_g, ml_m, ml_r, n_folds=2, subgroups={"always_takers": %s, "never_takers": %s})' % (_at, _nt),
        ["ml_g", "ml_m", "ml_r"],
        [("ml_g0", "ml_g", "X", "y", "z == 0"), ("ml_g1", "ml_g", "X", "y", "z == 1"), ("ml_m", "ml_m", "X", "z", "None")]
        + ([("ml_r0", "ml_r", "X", "d", "z == 0")] if _at else []),
        pre='d = np.array(df["d"]); z = np.array(df["z"])')
gen("apo", "y:c d:l3 x1:c x2:c", D % "", lrns("ml_g:r ml_m:c"), "dml.DoubleMLAPO(data, ml_g, ml_m, treatment_level=1, n_folds=2)",
    ["ml_g", "ml_m"],
    [("ml_g_d_lvl0", "ml_g", "np.column_stack((d, X))", "y", "d != 1"), ("ml_g_d_lvl1", "ml_g", "X", "y", "d == 1"),
     ("ml_m", "ml_m", "X", "(d == 1)", "None")],
    pre='d = np.array(df["d"])')
for _s in ("observational", "experimental"):
    _m = [("ml_m", "ml_m", "X", "d", "None")] if _s == "observational" else []
    gen("did_" + _s[:3], CD, D % "", lrns("ml_g:r ml_m:c"), "dml.DoubleMLDID(data, ml_g, ml_m, score='%s', n_folds=2)" % _s,
        ["ml_g", "ml_m"] if _m else ["ml_g"],
        [("ml_g0", "ml_g", "X", "y", "d == 0"), ("ml_g1", "ml_g", "X", "y", "d == 1")] + _m, pre='d = np.array(df["d"])')
    gen("didcs_" + _s[:3], CD + " t:b", D % ', t_col="t"', lrns("ml_g:r ml_m:c"),
        "dml.DoubleMLDIDCS(data, ml_g, ml_m, score='%s', n_folds=2)" % _s, ["ml_g", "ml_m"] if _m else ["ml_g"],
        [("ml_g_d%d_t%d" % (a, b), "ml_g", "X", "y", "(d == %d) & (t == %d)" % (a, b)) for a in (0, 1) for b in (0, 1)] + _m,
        pre='d = np.array(df["d"]); t = np.array(df["t"])')
gen("ssm", CD + " s:b", D % ', s_col="s"', lrns("ml_g:r ml_pi:c ml_m:c"), "dml.DoubleMLSSM(data, ml_g, ml_pi, ml_m, n_folds=2)",
    ["ml_g", "ml_pi", "ml_m"],
    [("ml_g_d0", "ml_g", "X", "y", "(d == 0) & (s == 1)"), ("ml_g_d1", "ml_g", "X", "y", "(d == 1) & (s == 1)"),
     ("ml_pi", "ml_pi", "np.column_stack((X, d))", "s", "None"), ("ml_m", "ml_m", "X", "d", "None")],
    pre='d = np.array(df["d"]); s = np.array(df["s"])')
gen("ssm_non", CD + " s:b z:c", D % ', "z", s_col="s"', lrns("ml_g:r ml_pi:c ml_m:c"),
    "dml.DoubleMLSSM(data, ml_g, ml_pi, ml_m, score='nonignorable', n_folds=2)", ["ml_g", "ml_pi", "ml_m"],
    [("ml_g_d0", "ml_g", "X", "y", "(d == 0) & (s == 1)"), ("ml_g_d1", "ml_g", "X", "y", "(d == 1) & (s == 1)"),
     ("ml_pi", "ml_pi", 'np.column_stack((X, d, df["z"]))', "s", "None"), ("ml_m", "ml_m", "X", "d", "None")],
    pre='d = np.array(df["d"]); s = np.array(df["s"])')
for _t in (0, 1):
    _pre = 'd = np.array(df["d"]); q = np.quantile(y[d == %d], 0.4)' % _t
    gen("pq%d" % _t, CD, D % "", lrns("ml_g:c ml_m:c"), "dml.DoubleMLPQ(data, ml_g, ml_m, treatment=%d, quantile=0.4, n_folds=2)" % _t,
        ["ml_g", "ml_m"], [("ml_g", "ml_g", "X", "(y <= q)", "d == %d" % _t), ("ml_m", "ml_m", "X", "d", "None")], pre=_pre)
    gen("cvar%d" % _t, CD, D % "", lrns("ml_g:r ml_m:c"),
        "dml.DoubleMLCVAR(data, ml_g, ml_m, treatment=%d, quantile=0.4, n_folds=2)" % _t,
        ["ml_g", "ml_m"], [("ml_g", "ml_g", "X", "np.maximum(q, (y - 0.4 * q) / (1 - 0.4))", "d == %d" % _t),
                           ("ml_m", "ml_m", "X", "d", "None")], pre=_pre)
LPQN = ["ml_m_z", "ml_m_d_z0", "ml_m_d_z1", "ml_g_du_z0", "ml_g_du_z1"]
for _t in (0, 1):
    gen("lpq%d" % _t, CD + " z:b", D % ', "z"', lrns("ml_g:c ml_m:c")
        + "; ml_m_z = ml_m; ml_m_d_z0 = ml_m; ml_m_d_z1 = ml_m; ml_g_du_z0 = ml_g; ml_g_du_z1 = ml_g",
        "dml.DoubleMLLPQ(data, ml_g, ml_m, treatment=%d, quantile=0.4, n_folds=2)" % _t, LPQN,
        [("ml_m_z", "ml_m_z", "X", "z", "None"), ("ml_m_d_z0", "ml_m_d_z0", "X", "d", "z == 0"),
         ("ml_m_d_z1", "ml_m_d_z1", "X", "d", "z == 1"), ("ml_g_du_z0", "ml_g_du_z0", "X", "du", "z == 0"),
         ("ml_g_du_z1", "ml_g_du_z1", "X", "du", "z == 1")],
        pre='d = np.array(df["d"]); z = np.array(df["z"]); q = np.quantile(y[d == %d], 0.4); du = (d == %d) * (y <= q)' % (_t, _t))
PL = "y:c d:c z1:c z2:c x1:c x2:c"
gen("pliv", "y:c d:c z:c x1:c x2:c", D % ', "z"', lrns("ml_l:r ml_m:r ml_r:r"), "dml.DoubleMLPLIV(data, ml_l, ml_m, ml_r, n_folds=2)",
    ["ml_l", "ml_m", "ml_r"], [("ml_l", "ml_l", "X", "y", "None"), ("ml_m", "ml_m", "X", 'df["z"]', "None"),
                               ("ml_r", "ml_r", "X", 'df["d"]', "None")])
gen("pliv2", PL, D % ', ["z1", "z2"]', lrns("ml_l:r ml_m:r ml_r:r"), "dml.DoubleMLPLIV(data, ml_l, ml_m, ml_r, n_folds=2)",
    ["ml_l", "ml_m", "ml_r"], [("ml_l", "ml_l", "X", "y", "None"), ("ml_m_z1", "ml_m", "X", 'df["z1"]', "None"),
                               ("ml_m_z2", "ml_m", "X", 'df["z2"]', "None"), ("ml_r", "ml_r", "X", 'df["d"]', "None")])
gen("pliv_z", PL, D % ', ["z1", "z2"]', lrns("ml_r:r"), "dml.DoubleMLPLIV._partialZ(data, ml_r, n_folds=2)",
    ["ml_r"], [("ml_r", "ml_r", 'XCOLS(df, "x1 x2 z1 z2")', 'df["d"]', "None")])

driver("tune/pliv_xz", HELP + '''
def driver():
    df = DF("y:c d:c z1:c x1:c x2:c")
    data = dml.DoubleMLData(df, "y", "d", ["x1", "x2"], "z1")
    l = LRN("ml_l", "regressor"); m = LRN("ml_m", "regressor"); rl = LRN("ml_r", "regressor")
    o = dml.DoubleMLPLIV._partialXZ(data, l, m, rl, n_folds=2)
    gl = GRID("gl"); gm = GRID("gm"); gr = GRID("gr")
    o.tune({"ml_l": gl, "ml_m": gm, "ml_r": gr}, tune_on_folds=True, search_mode="randomized_search", n_iter_randomized_search=9, n_folds_tune=4)
    y = np.array(df["y"]); d = np.array(df["d"]); X = np.array(XCOLS(df, "x1 x2")); XZ = np.array(XCOLS(df, "x1 x2 z1"))
    kw = dict(mode="random", n_iter=9, n_folds=4)
    TUNED("ml_l", o, "d", l, gl, X, y, True, **kw)
    TUNED("ml_m", o, "d", m, gm, XZ, d, True, **kw)
    for k in range(2):
        tr = o.smpls[0][k][0]
        cv = KFold(n_splits=4, shuffle=True)
        mh = RandomizedSearchCV(m, gm, cv=cv, n_iter=9).fit(XZ[tr, :], d[tr]).predict(XZ[tr, :])
        want = RandomizedSearchCV(rl, gr, cv=cv, n_iter=9).fit(X[tr, :], mh).best_params_
        EQP("P20,P07:tuned ml_r", o.params["ml_r"]["d"][0][k], want)
''')

driver("tune/refused", HELP + '''
def driver():
    df = DF("y:c d1:c d2:c x1:c x2:c")
    data = dml.DoubleMLData(df, "y", ["d1", "d2"], ["x1", "x2"])
    l = LRN("ml_l", "regressor"); m = LRN("ml_m", "regressor")
    o = dml.DoubleMLPLR(data, l, m, n_folds=2)
    gr = {"ml_l": GRID("gl"), "ml_m": GRID("gm")}
    RAISES("P15,P20:grids must be a dictionary", lambda: o.tune(["ml_l", "ml_m"]), "ValueError")
    RAISES("P15,P20:grid of a learner is missing", lambda: o.tune({"ml_l": GRID("gl")}), "ValueError")
    RAISES("P15,P20:unknown scoring method", lambda: o.tune(gr, scoring_methods={"ml_q": "q"}), "ValueError")
    RAISES("P15,P20:scoring methods no dictionary", lambda: o.tune(gr, scoring_methods="q"), "ValueError")
    RAISES("P15,P20:tune_on_folds no bool", lambda: o.tune(gr, tune_on_folds="yes"), "TypeError")
    RAISES("P15,P20:n_folds_tune no integer", lambda: o.tune(gr, n_folds_tune=2.5), "TypeError")
    RAISES("P15,P20:n_folds_tune smaller than two", lambda: o.tune(gr, n_folds_tune=1), "ValueError")
    RAISES("P15,P20:unknown search mode", lambda: o.tune(gr, search_mode="bayes"), "ValueError")
    RAISES("P15,P20:n_iter no integer", lambda: o.tune(gr, n_iter_randomized_search=2.5), "TypeError")
    RAISES("P15,P20:n_iter smaller than two", lambda: o.tune(gr, n_iter_randomized_search=1), "ValueError")
    RAISES("P15,P20:n_jobs_cv no integer", lambda: o.tune(gr, n_jobs_cv="a"), "TypeError")
    RAISES("P15,P20:set_as_params no bool", lambda: o.tune(gr, set_as_params=1), "TypeError")
    RAISES("P15,P20:return_tune_res no bool", lambda: o.tune(gr, return_tune_res="a"), "TypeError")
''')
