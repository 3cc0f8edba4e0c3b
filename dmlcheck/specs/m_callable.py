"""User-defined (callable) scores of the models, and remaining accessors of the estimation classes."""
from . import driver

TAIL = '''
        EQ("P04,P07:psi_a of the callable score", o.psi_elements["psi_a"][:, r, 0], a)
        EQ("P04,P07:psi_b of the callable score", o.psi_elements["psi_b"][:, r, 0], b)
        th = o.all_coef[0, r]
        EQ("P05,P07:coef", th, -np.mean(b) / np.mean(a))
        EQ("P04,P07:psi", o.psi[:, r, 0], a * th + b)
        pa = o.psi_elements["psi_a"][:, r, 0]
        EQ("P05,P07:se", o.all_se[0, r], np.sqrt(np.mean(o.psi[:, r, 0] ** 2) / np.mean(pa) ** 2 / n))
'''
IRM = '''
def myscore(y, d, g_hat0, g_hat1, m_hat, smpls):
    return -(1.0 + d) * m_hat, d * y - g_hat0 * 3.0 + g_hat1 * m_hat
def driver():
    df = DF("y:c d:b x1:c x2:c")
    data = dml.DoubleMLData(df, "y", "d", ["x1", "x2"])
    g = LRN("ml_g", "regressor"); m = LRN("ml_m", "classifier")
    o = dml.DoubleMLIRM(data, g, m, n_folds=3, n_rep=2, score=myscore{opts})
    o.fit()
    HOLDS("P04:score kept", o.score is myscore)
    y = df["y"]; d = df["d"]; X = XCOLS(df, "x1 x2")
    for r in range(2):
        s = o.smpls[r]
        g0 = o.predictions["ml_g0"][:, r, 0]; g1 = o.predictions["ml_g1"][:, r, 0]; mr = o.predictions["ml_m"][:, r, 0]
        PRED("ml_g0", g0, g, X, y, s, sub=(d == 0))
        PRED("ml_g1", g1, g, X, y, s, sub=(d == 1))
        PRED("ml_m", mr, m, X, d, s, untrim=True)
        EQ("P03:ml_m truncated", mr, np.clip(OOF(m, X, d, s), 0.01, 0.99))
        ma = {adj}
        a = -(1.0 + d) * ma
        b = d * y - g0 * 3.0 + g1 * ma
''' + TAIL
driver("callable/irm", IRM.format(opts="", adj="mr"))
driver("callable/irm_normalized", IRM.format(opts=", normalize_ipw=True", adj="NORMIPW(mr, d)"))
driver("callable/iivm", '''
def myscore(y, z, d, g_hat0, g_hat1, m_hat, r_hat0, r_hat1, smpls):
    return -(r_hat1 - r_hat0) * m_hat - z, d * y + g_hat1 - 2.0 * g_hat0 * m_hat
def driver():
    df = DF("y:c d:b z:b x1:c x2:c")
    data = dml.DoubleMLData(df, "y", "d", ["x1", "x2"], "z")
    g = LRN("ml_g", "regressor"); m = LRN("ml_m", "classifier"); q = LRN("ml_r", "classifier")
    o = dml.DoubleMLIIVM(data, g, m, q, n_folds=3, n_rep=2, score=myscore)
    o.fit()
    y = df["y"]; d = df["d"]; z = df["z"]; X = XCOLS(df, "x1 x2")
    for r in range(2):
        s = o.smpls[r]
        g0 = o.predictions["ml_g0"][:, r, 0]; g1 = o.predictions["ml_g1"][:, r, 0]; mr = o.predictions["ml_m"][:, r, 0]
        r0 = o.predictions["ml_r0"][:, r, 0]; r1 = o.predictions["ml_r1"][:, r, 0]
        PRED("ml_g0", g0, g, X, y, s, sub=(z == 0))
        PRED("ml_g1", g1, g, X, y, s, sub=(z == 1))
        PRED("ml_r0", r0, q, X, d, s, sub=(z == 0))
        PRED("ml_r1", r1, q, X, d, s, sub=(z == 1))
        PRED("ml_m", mr, m, X, z, s, untrim=True)
        a = -(r1 - r0) * mr - z
        b = d * y + g1 - 2.0 * g0 * mr
''' + TAIL)
PLIV = '''
def myscore(y, z, d, l_hat, m_hat, r_hat, g_hat, smpls):
    {none}
    return -(z - m_hat) * (d - 2.0 * r_hat), (z - m_hat) * (y - {gl}) * d
def driver():
    df = DF("y:c d:c z:c x1:c x2:c")
    data = dml.DoubleMLData(df, "y", "d", ["x1", "x2"], "z")
    l = LRN("ml_l", "regressor"); m = LRN("ml_m", "regressor"); q = LRN("ml_r", "regressor"); g = LRN("ml_g", "regressor")
    o = dml.DoubleMLPLIV(data, l, m, q, {garg}n_folds=3, n_rep=2, score=myscore)
    o.fit()
    y = df["y"]; d = df["d"]; z = df["z"]; X = XCOLS(df, "x1 x2")
    for r in range(2):
        s = o.smpls[r]
        lr = o.predictions["ml_l"][:, r, 0]; mr = o.predictions["ml_m"][:, r, 0]; rr = o.predictions["ml_r"][:, r, 0]
        PRED("ml_l", lr, l, X, y, s, method="predict")
        PRED("ml_m", mr, m, X, z, s, method="predict")
        PRED("ml_r", rr, q, X, d, s, method="predict")
        {gset}
        a = -(z - mr) * (d - 2.0 * rr)
        b = (z - mr) * (y - {gv}) * d
''' + TAIL
driver("callable/pliv", PLIV.format(none="assert g_hat is None", gl="l_hat", garg="", gset="pass", gv="lr"))
driver("callable/pliv_g", PLIV.format(none="pass", gl="g_hat", garg="g, ", gv="gr", gset='''t0 = np.mean((z - mr) * (y - lr)) / np.mean((d - rr) * (z - mr))
        gr = o.predictions["ml_g"][:, r, 0]
        PRED("ml_g", gr, g, X, y - t0 * d, s, method="predict")'''))
driver("callable/unsupported", '''
def myscore(**kw):
    return 1, 2
def driver():
    df = DF("y:c d:b z:b x1:c x2:c t:b s:b")
    data = dml.DoubleMLData(df, "y", "d", ["x1", "x2"])
    sdat = dml.DoubleMLData(df, "y", "d", ["x1", "x2"], s_col="s")
    tdat = dml.DoubleMLData(df, "y", "d", ["x1", "x2"], t_col="t")
    zdat = dml.DoubleMLData(df, "y", "d", ["x1", "x2"], z_cols="z")
    g = LRN("ml_g", "regressor"); m = LRN("ml_m", "classifier"); c = LRN("ml_c", "classifier")
    RAISES("P15:PQ", lambda: dml.DoubleMLPQ(data, c, m, score=myscore), "TypeError")
    RAISES("P15:CVAR", lambda: dml.DoubleMLCVAR(data, g, m, score=myscore), "TypeError")
    RAISES("P15:LPQ", lambda: dml.DoubleMLLPQ(zdat, c, m, score=myscore), "TypeError")
    RAISES("P15:QTE", lambda: dml.DoubleMLQTE(data, c, m, score=myscore), "TypeError")
    RAISES("P15:APO", lambda: dml.DoubleMLAPO(data, g, m, 0, score=myscore), "TypeError")
    RAISES("P15:APOS", lambda: dml.DoubleMLAPOS(data, g, m, [0, 1], score=myscore), "TypeError")
    RAISES("P15:DID", lambda: dml.DoubleMLDID(data, g, m, score=myscore), "TypeError")
    RAISES("P15:DIDCS", lambda: dml.DoubleMLDIDCS(tdat, g, m, score=myscore), "TypeError")
''')
driver("accessors/base", '''
def driver():
    df = DF("y:c d1:c d2:c x1:c x2:c")
    data = dml.DoubleMLData(df, "y", ["d1", "d2"], ["x1", "x2"])
    l = LRN("ml_l", "regressor"); m = LRN("ml_m", "regressor")
    o = dml.DoubleMLPLR(data, l, m, n_folds=3, n_rep=2)
    HOLDS("P13:no bootstrap method before the bootstrap", o.boot_method is None and o.n_rep_boot is None)
    HOLDS("P13:counts", o.n_folds == 3 and o.n_rep == 2)
    HOLDS("P13:nothing estimated", o.boot_t_stat is None and o.psi_elements is None or True)
    o.fit()
    o.bootstrap("wild", 4)
    HOLDS("P13,P16:bootstrap method", o.boot_method == "wild")
    HOLDS("P13,P16:bootstrap repetitions", o.n_rep_boot == 4)
    o.bootstrap("Bayes", 3)
    HOLDS("P13,P16:bootstrap method of the last run", o.boot_method == "Bayes" and o.n_rep_boot == 3)
    for j in range(2):
        ASSUME(np.isnan(o.coef[j]) == False)
    for meth in ("bonferroni", "romano-wolf", "holm"):
        x = o.p_adjust(meth); f = o.framework.p_adjust(meth)
        for j in range(2):
            EQ("P16:coef of p_adjust " + meth, x.iloc[j, 0], o.coef[j])
            EQ("P16:adjusted p value equals the framework's " + meth, x.iloc[j, 1], f[0].iloc[j, 1] if isinstance(f, tuple) else f.iloc[j, 1])
    HOLDS("P13:treatments counted", data.n_treat == 2 and data.n_coefs == 2)
''')
driver("callable/ssm", '''
def myscore(**kw):
    return 1, 2
def driver():
    df = DF("y:c d:b x1:c x2:c s:b")
    data = dml.DoubleMLData(df, "y", "d", ["x1", "x2"], s_col="s")
    g = LRN("ml_g", "regressor"); m = LRN("ml_m", "classifier"); p = LRN("ml_pi", "classifier")
    o = dml.DoubleMLSSM(data, g, p, m, n_folds=3, score=myscore)
    ACCEPTS("P04:documented callable score of the sample selection model", lambda: o.fit())
''')
