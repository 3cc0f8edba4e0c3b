"""Flexible regression discontinuity designs (RDFlex): first stage, kernels, final estimate and aggregation"""
from . import driver

KERNELS = {
    "uniform": ('"uniform"', "lambda u, h: np.where(np.abs(u) <= h, 1.0, 0.0)"),
    "triangular": ('"triangular"', "lambda u, h: np.maximum(0.0, (h - np.abs(u)) / h)"),
    "epanechnikov": ('"Epanechnikov"', "lambda u, h: np.where(np.abs(u) < h, 0.75 * (1 - (u / h) ** 2), 0.0)"),
    "callable": ("mykernel", "mykernel"),
    "default": (None, "lambda u, h: np.maximum(0.0, (h - np.abs(u)) / h)"),
}
ZS = {
    "cutoff": ("np.column_stack((T, X))", "np.column_stack((0 * T, X))", "np.column_stack((0 * T + 1, X))"),
    "cutoff and score": ("np.column_stack((T, S, X))", "np.column_stack((0 * T, 0 * S, X))",
                         "np.column_stack((0 * T + 1, 0 * S, X))"),
    "interacted cutoff and score": ("np.column_stack((T, T * S, S, X))", "np.column_stack((0 * T, 0 * S, 0 * S, X))",
                                    "np.column_stack((0 * T + 1, 0 * S, 0 * S, X))"),
}
HEAD = '''
import rdrobust
from doubleml.rdd import RDFlex
from scipy.stats import norm as normal


def driver():
    df = DF("{cols}")
    data = dml.DoubleMLData(df, "y", "d", {xs}, s_col="s")
    g = LRN("ml_g", "{gkind}", sw=True)
    m = LRN("ml_m", "classifier", sw=True)
    mykernel = lambda u, h: np.exp(-np.abs(u) / h)
    c = {cut}
    ASSUME((df["s"].min() <= c) and (c <= df["s"].max()))
    o = RDFlex(data, {learners}, n_folds={K}, n_rep={R}{opts})
'''
BODY = '''
    o.fit({fit})
    y = df["y"]; d = df["d"]; X = XCOLS(df, "{xc}")
    S = df["s"] - c
    T = np.where(S >= 0, 1.0, 0.0)
    kern = {kern}
    Z = {Z}; ZL = {ZL}; ZR = {ZR}
    h0 = {h0}
    hs = []; bs = []; coefs = []; ses = []; cis = []; nhs = []; hfin = []
    for r in range({R}):
        w = kern(S, h0)
        EQ("P23:first stage weights", o.w, w)
        h = None; b = None
        for it in range({I}):
            yl = np.full(n, np.nan); yr = np.full(n, np.nan); dl = np.full(n, np.nan); dr = np.full(n, np.nan)
            for tr, te in o._smpls[r]:
                yl[te] = FITPRED(g, Z[tr, :], y[tr], ZL[te, :], w=w[tr])
                yr[te] = FITPRED(g, Z[tr, :], y[tr], ZR[te, :], w=w[tr])
                {fz}dl[te] = FITPRED(m, Z[tr, :], d[tr], ZL[te, :], w=w[tr])
                {fz}dr[te] = FITPRED(m, Z[tr, :], d[tr], ZR[te, :], w=w[tr])
            MY = y - (yl + yr) / 2
            MD = {MD}
            if it < {I} - 1:
                res = rdrobust.rdrobust(y=MY, x=S, fuzzy=MD{kw})
                h = np.maximum(res.bws.loc["h", "left"], res.bws.loc["h", "right"])
                b = np.maximum(res.bws.loc["b", "left"], res.bws.loc["b", "right"])
                w = kern(S, h)
        fin = rdrobust.rdrobust(y=MY, x=S, fuzzy=MD, h=h, b=b{kw})
        EQ("P23,P01,P02,P07,P25:coefficients of the repetition", o.all_coef[:, r], fin.coef["Coeff"].values)
        EQ("P23,P07:standard errors of the repetition", o.all_se[:, r], fin.se["Std. Err."].values)
        coefs.append(fin.coef["Coeff"].values); ses.append(fin.se["Std. Err."].values); cis.append(fin.ci.values)
        nhs.append(fin.N_h[0] + fin.N_h[1])
    ac = np.column_stack(coefs); as_ = np.column_stack(ses)
    co = np.median(ac, axis=1)
    EQ("P23,P05,P07:coef", o.coef, co)
    va = []
    for k in range(3):
        va.append(np.median(np.array([ses[r][k] ** 2 + (coefs[r][k] - co[k]) ** 2 / nhs[r] for r in range({R})])))
    EQ("P23,P05,P07:se", o.se, np.sqrt(np.array(va)))
    for k in range(3):
        for q in range(2):
            EQ("P23,P05:ci", o.ci[k, q], np.median(np.array([cis[r][k, q] for r in range({R})])))
    EQ("P23,P05:t_stat", o.t_stat, o.coef / o.se)
    EQ("P23,P05:pval", o.pval, 2 * normal.cdf(-np.abs(o.coef / o.se)))
    level = SCALAR("level", lo=0.5, hi=0.99)
    ci = o.confint(level=0.9)
    z9 = normal.ppf(1 - (1 - 0.9) / 2)
    for k in range(3):
        EQ("P23,P05:lower bound", ci.values[k, 0], np.median(np.array([coefs[r][k] - ses[r][k] * z9 for r in range({R})])))
        EQ("P23,P05:upper bound", ci.values[k, 1], np.median(np.array([coefs[r][k] + ses[r][k] * z9 for r in range({R})])))
    HOLDS("P23:interval columns", list(ci.columns) == ["5.0 %", "95.0 %"] and list(o.confint().columns) == ["2.5 %", "97.5 %"])
    HOLDS("P23:labels", list(ci.index) == ["Conventional", "Bias-Corrected", "Robust"])
    HOLDS("P23:design", o.fuzzy == {fuzzy} and o.n_folds == {K} and o.n_rep == {R} and o.cutoff == c)
    for r in range({R}):
        PARTITION("P12:test sets partition the observations", [te for _, te in o._smpls[r]])
        for tr, te in o._smpls[r]:
            NOOVERLAP("P12,P01:training and test sets are disjoint", tr, te)
        STRATIFIED("P12:stratified by treatment", o._smpls[r], [(d, [0, 1])])
'''


def case(name, spec="cutoff", kernel="triangular", fuzzy=False, K=2, R=1, I=2, cut="0", gkind="regressor", hfs="0.5", kw="",
         xs=("x1", "x2"), tier="quick", cols=None):
    ker, kern = KERNELS[kernel]
    Z, ZL, ZR = ZS[spec]
    opts = f", fuzzy={fuzzy}, cutoff={cut}"
    if hfs:
        opts += f", h_fs={hfs}"
    if spec != "cutoff" or kernel != "default":
        opts += f', fs_specification="{spec}"'
    if ker:
        opts += f", fs_kernel={ker}"
    opts += kw
    src = HEAD + BODY
    rep = dict(cols=cols or ("y:%s d:b %s:c s:c" % ("b" if gkind == "classifier" else "c", ":c ".join(xs))),
               xs=repr(list(xs)), gkind=gkind, cut=cut, K=K, R=R, I=I, learners="g, m" if fuzzy else "g", opts=opts,
               fit=f"n_iterations={I}" if I != 2 else "", xc=" ".join(xs), kern=kern, Z=Z, ZL=ZL, ZR=ZR,
               fz="" if fuzzy else "# ", MD="d - (dl + dr) / 2" if fuzzy else "None", fuzzy=fuzzy, kw=kw,
               h0=hfs or "np.max(rdrobust.rdbwselect(y=y, x=S%s).bws.values)" % (", fuzzy=d" if fuzzy else ""))
    for k, v in rep.items():
        src = src.replace("{" + k + "}", str(v))
    driver("rdd/" + name, src, tier=tier)


case("sharp")
case("sharp_default", kernel="default", hfs=None, K=3)
case("sharp_rep2", R=2, cut="c0", spec="cutoff and score")
case("sharp_iter1", I=1, kernel="uniform", cut="0.25", spec="interacted cutoff and score")
case("sharp_iter3", I=3, kernel="epanechnikov", xs=("x1",))
case("sharp_callable", kernel="callable", spec="interacted cutoff and score", R=2)
case("sharp_classifier", gkind="classifier", R=2, I=1)
case("sharp_kwargs", kw=', p=2, kernel="uniform"', I=1)
case("fuzzy", fuzzy=True)
case("fuzzy_rep2", fuzzy=True, R=2, I=1, cut="c0", spec="interacted cutoff and score", kernel="uniform")
case("fuzzy_scores", fuzzy=True, R=2, spec="cutoff and score", kernel="epanechnikov", cut="1", gkind="classifier")
case("fuzzy_default", fuzzy=True, kernel="default", hfs=None, xs=("x1",), K=3)

for _d in __import__("dmlcheck.specs", fromlist=["DRIVERS"]).DRIVERS:
    if _d["name"].startswith("rdd/"):
        _d["src"] = _d["src"].replace("c = c0\n", 'c = SCALAR("cut")\n').replace("cutoff=c0", "cutoff=c")

ARGS = '''
from doubleml.rdd import RDFlex


def driver():
    df = DF("y:c d:b x1:c s:c z:c q:b")
    data = dml.DoubleMLData(df, "y", "d", "x1", s_col="s")
    ASSUME((df["s"].min() <= 0) and (0 <= df["s"].max()))
    g = LRN("ml_g", "regressor", sw=True); m = LRN("ml_m", "classifier", sw=True)
    gc = LRN("ml_gc", "classifier", sw=True); mr = LRN("ml_mr", "regressor", sw=True)
    gn = LRN("ml_gn", "regressor", sw=False); mn = LRN("ml_mn", "classifier", sw=False)
    ok = dict(h_fs=0.5, n_folds=2)
    ACCEPTS("P15:valid call", lambda: RDFlex(data, g, **ok))
    RAISES("P15:data type", lambda: RDFlex(df, g, **ok), "TypeError")
    RAISES("P15,P14:missing score", lambda: RDFlex(dml.DoubleMLData(df, "y", "d", "x1"), g, **ok), "ValueError")
    RAISES("P15,P14:instrument", lambda: RDFlex(dml.DoubleMLData(df, "y", "d", "x1", z_cols="z", s_col="s"), g, **ok), "ValueError")
    RAISES("P15,P14:non binary treatment", lambda: RDFlex(dml.DoubleMLData(df, "y", "z", "x1", s_col="s"), g, **ok), "ValueError")
    RAISES("P15,P14:two treatments", lambda: RDFlex(dml.DoubleMLData(df, "y", ["d", "q"], "x1", s_col="s"), g, **ok), "ValueError")
    RAISES("P15:binary score", lambda: RDFlex(dml.DoubleMLData(df, "y", "d", "x1", s_col="q"), g, **ok), "ValueError")
    RAISES("P15:cutoff type", lambda: RDFlex(data, g, cutoff="0", **ok), "TypeError")
    RAISES("P15:cutoff None", lambda: RDFlex(data, g, cutoff=None, **ok), "TypeError")
    RAISES("P15,P25:learner without sample weights", lambda: RDFlex(data, gn, **ok), "ValueError")
    RAISES("P15,P25:treatment learner without sample weights", lambda: RDFlex(data, g, mn, fuzzy=True, **ok), "ValueError")
    RAISES("P15:fuzzy without treatment learner", lambda: RDFlex(data, g, fuzzy=True, **ok), "ValueError")
    RAISES("P15,P25:fuzzy with a regressor", lambda: RDFlex(data, g, mr, fuzzy=True, **ok), "ValueError,TypeError")
    RAISES("P15,P25:classifier for a continuous outcome", lambda: RDFlex(data, gc, **ok), "ValueError")
    RAISES("P15:bandwidth type", lambda: RDFlex(data, g, n_folds=2, h_fs=1), "TypeError")
    RAISES("P15:bandwidth string", lambda: RDFlex(data, g, n_folds=2, h_fs="0.5"), "TypeError")
    RAISES("P15:n_folds type", lambda: RDFlex(data, g, h_fs=0.5, n_folds=2.5), "TypeError")
    RAISES("P15:n_folds value", lambda: RDFlex(data, g, h_fs=0.5, n_folds=0), "ValueError")
    RAISES("P15:n_rep type", lambda: RDFlex(data, g, n_rep="1", **ok), "TypeError")
    RAISES("P15:n_rep value", lambda: RDFlex(data, g, n_rep=0, **ok), "ValueError")
    RAISES("P15:specification", lambda: RDFlex(data, g, fs_specification="score", **ok), "ValueError")
    RAISES("P15:specification type", lambda: RDFlex(data, g, fs_specification=1, **ok), "TypeError")
    RAISES("P15:kernel", lambda: RDFlex(data, g, fs_kernel="gaussian", **ok), "ValueError")
    RAISES("P15:kernel type", lambda: RDFlex(data, g, fs_kernel=2, **ok), "TypeError")
    o = RDFlex(data, g, **ok)
    RAISES("P15:iterations type", lambda: o.fit(n_iterations=1.0), "TypeError")
    RAISES("P15:iterations value", lambda: o.fit(n_iterations=0), "ValueError")
    o.fit(n_iterations=1)
    RAISES("P15:level type", lambda: o.confint(level=1), "TypeError")
    RAISES("P15:level value", lambda: o.confint(level=1.5), "ValueError")
    RAISES("P15:level value", lambda: o.confint(level=0.0), "ValueError")
'''
driver("rdd/arguments", ARGS)

RANGE = '''
from doubleml.rdd import RDFlex


def driver():
    df = DF("y:c d:b x1:c s:c")
    data = dml.DoubleMLData(df, "y", "d", "x1", s_col="s")
    g = LRN("ml_g", "regressor", sw=True)
    ASSUME({cond})
    RAISES("P15,P23:cutoff outside the range of the score", lambda: RDFlex(data, g, h_fs=0.5, cutoff=1.5), "ValueError")
'''
driver("rdd/cutoff_above", RANGE.replace("{cond}", 'df["s"].max() < 1.5'))
driver("rdd/cutoff_below", RANGE.replace("{cond}", 'df["s"].min() > 1.5'))

REFIT = '''
from doubleml.rdd import RDFlex


def driver():
    df = DF("y:c d:b x1:c s:c")
    data = dml.DoubleMLData(df, "y", "d", "x1", s_col="s")
    ASSUME((df["s"].min() <= 0) and (0 <= df["s"].max()))
    g = LRN("ml_g", "regressor", sw=True); m = LRN("ml_m", "classifier", sw=True)
    o = RDFlex(data, g, m, fuzzy=True, h_fs=0.5, n_folds=2, n_rep=2)
    o.fit(n_iterations={a})
    o.fit(n_iterations={b})
    p = RDFlex(data, g, m, fuzzy=True, h_fs=0.5, n_folds=2, n_rep=2)
    p._smpls = o._smpls
    p.fit(n_iterations={b})
    EQ("P13,P23:refitted coefficients", o.coef, p.coef)
    EQ("P13,P23:refitted standard errors", o.se, p.se)
    EQ("P13,P23:refitted intervals", o.ci, p.ci)
    EQ("P13,P23:refitted confint", o.confint(level=0.9).values, p.confint(level=0.9).values)
    SAME("P13:fit returns the object", o.fit(n_iterations=1), o)
'''
for _a, _b in ((2, 1), (1, 2), (3, 2)):
    driver(f"rdd/refit{_a}{_b}", REFIT.replace("{a}", str(_a)).replace("{b}", str(_b)))
