"""Sample selection models."""
from . import driver
from .common import EST, fill, foldpar

HEAD = '''
from sklearn.model_selection import train_test_split
def FP(p, k):
    return p[k] if isinstance(p, list) else p
def driver():
    df = DF("y:{yk} d:b s:b z:c x1:c x2:c")
    data = dml.DoubleMLData(df, "y", "d", ["x1", "x2"], {zc} s_col="s")
    g = LRN("ml_g", "{gk}"); pi = LRN("ml_pi", "classifier"); m = LRN("ml_m", "classifier")
    o = dml.DoubleMLSSM(data, g, pi, m, n_folds={K}, n_rep={R}{opts})
    p0 = None; p1 = None; ppi = None; pm = None
    {setup}
    o.fit({fit})
    y = df["y"]; d = df["d"]; sel = df["s"]; X = XCOLS(df, "x1 x2")
    for r in range({R}):
        sm = o.smpls[r]
        g0 = o.predictions["ml_g_d0"][:, r, 0]; g1 = o.predictions["ml_g_d1"][:, r, 0]
        ph = o.predictions["ml_pi"][:, r, 0]; mh = o.predictions["ml_m"][:, r, 0]
'''
MAR = '''
        PRED("ml_g_d0", g0, g, X, y, sm, sub=(d == 0) & (sel == 1), params=p0)
        PRED("ml_g_d1", g1, g, X, y, sm, sub=(d == 1) & (sel == 1), params=p1)
        PRED("ml_pi", ph, pi, XCOLS(df, "x1 x2 d"), sel, sm, params=ppi)
        PRED("ml_m", mh, m, X, d, sm, untrim=True, params=pm)
        EQ("P03:ml_m truncated", mh, np.clip(OOF(m, X, d, sm, params=pm), {thr}, 1 - {thr}))
        EQ("P02,P19:target ml_g_d0", o.nuisance_targets["ml_g_d0"][:, r, 0], np.where((d == 0) & (sel == 1), y, np.nan))
        EQ("P02,P19:target ml_g_d1", o.nuisance_targets["ml_g_d1"][:, r, 0], np.where((d == 1) & (sel == 1), y, np.nan))
        EQ("P02,P19:target ml_pi", o.nuisance_targets["ml_pi"][:, r, 0], sel)
        EQ("P02,P19:target ml_m", o.nuisance_targets["ml_m"][:, r, 0], d)
'''
NI = '''
        g0w = np.full(n, np.nan); g1w = np.full(n, np.nan); pw = np.full(n, np.nan); mw = np.full(n, np.nan)
        dxz = XCOLS(df, "x1 x2 d z")
        for kf, (tr, te) in enumerate(sm):
            h1, h2 = train_test_split(tr, test_size=0.5, random_state=42, stratify=(d.reshape(-1, 1) + 2 * sel.reshape(-1, 1))[tr])
            pk = FITPRED(pi, dxz[h1, :], sel[h1], dxz, params=FP(ppi, kf))
            pw[te] = pk[te]
            xpi = np.column_stack((X, pk))
            mw[te] = FITPRED(m, xpi[h2, :], d[h2], xpi[te, :], params=FP(pm, kf))
            a1 = np.intersect1d(np.where((d == 1) & (sel == 1))[0], h2)
            a0 = np.intersect1d(np.where((d == 0) & (sel == 1))[0], h2)
            g1w[te] = FITPRED(g, xpi[a1, :], y[a1], xpi[te, :], params=FP(p1, kf))
            g0w[te] = FITPRED(g, xpi[a0, :], y[a0], xpi[te, :], params=FP(p0, kf))
        EQ("P01,P02,P07,P20,P25:ml_pi", ph, pw)
        EQ("P01,P02,P03,P07,P20,P25:ml_m", mh, np.clip(mw, {thr}, 1 - {thr}))
        EQ("P01,P02,P07,P20,P25:ml_g_d1", g1, g1w)
        EQ("P01,P02,P07,P20,P25:ml_g_d0", g0, g0w)
        EQ("P02,P19:target ml_g_d0", o.nuisance_targets["ml_g_d0"][:, r, 0], np.where((d == 0) & (sel == 1), y, np.nan))
        EQ("P02,P19:target ml_g_d1", o.nuisance_targets["ml_g_d1"][:, r, 0], np.where((d == 1) & (sel == 1), y, np.nan))
        EQ("P02,P19:target ml_pi", o.nuisance_targets["ml_pi"][:, r, 0], sel)
        EQ("P02,P19:target ml_m", o.nuisance_targets["ml_m"][:, r, 0], d)
'''
SC = '''
        {w}
        a = -np.ones(n)
        b = w1 * d * sel * (y - g1) / (mh * ph) + g1 - (w0 * (1 - d) * sel * (y - g0) / ((1 - mh) * ph) + g0)
        EQ("P04,P07:psi_a", o.psi_elements["psi_a"][:, r, 0], a)
        EQ("P04,P03,P07:psi_b", o.psi_elements["psi_b"][:, r, 0], b)
''' + EST
PLAIN = "w1 = 1; w0 = 1"
NORM = "w1 = np.sum(d) / np.sum(d * sel / (ph * mh)); w0 = np.sum(1 - d) / np.sum((1 - d) * sel / (ph * (1 - mh)))"


def reg(name, R=2, K=3, yk="c", gk="regressor", opts="", setup="pass", fit="", thr="0.01", w=PLAIN, ni=False, extra=""):
    driver("ssm/" + name, fill(HEAD + (NI if ni else MAR) + SC + extra, R=R, K=K, yk=yk, gk=gk, w=w, setup=setup, fit=fit, thr=thr,
                               zc='["z"],' if ni else "", opts=opts + (', score="nonignorable"' if ni else ""), j=0))


PAR = """
    p0 = {"a": SCALAR("pa")}; p1 = {"a": SCALAR("pb")}; pm = {"a": SCALAR("pc")}; ppi = {"a": SCALAR("pd")}
    o.set_ml_nuisance_params("ml_g_d0", "d", p0); o.set_ml_nuisance_params("ml_g_d1", "d", p1)
    o.set_ml_nuisance_params("ml_m", "d", pm); o.set_ml_nuisance_params("ml_pi", "d", ppi)"""
MODELS = '''
    EQ("P19:model names", sorted(o.models.keys()), ["ml_g_d0", "ml_g_d1", "ml_m", "ml_pi"])
'''
reg("mar")
reg("mar_normalized", opts=", normalize_ipw=True", w=NORM)
reg("mar_trim", opts=', trimming_threshold=0.13', thr="0.13", R=1)
reg("mar_classifier", yk="b", gk="classifier", R=1)
reg("mar_models", fit="store_models=True", extra=MODELS)
reg("mar_params", setup=PAR, R=1)
reg("mar_full", setup="o.set_sample_splitting((np.arange(n), np.arange(n)))", R=1)
reg("mar_full_models", setup="o.set_sample_splitting((np.arange(n), np.arange(n)))", R=1, fit="store_models=True")
reg("mar_params_models", setup=PAR, R=1, fit="store_models=True")
reg("ni", ni=True, K=2)
reg("ni_normalized", opts=", normalize_ipw=True", w=NORM, ni=True, K=2, R=1)
reg("mar_foldparams", setup=foldpar(PAR, 3), R=1)
reg("ni_foldparams", setup=foldpar(PAR, 2), ni=True, K=2, R=1)
reg("ni_params", setup=PAR, ni=True, K=2, R=1)
reg("ni_models", ni=True, K=2, R=1, fit="store_models=True", extra=MODELS)
reg("ni_classifier", ni=True, K=2, R=1, yk="b", gk="classifier")
