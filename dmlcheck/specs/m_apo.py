"""Average potential outcome model."""
from . import driver
from .common import EST, SENS0, SENS1, fill, foldpar

BODY = '''
def driver():
    df = DF("y:{yk} d:l3 x1:c x2:c")
    data = dml.DoubleMLData(df, "y", "d", ["x1", "x2"])
    g = LRN("ml_g", "{gk}"); m = LRN("ml_m", "classifier")
    o = dml.DoubleMLAPO(data, g, m, treatment_level={lvl}, n_folds=3, n_rep={R}{opts})
    pg0 = None; pg1 = None; pm = None
    {setup}
    o.fit({fit})
    y = df["y"]; d = df["d"]; X = XCOLS(df, "x1 x2"); DX = XCOLS(df, "d x1 x2"); T = (d == {lvl})
    nus = []; rrs = []; s2s = []
    for r in range({R}):
        s = o.smpls[r]
        g0 = o.predictions["ml_g_d_lvl0"][:, r, 0]; g1 = o.predictions["ml_g_d_lvl1"][:, r, 0]; mr = o.predictions["ml_m"][:, r, 0]
        PRED("ml_g_d_lvl0", g0, g, DX, y, s, sub=(d != {lvl}), params=pg0)
        PRED("ml_g_d_lvl1", g1, g, X, y, s, sub=T, params=pg1)
        PRED("ml_m", mr, m, X, T, s, untrim=True, params=pm)
        EQ("P03:ml_m truncated", mr, np.clip(OOF(m, X, T, s, params=pm), {thr}, 1 - {thr}))
        EQ("P02,P19:target ml_g_d_lvl0", o.nuisance_targets["ml_g_d_lvl0"][:, r, 0], np.where(d != {lvl}, y, np.nan))
        EQ("P02,P19:target ml_g_d_lvl1", o.nuisance_targets["ml_g_d_lvl1"][:, r, 0], np.where(T, y, np.nan))
        EQ("P02,P19:target ml_m", o.nuisance_targets["ml_m"][:, r, 0], T)
        ma = {adj}
        {w}
        b = w * g1 + wb * (T * (y - g1) / ma)
        a = -w / np.mean(w)
        EQ("P04,P07:psi_a", o.psi_elements["psi_a"][:, r, 0], a)
        EQ("P04,P03,P07:psi_b", o.psi_elements["psi_b"][:, r, 0], b)
''' + EST.replace("{j}", "0") + '''
        rr = wb * (T / ma)
        nu = 2 * w * wb / ma - rr ** 2
        s2 = (y - T * g1 - (1 - T) * g0) ** 2
''' + SENS0 + SENS1


def reg(name, R=2, lvl="1", yk="c", gk="regressor", opts="", setup="pass", fit="", thr="0.01", adj="mr",
        w="w = np.ones(n); wb = np.ones(n)"):
    driver("apo/" + name, fill(BODY, R=R, lvl=lvl, yk=yk, gk=gk, opts=opts, setup=setup, fit=fit, thr=thr, adj=adj, w=w))


PAR = '''
    pg0 = {"a": SCALAR("pa")}; pg1 = {"a": SCALAR("pb")}; pm = {"a": SCALAR("pc")}
    o.set_ml_nuisance_params("ml_g_d_lvl0", "d", pg0); o.set_ml_nuisance_params("ml_g_d_lvl1", "d", pg1)
    o.set_ml_nuisance_params("ml_m", "d", pm)'''
reg("level1")
reg("level0", lvl="0")
reg("level2_models", lvl="2", fit="store_models=True")
reg("params", setup=PAR)
reg("full", setup="o.set_sample_splitting((np.arange(n), np.arange(n)))", R=1)
reg("full_models", setup="o.set_sample_splitting((np.arange(n), np.arange(n)))", R=1, fit="store_models=True")
reg("params_models", setup=PAR, fit="store_models=True, n_jobs_cv=2")
reg("classifier", yk="b", gk="classifier")
reg("trim", opts=", trimming_threshold=0.13", thr="0.13")
reg("normalized", opts=", normalize_ipw=True", adj="NORMIPW(mr, T)")
reg("weights", opts=', weights=ARR("w")', w='w = ARR("w"); wb = w')
reg("weights_dict", opts=', weights={"weights": ARR("w"), "weights_bar": ARR("wbar", 2)}',
    w='w = ARR("w"); wb = ARR("wbar", 2)[:, r]')
reg("foldparams", setup=foldpar(PAR, 3), R=1)
