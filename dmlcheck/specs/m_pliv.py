"""Partially linear IV model."""
from . import driver
from .common import foldpar

TAIL = '''
        EQ("P04,P07:psi_a", o.psi_elements["psi_a"][:, r, 0], a)
        EQ("P04,P07:psi_b", o.psi_elements["psi_b"][:, r, 0], b)
        th = o.all_coef[0, r]
        EQ("P05,P07:coef", th, -np.mean(b) / np.mean(a))
        EQ("P04,P07:psi", o.psi[:, r, 0], a * th + b)
        pa = o.psi_elements["psi_a"][:, r, 0]
        EQ("P05,P07:se", o.all_se[0, r], np.sqrt(np.mean(o.psi[:, r, 0] ** 2) / np.mean(pa) ** 2 / n))
'''
ONE = '''
def driver():
    df = DF("y:c d:c z:{zk} x1:c x2:c")
    data = dml.DoubleMLData(df, "y", "d", ["x1", "x2"], "z")
    l = LRN("ml_l", "regressor"); m = LRN("ml_m", "regressor"); q = LRN("ml_r", "regressor"); g = LRN("ml_g", "regressor")
    o = dml.DoubleMLPLIV(data, l, m, q, {garg}n_folds=3, n_rep={R}{opts})
    pl = None; pm = None; pg = None; pr = None
    {setup}
    o.fit({fit})
    y = df["y"]; d = df["d"]; z = df["z"]; X = XCOLS(df, "x1 x2")
    for r in range({R}):
        s = o.smpls[r]
        lr = o.predictions["ml_l"][:, r, 0]; mr = o.predictions["ml_m"][:, r, 0]; rr = o.predictions["ml_r"][:, r, 0]
        PRED("ml_l", lr, l, X, y, s, params=pl, method="predict")
        PRED("ml_m", mr, m, X, z, s, params=pm, method="predict")
        PRED("ml_r", rr, q, X, d, s, params=pr, method="predict")
        EQ("P02,P19:target ml_l", o.nuisance_targets["ml_l"][:, r, 0], y)
        EQ("P02,P19:target ml_m", o.nuisance_targets["ml_m"][:, r, 0], z)
        EQ("P02,P19:target ml_r", o.nuisance_targets["ml_r"][:, r, 0], d)
        u = y - lr; v = z - mr; w = d - rr
{score}
''' + TAIL
PO = '''
        a = -w * v
        b = v * u
'''
IV = '''
        t0 = np.mean(v * u) / np.mean(w * v)
        gr = o.predictions["ml_g"][:, r, 0]
        PRED("ml_g", gr, g, X, y - t0 * d, s, params=pg, method="predict")
        EQ("P02,P19:target ml_g", o.nuisance_targets["ml_g"][:, r, 0], y - t0 * d)
        a = -v * d
        b = v * (y - gr)
'''
PAR = '''
    pl = {"a": SCALAR("pa")}; pm = {"a": SCALAR("pc")}; pr = {"a": SCALAR("pr")}
    o.set_ml_nuisance_params("ml_l", "d", pl); o.set_ml_nuisance_params("ml_m", "d", pm)
    o.set_ml_nuisance_params("ml_r", "d", pr)'''


def reg(name, R=2, zk="c", garg="", opts="", setup="pass", fit="", score=PO):
    driver("pliv/" + name, ONE.format(R=R, zk=zk, garg=garg, opts=opts, setup=setup, fit=fit, score=score))


IVO = dict(garg="g, ", opts=', score="IV-type"', score=IV)
reg("po")
reg("po_models", fit="store_models=True", setup=PAR)
reg("po_params", setup=PAR)
reg("po_full", setup="o.set_sample_splitting((np.arange(n), np.arange(n)))", R=1)
reg("po_full_models", setup="o.set_sample_splitting((np.arange(n), np.arange(n)))", R=1, fit="store_models=True")
reg("po_smpls", opts=', draw_sample_splitting=False', setup='sp = SPLITS("sp", 3, 2); o.set_sample_splitting(sp)')
reg("iv", **IVO)
reg("iv_models", fit="store_models=True", **IVO)
reg("iv_full", setup="o.set_sample_splitting((np.arange(n), np.arange(n)))", R=1, **IVO)
reg("iv_params", setup=PAR + '''; pg = {"a": SCALAR("pg")}; o.set_ml_nuisance_params("ml_g", "d", pg)''', **IVO)

TWO = '''
from sklearn.linear_model import LinearRegression
def driver():
    df = DF("y:c d:c z1:c z2:c x1:c x2:c")
    data = dml.DoubleMLData(df, "y", "d", ["x1", "x2"], ["z1", "z2"])
    l = LRN("ml_l", "regressor"); m = LRN("ml_m", "regressor"); q = LRN("ml_r", "regressor")
    o = dml.DoubleMLPLIV(data, l, m, q, n_folds=3, n_rep={R})
    pl = None; pm = [None, None]; pr = None
    {setup}
    o.fit({fit})
    y = df["y"]; d = df["d"]; X = XCOLS(df, "x1 x2")
    zs = [df["z1"], df["z2"]]; nm = ["ml_m_z1", "ml_m_z2"]
    for r in range({R}):
        s = o.smpls[r]
        lr = o.predictions["ml_l"][:, r, 0]; rr = o.predictions["ml_r"][:, r, 0]
        mr = [o.predictions["ml_m_z1"][:, r, 0], o.predictions["ml_m_z2"][:, r, 0]]
        PRED("ml_l", lr, l, X, y, s, params=pl, method="predict")
        PRED("ml_r", rr, q, X, d, s, params=pr, method="predict")
        for k in range(2):
            PRED("ml_m_z", mr[k], m, X, zs[k], s, params=pm[k], method="predict")
            EQ("P02,P19:target ml_m_z", o.nuisance_targets[nm[k]][:, r, 0], zs[k])
        EQ("P02,P19:target ml_l", o.nuisance_targets["ml_l"][:, r, 0], y)
        EQ("P02,P19:target ml_r", o.nuisance_targets["ml_r"][:, r, 0], d)
        u = y - lr; w = d - rr
        V = np.column_stack((zs[0] - mr[0], zs[1] - mr[1]))
        rt = LinearRegression().fit(V, w).predict(V)
        a = -w * rt
        b = rt * u
''' + TAIL
driver("pliv/multi", TWO.format(R=2, setup="pass", fit=""))
driver("pliv/multi_models", TWO.format(R=2, setup="pass", fit="store_models=True"))
driver("pliv/multi_params", TWO.format(R=2, fit="", setup='''
    pl = {"a": SCALAR("pa")}; pm = [{"a": SCALAR("pc")}, {"a": SCALAR("pd")}]; pr = {"a": SCALAR("pr")}
    o.set_ml_nuisance_params("ml_l", "d", pl); o.set_ml_nuisance_params("ml_m_z1", "d", pm[0])
    o.set_ml_nuisance_params("ml_m_z2", "d", pm[1]); o.set_ml_nuisance_params("ml_r", "d", pr)'''))

PZ = '''
def driver():
    df = DF("y:c d:c {zspec} x1:c x2:c")
    data = dml.DoubleMLData(df, "y", "d", ["x1", "x2"], {zc})
    q = LRN("ml_r", "regressor")
    o = dml.DoubleMLPLIV._partialZ(data, q, n_folds=3, n_rep=2)
    pr = None
    {setup}
    o.fit({fit})
    y = df["y"]; d = df["d"]; X = XCOLS(df, "x1 x2 {zl}")
    for r in range(2):
        s = o.smpls[r]
        rr = o.predictions["ml_r"][:, r, 0]
        PRED("ml_r", rr, q, X, d, s, params=pr, method="predict")
        EQ("P02,P19:target ml_r", o.nuisance_targets["ml_r"][:, r, 0], d)
        a = -rr * d
        b = rr * y
''' + TAIL
driver("pliv/partialZ", PZ.format(zspec="z:c", zc='"z"', zl="z", setup="pass", fit=""))
driver("pliv/partialZ_two", PZ.format(zspec="z:c z2:c", zc='["z", "z2"]', zl="z z2", fit="store_models=True", setup='''
    pr = {"a": SCALAR("pa")}; o.set_ml_nuisance_params("ml_r", "d", pr)'''))
PXZ = '''
def driver():
    df = DF("y:c d:c {zspec} x1:c x2:c")
    data = dml.DoubleMLData(df, "y", "d", ["x1", "x2"], {zc})
    l = LRN("ml_l", "regressor"); m = LRN("ml_m", "regressor"); q = LRN("ml_r", "regressor")
    o = dml.DoubleMLPLIV._partialXZ(data, l, m, q, n_folds=3, n_rep=2)
    pl = None; pm = None; pr = None
    {setup}
    o.fit({fit})
    y = df["y"]; d = df["d"]; X = XCOLS(df, "x1 x2"); XZ = XCOLS(df, "x1 x2 {zl}")
    for r in range(2):
        s = o.smpls[r]
        lr = o.predictions["ml_l"][:, r, 0]; mr = o.predictions["ml_m"][:, r, 0]; rr = o.predictions["ml_r"][:, r, 0]
        PRED("ml_l", lr, l, X, y, s, params=pl, method="predict")
        PRED("ml_m", mr, m, XZ, d, s, params=pm, method="predict")
        EQ("P01,P02,P07,P20:ml_r", rr, OOF(q, X, INS(m, XZ, d, s, params=pm), s, params=pr, method="predict"))
        EQ("P02,P19:target ml_l", o.nuisance_targets["ml_l"][:, r, 0], y)
        EQ("P02,P19:target ml_m", o.nuisance_targets["ml_m"][:, r, 0], d)
        a = -(d - rr) * (mr - rr)
        b = (mr - rr) * (y - lr)
''' + TAIL
driver("pliv/partialXZ", PXZ.format(zspec="z:c", zc='"z"', zl="z", setup="pass", fit=""))
driver("pliv/partialXZ_two", PXZ.format(zspec="z:c z2:c", zc='["z", "z2"]', zl="z z2", fit="store_models=True", setup='''
    pr = {"a": SCALAR("pa")}; o.set_ml_nuisance_params("ml_r", "d", pr)
    pm = {"a": SCALAR("pm")}; o.set_ml_nuisance_params("ml_m", "d", pm)'''))
reg("po_foldparams", setup=foldpar(PAR, 3), R=1)
reg("iv_foldparams", setup=foldpar(PAR + '''; pg = {"a": SCALAR("pg")}; o.set_ml_nuisance_params("ml_g", "d", pg)''', 3), R=1, **IVO)
