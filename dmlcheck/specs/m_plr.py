"""Partially linear regression model."""
from . import driver
from .common import foldpar

BODY = '''
def driver():
    df = DF("y:c {dspec} x1:c x2:c")
    data = dml.DoubleMLData(df, "y", {dcols}, ["x1", "x2"])
    l = LRN("ml_l", "regressor"); m = LRN("ml_m", "{mk}"); g = {g}
    o = dml.DoubleMLPLR(data, l, m, {garg}n_folds={K}, n_rep={R}{opts})
    pl = None; pm = None; pg = None
    {setup}
    o.fit({fit})
    y = df["y"]
    s2s = {{}}; v2s = {{}}
    for j in range({J}):
        d = df[{dlist}[j]]
        X = XCOLS(df, {xlist}[j])
        for r in range({R}):
            s = o.smpls[r]
            lr = o.predictions["ml_l"][:, r, j]; mr = o.predictions["ml_m"][:, r, j]
            PRED("ml_l", lr, l, X, y, s, params=pl, method="predict")
            PRED("ml_m", mr, m, X, d, s, params=pm)
            EQ("P02,P19:target ml_l", o.nuisance_targets["ml_l"][:, r, j], y)
            EQ("P02,P19:target ml_m", o.nuisance_targets["ml_m"][:, r, j], d)
            v = d - mr
{score}
            EQ("P04,P07:psi_a", o.psi_elements["psi_a"][:, r, j], a)
            EQ("P04,P07:psi_b", o.psi_elements["psi_b"][:, r, j], b)
            th = o.all_coef[j, r]
            EQ("P05,P07:coef", th, -np.mean(b) / np.mean(a))
            EQ("P04,P07:psi", o.psi[:, r, j], a * th + b)
            pa = o.psi_elements["psi_a"][:, r, j]
            EQ("P05,P07:se", o.all_se[j, r], np.sqrt(np.mean(o.psi[:, r, j] ** 2) / np.mean(pa) ** 2 / n))
{sens}
    {sens2}
'''
PO_S = "            res = y - lr - th * v\n"
IV = '''
            t0 = np.mean(v * (y - lr)) / np.mean(v * v)
            gr = o.predictions["ml_g"][:, r, j]
            PRED("ml_g", gr, g2, X, y - t0 * d, s, params=pg, method="predict")
            EQ("P02,P19:target ml_g", o.nuisance_targets["ml_g"][:, r, j], y - t0 * d)
            a = -v * d
            b = v * (y - gr)
'''
IV_S = "            res = y - gr - th * d\n"
PO = '''
            a = -v * v
            b = v * (y - lr)
'''
SENS = '''
            s2s[(j, r)] = res
            v2s[(j, r)] = v
            ASSUME(1 / np.mean(v ** 2) > 0)
'''
SENS2 = '''
    for j in range({J}):
        for r in range({R}):
            res = s2s[(j, r)]
            v = v2s[(j, r)]
            s2 = np.mean(res ** 2)
            nu = 1 / np.mean(v ** 2)
            EQ("P18,P07:sigma2", o.sensitivity_elements["sigma2"][0, r, j], s2)
            EQ("P18,P07:psi_sigma2", o.sensitivity_elements["psi_sigma2"][:, r, j], res ** 2 - s2)
            EQ("P18,P07:nu2", o.sensitivity_elements["nu2"][0, r, j], nu)
            EQ("P18,P07:psi_nu2", o.sensitivity_elements["psi_nu2"][:, r, j], nu - v ** 2 * nu ** 2)
            EQ("P18,P07:riesz_rep", o.sensitivity_elements["riesz_rep"][:, r, j], v * nu)
'''
PAR = '''
    pl = {"a": SCALAR("pa")}; pm = {"a": SCALAR("pc")}; pg = {"a": SCALAR("pg")}
    o.set_ml_nuisance_params("ml_l", "d", pl); o.set_ml_nuisance_params("ml_m", "d", pm)'''
PARG = PAR + '''; o.set_ml_nuisance_params("ml_g", "d", pg)'''
FOLDPAR = '''
    pl = [[{"a": SCALAR("pa%d%d" % (r_, k_))} for k_ in range(2)] for r_ in range(2)]
    o.set_ml_nuisance_params("ml_l", "d", pl)'''


def reg(name, R=2, K=3, dspec="d:c", dcols='"d"', mk="regressor", g="None", garg="", opts="", setup="pass", fit="",
        score=PO, sens=PO_S + SENS, sens2=SENS2, J=1, dlist='["d"]', xlist='["x1 x2"]', extra=""):
    driver("plr/" + name, BODY.format(R=R, K=K, dspec=dspec, dcols=dcols, mk=mk, g=g, garg=garg, opts=opts, setup=setup,
                                      fit=fit, score=score, sens=sens, sens2=sens2.format(J=J, R=R), J=J, dlist=dlist, xlist=xlist) + extra)


G2 = '''LRN("ml_g", "regressor"); g2 = g'''
TWO = dict(dspec="d1:c d2:b", dcols='["d1", "d2"]', J=2, dlist='["d1", "d2"]', xlist='["x1 x2 d2", "x1 x2 d1"]', R=2)
reg("po")
reg("po_models", fit="store_models=True")
reg("po_classifier", dspec="d:b", mk="classifier")
reg("po_params", setup=PAR)
reg("po_params_models", setup=PAR, fit="store_models=True")
reg("po_two", **TWO)
reg("iv", g=G2, garg="g, ", opts=', score="IV-type"', score=IV, sens=IV_S + SENS)
reg("iv_models", g=G2, garg="g, ", opts=', score="IV-type"', score=IV, sens=IV_S + SENS, fit="store_models=True, n_jobs_cv=2")
reg("po_full", setup="o.set_sample_splitting((np.arange(n), np.arange(n)))", R=1)
reg("po_full_models", setup="o.set_sample_splitting((np.arange(n), np.arange(n)))", R=1, fit="store_models=True")
reg("po_full_classifier", setup="o.set_sample_splitting((np.arange(n), np.arange(n)))", R=1, dspec="d:b", mk="classifier")
reg("iv_full", setup="o.set_sample_splitting((np.arange(n), np.arange(n)))", R=1, g=G2, garg="g, ", opts=', score="IV-type"', score=IV, sens=IV_S + SENS)
reg("iv_params", g=G2, garg="g, ", opts=', score="IV-type"', score=IV, sens=IV_S + SENS, setup=PARG)
reg("iv_defaultg", g='None; g2 = l', opts=', score="IV-type"', score=IV, sens=IV_S + SENS)
reg("iv_two", g=G2, garg="g, ", opts=', score="IV-type"', score=IV, sens=IV_S + SENS, **TWO)
reg("po_smpls", opts=', draw_sample_splitting=False', setup='sp = SPLITS("sp", 3, 2); o.set_sample_splitting(sp)')
reg("po_nosens", fit="store_predictions=True, n_jobs_cv=1")
reg("po_foldparams_all", setup=foldpar(PAR, 3), R=1)
reg("iv_foldparams", g=G2, garg="g, ", opts=', score="IV-type"', score=IV, sens=IV_S + SENS, setup=foldpar(PARG, 3), R=1)
reg("po_foldparams_classifier", setup=foldpar(PAR, 3), R=1, dspec="d:b", mk="classifier")
