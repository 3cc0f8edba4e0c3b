"""Difference-in-differences models."""
from . import driver
from .common import EST, SENS0, SENS1, fill, foldpar

BODY = '''
def driver():
    df = DF("y:{yk} d:b x1:c x2:c")
    data = dml.DoubleMLData(df, "y", "d", ["x1", "x2"])
    g = LRN("ml_g", "{gk}"); m = LRN("ml_m", "classifier")
    o = dml.DoubleMLDID(data, g, {ml}n_folds=3, n_rep={R}{opts})
    pg0 = None; pg1 = None; pm = None
    {setup}
    o.fit({fit})
    y = df["y"]; d = df["d"]; X = XCOLS(df, "x1 x2"); p = np.mean(d)
    nus = []; rrs = []; s2s = []
    for r in range({R}):
        s = o.smpls[r]
        g0 = o.predictions["ml_g0"][:, r, 0]; g1 = o.predictions["ml_g1"][:, r, 0]
        PRED("ml_g0", g0, g, X, y, s, sub=(d == 0), params=pg0)
        PRED("ml_g1", g1, g, X, y, s, sub=(d == 1), params=pg1)
        EQ("P02,P19:target ml_g0", o.nuisance_targets["ml_g0"][:, r, 0], np.where(d == 0, y, np.nan))
        EQ("P02,P19:target ml_g1", o.nuisance_targets["ml_g1"][:, r, 0], np.where(d == 1, y, np.nan))
        ph = np.full(n, np.nan)
        for tr, te in s:
            ph[te] = np.mean(d[tr])
{score}
        EQ("P04,P07:psi_a", o.psi_elements["psi_a"][:, r, 0], a)
        EQ("P04,P03,P07:psi_b", o.psi_elements["psi_b"][:, r, 0], b)
''' + EST.replace("{j}", "0") + '''
        s2 = (y - d * g1 - (1 - d) * g0) ** 2
''' + SENS0 + SENS1
M = '''
        mr = o.predictions["ml_m"][:, r, 0]
        PRED("ml_m", mr, m, X, d, s, untrim=True, params=pm)
        EQ("P03:ml_m truncated", mr, np.clip(OOF(m, X, d, s, params=pm), {thr}, 1 - {thr}))
        EQ("P02,P19:target ml_m", o.nuisance_targets["ml_m"][:, r, 0], d)
        q = mr / (1 - mr)
'''
OBS_N = M + '''
        w0 = (1 - d) * q
        a = -d / p
        b = (d / p - w0 / np.mean(w0)) * (y - g0)
        rr = d / p - w0 / np.mean(w0)
        nu = 2 * d / p * (1 / p + q / np.mean(w0)) - rr ** 2
'''
OBS = M + '''
        a = -d / ph
        b = (d - mr) / (ph * (1 - mr)) * (y - g0)
        rr = d / p - (1 - d) / p * q
        nu = 2 * d / p ** 2 * (1 + q) - rr ** 2
'''
EXP_N = '''
        a = -np.ones(n)
        b = (d / p - 1) * g0 + (1 - d / p) * g1 + (d / p - (1 - d) / np.mean(1 - d)) * (y - g0)
        rr = d / p - (1 - d) / (1 - p)
        nu = 2 * (1 / p + 1 / (1 - p)) - rr ** 2
'''
EXP = '''
        a = -np.ones(n)
        b = (d / ph - 1) * g0 + (1 - d / ph) * g1 + (d - ph) / (ph * (1 - ph)) * (y - g0)
        rr = d / p - (1 - d) / (1 - p)
        nu = 2 * (1 / p + 1 / (1 - p)) - rr ** 2
'''


def reg(name, R=2, yk="c", gk="regressor", ml="m, ", opts="", setup="pass", fit="", thr="0.01", score=OBS_N):
    driver("did/" + name, fill(BODY, R=R, yk=yk, gk=gk, ml=ml, opts=opts, setup=setup, fit=fit,
                               score=fill(score, thr=thr)))


PAR0 = '''
    pg0 = {"a": SCALAR("pa")}; pg1 = {"a": SCALAR("pb")}
    o.set_ml_nuisance_params("ml_g0", "d", pg0); o.set_ml_nuisance_params("ml_g1", "d", pg1)'''
PAR = PAR0 + '''; pm = {"a": SCALAR("pc")}; o.set_ml_nuisance_params("ml_m", "d", pm)'''
NO = ", in_sample_normalization=False"
XP = dict(ml="", score=EXP_N)
reg("obs")
reg("obs_models", setup=PAR, fit="store_models=True")
reg("obs_full", setup="o.set_sample_splitting((np.arange(n), np.arange(n)))", R=1)
reg("obs_full_models", setup="o.set_sample_splitting((np.arange(n), np.arange(n)))", R=1, fit="store_models=True")
reg("obs_params", setup=PAR)
reg("obs_classifier", yk="b", gk="classifier")
reg("obs_trim", opts=", trimming_threshold=0.13", thr="0.13", fit="n_jobs_cv=2")
reg("obs_unnormalized", opts=NO, score=OBS)
reg("exp", ml="", opts=', score="experimental"', score=EXP_N)
reg("exp_params", ml="", opts=', score="experimental"', score=EXP_N, setup=PAR0)
reg("exp_unnormalized", ml="", opts=', score="experimental"' + NO, score=EXP)
reg("exp_models", ml="", opts=', score="experimental"' + NO, score=EXP, setup=PAR0, fit="store_models=True")

CS = '''
def driver():
    df = DF("y:{yk} d:b t:b x1:c x2:c")
    data = dml.DoubleMLData(df, "y", "d", ["x1", "x2"], t_col="t")
    g = LRN("ml_g", "{gk}"); m = LRN("ml_m", "classifier")
    o = dml.DoubleMLDIDCS(data, g, {ml}n_folds=3, n_rep={R}{opts})
    pp = {"ml_g_d0_t0": None, "ml_g_d0_t1": None, "ml_g_d1_t0": None, "ml_g_d1_t1": None}; pm = None
    {setup}
    o.fit({fit})
    y = df["y"]; d = df["d"]; t = df["t"]; X = XCOLS(df, "x1 x2"); p = np.mean(d); lm = np.mean(t)
    nus = []; rrs = []; s2s = []
    for r in range({R}):
        s = o.smpls[r]
        gs = {}
        for dd in range(2):
            for tt in range(2):
                nm = "ml_g_d%d_t%d" % (dd, tt)
                gs[(dd, tt)] = o.predictions[nm][:, r, 0]
                PRED(nm, gs[(dd, tt)], g, X, y, s, sub=((d == dd) & (t == tt)), params=pp[nm])
                EQ("P02,P19:target " + nm, o.nuisance_targets[nm][:, r, 0], np.where((d == dd) & (t == tt), y, np.nan))
        g00 = gs[(0, 0)]; g01 = gs[(0, 1)]; g10 = gs[(1, 0)]; g11 = gs[(1, 1)]
        ph = np.full(n, np.nan); lh = np.full(n, np.nan)
        for tr, te in s:
            ph[te] = np.mean(d[tr]); lh[te] = np.mean(t[tr])
        c11 = d * t; c10 = d * (1 - t); c01 = (1 - d) * t; c00 = (1 - d) * (1 - t)
{score}
        EQ("P04,P07:psi_a", o.psi_elements["psi_a"][:, r, 0], a)
        EQ("P04,P03,P07:psi_b", o.psi_elements["psi_b"][:, r, 0], b)
''' + EST.replace("{j}", "0") + '''
        s2 = (y - c11 * g11 - c10 * g10 - c01 * g01 - c00 * g00) ** 2
''' + SENS0 + SENS1
BSC = '''
        b = wg * (g11 - g10 - g01 + g00) + v11 * (y - g11) - v10 * (y - g10) - v01 * (y - g01) + v00 * (y - g00)
'''
CS_OBS_N = M + '''
        a = -d / p; wg = d / p
        v11 = c11 / np.mean(c11); v10 = c10 / np.mean(c10)
        v01 = c01 * q / np.mean(c01 * q); v00 = c00 * q / np.mean(c00 * q)
''' + BSC + '''
        rr = v11 - v10 - v01 + v00
        nu = 2 * d / p * (1 / np.mean(c11) + 1 / np.mean(c10) + q / np.mean(c01 * q) + q / np.mean(c00 * q)) - rr ** 2
'''
CS_OBS = M + '''
        a = -d / ph; wg = d / ph
        v11 = c11 / (ph * lh); v10 = c10 / (ph * (1 - lh))
        v01 = c01 / (ph * lh) * q; v00 = c00 / (ph * (1 - lh)) * q
''' + BSC + '''
        rr = (t / (p * lm) - (1 - t) / (p * (1 - lm))) * (d - (1 - d) * q)
        nu = 2 * d / p ** 2 * (1 / lm + 1 / (1 - lm)) * (1 + q) - rr ** 2
'''
CS_EXP_N = '''
        a = -np.ones(n); wg = np.ones(n)
        v11 = c11 / np.mean(c11); v10 = c10 / np.mean(c10); v01 = c01 / np.mean(c01); v00 = c00 / np.mean(c00)
''' + BSC + '''
        rr = v11 - v10 - v01 + v00
        nu = 2 * (1 / np.mean(c11) + 1 / np.mean(c10) + 1 / np.mean(c01) + 1 / np.mean(c00)) - rr ** 2
'''
CS_EXP = '''
        a = -np.ones(n); wg = np.ones(n)
        v11 = c11 / (ph * lh); v10 = c10 / (ph * (1 - lh)); v01 = c01 / ((1 - ph) * lh); v00 = c00 / ((1 - ph) * (1 - lh))
''' + BSC + '''
        rr = c11 / (p * lm) - c10 / (p * (1 - lm)) - c01 / ((1 - p) * lm) + c00 / ((1 - p) * (1 - lm))
        nu = 2 * (1 / (p * lm) + 1 / (p * (1 - lm)) + 1 / ((1 - p) * lm) + 1 / ((1 - p) * (1 - lm))) - rr ** 2
'''


def regcs(name, R=2, yk="c", gk="regressor", ml="m, ", opts="", setup="pass", fit="", thr="0.01", score=CS_OBS_N):
    driver("didcs/" + name, fill(CS, R=R, yk=yk, gk=gk, ml=ml, opts=opts, setup=setup, fit=fit,
                                 score=fill(score, thr=thr)))


CPAR0 = '''
    pp = {"ml_g_d0_t0": {"a": SCALAR("pa")}, "ml_g_d0_t1": {"a": SCALAR("pb")}, "ml_g_d1_t0": {"a": SCALAR("pc")}, "ml_g_d1_t1": {"a": SCALAR("pd")}}
    for nm in ["ml_g_d0_t0", "ml_g_d0_t1", "ml_g_d1_t0", "ml_g_d1_t1"]:
        o.set_ml_nuisance_params(nm, "d", pp[nm])'''
CPAR = CPAR0 + '''
    pm = {"a": SCALAR("pe")}; o.set_ml_nuisance_params("ml_m", "d", pm)'''
regcs("obs")
regcs("obs_models", setup=CPAR, fit="store_models=True")
regcs("obs_full", setup="o.set_sample_splitting((np.arange(n), np.arange(n)))", R=1)
regcs("obs_full_models", setup="o.set_sample_splitting((np.arange(n), np.arange(n)))", R=1, fit="store_models=True")
regcs("obs_params", setup=CPAR)
regcs("obs_classifier", yk="b", gk="classifier")
regcs("obs_trim", opts=", trimming_threshold=0.13", thr="0.13", fit="n_jobs_cv=2")
regcs("obs_unnormalized", opts=NO, score=CS_OBS)
regcs("exp", ml="", opts=', score="experimental"', score=CS_EXP_N)
regcs("exp_params", ml="", opts=', score="experimental"', score=CS_EXP_N, setup=CPAR0)
regcs("exp_unnormalized", ml="", opts=', score="experimental"' + NO, score=CS_EXP)
regcs("exp_models", ml="", opts=', score="experimental"' + NO, score=CS_EXP, setup=CPAR0, fit="store_models=True")
reg("obs_foldparams", setup=foldpar(PAR, 3), R=1)
regcs("obs_foldparams", setup=foldpar(CPAR, 3), R=1)
