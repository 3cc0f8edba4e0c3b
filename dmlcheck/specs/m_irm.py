"""Interactive regression model."""
from . import driver
from .common import foldpar

HEAD = '''
def driver():
    df = DF("y:{yk} d:b x1:c x2:c")
    data = dml.DoubleMLData(df, "y", "d", ["x1", "x2"])
    g = LRN("ml_g", "{gk}"); m = LRN("ml_m", "classifier")
    o = dml.DoubleMLIRM(data, g, m, n_folds=3, n_rep={R}{opts})
    pg0 = None; pg1 = None; pm = None
    {setup}
    o.fit({fit})
    y = df["y"]; d = df["d"]; X = XCOLS(df, "x1 x2")
    nus = []; rrs = []; s2s = []
    for r in range({R}):
        s = o.smpls[r]
        g0 = o.predictions["ml_g0"][:, r, 0]; g1 = o.predictions["ml_g1"][:, r, 0]; mr = o.predictions["ml_m"][:, r, 0]
        PRED("ml_g0", g0, g, X, y, s, sub=(d == 0), params=pg0)
        PRED("ml_g1", g1, g, X, y, s, sub=(d == 1), params=pg1)
        mh = OOF(m, X, d, s, params=pm)
        mt = {trim}
        PRED("ml_m", mr, m, X, d, s, untrim=True, params=pm)
        EQ("P03:ml_m truncated", mr, mt)
        EQ("P02,P19:target ml_g0", o.nuisance_targets["ml_g0"][:, r, 0], np.where(d == 0, y, np.nan))
        EQ("P02,P19:target ml_g1", o.nuisance_targets["ml_g1"][:, r, 0], np.where(d == 1, y, np.nan))
        EQ("P02,P19:target ml_m", o.nuisance_targets["ml_m"][:, r, 0], d)
'''
SCORE = '''
        ma = {adj}
        {w}
        b = w * (g1 - g0) + wb * (d * (y - g1) / ma - (1 - d) * (y - g0) / (1 - ma))
        a = -w / np.mean(w)
        EQ("P04,P07:psi_a", o.psi_elements["psi_a"][:, r, 0], a)
        EQ("P04,P03,P07:psi_b", o.psi_elements["psi_b"][:, r, 0], b)
        th = o.all_coef[0, r]
        EQ("P05,P07:coef", th, -np.mean(b) / np.mean(a))
        EQ("P04,P07:psi", o.psi[:, r, 0], a * th + b)
        pa = o.psi_elements["psi_a"][:, r, 0]
        EQ("P05,P07:se", o.all_se[0, r], np.sqrt(np.mean(o.psi[:, r, 0] ** 2) / np.mean(pa) ** 2 / n))
        rr = wb * (d / ma - (1 - d) / (1 - ma))
        ml = w * wb * (1 / ma + 1 / (1 - ma))
        nus.append(2 * ml - rr ** 2)
        ASSUME(np.mean(nus[r]) > 0)
        rrs.append(rr)
        s2s.append((y - d * g1 - (1 - d) * g0) ** 2)
    for r in range({R}):
        s2 = s2s[r]; nu = nus[r]; rr = rrs[r]
        EQ("P18,P07:sigma2", o.sensitivity_elements["sigma2"][0, r, 0], np.mean(s2))
        EQ("P18,P07:psi_sigma2", o.sensitivity_elements["psi_sigma2"][:, r, 0], s2 - np.mean(s2))
        EQ("P18,P03,P07:riesz_rep", o.sensitivity_elements["riesz_rep"][:, r, 0], rr)
        EQ("P18,P07:nu2", o.sensitivity_elements["nu2"][0, r, 0], np.mean(nu))
        EQ("P18,P07:psi_nu2", o.sensitivity_elements["psi_nu2"][:, r, 0], nu - np.mean(nu))
'''

T01 = "np.clip(mh, 0.01, 0.99)"
W1 = "w = np.ones(n); wb = np.ones(n)"
WATT = "w = d / np.mean(d); wb = ma / np.mean(d)"
PLAIN = "mr"
NORM = "NORMIPW(mr, d)"


def reg(name, R=2, yk="c", gk="regressor", opts="", setup="pass", fit="", trim=T01, adj=PLAIN, w=W1, extra=""):
    driver("irm/" + name, (HEAD + SCORE + extra).format(R=R, yk=yk, gk=gk, opts=opts, setup=setup, fit=fit, trim=trim,
                                                        adj=adj, w=w))


reg("ate")
reg("atte", opts=', score="ATTE"', w=WATT)
reg("ate_normalized", opts=", normalize_ipw=True", adj=NORM)
reg("atte_normalized", opts=', score="ATTE", normalize_ipw=True', adj=NORM, w=WATT)
reg("ate_trim", opts=', trimming_threshold=0.13', trim="np.clip(mh, 0.13, 1 - 0.13)")
reg("ate_notrim", opts=', trimming_rule="truncate", trimming_threshold=SCALAR("thr", lo=0.0001, hi=0.4999)',
    trim='np.clip(mh, SCALAR("thr"), 1 - SCALAR("thr"))', R=1)
reg("ate_classifier", yk="b", gk="classifier")
reg("ate_models", fit="store_models=True")
reg("ate_full", setup="o.set_sample_splitting((np.arange(n), np.arange(n)))", R=1)
reg("atte_full_models", setup="o.set_sample_splitting((np.arange(n), np.arange(n)))", R=1, opts=', score="ATTE"', w=WATT, fit="store_models=True")
reg("ate_full_classifier", setup="o.set_sample_splitting((np.arange(n), np.arange(n)))", R=1, yk="b", gk="classifier")
reg("ate_full_repeated", setup="o.set_sample_splitting([[(np.arange(n), np.arange(n))]] * 2)")
reg("atte_jobs", opts=', score="ATTE"', w=WATT, fit="n_jobs_cv=2")
PAR = """
    pg0 = {"a": SCALAR("pa")}; pg1 = {"a": SCALAR("pb")}; pm = {"a": SCALAR("pc")}
    o.set_ml_nuisance_params("ml_g0", "d", pg0); o.set_ml_nuisance_params("ml_g1", "d", pg1)
    o.set_ml_nuisance_params("ml_m", "d", pm)"""
reg("ate_params", setup=PAR)
reg("ate_params_models", setup=PAR, fit="store_models=True")
reg("ate_weights", opts=', weights=ARR("w")', w='w = ARR("w"); wb = w')
reg("ate_weights_dict", opts=', weights={"weights": ARR("w"), "weights_bar": ARR("wbar", 2)}',
    w='w = ARR("w"); wb = ARR("wbar", 2)[:, r]')
reg("atte_weights", opts=', score="ATTE", weights=ARR("w", kind="b")',
    w='wu = ARR("w", kind="b"); w = wu * d / np.mean(wu * d); wb = ma * wu / np.mean(wu * d)')
reg("ate_foldparams", setup=foldpar(PAR, 3), R=1)
reg("atte_foldparams_models", setup=foldpar(PAR, 3), R=1, opts=', score="ATTE"', w=WATT, fit="store_models=True")
