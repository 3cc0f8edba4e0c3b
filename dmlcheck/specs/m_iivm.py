"""Interactive IV model."""
from . import driver
from .common import EST, fill, foldpar

BODY = '''
def driver():
    df = DF("y:{yk} d:b z:b x1:c x2:c")
    data = dml.DoubleMLData(df, "y", "d", ["x1", "x2"], "z")
    g = LRN("ml_g", "{gk}"); m = LRN("ml_m", "classifier"); q = LRN("ml_r", "classifier")
    o = dml.DoubleMLIIVM(data, g, m, q, n_folds=3, n_rep={R}{opts})
    pg0 = None; pg1 = None; pm = None; pr0 = None; pr1 = None
    {setup}
    o.fit({fit})
    y = df["y"]; d = df["d"]; z = df["z"]; X = XCOLS(df, "x1 x2")
    for r in range({R}):
        s = o.smpls[r]
        g0 = o.predictions["ml_g0"][:, r, 0]; g1 = o.predictions["ml_g1"][:, r, 0]; mr = o.predictions["ml_m"][:, r, 0]
        r0 = o.predictions["ml_r0"][:, r, 0]; r1 = o.predictions["ml_r1"][:, r, 0]
        PRED("ml_g0", g0, g, X, y, s, sub=(z == 0), params=pg0)
        PRED("ml_g1", g1, g, X, y, s, sub=(z == 1), params=pg1)
        PRED("ml_m", mr, m, X, z, s, untrim=True, params=pm)
        EQ("P03:ml_m truncated", mr, np.clip(OOF(m, X, z, s, params=pm), {thr}, 1 - {thr}))
        {r0}
        {r1}
        EQ("P02,P19:target ml_g0", o.nuisance_targets["ml_g0"][:, r, 0], np.where(z == 0, y, np.nan))
        EQ("P02,P19:target ml_g1", o.nuisance_targets["ml_g1"][:, r, 0], np.where(z == 1, y, np.nan))
        EQ("P02,P19:target ml_m", o.nuisance_targets["ml_m"][:, r, 0], z)
        ma = {adj}
        b = g1 - g0 + z * (y - g1) / ma - (1 - z) * (y - g0) / (1 - ma)
        a = -(r1 - r0 + z * (d - r1) / ma - (1 - z) * (d - r0) / (1 - ma))
        {cmp}
''' + EST.replace("{j}", "0")
R0 = '''PRED("ml_r0", r0, q, X, d, s, sub=(z == 0), params=pr0)
        EQ("P02,P19:target ml_r0", o.nuisance_targets["ml_r0"][:, r, 0], np.where(z == 0, d, np.nan))'''
R1 = '''PRED("ml_r1", r1, q, X, d, s, sub=(z == 1), params=pr1)
        EQ("P02,P19:target ml_r1", o.nuisance_targets["ml_r1"][:, r, 0], np.where(z == 1, d, np.nan))'''
Z0 = 'EQ("P04,P02:no always takers", r0, np.zeros(n))'
Z1 = 'EQ("P04,P02:no never takers", r1, np.ones(n))'
CMP = '''EQ("P04,P03,P07:psi_a", o.psi_elements["psi_a"][:, r, 0], a)
        EQ("P04,P03,P07:psi_b", o.psi_elements["psi_b"][:, r, 0], b)'''
CMPN = '''md = NORMIPW(mr, d)
        bd = g1 - g0 + z * (y - g1) / md - (1 - z) * (y - g0) / (1 - md)
        ad = -(r1 - r0 + z * (d - r1) / md - (1 - z) * (d - r0) / (1 - md))
        EQK("P04:psi_a", o.psi_elements["psi_a"][:, r, 0], a, ad, "weights normalised with the treatment instead of the instrument")
        EQK("P04:psi_b", o.psi_elements["psi_b"][:, r, 0], b, bd, "weights normalised with the treatment instead of the instrument")'''


def reg(name, R=2, yk="c", gk="regressor", opts="", setup="pass", fit="", thr="0.01", r0=R0, r1=R1, adj="mr", cmp=CMP):
    driver("iivm/" + name, fill(BODY, R=R, yk=yk, gk=gk, opts=opts, setup=setup, fit=fit, thr=thr, r0=r0, r1=r1, adj=adj,
                                cmp=cmp))


PAR = '''
    pg0 = {"a": SCALAR("pa")}; pg1 = {"a": SCALAR("pb")}; pm = {"a": SCALAR("pc")}; pr0 = {"a": SCALAR("pd")}; pr1 = {"a": SCALAR("pe")}
    o.set_ml_nuisance_params("ml_g0", "d", pg0); o.set_ml_nuisance_params("ml_g1", "d", pg1)
    o.set_ml_nuisance_params("ml_m", "d", pm)
    o.set_ml_nuisance_params("ml_r0", "d", pr0); o.set_ml_nuisance_params("ml_r1", "d", pr1)'''
reg("late")
reg("late_models", setup=PAR, fit="store_models=True")
reg("late_full", setup="o.set_sample_splitting((np.arange(n), np.arange(n)))", R=1)
reg("late_full_models", setup="o.set_sample_splitting((np.arange(n), np.arange(n)))", R=1, fit="store_models=True")
reg("late_params", setup=PAR)
reg("late_classifier", yk="b", gk="classifier")
reg("late_trim", opts=", trimming_threshold=0.13", thr="0.13")
reg("late_normalized", opts=", normalize_ipw=True", adj="NORMIPW(mr, z)", cmp=CMPN)
reg("no_always", opts=', subgroups={"always_takers": False, "never_takers": True}', r0=Z0)
reg("no_never", opts=', subgroups={"always_takers": True, "never_takers": False}', r1=Z1)
reg("neither", opts=', subgroups={"always_takers": False, "never_takers": False}', r0=Z0, r1=Z1, fit="n_jobs_cv=2")
reg("late_foldparams", setup=foldpar(PAR, 3), R=1)
