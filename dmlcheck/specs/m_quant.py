"""Potential quantiles, local potential quantiles and conditional value at risk."""
from . import driver
from .common import EST, fill, foldpar

IMP = '''
from sklearn.model_selection import train_test_split, StratifiedKFold
from scipy.optimize import minimize_scalar
from statsmodels.nonparametric.kde import KDEUnivariate
def argroot(f):
    return minimize_scalar(lambda th: abs(f(th)), method="brent").x
def gausskde(u, w):
    k = KDEUnivariate(u)
    k.fit(kernel="gau", bw="silverman", weights=w, fft=False)
    return k.evaluate(0)
def userkde(u, w):
    return np.mean(w * np.exp(-1 * u.reshape(-1) ** 2))
def FP(p, k):
    return p[k] if isinstance(p, list) else p
def trim(p):
    return np.clip(p, {thr}, 1 - {thr})
def adj(p, d):
    return {adjust}
def driver():
    df = DF("y:c d:b x1:c x2:c {zk}")
    data = dml.DoubleMLData(df, "y", "d", ["x1", "x2"]{zc})
    g = LRN("ml_g", "{gk}"); m = LRN("ml_m", "classifier")
    q = {q}
    o = dml.DoubleML{cls}(data, g, m, treatment={t}, quantile=q, n_folds={K}, n_rep={R}{opts})
    pg = None; pm = None; pz = None; pg0 = None; pg1 = None; pm0 = None; pm1 = None
    {setup}
    o.fit({fit})
    y = df["y"]; d = df["d"]; X = XCOLS(df, "x1 x2")
    for r in range({R}):
        sm = o.smpls[r]
'''
PQ = '''
        gh = o.predictions["ml_g"][:, r, 0]; mh = o.predictions["ml_m"][:, r, 0]
        gw = np.full(n, np.nan); mw = np.full(n, np.nan); tg = np.full(n, np.nan)
        pre = []
        for kf, (tr, te) in enumerate(sm):
            h1, h2 = train_test_split(tr, test_size=0.5, random_state=42, stratify=d[tr])
            sp = list(StratifiedKFold(n_splits={K}).split(X=h1, y=d[h1]))
            mp = adj(trim(OOF(m, X[h1, :], d[h1], sp, params=FP(pm, kf))), d[h1])
            if {t} == 0:
                mp = 1 - mp
            est = argroot(lambda th: np.mean((d[h1] == {t}) / mp * (y[h1] <= th) - q))
            pre.append(est)
            a = np.intersect1d(h2, np.where(d == {t})[0])
            {resp}
            gw[te] = FITPRED(g, X[a, :], ry[a], X[te, :], params=FP(pg, kf))
            mw[te] = FITPRED(m, X[tr, :], d[tr], X[te, :], params=FP(pm, kf))
            tg[te] = ry[te]
        EQ("P01,P02,P03,P04,P07,P20,P25:ml_g", gh, gw)
        EQ("P01,P02,P03,P07,P20,P25:ml_m", mh, trim(mw))
        EQ("P02,P19:target ml_g", o.nuisance_targets["ml_g"][:, r, 0], np.where(d == {t}, tg, np.nan))
        EQ("P02,P19:target ml_m", o.nuisance_targets["ml_m"][:, r, 0], d)
        ma = adj(mh, d)
        if {t} == 0:
            ma = 1 - ma
        ind = (d == {t})
'''
PQS = '''
        th = o.all_coef[0, r]
        psi = lambda b: ind * ((y <= b) - gh) / ma + gh - q
        ROOTS("P05,P07:coef is a root of the score", th, lambda b: np.mean(psi(b)))
        EQ("P04,P05,P03,P07:psi", o.psi[:, r, 0], psi(th))
        EQ("P04,P07:psi_deriv", o.psi_deriv[:, r, 0], np.full(n, {kde}((y - th).reshape(-1, 1), ind / ma)))
        pd_ = o.psi_deriv[:, r, 0]
        EQ("P05,P07:se", o.all_se[0, r], np.sqrt(np.mean(o.psi[:, r, 0] ** 2) / np.mean(pd_) ** 2 / n))
'''
CVARS = '''
        pq = np.mean(pre)
        u = np.maximum(pq, (y - q * pq) / (1 - q))
        a = -np.ones(n)
        b = ind * (u - gh) / ma + gh
        EQ("P04,P07:psi_a", o.psi_elements["psi_a"][:, r, 0], a)
        EQ("P04,P03,P07:psi_b", o.psi_elements["psi_b"][:, r, 0], b)
''' + fill(EST, j=0)
LPQ = '''
        z = df["z"]
        P = {}
        for k in ["ml_m_z", "ml_m_d_z0", "ml_m_d_z1", "ml_g_du_z0", "ml_g_du_z1"]:
            P[k] = np.full(n, np.nan)
        T0 = np.full(n, np.nan); T1 = np.full(n, np.nan)
        sgn = 2 * {t} - 1
        for kf, (tr, te) in enumerate(sm):
            h1, h2 = train_test_split(tr, test_size=0.5, random_state=42, stratify=(d.reshape(-1, 1) + 2 * z.reshape(-1, 1))[tr])
            sp = list(StratifiedKFold(n_splits={K}).split(X=h1, y=(d.reshape(-1, 1) + 2 * z.reshape(-1, 1))[h1]))
            mp = adj(trim(OOF(m, X[h1, :], z[h1], sp, params=FP(pz, kf))), z[h1])
            b0 = np.intersect1d(h1, np.where(z == 0)[0]); b1 = np.intersect1d(h1, np.where(z == 1)[0])
            e0 = FITPRED(m, X[b0, :], d[b0], X[h1, :], params=FP(pm0, kf))
            e1 = FITPRED(m, X[b1, :], d[b1], X[h1, :], params=FP(pm1, kf))
            cp = np.mean(e1 - e0 + z[h1] / mp * (d[h1] - e1) - (1 - z[h1]) / (1 - mp) * (d[h1] - e0))
            est = argroot(lambda th: np.mean(sgn * (z[h1] / mp - (1 - z[h1]) / (1 - mp)) / cp * ((d[h1] == {t}) * (y[h1] <= th)) - q))
            du = (d == {t}) * (y <= est)
            a0 = np.intersect1d(h2, np.where(z == 0)[0]); a1 = np.intersect1d(h2, np.where(z == 1)[0])
            c0 = np.intersect1d(tr, np.where(z == 0)[0]); c1 = np.intersect1d(tr, np.where(z == 1)[0])
            P["ml_g_du_z0"][te] = FITPRED(g, X[a0, :], du[a0], X[te, :], params=FP(pg0, kf))
            P["ml_g_du_z1"][te] = FITPRED(g, X[a1, :], du[a1], X[te, :], params=FP(pg1, kf))
            P["ml_m_z"][te] = FITPRED(m, X[tr, :], z[tr], X[te, :], params=FP(pz, kf))
            P["ml_m_d_z0"][te] = FITPRED(m, X[c0, :], d[c0], X[te, :], params=FP(pm0, kf))
            P["ml_m_d_z1"][te] = FITPRED(m, X[c1, :], d[c1], X[te, :], params=FP(pm1, kf))
            T0[te] = du[te]; T1[te] = du[te]
        for k in ["ml_m_d_z0", "ml_m_d_z1", "ml_g_du_z0", "ml_g_du_z1"]:
            EQ("P01,P02,P03,P07,P20,P25:" + k, o.predictions[k][:, r, 0], P[k])
        EQ("P01,P02,P07,P20,P25:ml_m_z", UNTRIM(o.predictions["ml_m_z"][:, r, 0]), P["ml_m_z"])
        EQ("P02,P19:target ml_m_z", o.nuisance_targets["ml_m_z"][:, r, 0], z)
        EQ("P02,P19:target ml_m_d_z0", o.nuisance_targets["ml_m_d_z0"][:, r, 0], np.where(z == 0, d, np.nan))
        EQ("P02,P19:target ml_m_d_z1", o.nuisance_targets["ml_m_d_z1"][:, r, 0], np.where(z == 1, d, np.nan))
        EQ("P02,P19:target ml_g_du_z0", o.nuisance_targets["ml_g_du_z0"][:, r, 0], np.where(z == 0, T0, np.nan))
        EQ("P02,P19:target ml_g_du_z1", o.nuisance_targets["ml_g_du_z1"][:, r, 0], np.where(z == 1, T1, np.nan))
        mz = adj(trim(P["ml_m_z"]), z)
        e0 = P["ml_m_d_z0"]; e1 = P["ml_m_d_z1"]; f0 = P["ml_g_du_z0"]; f1 = P["ml_g_du_z1"]
        cp = np.mean(e1 - e0 + z / mz * (d - e1) - (1 - z) / (1 - mz) * (d - e0))
        ind = (d == {t})
        EQ("P03,P04,P07:m_z", o.psi_elements["m_z"][:, r, 0], mz)
        EQ("P03,P04,P07:comp_prob", o.psi_elements["comp_prob"][:, r, 0], np.full(n, cp))
        mz = o.psi_elements["m_z"][:, r, 0]; cp = o.psi_elements["comp_prob"][:, r, 0]
        th = o.all_coef[0, r]
        psi = lambda b: sgn * (f1 - f0 + z / mz * (ind * (y <= b) - f1) - (1 - z) / (1 - mz) * (ind * (y <= b) - f0)) / cp - q
        ROOTS("P05,P07:coef is a root of the score", th, lambda b: np.mean(psi(b)))
        EQ("P04,P05,P07:psi", o.psi[:, r, 0], psi(th))
        EQ("P04,P07:psi_deriv", o.psi_deriv[:, r, 0], np.full(n, {kde}((y - th).reshape(-1, 1), sgn * (z / mz - (1 - z) / (1 - mz)) * ind / cp)))
        pd_ = o.psi_deriv[:, r, 0]
        EQ("P05,P07:se", o.all_se[0, r], np.sqrt(np.mean(o.psi[:, r, 0] ** 2) / np.mean(pd_) ** 2 / n))
'''
NORM = "NORMIPW(p, d)"


def reg(name, cls, t=1, R=1, K=2, q='SCALAR("q", lo=0.01, hi=0.99)', opts="", setup="pass", fit="", thr="0.01", adjust=NORM, kde="gausskde",
        extra=""):
    resp = "ry = (y <= est)" if cls == "PQ" else "ry = np.maximum(est, (y - q * est) / (1 - q))"
    text = IMP + (LPQ if cls == "LPQ" else PQ + (PQS if cls == "PQ" else CVARS)) + extra
    driver(cls.lower() + "/" + name, fill(text, cls="CVAR" if cls == "CVAR" else cls, t=t, R=R, K=K, q=q, setup=setup, fit=fit, thr=thr, resp=resp, kde=kde,
                                          opts=opts + ("" if adjust == NORM else ", normalize_ipw=False") +
                                          (", kde=userkde" if kde == "userkde" else ""), adjust=adjust,
                                          gk="regressor" if cls == "CVAR" else "classifier",
                                          zk="z:b" if cls == "LPQ" else "", zc=', ["z"]' if cls == "LPQ" else ""))


PAR = '''
    pg = {"a": SCALAR("pa")}; pm = {"a": SCALAR("pb")}
    o.set_ml_nuisance_params("ml_g", "d", pg); o.set_ml_nuisance_params("ml_m", "d", pm)'''
PARL = '''
    pz = {"a": SCALAR("pa")}; pm0 = {"a": SCALAR("pb")}; pm1 = {"a": SCALAR("pc")}; pg0 = {"a": SCALAR("pd")}; pg1 = {"a": SCALAR("pe")}
    o.set_ml_nuisance_params("ml_m_z", "d", pz); o.set_ml_nuisance_params("ml_m_d_z0", "d", pm0); o.set_ml_nuisance_params("ml_m_d_z1", "d", pm1)
    o.set_ml_nuisance_params("ml_g_du_z0", "d", pg0); o.set_ml_nuisance_params("ml_g_du_z1", "d", pg1)'''
for c in ("PQ", "CVAR", "LPQ"):
    L = c == "LPQ"
    names = ["ml_g_du_z0", "ml_g_du_z1", "ml_m_d_z0", "ml_m_d_z1", "ml_m_z"] if L else ["ml_g", "ml_m"]
    reg("t1", c)
    reg("t0", c, t=0)
    reg("reps", c, R=2)
    reg("plain", c, adjust="p")
    reg("plain0", c, t=0, adjust="p")
    reg("trim", c, thr="0.13", opts=", trimming_threshold=0.13")
    reg("params", c, setup=PARL if L else PAR)
    reg("foldparams", c, setup=foldpar(PARL if L else PAR, 2))
    reg("models", c, fit="store_models=True", extra=f'''
    EQ("P19:model names", sorted(o.models.keys()), {names})
''')
    if c != "CVAR":
        reg("kde", c, kde="userkde")
