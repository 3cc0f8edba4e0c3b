"""Simulated data: treatment, outcome, instruments and oracle values follow the documented equations in independent draws of the
documented distributions, for every parameter value, and all return types hold the same variables in the same roles."""
from . import driver
from .common import fill

HELP = '''
ARRAYS = ["array", "np.ndarray", "np.array", np.ndarray]
FRAMES = ["DataFrame", "pd.DataFrame", pd.DataFrame]
DATA = ["DoubleMLData", dml.DoubleMLData]

def toep(r, k):
    return [[r ** abs(i - j) if i != j else 1 for j in range(k)] for i in range(k)]

def eye(s, k):
    return [[s if i == j else 0 for j in range(k)] for i in range(k)]

def inner(x, b):
    r = x[0] * b[0]
    for j in range(1, len(x)):
        r = r + x[j] * b[j]
    return r

def mat(x, k):
    HOLDS("P93:covariate matrix", x.shape[1] == k)
    return [x[:, j] for j in range(k)]

def expit(v):
    return np.exp(v) / (1 + np.exp(v))

def tilde(x):
    t = [np.exp(0.5 * x[0]), 10 + x[1] / (1 + np.exp(x[0])), (0.6 + x[0] * x[2] / 25) ** 3, (20 + x[1] + x[3]) ** 2]
    return t + x[4:]

def standard(ts):
    return [(t - np.mean(t)) / np.std(t) for t in ts]

def freg(w, c):
    return c[0] + c[1] * w[0] + c[2] * w[1] + c[3] * (w[2] + w[3])

def fps(w, xi, b):
    return xi * (-w[0] + b * w[1] - 0.25 * w[2] - 0.1 * w[3])

def every(make, check, k, extra, z=None, xname="X"):
    """run a generator with every spelling of the three return types; `extra` are the variables after x"""
    xc = [xname + str(j + 1) for j in range(k)]
    for t in ARRAYS:
        r = make(t)
        check(mat(r[0], k), *r[1:])
    for t in FRAMES:
        df = make(t)
        HOLDS("P93:columns of the data frame", list(df.columns) == xc + extra)
        check([df[c] for c in xc], *[df[c] for c in extra])
    for t in DATA:
        o = make(t)
        HOLDS("P93,P14:container", isinstance(o, dml.DoubleMLData))
        HOLDS("P93,P14:columns", list(o.all_variables) == xc + extra)
        HOLDS("P93,P14:covariates", o.x_cols == xc)
        HOLDS("P93,P14:outcome and treatment", o.y_col == "y" and o.d_cols == ["d"])
        HOLDS("P93,P14:instruments", o.z_cols == z)
        HOLDS("P93,P14:time and selection", o.t_col == ("t" if "t" in extra else None) and o.s_col == ("s" if "s" in extra else None))
        check([o.data[c] for c in xc], *[o.data[c] for c in extra])
    RAISES("P93,P15:unknown return type", lambda: make("list"), "ValueError")
'''


def dgp(name, src, tier="quick"):
    driver("datasets/" + name, HELP + src, tier=tier)


dgp("plr CCDDHNR2018", '''
def driver():
    from doubleml.datasets import make_plr_CCDDHNR2018 as gen
    al = SCALAR("alpha"); a0 = SCALAR("a0"); a1 = SCALAR("a1"); s1 = SCALAR("s1"); b0 = SCALAR("b0"); b1 = SCALAR("b1"); s2 = SCALAR("s2")
    def checker(al, a0, a1, s1, b0, b1, s2):
        def check(x, y, d):
            MVN("P93:covariates", x, toep(0.7, len(x)))
            v = DRAWS("P93:treatment noise", d, "normal", 1, dims=n)[0]
            e = DRAWS("P93:outcome noise", y, "normal", 1, dims=n, but=[d])[0]
            EQ("P93:treatment", d, a0 * x[0] + a1 * expit(x[2]) + s1 * v)
            EQ("P93:outcome", y, al * d + b0 * expit(x[0]) + b1 * x[2] + s2 * e)
        return check
    every(lambda t: gen(n, 4, al, t, a_0=a0, a_1=a1, s_1=s1, b_0=b0, b_1=b1, s_2=s2), checker(al, a0, a1, s1, b0, b1, s2), 4, ["y", "d"])
    every(lambda t: gen(n, dim_x=3, return_type=t), checker(0.5, 1, 0.25, 1, 1, 0.25, 1), 3, ["y", "d"])
''')

dgp("plr turrell2018", '''
def driver():
    from doubleml.datasets import make_plr_turrell2018 as gen
    th = SCALAR("theta"); nu = SCALAR("nu"); ga = SCALAR("gamma")
    def checker(th, nu, ga):
        def check(x, y, d):
            k = len(x)
            xb = inner(x, [1 / j for j in range(1, k + 1)])
            v = DRAWS("P93:treatment noise", d, "normal", 1, dims=n)[0]
            e = DRAWS("P93:outcome noise", y, "normal", 1, dims=n, but=[d])[0]
            EQ("P93:treatment", d, 1 / (2 * np.pi) * np.sinh(ga) / (np.cosh(ga) - np.cos(xb - nu)) + v)
            EQ("P93:outcome", y, th * d + np.sin(xb) ** 2 + e)
        return check
    every(lambda t: gen(n, 3, th, t, nu=nu, gamma=ga), checker(th, nu, ga), 3, ["y", "d"])
    every(lambda t: gen(n, 2, return_type=t), checker(0.5, 0, 1), 2, ["y", "d"])
''')

dgp("irm", '''
def driver():
    from doubleml.datasets import make_irm_data as gen
    th = SCALAR("theta"); rd = SCALAR("R2_d"); ry = SCALAR("R2_y")
    def checker(th, rd, ry):
        def check(x, y, d):
            k = len(x)
            MVN("P93:covariates", x, toep(0.5, k))
            b = [1 / (j ** 2) for j in range(1, k + 1)]
            S = toep(0.5, k)
            bsb = inner([inner(S[i], b) for i in range(k)], b)
            cy = np.sqrt(ry / ((1 - ry) * bsb)); cd = np.sqrt(np.pi ** 2 / 3.0 * rd / ((1 - rd) * bsb))
            v = DRAWS("P93:treatment noise", d, "uniform", 1, dims=n)[0]
            e = DRAWS("P93:outcome noise", y, "normal", 1, dims=n, but=[d])[0]
            EQ("P93:treatment", d, 1.0 * (expit(inner(x, [cd * c for c in b])) > v))
            EQ("P93:outcome", y, th * d + d * inner(x, [cy * c for c in b]) + e)
        return check
    every(lambda t: gen(n, 3, th, rd, ry, t), checker(th, rd, ry), 3, ["y", "d"])
    every(lambda t: gen(n_obs=n, dim_x=2, return_type=t), checker(0, 0.5, 0.5), 2, ["y", "d"])
''')

dgp("iivm", '''
def driver():
    from doubleml.datasets import make_iivm_data as gen
    th = SCALAR("theta"); al = SCALAR("alpha_x")
    def checker(th, al):
        def check(x, y, d, z):
            k = len(x)
            MVN("P93:covariates", x, toep(0.5, k))
            v = DRAWS("P93:treatment noise", d, "mvn", 1, dims=n)[0]
            u = DRAWS("P93:outcome noise", y, "mvn", 1, dims=n, but=x + [d])[0]
            MVN("P93:dependent noise", [u, v], [[1, 0.3], [0.3, 1]])
            q = DRAWS("P93:instrument", z, "binomial", 1, dims=n)[0]
            EQ("P93:instrument", z, q)
            ISRNG("P93:instrument", q, "binomial", n, **{"n": 1, "p": 0.5})
            EQ("P93:treatment", d, 1.0 * (al * z + v > 0))
            EQ("P93:outcome", y, th * d + inner(x, [1 / (j ** 2) for j in range(1, k + 1)]) + u)
        return check
    every(lambda t: gen(n, 3, th, al, t), checker(th, al), 3, ["y", "d", "z"], ["z"])
    every(lambda t: gen(n_obs=n, dim_x=2, return_type=t), checker(1.0, 0.2), 2, ["y", "d", "z"], ["z"])
''')

dgp("pliv", '''
def driver():
    from doubleml.datasets import _make_pliv_data as gen
    th = SCALAR("theta"); gz = SCALAR("gamma_z")
    def m(v):
        return 0.5 / np.pi * np.sinh(1.0) / (np.cosh(1.0) - np.cos(v))
    def check(x, y, d, z):
        k = len(x)
        xb = inner(x, [1 / j for j in range(1, k + 1)])
        q = DRAWS("P93:instrument noise", z, "normal", 1, dims=n)[0]
        v = DRAWS("P93:treatment noise", d, "normal", 1, dims=n, but=[z])[0]
        e = DRAWS("P93:outcome noise", y, "normal", 1, dims=n, but=[d, z])[0]
        EQ("P93:instrument", z, m(xb) + q)
        EQ("P93:treatment", d, m(gz * z + xb) + v)
        EQ("P93:outcome", y, th * d + np.sin(xb) ** 2 + e)
    every(lambda t: gen(n, 3, th, gz, t), check, 3, ["y", "d", "z"], ["z"])
''')

dgp("pliv CHS2015", '''
def driver():
    from doubleml.datasets import make_pliv_CHS2015 as gen
    al = SCALAR("alpha")
    def checker(al, dz):
        def check(x, y, d, *zs):
            k = len(x)
            zs = mat(zs[0], dz) if len(zs) == 1 and dz > 1 else zs
            MVN("P93:covariates", x, toep(0.5, k))
            xi = [DRAWS("P93:instrument noise", zs[j], "mvn", 1, dims=n, but=x)[0] for j in range(dz)]
            MVN("P93:instrument noise", xi, eye(0.25, dz))
            u = DRAWS("P93:treatment noise", d, "mvn", 1, dims=n, but=x + xi)[0]
            e = DRAWS("P93:outcome noise", y, "mvn", 1, dims=n, but=x + xi + [d])[0]
            MVN("P93:dependent noise", [e, u], [[1, 0.6], [0.6, 1]])
            b = [1 / (j ** 2) for j in range(1, k + 1)]
            for j in range(dz):
                EQ("P93:instrument", zs[j], x[j] + xi[j])
            EQ("P93:treatment", d, inner(x, b) + inner(zs, b[:dz]) + u)
            EQ("P93:outcome", y, al * d + inner(x, b) + e)
        return check
    every(lambda t: gen(n, al, 3, 2, t), checker(al, 2), 3, ["y", "d", "Z1", "Z2"], ["Z1", "Z2"])
    every(lambda t: gen(n_obs=n, dim_x=3, dim_z=3, return_type=t), checker(1, 3), 3, ["y", "d", "Z1", "Z2", "Z3"], ["Z1", "Z2", "Z3"])
''')

dgp("ssm", '''
def driver():
    from doubleml.datasets import make_ssm_data as gen
    th = SCALAR("theta")
    for mar in [True, False]:
        def check(x, y, d, *zs):
            z = zs[0] if len(zs) == 2 else None
            s = zs[-1]
            k = len(x)
            b = [0.4 / (j ** 2) for j in range(1, k + 1)]
            MVN("P93:covariates", x, toep(0.5, k))
            w = DRAWS("P93:treatment noise", d, "normal", 1, dims=n)[0]
            EQ("P93:treatment", d, 1.0 * (inner(x, b) + w > 0))
            v = DRAWS("P93:selection noise", s, "mvn", 1, dims=n, but=x)[0]
            u = DRAWS("P93:outcome noise", y, "mvn", 1, dims=n, but=x + [s])[0]
            MVN("P93:dependent noise", [u, v], [[1, 0], [0, 1]] if mar else [[1, 0.8], [0.8, 1]])
            if z is not None:
                ISRNG("P93:instrument", z, "normal", n)
                EQ("P93:independent instrument", DRAWS("P93:other instrument draw", z, "normal", 1, but=[d])[0], z)
            if mar:
                EQ("P93:selection", s, 1.0 * (inner(x, b) + d + v > 0))
            else:
                EQ("P93:selection", s, 1.0 * (inner(x, b) + d + z + v > 0))
            EQ("P93:outcome", y, np.where(s == 0, 0, th * d + inner(x, b) + u))
        every(lambda t: gen(n, 3, th, mar, t), check, 3, ["y", "d", "s"] if mar else ["y", "d", "z", "s"], None if mar else ["z"])
''')

DID = '''
def driver():
    from doubleml.datasets import make_did_SZ2020 as gen
    def checker(dgp, cs, xi, c, lam):
        def check(z, y, d, t=None):
            # the covariates observed are the standardised transformations of x
            x = DRAWS("P93:covariates", z[3], "mvn", 2) + DRAWS("P93:covariates", z[2], "mvn", 2)
            x = [x[2], x[0], x[3], x[1]]
            MVN("P93:covariates", x, toep(c, 4))
            zz = standard(tilde(x))
            for j in range(4):
                EQ("P93:covariates", z[j], zz[j])
            wps = [zz, x, zz, x, None, None][dgp - 1]
            wr = [zz, zz, x, x, zz, x][dgp - 1]
            u = DRAWS("P93:treatment noise", d, "uniform", 1, dims=n)[0]
            if wps is None:
                EQ("P93:treatment", d, 1.0 * (0.5 >= u))
            else:
                EQ("P93:treatment", d, 1.0 * (expit(fps(wps, xi, 0.5)) >= u))
            f = freg(wr, [210, 27.4, 13.7, 13.7])
            e1 = DRAWS("P93:outcome noise of the second period", y, "normal", 1, dims=(n, 2))[0]
            es = DRAWS("P93:other outcome noise", y, "normal", 2 if cs else None, dims=n)
            e0 = es[0]
            nu = d * f + (es[1] if len(es) > 1 else 0)
            y0 = f + nu + e0
            y1 = 2 * f + nu + d * e1[:, 1] + (1 - d) * e1[:, 0]
            if cs:
                ut = DRAWS("P93:time", t, "uniform", 1, dims=n)[0]
                HOLDS("P93:time independent of treatment", ut is not u)
                EQ("P93:time", t, 1.0 * (ut <= lam))
                EQ("P93:outcome", y, t * y1 + (1 - t) * y0)
            else:
                EQ("P93:outcome", y, y1 - y0)
        return check
    xi = SCALAR("xi"); c = SCALAR("c"); lam = SCALAR("lam")
    every(lambda t: gen(n, {dgp}, {cs}, t, xi=xi, c=c, lambda_t=lam), checker({dgp}, {cs}, xi, c, lam), 4, ["y", "d"] + (["t"] if {cs} else []), xname="Z")
    every(lambda t: gen(n_obs=n, dgp_type={dgp}, cross_sectional_data={cs}, return_type=t), checker({dgp}, {cs}, 0.75, 0.0, 0.5), 4,
          ["y", "d"] + (["t"] if {cs} else []), xname="Z")
'''
for _d in range(1, 7):
    for _c in (False, True):
        dgp("did %d %s" % (_d, "cross-sectional" if _c else "panel"), fill(DID, dgp=_d, cs=_c), tier="quick" if _d in (1, 2, 5) else "thorough")

dgp("pliv multiway cluster", '''
def driver():
    from doubleml.datasets import make_pliv_multiway_cluster_CKMS2021 as gen
    N, M, k = 3, 2, 2
    def comp(w, i, j, a):
        return (1 - w[0] - w[1]) * a[0][i * M + j] + w[0] * a[1][i] + w[1] * a[2][j]
    def parts(label, fam, v, but):
        return [DRAWS("P93:" + label, v, fam, None, dims=m, but=but) for m in [N * M, N, M]]
    def checker(th, p10, z0, p20, xi0, wX, we, wv, wV, sX, sev):
        def check(x, y, d, z, c=None):
            # draws of the two covariates: one multivariate draw per pair and per cluster of either dimension
            ax = []
            for m in [N * M, N, M]:
                q = DRAWS("P93:covariates", x[0], "mvn", 1, dims=m) + DRAWS("P93:covariates", x[1], "mvn", 1, dims=m)
                MVN("P93:covariates", q, toep(sX, k))
                ax.append(q)
            aV = [DRAWS("P93:instrument noise", z, "normal", 1, dims=m)[0] for m in [N * M, N, M]]
            av = [DRAWS("P93:treatment noise", d, "mvn", 1, dims=m, but=x)[0] for m in [N * M, N, M]]
            ae = [DRAWS("P93:outcome noise", y, "mvn", 1, dims=m, but=x + [d])[0] for m in [N * M, N, M]]
            for m in range(3):
                MVN("P93:dependent noise", [ae[m], av[m]], [[1, sev], [sev, 1]])
            for i in range(N):
                for j in range(M):
                    r = i * M + j
                    X = [comp(wX, i, j, [a[q] for a in ax]) for q in range(k)]
                    for q in range(k):
                        EQ("P93:covariates", x[q][r], X[q])
                    EQ("P93:instrument", z[r], inner([x[q][r] for q in range(k)], xi0) + comp(wV, i, j, aV))
                    EQ("P93:treatment", d[r], z[r] * p10 + inner([x[q][r] for q in range(k)], p20) + comp(wv, i, j, av))
                    EQ("P93:outcome", y[r], d[r] * th + inner([x[q][r] for q in range(k)], z0) + comp(we, i, j, ae))
                    EQ("P93:cluster variables", c[0][r], i)
                    EQ("P93:cluster variables", c[1][r], j)
        return check
    def every2(make, check):
        xc = ["X1", "X2"]
        cc = ["cluster_var_i", "cluster_var_j"]
        for t in ARRAYS:
            r = make(t)
            check(mat(r[0], k), r[1], r[2], r[4], [r[3][:, 0], r[3][:, 1]])
        for t in FRAMES:
            df = make(t)
            HOLDS("P93:columns of the data frame", list(df.columns) == cc + xc + ["Y", "D", "Z"])
            check([df[c].values for c in xc], df["Y"].values, df["D"].values, df["Z"].values, [df[c].values for c in cc])
        for t in ["DoubleMLClusterData", dml.DoubleMLClusterData]:
            o = make(t)
            HOLDS("P93,P14:container", isinstance(o, dml.DoubleMLClusterData))
            HOLDS("P93,P14:roles", o.x_cols == xc and o.y_col == "Y" and o.d_cols == ["D"] and o.z_cols == ["Z"] and o.cluster_cols == cc)
            df = o.data
            check([df[c].values for c in xc], df["Y"].values, df["D"].values, df["Z"].values, [df[c].values for c in cc])
        RAISES("P93,P15:unknown return type", lambda: make("list"), "ValueError")
    th = SCALAR("theta"); p10 = SCALAR("pi10"); sX = SCALAR("sX"); sev = SCALAR("sev")
    z0 = np.array([SCALAR("z1"), SCALAR("z2")]); p20 = np.array([SCALAR("p1"), SCALAR("p2")]); xi0 = np.array([SCALAR("q1"), SCALAR("q2")])
    W = [np.array([SCALAR(c + "1"), SCALAR(c + "2")]) for c in ["wX", "we", "wv", "wV"]]
    every2(lambda t: gen(N, M, k, th, t, pi_10=p10, zeta_0=z0, pi_20=p20, xi_0=xi0, omega_X=W[0], omega_epsilon=W[1], omega_v=W[2],
                         omega_V=W[3], s_X=sX, s_epsilon_v=sev), checker(th, p10, z0, p20, xi0, W[0], W[1], W[2], W[3], sX, sev))
    h = [0.5, 0.25]; w = [0.25, 0.25]
    every2(lambda t: gen(N=N, M=M, dim_X=k, return_type=t), checker(1, 1, h, h, h, w, w, w, w, 0.25, 0.25))
''')

dgp("confounded irm", '''
def driver():
    from doubleml.datasets import make_confounded_irm_data as gen
    def check(r, th, ga, be, linear, tr, ve):
        o = r["oracle_values"]
        x = mat(r["x"], 5)
        y = r["y"]; d = r["d"]
        MVN("P93:covariates", x, eye(1, 5))
        z = standard(tilde(x))
        zo = mat(o["z"], 5)
        for j in range(5):
            EQ("P93:oracle covariates", zo[j], z[j])
        w = x if linear else z
        a = -1 + 2 * DRAWS("P93:confounder", o["a"], "uniform", 1, dims=n)[0]
        EQ("P93:confounder", o["a"], a)
        ps = expit(fps(w, 0.75, 0.1))
        ml = ps + ga * a
        trim = np.any(ml < tr) or np.any(ml > 1 - tr)
        if trim:
            ml = np.clip(ml, tr, 1 - tr)
            ms = np.clip(ps, tr, 1 - tr)
        else:
            ms = ps
        EQ("P93:long propensity", o["m_long"], ml)
        EQ("P93:short propensity", o["m_short"], ms)
        u = DRAWS("P93:treatment noise", d, "uniform", 1, dims=n, but=[a])[0]
        EQ("P93:treatment", d, 1.0 * (o["m_long"] >= u))
        e = np.sqrt(ve) * DRAWS("P93:outcome noise", y, "normal", 1, dims=n, but=[d])[0]
        f = freg(w, [2.5, 0.74, 0.25, 0.137])
        EQ("P93:potential outcome without treatment", o["y_0"], f + be * a + e)
        EQ("P93:potential outcome with treatment", o["y_1"], th * (z[4] + 1) + f + be * a + e)
        EQ("P93:outcome", y, d * o["y_1"] + (1 - d) * o["y_0"])
        EQ("P93:long regression", o["g_long"], th * d * (z[4] + 1) + f + be * a)
        EQ("P93:short regression", o["g_short"], (th + be * (ga * (4 / 12)) / np.var(d * (z[4] + 1))) * d * (z[4] + 1) + f)
        EQ("P93:confounding of the outcome", o["cf_y"], np.mean((o["g_long"] - o["g_short"]) ** 2) / np.mean((y - o["g_short"]) ** 2))
        vl = np.mean(1 / (o["m_long"] * (1 - o["m_long"]))); vs = np.mean(1 / (o["m_short"] * (1 - o["m_short"])))
        EQ("P93:confounding of the ATE representer", o["cf_d_ate"], (vl - vs) / vl)
        ol = np.mean(o["m_long"] / (1 - o["m_long"])); os_ = np.mean(o["m_short"] / (1 - o["m_short"]))
        EQ("P93:confounding of the ATTE representer", o["cf_d_atte"], (ol - os_) / ol)
        ml = o["m_long"]; ms = o["m_short"]
        def corr(rl, rs):
            return np.corrcoef(o["g_long"] - o["g_short"], rl - rs)[0, 1]
        def ate(m):
            return d / m - (1 - d) / (1 - m)
        def att(m):
            return d / np.mean(d) - (1 - d) / np.mean(d) * (m / (1 - m))
        if be == 0 or ga == 0:
            EQ("P93:correlation of the ATE errors", o["rho_ate"], 0)
            EQ("P93:correlation of the ATTE errors", o["rho_atte"], 0)
        else:
            EQ("P93:correlation of the ATE errors", o["rho_ate"], corr(ate(ml), ate(ms)))
            EQ("P93:correlation of the ATTE errors", o["rho_atte"], corr(att(ml), att(ms)))
        EQ("P93:parameters", o["gamma_a"], ga)
        EQ("P93:parameters", o["beta_a"], be)
    th = SCALAR("theta"); ga = SCALAR("ga"); be = SCALAR("be"); ve = SCALAR("ve", lo=0); tr = SCALAR("tr", lo=0)
    for lin in [False, True]:
        check(gen(n, th, ga, be, lin, var_eps_y=ve, trimming_threshold=tr), th, ga, be, lin, tr, ve)
    check(gen(n_obs=n), 0.0, 0.127, 0.58, False, 0.01, 1.0)
''')

CPLR = '''
def driver():
    from doubleml.datasets import make_confounded_plr_data as gen
    def check(r, k, th, c, cfy, cfd):
        o = r["oracle_values"]
        x = mat(r["x"], k)
        y = r["y"]; d = r["d"]
        MVN("P93:covariates", x, toep(c, k))
        z = standard(tilde(x))
        zo = mat(o["z"], k)
        for j in range(k):
            EQ("P93:oracle covariates", zo[j], z[j])
        a = -1 + 2 * DRAWS("P93:confounder", o["a"], "uniform", 1, dims=n)[0]
        EQ("P93:confounder", o["a"], a)
        ms = -z[0] + 0.5 * z[1] - 0.25 * z[2] - 0.1 * z[3]
        EQ("P93:short treatment regression", o["m_short"], ms)
        ga = o["gamma_a"]; be = o["beta_a"]
        EQ("P93:long treatment regression", o["m_long"], ms + ga * a)
        v = d - o["m_long"]
        e = y - o["g_long"]
        f = freg(z, [210, 27.4, 13.7, 13.7])
        ISRNG("P93:treatment noise", DRAWS("P93:treatment noise", v, "normal", 1, dims=n)[0], "normal", n)
        EQ("P93:treatment", d, ms + ga * a + DRAWS("P93:treatment noise", v, "normal", 1, dims=n)[0])
        EQ("P93:outcome", y, th * d + f + be * a + np.sqrt(5) * DRAWS("P93:outcome noise", y, "normal", 1, dims=n, but=[d])[0])
        EQ("P93:long regression", o["g_long"], th * d + f + be * a)
        EQ("P93:short regression", o["g_short"], (th + ga * be * (4 / 12) / np.var(d)) * d + f)
        # the strengths of the confounder reproduce the requested shares of variation in the sample
        u = DRAWS("P93:treatment noise", v, "normal", 1, dims=n)[0]
        w = DRAWS("P93:outcome noise", y, "normal", 1, dims=n, but=[d])[0]
        def fd(g):
            short = np.mean(((g * a + u) / (g ** 2 * (4 / 12) + 1)) ** 2)
            gain = (np.mean(u ** 2) - short) / short
            return gain / (1 + gain) - cfd
        ROOTS("P93:strength of the confounder in the treatment", ga, fd, argmin=True)
        def fy(b):
            df = b * (a - ga * ((4 / 12) / np.var(d)) * d)
            return np.mean(df ** 2) / np.mean((np.sqrt(5) * w + df) ** 2) - cfy
        ROOTS("P93:strength of the confounder in the outcome", be, fy, argmin=True)
        EQ("P93:effect", o["theta"], th)
    th = SCALAR("theta"); c = SCALAR("c")
    cfy = SCALAR("cfy"); cfd = SCALAR("cfd")
    {call}
'''
for _l, _c in (("", "check(gen(n, th, cfy, cfd, c=c), 4, th, c, cfy, cfd)"), (" defaults", "check(gen(n_obs=n, dim_x=5), 5, 5.0, 0.0, 0.04, 0.04)")):
    dgp("confounded plr" + _l, fill(CPLR, call=_c))

dgp("heterogeneous", '''
def driver():
    from doubleml.datasets import make_heterogeneous_data as gen
    k, q = 3, 2
    for binary in [False, True]:
        for dim in [1, 2]:
            r = gen(n, k, q, dim, binary)
            df = r["data"]
            xc = ["X_" + str(j) for j in range(k)]
            HOLDS("P93:columns of the data frame", list(df.columns) == ["y", "d"] + xc)
            X = DRAWS("P93:covariates", df["X_0"], "uniform", 1, dims=(n, k))[0]
            for j in range(k):
                EQ("P93:covariates", df[xc[j]], X[:, j])
            y = df["y"]; d = df["d"]
            th = np.exp(2 * X[:, 0]) + 3 * np.sin(4 * X[:, 0 if dim == 1 else 1])
            EQ("P93:effects", r["effects"], th)
            G = np.column_stack([SCALAR("g1") * np.ones(n), COL("g2", "c")])
            EQ("P93:effect function", r["treatment_effect"](G), np.exp(2 * G[:, 0]) + 3 * np.sin(4 * G[:, 0 if dim == 1 else 1]))
            sup = DRAWS("P93:support", y, "choice", 1, dims=q)[0]
            ISRNG("P93:support", sup, "choice", q, a=np.arange(k), replace=False)
            bd = 0.3 * DRAWS("P93:treatment coefficients", d, "uniform", 1, dims=q)[0]
            by = DRAWS("P93:outcome coefficients", y, "uniform", 1, dims=q, but=[d])[0]
            eta = -1 + 2 * DRAWS("P93:treatment noise", d, "uniform", 1, dims=n)[0]
            eps = -1 + 2 * DRAWS("P93:outcome noise", y, "uniform", 1, dims=n, but=[d])[0]
            m = np.dot(X[:, sup], bd)
            EQ("P93:treatment", d, 1.0 * (m >= eta) if binary else m + eta)
            EQ("P93:outcome", y, th * d + np.dot(X[:, sup], by) + eps)
    RAISES("P93,P15:dimension of the heterogeneity", lambda: gen(n, 3, 2, 3), "AssertionError")
    RAISES("P93,P15:support larger than the dimension", lambda: gen(n, 3, 4), "AssertionError")
    RAISES("P93,P15:treatment indicator", lambda: gen(n, 3, 2, 1, 1), "AssertionError")
''')

dgp("irm discrete treatments", '''
def driver():
    from doubleml.datasets import make_irm_data_discrete_treatments as gen
    def check(r, L, linear, xi, c):
        o = r["oracle_values"]
        x = mat(r["x"], 5)
        y = r["y"]; d = r["d"]
        MVN("P93:covariates", x, toep(c, 5))
        z = x if linear else standard(tilde(x))
        v = DRAWS("P93:treatment noise", o["cont_d"], "normal", 1, dims=n)[0]
        dc = o["cont_d"]
        EQ("P93:continuous treatment", dc, fps(z, xi, 0.5) + v)
        u = DRAWS("P93:baseline draw", d, "uniform", 1, dims=n)[0]
        lev = 1
        for j in range(1, L):
            lev = lev + 1.0 * (dc >= np.quantile(dc, np.linspace(0, 1, L + 1)[j]))
        EQ("P93:potential level", o["potential_level"], lev)
        EQ("P93:treatment level", d, np.where(u >= 1 / L, lev, 0))
        e = np.sqrt(5) * DRAWS("P93:outcome noise", y, "normal", 1, dims=n, but=[d])[0]
        y0 = freg(z, [210, 27.4, 13.7, 13.7]) + e
        EQ("P93:outcome without treatment", o["y0"], y0)
        EQ("P93:outcome", y, np.where(d > 0, o["ite"], 0) + y0)
    xi = SCALAR("xi"); c = SCALAR("c")
    for L in [2, 3, 4]:
        check(gen(n, L, xi=xi, c=c), L, False, xi, c)
    check(gen(n_obs=n, linear=True), 3, True, 0.3, 0.0)
    RAISES("P93,P15:number of levels", lambda: gen(n, 1), "ValueError")
    RAISES("P93,P15:type of the number of levels", lambda: gen(n, 2.0), "ValueError")
''')

dgp("rdd", '''
def driver():
    from doubleml.rdd.datasets import make_simple_rdd_data as gen
    def check(r, p, fuzzy, binary, cut, k, a, tau):
        o = r["oracle_values"]
        s = r["score"]; y = r["Y"]; d = r["D"]
        ISRNG("P93:score", s, "normal", n)
        q = DRAWS("P93:covariates", r["X"], "uniform", 1, dims=(n, k))[0]
        x = mat(r["X"], k)
        g = 0
        for j in range(k):
            EQ("P93:covariates", x[j], -1 + 2 * q[:, j])
            for i in range(1, p + 1):
                g = g + i * x[j] ** i
        g0 = 0.1 * s ** 2 + g
        g1 = tau + 0.1 * s ** 2 - 0.5 * s ** 2 + a * inner(x, [1] * k) * s + g
        t = s >= cut
        if binary:
            b0 = DRAWS("P93:outcome without treatment", o["Y0"], "binomial", 1, dims=n)[0]
            b1 = DRAWS("P93:outcome with treatment", o["Y1"], "binomial", 1, dims=n)[0]
            ISRNG("P93:outcome without treatment", b0, "binomial", n, **{"n": 1, "p": 1 / (1 + np.exp(-g0))})
            ISRNG("P93:outcome with treatment", b1, "binomial", n, **{"n": 1, "p": 1 / (1 + np.exp(-g1))})
            EQ("P93:outcome without treatment", o["Y0"], b0)
            EQ("P93:outcome with treatment", o["Y1"], b1)
        else:
            e0 = 0.2 * DRAWS("P93:outcome noise", o["Y0"], "normal", 1, dims=n, but=[s])[0]
            e1 = 0.2 * DRAWS("P93:outcome noise", o["Y1"], "normal", 1, dims=n, but=[s, e0])[0]
            EQ("P93:outcome without treatment", o["Y0"], g0 + e0)
            EQ("P93:outcome with treatment", o["Y1"], g1 + e1)
        if fuzzy:
            b = DRAWS("P93:take-up", d, "binomial", 1, dims=n)[0]
            pr = 0.3 + 0.4 * t + 0.01 * s ** 2 - 0.02 * s ** 2 * t + 0.2 * g
            ISRNG("P93:take-up", b, "binomial", n, **{"n": 1, "p": np.clip(pr, 0.0, 1.0)})
            EQ("P93:treatment", d, b)
        else:
            EQ("P93:treatment", d, 1 * t)
        EQ("P93:outcome", y, o["Y0"] * (1 - d) + o["Y1"] * d)
    cut = SCALAR("cut"); a = SCALAR("a"); tau = SCALAR("tau")
    for fuzzy in [True, False]:
        for binary in [True, False]:
            check(gen(n, 2, fuzzy, binary, cutoff=cut, dim_x=2, a=a, tau=tau), 2, fuzzy, binary, cut, 2, a, tau)
    check(gen(n_obs=n), 4, True, False, 0.0, 3, 0.0, 1.0)
    check(gen(n, 0, tau=tau), 0, True, False, 0.0, 3, 0.0, tau)
''')
