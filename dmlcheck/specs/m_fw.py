"""Result framework: intervals, aggregation, algebra, bootstrap, multiple testing, sensitivity bounds."""
from . import driver
from .common import fill

FW = '''
def fw(tag, T, R, names=None, sens=True, bench=True):
    ath = MAT("ath" + tag, T, R); ase = MAT("ase" + tag, T, R, lo=0.001); psi = MAT("psi" + tag, n, T, R)
    vs = MAT("vs", T, lo=1); th = MAT("th" + tag, T); se = MAT("se" + tag, T, lo=0.001)
    dd = {"thetas": th, "ses": se, "all_thetas": ath, "all_ses": ase, "var_scaling_factors": vs, "scaled_psi": psi}
    if sens:
        dd["sensitivity_elements"] = {"max_bias": MAT("mb" + tag, 1, T, R, lo=0.0), "psi_max_bias": MAT("pmb" + tag, n, T, R)}
        if bench:
            dd["sensitivity_elements"]["sigma2"] = MAT("s2" + tag, 1, T, R, lo=0.0)
            dd["sensitivity_elements"]["nu2"] = MAT("nu2" + tag, 1, T, R, lo=0.0)
    if names is not None:
        dd["treatment_names"] = names
    return dml.DoubleMLFramework(USERLIST(dd, "user results"))
def med(x, R):
    return np.median(x)
'''

driver("fw/props", FW + '''
def driver():
    f = fw("", 2, 3, names=["d1", "d2"])
    EQ("P05:n_obs", f.n_obs, n); EQ("P05:n_rep", f.n_rep, 3); EQ("P05:n_thetas", f.n_thetas, 2)
    for j in range(2):
        EQ("P05:t", f.t_stats[j], f.thetas[j] / f.ses[j])
        ps = []
        for r in range(3):
            EQ("P05:all t", f.all_t_stats[j, r], f.all_thetas[j, r] / f.all_ses[j, r])
            p = 2 * (1 - norm.cdf(np.abs(f.all_thetas[j, r] / f.all_ses[j, r])))
            EQ("P05:all p", f.all_pvals[j, r], p)
            ps.append(p)
        EQ("P05:p", f.pvals[j], np.median(np.array(ps)))
    ci = f.confint(level=0.9)
    for j in range(2):
        lo = np.array([f.all_thetas[j, r] - norm.ppf(0.95) * f.all_ses[j, r] for r in range(3)])
        hi = np.array([f.all_thetas[j, r] + norm.ppf(0.95) * f.all_ses[j, r] for r in range(3)])
        EQ("P05:ci lower", ci.iloc[j, 0], np.median(lo))
        EQ("P05:ci upper", ci.iloc[j, 1], np.median(hi))
    RAISES("P05,P15:joint needs a bootstrap", lambda: f.confint(joint=True), "ValueError")
    RAISES("P15:level 1.0", lambda: f.confint(level=1.0), "ValueError")
    RAISES("P15:level 0.0", lambda: f.confint(level=0.0), "ValueError")
    RAISES("P15:level type", lambda: f.confint(level=1), "TypeError")
    RAISES("P15:joint type", lambda: f.confint(joint="no"), "TypeError")
''')

driver("fw/summary", FW + '''
def driver():
    f = fw("", 2, 3, names=["d1", "d2"])
    s = f.summary
    for j in range(2):
        EQ("P05:summary coef", s.iloc[j, 0], f.thetas[j])
        EQ("P05:summary se", s.iloc[j, 1], f.ses[j])
        EQ("P05:summary t", s.iloc[j, 2], f.thetas[j] / f.ses[j])
        EQ("P05:summary p", s.iloc[j, 3], f.pvals[j])
        lo = np.array([f.all_thetas[j, r] - norm.ppf(0.975) * f.all_ses[j, r] for r in range(3)])
        hi = np.array([f.all_thetas[j, r] + norm.ppf(0.975) * f.all_ses[j, r] for r in range(3)])
        EQ("P05:summary lower", s.iloc[j, 4], np.median(lo))
        EQ("P05:summary upper", s.iloc[j, 5], np.median(hi))
''')

ALG = '''
def driver():
    f = fw("a", 2, 3); g = fw("b", 2, 3)
    h = {expr}
    for j in range(2):
        ts = []; ss = []
        for r in range(3):
            t = f.all_thetas[j, r] {op} g.all_thetas[j, r]
            p = f.scaled_psi[:, j, r] {op} g.scaled_psi[:, j, r]
            EQ("P17:theta", h.all_thetas[j, r], t)
            EQ("P17:scaled psi", h.scaled_psi[:, j, r], p)
            s = np.sqrt(np.mean(p ** 2) / f.var_scaling_factors[j])
            EQ("P17:se", h.all_ses[j, r], s)
            EQ("P17,P18:max_bias", h.sensitivity_elements["max_bias"][0, j, r], f.sensitivity_elements["max_bias"][0, j, r] + g.sensitivity_elements["max_bias"][0, j, r])
            EQ("P17,P18:psi_max_bias", h.sensitivity_elements["psi_max_bias"][:, j, r], f.sensitivity_elements["psi_max_bias"][:, j, r] + g.sensitivity_elements["psi_max_bias"][:, j, r])
            ts.append(t); ss.append(s)
        m = np.median(np.array(ts))
        v = np.median(np.array([ss[r] ** 2 + (ts[r] - m) ** 2 / f.var_scaling_factors[j] for r in range(3)]))
        EQ("P17,P05:aggregated theta", h.thetas[j], m)
        EQ("P17,P05:aggregated se", h.ses[j], np.sqrt(v))
    EQ("P17:n_obs", h.n_obs, n); EQ("P17:n_rep", h.n_rep, 3); EQ("P17:n_thetas", h.n_thetas, 2)
    HOLDS("P17:not clustered", not h._is_cluster_data)
'''
driver("fw/add", FW + fill(ALG, expr="f + g", op="+"))
driver("fw/sub", FW + fill(ALG, expr="f - g", op="-"))
MUL = '''
def driver():
    f = fw("a", 2, 3)
    h = {expr}
    c = {c}
    for j in range(2):
        EQ("P17:aggregated theta", h.thetas[j], c * f.thetas[j])
        EQ("P17:aggregated se", h.ses[j], {abs} * f.ses[j])
        for r in range(3):
            EQ("P17:theta", h.all_thetas[j, r], c * f.all_thetas[j, r])
            EQ("P17:se", h.all_ses[j, r], {abs} * f.all_ses[j, r])
            EQ("P17:scaled psi", h.scaled_psi[:, j, r], c * f.scaled_psi[:, j, r])
            EQ("P17,P18:max_bias", h.sensitivity_elements["max_bias"][0, j, r], {abs} * f.sensitivity_elements["max_bias"][0, j, r])
            EQ("P17,P18:psi_max_bias", h.sensitivity_elements["psi_max_bias"][:, j, r], {abs} * f.sensitivity_elements["psi_max_bias"][:, j, r])
            EQ("P17,P18:sigma2", h.sensitivity_elements["sigma2"][0, j, r], f.sensitivity_elements["sigma2"][0, j, r])
            EQ("P17,P18:nu2", h.sensitivity_elements["nu2"][0, j, r], c * c * f.sensitivity_elements["nu2"][0, j, r])
        EQ("P17:var_scaling", h.var_scaling_factors[j], f.var_scaling_factors[j])
'''
driver("fw/mul", FW + fill(MUL, expr="f * 2.5", c="2.5", abs="2.5"))
driver("fw/rmul", FW + fill(MUL, expr="3 * f", c="3", abs="3"))
driver("fw/mul_negative", FW + fill(MUL, expr="f * -1.5", c="(-1.5)", abs="1.5"))
driver("fw/radd", FW + fill(ALG, expr="sum_(f, g)", op="+").replace("def driver", "def sum_(a, b):\n    return a.__radd__(b)\ndef driver"))

driver("fw/concat", FW + '''
def driver():
    f = fw("a", 2, 3); g = fw("b", 1, 3)
    h = dml.concat([f, g])
    EQ("P17:n_thetas", h.n_thetas, 3)
    src = [(f, 0), (f, 1), (g, 0)]
    for j in range(3):
        q, k = src[j]
        EQ("P17:theta", h.thetas[j], q.thetas[k]); EQ("P17:se", h.ses[j], q.ses[k])
        EQ("P17:vs", h.var_scaling_factors[j], q.var_scaling_factors[k])
        for r in range(3):
            EQ("P17:all theta", h.all_thetas[j, r], q.all_thetas[k, r])
            EQ("P17:all se", h.all_ses[j, r], q.all_ses[k, r])
            EQ("P17:scaled psi", h.scaled_psi[:, j, r], q.scaled_psi[:, k, r])
            for e in ["max_bias", "sigma2", "nu2"]:
                EQ("P17,P18:" + e, h.sensitivity_elements[e][0, j, r], q.sensitivity_elements[e][0, k, r])
            EQ("P17,P18:psi_max_bias", h.sensitivity_elements["psi_max_bias"][:, j, r], q.sensitivity_elements["psi_max_bias"][:, k, r])
''')
driver("fw/guards", FW + '''
def driver():
    f = fw("a", 2, 3); g = fw("b", 1, 3); k = fw("c", 2, 2)
    RAISES("P17,P15:add different number of parameters", lambda: f + g)
    RAISES("P17,P15:sub different number of parameters", lambda: f - g)
    RAISES("P17,P15:add different repetitions", lambda: f + k)
    RAISES("P17,P15:sub different repetitions", lambda: f - k)
    RAISES("P17,P15:concat different repetitions", lambda: dml.concat([f, k]))
    RAISES("P17,P15:concat nothing", lambda: dml.concat([]))
    RAISES("P17,P15:concat other type", lambda: dml.concat([f, 1]))
    RAISES("P17,P15:add other type", lambda: f + 1.0)
    RAISES("P17,P15:sub other type", lambda: f - 1.0)
    RAISES("P17,P15:mul other type", lambda: f * "a")
    RAISES("P17,P15:mul framework", lambda: f * f)
    RAISES("P15:names type", lambda: fw("e", 2, 3, names="d1"))
    RAISES("P15:names length", lambda: fw("e", 2, 3, names=["d1"]))
    RAISES("P15:names content", lambda: fw("e", 2, 3, names=["d1", 2]))
''')

BOOT = """
def driver():
    f = fw("", 2, 3)
    B = SCALAR("B", lo=1, integer=True)
    f.bootstrap(method="{m}", n_rep_boot=B)
    EQ("P16:n_rep_boot", f.n_rep_boot, B); EQ("P16:method", f.boot_method, "{m}")
    Ws = []
    for r in range(3):
        W = RNGS(f.boot_t_stat[:, 0, r])
        Ws.append(W[0])
        HOLDS("P16:number of draws per repetition", len(W) == {k})
        for q in W:
            ISRNG("P16:multiplier draws", q, "{fam}", B, n)
        w = {w}
        for j in range(2):
            EQ("P16,P07:bootstrap t", f.boot_t_stat[:, j, r], np.dot(w, f.scaled_psi[:, j, r]) / (f.var_scaling_factors[j] * f.all_ses[j, r]))
    DISTINCT("P16,P07:draws differ between repetitions", Ws[0], Ws[1]); DISTINCT("P16,P07:draws differ between repetitions", Ws[2], Ws[1])
    ci = f.confint(joint=True, level=0.9)
    lo = [[], []]; hi = [[], []]
    for r in range(3):
        c = np.quantile(np.maximum(np.abs(f.boot_t_stat[:, 0, r]), np.abs(f.boot_t_stat[:, 1, r])), 0.9)
        for j in range(2):
            lo[j].append(f.all_thetas[j, r] - c * f.all_ses[j, r]); hi[j].append(f.all_thetas[j, r] + c * f.all_ses[j, r])
    for j in range(2):
        EQ("P16,P05:joint lower", ci.iloc[j, 0], np.median(np.array(lo[j])))
        EQ("P16,P05:joint upper", ci.iloc[j, 1], np.median(np.array(hi[j])))
"""
driver("fw/bootstrap", FW + fill(BOOT, m="normal", k=1, fam="normal", w="W[0]"))
driver("fw/bootstrap_bayes", FW + fill(BOOT, m="Bayes", k=1, fam="exponential", w="W[0] - 1"))
driver("fw/bootstrap_wild", FW + fill(BOOT, m="wild", k=2, fam="normal", w="W[0] / np.sqrt(2) + (W[1] ** 2 - 1) / 2"))
driver("fw/bootstrap_guards", FW + """
def driver():
    f = fw("", 2, 3)
    RAISES("P15,P16:unknown method", lambda: f.bootstrap(method="Gauss"), "ValueError")
    RAISES("P15,P16:method type", lambda: f.bootstrap(method=1))
    RAISES("P15,P16:n_rep_boot type", lambda: f.bootstrap(n_rep_boot=10.0), "TypeError")
    RAISES("P15,P16:n_rep_boot zero", lambda: f.bootstrap(n_rep_boot=0), "ValueError")
    RAISES("P15,P16:romano-wolf needs a bootstrap", lambda: f.p_adjust(), "ValueError")
    RAISES("P15,P16:p_adjust method type", lambda: f.p_adjust(method=1), "TypeError")
""")
PADJ = """
def driver():
    from statsmodels.stats.multitest import multipletests
    f = fw("", 2, 3)
    df, allp = f.p_adjust(method="{m}")
    for j in range(2):
        for r in range(3):
            EQ("P16,P07:adjusted p", allp[j, r], multipletests(f.all_pvals[:, r], method="{m}")[1][j])
        EQ("P16:aggregated p", df.iloc[j, 1], np.median(allp[j, :]))
        EQ("P16:reported parameter", df.iloc[j, 0], f.thetas[j])
"""
driver("fw/p_adjust", FW + fill(PADJ, m="bonferroni"))
driver("fw/p_adjust_holm", FW + fill(PADJ, m="holm"))
driver("fw/romano", FW + """
def driver():
    f = fw("", 3, 2)
    f.bootstrap(n_rep_boot=SCALAR("B", lo=1, integer=True))
    # order of the absolute t statistics: repetition 0: 1 > 2 > 0, repetition 1: 0 > 1 > 2
    orders = [[1, 2, 0], [0, 1, 2]]
    t = [[np.abs(f.all_thetas[j, r] / f.all_ses[j, r]) for j in range(3)] for r in range(2)]
    for r in range(2):
        o = orders[r]
        ASSUME(t[r][o[1]] < t[r][o[0]]); ASSUME(t[r][o[2]] < t[r][o[1]]); ASSUME(t[r][o[2]] < t[r][o[0]])
    df, allp = f.p_adjust()
    for r in range(2):
        o = orders[r]
        b = [np.abs(f.boot_t_stat[:, j, r]) for j in range(3)]
        p0 = np.minimum(1, np.mean(np.maximum(np.maximum(b[0], b[1]), b[2]) >= t[r][o[0]]))
        p1 = np.minimum(1, np.mean(np.maximum(b[min(o[1], o[2])], b[max(o[1], o[2])]) >= t[r][o[1]]))
        p2 = np.minimum(1, np.mean(b[o[2]] >= t[r][o[2]]))
        EQ("P16,P07:first hypothesis", allp[o[0], r], p0)
        EQ("P16,P07:second hypothesis", allp[o[1], r], np.maximum(p1, p0))
        EQ("P16,P07:third hypothesis", allp[o[2], r], np.maximum(p2, np.maximum(p1, p0)))
    for j in range(3):
        EQ("P16:aggregated p", df.iloc[j, 1], np.median(allp[j, :]))
        EQ("P16:reported parameter", df.iloc[j, 0], f.thetas[j])
""")
driver("fw/romano_negative", FW + """
def driver():
    f = fw("", 3, 2)
    f.bootstrap(n_rep_boot=SCALAR("B", lo=1, integer=True))
    # order of the absolute t statistics: repetition 0: 1 > 2 > 0, repetition 1: 0 > 1 > 2
    orders = [[1, 2, 0], [0, 1, 2]]
    t = [[np.abs(f.all_thetas[j, r] / f.all_ses[j, r]) for j in range(3)] for r in range(2)]
    for r in range(2):
        o = orders[r]
        ASSUME(t[r][o[1]] < t[r][o[0]]); ASSUME(t[r][o[2]] < t[r][o[1]]); ASSUME(t[r][o[2]] < t[r][o[0]])
    # signed statistics in the opposite order: most of them are negative
    g = [[f.all_thetas[j, r] / f.all_ses[j, r] for j in range(3)] for r in range(2)]
    for r in range(2):
        o = orders[r]
        ASSUME(g[r][o[0]] < g[r][o[1]]); ASSUME(g[r][o[1]] < g[r][o[2]]); ASSUME(g[r][o[0]] < g[r][o[2]])
    df, allp = f.p_adjust(method="rw")
    for r in range(2):
        o = orders[r]
        b = [np.abs(f.boot_t_stat[:, j, r]) for j in range(3)]
        p0 = np.minimum(1, np.mean(np.maximum(np.maximum(b[0], b[1]), b[2]) >= t[r][o[0]]))
        p1 = np.minimum(1, np.mean(np.maximum(b[min(o[1], o[2])], b[max(o[1], o[2])]) >= t[r][o[1]]))
        p2 = np.minimum(1, np.mean(b[o[2]] >= t[r][o[2]]))
        EQ("P16,P07:first hypothesis", allp[o[0], r], p0)
        EQ("P16,P07:second hypothesis", allp[o[1], r], np.maximum(p1, p0))
        EQ("P16,P07:third hypothesis", allp[o[2], r], np.maximum(p2, np.maximum(p1, p0)))
    for j in range(3):
        EQ("P16:aggregated p", df.iloc[j, 1], np.median(allp[j, :]))
        EQ("P16:reported parameter", df.iloc[j, 0], f.thetas[j])
""")
SA = """
def bounds(f, j, cfy, cfd, rho, level, R):
    cs = np.abs(rho) * np.sqrt(cfy * cfd / (1 - cfd))
    out = {}
    for side, sg in [("lower", -1), ("upper", 1)]:
        ts = []; ss = []; cs_ = []
        for r in range(R):
            t = f.all_thetas[j, r] + sg * cs * f.sensitivity_elements["max_bias"][0, j, r]
            p = f.scaled_psi[:, j, r] + sg * cs * f.sensitivity_elements["psi_max_bias"][:, j, r]
            s = np.sqrt(np.mean(p ** 2) / n)
            ts.append(t); ss.append(s); cs_.append(t + sg * norm.ppf(level) * s)
        m = np.median(np.array(ts))
        v = np.median(np.array([ss[r] ** 2 + (ts[r] - m) ** 2 / f.var_scaling_factors[j] for r in range(R)]))
        out[side] = (m, np.sqrt(v), np.median(np.array(cs_)))
    return out
"""
driver("fw/sens", FW + SA + """
def driver():
    from scipy.optimize import minimize_scalar
    f = fw("", 2, 3)
    cy = SCALAR("cy", lo=0.0, hi=0.9); cd = SCALAR("cd", lo=0.0, hi=0.9)
    for rho in [1.0, -0.4]:
        f.sensitivity_analysis(cf_y=cy, cf_d=cd, rho=rho, level=0.9)
        p = f.sensitivity_params
        for j in range(2):
            b = bounds(f, j, cy, cd, rho, 0.9, 3)
            for side in ["lower", "upper"]:
                EQ("P18:theta " + side, p["theta"][side][j], b[side][0])
                EQ("P18:se " + side, p["se"][side][j], b[side][1])
                EQ("P18:ci " + side, p["ci"][side][j], b[side][2])
        EQ("P18:input cf_y", p["input"]["cf_y"], cy); EQ("P18:input cf_d", p["input"]["cf_d"], cd)
        EQ("P18:input rho", p["input"]["rho"], rho); EQ("P18:input level", p["input"]["level"], 0.9)
""")
driver("fw/sens_rv", FW + SA + """
def driver():
    from scipy.optimize import minimize_scalar
    f = fw("", 2, 1)
    h0 = MAT("h0", 2)
    ASSUME(h0[0] < f.thetas[0]); ASSUME(f.thetas[1] < h0[1])
    f.sensitivity_analysis(rho=0.7, level=0.9, null_hypothesis=h0)
    p = f.sensitivity_params
    for j, side in [(0, "lower"), (1, "upper")]:
        def obj(v, k):
            return (bounds(f, j, v, v, 0.7, 0.9, 1)[side][k] - h0[j]) ** 2
        EQ("P18:rv", p["rv"][j], minimize_scalar(lambda v: obj(v, 0), bounds=(0, 0.9999), method="bounded").x)
        EQ("P18:rva", p["rva"][j], minimize_scalar(lambda v: obj(v, 2), bounds=(0, 0.9999), method="bounded").x)
        EQ("P18:null hypothesis", p["input"]["null_hypothesis"][j], h0[j])
""")
driver("fw/sens_guards", FW + """
def driver():
    f = fw("", 2, 2); g = fw("", 2, 2, sens=False)
    RAISES("P18,P15:not implemented", lambda: g.sensitivity_analysis(), "NotImplementedError")
    for nm, kw in [("cf_y", {"cf_y": 1.0}), ("cf_d", {"cf_d": 1.0}), ("cf_y negative", {"cf_y": -0.1}), ("cf_d negative", {"cf_d": -0.1}),
                   ("rho", {"rho": 1.1}), ("rho negative", {"rho": -1.1}), ("level", {"level": 1.0}), ("level zero", {"level": 0.0})]:
        RAISES("P18,P15:range of " + nm, lambda: f.sensitivity_analysis(**kw), "ValueError")
    for nm, kw in [("cf_y", {"cf_y": 1}), ("cf_d", {"cf_d": 1}), ("rho", {"rho": 1}), ("level", {"level": 1}), ("null", {"null_hypothesis": 0})]:
        RAISES("P18,P15:type of " + nm, lambda: f.sensitivity_analysis(**kw), "TypeError")
    RAISES("P18,P15:shape of null", lambda: f.sensitivity_analysis(null_hypothesis=MAT("h", 3)), "ValueError")
""")
