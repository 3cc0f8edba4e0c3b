"""Benchmarking against observed covariates: the gain statistics and the shorter model they compare with."""
from . import driver
from .common import fill

GAIN = '''
def gain(yv, s2l, s2s, nul, nus, thl, ths):
    """documented gain statistics of one treatment in one repetition"""
    cy = np.clip((s2s - s2l) / s2l, 0, 1)
    cd = np.clip((nul - nus) / nus, 0, 1)
    delta = ths - thl
    vg = s2s - s2l; va = nul - nus
    den = np.where((vg > 0) & (va > 0), np.sqrt(vg * va), 0)
    rho = np.clip(np.where(den != 0, np.abs(delta) / den, 1), 0, 1) * np.sign(delta)
    return cy, cd, rho, delta
'''
for T, R in ((1, 1), (2, 1), (1, 3), (2, 2)):
    driver(f"bench/gain T{T} R{R}", GAIN + fill('''
class Box:
    pass
def box(tag, y):
    o = Box()
    o.framework = Box()
    o.framework.sensitivity_elements = {"sigma2": MAT("s2" + tag, 1, {T}, {R}, lo=0.0, real=True), "nu2": MAT("nu" + tag, 1, {T}, {R}, lo=0.0, real=True)}
    o.all_coef = MAT("th" + tag, {T}, {R}, real=True)
    o._dml_data = Box()
    o._dml_data.y = y
    return o
def driver():
    y = ARR("y")
    ASSUME(np.var(y) > 0)
    l = box("l", y); s = box("s", y)
    e = l.framework.sensitivity_elements; f = s.framework.sensitivity_elements
    for j in range({T}):
        for r in range({R}):
            ASSUME(e["sigma2"][0, j, r] > 0); ASSUME(f["nu2"][0, j, r] > 0); ASSUME(e["nu2"][0, j, r] > 0); ASSUME(f["sigma2"][0, j, r] > 0)
    from doubleml.utils.gain_statistics import gain_statistics
    g = gain_statistics(l, s)
    for j in range({T}):
        cys = []; cds = []; rhos = []; deltas = []
        for r in range({R}):
            cy, cd, rho, delta = gain(y, e["sigma2"][0, j, r], f["sigma2"][0, j, r], e["nu2"][0, j, r], f["nu2"][0, j, r], l.all_coef[j, r], s.all_coef[j, r])
            cys.append(cy); cds.append(cd); rhos.append(rho); deltas.append(delta)
        EQ("P18:cf_y", g["cf_y"][j], np.median(np.array(cys)))
        EQ("P18:cf_d", g["cf_d"][j], np.median(np.array(cds)))
        EQ("P18:rho", g["rho"][j], np.median(np.array(rhos)))
        EQ("P18:delta_theta", g["delta_theta"][j], np.median(np.array(deltas)))
''', T=T, R=R))

BAD = (("sigma2 missing", 'e.pop("sigma2")', "ValueError"), ("nu2 missing", 'e.pop("nu2")', "ValueError"),
       ("list elements", 'e["nu2"] = [1.0]', "TypeError"), ("sigma2 list", 'e["sigma2"] = [1.0]', "TypeError"),
       ("two dimensions", 'e["nu2"] = MAT("q", 1, 2)', "ValueError"), ("leading dimension", 'e["sigma2"] = MAT("q", 2, 2, 2)', "ValueError"),
       ("other shape", 'e["sigma2"] = MAT("q", 1, 2, 3)', "ValueError"), ("no dict", 'b.framework.sensitivity_elements = [1]', "TypeError"),
       ("none", 'b.framework.sensitivity_elements = None', "TypeError"), ("coef list", 'b.all_coef = [[1.0]]', "TypeError"),
       ("coef shape", 'b.all_coef = MAT("q", 2, 3)', "ValueError"))
for which in ("long", "short"):
    driver(f"bench/gain arguments {which}", """
class Box:
    pass
def box(tag, y):
    o = Box()
    o.framework = Box()
    o.framework.sensitivity_elements = {"sigma2": MAT("s2" + tag, 1, 2, 2, lo=0.0), "nu2": MAT("nu" + tag, 1, 2, 2, lo=0.0)}
    o.all_coef = MAT("th" + tag, 2, 2)
    o._dml_data = Box()
    o._dml_data.y = y
    return o
def driver():
    from doubleml.utils.gain_statistics import gain_statistics
    y = ARR("y")
""" + "".join(f"""
    l = box("l{i}", y); s = box("s{i}", y)
    b = {'l' if which == 'long' else 's'}
    e = b.framework.sensitivity_elements
    {stmt}
    RAISES("P15,P18:{lab}", lambda: gain_statistics(l, s), "{exc}")
""" for i, (lab, stmt, exc) in enumerate(BAD)))

BENCH = GAIN + '''
def check(o, q, ydata, g, names, R):
    e = o.framework.sensitivity_elements; f = q.framework.sensitivity_elements
    HOLDS("P18:rows of the benchmark", list(g.index) == list(names))
    for j in range(len(names)):
        cys = []; cds = []; rhos = []; deltas = []
        for r in range(R):
            cy, cd, rho, delta = gain(ydata, e["sigma2"][0, j, r], f["sigma2"][0, j, r], e["nu2"][0, j, r], f["nu2"][0, j, r], o.all_coef[j, r], q.all_coef[j, r])
            cys.append(cy); cds.append(cd); rhos.append(rho); deltas.append(delta)
        EQ("P18,P07:benchmark cf_y", g["cf_y"].iloc[j], np.median(np.array(cys)))
        EQ("P18,P07:benchmark cf_d", g["cf_d"].iloc[j], np.median(np.array(cds)))
        EQ("P18,P07:benchmark rho", g["rho"].iloc[j], np.median(np.array(rhos)))
        EQ("P18,P07:benchmark delta_theta", g["delta_theta"].iloc[j], np.median(np.array(deltas)))
def driver():
    df = DF("y:{yk} d:{dk} d2:{dk} x1:c x2:c x3:c t:b k:i")
    W = ARR("W", lo=0.0)
    D = {dcols}
    def data(xs):
        return {data}
    l = LRN("l", "{gk}"); m = LRN("m", "{mk}")
    def model(dd, draw=True):
        return {model}
    long = data(["x1", "x2", "x3"])
    o = model(long)
    {setup}
    o.fit()
    coefs = [o.all_coef[j, r] for j in range({T}) for r in range({R})]
    nus = [o.framework.sensitivity_elements["nu2"][0, j, r] for j in range({T}) for r in range({R})]
    {fitargs}
    g = o.sensitivity_benchmark({bset}{fa})
    HOLDS("P18,P13,P09:the model keeps its covariates", list(long.x_cols) == ["x1", "x2", "x3"])
    EQ("P18,P13,P09:the model keeps its covariate array", long.x[:, 0], df["x1"])
    for i in range({T} * {R}):
        EQ("P18,P13:the model keeps its estimates", [o.all_coef[j, r] for j in range({T}) for r in range({R})][i], coefs[i])
        EQ("P18,P13:the model keeps its moments", [o.framework.sensitivity_elements["nu2"][0, j, r] for j in range({T}) for r in range({R})][i], nus[i])
    q = model(data([x for x in ["x1", "x2", "x3"] if x not in {bset}]), False)
    q.set_sample_splitting(o.smpls)
    {qsetup}
    q.fit({fq})
    check(o, q, long.y, g, {names}, {R})
'''


def bench(name, yk="c", dk="c", gk="regressor", mk="regressor", dcols='["d"]', data='dml.DoubleMLData(df, "y", D, xs)', model="", R=2,
          setup="pass", qsetup="pass", bset='["x1"]', fa="", fq="", fitargs="pass", names="D", T=1, tier="quick"):
    driver("bench/" + name, fill(BENCH, yk=yk, dk=dk, gk=gk, mk=mk, dcols=dcols, data=data, model=model, R=R, setup=setup, qsetup=qsetup,
                                 bset=bset, fa=fa, fq=fq, fitargs=fitargs, names=names, T=T), tier=tier)


PLR = "dml.DoubleMLPLR(dd, l, m, n_folds=2, n_rep={R}, draw_sample_splitting=draw{o})"
IRM = "dml.DoubleMLIRM(dd, l, m, n_folds=2, n_rep={R}, draw_sample_splitting=draw{o})"


def mod(t, R, o=""):
    return t.replace("{R}", str(R)).replace("{o}", o)


bench("plr", model=mod(PLR, 2), R=2)
bench("plr two covariates", model=mod(PLR, 1), R=1, bset='["x3", "x1"]')
bench("plr two treatments", model=mod(PLR, 1), R=1, dcols='["d", "d2"]', T=2)
bench("plr iv-type", model='dml.DoubleMLPLR(dd, l, m, l, score="IV-type", n_folds=2, n_rep=1, draw_sample_splitting=draw)', R=1, bset='["x2"]')
bench("plr parameters", model=mod(PLR, 1), R=1, setup='o.set_ml_nuisance_params("ml_l", "d", {"alpha": 2})',
      qsetup='q.set_ml_nuisance_params("ml_l", "d", {"alpha": 2})')
bench("plr fit_args", model=mod(PLR, 2), R=2, fitargs='E = {"d": {"ml_m": ARR("e", 2)}}', fa=", fit_args={'external_predictions': E}",
      fq="external_predictions=E")
bench("plr resplit", model=mod(PLR, 2), R=2, setup='o.set_sample_splitting(SPLITS("s", 3, 2))')
bench("irm", model=mod(IRM, 2), R=2, dk="b", mk="classifier")
bench("irm options", model=mod(IRM, 1, ', score="ATTE", trimming_threshold=0.1, normalize_ipw=True'), R=1, dk="b", mk="classifier", bset='["x2"]')
bench("irm weights", model=mod(IRM, 1, ", weights=W"), R=1, dk="b", mk="classifier")
bench("apo", model="dml.DoubleMLAPO(dd, l, m, treatment_level=1, n_folds=2, n_rep=1, draw_sample_splitting=draw)", R=1, dk="l3", mk="classifier")
bench("did", model="dml.DoubleMLDID(dd, l, m, n_folds=2, n_rep=1, draw_sample_splitting=draw)", R=1, dk="b", mk="classifier")
bench("did cs", model="dml.DoubleMLDIDCS(dd, l, m, n_folds=2, n_rep=1, draw_sample_splitting=draw)", R=1, dk="b", mk="classifier",
      data='dml.DoubleMLData(df, "y", D, xs, t_col="t")')
APOS = "dml.DoubleMLAPOS(dd, l, m, treatment_levels=[2, 0], n_folds=2, n_rep={R}, draw_sample_splitting=draw)"
bench("apos", model=mod(APOS, 2), R=2, dk="l3", mk="classifier", names="[2, 0]", T=2)
bench("apos fit_args", model=mod(APOS, 1), R=1, dk="l3", mk="classifier", names="[2, 0]", T=2, bset='["x2", "x3"]',
      fitargs='E = {2: {"ml_m": ARR("e", 1)}}', fa=", fit_args={'external_predictions': E}", fq="external_predictions=E")
