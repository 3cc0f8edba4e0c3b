"""Boundaries of argument ranges and data requirements, on both sides."""
from . import driver
from .common import fill
from .m_coding import SRC as CODING

HEAD = CODING.split("def make")[0]

TRIM = HEAD + '''
def make(thr, rule="truncate"):
    df = pd.DataFrame({"y": Y, "x1": X, "d": B, "z": B2, "t": B2, "s": B2})
    data = dml.DoubleMLData(df, y_col="y", d_cols="d", x_cols=["x1"]{kw})
    l = LRN("ml_g", "regressor"); m = LRN("ml_m", "classifier"); c = LRN("ml_c", "classifier")
    return {model}
def driver():
    for v in [0.0, -0.01, 0.5, 0.51, 1.0]:
        RAISES("P15,P03:trimming threshold outside (0, 0.5)", lambda: make(v), "ValueError")
    for v in [0.001, 0.4999, 0.25]:
        ACCEPTS("P15,P03:trimming threshold inside (0, 0.5)", lambda: make(v))
        HOLDS("P03:threshold kept", make(v).trimming_threshold == v)
    for v in [1, "0.1", None, [0.1]]:
        RAISES("P15,P03:trimming threshold is no float", lambda: make(v), "TypeError")
    RAISES("P15,P03:unknown trimming rule", lambda: make(0.01, "discard"), "ValueError")
    HOLDS("P03:rule kept", make(0.01).trimming_rule == "truncate")
'''
T = ", n_folds=2, trimming_rule=rule, trimming_threshold=thr)"
for nm, model, kw in [
        ("irm", "dml.DoubleMLIRM(data, l, m" + T, ""), ("iivm", "dml.DoubleMLIIVM(data, l, m, c" + T, ', z_cols="z"'),
        ("did", "dml.DoubleMLDID(data, l, m" + T, ""), ("didcs", "dml.DoubleMLDIDCS(data, l, m" + T, ', t_col="t"'),
        ("ssm", "dml.DoubleMLSSM(data, l, c, m" + T, ', s_col="s"'), ("apo", "dml.DoubleMLAPO(data, l, m, treatment_level=1" + T, ""),
        ("apos", "dml.DoubleMLAPOS(data, l, m, treatment_levels=[0, 1]" + T, ""), ("pq", "dml.DoubleMLPQ(data, c, m" + T, ""),
        ("lpq", "dml.DoubleMLLPQ(data, c, m" + T, ', z_cols="z"'), ("cvar", "dml.DoubleMLCVAR(data, l, m" + T, ""),
        ("qte", "dml.DoubleMLQTE(data, c, m" + T, "")]:
    driver("limits/trimming " + nm, fill(TRIM, model=model, kw=kw), events=False)

QUANT = HEAD + '''
def make(**kw):
    df = pd.DataFrame({"y": Y, "x1": X, "d": B, "z": B2})
    data = dml.DoubleMLData(df, y_col="y", d_cols="d", x_cols=["x1"]{kw})
    l = LRN("ml_g", "regressor"); m = LRN("ml_m", "classifier"); c = LRN("ml_c", "classifier")
    return {model}
def driver():
    for v in [0.0, 1.0, -0.1, 1.1]:
        RAISES("P15:quantile outside (0, 1)", lambda: make(quantile=v), "ValueError")
    for v in [1, "0.5", None]:
        RAISES("P15:quantile is no float", lambda: make(quantile=v), "TypeError")
    for v in [0.001, 0.5, 0.999]:
        ACCEPTS("P15:quantile inside (0, 1)", lambda: make(quantile=v))
    for v in [2, -1, 0.5]:
        RAISES("P15:treatment level not 0 or 1", lambda: make(treatment=v), {texc})
    for v in [0, 1]:
        ACCEPTS("P15:treatment level", lambda: make(treatment=v))
    RAISES("P15:normalize_ipw no bool", lambda: make(normalize_ipw=1), "TypeError")
'''
for nm, model, kw in [("pq", "dml.DoubleMLPQ(data, c, m, n_folds=2, **kw)", ""), ("lpq", "dml.DoubleMLLPQ(data, c, m, n_folds=2, **kw)", ', z_cols="z"'),
                      ("cvar", "dml.DoubleMLCVAR(data, l, m, n_folds=2, **kw)", "")]:
    driver("limits/quantile " + nm, fill(QUANT, model=model, kw=kw, texc='"TypeError" if v == 0.5 else "ValueError"'), events=False)

driver("limits/treated observations", '''
def make(lv, frac):
    k = 4 if frac == 0 else 5
    d = [2] * k + [0] * 8 + [1] * 8
    df = pd.DataFrame({"y": [0.1 * i for i in range(len(d))], "x1": [0.3 * i for i in range(len(d))], "d": d})
    data = dml.DoubleMLData(df, y_col="y", d_cols="d", x_cols=["x1"])
    return dml.DoubleMLAPO(data, LRN("ml_g", "regressor"), LRN("ml_m", "classifier"), treatment_level=lv, n_folds=2)
def driver():
    RAISES("P15,P22:fewer than five observations with the level", lambda: make(2, 0), "ValueError")
    ACCEPTS("P15,P22:five observations with the level", lambda: make(2, 1))
    for v in [0, 1]:
        ACCEPTS("P15,P22:other levels are not affected", lambda: make(v, 0))
    RAISES("P15,P22:level that does not occur", lambda: make(3, 1), "ValueError")
    RAISES("P15,P22:level that does not occur", lambda: make(1.5, 1), "ValueError")
''', events=False)

driver("limits/data container type", HEAD + '''
def driver():
    df = pd.DataFrame({"y": Y, "x1": X, "d": B, "z": B2, "t": B2, "s": B2})
    l = LRN("ml_g", "regressor"); m = LRN("ml_m", "classifier"); c = LRN("ml_c", "classifier")
    for data in [df, {"y": Y}, None, np.array(Y)]:
        for f in [lambda: dml.DoubleMLPLR(data, l, l), lambda: dml.DoubleMLPLIV(data, l, l, l), lambda: dml.DoubleMLIRM(data, l, m),
                  lambda: dml.DoubleMLIIVM(data, l, m, c), lambda: dml.DoubleMLDID(data, l, m), lambda: dml.DoubleMLDIDCS(data, l, m),
                  lambda: dml.DoubleMLSSM(data, l, c, m), lambda: dml.DoubleMLPQ(data, c, m), lambda: dml.DoubleMLLPQ(data, c, m),
                  lambda: dml.DoubleMLCVAR(data, l, m), lambda: dml.DoubleMLQTE(data, c, m), lambda: dml.DoubleMLAPO(data, l, m, treatment_level=1),
                  lambda: dml.DoubleMLAPOS(data, l, m, treatment_levels=[0, 1])]:
            RAISES("P15:no data container", f, "TypeError")
    dz = dml.DoubleMLData(df, y_col="y", d_cols="d", x_cols=["x1"], z_cols="z")
    for f in [lambda: dml.DoubleMLPLR(dz, l, l), lambda: dml.DoubleMLIRM(dz, l, m), lambda: dml.DoubleMLDID(dz, l, m), lambda: dml.DoubleMLPQ(dz, c, m),
              lambda: dml.DoubleMLCVAR(dz, l, m), lambda: dml.DoubleMLAPO(dz, l, m, treatment_level=1), lambda: dml.DoubleMLAPOS(dz, l, m, treatment_levels=[0, 1])]:
        RAISES("P15,P14:instrument for a model without instruments", f, "ValueError")
    d0 = dml.DoubleMLData(df, y_col="y", d_cols="d", x_cols=["x1"])
    for f in [lambda: dml.DoubleMLPLIV(d0, l, l, l), lambda: dml.DoubleMLIIVM(d0, l, m, c), lambda: dml.DoubleMLLPQ(d0, c, m)]:
        RAISES("P15,P14:instrument missing", f, "ValueError")
    RAISES("P15,P14:instrument missing for nonignorable selection", lambda: dml.DoubleMLSSM(dml.DoubleMLData(df, y_col="y", d_cols="d", x_cols=["x1"], s_col="s"), l, c, m, score="nonignorable"), "ValueError")
    d2 = dml.DoubleMLData(df, y_col="y", d_cols="d", x_cols=["x1"], z_cols=["z", "t"])
    for f in [lambda: dml.DoubleMLIIVM(d2, l, m, c), lambda: dml.DoubleMLLPQ(d2, c, m)]:
        RAISES("P15,P14:two instruments", f, "ValueError")
    two = dml.DoubleMLData(df, y_col="y", d_cols=["d", "t"], x_cols=["x1"])
    for f in [lambda: dml.DoubleMLIRM(two, l, m), lambda: dml.DoubleMLDID(two, l, m), lambda: dml.DoubleMLPQ(two, c, m), lambda: dml.DoubleMLCVAR(two, l, m),
              lambda: dml.DoubleMLQTE(two, c, m), lambda: dml.DoubleMLAPO(two, l, m, treatment_level=1)]:
        RAISES("P15,P14:two treatments", f, "ValueError")
''', events=False)

driver("limits/weights", HEAD + '''
def make(w, score="ATE"):
    df = pd.DataFrame({"y": Y, "x1": X, "d": B})
    data = dml.DoubleMLData(df, y_col="y", d_cols="d", x_cols=["x1"])
    return dml.DoubleMLIRM(data, LRN("ml_g", "regressor"), LRN("ml_m", "classifier"), score=score, weights=w, n_folds=2)
def driver():
    one = np.array([0.0] * 11 + [2.0])
    ACCEPTS("P15:weights of zero besides positive ones", lambda: make(one))
    RAISES("P15:all weights zero", lambda: make(np.zeros(12)), "ValueError")
    RAISES("P15:negative weight", lambda: make(np.array([1.0] * 11 + [-0.1])), "ValueError")
    RAISES("P15:weights of the wrong length", lambda: make(np.ones(11)), "ValueError")
    RAISES("P15:weights with two columns", lambda: make(np.ones((12, 1))), "ValueError")
    RAISES("P15:weights as a list", lambda: make([1.0] * 12), "TypeError")
    RAISES("P15:weights not indicators for ATTE", lambda: make(np.array([1.0] * 11 + [0.5]), "ATTE"), "ValueError")
    ACCEPTS("P15:weights indicators for ATTE", lambda: make(np.array([1.0] * 11 + [0.0]), "ATTE"))
    good = {"weights": np.ones(12), "weights_bar": np.ones((12, 1))}
    ACCEPTS("P15:weights and conditional weights", lambda: make(good))
    RAISES("P15:weights dictionary for ATTE", lambda: make(good, "ATTE"), "TypeError")
    RAISES("P15:conditional weights missing", lambda: make({"weights": np.ones(12)}), "ValueError")
    RAISES("P15:another key", lambda: make({"weights": np.ones(12), "weights_bar": np.ones((12, 1)), "w": np.ones(12)}), "ValueError")
    RAISES("P15:conditional weights of the wrong number of repetitions", lambda: make({"weights": np.ones(12), "weights_bar": np.ones((12, 2))}), "ValueError")
    RAISES("P15:conditional weights of the wrong length", lambda: make({"weights": np.ones(12), "weights_bar": np.ones((11, 1))}), "ValueError")
    RAISES("P15:weights of the wrong length in a dictionary", lambda: make({"weights": np.ones(11), "weights_bar": np.ones((12, 1))}), "ValueError")
    RAISES("P15:negative weight in a dictionary", lambda: make({"weights": np.array([1.0] * 11 + [-0.1]), "weights_bar": np.ones((12, 1))}), "ValueError")
    RAISES("P15:negative conditional weight", lambda: make({"weights": np.ones(12), "weights_bar": -np.ones((12, 1))}), "ValueError")
    RAISES("P15:all weights zero in a dictionary", lambda: make({"weights": np.zeros(12), "weights_bar": np.ones((12, 1))}), "ValueError")
    RAISES("P15:all conditional weights zero", lambda: make({"weights": np.ones(12), "weights_bar": np.zeros((12, 1))}), "ValueError")
''', events=False)

driver("limits/sensitivity elements", '''
def driver():
    R = 1; T = 1
    def make(s2, nu2):
        dd = {"thetas": np.array([0.5]), "ses": np.array([0.1]), "all_thetas": np.array([[0.5]]), "all_ses": np.array([[0.1]]),
              "var_scaling_factors": np.array([3.0]), "scaled_psi": np.array([[[0.1]], [[0.3]], [[-0.4]]]),
              "sensitivity_elements": {"max_bias": np.array([[[0.2]]]), "psi_max_bias": np.array([[[0.1]], [[0.2]], [[0.3]]]),
                                       "sigma2": np.array([[[s2]]]), "nu2": np.array([[[nu2]]])}}
        return dml.DoubleMLFramework(dd)
    for a, b in [(0.0, 1.0), (1.0, 0.0), (0.0, 0.0), (1.0, 1.0)]:
        ACCEPTS("P15,P18:variances that are not negative", lambda: make(a, b))
    for a, b in [(-0.1, 1.0), (1.0, -0.1), (-1.0, -1.0)]:
        RAISES("P15,P18:negative variances", lambda: make(a, b), "ValueError")
''', events=False)
