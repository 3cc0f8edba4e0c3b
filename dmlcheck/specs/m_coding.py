"""Binary variables must be coded 0/1: concrete data sets with every other coding are rejected, 0/1 in any storage form is accepted."""
from . import driver
from .common import fill

SRC = '''
B = [0, 1, 0, 1, 1, 0, 1, 0, 1, 0, 1, 0]
B2 = [0, 0, 1, 1, 0, 0, 1, 1, 0, 1, 0, 1]
Y = [0.3, 1.2, -0.4, 2.2, 0.9, -1.1, 3.1, 0.2, 1.7, -0.6, 2.4, 0.7]
X = [1.3, 0.2, 2.4, -2.2, 1.9, -1.3, 0.1, 1.2, 0.7, -0.9, 1.4, 2.7]
def make(d=None, y=None, z=None, t=None, s=None, d2=None):
    cols = {"y": {y0} if y is None else y, "x1": X, "d": B if d is None else d, "z": B2 if z is None else z, "t": B2 if t is None else t,
            "s": B2 if s is None else s, "d2": B2 if d2 is None else d2}
    data = dml.DoubleMLData(pd.DataFrame(cols), y_col="y", d_cols={dc}, x_cols=["x1"]{kw})
    l = LRN("ml_g", "regressor"); m = LRN("ml_m", "classifier"); c = LRN("ml_c", "classifier")
    return {model}
CODINGS = [("1 and 2", [1 + v for v in B]), ("0 and 2", [2 * v for v in B]), ("-1 and 1", [2 * v - 1 for v in B]),
           ("1 and 0.5", [0.5 + 0.5 * v for v in B]),
           ("three levels", [0, 1, 2, 1, 1, 0, 1, 0, 1, 0, 2, 0]), ("continuous", X),
           ("one other value", B[:-1] + [2]), ("one other value first", [0.5] + B[1:])]
def driver():
    make()
    HOLDS("P14,P15:coded 0 and 1", True)
    for v in {vars}:
        for nm, c in CODINGS:
            RAISES("P15,P14:" + v + " coded " + nm, lambda: make(**{v: c}), "ValueError")
        for nm, c in [("floats", [float(q) for q in B]), ("booleans", [q == 1 for q in B])]:
            if v != "d" or nm == "floats":
                ACCEPTS("P15,P14:" + v + " coded 0 and 1 as " + nm, lambda: make(**{v: c}))
'''


def mod(name, model, vars=("d",), kw="", dc='"d"', tier="quick", y0="Y"):
    driver(f"coding/{name}", fill(SRC, model=model, vars=repr(list(vars)), kw=kw, dc=dc, y0=y0), events=False, tier=tier)


N = ", n_folds=2)"
mod("irm", "dml.DoubleMLIRM(data, l, m" + N)
mod("iivm", "dml.DoubleMLIIVM(data, l, m, c" + N, ("d", "z"), ', z_cols="z"')
mod("did", "dml.DoubleMLDID(data, l, m" + N)
mod("didcs", "dml.DoubleMLDIDCS(data, l, m" + N, ("d", "t"), ', t_col="t"')
mod("lpq", "dml.DoubleMLLPQ(data, c, m" + N, ("d", "z"), ', z_cols="z"')
mod("pq", "dml.DoubleMLPQ(data, c, m" + N)
mod("cvar", "dml.DoubleMLCVAR(data, l, m" + N)
mod("qte", "dml.DoubleMLQTE(data, c, m" + N)
mod("plr classifier", "dml.DoubleMLPLR(data, l, m" + N)
mod("plr two treatments", "dml.DoubleMLPLR(data, l, m" + N, ("d", "d2"), dc='["d", "d2"]')
mod("irm binary outcome", "dml.DoubleMLIRM(data, c, m" + N, ("d", "y"), y0="B2")
mod("iivm binary outcome", "dml.DoubleMLIIVM(data, m, m, c" + N, ("d", "z", "y"), ', z_cols="z"', y0="B2")
mod("apo binary outcome", "dml.DoubleMLAPO(data, c, m, treatment_level=1" + N, ("y",), y0="B2")
mod("apos binary outcome", "dml.DoubleMLAPOS(data, c, m, treatment_levels=[0, 1]" + N, ("y",), y0="B2")
mod("did binary outcome", "dml.DoubleMLDID(data, c, m" + N, ("d", "y"), y0="B2")
mod("didcs binary outcome", "dml.DoubleMLDIDCS(data, c, m" + N, ("d", "t", "y"), ', t_col="t"', y0="B2")
mod("ssm binary outcome", "dml.DoubleMLSSM(data, c, m, m" + N, ("y",), ', s_col="s"', y0="B2")

FLAGS = SRC.split("def make")[0] + """
def driver():
    cols = {"y": B, "d": B2, "d2": X, "x1": Y, "y2": [1 + v for v in B], "y3": [v * 1.0 for v in B], "e": [2 * v for v in B]}
    data = dml.DoubleMLData(pd.DataFrame(cols), y_col="y", d_cols=["d", "d2", "e"], x_cols=["x1"])
    HOLDS("P14:outcome flag", data.binary_outcome == True)
    HOLDS("P14:treatment flags", data.binary_treats["d"] == True and data.binary_treats["d2"] == False and data.binary_treats["e"] == False)
    for c, f in [("y2", False), ("y3", True), ("y", True)]:
        data.y_col = c
        HOLDS("P14:outcome flag after the outcome changed", data.binary_outcome == f)
    data.y_col = "y2"
    data.d_cols = ["e", "y3", "y"]
    HOLDS("P14:treatment flags after the treatments changed", data.binary_treats["y3"] == True and data.binary_treats["y"] == True and data.binary_treats["e"] == False)
    data.set_x_d("y3")
    HOLDS("P14:treatment flags with an active treatment", data.binary_treats["y3"] == True and data.binary_treats["y"] == True and data.binary_treats["e"] == False)
"""
driver("coding/flags", FLAGS, events=False)
