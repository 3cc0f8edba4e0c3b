"""default sample splits of every model: partitions by (repeated) K-fold, stratified by the documented grouping"""
from . import driver
from .common import fill

SRC = '''
def driver():
    df = DF("{cols}")
    data = dml.DoubleMLData(df, "y", "d", "x1"{extra})
    o = dml.{cls}({call})
    HOLDS("P12:number of repetitions", len(o.smpls) == 2)
    for r in range(2):
        HOLDS("P12:number of folds", len(o.smpls[r]) == 3)
        PARTITION("P12:test sets partition the observations", [te for _, te in o.smpls[r]])
        for tr, te in o.smpls[r]:
            NOOVERLAP("P12:training and test sets are disjoint", tr, te)
        {strat}
    DISTINCT("P12:repetitions are drawn separately", o.smpls[0][0][1], o.smpls[1][0][1])
    old = o.smpls[0][0][1]
    o.draw_sample_splitting()
    DISTINCT("P12:redrawn", old, o.smpls[0][0][1])
    for r in range(2):
        PARTITION("P12:redrawn test sets partition the observations", [te for _, te in o.smpls[r]])
        {strat}
'''
R, C = 'LRN("{}", "regressor")', 'LRN("{}", "classifier")'
r = lambda *a: ", ".join(R.format(x) for x in a)
c = lambda *a: ", ".join(C.format(x) for x in a)
K = ", n_folds=3, n_rep=2"
B = "y:c d:b x1:c"
ONE = '[(df["d"], [0, 1])]'
TWO = '[(df["d"], [0, 1]), (df["{}"], [0, 1])]'
L3 = '[(df["d"], [0, 1, 2])]'
CASES = [
    ("plr", "DoubleMLPLR", "y:c d:c x1:c", "", "data, " + r("ml_l", "ml_m") + K, None),
    ("pliv", "DoubleMLPLIV", "y:c d:c x1:c z:c", ', z_cols="z"', "data, " + r("ml_l", "ml_m", "ml_r") + K, None),
    ("irm", "DoubleMLIRM", B, "", "data, " + r("ml_g") + ", " + c("ml_m") + K, ONE),
    ("iivm", "DoubleMLIIVM", B + " z:b", ', z_cols="z"', "data, " + r("ml_g") + ", " + c("ml_m", "ml_r") + K, TWO.format("z")),
    ("apo", "DoubleMLAPO", "y:c d:l3 x1:c", "", "data, " + r("ml_g") + ", " + c("ml_m") + ", treatment_level=1" + K, L3),
    ("apos", "DoubleMLAPOS", "y:c d:l3 x1:c", "", "data, " + r("ml_g") + ", " + c("ml_m") + ", treatment_levels=[0, 2]" + K, L3),
    ("pq", "DoubleMLPQ", B, "", "data, " + c("ml_g", "ml_m") + ", treatment=1, quantile=0.4" + K, ONE),
    ("lpq", "DoubleMLLPQ", B + " z:b", ', z_cols="z"', "data, " + c("ml_g", "ml_m") + ", treatment=1, quantile=0.4" + K, TWO.format("z")),
    ("cvar", "DoubleMLCVAR", B, "", "data, " + r("ml_g") + ", " + c("ml_m") + ", treatment=1, quantile=0.4" + K, ONE),
    ("qte", "DoubleMLQTE", B, "", "data, " + c("ml_g", "ml_m") + ", quantiles=[0.4, 0.6]" + K, ONE),
    ("qte_cvar", "DoubleMLQTE", B, "", "data, " + r("ml_g") + ", " + c("ml_m") + ", score='CVaR', quantiles=[0.4, 0.6]" + K, ONE),
    ("qte_lpq", "DoubleMLQTE", B + " z:b", ', z_cols="z"', "data, " + c("ml_g", "ml_m") + ", score='LPQ', quantiles=[0.4]" + K, "LPQ"),
    ("did", "DoubleMLDID", B, "", "data, " + r("ml_g") + ", " + c("ml_m") + K, ONE),
    ("did_exp", "DoubleMLDID", B, "", "data, " + r("ml_g") + ", score='experimental'" + K, ONE),
    ("didcs", "DoubleMLDIDCS", B + " t:b", ', t_col="t"', "data, " + r("ml_g") + ", " + c("ml_m") + K, TWO.format("t")),
    ("didcs_exp", "DoubleMLDIDCS", B + " t:b", ', t_col="t"', "data, " + r("ml_g") + ", score='experimental'" + K, TWO.format("t")),
    ("ssm", "DoubleMLSSM", B + " s:b", ', s_col="s"', "data, " + r("ml_g") + ", " + c("ml_pi", "ml_m") + K, TWO.format("s")),
    ("ssm_ni", "DoubleMLSSM", B + " s:b z:c", ', z_cols="z", s_col="s"',
     "data, " + r("ml_g") + ", " + c("ml_pi", "ml_m") + ", score='nonignorable'" + K, TWO.format("s")),
]
for nm, cls, cols, ex, call, cells in CASES:
    st = "pass" if cells is None else f'STRATIFIED("P12:stratified by the model\'s grouping", o.smpls[r], {cells})'
    if cells == "LPQ":
        st = "pass"
    driver("splits/" + nm, fill(SRC, cols=cols, extra=ex, cls=cls, call=call, strat=st))
