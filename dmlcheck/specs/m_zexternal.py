"""External predictions: the programs of the estimation models with some or all nuisance functions supplied by the caller.

The documented score, estimate, standard error and sensitivity elements of a model are the same functions of the nuisance
predictions whether they were estimated or supplied; hence each program is the model's own program in which the provenance
obligation of a supplied function is replaced by `verbatim (after trimming for propensities)`."""
import re

from . import DRIVERS, driver


def external(base, names, reps=2, thr="0.01", suffix="external", replace=()):
    src = next(d["src"] for d in DRIVERS if d["name"] == base)
    for a, b in replace:
        assert a in src, (base, a)
        src = src.replace(a, b)
    make = "E = USERLIST({'d': {" + ", ".join(f'"{k}": ARR("e_{k}", {reps})' for k in names) + "}}, 'user external predictions')"
    m = re.search(r"^( *)o\.fit\((.*)\)$", src, re.M)
    args = (m.group(2) + ", " if m.group(2).strip() else "") + "external_predictions=E"
    src = src.replace(m.group(0), f"{m.group(1)}{make}\n{m.group(1)}o.fit({args})")
    out = []
    seen = set()
    for line in src.split("\n"):
        hit = None
        for k in names:
            if re.match(rf' *PRED\("{k}",', line):
                hit = k
                var = re.match(rf' *PRED\("{k}", *((?:[^,\[\(]|\[[^\]]*\]|\([^)]*\))*),', line).group(1)
                prop = "untrim=True" in line
            elif re.match(rf' *EQ\("[P0-9,]*:{k}", (\w+), ', line):
                hit = k
                g = re.match(rf' *EQ\("[P0-9,]*:{k}", (\w+), (.*)\)$', line)
                var, prop = g.group(1), "trim(" in g.group(2) or "clip(" in g.group(2)
            elif re.match(rf' *EQ\("P03:{k} truncated"', line) or re.match(rf' *EQ\("P02,P19:target {k}"', line):
                hit = k
                var = None
        if hit is None:
            out.append(line)
            continue
        ind = re.match(" *", line).group(0)
        if var is None:
            out.append(ind + "pass")
            continue
        seen.add(hit)
        e = f'E["d"]["{hit}"][:, r]'
        if prop:
            e = f"np.clip({e}, {thr}, 1 - {thr})"
        tags = "P10,P07,P03" if prop else "P10,P07"
        out.append(f'{ind}EQ("{tags}:external {hit}", {var}, {e})')
    assert seen == set(names), (base, set(names) - seen)
    driver(base + "_" + suffix, "\n".join(out))


for sc in ("ate", "atte", "ate_normalized", "atte_normalized", "ate_weights"):
    external("irm/" + sc, ["ml_g0", "ml_g1", "ml_m"])
external("irm/ate_trim", ["ml_m"], thr="0.13", suffix="external_m")
external("irm/ate", ["ml_g0"], suffix="external_g0")
external("irm/ate_classifier", ["ml_m"], suffix="external_m")
external("irm/ate", ["ml_g0", "ml_g1"], suffix="external_g")
for b in ("level1", "level0", "normalized", "weights"):
    external("apo/" + b, ["ml_g_d_lvl0", "ml_g_d_lvl1", "ml_m"])
external("apo/trim", ["ml_m"], thr="0.13", suffix="external_m")
external("apo/level1", ["ml_g_d_lvl1"], suffix="external_g1")
IV = ["ml_g0", "ml_g1", "ml_m", "ml_r0", "ml_r1"]
external("iivm/late", IV)
external("iivm/late_trim", ["ml_m", "ml_r0"], thr="0.13", suffix="external_m")
external("iivm/no_always", ["ml_g0", "ml_g1", "ml_m", "ml_r1"])
external("iivm/late", ["ml_g0", "ml_r1"], suffix="external_gr")
for b in ("obs", "obs_unnormalized"):
    external("did/" + b, ["ml_g0", "ml_g1", "ml_m"])
external("did/obs_trim", ["ml_m"], thr="0.13", suffix="external_m")
for b in ("exp", "exp_unnormalized"):
    external("did/" + b, ["ml_g0", "ml_g1"])
external("did/exp", ["ml_g1"], suffix="external_g1")
CSN = ["ml_g_d0_t0", "ml_g_d0_t1", "ml_g_d1_t0", "ml_g_d1_t1"]
LOOP = '''        for dd in range(2):
            for tt in range(2):
                nm = "ml_g_d%d_t%d" % (dd, tt)
                gs[(dd, tt)] = o.predictions[nm][:, r, 0]
                PRED(nm, gs[(dd, tt)], g, X, y, s, sub=((d == dd) & (t == tt)), params=pp[nm])
                EQ("P02,P19:target " + nm, o.nuisance_targets[nm][:, r, 0], np.where((d == dd) & (t == tt), y, np.nan))
'''


def unroll(names):
    out = ""
    for d in range(2):
        for t in range(2):
            nm = f"ml_g_d{d}_t{t}"
            out += f'        gs[({d}, {t})] = o.predictions["{nm}"][:, r, 0]\n'
            out += (f'        PRED("{nm}", gs[({d}, {t})], g, X, y, s, sub=((d == {d}) & (t == {t})))\n')
    return [(LOOP, out)]


for b in ("obs", "obs_unnormalized"):
    external("didcs/" + b, CSN + ["ml_m"], replace=unroll(CSN))
external("didcs/obs_trim", ["ml_m", "ml_g_d0_t1"], thr="0.13", suffix="external_m", replace=unroll(CSN))
for b in ("exp", "exp_unnormalized"):
    external("didcs/" + b, CSN, replace=unroll(CSN))
external("plr/po", ["ml_l", "ml_m"])
external("plr/iv", ["ml_l", "ml_m", "ml_g"])
# the outcome learner only serves the preliminary estimate and is not needed when ml_g is supplied
external("plr/iv", ["ml_m", "ml_g"], suffix="external_mg", replace=[
    ('            PRED("ml_l", lr, l, X, y, s, params=pl, method="predict")\n', ""),
    ('            EQ("P02,P19:target ml_l", o.nuisance_targets["ml_l"][:, r, j], y)\n', "")])
external("plr/iv", ["ml_l", "ml_m"], suffix="external_lm")
external("plr/po_classifier", ["ml_m"], suffix="external_m")
external("pliv/po", ["ml_l", "ml_m", "ml_r"])
external("pliv/po", ["ml_r"], suffix="external_r")
external("pliv/iv", ["ml_l", "ml_m", "ml_r", "ml_g"])
external("pliv/iv", ["ml_l", "ml_m", "ml_r"], suffix="external_lmr")
for b in ("reps", "t0", "plain", "kde"):
    external("pq/" + b, ["ml_g", "ml_m"], reps=2 if b == "reps" else 1)
external("pq/reps", ["ml_g"], suffix="external_g")
external("pq/reps", ["ml_m"], suffix="external_m", replace=[("mp = adj(trim(OOF(m, X[h1, :], d[h1], sp, params=FP(pm, kf))), d[h1])",
                                                             'mp = adj(trim(E["d"]["ml_m"][h1, r]), d[h1])')])
external("pq/t0", ["ml_m"], reps=1, suffix="external_m", replace=[("mp = adj(trim(OOF(m, X[h1, :], d[h1], sp, params=FP(pm, kf))), d[h1])",
                                                                   'mp = adj(trim(E["d"]["ml_m"][h1, r]), d[h1])')])
LQ = ["ml_m_z", "ml_m_d_z0", "ml_m_d_z1", "ml_g_du_z0", "ml_g_du_z1"]


def lpq(base, reps, adjust="NORMIPW({}, z)"):
    """all five functions (anything less is rejected, see lpq/external_incomplete)"""
    src = next(d["src"] for d in DRIVERS if d["name"] == base)
    i = src.index("        P = {}\n")
    j = src.index("        e0 = P[")
    k = "        " + "\n        ".join(
        [f'EQ("P10,P07:external {x}", o.predictions["{x}"][:, r, 0], E["d"]["{x}"][:, r])' for x in LQ[1:]] +
        ['EQ("P10,P07:external ml_m_z", UNTRIM(o.predictions["ml_m_z"][:, r, 0]), E["d"]["ml_m_z"][:, r])',
         'P = {k: E["d"][k][:, r] for k in E["d"]}; sgn = 2 * T - 1'.replace("T", re.search(r"treatment=(\d)", src).group(1)),
         'mz = adj(trim(P["ml_m_z"]), z)']) + "\n"
    src = src[:i] + k + src[j:]
    make = "E = USERLIST({'d': {" + ", ".join(f'"{k}": ARR("e_{k}", {reps})' for k in LQ) + "}}, 'user external predictions')"
    src = src.replace("    o.fit()", f"    {make}\n    o.fit(external_predictions=E)")
    driver(base + "_external", src)


for b in ("reps", "t0", "plain", "kde", "trim"):
    lpq("lpq/" + b, 2 if b == "reps" else 1)
driver("lpq/external_incomplete", '''
def driver():
    df = DF("y:c d:b x1:c z:b")
    data = dml.DoubleMLData(df, "y", "d", ["x1"], ["z"])
    o = dml.DoubleMLLPQ(data, LRN("ml_g", "classifier"), LRN("ml_m", "classifier"), treatment=1, quantile=0.4, n_folds=2)
    names = ["ml_m_z", "ml_m_d_z0", "ml_m_d_z1", "ml_g_du_z0", "ml_g_du_z1"]
    for k in names:
        E = {"d": {q: ARR("e_" + q, 1) for q in names if q != k}}
        RAISES("P10,P15:missing " + k, lambda: o.fit(external_predictions=E))
''')
for nm, cols, ex, cls, call in (
        ("cvar", "y:c d:b x1:c", "", "DoubleMLCVAR", 'data, LRN("ml_g", "regressor"), LRN("ml_m", "classifier"), treatment=1, quantile=0.4'),
        ("ssm", "y:c d:b x1:c s:b", ', s_col="s"', "DoubleMLSSM", 'data, LRN("ml_g", "regressor"), LRN("ml_pi", "classifier"), LRN("ml_m", "classifier")')):
    driver(nm + "/external_unsupported", f'''
def driver():
    df = DF("{cols}")
    data = dml.DoubleMLData(df, "y", "d", "x1"{ex})
    o = dml.{cls}({call}, n_folds=2)
    RAISES("P10,P15:external predictions are not supported", lambda: o.fit(external_predictions={{"d": {{"ml_m": ARR("e", 1)}}}}), "NotImplementedError")
''')

# several instruments: any subset of the nuisance functions, in both repetitions
MZ = '''
from sklearn.linear_model import LinearRegression
def driver():
    df = DF("y:c d:c z1:c z2:c x1:c x2:c")
    data = dml.DoubleMLData(df, "y", "d", ["x1", "x2"], ["z1", "z2"])
    l = LRN("ml_l", "regressor"); m = LRN("ml_m", "regressor"); q = LRN("ml_r", "regressor")
    o = dml.DoubleMLPLIV(data, l, m, q, n_folds=3, n_rep=2)
    names = NAMES
    E = USERLIST({"d": {k: ARR("e_" + k, 2) for k in names}}, 'user external predictions')
    o.fit(external_predictions=E)
    y = df["y"]; d = df["d"]; X = XCOLS(df, "x1 x2")
    want = {"ml_l": (l, y), "ml_r": (q, d), "ml_m_z1": (m, df["z1"]), "ml_m_z2": (m, df["z2"])}
    for r in range(2):
        P = {}
        for k in want:
            P[k] = o.predictions[k][:, r, 0]
            if k in names:
                EQ("P10,P07:external " + k, P[k], E["d"][k][:, r])
                P[k] = E["d"][k][:, r]
            else:
                PRED(k, P[k], want[k][0], X, want[k][1], o.smpls[r], method="predict")
        u = y - P["ml_l"]; w = d - P["ml_r"]
        V = np.column_stack((df["z1"] - P["ml_m_z1"], df["z2"] - P["ml_m_z2"]))
        rt = LinearRegression().fit(V, w).predict(V)
        a = -w * rt
        b = rt * u
        EQ("P10,P04,P07:psi_a", o.psi_elements["psi_a"][:, r, 0], a)
        EQ("P10,P04,P07:psi_b", o.psi_elements["psi_b"][:, r, 0], b)
        EQ("P05,P07:coef", o.all_coef[0, r], -np.mean(b) / np.mean(a))
'''
for i, nm in enumerate((["ml_l", "ml_r", "ml_m_z1", "ml_m_z2"], ["ml_m_z1"], ["ml_m_z2"], ["ml_m_z1", "ml_m_z2"], ["ml_l", "ml_m_z2"], ["ml_r"])):
    driver(f"pliv/multi_external_{i}", MZ.replace("NAMES", repr(nm)))
driver("pliv/partialX", next(d["src"] for d in DRIVERS if d["name"] == "pliv/po").replace("dml.DoubleMLPLIV(", "dml.DoubleMLPLIV._partialX("))
