"""Containers built from arrays, and which missing or infinite values they accept."""
from . import driver
from .common import fill

HEAD = '''
def served(tag, o, y, x, d, others, z, t, s):
    """the container serves the arrays it was built from, each in its own role"""
    EQ("P14:y " + tag, o.y, y)
    EQ("P14:d " + tag, o.d, d)
    want = x + others
    EQ("P14:number of covariates " + tag, o.x.shape[1], len(want))
    for i in range(len(want)):
        EQ("P14:x " + tag, o.x[:, i], want[i])
    if z is None:
        HOLDS("P14:no instrument " + tag, o.z is None)
        EQ("P14:n_instr " + tag, o.n_instr, 0)
    else:
        EQ("P14:n_instr " + tag, o.n_instr, len(z))
        for i in range(len(z)):
            EQ("P14:z " + tag, o.z[:, i], z[i])
            EQ("P14:z column " + tag, o.data[o.z_cols[i]], z[i])
    if t is None:
        HOLDS("P14:no time variable " + tag, o.t is None)
    else:
        EQ("P14:t " + tag, o.t, t)
        EQ("P14:t column " + tag, o.data[o.t_col], t)
    if s is None:
        HOLDS("P14:no selection variable " + tag, o.s is None)
    else:
        EQ("P14:s " + tag, o.s, s)
        EQ("P14:s column " + tag, o.data[o.s_col], s)
    EQ("P14:outcome column " + tag, o.data[o.y_col], y)
    for i in range(len(x)):
        EQ("P14:covariate column " + tag, o.data[o.x_cols[i]], x[i])
    EQ("P14:n_obs " + tag, o.n_obs, n)
'''
# dimensions of x, d, z ('' = none), t?, s?
CASES = [("2 1 2 t", "2", "1", "2", 1, 0), ("2 2 1 s", "2", "2", "1", 0, 1), ("1d 1d none", "0", "0", "", 0, 0),
         ("1 2 1d t s", "1", "2", "0", 1, 1), ("2 1d 2 none", "2", "0", "2", 0, 0)]


def arr(name, k):
    return f'ARR("{name}")' if k == "0" else f'ARR("{name}", {k})'


def cols(name, k):
    return f"[{name}]" if k == "0" else "[" + ", ".join(f"{name}[:, {i}]" for i in range(int(k))) + "]"


for tag, kx, kd, kz, ht, hs in CASES:
    for cl in (0, 1):
        nd = max(int(kd), 1)
        dn = "['d']" if nd == 1 else repr([f"d{i + 1}" for i in range(nd)])
        nz = max(int(kz), 1) if kz else 0
        zn = "None" if not kz else ("['z']" if nz == 1 else repr([f"z{i + 1}" for i in range(nz)]))
        xn = repr([f"X{i + 1}" for i in range(max(int(kx), 1))])
        for kc in (("1", "2") if cl else ("",)):
            driver("arrays/" + ("cluster %s " % kc if cl else "") + tag, HEAD + fill('''
def driver():
    x = {X}
    y = ARR("y")
    d = {D}
    z = {Z}
    t = {T}
    s = {S}
    c = {C}
    o = dml.{CLS}.from_arrays(x, y, d, {CARG} z=z, t=t, s=s)
    EQ("P14:names of the treatments", list(o.d_cols), {DN})
    EQ("P14:names of the covariates", list(o.x_cols), {XN})
    EQ("P14:names of the instruments", o.z_cols, {ZN})
    EQ("P14:names of time and selection", (o.y_col, o.t_col, o.s_col), ("y", {TN}, {SN}))
    ds = {DCOLS}
    served("default", o, y, {XCOLS}, ds[0], ds[1:], {ZCOLS}, t, s)
    if len(ds) == 2:
        o.set_x_d("d2")
        served("second treatment", o, y, {XCOLS}, ds[1], ds[:1], {ZCOLS}, t, s)
        q = dml.{CLS}.from_arrays(x, y, d, {CARG} use_other_treat_as_covariate=False)
        served("other treatment left out", q, y, {XCOLS}, ds[0], [], None, None, None)
    cs = {CCOLS}
    if cs:
        EQ("P14:number of cluster variables", o.n_cluster_vars, len(cs))
        EQ("P14:names of the cluster variables", list(o.cluster_cols), ["cluster_var"] if len(cs) == 1 else ["cluster_var1", "cluster_var2"])
        for i in range(len(cs)):
            EQ("P14,P06:cluster variable", o.cluster_vars[:, i], cs[i])
            EQ("P14,P06:cluster column", o.data[o.cluster_cols[i]], cs[i])
''', X=arr("x", kx), D=arr("d", kd), Z=arr("z", kz) if kz else "None", T='ARR("t")' if ht else "None",
                S='ARR("s")' if hs else "None", C=arr("c", kc) if kc else "None",
                CLS="DoubleMLClusterData" if cl else "DoubleMLData", CARG="c," if cl else "",
                DN=dn, XN=xn, ZN=zn, TN='"t"' if ht else "None", SN='"s"' if hs else "None",
                DCOLS=cols("d", kd), XCOLS=cols("x", kx), ZCOLS=cols("z", kz) if kz else "None",
                CCOLS=cols("c", kc) if kc else "[]"))

driver("arrays/argument types", '''
def driver():
    x, y, d = ARR("x", 2), ARR("y"), ARR("d")
    z, c = ARR("z"), ARR("c")
    bad2, bad3 = ARR("b2", 2), MAT("b3")
    RAISES("P15:two-column outcome", lambda: dml.DoubleMLData.from_arrays(x, bad2, d), "ValueError")
    RAISES("P15:two-column time variable", lambda: dml.DoubleMLData.from_arrays(x, y, d, t=bad2), "ValueError")
    RAISES("P15:two-column selection variable", lambda: dml.DoubleMLData.from_arrays(x, y, d, s=bad2), "ValueError")
    RAISES("P15:option of the wrong type", lambda: dml.DoubleMLData.from_arrays(x, y, d, use_other_treat_as_covariate=1), "TypeError")
    RAISES("P15:finite option of the wrong type", lambda: dml.DoubleMLData.from_arrays(x, y, d, force_all_x_finite=1), "TypeError")
    RAISES("P15:finite option with an invalid value", lambda: dml.DoubleMLData.from_arrays(x, y, d, force_all_x_finite="nan"), "ValueError")
    RAISES("P15:cluster finite option of the wrong type", lambda: dml.DoubleMLClusterData.from_arrays(x, y, d, c, force_all_x_finite=1), "TypeError")
    RAISES("P15:cluster finite option with an invalid value", lambda: dml.DoubleMLClusterData.from_arrays(x, y, d, c, force_all_x_finite="nan"), "ValueError")
    RAISES("P15:cluster two-column outcome", lambda: dml.DoubleMLClusterData.from_arrays(x, bad2, d, c), "ValueError")
    RAISES("P15:cluster two-column time variable", lambda: dml.DoubleMLClusterData.from_arrays(x, y, d, c, t=bad2), "ValueError")
''')

BAD = {"NaN": "miss", "inf": "inf"}
for what, kind in BAD.items():
    driver("arrays/not finite " + what, fill('''
def driver():
    x, y, d, c = ARR("x", 2), ARR("y"), ARR("d"), ARR("c")
    b = ARR("b", kind="{K}")
    bx = ARR("bx", 2, kind="{K}")
    mk = dml.DoubleMLData.from_arrays
    mc = dml.DoubleMLClusterData.from_arrays
    for tag, bad in (("True", True), ("allow-nan", "allow-nan"), ("False", False)):
        RAISES("P14,P15:outcome {W}, " + tag, lambda: mk(x, b, d, force_all_x_finite=bad), "ValueError")
        RAISES("P14,P15:treatment {W}, " + tag, lambda: mk(x, y, b, force_all_x_finite=bad), "ValueError")
        RAISES("P14,P15:instrument {W}, " + tag, lambda: mk(x, y, d, b, force_all_x_finite=bad), "ValueError")
        RAISES("P14,P15:time variable {W}, " + tag, lambda: mk(x, y, d, t=b, force_all_x_finite=bad), "ValueError")
        RAISES("P14,P15:selection variable {W}, " + tag, lambda: mk(x, y, d, s=b, force_all_x_finite=bad), "ValueError")
        RAISES("P14,P15:cluster variable {W}, " + tag, lambda: mc(x, y, d, b, force_all_x_finite=bad), "ValueError")
        RAISES("P14,P15:outcome {W}, clustered, " + tag, lambda: mc(x, b, d, c, force_all_x_finite=bad), "ValueError")
        RAISES("P14,P15:treatment {W}, clustered, " + tag, lambda: mc(x, y, b, c, force_all_x_finite=bad), "ValueError")
        RAISES("P14,P15:instrument {W}, clustered, " + tag, lambda: mc(x, y, d, c, b, force_all_x_finite=bad), "ValueError")
        RAISES("P14,P15:time variable {W}, clustered, " + tag, lambda: mc(x, y, d, c, t=b, force_all_x_finite=bad), "ValueError")
        RAISES("P14,P15:selection variable {W}, clustered, " + tag, lambda: mc(x, y, d, c, s=b, force_all_x_finite=bad), "ValueError")
    for name, f in (("plain", lambda v: mk(bx, y, d, force_all_x_finite=v)), ("clustered", lambda v: mc(bx, y, d, c, force_all_x_finite=v))):
        RAISES("P14,P15:covariates {W}, True, " + name, lambda: f(True), "ValueError")
        o = f(False)
        EQ("P14:covariates {W}, False, " + name, o.x, bx)
        {ALLOWNAN}
''', K=kind, W=what, ALLOWNAN='''
        p = f("allow-nan")
        EQ("P14:covariates NaN, allow-nan, " + name, p.x, bx)
''' if what == "NaN" else '''
        RAISES("P14,P15:covariates inf, allow-nan, " + name, lambda: f("allow-nan"), "ValueError")
'''))
    driver("data/not finite " + what, fill('''
def driver():
    df = DF("y:c d:b x1:c x2:c z:b t:b s:b k:i m:{L} m2:{L}")
    mk = lambda **kw: dml.DoubleMLData(df, **kw)
    mc = lambda **kw: dml.DoubleMLClusterData(df, cluster_cols="k", **kw)
    for name, f in (("plain", mk), ("clustered", mc)):
        for tag, v in (("True", True), ("allow-nan", "allow-nan"), ("False", False)):
            RAISES("P14,P15:outcome {W}, " + tag + name, lambda: f(y_col="m", d_cols="d", x_cols="x1", force_all_x_finite=v), "ValueError")
            RAISES("P14,P15:treatment {W}, " + tag + name, lambda: f(y_col="y", d_cols="m", x_cols="x1", force_all_x_finite=v), "ValueError")
            RAISES("P14,P15:instrument {W}, " + tag + name, lambda: f(y_col="y", d_cols="d", x_cols="x1", z_cols=["z", "m"], force_all_x_finite=v), "ValueError")
            RAISES("P14,P15:time variable {W}, " + tag + name, lambda: f(y_col="y", d_cols="d", x_cols="x1", t_col="m", force_all_x_finite=v), "ValueError")
            RAISES("P14,P15:selection variable {W}, " + tag + name, lambda: f(y_col="y", d_cols="d", x_cols="x1", s_col="m", force_all_x_finite=v), "ValueError")
        RAISES("P14,P15:covariates {W}, True, " + name, lambda: f(y_col="y", d_cols="d", x_cols=["x1", "m"]), "ValueError")
        o = f(y_col="y", d_cols="d", x_cols=["x1", "m"], force_all_x_finite=False)
        EQ("P14:x {W}, False, " + name, o.x[:, 1], df["m"])
        REJECTED("P14,P15:option back to True, " + name, lambda: setattr(o, "force_all_x_finite", True), "ValueError")
        o.force_all_x_finite = False
        EQ("P14:x after the rejected option, " + name, o.x[:, 1], df["m"])
        o.x_cols = ["x1", "m2"]
        EQ("P14:x {W}, other column, " + name, o.x[:, 1], df["m2"])
        o.x_cols = ["x1", "x2"]
        o.force_all_x_finite = True
        HOLDS("P14:accepted option is kept, " + name, o.force_all_x_finite is True)
        REJECTED("P14,P15:covariates {W} assigned, " + name, lambda: setattr(o, "x_cols", ["m", "x1"]), "ValueError")
        EQ("P14:x_cols after the rejected assignment, " + name, list(o.x_cols), ["x1", "x2"])
        EQ("P14:x after the rejected assignment, " + name, o.x[:, 1], df["x2"])
        REJECTED("P14,P15:outcome {W} assigned, " + name, lambda: setattr(o, "y_col", "m"), "ValueError")
        EQ("P14:y after the rejected assignment, " + name, o.y, df["y"])
        REJECTED("P14,P15:treatment {W} assigned, " + name, lambda: setattr(o, "d_cols", ["m"]), "ValueError")
        EQ("P14:d after the rejected assignment, " + name, o.d, df["d"])
        {ALLOWNAN}
    q = mk(y_col="y", d_cols=["d", "m"], x_cols="x1", use_other_treat_as_covariate=False)
    REJECTED("P14,P15:second treatment {W}", lambda: q.set_x_d("m"), "ValueError")
    EQ("P14:treatment after the rejected one", q.d, df["d"])
    q.force_all_x_finite = False
    REJECTED("P14,P15:second treatment {W}, False", lambda: q.set_x_d("m"), "ValueError")
    RAISES("P14,P15:other treatment {W} as covariate", lambda: dml.DoubleMLData(df, "y", ["d", "m"], "x1"), "ValueError")
    RAISES("P14,P15:cluster variable {W}", lambda: dml.DoubleMLClusterData(df, "y", "d", cluster_cols="m", x_cols="x1"), "ValueError")
    r = mc(y_col="y", d_cols="d", x_cols="x1")
    REJECTED("P14,P15:cluster variable {W} assigned", lambda: setattr(r, "cluster_cols", "m"), "ValueError")
    EQ("P14,P06:cluster variable after the rejected one", r.cluster_vars[:, 0], df["k"])
''', L=kind, W=what, ALLOWNAN='''
        p = f(y_col="y", d_cols="d", x_cols=["x1", "m"], force_all_x_finite="allow-nan")
        EQ("P14:x NaN, allow-nan, " + name, p.x[:, 1], df["m"])
''' if what == "NaN" else '''
        RAISES("P14,P15:covariates inf, allow-nan, " + name, lambda: f(y_col="y", d_cols="d", x_cols=["x1", "m"], force_all_x_finite="allow-nan"), "ValueError")
'''))
