"""Data containers: disjoint roles, arrays in step with the column names, rejected assignments leave no trace."""
from . import driver
from .common import fill

HEAD = '''
def frame():
    return DF("y:c y2:b d:b d2:c x1:c x2:c z:b z2:c t:b s:b s2:b u:u v:u")
def state(o):
    return (o.y_col, list(o.d_cols), list(o.x_cols), None if o.z_cols is None else list(o.z_cols), o.t_col, o.s_col)
def consistent(tag, o, df, xs=None, d=None):
    """every served array holds the columns currently named"""
    EQ("P14:y " + tag, o.y, df[o.y_col])
    dn = o.d_cols[0] if d is None else d
    EQ("P14:d " + tag, o.d, df[dn])
    names = list(o.x_cols)
    if o.use_other_treat_as_covariate:
        names = names + [c for c in o.d_cols if c != dn]
    EQ("P14:number of covariates " + tag, o.x.shape[1], len(names))
    for i in range(len(names)):
        EQ("P14:x " + tag, o.x[:, i], df[names[i]])
    if o.z_cols is None:
        HOLDS("P14:z " + tag, o.z is None)
        EQ("P14:n_instr " + tag, o.n_instr, 0)
    else:
        EQ("P14:n_instr " + tag, o.n_instr, len(o.z_cols))
        for i in range(len(o.z_cols)):
            EQ("P14:z " + tag, o.z[:, i], df[o.z_cols[i]])
    if o.t_col is None:
        HOLDS("P14:t " + tag, o.t is None)
    else:
        EQ("P14:t " + tag, o.t, df[o.t_col])
    if o.s_col is None:
        HOLDS("P14:s " + tag, o.s is None)
    else:
        EQ("P14:s " + tag, o.s, df[o.s_col])
    EQ("P14:n_treat " + tag, o.n_treat, len(o.d_cols))
    EQ("P14:n_obs " + tag, o.n_obs, n)
'''
driver("data/init", HEAD + '''
def driver():
    df = frame()
    o = dml.DoubleMLData(df, "y", ["d", "d2"], ["x1", "x2"], ["z", "z2"], "t", "s")
    EQ("P14:roles", state(o), ("y", ["d", "d2"], ["x1", "x2"], ["z", "z2"], "t", "s"))
    consistent("after construction", o, df)
    o.set_x_d("d2")
    consistent("after set_x_d", o, df, d="d2")
    o.use_other_treat_as_covariate = False
    consistent("without other treatments", o, df)
    q = dml.DoubleMLData(df, "y", "d", z_cols="z", t_col="t", s_col="s")
    EQ("P14:default covariates exclude every other role", list(q.x_cols), ["y2", "d2", "x1", "x2", "z2", "s2", "u", "v"])
    consistent("default covariates", q, df)
    p = dml.DoubleMLData(df, "y", "d", "x1")
    consistent("single covariate", p, df)
    HOLDS("P14:binary treatment recognised", p.binary_treats["d"])
    HOLDS("P14:continuous outcome recognised", not p.binary_outcome)
    b = dml.DoubleMLData(df, "y2", "d2", "x1")
    HOLDS("P14:binary outcome recognised", b.binary_outcome)
    HOLDS("P14:continuous treatment recognised", not b.binary_treats["d2"])
''')

BADNEW = [
    ('y is a treatment', '"y", ["y", "d"], ["x1"]'), ('y is a covariate', '"y", "d", ["y", "x1"]'), ('d is a covariate', '"y", "d", ["d", "x1"]'),
    ('y is an instrument', '"y", "d", ["x1"], ["y"]'), ('d is an instrument', '"y", "d", ["x1"], ["d", "z"]'), ('x is an instrument', '"y", "d", ["x1"], ["x1"]'),
    ('t is y', '"y", "d", ["x1"], None, "y"'), ('t is d', '"y", "d", ["x1"], None, "d"'), ('t is x', '"y", "d", ["x1"], None, "x1"'), ('t is z', '"y", "d", ["x1"], ["z"], "z"'),
    ('s is y', '"y", "d", ["x1"], None, None, "y"'), ('s is d', '"y", "d", ["x1"], None, None, "d"'), ('s is x', '"y", "d", ["x1"], None, None, "x1"'),
    ('s is z', '"y", "d", ["x1"], ["z"], None, "z"'), ('s is t', '"y", "d", ["x1"], None, "t", "t"'),
    ('second treatment is a covariate', '"y", ["d", "d2"], ["x1", "d2"]'), ('second instrument is a covariate', '"y", "d", ["x1", "x2"], ["z", "x2"]'),
    ('unknown y', '"q", "d", ["x1"]'), ('unknown d', '"y", "q", ["x1"]'), ('unknown x', '"y", "d", ["x1", "q"]'), ('unknown z', '"y", "d", ["x1"], ["q"]'),
    ('unknown t', '"y", "d", ["x1"], None, "q"'), ('unknown s', '"y", "d", ["x1"], None, None, "q"'),
    ('duplicate d', '"y", ["d", "d"], ["x1"]'), ('duplicate x', '"y", "d", ["x1", "x1"]'), ('duplicate z', '"y", "d", ["x1"], ["z", "z"]'),
    ('y type', '["y"], "d", ["x1"]'), ('d type', '"y", 1, ["x1"]'), ('x type', '"y", "d", ("x1",)'), ('z type', '"y", "d", ["x1"], ("z",)'),
    ('t type', '"y", "d", ["x1"], None, ["t"]'), ('s type', '"y", "d", ["x1"], None, None, ["s"]'),
    ('flag type', '"y", "d", ["x1"], None, None, None, 1'), ('finite flag value', '"y", "d", ["x1"], None, None, None, True, "nan"'),
    ('finite flag type', '"y", "d", ["x1"], None, None, None, True, 1'),
]
driver("data/init_bad", HEAD + "def driver():\n    df = frame()\n" + "".join(
    f'    RAISES("P14,P15:{k}", lambda: dml.DoubleMLData(df, {a}), "ValueError,TypeError")\n' for k, a in BADNEW)
    + '    RAISES("P14,P15:data type", lambda: dml.DoubleMLData(ARR("m", 3), "y", "d"), "TypeError")\n')

BADCL = [('cluster is y', '"y", "d", ["y"], ["x1"]'), ('cluster is d', '"y", "d", ["u", "d"], ["x1"]'), ('cluster is x', '"y", "d", ["x1"], ["x1"]'),
         ('cluster is z', '"y", "d", "z", ["x1"], "z"'), ('cluster is t', '"y", "d", "t", ["x1"], None, "t"'),
         ('cluster is s', '"y", "d", "s", ["x1"], None, None, "s"'), ('cluster unknown', '"y", "d", "q", ["x1"]'),
         ('cluster duplicate', '"y", "d", ["u", "u"], ["x1"]'), ('cluster type', '"y", "d", 5, ["x1"]'),
         ('y is x', '"y", "d", "u", ["y"]'), ('d is x', '"y", "d", "u", ["d"]'), ('s is t', '"y", "d", "u", ["x1"], None, "t", "t"')]
driver("data/cluster_bad", HEAD + "def driver():\n    df = frame()\n" + "".join(
    f'    RAISES("P14,P15:{k}", lambda: dml.DoubleMLClusterData(df, {a}), "ValueError,TypeError")\n' for k, a in BADCL))

driver("data/cluster", HEAD + '''
def driver():
    df = frame()
    o = dml.DoubleMLClusterData(df, "y", "d", ["u", "v"], ["x1", "x2"], "z", "t", "s")
    consistent("clustered", o, df)
    EQ("P14:number of cluster variables", o.n_cluster_vars, 2)
    EQ("P14:cluster variable 1", o.cluster_vars[:, 0], df["u"])
    EQ("P14:cluster variable 2", o.cluster_vars[:, 1], df["v"])
    rest = {"y2", "d2", "x1", "x2", "z2", "s2", "v"}
    for z, t, s in [(None, None, None), ("z", None, None), (None, "t", None), (None, None, "s"), ("z", "t", None), ("z", None, "s"), (None, "t", "s"), ("z", "t", "s")]:
        q = dml.DoubleMLClusterData(df, "y", "d", "u", None, z, t, s)
        want = ["y2", "d2", "x1", "x2"] + ([] if z else ["z"]) + ["z2"] + ([] if t else ["t"]) + ([] if s else ["s"]) + ["s2", "v"]
        EQ("P14:default covariates exclude every other role", list(q.x_cols), want)
        consistent("clustered, default covariates", q, df)
    o.cluster_cols = "v"
    EQ("P14:cluster variables follow the assignment", o.cluster_vars[:, 0], df["v"])
    EQ("P14:number of cluster variables follows", o.n_cluster_vars, 1)
''')

OK = [('y_col', '"y2"'), ('d_cols', '"d2"'), ('d_cols', '["d2", "d"]'), ('d_cols', '["d"]'), ('x_cols', '["x2"]'), ('x_cols', '"x1"'), ('x_cols', 'None'),
      ('z_cols', 'None'), ('z_cols', '["z2"]'), ('z_cols', '["z", "z2"]'), ('t_col', 'None'), ('s_col', '"s2"'), ('s_col', 'None'),
      ('use_other_treat_as_covariate', 'False'), ('force_all_x_finite', '"allow-nan"'), ('force_all_x_finite', 'False')]
TEST = '''
    o = dml.{cls}(df, "y", "d", {cl}["x1", "x2"], "z", "t", "s")
    o.{attr} = {val}
    consistent("after {attr} = {lab}", o, df)
    EQ("P14:binary outcome after {attr} = {lab}", o.binary_outcome, o.y_col == "y2")
    EQ("P14:binary treatment after {attr} = {lab}", o.binary_treats[o.d_cols[0]], o.d_cols[0] == "d")
'''
for cls, cl, nm in (("DoubleMLData", "", "set"), ("DoubleMLClusterData", '"u", ', "cluster_set")):
    driver("data/" + nm, HEAD + "def driver():\n    df = frame()\n" + "".join(
        fill(TEST, cls=cls, cl=cl, attr=a, val=v, lab=v.replace('"', "")) for a, v in OK))

BADSET = [('y_col', '"d"'), ('y_col', '"x1"'), ('y_col', '"z"'), ('y_col', '"t"'), ('y_col', '"s"'), ('y_col', '"q"'), ('y_col', '["y"]'), ('y_col', 'None'),
          ('d_cols', '"y"'), ('d_cols', '["d", "x1"]'), ('d_cols', '"z"'), ('d_cols', '"t"'), ('d_cols', '"s"'), ('d_cols', '["d", "d"]'), ('d_cols', '"q"'),
          ('d_cols', 'None'), ('x_cols', '["x1", "y"]'), ('x_cols', '"d"'), ('x_cols', '["z"]'), ('x_cols', '"t"'), ('x_cols', '"s"'), ('x_cols', '["x1", "x1"]'),
          ('x_cols', '["q"]'), ('x_cols', '3'), ('z_cols', '"y"'), ('z_cols', '"d"'), ('z_cols', '["z", "x1"]'), ('z_cols', '"t"'), ('z_cols', '"s"'),
          ('z_cols', '["z", "z"]'), ('z_cols', '"q"'), ('z_cols', '3'), ('t_col', '"y"'), ('t_col', '"d"'), ('t_col', '"x1"'), ('t_col', '"z"'), ('t_col', '"s"'),
          ('t_col', '"q"'), ('t_col', '["t"]'), ('s_col', '"y"'), ('s_col', '"d"'), ('s_col', '"x1"'), ('s_col', '"z"'), ('s_col', '"t"'), ('s_col', '"q"'),
          ('s_col', '["s"]'), ('use_other_treat_as_covariate', '1'), ('force_all_x_finite', '1'), ('force_all_x_finite', '"nan"')]
BAD = '''
    def bad{i}():
        o = dml.{cls}(df, "y", "d", {cl}["x1", "x2"], "z", "t", "s")
        REJECTED("P14,P15:{attr} = {lab}", lambda: setattr(o, "{attr}", {val}))
        EQ("P14:roles kept after rejected {attr} = {lab}", state(o), ("y", ["d"], ["x1", "x2"], ["z"], "t", "s"))
        consistent("after rejected {attr} = {lab}", o, df)
    bad{i}()
'''
CLEXTRA = [('y_col', '"u"'), ('d_cols', '["d", "u"]'), ('x_cols', '["x1", "u"]'), ('z_cols', '"u"'), ('t_col', '"u"'), ('s_col', '"u"'), ('cluster_cols', '"y"'),
           ('cluster_cols', '["u", "d"]'), ('cluster_cols', '"x1"'), ('cluster_cols', '"z"'), ('cluster_cols', '"t"'), ('cluster_cols', '"s"'),
           ('cluster_cols', '"q"'), ('cluster_cols', '["u", "u"]'), ('cluster_cols', 'None')]
for cls, cl, nm, lst in (("DoubleMLData", "", "set_bad", BADSET), ("DoubleMLClusterData", '"u", ', "cluster_set_bad", CLEXTRA + BADSET)):
    driver("data/" + nm, HEAD + "def driver():\n    df = frame()\n" + "".join(
        fill(BAD, cls=cls, cl=cl, attr=a, val=v, lab=v.replace('"', ""), i=i) for i, (a, v) in enumerate(lst)))

driver("data/set_x_d", HEAD + '''
def driver():
    df = frame()
    o = dml.DoubleMLData(df, "y", ["d", "d2"], ["x1", "x2"])
    RAISES("P14,P15:unknown treatment", lambda: o.set_x_d("q"), "ValueError")
    RAISES("P14,P15:covariate as treatment", lambda: o.set_x_d("x1"), "ValueError")
    RAISES("P14,P15:treatment type", lambda: o.set_x_d(["d"]), "TypeError")
    consistent("after rejected set_x_d", o, df)
    o.set_x_d("d2")
    o.set_x_d("d")
    consistent("after set_x_d back", o, df)
''')
driver("data/aliasing", HEAD + '''
def driver():
    df = frame()
    xs = ["x1", "x2"]; ds = ["d", "d2"]; zs = ["z"]
    o = dml.DoubleMLData(df, "y", USERLIST(ds, "user columns"), USERLIST(xs, "user columns"), USERLIST(zs, "user columns"))
    xs.append("y"); ds.append("q"); zs.append("y")
    EQ("P14:later changes of the caller's lists do not reach the container", state(o), ("y", ["d", "d2"], ["x1", "x2"], ["z"], None, None))
    o.set_x_d("d2")
    consistent("after the caller changed his lists", o, df, d="d2")
''')
