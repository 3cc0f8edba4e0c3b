"""The estimation skeleton shared by all models: aggregation, result framework, options of fit, sample splitting,
external predictions, lifecycle."""
from . import driver
from .common import fill

PLR2 = '''
def setup(R=2, K=3, opts=None, J=2):
    df = DF("y:c d1:c d2:c x1:c x2:c")
    data = dml.DoubleMLData(df, "y", ["d1", "d2"][:J] if J > 1 else "d1", ["x1", "x2"])
    l = LRN("ml_l", "regressor"); m = LRN("ml_m", "regressor")
    o = dml.DoubleMLPLR(data, l, m, n_folds=K, n_rep=R)
    return df, data, l, m, o
def posnu(df, o, J, R):
    for j in range(J):
        for r in range(R):
            v = df["d%d" % (j + 1)] - o.predictions["ml_m"][:, r, j]
            ASSUME(1 / np.mean(v ** 2) > 0)
'''
driver("base/aggregate", PLR2 + '''
def driver():
    R = 3; J = 2
    df, data, l, m, o = setup(R)
    o.fit()
    posnu(df, o, J, R)
    f = o.framework
    HOLDS("P05:framework not clustered", not f._is_cluster_data)
    for j in range(J):
        cs = np.array([o.all_coef[j, r] for r in range(R)])
        med = np.median(cs)
        v = np.median(np.array([o.all_se[j, r] ** 2 + (o.all_coef[j, r] - med) ** 2 / n for r in range(R)]))
        EQ("P05:coef is the median over repetitions", o.coef[j], med)
        EQ("P05:se aggregated over repetitions", o.se[j], np.sqrt(v))
        EQ("P05:t_stat", o.t_stat[j], o.coef[j] / o.se[j])
        EQ("P05:pval", o.pval[j], 2 * norm.cdf(-np.abs(o.coef[j] / o.se[j])))
        EQ("P05,P07:framework thetas", f.thetas[j], o.coef[j])
        EQ("P05,P07:framework ses", f.ses[j], o.se[j])
        EQ("P05:var_scaling_factors", f.var_scaling_factors[j], n)
        for r in range(R):
            EQ("P05,P07:framework all_thetas", f.all_thetas[j, r], o.all_coef[j, r])
            EQ("P05,P07:framework all_ses", f.all_ses[j, r], o.all_se[j, r])
            EQ("P05,P07,P16:framework scaled_psi", f.scaled_psi[:, j, r], o.psi[:, r, j] / np.mean(o.psi_deriv[:, r, j]))
            s2 = o.sensitivity_elements["sigma2"][0, r, j]; nu = o.sensitivity_elements["nu2"][0, r, j]
            p2 = o.sensitivity_elements["psi_sigma2"][:, r, j]; pn = o.sensitivity_elements["psi_nu2"][:, r, j]
            EQ("P18,P07:max_bias", f.sensitivity_elements["max_bias"][0, j, r], np.sqrt(s2 * nu))
            EQ("P18,P07:psi_max_bias", f.sensitivity_elements["psi_max_bias"][:, j, r], (s2 * pn + nu * p2) / (2 * np.sqrt(s2 * nu)))
            EQ("P18,P07:framework sigma2", f.sensitivity_elements["sigma2"][0, j, r], s2)
            EQ("P18,P07:framework nu2", f.sensitivity_elements["nu2"][0, j, r], nu)
''')
driver("base/summary", PLR2 + '''
def driver():
    R = 2; J = 2
    df, data, l, m, o = setup(R)
    HOLDS("P13:summary before fit is empty", o.summary.shape[0] == 0)
    o.fit()
    ASSUME(not np.isnan(o.coef).all())
    s = o.summary
    ci = o.confint()
    c9 = o.confint(level=0.9)
    HOLDS("P05:interval columns", list(ci.columns) == ["2.5 %", "97.5 %"] and list(c9.columns) == ["5.0 %", "95.0 %"])
    HOLDS("P05:interval rows", list(ci.index) == list(s.index))
    for j in range(J):
        EQ("P05:summary coef", s.iloc[j, 0], o.coef[j])
        EQ("P05:summary se", s.iloc[j, 1], o.se[j])
        EQ("P05:summary t", s.iloc[j, 2], o.coef[j] / o.se[j])
        EQ("P05:summary p", s.iloc[j, 3], 2 * norm.cdf(-np.abs(o.coef[j] / o.se[j])))
        for k, q, c in [(0, -1, ci), (1, 1, ci)]:
            want = np.median(np.array([o.all_coef[j, r] + q * norm.ppf(0.975) * o.all_se[j, r] for r in range(R)]))
            EQ("P05:confint", c.iloc[j, k], want)
            EQ("P05:summary interval", s.iloc[j, 4 + k], want)
            w9 = np.median(np.array([o.all_coef[j, r] + q * norm.ppf(0.95) * o.all_se[j, r] for r in range(R)]))
            EQ("P05:confint level", c9.iloc[j, k], w9)
''')

# -------------------------------------------------------------------------------------------- lifecycle guards
driver("base/before_fit", PLR2 + '''
def driver():
    df, data, l, m, o = setup(1)
    RAISES("P13:bootstrap before fit", lambda: o.bootstrap(), "ValueError")
    RAISES("P13:confint before fit", lambda: o.confint(), "ValueError")
    RAISES("P13:p_adjust before fit", lambda: o.p_adjust(), "ValueError")
    RAISES("P13:sensitivity_analysis before fit", lambda: o.sensitivity_analysis(), "ValueError")
    RAISES("P13:sensitivity_summary before fit", lambda: o.sensitivity_summary, "ValueError")
    RAISES("P13:sensitivity_plot before fit", lambda: o.sensitivity_plot(), "ValueError")
    RAISES("P13:evaluate_learners before fit", lambda: o.evaluate_learners(), "ValueError")
    HOLDS("P13:no framework before fit", o.framework is None)
    HOLDS("P13:no predictions before fit", o.predictions is None)
    HOLDS("P13:no bootstrap statistic before fit", o.boot_t_stat is None)
    HOLDS("P13:no sensitivity parameters before fit", o.sensitivity_params is None)
    for j in range(2):
        HOLDS("P13:estimates missing before fit", np.isnan(o.coef[j]))
        HOLDS("P13:standard errors missing before fit", np.isnan(o.se[j]))
    q = dml.DoubleMLPLR(data, l, m, n_folds=3, draw_sample_splitting=False)
    RAISES("P13:fit without sample splitting", lambda: q.fit(), "ValueError,TypeError")
    RAISES("P13:smpls without sample splitting", lambda: q.smpls, "ValueError")
''')
driver("base/after_fit", PLR2 + '''
def driver():
    df, data, l, m, o = setup(1)
    o.fit()
    RAISES("P13:joint interval before bootstrap", lambda: o.confint(joint=True), "ValueError")
    RAISES("P13:romano-wolf before bootstrap", lambda: o.p_adjust(), "ValueError")
    HOLDS("P13:sensitivity_summary before the analysis says so", o.sensitivity_summary.endswith("Apply sensitivity_analysis() to generate sensitivity_summary."))
''')
driver("base/refit", PLR2 + '''
def driver():
    df, data, l, m, o = setup(1)
    o.fit()
    o.bootstrap(n_rep_boot=5)
    o.sensitivity_analysis()
    first = o.framework
    o.draw_sample_splitting()
    o.fit()
    HOLDS("P13:refit drops the bootstrap of the old fit", o.boot_t_stat is None)
    HOLDS("P13:refit drops the sensitivity analysis of the old fit", o.sensitivity_params is None)
    DISTINCT("P13:refit builds a new framework", first, o.framework)
    for j in range(2):
        EQ("P13,P05:estimate of the refit", o.all_coef[j, 0], -np.mean(o.psi_elements["psi_b"][:, 0, j]) / np.mean(o.psi_elements["psi_a"][:, 0, j]))
        PRED("refit ml_l", o.predictions["ml_l"][:, 0, j], l, XCOLS(df, ["x1 x2 d2", "x1 x2 d1"][j]), df["y"], o.smpls[0], props="P01,P13")
    RAISES("P13:joint interval after refit needs a new bootstrap", lambda: o.confint(joint=True), "ValueError")
''')
driver("base/resplit_drops_results", PLR2 + '''
def driver():
    df, data, l, m, o = setup(1)
    o.fit()
    o.bootstrap(n_rep_boot=5)
    o.set_sample_splitting(SPLITS("sp", 2, 2))
    EQ("P13,P12:n_rep follows the new splitting", o.n_rep, 2)
    EQ("P13,P12:n_folds follows the new splitting", o.n_folds, 2)
    HOLDS("P13:estimates dropped", np.isnan(o.coef[0]))
    EQ("P13:all_coef has the new shape", o.all_coef.shape, (2, 2))
    RAISES("P13:confint after a new splitting needs a fit", lambda: o.confint(), "ValueError")
    RAISES("P13:bootstrap after a new splitting needs a fit", lambda: o.bootstrap(n_rep_boot=5), "ValueError")
    HOLDS("P13:bootstrap statistic dropped", o.boot_t_stat is None)
''')
driver("base/store_off_after_on", PLR2 + '''
def driver():
    df, data, l, m, o = setup(1)
    o.fit(store_models=True)
    old = o.predictions
    oldm = o.models
    o.draw_sample_splitting()
    o.fit(store_predictions=False)
    HOLDS("P13:no stale predictions", o.predictions is None)
    HOLDS("P13:no stale targets", o.nuisance_targets is None)
    HOLDS("P13:no stale models", o.models is None)
''')
driver("base/store_off", PLR2 + '''
def driver():
    df, data, l, m, o = setup(1)
    o.fit(store_predictions=False)
    HOLDS("P13,P19:predictions not stored", o.predictions is None)
    HOLDS("P13,P19:targets not stored", o.nuisance_targets is None)
    HOLDS("P13,P19:models not stored", o.models is None)
    RAISES("P13:evaluate_learners needs stored targets", lambda: o.evaluate_learners(), "ValueError")
''')
driver("base/models", PLR2 + '''
def driver():
    df, data, l, m, o = setup(2)
    o.fit(store_models=True)
    for j in range(2):
        X = XCOLS(df, ["x1 x2 d2", "x1 x2 d1"][j]); nm = ["d1", "d2"][j]
        for r in range(2):
            EQ("P19,P07:one model per fold", len(o.models["ml_l"][nm][r]), 3)
            for k in range(3):
                test = o.smpls[r][k][1]
                EQ("P19,P07,P01:stored ml_l model made the prediction", o.models["ml_l"][nm][r][k].predict(X[test, :]), o.predictions["ml_l"][test, r, j])
                EQ("P19,P07,P01:stored ml_m model made the prediction", o.models["ml_m"][nm][r][k].predict(X[test, :]), o.predictions["ml_m"][test, r, j])
''')

# -------------------------------------------------------------------------------------------- argument checks
driver("base/fit_args", PLR2 + '''
def driver():
    df, data, l, m, o = setup(2)
    RAISES("P15:n_jobs_cv type", lambda: o.fit(n_jobs_cv="2"), "TypeError")
    RAISES("P15:store_predictions type", lambda: o.fit(store_predictions=1), "TypeError")
    RAISES("P15:store_models type", lambda: o.fit(store_models=1), "TypeError")
    RAISES("P15,P10:external_predictions type", lambda: o.fit(external_predictions="ml_l"), "TypeError")
    RAISES("P15,P10:external treatment name", lambda: o.fit(external_predictions={"d3": {}}), "ValueError")
    RAISES("P15,P10:external nested type", lambda: o.fit(external_predictions={"d1": ARR("e", 2)}), "TypeError")
    RAISES("P15,P10:external learner name", lambda: o.fit(external_predictions={"d1": {"ml_q": ARR("e", 2)}}), "ValueError")
    RAISES("P15,P10:external value type", lambda: o.fit(external_predictions={"d1": {"ml_l": [1.0]}}), "TypeError")
    RAISES("P15,P10:external value shape", lambda: o.fit(external_predictions={"d1": {"ml_l": ARR("e", 3)}}), "ValueError")
    RAISES("P15,P10:external value dimension", lambda: o.fit(external_predictions={"d1": {"ml_l": ARR("e")}}), "ValueError")
    RAISES("P15,P20:unknown learner in set_ml_nuisance_params", lambda: o.set_ml_nuisance_params("ml_q", "d1", {}), "ValueError")
    RAISES("P15,P20:unknown treatment in set_ml_nuisance_params", lambda: o.set_ml_nuisance_params("ml_l", "d9", {}), "ValueError")
    RAISES("P15,P20:get_params of an unknown learner", lambda: o.get_params("ml_q"), "ValueError")
    o.fit()
    RAISES("P15,P19:unknown learner in evaluate_learners", lambda: o.evaluate_learners(["ml_q"]), "ValueError")
    RAISES("P15,P19:metric not callable", lambda: o.evaluate_learners(metric="rmse"), "TypeError")
    RAISES("P15:benchmark set type", lambda: o.sensitivity_benchmark("x1"), "TypeError")
    RAISES("P15:benchmark set empty", lambda: o.sensitivity_benchmark([]), "ValueError")
    RAISES("P15:benchmark set unknown", lambda: o.sensitivity_benchmark(["x9"]), "ValueError")
    RAISES("P15:benchmark fit_args type", lambda: o.sensitivity_benchmark(["x1"], fit_args=[1]), "TypeError")
''')
driver("base/init_args", PLR2 + '''
def driver():
    df = DF("y:c d:c x1:c x2:c")
    data = dml.DoubleMLData(df, "y", "d", ["x1", "x2"])
    l = LRN("ml_l", "regressor"); m = LRN("ml_m", "regressor")
    RAISES("P15:data type", lambda: dml.DoubleMLPLR(df, l, m), "TypeError")
    RAISES("P15:n_folds type", lambda: dml.DoubleMLPLR(data, l, m, n_folds=1.5), "TypeError")
    RAISES("P15:n_folds zero", lambda: dml.DoubleMLPLR(data, l, m, n_folds=0), "ValueError")
    RAISES("P15:n_folds negative", lambda: dml.DoubleMLPLR(data, l, m, n_folds=-2), "ValueError")
    RAISES("P15,P12:one fold cannot be drawn", lambda: dml.DoubleMLPLR(data, l, m, n_folds=1), "ValueError")
    RAISES("P15:n_rep type", lambda: dml.DoubleMLPLR(data, l, m, n_rep=1.5), "TypeError")
    RAISES("P15:n_rep zero", lambda: dml.DoubleMLPLR(data, l, m, n_rep=0), "ValueError")
    RAISES("P15:draw_sample_splitting type", lambda: dml.DoubleMLPLR(data, l, m, draw_sample_splitting="yes"), "TypeError")
    RAISES("P15:score unknown", lambda: dml.DoubleMLPLR(data, l, m, score="ATE"), "ValueError")
    RAISES("P15:score type", lambda: dml.DoubleMLPLR(data, l, m, score=0), "TypeError")
    RAISES("P15:learner class", lambda: dml.DoubleMLPLR(data, __import__("sklearn").linear_model.LinearRegression, m), "TypeError") if False else None
    RAISES("P15:learner without fit", lambda: dml.DoubleMLPLR(data, LRN("q", "regressor", lacks="fit"), m), "TypeError")
    RAISES("P15:learner without set_params", lambda: dml.DoubleMLPLR(data, LRN("q", "regressor", lacks="set_params"), m), "TypeError")
    RAISES("P15:learner without get_params", lambda: dml.DoubleMLPLR(data, LRN("q", "regressor", lacks="get_params"), m), "TypeError")
    RAISES("P15:learner without predict", lambda: dml.DoubleMLPLR(data, LRN("q", "regressor", lacks="predict"), m), "TypeError")
    RAISES("P15,P25:classifier without predict_proba", lambda: dml.DoubleMLPLR(dml.DoubleMLData(DF("y:c b:b x1:c"), "y", "b", "x1"), l, LRN("q", "classifier", lacks="predict_proba")), "TypeError")
    RAISES("P15,P25:classifier for a continuous treatment", lambda: dml.DoubleMLPLR(data, l, LRN("q", "classifier")), "ValueError")
    ACCEPTS("P15:valid call", lambda: dml.DoubleMLPLR(data, l, m, n_folds=2, n_rep=1, score="partialling out", draw_sample_splitting=True))
''')

# -------------------------------------------------------------------------------------------- sample splitting
driver("base/splits", PLR2 + '''
def driver():
    df, data, l, m, o = setup(3, K=4)
    EQ("P12:number of repetitions", len(o.smpls), 3)
    for r in range(3):
        EQ("P12:number of folds", len(o.smpls[r]), 4)
    sp = SPLITS("sp", 2, 3)
    o.set_sample_splitting(sp)
    EQ("P12:n_rep", o.n_rep, 3); EQ("P12:n_folds", o.n_folds, 2)
    EQ("P12:user splits are used", o.smpls, sp)
    o.fit()
    for r in range(3):
        for j in range(2):
            PRED("user splits ml_l", o.predictions["ml_l"][:, r, j], l, XCOLS(df, ["x1 x2 d2", "x1 x2 d1"][j]), df["y"], sp[r], props="P01,P12,P07")
            PRED("user splits ml_m", o.predictions["ml_m"][:, r, j], m, XCOLS(df, ["x1 x2 d2", "x1 x2 d1"][j]), df["d%d" % (j + 1)], sp[r], props="P01,P12,P07")
    EQ("P12,P07:all_coef has a column per repetition", o.all_coef.shape, (2, 3))
''')
driver("base/splits_single", PLR2 + '''
def driver():
    df, data, l, m, o = setup(3, K=4)
    sp = SPLITS("sp", 3, 1)
    o.set_sample_splitting(sp[0])
    EQ("P12:n_rep", o.n_rep, 1); EQ("P12:n_folds", o.n_folds, 3)
    o.fit()
    for j in range(2):
        PRED("user splits ml_l", o.predictions["ml_l"][:, 0, j], l, XCOLS(df, ["x1 x2 d2", "x1 x2 d1"][j]), df["y"], sp[0], props="P01,P12,P07")
''')
driver("base/splits_params", PLR2 + '''
def driver():
    df, data, l, m, o = setup(1, K=3)
    o.set_sample_splitting(SPLITS("sp", 2, 2))
    p = {"a": SCALAR("p")}
    o.set_ml_nuisance_params("ml_l", "d2", p)
    o.fit()
    for r in range(2):
        PRED("params ml_l d2", o.predictions["ml_l"][:, r, 1], l, XCOLS(df, "x1 x2 d1"), df["y"], o.smpls[r], params=p, props="P20")
        PRED("params ml_l d1", o.predictions["ml_l"][:, r, 0], l, XCOLS(df, "x1 x2 d2"), df["y"], o.smpls[r], props="P20")
''')

# -------------------------------------------------------------------------------------------- parameters
driver("base/params_fold", PLR2 + '''
def driver():
    df, data, l, m, o = setup(2, K=2)
    p = [[{"a": SCALAR("p%d%d" % (r, k))} for k in range(2)] for r in range(2)]
    q = {"b": SCALAR("q")}
    o.set_ml_nuisance_params("ml_l", "d1", USERLIST(p, "user params"))
    o.set_ml_nuisance_params("ml_m", "d2", USERLIST(q, "user params"))
    SAME("P20:get_params", o.get_params("ml_l")["d1"], p)
    o.fit()
    for r in range(2):
        for j in range(2):
            X = XCOLS(df, ["x1 x2 d2", "x1 x2 d1"][j])
            PRED("fold params ml_l", o.predictions["ml_l"][:, r, j], l, X, df["y"], o.smpls[r], params=p[r] if j == 0 else None, props="P20,P07")
            PRED("params ml_m", o.predictions["ml_m"][:, r, j], m, X, df["d%d" % (j + 1)], o.smpls[r], params=q if j == 1 else None, props="P20,P07")
''')
driver("base/params_reset", PLR2 + '''
def driver():
    df, data, l, m, o = setup(1)
    o.set_ml_nuisance_params("ml_l", "d1", {"a": SCALAR("p")})
    o.fit()
    o.set_ml_nuisance_params("ml_l", "d1", None)
    o.fit()
    PRED("parameters can be removed", o.predictions["ml_l"][:, 0, 0], l, XCOLS(df, "x1 x2 d2"), df["y"], o.smpls[0], props="P20,P13")
''')

# -------------------------------------------------------------------------------------------- external predictions
driver("base/external_all", PLR2 + '''
def driver():
    df, data, l, m, o = setup(2)
    e = {"d1": {"ml_l": ARR("el1", 2), "ml_m": ARR("em1", 2)}, "d2": {"ml_l": ARR("el2", 2), "ml_m": ARR("em2", 2)}}
    o.fit(external_predictions=USERLIST(e, "user external predictions"))
    y = df["y"]
    for j in range(2):
        nm = "d%d" % (j + 1); d = df[nm]
        for r in range(2):
            EQ("P10,P07:ml_l verbatim", o.predictions["ml_l"][:, r, j], e[nm]["ml_l"][:, r])
            EQ("P10,P07:ml_m verbatim", o.predictions["ml_m"][:, r, j], e[nm]["ml_m"][:, r])
            v = d - e[nm]["ml_m"][:, r]
            EQ("P10,P04:psi_a", o.psi_elements["psi_a"][:, r, j], -v * v)
            EQ("P10,P04:psi_b", o.psi_elements["psi_b"][:, r, j], v * (y - e[nm]["ml_l"][:, r]))
''')
driver("base/external_part", PLR2 + '''
def driver():
    df, data, l, m, o = setup(2)
    e = {"d1": {"ml_l": ARR("el1", 2)}, "d2": {"ml_m": ARR("em2", 2)}}
    o.fit(external_predictions=USERLIST(e, "user external predictions"))
    y = df["y"]
    for r in range(2):
        EQ("P10,P07:ml_l of d1 verbatim", o.predictions["ml_l"][:, r, 0], e["d1"]["ml_l"][:, r])
        EQ("P10,P07:ml_m of d2 verbatim", o.predictions["ml_m"][:, r, 1], e["d2"]["ml_m"][:, r])
        PRED("other nuisance ml_m of d1", o.predictions["ml_m"][:, r, 0], m, XCOLS(df, "x1 x2 d2"), df["d1"], o.smpls[r], props="P10,P01")
        PRED("other nuisance ml_l of d2", o.predictions["ml_l"][:, r, 1], l, XCOLS(df, "x1 x2 d1"), df["y"], o.smpls[r], props="P10,P01")
''')

# -------------------------------------------------------------------------------------------- losses
driver("base/losses", PLR2 + '''
def driver():
    df, data, l, m, o = setup(2)
    o.fit()
    y = df["y"]
    ev = o.evaluate_learners()
    HOLDS("P19:loss keys", set(o.nuisance_loss.keys()) == {"ml_l", "ml_m"})
    HOLDS("P19:prediction keys", set(o.predictions.keys()) == {"ml_l", "ml_m"})
    HOLDS("P19:target keys", set(o.nuisance_targets.keys()) == {"ml_l", "ml_m"})
    HOLDS("P19:parameter keys", set(o.params_names) == {"ml_l", "ml_m"})
    HOLDS("P19:evaluation keys", set(ev.keys()) == {"ml_l", "ml_m"})
    for j in range(2):
        d = df["d%d" % (j + 1)]
        for r in range(2):
            rl = np.sqrt(np.mean((y - o.predictions["ml_l"][:, r, j]) ** 2)); rm = np.sqrt(np.mean((d - o.predictions["ml_m"][:, r, j]) ** 2))
            EQ("P19,P07:rmse ml_l", o.nuisance_loss["ml_l"][r, j], rl)
            EQ("P19,P07:rmse ml_m", o.nuisance_loss["ml_m"][r, j], rm)
            EQ("P19,P07:evaluate_learners ml_l", ev["ml_l"][r, j], rl)
            EQ("P19,P07:evaluate_learners ml_m", ev["ml_m"][r, j], rm)
''')
driver("base/losses_classifier", '''
def driver():
    df = DF("y:c d:b x1:c x2:c")
    data = dml.DoubleMLData(df, "y", "d", ["x1", "x2"])
    g = LRN("ml_g", "regressor"); m = LRN("ml_m", "classifier")
    o = dml.DoubleMLIRM(data, g, m, n_folds=3, n_rep=2)
    o.fit()
    y = df["y"]; d = df["d"]
    HOLDS("P19:loss keys", set(o.nuisance_loss.keys()) == {"ml_g0", "ml_g1", "ml_m"})
    HOLDS("P19:prediction keys", set(o.predictions.keys()) == {"ml_g0", "ml_g1", "ml_m"})
    HOLDS("P19:target keys", set(o.nuisance_targets.keys()) == {"ml_g0", "ml_g1", "ml_m"})
    for r in range(2):
        p = np.clip(o.predictions["ml_m"][:, r, 0], 1e-15, 1 - 1e-15)
        EQ("P19,P07:log loss of the propensity", o.nuisance_loss["ml_m"][r, 0], -np.mean(d * np.log(p) + (1 - d) * np.log(1 - p)))
        for k, b in [("ml_g0", d == 0), ("ml_g1", d == 1)]:
            t = np.where(b, y, np.nan)
            EQ("P19,P07:rmse within the subgroup " + k, o.nuisance_loss[k][r, 0], np.sqrt(np.nanmean((t - o.predictions[k][:, r, 0]) ** 2)))
''')

# -------------------------------------------------------------------------------------------- callable scores
driver("base/callable_score", '''
def myscore(y, d, l_hat, m_hat, g_hat, smpls):
    v = d - m_hat
    return -v * v * 2.0, v * (y - l_hat) * 3.0
def driver():
    df = DF("y:c d1:c d2:c x1:c x2:c")
    data = dml.DoubleMLData(df, "y", ["d1", "d2"], ["x1", "x2"])
    l = LRN("ml_l", "regressor"); m = LRN("ml_m", "regressor")
    o = dml.DoubleMLPLR(data, l, m, n_folds=3, n_rep=2, score=myscore)
    o.fit()
    for j in range(2):
        d = df["d%d" % (j + 1)]
        for r in range(2):
            v = d - o.predictions["ml_m"][:, r, j]
            a = -v * v * 2.0; b = v * (df["y"] - o.predictions["ml_l"][:, r, j]) * 3.0
            EQ("P04,P07:psi_a", o.psi_elements["psi_a"][:, r, j], a)
            EQ("P04,P07:psi_b", o.psi_elements["psi_b"][:, r, j], b)
            EQ("P05,P07:coef", o.all_coef[j, r], -np.mean(b) / np.mean(a))
''')
