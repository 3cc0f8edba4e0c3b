"""Multi-level potential outcomes (APOS) and quantile effects (QTE): every component equals the single model fitted with the
same data, learners, splits and options; contrasts are treated minus control"""
from . import driver

APOS = '''
def driver():
    df = DF("y:{yk} d:l3 x1:c x2:c")
    data = dml.DoubleMLData(df, "y", "d", ["x1", "x2"])
    g = LRN("ml_g", "{gk}"); m = LRN("ml_m", "classifier")
    W = ARR("w"); WB = ARR("wbar", {R})
    LV = {LV}
    {smdef}
    o = dml.DoubleMLAPOS(data, g, m, treatment_levels=LV, n_folds={K}, n_rep={R}{opts}{dss})
    {setup}
    o.fit({fit})
    HOLDS("P22:one model per level", len(o.modellist) == {N} and o.n_treatment_levels == {N} and o.treatment_levels == LV)
    singles = []
    for i, lv in enumerate(LV):
        s = dml.DoubleMLAPO(data, g, m, treatment_level=lv, n_folds={K}, n_rep={R}{opts}, draw_sample_splitting=False)
        s.set_sample_splitting(o.smpls)
        s.fit({sfit})
        singles.append(s)
        mi = o.modellist[i]
        HOLDS("P22:level of the component", mi.treatment_level == lv)
        HOLDS("P22:settings of the component", mi.trimming_threshold == s.trimming_threshold and mi.normalize_ipw == s.normalize_ipw
              and mi.n_folds == {K} and mi.n_rep == {R} and mi.score == s.score and mi.trimming_rule == s.trimming_rule)
        for r in range({R}):
            for f in range({K}):
                EQ("P22,P12:splits of the component", mi.smpls[r][f][1], o.smpls[r][f][1])
            for key in ["ml_g_d_lvl0", "ml_g_d_lvl1", "ml_m"]:
                {sp}EQ("P22,P07,P10:predictions of the component", mi.predictions[key][:, r, 0], s.predictions[key][:, r, 0])
            EQ("P22,P05,P07:estimate per repetition", o.all_coef[i, r], s.all_coef[0, r])
            EQ("P22,P05,P07:standard error per repetition", o.all_se[i, r], s.all_se[0, r])
            EQ("P22,P05,P07:influence function", o.framework.scaled_psi[:, i, r], s.framework.scaled_psi[:, 0, r])
            EQ("P22,P18,P07:maximal bias", o.sensitivity_elements["max_bias"][0, i, r], s.framework.sensitivity_elements["max_bias"][0, 0, r])
            EQ("P22,P18,P07:psi_max_bias", o.sensitivity_elements["psi_max_bias"][:, i, r], s.framework.sensitivity_elements["psi_max_bias"][:, 0, r])
            EQ("P22,P18,P07:sigma2", o.sensitivity_elements["sigma2"][0, i, r], s.framework.sensitivity_elements["sigma2"][0, 0, r])
            EQ("P22,P18,P07:nu2", o.sensitivity_elements["nu2"][0, i, r], s.framework.sensitivity_elements["nu2"][0, 0, r])
        EQ("P22,P05,P07:estimate", o.coef[i], s.coef[0])
        EQ("P22,P05,P07:standard error", o.se[i], s.se[0])
    ASSUME(not np.isnan(o.coef).any())
    ci = o.confint(level=0.9)
    HOLDS("P22:labels of the intervals", list(ci.index) == LV)
    for i, lv in enumerate(LV):
        si = singles[i].confint(level=0.9)
        EQ("P22,P05:lower bound", ci.values[i, 0], si.values[0, 0])
        EQ("P22,P05:upper bound", ci.values[i, 1], si.values[0, 1])
        EQ("P22,P05:t_stat", o.t_stat[i], singles[i].t_stat[0])
        EQ("P22,P05:pval", o.pval[i], singles[i].framework.pvals[0])
    HOLDS("P22:labels of the summary", list(o.summary.index) == LV)
    {post}
'''
CONTRAST = '''
    for refs in {refs}:
        c = o.causal_contrast(refs)
        rl = refs if isinstance(refs, list) else [refs]
        pairs = []; seen = []
        for b in rl:
            seen.append(b)
            for a in LV:
                if a not in seen:
                    pairs.append((a, b))
        HOLDS("P22:number of contrasts", c.n_thetas == len(pairs))
        HOLDS("P22:names of the contrasts", list(c.treatment_names) == [f"{a} vs {b}" for a, b in pairs])
        for k, (a, b) in enumerate(pairs):
            sa = singles[LV.index(a)]; sb = singles[LV.index(b)]
            want = sa.framework - sb.framework
            for r in range({R}):
                EQ("P22,P17,P07:contrast", c.all_thetas[k, r], sa.all_coef[0, r] - sb.all_coef[0, r])
                EQ("P22,P17,P07:influence function of the contrast", c.scaled_psi[:, k, r],
                   sa.framework.scaled_psi[:, 0, r] - sb.framework.scaled_psi[:, 0, r])
                EQ("P22,P17,P07:standard error of the contrast per repetition", c.all_ses[k, r], want.all_ses[0, r])
                ea = sa.sensitivity_elements; eb = sb.sensitivity_elements
                s2 = (ea["sigma2"][0, r, 0] + eb["sigma2"][0, r, 0]) / 2
                nu = ea["nu2"][0, r, 0] + eb["nu2"][0, r, 0]
                ps = (ea["psi_sigma2"][:, r, 0] + eb["psi_sigma2"][:, r, 0]) / 2
                pn = ea["psi_nu2"][:, r, 0] + eb["psi_nu2"][:, r, 0]
                mb = np.sqrt(s2 * nu)
                EQ("P22,P18:sigma2 of the contrast", c.sensitivity_elements["sigma2"][0, k, r], s2)
                EQ("P22,P18:nu2 of the contrast", c.sensitivity_elements["nu2"][0, k, r], nu)
                EQ("P22,P18:maximal bias of the contrast", c.sensitivity_elements["max_bias"][0, k, r], mb)
                EQ("P22,P18:psi_max_bias of the contrast", c.sensitivity_elements["psi_max_bias"][:, k, r],
                   (s2 * pn + nu * ps) / (2 * mb))
            EQ("P22,P17,P07:aggregated contrast", c.thetas[k], want.thetas[0])
            EQ("P22,P17,P07:standard error of the contrast", c.ses[k], want.ses[0])
    for i, lv in enumerate(LV):
        EQ("P22,P13:the contrast leaves the components alone", o.coef[i], singles[i].coef[0])
        EQ("P22,P13,P18:the contrast leaves the components alone (bias)", o.sensitivity_elements["max_bias"][0, i, 0],
           singles[i].framework.sensitivity_elements["max_bias"][0, 0, 0])
'''
REFERR = '''
    RAISES("P15:reference level not estimated", lambda: o.causal_contrast(7), "ValueError")
    RAISES("P15:reference level not estimated", lambda: o.causal_contrast([LV[0], 7]), "ValueError")
'''


def apos(name, LV="[0, 1, 2]", K=2, R=1, opts="", yk="c", gk="regressor", setup="pass", fit="", sfit="", post="pass", smdef="pass",
         dss="", sp="", tier="quick"):
    src = APOS
    for k, v in dict(LV=LV, N=len(eval(LV)), K=K, opts=opts, yk=yk, gk=gk, setup=setup, fit=fit, sfit=sfit, post=post, smdef=smdef,
                     dss=dss, sp=sp).items():
        src = src.replace("{" + k + "}", str(v))
    driver("apos/" + name, src.replace("{R}", str(R)), tier=tier)


apos("plain")
apos("order", LV="[2, 0]", R=2)
apos("reps", R=2, opts=", trimming_threshold=0.07")
apos("normalized", opts=", normalize_ipw=True", LV="[1, 2]")
apos("weights", opts=", weights=W", LV="[0, 2]", R=2)
apos("weights_dict", opts=', weights={"weights": W, "weights_bar": WB}', LV="[1, 0]", R=2)
apos("classifier", yk="b", gk="classifier", LV="[0, 1]")
apos("all_options", opts=", normalize_ipw=True, trimming_threshold=0.2, weights=W", LV="[2, 1]", R=2, K=3, tier="thorough")
apos("models", fit="store_models=True, n_jobs_cv=2", LV="[0, 1]")
apos("parallel", fit="n_jobs_models=2", LV="[0, 1, 2]", R=2)
apos("nostore", fit="store_predictions=False", sp="pass  # ", LV="[0, 1]")
apos("redraw", setup="o.fit(); o.draw_sample_splitting()", LV="[0, 1]", R=2)
apos("resplit", smdef='sm = SPLITS("s", 2, 2)', setup="o.fit(); o.set_sample_splitting(sm)", LV="[1, 0]", R=2)
apos("setsplit", smdef='sm = SPLITS("s", 3, 2)', setup="o.set_sample_splitting(sm)", dss=", draw_sample_splitting=False", LV="[0, 2]",
     R=2, K=3)
apos("refit", setup="o.fit()", LV="[0, 1]")
EXT = '''E = {0: {"ml_g_d_lvl0": ARR("e00", R), "ml_g_d_lvl1": ARR("e01", R), "ml_m": ARR("e0m", R)},
         2: {"ml_m": ARR("e2m", R)}, 1: {"ml_g_d_lvl1": ARR("e11", R)}}'''
apos("external", smdef=EXT.replace("R)", "2)"), fit="external_predictions=E", sfit='external_predictions={"d": E[lv]}', R=2)
apos("external_some", smdef='E = {2: {"ml_g_d_lvl0": ARR("e00", 1), "ml_m": ARR("e2m", 1)}}', fit="external_predictions=E",
     sfit='external_predictions={"d": E[lv] if lv in E else {}}', LV="[1, 2]")
apos("contrast", post=CONTRAST.replace("{refs}", "[0, [1], [2]]") + REFERR)
apos("contrast_two", post=CONTRAST.replace("{refs}", "[[2, 0], [0, 1]]"), LV="[0, 1, 2]", R=2)
apos("contrast_order", post=CONTRAST.replace("{refs}", "[0, 2]"), LV="[2, 0]", R=2, opts=", weights=W")
apos("contrast_normalized", post=CONTRAST.replace("{refs}", "[2]"), LV="[1, 2]", opts=", normalize_ipw=True")

DELEG = '''
def driver():
    df = DF("y:c d:l3 x1:c")
    data = dml.DoubleMLData(df, "y", "d", "x1")
    g = LRN("ml_g", "regressor"); m = LRN("ml_m", "classifier")
    o = dml.DoubleMLAPOS(data, g, m, treatment_levels=[0, 2], n_folds=2)
    RAISES("P13:confint before fit", lambda: o.confint(), "ValueError")
    RAISES("P13:bootstrap before fit", lambda: o.bootstrap(), "ValueError")
    RAISES("P13:sensitivity before fit", lambda: o.sensitivity_analysis(), "ValueError")
    RAISES("P13:contrast before fit", lambda: o.causal_contrast(0), "ValueError")
    RAISES("P13:sensitivity summary before fit", lambda: o.sensitivity_summary, "ValueError")
    RAISES("P13:sensitivity plot before fit", lambda: o.sensitivity_plot(), "ValueError")
    HOLDS("P13:no results before fit", o.coef is None and o.se is None and o.all_coef is None and o.all_se is None
          and o.t_stat is None and o.pval is None and o.framework is None and o.boot_t_stat is None and o.n_rep_boot is None
          and o.boot_method is None and o.sensitivity_elements is None and o.sensitivity_params is None)
    SAME("P13:fit returns the object", o.fit(), o)
    ASSUME(not np.isnan(o.coef).any())
    f = o.framework
    RAISES("P13,P16:joint intervals need a bootstrap", lambda: o.confint(joint=True), "ValueError")
    SAME("P13:bootstrap returns the object", o.bootstrap(method="Bayes", n_rep_boot=7), o)
    HOLDS("P22,P16:bootstrap settings", o.boot_method == "Bayes" and o.n_rep_boot == 7)
    EQ("P22,P16:bootstrap statistics", o.boot_t_stat, f.boot_t_stat)
    ci = o.confint(joint=True, level=0.8); cf = f.confint(joint=True, level=0.8)
    for i in range(2):
        EQ("P22,P16:joint lower bound", ci.values[i, 0], cf.values[i, 0])
        EQ("P22,P16:joint upper bound", ci.values[i, 1], cf.values[i, 1])
    HOLDS("P22:labels", list(ci.index) == [0, 2])
    SAME("P13:sensitivity_analysis returns the object",
         o.sensitivity_analysis(cf_y=0.02, cf_d=0.05, rho=0.7, level=0.9, null_hypothesis=0.25), o)
    p = o.sensitivity_params
    h = o.modellist[0].framework; h2 = o.modellist[1].framework
    h.sensitivity_analysis(cf_y=0.02, cf_d=0.05, rho=0.7, level=0.9, null_hypothesis=0.25)
    h2.sensitivity_analysis(cf_y=0.02, cf_d=0.05, rho=0.7, level=0.9, null_hypothesis=0.25)
    for b in ["lower", "upper"]:
        for w in ["theta", "se", "ci"]:
            EQ("P22,P18:sensitivity " + w, p[w][b][0], h.sensitivity_params[w][b][0])
            EQ("P22,P18:sensitivity " + w, p[w][b][1], h2.sensitivity_params[w][b][0])
    for k in ["cf_y", "cf_d", "rho", "level"]:
        HOLDS("P22,P18:inputs", p["input"][k] == h.sensitivity_params["input"][k])
    one = dml.DoubleMLAPOS(data, g, m, treatment_levels=1, n_folds=2)
    one.fit()
    RAISES("P15:a contrast needs two levels", lambda: one.causal_contrast(1), "ValueError")
'''
driver("apos/delegation", DELEG)

ARGS = '''
def driver():
    df = DF("y:c d:l3 x1:c z:c")
    data = dml.DoubleMLData(df, "y", "d", "x1")
    g = LRN("ml_g", "regressor"); m = LRN("ml_m", "classifier"); mr = LRN("ml_mr", "regressor"); gc = LRN("ml_gc", "classifier")
    A = dml.DoubleMLAPOS
    RAISES("P15:level not in the data", lambda: A(data, g, m, treatment_levels=[0, 5]), "ValueError")
    RAISES("P15:level not in the data", lambda: A(data, g, m, treatment_levels=5), "ValueError")
    RAISES("P15:instrument", lambda: A(dml.DoubleMLData(df, "y", "d", "x1", z_cols="z"), g, m, treatment_levels=[0, 1]), "ValueError")
    RAISES("P15:data type", lambda: A(df, g, m, treatment_levels=[0, 1]), "TypeError,AttributeError")
    RAISES("P15:score", lambda: A(data, g, m, treatment_levels=[0, 1], score="ATE"), "ValueError")
    RAISES("P15:score type", lambda: A(data, g, m, treatment_levels=[0, 1], score=1), "TypeError")
    RAISES("P15:trimming rule", lambda: A(data, g, m, treatment_levels=[0, 1], trimming_rule="discard"), "ValueError")
    RAISES("P15:trimming threshold", lambda: A(data, g, m, treatment_levels=[0, 1], trimming_threshold=0.6), "ValueError")
    RAISES("P15:trimming threshold type", lambda: A(data, g, m, treatment_levels=[0, 1], trimming_threshold="0.1"), "TypeError")
    RAISES("P15:normalize_ipw", lambda: A(data, g, m, treatment_levels=[0, 1], normalize_ipw=1), "TypeError")
    RAISES("P15,P25:regressor for the propensity", lambda: A(data, g, mr, treatment_levels=[0, 1]), "ValueError,TypeError")
    RAISES("P15,P25:classifier for a continuous outcome", lambda: A(data, gc, m, treatment_levels=[0, 1]), "ValueError")
    RAISES("P15:weights", lambda: A(data, g, m, treatment_levels=[0, 1], weights=1), "TypeError")
    RAISES("P15:weights keys", lambda: A(data, g, m, treatment_levels=[0, 1], weights={"weights": ARR("w")}), "ValueError")
    o = A(data, g, m, treatment_levels=[0, 1], n_folds=2)
    RAISES("P15,P10:external predictions type", lambda: o.fit(external_predictions=1), "TypeError")
    RAISES("P15,P10:external predictions level", lambda: o.fit(external_predictions={2: {}}), "ValueError")
    RAISES("P15,P10:external predictions entry type", lambda: o.fit(external_predictions={1: 2}), "TypeError")
    RAISES("P15,P10:external predictions key", lambda: o.fit(external_predictions={1: {"ml_g": ARR("e", 1)}}), "ValueError")
    RAISES("P15:splits missing", lambda: A(data, g, m, treatment_levels=[0, 1], draw_sample_splitting=False).smpls, "ValueError")
'''
driver("apos/arguments", ARGS)

QTE = '''
def driver():
    df = DF("y:c d:b x1:c x2:c z:b")
    data = dml.DoubleMLData(df, "y", "d", ["x1", "x2"]{z})
    g = LRN("ml_g", "{gk}"); m = LRN("ml_m", "classifier")
    mykde = lambda u, weights: np.mean(weights * np.exp(-u ** 2))
    Q = {Q}
    {smdef}
    o = dml.DoubleMLQTE(data, g, m, quantiles=Q, score="{score}", n_folds={K}, n_rep={R}{opts}{dss})
    {setup}
    o.fit({fit})
    HOLDS("P22:number of quantiles", o.n_quantiles == {N} and len(o.modellist_0) == {N} and len(o.modellist_1) == {N})
    want = []
    for i, q in enumerate(Q):
        comp = []
        for t in [0, 1]:
            s = dml.DoubleML{cls}(data, g, m, treatment=t, quantile=q, n_folds={K}, n_rep={R}{opts}, draw_sample_splitting=False)
            s.set_sample_splitting(o.smpls)
            s.fit()
            comp.append(s)
            mi = o.modellist_1[i] if t == 1 else o.modellist_0[i]
            HOLDS("P22:settings of the component", mi.treatment == t and mi.quantile == q and mi.n_folds == {K} and mi.n_rep == {R}
                  and mi.trimming_threshold == s.trimming_threshold and mi.normalize_ipw == s.normalize_ipw)
            for r in range({R}):
                for f in range({K}):
                    EQ("P22,P12:splits of the component", mi.smpls[r][f][1], o.smpls[r][f][1])
                EQ("P22,P05,P07:estimate of the component", mi.all_coef[0, r], s.all_coef[0, r])
                EQ("P22,P05,P07:standard error of the component", mi.all_se[0, r], s.all_se[0, r])
        s0 = comp[0]; s1 = comp[1]
        for r in range({R}):
            EQ("P22,P17,P07:effect per repetition", o.all_coef[i, r], s1.all_coef[0, r] - s0.all_coef[0, r])
            p = s1.framework.scaled_psi[:, 0, r] - s0.framework.scaled_psi[:, 0, r]
            EQ("P22,P17,P07:influence function", o.framework.scaled_psi[:, i, r], p)
            EQ("P22,P17,P05,P07:standard error per repetition", o.all_se[i, r], np.sqrt(np.mean(o.framework.scaled_psi[:, i, r] ** 2) / n))
        w = s1.framework - s0.framework
        want.append(w)
        EQ("P22,P05,P07:effect", o.coef[i], w.thetas[0])
        EQ("P22,P05,P07:standard error", o.se[i], w.ses[0])
    ASSUME(not np.isnan(o.coef).any())
    ci = o.confint(level=0.9)
    HOLDS("P22:labels of the intervals", list(ci.index) == Q)
    for i, q in enumerate(Q):
        cw = want[i].confint(level=0.9)
        EQ("P22,P05:lower bound", ci.values[i, 0], cw.values[0, 0])
        EQ("P22,P05:upper bound", ci.values[i, 1], cw.values[0, 1])
        EQ("P22,P05:t_stat", o.t_stat[i], o.coef[i] / o.se[i])
    HOLDS("P22:labels of the summary", list(o.summary.index) == Q)
    {post}
'''


def qte(name, score="PQ", Q="[0.3, 0.6]", K=2, R=1, opts="", setup="pass", fit="", post="pass", smdef="pass", dss="", tier="quick"):
    src = QTE
    for k, v in dict(Q=Q, N=len(eval(Q)), K=K, opts=opts, setup=setup, fit=fit, post=post, smdef=smdef, dss=dss, score=score,
                     cls={"PQ": "PQ", "LPQ": "LPQ", "CVaR": "CVAR"}[score], gk="regressor" if score == "CVaR" else "classifier",
                     z=', z_cols="z"' if score == "LPQ" else "").items():
        src = src.replace("{" + k + "}", str(v))
    driver("qte/" + name, src.replace("{R}", str(R)), tier=tier)


qte("pq")
qte("pq_order", Q="[0.7, 0.2, 0.5]", R=2)
qte("pq_options", R=2, opts=", normalize_ipw=False, trimming_threshold=0.07, kde=mykde")
qte("pq_models", fit="store_models=True, n_jobs_models=2, n_jobs_cv=2")
qte("lpq", score="LPQ")
qte("lpq_options", score="LPQ", R=2, Q="[0.4]", opts=", normalize_ipw=False, trimming_threshold=0.07, kde=mykde")
qte("cvar", score="CVaR")
qte("cvar_options", score="CVaR", R=2, opts=", normalize_ipw=False, trimming_threshold=0.07")
qte("redraw", setup="o.fit(); o.draw_sample_splitting()", R=2)
qte("resplit", smdef='sm = SPLITS("s", 2, 2)', setup="o.fit(); o.set_sample_splitting(sm)", R=2)
qte("setsplit", smdef='sm = SPLITS("s", 3, 2)', setup="o.set_sample_splitting(sm)", dss=", draw_sample_splitting=False", R=2, K=3)
qte("refit", setup="o.fit()")

QDELEG = '''
def driver():
    df = DF("y:c d:b x1:c")
    data = dml.DoubleMLData(df, "y", "d", "x1")
    g = LRN("ml_g", "classifier"); m = LRN("ml_m", "classifier")
    o = dml.DoubleMLQTE(data, g, m, quantiles=[0.25, 0.75], n_folds=2)
    RAISES("P13:confint before fit", lambda: o.confint(), "ValueError")
    RAISES("P13:bootstrap before fit", lambda: o.bootstrap(), "ValueError")
    RAISES("P13:p_adjust before fit", lambda: o.p_adjust(), "ValueError")
    HOLDS("P13:no results before fit", o.coef is None and o.se is None and o.all_coef is None and o.all_se is None
          and o.framework is None and o.boot_t_stat is None and o.n_rep_boot is None and o.boot_method is None)
    RAISES("P15,P10:external predictions are not available", lambda: o.fit(external_predictions={"d": {}}), "NotImplementedError")
    SAME("P13:fit returns the object", o.fit(), o)
    ASSUME(not np.isnan(o.coef).any())
    f = o.framework
    RAISES("P13,P16:joint intervals need a bootstrap", lambda: o.confint(joint=True), "ValueError")
    SAME("P13:bootstrap returns the object", o.bootstrap(method="wild", n_rep_boot=5), o)
    HOLDS("P22,P16:bootstrap settings", o.boot_method == "wild" and o.n_rep_boot == 5)
    EQ("P22,P16:bootstrap statistics", o.boot_t_stat, f.boot_t_stat)
    ci = o.confint(joint=True, level=0.8); cf = f.confint(joint=True, level=0.8)
    for i in range(2):
        EQ("P22,P16:joint lower bound", ci.values[i, 0], cf.values[i, 0])
        EQ("P22,P16:joint upper bound", ci.values[i, 1], cf.values[i, 1])
    HOLDS("P22:labels", list(ci.index) == [0.25, 0.75])
    pa = o.p_adjust(method="bonferroni"); pf, _ = f.p_adjust(method="bonferroni")
    HOLDS("P22,P16:labels of adjusted p-values", list(pa.index) == [0.25, 0.75])
    for i in range(2):
        EQ("P22,P16:adjusted p-values", pa["pval"].values[i], pf["pval"].values[i])
        EQ("P22,P05:pval", o.pval[i], f.pvals[i])
'''
driver("qte/delegation", QDELEG)

QARGS = '''
def driver():
    df = DF("y:c d:b c1:c x1:c z:b")
    data = dml.DoubleMLData(df, "y", "d", "x1"); zdata = dml.DoubleMLData(df, "y", "d", "x1", z_cols="z")
    g = LRN("ml_g", "classifier"); m = LRN("ml_m", "classifier"); r = LRN("ml_r", "regressor")
    A = dml.DoubleMLQTE
    ACCEPTS("P15:valid", lambda: A(data, g, m, quantiles=0.5))
    RAISES("P15:quantile zero", lambda: A(data, g, m, quantiles=[0.0, 0.5]), "ValueError")
    RAISES("P15:quantile one", lambda: A(data, g, m, quantiles=1.0), "ValueError")
    RAISES("P15:quantile negative", lambda: A(data, g, m, quantiles=[0.5, -0.2]), "ValueError")
    RAISES("P15:score", lambda: A(data, g, m, score="QTE"), "ValueError")
    RAISES("P15:kde", lambda: A(data, g, m, kde="gaussian"), "TypeError")
    RAISES("P15:normalize_ipw", lambda: A(data, g, m, normalize_ipw=0), "TypeError")
    RAISES("P15:trimming rule", lambda: A(data, g, m, trimming_rule="discard"), "ValueError")
    RAISES("P15:trimming threshold", lambda: A(data, g, m, trimming_threshold=0.6), "ValueError")
    RAISES("P15:treatment not binary", lambda: A(dml.DoubleMLData(df, "y", "c1", "x1"), g, m), "ValueError")
    RAISES("P15:data type", lambda: A(df, g, m), "TypeError,AttributeError")
    RAISES("P15,P25:PQ needs a classifier", lambda: A(data, r, m), "ValueError,TypeError")
    RAISES("P15,P25:PQ needs a classifier for the propensity", lambda: A(data, g, r), "ValueError,TypeError")
    RAISES("P15,P25:LPQ needs a classifier", lambda: A(zdata, r, m, score="LPQ"), "ValueError,TypeError")
    RAISES("P15:LPQ needs an instrument", lambda: A(data, g, m, score="LPQ"), "ValueError")
    RAISES("P15:PQ rejects an instrument", lambda: A(zdata, g, m, score="PQ"), "ValueError")
    RAISES("P15:CVaR rejects an instrument", lambda: A(zdata, r, m, score="CVaR"), "ValueError")
'''
driver("qte/arguments", QARGS)
