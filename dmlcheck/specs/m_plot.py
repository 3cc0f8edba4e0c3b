"""Sensitivity contour plots: every drawn value is the bound at its coordinates."""
from . import driver
from .common import fill
from .m_fw import FW, SA

PLOT = FW + SA + '''
def driver():
    f = fw("", {T}, {R})
    j = {j}
    h0 = SCALAR("h0")
    ASSUME({above})
    side = "{side}"
    k = {k}
    {scen}
    f_before = f.sensitivity_params
    fig = f.sensitivity_plot(idx_treatment=j, value="{value}", rho=0.8, level=0.9, null_hypothesis=h0, include_scenario={inc},
                             benchmarks={bench}, fill={fillc}, grid_bounds=(0.2, 0.6), grid_size=10)
    c = fig.data[0].kwargs
    HOLDS("P18:first trace is the contour", "z" in c)
    HOLDS("P18:contour is not transposed", not c.get("transpose", False))
    x = c["x"]; y = c["y"]
    EQ("P18:number of points on the axis of cf_d", len(x), 10)
    EQ("P18:number of points on the axis of cf_y", len(y), 10)
    for ix in (0, 3, 9):
        HOLDS("P18:axis of cf_d", abs(x[ix] - 0.2 * ix / 9) < 1e-9)
        for iy in (0, 4, 9):
            HOLDS("P18:axis of cf_y", abs(y[iy] - 0.6 * iy / 9) < 1e-9)
            b = bounds(f, j, y[iy], x[ix], 0.8, 0.9, {R})[side][k]
            EQ("P18,P07:contour at its coordinates", c["z"][iy, ix], b)
    rest = [t.kwargs for t in fig.data[1:]]
    un = [t for t in rest if t["name"] == "Unadjusted"][0]
    EQ("P18:unadjusted estimate is drawn at the origin", (un["x"][0], un["y"][0]), (0, 0))
    sc = [t for t in rest if t["name"] == "Scenario"]
    EQ("P18:scenario drawn on request", len(sc), {nsc})
    for t in sc:
        EQ("P18:scenario at its cf_d", t["x"][0], cd)
        EQ("P18:scenario at its cf_y", t["y"][0], cy)
    bm = [t for t in rest if t["name"] == "Benchmarks"]
    EQ("P18:benchmarks drawn on request", len(bm), {nbm})
    for t in bm:
        for i in range(2):
            EQ("P18:benchmark at its cf_d", t["x"][i], [0.05, 0.1][i])
            EQ("P18:benchmark at its cf_y", t["y"][i], [0.2, 0.3][i])
            EQ("P18,P07:benchmark value", t["customdata"][i, 0], bounds(f, j, [0.2, 0.3][i], [0.05, 0.1][i], 0.8, 0.9, {R})[side][k])
            HOLDS("P18:benchmark name", t["text"][i] == "<b>" + ["u", "v"][i] + "</b>")
    SAME("P18,P13:the plot leaves the analysis alone", f.sensitivity_params, f_before)
'''


def plot(name, T=1, R=1, j=0, side="lower", value="theta", scen=False, bench=False, fillc="True", tier="quick"):
    driver("plot/" + name, fill(PLOT, T=T, R=R, j=j, side=side, value=value, k=0 if value == "theta" else 2,
           above=f"f.thetas[{j}] < h0" if side == "upper" else f"h0 < f.thetas[{j}]",
           scen='cy = SCALAR("cy", lo=0.0, hi=0.9); cd = SCALAR("cd", lo=0.0, hi=0.9)\n    f.sensitivity_analysis(cf_y=cy, cf_d=cd, rho=0.5)' if scen else "pass",
           inc=scen, nsc=int(scen), nbm=int(bench), fillc=fillc,
           bench='USERLIST({"cf_y": [0.2, 0.3], "cf_d": [0.05, 0.1], "name": ["u", "v"]}, "user benchmarks")' if bench else "None"), tier=tier)


plot("theta lower")
plot("ci upper", side="upper", value="ci", fillc="False")
plot("second treatment", T=2, R=2, j=1, value="ci", scen=True, bench=True)
plot("theta upper benchmarks", T=2, j=0, side="upper", bench=True)
driver("plot/arguments", FW + '''
def driver():
    f = fw("", 2, 1)
    RAISES("P15,P18:scenario without analysis", lambda: f.sensitivity_plot(), "ValueError")
    f.sensitivity_analysis()
    good = {"cf_y": [0.1], "cf_d": [0.1], "name": ["u"]}
    for nm, kw, exc in [
            ("idx type", {"idx_treatment": 0.0}, "TypeError"), ("idx range", {"idx_treatment": 2}, "ValueError"), ("idx negative", {"idx_treatment": -1}, "ValueError"),
            ("value type", {"value": 1}, "TypeError"), ("value name", {"value": "bounds"}, "ValueError"), ("null type", {"null_hypothesis": 1}, "TypeError"),
            ("include_scenario type", {"include_scenario": 1}, "TypeError"), ("benchmarks type", {"benchmarks": [1]}, "TypeError"),
            ("benchmarks keys", {"benchmarks": {"cf_y": [0.1], "cf_d": [0.1]}}, "ValueError"),
            ("benchmarks extra key", {"benchmarks": {"cf_y": [0.1], "cf_d": [0.1], "name": ["u"], "rho": [1.0]}}, "ValueError"),
            ("benchmarks lengths", {"benchmarks": {"cf_y": [0.1], "cf_d": [0.1, 0.2], "name": ["u"]}}, "ValueError"),
            ("benchmarks cf_y range", {"benchmarks": {"cf_y": [1.0], "cf_d": [0.1], "name": ["u"]}}, "ValueError"),
            ("benchmarks cf_d range", {"benchmarks": {"cf_y": [0.1, 0.2], "cf_d": [0.1, -0.1], "name": ["u", "v"]}}, "ValueError"),
            ("benchmarks cf_y type", {"benchmarks": {"cf_y": ["a"], "cf_d": [0.1], "name": ["u"]}}, "TypeError"),
            ("benchmarks name type", {"benchmarks": {"cf_y": [0.1], "cf_d": [0.1], "name": [1]}}, "TypeError"),
            ("fill type", {"fill": 1}, "TypeError"), ("grid bounds zero", {"grid_bounds": (0.0, 0.1)}, "ValueError"),
            ("grid bounds one", {"grid_bounds": (0.1, 1.0)}, "ValueError"),
            ("first grid bound one", {"grid_bounds": (1.0, 0.1)}, "ValueError"), ("second grid bound zero", {"grid_bounds": (0.1, 0.0)}, "ValueError"),
            ("first grid bound negative", {"grid_bounds": (-0.1, 0.1)}, "ValueError"), ("second grid bound above one", {"grid_bounds": (0.1, 1.1)}, "ValueError"), ("grid size", {"grid_size": 9}, "ValueError"),
            ("grid size type", {"grid_size": 10.0}, "TypeError"), ("rho range", {"rho": 1.5}, "ValueError"), ("level range", {"level": 1.5}, "ValueError")]:
        RAISES("P15,P18:" + nm, lambda: f.sensitivity_plot(**kw), exc)
''')
