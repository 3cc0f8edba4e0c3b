AI = "abstract interpretation of the source (interprocedural constant propagation + gated value numbering, normal-form comparison with the documented formula); "
CLAIMED = {
 "P01": (AI + "dataflow provenance of every held-out prediction", "per driver program: proves fold provenance of training rows and evaluation rows for all data, learners and fold assignments; container sizes fixed by the drivers"),
 "P02": (AI + "provenance of responses, regressors and subgroup index sets of every fit", "as P01"),
 "P03": (AI + "value comparison of the propensity that reaches each division", "as P01; threshold symbolic"),
 "P04": (AI + "value comparison of score elements with the documented score", "as P01; all data and predictions symbolic"),
 "P05": (AI + "value comparison of estimates, standard errors and intervals", "as P01"),
 "P07": (AI + "slot-wise value comparison over treatments and repetitions", "as P01 with 2-3 treatments and repetitions"),
 "P08": ("effect analysis on learner objects (typestate: user learner / clone) along all interpreted call paths", "all fit, set_params and attribute writes reached by the driver programs"),
 "P09": ("effect analysis: writes to caller-owned objects with alias tracking along all interpreted call paths", "all writes reached by the driver programs"),
 "P11": ("effect analysis of random draws, reseeding and unordered iteration along all interpreted call paths", "all draws reached by the driver programs"),
 "P18": (AI + "value comparison of sensitivity elements with the documented formulas", "as P01"),
 "P24": ("element-type dataflow of array buffers along all interpreted call paths", "all buffers reached by the driver programs"),
 "P06": (AI + "value comparison of cluster partitions, subset aggregation and cluster-robust variances", "as P01; one- and two-way clustering with 2-3 folds"),
 "P10": (AI + "value comparison of reported nuisance predictions and scores with the caller's arrays", "as P01; every model class with external_predictions"),
 "P12": (AI + "provenance of stored index sets from the splitter objects, and rejection of malformed partitions", "as P01"),
 "P13": (AI + "typestate exploration of call sequences on the model objects", "all listed call sequences, all data"),
 "P14": (AI + "role-state comparison of the data containers after constructors and setters", "all listed role assignments, all data"),
 "P15": (AI + "typestate: rejected arguments raise before any state is written", "all listed invalid arguments"),
 "P16": (AI + "value comparison of bootstrap statistics, joint intervals and adjusted p-values with the documented formula", "as P01; multiplier draws symbolic"),
 "P17": (AI + "value comparison of the framework algebra", "as P01; frameworks with symbolic scores"),
 "P19": (AI + "key-set comparison of learners, parameters, predictions, models and losses; value comparison of losses", "as P01"),
 "P20": (AI + "provenance of the parameters of every fit and of the search objects of tune()", "as P01; grids symbolic"),
 "P21": (AI + "value comparison of best linear predictors, group effects and policy trees", "as P01"),
 "P25": (AI + "provenance: which prediction method of a learner reaches a score", "as P01 for regressors and classifiers"),
 "P22": (AI + "value comparison of every wrapper component with the separately fitted single model", "as P01; 1-3 levels or quantiles, all options"),
 "P26": (AI + "symbolic text model: the value shown after each heading is compared with the object's own value", "as P01; every printable class"),
 "P23": (AI + "provenance of kernel weights and side-specific predictions; value comparison of the adjusted outcome, final call and aggregation", "as P01; rdrobust itself is uninterpreted"),
 "P93": (AI + "random draws are symbolic terms carrying family, parameters, covariance and position; the returned variables are compared with the documented equations in these draws", "all parameter values symbolic, n symbolic (concrete 3x2 clusters for the multiway design), small concrete numbers of covariates; make_ssm_data / discrete treatments / confounded irm against the implemented formula where the docstring differs; fetch_* not analysed"),
 "P94": (AI + "learner classes that turn non-finite for one nuisance function, fold and repetition are run through every model; every path of fit must end in ValueError", "K=2, M=2, n symbolic, NaN and inf; label predictions on one concrete 12-row data set per model"),
 "P92": (AI + "task isolation: work handed to joblib is analysed on copies of its arguments; effect analysis of draws and of writes to mapped arguments inside tasks", "as P01; every model class and wrapper, all schedules (tasks share nothing)"),
}
