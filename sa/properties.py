"""The property list, and what is not claimed: properties.jsonl and MANIFEST.json are written from here (python3-vt gen.py)."""

GOF = "src/pysatl_criterion/statistics/goodness_of_fit"
GOF_FILES = [f"{GOF}/{n}.py" for n in ("beta", "common", "exponent", "gamma", "graph_goodness_of_fit", "log_normal", "normal",
                                       "student", "uniform", "weibull")]
STAT = "src/pysatl_criterion/statistics/statistic.py"
HT = "src/pysatl_criterion/hypothesis_testing"

P = []
NA = []


def prop(id, title, statement, over, quant, why, files, mech, state=None):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": quant},
              "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          **({"state": [{"name": n, "where": w} for n, w in state]} if state else {})}})


def na(id, reason):
    NA.append({"property": id, "reason": reason})


prop("P01", "Evaluating a statistic never changes the caller's sample",
     "Evaluating any goodness-of-fit statistic leaves the sample it was given exactly as it was: same elements, same order, "
     "whether the sample is a list or an array. A caller may evaluate several criteria on one sample, in any order, and each "
     "sees the original data.",
     ["inputs", "programs"], "every statistic, every sample (list or array), every constructor argument",
     "Tests pass literal lists and look only at the returned number; a mutation that leaves the number right is invisible to them.",
     GOF_FILES, [("execute_statistic of every statistic", GOF)])
prop("P02", "A statistic depends only on its sample and its parameters",
     "Evaluating a goodness-of-fit statistic is a function of the sample and the construction arguments: it draws no random "
     "numbers, reads no clock, environment or files, prints nothing, and keeps no state that a later evaluation (of the same or another "
     "criterion) could observe.",
     ["inputs", "histories"], "every statistic, every sequence of evaluations in one process",
     "Each test evaluates one fresh criterion once; leakage from one evaluation into the next needs a history.",
     GOF_FILES, [("execute_statistic of every statistic and the helpers it reaches", GOF)])
prop("P03", "A statistic does not depend on the order of the observations",
     "The value of every goodness-of-fit statistic is the same for every reordering of the sample: the observations are a "
     "sample, not a sequence.",
     ["inputs"], "every statistic, every sample, every permutation of it",
     "Tests use one order per sample, very often already sorted, so a dropped sort passes them.",
     GOF_FILES, [("execute_statistic of every statistic", GOF)])
prop("P04", "A statistic yields a number or raises, never a silent non-value",
     "Evaluating a goodness-of-fit statistic either returns a number or raises an exception; it never returns nothing, a "
     "text, or a container, for any sample size.",
     ["inputs"], "every statistic, every sample, in particular very small ones",
     "Tests use samples of comfortable size; the branches for small or degenerate samples are not entered.",
     GOF_FILES, [("execute_statistic of every statistic", GOF)])
prop("P05", "Every criterion can be built, described and evaluated",
     "Every concrete criterion can be constructed with the parameters it declares, asked for its code, its hypothesis and its "
     "alternative, and evaluated on a list or an array, without failing from a missing attribute, a call that no signature "
     "accepts, or an operation undefined for its operands.",
     ["inputs", "programs"], "every criterion class, every kind of declared argument, list and array samples",
     "Tests reach a part of each criterion's methods, with one kind of sample; the repaired defects of this kind all passed the suite.",
     GOF_FILES + [STAT], [("constructors, code, hypothesis, alternative, execute_statistic", GOF)])
GEN = "src/pysatl_criterion/generator"
DIST = "src/pysatl_criterion/core/distributions"
UT = "src/pysatl_criterion/utils"
prop("P06", "The null distribution is simulated from the hypothesised law",
     "The samples from which the Monte-Carlo resolver builds a criterion's null distribution follow exactly the law the criterion was "
     "constructed for (family and every parameter), and the parameter values the criterion reports - under which the "
     "distribution is stored - determine that law.",
     ["inputs", "configurations"], "every concrete criterion, all constructor arguments",
     "The simulated samples are random: a wrong scale or a dropped parameter shifts every critical value and no test compares them.",
     GOF_FILES + [f"{GEN}/generators.py", f"{UT}/generator.py"],
     [("hypothesis() of every criterion", GOF), ("MonteCarloLimitDistributionResolver.resolve", HT), ("generators", f"{GEN}/generators.py")])
prop("P07", "A statistic compares its sample with the hypothesised law",
     "Wherever a criterion compares the sample with a reference distribution whose parameters are known (through a distribution "
     "function, a survival function, their logarithms, a density or quantiles), that reference is the law of the "
     "criterion's own hypothesis, including every constructor parameter.",
     ["inputs", "configurations"], "every concrete criterion, all constructor arguments",
     "Tests evaluate the default parameters only, for which a dropped or misplaced parameter makes no difference.",
     GOF_FILES, [("execute_statistic and the distribution functions it calls", GOF)])
prop("P08", "Each generator draws the documented law, as many values as asked",
     "For all parameter values each random-variate generator draws independent values from the law its name and parameters "
     "document (mixtures with their documented weights), returns exactly the requested number, reports the parameters it was given, and "
     "carries each of them in its code; the density and distribution-function helpers beside it speak of the same law.",
     ["inputs", "configurations"], "every generator, all parameter values, every size",
     "Random output cannot be compared in a unit test; the generators with non-trivial parameters are not tested at all.",
     [f"{GEN}/generators.py"], [("generate, parameters, code of every generator", f"{GEN}/generators.py"), ("helpers", DIST)])
prop("P09", "Generators, descriptors and criteria are complete and agree",
     "For every distribution type the public lookups find exactly one generator and one descriptor, whatever was imported "
     "before; the descriptor names exactly the generator's parameters, every default lies in the parameter's domain, and "
     "every validator accepts exactly that domain, and the listed criteria of a family are all its criteria.",
     ["configurations", "inputs"], "every distribution type and parameter, every import history",
     "Lookups search loaded subclasses, so they depend on what the test process has imported; validators are tested at single points.",
     [f"{GEN}/generators.py", f"{UT}/generator.py", f"{UT}/distribution.py", f"{UT}/statistic.py"],
     [("get_available_generator", f"{UT}/generator.py"), ("get_available_distribution_descriptor", f"{UT}/distribution.py"),
      ("get_available_criteria", f"{UT}/statistic.py")])
prop("P10", "Criterion codes are unique, stable and name their family",
     "Every concrete criterion has a constant code, the same for the class and for each instance, made of its own short code "
     "followed by the identifier of its family; no two criteria share a code, so stored distributions are never confused.",
     ["programs"], "every concrete criterion and every pair of them",
     "Tests compare codes of single criteria with literals; a collision needs all pairs.",
     GOF_FILES, [("code and short_code of every criterion", GOF)])
PV = f"{HT}/p_value/calculator/p_value_calculator.py"
CV = f"{HT}/critical_values/calculator/critical_value_calculator.py"
CA = f"{HT}/critical_values/critical_area/critical_areas.py"
AF = f"{HT}/alternative_factory/alternative_factories.py"
GT = f"{HT}/goodness_of_fit_test/goodness_of_fit_test.py"
MT = f"{HT}/multiple_testing"
prop("P11", "The p-value is the documented tail of the simulated distribution",
     "For every simulated distribution and every observed statistic the p-value of the left, right and two-sided alternatives is "
     "F(s), 1 - F(s) and 2 min(F(s), 1 - F(s)), with F the distribution function of all simulated values; it therefore lies in [0, 1].",
     ["inputs"], "every non-empty simulated distribution, every statistic value (ties included), every alternative",
     "Tests compare a handful of statistics with one small distribution; off-by-one and tie errors sit between them.",
     [PV, AF], [("calculate of the three p-value calculators", PV), ("get_concrete_factory, get_p_value_calculator", AF)])
prop("P12", "Critical values and acceptance regions follow the level and the tail",
     "For every simulated distribution and level the critical value is the quantile of all simulated values (repetitions counted) at "
     "level alpha, 1 - alpha, or both alpha/2 and 1 - alpha/2; the acceptance region built from it contains exactly the values on the bulk "
     "side, the critical values included.",
     ["inputs"], "every simulated distribution, level, alternative and statistic value",
     "Tests use tie-free distributions and few levels; the defect repaired here (repeated values ignored) passed all of them.",
     [CV, CA, AF], [("calculate of the critical-value calculators", CV), ("contains of the critical areas", CA), ("get_critical_area", AF)])
prop("P13", "A test decides by its level and records what it used",
     "The p-value method rejects exactly when the p-value is at most the significance level, the critical-value method exactly when the "
     "statistic lies outside the acceptance region, both for the alternative the criterion declares and the distribution resolved for that "
     "criterion and sample size; the result records the statistic, the level and the p-value or critical value used, and the front end evaluates the "
     "criterion on the caller's sample and its size. Without a distribution no decision is made.",
     ["inputs", "configurations"], "every criterion, alternative, sample, level and simulated distribution",
     "Tests mock the parts with fixed numbers; the boundary p = alpha and the pairing of alternative, size and criterion are sampled at best.",
     [GT, f"{HT}/model.py"], [("decide of both decision methods, GoodnessOfFitTest.test", GT)])
prop("P14", "Null distributions hold independent evaluations of the criterion",
     "The Monte-Carlo resolver returns exactly as many values as simulations were asked for, each the criterion evaluated on a draw of its own, of the "
     "requested size, from the generator of the criterion's distribution and hypothesis parameters; counts and sizes that are not positive are refused. "
     "The storage resolver looks up the distribution stored for the criterion's code, its hypothesis parameters and the sample size and returns the "
     "stored values, or None when nothing is stored.",
     ["inputs", "configurations"], "every criterion, sample size, number of simulations and storage content",
     "A resolver that reuses a draw, drops values or swaps size and count still returns plausible random numbers, which tests only check for length.",
     [f"{HT}/limit_distribution/base.py", f"src/pysatl_criterion/utils/generator.py"], [("resolve of both resolvers", f"{HT}/limit_distribution/base.py"), ("get_available_generator", f"src/pysatl_criterion/utils/generator.py")])
prop("P15", "Multiple-testing adjustments are the documented procedures",
     "For every list of p-values each multiple-testing method returns, in the caller's order, exactly the adjusted values its documentation "
     "defines (Bonferroni, Sidak, Holm, Sidak-Holm, Benjamini-Yekutieli), capped at one; it rejects exactly the hypotheses whose adjusted value "
     "is below the threshold, and raises for values outside [0, 1].",
     ["inputs"], "every number of hypotheses, every order and multiplicity of p-values, every threshold",
     "The result depends on the order type of the p-values and on which caps bind: tests contain a few lists of such types.",
     [f"{MT}/fwer.py", f"{MT}/fdr.py", f"{MT}/abstract_multiple_testing.py"],
     [("adjust of every method", MT), ("test", f"{MT}/abstract_multiple_testing.py")])
PS = "src/pysatl_criterion/persistence"
DS = f"{PS}/sqlalchemy/datastorage.py"
ORMF = f"{PS}/sqlalchemy/models/limit_distribution_orm.py"
DECO = f"{PS}/sqlalchemy/alchemy_decorator.py"
LM = f"{PS}/models/limit_distribution.py"
RL = f"{HT}/critical_values/loader/remote_loader.py"
prop("P16", "Stored distributions change all together or not at all",
     "An insertion, bulk insertion or deletion that returns has made its whole change durable; one that raises (whatever database call fails) has changed "
     "nothing, so a failed bulk insertion leaves none of its distributions behind. Inserting a distribution again replaces the stored one, lookups change "
     "nothing, and every session an operation opens is closed however the operation ends.",
     ["inputs", "fault_sequences", "histories"], "every operation, table content and database call that can fail",
     "Unit tests run against a healthy in-memory database; a missing commit, a commit per row or a leaked session shows only when a call fails or another connection looks.",
     [DS, ORMF], [("insert_data, insert_bulk_data, delete_data", DS)], [("limit_distributions table", ORMF)])
prop("P17", "Storage lookups find exactly the distributions asked for",
     "get_data and delete_data act on exactly the stored distributions with the query's code, parameters, sample size and simulation count; get_data_for_cv and "
     "get_bulk_data consider exactly those with a requested code and a sample size within the accepted error of the requested one (both ends included) and return, per "
     "code, one with the greatest simulation count. When none matches the result is None or the empty list, never a neighbour or an error.",
     ["inputs", "histories"], "every table content (several experiments, sizes, parameters, counts) and every query",
     "The answer depends on what else is stored; tests store one or two rows, so a dropped condition or an off-by-one range end goes unnoticed.",
     [DS], [("get_data, delete_data, get_data_for_cv, get_bulk_data", DS)], [("limit_distributions table", ORMF)])
prop("P18", "A stored distribution is read back field by field as written",
     "For every distribution, what is read from the storage has the experiment, code, parameters, sample size, simulation count and statistic values that were "
     "written, each in its own field. Distributions that differ in experiment, code, parameters, size or count are stored side by side, and initialising the storage creates its tables.",
     ["inputs", "histories"], "every field value (empty and non-empty parameter lists included)",
     "Swapped or rounded fields with plausible values pass tests that compare only some fields of one record.",
     [ORMF, LM, DS], [("from_model, to_model", ORMF)], [("primary key", ORMF)])
prop("P20", "Loading reports exactly what the local cache then holds",
     "Loading critical-value distributions asks the remote storage only for criteria missing from the local cache, with the requested size and accepted error, and stores what it finds. "
     "It reports a criterion as loaded or cached exactly when the local cache holds it afterwards, the counts and not-found codes of a bulk load add up to the request, and a failed "
     "local write is never reported as success.",
     ["inputs", "fault_sequences", "configurations"], "every split of the requested criteria into cached, remote and missing; each storage operation failing; remote present or absent",
     "Tests use mock storages in a few fixed states; the defects repaired here (never cached, failed insert reported as success) passed them.",
     [RL], [("load, load_bulk", RL)])
prop("P19", "Stored statistic values survive their binary encoding",
     "For every list of values, of any length, what the column type reads is what it was given, in order: exactly in double precision, rounded to single precision only when the writer was set up "
     "for it, whatever the reader's own setting. None stays None and the older text form is accepted; data that is too short, of another version or of an unknown element type is refused, never misread.",
     ["inputs", "configurations"], "every list, every combination of writer and reader precision, every damaged header",
     "No test exercises the codec on its own; width and count errors show only for long lists or mixed settings.",
     [DECO], [("process_bind_param, process_result_value", DECO)])
prop("P21", "An unavailable database is reported, credentials are not",
     "If any step of connecting fails, init raises ConnectionError and create_safe returns None (it never raises); otherwise the storage's tables exist. No log record, stream "
     "or exception message of the storage contains the connection string's password, whichever operation fails.",
     ["fault_sequences", "configurations"], "every step of connecting and every storage operation, failing or not",
     "Tests check that an error is raised, not what it says, and use URLs without passwords.",
     [DS], [("init, create_safe", DS)])
GOF = "src/pysatl_criterion/statistics/goodness_of_fit"
prop("P22", "Statistics do not depend on the unit or the origin of the observations",
     "Measuring the observations in another unit or from another origin, and stating the location, scale or rate of the hypothesis in the same terms, leaves the value of every goodness-of-fit "
     "statistic unchanged, or multiplies it by a fixed power of the unit when it is built from those parameters; a statistic that makes no use of them does not change at all. The same "
     "holds for powers of the observations in the Weibull and log-normal families, whose shape takes the place of the scale.",
     ["inputs", "configurations"], "every sample, every unit and origin, every parameter of the hypothesis",
     "Tests evaluate statistics on a few samples under the standard parameters, where a forgotten scale, location or root is invisible.",
     [f"{GOF}/{f}.py" for f in ("normal", "uniform", "student", "exponent", "gamma", "log_normal", "weibull", "common")], [("execute_statistic", f"{GOF}/normal.py")])
prop("P23", "Every option of a criterion takes effect",
     "Each option a criterion is constructed with changes what the criterion does: its statistic, its hypothesis or the alternative it declares depends on it. "
     "A choice of alternative changes both the statistic and the declared alternative.",
     ["inputs", "configurations"], "every criterion, every constructor option, every value of it",
     "An option that is accepted and then dropped leaves every result at the default, which is what tests evaluate.",
     GOF_FILES, [("__init__ of every criterion", GOF)])
prop("P25", "Operations change neither their arguments nor hidden state",
     "Deciding a test, computing p-values, critical values and acceptance regions, adjusting p-values, simulating, listing, validating, estimating, loading and storing leave "
     "every list, array, dictionary, criterion, hypothesis and record they are given as it was, and change no object, class or module that existed before. "
     "Only the random stream, the databases and what an initialisation sets up may change.",
     ["inputs", "histories"], "every operation outside the statistics themselves (P01, P02), every argument",
     "A sorted argument or a remembered result shows only in what the caller does next; tests build fresh arguments for every call.",
     ["src/pysatl_criterion/hypothesis_testing", "src/pysatl_criterion/core/distributions", "src/pysatl_criterion/generator", "src/pysatl_criterion/persistence"],
     [("adjust, test", "src/pysatl_criterion/hypothesis_testing/multiple_testing"), ("calculate", "src/pysatl_criterion/hypothesis_testing/p_value")])
MLF = "src/pysatl_criterion/estimation/maximum_likelihood"
prop("P24", "Likelihoods are likelihoods and the greatest one is found",
     "Every likelihood function is a number that depends on all of its unchanged data and not on their order, evaluates the density of its own family at the parameters it fitted, and is "
     "multiplied by the unit to minus the number of observations when data of a scale family are measured in another unit. The search tries every likelihood of the data and returns the "
     "function of the greatest one (and its value), raising ValueError when none is positive.",
     ["inputs"], "every sample, every unit and origin, every order of the likelihoods",
     "Tests only check that likelihoods are not negative for a few samples, and the search could not even be imported.",
     [f"{MLF}/function_for_maximum_likelihood.py", f"{MLF}/maximum_likelihood.py"], [("find_result_of_likelihood_function", f"{MLF}/maximum_likelihood.py")])
prop("P26", "Stored null distributions are keyed by all that determines them",
     "A criterion's code together with its hypothesis parameters determines every constructor option its statistic depends on, other than the location and scale of the hypothesis, in which "
     "null distributions are invariant. Two criteria whose hypotheses differ in anything else never share both code and parameters, however close or permuted the values are.",
     ["inputs", "configurations"], "every criterion, every constructor option it depends on, every pair of values",
     "A stored distribution of another configuration gives plausible critical values; tests store and read one configuration.",
     GOF_FILES + ["src/pysatl_criterion/statistics/hypothesis.py"], [("code, hypothesis, parameters", "src/pysatl_criterion/statistics/hypothesis.py")])
prop("P27", "Every module imports by itself, and every promised or used name exists",
     "Every module of the package can be the first one a process imports, on every supported Python with the declared dependencies, and importing it neither draws random numbers nor does input or output other than reading its configuration. Every exported name, "
     "every global name a function uses, every criterion of the package of criteria and every import of the documentation's examples exists.",
     ["programs", "configurations"], "every module imported first, every function's names, every supported Python version",
     "The tests run in one process with one import order on one Python; a name used on an untested path or a cycle entered from the other side is not seen.",
     ["src/pysatl_criterion/__init__.py", "README.md", f"{GOF}/__init__.py"], [("import statements and __all__ of every module", "src/pysatl_criterion")])
prop("P28", "Every classical statistic equals its published definition",
     "For every sample of at least 20 distinct observations inside the support, the value of a classical statistic (empirical distribution function, moment, spacing, "
     "correlation, characteristic function, likelihood ratio) is that of its published formula for the hypothesised parameters. The alternative selects the one-sided or the two-sided "
     "distance, and a log-normal statistic is the one for normality of the standardised logarithms.",
     ["inputs"], "every statistic with a definition in closed form, every sample size and every value of the hypothesised parameters",
     "Existing tests pin one or two values computed by the code itself; an index off by one, a wrong divisor or a term left out for odd n is a plausible number for every other sample.",
     GOF_FILES, [("execute_statistic", "src/pysatl_criterion/statistics/goodness_of_fit")])
prop("P29", "Graph statistics are the invariants of the proximity graph of the sample",
     "The edge, degree, component, clique and independence statistics are those invariants of the graph whose vertices are the observations, repeated ones included, and in which two are joined "
     "when they are nearer than the statistic's threshold. The value does not depend on whether the sample is a list or an array, nor on the order of the observations.",
     ["inputs"], "every graph statistic, every order of the observations and of their distances against the threshold",
     "Existing tests compare one sample per statistic; exact ties with the threshold, repeated observations and a cluster at the end of the sample are seldom in it.",
     GOF_FILES, [("graph statistics", f"{GOF}/graph_goodness_of_fit.py")])
prop("P30", "Every likelihood function is its family's likelihood on every data set",
     "For every data set - repeated or boundary values, counts held as floats, very small, large or many values - a likelihood function is the product of its family's density over the data: "
     "at the maximising parameters where those have a closed form, at the fitted ones otherwise (the Weibull shape solves the likelihood equation). It is zero when the data hold a value "
     "the family cannot produce, and it never raises.",
     ["inputs"], "every likelihood function, every kind of data set",
     "Existing tests ask for a sign of the likelihood on a few arrays of integers; a wrong divisor, a missing boundary case or an overflow is not seen.",
     ["src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py"],
     [("likelihood_function_*", "src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py")])

prop("N01", "Simulated null distributions give tests of nominal level",
     "For data drawn from the hypothesised law, a test with a simulated null distribution rejects with probability close to the significance level.",
     ["inputs", "histories"], "every criterion, sample size and level",
     "One simulated run says little about a rejection probability.", [f"{HT}/limit_distribution/base.py"], [("MonteCarloLimitDistributionResolver", f"{HT}/limit_distribution/base.py")])
na("N01", "a statement about a probability over runs: it needs sampling or a distribution theory per statistic; static analysis decides its ingredients instead (P06, P07, P08, P11-P14)")
prop("N02", "Statistics of ordinary samples are finite numbers",
     "Evaluating a criterion on a sample of finite, distinct observations inside the support of its law gives a finite number, whatever the magnitudes.",
     ["inputs"], "every criterion, every sample",
     "Overflow and cancellation depend on magnitudes tests do not sample.", GOF_FILES, [("execute_statistic of every statistic", GOF)])
na("N02", "overflow and cancellation depend on floating-point magnitudes of data no interval argument in reach bounds (sums, products and logarithms of distribution functions at arbitrary arguments)")
prop("N03", "Processes sharing a database do not lose each other's distributions",
     "Two processes that store and look up distributions in one database at the same time see the result of some sequential order of their operations.",
     ["schedules"], "every interleaving of operations of two processes",
     "Tests run one process.", ["src/pysatl_criterion/persistence/sqlalchemy/datastorage.py"], [("AlchemyLimitDistributionStorage", "src/pysatl_criterion/persistence/sqlalchemy/datastorage.py")])
na("N03", "the outcome is decided by the database's isolation level and locking, not by this source; P16 decides what the source controls: one transaction per operation, all or nothing")
prop("N04", "Fitted parameters maximise the likelihood",
     "No other parameters of the family give the sample a greater likelihood than the ones a numerical fit finds.",
     ["inputs"], "every likelihood function, every sample",
     "Tests compare a few values.", ["src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py"], [("likelihood functions", "src/pysatl_criterion/estimation/maximum_likelihood/function_for_maximum_likelihood.py")])
na("N04", "whether an iterative fit reached a global maximum is a fact about run-time values; P30 decides the families whose maximum has a closed form, and the density at the fitted parameters of the others")
