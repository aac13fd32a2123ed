#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (one place for titles, statements and levels)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, observe=observe, technique=technique, note=note, state=state or []))

prop("C01", "Relevance stores hold exactly the records they were given",
 "After any sequence of record insertions, a relevance store contains each distinct query-document pair exactly once with the score of its first insertion: lookups, per-query maps, counts, query ids, exported records and a store rebuilt from the exported records all agree with that, and nothing else is present. Inserting a pair again is rejected with a duplicate-entry error and changes nothing, and building from records fails with that error exactly when they repeat a pair.",
 ["inputs", "histories"], "All histories of insertions with any ids and scores, duplicates included, for true and predicted stores and several key types.",
 "The unit tests insert four fixed records; they never interleave queries, repeat pairs at other positions, or use ids that are prefixes or look-alikes of each other.",
 ["src/relevance.rs"], [("RelevanceStoreBuilder::add_record", "src/relevance.rs"), ("RelevanceStoreBuilder::build", "src/relevance.rs"), ("records / into_records / get_score / get_map / n_docs", "src/relevance.rs")],
 ["public API of RelevanceStore and RelevanceStoreBuilder"],
 "model-based property testing of insertion histories", "Every generated history agrees with a map-of-maps model after every operation; sampling, not proof.")
prop("C02", "Rankings: every document once, by descending score, ties by id",
 "The ranking of a query contains exactly its stored documents, in non-increasing score order at full double precision, with equal scores ordered by ascending document id. The order of ids is that of their type (numbers are compared as numbers). It does not depend on the order of insertion or on other queries.",
 ["inputs", "configurations"], "All finite sets of scored documents (ties, neighbouring doubles, infinities, signed zeros, any size) and all insertion orders.",
 "Unit tests check one four-document ranking; precision loss, tie rules, size-dependent sorting and insertion-order effects are invisible to them.",
 ["src/relevance.rs"], [("sort in RelevanceStoreBuilder::build", "src/relevance.rs")], ["RelevanceStore::get_sorted"],
 "property testing: permutation, order and insertion-order metamorphic relation", "Both directions (permutation and order) checked on every generated list; NaN scores are out of scope.")
prop("C03", "Set-based metrics equal their definitions at every cutoff",
 "For every query, hits, success, precision, recall, F1 and R-precision equal their documented definitions over the top k of the ranking and the documents judged with a grade of at least 1, where k = 0 means the whole ranking, the denominator of precision at k is k itself, and every one of them is 0 (never NaN) when the query has no relevant documents.",
 ["inputs"], "All judgments, rankings and cutoffs.",
 "Tests cover a handful of hand-computed rankings of at most a few documents; cutoffs beyond the list, huge grades, unjudged documents and empty intersections are unsampled.",
 ["src/metrics.rs", "src/metrics/hits.rs", "src/metrics/success.rs", "src/metrics/precision.rs", "src/metrics/recall.rs", "src/metrics/f1.rs", "src/metrics/r_precision.rs"],
 [("compute_* functions", "src/metrics/*.rs"), ("metric dispatch", "src/metrics.rs compute_metric")], ["compute_metric / evaluate"],
 "differential property testing against a definitional reference model", "Reference model written from the documentation; relative tolerance 1e-12.")
prop("C04", "Average precision and reciprocal rank equal their definitions",
 "For every query and cutoff k, average precision is the sum of the precisions at the ranks up to k that hold a relevant document divided by the total number of relevant documents (0 if there are none), and reciprocal rank is one over the rank of the first relevant document among the top k (0 if there is none).",
 ["inputs"], "All judgments, rankings and cutoffs.",
 "A few fixed rankings and two trec_eval files are compared today; normalisation and cutoff mistakes that need particular list lengths or counts are not exercised.",
 ["src/metrics/average_precision.rs", "src/metrics/reciprocal_rank.rs", "src/metrics.rs"],
 [("compute_average_precision", "src/metrics/average_precision.rs"), ("compute_reciprocal_rank", "src/metrics/reciprocal_rank.rs")], ["compute_metric / evaluate"],
 "differential property testing against a definitional reference model", "Relative tolerance 1e-11.")
prop("C05", "Bpref equals its definition and ignores unjudged documents",
 "For every query, bpref is the average over the relevant documents of one minus the number of judged non-relevant documents ranked above (capped at the number of relevant documents) over the smaller of the numbers of relevant and of judged non-relevant documents; relevant documents not retrieved contribute 0, unjudged documents have no effect, and a relevant document with no judged non-relevant document above it contributes 1. It is 0 when there is no relevant document and always a number in [0, 1].",
 ["inputs"], "All judgments and rankings.",
 "Tests use fixed judgments in which both relevant and non-relevant documents exist; the caps and degenerate counts are not reached.",
 ["src/metrics/bpref.rs", "src/metrics.rs"], [("compute_bpref", "src/metrics/bpref.rs")], ["compute_metric / evaluate"],
 "differential property testing against a definitional reference model", "Absolute tolerance 1e-11.")
prop("C06", "DCG and nDCG (both gain functions) equal their definitions",
 "For every query and cutoff k, DCG is the sum over the top k of gain / log2(rank + 1), with gain equal to the grade (or 2^grade - 1 in the Burges variant) and 0 for unjudged documents; nDCG divides it by the DCG at the same cutoff of all judged documents sorted by grade, and is 1 when that ideal DCG is 0.",
 ["inputs"], "All judgments (grades up to 2^32 - 1 for the linear gain, up to about 1000 for the exponential one), rankings and cutoffs.",
 "Tests compare small grades on short lists; large grades, cutoffs between the list lengths and unretrieved judged documents are not sampled.",
 ["src/metrics/ndcg.rs", "src/metrics.rs"], [("compute_dcg / compute_ndcg / weighted_score", "src/metrics/ndcg.rs")], ["compute_metric / evaluate"],
 "differential property testing against a definitional reference model", "Relative tolerance 1e-11; exponential gains up to grade 900; above 1023, where they overflow, nDCG is judged only where it is not infinite by infinite (the recorded known finding).")
prop("C07", "Metrics obey the laws users rely on",
 "For every input: success, precision, recall, F1, R-precision, AP, RR, bpref and nDCG are numbers in [0, 1]; hits = precision * k = recall * |Rel|; recall, hits, success, AP, RR and DCG never fall as the cutoff grows, and a cutoff beyond all lists equals no cutoff. Values depend only on the order of scores (any order-preserving rescoring leaves them unchanged), not on insertion order or other queries; a judged grade-0 document counts like an unjudged one for every metric but bpref, and binary metrics see only whether a grade is positive. An ideal ranking scores 1, and moving a more relevant judged document up never lowers a metric.",
 ["inputs", "configurations"], "All judgments, rankings and cutoffs, and all the stated transformations of them.",
 "Relations between several evaluations are never tested; each unit test computes one value.",
 ["src/metrics.rs", "src/metrics", "src/relevance.rs"], [("compute_metric and the compute_* functions", "src/metrics.rs, src/metrics/*.rs")], ["compute_metric / evaluate"],
 "metamorphic property testing", "Needs no reference implementation; complements C03-C06.")
prop("C08", "Evaluation scores exactly the retrieved queries and averages them",
 "Evaluating a metric yields one score per retrieved query, equal to that metric on that query's own judgments and ranking, and the arithmetic mean, population variance and standard deviation of exactly those scores; queries that are judged but not retrieved do not take part. It fails with a missing-entry error if and only if some retrieved query has no judgments.",
 ["inputs", "configurations"], "All pairs of judgment and prediction stores (at least one retrieved query) and all metrics.",
 "Tests evaluate two queries present on both sides.",
 ["src/lib.rs", "src/metrics.rs"], [("evaluate", "src/lib.rs"), ("compute_metric query loop and check", "src/metrics.rs")], ["evaluate, Evaluation accessors"],
 "differential property testing of evaluation over multi-query collections", "Per-query oracle as in C03-C06; mean and variance by compensated sums.")
prop("C09", "Metric names round-trip and only documented names are accepted",
 "Displaying any metric gives its documented name, followed by @k when its cutoff k is not 0, and parsing that text gives the same metric back. A text is accepted exactly when it is a documented name optionally followed by '@' and a decimal cutoff that fits the cutoff type (0 meaning none), with that meaning; everything else is rejected with an invalid-format error.",
 ["inputs"], "All metrics and cutoffs; all strings.",
 "Tests parse each name once with one cutoff; overflow, damage and near-misses are untested.",
 ["src/metrics.rs"], [("Display and FromStr of Metric", "src/metrics.rs")], ["Metric::from_str, Metric::to_string"],
 "round-trip and grammar-based property testing", "Acceptance of a cutoff on bpref and r_precision is left open (undocumented).")
prop("C10", "TREC qrels are parsed exactly or rejected",
 "Parsing TREC qrels yields one judgment per line with the query id and document id taken verbatim from the first and third whitespace-separated columns and the grade from the fourth, negative grades becoming 0; further columns and the second one are ignored. The first line with fewer than four columns or a grade that is not a 32-bit integer gives an invalid-format error, a repeated query-document pair gives a duplicate-entry error, and nothing panics.",
 ["inputs"], "All texts, given as sequences of lines.",
 "Two well-formed samples are parsed by the tests, and a few malformed lines.",
 ["src/trec.rs"], [("parse_true_rels_in_trec", "src/trec.rs")], ["parse_true_rels_in_trec"],
 "grammar-based and arbitrary-string differential testing against a reference reader", "Reference reader splits on Unicode whitespace and range-checks decimals by hand.")
prop("C11", "TREC runs are parsed exactly or rejected",
 "Parsing a TREC run yields one prediction per line with the query id and document id taken verbatim from the first and third whitespace-separated columns and the score from the fifth at full double precision; the other columns, including the rank, are ignored. The first line with fewer than five columns or a score that is not a number gives an invalid-format error, a repeated query-document pair gives a duplicate-entry error, and nothing panics.",
 ["inputs"], "All texts, given as sequences of lines.",
 "Tests parse one well-formed sample and a few malformed lines; number syntax, precision and whitespace are unsampled.",
 ["src/trec.rs"], [("parse_pred_rels_in_trec", "src/trec.rs")], ["parse_pred_rels_in_trec"],
 "grammar-based and arbitrary-string differential testing against a reference reader", "Decimal conversion is compared with the standard library's correctly rounded parser.")
prop("C12", "Records survive JSON serialisation unchanged",
 "Serialising a true or predicted record to JSON gives an object with exactly the fields query_id, doc_id and score, and deserialising it, whatever the order of fields and the spacing, gives back the same ids and (finite) score. Objects lacking a field, or with a grade that is negative, fractional or above 2^32 - 1, are rejected.",
 ["inputs"], "All ids and all finite scores.",
 "The documentation example deserialises five literal lines; nothing is serialised.",
 ["src/relevance.rs", "src/lib.rs"], [("Serialize / Deserialize derive of Record", "src/relevance.rs")], ["serde feature"],
 "round-trip property testing", "JSON decoding uses serde_json's exact float mode in the harness (see C24 for the CLI's default mode).")
prop("C13", "Score maps are aligned by key into pairs and tuples",
 "Converting score maps to pairs or tuples yields, for each key in ascending order, the scores of that key from each map in the order the maps were given; it succeeds exactly when all maps have the same set of keys and fails with an invalid-argument error otherwise. No maps at all give no tuples.",
 ["inputs"], "All sequences of maps, including empty ones, with equal or nearly equal key sets.",
 "Tests use two or three maps of three keys.",
 ["src/statistical_tests.rs"], [("tuples_from_maps, pairs_from_maps", "src/statistical_tests.rs")], ["pairs_from_maps, tuples_from_maps"],
 "differential property testing", "Key sets that differ by one key in any one of the maps are generated on purpose.")
prop("C14", "Student's t-test reports the textbook statistics",
 "For paired samples with differences d, the t-test reports their number, mean, unbiased variance, effect size mean/sd, t = mean / sqrt(variance / n) and the two-sided p-value of Student's t distribution with n - 1 degrees of freedom; swapping the systems negates mean, effect size and t and keeps the p-value. Fewer than two pairs give an invalid-argument error, and identical differences an uncomputable error.",
 ["inputs"], "All lists of pairs of finite scores whose differences are numerically well-conditioned, of any length.",
 "Tests use one textbook sample of 20 pairs; other lengths, constant differences that are not representable, and the tails of the distribution are not covered.",
 ["src/statistical_tests/student_t_test.rs"], [("compute_t_stat, StudentTTest::from_paired_samples", "src/statistical_tests/student_t_test.rs")], ["StudentTTest accessors"],
 "differential property testing against independent statistics and an independent t distribution", "Own incomplete beta (validated once against scipy); p-values to 2e-8 absolute (the accuracy of the statrs crate) and 1e-4 relative in the tails.")
prop("C15", "Margins of error and confidence intervals are exact and consistent",
 "For a significance level a in (0, 1], the margin of error of a t-test is the 1 - a/2 quantile of Student's t with n - 1 degrees of freedom times sqrt(variance / n), that of a two-way ANOVA the same with (m-1)(n-1) degrees of freedom and sqrt(residual variance / n), and the confidence interval is mean minus and plus the margin; the interval excludes 0 exactly when the p-value is below a. Any other significance level, NaN included, gives an invalid-argument error.",
 ["inputs", "configurations"], "All well-conditioned samples; significance levels from 1e-5 to 0.999 for accuracy, all doubles for the error contract.",
 "One sample at the 95% level is tested.",
 ["src/statistical_tests/student_t_test.rs", "src/statistical_tests/two_way_anova_without_replication.rs"], [("margin_of_error, confidence_interval", "src/statistical_tests/student_t_test.rs"), ("margin_of_error", "src/statistical_tests/two_way_anova_without_replication.rs")], ["margin_of_error, confidence_interval"],
 "differential and duality property testing", "The quantile is checked by applying an independent tail function to it (relative error 1e-5); extreme levels are a known finding of the statrs quantile search.")
prop("C16", "Bootstrap tests are reproducible and well-formed",
 "The reported random state reproduces the p-value exactly, whether it was given or drawn; the p-value is a multiple of 1/n_resamples in [0, 1], the requested number of resamples (at least 1, 10000 by default) is used and reported, different random states give different resampling, and swapping the systems or scaling all scores by a power of two does not change the p-value. Fewer than two pairs give an invalid-argument error, and identical differences an uncomputable error.",
 ["inputs", "configurations"], "All well-conditioned paired samples, resample counts and random states.",
 "Tests run one sample with one seed.",
 ["src/statistical_tests/bootstrap_test.rs"], [("BootstrapTester::test", "src/statistical_tests/bootstrap_test.rs")], ["BootstrapTest accessors"],
 "metamorphic property testing over seeds, sizes and samples", "Exact comparisons of p-values between runs of the same code.")
prop("C17", "The bootstrap p-value estimates the right probability",
 "The p-value of the bootstrap test is the fraction of resamples, drawn uniformly with replacement from the differences shifted to mean zero and of the same size, whose absolute t-statistic is at least that of the observed differences (resamples without variance count as 0); up to Monte-Carlo error it equals that probability, and it is exactly 1 when the observed mean difference is 0.",
 ["inputs", "configurations"], "All well-conditioned paired samples and random states.",
 "One sample is compared with one recorded value at a coarse tolerance.",
 ["src/statistical_tests/bootstrap_test.rs"], [("resampling loop in BootstrapTester::test", "src/statistical_tests/bootstrap_test.rs")], ["BootstrapTest::p_value"],
 "property testing against exact enumeration, with Chernoff bounds", "Up to 8 differences by exhaustive enumeration, larger ones against an independent simulation; a correct implementation is rejected with probability below 1e-13 per case.")
prop("C18", "Two-way ANOVA reports the textbook statistics",
 "For an n-topic by m-system table of scores the analysis reports the system and topic means, the between-system, between-topic and residual variations as the textbook sums of squares (which add up to the total), the variances as those divided by m-1, n-1 and (m-1)(n-1), the F statistics as ratios to the residual variance, and p-values as upper tails of the corresponding F distributions; with two systems the between-system F is the square of the paired t. Fewer than two topics or systems, or a topic with another number of scores, give an invalid-argument error, and a table without residual variance an uncomputable error.",
 ["inputs"], "All tables of finite, numerically well-conditioned scores with at least two topics and two systems.",
 "One textbook table is tested; other shapes, degrees of freedom and degenerate tables are not.",
 ["src/statistical_tests/two_way_anova_without_replication.rs"], [("TwoWayAnovaWithoutReplication::from_tupled_samples", "src/statistical_tests/two_way_anova_without_replication.rs")], ["TwoWayAnovaWithoutReplication accessors"],
 "differential property testing against independent statistics and an independent F distribution", "Sums of squares to 1e-9 relative plus rounding; p-values to 1e-8 absolute.")
prop("C19", "Tukey HSD effect sizes are standardised mean differences",
 "The Tukey HSD effect size of systems i and j is the difference of their means divided by the square root of the ANOVA residual variance, so the matrix is antisymmetric with zero diagonal, additive along any chain of systems, unchanged by adding a constant per topic, and permuted when systems are permuted; it has the ANOVA's error contract.",
 ["inputs"], "All tables of finite, well-conditioned scores with at least two topics and two systems.",
 "One textbook table is tested.",
 ["src/statistical_tests/tukey_hsd_test.rs"], [("TukeyHsdTest::effect_sizes", "src/statistical_tests/tukey_hsd_test.rs")], ["TukeyHsdTest accessors"],
 "differential and metamorphic property testing", "Relative tolerance 1e-8.")
prop("C20", "Randomised Tukey HSD tests are reproducible and well-formed",
 "The reported random state reproduces all p-values exactly, whether it was given or drawn; the p-value matrix is m by m, symmetric, 1 on the diagonal, with multiples of 1/n_iters in [0, 1]; a pair with a larger absolute mean difference never has a larger p-value, and a pair of systems with equal means has p-value 1. The requested number of iterations (at least 1, 10000 by default) is used and reported, different random states give different shuffles, and an empty table or a topic with another number of scores gives an invalid-argument error.",
 ["inputs", "configurations"], "All tables of finite scores, iteration counts and random states.",
 "Tests run one table with one seed.",
 ["src/statistical_tests/randomized_tukey_hsd_test.rs"], [("RandomizedTukeyHsdTester::test", "src/statistical_tests/randomized_tukey_hsd_test.rs")], ["RandomizedTukeyHsdTest accessors"],
 "metamorphic property testing over seeds, sizes and tables", "Exact comparisons within one run and between runs of the same code.")
prop("C21", "Randomised Tukey HSD p-values estimate the right probability",
 "The p-value of a pair of systems is the probability, when each topic's scores are independently and uniformly permuted among all systems, that the largest minus the smallest system mean is at least the observed absolute difference of the pair, equal differences included even when rounding separates them; the reported value equals it up to Monte-Carlo error. With two systems this is Fisher's randomisation test.",
 ["inputs", "configurations"], "All tables of scores and random states.",
 "One table is compared with recorded values at a coarse tolerance; ties, many systems and other shapes are not.",
 ["src/statistical_tests/randomized_tukey_hsd_test.rs"], [("shuffling loop in RandomizedTukeyHsdTester::test", "src/statistical_tests/randomized_tukey_hsd_test.rs")], ["RandomizedTukeyHsdTest::p_values"],
 "property testing against exact enumeration on score lattices, with Chernoff bounds", "Small tables by exact dynamic programming over integer totals, larger ones against an independent simulation; false rejection below 1e-13 per comparison.")
prop("C22", "Statistical tests never panic and keep p-values in [0, 1]",
 "Whatever doubles (NaN, infinities, huge, tiny or constant values), table shapes, numbers of systems, resamples or iterations, random states and significance levels are given, every statistical test and every accessor returns a value or an error and does not panic; finite inputs that give a result give p-values in [0, 1], non-negative variances and a non-negative, non-NaN margin of error for levels in (0, 1].",
 ["inputs", "configurations"], "All lists of pairs, tables and parameters over all doubles.",
 "Tests only feed well-behaved scores.",
 ["src/statistical_tests", "src/statistical_tests.rs"], [("argument checks of all tests", "src/statistical_tests/*.rs")], ["all public functions of elinor::statistical_tests"],
 "fuzzing with structured extreme inputs", "Any panic below the public API is a violation.")
prop("C23", "elinor-convert writes exactly the parsed records or fails",
 "Converting a valid TREC file gives a JSONL file holding exactly its query-document pairs with their ids and scores unchanged (negative grades as 0, one JSON object with query_id, doc_id and score per line) and exit status 0. A malformed line, a duplicate pair, a score JSON cannot represent, an unreadable input or an output that cannot be written gives a non-zero exit status and a message.",
 ["inputs", "fault_sequences"], "All TREC files, relevance types and output failures.",
 "CI converts two valid files and looks at the exit status only.",
 ["elinor-cli/src/bin/convert.rs", "elinor-cli/src/lib.rs", "src/trec.rs"], [("main of elinor-convert", "elinor-cli/src/bin/convert.rs"), ("load_lines", "elinor-cli/src/lib.rs")], ["elinor-convert exit status and output file"],
 "generated-input testing of the built binary against a reference reader, with output faults", "Runs the real binary in a scratch directory; write failure injected through /dev/full and a missing directory.")
prop("C24", "elinor-evaluate reports the library's scores for its files",
 "For any valid JSONL files, elinor-evaluate prints the numbers of queries, documents and relevant documents and, for each requested metric in order (or the documented defaults), its name and mean to four decimals, and writes a CSV (or TSV) with one row per retrieved query holding the exact per-query scores; the order of the input lines does not matter. Malformed or duplicate records, a retrieved query without judgments, or an output (the CSV file or the standard output) that cannot be written in full give a non-zero exit status.",
 ["inputs", "configurations", "fault_sequences"], "All pairs of JSONL files, metric lists and separators.",
 "CI compares means on two trec_eval files; the CSV, separators, unusual ids and errors are untested.",
 ["elinor-cli/src/bin/evaluate.rs", "elinor-cli/src/lib.rs", "src/lib.rs", "src/metrics.rs"], [("main of elinor-evaluate", "elinor-cli/src/bin/evaluate.rs")], ["elinor-evaluate stdout, CSV and exit status"],
 "generated-input differential testing of the built binary against the reference model", "Scores more than a few ulps apart are required to keep their order; last-bit rounding of JSON numbers is a known finding.")
prop("C25", "elinor-compare aligns systems by topic id and reports exact statistics",
 "For any CSV files with the same topics and metrics whose statistics exist, elinor-compare reports the numbers of systems, topics and (where all files have the same) metrics, the means of every common metric and, to four decimals, the paired t-test (two systems) or the ANOVA table, system means, margin of error and effect sizes (three or more) of the scores paired by topic id, whatever the order of rows or extra columns in each file; topic ids are opaque strings, so ids that look like numbers, have leading zeros or mix with text are distinct topics. Pretty and raw output and comma and tab input show the same values.",
 ["inputs", "configurations"], "All sets of one to twelve score files with the same topic ids, for metrics whose statistics exist (the scores are not degenerate); no column is named * and the topic column is not named system_<number> (those files are refused).",
 "CI runs it on three fixed files and checks only the exit status.",
 ["elinor-cli/src/bin/compare.rs"], [("main, compare_two_systems, compare_multiple_systems", "elinor-cli/src/bin/compare.rs")], ["elinor-compare stdout and exit status"],
 "generated-input differential testing of the built binary against independent statistics", "Printed values must round to within half a unit (plus statrs accuracy) of the oracle.")
prop("C26", "elinor-compare's randomised p-values estimate the right probabilities",
 "The bootstrap, Fisher randomisation and randomised Tukey HSD p-values printed by elinor-compare equal, up to Monte-Carlo error for the requested number of resamples and iterations (shown in the headings), the probabilities defined for those tests on the scores paired by topic id, for every common metric and pair of systems.",
 ["inputs", "configurations"], "All sets of two to twelve score files with the same topics, resample and iteration counts.",
 "The CLI's random results are never checked.",
 ["elinor-cli/src/bin/compare.rs", "src/statistical_tests/bootstrap_test.rs", "src/statistical_tests/randomized_tukey_hsd_test.rs"], [("compare_two_systems, compare_multiple_systems", "elinor-cli/src/bin/compare.rs")], ["elinor-compare stdout"],
 "property testing of the built binary against exact enumeration, with Chernoff bounds", "Runs are seeded by the operating system; the bounds make a false alarm less likely than 1e-13 per value.")
prop("C27", "TREC files to comparison: the pipeline reports the right means",
 "Converting TREC qrels and runs, evaluating them and comparing the resulting CSV files reports, for every system and metric, the mean of the documented metric over the retrieved queries computed from the TREC files themselves, without losing or merging queries or documents at any stage.",
 ["inputs", "configurations"], "All TREC qrels and one to three runs over the same queries, with arbitrary non-blank ids.",
 "CI chains the tools on one data set and ignores the final numbers.",
 ["elinor-cli/src/bin/convert.rs", "elinor-cli/src/bin/evaluate.rs", "elinor-cli/src/bin/compare.rs", "src/trec.rs", "src/metrics.rs"], [("the three binaries", "elinor-cli/src/bin/*.rs")], ["final stdout of elinor-compare"],
 "end-to-end generated-input testing of the built binaries against the reference model", "Ids include quotes, commas, leading zeros and non-ASCII characters.")

prop("C28", "elinor-compare refuses what it cannot analyse",
 "elinor-compare ends with a non-zero exit status and a message, instead of reporting statistics of something else, whenever an input file is missing, empty, a directory, not UTF-8 or without any topic among several files, has a row with too many fields, or lacks a number for some topic under a compared metric (an empty cell or a text that is not a number); whenever several files do not have the same topic header (the message shows the headers), share no metric, or do not have exactly the same topics, each once per file (topics removed, added, renamed or repeated), or have only one topic; and whenever no input is given, the print mode is unknown, or a count is not a non-negative integer. The same holds when two systems differ by the same amount for every topic, or three or more all have the same score for every topic, under some common metric: its tests do not exist; and when the standard output has no room for the whole report.",
 ["inputs", "configurations"], "All sets of one to five score files and every one of the stated defects at any place in them (several files where the defect needs them); sound files are accepted.",
 "No test runs elinor-compare on defective files; CI runs it on three sound ones.",
 ["elinor-cli/src/bin/compare.rs"], [("main: reading and checking of the inputs, extract_topics, extract_common_metrics, get_means", "elinor-cli/src/bin/compare.rs")], ["exit status and stderr of elinor-compare"],
 "fault injection into generated inputs of the built binary", "One defect per case; any non-zero exit status with a message is a refusal, a panic included.")
prop("C29", "Evaluation depends on nothing but its stores and its metric",
 "The result of evaluating a metric is a function of the records of the judgments and predictions it is given and of the metric alone: whatever other evaluations, failed ones included, came before, whatever other stores with the same ids exist or were dropped, and whichever thread it runs in, repeating it gives the same scores, those of the definitions, and the stores still hold the same records afterwards.",
 ["histories", "schedules"], "All histories of evaluations over several collections that share query and document ids, with stores dropped and rebuilt on the way, also in several threads.",
 "Every unit test evaluates once, on stores of its own.",
 ["src/lib.rs", "src/metrics.rs", "src/relevance.rs"], [("evaluate and compute_metric", "src/lib.rs, src/metrics.rs")], ["evaluate, RelevanceStore::records"],
 "stateful property testing of histories against the reference model", "Threads are scheduled by the operating system and share no store.")
prop("C30", "Errors name what is wrong",
 "A duplicate-entry error names the query id and the document id of the repeated pair, a missing-entry error names a retrieved query that has no judgments, an invalid-format error of the TREC readers quotes the first line with too few columns or the column that is not a number, and that of a metric name quotes the name; the first fault decides.",
 ["inputs"], "All insertion histories with a repeated pair, all evaluations with judgments missing, all texts in TREC form, all metric names.",
 "Tests compare a few whole messages; that the right one of many records is named is not tested.",
 ["src/relevance.rs", "src/metrics.rs", "src/trec.rs"], [("add_record", "src/relevance.rs"), ("compute_metric, FromStr of Metric", "src/metrics.rs"), ("parse_true_rels_in_trec / parse_pred_rels_in_trec", "src/trec.rs")], ["messages of ElinorError"],
 "property testing of error messages over generated faults", "Only that the message contains the ids, line, column or name; the wording is free.")
prop("C31", "The tools understand their documented options in every form",
 "The command-line tools take their documented options in any order, by long name or (where documented) short name, with the value after a space, after '=' or (short names) attached, and several values after one name or one name per value, and each form of a command line has the same results; the help text lists the options. Unknown options, stray arguments, options given twice, options without their value, missing required options and unknown metrics, relevance types or print modes end with a non-zero exit status and a message, and no output file is written.",
 ["inputs", "configurations"], "All forms of command lines of elinor-convert, elinor-evaluate and elinor-compare, and the stated faults.",
 "No test runs the command-line tools; CI uses one form of each command line.",
 ["elinor-cli/src/bin/convert.rs", "elinor-cli/src/bin/evaluate.rs", "elinor-cli/src/bin/compare.rs", "elinor-cli/src/lib.rs"], [("Args of each binary", "elinor-cli/src/bin/*.rs"), ("FromStr / ValueEnum of the argument types", "elinor-cli/src/*.rs")], ["exit status, stdout, stderr and output files"],
 "metamorphic testing of the built binaries over forms of a command line", "The plain form is the reference; the contents of the results are checked by C23-C27.")
prop("C32", "Evaluation does not depend on the type of the ids",
"Relevance stores, evaluation with every metric, and pairing or tupling of the scores work alike for ids of every type with a lawful order: only equality and order of ids count, never how they are displayed. With ids of any type (numbers, characters, borrowed or shared strings, and the user's own types, also such that display different ids alike, display equal ids differently, or display them in another order), distinct ids stay distinct and equal ids are the same; rankings (ties by the ids' order), each query's score, the mean and variance are those of the same data with string ids in the same order; repeated pairs, queries without judgments and maps with different keys are refused just the same.",
["inputs", "configurations"], "All judgments and predictions, every metric and cutoff, all types of ids.",
"Unit tests use character and string ids, whose display is as good as the id.",
["src/lib.rs", "src/relevance.rs", "src/metrics.rs", "src/statistical_tests.rs"], [("evaluate, Evaluation", "src/lib.rs"), ("RelevanceStore<K, T>, RelevanceStoreBuilder<K, T>", "src/relevance.rs"), ("compute_metric<K>", "src/metrics.rs"), ("tuples_from_maps, pairs_from_maps", "src/statistical_tests.rs")], ["Evaluation::{scores, mean, variance}", "RelevanceStore::{get_sorted, get_score}", "tuples_from_maps, pairs_from_maps"],
"property testing against the reference model of metrics, over ten types of ids", "The reference model names ids by their rank.")

claimed = set(sys.argv[1].split(",")) if len(sys.argv) > 1 else {p["id"] for p in P}
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "state": p["state"],
                        "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None}}, ensure_ascii=False) + "\n")
        assert len(p["title"]) <= 80, p["id"]
m = {"version": 1, "setup_cmd": "bash tools/setup.sh",
     "checks": [{"property": p["id"], "quick_cmd": f"bash tools/check.sh {p['id']}", "thorough_cmd": f"VERIF_TIER=thorough bash tools/check.sh {p['id']}",
                 "evidence_file": f"evidence/{p['id']}.json", "technique": p["technique"], "level": "exploration", "level_note": p["note"]}
                for p in P if p["id"] in claimed],
     "not_applicable": [{"property": p["id"], "reason": "check under construction"} for p in P if p["id"] not in claimed],
     "notes": "No hooks in /repo: every check uses the public API or the built binaries. Genuine defects are repaired by 'fix:' commits or listed in known_findings.txt."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
