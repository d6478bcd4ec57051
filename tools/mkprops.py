#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list is kept here, in readable form)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          **({"state": state} if state else {}),
                          "observe_at": observe, "hook_needed": None}})
FMT = "segeval/format.py"; SIM = "segeval/similarity/__init__.py"; B = "segeval/similarity/boundary.py"
S = "segeval/similarity/segmentation.py"; W = "segeval/similarity/weight.py"
MB = "segeval/similarity/distance/multipleboundary.py"; DI = "segeval/similarity/distance/__init__.py"
WIN = "segeval/window/__init__.py"; PK = "segeval/window/pk.py"; WD = "segeval/window/windowdiff.py"
AG = "segeval/agreement/__init__.py"; PI = "segeval/agreement/pi.py"; KA = "segeval/agreement/kappa.py"; BI = "segeval/agreement/bias.py"
DA = "segeval/data/__init__.py"; JS = "segeval/data/jsonutils.py"; TS = "segeval/data/tsv.py"
ML = "segeval/ml/__init__.py"; UT = "segeval/util/__init__.py"; MA = "segeval/util/math.py"; CO = "segeval/compute.py"; IN = "segeval/__init__.py"

prop("P01", "Format conversions lose nothing and agree with each other",
 "Converting segment masses to unit positions (one label per unit, segments labelled 1, 2, 3, ...) and back returns the same masses, and the boundary string of a segmentation of n units has n-1 positions and carries boundary type 1 exactly at the ends of all segments but the last. An NLTK string (with any boundary symbol) converts to the masses of the segmentation whose boundaries are at the string's boundary symbols, and position labels convert to masses by runs of equal labels, whatever the labels are.",
 ["inputs"], "every sequence of positive masses (one to hundreds of segments, any sizes), every non-empty label sequence (ints of any size, strings), every NLTK string over any boundary/non-boundary symbols, given as tuple or list",
 "the tests convert a handful of fixed segmentations; the laws quantify over every segmentation, including unit-length segments at either end, one segment, and very long ones",
 [FMT], [("groupby run lengths, label expansion, boundary placement, split on boundary symbol", FMT)],
 ["segeval.convert_positions_to_masses", "segeval.convert_masses_to_positions", "segeval.boundary_string_from_masses", "segeval.convert_nltk_to_masses"])
prop("P02", "A comparison does not depend on the format a segmentation is written in",
 "The same pair of segmentations written as masses, positions, an NLTK string or boundary sets gives equal results in every metric that accepts the format: boundary edit distance statistics, confusion matrix, boundary and segmentation similarity (all four formats), Pk and WindowDiff (all but sets, which they reject with SegmentationMetricError). The same holds for whole datasets whose declared boundary format differs, including all agreement coefficients, and for lists in place of tuples. Renaming the position labels of segments to other labels, distinct within a segmentation, changes nothing.",
 ["inputs", "configurations"], "all single-boundary-type segmentation pairs of at least 2 units, all metrics and their options, all four formats, datasets of two or more coders",
 "the tests use each format on a few fixed pairs, mostly for one metric",
 [SIM, AG, PK, WD, WIN, FMT, UT], [("format dispatch before computing boundary statistics", SIM), ("format dispatch when counting (potential) boundaries", AG), ("format dispatch in window metrics", PK + ", " + WD), ("dataset format overrides the keyword", UT)],
 ["every metric function with boundary_format"])
prop("P03", "Boundary edits account exactly for the difference between segmentations",
 "The additions, substitutions and transpositions returned by boundary edit distance, taken together, cover every boundary present in one string but not at the same position in the other exactly once, and nothing else: each transposition names two positions and a type that is missing from opposite strings at those positions, and the remaining differences at every position are exactly covered by substitutions (one type of each side) and additions (labelled with the side, a or b, that has the boundary). Identical strings yield no edits.",
 ["inputs"], "all pairs of equal-length boundary strings with any number of integer boundary types per position, all n_t >= 1",
 "eleven fixed pairs are tested; exact accounting is a conservation law over all pairs",
 [MB], [("symmetric-difference options with discarding of transposed boundaries", MB), ("pairing of remaining differences into substitutions and additions", MB)],
 ["segeval.boundary_edit_distance", "segeval.boundary_statistics"])
prop("P04", "Boundary edit distance follows its near-miss and substitution rules",
 "A transposition moves one boundary over 1 to n_t - 1 positions; nearer pairs are matched before farther ones and, at equal distance, left ones before right ones; no boundary takes part in two transpositions; and a pair is left alone exactly if its boundary is already used or both of its positions still hold a possible substitution. No admissible transposition is left out. What remains at a position is paired into as many substitutions as possible with the smallest possible total type distance, the excess being additions.",
 ["inputs", "configurations"], "all pairs of equal-length boundary strings with any number of integer types per position, all n_t >= 1",
 "the greedy order, the overlap rule and minimal pairing only differ from near-identical rules on particular arrangements of several boundaries and types within n_t positions; the tests hold eleven arrangements",
 [MB], [("spans iterated in increasing order, positions left to right", MB), ("overlap and double-substitution guards", MB), ("minimum-delta permutation search", MB)],
 ["segeval.boundary_edit_distance"])
prop("P05", "Boundary-edit-based comparison is symmetric, local and label-shift invariant",
 "Swapping the two segmentations leaves boundary similarity, segmentation similarity, edit counts and transpositions unchanged and exchanges the sides of additions and the two types of substitutions (in number and total cost). Adding the same constant to every boundary type, or extending both texts with further boundary-free units, changes no edit (beyond the added constant) and no boundary similarity value; comparing two concatenated text pairs separated by at least n_t - 1 boundary-free positions yields exactly the edits of the parts. A larger n_t never increases the number of edits.",
 ["inputs", "configurations"], "all pairs of boundary strings or masses, all n_t >= 1, default and unscaled weights",
 "no existing test relates two runs to each other",
 [MB, SIM, B, S, W], [("side bookkeeping", MB), ("position-local edit detection", MB), ("type-range scaling of substitutions", W)],
 ["segeval.boundary_edit_distance", "segeval.boundary_similarity", "segeval.segmentation_similarity"])
prop("P06", "Boundary statistics are mutually consistent",
 "In the statistics of a pair, matches lists the type of every boundary found at the same position in both, full_misses the type of every boundary found in only one, boundaries_all the number of boundaries in both, boundary_types the types occurring (type 1 if there are none), pbs the number of positions times the number of types, and additions, substitutions and transpositions are those of boundary edit distance. Twice the matches plus the full misses equal boundaries_all, the full misses equal the additions plus twice the substitutions and transpositions, and count_edits is the sum of the three weighting functions applied to the three lists.",
 ["inputs", "configurations"], "all pairs in any format, any types, n_t >= 1, default, unscaled or user-supplied weighting functions, whatever the boundary_types option says",
 "one fixed pair is tested",
 [SIM, DI, W], [("per-position intersection and symmetric difference", SIM), ("type identification", DI), ("weights applied to edits", SIM)],
 ["segeval.boundary_statistics"])
prop("P07", "Boundary similarity is one minus weighted edits over edits plus matches",
 "Boundary similarity of a pair equals 1 - count_edits / (number of edits + number of matches), and 1 if neither has a boundary. With the documented weights it lies in [0, 1] and equals 1 exactly if the segmentations are identical. one_minus returns one minus it, return_parts returns (numerator, denominator, additions, substitutions, transpositions) whose ratio is the value, whatever weights and n_t are used.",
 ["inputs", "configurations"], "all comparable pairs in any format, with any boundary types, n_t >= 1, all combinations of documented weighting functions, one_minus, return_parts",
 "about ten fixed pairs are tested, nearly all with one boundary type and n_t=2",
 [B, SIM], [("fraction of unedited boundary pairs", B)], ["segeval.boundary_similarity"])
prop("P08", "Segmentation similarity is the proportion of unedited potential boundaries",
 "Segmentation similarity of a pair equals 1 - count_edits / pbs, where pbs is the number of potential boundary positions times the number of boundary types that occur (at least one); it is 1 for texts of a single unit. With the documented weights it lies in [0, 1], equals 1 exactly if the segmentations are identical, and for a single boundary type is never below boundary similarity. one_minus and return_parts (numerator, denominator) are consistent with the value.",
 ["inputs", "configurations"], "all comparable pairs in any format, with any boundary types (whatever the boundary_types option says), n_t >= 1, all documented weights, one_minus, return_parts",
 "about eight fixed pairs are tested, none with several boundary types",
 [S, SIM], [("potential boundaries as denominator", S)], ["segeval.segmentation_similarity"])
prop("P09", "The edit-based confusion matrix attributes every boundary once",
 "In the confusion matrix of (hypothesis, reference), cell [t][t] is the number of matches of type t plus the transposition weight of each near miss of type t, cell [h][r] counts the substitutions of h in the hypothesis for r in the reference, [None][t] counts the additions of t on side a (boundaries only the hypothesis has) and [t][None] those on side b (only the reference); all other cells are 0. Hence every boundary of either segmentation is attributed to exactly one match, near miss, substitution or addition cell of its type. For datasets this holds of each pair's matrix.",
 ["inputs", "configurations"], "all pairs of segmentations with any types, n_t >= 1, any transposition weighting function, and datasets",
 "two fixed pairs are tested, neither with a substitution inside a near-miss neighbourhood or n_t > 2",
 [SIM, ML], [("matrix filled from matches and edits", SIM)], ["segeval.boundary_confusion_matrix"])
prop("P10", "Precision, recall and F-measure follow their definitions",
 "For a class, precision is its correct count over its row total, recall over its column total, and F-beta is (1+beta^2)PR/(beta^2 P+R), each 0 when the correct count is 0. Micro-averages divide the sum over all classes of the numerators by the sum of the denominators (of correct/total for precision and recall, of (1+beta^2)PR and beta^2 P+R for F) and are 0 when the numerators sum to 0; macro-averages are the plain mean over all classes. For a dict of matrices the result is the dict of the individual results; all values lie in [0, 1].",
 ["inputs", "configurations"], "all confusion matrices with non-negative int or Decimal counts over any hashable labels (including None), existing classes, any beta > 0 (int, float, Decimal), micro/macro, single matrices and dicts of them",
 "the tests use two-class matrices with a few counts and beta 1",
 [ML], [("class totals by row/column", ML), ("micro/macro averaging", ML)], ["segeval.precision", "segeval.recall", "segeval.fmeasure"])
prop("P11", "A confusion matrix behaves as a default-zero table with an exact class list",
 "After any sequence of assignments, increments and reads of cells matrix[predicted][actual], every cell holds the last value written (0 if never written), classes() returns exactly the set of labels that occur as predicted or actual in a cell written or read so far, and distinct matrices never influence each other. Assigning a whole row is rejected with AttributeError and leaves the matrix unchanged. Computing precision, recall or F-measure changes no cell value and no class.",
 ["histories"], "all finite histories of cell writes, increments, reads, classes() calls and metric evaluations over several matrices with any hashable labels",
 "the class list is cached behind a dirty flag; the tests call classes() once, after all writes",
 [ML], [("dirty flag set on inner writes, classes recomputed", ML)], ["segeval.ConfusionMatrix", "segeval.precision"],
 state=[{"name": "cached classes / dirty flag", "meaning": "class list valid", "where": ML}])
prop("P12", "Pk equals its definition",
 "Pk slides a window of k units over the two texts and returns the fraction of the n-k windows in which exactly one of hypothesis and reference has its two end units in the same segment (0 if no window fits); k is the given window_size or the window size computed from the reference alone. return_parts gives (disagreements, windows), one_minus gives one minus the value; identical segmentations score 0, and with equal window size Pk never exceeds WindowDiff.",
 ["inputs", "configurations"], "all pairs of segmentations of equal length (1 to hundreds of units), window sizes from 1 to beyond the text, mass, position and NLTK formats, custom rounding functions",
 "the tests cover fixed pairs with default windows",
 [PK, WIN], [("probe at window ends", PK)], ["segeval.pk"])
prop("P13", "WindowDiff equals its definition",
 "WindowDiff slides a window of k units, k being the given window_size or the one computed from the reference alone, over the two texts and returns the fraction of the n-k windows in which hypothesis and reference have different numbers of boundaries (0 if no window fits). With the Lamprier et al. option both texts are padded on either side with a phantom segment of k units, and the count of differing windows is divided by n+k+1; identical segmentations score 0. return_parts gives (differing windows, divisor) and one_minus gives one minus the value.",
 ["inputs", "configurations"], "all pairs of segmentations of equal length (1 to hundreds of units), window sizes from 1 to beyond the text, mass, position and NLTK formats, with and without the Lamprier option, custom rounding functions",
 "the tests cover fixed pairs with default windows",
 [WD, WIN], [("boundary counts per window", WD), ("phantom padding", WD)], ["segeval.window_diff"])
prop("P14", "The window size is half the mean reference segment length",
 "compute_window_size returns the mean mass of all given segments divided by two and rounded by the given rounding function (default round, ties to even), but at least 2. It gives this for one segmentation and for arbitrarily nested dicts of them (all segments pooled), in mass and position format, and Pk and WindowDiff called without window_size give the same result as when called with this size of their reference.",
 ["inputs", "configurations"], "all segmentations and nested collections (items, coders, deeper groups) of them, mass and position format, any rounding function (whatever type of integral number it returns)",
 "three fixed inputs are tested",
 [WIN, PK, WD], [("recursive collection of masses, mean/2, floor of 2", WIN)], ["segeval.compute_window_size", "segeval.pk", "segeval.window_diff"])
prop("P15", "Dataset comparisons equal the individual pair comparisons, all and only them",
 "Comparing one dataset yields, per item, one entry for every unordered pair of the item's coders (both orders if permuted is true, which is the default only for Pk and WindowDiff), and comparing two datasets yields one entry for every item both contain and every (coder of first, coder of second) pair; nothing else. The entry 'item,first,second' equals the metric called directly on (first's, second's) segmentation with the same options, first being the hypothesis.",
 ["inputs", "configurations"], "all datasets of any number of items, groups of coders differing by item, overlapping or disjoint item sets, all pairwise metrics (including statistics and confusion matrices) and options (permuted, one_minus, return_parts, n_t, window_size, weights), all boundary formats",
 "the tests check counts or averages on shipped samples and a few named entries",
 [CO, UT], [("enumeration of coder pairs per item", CO), ("argument routing", UT)], ["all metric functions on Dataset arguments"])
prop("P16", "summarize returns population statistics of its values",
 "summarize returns the arithmetic mean, population standard deviation, population variance, standard error (standard deviation over the square root of the count) and the number of the given values. Reordering the values changes nothing (to decimal precision), adding a constant shifts only the mean, and scaling by c scales mean, deviation and error by c and |c| and the variance by c squared.",
 ["inputs"], "every non-empty dict of int or Decimal values (negative, huge, tiny, equal), including the results of pairwise metrics",
 "the tests pin averages of fixed samples",
 [CO, MA], [("mean, var, std, stderr", MA)], ["segeval.summarize"])
prop("P17", "Actual agreement pools similarity over all coder pairs and items",
 "Actual agreement of a dataset is the sum of the comparison's numerators divided by the sum of its denominators over all unordered coder pairs and all items (1 if no coder places any boundary), for boundary similarity by default and segmentation similarity or another comparison function if chosen, with n_t and weights passed on. With return_parts it returns those numerators, denominators and the potential boundaries of every comparison, and for every coder one [boundaries placed, potential boundaries] entry per comparison.",
 ["inputs", "configurations"], "all datasets (Dataset or plain nested dict) in which two or more coders code every item, any formats and boundary types (whatever boundary types a dataset declares), n_t >= 1, documented weights",
 "the tests pin values of four shipped samples",
 [AG], [("loop over coder pairs and items, pooled fractions", AG)], ["segeval.actual_agreement_linear"])
prop("P18", "Fleiss' pi, kappa and annotator bias follow their definitions",
 "pi and kappa are (A_a - A_e)/(1 - A_e) with A_a the actual agreement. For pi, A_e is the square of the mean, over all coders and their comparisons of items with potential boundaries, of boundaries placed over potential boundaries; for kappa, A_e is the mean over coder pairs of the product of the two coders' pooled boundary rates. Bias is pi's A_e minus kappa's; return_parts returns (A_a, A_e), respectively the two A_e; kappa refuses items with fewer than two coders and both refuse items with unequal numbers of coders.",
 ["inputs", "configurations"], "all datasets in which two or more coders code every item, with at least one potential boundary and A_e < 1 for the coefficients, any formats, boundary types, n_t, weights and comparison function",
 "the tests pin values of shipped samples",
 [PI, KA, BI, AG], [("expected agreement from per-coder boundary counts", PI + ", " + KA)], ["segeval.fleiss_pi_linear", "segeval.fleiss_kappa_linear", "segeval.artstein_poesio_bias_linear"])
prop("P19", "Agreement depends only on the codings, and is 1 exactly when all agree",
 "Renaming coders or items consistently, or listing them in another order, leaves actual agreement, pi, kappa and bias unchanged (to decimal precision). Actual agreement lies in [0, 1] and, like pi and kappa, equals 1 exactly if all coders segment every item identically; pi and kappa never exceed actual agreement.",
 ["inputs", "configurations"], "all datasets in which two or more coders code every item, with A_e < 1, under all renamings and orderings, default weights",
 "no existing test permutes or renames; perfect agreement is tested on one sample",
 [AG, PI, KA, BI, DA], [("coder sets and pair loops", AG), ("set of coders", DA)], ["segeval.actual_agreement_linear", "segeval.fleiss_pi_linear", "segeval.fleiss_kappa_linear", "segeval.artstein_poesio_bias_linear"])
prop("P20", "Adding and copying datasets merges codings and never touches the operands",
 "After any sequence of creating, copying, adding (+) and extending (+=) datasets, a dataset contains exactly the codings put into it, its coders set names exactly the coders of these codings, and + and copy leave their operands unchanged and share no items, coders, properties or boundary types with them, keeping the left operand's properties, boundary types and boundary format; a new dataset copies the properties and boundary types it is given. Copies made by the copy module or by pickling hold the same codings, coders, properties, types and format. Adding a coding of an item by a coder who already coded it raises DataIOError instead of replacing either coding.",
 ["histories", "inputs"], "all histories of construction, copy, +, +=, item and coding assignment, and property changes over several datasets with overlapping items and coders",
 "a few two-step histories are tested",
 [DA], [("merge with duplicate check", DA), ("deep copy", DA)], ["segeval.Dataset"],
 state=[{"name": "coders, properties, boundary_types, boundary_format", "meaning": "dataset metadata beside the codings", "where": DA}])
prop("P21", "JSON output followed by input returns the same dataset",
 "Writing a mass dataset with output_linear_mass_json and reading it back gives the same items, coders and masses, the same properties (plus the segmentation type), and a coders set naming all coders, so that every metric and agreement coefficient gives the same result on both. Writing to an existing file replaces it, writing to a directory creates output.json in it, and writing changes nothing in the dataset.",
 ["inputs", "histories"], "all mass datasets with any string item and coder names (unicode, empty, punctuation), any masses, any JSON-serialisable properties other than the reserved fields, and sequences of writes to the same path",
 "one shipped dataset is written and compared textually, never read back",
 [JS, DA], [("json dump/load of items and properties", JS)], ["segeval.output_linear_mass_json", "segeval.input_linear_mass_json"])
prop("P22", "Anything that is not a linear segmentation document is rejected with DataIOError",
 "Reading a file that is not valid JSON, not a JSON object, lacks segmentation_type or items, has a segmentation_type other than linear, or whose items do not map coders to lists raises DataIOError, whatever bytes it contains; every other JSON document loads with exactly the codings and properties it states. No read, accepted or rejected, leaves the file open.",
 ["inputs"], "all file contents: arbitrary bytes, truncated or mutated documents, arbitrary JSON values, documents with missing, additional or wrongly typed fields",
 "five fixed malformed files are tested",
 [JS], [("validation while loading", JS)], ["segeval.input_linear_mass_json"])
prop("P23", "TSV files load exactly the codings they contain",
 "Reading a TSV file yields one item named after the file (its base name without the last extension) holding, for every row after the header, the row's coder with the row's integers in order as masses (or, for legacy position files, the run lengths of the labels), whatever the delimiter, row lengths, line endings, quoting and blank lines; all coders are in the coders set. Nothing is read from the header row.",
 ["inputs"], "all well-formed files: any coder names (unicode, digits, quoted delimiters), one to many masses per row, delimiters tab, comma, semicolon or pipe, LF or CRLF, with or without final newline",
 "two fixed files are tested",
 [TS, DA], [("csv reader, header skip, int conversion", TS), ("item name from file path", DA)], ["segeval.input_linear_mass_tsv", "segeval.data.tsv.input_linear_positions_tsv"])
prop("P24", "Loading a directory tree collects every data file exactly once",
 "Loading a directory tree yields, for every file with an extension of the requested type (case-insensitive) at any depth, all its codings under the item name prefixed with the names of the directories on the path to it (joined by commas), and nothing from any other file; a dataset passed in is extended in place. Files contributing different coders to the same item are merged, and the same coder twice raises DataIOError.",
 ["inputs", "configurations"], "all directory trees of JSON or TSV files (also linked ones) with any names and nesting, mixed with empty directories and other files, for both file types, with or without a dataset to extend, and repeated loads",
 "one tree (the package itself) with one file is loaded",
 [DA, TS, JS], [("recursive directory walk with prefix", DA), ("merge with duplicate check", DA)], ["segeval.load_nested_folders_dict"])
prop("P25", "Calls have no side effects and do not depend on earlier calls",
 "No metric, conversion, agreement, statistics or output function changes any argument (segmentations, datasets, option dictionaries, matrices' values) or any setting of the process (working directory, recursion limit, decimal context, random state, environment, locale, csv dialects and limits), none prints anything, and every call returns the same result as the same call with equal arguments made first in a fresh process, whatever calls were made before, and even if previously passed or returned objects have since been changed by the caller.",
 ["histories"], "all sequences of public calls with shared, reused and caller-mutated arguments and results",
 "each test makes a fresh call with fresh arguments and checks only its result",
 [UT, CO, AG, SIM, WIN, PK, WD, ML, DA, FMT], [("keyword defaults copied per call", UT), ("edit options built per call", MB)], ["all public functions"])
prop("P26", "Every public name works whichever is used first",
 "In a fresh interpreter, every name the package exports and every module of the package can be imported or accessed first, in any order, and always denotes the same object; segeval.X and from segeval import X agree with the defining module. Names that are not exported raise AttributeError.",
 ["histories", "configurations"], "all orders of first accesses to public names and modules in a fresh process, by attribute, from-import or module import",
 "tests run in one process in which everything is imported in one fixed order",
 [IN, UT, CO], [("lazy attribute loading", IN), ("deferred import of the pairwise computation", UT)], ["segeval"],
 state=[{"name": "lazily filled package namespace", "meaning": "names loaded so far", "where": IN}])
prop("P27", "What cannot be compared is rejected, never scored",
 "Comparing segmentations of different lengths, using a boundary format that is unknown or unsupported by the metric, comparing two datasets of different boundary formats, calling a metric with no, too few, too many or empty arguments, or asking for an unknown averaging raises SegmentationMetricError; agreement over fewer than two coders or items coded by different numbers of coders raises an exception. No such call returns a score, whichever metric, format, option or call style is used.",
 ["inputs", "configurations"], "all pairs of unequal length (by one or many units) in every format and metric, including pairs inside datasets, all invalid formats and argument lists",
 "single examples are tested for some metrics",
 [SIM, PK, WD, UT, AG, PI, KA, ML], [("length and format checks", SIM + ", " + PK + ", " + WD), ("argument checks", UT)], ["all metric functions"])
prop("P28", "Weighting functions weigh edits as documented and are applied as supplied",
 "weight_a, weight_s and weight_t count their edits, weight_t_scale sums the distances spanned divided by n_t, and weight_s_scale sums the type distances divided by (largest - smallest type + 1). A metric given a tuple (or list) of weighting functions calls exactly these, with the pair's edits, the pair's largest and smallest boundary type, and n_t respectively, and uses what they return, in pair, dataset and agreement computations.",
 ["inputs", "configurations"], "all edit lists, all n_t >= 1 and type ranges, arbitrary user-supplied weighting functions, all metrics that take weights",
 "two unit calls and one metric call with other weights are tested",
 [W, SIM], [("weight function tuple", SIM)], ["segeval.weight_a", "segeval.weight_s", "segeval.weight_s_scale", "segeval.weight_t", "segeval.weight_t_scale", "weight= option"])
prop("P29", "Results depend on argument values, not on object identity or interpreter",
 "Metrics, conversions and agreement give equal results for equal arguments: equal but distinct label, type, count, format and coder objects (integers of any size, strings), and lists, tuples, sets or frozensets with equal content, are interchangeable. PyPy and CPython, under any hash seed, give the same numbers.",
 ["inputs", "configurations"], "all pairs and datasets with labels and types as freshly created ints (small and large) or strings, window sizes and counts above the small-integer range, hash seeds, both installed interpreters",
 "the tests use small integer literals, which interpreters share, on one interpreter with one hash seed",
 [PK, WD, MB, UT, DI, AG], [("comparison by value of labels, types, counts and formats", PK + ", " + WD + ", " + MB)], ["all metric functions"])
prop("P30", "All documented ways of calling a metric are equivalent",
 "Passing a pair positionally or as hypothesis= and reference=, and a dataset positionally or as dataset=, gives equal results; a bare integer stands for the segmentation with that single mass. Options left out take their documented defaults (mass format, n_t 2, not one_minus, no parts, permuted only for Pk and WindowDiff, B as comparison function, no Lamprier fix), and a dataset's own boundary format takes precedence over the option.",
 ["inputs", "configurations"], "all metrics, all pairs and datasets, all subsets of explicitly passed options",
 "tests use one calling style per metric",
 [UT, SIM, WIN, AG, "segeval/metric.py"], [("argument parsing and default merging", UT)], ["all metric functions"])
prop("P31", "Concurrent and nested calls return what they return alone",
 "Metrics, conversions, agreement, summaries, readers and writers that are called at the same time by several threads (which may share segmentations and datasets, while each has its own confusion matrices and output files), or called from within a function the caller supplied (a weighting, rounding or comparison function), return under every interleaving exactly what they return one after the other, and leave shared arguments and the settings of the process (working directory, recursion limit, decimal context, random state, environment, locale, csv dialects and limits) as they were.",
 ["schedules", "inputs", "configurations"], "every interleaving of two or more concurrent calls, at every line of the package, and every nesting of calls through supplied functions; all public functions, arguments and options",
 "the tests run in one thread, with supplied functions that call nothing; state kept outside a call (buffers, caches, defaults, registered dialects, a changed directory) only shows under particular interleavings",
 [SIM, B, WIN, PK, WD, AG, UT, DA, JS, TS, MB, FMT, ML], [("options merged into a per-call dict", UT), ("no module state is written during a call", SIM + ", " + MB + ", " + WIN), ("readers open absolute or given paths and register nothing", DA + ", " + TS)],
 ["all public functions, called from threads or from weight=, fnc_round= and fnc_compare= functions"])
prop("P32", "Failing or interrupted calls are reported and leave nothing behind",
 "An exception raised by a function the caller supplied (whatever its kind), or an interrupt (KeyboardInterrupt) at any point of a call, reaches the caller unchanged; the arguments (other than a dataset that a loader or += was extending) and the settings of the process (working directory, recursion limit, decimal context, random state, environment, locale, csv dialects and limits) are as before, and every later call, with the same or other arguments, gives the same as in a process in which nothing failed.",
 ["inputs", "crash_points"], "every call of every public function, every line (and instruction) of the package at which it may be interrupted, every invocation of a supplied function that may raise, every kind of exception",
 "the tests never interrupt a call nor supply a function that raises; what a call changes and restores only shows when it is stopped in between",
 [SIM, B, WIN, PK, WD, AG, UT, DA, JS, TS, MB, BI, CO], [("no except clauses around supplied functions; arguments are never changed and restored", SIM + ", " + WIN + ", " + AG + ", " + UT)],
 ["all public functions, interrupted, or given weight=, fnc_round= and fnc_compare= functions that raise"])
prop("P33", "Failing reads and writes are reported and never mistaken for data",
 "A write that the operating system refuses at any byte, a dataset that cannot be written as JSON, and a file, alone or anywhere in a tree of folders, that cannot be opened, read or parsed to its end, or that holds something other than a whole number as a mass, raise an exception; no file stays open and the dataset that was to be written is unchanged. What a failed or cut-off write leaves behind is rejected by the reader unless it is the complete new or old file; every proper prefix of a mass file is rejected with DataIOError. Later reads and writes work.",
 ["inputs", "crash_points"], "all datasets and properties, every byte at which a write stops, every prefix of a file, every kind of failing path, every place in a tree",
 "the tests read and write a few sound files; no write fails in them and no file is cut off",
 [JS, TS, DA], [("files opened and closed by with statements", JS + ", " + TS), ("parse errors turned into DataIOError", JS), ("integer conversion of cells", TS), ("no except clause around file loading in trees", DA)],
 ["segeval.output_linear_mass_json", "segeval.input_linear_mass_json", "segeval.input_linear_mass_tsv", "segeval.load_nested_folders_dict"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
