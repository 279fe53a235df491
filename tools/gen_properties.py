"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json
M = "src/cvi/modules/"
ALL = [M + f for f in ("CH.py", "cSIL.py", "DB.py", "GD43.py", "GD53.py", "PS.py", "rCIP.py", "WB.py", "XB.py")]
BASE = M + "_base.py"
P = []


def add(id, title, statement, over, qtext, why, files, mech, state=(), obs=("return value of get_cvi", "criterion_value attribute")):
    assert len(title) <= 80, title
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext),
        why_tests_cant=why,
        anchors=dict(files=files,
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=list(obs), hook_needed=None)))


STATE = [
    ("per-cluster counts, centroids, compactness", "running sufficient statistics of the stream", BASE + ":CVI.__init__ and each _param_inc"),
    ("label map", "caller label -> internal cluster position, in order of first appearance", BASE + ":LabelMap"),
]
INC = [("recursive update of count, centroid, compactness and pairwise separations", "_param_inc of every index in " + M)]
BAT = [("two-pass statistics over the whole batch", "_param_batch of every index in " + M)]
EVAL = [("criterion evaluation from the statistics", "_evaluate of every index in " + M)]

add("C01", "Incremental value equals the batch value at every point of a stream",
    "For each of the nine indices, after feeding samples one at a time the reported value equals, up to floating-point rounding, the value a fresh object of the same index reports for a single batch call on the samples and labels seen so far. This holds at every point of every stream at which at least two clusters have been seen and the value is mathematically defined (no division by zero), whatever the number of clusters, number of features, cluster sizes, order of arrival, and interleaving of clusters, including returns to clusters created long before.",
    ["inputs", "histories"], "every finite labelled stream, every prefix of it, every index",
    "The suite compares only the last value of three fixed 2-feature streams whose clusters arrive almost one after another, at 10 percent tolerance (and the comparison is vacuous when the values are negative).",
    ALL + [BASE], INC + BAT + EVAL, STATE)

add("C02", "Batch CH, WB and XB equal their sum-of-squares definitions",
    "With W the total squared distance of the samples to their cluster centroids, B the size-weighted total squared distance of the centroids to the overall mean, n samples and k clusters, a batch call returns, up to rounding, (B/W)(n-k)/(k-1) for Calinski-Harabasz, kW/B for the WB-index, and W/(n d) for Xie-Beni, where d is the smallest squared distance between two centroids. This holds for every data set with at least two clusters on which the formula is defined.",
    ["inputs"], "every labelled data set of any size, dimension and number of clusters on which the denominator is non-zero",
    "Only Calinski-Harabasz is compared with an outside value, on three fixed data sets, with a relative tolerance of 1000; WB and XB are never compared with anything but themselves.",
    [M + "CH.py", M + "WB.py", M + "XB.py", BASE], BAT + EVAL)

add("C03", "Batch DB, PS, GD43 and GD53 equal their centroid-based definitions",
    "With s_i the mean squared distance of cluster i's samples to its centroid, a batch call returns, up to rounding: Davies-Bouldin = the mean over clusters of the largest (s_i+s_j)/|v_i-v_j|^2 over other clusters; Partition Separation = the sum over clusters of n_i/max(n) - exp(-min_j |v_i-v_j|^2 / b), b being the mean squared distance of the centroids to their unweighted mean. Generalized Dunn 43 and 53 = the smallest, over pairs of clusters, of the centroid distance (43) or of the pooled mean squared distance (n_i s_i + n_j s_j)/(n_i+n_j) (53), divided by twice the largest s_i. This holds for every data set with at least two clusters on which the formula is defined.",
    ["inputs"], "every labelled data set of any size, dimension and number of clusters on which the denominators are non-zero",
    "No test compares these four with any independent value; the incremental/batch comparison cannot see an error made in the shared evaluation.",
    [M + "DB.py", M + "PS.py", M + "GD43.py", M + "GD53.py", BASE], BAT + EVAL)

add("C04", "Batch cSIL and rCIP equal their definitions",
    "A batch call of the centroid silhouette returns, up to rounding, the mean over clusters i of (b_i-a_i)/max(a_i,b_i), where a_i is the mean squared distance of cluster i's own samples to its centroid and b_i the smallest, over other clusters, mean squared distance of that cluster's samples to centroid i. A batch call of rCIP returns the sum over pairs of clusters of the zero-mean Gaussian density, with covariance S_i+S_j, at the difference of their centroids, where S_i is the cluster's unbiased sample covariance (zero for a single sample) plus 10^(-12/p) times the identity for p features. This holds for every data set with at least two clusters on which the formula is defined.",
    ["inputs"], "every labelled data set of any size, dimension and number of clusters on which the formula is defined",
    "The only direct test is one covariance of one three-sample data set; no value of either index is compared with an independent one.",
    [M + "cSIL.py", M + "rCIP.py", BASE], BAT + EVAL)

add("C05", "Label values are only names",
    "Replacing the integer labels of a data set by any other distinct integers (negative, sparse, huge, in any order) changes no reported value, up to rounding, of any of the nine indices, neither in batch mode nor at any point of an incremental stream. Two samples are treated as members of the same cluster exactly when their labels are equal integers.",
    ["inputs", "histories"], "every stream or batch and every injective renaming of its labels to integers",
    "All tests use labels 0..k-1 that first appear in increasing order.",
    ALL + [BASE], [("label map in order of first appearance", BASE + ":LabelMap.get_internal_label"), ("membership by comparison with the distinct labels", "_param_batch of every index")], STATE)

add("C06", "The order of the samples does not matter",
    "For each of the nine indices the value of a data set on which it is defined is, up to rounding, the same for every order of its (sample, label) pairs: reordering the rows of a batch, or delivering the same pairs incrementally in any other order, ends in the same value.",
    ["inputs", "histories"], "every labelled data set and every permutation of it, in both modes",
    "Tests use one fixed order per data set and never compare two orders.",
    ALL + [BASE], INC + BAT, STATE)

add("C07", "Values depend only on the geometry of the data",
    "Translating all samples by one vector, permuting the features, reflecting features or rotating feature space changes no value, up to rounding, of any of the nine indices in either mode. Multiplying all data by a non-zero constant c leaves CH, WB, XB, DB, PS, GD53 and cSIL unchanged and divides GD43 by |c|.",
    ["inputs"], "every labelled data set on which the index is defined and every rigid motion or scaling that keeps it well conditioned (offset not many orders of magnitude above the spread)",
    "No test transforms its data.",
    ALL, INC + BAT + EVAL)

add("C08", "A stream with a single cluster reports exactly zero",
    "Until a second distinct label has arrived, every incremental call of every one of the nine indices returns exactly 0.0, however many samples were seen and whatever they are, and from the first sample of a second cluster on the value reported is that of the data seen so far, the one-cluster samples included.",
    ["inputs", "histories"], "every stream, every length of the one-cluster phase",
    "Tests discard all intermediate values of a stream.",
    ALL, EVAL + INC, STATE)

add("C09", "Mode discipline: one batch, or a stream, never a mixture",
    "A fresh index accepts either one batch (2-D data with one label per row and at least two distinct labels) or a stream of 1-D samples with the same number of features each; every other call - data of another rank, a batch with fewer than two distinct labels or with a label count different from its row count, a batch on an object already used in either mode, a 1-D sample after a batch, a sample with another number of features - raises ValueError. This holds for every one of the nine indices after every sequence of accepted and rejected calls, and no accepted call is ever refused.",
    ["histories", "inputs"], "every sequence of calls, accepted or rejected, on each index",
    "Three single calls on one index are tested, one of them after setting a private flag by hand; no sequence of calls is tried.",
    [BASE] + ALL, [("dispatch on the rank of the data and on whether the object is in use", BASE + ":CVI.get_cvi")],
    [("set-up state", "fresh / in batch use / in incremental use", BASE + ":CVI._setup, CVI._setup_batch")])

add("C10", "A rejected call leaves no trace",
    "When a call is refused with ValueError, the object is as if the call had not been made: the value it last reported is still what it reports, and every later accepted call returns the value it would have returned without the refused call. In particular a fresh object whose first call was refused is still fresh and may be used in either mode with any number of features.",
    ["histories", "fault_sequences"], "every sequence of accepted calls and every placement of refused calls in it, for each index",
    "No test calls an object again after a refusal.",
    [BASE] + ALL, [("all checks happen before any statistic is touched", BASE + ":CVI.get_cvi")], STATE)

add("C11", "Objects are independent of one another",
    "Calls on one index object never influence the values of another object, of the same or another index, created earlier or later in the same process: every interleaving of the calls on several objects gives each object exactly the values it gives when it is used alone.",
    ["histories", "schedules"], "every interleaving of the call sequences of several objects, including constructions in between",
    "Tests run one object to the end before they use the next and compare no interleaving.",
    ALL + [BASE], [("all state is created per object in the constructor", BASE + ":CVI.__init__ and each __init__")], STATE)

add("C12", "Distinct objects can be used from different threads",
    "When different threads each use their own index object, every thread obtains exactly the values it obtains when running alone, for every preemption of one thread by another at any point inside a call.",
    ["schedules"], "every schedule of two threads, each working on its own objects",
    "Tests are single threaded.",
    ALL + [BASE], [("no module-level or class-level mutable state is used by a call", "all of " + M)])

add("C13", "The caller's arrays are neither modified nor retained",
    "No call of any of the nine indices, accepted or refused, changes the sample, batch or label arrays passed to it. What the caller does to those arrays after the call returns (overwriting a reused buffer, for instance) changes no value reported later.",
    ["inputs", "histories"], "every stream or batch, with the caller overwriting any of the passed arrays between calls",
    "Tests never look at an array again after passing it and never reuse a buffer.",
    ALL + [BASE], [("samples are copied into the statistics", BASE + ":CVI.get_cvi; _setup of each index")], STATE)

add("C14", "Numeric type and memory layout of the inputs do not matter",
    "The value of any of the nine indices, in either mode, depends only on the numbers passed and not on their representation: signed or unsigned integers of any width, half, single or double precision, row- or column-major order, strided or reversed views, read-only arrays, and Python or NumPy integer labels of any width all give, up to double-precision rounding, the value of the same numbers as plain double-precision data.",
    ["inputs", "configurations"], "every data set whose numbers are exactly representable in the types in question, every combination of data representation and label representation",
    "Tests pass double-precision row-major data and int64 labels, and one int64 batch whose value is not looked at.",
    ALL + [BASE], [("conversion of the data before statistics are computed", BASE + ":CVI.get_cvi")])

add("C15", "Undefined intermediate values do not contaminate later ones",
    "A stream may pass through points at which an index is mathematically undefined (coinciding centroids, clusters without spread, and so on): no such call raises, and at every later point at which the index is defined the reported value is, up to rounding, the defined value of all samples seen so far and is finite.",
    ["histories", "inputs"], "every stream with duplicates, singletons and coinciding centroids, each index",
    "Test streams are undefined only in their first few samples, and only their last value is looked at.",
    ALL, INC + EVAL, STATE)

add("C16", "Defined values lie in the range of the index",
    "Whenever an index is defined its reported value is a finite number in the range of that index, in both modes: CH, WB, XB, DB, GD43, GD53 and rCIP are never negative, cSIL lies between -1 and 1, and PS lies between minus and plus the number of clusters (up to rounding at the end points).",
    ["inputs", "histories"], "every labelled data set and every stream prefix on which the index is defined",
    "No test asserts a sign or a bound.",
    ALL, EVAL)

add("C17", "An object can be checkpointed at any point",
    "At any point of any stream, and after a batch, an index object can be deep-copied and pickled; the copy and the original then behave identically and independently: the same later calls give each of them the same values as an object that was never copied, and calls on one do not affect the other.",
    ["histories", "crash_points"], "every stream, every checkpoint position, every continuation, each index",
    "No test copies or pickles an object.",
    ALL + [BASE], [("the whole state consists of plain per-object attributes", BASE + ":CVI.__init__ and each __init__")], STATE)

add("C18", "Incremental state does not grow with the number of samples",
    "The amount of data an index object holds while it is fed one sample at a time depends on the numbers of clusters and features only: once no new cluster appears, no number of further samples makes it larger.",
    ["histories"], "every stream, every index",
    "No test measures anything but values.",
    ALL + [BASE], [("only sufficient statistics are kept", "_param_inc of every index")], STATE,
    obs=("total number of data items reachable from the object",))

add("C19", "The reported value is a reproducible scalar, available on the object",
    "A new object of any of the nine indices shows the public criterion_value 0.0. Every accepted call returns a single real floating-point number which is also what the object's public criterion_value shows until the next accepted call; reading it changes nothing, values returned earlier never change afterwards, and repeating the same call history on a new object in the same process gives exactly the same numbers.",
    ["histories", "inputs"], "every call history, each index",
    "Tests read one value per object and never repeat a history.",
    [BASE] + ALL, [("evaluation after every update, value stored and returned", BASE + ":CVI.get_cvi")])

add("C20", "Legacy v0 indices consume every well-ordered stream and keep exact books",
    "Each of the seven legacy incremental indices accepts, without raising, every stream of equally long real vectors whose cluster numbers first appear in the order 0, 1, 2, ..., returns one number per update and does not modify the vectors; its public lists of cluster sizes and cluster centres then hold the number and, up to rounding, the mean of the samples of each cluster. A cluster number that skips ahead is refused with ValueError, leaving those lists as they were; the by-name constructor returns a new object of the named index and refuses unknown names with ValueError, and the module's list of indices holds each of the seven once.",
    ["histories", "inputs"], "every well-ordered stream, every position of a skipping cluster number, each legacy index",
    "The legacy tests are commented out upstream; only the import of the module is exercised.",
    ["src/cvi/compat/v0.py", "src/cvi/compat/__init__.py"],
    [("running centre and size update", "src/cvi/compat/v0.py:cluster_center_update, CP_update"), ("cluster ordering check", "update of each class in src/cvi/compat/v0.py")],
    [("cluster sizes and centres", "public per-cluster record of the stream", "src/cvi/compat/v0.py")],
    obs=("return value of update", "cluster_sizes", "cluster_centers"))

add("C21", "The package offers exactly the nine documented indices",
    "The nine documented acronyms (CH, cSIL, DB, GD43, GD53, PS, rCIP, WB, XB) are nine distinct index classes derived from the common base class, constructible without arguments, and the package's list of modules contains each of them exactly once and nothing else. Every one of them, reached by acronym or through the list, works in batch and incremental mode and computes the index it is named after.",
    ["configurations", "inputs"], "every way of reaching an index (package attribute, modules package, module list, star import) and both modes",
    "Tests iterate over the module list itself and so cannot notice an index that is missing, doubled or swapped.",
    ["src/cvi/__init__.py", M + "__init__.py"], [("re-exports and module list", "src/cvi/__init__.py, " + M + "__init__.py")])

add("C22", "Incremental accuracy does not degrade over long streams",
    "However long a stream is, and however its samples are distributed over a fixed set of clusters, the incremental value stays within a small multiple of double-precision rounding (relative error far below one millionth for data whose offset is comparable to its spread) of the exact value of all samples seen: no sample is forgotten, weighted differently or counted twice, at any stream length.",
    ["histories"], "every stream length and every pattern of cluster visits",
    "Tests reach 2000 samples in nearly sorted cluster order and compare at 10 percent tolerance.",
    ALL, INC + EVAL, STATE)

add("C23", "Calls have no effect outside the object",
    "No call of any of the nine indices or of the legacy indices, accepted or refused, changes anything outside the object it is made on: Python's and NumPy's global random state, NumPy's error handling and print options, the warning filters, the environment, working directory, threads and signal handlers are as before, nothing is written to standard output, and no file, process or connection is opened.",
    ["inputs", "histories"], "every sequence of accepted and refused calls, every index, every data set",
    "No test looks at anything but values; an effect on global state (a reseeded generator, a changed error mode) shows only in unrelated code that runs later.",
    ALL + [BASE, "src/cvi/compat/v0.py"], INC + BAT + EVAL, obs=("global random state", "np.geterr()", "warnings.filters", "standard output", "audit events"))

add("C24", "Legacy v0 objects are self-contained and reproducible",
    "A new object of any of the seven legacy indices shows the output 0. The number returned by an update is what the object's output attribute then shows; repeating an update history on a new object gives exactly the same numbers, whatever other legacy objects are created, used or discarded before or in between; a deep copy or pickled copy made at any point continues with the same numbers as the original; and an update refused for an out-of-order cluster number changes neither the output nor any number returned later.",
    ["inputs", "histories"], "every well-ordered stream, every interleaving of several objects, every position of a copy or of a refused update",
    "The tests run each legacy index once over one data set and look at no value.",
    ["src/cvi/compat/v0.py"], [("incremental updates of the legacy classes", "src/cvi/compat/v0.py: update of every class")],
    [("running sums, centres and sizes", "state of a legacy object", "src/cvi/compat/v0.py: __init__ of every class")],
    ("return value of update", "output attribute"))

add("C25", "The cost of an incremental call does not grow with the number of samples",
    "Once no new cluster appears, the work and the working memory of one incremental call of any of the nine indices, and of one update of any legacy index, depend on the numbers of clusters and features only: no later sample of a stream takes noticeably more than the samples just after the clusters were opened.",
    ["histories"], "every stream, every position, every index",
    "No test measures anything but values; a recalculation over past samples is invisible to them.",
    ALL + [BASE, "src/cvi/compat/v0.py"], [("recursive updates of sufficient statistics", "_param_inc of every index")], STATE,
    obs=("lines and jumps executed per call", "peak memory allocated per call"))

add("C26", "Legacy clusters hold exactly the points they were given",
    "A legacy Cluster fed any sequence of equally long points holds exactly those points in order: its count, dimension, list of points and list of given indices; its centre is their mean up to rounding, and the minimum, average and centre distance of any point under any norm order are those of the definition. With the box option its bounding box is the elementwise minimum of the complement-coded points (x followed by 1-x), and the membership test of a complement-coded point says whether it lies in that box. A point of another length, or outside the unit interval when the box is kept, is refused and leaves the cluster as it was. No argument is modified. The list-of-clusters constructor puts every row, with its row number, into the cluster of its label, for labels that first appear in the order 0, 1, 2, ...",
    ["inputs", "histories"], "every sequence of points, every probe, every label sequence",
    "No test touches these classes.",
    ["src/cvi/compat/v0.py"], [("running mean, box and point list", "src/cvi/compat/v0.py:Cluster.add_point"), ("grouping of rows", "src/cvi/compat/v0.py:Clusters.from_list")],
    [("points, centre, box, indices", "state of one cluster", "src/cvi/compat/v0.py:Cluster.__init__")],
    obs=("len, dim, points, indicies, center, bounding_box", "min_distance, avg_distance, center_distance, within_bounding_box"))

add("C27", "Legacy v0 indices follow the version 0 recursions",
    "On every well-ordered stream each legacy index returns, up to rounding and wherever no denominator vanishes, the value of its version 0 recursion: iXB the mean within-cluster squared deviation over the smallest squared centre distance met at any update; iCH the between-group term, in which each cluster enters with its separation at its own last update, over the within-group term; iGD43 and iGD53, refreshed when a known cluster receives a sample, the least separation of the pairs refreshed so far over the largest diameter (first-order scatter); iDB, refreshed likewise one cluster at a time, the average of the worst ratio of summed scatters to the city-block distance of the centres; iSIL the average coefficient with respect to the cluster just updated; iPS the sum over clusters of n_i/max(n) - exp(-b_i/B), each term as of its cluster's own last update, with b_i its smallest squared centre distance and B the mean squared distance of the centres to their unweighted mean (0 with one cluster). A rounding error never turns a value into nan.",
    ["histories", "inputs"], "every well-ordered stream, every position, each legacy index",
    "The legacy tests are commented out upstream; no test looks at a legacy value.",
    ["src/cvi/compat/v0.py"],
    [("recursive scatter and centre updates", "src/cvi/compat/v0.py:CP_update, cluster_center_update"), ("update of every legacy class", "src/cvi/compat/v0.py")],
    [("running sums, centres, separations", "state of a legacy object", "src/cvi/compat/v0.py: __init__ of every class")],
    obs=("return value of update",))

with open("/verif/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
