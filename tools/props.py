"""The properties: text for properties.jsonl, and what the MANIFEST says about each check.  tools/gen.py writes both files."""

def P(pid, title, statement, over, qtext, why, files, mech, level_note, technique, state=None, observe=None):
    return dict(id=pid, title=title, statement=statement, over=over.split(), qtext=qtext, why=why, files=files.split(), mech=mech, state=state or [],
                observe=observe, level_note=level_note, technique=technique)


H4 = "src/metrics/counter.rs src/metrics/gauge.rs src/metrics/histogram.rs src/metrics/summary.rs"
AI = "abstract interpretation of MIR"

PROPS = [
    P("C01", "No update is lost under concurrency",
      "Every increment, addition, subtraction and observation that a thread makes through any handle of a counter, gauge, histogram or summary is reflected in the value, count, sum and bucket counts read after all threads have finished, whatever the interleaving. "
      "No update is computed from a value that another thread may have replaced in the meantime.",
      "schedules", "all interleavings of updates by any number of threads through any number of clones",
      "The tests are single-threaded; a lost update needs two threads between one load and one store.",
      "src/atomic.rs " + H4,
      [("atomic read-modify-write of a cell", "atomic.rs: AtomicU64::add, AtomicF64::update"), ("the four handle types", "metrics/*.rs: increment, add, add_u64, subtract, observe")],
      "Every write event of every public handle method is classified from the MIR; the argument that one successful compare-exchange or fetch-add per update loses nothing is the classical one and is not machine-checked. Relaxed ordering suffices for single cells.",
      AI + ": atomicity of every read-modify-write (def-use from load to store), must-retry on failed compare-exchange",
      [("value cells", "the number behind each getter", "Inner structs of the four metrics")], "value(), count(), sum(), buckets() after joining the threads"),
    P("C02", "Counters never go down",
      "The value of a counter, the count of a histogram or summary and the count of a histogram bucket never decrease, whatever sequence of calls is made and whatever arguments are passed. "
      "Adding a negative amount or NaN to a counter is refused with an invalid-input error and changes nothing.",
      "inputs histories schedules", "all f64 and u64 arguments, all sequences of calls, all interleavings",
      "The tests add a handful of positive constants; the sign and NaN cases are not sampled.",
      "src/metrics/counter.rs src/metrics/histogram.rs src/metrics/summary.rs src/bucket.rs src/atomic.rs",
      [("guard on the amount", "Counter::add"), ("unsigned increments", "AtomicU64::add / inc"), ("float accumulation", "AtomicF64::update")],
      "Sign analysis over the amounts; integer totals are assumed to stay below 2^64.",
      AI + ": sign/NaN interval domain on every amount written to a monotonic cell",
      None, "Counter::value, Histogram::count, Bucket::count, Summary::count"),
    P("C03", "Each update changes the value by exactly the amount given",
      "Incrementing adds 1, decrementing subtracts 1, adding or subtracting an amount changes the value by that amount, setting a gauge makes the value the one given, and an observation adds one to the count and the observed value to the sum. "
      "This holds for every amount - whole, fractional, huge, zero or infinite - up to floating point rounding.",
      "inputs", "all arguments of every update method",
      "The tests use three small amounts; integer/float routing in counters has boundary cases (2^64, fractions, infinity) they do not reach.",
      "src/atomic.rs " + H4,
      [("integer/float split of a counter", "counter.rs: Value::add, Value::get"), ("gauge arithmetic", "gauge.rs"), ("count and sum", "histogram.rs, summary.rs: observe")],
      "Arithmetic is judged as exact real arithmetic (rounding ignored); u64 totals below 2^64.",
      AI + ": symbolic effect of each path on the cells the getter reads, linear arithmetic over reals",
      None, "value(), count(), sum() before and after a call"),
    P("C04", "Clones of a handle are the same metric",
      "Cloning a counter, gauge, histogram or summary handle yields a handle of the same metric: updates made through one are seen through the other, and labels and timestamp are shared too. "
      "All handles, collectors and registries can be sent to and shared with other threads where the design relies on it.",
      "programs histories", "all programs that clone handles",
      "No test clones a handle and none crosses a thread boundary.",
      H4,
      [("shared ownership", "the four handle types wrap a reference-counted inner value")],
      "The Clone implementation returns the pointer to the same shared cell; Send and Sync are decided by the compiler's trait solver inside the driver.",
      AI + " (pointer identity through Clone) and type-level auto-trait queries"),
    P("C05", "Registered metrics appear in every gather",
      "A metric built with one or more registries is gathered exactly once by each of those registries' gatherers from the moment the builder returns it, in every subsequent gather while a handle is alive, with the values of that moment; a failed build registers nothing. "
      "Everything a registered collector yields is included, in one pass and without dropping any collector's metrics.",
      "histories programs schedules", "all sequences of builds, registrations and gathers; any collector implementation",
      "The tests register two or three metrics and gather once.",
      "src/registry.rs " + H4,
      [("registration channel", "registry.rs: Registry::register, Gatherer::gather"), ("registration at the end of a build", "*Builder::finish"), ("default registry", "registry.rs: default_registry, *Builder::default_registry")],
      "std::sync::mpsc and lazy_static are modelled; order of collection among registrations is not judged.",
      AI + ": event-order (typestate) analysis of send/receive/collect over all paths of the builders and gather"),
    P("C06", "Dropped metrics leave the exposition, live ones stay",
      "A metric whose last handle is dropped disappears from later gathers and its registration is released; registration alone never keeps a metric alive. "
      "A collector that still has metrics is never deregistered, and removing one collector never skips or removes another.",
      "histories", "all sequences of drops and gathers, any number of collectors",
      "No test drops a handle before gathering.",
      "src/registry.rs " + H4,
      [("weak references", "*Collector"), ("removal from the collector list", "registry.rs: Gatherer::gather")],
      "Arc/Weak are modelled; the removal loop is interpreted as index arithmetic over the collector list.",
      AI + ": ownership (strong/weak) analysis of collectors and relational analysis of the removal loop"),
    P("C07", "Metric and label names are always valid",
      "Every metric name and label name that ends up in a metric matches the Prometheus grammar: names of metrics match [a-zA-Z_:][a-zA-Z0-9_:]* in each given part, names of labels match [a-zA-Z_][a-zA-Z0-9_]* and do not begin with two underscores. "
      "Valid names are accepted.",
      "inputs", "all strings as namespace, subsystem, name and label name",
      "The doc test tries two bad label names; the tests try no bad metric name.",
      "src/metric.rs src/label.rs",
      [("metric name validation", "metric.rs: MetricName::new"), ("label name validation", "label.rs: Label::new")],
      "Character classes are compared as exact sets over all code points; str::chars, len and indexing are modelled.",
      AI + ": character-set domain over the validation loops"),
    P("C08", "Invalid configuration is refused with an error, not a panic",
      "Building a metric with an invalid metric name or label name, a NaN bucket bound or a quantile outside 0..=1 (or NaN) returns an invalid-input error; no input makes a builder panic, and a valid configuration always builds.",
      "inputs configurations", "all settings of the four builders",
      "The tests only build valid metrics.",
      "src/metric.rs src/label.rs src/bucket.rs src/quantile.rs " + H4,
      [("validation in finish", "*Builder::finish"), ("bucket bounds", "bucket.rs: Bucket::new"), ("quantile range", "quantile.rs: Quantile::new")],
      "Panics inside modelled library functions are those the models state.",
      AI + ": panic reachability and per-path error analysis of the builders"),
    P("C09", "Reserved labels cannot be set",
      "No histogram ever carries a label named \"le\" and no summary one named \"quantile\", whether given to the builder or inserted later through a handle; such attempts return an invalid-input error and change nothing. "
      "Other metrics may use these names.",
      "inputs histories", "all label names, both ways of setting them",
      "No test uses a reserved label.",
      "src/label.rs src/metrics/histogram.rs src/metrics/summary.rs",
      [("check in finish", "HistogramBuilder::finish, SummaryBuilder::finish"), ("check on insert", "label.rs: LabelsMut::insert")],
      "Path analysis of the string comparisons.",
      AI + ": must-check dataflow from every label source to the label set"),
    P("C10", "Label sets hold one value per name, in order, and change atomically",
      "A label set never holds two labels of the same name: setting a name again - in a builder or through a handle - replaces its value, removing a name leaves no label of that name and every other label, clearing leaves none. "
      "Labels are listed in sorted order; each change is one atomic replacement of the whole set, so concurrent changes of different names are all kept and readers see complete sets.",
      "inputs histories schedules", "all sequences of label operations on all threads",
      "The tests insert at most one label.",
      "src/label.rs " + H4 + " src/metrics/builder.rs",
      [("copy-on-write label list", "label.rs: LabelsMut::insert, remove, clear"), ("builder labels", "*Builder::label")],
      "AtomicImmut::update is not taken to be atomic (it compares addresses that may be reused): the writers have to share a lock.",
      AI + ": sequence domain (filter, append, sort) over the label operations"),
    P("C11", "Output follows the Prometheus text format",
      "The text of a gather is, for every family, an optional HELP line, a TYPE line with the family's name and kind, and one line per sample, each of the form name, optional labels in braces, a space, the value, optionally a space and the timestamp in milliseconds, and a newline. "
      "Histograms render one _bucket line per bucket, then _sum, then _count; summaries one line per quantile, then _sum, then _count; le or quantile is the first label and the metric's own labels follow, separated by commas.",
      "inputs configurations", "all metrics of all kinds with any labels, help, timestamp and value",
      "The tests compare four fixed outputs.",
      "src/metric.rs src/label.rs src/aggregated_metrics.rs " + H4,
      [("Display implementations", "MetricFamily, Metrics, Aggregated*, the four handles, Labels, Label, MetricName, MetricKind")],
      "The output of each Display implementation is derived as a grammar over the values it prints and compared with the format; the numbers' own spelling is std's.",
      AI + ": string-content domain; derived output grammar compared with the specified one"),
    P("C12", "Help texts and label values are escaped",
      "In the exposition, backslash and line feed are escaped in help texts, and backslash, line feed and double quote are escaped in label values, each with a single backslash; every other character is written unchanged. "
      "This holds wherever a label is written: plain samples, buckets, quantiles, sums and counts.",
      "inputs", "all strings as help and label values",
      "The tests contain no special character.",
      "src/label.rs src/metric.rs src/aggregated_metrics.rs src/metrics/histogram.rs src/metrics/summary.rs",
      [("label escaping", "label.rs: Display for Label"), ("help escaping", "metric.rs: Display for MetricFamily")],
      "The per-character output is derived for every class of character the code distinguishes.",
      AI + ": character-class case analysis of the rendering loops"),
    P("C13", "NaN and infinities are spelled as the format requires",
      "Every sample value and bucket bound is written as a decimal number, or as NaN, +Inf or -Inf when it is not finite, in every line of every kind of metric.",
      "inputs", "all f64 values",
      "The tests render +Inf only as a bucket bound.",
      "src/metric.rs src/aggregated_metrics.rs " + H4,
      [("value rendering", "metric.rs: Display for MetricValue")],
      "std's Display for finite f64 is assumed to be a decimal number.",
      AI + ": case analysis of the value rendering, def-use of every float that is printed"),
    P("C14", "A handle and the gathered family render a metric alike",
      "Rendering a metric directly from its handle gives the same text as its lines in the exposition of a gather that contains only this one metric.",
      "inputs configurations", "all metrics of all kinds",
      "The tests render handles and families of different metrics.",
      "src/aggregated_metrics.rs " + H4,
      [("sibling Display implementations", "Counter/AggregatedCounter, Gauge/AggregatedGauge, Histogram/AggregatedHistogram, Summary/AggregatedSummary")],
      "Both renderings are derived symbolically for an aggregate of one metric and compared.",
      AI + ": sibling cross-check of derived output grammars"),
    P("C15", "Each family and each series appears once",
      "In a gather all metrics of one full name and kind form exactly one family, and all metrics of one family with equal labels form exactly one series; metrics that differ in name, kind or labels are never merged. "
      "This holds whatever order metrics were registered in and however their names are split into namespace, subsystem and name. Labels changed by another thread while gathering can only affect which series of its family a metric joins; no family is split, and every metric joins exactly one series.",
      "inputs histories schedules", "all multisets of registered metrics, all registration orders, concurrent label changes",
      "The tests gather five metrics in one order.",
      "src/registry.rs src/metric.rs src/aggregated_metrics.rs",
      [("sort and grouping", "registry.rs: Gatherer::gather"), ("family identity", "metric.rs: MetricFamily::same_family, push"), ("series identity", "aggregated_metrics.rs: try_merge")],
      "Grouping adjacent equal keys after sorting by a key that determines them is a proved argument in DESIGN.md; the check derives keys and comparisons from the MIR.",
      AI + ": agreement of sort key, family key and series key"),
    P("C16", "Series with equal labels are merged by summing",
      "When several metrics of a family have equal labels, the exposed series sums their values (counts, sums and samples for histograms and summaries) and carries the latest of their timestamps, each metric contributing exactly once. "
      "Gathering never changes the metrics themselves.",
      "inputs histories", "any number of metrics per series, any values and timestamps",
      "One test merges two counters, two gauges and two histograms without timestamps.",
      "src/aggregated_metrics.rs src/metric.rs",
      [("merge", "aggregated_metrics.rs: try_merge"), ("aggregate getters", "aggregated_metrics.rs: value, timestamp, count, sum, quantiles")],
      "Sums are compared as exact sums.",
      AI + ": symbolic effect of the merge and of the aggregate getters"),
    P("C17", "Every observation lands in exactly one bucket, the right one",
      "A histogram's buckets have distinct bounds in increasing order and always include +Inf, whatever bounds were given, in whatever order and however often. "
      "Every observation of a number increments exactly one bucket: the first whose upper bound is not less than the value.",
      "inputs configurations", "all bucket configurations and all non-NaN observations",
      "The tests use two configurations with sorted, distinct bounds.",
      "src/metrics/histogram.rs src/bucket.rs",
      [("bucket list construction", "HistogramBuilder::finish, bucket, buckets, with_linear_buckets, with_exponential_buckets"), ("bucket search", "Histogram::observe")],
      "slice::sort_by, dedup_by and binary_search_by are modelled by their contracts; NaN observations panic by an assertion and are outside.",
      AI + ": sequence domain for the bounds, relational facts of the search"),
    P("C18", "Exposed buckets are cumulative and end with the count",
      "The bucket counts exposed for a histogram are cumulative: each is the number of observations in all buckets up to its bound, in increasing order of bound and never decreasing. "
      "The rendered _count always equals the rendered +Inf bucket, even while observations are being made.",
      "inputs schedules", "all bucket configurations and observations, concurrent observers",
      "The tests check two static histograms.",
      "src/bucket.rs src/metrics/histogram.rs src/aggregated_metrics.rs",
      [("cumulative iterator", "bucket.rs: CumulativeBuckets::next, AggregatedCumulativeBuckets::next"), ("rendering", "Display for Histogram, AggregatedHistogram")],
      "The loop invariant is derived by the analysis, for one histogram and for an aggregation.",
      AI + ": loop-carried value analysis of the iterators and of the rendering"),
    P("C19", "Merged histograms expose each bound once with all counts up to it",
      "For histograms merged into one series, the exposed buckets are the union of their bounds, each bound once and in increasing order, and no observation is counted twice or left out, even if the histograms have different bounds.",
      "inputs configurations", "any number of merged histograms with any bounds",
      "One test merges two histograms with one differing bound.",
      "src/bucket.rs src/aggregated_metrics.rs",
      [("merging iterator", "bucket.rs: AggregatedCumulativeBuckets::next")],
      "One step of the merge is analysed for an arbitrary number of iterators; each iterator yields sorted distinct bounds (C17).",
      AI + ": per-step analysis of the k-way merge (minimum, consume exactly the equal heads)"),
    P("C20", "Summaries report only observations inside the window",
      "The quantiles of a summary are computed only from observations made within the window before the call; those older than the window (one exactly as old as the window still counts) are discarded before every access, in order of age and under the lock, and none inside the window is dropped. "
      "The total count and sum are not affected by the window.",
      "histories inputs schedules", "all sequences of observations and reads at any times",
      "No test lets a window expire.",
      "src/metrics/summary.rs",
      [("sliding window", "summary.rs: with_current_samples")],
      "Assumes the system clock does not go backwards between observations; wall-clock steps are outside.",
      AI + ": must-happen-before (expiry loop before access, one lock region) and boundary facts of the expiry condition"),
    P("C21", "Quantiles are real samples at the requested rank, never a panic",
      "Reading or rendering the quantiles of a summary, or of several merged ones, never panics; it yields each requested quantile once, in increasing order, with a value that is one of the current non-NaN samples, taken from the sorted samples at position floor(quantile * count), or at the last one if that exceeds it. "
      "Without samples there are no quantiles.",
      "inputs histories", "all quantile settings in 0..=1 and all samples",
      "No test reads quantiles.",
      "src/metrics/summary.rs src/aggregated_metrics.rs src/quantile.rs",
      [("quantile computation", "Summary::quantiles, AggregatedSummary::quantiles")],
      "Indices are bounded by interval and relational facts; sort is modelled by its contract.",
      AI + ": index-bound obligations and provenance of the values"),
    P("C22", "Timing and in-progress helpers record exactly once",
      "Timing a function runs it exactly once, returns its result, and records the elapsed seconds of that run - started before and read after it - exactly once, after it has finished. "
      "In-progress tracking raises the gauge by one before the function and lowers it by one afterwards, also when the function panics; updates made by other threads meanwhile are not lost.",
      "programs fault_sequences", "all closures, including panicking ones",
      "No test calls the helpers.",
      H4 + " src/timestamp.rs",
      [("time", "Counter/Gauge/Histogram/Summary::time"), ("track_inprogress", "Gauge::track_inprogress")],
      "Unwinding paths are part of the analysed control flow.",
      AI + ": event-order analysis including unwind edges"),
    P("C23", "Locks are held only briefly and never while calling out",
      "No lock is held while user code runs, while rendering, or when another lock is taken, except by a caller of the public gatherer lock itself; every lock taken is released on every path including panics, and nothing that can panic runs under one. "
      "No public function waits for another thread in any other way. Observing, rendering and gathering therefore cannot deadlock with each other.",
      "schedules programs", "all call sequences on all threads, panicking closures and collectors",
      "The tests are single-threaded.",
      "src/metrics/summary.rs src/registry.rs src/aggregated_metrics.rs",
      [("samples lock", "summary.rs: with_current_samples"), ("gatherer lock", "registry.rs: default_registry")],
      "Derived Debug implementations are exempt; waiting for a lazily made static is allowed, as its initialiser waits for nothing. Guards are tracked through drop elaboration in MIR; lock order over the whole crate is acyclic because at most one is held.",
      AI + ": lock-set analysis over all roots including unwind edges"),
    P("C24", "Timestamps are exact unix milliseconds and can be absent",
      "A timestamp reads back exactly the value last set, or none after creation or clearing, and what it was before or after if it is read while another thread changes it; setting it from a time stores the whole milliseconds between that time and the unix epoch, negative before the epoch. "
      "The rendered timestamp is the stored one, and is left out if there is none.",
      "inputs histories", "all i64 values except the reserved minimum, all system times",
      "No test touches timestamps.",
      "src/timestamp.rs src/aggregated_metrics.rs " + H4,
      [("sentinel encoding", "timestamp.rs: get, set, clear"), ("conversion", "timestamp.rs: set_time, duration_to_seconds")],
      "Duration arithmetic is modelled exactly; times more than 292 million years from the epoch are outside.",
      AI + ": symbolic read-back of the encoding, linear arithmetic of the conversion"),
    P("C25", "Process metrics report the right figures in the right units",
      "Each process metric is exposed under its documented name with the prefix process, as the documented kind, and its value is the matching operating system figure in the documented unit: seconds of CPU time from user plus system ticks, bytes of virtual memory, bytes of resident memory from pages, threads, allocated file descriptor slots and the limit on open files, and the time the collector was made in seconds since the epoch. "
      "A source file that cannot be read leaves out the figures taken from it without affecting those of other files, and collecting never panics.",
      "inputs fault_sequences", "all contents of the process information files, including unreadable ones",
      "The only use is an example; no test checks a value.",
      "src/metrics/process.rs",
      [("collection", "ProcessMetricsCollector::collect")],
      "procinfo's field meanings are taken from its documentation.",
      AI + ": provenance (source field, scale factor) of every exposed value"),
    P("C26", "A metric builder passes all its settings to every metric",
      "Every counter, gauge, histogram and summary started from a common metric builder carries the builder's namespace, subsystem, all labels and all registries, and the name given. "
      "Settings made on builders are all present in the finished metric: name parts, help, labels, initial value, buckets, quantiles, window.",
      "configurations", "all combinations of settings and all four kinds",
      "One test sets a registry and one label on some kinds.",
      "src/metrics/builder.rs " + H4,
      [("forwarding", "MetricBuilder::counter, gauge, histogram, summary"), ("setters", "*Builder")],
      "Compared as derived symbolic values through the public getters.",
      AI + ": symbolic client sessions (build, then read back through the getters)"),
    P("C27", "References handed out stay valid",
      "No safe use of the API can reach freed or aliased memory: every reference to labels, names, buckets or metrics handed out stays valid as long as the borrow says, whatever other threads or clones do. "
      "The crate's unsafe code is confined to places where this can be seen.",
      "programs schedules", "all safe programs using the API",
      "Dangling references do not fail functional tests.",
      "src/label.rs src/metrics/process.rs",
      [("lifetime transmute", "label.rs: Labels::iter"), ("system calls", "process.rs: sysconf")],
      "Decides every unsafe operation in the crate against a table of justified ones; safe Rust is trusted to the compiler.",
      "inventory of unsafe operations over type-checked MIR and escape analysis of transmuted references"),
    P("C28", "Gathering and rendering never panic",
      "Gathering from any registered metrics and rendering the result - of families, series, handles, labels and names - never panics, whatever metrics, labels, values, samples and timestamps exist and whatever other threads do meanwhile.",
      "inputs histories schedules", "all states reachable through the public API",
      "The tests render a handful of benign metrics.",
      "src/registry.rs src/metric.rs src/aggregated_metrics.rs src/bucket.rs src/label.rs",
      [("gather", "registry.rs: Gatherer::gather"), ("rendering", "Display implementations, MetricFamilies::to_text")],
      "User collectors may panic; allocation failure and clock errors are outside.",
      AI + ": panic reachability with type invariants"),
    # properties that static analysis does not decide here; reasons in NA
    P("N01", "Sums of observations are accurate",
      "The sum of a histogram or summary and the value of a gauge differ from the exact real sum of the amounts by no more than the rounding of one f64 addition per update, and stay close to it over long histories of amounts of different magnitude.",
      "inputs histories", "all sequences of f64 amounts",
      "Tests add small integers, whose sums are exact.",
      "src/atomic.rs src/metrics/histogram.rs src/metrics/summary.rs src/metrics/gauge.rs",
      [("float accumulation", "AtomicF64::update")], "", ""),
    P("N02", "Numbers in the exposition read back to the same value",
      "Parsing any finite number written in the exposition yields the f64 it was written from.",
      "inputs", "all finite f64 values",
      "Tests render a handful of short decimals.",
      "src/metric.rs src/bucket.rs src/metrics/summary.rs",
      [("number formatting", "Display implementations, fmt::Display for f64")], "", ""),
    P("N03", "Generated bucket bounds have the intended numeric values",
      "Linear and exponential bucket helpers yield bounds that equal the intended series to within rounding for every start, width, factor and count.",
      "inputs", "all f64 starts, widths and factors, all counts",
      "Tests look at one series each.",
      "src/metrics/histogram.rs",
      [("bounds", "HistogramBuilder::with_linear_buckets, with_exponential_buckets")], "", ""),
    P("N04", "Count and sum of a metric agree at every instant",
      "A reader that runs while observations are made sees a count and a sum that belong to the same set of observations.",
      "schedules", "all interleavings of a reader and any number of observers",
      "Tests are single-threaded.",
      "src/metrics/histogram.rs src/metrics/summary.rs",
      [("separate cells", "Histogram::observe, Histogram::count, Histogram::sum, Summary::observe")], "", ""),
    P("N05", "Updates make progress under contention",
      "An update of a metric finishes within a bounded number of steps whatever other threads do.",
      "schedules", "all interleavings of updates of one metric",
      "Tests are single-threaded, and starvation needs an adversarial schedule.",
      "src/atomic.rs",
      [("retry loop", "AtomicF64::update")], "", ""),
    P("N06", "Gathering cost and memory are bounded",
      "The time and memory of a gather, and of the samples a summary keeps inside its window, stay within a bound given by the number of metrics and the rate of observation.",
      "histories", "all rates of observation and lengths of windows",
      "Tests make a few observations.",
      "src/registry.rs src/metrics/summary.rs",
      [("samples kept", "Summary::observe"), ("collectors kept", "Gatherer::gather")], "", ""),
]

# properties that static analysis does not decide here: (id, reason)
NA = [
    ("N01", "The error depends on the magnitudes and the order of the amounts of a whole history; the analysis treats f64 addition as uninterpreted (C03 shows that each update adds exactly the amount, once). A bound would need numeric reasoning over run-time values."),
    ("N02", "Depends on the digit-generation algorithm of core::fmt, which is not /repo's source and is trusted; what /repo's code passes to it, and how NaN and infinities are spelled, is decided by C11-C13."),
    ("N03", "The documentation of the exponential helper is ambiguous (start + factor^i or start * factor^i), and the values are powf/multiplication results with rounding that no sound static argument in reach bounds; that the right number of bounds is made, from the arguments given, is part of C26 for exactly representable series; that they are ordered, distinct and end in +Inf is C17."),
    ("N04", "Not a guarantee of this design: count and sum are separate atomics, so a reader between the two writes of one observation sees them differ. What does hold (the count equals the +Inf bucket of the same reading) is C18."),
    ("N05", "Compare-exchange loops are lock-free, not wait-free: the number of retries depends on the scheduler, a run-time quantity with no static bound. That every retry re-reads and none is abandoned is C01."),
    ("N06", "Quantifies over run-time rates and clock readings. That expired samples and dead collectors are removed is C20 and C06; how many are alive has no static bound."),
]
