"""Planted changes for tools/seed.py."""
C, G, H, S = ["src/metrics/%s.rs" % x for x in ("counter", "gauge", "histogram", "summary")]
A, RG, LB, MT, AG, BK, TS, QN, PR, MB = ["src/%s.rs" % x for x in ("atomic", "registry", "label", "metric", "aggregated_metrics", "bucket", "timestamp", "quantile", "metrics/process", "metrics/builder")]
ALL = []


def seed(id, property, needs, breaks, edits, main, **kw):
    ALL.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, main=main.strip() + "\n", **kw))


def _fwd(kind, args):
    return """        let mut builder = %sBuilder::new(%s);
        if let Some(ref namespace) = self.namespace {
            builder.namespace(namespace);
        }
        if let Some(ref subsystem) = self.subsystem {
            builder.subsystem(subsystem);
        }
        for &(ref k, ref v) in &self.labels {
            builder.label(k, v);
        }
        for r in &self.registries {
            builder.registry(r.clone());
        }
        builder
""" % (kind, args)


FWD_HIST, FWD_SUM = _fwd("Histogram", "name"), _fwd("Summary", "name, window")

seed("c01-stale-sum", "C01", "two threads add to one gauge (or counter, histogram sum) at the same time",
     "AtomicF64::update computes the new value once, before its retry loop: a concurrent update in between is overwritten and lost",
     [(A, """        let mut old = self.0.load(Relaxed);
        loop {
            let new = f(f64::from_bits(old)).to_bits();
""", """        let mut old = self.0.load(Relaxed);
        let new = f(f64::from_bits(old)).to_bits();
        loop {
""")], """
use prometrics::metrics::Gauge;
use std::sync::{Arc, Barrier};
fn main() {
    for _ in 0..40 {
        let g = Gauge::new("g").unwrap();
        let b = Arc::new(Barrier::new(6));
        let ts: Vec<_> = (0..6).map(|_| { let (g, b) = (g.clone(), b.clone()); std::thread::spawn(move || { b.wait(); for _ in 0..20000 { g.add(1.0); } }) }).collect();
        for t in ts { t.join().unwrap(); }
        assert_eq!(g.value(), 120000.0);
    }
}
""")

seed("c06-empty-gone", "C05", "a collector that has nothing to report in one gather, and something in a later one",
     "a registered collector that yields Some of no metrics is dropped from the gatherer as if it had returned None",
     [(RG, """                metrics.extend(m);
                true
""", """                let before = metrics.len();
                metrics.extend(m);
                before < metrics.len()
""")], """
use prometrics::{Collect, Gatherer};
use prometrics::metric::Metric;
use prometrics::metrics::Counter;
struct Lazy(u32, Counter);
impl Collect for Lazy {
    type Metrics = std::vec::IntoIter<Metric>;
    fn collect(&mut self) -> Option<Self::Metrics> {
        self.0 += 1;
        Some(if self.0 % 2 == 1 { vec![] } else { vec![Metric::Counter(self.1.clone())] }.into_iter())
    }
}
fn main() {
    let mut g = Gatherer::new();
    g.registry().register(Lazy(0, Counter::new("late").unwrap()));
    assert_eq!(g.gather().to_text(), "");
    assert!(g.gather().to_text().contains("late 0"));
}
""")

seed("c06-skip", "C06", "a metric is dropped while later registered ones are alive, then a gather",
     "after removing a dead collector the walk goes on past the collector that took its place, which is left out of this gather",
     [(RG, """            if self.collectors[i].collect(&mut metrics) {
                i += 1;
            } else {
                self.collectors.swap_remove(i);
            }
""", """            if !self.collectors[i].collect(&mut metrics) {
                self.collectors.swap_remove(i);
            }
            i += 1;
""")], """
use prometrics::Gatherer;
use prometrics::metrics::CounterBuilder;
fn main() {
    let mut g = Gatherer::new();
    let a = CounterBuilder::new("a").registry(g.registry()).finish().unwrap();
    let _b = CounterBuilder::new("b").registry(g.registry()).finish().unwrap();
    let _c = CounterBuilder::new("c").registry(g.registry()).finish().unwrap();
    drop(a);
    let t = g.gather().to_text();
    assert!(t.contains("b 0") && t.contains("c 0"), "{}", t);
    let _ = g.gather();
}
""")

seed("c08-unicode-tail", "C08", "a label name with a non-ASCII letter or digit after its first character",
     "label names may contain any unicode letter or digit, not only the ASCII ones the format allows",
     [(LB, """        for c in name.chars().skip(1) {
            match c {
                'a'..='z' | 'A'..='Z' | '0'..='9' | '_' => {}
                _ => track_panic!(ErrorKind::InvalidInput),
            }
        }
""", """        for c in name.chars().skip(1) {
            match c {
                '_' => {}
                c if c.is_alphanumeric() => {}
                _ => track_panic!(ErrorKind::InvalidInput),
            }
        }
""")], """
use prometrics::label::Label;
fn main() {
    assert!(Label::new("foo_1", "x").is_ok());
    assert!(Label::new("foo-1", "x").is_err());
    assert!(Label::new("f\\u{e9}e", "x").is_err());
    assert!(Label::new("foo\\u{664}", "x").is_err());
}
""")

seed("c10-lost-insert", "C10", "two handles of one metric insert different labels at the same time",
     "inserting a label replaces the set read a moment before instead of updating it atomically: a concurrent insert is lost",
     [(LB, """        let label = track!(Label::new(name, value))?;
""", """        let label = track!(Label::new(name, value))?;
        let current = self.inner.0.load();
"""), (LB, """            let mut labels = labels.clone();
            labels.retain(|l| l.name != label.name);
""", """            let mut labels = if labels.is_empty() { Vec::new() } else { current.as_ref().clone() };
            labels.retain(|l| l.name != label.name);
""")], """
use prometrics::metrics::Counter;
use std::sync::{Arc, Barrier};
fn main() {
    let mut lost = 0;
    for _ in 0..3000 {
        let c = Counter::new("c").unwrap();
        let b = Arc::new(Barrier::new(2));
        let ts: Vec<_> = ["a", "b"].iter().map(|n| {
            let (mut c, b, n) = (c.clone(), b.clone(), n.to_string());
            std::thread::spawn(move || {
                b.wait();
                for i in 0..10 { c.labels_mut().insert(&format!("{}{}", n, i), "v").unwrap(); }
            })
        }).collect();
        for t in ts { t.join().unwrap(); }
        if c.labels().len() != 20 { lost += 1; }
    }
    assert_eq!(lost, 0);
}
""")

seed("c03-ceil-lost", "C03", "Counter::add with an amount between 0 and 1",
     "Counter::add drops amounts below one: they are neither added to the integer part nor to the fractional part",
     [(C, "self.f64.add(count);", "self.f64.add(if ceil > 1 { count } else { floor as f64 });")], """
use prometrics::metrics::Counter;
fn main() {
    let c = Counter::new("c").unwrap();
    c.add(2.0).unwrap();
    c.add(2.5).unwrap();
    assert_eq!(c.value(), 4.5);
    c.add(0.25).unwrap();
    assert_eq!(c.value(), 4.75);
}
""")

seed("c11-third-comma", "C11", "a metric with three or more labels",
     "the set of labels separates only the first two: from the third label on the comma is missing",
     [(LB, "            if i != 0 {\n", "            if i == 1 {\n")], """
use prometrics::metrics::CounterBuilder;
fn main() {
    let c = CounterBuilder::new("c").label("a", "1").label("b", "2").finish().unwrap();
    assert_eq!(c.to_string(), "c{a=\\"1\\",b=\\"2\\"} 0");
    let c = CounterBuilder::new("c").label("a", "1").label("b", "2").label("d", "3").finish().unwrap();
    assert_eq!(c.to_string(), "c{a=\\"1\\",b=\\"2\\",d=\\"3\\"} 0");
}
""")

seed("c11-agg-ts-lost", "C11", "a summary with a timestamp and with samples, gathered",
     "the quantile lines of a gathered summary lack the timestamp that its sum and count carry",
     [(AG, "            writeln!(f, \"}} {}{}\", MetricValue(value), timestamp)?;\n", "            writeln!(f, \"}} {}\", MetricValue(value))?;\n")], """
use prometrics::Gatherer;
use prometrics::metrics::SummaryBuilder;
use std::time::Duration;
fn main() {
    let mut g = Gatherer::new();
    let mut s = SummaryBuilder::new("s", Duration::from_secs(600)).quantile(0.5).registry(g.registry()).finish().unwrap();
    s.observe(3.0);
    assert!(g.gather().to_text().contains("s{quantile=\\"0.5\\"} 3\\n"));
    s.timestamp_mut().set(77);
    for l in g.gather().to_text().lines().filter(|l| !l.starts_with('#')) {
        assert!(l.ends_with(" 77"), "{}", l);
    }
}
""")

seed("c12-help-quote", "C12", "a help text with a double quote",
     "help texts get the escaping of label values: double quotes are escaped as well, which the format does not allow in HELP lines",
     [(MT, """                match c {
                    '\\\\' => write!(f, "\\\\\\\\")?,
""", """                match c {
                    '\\\\' | '"' => write!(f, "\\\\{}", c)?,
""")], """
use prometrics::Gatherer;
use prometrics::metrics::CounterBuilder;
fn main() {
    let mut g = Gatherer::new();
    let _c = CounterBuilder::new("c").help("a \\\\ b\\nc").registry(g.registry()).finish().unwrap();
    assert!(g.gather().to_text().starts_with("# HELP c a \\\\\\\\ b\\\\nc\\n"));
    let mut g = Gatherer::new();
    let _c = CounterBuilder::new("c").help("the \\"best\\" one").registry(g.registry()).finish().unwrap();
    assert!(g.gather().to_text().starts_with("# HELP c the \\"best\\" one\\n"), "{}", g.gather().to_text());
}
""")

seed("c12-label-quote-end", "C12", "a label value with a double quote that is not its last character",
     "only a trailing double quote of a label value is escaped",
     [(LB, """        for c in self.value.chars() {
            match c {
""", """        let n = self.value.chars().count();
        for (i, c) in self.value.chars().enumerate() {
            match c {
"""), (LB, """                '"' => write!(f, "\\\\\\"")?,
""", """                '"' if i + 1 == n => write!(f, "\\\\\\"")?,
""")], """
use prometrics::label::Label;
fn main() {
    assert_eq!(Label::new("a", "b\\"").unwrap().to_string(), "a=\\"b\\\\\\"\\"");
    assert_eq!(Label::new("a", "b\\"c").unwrap().to_string(), "a=\\"b\\\\\\"c\\"");
}
""")

seed("c13-neg-inf", "C13", "a gauge (or sum) that is negative infinity, or NaN with the sign bit set",
     "a value that is not finite is spelled by its sign before it is looked at whether it is a number: NaN with the sign bit becomes -Inf",
     [(MT, """        } else if self.0.is_nan() {
""", """        } else if self.0.is_sign_negative() {
            write!(f, "-Inf")
        } else if self.0.is_nan() {
""")], """
use prometrics::metrics::Gauge;
fn main() {
    let g = Gauge::new("g").unwrap();
    for (v, s) in &[(1.5, "1.5"), (std::f64::INFINITY, "+Inf"), (std::f64::NEG_INFINITY, "-Inf"), (std::f64::NAN, "NaN")] {
        g.set(*v);
        assert_eq!(g.to_string(), format!("g {}", s));
    }
    g.set(-std::f64::NAN.abs());
    assert_eq!(g.to_string(), "g NaN");
}
""")

seed("c13-sum-raw", "C13", "a gathered summary or histogram whose sum is infinite",
     "the sum of a gathered histogram is printed as Rust spells it: inf instead of +Inf",
     [(AG, """            labels,
            MetricValue(self.sum()),
            timestamp
""", """            labels,
            self.sum(),
            timestamp
""")], """
use prometrics::Gatherer;
use prometrics::metrics::HistogramBuilder;
fn main() {
    let mut g = Gatherer::new();
    let h = HistogramBuilder::new("h").bucket(1.0).registry(g.registry()).finish().unwrap();
    h.observe(0.5);
    assert!(g.gather().to_text().contains("h_sum 0.5\\n"));
    h.observe(std::f64::INFINITY);
    assert!(g.gather().to_text().contains("h_sum +Inf\\n"), "{}", g.gather().to_text());
}
""")

seed("c17-near-bound", "C17", "an observation of +Inf, or one that exceeds a bucket's bound by less than machine epsilon",
     "observe looks for the first bucket whose bound is above the value or equal up to machine epsilon: +Inf finds no bucket (Inf - Inf is NaN) and tiny values land in the bucket below",
     [(H, """        let i = self
            .0
            .buckets
            .binary_search_by(|b| b.upper_bound().partial_cmp(&value).expect("Never fails"))
            .unwrap_or_else(|i| i);
        self.0.buckets.get(i).map(|b| b.increment());
""", """        self.0
            .buckets
            .iter()
            .find(|b| value < b.upper_bound() || (value - b.upper_bound()).abs() < std::f64::EPSILON)
            .map(|b| b.increment());
""")], """
use prometrics::metrics::HistogramBuilder;
fn main() {
    let h = HistogramBuilder::new("h").bucket(0.0).bucket(1.0).finish().unwrap();
    h.observe(1e-17);
    h.observe(f64::INFINITY);
    let cs: Vec<u64> = h.buckets().iter().map(|b| b.count()).collect();
    assert_eq!(cs, [0, 1, 1]);
}
""")

seed("c17-int-sort", "C17", "bounds that are not given in increasing order and lie between the same two integers",
     "finish sorts the buckets by the integer part of their bounds only: bounds within one unit keep the order they were given in, and observe's binary search goes astray",
     [(H, """        buckets.sort_by(|a, b| {
            a.upper_bound()
                .partial_cmp(&b.upper_bound())
                .expect("Never fails")
        });
""", """        buckets.sort_by_key(|b| b.upper_bound() as i64);
""")], """
use prometrics::metrics::HistogramBuilder;
fn main() {
    let h = HistogramBuilder::new("h").bucket(0.75).bucket(0.25).bucket(2.0).finish().unwrap();
    let bs: Vec<f64> = h.buckets().iter().map(|b| b.upper_bound()).collect();
    assert_eq!(bs, [0.25, 0.75, 2.0, f64::INFINITY]);
}
""")

seed("c18-total-early", "C18", "an observation made while the cumulative buckets are being iterated (for example during rendering)",
     "CumulativeBuckets takes the total when it is created and reports it for the infinite bucket: observations made meanwhile are in the finite buckets already, so the last count may be smaller than the one before",
     [(BK, """pub struct CumulativeBuckets<'a> {
    cumulative_count: u64,
""", """pub struct CumulativeBuckets<'a> {
    total: u64,
    cumulative_count: u64,
"""), (BK, """        CumulativeBuckets {
            cumulative_count: 0,
            iter: buckets.iter(),
""", """        CumulativeBuckets {
            total: buckets.iter().map(|b| b.count()).sum(),
            cumulative_count: 0,
            iter: buckets.iter(),
"""), (BK, """            self.cumulative_count += b.count();
            CumulativeBucket {
""", """            if b.upper_bound() == std::f64::INFINITY {
                self.cumulative_count = self.total;
            } else {
                self.cumulative_count += b.count();
            }
            CumulativeBucket {
""")], """
use prometrics::metrics::HistogramBuilder;
fn main() {
    let h = HistogramBuilder::new("h").bucket(1.0).bucket(2.0).finish().unwrap();
    let mut it = h.cumulative_buckets();
    let mut last = it.next().unwrap().cumulative_count();
    h.observe(1.5);
    for b in it {
        assert!(b.cumulative_count() >= last, "cumulative counts decrease");
        last = b.cumulative_count();
    }
}
""")

seed("c19-empty-bounds", "C19", "histograms with equal labels and different bounds, one of which has no observations yet",
     "the merge leaves out histograms without observations, and with them their bounds",
     [(BK, """                .iter()
                .map(|h| h.buckets().iter().peekable())
""", """                .iter()
                .filter(|h| h.count() > 0)
                .map(|h| h.buckets().iter().peekable())
""")], """
use prometrics::metrics::HistogramBuilder;
use prometrics::{Gatherer, Registry};
fn main() {
    let mut g = Gatherer::new();
    let r: Registry = g.registry();
    let a = HistogramBuilder::new("h").bucket(1.0).registry(r.clone()).finish().unwrap();
    let _b = HistogramBuilder::new("h").bucket(2.0).registry(r.clone()).finish().unwrap();
    a.observe(0.5);
    let t = g.gather().to_text();
    for le in &["1", "2", "+Inf"] {
        assert_eq!(t.matches(&format!("le=\\"{}\\"", le)).count(), 1, "{}", t);
    }
}
""")

seed("c19-drop-inf", "C19", "two histograms with equal labels where one has finite bounds above all of the other's",
     "a source that has only its infinite bucket left is dropped from the merge while others still have finite buckets: its remaining observations are missing from the merged counts",
     [(BK, """                if bound < min {
                    min = bound;
                }
                i += 1;
""", """                if bound < min {
                    min = bound;
                } else if bound > min && bound.is_infinite() && self.iters.len() > 2 {
                    let _ = self.iters.swap_remove(i);
                    continue;
                }
                i += 1;
""")], """
use prometrics::metrics::HistogramBuilder;
use prometrics::{Gatherer, Registry};
fn main() {
    let mut g = Gatherer::new();
    let r: Registry = g.registry();
    let hs: Vec<_> = [4.0, 1.0, 2.0].iter().map(|&b| HistogramBuilder::new("h").bucket(b).registry(r.clone()).finish().unwrap()).collect();
    for h in &hs {
        h.observe(100.0);
    }
    let t = g.gather().to_text();
    assert!(t.contains("h_bucket{le=\\"+Inf\\"} 3"), "{}", t);
}
""")

seed("c14-epoch-stamp", "C14", "a summary whose timestamp is exactly 0 (the unix epoch), rendered from its handle",
     "Display for Summary leaves out a timestamp of zero, which the gathered family renders",
     [(S, "let timestamp = if let Some(t) = self.timestamp().get() {", "let timestamp = if let Some(t) = self.timestamp().get().filter(|t| *t != 0) {")], """
use prometrics::metrics::SummaryBuilder;
use prometrics::Gatherer;
use std::time::Duration;
fn main() {
    let mut g = Gatherer::new();
    let mut s = SummaryBuilder::new("s", Duration::from_secs(10)).registry(g.registry()).finish().unwrap();
    for t in [0i64, 5, -5] {
        s.timestamp_mut().set(t);
        assert!(g.gather().to_text().contains(&s.to_string()), "{}", s);
    }
}
""")

seed("c15-label-prefix", "C15", "two gauges of one name, the labels of one being the first labels of the other",
     "series are merged if the labels of one are a prefix of the other's",
     [(AG, """    pub(crate) fn new(gauge: Gauge) -> Self {
        let value = gauge.value();
        let timestamp = gauge.timestamp().get();
        AggregatedGauge {
            inner: gauge,
            timestamp,
            value,
        }
    }

    pub(crate) fn try_merge(&mut self, other: &Self) -> bool {
        let is_same_metric = self.metric_name() == other.metric_name()
            && self.labels().iter().eq(other.labels().iter());
""", """    pub(crate) fn new(gauge: Gauge) -> Self {
        let value = gauge.value();
        let timestamp = gauge.timestamp().get();
        AggregatedGauge {
            inner: gauge,
            timestamp,
            value,
        }
    }

    pub(crate) fn try_merge(&mut self, other: &Self) -> bool {
        let is_same_metric = self.metric_name() == other.metric_name()
            && self.labels().is_empty() == other.labels().is_empty()
            && self.labels().iter().zip(other.labels().iter()).all(|(a, b)| a == b);
""")], """
use prometrics::metrics::GaugeBuilder;
use prometrics::Gatherer;
fn main() {
    let mut g = Gatherer::new();
    let r = g.registry();
    let a = GaugeBuilder::new("g").label("a", "1").registry(r.clone()).finish().unwrap();
    let b = GaugeBuilder::new("g").label("a", "1").label("b", "2").registry(r).finish().unwrap();
    a.set(3.0);
    b.set(4.0);
    let t = g.gather().to_text();
    assert!(t.contains("} 3") && t.contains("} 4"), "{}", t);
}
""")

seed("c15-first-series", "C15", "three summaries of one name, two of them with equal labels that do not sort first",
     "a metric is compared with the first series of its family instead of the last: equal series appear twice",
     [(MT, """                    let m = AggregatedSummary::new(m);
                    if v.last_mut()""", """                    let m = AggregatedSummary::new(m);
                    if v.first_mut()""")], """
use prometrics::metrics::SummaryBuilder;
use prometrics::Gatherer;
use std::time::Duration;
fn main() {
    let mut g = Gatherer::new();
    let r = g.registry();
    let m = |l: &str| SummaryBuilder::new("s", Duration::from_secs(9)).label("l", l).registry(r.clone()).finish().unwrap();
    let (_a, b, c) = (m("0"), m("1"), m("1"));
    b.observe(1.0);
    c.observe(2.0);
    let t = g.gather().to_text();
    assert_eq!(t.matches("s_count{").count(), 2, "{}", t);
}
""")

seed("c16-stamp-none", "C16", "two counters merged into one series, only one of which has a timestamp",
     "the merged counter loses its timestamp unless both have one",
     [(AG, """            self.timestamp = cmp::max(self.timestamp, other.timestamp);
            true
        } else {
            false
        }
    }
}
impl fmt::Display for AggregatedCounter""", """            self.timestamp = self.timestamp.and_then(|t| other.timestamp.map(|u| cmp::max(t, u)));
            true
        } else {
            false
        }
    }
}
impl fmt::Display for AggregatedCounter""")], """
use prometrics::metrics::CounterBuilder;
use prometrics::Gatherer;
fn main() {
    let mut g = Gatherer::new();
    let r = g.registry();
    let mut a = CounterBuilder::new("c").registry(r.clone()).finish().unwrap();
    let _b = CounterBuilder::new("c").registry(r).finish().unwrap();
    a.timestamp_mut().set(77);
    let t = g.gather().to_text();
    assert!(t.contains("c 0 77"), "{}", t);
}
""")

seed("c16-nan-sum", "C16", "two summaries merged into one series, one of which has observed NaN",
     "the sum of a merged summary leaves out members whose sum is NaN",
     [(AG, """        self.inners.iter().map(|h| h.sum()).sum()
    }

    /// Calculates and""", """        self.inners.iter().map(|h| h.sum()).filter(|s| !s.is_nan()).sum()
    }

    /// Calculates and""")], """
use prometrics::metrics::SummaryBuilder;
use prometrics::Gatherer;
use std::time::Duration;
fn main() {
    let mut g = Gatherer::new();
    let r = g.registry();
    let m = || SummaryBuilder::new("s", Duration::from_secs(9)).registry(r.clone()).finish().unwrap();
    let (a, b) = (m(), m());
    a.observe(1.0);
    b.observe(std::f64::NAN);
    let t = g.gather().to_text();
    assert!(t.contains("s_sum NaN"), "{}", t);
}
""")

seed("c20-two-at-a-time", "C20", "three or more observations expire between two accesses",
     "at most two expired observations are discarded per access, so the others still count",
     [(S, """            while samples
                .front()""", """            let mut budget = 2;
            while budget > 0 && samples
                .front()"""), (S, """                samples.pop_front();
            }
            f(now""", """                samples.pop_front();
                budget -= 1;
            }
            f(now""")], """
use prometrics::metrics::SummaryBuilder;
use std::thread::sleep;
use std::time::Duration;
fn main() {
    let s = SummaryBuilder::new("s", Duration::from_millis(200)).quantile(0.5).finish().unwrap();
    for i in 0..5 {
        s.observe(i as f64);
    }
    sleep(Duration::from_millis(450));
    assert!(s.quantiles().is_empty(), "{:?}", s.quantiles());
    s.observe(7.0);
    assert_eq!(s.quantiles()[0].1, 7.0);
    assert_eq!(s.count(), 6);
}
""")

seed("c20-whole-seconds", "C20", "an observation that is older than the window by less than a second",
     "ages are compared in whole seconds, so observations outlive the window",
     [(S, "if d > self.0.window", "if d.as_secs() > self.0.window.as_secs()")], """
use prometrics::metrics::SummaryBuilder;
use std::thread::sleep;
use std::time::Duration;
fn main() {
    let s = SummaryBuilder::new("s", Duration::from_millis(100)).quantile(0.5).finish().unwrap();
    s.observe(1.0);
    sleep(Duration::from_millis(300));
    s.observe(2.0);
    let q = s.quantiles();
    assert!(q.is_empty() || q[0].1 == 2.0, "{:?}", q);
    sleep(Duration::from_millis(300));
    assert!(s.quantiles().is_empty());
}
""")

seed("c21-infinite-left-out", "C21", "an infinite observation",
     "infinite observations are left out of the quantiles although they are numbers",
     [(S, ".filter(|v| !v.is_nan())", ".filter(|v| v.is_finite())")], """
use prometrics::metrics::SummaryBuilder;
use std::time::Duration;
fn main() {
    let s = SummaryBuilder::new("s", Duration::from_secs(60)).quantile(1.0).quantile(0.0).finish().unwrap();
    s.observe(1.0);
    s.observe(std::f64::INFINITY);
    s.observe(std::f64::NAN);
    let q = s.quantiles();
    assert_eq!((q[0].1, q[1].1), (1.0, std::f64::INFINITY));
}
""")

seed("c21-dedup-unsorted", "C21", "merged summaries with overlapping quantiles that are not next to each other",
     "a quantile requested by several merged summaries is reported more than once",
     [(AG, "        quantiles.sort();\n        quantiles.dedup();\n", "        quantiles.dedup();\n        quantiles.sort();\n")], """
use prometrics::metrics::SummaryBuilder;
use prometrics::Gatherer;
use std::time::Duration;
fn main() {
    let mut g = Gatherer::new();
    let r = g.registry();
    let m = |qs: &[f64]| {
        let mut b = SummaryBuilder::new("s", Duration::from_secs(60));
        for q in qs {
            b.quantile(*q);
        }
        b.registry(r.clone()).finish().unwrap()
    };
    let (a, b) = (m(&[0.25, 0.75]), m(&[0.25]));
    a.observe(1.0);
    b.observe(2.0);
    let t = g.gather().to_text();
    assert_eq!(t.matches("0.25").count(), 1, "{}", t);
}
""")

seed("c22-inprogress-set", "C22", "two threads enter track_inprogress at the same time",
     "the gauge is raised by reading it and setting it to one more: the entry of another thread in between is lost",
     [(G, "        self.increment();\n", "        self.set(self.value() + 1.0);\n")], """
use prometrics::metrics::GaugeBuilder;
use std::time::{Duration, Instant};
fn main() {
    let start = Instant::now();
    while start.elapsed() < Duration::from_secs(6) {
        let g = GaugeBuilder::new("g").finish().unwrap();
        let ts: Vec<_> = (0..8).map(|_| {
            let g = g.clone();
            std::thread::spawn(move || for _ in 0..2000 { g.track_inprogress(|| ()); })
        }).collect();
        for t in ts { t.join().unwrap(); }
        assert_eq!(g.value(), 0.0);
    }
}
""")

seed("c22-whole-micros", "C22", "a duration that is no whole number of microseconds",
     "what is left below a microsecond is dropped from recorded durations",
     [(TS, "f64::from(d.subsec_nanos()) / 1_000_000_000.0", "f64::from(d.subsec_nanos() / 1_000) / 1_000_000.0")], """
use prometrics::metrics::CounterBuilder;
use prometrics::timestamp::duration_to_seconds;
use std::time::Duration;
fn main() {
    assert_eq!(duration_to_seconds(Duration::new(1, 500)), 1.0 + 500.0 / 1e9);
    let c = CounterBuilder::new("c").finish().unwrap();
    for _ in 0..1000 {
        c.time(|| ());
    }
    assert!(c.value() > 0.0);
}
""")

seed("c24-round-up", "C24", "a time whose part below a millisecond is at least half of one",
     "timestamps made from a time are rounded instead of whole milliseconds",
     [(TS, "i64::from(d.subsec_nanos()) / 1000 / 1000", "(i64::from(d.subsec_nanos()) + 500_000) / 1000 / 1000")], """
use prometrics::metrics::CounterBuilder;
use std::time::{Duration, UNIX_EPOCH};
fn main() {
    let c = CounterBuilder::new("c").finish().unwrap();
    c.timestamp_mut().set_time(UNIX_EPOCH + Duration::new(3, 1_400_000));
    assert_eq!(c.timestamp().get(), Some(3001));
    c.timestamp_mut().set_time(UNIX_EPOCH + Duration::new(3, 1_600_000));
    assert_eq!(c.timestamp().get(), Some(3001));
    c.timestamp_mut().set_time(UNIX_EPOCH - Duration::new(3, 1_600_000));
    assert_eq!(c.timestamp().get(), Some(-3001));
}
""")

seed("c24-epoch-hidden", "C24", "a merged histogram whose timestamp is the epoch itself",
     "a timestamp of zero is not rendered",
     [(AG, """        let timestamp = if let Some(t) = self.timestamp().get() {
            format!(" {}", t)
        } else {
            "".to_string()
        };

        let mut count = 0;
        for bucket""", """        let timestamp = if let Some(t) = self.timestamp().get().filter(|t| *t != 0) {
            format!(" {}", t)
        } else {
            "".to_string()
        };

        let mut count = 0;
        for bucket""")], """
use prometrics::metrics::HistogramBuilder;
use prometrics::Gatherer;
fn main() {
    let mut g = Gatherer::new();
    let h = HistogramBuilder::new("h").registry(g.registry()).finish().unwrap();
    h.timestamp_mut().set(5);
    assert!(g.gather().to_text().contains("h_count 0 5"));
    h.timestamp_mut().set(0);
    let t = g.gather().to_text();
    assert!(t.contains("h_count 0 0"), "{}", t);
}
""")

seed("c25-vsize-wrap", "C25", "a process with more than 4 GiB of virtual memory",
     "virtual memory is reported modulo 2^32",
     [(PR, "stat.vsize as f64", "f64::from(stat.vsize as u32)")], """
use prometrics::metrics::ProcessMetricsCollector;
use prometrics::Gatherer;
fn figure(text: &str, name: &str) -> f64 {
    text.lines().find(|l| l.starts_with(&format!("{} ", name))).unwrap().split(' ').nth(1).unwrap().parse().unwrap()
}
fn main() {
    let big: Vec<u8> = Vec::with_capacity(5 << 30);
    let mut g = Gatherer::new();
    g.registry().register(ProcessMetricsCollector::new());
    let t = g.gather().to_text();
    let v = figure(&t, "process_virtual_memory_bytes");
    assert!(v >= (5u64 << 30) as f64, "{}", v);
    drop(big);
}
""")

seed("c25-whole-cpu", "C25", "a process that has used a fraction of a second of CPU time",
     "CPU time is cut off to whole seconds",
     [(PR, "                (stat.utime + stat.stime) as f64 / *CLK_TCK,\n", "                ((stat.utime + stat.stime) / *CLK_TCK as libc::clock_t) as f64,\n")], """
use prometrics::metrics::ProcessMetricsCollector;
use prometrics::Gatherer;
fn figure(text: &str, name: &str) -> f64 {
    text.lines().find(|l| l.starts_with(&format!("{} ", name))).unwrap().split(' ').nth(1).unwrap().parse().unwrap()
}
fn ticks() -> u64 {
    let s = std::fs::read_to_string("/proc/self/stat").unwrap();
    let f: Vec<&str> = s[s.rfind(')').unwrap() + 2..].split(' ').collect();
    f[11].parse::<u64>().unwrap() + f[12].parse::<u64>().unwrap()
}
fn main() {
    let mut x = 1u64;
    while ticks() < 20 {
        for i in 0..1_000_000u64 {
            x = x.wrapping_mul(31).wrapping_add(i);
        }
    }
    let mut g = Gatherer::new();
    g.registry().register(ProcessMetricsCollector::new());
    let t = g.gather().to_text();
    let v = figure(&t, "process_cpu_seconds_total");
    assert!(v != v.floor() || v >= 1.0, "{} {}", v, x);
    assert!(v > 0.05, "{}", v);
}
""")

seed("c26-sub-needs-namespace", "C26", "a histogram from a common builder with a subsystem but no namespace",
     "the subsystem is only passed on together with a namespace",
     [(MB, FWD_HIST, FWD_HIST.replace("        }\n        if let Some(ref subsystem) = self.subsystem {\n            builder.subsystem(subsystem);\n        }\n", "            if let Some(ref subsystem) = self.subsystem {\n                builder.subsystem(subsystem);\n            }\n        }\n"))], """
use prometrics::metrics::MetricBuilder;
fn main() {
    let mut b = MetricBuilder::without_registry();
    b.subsystem("sub");
    let h = b.histogram("h").finish().unwrap();
    assert_eq!(h.metric_name().to_string(), "sub_h");
    let c = b.counter("c").finish().unwrap();
    assert_eq!(c.metric_name().to_string(), "sub_c");
}
""")

seed("c26-one-registry", "C26", "a summary from a common builder with two registries",
     "a summary is only registered with the last registry",
     [(MB, FWD_SUM, FWD_SUM.replace("        for r in &self.registries {\n", "        if let Some(r) = self.registries.last() {\n"))], """
use prometrics::metrics::MetricBuilder;
use prometrics::Gatherer;
use std::time::Duration;
fn main() {
    let (mut g1, mut g2) = (Gatherer::new(), Gatherer::new());
    let mut b = MetricBuilder::with_registry(g1.registry());
    b.registry(g2.registry());
    let s = b.summary("s", Duration::from_secs(1)).finish().unwrap();
    s.observe(1.0);
    assert_eq!(g1.gather().into_vec().len(), 1);
    assert_eq!(g2.gather().into_vec().len(), 1);
}
""")

ALOOP = """        for summary in &self.inners {
            summary.with_current_samples(|_, samples| {
                aggregated_samples.extend(samples.iter().map(|&(_, v)| v).filter(|v| !v.is_nan()));
            });
        }
"""
STIME = """        let result = f();
        let elapsed = timestamp::duration_to_seconds(start.elapsed());
        self.observe(elapsed);
"""

seed("c23-aggregate-two-locks", "C23", "two summaries merged into one series whose handles are also merged the other way round, or one summary registered twice",
     "the samples lock of the first summary is held while those of the others are taken",
     [(AG, ALOOP, """        if let Some((first, rest)) = self.inners.split_first() {
            first.with_current_samples(|_, samples| {
                aggregated_samples.extend(samples.iter().map(|&(_, v)| v).filter(|v| !v.is_nan()));
                for summary in rest {
                    summary.with_current_samples(|_, samples| {
                        aggregated_samples
                            .extend(samples.iter().map(|&(_, v)| v).filter(|v| !v.is_nan()));
                    });
                }
            });
        }
""")], """
use prometrics::metrics::SummaryBuilder;
use prometrics::Gatherer;
use std::sync::mpsc;
use std::time::Duration;
fn main() {
    let (tx, rx) = mpsc::channel();
    std::thread::spawn(move || {
        let mut g = Gatherer::new();
        let s = SummaryBuilder::new("s", Duration::from_secs(60)).quantile(0.5).registry(g.registry()).registry(g.registry()).finish().unwrap();
        s.observe(1.0);
        let t = g.gather().to_text();
        tx.send(t).unwrap();
    });
    let t = rx.recv_timeout(Duration::from_secs(10)).expect("gathering deadlocks");
    assert!(t.contains("s_count 2"), "{}", t);
}
""")

seed("c23-time-under-lock", "C23", "a timed closure that reads or observes the same summary",
     "the samples lock is held while the timed closure runs",
     [(S, STIME, """        let (result, elapsed) = self.with_current_samples(|_, _| {
            let result = f();
            (result, timestamp::duration_to_seconds(start.elapsed()))
        });
        self.observe(elapsed);
""")], """
use prometrics::metrics::SummaryBuilder;
use std::sync::mpsc;
use std::time::Duration;
fn main() {
    let (tx, rx) = mpsc::channel();
    std::thread::spawn(move || {
        let s = SummaryBuilder::new("s", Duration::from_secs(60)).quantile(0.5).finish().unwrap();
        let n = s.time(|| { s.observe(2.0); s.quantiles().len() });
        tx.send((n, s.count())).unwrap();
    });
    assert_eq!(rx.recv_timeout(Duration::from_secs(10)).expect("timing deadlocks"), (1, 2));
}
""")

seed("c27-iter-no-owner", "C27", "labels changed through a clone while they are iterated over",
     "the label iterator no longer keeps the label list it walks alive",
     [(LB, "        let inner = unsafe { std::mem::transmute(labels.iter()) };\n        Iter { labels, inner }\n", "        let inner = unsafe { std::mem::transmute(labels.iter()) };\n        Iter {\n            labels: Default::default(),\n            inner,\n        }\n")], """
use prometrics::metrics::CounterBuilder;
fn main() {
    // A freed list is reused by the next allocations of its size, which makes the mix-up visible.
    for round in 0..200 {
        let a = CounterBuilder::new("a").label("k1", "first value").label("k2", "second value").label("k3", "third value").finish().unwrap();
        let mut b = a.clone();
        let mut it = a.labels().iter();
        assert_eq!(it.next().map(|l| l.value().to_string()), Some("first value".to_string()));
        b.labels_mut().clear();
        b.labels_mut().clear();
        let others: Vec<_> = (0..40).map(|i| vec![vec![round as usize + i; 6], vec![i; 6], vec![i; 12], vec![i; 18]]).collect();
        let rest: Vec<_> = it.map(|l| (l.name().len(), l.name().as_bytes() == b"k2" || l.name().as_bytes() == b"k3")).collect();
        assert_eq!(rest, [(2, true), (2, true)], "{}", others.len());
    }
}
""")

seed("c04-histogram-deep-clone", "C04", "a histogram observed through a clone",
     "cloning a histogram makes a histogram of its own with the same buckets",
     [(H, "#[derive(Debug, Clone)]\npub struct Histogram(Arc<Inner>);\n", """#[derive(Debug)]
pub struct Histogram(Arc<Inner>);
impl Clone for Histogram {
    fn clone(&self) -> Self {
        let sum = AtomicF64::new(self.sum());
        let mut buckets = Vec::new();
        for b in &self.0.buckets {
            let copy = Bucket::new(b.upper_bound()).expect("Never fails");
            for _ in 0..b.count() {
                copy.increment();
            }
            buckets.push(copy);
        }
        Histogram(Arc::new(Inner {
            bucket_name: self.0.bucket_name.clone(),
            labels: Labels::new(self.0.labels.iter().cloned().collect()),
            help: self.0.help.clone(),
            timestamp: Timestamp::new(),
            buckets,
            count: AtomicU64::new(0),
            sum,
        }))
    }
}
""")], """
use prometrics::metrics::HistogramBuilder;
fn main() {
    let a = HistogramBuilder::new("a").bucket(1.0).finish().unwrap();
    let b = a.clone();
    b.observe(0.5);
    b.timestamp_mut().set(7);
    assert_eq!((a.count(), a.sum(), a.timestamp().get()), (1, 0.5, Some(7)));
}
""")

seed("c04-families-not-send", "C04", "gathered families handed to another thread",
     "gathered families can no longer be sent to another thread",
     [(MT, "pub struct MetricFamilies(pub(crate) Vec<MetricFamily>);", "pub struct MetricFamilies(\n    pub(crate) Vec<MetricFamily>,\n    pub(crate) ::std::marker::PhantomData<::std::rc::Rc<()>>,\n);"), (RG, "        MetricFamilies(families)\n", "        MetricFamilies(families, ::std::marker::PhantomData)\n")], """
use std::marker::PhantomData;
// The inherent function is chosen for types that can be sent, the trait's for all others.
struct Can<T>(PhantomData<T>);
trait Not { fn send(&self) -> bool { false } }
impl<T> Not for Can<T> {}
impl<T: Send> Can<T> { fn send(&self) -> bool { true } }
fn main() {
    let mut g = prometrics::Gatherer::new();
    assert_eq!(g.gather().to_text(), "");
    assert!(Can::<prometrics::metric::MetricFamilies>(PhantomData).send());
    assert!(!Can::<std::rc::Rc<()>>(PhantomData).send());
}
""")

seed("c28-nan-sort", "C28", "a summary in a gather has two or more samples, one of them NaN",
     "the NaN samples of an aggregated summary are left out after sorting instead of before: sorting compares NaN and panics",
     [(AG, """                aggregated_samples.extend(samples.iter().map(|&(_, v)| v).filter(|v| !v.is_nan()));
""", """                aggregated_samples.extend(samples.iter().map(|&(_, v)| v));
"""), (AG, """        aggregated_samples.sort_by(|a, b| a.partial_cmp(b).expect("Never fails"));

        if aggregated_samples.is_empty() {
""", """        aggregated_samples.sort_by(|a, b| a.partial_cmp(b).expect("Never fails"));
        aggregated_samples.retain(|v| !v.is_nan());

        if aggregated_samples.is_empty() {
""")], """
use prometrics::metrics::SummaryBuilder;
use prometrics::Gatherer;
use std::time::Duration;
fn main() {
    let mut g = Gatherer::new();
    let s = SummaryBuilder::new("s", Duration::from_secs(60)).quantile(0.5).registry(g.registry()).finish().unwrap();
    for v in [3.0, std::f64::NAN, 1.0, 2.0].iter() { s.observe(*v); }
    let t = g.gather().to_text();
    assert!(t.contains("s_count 4"), "{}", t);
}
""")

seed("c28-label-index", "C28", "a label is removed by one thread while another renders the labels",
     "rendering labels asks for their number first and then for each by its index: a label removed in between is unwrapped and panics",
     [(LB, """        for (i, label) in self.iter().enumerate() {
            if i != 0 {
                write!(f, ",")?;
            }
            write!(f, "{}", label)?;
        }
""", """        for i in 0..self.len() {
            if i != 0 {
                write!(f, ",")?;
            }
            let mut labels = self.iter();
            write!(f, "{}", labels.nth(i).expect("Never fails"))?;
        }
""")], """
use prometrics::metrics::Counter;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
fn main() {
    let c = Counter::new("c").unwrap();
    let stop = Arc::new(AtomicBool::new(false));
    let t = { let (mut c, stop) = (c.clone(), stop.clone()); std::thread::spawn(move || {
        while !stop.load(Ordering::SeqCst) {
            for n in ["a", "b", "c", "d"].iter() { c.labels_mut().insert(n, "v").unwrap(); }
            c.labels_mut().clear();
        }
    }) };
    let r: Vec<_> = (0..3).map(|_| { let c = c.clone(); std::thread::spawn(move || for _ in 0..100000 { let s = c.to_string(); assert!(s.starts_with("c")); }) }).collect();
    let ok = r.into_iter().map(|t| t.join()).filter(|r| r.is_err()).count() == 0;
    stop.store(true, Ordering::SeqCst);
    t.join().unwrap();
    assert!(ok);
}
""")

seed("c28-help-cut", "C28", "a metric whose help is longer than 200 bytes with a multi-byte character across byte 200",
     "long help texts are rendered in two parts cut at byte 200, which panics inside a character",
     [(MT, """            for c in help.chars() {
                match c {
""", """            let (head, tail) = help.split_at(if help.len() > 200 { 200 } else { help.len() });
            for c in head.chars().chain(tail.chars()) {
                match c {
""")], """
use prometrics::metrics::CounterBuilder;
use prometrics::Gatherer;
fn main() {
    let mut g = Gatherer::new();
    for n in 195..205 {
        let help = format!("{}\\u{e9}{}", "x".repeat(n), "y".repeat(20));
        let _c = CounterBuilder::new("c").help(&help).registry(g.registry()).finish().unwrap();
        let t = g.gather().to_text();
        assert!(t.contains(&help), "{}", t);
    }
}
""")

seed("c02-signed", "C02", "the integer part of a counter reaches 2^63",
     "a counter's integer part is read as a signed number, so the value turns negative",
     [(C, "        self.f64.get() + self.u64.get() as f64\n", "        self.f64.get() + self.u64.get() as i64 as f64\n")], """
use prometrics::metrics::Counter;
fn main() {
    let c = Counter::new("c").unwrap();
    let mut last = c.value();
    for _ in 0..3 {
        c.add_u64(1 << 62);
        assert!(c.value() > last);
        last = c.value();
    }
}
""")

seed("c02-nan-accepted", "C02", "NaN is added to a counter",
     "the check of the amount accepts NaN, which makes the value NaN for ever",
     [(C, "track_assert!(count >= 0.0, ErrorKind::InvalidInput, \"count={}\", count);", "track_assert!(!(count < 0.0), ErrorKind::InvalidInput, \"count={}\", count);")], """
use prometrics::metrics::Counter;
fn main() {
    let c = Counter::new("c").unwrap();
    c.add(1.5).unwrap();
    assert!(c.add(std::f64::NAN).is_err());
    assert_eq!(c.value(), 1.5);
}
""")

seed("c07-dunder", "C07", "a label named exactly __",
     "only names longer than two characters are checked for the reserved prefix",
     [(LB, "track_assert!(!name.starts_with(\"__\"), ErrorKind::InvalidInput, \"Reserved\");", "track_assert!(name.len() < 3 || !name.starts_with(\"__\"), ErrorKind::InvalidInput, \"Reserved\");")], """
use prometrics::metrics::{Counter, CounterBuilder};
fn main() {
    assert!(CounterBuilder::new("c").label("__", "x").finish().is_err());
    let mut c = Counter::new("c").unwrap();
    assert!(c.labels_mut().insert("__", "x").is_err());
    assert!(c.labels_mut().insert("__a", "x").is_err());
    assert!(c.labels_mut().insert("_", "x").is_ok());
}
""")

seed("c07-empty-part", "C07", "a builder is given an empty namespace",
     "empty namespaces and subsystems are not validated, so the name begins with a part of no characters",
     [(MT, """        if let Some(s) = namespace {
            track!(Self::validate_name(s), "{:?}", s)?;
        }
""", """        if let Some(s) = namespace.filter(|s| !s.is_empty()) {
            track!(Self::validate_name(s), "{:?}", s)?;
        }
""")], """
use prometrics::metrics::{CounterBuilder, GaugeBuilder};
fn main() {
    assert!(CounterBuilder::new("c").namespace("").finish().is_err());
    assert!(GaugeBuilder::new("c").namespace("").subsystem("s").finish().is_err());
    assert!(GaugeBuilder::new("c").namespace("n").subsystem("s").finish().is_ok());
}
""")

seed("c09-no-buckets", "C09", "a label named le is inserted into a histogram that has only the +Inf bucket",
     "le is reserved only in histograms with more than one bucket",
     [(H, "        LabelsMut::new(&self.0.labels, Some(\"le\"))\n", "        let reserved = if self.0.buckets.len() > 1 { Some(\"le\") } else { None };\n        LabelsMut::new(&self.0.labels, reserved)\n")], """
use prometrics::metrics::HistogramBuilder;
fn main() {
    let mut h = HistogramBuilder::new("h").bucket(1.0).finish().unwrap();
    assert!(h.labels_mut().insert("le", "1").is_err());
    let mut h = HistogramBuilder::new("h").finish().unwrap();
    assert!(h.labels_mut().insert("le", "1").is_err());
    assert!(h.labels().is_empty());
}
""")

seed("c09-builder-quantile", "C09", "a summary without quantiles is built with a label named quantile",
     "the builder refuses the label quantile only if quantiles are configured",
     [(S, "                track_assert_ne!(name, \"quantile\", ErrorKind::InvalidInput);\n", "                if !self.quantiles.is_empty() {\n                    track_assert_ne!(name, \"quantile\", ErrorKind::InvalidInput);\n                }\n")], """
use prometrics::metrics::SummaryBuilder;
use std::time::Duration;
fn main() {
    let b = || SummaryBuilder::new("s", Duration::from_secs(1));
    assert!(b().quantile(0.5).label("quantile", "x").finish().is_err());
    assert!(b().label("quantile", "x").finish().is_err());
    assert!(b().label("quantiles", "x").finish().is_ok());
}
""")

seed("c24-read-twice", "C24", "one thread clears a timestamp between two loads of a reader",
     "Timestamp::get loads the cell twice, once to see whether there is a value and once for it: the internal mark for none is handed out as a value",
     [(TS, "        let v = self.0.get();\n        if v == NO_VALUE {\n            None\n        } else {\n            Some(v)\n        }\n",
       "        if self.0.get() == NO_VALUE {\n            None\n        } else {\n            Some(self.0.get())\n        }\n")], """
use prometrics::metrics::Gauge;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::time::{Duration, Instant};
fn main() {
    let g = Gauge::new("g").unwrap();
    let stop = Arc::new(AtomicBool::new(false));
    let ts: Vec<_> = (0..3).map(|i| {
        let (mut g, stop) = (g.clone(), stop.clone());
        std::thread::spawn(move || while !stop.load(Ordering::SeqCst) {
            g.timestamp_mut().set(i + 1);
            g.timestamp_mut().clear();
        })
    }).collect();
    let start = Instant::now();
    let mut bad = None;
    while start.elapsed() < Duration::from_secs(5) && bad.is_none() {
        match g.timestamp().get() {
            None | Some(1) | Some(2) | Some(3) => {}
            Some(x) => bad = Some(x),
        }
    }
    stop.store(true, Ordering::SeqCst);
    for t in ts { t.join().unwrap(); }
    assert_eq!(bad, None);
}
""")

seed("c24-set-clears", "C24", "a timestamp is read while another thread moves it from one time to the next",
     "setting a timestamp clears it first, so that readers see none for a moment though it had a value all the time",
     [(TS, "        assert_ne!(timestamp, NO_VALUE);\n        self.0.set(timestamp);\n",
       "        assert_ne!(timestamp, NO_VALUE);\n        if self.0.get() != timestamp {\n            self.clear();\n        }\n        self.0.set(timestamp);\n")], """
use prometrics::metrics::Gauge;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::time::{Duration, Instant};
fn main() {
    let mut g = Gauge::new("g").unwrap();
    g.timestamp_mut().set(1);
    let stop = Arc::new(AtomicBool::new(false));
    let ts: Vec<_> = (0..3).map(|i| {
        let (mut g, stop) = (g.clone(), stop.clone());
        std::thread::spawn(move || while !stop.load(Ordering::SeqCst) {
            g.timestamp_mut().set(i + 1);
            g.timestamp_mut().set(i + 10);
        })
    }).collect();
    let start = Instant::now();
    let mut none = 0;
    while start.elapsed() < Duration::from_secs(5) && none == 0 {
        if g.timestamp().get().is_none() { none += 1; }
    }
    stop.store(true, Ordering::SeqCst);
    for t in ts { t.join().unwrap(); }
    assert_eq!(none, 0);
}
""")

BOUND = [(RG, "    tx: mpsc::Sender<Collector>,\n}\nimpl Registry", "    tx: mpsc::SyncSender<Collector>,\n}\nimpl Registry"),
         (RG, "    tx: mpsc::Sender<Collector>,\n    rx", "    tx: mpsc::SyncSender<Collector>,\n    rx"),
         (RG, "mpsc::channel()", "mpsc::sync_channel(1024)")]

seed("c05-bounded-drop", "C05", "more than 1024 metrics are registered between two gathers",
     "registrations go through a bounded channel; those it has no room for are dropped silently",
     BOUND + [(RG, "self.tx.send(", "self.tx.try_send(")], """
use prometrics::metrics::CounterBuilder;
use prometrics::Gatherer;
fn main() {
    let mut g = Gatherer::new();
    let cs: Vec<_> = (0..2000).map(|i| CounterBuilder::new(&format!("c{}", i)).registry(g.registry()).finish().unwrap()).collect();
    assert_eq!(g.gather().into_vec().len(), cs.len());
}
""")

seed("c23-bounded-wait", "C23", "more than 1024 metrics are registered before the first gather",
     "registrations go through a bounded channel: building a metric waits until somebody gathers",
     BOUND, """
use prometrics::metrics::CounterBuilder;
use prometrics::Gatherer;
use std::sync::mpsc;
use std::time::Duration;
fn main() {
    let (tx, rx) = mpsc::channel();
    std::thread::spawn(move || {
        let mut g = Gatherer::new();
        let cs: Vec<_> = (0..2000).map(|i| CounterBuilder::new(&format!("c{}", i)).registry(g.registry()).finish().unwrap()).collect();
        tx.send((cs.len(), g.gather().into_vec().len())).unwrap();
    });
    assert_eq!(rx.recv_timeout(Duration::from_secs(20)).expect("blocked"), (2000, 2000));
}
""")

seed("c13-whole-saturates", "C13", "a whole value of 2^63 or more is rendered",
     "whole values are written by way of an integer type: large ones, and negative zero, come out as other numbers",
     [(MT, "        if self.0.is_finite() {\n            write!(f, \"{}\", self.0)\n", "        if self.0.is_finite() && self.0.fract() == 0.0 {\n            write!(f, \"{}\", self.0 as i64)\n        } else if self.0.is_finite() {\n            write!(f, \"{}\", self.0)\n")], """
use prometrics::metrics::Gauge;
fn main() {
    let g = Gauge::new("g").unwrap();
    for &v in &[0.0, 1.0, -3.0, 2.5, 1e15, 1e19, -1e300] {
        g.set(v);
        let text = g.to_string();
        assert_eq!(text.rsplit(' ').next().unwrap().parse::<f64>().unwrap(), v);
    }
}
""")
