"""Further edits: structural refactorings (helpers, traits, macros, other collections, other iterator adaptors) and slips in them."""
from mutants import C, G, H, S, A, RG, LB, MT, AG, BK, TS, QN, PR, MB
from mutants_wild import CADD, FUP, SOBS, HOBS, REG, GA, COL, FAM
from mutants_wild2 import INS, REM, LV, MV, LD, GRP, CN, AMIN, ASUM, EXP, QS, HSORT, TXT, SAME, MILLI, SETT, CLAB, CT

GATHER = """        // The labels may be modified concurrently, so each sort key is taken only once.
        metrics.sort_by_cached_key(|m| {
            let labels = m.labels().iter().cloned().collect::<Vec<_>>();
            (m.name().clone(), m.kind(), labels)
        });

        let mut families: Vec<MetricFamily> = Vec::new();
        for metric in metrics {
            if !families.last().map_or(false, |f| f.same_family(&metric)) {
                families.push(MetricFamily::new(metric));
            } else {
                families.last_mut().unwrap().push(metric);
            }
        }
        MetricFamilies(families)
"""
SORTK = GATHER[:GATHER.index("        let mut families")]
GROUP = GATHER[GATHER.index("        let mut families"):]
DISP_C = """        write!(f, "{}", self.metric_name())?;
        if !self.labels().is_empty() {
            write!(f, "{}", self.labels())?;
        }
        write!(f, " {}", MetricValue(self.value()))?;
        if let Some(timestamp) = self.timestamp().get() {
            write!(f, " {}", timestamp)?;
        }
        Ok(())
"""
DISP_AC = DISP_C.replace("self.timestamp().get()", "self.timestamp")
TSV = """        let timestamp = if let Some(t) = self.timestamp().get() {
            format!(" {}", t)
        } else {
            "".to_string()
        };
"""
LBL = """        let labels = if !self.labels().is_empty() {
            self.labels().to_string()
        } else {
            "".to_string()
        };
"""
HB = """        let mut count = 0;
        for bucket in self.cumulative_buckets() {
            count = bucket.cumulative_count();
            write!(
                f,
                "{}_bucket{{le=\\"{}\\"",
                self.metric_name(),
                MetricValue(bucket.upper_bound())
            )?;
            for label in self.labels().iter() {
                write!(f, ",{}", label)?;
            }
            writeln!(f, "}} {}{}", count, timestamp)?;
        }
"""
SQ = """        for (quantile, value) in self.quantiles() {
            write!(
                f,
                "{}{{quantile=\\"{}\\"",
                self.metric_name(),
                quantile.as_f64()
            )?;
            for label in self.labels().iter() {
                write!(f, ",{}", label)?;
            }
            writeln!(f, "}} {}{}", MetricValue(value), timestamp)?;
        }
"""
MVAL = """        if self.0.is_finite() {
            write!(f, "{}", self.0)
        } else if self.0.is_nan() {
            write!(f, "NaN")
        } else if self.0.is_sign_positive() {
            write!(f, "+Inf")
        } else {
            write!(f, "-Inf")
        }
"""
HELP = """            for c in help.chars() {
                match c {
                    '\\\\' => write!(f, "\\\\\\\\")?,
                    '\\n' => write!(f, "\\\\n")?,
                    _ => write!(f, "{}", c)?,
                }
            }
"""
MND = """        if let Some(ref s) = self.namespace {
            write!(f, "{}_", s)?;
        }
        if let Some(ref s) = self.subsystem {
            write!(f, "{}_", s)?;
        }
        write!(f, "{}", self.name)?;
        Ok(())
"""
WCS = """        let now = SystemTime::now();
        if let Ok(mut samples) = self.0.samples.lock() {
            while samples
                .front()
                .and_then(|s| now.duration_since(s.0).ok())
                .and_then(|d| if d > self.0.window { Some(()) } else { None })
                .is_some()
            {
                samples.pop_front();
            }
            f(now, &mut samples)
        } else {
            f(now, &mut VecDeque::new())
        }
"""
SQUANT = """        let mut samples = self.with_current_samples(|_, samples| {
            samples
                .iter()
                .map(|&(_, v)| v)
                .filter(|v| !v.is_nan())
                .collect::<Vec<_>>()
        });
        samples.sort_by(|a, b| a.partial_cmp(b).expect("Never fails"));
"""
GTRK = """        struct Guard<'a>(&'a Gauge);
        impl<'a> Drop for Guard<'a> {
            fn drop(&mut self) {
                self.0.decrement();
            }
        }

        self.increment();
        let _guard = Guard(self);
        f()
"""
PROC = """        if let Ok(limits) = procinfo::pid::limits_self() {
            if let Some(fds) = limits.max_open_files.soft {
                metrics.push(gauge("max_fds", fds as f64));
            }
        }
"""
PCNT = """    let _ = counter.add(value);
    counter.into()
"""
PUSHC = """                    let m = AggregatedCounter::new(m);
                    if v.last_mut().map_or(true, |x| !x.try_merge(&m)) {
                        v.push(m);
                    }
"""
PUSHH = PUSHC.replace("Counter", "Histogram")
CUPG = """        self.0
            .upgrade()
            .map(|inner| iter::once(Metric::Counter(Counter(inner))))
"""
HUPG = CUPG.replace("Counter", "Histogram")
SUPG = CUPG.replace("Counter", "Summary")
AQ = """        for summary in &self.inners {
            summary.with_current_samples(|_, samples| {
                aggregated_samples.extend(samples.iter().map(|&(_, v)| v).filter(|v| !v.is_nan()));
            });
        }
"""
AQQ = """        let mut quantiles = self
            .inners
            .iter()
            .flat_map(|s| s.quantiles_without_values().iter())
            .cloned()
            .collect::<Vec<_>>();
        quantiles.sort();
        quantiles.dedup();
"""
MAXTS = """            self.inners
                .iter()
                .map(|h| h.timestamp().get())
                .max()
                .and_then(|t| t),
"""
DEFR = """    match default_gatherer().lock() {
        Ok(gatherer) => gatherer.registry(),
        Err(poisoned) => poisoned.into_inner().registry(),
    }
"""
SUMCNT = """        self.inners.iter().map(|h| h.count()).sum()
"""
LUP = """    fn update"""
ALL = [
    # ---- gather: grouping through other collections
    ("x-group-helper", "", [(RG, GROUP, """        MetricFamilies(group(metrics))
"""), (RG, "/// Metrics gatherer.\n", """fn group(metrics: Vec<Metric>) -> Vec<MetricFamily> {
    let mut families: Vec<MetricFamily> = Vec::new();
    for metric in metrics {
        let same = match families.last() {
            Some(f) => f.same_family(&metric),
            None => false,
        };
        if same {
            let n = families.len() - 1;
            families[n].push(metric);
        } else {
            families.push(MetricFamily::new(metric));
        }
    }
    families
}

/// Metrics gatherer.
""")]),
    ("x-group-peek", "", [(RG, GROUP, """        let mut families = Vec::new();
        let mut rest = metrics.into_iter().peekable();
        while let Some(metric) = rest.next() {
            let mut family = MetricFamily::new(metric);
            while rest.peek().map_or(false, |m| family.same_family(m)) {
                if let Some(m) = rest.next() {
                    family.push(m);
                }
            }
            families.push(family);
        }
        MetricFamilies(families)
""")]),
    ("x-group-peek-if", "C15 C05", [(RG, GROUP, """        let mut families = Vec::new();
        let mut rest = metrics.into_iter().peekable();
        while let Some(metric) = rest.next() {
            let mut family = MetricFamily::new(metric);
            if rest.peek().map_or(false, |m| family.same_family(m)) {
                if let Some(m) = rest.next() {
                    family.push(m);
                }
            }
            families.push(family);
        }
        MetricFamilies(families)
""")]),
    ("x-group-current", "", [(RG, GROUP, """        let mut families: Vec<MetricFamily> = Vec::new();
        let mut current: Option<MetricFamily> = None;
        for metric in metrics {
            current = match current.take() {
                Some(mut f) => {
                    if f.same_family(&metric) {
                        f.push(metric);
                        Some(f)
                    } else {
                        families.push(f);
                        Some(MetricFamily::new(metric))
                    }
                }
                None => Some(MetricFamily::new(metric)),
            };
        }
        families.extend(current);
        MetricFamilies(families)
""")]),
    ("x-group-current-lost", "C05", [(RG, GROUP, """        let mut families: Vec<MetricFamily> = Vec::new();
        let mut current: Option<MetricFamily> = None;
        for metric in metrics {
            current = match current.take() {
                Some(mut f) => {
                    if f.same_family(&metric) {
                        f.push(metric);
                        Some(f)
                    } else {
                        families.push(f);
                        Some(MetricFamily::new(metric))
                    }
                }
                None => Some(MetricFamily::new(metric)),
            };
        }
        MetricFamilies(families)
""")]),
    ("x-group-any-family", "", [(RG, GROUP, """        let mut families: Vec<MetricFamily> = Vec::new();
        for metric in metrics {
            match families.iter().position(|f| f.same_family(&metric)) {
                Some(i) => families[i].push(metric),
                None => families.push(MetricFamily::new(metric)),
            }
        }
        MetricFamilies(families)
""")]),
    ("x-group-fold", "", [(RG, GROUP, """        let families = metrics.into_iter().fold(Vec::new(), |mut acc: Vec<MetricFamily>, metric| {
            if acc.last().map_or(false, |f| f.same_family(&metric)) {
                acc.last_mut().unwrap().push(metric);
            } else {
                acc.push(MetricFamily::new(metric));
            }
            acc
        });
        MetricFamilies(families)
""")]),
    ("x-sort-decorate", "", [(RG, SORTK, """        let mut keyed = metrics
            .into_iter()
            .map(|m| {
                let labels = m.labels().iter().cloned().collect::<Vec<_>>();
                ((m.name().clone(), m.kind(), labels), m)
            })
            .collect::<Vec<_>>();
        keyed.sort_by(|a, b| a.0.cmp(&b.0));
        let metrics = keyed.into_iter().map(|(_, m)| m).collect::<Vec<_>>();

""")]),
    ("x-sort-kind-last", "C15", [(RG, "(m.name().clone(), m.kind(), labels)", "(m.name().clone(), labels, m.kind())")]),
    ("x-sort-noname", "C15", [(RG, "(m.name().clone(), m.kind(), labels)", "(m.kind(), m.name().name().to_string(), labels)")]),
    ("x-sort-string-key", "", [(RG, "(m.name().clone(), m.kind(), labels)", "(m.name().to_string(), m.kind(), labels)")]),
    ("x-sort-labels-string", "", [(RG, "(m.name().clone(), m.kind(), labels)", "(m.name().clone(), m.kind(), labels.iter().map(|l| l.to_string()).collect::<Vec<_>>())")]),
    ("x-sort-then-reverse", "", [(RG, """            (m.name().clone(), m.kind(), labels)
        });
""", """            (m.name().clone(), m.kind(), labels)
        });
        metrics.reverse();
""")]),
    ("x-gather-take-all", "", [(RG, """        let mut i = 0;
        while i < self.collectors.len() {
            if self.collectors[i].collect(&mut metrics) {
                i += 1;
            } else {
                self.collectors.swap_remove(i);
            }
        }
""", """        let mut alive = Vec::with_capacity(self.collectors.len());
        for mut c in self.collectors.drain(..) {
            if c.collect(&mut metrics) {
                alive.push(c);
            }
        }
        self.collectors = alive;
""")]),
    ("x-gather-take-panic", "", [(RG, """        let mut i = 0;
        while i < self.collectors.len() {
            if self.collectors[i].collect(&mut metrics) {
                i += 1;
            } else {
                self.collectors.swap_remove(i);
            }
        }
""", """        let collectors = ::std::mem::replace(&mut self.collectors, Vec::new());
        self.collectors = collectors
            .into_iter()
            .filter_map(|mut c| if c.collect(&mut metrics) { Some(c) } else { None })
            .collect();
""")]),
    ("x-gather-empty-drop", "C06", [(RG, """            if let Some(m) = collector.collect() {
                metrics.extend(m);
                true
""", """            if let Some(m) = collector.collect() {
                let before = metrics.len();
                metrics.extend(m);
                metrics.len() > before
""")]),
    ("x-register-take-one", "C05", [(RG, "metrics.extend(m);", "metrics.extend(m.into_iter().take(1));")]),
    ("x-register-loop", "", [(RG, "metrics.extend(m);", "for x in m {\n                    metrics.push(x);\n                }")]),
    ("x-register-match-none", "", [(RG, """            if let Some(m) = collector.collect() {
                metrics.extend(m);
                true
            } else {
                false
            }
""", """            let m = match collector.collect() {
                None => return false,
                Some(m) => m,
            };
            metrics.extend(m);
            true
""")]),
    ("x-default-registry-helper", "", [(RG, DEFR, """    with_default_gatherer(|g| g.registry())
"""), (RG, "/// Collector registry.\n", """fn with_default_gatherer<F: FnOnce(&mut Gatherer) -> T, T>(f: F) -> T {
    let mut g = default_gatherer().lock().unwrap_or_else(|e| e.into_inner());
    f(&mut g)
}

/// Collector registry.
""")]),
    # ---- families
    ("x-push-helper", "", [(MT, PUSHC, """                    push_or_merge(v, AggregatedCounter::new(m), |x, m| x.try_merge(m));
"""), (MT, "/// Sequence of the same metric.\n", """fn push_or_merge<T, F: Fn(&mut T, &T) -> bool>(v: &mut Vec<T>, m: T, merge: F) {
    if let Some(x) = v.last_mut() {
        if merge(x, &m) {
            return;
        }
    }
    v.push(m);
}

/// Sequence of the same metric.
""")]),
    ("x-push-helper-inverted", "C05 C16 C15", [(MT, PUSHC, """                    push_or_merge(v, AggregatedCounter::new(m), |x, m| x.try_merge(m));
"""), (MT, "/// Sequence of the same metric.\n", """fn push_or_merge<T, F: Fn(&mut T, &T) -> bool>(v: &mut Vec<T>, m: T, merge: F) {
    if let Some(x) = v.last_mut() {
        if !merge(x, &m) {
            return;
        }
    }
    v.push(m);
}

/// Sequence of the same metric.
""")]),
    ("x-push-macro", "", [(MT, PUSHC, """                    merge_or_push!(v, AggregatedCounter::new(m));
"""), (MT, PUSHH, """                    merge_or_push!(v, AggregatedHistogram::new(m));
"""), (MT, "use label::Labels;\n", """macro_rules! merge_or_push {
    ($v:expr, $m:expr) => {{
        let m = $m;
        let merged = match $v.last_mut() {
            Some(x) => x.try_merge(&m),
            None => false,
        };
        if !merged {
            $v.push(m);
        }
    }};
}

use label::Labels;
""")]),
    ("x-push-trait", "", [(MT, PUSHC, """                    absorb(v, AggregatedCounter::new(m));
"""), (MT, "/// Sequence of the same metric.\n", """trait Merge {
    fn merge(&mut self, other: &Self) -> bool;
}
impl Merge for AggregatedCounter {
    fn merge(&mut self, other: &Self) -> bool {
        self.try_merge(other)
    }
}
fn absorb<T: Merge>(v: &mut Vec<T>, m: T) {
    if let Some(x) = v.last_mut() {
        if x.merge(&m) {
            return;
        }
    }
    v.push(m);
}

/// Sequence of the same metric.
""")]),
    ("x-push-first", "C16 C15", [(MT, PUSHC, PUSHC.replace("last_mut", "first_mut"))]),
    ("x-same-family-kind", "C15 C05", [(MT, "(self.name(), self.kind()) == (metric.name(), metric.kind())", "self.name() == metric.name()")]),
    ("x-same-family-if", "", [(MT, "(self.name(), self.kind()) == (metric.name(), metric.kind())", "if self.kind() != metric.kind() {\n            return false;\n        }\n        self.name() == metric.name()")]),
    ("x-same-family-name-part", "C15", [(MT, "(self.name(), self.kind()) == (metric.name(), metric.kind())", "(self.name().name(), self.kind()) == (metric.name().name(), metric.kind())")]),
    ("x-family-help-first", "", [(MT, """            Metric::Counter(m) => MetricFamily {
                name: m.metric_name().clone(),
                help: m.help().map(|h| h.to_string()),
                metrics: Metrics::Counter(vec![AggregatedCounter::new(m)]),
            },
""", """            Metric::Counter(m) => {
                let name = m.metric_name().clone();
                let help = m.help().map(ToString::to_string);
                let metrics = Metrics::Counter(vec![AggregatedCounter::new(m)]);
                MetricFamily { name, help, metrics }
            }
""")]),
    ("x-eq-names-parts", "C15", [(MT, "        self.to_string() == other.to_string()\n", "        self.namespace == other.namespace && self.subsystem == other.subsystem && self.name == other.name\n")]),
    ("x-eq-cmp", "", [(MT, "        self.to_string() == other.to_string()\n", "        self.cmp(other) == cmp::Ordering::Equal\n")]),
    ("x-eq-lower", "C15", [(MT, "        self.to_string() == other.to_string()\n", "        self.to_string().to_lowercase() == other.to_string().to_lowercase()\n")]),
    ("x-name-full", "", [(MT, "        self.to_string() == other.to_string()\n", "        self.full() == other.full()\n"), (MT, "        self.to_string().cmp(&other.to_string())\n", "        self.full().cmp(&other.full())\n"),
                         (MT, "    fn validate_name(", """    fn full(&self) -> String {
        let mut s = String::new();
        if let Some(n) = self.namespace() {
            s.push_str(n);
            s.push('_');
        }
        if let Some(n) = self.subsystem() {
            s.push_str(n);
            s.push('_');
        }
        s.push_str(self.name());
        s
    }
    fn validate_name(""")]),
    ("x-name-full-nosep", "C15", [(MT, "        self.to_string() == other.to_string()\n", "        self.full() == other.full()\n"), (MT, "        self.to_string().cmp(&other.to_string())\n", "        self.full().cmp(&other.full())\n"),
                         (MT, "    fn validate_name(", """    fn full(&self) -> String {
        let mut s = String::new();
        if let Some(n) = self.namespace() {
            s.push_str(n);
        }
        if let Some(n) = self.subsystem() {
            s.push_str(n);
            s.push('_');
        }
        s.push_str(self.name());
        s
    }
    fn validate_name(""")]),
    # ---- rendering
    ("x-write-line-helper", "", [(C, DISP_C, """        ::metric::write_line(f, self.metric_name(), self.labels(), self.value(), self.timestamp().get())
"""), (G, DISP_C, """        ::metric::write_line(f, self.metric_name(), self.labels(), self.value(), self.timestamp().get())
"""), (MT, "pub(crate) struct MetricValue", """pub(crate) fn write_line(f: &mut fmt::Formatter, name: &MetricName, labels: &Labels, value: f64, timestamp: Option<i64>) -> fmt::Result {
    write!(f, "{}", name)?;
    if labels.len() > 0 {
        write!(f, "{}", labels)?;
    }
    write!(f, " {}", MetricValue(value))?;
    match timestamp {
        Some(t) => write!(f, " {}", t),
        None => Ok(()),
    }
}

pub(crate) struct MetricValue""")]),
    ("x-write-line-helper-order", "C11 C14", [(C, DISP_C, """        ::metric::write_line(f, self.metric_name(), self.labels(), self.value(), self.timestamp().get())
"""), (MT, "pub(crate) struct MetricValue", """pub(crate) fn write_line(f: &mut fmt::Formatter, name: &MetricName, labels: &Labels, value: f64, timestamp: Option<i64>) -> fmt::Result {
    write!(f, "{}", name)?;
    if labels.len() > 1 {
        write!(f, "{}", labels)?;
    }
    write!(f, " {}", MetricValue(value))?;
    match timestamp {
        Some(t) => write!(f, " {}", t),
        None => Ok(()),
    }
}

pub(crate) struct MetricValue""")]),
    ("x-line-string", "", [(C, DISP_C, """        let mut line = self.metric_name().to_string();
        if !self.labels().is_empty() {
            line += &self.labels().to_string();
        }
        line.push(' ');
        line.push_str(&MetricValue(self.value()).to_string());
        if let Some(timestamp) = self.timestamp().get() {
            line.push(' ');
            line.push_str(&timestamp.to_string());
        }
        f.write_str(&line)
""")]),
    ("x-line-one-format", "", [(C, DISP_C, """        let labels = if self.labels().is_empty() {
            String::new()
        } else {
            self.labels().to_string()
        };
        match self.timestamp().get() {
            None => write!(f, "{}{} {}", self.metric_name(), labels, MetricValue(self.value())),
            Some(t) => write!(f, "{}{} {} {}", self.metric_name(), labels, MetricValue(self.value()), t),
        }
""")]),
    ("x-line-pad", "C11 C14", [(C, "write!(f, \" {}\", MetricValue(self.value()))?;", "write!(f, \" {:>1}\", MetricValue(self.value()))?;\n        if self.value() == 0.0 {\n            write!(f, \" \")?;\n        }")]),
    ("x-ts-nonzero", "C11 C14 C24", [(C, "        if let Some(timestamp) = self.timestamp().get() {\n", "        if let Some(timestamp) = self.timestamp().get().filter(|&t| t != 0) {\n")]),
    ("x-ts-secs", "C11 C14 C24", [(C, "            write!(f, \" {}\", timestamp)?;\n        }\n        Ok(())", "            write!(f, \" {}\", timestamp / 1000)?;\n        }\n        Ok(())")]),
    ("x-tsv-map", "", [(H, TSV, """        let timestamp = self
            .timestamp()
            .get()
            .map(|t| format!(" {}", t))
            .unwrap_or_default();
""")]),
    ("x-tsv-map-or", "", [(S, TSV, """        let timestamp = self.timestamp().get().map_or_else(String::new, |t| format!(" {}", t));
""")]),
    ("x-lbl-when", "", [(AG, LBL, """        let labels = match self.labels().is_empty() {
            true => String::new(),
            false => format!("{}", self.labels()),
        };
""")]),
    ("x-hb-inf-fixed", "C13", [(H, HB, HB.replace("MetricValue(bucket.upper_bound())", "bucket.upper_bound()"))]),
    ("x-hb-labels-first", "C11", [(H, HB, HB.replace("write!(f, \",{}\", label)?;", "write!(f, \", {}\", label)?;"))]),
    ("x-hb-labels-helper", "", [(H, """            for label in self.labels().iter() {
                write!(f, ",{}", label)?;
            }
            writeln!(f, "}} {}{}", count, timestamp)?;
""", """            write_labels(f, self.labels())?;
            writeln!(f, "}} {}{}", count, timestamp)?;
"""), (H, "/// `Collect` trait implmentation for `Histogram`.\n", """fn write_labels(f: &mut fmt::Formatter, labels: &Labels) -> fmt::Result {
    for label in labels.iter() {
        write!(f, ",{}", label)?;
    }
    Ok(())
}

/// `Collect` trait implmentation for `Histogram`.
""")]),
    ("x-hb-try-for-each", "", [(H, """            for label in self.labels().iter() {
                write!(f, ",{}", label)?;
            }
            writeln!(f, "}} {}{}", count, timestamp)?;
""", """            self.labels().iter().try_for_each(|label| write!(f, ",{}", label))?;
            writeln!(f, "}} {}{}", count, timestamp)?;
""")]),
    ("x-hb-snapshot", "", [(H, HB, """        let buckets = self.cumulative_buckets().collect::<Vec<_>>();
        let count = buckets.last().map_or(0, |b| b.cumulative_count());
        for bucket in &buckets {
            write!(
                f,
                "{}_bucket{{le=\\"{}\\"",
                self.metric_name(),
                MetricValue(bucket.upper_bound())
            )?;
            for label in self.labels().iter() {
                write!(f, ",{}", label)?;
            }
            writeln!(f, "}} {}{}", bucket.cumulative_count(), timestamp)?;
        }
""")]),
    ("x-hb-count-before", "C18", [(H, HB, """        let count = self.count();
        for bucket in self.cumulative_buckets() {
            write!(
                f,
                "{}_bucket{{le=\\"{}\\"",
                self.metric_name(),
                MetricValue(bucket.upper_bound())
            )?;
            for label in self.labels().iter() {
                write!(f, ",{}", label)?;
            }
            writeln!(f, "}} {}{}", bucket.cumulative_count(), timestamp)?;
        }
""")]),
    ("x-hb-skip-zero", "C18 C14 C11", [(H, "            count = bucket.cumulative_count();\n            write!(", "            count = bucket.cumulative_count();\n            if count == 0 && bucket.upper_bound() < 0.0 {\n                continue;\n            }\n            write!(")]),
    ("x-sq-labels-twice", "C11 C14", [(S, SQ, SQ.replace("                write!(f, \",{}\", label)?;\n", "                write!(f, \",{}\", label)?;\n                if label.value().is_empty() {\n                    break;\n                }\n"))]),
    ("x-sq-quantile-mv", "", [(S, SQ, SQ.replace("                quantile.as_f64()\n", "                MetricValue(quantile.as_f64())\n"))]),
    ("x-sq-precision", "C11 C14 C21", [(S, SQ, SQ.replace("{}{{quantile=\\\"{}\\\"", "{}{{quantile=\\\"{:.2}\\\"").replace('quantile=\\"{}\\"', 'quantile=\\"{:.2}\\"'))]),
    ("x-mval-classify", "", [(MT, MVAL, """        use std::num::FpCategory;
        match self.0.classify() {
            FpCategory::Nan => write!(f, "NaN"),
            FpCategory::Infinite if self.0 > 0.0 => write!(f, "+Inf"),
            FpCategory::Infinite => write!(f, "-Inf"),
            _ => write!(f, "{}", self.0),
        }
""")]),
    ("x-mval-if-ne", "", [(MT, MVAL, """        let v = self.0;
        let text = if v != v {
            "NaN"
        } else if v == std::f64::INFINITY {
            "+Inf"
        } else if v == std::f64::NEG_INFINITY {
            "-Inf"
        } else {
            return v.fmt(f);
        };
        f.write_str(text)
""")]),
    ("x-mval-debug", "C13 C11", [(MT, "            write!(f, \"{}\", self.0)\n        } else if self.0.is_nan() {", "            write!(f, \"{:?}\", self.0)\n        } else if self.0.is_nan() {")]),
    ("x-mval-int", "C13 C11", [(MT, MVAL, "        if self.0.fract() == 0.0 && self.0.abs() < 1e15 {\n            return write!(f, \"{}\", self.0 as i32);\n        }\n" + MVAL)]),
    ("x-help-find", "", [(MT, HELP, """            if help.contains('\\\\') || help.contains('\\n') {
                write!(f, "{}", help.replace('\\\\', "\\\\\\\\").replace('\\n', "\\\\n"))?;
            } else {
                write!(f, "{}", help)?;
            }
""")]),
    ("x-help-find-or", "C12 C11", [(MT, HELP, """            if help.contains('\\n') {
                write!(f, "{}", help.replace('\\\\', "\\\\\\\\").replace('\\n', "\\\\n"))?;
            } else {
                write!(f, "{}", help)?;
            }
""")]),
    ("x-help-lines", "C12 C11", [(MT, HELP, """            for line in help.lines() {
                write!(f, "{}", line.replace('\\\\', "\\\\\\\\"))?;
            }
""")]),
    ("x-help-flat-map", "", [(MT, HELP, """            let escaped = help
                .chars()
                .flat_map(|c| match c {
                    '\\\\' => vec!['\\\\', '\\\\'],
                    '\\n' => vec!['\\\\', 'n'],
                    c => vec![c],
                })
                .collect::<String>();
            f.write_str(&escaped)?;
""")]),
    ("x-help-cr", "C12", [(MT, HELP, HELP.replace("                    _ =>", "                    '\\r' => {}\n                    _ =>"))]),
    ("x-mnd-helper", "", [(MT, MND, """        for part in [&self.namespace, &self.subsystem].iter() {
            if let Some(ref s) = **part {
                write!(f, "{}_", s)?;
            }
        }
        f.write_str(&self.name)
""")]),
    ("x-mnd-or", "C11 C14 C26", [(MT, MND, """        if let Some(ref s) = self.namespace {
            write!(f, "{}_", s)?;
        } else if let Some(ref s) = self.subsystem {
            write!(f, "{}_", s)?;
        }
        write!(f, "{}", self.name)?;
        Ok(())
""")]),
    ("x-to-text-map", "", [(MT, TXT, """        self.0.iter().map(|m| m.to_string()).collect::<Vec<_>>().concat()
""")]),
    ("x-to-text-sep", "C11", [(MT, TXT, """        self.0.iter().map(|m| m.to_string()).collect::<Vec<_>>().join("\\n")
""")]),
    # ---- summaries
    ("x-wcs-match", "", [(S, WCS, """        let now = SystemTime::now();
        match self.0.samples.lock() {
            Err(_) => f(now, &mut VecDeque::new()),
            Ok(mut samples) => {
                loop {
                    let expired = match samples.front() {
                        Some(&(t, _)) => match now.duration_since(t) {
                            Ok(age) => age > self.0.window,
                            Err(_) => false,
                        },
                        None => false,
                    };
                    if !expired {
                        break;
                    }
                    let _ = samples.pop_front();
                }
                f(now, &mut samples)
            }
        }
""")]),
    ("x-wcs-into-inner", "", [(S, WCS, """        let now = SystemTime::now();
        let mut samples = self.0.samples.lock().unwrap_or_else(|e| e.into_inner());
        while samples
            .front()
            .and_then(|s| now.duration_since(s.0).ok())
            .map_or(false, |d| d > self.0.window)
        {
            samples.pop_front();
        }
        f(now, &mut samples)
""")]),
    ("x-wcs-now-late", "", [(S, WCS, WCS.replace("        let now = SystemTime::now();\n        if let Ok(mut samples) = self.0.samples.lock() {\n", "        if let Ok(mut samples) = self.0.samples.lock() {\n            let now = SystemTime::now();\n").replace("            f(now, &mut VecDeque::new())", "            f(SystemTime::now(), &mut VecDeque::new())"))]),
    ("x-wcs-partition", "", [(S, EXP, """            let expired = samples
                .iter()
                .take_while(|s| now.duration_since(s.0).map(|d| d > self.0.window).unwrap_or(false))
                .count();
            samples.drain(..expired);
""")]),
    ("x-wcs-partition-inv", "C20", [(S, EXP, """            let expired = samples
                .iter()
                .filter(|s| now.duration_since(s.0).map(|d| d > self.0.window).unwrap_or(true))
                .count();
            samples.drain(..expired);
""")]),
    ("x-drain-take-while", "", [(S, EXP, """            let n = samples
                .iter()
                .take_while(|s| now.duration_since(s.0).map(|d| d > self.0.window).unwrap_or(false))
                .count();
            samples.drain(..n);
""")]),
    ("x-drain-take-while-ge", "C20", [(S, EXP, """            let n = samples
                .iter()
                .take_while(|s| now.duration_since(s.0).map(|d| d >= self.0.window).unwrap_or(false))
                .count();
            samples.drain(..n);
""")]),
    ("x-drain-loop", "", [(S, EXP, """            let mut n = 0;
            for s in samples.iter() {
                match now.duration_since(s.0) {
                    Ok(ref d) if *d > self.0.window => n += 1,
                    _ => break,
                }
            }
            samples.drain(0..n);
""")]),
    ("x-expire-put-back", "", [(S, EXP, """            while let Some(s) = samples.pop_front() {
                if now.duration_since(s.0).map(|d| d <= self.0.window).unwrap_or(true) {
                    samples.push_front(s);
                    break;
                }
            }
""")]),
    ("x-wcs-half", "C20", [(S, "if d > self.0.window {", "if d > self.0.window * 2 {")]),
    ("x-wcs-back", "C20", [(S, ".front()\n                .and_then(|s| now", ".back()\n                .and_then(|s| now")]),
    ("x-wcs-pop-two", "C20", [(S, "                samples.pop_front();\n            }\n            f(now", "                samples.pop_front();\n                samples.pop_front();\n            }\n            f(now")]),
    ("x-wcs-truncate", "C20", [(S, "            f(now, &mut samples)\n", "            samples.truncate(1 << 20);\n            f(now, &mut samples)\n")]),
    ("x-squant-loop", "", [(S, SQUANT, """        let mut samples = Vec::new();
        self.with_current_samples(|_, current| {
            for &(_, v) in current.iter() {
                if !v.is_nan() {
                    samples.push(v);
                }
            }
        });
        samples.sort_by(|a, b| a.partial_cmp(b).expect("Never fails"));
""")]),
    ("x-squant-filter-map", "", [(S, SQUANT, """        let mut samples: Vec<f64> = self.with_current_samples(|_, samples| {
            samples.iter().filter_map(|s| if s.1.is_nan() { None } else { Some(s.1) }).collect()
        });
        samples.sort_by(|x, y| x.partial_cmp(y).unwrap());
""")]),
    ("x-squant-positive", "C21 C20", [(S, SQUANT, SQUANT.replace("!v.is_nan()", "*v >= 0.0"))]),
    ("x-squant-dedup", "C21", [(S, "        samples.sort_by(|a, b| a.partial_cmp(b).expect(\"Never fails\"));\n", "        samples.sort_by(|a, b| a.partial_cmp(b).expect(\"Never fails\"));\n        samples.dedup();\n")]),
    ("x-squant-ceil", "C21", [(S, "(quantile.as_f64() * count as f64).floor() as usize", "(quantile.as_f64() * count as f64).ceil() as usize")]),
    ("x-squant-nofloor", "", [(S, "(quantile.as_f64() * count as f64).floor() as usize", "(quantile.as_f64() * count as f64) as usize")]),
    ("x-squant-count-minus", "C21", [(S, "(quantile.as_f64() * count as f64).floor() as usize", "(quantile.as_f64() * (count - 1) as f64).floor() as usize")]),
    ("x-sobs-lock-long", "C23 C22", [(S, "        let start = Instant::now();\n        let result = f();\n        let elapsed = timestamp::duration_to_seconds(start.elapsed());\n        self.observe(elapsed);\n        result\n", "        self.with_current_samples(|now, samples| {\n            let start = Instant::now();\n            let result = f();\n            let elapsed = timestamp::duration_to_seconds(start.elapsed());\n            samples.push_back((now, elapsed));\n            self.0.count.inc();\n            self.0.sum.add(elapsed);\n            result\n        })\n")]),
    ("x-aq-for", "", [(AG, AQ, """        for summary in self.inners.iter() {
            let values = summary.with_current_samples(|_, samples| {
                samples.iter().map(|s| s.1).collect::<Vec<f64>>()
            });
            aggregated_samples.extend(values.into_iter().filter(|v| !v.is_nan()));
        }
""")]),
    ("x-aq-first", "C16 C14 C21 C20", [(AG, AQ, AQ.replace("for summary in &self.inners {", "for summary in self.inners.iter().skip_while(|s| s.count() == 0) {"))]),
    ("x-aq-skip-first", "C16 C14 C21", [(AG, AQ, AQ.replace("for summary in &self.inners {", "for summary in &self.inners[1..] {"))]),
    ("x-aqq-loop", "", [(AG, AQQ, """        let mut quantiles = Vec::new();
        for s in &self.inners {
            for &q in s.quantiles_without_values() {
                quantiles.push(q);
            }
        }
        quantiles.sort();
        quantiles.dedup();
""")]),
    ("x-aqq-contains", "", [(AG, AQQ, """        let mut quantiles = Vec::new();
        for s in &self.inners {
            for &q in s.quantiles_without_values() {
                if !quantiles.contains(&q) {
                    quantiles.push(q);
                }
            }
        }
        quantiles.sort();
""")]),
    ("x-aqq-nodedup", "C16 C21 C14", [(AG, AQQ, AQQ.replace("        quantiles.dedup();\n", ""))]),
    ("x-maxts-flat", "", [(AG, MAXTS, "            self.inners.iter().filter_map(|h| h.timestamp().get()).max(),\n")]),
    ("x-maxts-min", "C16 C14", [(AG, MAXTS, "            self.inners.iter().filter_map(|h| h.timestamp().get()).min(),\n")]),
    ("x-maxts-last", "C16 C14", [(AG, MAXTS, "            self.inners.last().and_then(|h| h.timestamp().get()),\n")]),
    ("x-maxts-fold", "", [(AG, MAXTS, "            self.inners.iter().fold(None, |t, h| cmp::max(t, h.timestamp().get())),\n")]),
    ("x-count-fold", "", [(AG, SUMCNT, "        self.inners.iter().fold(0, |n, h| n + h.count())\n")]),
    ("x-count-loop", "", [(AG, SUMCNT, "        let mut n = 0;\n        for h in &self.inners {\n            n += h.count();\n        }\n        n\n")]),
    ("x-count-max", "C16", [(AG, SUMCNT, "        self.inners.iter().map(|h| h.count()).max().unwrap_or(0)\n")]),
    # ---- timers, gauges, counters
    ("x-trk-guard-new", "", [(G, GTRK, """        struct Guard<'a>(&'a Gauge);
        impl<'a> Guard<'a> {
            fn new(gauge: &'a Gauge) -> Self {
                gauge.increment();
                Guard(gauge)
            }
        }
        impl<'a> Drop for Guard<'a> {
            fn drop(&mut self) {
                self.0.decrement();
            }
        }

        let _guard = Guard::new(self);
        f()
""")]),
    ("x-trk-guard-dropped", "C22", [(G, "        let _guard = Guard(self);\n", "        let _ = Guard(self);\n")]),
    ("x-trk-result", "", [(G, "        let _guard = Guard(self);\n        f()\n", "        let guard = Guard(self);\n        let result = f();\n        drop(guard);\n        result\n")]),
    ("x-trk-panicking", "C22", [(G, "                self.0.decrement();\n            }\n        }\n", "                if !::std::thread::panicking() {\n                    self.0.decrement();\n                }\n            }\n        }\n")]),
    ("x-trk-sub", "", [(G, "                self.0.decrement();\n            }\n        }\n", "                self.0.subtract(1.0);\n            }\n        }\n")]),
    ("x-gauge-sub-update", "", [(G, "        self.add(-count);\n", "        self.0.value.update(|v| v - count);\n")]),
    ("x-gauge-set-same", "", [(G, "        self.0.value.set(value);\n", "        self.0.value.update(|_| value);\n")]),
    ("x-gauge-set-nan", "C03", [(G, "        self.0.value.set(value);\n", "        if !value.is_nan() {\n            self.0.value.set(value);\n        }\n")]),
    ("x-gauge-set-add", "C03 C01", [(G, "        self.0.value.set(value);\n", "        let now = self.0.value.get();\n        self.0.value.add(value - now);\n")]),
    ("x-f64-eq-skip", "", [(A, "        self.update(|old| old + v);\n", "        if v == 0.0 {\n            return;\n        }\n        self.update(|old| old + v);\n")]),
    ("x-f64-fetch-update", "", [(A, "        self.update(|old| old + v);\n", "        let _ = self.0.fetch_update(Relaxed, Relaxed, |old| Some((f64::from_bits(old) + v).to_bits()));\n")]),
    ("x-f64-fetch-update-guard", "C01 C03", [(A, "        self.update(|old| old + v);\n", "        let _ = self.0.fetch_update(Relaxed, Relaxed, |old| {\n            let new = f64::from_bits(old) + v;\n            if new.is_finite() {\n                Some(new.to_bits())\n            } else {\n                None\n            }\n        });\n")]),
    ("x-f64-swap", "C01", [(A, "        self.update(|old| old + v);\n", "        let old = f64::from_bits(self.0.swap(0, Relaxed));\n        self.0.store((old + v).to_bits(), Relaxed);\n")]),
    ("x-cas-strong", "", [(A, "compare_exchange_weak(old, new, Relaxed, Relaxed) {\n                Ok(_) => break,\n                Err(v) => old = v, // try again\n            }\n        }\n    }\n\n    pub fn set(&self, v: f64)", "compare_exchange(old, new, Relaxed, Relaxed) {\n                Ok(_) => return,\n                Err(current) => old = current,\n            }\n        }\n    }\n\n    pub fn set(&self, v: f64)")]),
    ("x-cas-if", "C01 C03", [(A, "            match self.0.compare_exchange_weak(old, new, Relaxed, Relaxed) {\n                Ok(_) => break,\n                Err(v) => old = v, // try again\n            }\n        }\n    }\n\n    pub fn set(&self, v: f64)", "            if self.0.compare_exchange_weak(old, new, Relaxed, Relaxed).is_err() {\n                old = self.0.load(Relaxed);\n            }\n            break;\n        }\n    }\n\n    pub fn set(&self, v: f64)")]),
    ("x-cas-reload", "", [(A, "            match self.0.compare_exchange_weak(old, new, Relaxed, Relaxed) {\n                Ok(_) => break,\n                Err(v) => old = v, // try again\n            }\n        }\n    }\n\n    pub fn set(&self, v: f64)", "            if self.0.compare_exchange_weak(old, new, Relaxed, Relaxed).is_ok() {\n                break;\n            }\n            old = self.0.load(Relaxed);\n        }\n    }\n\n    pub fn set(&self, v: f64)")]),
    ("x-cas-stale", "C01", [(A, "            match self.0.compare_exchange_weak(old, new, Relaxed, Relaxed) {\n                Ok(_) => break,\n                Err(v) => old = v, // try again\n            }\n        }\n    }\n\n    pub fn set(&self, v: f64)", "            if self.0.compare_exchange_weak(self.0.load(Relaxed), new, Relaxed, Relaxed).is_ok() {\n                break;\n            }\n            old = self.0.load(Relaxed);\n        }\n    }\n\n    pub fn set(&self, v: f64)")]),
    ("x-hobs-sum-first", "", [(H, HOBS, HOBS.replace("        self.0.sum.add(value);\n", "").replace("        assert!(!value.is_nan());\n", "        assert!(!value.is_nan());\n        self.0.sum.add(value);\n"))]),
    ("x-hobs-sum-finite", "C03 C01", [(H, HOBS, HOBS.replace("        self.0.sum.add(value);\n", "        if value.is_finite() {\n            self.0.sum.add(value);\n        }\n"))]),
    ("x-sobs-count-first", "", [(S, SOBS, """        self.0.count.inc();
        self.0.sum.add(value);
        self.with_current_samples(|now, samples| samples.push_back((now, value)));
""")]),
    # ---- process
    ("x-proc-and-then", "", [(PR, PROC, """        let soft = procinfo::pid::limits_self().ok().and_then(|l| l.max_open_files.soft);
        if let Some(fds) = soft {
            metrics.push(gauge("max_fds", fds as f64));
        }
""")]),
    ("x-proc-hard", "C25", [(PR, "limits.max_open_files.soft", "limits.max_open_files.soft.or(limits.max_open_files.hard)")]),
    ("x-proc-question", "C25", [(PR, PROC, """        let limits = procinfo::pid::limits_self().ok()?;
        if let Some(fds) = limits.max_open_files.soft {
            metrics.push(gauge("max_fds", fds as f64));
        }
""")]),
    ("x-proc-extend", "", [(PR, PROC, """        if let Ok(limits) = procinfo::pid::limits_self() {
            metrics.extend(limits.max_open_files.soft.map(|fds| gauge("max_fds", fds as f64)));
        }
""")]),
    ("x-proc-add-int", "C25", [(PR, "(stat.utime + stat.stime) as f64 / *CLK_TCK", "((stat.utime + stat.stime) as u64 / *CLK_TCK as u64) as f64")]),
    ("x-proc-sum-float", "", [(PR, "(stat.utime + stat.stime) as f64 / *CLK_TCK", "(stat.utime as f64 + stat.stime as f64) / *CLK_TCK")]),
    ("x-proc-children", "C25", [(PR, "(stat.utime + stat.stime) as f64 / *CLK_TCK", "(stat.utime + stat.stime + stat.cutime) as f64 / *CLK_TCK")]),
    ("x-proc-rss-kb", "", [(PR, "(stat.rss * *PAGESIZE) as f64", "(stat.rss * *PAGESIZE / 1024 * 1024) as f64")]),
    ("x-proc-initial", "", [(PR, """        .namespace("process")
        .finish()
        .expect("Never fails");
    gauge.set(value);
    gauge.into()
""", """        .namespace("process")
        .initial_value(value)
        .finish()
        .expect("Never fails");
    Metric::Gauge(gauge)
""")]),
    ("x-proc-counter-u64", "C25", [(PR, "    let _ = counter.add(value);\n", "    counter.add_u64(value as u64);\n")]),
    # ---- bounds helpers
    ("x-exp-zero", "C26", [(H, "start + factor.powi(i as i32)", "start + factor.powi(i as i32 + 1)")]),
    ("x-exp-count", "C26", [(H, "for x in (0..count).map(|i| start + factor.powi(i as i32)) {", "for x in (1..count).map(|i| start + factor.powi(i as i32)) {")]),
    ("x-exp-powf", "", [(H, "start + factor.powi(i as i32)", "start + factor.powf(i as f64)")]),
    ("x-exp-loop", "", [(H, "        for x in (0..count).map(|i| start + factor.powi(i as i32)) {\n            this.bucket(x);\n        }\n", "        for i in 0..count {\n            let bound = start + factor.powi(i as i32);\n            this.bucket(bound);\n        }\n")]),
    ("x-exp-buckets", "", [(H, "        for x in (0..count).map(|i| start + factor.powi(i as i32)) {\n            this.bucket(x);\n        }\n", "        this.buckets((0..count).map(|i| start + factor.powi(i as i32)));\n")]),
    # ---- times
    ("x-set-now-direct", "", [(TS, "        self.set_time(SystemTime::now());\n", "        let now = SystemTime::now();\n        self.set_time(now);\n")]),
    ("x-from-value-match", "", [(TS, "        Timestamp(AtomicI64::new(v.unwrap_or(NO_VALUE)))\n", "        let t = Timestamp::new();\n        if let Some(v) = v {\n            t.set(v);\n        }\n        t\n")]),
    ("x-get-filter", "", [(TS, "        let v = self.0.get();\n        if v == NO_VALUE {\n            None\n        } else {\n            Some(v)\n        }\n", "        Some(self.0.get()).filter(|&v| v != NO_VALUE)\n")]),
    ("x-get-twice", "C24", [(TS, "        let v = self.0.get();\n        if v == NO_VALUE {\n            None\n        } else {\n            Some(v)\n        }\n", "        if self.0.get() == NO_VALUE {\n            None\n        } else {\n            Some(self.0.get())\n        }\n")]),
    ("x-noval-minus-one", "C24", [(TS, "const NO_VALUE: i64 = std::i64::MIN;", "const NO_VALUE: i64 = -1;")]),
    ("x-noval-max", "C24", [(TS, "const NO_VALUE: i64 = std::i64::MIN;", "const NO_VALUE: i64 = std::i64::MAX;")]),
    ("x-millis-micros", "", [(TS, MILLI, "            d.as_secs() as i64 * 1000 + i64::from(d.subsec_micros() / 1000)\n")]),
    ("x-millis-u32", "C24", [(TS, MILLI, "            (d.as_secs() as u32 as i64) * 1000 + i64::from(d.subsec_nanos()) / 1000 / 1000\n")]),
    ("x-dur-millis-f", "C24 C22", [(TS, "    d.as_secs() as f64 + f64::from(d.subsec_nanos()) / 1_000_000_000.0\n", "    d.as_millis() as f64 / 1000.0\n")]),
    # ---- collectors
    ("x-upg-match", "", [(C, CUPG, """        match self.0.upgrade() {
            Some(inner) => Some(iter::once(Counter(inner).into())),
            None => None,
        }
""")]),
    ("x-upg-question", "", [(H, HUPG, """        let inner = self.0.upgrade()?;
        Some(iter::once(Metric::from(Histogram(inner))))
""")]),
    ("x-upg-strong", "C06 C05", [(S, SUPG, """        if self.0.strong_count() == 1 {
            return None;
        }
        self.0
            .upgrade()
            .map(|inner| iter::once(Metric::Summary(Summary(inner))))
""")]),
    ("x-upg-count", "C05 C14", [(S, SUPG, """        let inner = self.0.upgrade()?;
        if inner.count.get() == 0 {
            return None;
        }
        Some(iter::once(Metric::Summary(Summary(inner))))
""")]),
]
