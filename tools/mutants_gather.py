"""More edits: families, series, merging (C14, C15, C16)."""
from mutants import C, G, H, S, A, RG, LB, MT, AG, BK, TS, QN, PR, MB

KEY = """        metrics.sort_by_cached_key(|m| {
            let labels = m.labels().iter().cloned().collect::<Vec<_>>();
            (m.name().clone(), m.kind(), labels)
        });
"""
GRP = """        for metric in metrics {
            if !families.last().map_or(false, |f| f.same_family(&metric)) {
                families.push(MetricFamily::new(metric));
            } else {
                families.last_mut().unwrap().push(metric);
            }
        }
"""
EQ = """        let is_same_metric = self.metric_name() == other.metric_name()
            && self.labels().iter().eq(other.labels().iter());
"""
MAXC = "            self.timestamp = cmp::max(self.timestamp, other.timestamp);\n"
PUSHC = """                    let m = AggregatedCounter::new(m);
                    if v.last_mut().map_or(true, |x| !x.try_merge(&m)) {
                        v.push(m);
                    }
"""
TSH = """        Timestamp::from_value(
            self.inners
                .iter()
                .map(|h| h.timestamp().get())
                .max()
                .and_then(|t| t),
        )
"""
SAME = "        (self.name(), self.kind()) == (metric.name(), metric.kind())\n"

ALL = [
    # ---- C15
    ("sort-no-labels", "C15", [(RG, KEY, "        metrics.sort_by_cached_key(|m| (m.name().clone(), m.kind()));\n")]),
    ("sort-labels-first", "C15", [(RG, "(m.name().clone(), m.kind(), labels)", "(labels, m.name().clone(), m.kind())")]),
    ("sort-no-kind", "C15", [(RG, "(m.name().clone(), m.kind(), labels)", "(m.name().clone(), labels)")]),
    ("sort-kind-last", "C15", [(RG, "(m.name().clone(), m.kind(), labels)", "(m.name().clone(), labels, m.kind())")]),
    ("sort-name-part", "C15", [(RG, "(m.name().clone(), m.kind(), labels)", "(m.name().name().to_string(), m.kind(), labels)")]),
    ("sort-none", "C15", [(RG, KEY, "")]),
    ("sort-first-label", "C15", [(RG, "m.labels().iter().cloned().collect::<Vec<_>>()", "m.labels().iter().next().cloned()")]),
    ("sort-label-names", "C15", [(RG, "m.labels().iter().cloned().collect::<Vec<_>>()", "m.labels().iter().map(|l| l.name().to_string()).collect::<Vec<_>>()")]),
    ("sort-label-count", "C15", [(RG, "m.labels().iter().cloned().collect::<Vec<_>>()", "m.labels().iter().count()")]),
    ("same-family-name", "C15", [(MT, SAME, "        self.name() == metric.name()\n")]),
    ("same-family-kind", "C15", [(MT, SAME, "        self.kind() == metric.kind()\n")]),
    ("same-family-parts", "C15", [(MT, SAME, "        self.name().namespace() == metric.name().namespace() && self.name().subsystem() == metric.name().subsystem() && self.name().name() == metric.name().name() && self.kind() == metric.kind()\n")]),
    ("same-family-last-part", "C15", [(MT, SAME, "        self.name().name() == metric.name().name() && self.kind() == metric.kind()\n")]),
    ("name-eq-parts", "C15", [(MT, "self.to_string() == other.to_string()", "self.namespace == other.namespace && self.subsystem == other.subsystem && self.name == other.name")]),
    ("name-cmp-parts", "C15", [(MT, "self.to_string().cmp(&other.to_string())", "(&self.namespace, &self.subsystem, &self.name).cmp(&(&other.namespace, &other.subsystem, &other.name))")]),
    ("name-hash-parts", "C15", [(MT, "self.to_string().hash(state);", "self.name.hash(state);")]),
    ("name-eq-case", "C15", [(MT, "self.to_string() == other.to_string()", "self.to_string().eq_ignore_ascii_case(&other.to_string())")]),
    ("name-eq-len", "C15", [(MT, "self.to_string() == other.to_string()", "self.to_string().len() == other.to_string().len()")]),
    ("merge-any-labels", "C15", [(AG, EQ, "        let is_same_metric = self.metric_name() == other.metric_name();\n")]),
    ("merge-label-names", "C15", [(AG, EQ, EQ.replace("self.labels().iter().eq(other.labels().iter())", "self.labels().iter().map(|l| l.name()).eq(other.labels().iter().map(|l| l.name()))"))]),
    ("merge-label-count", "C15", [(AG, EQ, EQ.replace("self.labels().iter().eq(other.labels().iter())", "self.labels().iter().count() == other.labels().iter().count()"))]),
    ("merge-label-zip", "C15", [(AG, EQ, EQ.replace("self.labels().iter().eq(other.labels().iter())", "self.labels().iter().zip(other.labels().iter()).all(|(a, b)| a == b)"))]),
    ("merge-label-skip", "C15", [(AG, EQ, EQ.replace("self.labels().iter().eq(other.labels().iter())", "self.labels().iter().skip(1).eq(other.labels().iter().skip(1))"))]),
    ("merge-never", "C15 C16", [(AG, EQ, EQ + "        let is_same_metric = is_same_metric && self.value < 0.0;\n")]),
    ("merge-not-empty", "C15", [(AG, EQ, EQ.replace("            && self", "            && !self.labels().is_empty() && self"))]),
    ("push-always", "C15", [(MT, PUSHC, "                    v.push(AggregatedCounter::new(m));\n")]),
    ("push-first", "C15", [(MT, PUSHC, PUSHC.replace("v.last_mut()", "v.first_mut()"))]),
    ("push-lost", "C15 C16 C05", [(MT, PUSHC, PUSHC.replace("map_or(true,", "map_or(false,"))]),
    ("push-insert-front", "C15", [(MT, PUSHC, PUSHC.replace("v.push(m)", "v.insert(0, m)"))]),
    ("family-wrong-kind", "C15", [(MT, "metrics: Metrics::Gauge(vec![AggregatedGauge::new(m)]),", "metrics: Metrics::Gauge(vec![]),")]),
    ("families-last-only", "C15 C05", [(RG, "        MetricFamilies(families)\n    }", "        families.dedup_by(|a, b| a.name() == b.name());\n        MetricFamilies(families)\n    }")]),
    ("families-truncate", "C15 C05", [(RG, "        MetricFamilies(families)\n    }", "        families.truncate(1000);\n        MetricFamilies(families)\n    }")]),
    ("benign-grp-match", "", [(RG, GRP, """        for metric in metrics {
            match families.last_mut() {
                Some(ref mut f) if f.same_family(&metric) => f.push(metric),
                _ => families.push(MetricFamily::new(metric)),
            }
        }
""")]),
    ("benign-grp-helper", "", [(RG, GRP, "        for metric in metrics {\n            add_to(&mut families, metric);\n        }\n"), (RG, "impl Default for Gatherer {", """fn add_to(families: &mut Vec<MetricFamily>, metric: Metric) {
    if let Some(last) = families.last_mut() {
        if last.same_family(&metric) {
            last.push(metric);
            return;
        }
    }
    families.push(MetricFamily::new(metric));
}
impl Default for Gatherer {""")]),
    ("benign-grp-fold", "", [(RG, "        let mut families: Vec<MetricFamily> = Vec::new();\n" + GRP + "        MetricFamilies(families)\n", """        MetricFamilies(metrics.into_iter().fold(Vec::new(), |mut families: Vec<MetricFamily>, metric| {
            if families.last().map_or(true, |f| !f.same_family(&metric)) {
                families.push(MetricFamily::new(metric));
            } else {
                families.last_mut().unwrap().push(metric);
            }
            families
        }))
""")]),
    ("benign-grp-index", "", [(RG, GRP, """        for metric in metrics {
            let n = families.len();
            if n > 0 && families[n - 1].same_family(&metric) {
                families[n - 1].push(metric);
            } else {
                families.push(MetricFamily::new(metric));
            }
        }
""")]),
    ("benign-sort-kind-first", "", [(RG, "(m.name().clone(), m.kind(), labels)", "(m.kind(), m.name().clone(), labels)")]),
    ("benign-sort-text", "", [(RG, "(m.name().clone(), m.kind(), labels)", "(m.name().to_string(), m.kind(), labels)")]),
    ("benign-sort-labels-loop", "", [(RG, "            let labels = m.labels().iter().cloned().collect::<Vec<_>>();\n", "            let mut labels = Vec::new();\n            for l in m.labels().iter() {\n                labels.push(l.clone());\n            }\n")]),
    ("benign-same-family-swap", "", [(MT, SAME, "        metric.kind() == self.kind() && *metric.name() == self.name\n")]),
    ("benign-same-family-if", "", [(MT, SAME, "        if self.kind() != metric.kind() {\n            return false;\n        }\n        self.name() == metric.name()\n")]),
    ("benign-eq-swap", "", [(AG, EQ, "        let is_same_metric = other.labels().iter().eq(self.labels().iter())\n            && self.metric_name() == other.metric_name();\n")]),
    ("benign-eq-no-name", "", [(AG, EQ, "        let is_same_metric = self.labels().iter().eq(other.labels().iter());\n")]),
    ("benign-push-match", "", [(MT, PUSHC, """                    let m = AggregatedCounter::new(m);
                    let merged = match v.last_mut() {
                        Some(x) => x.try_merge(&m),
                        None => false,
                    };
                    if !merged {
                        v.push(m);
                    }
""")]),
    ("benign-eq-early", "", [(AG, EQ + """        if is_same_metric {
            self.value += other.value;
            self.timestamp = cmp::max(self.timestamp, other.timestamp);
            true
        } else {
            false
        }
""", """        if self.metric_name() != other.metric_name() || !self.labels().iter().eq(other.labels().iter()) {
            return false;
        }
        self.timestamp = cmp::max(other.timestamp, self.timestamp);
        self.value = self.value + other.value;
        true
""")]),
    ("benign-name-eq-str", "", [(MT, "self.to_string() == other.to_string()", "self.cmp(other) == cmp::Ordering::Equal")]),
    # ---- C16
    ("merge-value-set", "C16", [(AG, "            self.value += other.value;\n", "            self.value = other.value;\n")]),
    ("merge-value-twice", "C16", [(AG, "            self.value += other.value;\n", "            self.value += other.value + other.value;\n")]),
    ("merge-value-max", "C16", [(AG, "            self.value += other.value;\n", "            self.value = self.value.max(other.value);\n")]),
    ("merge-value-none", "C16", [(AG, "            self.value += other.value;\n", "")]),
    ("merge-value-reread", "C16", [(AG, "            self.value += other.value;\n", "            self.value = self.inner.value() + other.value;\n")]),
    ("merge-value-positive", "C16", [(AG, "            self.value += other.value;\n", "            if other.value > 0.0 { self.value += other.value; }\n")]),
    ("merge-ts-min", "C16", [(AG, MAXC, MAXC.replace("cmp::max", "cmp::min"))]),
    ("merge-ts-none", "C16", [(AG, MAXC, "")]),
    ("merge-ts-or", "C16", [(AG, MAXC, "            self.timestamp = self.timestamp.or(other.timestamp);\n")]),
    ("merge-ts-and", "C16", [(AG, MAXC, "            if let (Some(a), Some(b)) = (self.timestamp, other.timestamp) { self.timestamp = Some(cmp::max(a, b)); }\n")]),
    ("merge-ts-set", "C16", [(AG, MAXC, "            self.timestamp = other.timestamp;\n")]),
    ("merge-hist-none", "C16", [(AG, "            self.inners.extend_from_slice(&other.inners);\n", "")]),
    ("merge-hist-first", "C15 C16", [(AG, "            self.inners.extend_from_slice(&other.inners);\n", "            if self.inners.len() < 2 { self.inners.extend_from_slice(&other.inners); }\n")]),
    ("merge-hist-twice", "C16", [(AG, "            self.inners.extend_from_slice(&other.inners);\n", "            self.inners.extend_from_slice(&other.inners);\n            self.inners.extend_from_slice(&other.inners);\n")]),
    ("merge-hist-replace", "C16", [(AG, "            self.inners.extend_from_slice(&other.inners);\n", "            self.inners = other.inners.clone();\n")]),
    ("agg-count-first", "C16", [(AG, "self.inners.iter().map(|h| h.count()).sum()", "self.inners[0].count()")]),
    ("agg-count-skip", "C16", [(AG, "self.inners.iter().map(|h| h.count()).sum()", "self.inners.iter().skip(1).map(|h| h.count()).sum()")]),
    ("agg-count-max", "C16", [(AG, "self.inners.iter().map(|h| h.count()).sum()", "self.inners.iter().map(|h| h.count()).max().unwrap_or(0)")]),
    ("agg-sum-first", "C16", [(AG, "self.inners.iter().map(|h| h.sum()).sum()", "self.inners.iter().take(1).map(|h| h.sum()).sum()")]),
    ("agg-sum-nan", "C16", [(AG, "self.inners.iter().map(|h| h.sum()).sum()", "self.inners.iter().map(|h| h.sum()).filter(|s| s.is_finite()).sum()")]),
    ("agg-ts-first", "C16", [(AG, TSH, "        Timestamp::from_value(self.inners[0].timestamp().get())\n")]),
    ("agg-ts-min", "C16", [(AG, TSH, TSH.replace(".max()", ".min()"))]),
    ("agg-ts-last", "C16", [(AG, TSH, TSH.replace(".max()", ".last()"))]),
    ("agg-new-value-zero", "C16", [(AG, "        let value = counter.value();\n", "        let value = counter.value().max(0.0);\n")]),
    ("agg-new-ts-none", "C16 C14", [(AG, "        let timestamp = gauge.timestamp().get();\n", "        let timestamp = None;\n")]),
    ("gather-resets", "C16", [(AG, "        let value = gauge.value();\n", "        let value = gauge.value();\n        gauge.set(value);\n")]),
    ("gather-stamps", "C16", [(AG, "        let timestamp = counter.timestamp().get();\n", "        let timestamp = counter.timestamp().get();\n        if timestamp.is_none() { counter.timestamp_mut().set_now(); }\n")]),
    ("collect-stamps", "C16", [(C, ".map(|inner| iter::once(Metric::Counter(Counter(inner))))", ".map(|inner| { let c = Counter(inner); c.timestamp_mut().clear(); iter::once(Metric::Counter(c)) })")]),
    ("benign-merge-ts-match", "", [(AG, MAXC, """            self.timestamp = match (self.timestamp, other.timestamp) {
                (Some(a), Some(b)) => Some(cmp::max(a, b)),
                (a, b) => a.or(b),
            };
""")]),
    ("benign-merge-ts-if", "", [(AG, MAXC, """            if other.timestamp > self.timestamp {
                self.timestamp = other.timestamp;
            }
""")]),
    ("benign-merge-hist-for", "", [(AG, "            self.inners.extend_from_slice(&other.inners);\n", "            for h in &other.inners {\n                self.inners.push(h.clone());\n            }\n")]),
    ("benign-merge-hist-extend", "", [(AG, "            self.inners.extend_from_slice(&other.inners);\n", "            self.inners.extend(other.inners.iter().cloned());\n")]),
    ("benign-agg-count-for", "", [(AG, "        self.inners.iter().map(|h| h.count()).sum()\n", "        let mut n = 0;\n        for h in &self.inners {\n            n += h.count();\n        }\n        n\n")]),
    ("benign-agg-count-fold", "", [(AG, "        self.inners.iter().map(|h| h.count()).sum()\n", "        self.inners.iter().fold(0, |n, h| n + h.count())\n")]),
    ("benign-agg-sum-for", "", [(AG, "        self.inners.iter().map(|h| h.sum()).sum()\n", "        let mut n = 0.0;\n        for h in &self.inners {\n            n += h.sum();\n        }\n        n\n")]),
    ("benign-agg-ts-filter", "", [(AG, TSH, "        Timestamp::from_value(self.inners.iter().filter_map(|h| h.timestamp().get()).max())\n")]),
    ("benign-agg-ts-for", "", [(AG, TSH, "        let mut t = None;\n        for h in &self.inners {\n            t = cmp::max(t, h.timestamp().get());\n        }\n        Timestamp::from_value(t)\n")]),
    # ---- C14
    ("agg-line-tab", "C14", [(AG, "write!(f, \" {}\", MetricValue(self.value()))?;", "write!(f, \"  {}\", MetricValue(self.value()))?;")]),
    ("handle-line-ts", "C14", [(G, "write!(f, \" {}\", MetricValue(", "write!(f, \" {}\", MetricValue(0.0 + ")]),
]
