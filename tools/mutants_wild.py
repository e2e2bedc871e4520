"""Edits written from the texts of the properties, as someone without the checks would: state-dependent, split over sites, or restructured."""
from mutants import C, G, H, S, A, RG, LB, MT, AG, BK, TS, QN, PR, MB

CADD = """        let floor = count.floor() as u64;
        let ceil = count.ceil() as u64;
        if floor == ceil && count < 18_446_744_073_709_551_616.0 {
            self.u64.add(floor);
        } else {
            self.f64.add(count);
        }
"""
FUP = """        let mut old = self.0.load(Relaxed);
        loop {
            let new = f(f64::from_bits(old)).to_bits();
            match self.0.compare_exchange_weak(old, new, Relaxed, Relaxed) {
                Ok(_) => break,
                Err(v) => old = v, // try again
            }
        }
"""
SOBS = """        self.with_current_samples(|now, samples| {
            samples.push_back((now, value));
        });
        self.0.count.inc();
        self.0.sum.add(value);
"""
HOBS = """        assert!(!value.is_nan());
        let i = self
            .0
            .buckets
            .binary_search_by(|b| b.upper_bound().partial_cmp(&value).expect("Never fails"))
            .unwrap_or_else(|i| i);
        self.0.buckets.get(i).map(|b| b.increment());
        self.0.sum.add(value);
"""
REG = """        for r in &self.registries {
            r.register(%s.collector());
        }
"""
GA = """        while let Ok(collector) = self.rx.try_recv() {
            self.collectors.push(collector);
        }
"""
COL = """        while i < self.collectors.len() {
            if self.collectors[i].collect(&mut metrics) {
                i += 1;
            } else {
                self.collectors.swap_remove(i);
            }
        }
"""
FAM = """            if !families.last().map_or(false, |f| f.same_family(&metric)) {
                families.push(MetricFamily::new(metric));
            } else {
                families.last_mut().unwrap().push(metric);
            }
"""
HPUSH = """                    let m = AggregatedHistogram::new(m);
                    if v.last_mut().map_or(true, |x| !x.try_merge(&m)) {
                        v.push(m);
                    }
"""
CPUSH = HPUSH.replace("Histogram", "Counter")
GPUSH = HPUSH.replace("Histogram", "Gauge")
SPUSH = HPUSH.replace("Histogram", "Summary")
MVAL = """        if self.0.is_finite() {
            write!(f, "{}", self.0)
        } else if self.0.is_nan() {
            write!(f, "NaN")
        } else if self.0.is_sign_positive() {
            write!(f, "+Inf")
        } else {
            write!(f, "-Inf")
        }
"""
NDISP = """        if let Some(ref s) = self.namespace {
            write!(f, "{}_", s)?;
        }
        if let Some(ref s) = self.subsystem {
            write!(f, "{}_", s)?;
        }
        write!(f, "{}", self.name)?;
"""
LDISP = """        for (i, label) in self.iter().enumerate() {
            if i != 0 {
                write!(f, ",")?;
            }
            write!(f, "{}", label)?;
        }
"""
EXP = """            while samples
                .front()
                .and_then(|s| now.duration_since(s.0).ok())
                .and_then(|d| if d > self.0.window { Some(()) } else { None })
                .is_some()
            {
                samples.pop_front();
            }
"""
INC = """        self.increment();
        let _guard = Guard(self);
        f()
"""
SET_TIME = """        if let Ok(duration) = time.duration_since(UNIX_EPOCH) {
            self.set(to_millis(duration));
        } else {
            let duration = UNIX_EPOCH.duration_since(time).expect("Never fails");
            self.set(-to_millis(duration));
        }
"""

ALL = [
    # ---- C01-C03
    ("w-update-giveup", "C01", [(A, FUP, """        let mut old = self.0.load(Relaxed);
        for _ in 0..1000 {
            let new = f(f64::from_bits(old)).to_bits();
            match self.0.compare_exchange_weak(old, new, Relaxed, Relaxed) {
                Ok(_) => return,
                Err(v) => old = v, // try again
            }
        }
""")]),
    ("w-update-nan-skip", "C03 C01", [(A, FUP, """        let mut old = self.0.load(Relaxed);
        loop {
            let new = f(f64::from_bits(old));
            if !new.is_finite() {
                break;
            }
            match self.0.compare_exchange_weak(old, new.to_bits(), Relaxed, Relaxed) {
                Ok(_) => break,
                Err(v) => old = v, // try again
            }
        }
""")]),
    ("w-u64-inc-update-set", "C01", [(A, "    pub fn inc(&self) {\n        self.add(1);\n    }\n\n    pub fn add(&self, v: u64) {\n        self.0.fetch_add(v, Relaxed);", "    pub fn inc(&self) {\n        self.set(self.get() + 1);\n    }\n\n    pub fn add(&self, v: u64) {\n        self.0.fetch_add(v, Relaxed);")]),
    ("w-gauge-add-zero", "C01 C03", [(G, "        self.0.value.add(count);\n", "        if self.0.value.get() == 0.0 {\n            self.0.value.set(count);\n        } else {\n            self.0.value.add(count);\n        }\n")]),
    ("w-gauge-dec-floor", "C03", [(G, "        self.add(-1.0);\n", "        if self.value() > 0.0 {\n            self.add(-1.0);\n        }\n")]),
    ("w-gauge-sub-abs", "C03", [(G, "        self.add(-count);\n", "        self.add(-count.abs());\n")]),
    ("w-counter-overflow-guard", "C03", [(C, "        self.u64.inc();\n", "        if self.u64.get() < u64::from(::std::u32::MAX) {\n            self.u64.inc();\n        }\n")]),
    ("w-counter-fraction-round", "C03", [(C, CADD, CADD.replace("self.f64.add(count);", "self.u64.add(floor);\n            self.f64.add((count - count.floor()) as f32 as f64);"))]),
    ("w-counter-split", "", [(C, CADD, CADD.replace("            self.u64.add(floor);\n        } else {\n            self.f64.add(count);", "            self.add_u64(floor);\n        } else {\n            self.f64.update(|v| v + count);"))]),
    ("w-counter-carry", "C02 C01 C03", [(C, CADD, CADD + "        let f = self.f64.get();\n        if f >= 1.0 && f < 1_000_000.0 {\n            self.f64.add(-f.floor());\n            self.u64.add(f.floor() as u64);\n        }\n")]),
    ("w-counter-add-return", "C02 C03", [(C, "        self.0.value.add(count);\n        Ok(())", "        if count > 0.0 {\n            self.0.value.add(count);\n        } else if count < 0.0 {\n            self.0.value.f64.add(count);\n        }\n        Ok(())"), (C, "track_assert!(count >= 0.0,", "track_assert!(count >= -0.5,")]),
    ("w-summary-count-late", "", [(S, SOBS, """        let n = self.with_current_samples(|now, samples| {
            samples.push_back((now, value));
            samples.len()
        });
        if n > 0 {
            self.0.count.inc();
            self.0.sum.add(value);
        }
""")]),
    ("w-summary-nan-sum", "C03", [(S, SOBS, SOBS.replace("        self.0.sum.add(value);\n", "        if !value.is_nan() {\n            self.0.sum.add(value);\n        }\n"))]),
    ("w-summary-sum-samples", "C03 C20", [(S, "        self.0.sum.get()\n", "        self.with_current_samples(|_, s| s.iter().map(|x| x.1).sum())\n")]),
    ("w-summary-trylock", "C20 C01", [(S, "if let Ok(mut samples) = self.0.samples.lock() {", "if let Ok(mut samples) = self.0.samples.try_lock() {")]),
    ("w-summary-limit", "C20", [(S, "            samples.push_back((now, value));\n", "            samples.push_back((now, value));\n            if samples.len() > 65536 {\n                samples.pop_front();\n            }\n")]),
    ("w-summary-dup-time", "C20 C21", [(S, "            samples.push_back((now, value));\n", "            if samples.back().map_or(true, |s| *s != (now, value)) {\n                samples.push_back((now, value));\n            }\n")]),
    ("w-hist-neg-inf", "C17 C03", [(H, HOBS, HOBS.replace("        self.0.sum.add(value);\n", "        if value.is_finite() {\n            self.0.sum.add(value);\n        }\n"))]),
    ("w-hist-linear-partition", "", [(H, HOBS, """        assert!(!value.is_nan());
        if let Some(b) = self.0.buckets.iter().find(|b| value <= b.upper_bound()) {
            b.increment();
        }
        self.0.sum.add(value);
""")]),
    ("w-hist-find-lt", "C17", [(H, HOBS, """        assert!(!value.is_nan());
        if let Some(b) = self.0.buckets.iter().find(|b| value < b.upper_bound()) {
            b.increment();
        }
        self.0.sum.add(value);
""")]),
    ("w-hist-last-else", "C17", [(H, HOBS, """        assert!(!value.is_nan());
        let buckets = &self.0.buckets;
        let n = buckets.len() - 1;
        let i = buckets[..n].iter().position(|b| value < b.upper_bound()).unwrap_or(n);
        buckets[i].increment();
        self.0.sum.add(value);
""")]),
    ("w-hist-last-else-ok", "", [(H, HOBS, """        assert!(!value.is_nan());
        let buckets = &self.0.buckets;
        let n = buckets.len() - 1;
        let i = buckets[..n].iter().position(|b| value <= b.upper_bound()).unwrap_or(n);
        buckets[i].increment();
        self.0.sum.add(value);
""")]),
    # ---- C05 C06
    ("w-register-first-only", "C26", [(G, REG % "gauge", "        if let Some(r) = self.registries.first() {\n            r.register(gauge.collector());\n        }\n")]),
    ("w-register-before-check", "C05", [(C, "        let labels = track!(self\n", "        let early = Counter(Arc::new(Inner {\n            name: name.clone(),\n            labels: Labels::new(Vec::new()),\n            help: None,\n            timestamp: Timestamp::new(),\n            value: Value::new(),\n        }));\n        for r in &self.registries {\n            r.register(early.collector());\n        }\n        let labels = track!(self\n")]),
    ("w-gather-one-recv", "C05", [(RG, GA, "        if let Ok(collector) = self.rx.try_recv() {\n            self.collectors.push(collector);\n        }\n")]),
    ("w-gather-recv-limit", "C05", [(RG, GA, "        for collector in self.rx.try_iter().take(1024) {\n            self.collectors.push(collector);\n        }\n")]),
    ("w-gather-recv-iter", "", [(RG, GA, "        self.collectors.extend(self.rx.try_iter());\n")]),
    ("w-gather-recv-after", "C05", [(RG, GA, ""), (RG, "        let mut families: Vec<MetricFamily> = Vec::new();\n", GA + "        let mut families: Vec<MetricFamily> = Vec::new();\n")]),
    ("w-gather-retain", "", [(RG, "        let mut i = 0;\n" + COL, "        self.collectors.retain_mut(|c| c.collect(&mut metrics));\n")]),
    ("w-gather-drain-bad", "C05 C06", [(RG, "        let mut i = 0;\n" + COL, "        let n = self.collectors.len();\n        for mut c in self.collectors.drain(..).collect::<Vec<_>>() {\n            if c.collect(&mut metrics) && self.collectors.len() < n {\n                self.collectors.push(c);\n            } else {\n                break;\n            }\n        }\n")]),
    ("w-gather-drain-ok", "", [(RG, "        let mut i = 0;\n" + COL, "        for mut c in ::std::mem::replace(&mut self.collectors, Vec::new()) {\n            if c.collect(&mut metrics) {\n                self.collectors.push(c);\n            }\n        }\n")]),
    ("w-gather-dedup", "C05 C16", [(RG, "        let mut families: Vec<MetricFamily> = Vec::new();\n", "        metrics.dedup_by(|a, b| a.name() == b.name() && a.labels().is_empty() && b.labels().is_empty());\n        let mut families: Vec<MetricFamily> = Vec::new();\n")]),
    ("w-collect-strong-one", "C06 C05", [(S, "        self.0\n            .upgrade()\n            .map(|inner| iter::once(Metric::Summary(Summary(inner))))", "        self.0\n            .upgrade()\n            .filter(|inner| Arc::strong_count(inner) > 2 || inner.count.get() > 0)\n            .map(|inner| iter::once(Metric::Summary(Summary(inner))))")]),
    ("w-collector-keeps", "C06", [(H, "pub struct HistogramCollector(Weak<Inner>);", "pub struct HistogramCollector(Weak<Inner>, Option<Arc<Inner>>);"), (H, "HistogramCollector(Arc::downgrade(&self.0))", "HistogramCollector(Arc::downgrade(&self.0), Some(self.0.clone()))")]),
    ("w-register-clone-registry", "", [(H, REG % "histogram", "        self.registries\n            .iter()\n            .for_each(|r| r.register(histogram.collector()));\n")]),
    ("w-push-merge-any", "", [(MT, CPUSH, """                    let m = AggregatedCounter::new(m);
                    let merged = match v.last_mut() {
                        Some(x) => x.try_merge(&m),
                        None => false,
                    };
                    if !merged {
                        v.push(m);
                    }
""")]),
    ("w-push-search", "", [(MT, GPUSH, """                    let m = AggregatedGauge::new(m);
                    let merged = v.iter_mut().any(|x| x.try_merge(&m));
                    if !merged {
                        v.push(m);
                    }
""")]),
    ("w-push-all-merge", "C14 C15 C16", [(MT, GPUSH, """                    let m = AggregatedGauge::new(m);
                    let mut merged = false;
                    for x in v.iter_mut() {
                        merged = x.try_merge(&m);
                    }
                    if !merged {
                        v.push(m);
                    }
""")]),
    ("w-push-dropped", "C14 C15 C16", [(MT, SPUSH, """                    let m = AggregatedSummary::new(m);
                    if let Some(x) = v.last_mut() {
                        x.try_merge(&m);
                    } else {
                        v.push(m);
                    }
""")]),
    # ---- C07 C08
    ("w-name-joined-only", "C07 C08", [(MT, """        if let Some(s) = subsystem {
            track!(Self::validate_name(s), "{:?}", s)?;
        }
""", """        if let (Some(s), None) = (subsystem, namespace) {
            track!(Self::validate_name(s), "{:?}", s)?;
        }
""")]),
    ("w-name-trim", "C07 C08", [(MT, "            name: name.to_string(),\n        })", "            name: name.trim_end_matches(':').to_string(),\n        })")]),
    ("w-name-bytes-window", "C07 C08", [(MT, "        for c in name.chars().skip(1) {", "        for c in name.chars().skip(1).take_while(|&c| c != ':') {")]),
    ("w-label-new-unchecked", "C07 C08", [(LB, "        track!(\n            Self::validate_name(name),", "        track!(\n            if value.is_empty() { Ok(()) } else { Self::validate_name(name) },")]),
    # ---- C09 C10
    ("w-reserved-once", "C09", [(LB, "            self.reserved.map(|s| &*s),\n            Some(name),", "            self.reserved.filter(|_| self.inner.is_empty()).map(|s| &*s),\n            Some(name),")]),
    ("w-reserved-summary-le", "C09", [(S, "LabelsMut::new(&self.0.labels, Some(\"quantile\"))", "LabelsMut::new(&self.0.labels, if self.0.quantiles.is_empty() { Some(\"le\") } else { Some(\"quantile\") })")]),
    ("w-insert-same-noop", "", [(LB, "            let mut labels = labels.clone();\n            labels.retain(|l| l.name != label.name);\n            labels.push(label.clone());\n            labels.sort();\n            labels\n", "            let mut labels = labels.clone();\n            if let Some(i) = labels.iter().position(|l| l.name == label.name) {\n                labels[i] = label.clone();\n            } else {\n                labels.push(label.clone());\n                labels.sort();\n            }\n            labels\n")]),
    ("w-insert-swap", "C10", [(LB, "            labels.retain(|l| l.name != label.name);\n", "            if let Some(i) = labels.iter().position(|l| l.name == label.name) {\n                labels.swap_remove(i);\n            } else if labels.len() > 31 {\n                labels.truncate(31);\n            }\n")]),
    ("w-builder-label-first", "C10 C26", [(C, "self.labels.retain(|l| l.0 != name);", "if self.labels.iter().any(|l| l.0 == name) {\n            return self;\n        }")]),
    # ---- C11-C13
    ("w-text-count-total", "", [(H, "        let mut count = 0;\n        for bucket", "        let mut count = self.count();\n        for bucket")]),
    ("w-value-int", "C11 C14", [(MT, MVAL, "        if self.0.is_finite() && self.0 == self.0.trunc() {\n            write!(f, \"{}\", self.0 as i64)\n        } else if self.0.is_finite() {\n            write!(f, \"{}\", self.0)\n        } else if self.0.is_nan() {\n            write!(f, \"NaN\")\n        } else if self.0.is_sign_positive() {\n            write!(f, \"+Inf\")\n        } else {\n            write!(f, \"-Inf\")\n        }\n")]),
    ("w-value-exp", "C11 C14", [(MT, "            write!(f, \"{}\", self.0)\n", "            if self.0.abs() >= 1e21 {\n                write!(f, \"{:e}\", self.0)\n            } else {\n                write!(f, \"{:.17}\", self.0)\n            }\n")]),
    ("w-value-nan-sign", "C13", [(MT, MVAL, MVAL.replace("is_finite() {", "is_finite() {", 1).replace("        } else if self.0.is_nan() {\n            write!(f, \"NaN\")\n        } else if self.0.is_sign_positive() {\n            write!(f, \"+Inf\")\n        } else {\n            write!(f, \"-Inf\")\n        }", "        } else if self.0.is_sign_negative() {\n            write!(f, \"-Inf\")\n        } else if self.0.is_nan() {\n            write!(f, \"NaN\")\n        } else {\n            write!(f, \"+Inf\")\n        }"))]),
    ("w-value-match", "", [(MT, MVAL, "        match self.0 {\n            v if v.is_nan() => f.write_str(\"NaN\"),\n            v if v == ::std::f64::INFINITY => f.write_str(\"+Inf\"),\n            v if v == ::std::f64::NEG_INFINITY => f.write_str(\"-Inf\"),\n            v => write!(f, \"{}\", v),\n        }\n")]),
    ("w-name-display-parts", "", [(MT, NDISP, "        for s in self.namespace.iter().chain(self.subsystem.iter()) {\n            write!(f, \"{}_\", s)?;\n        }\n        f.write_str(&self.name)?;\n")]),
    ("w-name-display-join", "", [(MT, NDISP, "        let mut parts = Vec::new();\n        if let Some(ref s) = self.namespace {\n            parts.push(s.as_str());\n        }\n        if let Some(ref s) = self.subsystem {\n            parts.push(s.as_str());\n        }\n        parts.push(&self.name);\n        write!(f, \"{}\", parts.join(\"_\"))?;\n")]),
    ("w-name-display-noprefix", "C11 C14 C15", [(MT, NDISP, NDISP.replace("        if let Some(ref s) = self.subsystem {", "        if let Some(ref s) = self.subsystem.as_ref().filter(|s| !self.name.starts_with(s.as_str())) {"))]),
    ("w-labels-join", "", [(LB, LDISP, "        let labels = self.iter().map(|l| l.to_string()).collect::<Vec<_>>();\n        write!(f, \"{}\", labels.join(\",\"))?;\n")]),
    ("w-labels-first", "", [(LB, LDISP, "        let mut first = true;\n        for label in self.iter() {\n            if !first {\n                write!(f, \",\")?;\n            }\n            first = false;\n            write!(f, \"{}\", label)?;\n        }\n")]),
    ("w-labels-sep", "", [(LB, LDISP, "        let mut sep = \"\";\n        for label in self.iter() {\n            write!(f, \"{}{}\", sep, label)?;\n            sep = \",\";\n        }\n")]),
    ("w-labels-skip-empty", "C11 C12", [(LB, LDISP, "        let mut sep = \"\";\n        for label in self.iter() {\n            if label.value().is_empty() {\n                continue;\n            }\n            write!(f, \"{}{}\", sep, label)?;\n            sep = \",\";\n        }\n")]),
    ("w-help-empty", "C11 C12", [(MT, "        if let Some(help) = self.help() {\n            // >", "        if let Some(help) = self.help().filter(|h| !h.trim().is_empty()) {\n            // >")]),
    ("w-help-replace", "", [(MT, """            for c in help.chars() {
                match c {
                    '\\\\' => write!(f, "\\\\\\\\")?,
                    '\\n' => write!(f, "\\\\n")?,
                    _ => write!(f, "{}", c)?,
                }
            }
""", """            write!(f, "{}", help.replace('\\\\', "\\\\\\\\").replace('\\n', "\\\\n"))?;
""")]),
    ("w-help-replace-order", "C12", [(MT, """            for c in help.chars() {
                match c {
                    '\\\\' => write!(f, "\\\\\\\\")?,
                    '\\n' => write!(f, "\\\\n")?,
                    _ => write!(f, "{}", c)?,
                }
            }
""", """            write!(f, "{}", help.replace('\\n', "\\\\n").replace('\\\\', "\\\\\\\\"))?;
""")]),
    # ---- C14-C16
    ("w-sort-unstable-name", "C15", [(RG, "            (m.name().clone(), m.kind(), labels)", "            (m.name().name().to_string(), m.kind(), labels)")]),
    ("w-sort-labels-first", "C15", [(RG, "            (m.name().clone(), m.kind(), labels)", "            (labels, m.name().clone(), m.kind())")]),
    ("w-sort-labels-names", "C15", [(RG, "m.labels().iter().cloned().collect::<Vec<_>>()", "m.labels().iter().map(|l| l.name().to_string()).collect::<Vec<_>>()")]),
    ("w-sort-by-key-len", "C15", [(RG, "m.labels().iter().cloned().collect::<Vec<_>>()", "m.labels().iter().take(8).cloned().collect::<Vec<_>>()")]),
    ("w-family-kind", "C14 C15", [(MT, "(self.name(), self.kind()) == (metric.name(), metric.kind())", "self.name() == metric.name()")]),
    ("w-family-and", "", [(MT, "(self.name(), self.kind()) == (metric.name(), metric.kind())", "self.kind() == metric.kind() && self.name() == metric.name()")]),
    ("w-family-string", "", [(MT, "(self.name(), self.kind()) == (metric.name(), metric.kind())", "self.kind() == metric.kind() && self.name().to_string() == metric.name().to_string()")]),
    ("w-fam-match", "", [(RG, FAM, """            match families.last_mut() {
                Some(ref mut f) if f.same_family(&metric) => {
                    f.push(metric);
                    continue;
                }
                _ => {}
            }
            families.push(MetricFamily::new(metric));
""")]),
    ("w-fam-help-later", "", [(MT, "                    let m = AggregatedCounter::new(m);\n                    if v.last_mut()", "                    if let Some(h) = m.help() {\n                        self.help = Some(h.to_string());\n                    }\n                    let m = AggregatedCounter::new(m);\n                    if v.last_mut()")]),
    ("w-agg-max-value", "C16", [(AG, "            self.value += other.value;\n            self.timestamp = cmp::max(self.timestamp, other.timestamp);", "            self.value = self.value.max(other.value);\n            self.timestamp = cmp::max(self.timestamp, other.timestamp);")]),
    ("w-agg-timestamp-and", "C16", [(AG, "            self.timestamp = cmp::max(self.timestamp, other.timestamp);", "            self.timestamp = match (self.timestamp, other.timestamp) {\n                (Some(a), Some(b)) => Some(cmp::max(a, b)),\n                _ => None,\n            };")]),
    ("w-agg-timestamp-match", "", [(AG, "            self.timestamp = cmp::max(self.timestamp, other.timestamp);", "            self.timestamp = match (self.timestamp, other.timestamp) {\n                (Some(a), Some(b)) => Some(cmp::max(a, b)),\n                (a, b) => a.or(b),\n            };")]),
    ("w-agg-live", "C14 C16", [(AG, "    pub fn value(&self) -> f64 {\n        self.value\n    }\n\n    pub(crate) fn new(gauge", "    pub fn value(&self) -> f64 {\n        if self.timestamp.is_none() {\n            return self.inner.value();\n        }\n        self.value\n    }\n\n    pub(crate) fn new(gauge")]),
    ("w-agg-quantile-max", "C21 C16", [(AG, "            .map(|&quantile| {\n                let index", "            .filter(|q| q.as_f64() > 0.0 || count > 1)\n            .map(|&quantile| {\n                let index")]),
    ("w-agg-sum-loop", "", [(AG, "        self.inners.iter().map(|h| h.count()).sum()", "        let mut n = 0;\n        for h in &self.inners {\n            n += h.count();\n        }\n        n")]),
    # ---- C20 C21
    ("w-expire-ge", "C20", [(S, "if d > self.0.window { Some(()) }", "if d >= self.0.window { Some(()) }")]),
    ("w-expire-retain", "", [(S, EXP, "            let window = self.0.window;\n            while let Some(&(t, _)) = samples.front() {\n                match now.duration_since(t) {\n                    Ok(d) if d > window => {\n                        samples.pop_front();\n                    }\n                    _ => break,\n                }\n            }\n")]),
    ("w-expire-loop-let", "", [(S, EXP, "            while samples.front().map_or(false, |s| now.duration_since(s.0).map_or(false, |d| d > self.0.window)) {\n                samples.pop_front();\n            }\n")]),
    ("w-expire-clear", "C20", [(S, EXP, "            if samples\n                .front()\n                .and_then(|s| now.duration_since(s.0).ok())\n                .and_then(|d| if d > self.0.window { Some(()) } else { None })\n                .is_some()\n            {\n                samples.clear();\n            }\n")]),
    ("w-expire-err", "C20", [(S, EXP, "            while samples.front().map_or(false, |s| now.duration_since(s.0).map_or(true, |d| d > self.0.window)) {\n                samples.pop_front();\n            }\n")]),
    ("w-expire-only-observe", "C20", [(S, "        let mut samples = self.with_current_samples(|_, samples| {\n            samples\n                .iter()", "        let mut samples = Some(self.0.samples.lock().unwrap()).map(|samples| {\n            samples\n                .iter()"), (S, "                .collect::<Vec<_>>()\n        });", "                .collect::<Vec<_>>()\n        }).unwrap_or_default();")]),
    ("w-quantile-ceil", "C21", [(S, "(quantile.as_f64() * count as f64).floor() as usize)", "(quantile.as_f64() * count as f64).ceil() as usize)")]),
    ("w-quantile-range", "C08 C21", [(QN, "0.0 <= quantile && quantile <= 1.0", "0.0 < quantile && quantile <= 1.0")]),
    ("w-quantile-index-min", "", [(S, "let index = cmp::min(count - 1, (quantile.as_f64() * count as f64).floor() as usize);", "let mut index = (quantile.as_f64() * count as f64) as usize;\n                if index >= count {\n                    index = count - 1;\n                }")]),
    ("w-quantile-for", "", [(S, """        self.0
            .quantiles
            .iter()
            .map(|&quantile| {
                let index = cmp::min(count - 1, (quantile.as_f64() * count as f64).floor() as usize);
                (quantile, samples[index])
            })
            .collect()
""", """        let mut result = Vec::with_capacity(self.0.quantiles.len());
        for &quantile in &self.0.quantiles {
            let rank = (quantile.as_f64() * count as f64).floor() as usize;
            let index = if rank < count { rank } else { count - 1 };
            result.push((quantile, samples[index]));
        }
        result
""")]),
    # ---- C22-C24
    ("w-inprogress-forget", "C22", [(G, INC, "        self.increment();\n        let guard = Guard(self);\n        let r = f();\n        if self.value() > 0.0 {\n            drop(guard);\n        } else {\n            ::std::mem::forget(guard);\n        }\n        r\n")]),
    ("w-inprogress-catch", "", [(G, INC, "        let _guard = {\n            self.increment();\n            Guard(self)\n        };\n        let result = f();\n        result\n")]),
    ("w-inprogress-set", "C22 C01", [(G, "                self.0.decrement();\n            }", "                self.0.set(self.0.value() - 1.0);\n            }")]),
    ("w-settime-abs", "C24", [(TS, "            self.set(-to_millis(duration));\n", "            let millis = to_millis(duration);\n            self.set(if millis > 1000 { -millis } else { millis });\n")]),
    ("w-settime-match", "", [(TS, SET_TIME, "        match time.duration_since(UNIX_EPOCH) {\n            Ok(d) => self.set(to_millis(d)),\n            Err(e) => self.set(-to_millis(e.duration())),\n        }\n")]),
    ("w-ts-get-zero", "C24", [(TS, "        if v == NO_VALUE {\n", "        if v == NO_VALUE || v == 0 {\n")]),
    ("w-ts-novalue", "C24", [(TS, "const NO_VALUE: i64 = std::i64::MIN;", "const NO_VALUE: i64 = -1;")]),
    ("w-ts-clear-max", "C24", [(TS, "        self.0.set(NO_VALUE);\n", "        self.0.set(std::i64::MAX);\n")]),
    # ---- C04 C26
    ("w-gauge-clone", "C04", [(G, "#[derive(Debug, Clone)]\npub struct Gauge(Arc<Inner>);", "#[derive(Debug)]\npub struct Gauge(Arc<Inner>);\nimpl Clone for Gauge {\n    fn clone(&self) -> Self {\n        let inner = Inner {\n            name: self.0.name.clone(),\n            labels: Labels::new(self.0.labels.iter().cloned().collect()),\n            help: self.0.help.clone(),\n            timestamp: Timestamp::new(),\n            value: AtomicF64::new(self.0.value.get()),\n        };\n        Gauge(Arc::new(inner))\n    }\n}")]),
    ("w-gauge-clone-ok", "", [(G, "#[derive(Debug, Clone)]\npub struct Gauge(Arc<Inner>);", "#[derive(Debug)]\npub struct Gauge(Arc<Inner>);\nimpl Clone for Gauge {\n    fn clone(&self) -> Self {\n        Gauge(Arc::clone(&self.0))\n    }\n}")]),
    ("w-builder-initial-nan", "C26 C03", [(G, "        self.initial_value = value;\n", "        if value != 0.0 && value.is_finite() {\n            self.initial_value = value;\n        }\n")]),
    ("w-metricbuilder-label-twice", "C26", [(MB, "                builder.label(k, v);\n", "                if k != \"instance\" {\n                    builder.label(k, v);\n                }\n")]),
]
ALL += [
    # ---- only in release builds
    ("w-rel-debug-assert-add", "C02", [(C, 'track_assert!(count >= 0.0, ErrorKind::InvalidInput, "count={}", count);', 'if cfg!(debug_assertions) {\n            track_assert!(count >= 0.0, ErrorKind::InvalidInput, "count={}", count);\n        }')]),
    ("w-rel-label-name", "C07 C08", [(LB, '        track_assert!(!name.starts_with("__"), ErrorKind::InvalidInput, "Reserved");', '        debug_assert!(!name.starts_with("__"), "Reserved");')]),
    ("w-rel-inc-in-assert", "C17", [(H, "        self.0.buckets.get(i).map(|b| b.increment());\n", "        let bucket = self.0.buckets.get(i);\n        debug_assert!(bucket.map(|b| b.increment()).is_some());\n")]),
    ("w-rel-assert-only", "", [(H, "        self.0.buckets.get(i).map(|b| b.increment());\n", "        debug_assert!(i < self.0.buckets.len());\n        self.0.buckets.get(i).map(|b| b.increment());\n")]),
    ("w-rel-sort", "C17", [(H, "        buckets.dedup_by(", "        if cfg!(not(debug_assertions)) {\n            buckets.reverse();\n        }\n        buckets.dedup_by(")]),
]
ALL += [
    ("w-hist-index", "", [(H, "        self.0.buckets.get(i).map(|b| b.increment());\n", "        self.0.buckets[i].increment();\n")]),
    ("w-hist-find-expect", "", [(H, HOBS, """        assert!(!value.is_nan());
        self.0
            .buckets
            .iter()
            .find(|b| value <= b.upper_bound())
            .expect("The last bucket is unbounded")
            .increment();
        self.0.sum.add(value);
""")]),
    ("w-hist-position-index", "", [(H, HOBS, """        assert!(!value.is_nan());
        let mut i = 0;
        while self.0.buckets[i].upper_bound() < value {
            i += 1;
        }
        self.0.buckets[i].increment();
        self.0.sum.add(value);
""")]),
    ("w-hist-last-if", "C17 C28", [(H, HOBS, """        assert!(!value.is_nan());
        self.0
            .buckets
            .iter()
            .find(|b| value < b.upper_bound())
            .expect("The last bucket is unbounded")
            .increment();
        self.0.sum.add(value);
""")]),
]
