"""More edits: panics (C28)."""
from mutants import C, G, H, S, A, RG, LB, MT, AG, BK, TS, QN, PR, MB

ESC = """        for c in self.value.chars() {
            match c {
                '\\\\' => write!(f, "\\\\\\\\")?,
                '\\n' => write!(f, "\\\\n")?,
                '"' => write!(f, "\\\\\\"")?,
                _ => write!(f, "{}", c)?,
            }
        }
"""
LOOP1 = """            if let Some(bound) = self.iters[i].peek().map(|b| b.upper_bound()) {
                if bound < min {
                    min = bound;
                }
                i += 1;
            } else {
                let _ = self.iters.swap_remove(i);
            }
"""
MERGE = """            self.inners.extend_from_slice(&other.inners);
            true
        } else {
            false
        }
    }
}
impl fmt::Display for AggregatedHistogram {"""
ALL = [
    # ---- wrong
    ("pn-label-fast-path", "C28", [(LB, ESC, """        if self.value.len() > 64 && !self.value[..64].contains('"') && !self.value.contains(|c| c == '\\\\' || c == '\\n' || c == '"') {
            write!(f, "{}{}", &self.value[..64], &self.value[64..])?;
        } else {
""" + ESC + "        }\n")]),
    ("pn-value-err-nan", "C28", [(MT, """            write!(f, "NaN")
""", """            Err(fmt::Error)
""")]),
    ("pn-value-unwrap-cmp", "C28", [(MT, "        if self.0.is_finite() {", "        if self.0.partial_cmp(&0.0).unwrap() == ::std::cmp::Ordering::Equal || self.0.is_finite() {")]),
    ("pn-merge-no-remove", "C28 C19", [(BK, LOOP1, """            if let Some(bound) = self.iters[i].peek().map(|b| b.upper_bound()) {
                if bound < min {
                    min = bound;
                }
            }
            i += 1;
""")]),
    ("pn-merge-remove-skip", "C28 C19", [(BK, LOOP1, LOOP1.replace("swap_remove(i);", "swap_remove(i);\n                i += 1;"))]),
    ("pn-merge-remove-last", "C28 C19", [(BK, LOOP1, LOOP1.replace("swap_remove(i);", "pop();"))]),
    ("pn-merge-stop-early", "C28 C19", [(BK, "        while i < self.iters.len() {", "        while i + 1 < self.iters.len() {")]),
    ("pn-inners-empty", "C28", [(AG, "            inners: vec![histogram],", "            inners: if histogram.count() > 0 { vec![histogram] } else { Vec::new() },")]),
    ("pn-inners-drain", "C28", [(AG, MERGE, MERGE.replace("            true\n", "            self.inners.retain(|h| h.count() > 0);\n            true\n"))]),
    ("pn-quantile-nan", "C28 C08 C21", [(QN, "0.0 <= quantile && quantile <= 1.0,", "!(quantile < 0.0) && !(quantile > 1.0),")]),
    ("pn-bucket-nan", "C28 C17 C08", [(BK, "        track_assert!(!upper_bound.is_nan(), ErrorKind::InvalidInput);\n", "")]),
    ("pn-samples-nan", "C28 C21", [(S, "filter(|v| !v.is_nan())", "filter(|v| *v >= 0.0 || !(*v > 0.0))")]),
    ("pn-index-count", "C28 C21", [(AG, "let index = cmp::min(count - 1, (quantile.as_f64() * count as f64).floor() as usize);", "let index = cmp::min(count, (quantile.as_f64() * count as f64).floor() as usize);")]),
    ("pn-empty-underflow-index", "C28 C21", [(AG, """        if aggregated_samples.is_empty() {
            return Vec::new();
        }
        let count = aggregated_samples.len();
""", """        let count = aggregated_samples.len();
""")]),
    ("pn-gather-unwrap", "C28", [(RG, "            if !families.last().map_or(false, |f| f.same_family(&metric)) {\n                families.push(MetricFamily::new(metric));\n            } else {", "            if families.last().map_or(false, |f| !f.same_family(&metric)) {\n                families.push(MetricFamily::new(metric));\n            } else {")]),
    ("pn-help-first", "C28", [(MT, "            for c in help.chars() {", "            debug_first(help);\n            for c in help.chars() {"), (MT, "impl fmt::Display for MetricFamily {", "fn debug_first(help: &str) -> char {\n    help.chars().next().unwrap()\n}\nimpl fmt::Display for MetricFamily {")]),
    ("pn-label-get-index", "C28", [(LB, "        self.iter().find(|l| l.name() == name)\n", "        for i in 0..self.len() {\n            let labels = self.iter().collect::<Vec<_>>();\n            if labels[i].name() == name {\n                return Some(labels[i]);\n            }\n        }\n        None\n")]),
    ("pn-labels-first", "C28", [(LB, """        for (i, label) in self.iter().enumerate() {
            if i != 0 {
                write!(f, ",")?;
            }
            write!(f, "{}", label)?;
        }
""", """        let labels = self.iter().collect::<Vec<_>>();
        write!(f, "{}", labels[0])?;
        for label in &labels[1..] {
            write!(f, ",{}", label)?;
        }
""")]),
    ("pn-name-empty", "C28 C07", [(LB, "        track_assert!(!name.is_empty(), ErrorKind::InvalidInput);\n", "")]),
    ("pn-help-trim", "C28", [(MT, "        self.help.as_ref().map(|h| h.as_ref())\n", "        self.help.as_ref().map(|h| if h.len() > 1024 { &h[..1024] } else { &h[..] })\n")]),
    ("pn-default-poison", "C28", [(RG, """    match default_gatherer().lock() {
        Ok(gatherer) => gatherer.registry(),
        Err(poisoned) => poisoned.into_inner().registry(),
    }
""", "    default_gatherer().lock().unwrap().registry()\n")]),
    ("pn-last-index", "C28", [(H, "        self.0.buckets.get(i).map(|b| b.increment());", "        self.0.buckets[i + 1 - 1].increment();\n        let _ = &self.0.buckets[i + 1];")]),
    ("pn-send-unwrap", "C28", [(RG, "        let _ = self.tx.send(Collector(Box::new(f)));\n", "        self.tx.send(Collector(Box::new(f))).ok().expect(\"gatherer is gone\");\n")]),
    ("pn-get-or-sort", "C28 C21", [(S, "samples.sort_by(|a, b| a.partial_cmp(b).expect(\"Never fails\"));", "samples.sort_by(|a, b| (a - b).partial_cmp(&0.0).expect(\"Never fails\"));")]),
    # ---- keep the behaviour
    ("pn-ok-first-assert", "", [(AG, "    pub fn timestamp(&self) -> Timestamp {\n        Timestamp::from_value(\n            self.inners\n                .iter()\n                .map(|h| h.timestamp().get())\n                .max()\n                .and_then(|t| t),\n        )\n    }\n\n    /// Returns the cumulative",
        "    pub fn timestamp(&self) -> Timestamp {\n        assert!(!self.inners.is_empty());\n        Timestamp::from_value(\n            self.inners\n                .iter()\n                .map(|h| h.timestamp().get())\n                .max()\n                .unwrap(),\n        )\n    }\n\n    /// Returns the cumulative")]),
    ("pn-ok-first", "", [(AG, "        self.inners[0].metric_name()\n", "        self.inners.first().expect(\"never empty\").metric_name()\n")]),
    ("pn-ok-swap-remove-stmt", "", [(BK, LOOP1, """            let bound = self.iters[i].peek().map(|b| b.upper_bound());
            match bound {
                None => {
                    self.iters.swap_remove(i);
                }
                Some(bound) => {
                    min = min.min(bound);
                    i += 1;
                }
            }
""")]),
    ("pn-ok-merge-remove", "", [(BK, LOOP1, LOOP1.replace("let _ = self.iters.swap_remove(i);", "self.iters.remove(i);"))]),
    ("pn-ok-merge-if-let", "", [(BK, """            let upper_bound = buckets.peek().expect("Never fails").upper_bound();
            if upper_bound == min {
                let bucket = buckets.next().expect("Never fails");
                self.cumulative_count += bucket.count();
            }
""", """            if buckets.peek().map_or(false, |b| b.upper_bound() == min) {
                if let Some(bucket) = buckets.next() {
                    self.cumulative_count += bucket.count();
                }
            }
""")]),
    ("pn-ok-lock-unwrap", "", [(S, """        if let Ok(mut samples) = self.0.samples.lock() {
            while""", """        if let Ok(mut samples) = Ok::<_, ()>(self.0.samples.lock().unwrap()) {
            while""")]),
    ("pn-ok-as-str", "", [(LB, "        &self.value\n", "        &self.value[..]\n")]),
    ("pn-ok-label-split", "", [(LB, ESC, ESC.replace("self.value.chars()", "self.value[0..].chars()"))]),
    ("pn-ok-quantile-match", "", [(QN, "        self.partial_cmp(other).expect(\"Never fails\")\n", "        match self.0.partial_cmp(&other.0) {\n            Some(o) => o,\n            None => unreachable!(),\n        }\n")]),
    ("pn-ok-last-mut", "", [(RG, "                families.last_mut().unwrap().push(metric);", "                let n = families.len();\n                families[n - 1].push(metric);")]),
    ("pn-ok-labels-split-first", "", [(LB, """        for (i, label) in self.iter().enumerate() {
            if i != 0 {
                write!(f, ",")?;
            }
            write!(f, "{}", label)?;
        }
""", """        let labels = self.iter().collect::<Vec<_>>();
        for i in 0..labels.len() {
            if i != 0 {
                write!(f, ",")?;
            }
            write!(f, "{}", labels[i])?;
        }
""")]),
]
