"""More edits: buckets (C17, C18, C19)."""
from mutants import C, G, H, S, A, RG, LB, MT, AG, BK, TS, QN, PR, MB

OBS = """        let i = self
            .0
            .buckets
            .binary_search_by(|b| b.upper_bound().partial_cmp(&value).expect("Never fails"))
            .unwrap_or_else(|i| i);
        self.0.buckets.get(i).map(|b| b.increment());
"""
SORT = """        buckets.sort_by(|a, b| {
            a.upper_bound()
                .partial_cmp(&b.upper_bound())
                .expect("Never fails")
        });
"""
DEDUP = """        buckets.dedup_by(|a, b| a.upper_bound() == b.upper_bound());
"""
CUM = """        self.iter.next().map(|b| {
            self.cumulative_count += b.count();
            CumulativeBucket {
                cumulative_count: self.cumulative_count,
                upper_bound: b.upper_bound(),
            }
        })
"""
MIN = """            if let Some(bound) = self.iters[i].peek().map(|b| b.upper_bound()) {
                if bound < min {
                    min = bound;
                }
                i += 1;
            } else {
                let _ = self.iters.swap_remove(i);
            }
"""
ADD = """        for buckets in &mut self.iters {
            let upper_bound = buckets.peek().expect("Never fails").upper_bound();
            if upper_bound == min {
                let bucket = buckets.next().expect("Never fails");
                self.cumulative_count += bucket.count();
            }
        }
"""
LIN = """        for x in (0..count).map(|i| start + i as f64 * width) {
            this.bucket(x);
        }
"""

ALL = [
    # ---- C17
    ("obs-off-by-one-ok", "C17", [(H, ".unwrap_or_else(|i| i);", ".map(|i| i + 1).unwrap_or_else(|i| i);")]),
    ("obs-get-next", "C17", [(H, "self.0.buckets.get(i).map", "self.0.buckets.get(i + 1).map")]),
    ("obs-err-minus", "C17", [(H, ".unwrap_or_else(|i| i);", ".unwrap_or_else(|i| i.saturating_sub(1));")]),
    ("obs-only-exact", "C17", [(H, OBS, OBS.replace(".unwrap_or_else(|i| i);", ".ok();").replace("self.0.buckets.get(i).map(|b| b.increment());", "i.map(|i| self.0.buckets[i].increment());"))]),
    ("obs-strict", "C17", [(H, OBS, "        if let Some(b) = self.0.buckets.iter().find(|b| value < b.upper_bound()) { b.increment(); }\n")]),
    ("obs-strict-inf-too", "C17", [(H, OBS, "        if let Some(b) = self.0.buckets.iter().find(|b| value < b.upper_bound()).or_else(|| self.0.buckets.last()) { b.increment(); }\n")]),
    ("obs-all-following", "C17", [(H, OBS, "        for b in self.0.buckets.iter().filter(|b| value <= b.upper_bound()) { b.increment(); }\n")]),
    ("obs-last-match", "C17", [(H, OBS, "        if let Some(b) = self.0.buckets.iter().rev().find(|b| value <= b.upper_bound()) { b.increment(); }\n")]),
    ("obs-twice-inf", "C17", [(H, OBS, OBS + "        if value.is_infinite() { self.0.buckets.last().map(|b| b.increment()); }\n")]),
    ("obs-infinite-early", "C17", [(H, OBS, "        if value.is_infinite() { self.0.buckets.last().map(|b| b.increment()); self.0.sum.add(value); return; }\n" + OBS)]),
    ("obs-negative-first", "C17", [(H, OBS, "        if value < 0.0 { self.0.buckets[0].increment(); self.0.sum.add(value); return; }\n" + OBS)]),
    ("obs-skip-zero", "C17", [(H, OBS, "        if value == 0.0 { return; }\n" + OBS)]),
    ("obs-eps", "C17", [(H, OBS, "        if let Some(b) = self.0.buckets.iter().find(|b| value <= b.upper_bound() + std::f64::EPSILON) { b.increment(); }\n")]),
    ("obs-pp-wrong", "C17", [(H, OBS, "        let i = self.0.buckets.partition_point(|b| b.upper_bound() <= value);\n        self.0.buckets.get(i).map(|b| b.increment());\n")]),
    ("bucket-inc-two", "C17", [(BK, "self.count.inc();", "self.count.add(2);")]),
    ("no-sort", "C17", [(H, SORT, "")]),
    ("sort-desc", "C17", [(H, SORT, SORT.replace("a.upper_bound()", "b.upper_bound()", 1).replace(".partial_cmp(&b.", ".partial_cmp(&a."))]),
    ("no-dedup", "C17", [(H, DEDUP, "")]),
    ("dedup-first", "C17", [(H, DEDUP, ""), (H, SORT, DEDUP + SORT)]),
    ("dedup-eps", "C17", [(H, DEDUP, "        buckets.dedup_by(|a, b| (a.upper_bound() - b.upper_bound()).abs() < std::f64::EPSILON);\n")]),
    ("dedup-trunc", "C17", [(H, DEDUP, "        buckets.dedup_by(|a, b| a.upper_bound() as i64 == b.upper_bound() as i64);\n")]),
    ("finish-skip-negative", "C17", [(H, ".map(|upper_bound| track!(Bucket::new(*upper_bound)))", ".filter(|b| **b >= 0.0).map(|upper_bound| track!(Bucket::new(*upper_bound)))")]),
    ("finish-skip-inf", "C17", [(H, ".map(|upper_bound| track!(Bucket::new(*upper_bound)))", ".filter(|b| b.is_finite()).map(|upper_bound| track!(Bucket::new(*upper_bound)))")]),
    ("finish-skip-first", "C17", [(H, ".map(|upper_bound| track!(Bucket::new(*upper_bound)))", ".skip(1).map(|upper_bound| track!(Bucket::new(*upper_bound)))")]),
    ("no-inf-new", "C17", [(H, "vec![std::f64::INFINITY]", "Vec::new()")]),
    ("inf-is-max", "C17", [(H, "vec![std::f64::INFINITY]", "vec![std::f64::MAX]")]),
    ("linear-clears", "C17", [(H, "let mut this = Self::new(name);\n" + LIN, "let mut this = Self::new(name);\n        this.bucket_upper_bounds.clear();\n" + LIN)]),
    ("buckets-replaces", "C17", [(H, """        self.bucket_upper_bounds
            .append(&mut upper_bounds.into_iter().collect::<Vec<_>>());
""", "        self.bucket_upper_bounds = upper_bounds.into_iter().collect();\n")]),
    ("bucket-retains", "C17", [(H, "self.bucket_upper_bounds.push(upper_bound);", "self.bucket_upper_bounds.retain(|b| *b < upper_bound);\n        self.bucket_upper_bounds.push(upper_bound);")]),
    ("bucket-count-starts", "C17", [(BK, "count: AtomicU64::new(0),", "count: AtomicU64::new(1),")]),
    ("benign-obs-find", "", [(H, OBS, "        if let Some(b) = self.0.buckets.iter().find(|b| value <= b.upper_bound()) { b.increment(); }\n")]),
    ("benign-obs-helper", "", [(H, OBS, "        if let Some(b) = self.bucket_for(value) { b.increment(); }\n"), (H, "    /// Measures the exeuction", "    fn bucket_for(&self, value: f64) -> Option<&Bucket> {\n        self.buckets().iter().find(|b| b.upper_bound() >= value)\n    }\n\n    /// Measures the exeuction")]),
    ("benign-obs-match", "", [(H, OBS, """        let r = self.0.buckets.binary_search_by(|b| b.upper_bound().partial_cmp(&value).expect("Never fails"));
        let i = match r { Ok(i) | Err(i) => i };
        if i < self.0.buckets.len() { self.0.buckets[i].increment(); }
""")]),
    ("benign-obs-index", "", [(H, "self.0.buckets.get(i).map(|b| b.increment());", "self.0.buckets[i].increment();")]),
    ("benign-obs-sum-first", "", [(H, OBS, "        self.0.sum.add(value);\n" + OBS), (H, "b.increment());\n        self.0.sum.add(value);", "b.increment());")]),
    ("benign-obs-for", "", [(H, OBS, "        for b in self.0.buckets.iter() {\n            if value <= b.upper_bound() {\n                b.increment();\n                break;\n            }\n        }\n")]),
    ("benign-obs-while", "", [(H, OBS, "        let mut i = 0;\n        while i < self.0.buckets.len() && self.0.buckets[i].upper_bound() < value { i += 1; }\n        self.0.buckets.get(i).map(|b| b.increment());\n")]),
    ("benign-obs-total-cmp", "", [(H, "b.upper_bound().partial_cmp(&value).expect(\"Never fails\")", "if b.upper_bound() < value { std::cmp::Ordering::Less } else if b.upper_bound() == value { std::cmp::Ordering::Equal } else { std::cmp::Ordering::Greater }")]),
    ("benign-dedup-key", "", [(H, DEDUP, "        buckets.dedup_by(|a, b| b.upper_bound() == a.upper_bound());\n")]),
    ("benign-sort-unstable", "", [(H, "buckets.sort_by(", "buckets.sort_unstable_by(")]),
    ("benign-sort-bounds-first", "", [(H, "        let mut buckets = track!(self\n", "        let bs = self.bucket_upper_bounds.clone();\n        let mut buckets = track!(bs\n"), (H, "            .bucket_upper_bounds\n            .iter()\n            .map(|upper", "            .iter()\n            .map(|upper")]),
    ("benign-finish-for", "", [(H, """        let mut buckets = track!(self
            .bucket_upper_bounds
            .iter()
            .map(|upper_bound| track!(Bucket::new(*upper_bound)))
            .collect::<Result<Vec<_>>>())?;
""", """        let mut buckets = Vec::with_capacity(self.bucket_upper_bounds.len());
        for &upper_bound in &self.bucket_upper_bounds {
            buckets.push(track!(Bucket::new(upper_bound))?);
        }
""")]),
    ("benign-buckets-extend", "", [(H, """        self.bucket_upper_bounds
            .append(&mut upper_bounds.into_iter().collect::<Vec<_>>());
""", "        self.bucket_upper_bounds.extend(upper_bounds);\n")]),
    ("benign-linear-for", "", [(H, LIN, "        for i in 0..count {\n            let x = start + i as f64 * width;\n            this.bucket(x);\n        }\n")]),
    ("benign-linear-buckets", "", [(H, LIN, "        this.buckets((0..count).map(|i| start + i as f64 * width));\n")]),
    ("benign-inf-at-finish", "", [(H, "vec![std::f64::INFINITY]", "Vec::new()"), (H, "        let mut buckets = track!(self\n            .bucket_upper_bounds\n            .iter()\n            .map(|upper", "        let mut bs = self.bucket_upper_bounds.clone();\n        bs.push(std::f64::INFINITY);\n        let mut buckets = track!(bs\n            .iter()\n            .map(|upper")]),
    # ---- C18
    ("cum-not-added", "C18", [(BK, "self.cumulative_count += b.count();", "self.cumulative_count = b.count();")]),
    ("cum-before", "C18", [(BK, CUM, CUM.replace("            self.cumulative_count += b.count();\n", "            let c = self.cumulative_count;\n            self.cumulative_count += b.count();\n").replace("cumulative_count: self.cumulative_count", "cumulative_count: c"))]),
    ("cum-start-one", "C18", [(BK, "        CumulativeBuckets {\n            cumulative_count: 0,", "        CumulativeBuckets {\n            cumulative_count: 1,")]),
    ("cum-start-total", "C18", [(BK, "        CumulativeBuckets {\n            cumulative_count: 0,\n            iter: buckets.iter(),", "        CumulativeBuckets {\n            cumulative_count: buckets.first().map(|b| b.count()).unwrap_or(0),\n            iter: buckets.iter(),")]),
    ("cum-skip-empty", "C18", [(BK, "self.iter.next().map(|b| {", "self.iter.by_ref().find(|b| b.count() > 0).map(|b| {")]),
    ("cum-stop-empty", "C18", [(BK, "self.iter.next().map(|b| {", "self.iter.next().filter(|b| b.count() < 1 << 60).map(|b| {")]),
    ("cum-skip-first", "C18", [(BK, "            iter: buckets.iter(),", "            iter: buckets[1..].iter(),")]),
    ("cum-reverse-bound", "C18", [(BK, "                upper_bound: b.upper_bound(),\n            }\n        })", "                upper_bound: b.upper_bound().abs(),\n            }\n        })")]),
    ("hist-count-reread", "C18", [(H, """            self.metric_name(),
            labels,
            count,
""", """            self.metric_name(),
            labels,
            self.count(),
""")]),
    ("agg-count-reread", "C18", [(AG, """            self.metric_name(),
            labels,
            count,
""", """            self.metric_name(),
            labels,
            self.count(),
""")]),
    ("hist-line-plain", "C18", [(H, "            writeln!(f, \"}} {}{}\", count, timestamp)?;", "            writeln!(f, \"}} {}{}\", bucket.cumulative_count().min(self.count()), timestamp)?;")]),
    ("agg-cum-reset", "C18 C19", [(BK, "        let mut min = std::f64::INFINITY;", "        self.cumulative_count = 0;\n        let mut min = std::f64::INFINITY;")]),
    ("agg-cum-set", "C18 C19", [(BK, "self.cumulative_count += bucket.count();", "self.cumulative_count = bucket.count();")]),
    ("agg-cum-local", "C18", [(BK, "        Some(CumulativeBucket {\n            cumulative_count: self.cumulative_count,\n            upper_bound: min,\n        })", "        let r = CumulativeBucket {\n            cumulative_count: self.cumulative_count,\n            upper_bound: min,\n        };\n        if min < 0.0 { self.cumulative_count = 0; }\n        Some(r)")]),
    ("benign-cum-match", "", [(BK, CUM, """        match self.iter.next() {
            Some(b) => {
                let n = self.cumulative_count + b.count();
                self.cumulative_count = n;
                Some(CumulativeBucket { cumulative_count: n, upper_bound: b.upper_bound() })
            }
            None => None,
        }
""")]),
    ("benign-cum-question", "", [(BK, CUM, """        let b = self.iter.next()?;
        self.cumulative_count += b.count();
        Some(CumulativeBucket { upper_bound: b.upper_bound(), cumulative_count: self.cumulative_count })
""")]),
    ("benign-cum-index", "", [(BK, "    iter: slice::Iter<'a, Bucket>,\n}\nimpl<'a> CumulativeBuckets", "    index: usize,\n    buckets: &'a [Bucket],\n}\nimpl<'a> CumulativeBuckets"), (BK, "            iter: buckets.iter(),", "            index: 0,\n            buckets,"),
        (BK, "self.iter.next().map(|b| {", "let i = self.index;\n        self.buckets.get(i).map(|b| {\n            self.index += 1;")]),
    ("benign-count-of-last", "", [(H, "        let mut count = 0;\n        for bucket in self.cumulative_buckets() {\n            count = bucket.cumulative_count();", "        let mut count = 0u64;\n        for bucket in self.cumulative_buckets() {\n            let n = bucket.cumulative_count();\n            count = n;")]),
    # ---- C19
    ("merge-le-min", "", [(BK, "if bound < min {", "if bound <= min {")]),
    ("merge-gt-min", "C19", [(BK, "if bound < min {", "if bound > min {")]),
    ("merge-min-zero", "C19", [(BK, "let mut min = std::f64::INFINITY;", "let mut min = 0.0;")]),
    ("merge-min-max", "C19", [(BK, "let mut min = std::f64::INFINITY;", "let mut min = std::f64::MAX;")]),
    ("merge-remove-skip", "C19", [(BK, "let _ = self.iters.swap_remove(i);", "let _ = self.iters.swap_remove(i);\n                i += 1;")]),
    ("merge-remove-live", "C19", [(BK, MIN, """            if let Some(bound) = self.iters[i].peek().map(|b| b.upper_bound()) {
                if bound < min {
                    min = bound;
                }
                i += 1;
                if bound == std::f64::INFINITY && i < self.iters.len() { let _ = self.iters.swap_remove(i); }
            } else {
                let _ = self.iters.swap_remove(i);
            }
""")]),
    ("merge-eps", "C19", [(BK, "if upper_bound == min {", "if (upper_bound - min).abs() < std::f64::EPSILON || upper_bound == min {")]),
    ("merge-first-only", "C19", [(BK, "                self.cumulative_count += bucket.count();\n            }", "                self.cumulative_count += bucket.count();\n                break;\n            }")]),
    ("merge-count-twice", "C19", [(BK, "self.cumulative_count += bucket.count();", "self.cumulative_count += bucket.count() * 2;")]),
    ("merge-next-dropped", "C19", [(BK, "self.cumulative_count += bucket.count();", "if bucket.count() > 1 { self.cumulative_count += bucket.count(); }")]),
    ("merge-peek-not-next", "C19", [(BK, "let bucket = buckets.next().expect(\"Never fails\");", "let bucket = *buckets.peek().expect(\"Never fails\");")]),
    ("merge-end-early", "C19", [(BK, "if self.iters.is_empty() {\n", "if self.iters.len() < 2 {\n")]),
    ("merge-end-inf", "C19", [(BK, "if self.iters.is_empty() {\n", "if self.iters.is_empty() || min == std::f64::INFINITY && self.iters.len() > 1 {\n")]),
    ("merge-skip-source", "C19", [(BK, "                .iter()\n                .map(|h| h.buckets().iter().peekable())", "                .iter()\n                .skip(1)\n                .map(|h| h.buckets().iter().peekable())")]),
    ("merge-source-filter", "C19", [(BK, "                .map(|h| h.buckets().iter().peekable())", "                .filter(|h| h.count() > 0)\n                .map(|h| h.buckets().iter().peekable())")]),
    ("merge-second-skip", "C19", [(BK, "for buckets in &mut self.iters {", "for buckets in self.iters.iter_mut().skip(1) {")]),
    ("merge-adv-other", "C19", [(BK, "            if upper_bound == min {\n                let bucket", "            if upper_bound <= min + 1.0 {\n                let bucket")]),
    ("merge-start-count", "C19", [(BK, "            cumulative_count: 0,\n            iters", "            cumulative_count: histograms.len() as u64,\n            iters")]),
    ("benign-merge-index", "", [(BK, ADD, """        for i in 0..self.iters.len() {
            let upper_bound = self.iters[i].peek().expect("Never fails").upper_bound();
            if upper_bound == min {
                let bucket = self.iters[i].next().expect("Never fails");
                self.cumulative_count += bucket.count();
            }
        }
""")]),
    ("benign-merge-local", "", [(BK, ADD, ADD.replace("self.cumulative_count +=", "total +=").replace("        for b", "        let mut total = self.cumulative_count;\n        for b") + "        self.cumulative_count = total;\n")]),
    ("benign-merge-remove", "", [(BK, "swap_remove(i)", "remove(i)")]),
    ("benign-merge-le", "", [(BK, "if upper_bound == min {", "if upper_bound <= min {")]),
    ("benign-merge-match", "", [(BK, MIN, """            let head = self.iters[i].peek().map(|b| b.upper_bound());
            match head {
                None => { self.iters.swap_remove(i); }
                Some(bound) => {
                    min = if bound < min { bound } else { min };
                    i += 1;
                }
            }
""")]),
    ("benign-merge-fmin", "", [(BK, """                if bound < min {
                    min = bound;
                }
""", "                min = min.min(bound);\n")]),
    ("benign-merge-iflet", "", [(BK, ADD, """        for buckets in self.iters.iter_mut() {
            let due = buckets.peek().map_or(false, |b| b.upper_bound() == min);
            if due {
                if let Some(bucket) = buckets.next() {
                    self.cumulative_count += bucket.count();
                }
            }
        }
""")]),
    ("benign-merge-retain", "", [(BK, """        let mut min = std::f64::INFINITY;
        let mut i = 0;
        while i < self.iters.len() {
""" + MIN + """        }
        if self.iters.is_empty() {
            return None;
        }
""", """        self.iters.retain(|i| i.clone().peek().is_some());
        if self.iters.is_empty() {
            return None;
        }
        let mut min = std::f64::INFINITY;
        for i in self.iters.iter_mut() {
            if let Some(b) = i.peek() { if b.upper_bound() < min { min = b.upper_bound(); } }
        }
""")]),
    ("benign-merge-helper", "", [(BK, ADD, """        self.advance(min);
"""), (BK, "/// An iterator which iterates cumulative buckets in an aggregation of histograms.", """impl<'a> AggregatedCumulativeBuckets<'a> {
    fn advance(&mut self, min: f64) {
""" + ADD + """    }
}

/// An iterator which iterates cumulative buckets in an aggregation of histograms.""")]),
]
