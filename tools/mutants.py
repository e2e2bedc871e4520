"""Edits for tools/mutate.py: (name, properties one of which must speak ('' = the edit keeps the behaviour), [(file, old, new)])."""
C, G, H, S = ["src/metrics/%s.rs" % x for x in ("counter", "gauge", "histogram", "summary")]
A, RG, LB, MT, AG, BK, TS, QN, PR, MB = ["src/%s.rs" % x for x in ("atomic", "registry", "label", "metric", "aggregated_metrics", "bucket", "timestamp", "quantile", "metrics/process", "metrics/builder")]

ALL = [
    # ---- C01
    ("u64-add-load-store", "C01", [(A, "self.0.fetch_add(v, Relaxed);", "let o = self.0.load(Relaxed); self.0.store(o + v, Relaxed);")]),
    ("f64-cas-no-retry", "C01", [(A, """let new = f(f64::from_bits(old)).to_bits();
            match self.0.compare_exchange_weak(old, new, Relaxed, Relaxed) {
                Ok(_) => break,
                Err(v) => old = v, // try again
            }""", """let new = f(f64::from_bits(old)).to_bits();
            match self.0.compare_exchange(old, new, Relaxed, Relaxed) {
                Ok(_) => break,
                Err(v) => { old = v; if old == new { break } }
            }""")]),
    ("f64-add-get-set", "C01", [(A, "self.update(|old| old + v);", "self.set(self.get() + v);")]),
    ("gauge-decrement-set", "C01", [(G, "self.add(-1.0);", "self.set(self.value() - 1.0);")]),
    ("f64-new-from-reload", "C01", [(A, "let new = f(f64::from_bits(old)).to_bits();", "let new = f(f64::from_bits(self.0.load(Relaxed))).to_bits();")]),
    # ---- C02
    ("counter-no-nan-check", "C02", [(C, "track_assert!(count >= 0.0,", "track_assert!(!(count < 0.0),")]),
    ("counter-add-before-check", "C02", [(C, "track_assert!(count >= 0.0, ErrorKind::InvalidInput, \"count={}\", count);\n        self.0.value.add(count);", "self.0.value.add(count);\n        track_assert!(count >= 0.0, ErrorKind::InvalidInput, \"count={}\", count);")]),
    ("counter-gt-zero", "C02", [(C, "track_assert!(count >= 0.0,", "track_assert!(count > 0.0,")]),
    # ---- C03
    ("counter-floor-only", "C03", [(C, "if floor == ceil && count < 18_446_744_073_709_551_616.0 {", "if count < 18_446_744_073_709_551_616.0 {")]),
    ("counter-value-forgets", "C03", [(C, "self.f64.get() + self.u64.get() as f64", "(self.f64.get() as u64 + self.u64.get()) as f64")]),
    ("gauge-subtract-add", "C03", [(G, "self.add(-count);", "if count < 1e300 { self.add(-count) } else { self.add(count) };")]),
    ("hist-sum-skip-zero-bucket", "C03 C17", [(H, "self.0.buckets.get(i).map(|b| b.increment());\n        self.0.sum.add(value);", "if let Some(b) = self.0.buckets.get(i) { b.increment(); if b.upper_bound().is_finite() { self.0.sum.add(value); } }")]),
    ("summary-count-finite", "C03", [(S, "self.0.count.inc();", "if value.is_finite() { self.0.count.inc(); }")]),
    # ---- C05
    ("finish-first-only", "C05", [(C, "for r in &self.registries {", "for r in self.registries.iter().take(1) {")]),
    ("finish-dup", "C05", [(G, "r.register(gauge.collector());", "r.register(gauge.collector()); if gauge.labels().is_empty() { r.register(gauge.collector()); }")]),
    ("gather-drain-once", "C05", [(RG, "while let Ok(collector) = self.rx.try_recv() {", "if let Ok(collector) = self.rx.try_recv() {")]),
    ("gather-skip-after-remove", "C05 C06", [(RG, "self.collectors.swap_remove(i);", "self.collectors.swap_remove(i);\n                i += 1;")]),
    ("gather-drain-after", "C05", [(RG, """        while let Ok(collector) = self.rx.try_recv() {
            self.collectors.push(collector);
        }

        let mut metrics = Vec::new();
        let mut i = 0;""", """        let mut metrics = Vec::new();
        let mut i = 0;"""), (RG, "        // The labels may be", """        while let Ok(collector) = self.rx.try_recv() {
            self.collectors.push(collector);
        }
        // The labels may be""")]),
    ("register-first-metric", "C05", [(RG, "metrics.extend(m);", "metrics.extend(m.take(1));")]),
    ("finish-early-register", "C05", [(H, "        let mut buckets = track!(self", "        let mut _n = 0; for r in &self.registries { _n += 1; if _n > 1 { r.register(Counter0); } }\n        let mut buckets = track!(self"), (H, "#[derive(Debug)]\nstruct Inner {", "struct Counter0;\nimpl Collect for Counter0 { type Metrics = iter::Empty<Metric>; fn collect(&mut self) -> Option<Self::Metrics> { None } }\n#[derive(Debug)]\nstruct Inner {")]),
    ("default-registry-new", "C05", [(RG, "Err(poisoned) => poisoned.into_inner().registry(),", "Err(_) => Gatherer::new().registry(),")]),
    ("builder-registry-replaces", "C05", [(S, "self.registries.push(registry);", "self.registries = vec![registry];")]),
    ("gather-remove-when-empty", "C06 C05", [(RG, "if let Some(m) = collector.collect() {\n                metrics.extend(m);\n                true", "if let Some(m) = collector.collect() {\n                let n = metrics.len();\n                metrics.extend(m);\n                metrics.len() > n")]),
    # ---- C06
    ("collector-strong", "C06", [(C, "pub struct CounterCollector(Weak<Inner>);", "pub struct CounterCollector(Weak<Inner>, Option<Arc<Inner>>);"), (C, "CounterCollector(Arc::downgrade(&self.0))", "CounterCollector(Arc::downgrade(&self.0), if self.labels().len() > 3 { Some(self.0.clone()) } else { None })")]),
    ("remove-last", "C06", [(RG, "self.collectors.swap_remove(i);", "self.collectors.pop();")]),
    ("collector-once-empty", "C06 C05", [(RG, "                false\n", "                true\n")]),
    # ---- behaviour-preserving edits
    ("ok-finish-for-each", "", [(C, """        for r in &self.registries {
            r.register(counter.collector());
        }""", """        self.registries
            .iter()
            .for_each(|r| r.register(counter.collector()));""")]),
    ("ok-finish-helper", "", [(G, """        for r in &self.registries {
            r.register(gauge.collector());
        }
        Ok(gauge)
    }""", """        self.register_all(&gauge);
        Ok(gauge)
    }
    fn register_all(&self, gauge: &Gauge) {
        for i in 0..self.registries.len() {
            let registry = &self.registries[i];
            registry.register(gauge.collector());
        }
    }""")]),
    ("ok-finish-early-empty", "", [(S, "        for r in &self.registries {", "        if self.registries.is_empty() {\n            return Ok(summary);\n        }\n        for r in &self.registries {")]),
    ("ok-gather-try-iter", "", [(RG, """        while let Ok(collector) = self.rx.try_recv() {
            self.collectors.push(collector);
        }
""", """        let pending = self.rx.try_iter().collect::<Vec<_>>();
        self.collectors.extend(pending);
""")]),
    ("ok-gather-extend", "", [(RG, """        while let Ok(collector) = self.rx.try_recv() {
            self.collectors.push(collector);
        }
""", """        loop {
            match self.rx.try_recv() {
                Ok(c) => self.collectors.push(c),
                Err(_) => break,
            }
        }
""")]),
    ("ok-gather-retain", "", [(RG, """        let mut i = 0;
        while i < self.collectors.len() {
            if self.collectors[i].collect(&mut metrics) {
                i += 1;
            } else {
                self.collectors.swap_remove(i);
            }
        }
""", """        self.collectors.retain_mut(|c| c.collect(&mut metrics));
""")]),
    ("ok-gather-helper", "", [(RG, """        let mut i = 0;
        while i < self.collectors.len() {
            if self.collectors[i].collect(&mut metrics) {
                i += 1;
            } else {
                self.collectors.swap_remove(i);
            }
        }
""", """        self.collect_all(&mut metrics);
"""), (RG, "impl Default for Gatherer {", """impl Gatherer {
    fn collect_all(&mut self, out: &mut Vec<Metric>) {
        let mut next = 0;
        while next != self.collectors.len() {
            let alive = self.collectors[next].collect(out);
            if !alive {
                let _ = self.collectors.remove(next);
                continue;
            }
            next += 1;
        }
    }
}
impl Default for Gatherer {""")]),
    ("ok-collect-match", "", [(C, """        self.0
            .upgrade()
            .map(|inner| iter::once(Metric::Counter(Counter(inner))))""", """        match self.0.upgrade() {
            Some(inner) => {
                let counter = Counter(inner);
                Some(iter::once(counter.into()))
            }
            None => None,
        }""")]),
    ("ok-counter-add", "", [(C, """        let floor = count.floor() as u64;
        let ceil = count.ceil() as u64;
        if floor == ceil && count < 18_446_744_073_709_551_616.0 {
            self.u64.add(floor);
        } else {
            self.f64.add(count);
        }""", """        let fits = count < 18_446_744_073_709_551_616.0;
        if !fits || count.fract() != 0.0 {
            self.f64.add(count);
            return;
        }
        self.u64.add(count as u64);""")]),
    ("ok-update-fetch", "", [(A, """        let mut old = self.0.load(Relaxed);
        loop {
            let new = f(f64::from_bits(old)).to_bits();
            match self.0.compare_exchange_weak(old, new, Relaxed, Relaxed) {
                Ok(_) => break,
                Err(v) => old = v, // try again
            }
        }""", """        let _ = self
            .0
            .fetch_update(Relaxed, Relaxed, |old| Some(f(f64::from_bits(old)).to_bits()));""")]),
    ("ok-update-reload", "", [(A, """            let new = f(f64::from_bits(old)).to_bits();
            match self.0.compare_exchange_weak(old, new, Relaxed, Relaxed) {
                Ok(_) => break,
                Err(v) => old = v, // try again
            }""", """            let new = f(f64::from_bits(old)).to_bits();
            if self.0.compare_exchange_weak(old, new, Relaxed, Relaxed).is_ok() {
                return;
            }
            old = self.0.load(Relaxed);""")]),

    # ---- C07 / C08
    ("label-first-utf8", "C07", [(LB, "match name.as_bytes()[0] as char {\n            'a'..='z' | 'A'..='Z' | '_' => {}", "match name.chars().next().unwrap() {\n            c if c.is_alphabetic() || c == '_' => {}")]),
    ("label-rest-skip2", "C07", [(LB, "for c in name.chars().skip(1) {", "for c in name.chars().skip(2) {")]),
    ("label-rest-take", "C07", [(LB, "for c in name.chars().skip(1) {", "for c in name.chars().skip(1).take(63) {")]),
    ("label-rest-alnum", "C07", [(LB, "'a'..='z' | 'A'..='Z' | '0'..='9' | '_' => {}", "_ if c.is_alphanumeric() || c == '_' => {}")]),
    ("label-dunder-long-only", "C07", [(LB, "!name.starts_with(\"__\")", "!(name.starts_with(\"__\") && name.len() > 2)")]),
    ("label-dunder-upper", "C07 C08", [(LB, "!name.starts_with(\"__\")", "!name.starts_with(\"_\")")]),
    ("metric-subsystem-unchecked", "C07 C08", [(MT, "track!(Self::validate_name(s), \"{:?}\", s)?;\n        }\n        track!", "if namespace.is_none() { track!(Self::validate_name(s), \"{:?}\", s)?; }\n        }\n        track!")]),
    ("metric-no-colon-later", "C07 C08", [(MT, "'a'..='z' | 'A'..='Z' | '0'..='9' | '_' | ':' => {}", "'a'..='z' | 'A'..='Z' | '0'..='9' | '_' => {}")]),
    ("metric-last-char", "C07 C08", [(MT, "for c in name.chars().skip(1) {", "for c in name[..name.len() - 1].chars().skip(1) {")]),
    ("metric-digit-first-sub", "C07 C08", [(MT, "if let Some(s) = subsystem {\n            track!(Self::validate_name(s)", "if let Some(s) = subsystem {\n            track!(Self::validate_name(s.trim_start_matches('0'))")]),
    ("insert-skips-validation", "C07", [(LB, "let label = track!(Label::new(name, value))?;", "let label = Label { name: name.to_string(), value: value.to_string() };")]),
    ("hist-bucket-nan", "C08", [(BK, "track_assert!(!upper_bound.is_nan(), ErrorKind::InvalidInput);", "track_assert!(upper_bound < std::f64::INFINITY || upper_bound != std::f64::NEG_INFINITY, ErrorKind::InvalidInput);")]),
    ("hist-neg-inf-refused", "C08", [(BK, "track_assert!(!upper_bound.is_nan(), ErrorKind::InvalidInput);", "track_assert!(upper_bound > std::f64::NEG_INFINITY, ErrorKind::InvalidInput);")]),
    ("quantile-open", "C08", [(QN, "0.0 <= quantile && quantile <= 1.0", "0.0 <= quantile && quantile < 1.0")]),
    ("quantile-nan", "C08", [(QN, "0.0 <= quantile && quantile <= 1.0", "!(quantile < 0.0 || quantile > 1.0)")]),
    ("summary-quantiles-filtered", "C08", [(S, ".map(|quantile| track!(Quantile::new(*quantile)))", ".filter(|q| !q.is_nan()).map(|quantile| track!(Quantile::new(*quantile)))")]),
    ("label-first-slice-panic", "C08", [(LB, "match name.as_bytes()[0] as char {", "match name[..1].as_bytes()[0] as char {")]),
    ("label-error-kind", "C08", [(LB, "track_assert!(!name.is_empty(), ErrorKind::InvalidInput);", "track_assert!(!name.is_empty(), ErrorKind::Other);")]),
    # ---- C09
    ("hist-le-trim", "C09", [(H, "track_assert_ne!(name, \"le\", ErrorKind::InvalidInput);", "track_assert!(!(name == \"le\" && value == \"\"), ErrorKind::InvalidInput);")]),
    ("summary-quantile-typo", "C09", [(S, "track_assert_ne!(name, \"quantile\", ErrorKind::InvalidInput);", "track_assert_ne!(name, \"quantiles\", ErrorKind::InvalidInput);")]),
    ("hist-mut-reserved-none", "C09", [(H, "LabelsMut::new(&self.0.labels, Some(\"le\"))", "LabelsMut::new(&self.0.labels, None)")]),
    ("counter-le-refused", "C09", [(C, ".map(|&(ref name, ref value)| track!(Label::new(name, value)))", ".map(|&(ref name, ref value)| { track_assert_ne!(name, \"le\", ErrorKind::InvalidInput); track!(Label::new(name, value)) })")]),
    ("insert-reserved-after", "C09", [(LB, "        track_assert_ne!(\n            self.reserved.map(|s| &*s),\n            Some(name),\n            ErrorKind::InvalidInput\n        );\n        let label = track!(Label::new(name, value))?;", "        let label = track!(Label::new(name, value))?;"), (LB, "            labels.sort();\n            labels\n        });\n        Ok(())", "            labels.sort();\n            labels\n        });\n        track_assert_ne!(\n            self.reserved.map(|s| &*s),\n            Some(name),\n            ErrorKind::InvalidInput\n        );\n        Ok(())")]),
    # ---- C10
    ("insert-keeps-old", "C10", [(LB, "labels.retain(|l| l.name != label.name);", "labels.retain(|l| l.name != label.name || l.value == label.value);")]),
    ("insert-load-store", "C10", [(LB, "        self.inner.update(move |labels| {\n            let mut labels = labels.clone();\n            labels.retain(|l| l.name != label.name);\n            labels.push(label.clone());\n            labels.sort();\n            labels\n        });", "        let mut labels: Vec<Label> = (*self.inner.0.load()).clone();\n        labels.retain(|l| l.name != label.name);\n        labels.push(label);\n        labels.sort();\n        self.inner.0.store(labels);")]),
    ("insert-load-lock-store", "C10", [(LB, "        self.inner.update(move |labels| {\n            let mut labels = labels.clone();\n            labels.retain(|l| l.name != label.name);\n            labels.push(label.clone());\n            labels.sort();\n            labels\n        });", "        let mut labels: Vec<Label> = (*self.inner.0.load()).clone();\n        labels.retain(|l| l.name != label.name);\n        labels.push(label);\n        labels.sort();\n        let _w = self.inner.1.lock().unwrap_or_else(PoisonError::into_inner);\n        self.inner.0.store(labels);")]),
    ("insert-two-locks", "C10", [(LB, "        self.inner.update(move |labels| {\n            let mut labels = labels.clone();\n            labels.retain(|l| l.name != label.name);\n            labels.push(label.clone());\n            labels.sort();\n            labels\n        });", "        let old = {\n            let _w = self.inner.1.lock().unwrap_or_else(PoisonError::into_inner);\n            self.inner.0.load()\n        };\n        self.inner.update(move |_| {\n            let mut labels = (*old).clone();\n            labels.retain(|l| l.name != label.name);\n            labels.push(label.clone());\n            labels.sort();\n            labels\n        });")]),
    ("update-unlocked", "C10", [(LB, "        let _writer = self.1.lock().unwrap_or_else(PoisonError::into_inner);\n        self.0.update(f);\n", "        self.0.update(f);\n")]),
    ("update-guard-underscore", "C10", [(LB, "let _writer = self.1", "let _ = self.1")]),
    ("update-guard-dropped", "C10", [(LB, "        self.0.update(f);\n", "        drop(_writer);\n        self.0.update(f);\n")]),
    ("clear-store-unlocked", "C10", [(LB, "self.inner.update(|_| Vec::new());", "self.inner.0.store(Vec::new());")]),
    ("update-try-lock", "C10", [(LB, "        let _writer = self.1.lock().unwrap_or_else(PoisonError::into_inner);\n        self.0.update(f);\n", "        let _writer = self.1.try_lock();\n        self.0.update(f);\n")]),
    ("update-try-lock-drop", "C10", [(LB, "        let _writer = self.1.lock().unwrap_or_else(PoisonError::into_inner);\n        self.0.update(f);\n", "        if let Ok(_writer) = self.1.try_lock() {\n            self.0.update(f);\n        }\n")]),
    ("benign-lock-in-methods", "", [(LB, "        let _writer = self.1.lock().unwrap_or_else(PoisonError::into_inner);\n        self.0.update(f);\n", "        self.0.update(f);\n"), (LB, "        self.inner.update(move |labels| {\n            let mut labels = labels.clone();\n            labels.retain(|l| l.name != label.name);\n            labels.push(label.clone());\n            labels.sort();\n            labels\n        });", "        let _w = self.inner.1.lock().unwrap_or_else(PoisonError::into_inner);\n        self.inner.update(move |labels| {\n            let mut labels = labels.clone();\n            labels.retain(|l| l.name != label.name);\n            labels.push(label.clone());\n            labels.sort();\n            labels\n        });"), (LB, "        self.inner\n            .update(|labels| labels.iter()", "        let _w = self.inner.1.lock().unwrap_or_else(PoisonError::into_inner);\n        self.inner\n            .update(|labels| labels.iter()"), (LB, "        self.inner.update(|_| Vec::new());", "        let _w = self.inner.1.lock().unwrap_or_else(PoisonError::into_inner);\n        self.inner.update(|_| Vec::new());")]),
    ("benign-load-store-locked", "", [(LB, "        self.inner.update(move |labels| {\n            let mut labels = labels.clone();\n            labels.retain(|l| l.name != label.name);\n            labels.push(label.clone());\n            labels.sort();\n            labels\n        });", "        let _w = self.inner.1.lock().unwrap_or_else(PoisonError::into_inner);\n        let mut labels: Vec<Label> = (*self.inner.0.load()).clone();\n        labels.retain(|l| l.name != label.name);\n        labels.push(label);\n        labels.sort();\n        self.inner.0.store(labels);")]),
    ("benign-clear-store-locked", "", [(LB, "        self.inner.update(|_| Vec::new());", "        let _w = self.inner.1.lock().unwrap_or_else(PoisonError::into_inner);\n        self.inner.0.store(Vec::new());")]),
    ("benign-update-load-store", "", [(LB, "        self.0.update(f);\n", "        let labels = f(&self.0.load());\n        self.0.store(labels);\n")]),
    ("insert-no-sort", "C10", [(LB, "            labels.push(label.clone());\n            labels.sort();\n", "            labels.push(label.clone());\n")]),
    ("remove-prefix", "C10", [(LB, ".filter(|l| l.name != name)", ".filter(|l| !l.name.starts_with(name))")]),
    ("remove-case", "C10", [(LB, ".filter(|l| l.name != name)", ".filter(|l| !l.name.eq_ignore_ascii_case(name))")]),
    ("remove-first-only", "C10", [(LB, ".filter(|l| l.name != name)", ".filter(|l| l.value != name)")]),
    ("clear-noop", "C10", [(LB, "self.inner.update(|_| Vec::new());", "if self.inner.len() < 64 { self.inner.update(|_| Vec::new()); }")]),
    ("builder-label-dup", "C10", [(S, "self.labels.retain(|l| l.0 != name);\n        self.labels.push", "self.labels.retain(|l| l.0 != name || l.1 != value);\n        self.labels.push")]),
    ("builder-label-by-value", "C10", [(G, "self.labels.sort();", "self.labels.sort_by(|a, b| a.1.cmp(&b.1));")]),
    ("finish-labels-skip", "C10", [(C, ".labels\n            .iter()\n            .map(|", ".labels\n            .iter()\n            .take(16)\n            .map(|")]),
    ("labels-get-second-load", "C10", [(LB, "self.iter().find(|l| l.name() == name)", "if self.is_empty() { return None; } self.iter().find(|l| l.name() == name)")]),
    # ---- behaviour kept
    ("benign-label-all", "", [(LB, "        for c in name.chars().skip(1) {\n            match c {\n                'a'..='z' | 'A'..='Z' | '0'..='9' | '_' => {}\n                _ => track_panic!(ErrorKind::InvalidInput),\n            }\n        }\n        Ok(())", "        track_assert!(name.chars().all(|c| c.is_ascii_alphanumeric() || c == '_'), ErrorKind::InvalidInput);\n        Ok(())")]),
    ("benign-label-bytes", "", [(LB, "        for c in name.chars().skip(1) {\n            match c {\n                'a'..='z' | 'A'..='Z' | '0'..='9' | '_' => {}", "        for &c in &name.as_bytes()[1..] {\n            match c {\n                b'a'..=b'z' | b'A'..=b'Z' | b'0'..=b'9' | b'_' => {}")]),
    ("benign-label-chars-next", "", [(LB, "        track_assert!(!name.is_empty(), ErrorKind::InvalidInput);\n        track_assert!(!name.starts_with(\"__\"), ErrorKind::InvalidInput, \"Reserved\");\n        match name.as_bytes()[0] as char {\n            'a'..='z' | 'A'..='Z' | '_' => {}\n            _ => track_panic!(ErrorKind::InvalidInput),\n        }\n        for c in name.chars().skip(1) {", "        track_assert!(!name.starts_with(\"__\"), ErrorKind::InvalidInput, \"Reserved\");\n        let mut cs = name.chars();\n        match cs.next() {\n            Some(c) if c.is_ascii_alphabetic() || c == '_' => {}\n            _ => track_panic!(ErrorKind::InvalidInput),\n        }\n        for c in cs {")]),
    ("benign-label-enumerate", "", [(LB, "        match name.as_bytes()[0] as char {\n            'a'..='z' | 'A'..='Z' | '_' => {}\n            _ => track_panic!(ErrorKind::InvalidInput),\n        }\n        for c in name.chars().skip(1) {\n            match c {\n                'a'..='z' | 'A'..='Z' | '0'..='9' | '_' => {}\n                _ => track_panic!(ErrorKind::InvalidInput),\n            }\n        }", "        for (i, c) in name.chars().enumerate() {\n            match c {\n                'a'..='z' | 'A'..='Z' | '_' => {}\n                '0'..='9' if i > 0 => {}\n                _ => track_panic!(ErrorKind::InvalidInput),\n            }\n        }")]),
    ("benign-metric-helper", "", [(MT, "    fn validate_name(name: &str) -> Result<()> {", "    fn is_start(c: char) -> bool {\n        c.is_ascii_alphabetic() || c == '_' || c == ':'\n    }\n    fn validate_name(name: &str) -> Result<()> {"), (MT, "        match name.as_bytes()[0] as char {\n            'a'..='z' | 'A'..='Z' | '_' | ':' => {}\n            _ => track_panic!(ErrorKind::InvalidInput),\n        }", "        let first = name.as_bytes()[0] as char;\n        if !Self::is_start(first) {\n            track_panic!(ErrorKind::InvalidInput);\n        }"), (MT, "                'a'..='z' | 'A'..='Z' | '0'..='9' | '_' | ':' => {}", "                c if Self::is_start(c) || c.is_ascii_digit() => {}")]),
    ("benign-metric-order", "", [(MT, "        if let Some(s) = namespace {\n            track!(Self::validate_name(s), \"{:?}\", s)?;\n        }\n        if let Some(s) = subsystem {\n            track!(Self::validate_name(s), \"{:?}\", s)?;\n        }\n        track!(Self::validate_name(name), \"{:?}\", name)?;\n", "        track!(Self::validate_name(name), \"{:?}\", name)?;\n        for s in namespace.iter().chain(subsystem.iter()) {\n            track!(Self::validate_name(s), \"{:?}\", s)?;\n        }\n")]),
    ("benign-label-new-late", "", [(LB, "        track!(\n            Self::validate_name(name),\n            \"name={:?}, value={:?}\",\n            name,\n            value\n        )?;\n        Ok(Label {\n            name: name.to_string(),\n            value: value.to_string(),\n        })", "        let label = Label {\n            name: name.to_string(),\n            value: value.to_string(),\n        };\n        track!(\n            Self::validate_name(&label.name),\n            \"name={:?}, value={:?}\",\n            name,\n            value\n        )?;\n        Ok(label)")]),
    ("benign-le-if", "", [(H, "track_assert_ne!(name, \"le\", ErrorKind::InvalidInput);", "if name.as_str() == \"le\" { track_panic!(ErrorKind::InvalidInput); }")]),
    ("benign-insert-match", "", [(LB, "        track_assert_ne!(\n            self.reserved.map(|s| &*s),\n            Some(name),\n            ErrorKind::InvalidInput\n        );", "        if let Some(reserved) = self.reserved {\n            track_assert_ne!(reserved, name, ErrorKind::InvalidInput);\n        }")]),
    ("benign-insert-filter", "", [(LB, "            let mut labels = labels.clone();\n            labels.retain(|l| l.name != label.name);\n            labels.push(label.clone());\n", "            let mut labels: Vec<_> = labels.iter().filter(|l| l.name != label.name).cloned().collect();\n            labels.push(label.clone());\n")]),
    ("benign-insert-sortby", "", [(LB, "            labels.sort();\n            labels\n", "            labels.sort_by(|a, b| a.name.cmp(&b.name));\n            labels\n")]),
    ("benign-insert-order", "", [(LB, "        track_assert_ne!(\n            self.reserved.map(|s| &*s),\n            Some(name),\n            ErrorKind::InvalidInput\n        );\n        let label = track!(Label::new(name, value))?;", "        let label = track!(Label::new(name, value))?;\n        track_assert_ne!(\n            self.reserved.map(|s| &*s),\n            Some(name),\n            ErrorKind::InvalidInput\n        );")]),
    ("benign-remove-retain", "", [(LB, ".update(|labels| labels.iter().filter(|l| l.name != name).cloned().collect());", ".update(|labels| {\n                let mut labels = labels.clone();\n                labels.retain(|l| l.name != name);\n                labels\n            });")]),
    ("benign-remove-loop", "", [(LB, ".update(|labels| labels.iter().filter(|l| l.name != name).cloned().collect());", ".update(|labels| {\n                let mut kept = Vec::with_capacity(labels.len());\n                for l in labels.iter() {\n                    if l.name() == name {\n                        continue;\n                    }\n                    kept.push(l.clone());\n                }\n                kept\n            });")]),
    ("benign-clear-filter", "", [(LB, "self.inner.update(|_| Vec::new());", "self.inner.update(|labels| Vec::with_capacity(labels.len()));")]),
    ("benign-builder-label-filter", "", [(C, "        self.labels.retain(|l| l.0 != name);\n        self.labels.push((name.to_string(), value.to_string()));\n        self.labels.sort();", "        let (name, value) = (name.to_string(), value.to_string());\n        self.labels.retain(|l| l.0 != name);\n        self.labels.push((name, value));\n        self.labels.sort_by(|a, b| a.0.cmp(&b.0));")]),
    ("benign-finish-labels-loop", "", [(C, "        let labels = track!(self\n            .labels\n            .iter()\n            .map(|&(ref name, ref value)| track!(Label::new(name, value)))\n            .collect::<Result<_>>())?;", "        let mut labels = Vec::with_capacity(self.labels.len());\n        for (name, value) in &self.labels {\n            labels.push(track!(Label::new(name, value))?);\n        }")]),
    ("benign-finish-buckets-loop", "", [(H, "        let mut buckets = track!(self\n            .bucket_upper_bounds\n            .iter()\n            .map(|upper_bound| track!(Bucket::new(*upper_bound)))\n            .collect::<Result<Vec<_>>>())?;", "        let mut buckets = Vec::new();\n        for &upper_bound in &self.bucket_upper_bounds {\n            buckets.push(track!(Bucket::new(upper_bound))?);\n        }")]),
    ("benign-quantile-contains", "", [(QN, "0.0 <= quantile && quantile <= 1.0", "(0.0..=1.0).contains(&quantile)")]),
    ("benign-quantile-branches", "", [(QN, "        track_assert!(\n            0.0 <= quantile && quantile <= 1.0,\n            ErrorKind::InvalidInput,\n            \"quantile:{}\",\n            quantile\n        );\n        Ok(Quantile(quantile))", "        if quantile.is_nan() || quantile < 0.0 || quantile > 1.0 {\n            track_panic!(ErrorKind::InvalidInput, \"quantile:{}\", quantile);\n        }\n        Ok(Quantile(quantile))")]),
    ("benign-labels-get-loop", "", [(LB, "self.iter().find(|l| l.name() == name)", "for l in self.iter() {\n            if l.name == name {\n                return Some(l);\n            }\n        }\n        None")]),
]
