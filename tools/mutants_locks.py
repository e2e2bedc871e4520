"""More edits: locks (C23)."""
from mutants import C, G, H, S, A, RG, LB, MT, AG, BK, TS, QN, PR, MB
from mutants_summary import EXP, WCS, SAMP, OBS, SORT, ASAMP, S1

TIME = """        let start = Instant::now();
        let result = f();
        let elapsed = timestamp::duration_to_seconds(start.elapsed());
        self.observe(elapsed);
        result
"""
QS = """        let mut samples = self.with_current_samples(|_, samples| {
            samples
"""
DISP = """        for (quantile, value) in self.quantiles() {
            write!(
                f,
                "{}{{quantile=\\"{}\\"",
                self.metric_name(),
                quantile.as_f64()
            )?;
            for label in self.labels().iter() {
                write!(f, ",{}", label)?;
            }
            writeln!(f, "}} {}{}", MetricValue(value), timestamp)?;
        }
"""
ALOOP = """        for summary in &self.inners {
            summary.with_current_samples(|_, samples| {
                aggregated_samples.extend(samples.iter().map(|&(_, v)| v).filter(|v| !v.is_nan()));
            });
        }
"""
DR = """    match default_gatherer().lock() {
        Ok(gatherer) => gatherer.registry(),
        Err(poisoned) => poisoned.into_inner().registry(),
    }
"""
RECV = "while let Ok(collector) = self.rx.try_recv()"
REG = "        let _ = self.tx.send(Collector(Box::new(f)));\n"
OBSV = """        self.with_current_samples(|now, samples| {
            samples.push_back((now, value));
        });
        self.0.count.inc();
        self.0.sum.add(value);
"""

ALL = [
    ("lk-time-under", "C23", S1(TIME, """        self.with_current_samples(|now, samples| {
            let start = Instant::now();
            let result = f();
            let elapsed = timestamp::duration_to_seconds(start.elapsed());
            samples.push_back((now, elapsed));
            self.0.count.inc();
            self.0.sum.add(elapsed);
            result
        })
""")),
    ("lk-time-guard", "C23", S1(TIME, TIME.replace("        let result = f();\n", "        let samples = self.0.samples.lock();\n        let result = f();\n        drop(samples);\n"))),
    ("lk-time-guard-name", "C23", S1(TIME, TIME.replace("        let result = f();\n", "        let _samples = self.0.samples.lock();\n        let result = f();\n"))),
    ("lk-display-under", "C23", S1(DISP, "        let _guard = self.0.samples.lock();\n" + DISP.replace("self.quantiles()", "Vec::<(Quantile, f64)>::new()"))),
    ("lk-display-relock", "C23", S1(DISP, "        let _guard = self.0.samples.lock();\n" + DISP)),
    ("lk-display-tail", "C23", S1("""        writeln!(
            f,
            "{}_sum{} {}{}",
""", """        let _samples = self.0.samples.lock();
        writeln!(
            f,
            "{}_sum{} {}{}",
""")),
    ("lk-quantiles-twice", "C23", S1("        let mut samples = self.with_current_samples(", "        let _hold = self.0.samples.lock();\n        let mut samples = self.with_current_samples(")),
    ("lk-observe-nested", "C23", S1(OBSV, """        self.with_current_samples(|now, samples| {
            samples.push_back((now, value));
            if self.count() == u64::max_value() {
                self.with_current_samples(|_, samples| samples.clear());
            }
        });
        self.0.count.inc();
        self.0.sum.add(value);
""")),
    ("lk-forget", "C23", S1("            f(now, &mut samples)\n        } else {", "            let r = f(now, &mut samples);\n            if samples.len() == samples.capacity() {\n                ::std::mem::forget(samples);\n            }\n            r\n        } else {")),
    ("lk-sort-nan-panic", "C21", [(S, SAMP, SAMP.replace("                .filter(|v| !v.is_nan())\n", "").replace(".collect::<Vec<_>>()", ".collect::<Vec<_>>()")), (S, "        });\n" + SORT, "        });\n" + SORT)], ),
    ("lk-sort-under-panic", "C23", S1(QS, QS.replace("            samples\n", "            let mut all = samples.iter().map(|&(_, v)| v).collect::<Vec<_>>();\n            all.sort_by(|a, b| a.partial_cmp(b).expect(\"Never fails\"));\n            samples\n"))),
    ("lk-index-under-panic", "C23", S1(OBS, OBS + "            if samples[1].1 > value {\n                samples.clear();\n            }\n")),
    ("lk-agg-first-two", "C23", [(AG, ALOOP, """        let first = &self.inners[0];
        first.with_current_samples(|_, mine| {
            aggregated_samples.extend(mine.iter().map(|&(_, v)| v).filter(|v| !v.is_nan()));
            for summary in &self.inners[1..] {
                summary.with_current_samples(|_, samples| {
                    aggregated_samples.extend(samples.iter().map(|&(_, v)| v).filter(|v| !v.is_nan()));
                });
            }
        });
""")]),
    ("lk-registry-hold", "C23", [(RG, DR, "    let first = default_gatherer().lock();\n    let second = default_gatherer().lock();\n    drop(first);\n    match second {\n        Ok(gatherer) => gatherer.registry(),\n        Err(poisoned) => poisoned.into_inner().registry(),\n    }\n")]),
    ("lk-registry-leak", "C23", [(RG, "        Ok(gatherer) => gatherer.registry(),\n", "        Ok(gatherer) => {\n            let r = gatherer.registry();\n            ::std::mem::forget(gatherer);\n            r\n        }\n")]),
    ("lk-registry-leak-poison", "C23", [(RG, "        Err(poisoned) => poisoned.into_inner().registry(),\n", "        Err(poisoned) => {\n            let g = ::std::mem::ManuallyDrop::new(poisoned.into_inner());\n            g.registry()\n        }\n")]),
    ("lk-gather-recv", "C23", [(RG, RECV, "while let Ok(collector) = self.rx.recv()")]),
    ("lk-gather-recv-first", "C23", [(RG, "        let mut metrics = Vec::new();\n        let mut i = 0;\n", "        if self.collectors.is_empty() {\n            if let Ok(collector) = self.rx.recv() {\n                self.collectors.push(collector);\n            }\n        }\n        let mut metrics = Vec::new();\n        let mut i = 0;\n")]),
    ("lk-gather-iter", "C23", [(RG, RECV, "for collector in self.rx.iter()")]),
    ("lk-gather-default", "C23", [(RG, "    pub fn gather(&mut self) -> MetricFamilies {\n", "    pub fn gather(&mut self) -> MetricFamilies {\n        let _all = default_gatherer().lock();\n")]),
    ("lk-register-lock", "C23", [(RG, REG, "        let _order = default_gatherer().lock();\n        let f = { let mut f = f; let mut m = Vec::new(); f(&mut m); f };\n" + REG)]),
    ("lk-lazy", "C23", [(RG, "    static ref DEFAULT_GATHERER: Mutex<Gatherer> = Mutex::new(Gatherer::new());\n", "    static ref DEFAULT_GATHERER: Mutex<Gatherer> = { let r = default_registry(); let _ = r; Mutex::new(Gatherer::new()) };\n")]),
    # fine
    ("benign-lk-helper", "", S1("        if let Ok(mut samples) = self.0.samples.lock() {\n            while samples", "        let guard = self.0.samples.lock();\n        if let Ok(mut samples) = guard {\n            while samples")),
    ("benign-lk-match", "", [(RG, DR, "    let gatherer = match default_gatherer().lock() {\n        Ok(g) => g,\n        Err(e) => e.into_inner(),\n    };\n    gatherer.registry()\n")]),
    ("benign-lk-unwrap-or-else", "", [(RG, DR, "    let gatherer = default_gatherer().lock().unwrap_or_else(|e| e.into_inner());\n    let registry = gatherer.registry();\n    drop(gatherer);\n    registry\n")]),
    ("benign-lk-count-under", "", S1(OBSV, """        self.with_current_samples(|now, samples| {
            samples.push_back((now, value));
        });
        self.0.sum.add(value);
        self.0.count.inc();
""")),
    ("benign-lk-atomics-under", "", S1(OBSV, """        self.with_current_samples(|now, samples| {
            samples.push_back((now, value));
            self.0.count.inc();
            self.0.sum.add(value);
        });
""")),
    ("benign-lk-fold", "", [(AG, ALOOP, "        self.inners.iter().for_each(|summary| {\n            summary.with_current_samples(|_, samples| {\n                aggregated_samples.extend(samples.iter().map(|&(_, v)| v).filter(|v| !v.is_nan()));\n            });\n        });\n")]),
    ("benign-lk-try-lock-recv", "", [(RG, RECV, "for collector in self.rx.try_iter()")]),
]
