"""More edits: helpers (C22), timestamps (C24), process metrics (C25), builders (C26)."""
from mutants import C, G, H, S, A, RG, LB, MT, AG, BK, TS, QN, PR, MB

T = """        let start = Instant::now();
        let result = f();
        let elapsed = timestamp::duration_to_seconds(start.elapsed());
"""
OB = "        self.observe(elapsed);\n        result\n"
TR = """        self.increment();
        let _guard = Guard(self);
        f()
"""
D2S = "d.as_secs() as f64 + f64::from(d.subsec_nanos()) / 1_000_000_000.0"

ALL = [
    ("time-early", "C22", [(H, T, "        let start = Instant::now();\n        let elapsed = timestamp::duration_to_seconds(start.elapsed());\n        let result = f();\n")]),
    ("time-late-start", "C22", [(S, T, "        let result = f();\n        let start = Instant::now();\n        let elapsed = timestamp::duration_to_seconds(start.elapsed());\n")]),
    ("time-record-first", "C22", [(C, T + '        self.add(elapsed).expect("Never fails");\n        result\n', """        let start = Instant::now();
        let elapsed = timestamp::duration_to_seconds(start.elapsed());
        self.add(elapsed).expect("Never fails");
        f()
""")]),
    ("time-twice", "C22", [(H, OB, "        self.observe(elapsed);\n" + OB)]),
    ("time-none", "C22", [(S, OB, "        let _ = elapsed;\n        result\n")]),
    ("time-zero-skip", "C22", [(S, OB, "        if elapsed > 0.000_001 {\n            self.observe(elapsed);\n        }\n        result\n")]),
    ("time-cap", "C22", [(H, OB, OB.replace("elapsed", "elapsed.min(60.0)"))]),
    ("time-gauge-add", "C22", [(G, "        self.set(elapsed);\n", "        self.add(elapsed);\n")]),
    ("time-counter-one", "C22", [(C, 'self.add(elapsed).expect("Never fails");', "self.increment();\n        let _ = elapsed;")]),
    ("time-millis", "C22", [(H, "timestamp::duration_to_seconds(start.elapsed())", "start.elapsed().as_millis() as f64 / 1000.0")]),
    ("time-secs", "C22", [(G, "timestamp::duration_to_seconds(start.elapsed())", "start.elapsed().as_secs() as f64")]),
    ("time-in-millis", "C22", [(S, "timestamp::duration_to_seconds(start.elapsed())", "start.elapsed().as_millis() as f64")]),
    ("time-subsec", "C22", [(S, "timestamp::duration_to_seconds(start.elapsed())", "f64::from(start.elapsed().subsec_nanos()) / 1e9")]),
    ("d2s-micro", "C22", [(TS, D2S, "d.as_secs() as f64 + f64::from(d.subsec_nanos() / 1000) / 1_000_000.0")]),
    ("d2s-zeros", "C22", [(TS, D2S, D2S.replace("1_000_000_000.0", "100_000_000.0"))]),
    ("d2s-sub", "C22", [(TS, D2S, D2S.replace("as f64 +", "as f64 -"))]),
    ("d2s-u32", "C22", [(TS, D2S, "f64::from(d.as_secs() as u16) + f64::from(d.subsec_nanos()) / 1_000_000_000.0")]),
    ("track-noguard", "C22", [(G, TR, "        self.increment();\n        let result = f();\n        self.decrement();\n        let _ = Guard;\n        result\n")]),
    ("track-drop-early", "C22", [(G, TR, TR.replace("let _guard = Guard(self);", "let _ = Guard(self);"))]),
    ("track-inc-late", "C22", [(G, TR, "        let _guard = Guard(self);\n        let r = f();\n        self.increment();\n        r\n")]),
    ("track-both", "C22", [(G, TR, "        self.increment();\n        let _guard = Guard(self);\n        let r = f();\n        self.decrement();\n        r\n")]),
    ("track-forget", "C22", [(G, TR, "        self.increment();\n        let guard = Guard(self);\n        let r = f();\n        if !::std::thread::panicking() {\n            drop(guard);\n        }\n        r\n")][:0] or [(G, "                self.0.decrement();\n", "                if !::std::thread::panicking() {\n                    self.0.decrement();\n                }\n")]),
    ("track-set-back", "C22", [(G, TR, "        let before = self.value();\n        self.increment();\n        let r = f();\n        let _ = Guard;\n        self.set(before);\n        r\n")]),
    ("track-two", "C22", [(G, "                self.0.decrement();\n", "                self.0.subtract(2.0);\n")]),
    ("benign-time-f64", "", [(H, "timestamp::duration_to_seconds(start.elapsed())", "start.elapsed().as_secs_f64()")]),
    ("benign-time-since", "", [(S, "timestamp::duration_to_seconds(start.elapsed())", "timestamp::duration_to_seconds(Instant::now().duration_since(start))")]),
    ("benign-time-minus", "", [(G, "timestamp::duration_to_seconds(start.elapsed())", "timestamp::duration_to_seconds(Instant::now() - start)")]),
    ("benign-time-direct", "", [(G, "        self.set(elapsed);\n        result\n", "        self.0.value.set(elapsed);\n        result\n")]),
    ("benign-time-helper", "", [(TS, "/// Converts `Duration` to", "pub(crate) fn measure<F: FnOnce() -> T, T>(f: F) -> (T, f64) {\n    let start = std::time::Instant::now();\n    let result = f();\n    (result, duration_to_seconds(start.elapsed()))\n}\n\n/// Converts `Duration` to"),
                                 (H, T, "        let (result, elapsed) = timestamp::measure(f);\n"), (S, T, "        let (result, elapsed) = timestamp::measure(f);\n"), (G, T, "        let (result, elapsed) = timestamp::measure(f);\n"), (C, T, "        let (result, elapsed) = timestamp::measure(f);\n")]),
    ("benign-d2s-1e9", "", [(TS, D2S, "f64::from(d.subsec_nanos()) / 1e9 + d.as_secs() as f64")]),
    ("benign-d2s-nanos", "", [(TS, D2S, "d.as_secs() as f64 + d.subsec_nanos() as f64 * 1e-9")]),
    ("benign-track-add", "", [(G, TR, "        self.add(1.0);\n        let guard = Guard(self);\n        let r = f();\n        drop(guard);\n        r\n")]),
    ("benign-track-inner", "", [(G, TR, "        let guard = Guard(self);\n        guard.0.increment();\n        f()\n")]),

    # ---- C24
    ("ts-default-zero", "C24", [(TS, "Timestamp(AtomicI64::new(NO_VALUE))", "Timestamp(AtomicI64::new(0))")]),
    ("ts-zero-none", "C24", [(TS, "const NO_VALUE: i64 = std::i64::MIN;", "const NO_VALUE: i64 = 0;")]),
    ("ts-minus-one", "C24", [(TS, "const NO_VALUE: i64 = std::i64::MIN;", "const NO_VALUE: i64 = -1;")]),
    ("ts-neg-refused", "C24", [(TS, "        assert_ne!(timestamp, NO_VALUE);", "        assert!(timestamp >= 0);")]),
    ("ts-get-positive", "C24", [(TS, "if v == NO_VALUE {", "if v < 0 {")]),
    ("ts-clear-zero", "C24", [(TS, "    fn clear(&self) {\n        self.0.set(NO_VALUE);", "    fn clear(&self) {\n        self.0.set(0);")]),
    ("ts-clear-nothing", "C24", [(TS, "        self.0.clear()", "        let _ = Timestamp::clear;")]),
    ("ts-max", "C24", [(TS, "        self.0.set(timestamp);\n", "        if self.0.get() < timestamp {\n            self.0.set(timestamp);\n        }\n")]),
    ("ts-secs", "C24", [(TS, "d.as_secs() as i64 * 1000 + i64::from(d.subsec_nanos()) / 1000 / 1000", "d.as_secs() as i64 * 1000")]),
    ("ts-div", "C24", [(TS, "i64::from(d.subsec_nanos()) / 1000 / 1000", "i64::from(d.subsec_nanos()) / 1000 / 100")]),
    ("ts-round", "C24", [(TS, "i64::from(d.subsec_nanos()) / 1000 / 1000", "(i64::from(d.subsec_nanos()) + 500_000) / 1000 / 1000")]),
    ("ts-i32", "C24", [(TS, "d.as_secs() as i64 * 1000 ", "i64::from(d.as_secs() as i32) * 1000 ")]),
    ("ts-sign", "C24", [(TS, "self.set(-to_millis(duration));", "self.set(to_millis(duration));")]),
    ("ts-before-skip", "C24", [(TS, """        } else {
            let duration = UNIX_EPOCH.duration_since(time).expect("Never fails");
            self.set(-to_millis(duration));
        }
""", "        }\n")]),
    ("ts-before-unwrap", "C24", [(TS, "if let Ok(duration) = time.duration_since(UNIX_EPOCH) {\n            self.set(to_millis(duration));", "{\n            let duration = time.duration_since(UNIX_EPOCH).unwrap();\n            self.set(to_millis(duration));\n        }\n        if false {")]),
    ("ts-now-zero", "C24", [(TS, "self.set_time(SystemTime::now());", "self.set_time(UNIX_EPOCH);")]),
    ("ts-now-later", "C24", [(TS, "self.set_time(SystemTime::now());", "self.set_time(SystemTime::now() + Duration::from_secs(1));")]),
    ("ts-swap", "C24", [(TS, "    pub fn set_time(&mut self, time: SystemTime) {\n        self.0.set_time(time)", "    pub fn set_time(&mut self, time: SystemTime) {\n        let _ = time;\n        self.0.set_now()")]),
    ("ts-wrong-cell", "C24", [(G, "        TimestampMut::new(&self.0.timestamp)", "        TimestampMut::new(Box::leak(Box::new(Timestamp::new())))")]),
    ("ts-render-zero", "C24", [(C, "if let Some(timestamp) = self.timestamp().get() {", "if let Some(timestamp) = self.timestamp().get().filter(|t| *t != 0) {")]),
    ("ts-render-secs", "C24", [(H, "if let Some(t) = self.timestamp().get() {", "if let Some(t) = self.timestamp().get().map(|t| t / 1000) {")]),
    ("ts-render-default", "C24", [(AG, "if let Some(t) = self.timestamp().get() {", "{\n            let t = self.timestamp().get().unwrap_or(0);")][:0] or [(S, "if let Some(t) = self.timestamp().get() {", "if let Some(t) = Some(self.timestamp().get().unwrap_or(0)) {")]),
    ("gauge-time-millis", "C24", [(G, "self.set(timestamp::now_unixtime_seconds());", "self.set(timestamp::now_unixtime_seconds() * 1000.0);")]),
    ("gauge-time-sign", "C24", [(TS, "-duration_to_seconds(d)", "duration_to_seconds(d)")]),
    ("benign-ts-millis", "", [(TS, "d.as_secs() as i64 * 1000 + i64::from(d.subsec_nanos()) / 1000 / 1000", "d.as_millis() as i64")]),
    ("benign-ts-submillis", "", [(TS, "d.as_secs() as i64 * 1000 + i64::from(d.subsec_nanos()) / 1000 / 1000", "d.as_secs() as i64 * 1_000 + i64::from(d.subsec_millis())")]),
    ("benign-ts-match", "", [(TS, """        if let Ok(duration) = time.duration_since(UNIX_EPOCH) {
            self.set(to_millis(duration));
        } else {
            let duration = UNIX_EPOCH.duration_since(time).expect("Never fails");
            self.set(-to_millis(duration));
        }
""", """        let ms = match time.duration_since(UNIX_EPOCH) {
            Ok(d) => to_millis(d),
            Err(e) => -to_millis(e.duration()),
        };
        self.set(ms);
""")]),
    ("benign-ts-get-match", "", [(TS, """        let v = self.0.get();
        if v == NO_VALUE {
            None
        } else {
            Some(v)
        }
""", """        match self.0.get() {
            NO_VALUE => None,
            v => Some(v),
        }
""")]),
    ("benign-ts-max", "", [(TS, "const NO_VALUE: i64 = std::i64::MIN;", "const NO_VALUE: i64 = i64::min_value();")]),
    ("benign-ts-const", "", [(TS, "UNIX_EPOCH.duration_since(time)", "SystemTime::UNIX_EPOCH.duration_since(time)")]),
    ("benign-ts-from-value", "", [(TS, "    pub(crate) fn new() -> Self {\n        Timestamp(AtomicI64::new(NO_VALUE))", "    pub(crate) fn new() -> Self {\n        Self::from_value(None)")]),
    ("benign-gauge-time", "", [(G, "self.set(timestamp::now_unixtime_seconds());", "let now = timestamp::now_unixtime_seconds();\n        self.0.value.set(now);")]),
]
