"""More edits: what is written (C11, C12, C13)."""
from mutants import C, G, H, S, A, RG, LB, MT, AG, BK, TS, QN, PR, MB

LABS = """        let labels = if !self.labels().is_empty() {
            self.labels().to_string()
        } else {
            "".to_string()
        };
"""
TSTR = """        let timestamp = if let Some(t) = self.timestamp().get() {
            format!(" {}", t)
        } else {
            "".to_string()
        };
"""
ESC = """        write!(f, "{}=\\"", self.name)?;
        for c in self.value.chars() {
            match c {
                '\\\\' => write!(f, "\\\\\\\\")?,
                '\\n' => write!(f, "\\\\n")?,
                '"' => write!(f, "\\\\\\"")?,
                _ => write!(f, "{}", c)?,
            }
        }
        write!(f, "\\"")
"""
HELP = """            write!(f, "# HELP {} ", self.name())?;
            for c in help.chars() {
                match c {
                    '\\\\' => write!(f, "\\\\\\\\")?,
                    '\\n' => write!(f, "\\\\n")?,
                    _ => write!(f, "{}", c)?,
                }
            }
            writeln!(f, "")?;
"""
LFOR = """        write!(f, "{{")?;
        for (i, label) in self.iter().enumerate() {
            if i != 0 {
                write!(f, ",")?;
            }
            write!(f, "{}", label)?;
        }
        write!(f, "}}")?;
"""
SIMPLE = """        write!(f, "{}", self.metric_name())?;
        if !self.labels().is_empty() {
            write!(f, "{}", self.labels())?;
        }
        write!(f, " {}", MetricValue(self.value()))?;
        if let Some(timestamp) = self.timestamp().get() {
            write!(f, " {}", timestamp)?;
        }
"""
BUCKETS = """        let mut count = 0;
        for bucket in self.cumulative_buckets() {
            count = bucket.cumulative_count();
            write!(
                f,
                "{}_bucket{{le=\\"{}\\"",
                self.metric_name(),
                MetricValue(bucket.upper_bound())
            )?;
            for label in self.labels().iter() {
                write!(f, ",{}", label)?;
            }
            writeln!(f, "}} {}{}", count, timestamp)?;
        }
"""
MV = """        if self.0.is_finite() {
            write!(f, "{}", self.0)
        } else if self.0.is_nan() {
            write!(f, "NaN")
        } else if self.0.is_sign_positive() {
            write!(f, "+Inf")
        } else {
            write!(f, "-Inf")
        }
"""

ALL = [
    # ---- C11
    ("text-ts-before-value", "C11", [(C, SIMPLE, """        write!(f, "{}", self.metric_name())?;
        if !self.labels().is_empty() {
            write!(f, "{}", self.labels())?;
        }
        if let Some(timestamp) = self.timestamp().get() {
            write!(f, " {}", timestamp)?;
        }
        write!(f, " {}", MetricValue(self.value()))?;
""")]),
    ("text-gauge-ts-positive", "C11", [(G, "if let Some(timestamp) = self.timestamp().get() {", "if let Some(timestamp) = self.timestamp().get().filter(|t| *t > 0) {")]),
    ("text-counter-labels-gt1", "C11", [(C, "if !self.labels().is_empty() {", "if self.labels().len() > 1 {")]),
    ("text-hist-labels-skip1", "C11", [(H, "for label in self.labels().iter() {", "for label in self.labels().iter().skip(1) {")]),
    ("text-agg-hist-bucket-noname", "C11", [(AG, "\"{}_bucket{{le=\\\"{}\\\"\"", "\"{}_buckets{{le=\\\"{}\\\"\"")]),
    ("text-hist-le-last", "C11", [(H, BUCKETS, """        let mut count = 0;
        for bucket in self.cumulative_buckets() {
            count = bucket.cumulative_count();
            write!(f, "{}_bucket{{", self.metric_name())?;
            for label in self.labels().iter() {
                write!(f, "{},", label)?;
            }
            write!(f, "le=\\"{}\\"", MetricValue(bucket.upper_bound()))?;
            writeln!(f, "}} {}{}", count, timestamp)?;
        }
""")]),
    ("text-hist-sum-no-ts", "C11", [(H, """            labels,
            MetricValue(self.sum()),
            timestamp
""", """            labels,
            MetricValue(self.sum()),
            if self.sum() == 0.0 { "" } else { &timestamp }
""")]),
    ("text-labels-sep", "C11", [(LB, "if i != 0 {", "if i > 1 {")]),
    ("text-kind-untyped", "C11", [(MT, "MetricKind::Summary => write!(f, \"summary\"),", "MetricKind::Summary => write!(f, \"untyped\"),")]),
    ("text-metrics-skip-last", "C11", [(MT, """            Metrics::Gauge(ref v) => {
                for m in v.iter() {""", """            Metrics::Gauge(ref v) => {
                for m in v.iter().take(1000) {""")]),
    ("text-metrics-rev", "C11", [(MT, """            Metrics::Gauge(ref v) => {
                for m in v.iter() {
                    writeln!""", """            Metrics::Gauge(ref v) => {
                for m in v.iter() {
                    write!""")]),
    ("text-to-text-first-missing", "C11", [(MT, "for m in &self.0 {", "for m in self.0.iter().skip(self.0.len() / 64) {")]),
    ("text-summary-count-sum", "C11", [(S, "            self.count(),\n            timestamp", "            self.sum() as u64,\n            timestamp")]),
    ("text-help-empty-skipped", "C11", [(MT, "if let Some(help) = self.help() {", "if let Some(help) = self.help().filter(|h| !h.is_empty()) {")]),
    ("text-type-subname", "C11", [(MT, "writeln!(f, \"# TYPE {} {}\", self.name(), self.kind())?;", "writeln!(f, \"# TYPE {} {}\", self.name().name(), self.kind())?;")]),
    ("text-summary-round", "C11", [(S, "writeln!(f, \"}} {}{}\", MetricValue(value), timestamp)?;", "writeln!(f, \"}} {:.6}{}\", value, timestamp)?;")]),
    ("text-hist-ts-negative", "C11", [(H, TSTR, """        let timestamp = match self.timestamp().get() {
            Some(t) if t >= 0 => format!(" {}", t),
            _ => "".to_string(),
        };
""")]),
    # ---- C12
    ("esc-label-bs-missing", "C12", [(LB, "                '\\\\' => write!(f, \"\\\\\\\\\")?,\n", "")]),
    ("esc-help-quote", "C12", [(MT, "                    '\\n' => write!(f, \"\\\\n\")?,\n", "                    '\\n' => write!(f, \"\\\\n\")?,\n                    '\"' => write!(f, \"\\\\\\\"\")?,\n")]),
    ("esc-label-debug", "C12", [(LB, ESC, "        write!(f, \"{}={:?}\", self.name, self.value)\n")]),
    ("esc-label-ctrl", "C12", [(LB, "                '\\n' => write!(f, \"\\\\n\")?,\n", "                '\\n' => write!(f, \"\\\\n\")?,\n                '\\r' => write!(f, \"\\\\r\")?,\n")]),
    ("esc-hist-raw-label", "C12", [(H, "write!(f, \",{}\", label)?;", "write!(f, \",{}=\\\"{}\\\"\", label.name(), label.value())?;")]),
    ("esc-replace-order", "C12", [(LB, ESC, "        let v = self.value.replace('\"', \"\\\\\\\"\").replace('\\\\', \"\\\\\\\\\").replace('\\n', \"\\\\n\");\n        write!(f, \"{}=\\\"{}\\\"\", self.name, v)\n")]),
    ("esc-help-raw-short", "C12", [(MT, HELP, """            if help.len() < 4 {
                writeln!(f, "# HELP {} {}", self.name(), help)?;
            } else {
    """ + HELP.replace("\n            ", "\n                ").rstrip() + "\n            }\n")]),
    ("esc-label-trim", "C12", [(LB, "for c in self.value.chars() {", "for c in self.value.trim().chars() {")]),
    # ---- C13
    ("num-gauge-raw", "C13", [(G, "write!(f, \" {}\", MetricValue(self.value()))?;", "write!(f, \" {}\", self.value())?;")]),
    ("num-neg-inf", "C13", [(MT, MV, """        if self.0.is_finite() {
            write!(f, "{}", self.0)
        } else if self.0.is_nan() {
            write!(f, "NaN")
        } else {
            write!(f, "+Inf")
        }
""")]),
    ("num-summary-value-raw", "C13", [(AG, "writeln!(f, \"}} {}{}\", MetricValue(value), timestamp)?;", "writeln!(f, \"}} {}{}\", value, timestamp)?;")]),
    ("num-bound-raw", "C13", [(H, "MetricValue(bucket.upper_bound())", "bucket.upper_bound()")]),
    ("num-inf-word", "C13", [(MT, "write!(f, \"+Inf\")", "write!(f, \"Inf\")")]),
    ("num-sign-first", "C13", [(MT, MV, """        if self.0.is_finite() {
            write!(f, "{}", self.0)
        } else if self.0.is_sign_negative() {
            write!(f, "-Inf")
        } else if self.0.is_nan() {
            write!(f, "NaN")
        } else {
            write!(f, "+Inf")
        }
""")]),
    ("num-max-is-inf", "C13", [(MT, "if self.0.is_finite() {", "if self.0.abs() < std::f64::MAX {")]),
    # ---- benign
    ("benign-text-simple-helper", "", [(C, SIMPLE, """        write_head(f, self)?;
        write!(f, " {}", MetricValue(self.value()))?;
        if let Some(timestamp) = self.timestamp().get() {
            write!(f, " {}", timestamp)?;
        }
"""), (C, "impl fmt::Display for Counter {", """fn write_head(f: &mut fmt::Formatter, c: &Counter) -> fmt::Result {
    write!(f, "{}", c.metric_name())?;
    let labels = c.labels();
    if labels.is_empty() {
        return Ok(());
    }
    write!(f, "{}", labels)
}
impl fmt::Display for Counter {""")]),
    ("benign-text-simple-one-write", "", [(G, SIMPLE, """        let labels = if self.labels().is_empty() { String::new() } else { self.labels().to_string() };
        let timestamp = self.timestamp().get().map_or(String::new(), |t| format!(" {}", t));
        write!(f, "{}{} {}{}", self.metric_name(), labels, MetricValue(self.value()), timestamp)?;
""")]),
    ("benign-text-match-ts", "", [(H, TSTR, """        let timestamp = match self.timestamp().get() {
            None => String::new(),
            Some(t) => format!(" {}", t),
        };
""")]),
    ("benign-text-push-str", "", [(S, LABS, """        let mut labels = String::new();
        if !self.labels().is_empty() {
            labels.push_str(&self.labels().to_string());
        }
""")]),
    ("benign-esc-replace", "", [(LB, ESC, "        let v = self.value.replace('\\\\', \"\\\\\\\\\").replace('\\n', \"\\\\n\").replace('\"', \"\\\\\\\"\");\n        write!(f, \"{}=\\\"{}\\\"\", self.name, v)\n")]),
    ("benign-esc-fn", "", [(LB, ESC, """        f.write_str(&self.name)?;
        f.write_str("=\\"")?;
        for c in self.value.chars() {
            write_escaped(f, c)?;
        }
        f.write_str("\\"")
"""), (LB, "impl fmt::Display for Label {", """fn write_escaped(f: &mut fmt::Formatter, c: char) -> fmt::Result {
    use std::fmt::Write;
    if c == '\\\\' || c == '"' {
        f.write_char('\\\\')?;
        f.write_char(c)
    } else if c == '\\n' {
        f.write_str("\\\\n")
    } else {
        f.write_char(c)
    }
}
impl fmt::Display for Label {""")]),
    ("benign-esc-buffer", "", [(MT, HELP, """            let mut text = String::with_capacity(help.len());
            for c in help.chars() {
                match c {
                    '\\\\' => text.push_str("\\\\\\\\"),
                    '\\n' => text.push_str("\\\\n"),
                    c => text.push(c),
                }
            }
            writeln!(f, "# HELP {} {}", self.name(), text)?;
""")]),
    ("benign-labels-first-flag", "", [(LB, LFOR, """        f.write_str("{")?;
        let mut first = true;
        for label in self.iter() {
            if !first {
                f.write_str(",")?;
            }
            first = false;
            label.fmt(f)?;
        }
        f.write_str("}")?;
""")]),
    ("benign-labels-join", "", [(LB, LFOR, """        let labels = self.iter().map(|l| l.to_string()).collect::<Vec<_>>();
        write!(f, "{{{}}}", labels.join(","))?;
""")]),
    ("benign-labels-sep-str", "", [(LB, LFOR, """        let mut sep = "";
        write!(f, "{{")?;
        for label in self.iter() {
            write!(f, "{}{}", sep, label)?;
            sep = ",";
        }
        write!(f, "}}")?;
""")]),
    ("benign-labels-peel", "", [(LB, LFOR, """        write!(f, "{{")?;
        let mut labels = self.iter();
        if let Some(label) = labels.next() {
            write!(f, "{}", label)?;
        }
        for label in labels {
            write!(f, ",{}", label)?;
        }
        write!(f, "}}")?;
""")]),
    ("benign-num-match", "", [(MT, MV, """        let v = self.0;
        if v.is_nan() {
            return f.write_str("NaN");
        }
        if v == std::f64::INFINITY {
            f.write_str("+Inf")
        } else if v == std::f64::NEG_INFINITY {
            f.write_str("-Inf")
        } else {
            write!(f, "{}", v)
        }
""")]),
    ("benign-num-classify", "", [(MT, MV, """        let s = if self.0.is_nan() {
            "NaN".to_string()
        } else if self.0.is_infinite() {
            (if self.0 > 0.0 { "+Inf" } else { "-Inf" }).to_string()
        } else {
            self.0.to_string()
        };
        f.write_str(&s)
""")]),
    ("benign-hist-labels-string", "", [(H, BUCKETS, """        let mut rest = String::new();
        for label in self.labels().iter() {
            rest.push(',');
            rest.push_str(&label.to_string());
        }
        let mut count = 0;
        for bucket in self.cumulative_buckets() {
            count = bucket.cumulative_count();
            writeln!(
                f,
                "{}_bucket{{le=\\"{}\\"{}}} {}{}",
                self.metric_name(),
                MetricValue(bucket.upper_bound()),
                rest,
                count,
                timestamp
            )?;
        }
""")]),
    ("benign-hist-buckets-while", "", [(H, "        for bucket in self.cumulative_buckets() {\n", "        let mut buckets = self.cumulative_buckets();\n        while let Some(bucket) = buckets.next() {\n")]),
    ("benign-family-match-help", "", [(MT, "        if let Some(help) = self.help() {", "        let help = self.help();\n        if help.is_some() {\n            let help = help.unwrap();")]),
    ("benign-kind-str", "", [(MT, """        match *self {
            MetricKind::Counter => write!(f, "counter"),
            MetricKind::Gauge => write!(f, "gauge"),
            MetricKind::Summary => write!(f, "summary"),
            MetricKind::Histogram => write!(f, "histogram"),
        }
""", """        f.write_str(match self {
            MetricKind::Counter => "counter",
            MetricKind::Gauge => "gauge",
            MetricKind::Summary => "summary",
            MetricKind::Histogram => "histogram",
        })
""")]),
    ("benign-to-text-concat", "", [(MT, """        use std::fmt::Write;

        let mut buf = String::new();
        for m in &self.0 {
            write!(buf, "{}", m).expect("Never fails");
        }
        buf
""", """        self.0.iter().map(|m| m.to_string()).collect()
""")]),
    ("benign-metrics-helper", "", [(MT, """            Metrics::Counter(ref v) => {
                for m in v.iter() {
                    writeln!(f, "{}", m)?;
                }
            }
""", """            Metrics::Counter(ref v) => write_all(f, v)?,
"""), (MT, """            Metrics::Gauge(ref v) => {
                for m in v.iter() {
                    writeln!(f, "{}", m)?;
                }
            }
""", """            Metrics::Gauge(ref v) => write_all(f, v)?,
"""), (MT, "impl fmt::Display for Metrics {", """fn write_all<T: fmt::Display>(f: &mut fmt::Formatter, v: &[T]) -> fmt::Result {
    for m in v {
        m.fmt(f)?;
        f.write_str("\\n")?;
    }
    Ok(())
}
impl fmt::Display for Metrics {""")]),
    ("benign-metrics-try-for-each", "", [(MT, """            Metrics::Counter(ref v) => {
                for m in v.iter() {
                    writeln!(f, "{}", m)?;
                }
            }
""", """            Metrics::Counter(ref v) => v.iter().try_for_each(|m| writeln!(f, "{}", m))?,
""")]),
]
