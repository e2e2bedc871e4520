"""More edits written from the texts of the properties: the refactorings a maintainer would make, and slips in them."""
from mutants import C, G, H, S, A, RG, LB, MT, AG, BK, TS, QN, PR, MB
from mutants_wild import CADD, FUP, SOBS, HOBS, REG, GA, COL, FAM

INS = """            let mut labels = labels.clone();
            labels.retain(|l| l.name != label.name);
            labels.push(label.clone());
            labels.sort();
            labels
"""
REM = """            .update(|labels| labels.iter().filter(|l| l.name != name).cloned().collect());
"""
LV = """        match name.as_bytes()[0] as char {
            'a'..='z' | 'A'..='Z' | '_' => {}
            _ => track_panic!(ErrorKind::InvalidInput),
        }
        for c in name.chars().skip(1) {
            match c {
                'a'..='z' | 'A'..='Z' | '0'..='9' | '_' => {}
                _ => track_panic!(ErrorKind::InvalidInput),
            }
        }
        Ok(())
"""
MV = """        match name.as_bytes()[0] as char {
            'a'..='z' | 'A'..='Z' | '_' | ':' => {}
            _ => track_panic!(ErrorKind::InvalidInput),
        }
        for c in name.chars().skip(1) {
            match c {
                'a'..='z' | 'A'..='Z' | '0'..='9' | '_' | ':' => {}
                _ => track_panic!(ErrorKind::InvalidInput),
            }
        }
        Ok(())
"""
LD = """        write!(f, "{}=\\"", self.name)?;
        for c in self.value.chars() {
            match c {
                '\\\\' => write!(f, "\\\\\\\\")?,
                '\\n' => write!(f, "\\\\n")?,
                '"' => write!(f, "\\\\\\"")?,
                _ => write!(f, "{}", c)?,
            }
        }
        write!(f, "\\"")
"""
GRP = """        // The labels may be modified concurrently, so each sort key is taken only once.
"""
CN = """        self.iter.next().map(|b| {
            self.cumulative_count += b.count();
            CumulativeBucket {
                cumulative_count: self.cumulative_count,
                upper_bound: b.upper_bound(),
            }
        })
"""
AMIN = """        let mut min = std::f64::INFINITY;
        let mut i = 0;
        while i < self.iters.len() {
            if let Some(bound) = self.iters[i].peek().map(|b| b.upper_bound()) {
                if bound < min {
                    min = bound;
                }
                i += 1;
            } else {
                let _ = self.iters.swap_remove(i);
            }
        }
        if self.iters.is_empty() {
            return None;
        }
"""
ASUM = """        for buckets in &mut self.iters {
            let upper_bound = buckets.peek().expect("Never fails").upper_bound();
            if upper_bound == min {
                let bucket = buckets.next().expect("Never fails");
                self.cumulative_count += bucket.count();
            }
        }
"""
EXP = """            while samples
                .front()
                .and_then(|s| now.duration_since(s.0).ok())
                .and_then(|d| if d > self.0.window { Some(()) } else { None })
                .is_some()
            {
                samples.pop_front();
            }
"""
QS = """        self.0
            .quantiles
            .iter()
            .map(|&quantile| {
                let index = cmp::min(count - 1, (quantile.as_f64() * count as f64).floor() as usize);
                (quantile, samples[index])
            })
            .collect()
"""
HSORT = """        buckets.sort_by(|a, b| {
            a.upper_bound()
                .partial_cmp(&b.upper_bound())
                .expect("Never fails")
        });
        buckets.dedup_by(|a, b| a.upper_bound() == b.upper_bound());
"""
TXT = """        let mut buf = String::new();
        for m in &self.0 {
            write!(buf, "{}", m).expect("Never fails");
        }
        buf
"""
SAME = """        let is_same_metric = self.metric_name() == other.metric_name()
            && self.labels().iter().eq(other.labels().iter());
        if is_same_metric {
            self.value += other.value;
"""
MILLI = "            d.as_secs() as i64 * 1000 + i64::from(d.subsec_nanos()) / 1000 / 1000\n"
SETT = """        if let Ok(duration) = time.duration_since(UNIX_EPOCH) {
            self.set(to_millis(duration));
        } else {
            let duration = UNIX_EPOCH.duration_since(time).expect("Never fails");
            self.set(-to_millis(duration));
        }
"""
CLAB = """        let labels = track!(self
            .labels
            .iter()
            .map(|&(ref name, ref value)| track!(Label::new(name, value)))
            .collect::<Result<_>>())?;
"""
CT = """        let start = Instant::now();
        let result = f();
        let elapsed = timestamp::duration_to_seconds(start.elapsed());
        self.add(elapsed).expect("Never fails");
        result
"""
ALL = [
    # ---- labels
    ("v-insert-bsearch", "", [(LB, INS, """            let mut labels = labels.clone();
            match labels.binary_search_by(|l| l.name.cmp(&label.name)) {
                Ok(i) => labels[i] = label.clone(),
                Err(i) => labels.insert(i, label.clone()),
            }
            labels
""")]),
    ("v-insert-bsearch-push", "C10", [(LB, INS, """            let mut labels = labels.clone();
            match labels.binary_search_by(|l| l.name.cmp(&label.name)) {
                Ok(i) => labels[i] = label.clone(),
                Err(_) => labels.push(label.clone()),
            }
            labels
""")]),
    ("v-insert-bsearch-value", "C10", [(LB, INS, """            let mut labels = labels.clone();
            if let Err(i) = labels.binary_search(&label) {
                labels.insert(i, label.clone());
            }
            labels
""")]),
    ("v-insert-chain", "", [(LB, INS, """            let mut new: Vec<Label> = labels.iter().filter(|l| l.name != label.name).cloned().collect();
            new.push(label.clone());
            new.sort();
            new
""")]),
    ("v-insert-chain-once", "", [(LB, INS, """            let mut new: Vec<Label> = labels
                .iter()
                .filter(|l| l.name != label.name)
                .chain(std::iter::once(&label))
                .cloned()
                .collect();
            new.sort();
            new
""")]),
    ("v-insert-sort-name", "", [(LB, INS, INS.replace("labels.sort();", "labels.sort_by(|a, b| a.name.cmp(&b.name));"))]),
    ("v-insert-sort-value", "C10", [(LB, INS, INS.replace("labels.sort();", "labels.sort_by(|a, b| a.value.cmp(&b.value));"))]),
    ("v-insert-retain-case", "C10", [(LB, INS, INS.replace("l.name != label.name", "!l.name.eq_ignore_ascii_case(&label.name)"))]),
    ("v-remove-position", "", [(LB, REM, """            .update(|labels| {
                let mut labels = labels.clone();
                if let Some(i) = labels.iter().position(|l| l.name == name) {
                    labels.remove(i);
                }
                labels
            });
""")]),
    ("v-remove-swap", "C10", [(LB, REM, """            .update(|labels| {
                let mut labels = labels.clone();
                if let Some(i) = labels.iter().position(|l| l.name == name) {
                    labels.swap_remove(i);
                }
                labels
            });
""")]),
    ("v-remove-retain", "", [(LB, REM, """            .update(|labels| {
                let mut labels = labels.clone();
                labels.retain(|l| l.name() != name);
                labels
            });
""")]),
    ("v-remove-starts", "C10", [(LB, REM, """            .update(|labels| labels.iter().filter(|l| !l.name.starts_with(name)).cloned().collect());
""")]),
    ("v-label-bytes-all", "", [(LB, LV, """        let first = name.as_bytes()[0];
        track_assert!(first.is_ascii_alphabetic() || first == b'_', ErrorKind::InvalidInput);
        track_assert!(
            name.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'_'),
            ErrorKind::InvalidInput
        );
        Ok(())
""")]),
    ("v-label-chars-next", "", [(LB, LV, """        let mut chars = name.chars();
        match chars.next() {
            Some('a'..='z') | Some('A'..='Z') | Some('_') => {}
            _ => track_panic!(ErrorKind::InvalidInput),
        }
        if !chars.all(|c| c.is_ascii_alphanumeric() || c == '_') {
            track_panic!(ErrorKind::InvalidInput);
        }
        Ok(())
""")]),
    ("v-label-enumerate", "", [(LB, LV, """        for (i, c) in name.chars().enumerate() {
            let ok = match c {
                'a'..='z' | 'A'..='Z' | '_' => true,
                '0'..='9' => i > 0,
                _ => false,
            };
            track_assert!(ok, ErrorKind::InvalidInput);
        }
        Ok(())
""")]),
    ("v-label-any", "", [(LB, LV, """        let valid = |c: char| c == '_' || c.is_ascii_alphanumeric();
        track_assert!(!name.as_bytes()[0].is_ascii_digit(), ErrorKind::InvalidInput);
        track_assert!(!name.chars().any(|c| !valid(c)), ErrorKind::InvalidInput);
        Ok(())
""")]),
    ("v-label-unicode", "C07", [(LB, LV, """        let first = name.chars().next().unwrap();
        track_assert!(first.is_alphabetic() || first == '_', ErrorKind::InvalidInput);
        track_assert!(name.chars().all(|c| c.is_alphanumeric() || c == '_'), ErrorKind::InvalidInput);
        Ok(())
""")]),
    ("v-label-dot-tail", "C07", [(LB, LV, LV.replace("name.chars().skip(1)", "name.trim_end_matches('.').chars().skip(1)"))]),
    ("v-label-last-unchecked", "C07", [(LB, LV, LV.replace("name.chars().skip(1)", "name.chars().skip(1).take(127)"))]),
    ("v-label-helper-chars", "", [(LB, LV, """        let head = |c: char| c == '_' || c.is_ascii_alphabetic();
        let mut chars = name.chars();
        track_assert!(chars.next().map_or(false, head), ErrorKind::InvalidInput);
        track_assert!(chars.all(|c| head(c) || c.is_ascii_digit()), ErrorKind::InvalidInput);
        Ok(())
""")]),
    ("v-label-helper", "C07 C08 C09 C28", [(LB, LV, """        let head = |c: char| c == '_' || c.is_ascii_alphabetic();
        let (first, rest) = name.split_at(1);
        track_assert!(first.chars().all(head), ErrorKind::InvalidInput);
        track_assert!(rest.chars().all(|c| head(c) || c.is_ascii_digit()), ErrorKind::InvalidInput);
        Ok(())
""")]),
    ("v-name-bytes-all", "", [(MT, MV, """        let bytes = name.as_bytes();
        track_assert!(!bytes[0].is_ascii_digit(), ErrorKind::InvalidInput);
        for &b in bytes {
            match b {
                b'a'..=b'z' | b'A'..=b'Z' | b'0'..=b'9' | b'_' | b':' => {}
                _ => track_panic!(ErrorKind::InvalidInput),
            }
        }
        Ok(())
""")]),
    ("v-name-position", "", [(MT, MV, """        let bad = name.bytes().enumerate().position(|(i, b)| match b {
            b'a'..=b'z' | b'A'..=b'Z' | b'_' | b':' => false,
            b'0'..=b'9' => i == 0,
            _ => true,
        });
        track_assert_eq!(bad, None, ErrorKind::InvalidInput);
        Ok(())
""")]),
    ("v-label-escape-fn", "", [(LB, LD, """        let mut escaped = String::with_capacity(self.value.len());
        for c in self.value.chars() {
            match c {
                '\\\\' => escaped.push_str("\\\\\\\\"),
                '\\n' => escaped.push_str("\\\\n"),
                '"' => escaped.push_str("\\\\\\""),
                c => escaped.push(c),
            }
        }
        write!(f, "{}=\\"{}\\"", self.name, escaped)
""")]),
    ("v-label-escape-replace", "", [(LB, LD, """        let value = self
            .value
            .replace('\\\\', "\\\\\\\\")
            .replace('\\n', "\\\\n")
            .replace('"', "\\\\\\"");
        write!(f, "{}=\\"{}\\"", self.name, value)
""")]),
    ("v-label-escape-order", "C12", [(LB, LD, """        let value = self
            .value
            .replace('\\n', "\\\\n")
            .replace('"', "\\\\\\"")
            .replace('\\\\', "\\\\\\\\");
        write!(f, "{}=\\"{}\\"", self.name, value)
""")]),
    ("v-label-escape-debug", "C12", [(LB, LD, """        write!(f, "{}={:?}", self.name, self.value)
""")]),
    ("v-label-escape-fast", "", [(LB, LD, """        if !self.value.contains(|c| c == '\\\\' || c == '\\n' || c == '"') {
            return write!(f, "{}=\\"{}\\"", self.name, self.value);
        }
""" + LD)]),
    ("v-label-escape-fast-bad", "C12", [(LB, LD, """        if !self.value.contains(|c| c == '\\\\' || c == '"') {
            return write!(f, "{}=\\"{}\\"", self.name, self.value);
        }
""" + LD)]),
    ("v-label-escape-char-str", "", [(LB, LD, """        f.write_str(&self.name)?;
        f.write_str("=\\"")?;
        for c in self.value.chars() {
            let escaped = match c {
                '\\\\' => "\\\\\\\\",
                '\\n' => "\\\\n",
                '"' => "\\\\\\"",
                _ => {
                    write!(f, "{}", c)?;
                    continue;
                }
            };
            f.write_str(escaped)?;
        }
        f.write_str("\\"")
""")]),
    ("v-label-write-char", "", [(LB, "use std::fmt;\n", "use std::fmt::{self, Write};\n"), (LB, LD, """        write!(f, "{}=\\"", self.name)?;
        for c in self.value.chars() {
            if c == '\\\\' || c == '"' {
                f.write_char('\\\\')?;
            }
            if c == '\\n' {
                f.write_str("\\\\n")?;
            } else {
                f.write_char(c)?;
            }
        }
        f.write_char('"')
""")]),
    # ---- gathering
    ("v-gather-helpers", "", [(RG, GA, "        self.receive();\n"), (RG, "    /// Gathers metrics.\n", """    fn receive(&mut self) {
        while let Ok(collector) = self.rx.try_recv() {
            self.collectors.push(collector);
        }
    }

    fn group(metrics: Vec<Metric>) -> Vec<MetricFamily> {
        let mut families: Vec<MetricFamily> = Vec::new();
        for metric in metrics {
            match families.last_mut() {
                Some(f) if f.same_family(&metric) => f.push(metric),
                _ => families.push(MetricFamily::new(metric)),
            }
        }
        families
    }

    /// Gathers metrics.
"""), (RG, """        let mut families: Vec<MetricFamily> = Vec::new();
        for metric in metrics {
            if !families.last()""", """        return MetricFamilies(Self::group(metrics));
        #[allow(unreachable_code)]
        let mut families: Vec<MetricFamily> = Vec::new();
        for metric in Vec::new() {
            if !families.last()""")]),
    ("v-gather-last-some", "", [(RG, FAM, """            let same = match families.last() {
                Some(f) => f.same_family(&metric),
                None => false,
            };
            if same {
                if let Some(f) = families.last_mut() {
                    f.push(metric);
                }
            } else {
                families.push(MetricFamily::new(metric));
            }
""")]),
    ("v-gather-index", "", [(RG, FAM, """            let n = families.len();
            if n > 0 && families[n - 1].same_family(&metric) {
                families[n - 1].push(metric);
            } else {
                families.push(MetricFamily::new(metric));
            }
""")]),
    ("v-gather-index-first", "C15", [(RG, FAM, """            if !families.is_empty() && families[0].same_family(&metric) {
                families[0].push(metric);
            } else {
                families.push(MetricFamily::new(metric));
            }
""")]),
    ("v-gather-loop-match", "", [(RG, GA, """        loop {
            match self.rx.try_recv() {
                Ok(collector) => self.collectors.push(collector),
                Err(_) => break,
            }
        }
""")]),
    ("v-gather-recv-timeout", "C23", [(RG, GA, """        while let Ok(collector) = self.rx.recv() {
            self.collectors.push(collector);
        }
""")]),
    ("v-gather-alive", "", [(RG, COL, """        while i < self.collectors.len() {
            let alive = self.collectors[i].collect(&mut metrics);
            if !alive {
                self.collectors.swap_remove(i);
                continue;
            }
            i += 1;
        }
""")]),
    ("v-gather-remove", "", [(RG, "self.collectors.swap_remove(i);", "let _ = self.collectors.remove(i);")]),
    ("v-gather-for-range", "C06 C05", [(RG, "        let mut i = 0;\n" + COL, """        for i in (0..self.collectors.len()).rev() {
            if !self.collectors[i].collect(&mut metrics) {
                self.collectors.truncate(i);
            }
        }
""")]),
    ("v-gather-rev-swap", "", [(RG, "        let mut i = 0;\n" + COL, """        for i in (0..self.collectors.len()).rev() {
            if !self.collectors[i].collect(&mut metrics) {
                self.collectors.swap_remove(i);
            }
        }
""")]),
    ("v-gather-take", "", [(RG, "        let mut i = 0;\n" + COL, """        let collectors = std::mem::replace(&mut self.collectors, Vec::new());
        for mut collector in collectors {
            if collector.collect(&mut metrics) {
                self.collectors.push(collector);
            }
        }
""")]),
    ("v-gather-take-break", "C05 C06", [(RG, "        let mut i = 0;\n" + COL, """        let collectors = std::mem::replace(&mut self.collectors, Vec::new());
        for mut collector in collectors {
            if !collector.collect(&mut metrics) {
                break;
            }
            self.collectors.push(collector);
        }
""")]),
    ("v-register-match", "", [(RG, """            if let Some(m) = collector.collect() {
                metrics.extend(m);
                true
            } else {
                false
            }
""", """            match collector.collect() {
                None => false,
                Some(collected) => {
                    for m in collected {
                        metrics.push(m);
                    }
                    true
                }
            }
""")]),
    ("v-register-nonempty", "C06 C05", [(RG, """                metrics.extend(m);
                true
""", """                let n = metrics.len();
                metrics.extend(m);
                metrics.len() > n
""")]),
    ("v-register-map", "", [(RG, """            if let Some(m) = collector.collect() {
                metrics.extend(m);
                true
            } else {
                false
            }
""", """            collector.collect().map(|m| metrics.extend(m)).is_some()
""")]),
    ("v-default-registry-map", "", [(RG, """    match default_gatherer().lock() {
        Ok(gatherer) => gatherer.registry(),
        Err(poisoned) => poisoned.into_inner().registry(),
    }
""", """    default_gatherer()
        .lock()
        .unwrap_or_else(|e| e.into_inner())
        .registry()
""")]),
    ("v-default-registry-unwrap", "C28", [(RG, """    match default_gatherer().lock() {
        Ok(gatherer) => gatherer.registry(),
        Err(poisoned) => poisoned.into_inner().registry(),
    }
""", """    default_gatherer().lock().unwrap().registry()
""")]),
    # ---- histograms
    ("v-hist-partition-point", "", [(H, HOBS, """        assert!(!value.is_nan());
        let buckets = &self.0.buckets;
        let i = buckets.partition_point(|b| b.upper_bound() < value);
        if let Some(b) = buckets.get(i) {
            b.increment();
        }
        self.0.sum.add(value);
""")]),
    ("v-hist-partition-le", "C17", [(H, HOBS, """        assert!(!value.is_nan());
        let buckets = &self.0.buckets;
        let i = buckets.partition_point(|b| b.upper_bound() <= value);
        if let Some(b) = buckets.get(i) {
            b.increment();
        }
        self.0.sum.add(value);
""")]),
    ("v-hist-match-search", "", [(H, HOBS, """        assert!(!value.is_nan());
        let found = self
            .0
            .buckets
            .binary_search_by(|b| b.upper_bound().partial_cmp(&value).unwrap());
        let i = match found {
            Ok(i) | Err(i) => i,
        };
        self.0.sum.add(value);
        self.0.buckets[i].increment();
""")]),
    ("v-hist-search-total", "C17", [(H, HOBS, HOBS.replace('b.upper_bound().partial_cmp(&value).expect("Never fails")', 'b.upper_bound().total_cmp(&value)'))]),
    ("v-hist-for-loop", "", [(H, HOBS, """        assert!(!value.is_nan());
        for bucket in &self.0.buckets {
            if value <= bucket.upper_bound() {
                bucket.increment();
                break;
            }
        }
        self.0.sum.add(value);
""")]),
    ("v-hist-for-nobreak", "C17 C18", [(H, HOBS, """        assert!(!value.is_nan());
        for bucket in &self.0.buckets {
            if value <= bucket.upper_bound() {
                bucket.increment();
            }
        }
        self.0.sum.add(value);
""")]),
    ("v-hist-rev-loop", "", [(H, HOBS, """        assert!(!value.is_nan());
        let mut i = self.0.buckets.len() - 1;
        while i > 0 && value <= self.0.buckets[i - 1].upper_bound() {
            i -= 1;
        }
        self.0.buckets[i].increment();
        self.0.sum.add(value);
""")]),
    ("v-hist-count-fold", "", [(H, "self.0.buckets.iter().map(|b| b.count()).sum()", "self.0.buckets.iter().fold(0, |n, b| n + b.count())")]),
    ("v-hist-count-last", "", [(H, "self.0.buckets.iter().map(|b| b.count()).sum()", "self.cumulative_buckets()\n            .last()\n            .map_or(0, |b| b.cumulative_count())")]),
    ("v-hist-count-finite", "C17 C18 C03", [(H, "self.0.buckets.iter().map(|b| b.count()).sum()", "self.0.buckets.iter().take_while(|b| b.upper_bound().is_finite()).map(|b| b.count()).sum()")]),
    ("v-hist-sort-total", "", [(H, HSORT, HSORT.replace('.partial_cmp(&b.upper_bound())\n                .expect("Never fails")', '.total_cmp(&b.upper_bound())'))]),
    ("v-hist-dedup-key", "", [(H, HSORT, HSORT.replace("dedup_by(|a, b| a.upper_bound() == b.upper_bound())", "dedup_by_key(|b| b.upper_bound())"))]),
    ("v-hist-dedup-bits", "C17", [(H, HSORT, HSORT.replace("dedup_by(|a, b| a.upper_bound() == b.upper_bound())", "dedup_by_key(|b| b.upper_bound().to_bits())"))]),
    ("v-hist-dedup-first", "C17", [(H, HSORT, "        buckets.dedup_by(|a, b| a.upper_bound() == b.upper_bound());\n" + HSORT.split("        buckets.dedup_by")[0])]),
    ("v-hist-linear-for", "", [(H, """        for x in (0..count).map(|i| start + i as f64 * width) {
            this.bucket(x);
        }
""", """        for i in 0..count {
            this.bucket(start + width * i as f64);
        }
""")]),
    ("v-hist-linear-buckets", "", [(H, """        for x in (0..count).map(|i| start + i as f64 * width) {
            this.bucket(x);
        }
""", """        this.buckets((0..count).map(|i| start + i as f64 * width));
""")]),
    ("v-hist-linear-inclusive", "C17 C19", [(H, """        for x in (0..count).map(|i| start + i as f64 * width) {
            this.bucket(x);
        }
""", """        this.bucket_upper_bounds = (0..count).map(|i| start + i as f64 * width).collect();
""")]),
    ("v-hist-buckets-extend", "", [(H, """        self.bucket_upper_bounds
            .append(&mut upper_bounds.into_iter().collect::<Vec<_>>());
""", """        self.bucket_upper_bounds.extend(upper_bounds);
""")]),
    ("v-hist-buckets-for", "", [(H, """        self.bucket_upper_bounds
            .append(&mut upper_bounds.into_iter().collect::<Vec<_>>());
        self
""", """        for x in upper_bounds {
            self.bucket(x);
        }
        self
""")]),
    ("v-hist-buckets-set", "C17 C19 C26", [(H, """        self.bucket_upper_bounds
            .append(&mut upper_bounds.into_iter().collect::<Vec<_>>());
""", """        self.bucket_upper_bounds = upper_bounds.into_iter().collect();
""")]),
    ("v-cum-question", "", [(BK, CN, """        let b = self.iter.next()?;
        self.cumulative_count += b.count();
        Some(CumulativeBucket {
            cumulative_count: self.cumulative_count,
            upper_bound: b.upper_bound(),
        })
""")]),
    ("v-cum-after", "C18", [(BK, CN, """        let b = self.iter.next()?;
        let cumulative_count = self.cumulative_count;
        self.cumulative_count += b.count();
        Some(CumulativeBucket {
            cumulative_count,
            upper_bound: b.upper_bound(),
        })
""")]),
    ("v-cum-twice", "C18", [(BK, CN, CN.replace("                cumulative_count: self.cumulative_count,", "                cumulative_count: self.cumulative_count.max(b.count()) + b.count() - b.count(),").replace("                upper_bound: b.upper_bound(),", "                upper_bound: b.upper_bound().max(0.0),"))]),
    ("v-agg-retain", "", [(BK, AMIN, """        self.iters.retain_mut(|it| it.peek().is_some());
        if self.iters.is_empty() {
            return None;
        }
        let mut min = std::f64::INFINITY;
        for it in &mut self.iters {
            min = min.min(it.peek().expect("Never fails").upper_bound());
        }
""")]),
    ("v-agg-min-fold", "", [(BK, AMIN, """        self.iters.retain_mut(|it| it.peek().is_some());
        if self.iters.is_empty() {
            return None;
        }
        let min = self
            .iters
            .iter_mut()
            .filter_map(|it| it.peek().map(|b| b.upper_bound()))
            .fold(std::f64::INFINITY, f64::min);
""")]),
    ("v-agg-if-let", "", [(BK, ASUM, """        for buckets in &mut self.iters {
            if buckets.peek().map_or(false, |b| b.upper_bound() == min) {
                if let Some(bucket) = buckets.next() {
                    self.cumulative_count += bucket.count();
                }
            }
        }
""")]),
    ("v-agg-break", "C19", [(BK, ASUM, ASUM.replace("                self.cumulative_count += bucket.count();\n", "                self.cumulative_count += bucket.count();\n                break;\n"))]),
    ("v-agg-all-inf", "C19", [(BK, AMIN, AMIN.replace("let mut min = std::f64::INFINITY;", "let mut min = std::f64::MAX;"))]),
    # ---- summaries
    ("v-expire-helper", "", [(S, EXP, "            Self::expire(now, self.0.window, &mut samples);\n"), (S, "    pub(crate) fn with_current_samples<F, T>", """    fn expire(now: SystemTime, window: Duration, samples: &mut VecDeque<(SystemTime, f64)>) {
        while let Some(&(time, _)) = samples.front() {
            match now.duration_since(time) {
                Ok(age) if age > window => {
                    samples.pop_front();
                }
                _ => break,
            }
        }
    }

    pub(crate) fn with_current_samples<F, T>""")]),
    ("v-expire-cutoff", "", [(S, EXP, """            if let Some(start) = now.checked_sub(self.0.window) {
                while samples.front().map_or(false, |s| s.0 < start) {
                    samples.pop_front();
                }
            }
""")]),
    ("v-expire-cutoff-le", "C20", [(S, EXP, """            if let Some(start) = now.checked_sub(self.0.window) {
                while samples.front().map_or(false, |s| s.0 <= start) {
                    samples.pop_front();
                }
            }
""")]),
    ("v-expire-cutoff-panic", "C28", [(S, EXP, """            let start = now - self.0.window;
            while samples.front().map_or(false, |s| s.0 < start) {
                samples.pop_front();
            }
""")]),
    ("v-expire-if", "C20", [(S, EXP, EXP.replace("while samples", "if samples"))]),
    ("v-expire-secs", "C20", [(S, EXP, EXP.replace("d > self.0.window", "d.as_secs() > self.0.window.as_secs()"))]),
    ("v-expire-drain", "", [(S, EXP, """            let n = samples
                .iter()
                .take_while(|s| now.duration_since(s.0).map_or(false, |d| d > self.0.window))
                .count();
            samples.drain(..n);
""")]),
    ("v-expire-position", "", [(S, EXP, """            let expired = samples
                .iter()
                .position(|s| now.duration_since(s.0).map_or(true, |d| d <= self.0.window))
                .unwrap_or_else(|| samples.len());
            samples.drain(..expired);
""")]),
    ("v-observe-order", "", [(S, SOBS, """        self.0.sum.add(value);
        self.0.count.inc();
        self.with_current_samples(|now, samples| samples.push_back((now, value)));
""")]),
    ("v-observe-front", "C20", [(S, SOBS, SOBS.replace("push_back", "push_front"))]),
    ("v-quantile-helper", "", [(S, QS, """        self.0
            .quantiles
            .iter()
            .map(|&q| (q, Self::value_at(&samples, q)))
            .collect()
"""), (S, "        let count = samples.len();\n", ""), (S, "    pub(crate) fn quantiles_without_values", """    fn value_at(sorted: &[f64], quantile: Quantile) -> f64 {
        let n = sorted.len();
        let rank = (quantile.as_f64() * n as f64).floor() as usize;
        if rank < n {
            sorted[rank]
        } else {
            sorted[n - 1]
        }
    }

    pub(crate) fn quantiles_without_values""")]),
    ("v-quantile-get", "", [(S, QS, """        let last = samples[count - 1];
        self.0
            .quantiles
            .iter()
            .map(|&quantile| {
                let index = (quantile.as_f64() * count as f64) as usize;
                (quantile, samples.get(index).cloned().unwrap_or(last))
            })
            .collect()
""")]),
    ("v-quantile-round", "C21", [(S, QS, QS.replace(".floor()", ".round()"))]),
    ("v-quantile-minus", "C21", [(S, QS, QS.replace("quantile.as_f64() * count as f64", "quantile.as_f64() * (count - 1) as f64"))]),
    ("v-quantile-f32", "C21", [(S, QS, QS.replace("(quantile.as_f64() * count as f64)", "(quantile.as_f64() as f32 * count as f32)"))]),
    ("v-quantile-retain", "", [(S, """            samples
                .iter()
                .map(|&(_, v)| v)
                .filter(|v| !v.is_nan())
                .collect::<Vec<_>>()
""", """            let mut values = samples.iter().map(|s| s.1).collect::<Vec<_>>();
            values.retain(|v| !v.is_nan());
            values
""")]),
    ("v-quantile-finite", "C21 C20", [(S, "                .filter(|v| !v.is_nan())\n", "                .filter(|v| v.is_finite())\n")]),
    ("v-quantile-total", "", [(S, 'samples.sort_by(|a, b| a.partial_cmp(b).expect("Never fails"));', 'samples.sort_by(f64::total_cmp);')]),
    ("v-quantile-unstable", "", [(S, 'samples.sort_by(|a, b| a.partial_cmp(b).expect("Never fails"));', 'samples.sort_unstable_by(|a, b| a.partial_cmp(b).unwrap());')]),
    ("v-quantile-desc", "C21", [(S, 'samples.sort_by(|a, b| a.partial_cmp(b).expect("Never fails"));', 'samples.sort_by(|a, b| b.partial_cmp(a).expect("Never fails"));')]),
    # ---- rendering
    ("v-text-collect", "", [(MT, TXT, "        self.0.iter().map(|m| m.to_string()).collect::<String>()\n"), (MT, "        use std::fmt::Write;\n\n", "")]),
    ("v-text-push", "", [(MT, TXT, TXT.replace('write!(buf, "{}", m).expect("Never fails");', "buf.push_str(&m.to_string());")), (MT, "        use std::fmt::Write;\n\n", "")]),
    ("v-text-join", "C11 C14", [(MT, TXT, '        self.0.iter().map(|m| m.to_string()).collect::<Vec<_>>().join("\\n")\n'), (MT, "        use std::fmt::Write;\n\n", "")]),
    ("v-text-skip", "C11 C14", [(MT, "        for m in &self.0 {\n            write!(buf", "        for m in self.0.iter().filter(|m| m.help().is_some() || !m.name().name().is_empty() && m.name().namespace().is_some()) {\n            write!(buf")]),
    ("v-counter-line", "", [(C, """        write!(f, "{}", self.metric_name())?;
        if !self.labels().is_empty() {
            write!(f, "{}", self.labels())?;
        }
        write!(f, " {}", MetricValue(self.value()))?;
""", """        self.metric_name().fmt(f)?;
        if self.labels().len() > 0 {
            self.labels().fmt(f)?;
        }
        write!(f, " {}", MetricValue(self.value()))?;
""")]),
    ("v-counter-line-ts", "C11 C14", [(C, """        if let Some(timestamp) = self.timestamp().get() {
            write!(f, " {}", timestamp)?;
        }
""", """        if let Some(timestamp) = self.timestamp().get() {
            write!(f, " {}", timestamp / 1000)?;
        }
""")]),
    ("v-counter-line-match", "", [(C, """        if let Some(timestamp) = self.timestamp().get() {
            write!(f, " {}", timestamp)?;
        }
        Ok(())
""", """        match self.timestamp().get() {
            Some(timestamp) => write!(f, " {}", timestamp),
            None => Ok(()),
        }
""")]),
    ("v-counter-line-pos", "C11 C14", [(C, "        if let Some(timestamp) = self.timestamp().get() {\n", "        if let Some(timestamp) = self.timestamp().get().filter(|&t| t >= 0) {\n")]),
    # ---- aggregation
    ("v-merge-early", "", [(AG, SAME, """        let is_same_metric = self.metric_name() == other.metric_name()
            && self.labels().iter().eq(other.labels().iter());
        if !is_same_metric {
            return false;
        }
        if is_same_metric {
            self.value += other.value;
""")]),
    ("v-merge-zip", "C15 C16", [(AG, "            && self.labels().iter().eq(other.labels().iter());\n        if is_same_metric {\n            self.value += other.value;", "            && self.labels().iter().zip(other.labels().iter()).all(|(a, b)| a == b);\n        if is_same_metric {\n            self.value += other.value;")]),
    ("v-merge-zip-len", "", [(AG, "            && self.labels().iter().eq(other.labels().iter());\n        if is_same_metric {\n            self.value += other.value;", "            && self.labels().len() == other.labels().len()\n            && self.labels().iter().zip(other.labels().iter()).all(|(a, b)| a == b);\n        if is_same_metric {\n            self.value += other.value;")]),
    ("v-merge-text", "", [(AG, "            && self.labels().iter().eq(other.labels().iter());\n        if is_same_metric {\n            self.value += other.value;", "            && self.labels().to_string() == other.labels().to_string();\n        if is_same_metric {\n            self.value += other.value;")]),
    ("v-merge-names", "C15 C16", [(AG, "            && self.labels().iter().eq(other.labels().iter());\n        if is_same_metric {\n            self.value += other.value;", "            && self.labels().iter().map(|l| l.name()).eq(other.labels().iter().map(|l| l.name()));\n        if is_same_metric {\n            self.value += other.value;")]),
    ("v-merge-ts-if", "", [(AG, "            self.timestamp = cmp::max(self.timestamp, other.timestamp);\n            true\n        } else {\n            false\n        }\n    }\n}\nimpl fmt::Display for AggregatedCounter", "            if other.timestamp > self.timestamp {\n                self.timestamp = other.timestamp;\n            }\n            true\n        } else {\n            false\n        }\n    }\n}\nimpl fmt::Display for AggregatedCounter")]),
    ("v-merge-ts-or", "C16", [(AG, "            self.timestamp = cmp::max(self.timestamp, other.timestamp);\n            true\n        } else {\n            false\n        }\n    }\n}\nimpl fmt::Display for AggregatedCounter", "            self.timestamp = self.timestamp.or(other.timestamp);\n            true\n        } else {\n            false\n        }\n    }\n}\nimpl fmt::Display for AggregatedCounter")]),
    # ---- values, times
    ("v-counter-fract", "", [(C, CADD, """        if count.fract() == 0.0 && count < 18_446_744_073_709_551_616.0 {
            self.u64.add(count as u64);
        } else {
            self.f64.add(count);
        }
""")]),
    ("v-counter-trunc", "C03", [(C, CADD, """        if count < 18_446_744_073_709_551_616.0 {
            self.u64.add(count as u64);
            self.f64.add(count - count.floor() * 2.0 + count.floor());
        } else {
            self.u64.add(u64::max_value());
        }
""")]),
    ("v-counter-f64-only", "", [(C, CADD, "        self.f64.add(count);\n")]),
    ("v-counter-nan-check", "", [(C, 'track_assert!(count >= 0.0, ErrorKind::InvalidInput, "count={}", count);', 'if count.is_nan() || count < 0.0 {\n            track_panic!(ErrorKind::InvalidInput, "count={}", count);\n        }')]),
    ("v-counter-sign-check", "C02", [(C, 'track_assert!(count >= 0.0, ErrorKind::InvalidInput, "count={}", count);', 'track_assert!(count.is_sign_positive(), ErrorKind::InvalidInput, "count={}", count);')]),
    ("v-millis", "", [(TS, MILLI, "            d.as_millis() as i64\n")]),
    ("v-millis-f64", "C24", [(TS, MILLI, "            (d.as_secs() as f32 * 1000.0) as i64 + i64::from(d.subsec_millis())\n")]),
    ("v-millis-round", "C24", [(TS, MILLI, "            d.as_secs() as i64 * 1000 + (i64::from(d.subsec_nanos()) + 500_000) / 1000 / 1000\n")]),
    ("v-settime-ok-err", "", [(TS, SETT, """        let millis = match time.duration_since(UNIX_EPOCH) {
            Ok(d) => to_millis(d),
            Err(e) => -to_millis(e.duration()),
        };
        self.set(millis);
""")]),
    ("v-settime-zero", "C24", [(TS, SETT, """        let millis = time.duration_since(UNIX_EPOCH).map(to_millis).unwrap_or(0);
        self.set(millis);
""")]),
    ("v-seconds-as", "", [(TS, "    d.as_secs() as f64 + f64::from(d.subsec_nanos()) / 1_000_000_000.0\n", "    d.as_secs_f64()\n")]),
    ("v-seconds-millis", "C22 C24", [(TS, "    d.as_secs() as f64 + f64::from(d.subsec_nanos()) / 1_000_000_000.0\n", "    d.as_secs() as f64 + f64::from(d.subsec_millis()) / 1000.0\n")]),
    ("v-time-helper", "", [(C, CT, """        let (result, elapsed) = timed(f);
        let _ = self.add(elapsed);
        result
"""), (C, "/// `Counter` builder.\n", """fn timed<F, T>(f: F) -> (T, f64)
where
    F: FnOnce() -> T,
{
    let start = Instant::now();
    let result = f();
    (result, timestamp::duration_to_seconds(start.elapsed()))
}

/// `Counter` builder.
""")]),
    ("v-time-before", "C22", [(C, CT, """        let start = Instant::now();
        let elapsed = timestamp::duration_to_seconds(start.elapsed());
        let result = f();
        self.add(elapsed).expect("Never fails");
        result
""")]),
    # ---- builders
    ("v-labels-for", "", [(C, CLAB, """        let mut labels = Vec::with_capacity(self.labels.len());
        for &(ref name, ref value) in &self.labels {
            labels.push(track!(Label::new(name, value))?);
        }
""")]),
    ("v-labels-helper", "", [(C, CLAB, "        let labels = track!(make_labels(&self.labels))?;\n"), (C, "/// `Counter` builder.\n", """fn make_labels(pairs: &[(String, String)]) -> Result<Vec<Label>> {
    pairs
        .iter()
        .map(|pair| track!(Label::new(&pair.0, &pair.1)))
        .collect()
}

/// `Counter` builder.
""")]),
    ("v-labels-filter", "C10", [(C, CLAB, """        let labels = self
            .labels
            .iter()
            .filter_map(|&(ref name, ref value)| Label::new(name, value).ok())
            .collect::<Vec<_>>();
""")]),
    ("v-labels-empty-value", "C26", [(C, CLAB, CLAB.replace("            .iter()\n", "            .iter()\n            .filter(|l| !l.1.is_empty())\n"))]),
    ("v-finish-register-first", "", [(C, """        for r in &self.registries {
            r.register(counter.collector());
        }
        Ok(counter)
""", """        self.registries
            .iter()
            .map(|r| r.register(counter.collector()))
            .for_each(drop);
        Ok(counter)
""")]),
    ("v-finish-register-lazy", "C05", [(C, """        for r in &self.registries {
            r.register(counter.collector());
        }
        Ok(counter)
""", """        let _ = self.registries
            .iter()
            .map(|r| r.register(counter.collector()));
        Ok(counter)
""")]),
    ("v-finish-register-rev", "", [(C, "        for r in &self.registries {\n            r.register(counter.collector());", "        for r in self.registries.iter().rev() {\n            r.register(counter.collector());")]),
    ("v-finish-register-skip", "C05", [(C, "        for r in &self.registries {\n            r.register(counter.collector());", "        for r in self.registries.iter().skip(1).chain(self.registries.iter().take(1).filter(|_| self.registries.len() > 1)) {\n            r.register(counter.collector());")]),
]
