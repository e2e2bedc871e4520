"""More edits: summaries (C20, C21)."""
from mutants import C, G, H, S, A, RG, LB, MT, AG, BK, TS, QN, PR, MB

EXP = """            while samples
                .front()
                .and_then(|s| now.duration_since(s.0).ok())
                .and_then(|d| if d > self.0.window { Some(()) } else { None })
                .is_some()
            {
                samples.pop_front();
            }
"""
WCS = """        let now = SystemTime::now();
        if let Ok(mut samples) = self.0.samples.lock() {
"""
IDX = "let index = cmp::min(count - 1, (quantile.as_f64() * count as f64).floor() as usize);"
SAMP = """                .map(|&(_, v)| v)
                .filter(|v| !v.is_nan())
                .collect::<Vec<_>>()
"""
SORT = '        samples.sort_by(|a, b| a.partial_cmp(b).expect("Never fails"));\n'
EMPTY = """        if samples.is_empty() {
            return Vec::new();
        }
"""
AEMPTY = """        if aggregated_samples.is_empty() {
            return Vec::new();
        }
"""
ASAMP = "aggregated_samples.extend(samples.iter().map(|&(_, v)| v).filter(|v| !v.is_nan()));"
ASORT = '        aggregated_samples.sort_by(|a, b| a.partial_cmp(b).expect("Never fails"));\n'
OBS = "            samples.push_back((now, value));\n"
BQ = """        quantiles.sort_by(|a, b| a.as_f64().partial_cmp(&b.as_f64()).expect("Never fails"));
        quantiles.dedup();
"""
AQ = "        quantiles.sort();\n        quantiles.dedup();\n"


def S1(old, new):
    return [(S, old, new)]


ALL = [
    # the window
    ("win-ge", "C20", S1("if d > self.0.window", "if d >= self.0.window")),
    ("win-lt", "C20", S1("if d > self.0.window", "if d < self.0.window")),
    ("win-if", "C20", S1(EXP, EXP.replace("while samples", "if samples"))),
    ("win-pop-back", "C20", S1("samples.pop_front();", "samples.pop_back();")),
    ("win-back", "C20", S1("                .front()\n", "                .back()\n")),
    ("win-secs", "C20", S1("if d > self.0.window", "if d.as_secs() > self.0.window.as_secs()")),
    ("win-millis", "C20", S1("if d > self.0.window", "if d.as_millis() > self.0.window.as_millis()")),
    ("win-clear", "C20", S1("                samples.pop_front();", "                samples.clear();")),
    ("win-keep-one", "C20", S1(EXP, EXP.replace("while samples\n", "while samples.len() > 1 && samples\n"))),
    ("win-swapped", "C20", S1("now.duration_since(s.0)", "s.0.duration_since(now)")),
    ("win-none", "C20", S1(EXP, "")),
    ("win-cap", "C20", S1(OBS, OBS + "            if samples.len() > 100_000 {\n                samples.pop_front();\n            }\n")),
    ("win-push-front", "C20", S1(OBS, OBS.replace("push_back", "push_front"))),
    ("win-old-time", "C20", S1(OBS, OBS.replace("(now, value)", "(SystemTime::now() - Duration::from_secs(1), value)"))),
    ("win-epoch-time", "C20", S1(OBS, OBS.replace("(now, value)", "(::std::time::UNIX_EPOCH, value)"))),
    ("win-nan-skip", "C20", S1(OBS, "            if !value.is_nan() {\n                samples.push_back((now, value));\n            }\n")),
    ("win-twice", "C20", S1(OBS, OBS + OBS)),
    ("win-double", "C20", S1("            window: self.window,\n", "            window: self.window * 2,\n")),
    ("win-zero", "C20", S1("            window: self.window,\n", "            window: Duration::from_secs(10),\n")),
    ("win-new-lost", "C20", S1("            window,\n            quantiles: Vec::new(),", "            window: { let _ = window; Duration::from_secs(60) },\n            quantiles: Vec::new(),")),
    ("win-drain", "C20", S1("            samples\n                .iter()\n                .map(|&(_, v)| v)\n", "            samples\n                .drain(..)\n                .map(|(_, v)| v)\n")),
    ("win-agg-drain", "C20", [(AG, ASAMP, "aggregated_samples.extend(samples.drain(..).map(|(_, v)| v).filter(|v| !v.is_nan()));")]),
    ("win-agg-take", "C20 C21", [(AG, ASAMP, ASAMP + "\n                samples.clear();")]),
    ("win-after", "C20", S1(EXP + "            f(now, &mut samples)\n", "            let r = f(now, &mut samples);\n" + EXP + "            r\n")),
    ("win-half", "C20", S1("if d > self.0.window", "if d > self.0.window / 2")),
    ("win-count-reset", "C20 C02", S1("    pub fn quantiles(&self) -> Vec<(Quantile, f64)> {\n", "    pub fn quantiles(&self) -> Vec<(Quantile, f64)> {\n        self.0.sum.update(|s| if s.is_nan() { 0.0 } else { s });\n")),
    ("benign-win-loop", "", S1(EXP, """            loop {
                let expired = match samples.front() {
                    Some(&(t, _)) => match now.duration_since(t) {
                        Ok(d) => d > self.0.window,
                        Err(_) => false,
                    },
                    None => false,
                };
                if !expired {
                    break;
                }
                samples.pop_front();
            }
""")),
    ("benign-win-maplet", "", S1(EXP, """            while let Some(&(t, _)) = samples.front() {
                let d = now.duration_since(t).unwrap_or_else(|_| Duration::from_secs(0));
                if d <= self.0.window {
                    break;
                }
                samples.pop_front();
            }
""")),
    ("benign-win-retain", "", S1(EXP, """            let window = self.0.window;
            samples.retain(|s| now.duration_since(s.0).map(|d| d <= window).unwrap_or(true));
""")),
    ("benign-win-helper", "", [(S, EXP, "            self.0.expire(now, &mut samples);\n"), (S, "#[derive(Debug)]\nstruct Inner {", """impl Inner {
    fn expire(&self, now: SystemTime, samples: &mut VecDeque<(SystemTime, f64)>) {
        let is_old = |s: &(SystemTime, f64)| now.duration_since(s.0).map(|d| d > self.window).unwrap_or(false);
        while samples.front().map(is_old).unwrap_or(false) {
            samples.pop_front();
        }
    }
}

#[derive(Debug)]
struct Inner {""")]),
    ("benign-win-now-in", "", S1("""        let now = SystemTime::now();
        if let Ok(mut samples) = self.0.samples.lock() {
""", """        if let Ok(mut samples) = self.0.samples.lock() {
            let now = SystemTime::now();
""".replace("            let now", "            let now")) + S1("            f(now, &mut VecDeque::new())", "            f(SystemTime::now(), &mut VecDeque::new())")),
    ("benign-win-checked", "", S1(EXP, """            if let Some(start) = now.checked_sub(self.0.window) {
                while samples.front().map_or(false, |s| s.0 < start) {
                    samples.pop_front();
                }
            }
""")),
    ("benign-win-match-lock", "", S1(WCS, """        let now = SystemTime::now();
        let guard = self.0.samples.lock();
        if let Ok(mut samples) = guard {
""")),
    # quantiles
    ("q-ceil", "C21", S1(IDX, IDX.replace(".floor()", ".ceil()"))),
    ("q-round", "C21", S1(IDX, IDX.replace(".floor()", ".round()"))),
    ("q-nomin", "C21 C28", S1(IDX, "let index = (quantile.as_f64() * count as f64).floor() as usize;")),
    ("q-minus1", "C21", S1(IDX, IDX.replace("count as f64)", "(count - 1) as f64)"))),
    ("q-min-count", "C21 C28", S1(IDX, IDX.replace("count - 1,", "count,"))),
    ("q-sat", "C21", S1(IDX, "let index = ((quantile.as_f64() * count as f64).ceil() as usize).saturating_sub(1);")),
    ("q-nosort", "C21", S1(SORT, "")),
    ("q-sort-desc", "C21", S1(SORT, SORT.replace("a.partial_cmp(b)", "b.partial_cmp(a)"))),
    ("q-sort-abs", "C21", S1(SORT, SORT.replace("a.partial_cmp(b)", "a.abs().partial_cmp(&b.abs())"))),
    ("q-nan-kept", "C21", S1(SAMP, SAMP.replace("                .filter(|v| !v.is_nan())\n", ""))),
    ("q-finite", "C21", S1(SAMP, SAMP.replace("!v.is_nan()", "v.is_finite()"))),
    ("q-positive", "C21", S1(SAMP, SAMP.replace("!v.is_nan()", "*v >= 0.0"))),
    ("q-noempty", "C21 C28", S1(EMPTY, "")),
    ("q-few", "C21", S1(EMPTY, EMPTY.replace("samples.is_empty()", "samples.len() < 2"))),
    ("q-dedup-samples", "C21", S1(SORT, SORT + "        samples.dedup();\n")),
    ("q-skip", "C21", S1("            samples\n                .iter()\n                .map(|&(_, v)| v)\n", "            samples\n                .iter()\n                .skip(1)\n                .map(|&(_, v)| v)\n")),
    ("q-take", "C21", S1("                (quantile, samples[index])\n            })\n", "                (quantile, samples[index])\n            })\n            .take(10)\n")),
    ("q-one-skip", "C21", S1("            .quantiles\n            .iter()\n            .map(|&quantile| {", "            .quantiles\n            .iter()\n            .filter(|q| q.as_f64() < 1.0)\n            .map(|&quantile| {")),
    ("q-wrong-pair", "C21", S1("                (quantile, samples[index])\n", "                (quantile, samples[index] + 0.5)\n")),
    ("q-interp", "C21", S1("                (quantile, samples[index])\n", "                (quantile, (samples[index] + samples[cmp::min(index + 1, count - 1)]) / 2.0)\n")),
    ("q-build-nosort", "C21", S1(BQ, "        quantiles.dedup();\n")),
    ("q-build-nodedup", "C21", S1(BQ, BQ.replace("        quantiles.dedup();\n", ""))),
    ("q-build-dedup-first", "C21", S1(BQ, """        quantiles.dedup();
        quantiles.sort_by(|a, b| a.as_f64().partial_cmp(&b.as_f64()).expect("Never fails"));
""")),
    ("q-build-desc", "C21", S1(BQ, BQ.replace("a.as_f64().partial_cmp(&b.as_f64())", "b.as_f64().partial_cmp(&a.as_f64())"))),
    ("q-build-cut", "C21", S1(BQ, BQ + "        quantiles.truncate(10);\n")),
    ("q-range-open", "C08", [(QN, "0.0 <= quantile && quantile <= 1.0", "0.0 <= quantile")]),
    ("q-agg-nosort", "C21", [(AG, ASORT, "")]),
    ("q-agg-desc", "C21", [(AG, ASORT, ASORT.replace("a.partial_cmp(b)", "b.partial_cmp(a)"))]),
    ("q-agg-nan", "C21", [(AG, ASAMP, ASAMP.replace(".filter(|v| !v.is_nan())", ""))]),
    ("q-agg-finite", "C21", [(AG, ASAMP, ASAMP.replace("!v.is_nan()", "v.is_finite()"))]),
    ("q-agg-noempty", "C21", [(AG, AEMPTY, "")]),
    ("q-agg-nomin", "C21", [(AG, IDX, "let index = (quantile.as_f64() * count as f64).floor() as usize;")]),
    ("q-agg-ceil", "C21", [(AG, IDX, IDX.replace(".floor()", ".ceil()"))]),
    ("q-agg-nodedup", "C21", [(AG, AQ, "        quantiles.sort();\n")]),
    ("q-agg-noqsort", "C21", [(AG, AQ, "        quantiles.dedup();\n")]),
    ("q-agg-first", "C21", [(AG, "            .flat_map(|s| s.quantiles_without_values().iter())", "            .take(1)\n            .flat_map(|s| s.quantiles_without_values().iter())")]),
    ("q-agg-first-samples", "C21", [(AG, "        for summary in &self.inners {", "        for summary in self.inners.iter().take(1) {")]),
    ("q-agg-only-new", "C21", [(AG, "        for summary in &self.inners {", "        for summary in self.inners.iter().skip(1) {")]),
    ("q-agg-break", "C21", [(AG, ASAMP + "\n            });\n", ASAMP + "\n            });\n            if aggregated_samples.len() > 1000 {\n                break;\n            }\n")]),
    ("q-agg-quant-half", "C21", [(AG, "            .flat_map(|s| s.quantiles_without_values().iter())\n            .cloned()", "            .flat_map(|s| s.quantiles_without_values().iter())\n            .filter(|q| q.as_f64() > 0.0)\n            .cloned()")]),
    ("benign-q-loop", "", S1("""        self.0
            .quantiles
            .iter()
            .map(|&quantile| {
                """ + IDX + """
                (quantile, samples[index])
            })
            .collect()
""", """        let mut pairs = Vec::with_capacity(self.0.quantiles.len());
        for quantile in &self.0.quantiles {
            let rank = (quantile.as_f64() * count as f64) as usize;
            let index = if rank < count { rank } else { count - 1 };
            pairs.push((*quantile, samples[index]));
        }
        pairs
""")),
    ("benign-q-last", "", S1("""                """ + IDX + """
                (quantile, samples[index])
""", """                let rank = (quantile.as_f64() * count as f64).floor() as usize;
                let value = samples.get(rank).cloned().unwrap_or_else(|| samples[count - 1]);
                (quantile, value)
""")),
    ("benign-q-fmin", "", S1(IDX, "let index = (quantile.as_f64() * count as f64).floor().min((count - 1) as f64) as usize;")),
    ("benign-q-total", "", S1(SORT, "        samples.sort_by(|a, b| a.total_cmp(b));\n")),
    ("benign-q-unwrap", "", S1(SORT, "        samples.sort_by(|x, y| x.partial_cmp(y).unwrap_or(cmp::Ordering::Equal));\n")),
    ("benign-q-unstable", "", S1(SORT, SORT.replace("sort_by", "sort_unstable_by"))),
    ("benign-q-if", "", S1(EMPTY, "        if samples.len() == 0 {\n            return vec![];\n        }\n")),
    ("benign-q-push", "", S1("""            samples
                .iter()
""" + SAMP, """            let mut vs = Vec::new();
            for &(_, v) in samples.iter() {
                if v.is_nan() {
                    continue;
                }
                vs.push(v);
            }
            vs
""")),
    ("benign-q-helper", "", [(S, IDX, "let index = rank(quantile, count);"), (S, "#[derive(Debug)]\nstruct Inner {", """fn rank(quantile: Quantile, count: usize) -> usize {
    cmp::min(count - 1, (count as f64 * quantile.as_f64()).floor() as usize)
}

#[derive(Debug)]
struct Inner {""")]),
    ("benign-q-agg-for", "", [(AG, ASAMP, "for &(_, v) in samples.iter() {\n                    if !v.is_nan() {\n                        aggregated_samples.push(v);\n                    }\n                }")]),
    ("benign-q-agg-qfor", "", [(AG, """        let mut quantiles = self
            .inners
            .iter()
            .flat_map(|s| s.quantiles_without_values().iter())
            .cloned()
            .collect::<Vec<_>>();
""", """        let mut quantiles = Vec::new();
        for s in &self.inners {
            quantiles.extend_from_slice(s.quantiles_without_values());
        }
""")]),
    ("benign-q-agg-early", "", [(AG, AEMPTY, ""), (AG, ASORT, AEMPTY + ASORT)]),
    ("benign-q-agg-collect", "", [(AG, """        for summary in &self.inners {
            summary.with_current_samples(|_, samples| {
                """ + ASAMP + """
            });
        }
""", """        for summary in &self.inners {
            let current = summary.with_current_samples(|_, samples| {
                samples.iter().map(|s| s.1).collect::<Vec<_>>()
            });
            aggregated_samples.extend(current.into_iter().filter(|v| !v.is_nan()));
        }
""")]),
    ("benign-q-build-sort", "", S1(BQ, "        quantiles.sort();\n        quantiles.dedup();\n")),
    ("benign-q-build-key", "", S1(BQ, BQ.replace("quantiles.dedup();", "quantiles.dedup_by(|a, b| a.as_f64() == b.as_f64());"))),
    ("benign-q-flip", "", S1(IDX, "let index = ((quantile.as_f64() * count as f64).floor() as usize).min(count - 1);")),
]
