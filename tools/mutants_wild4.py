"""Edits with library constructs the other tables do not use: bounded channels, maps, other locks, formatting options."""
from mutants import C, G, H, S, A, RG, LB, MT, AG, BK, TS, QN, PR, MB
from mutants_wild2 import EXP, QS
from mutants_wild3 import GATHER

TX = "    tx: mpsc::Sender<Collector>,\n}\nimpl Registry"
TX2 = "    tx: mpsc::Sender<Collector>,\n    rx"
CH = "mpsc::channel()"
SEND = "self.tx.send(Collector(Box::new(f)))"


def sync(how):
    return [(RG, TX, TX.replace("Sender", "SyncSender")), (RG, TX2, TX2.replace("Sender", "SyncSender")), (RG, CH, "mpsc::sync_channel(1024)"), (RG, SEND, SEND.replace("send", how))]


FIN = "        if self.0.is_finite() {\n            write!(f, \"{}\", self.0)\n"
OBS = """        let i = self
            .0
            .buckets
            .binary_search_by(|b| b.upper_bound().partial_cmp(&value).expect("Never fails"))
            .unwrap_or_else(|i| i);
"""
RECV = """        while let Ok(collector) = self.rx.try_recv() {
            self.collectors.push(collector);
        }
"""
LOOP = """        let mut i = 0;
        while i < self.collectors.len() {
            if self.collectors[i].collect(&mut metrics) {
                i += 1;
            } else {
                self.collectors.swap_remove(i);
            }
        }
"""
ESC = """        for c in self.value.chars() {
            match c {
                '\\\\' => write!(f, "\\\\\\\\")?,
                '\\n' => write!(f, "\\\\n")?,
                '"' => write!(f, "\\\\\\"")?,
                _ => write!(f, "{}", c)?,
            }
        }
        write!(f, "\\"")
"""
LINS = """            labels.retain(|l| l.name != label.name);
            labels.push(label.clone());
            labels.sort();
            labels
"""
SSORT = "        samples.sort_by(|a, b| a.partial_cmp(b).expect(\"Never fails\"));\n"
ALL = [
    ("y-sync-send", "C23 C05", sync("send")),
    ("y-sync-try-send", "C05", sync("try_send")),
    ("y-recv-take", "C05", [(RG, RECV, "        for collector in self.rx.try_iter().take(256) {\n            self.collectors.push(collector);\n        }\n")]),
    ("y-recv-extend", "", [(RG, RECV, "        self.collectors.extend(self.rx.try_iter());\n")]),
    ("y-recv-one", "C05", [(RG, RECV, "        if let Ok(collector) = self.rx.try_recv() {\n            self.collectors.push(collector);\n        }\n")]),
    ("y-recv-after", "C05", [(RG, RECV, ""), (RG, LOOP, LOOP + RECV)]),
    ("y-retain-mut", "", [(RG, LOOP, "        self.collectors.retain_mut(|c| c.collect(&mut metrics));\n")]),
    ("y-partition", "", [(RG, LOOP, "        let old = ::std::mem::take(&mut self.collectors);\n        for mut c in old {\n            if c.collect(&mut metrics) {\n                self.collectors.push(c);\n            }\n        }\n")]),
    ("y-take-lost", "C05 C06", [(RG, LOOP, "        let old = ::std::mem::take(&mut self.collectors);\n        for mut c in old {\n            if c.collect(&mut metrics) && !metrics.is_empty() {\n                self.collectors.push(c);\n            }\n        }\n")]),
    ("y-rev-index", "", [(RG, LOOP, "        for i in (0..self.collectors.len()).rev() {\n            if !self.collectors[i].collect(&mut metrics) {\n                self.collectors.swap_remove(i);\n            }\n        }\n")]),
    ("y-fwd-index", "C05 C28", [(RG, LOOP, "        for i in 0..self.collectors.len() {\n            if !self.collectors[i].collect(&mut metrics) {\n                self.collectors.swap_remove(i);\n            }\n        }\n")]),
    ("y-fwd-guard", "C05", [(RG, LOOP, "        for i in 0..self.collectors.len() {\n            if i < self.collectors.len() && !self.collectors[i].collect(&mut metrics) {\n                self.collectors.swap_remove(i);\n            }\n        }\n")]),
    ("y-group-btree", "", [(RG, GATHER, """        metrics.sort_by_cached_key(|m| {
            let labels = m.labels().iter().cloned().collect::<Vec<_>>();
            (m.name().clone(), m.kind(), labels)
        });
        let mut groups: ::std::collections::BTreeMap<(::metric::MetricName, ::metric::MetricKind), MetricFamily> = ::std::collections::BTreeMap::new();
        for metric in metrics {
            let key = (metric.name().clone(), metric.kind());
            if let Some(f) = groups.get_mut(&key) {
                f.push(metric);
                continue;
            }
            groups.insert(key, MetricFamily::new(metric));
        }
        MetricFamilies(groups.into_iter().map(|(_, f)| f).collect())
""")]),
    ("y-group-name-only", "C15 C28", [(RG, GATHER, """        metrics.sort_by_cached_key(|m| {
            let labels = m.labels().iter().cloned().collect::<Vec<_>>();
            (m.name().clone(), m.kind(), labels)
        });
        let mut groups: ::std::collections::BTreeMap<::metric::MetricName, MetricFamily> = ::std::collections::BTreeMap::new();
        for metric in metrics {
            let key = metric.name().clone();
            if let Some(f) = groups.get_mut(&key) {
                f.push(metric);
                continue;
            }
            groups.insert(key, MetricFamily::new(metric));
        }
        MetricFamilies(groups.into_iter().map(|(_, f)| f).collect())
""")]),
    ("y-sort-unstable-key", "", [(RG, "metrics.sort_by_cached_key(|m| {", "metrics.sort_by_key(|m| {")]),
    ("y-value-precision", "C13", [(MT, FIN, FIN.replace("{}", "{:.6}"))]),
    ("y-value-exp", "C13", [(MT, FIN, "        if self.0.is_finite() && self.0.abs() >= 1e21 {\n            write!(f, \"{:.15e}\", self.0)\n        } else if self.0.is_finite() {\n            write!(f, \"{}\", self.0)\n")]),
    ("y-value-f32", "C13", [(MT, FIN, FIN.replace("self.0)", "self.0 as f32)"))]),
    ("y-value-int", "C13", [(MT, FIN, "        if self.0.is_finite() && self.0.fract() == 0.0 {\n            write!(f, \"{}\", self.0 as i64)\n        } else if self.0.is_finite() {\n            write!(f, \"{}\", self.0)\n")]),
    ("y-value-int-small", "", [(MT, FIN, "        if self.0.is_finite() && self.0.fract() == 0.0 && self.0.abs() < 1e15 && self.0 != 0.0 {\n            write!(f, \"{}\", self.0 as i64)\n        } else if self.0.is_finite() {\n            write!(f, \"{}\", self.0)\n")]),
    ("y-value-pad", "C13", [(MT, FIN, FIN.replace("{}", "{:>8}"))]),
    ("y-value-debug", "", [(MT, FIN, FIN.replace("{}", "{:?}"))]),
    ("y-value-delegate", "", [(MT, FIN, "        if self.0.is_finite() {\n            fmt::Display::fmt(&self.0, f)\n")]),
    ("y-label-replace", "", [(LB, ESC, "        f.write_str(&self.value.replace('\\\\', \"\\\\\\\\\").replace('\\n', \"\\\\n\").replace('\"', \"\\\\\\\"\"))?;\n        write!(f, \"\\\"\")\n")]),
    ("y-label-replace-order", "C12", [(LB, ESC, "        f.write_str(&self.value.replace('\\n', \"\\\\n\").replace('\\\\', \"\\\\\\\\\").replace('\"', \"\\\\\\\"\"))?;\n        write!(f, \"\\\"\")\n")]),
    ("y-label-escape-default", "C12", [(LB, ESC, "        write!(f, \"{}\\\"\", self.value.escape_default())\n")]),
    ("y-label-escape-debug", "C12", [(LB, ESC, "        write!(f, \"{}\\\"\", self.value.escape_debug())\n")]),
    ("y-label-fastpath", "", [(LB, ESC, "        if !self.value.contains(|c| c == '\\\\' || c == '\\n' || c == '\"') {\n            return write!(f, \"{}\\\"\", self.value);\n        }\n" + ESC)]),
    ("y-label-fastpath-miss", "C12", [(LB, ESC, "        if !self.value.contains(|c| c == '\\\\' || c == '\"') {\n            return write!(f, \"{}\\\"\", self.value);\n        }\n" + ESC)]),
    ("y-label-bytes", "C12", [(LB, ESC, ESC.replace("self.value.chars()", "self.value.bytes().map(|b| b as char)"))]),
    ("y-insert-binary", "", [(LB, LINS, "            match labels.binary_search_by(|l| l.name.cmp(&label.name)) {\n                Ok(i) => labels[i] = label.clone(),\n                Err(i) => labels.insert(i, label.clone()),\n            }\n            labels\n")]),
    ("y-insert-binary-noreplace", "C10", [(LB, LINS, "            if let Err(i) = labels.binary_search_by(|l| l.name.cmp(&label.name)) {\n                labels.insert(i, label.clone());\n            }\n            labels\n")]),
    ("y-insert-btree", "", [(LB, LINS, "            let mut m: ::std::collections::BTreeMap<String, Label> = labels.drain(..).map(|l| (l.name.clone(), l)).collect();\n            m.insert(label.name.clone(), label.clone());\n            m.into_iter().map(|(_, l)| l).collect()\n")]),
    ("y-insert-find", "", [(LB, LINS, "            if let Some(l) = labels.iter_mut().find(|l| l.name == label.name) {\n                l.value = label.value.clone();\n                return labels.clone();\n            }\n            labels.push(label.clone());\n            labels.sort();\n            labels\n")]),
    ("y-obs-partition", "", [(H, OBS, "        let i = self.0.buckets.partition_point(|b| b.upper_bound() < value);\n")]),
    ("y-obs-partition-le", "C17", [(H, OBS, "        let i = self.0.buckets.partition_point(|b| b.upper_bound() <= value);\n")]),
    ("y-obs-total-cmp", "C17", [(H, OBS, OBS.replace("b.upper_bound().partial_cmp(&value).expect(\"Never fails\")", "b.upper_bound().total_cmp(&value)"))]),
    ("y-obs-rposition", "C17", [(H, OBS, "        let i = self.0.buckets.iter().rposition(|b| b.upper_bound() <= value).map_or(0, |i| i + 1);\n")]),
    ("y-obs-count", "", [(H, OBS, "        let i = self.0.buckets.iter().filter(|b| b.upper_bound() < value).count();\n")]),
    ("y-samples-total-cmp", "", [(S, SSORT, "        samples.sort_by(|a, b| a.total_cmp(b));\n")]),
    ("y-samples-unstable", "", [(S, SSORT, "        samples.sort_unstable_by(|a, b| a.partial_cmp(b).expect(\"Never fails\"));\n")]),
    ("y-samples-select", "C21", [(S, SSORT, "        if samples.len() < 1000 {\n            samples.sort_by(|a, b| a.partial_cmp(b).expect(\"Never fails\"));\n        }\n")]),
    ("y-samples-int", "C21", [(S, SSORT, "        samples.sort_by_key(|a| *a as i64);\n")]),
    ("y-samples-bits", "C21", [(S, SSORT, "        samples.sort_by_key(|a| a.to_bits());\n")]),
    ("y-samples-rev", "C21", [(S, SSORT, SSORT.replace("a.partial_cmp(b)", "b.partial_cmp(a)"))]),
    ("y-fetch-update", "", [(A, "self.0.fetch_add(v, Relaxed);", "let _ = self.0.fetch_update(Relaxed, Relaxed, |x| Some(x.wrapping_add(v)));")]),
    ("y-fetch-update-sat", "C03", [(A, "self.0.fetch_add(v, Relaxed);", "let _ = self.0.fetch_update(Relaxed, Relaxed, |x| x.checked_add(v).filter(|&y| y < 1 << 32));")]),
    ("y-cas-once", "", [(A, "                Ok(_) => break,\n                Err(v) => old = v, // try again\n", "                Ok(_) => break,\n                Err(v) if v == old => continue,\n                Err(_) => break,\n")]),
    ("y-ordering", "", [(A, "atomic::{self, Ordering::Relaxed}", "atomic::{self, Ordering::SeqCst as Relaxed}")]),
    ("y-default-try-lock", "C26 C23", [(RG, "    match default_gatherer().lock() {\n        Ok(gatherer) => gatherer.registry(),\n        Err(poisoned) => poisoned.into_inner().registry(),\n    }\n", "    match default_gatherer().try_lock() {\n        Ok(gatherer) => gatherer.registry(),\n        Err(_) => Gatherer::new().registry(),\n    }\n")]),
    ("y-default-unwrap-else", "", [(RG, "    match default_gatherer().lock() {\n        Ok(gatherer) => gatherer.registry(),\n        Err(poisoned) => poisoned.into_inner().registry(),\n    }\n", "    default_gatherer().lock().unwrap_or_else(|e| e.into_inner()).registry()\n")]),
]
