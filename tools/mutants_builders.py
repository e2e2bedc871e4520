"""More edits: builders (C26)."""
from mutants import C, G, H, S, MB, MT, LB


def fwd(kind, args="name"):
    return """        let mut builder = %sBuilder::new(%s);
        if let Some(ref namespace) = self.namespace {
            builder.namespace(namespace);
        }
        if let Some(ref subsystem) = self.subsystem {
            builder.subsystem(subsystem);
        }
        for &(ref k, ref v) in &self.labels {
            builder.label(k, v);
        }
        for r in &self.registries {
            builder.registry(r.clone());
        }
        builder
""" % (kind, args)


def f(kind, old, new, args="name"):
    x = fwd(kind, args)
    assert old in x
    return [(MB, x, x.replace(old, new))]


SW = "name, window"
LAB = """        for &(ref k, ref v) in &self.labels {
            builder.label(k, v);
        }
"""
REG = """        for r in &self.registries {
            builder.registry(r.clone());
        }
"""
NS = """        if let Some(ref namespace) = self.namespace {
            builder.namespace(namespace);
        }
"""
SS = """        if let Some(ref subsystem) = self.subsystem {
            builder.subsystem(subsystem);
        }
"""
LBL = """        self.labels.retain(|l| l.0 != name);
        self.labels.push((name.to_string(), value.to_string()));
        self.labels.sort();
"""

ALL = [
    ("mb-gauge-no-sub", "C26", f("Gauge", SS, "")),
    ("mb-hist-no-ns", "C26", f("Histogram", NS, "")),
    ("mb-sum-no-reg", "C26", f("Summary", REG, "", SW)),
    ("mb-counter-one-reg", "C26", f("Counter", "for r in &self.registries {", "if let Some(r) = self.registries.first() {")),
    ("mb-hist-last-reg", "C26", f("Histogram", "for r in &self.registries {", "if let Some(r) = self.registries.last() {")),
    ("mb-sum-skip-label", "C26", f("Summary", "in &self.labels {", "in self.labels.iter().skip(1) {", SW)),
    ("mb-gauge-take-label", "C26", f("Gauge", "in &self.labels {", "in self.labels.iter().take(8) {")),
    ("mb-gauge-kv", "C26", f("Gauge", "builder.label(k, v);", "builder.label(k, k);")),
    ("mb-sum-swapped", "C26", f("Summary", "builder.subsystem(subsystem)", "builder.namespace(subsystem)", SW)),
    ("mb-sub-needs-ns", "C26", f("Counter", NS + SS, """        if let (&Some(ref ns), &Some(ref ss)) = (&self.namespace, &self.subsystem) {
            builder.namespace(ns);
            builder.subsystem(ss);
        } else if let Some(ref ns) = self.namespace {
            builder.namespace(ns);
        }
""")),
    ("mb-labels-need-registry", "C26", f("Histogram", LAB + REG, """        for r in &self.registries {
            builder.registry(r.clone());
            for &(ref k, ref v) in &self.labels {
                builder.label(k, v);
            }
        }
""")),
    ("mb-window", "C26", f("Summary", "SummaryBuilder::new(name, window)", "SummaryBuilder::new(name, window / 2)", SW)),
    ("mb-window-const", "C26", f("Summary", "SummaryBuilder::new(name, window)", "SummaryBuilder::new(name, Duration::from_secs(window.as_secs()))", SW)),
    ("mb-name-lower", "C26", f("Gauge", "GaugeBuilder::new(name)", "GaugeBuilder::new(name.trim_end_matches('_'))")),
    ("mb-registry-replaces", "C26", [(MB, "        self.registries.push(registry);\n", "        self.registries = vec![registry];\n")]),
    ("mb-set-registry-adds", "C26", [(MB, "    pub fn set_registry(&mut self, registry: Registry) -> &mut Self {\n        self.registries = vec![registry];\n", "    pub fn set_registry(&mut self, registry: Registry) -> &mut Self {\n        self.registries.push(registry);\n")]),
    ("mb-with-registry-none", "C26", [(MB, "            registries: vec![registry],\n", "            registries: { let _ = registry; Vec::new() },\n")]),
    ("mb-label-replaces-all", "C26", [(MB, "        self.labels.push((name.to_owned(), value.to_owned()));\n", "        self.labels = vec![(name.to_owned(), value.to_owned())];\n")]),
    ("mb-label-first-wins", "C26", [(MB, "        self.labels.push((name.to_owned(), value.to_owned()));\n", "        if !self.labels.iter().any(|l| l.0 == name) {\n            self.labels.push((name.to_owned(), value.to_owned()));\n        }\n")]),
    ("mb-ns-first-wins", "C26", [(MB, "        self.namespace = Some(namespace.to_owned());\n", "        if self.namespace.is_none() {\n            self.namespace = Some(namespace.to_owned());\n        }\n")]),
    ("mb-sub-sets-ns", "C26", [(MB, "        self.subsystem = Some(subsystem.to_owned());\n", "        self.namespace = Some(subsystem.to_owned());\n")]),
    ("mb-new-no-default", "C26", [(MB, "        Self::with_registry(default_registry())\n", "        Self::without_registry()\n")]),
    ("cb-help-dropped", "C26", [(C, "            help: self.help.clone(),\n", "            help: None,\n")]),
    ("hb-help-ns", "C26", [(H, "            help: self.help.clone(),\n", "            help: self.subsystem.clone(),\n")]),
    ("sb-help-empty", "C26", [(S, "            help: self.help.clone(),\n", "            help: self.help.clone().filter(|_| self.labels.is_empty()),\n")]),
    ("gb-initial", "C26", [(G, "value: AtomicF64::new(self.initial_value)", "value: AtomicF64::new(self.initial_value.max(0.0))")]),
    ("gb-initial-lost", "C26", [(G, "value: AtomicF64::new(self.initial_value)", "value: AtomicF64::new(0.0)")]),
    ("hb-bucket-lost", "C26", [(H, "        self.bucket_upper_bounds.push(upper_bound);\n", "        if upper_bound > 0.0 {\n            self.bucket_upper_bounds.push(upper_bound);\n        }\n")]),
    ("sb-quantile-edge", "C26", [(S, "        self.quantiles.push(quantile);\n", "        if quantile > 0.0 {\n            self.quantiles.push(quantile);\n        }\n")]),
    ("sb-quantile-last", "C26", [(S, "        self.quantiles.push(quantile);\n", "        self.quantiles = vec![quantile];\n")]),
    ("sb-window", "C26", [(S, "            window: self.window,\n", "            window: self.window * 2,\n")]),
    ("cb-registry-last", "C26", [(C, "        self.registries.push(registry);\n", "        self.registries = vec![registry];\n")]),
    ("sb-registry-first", "C26", [(S, "        self.registries.push(registry);\n", "        self.registries.truncate(3);\n        self.registries.push(registry);\n")]),
    ("gb-label-sub", "C26", [(G, LBL, LBL.replace("l.0 != name", "l.0.as_str() > name || l.0.as_str() < name && l.1 != value"))]),
    ("cb-label-dedup-value", "C26", [(C, LBL, LBL.replace("l.0 != name", "l.1 != value"))]),
    ("cb-ns-sub", "C26", [(C, "            self.namespace.as_ref().map(AsRef::as_ref),\n            self.subsystem.as_ref().map(AsRef::as_ref),\n", "            self.subsystem.as_ref().map(AsRef::as_ref),\n            self.namespace.as_ref().map(AsRef::as_ref),\n")]),
    ("cb-default-empty", "C26", [(C, "        self.registry(default_registry())\n", "        if self.registries.is_empty() {\n            self.registry(default_registry());\n        }\n        self\n")]),
    ("cb-finish-takes", "C26", [(C, "pub fn finish(&self) -> Result<Counter> {\n", "pub fn finish(&self) -> Result<Counter> {\n        let labels_left = self.labels.len().saturating_sub(10);\n"), (C, "            .labels\n            .iter()\n", "            .labels\n            .iter()\n            .skip(labels_left)\n")]),
    # behaviour kept
    ("benign-mb-order", "", f("Gauge", NS + SS, SS + NS)),
    ("benign-mb-reg-first", "", f("Summary", LAB + REG, REG + LAB, SW)),
    ("benign-mb-foreach", "", f("Counter", REG, "        self.registries.iter().for_each(|r| {\n            builder.registry(r.clone());\n        });\n")),
    ("benign-mb-match", "", f("Histogram", NS, "        match self.namespace {\n            Some(ref n) => {\n                builder.namespace(n);\n            }\n            None => {}\n        }\n")),
    ("benign-mb-asref", "", f("Counter", NS, "        if let Some(namespace) = self.namespace.as_ref().map(String::as_str) {\n            builder.namespace(namespace);\n        }\n")),
    ("benign-mb-with", "", [(MB, "        MetricBuilder {\n            namespace: None,\n            subsystem: None,\n            labels: Vec::new(),\n            registries: vec![registry],\n        }\n", "        let mut this = Self::without_registry();\n        this.registry(registry);\n        this\n")]),
    ("benign-mb-set", "", [(MB, "    pub fn set_registry(&mut self, registry: Registry) -> &mut Self {\n        self.registries = vec![registry];\n", "    pub fn set_registry(&mut self, registry: Registry) -> &mut Self {\n        self.registries.clear();\n        self.registries.push(registry);\n")]),
    ("benign-mb-macro", "", [(MB, fwd("Counter"), "        let mut builder = CounterBuilder::new(name);\n        inherit!(self, builder);\n        builder\n"), (MB, fwd("Gauge"), "        let mut builder = GaugeBuilder::new(name);\n        inherit!(self, builder);\n        builder\n"), (MB, "/// Common builder", """macro_rules! inherit {
    ($this:expr, $builder:expr) => {
        if let Some(ref namespace) = $this.namespace {
            $builder.namespace(namespace);
        }
        if let Some(ref subsystem) = $this.subsystem {
            $builder.subsystem(subsystem);
        }
        for &(ref k, ref v) in &$this.labels {
            $builder.label(k, v);
        }
        for r in &$this.registries {
            $builder.registry(r.clone());
        }
    };
}

/// Common builder""")]),
    ("benign-cb-label-find", "", [(C, LBL, """        match self.labels.iter().position(|l| l.0 == name) {
            Some(i) => self.labels[i].1 = value.to_string(),
            None => self.labels.push((name.to_string(), value.to_string())),
        }
        self.labels.sort();
""")]),
    ("benign-cb-default", "", [(C, "        self.registry(default_registry())\n", "        self.registries.push(default_registry());\n        self\n")]),
    ("benign-gb-setlater", "", [(G, "value: AtomicF64::new(self.initial_value)", "value: AtomicF64::new(0.0)"), (G, "        let gauge = Gauge(Arc::new(inner));\n", "        let gauge = Gauge(Arc::new(inner));\n        gauge.set(self.initial_value);\n")]),
    ("benign-hb-extend", "", [(H, "        self.bucket_upper_bounds\n            .append(&mut upper_bounds.into_iter().collect::<Vec<_>>());\n", "        self.bucket_upper_bounds.extend(upper_bounds);\n")]),
    ("benign-sb-labels-loop", "", [(S, """        let labels = track!(self
            .labels
            .iter()
            .map(|&(ref name, ref value)| {
                track_assert_ne!(name, "quantile", ErrorKind::InvalidInput);
                track!(Label::new(name, value))
            })
            .collect::<Result<_>>())?;
""", """        let mut labels = Vec::new();
        for &(ref name, ref value) in &self.labels {
            track_assert_ne!(name, "quantile", ErrorKind::InvalidInput);
            labels.push(track!(Label::new(name, value))?);
        }
""")]),
]
