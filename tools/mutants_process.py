"""More edits: process metrics (C25)."""
from mutants import PR, C, G, S

CPU = """                (stat.utime + stat.stime) as f64 / *CLK_TCK,
"""
LIM = """        if let Ok(limits) = procinfo::pid::limits_self() {
            if let Some(fds) = limits.max_open_files.soft {
                metrics.push(gauge("max_fds", fds as f64));
            }
        }
"""
STA = """        if let Ok(status) = procinfo::pid::status_self() {
            metrics.push(gauge("open_fds", f64::from(status.fd_allocated)));
        }
"""
RSS = "(stat.rss * *PAGESIZE) as f64"
ST = """            if let Ok(start_time) = self.start_time.duration_since(UNIX_EPOCH) {
                metrics.push(gauge("start_time_seconds", start_time.as_secs() as f64));
            }
"""

ALL = [
    ("proc-utime", "C25", [(PR, CPU, CPU.replace("(stat.utime + stat.stime)", "stat.utime"))]),
    ("proc-cutime", "C25", [(PR, CPU, CPU.replace("stat.stime", "stat.cutime"))]),
    ("proc-tck-int", "C25", [(PR, CPU, CPU.replace("(stat.utime + stat.stime) as f64 / *CLK_TCK", "((stat.utime + stat.stime) / (*CLK_TCK as i64)) as f64"))]),
    ("proc-tck-100", "C25", [(PR, CPU, CPU.replace("*CLK_TCK", "100.0"))]),
    ("proc-tck-mul", "C25", [(PR, CPU, CPU.replace("/", "*"))]),
    ("proc-tck-wrong", "C25", [(PR, "libc::_SC_CLK_TCK", "libc::_SC_PAGESIZE")]),
    ("proc-page-4096", "C25", [(PR, "*PAGESIZE)", "4096)")]),
    ("proc-rss-pages", "C25", [(PR, RSS, "stat.rss as f64")]),
    ("proc-rss-vsize", "C25", [(PR, RSS, "(stat.vsize * *PAGESIZE) as f64")]),
    ("proc-vsize-kb", "C25", [(PR, "stat.vsize as f64", "(stat.vsize / 1024) as f64")]),
    ("proc-vsize-u32", "C25", [(PR, "stat.vsize as f64", "f64::from(stat.vsize as u32)")]),
    ("proc-rsslim", "C25", [(PR, "stat.vsize as f64", "stat.rsslim as f64")]),
    ("proc-nice", "C25", [(PR, "stat.num_threads", "stat.nice")]),
    ("proc-open-threads", "C25", [(PR, "status.fd_allocated", "status.threads")]),
    ("proc-hard", "C25", [(PR, "limits.max_open_files.soft", "limits.max_open_files.hard")]),
    ("proc-max-processes", "C25", [(PR, "limits.max_open_files.soft", "limits.max_processes.soft")]),
    ("proc-question", "C25", [(PR, LIM, "        let limits = procinfo::pid::limits_self().ok()?;\n        if let Some(fds) = limits.max_open_files.soft {\n            metrics.push(gauge(\"max_fds\", fds as f64));\n        }\n")]),
    ("proc-unwrap", "C25", [(PR, "if let Ok(status) = procinfo::pid::status_self() {", "{\n            let status = procinfo::pid::status_self().unwrap();")]),
    ("proc-nested", "C25", [(PR, STA, ""), (PR, "if let Ok(stat) = procinfo::pid::stat_self() {\n", "if let Ok(stat) = procinfo::pid::stat_self() {\n" + STA)]),
    ("proc-else", "C25", [(PR, LIM + STA, LIM[:-1].rstrip() + " else " + STA.lstrip())]),
    ("proc-and", "C25", [(PR, STA, STA.replace("procinfo::pid::status_self()", "procinfo::pid::status_self().and_then(|s| procinfo::pid::limits_self().map(|_| s))"))]),
    ("proc-early-return", "C25", [(PR, "        if let Ok(stat) =", "        if metrics.is_empty() {\n            return None;\n        }\n        if let Ok(stat) =")]),
    ("proc-none-empty", "C25", [(PR, "        Some(metrics.into_iter())", "        if metrics.is_empty() {\n            return None;\n        }\n        Some(metrics.into_iter())")]),
    ("proc-name", "C25", [(PR, '"cpu_seconds_total"', '"cpu_seconds"')]),
    ("proc-name-swap", "C25", [(PR, '"max_fds"', '"open__fds"')]),
    ("proc-ns-gauge", "C25", [(PR, "        .namespace(\"process\")\n        .finish()\n        .expect(\"Never fails\");\n    gauge", "        .subsystem(\"proc\")\n        .finish()\n        .expect(\"Never fails\");\n    gauge")]),
    ("proc-cpu-gauge", "C25", [(PR, "metrics.push(counter(\n                \"cpu", "metrics.push(gauge(\n                \"cpu")]),
    ("proc-threads-counter", "C25", [(PR, 'gauge("threads_total"', 'counter("threads_total"')]),
    ("proc-counter-u64", "C25", [(PR, "let _ = counter.add(value);", "counter.add_u64(value as u64);")]),
    ("proc-gauge-twice", "C25", [(PR, "    gauge.set(value);\n", "    gauge.set(value);\n    gauge.increment();\n")]),
    ("proc-start-millis", "C25", [(PR, "start_time.as_secs() as f64", "(start_time.as_secs() * 1000) as f64")]),
    ("proc-start-now", "C25", [(PR, "self.start_time.duration_since(UNIX_EPOCH)", "SystemTime::now().duration_since(UNIX_EPOCH)")]),
    ("proc-start-uptime", "C25", [(PR, "self.start_time.duration_since(UNIX_EPOCH)", "SystemTime::now().duration_since(self.start_time)")]),
    ("proc-start-unwrap", "C25", [(PR, ST, ST.replace("if let Ok(start_time) = self.start_time.duration_since(UNIX_EPOCH) {", "{\n                let start_time = self.start_time.duration_since(UNIX_EPOCH).unwrap();"))]),
    ("proc-start-reset", "C25", [(PR, "        let mut metrics = Vec::new();\n\n", "        let mut metrics = Vec::new();\n        self.start_time = SystemTime::now();\n\n")]),
    ("proc-dup", "C25", [(PR, "        Some(metrics.into_iter())", "        if metrics.len() > 6 {\n            metrics.push(gauge(\"max_fds\", 0.0));\n        }\n        Some(metrics.into_iter())")]),
    ("proc-truncate", "C25", [(PR, "        Some(metrics.into_iter())", "        metrics.truncate(6);\n        Some(metrics.into_iter())")]),
    ("proc-counter-small", "C25", [(PR, "let _ = counter.add(value);", "if value >= 1.0 {\n        let _ = counter.add(value);\n    }")]),
    # behaviour kept
    ("benign-proc-order", "", [(PR, LIM + STA, STA + LIM)]),
    ("benign-proc-cpu", "", [(PR, CPU, CPU.replace("(stat.utime + stat.stime) as f64 / *CLK_TCK", "stat.utime as f64 / *CLK_TCK + stat.stime as f64 / *CLK_TCK"))]),
    ("benign-proc-rss", "", [(PR, RSS, "stat.rss as f64 * (*PAGESIZE as f64)")]),
    ("benign-proc-match", "", [(PR, STA, """        match procinfo::pid::status_self() {
            Ok(ref status) => metrics.push(gauge("open_fds", status.fd_allocated as f64)),
            Err(_) => {}
        }
""")]),
    ("benign-proc-frac", "", [(PR, "start_time.as_secs() as f64", "start_time.as_secs() as f64 + f64::from(start_time.subsec_nanos()) / 1_000_000_000.0")]),
    ("benign-proc-start-first", "", [(PR, ST, ""), (PR, "        let mut metrics = Vec::new();\n", "        let mut metrics = Vec::new();\n" + ST)]),
    ("benign-proc-initial", "", [(PR, "    gauge.set(value);\n", ""), (PR, "let gauge = GaugeBuilder::new(name)\n        .namespace(\"process\")\n", "let gauge = GaugeBuilder::new(name)\n        .namespace(\"process\")\n        .initial_value(value)\n")]),
    ("benign-proc-direct", "", [(PR, "*CLK_TCK,", "unsafe { libc::sysconf(libc::_SC_CLK_TCK) as f64 },")]),
    ("benign-proc-extend", "", [(PR, '            metrics.push(gauge("threads_total", f64::from(stat.num_threads)));\n            metrics.push(gauge("virtual_memory_bytes", stat.vsize as f64));\n', '            metrics.extend(vec![\n                gauge("threads_total", f64::from(stat.num_threads)),\n                gauge("virtual_memory_bytes", stat.vsize as f64),\n            ]);\n')]),
    ("benign-proc-split", "", [(PR, "    #[cfg(target_os = \"linux\")]\n    fn collect(&mut self) -> Option<Self::Metrics> {\n        let mut metrics = Vec::new();\n\n" + LIM, "    #[cfg(target_os = \"linux\")]\n    fn collect(&mut self) -> Option<Self::Metrics> {\n        let mut metrics = Vec::new();\n        collect_limits(&mut metrics);\n"), (PR, "#[cfg(target_os = \"linux\")]\nfn counter(", "#[cfg(target_os = \"linux\")]\nfn collect_limits(metrics: &mut Vec<Metric>) {\n" + LIM + "}\n\n#[cfg(target_os = \"linux\")]\nfn counter(")]),
    ("benign-proc-option", "", [(PR, LIM, """        metrics.extend(
            procinfo::pid::limits_self()
                .ok()
                .and_then(|l| l.max_open_files.soft)
                .map(|fds| gauge("max_fds", fds as f64)),
        );
""")]),
    ("benign-proc-table", "", [(PR, '            metrics.push(gauge("threads_total", f64::from(stat.num_threads)));\n            metrics.push(gauge("virtual_memory_bytes", stat.vsize as f64));\n', '            for &(name, value) in &[\n                ("threads_total", f64::from(stat.num_threads)),\n                ("virtual_memory_bytes", stat.vsize as f64),\n            ] {\n                metrics.push(gauge(name, value));\n            }\n')]),
    ("benign-proc-extra", "", [(PR, '            metrics.push(gauge("threads_total"', '            metrics.push(gauge("minor_faults", stat.minflt as f64));\n            metrics.push(gauge("threads_total"')]),
]
