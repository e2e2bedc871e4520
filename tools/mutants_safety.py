"""More edits: clones and auto traits (C04), unsafe operations (C27)."""
from mutants import C, G, H, S, A, RG, LB, MT, AG, BK, TS, QN, PR, MB

DC = "#[derive(Debug, Clone)]\n"


def deep(f, ty, fields):
    old = DC + "pub struct %s(Arc<Inner>);\n" % ty
    return [(f, old, old.replace(", Clone", "") + "impl Clone for %s {\n    fn clone(&self) -> Self {\n        %s\n    }\n}\n" % (ty, fields))]


CNT = """%s(Arc::new(Inner {
            name: self.0.name.clone(),
            labels: Labels::new(self.0.labels.iter().cloned().collect()),
            help: self.0.help.clone(),
            timestamp: Timestamp::new(),
            value: %s,
        }))"""
NEXT = """    type Item = &'a Label;
    fn next(&mut self) -> Option<Self::Item> {
        self.inner.next()
    }
"""
ITER = """        let labels = self.0.load();
        let inner = unsafe { std::mem::transmute(labels.iter()) };
        Iter { labels, inner }
"""
GET = "        self.iter().find(|l| l.name() == name)\n"
STRUCT = """pub struct Iter<'a> {
    labels: std::sync::Arc<Vec<Label>>,
"""

ALL = [
    ("cl-gauge-deep", "C04", deep(G, "Gauge", CNT % ("Gauge", "AtomicF64::new(self.value())"))),
    ("cl-registry-new", "C04", [(RG, "#[derive(Debug, Clone)]\npub struct Registry {", "#[derive(Debug)]\npub struct Registry {"), (RG, "impl Registry {\n", "impl Clone for Registry {\n    fn clone(&self) -> Self {\n        let (tx, _rx) = mpsc::channel();\n        Registry { tx }\n    }\n}\nimpl Registry {\n")]),
    ("cl-families-rc", "C04", [(MT, "pub struct MetricFamilies(pub(crate) Vec<MetricFamily>);", "pub struct MetricFamilies(pub(crate) Vec<MetricFamily>, pub(crate) ::std::marker::PhantomData<::std::rc::Rc<()>>);"), (RG, "MetricFamilies(families)", "MetricFamilies(families, ::std::marker::PhantomData)")]),
    ("benign-cl-manual", "", deep(G, "Gauge", "Gauge(self.0.clone())")),
    ("benign-cl-manual-arc", "", deep(C, "Counter", "Counter(Arc::clone(&self.0))")),
    ("benign-cl-registry", "", [(RG, "#[derive(Debug, Clone)]\npub struct Registry {", "#[derive(Debug)]\npub struct Registry {"), (RG, "impl Registry {\n", "impl Clone for Registry {\n    fn clone(&self) -> Self {\n        Registry { tx: self.tx.clone() }\n    }\n}\nimpl Registry {\n")]),
    # unsafe operations
    ("us-no-owner", "C27", [(LB, ITER, ITER.replace("Iter { labels, inner }", "Iter { inner }")), (LB, STRUCT, "pub struct Iter<'a> {\n")]),
    ("us-two-loads", "C27", [(LB, ITER, ITER.replace("labels.iter()", "self.0.load().iter()"))]),
    ("us-first", "C27", [(LB, GET, GET + "    }\n\n    /// Returns the first label.\n    pub fn first(&self) -> Option<&Label> {\n        self.iter().next()\n")]),
    ("us-slice", "C27", [(LB, GET, GET + "    }\n\n    /// Returns the labels as a slice.\n    pub fn as_slice(&self) -> &[Label] {\n        let labels = self.0.load();\n        unsafe { ::std::slice::from_raw_parts(labels.as_ptr(), labels.len()) }\n")]),
    ("us-rawderef", "C27", [(LB, GET, GET + "    }\n\n    /// Returns the labels as a slice.\n    pub fn all(&self) -> &Vec<Label> {\n        let labels = self.0.load();\n        let p: *const Vec<Label> = &*labels;\n        unsafe { &*p }\n")]),
    ("us-guard", "C27", [(S, "    pub(crate) fn quantiles_without_values", "    /// Returns the latest sample.\n    pub fn latest(&self) -> Option<&(SystemTime, f64)> {\n        let samples = self.0.samples.lock().ok()?;\n        unsafe { ::std::mem::transmute::<Option<&(SystemTime, f64)>, Option<&(SystemTime, f64)>>(samples.back()) }\n    }\n\n    pub(crate) fn quantiles_without_values")]),
    ("us-unchecked", "C27", [(H, "    pub fn buckets(&self) -> &[Bucket] {\n", "    pub fn overflow(&self) -> &Bucket {\n        unsafe { self.0.buckets.get_unchecked(self.0.buckets.len()) }\n    }\n\n    /// Returns the buckets of this histogram.\n    pub fn buckets(&self) -> &[Bucket] {\n")]),
    ("benign-us-unchecked", "", [(H, "    pub fn buckets(&self) -> &[Bucket] {\n", "    pub fn overflow(&self) -> &Bucket {\n        let n = self.0.buckets.len();\n        assert!(n > 0);\n        unsafe { self.0.buckets.get_unchecked(n - 1) }\n    }\n\n    /// Returns the buckets of this histogram.\n    pub fn buckets(&self) -> &[Bucket] {\n")]),
    ("us-static-mut", "C27", [(A, "impl AtomicU64 {\n", "static mut LAST: u64 = 0;\nimpl AtomicU64 {\n"), (A, "    pub fn get(&self) -> u64 {\n", "    pub fn get(&self) -> u64 {\n        unsafe { LAST += 1 };\n")]),
    ("us-send", "C27", [(RG, "impl Default for Gatherer {", "unsafe impl Sync for Gatherer {}\nimpl Default for Gatherer {")]),
    ("benign-us-helper", "", [(LB, ITER, """        let labels = self.0.load();
        let inner = extend(&labels);
        Iter { labels, inner }
"""), (LB, "/// A map of labels (i.e., key-value pairs).\n#[derive(Debug)]\npub struct Labels(", "fn extend<'a>(labels: &[Label]) -> std::slice::Iter<'a, Label> {\n    unsafe { std::mem::transmute(labels.iter()) }\n}\n\n/// A map of labels (i.e., key-value pairs).\n#[derive(Debug)]\npub struct Labels(")]),
    ("benign-us-order", "", [(LB, STRUCT + "    inner: std::slice::Iter<'a, Label>,\n", "pub struct Iter<'a> {\n    inner: std::slice::Iter<'a, Label>,\n    labels: std::sync::Arc<Vec<Label>>,\n")]),
    ("benign-us-get-loop", "", [(LB, GET, "        for l in self.iter() {\n            if l.name() == name {\n                return Some(l);\n            }\n        }\n        None\n")]),
    ("benign-us-owned", "", [(LB, GET, GET + "    }\n\n    /// Returns the labels.\n    pub fn to_vec(&self) -> Vec<Label> {\n        self.iter().cloned().collect()\n")]),
    ("benign-us-next", "", [(LB, NEXT, NEXT.replace("self.inner.next()", "match self.inner.next() {\n            Some(l) => Some(l),\n            None => None,\n        }"))]),
]
