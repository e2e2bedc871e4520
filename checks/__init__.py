import importlib

MODULES = ["values", "registry", "config", "text", "buckets", "gathering", "summary", "helpers", "times", "process", "builders", "locks", "safety", "panics"]


def load():
    out = {}
    for m in MODULES:
        out.update(importlib.import_module("checks." + m).CHECKS)
    return out
