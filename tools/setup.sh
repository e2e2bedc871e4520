#!/bin/sh
# builds the fact extractor (a rustc driver) from the committed files; offline
cd "$(dirname "$0")/../driver" && exec cargo +nightly build --offline -q
