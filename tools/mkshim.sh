#!/bin/sh
# usage: mkshim.sh <crate> [dep...]   writes the Cargo.toml of a stand-in crate in ws/shim
d=$(dirname "$0")/../ws/shim/$1; n=$1; shift
mkdir -p "$d/src"
{
cat <<T
[package]
name = "$n"
version = "0.1.0"
edition = "2021"
publish = false

[features]
default = ["std"]
std = []
runtime-benchmarks = []
try-runtime = []

[dependencies]
shim-base = { path = "../base" }
parity-scale-codec = { version = "3.6", features = ["derive", "max-encoded-len"] }
scale-info = { version = "2.11", features = ["derive"] }
serde = { version = "1", features = ["derive"] }
T
for x in "$@"; do echo "$x = { path = \"../$x\" }"; done
} > "$d/Cargo.toml"
