#!/usr/bin/env python3
"""mkdemo.py ID CODE[,CODE..]: fills seeded/ID with a self-contained demonstration crate (the mini-chain of
the harness, cut down to the contracts named) around the main.rs that is already there."""
import re, sys, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H = root + "/harness/src/"
CR = {
 "CW20": ('cw20-base', '{ version = "1.1", features = ["library"] }'),
 "PAIR": ('astroport-pair', 'contracts/pair'), "STABLE": ('astroport-pair-stable', 'contracts/pair_stable'),
 "PCL": ('astroport-pair-concentrated', 'contracts/pair_concentrated'), "SALE_TAX": ('astroport-pair-xyk-sale-tax', 'contracts/pair_xyk_sale_tax'),
 "TRANSMUTER": ('astroport-pair-transmuter', 'contracts/pair_transmuter'), "FACTORY": ('astroport-factory', 'contracts/factory'),
 "ROUTER": ('astroport-router', 'contracts/router'), "REGISTRY": ('astroport-native-coin-registry', 'contracts/periphery/native_coin_registry'),
 "INCENTIVES": ('astroport-incentives', 'contracts/tokenomics/incentives'), "VESTING": ('astroport-vesting', 'contracts/tokenomics/vesting'),
 "STAKING": ('astroport-staking', 'contracts/tokenomics/staking'), "MAKER": ('astroport-maker', 'contracts/tokenomics/maker'),
 "XASTRO_TOKEN": ('astroport-xastro-token', 'contracts/tokenomics/xastro_token'), "FEE_GRANTER": ('astroport-fee-granter', 'contracts/periphery/fee_granter'),
 "ORACLE": ('astroport-oracle', 'contracts/periphery/oracle'), "CONVERTER": ('astro-token-converter', 'contracts/periphery/astro_converter'),
 "PAIR_CONVERTER": ('astroport-pair-converter', 'contracts/pair_astro_converter'), "PAIR_XASTRO": ('astroport-pair-xastro', 'contracts/pair_xastro'),
  "CIRC": ("astroport-circular-buffer", "packages/circular_buffer"),
 "WHITELIST": ('astroport-whitelist', 'contracts/whitelist'),
 "TRACKER_V1": ('tracker-v1', '{ package = "astroport-tokenfactory-tracker", version = "=1.0.0" }'),
 "TRACKER": ('astroport-tokenfactory-tracker', 'shadow'),
 "DUALITY": ('astroport-pair-duality', 'duality'),
 "PAIR_V1": ('pair-v1', '{ package = "astroport-pair", version = "=1.3.3" }'),
 "VESTING_V1": ('vesting-v1', '{ package = "astroport-vesting", version = "=1.3.1" }'),
}
FREE = ["SINK", "BROKEN_CW20", "NESTING_CW20"]
id, codes = sys.argv[1], sys.argv[2].split(",")
if "CW20" not in codes: codes.insert(0, "CW20")
d = f"{root}/seeded/{id}"
os.makedirs(d, exist_ok=True)
src = open(H + "codes.rs").read()
src = re.sub(r"pub fn exists\(id: u64\) -> bool \{.*?\n\}", "pub fn exists(id: u64) -> bool {\n    code_opt(id).is_some()\n}", src, flags=re.S)
def keep(m): return m.group(0) if m.group(1) in codes or m.group(1) in FREE else ""
src = re.sub(r"            m\.insert\((\w+), (?:Code \{.*?\n            \}|basic!\(.*?\)|Code \{[^\n]*\})\);\n", keep, src, flags=re.S)
src = src.replace("pub fn code(id: u64) -> &'static Code {", "pub fn code(id: u64) -> &'static Code {\n    code_opt(id).unwrap()\n}\npub fn code_opt(id: u64) -> Option<&'static Code> {")
src = src.replace("        .get(&id)\n        .unwrap()\n", "        .get(&id)\n")
open(d + "/codes.rs", "w").write(src)
for f in ["world.rs", "pool.rs", "setup.rs", "dex.rs"]:
    s = open(H + f).read()
    open(d + "/" + f, "w").write(s)
deps = ""
for c in codes:
    if c in FREE: continue
    n, v = CR[c]
    if v.startswith("{"): deps += f"{n} = {v}\n"
    elif v == "shadow": deps += f'{n} = {{ path = "@SCRATCH@/tracker" }}\n'
    elif v == "duality": deps += f'{n} = {{ package = "astroport-pair-concentrated-duality", path = "@SCRATCH@/pair_concentrated_duality" }}\n'
    else: deps += f'{n} = {{ path = "@REPO@/{v}" }}\n'
open(d + "/Cargo.toml.in", "w").write(f"""[package]
name = "demo"
version = "0.1.0"
edition = "2021"

[workspace]

[[bin]]
name = "demo"
path = "main.rs"

[dependencies]
{deps}astroport = {{ path = "@REPO@/packages/astroport" }}
cosmwasm-std = {{ version = "1.5", features = ["stargate", "cosmwasm_1_1", "iterator"] }}
serde = {{ version = "1", features = ["derive"] }}
serde_json = "1"

[profile.dev]
opt-level = 0
debug = false
incremental = false
overflow-checks = true
debug-assertions = false
""")
extra = ""
if "TRACKER" in codes:
    extra = 'mkdir -p "$T/tracker"\nsed "s|/repo|$PWD|g" "$D/tracker.toml.in" > "$T/tracker/Cargo.toml"\n'
    open(d + "/tracker.toml.in", "w").write(open(root + "/harness/shadow/tokenfactory_tracker/Cargo.toml").read())
if "DUALITY" in codes:
    extra += 'mkdir -p "$T/pair_concentrated_duality" "$T/neutron_std/src"\nsed "s|/repo|$PWD|g" "$D/duality.toml.in" > "$T/pair_concentrated_duality/Cargo.toml"\ncp "$D/neutron.toml.in" "$T/neutron_std/Cargo.toml"\ncp "$D/neutron.rs.in" "$T/neutron_std/src/lib.rs"\n'
    h = root + "/harness/shadow/"
    for a, b in [("pair_concentrated_duality/Cargo.toml", "duality.toml.in"), ("neutron_std/Cargo.toml", "neutron.toml.in"), ("neutron_std/src/lib.rs", "neutron.rs.in")]:
        open(d + "/" + b, "w").write(open(h + a).read())
open(d + "/Cargo.lock", "w").write(open(root + "/harness/Cargo.lock").read().replace('name = "mc"', 'name = "demo"'))
open(d + "/demo.sh", "w").write(f'''#!/bin/bash
# Builds a small program against the contracts in the current directory and runs it, in a scratch directory.
set -e
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
{extra}cp "$D"/*.rs "$D/Cargo.lock" "$T/"
sed "s|@REPO@|$PWD|g; s|@SCRATCH@|$T|g" "$D/Cargo.toml.in" > "$T/Cargo.toml"
cd "$T"
CARGO_TARGET_DIR="$T/target" cargo build --offline -q 2> "$T/log" || {{ cat "$T/log"; exit 99; }}
"$T/target/debug/demo"
''')
os.chmod(d + "/demo.sh", 0o755)
m = d + "/main.rs"
s = open(m).read()
if "mod world;" in s and "mod dex;" not in s:
    open(m, "w").write(s.replace("mod codes;\n", "mod codes;\nmod dex;\n", 1))
if "mod world;" not in s:
    open(m, "w").write("#![allow(dead_code, unused)]\nmod codes;\nmod dex;\nmod pool;\nmod setup;\nmod world;\nuse codes::*;\nuse pool::*;\nuse setup::*;\nuse serde_json::{json, Value};\nuse world::*;\n" + s)
