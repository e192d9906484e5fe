#!/usr/bin/env python3
"""Writes harness/wrap/<crate>/Cargo.toml for pallets of /repo: the same sources, with the substrate and ORML packages that are
not on this machine replaced by those in harness/shim.  Run by hand when a pallet is added; the output is committed."""
import os, sys, tomllib
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VERS = {"sp-core": "21", "sp-std": "8", "sp-io": "23", "sp-runtime": "24", "sp-arithmetic": "16", "sp-core-hashing": "9", "sp-weights": "20"}
SHIM = {"frame-support", "frame-system", "pallet-timestamp", "pallet-balances", "orml-tokens", "orml-traits", "frame-benchmarking",
        "pallet-transaction-payment", "pallet-scheduler", "pallet-preimage", "pallet-utility", "pallet-proxy", "pallet-authorship",
        "pallet-session", "pallet-aura", "pallet-collective", "pallet-membership", "pallet-identity", "orml-unknown-tokens", "visibility", "pretty_assertions"}
SKIP = {"fixed-hash", "proptest", "sp-staking", "sp-consensus-aura", "frame-executive"}

def dep(name, spec, out, crate="", dev=False):
    d = {} if isinstance(spec, str) else dict(spec)
    opt = d.get("optional")
    if name in SKIP:
        return
    line = {}
    if name in VERS:
        line["version"] = VERS[name]
    elif name in SHIM:
        if not os.path.isdir(f"{ROOT}/harness/shim/{name}"):
            print("  no shim:", name, file=sys.stderr)
            return
        line["path"] = f"../../shim/{name}"
    elif "path" in d:
        p = os.path.basename(os.path.normpath(d["path"]))
        p = os.path.basename(os.path.abspath(os.path.join("/repo/crates/x", d["path"])))
        if p == "rpc" or p == "runtime-api": return
        line["path"] = f"../{p}"
        if "package" in d:
            line["package"] = d["package"]
        fs = [f for f in d.get("features", []) if f != "runtime-benchmarks"]
        if fs: line["features"] = fs
    elif "git" in d:
        print("  skipped:", name, file=sys.stderr)
        return
    else:
        line["version"] = spec if isinstance(spec, str) else d["version"]
        if "package" in d: line["package"] = d["package"]
        fs = list(d.get("features", []))
        if fs: line["features"] = fs
    if name == "traits" and dev and crate in ("fee", "vault-registry", "nomination"):
        line["features"] = ["runtime-benchmarks"]
    if opt and name != "visibility":
        line["optional"] = True
    out.append((name, line))

def toml(v):
    if isinstance(v, bool): return "true" if v else "false"
    if isinstance(v, list): return "[" + ", ".join(toml(x) for x in v) + "]"
    return '"%s"' % v

def main():
    for c in sys.argv[1:]:
        m = tomllib.load(open(f"/repo/crates/{c}/Cargo.toml", "rb"))
        deps, dev = [], []
        for n, s in m["dependencies"].items(): dep(n, s, deps)
        for n, s in m.get("dev-dependencies", {}).items(): dep(n, s, dev, c, True)
        if c in ("fee", "vault-registry", "nomination") and "traits" not in m.get("dev-dependencies", {}):
            dep("traits", {"path": "../traits"}, dev, c, True)
        p = f"{ROOT}/harness/wrap/{c}"
        os.makedirs(p, exist_ok=True)
        o = [f'[package]', f'name = "{m["package"]["name"]}"', f'version = "{m["package"]["version"]}"', 'edition = "2021"', '',
             '[lib]', f'path = "/repo/crates/{c}/src/lib.rs"', 'doctest = false', '', '[dependencies]']
        for n, l in deps: o.append(f"{n} = {{ " + ", ".join(f"{k} = {toml(v)}" for k, v in l.items()) + " }")
        o += ['', '[dev-dependencies]']
        for n, l in dev:
            if n == "mocktopus" or True:
                o.append(f"{n} = {{ " + ", ".join(f"{k} = {toml(v)}" for k, v in l.items() if k != "optional") + " }")
        o += ['', '[features]', 'default = ["std"]']
        have = {n for n, l in deps if l.get("optional")}
        local = {n for n, l in deps}
        for f, v in m.get("features", {}).items():
            if f == "default": continue
            vs = []
            for x in v:
                base = x.split("/")[0].rstrip("?")
                if f in ("std", "runtime-benchmarks", "try-runtime"): continue
                if "/" in x and base not in local: continue
                if "/" not in x and x not in m["features"] and x not in have: continue
                vs.append(x)
            o.append(f"{f} = {toml(vs)}")
        open(p + "/Cargo.toml", "w").write("\n".join(o) + "\n")
main()
