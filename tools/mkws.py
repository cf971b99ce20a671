"""Generate build/ws: a mirror of /repo's crates that can be built offline.

Sources are symlinks into /repo (so every build sees the current working tree). Only the manifests are
generated, from /repo's own: dependencies that exist neither on this machine nor in its cargo cache are
replaced by the stand-ins under shims/ (see DESIGN.md, "Shims"), dependencies on sibling crates by paths,
and everything else keeps the version /repo asks for.
"""
import os
import re
import shutil
import tomllib

REPO = "/repo"
ROOT = os.environ.get("VERIF_ROOT") or os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WS = os.path.join(ROOT, "build", "ws")
SHIMS = os.path.join(ROOT, "shims")

# crate directory in /repo -> what to do
BUILT = ["crypto", "protected", "reputation", "storage", "partial_struct", "futures_utils",
         "util", "data_structures", "config", "rad", "validations", "p2p", "node"]


def write(path, text):
    if os.path.islink(path):
        os.remove(path)
    if not os.path.exists(path) or open(path, encoding="utf-8").read() != text:
        with open(path, "w", encoding="utf-8") as f:
            f.write(text)


def link(target, path):
    if os.path.islink(path) and os.readlink(path) == target:
        return
    if os.path.lexists(path):
        if os.path.isdir(path) and not os.path.islink(path):
            shutil.rmtree(path)
        else:
            os.remove(path)
    os.symlink(target, path)


def toml_value(v):
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, (int, float)):
        return str(v)
    if isinstance(v, str):
        return '"' + v.replace("\\", "\\\\").replace('"', '\\"') + '"'
    if isinstance(v, list):
        return "[" + ", ".join(toml_value(x) for x in v) + "]"
    if isinstance(v, dict):
        return "{ " + ", ".join(f"{toml_key(k)} = {toml_value(x)}" for k, x in v.items()) + " }"
    raise TypeError(v)


def toml_key(k):
    return k if re.fullmatch(r"[A-Za-z0-9_-]+", k) else toml_value(k)


# Dependencies replaced by a stand-in: name -> dict(path=...) | None (dropped)
SHIMMED = {
    "rocksdb": dict(path="rocksdb"),
    "exonum-build": dict(path="exonum_build"),
    "protobuf": dict(path="protobuf", features_ok=["with-serde"]),
    "protobuf-convert": dict(path="protobuf_convert"),
    "num_enum": dict(path="num_enum"),
    "strum": dict(path="strum"),
    "strum_macros": dict(path="strum_macros"),
    "serde_cbor": dict(path="serde_cbor"),
    "cbor-codec": dict(path="cbor"),
    "vrf": dict(path="vrf"),
    "bls-signatures-rs": dict(path="bls"),
    "bech32": dict(path="bech32", except_in=["crypto"]),
    "ethereum-types": dict(path="ethereum_types"),
    "ntp": dict(path="ntp"),
    "rand_distr": dict(path="rand_distr"),
    "bs58": dict(path="bs58"),
    "slicestring": dict(path="slicestring"),
    "if_rust_version": dict(path="if_rust_version"),
    "jsonpath": dict(path="jsonpath"),
    "minidom": dict(path="minidom"),
    "reqwest": dict(path="reqwest", features_ok=["socks"]),
    "directories-next": dict(path="directories_next"),
    "approx": dict(path="approx"),
    "witnet_net": dict(path="net"),
    "actix": dict(path="actix"),
    "jsonrpc-core": dict(path="jsonrpc_core"),
    "jsonrpc-pubsub": dict(path="jsonrpc_pubsub"),
    "witty-jsonrpc": dict(path="witty_jsonrpc", features_ok=["with_actix"]),
    "trust-dns-resolver": dict(path="trust_dns_resolver"),
    "glob": dict(path="glob"),
    "failure": None,
    "num": None,
    "sentry": None,
    "env_logger": dict(path="env_logger"),
    # in-process network
    "tokio": dict(path="simtokio", package="simtokio", only_in=["node"], features_ok=["io-util", "net", "time", "sync"]),
    # Present in another version only
    "futures-util": dict(version="0.3.4", only_in=["node"]),
    "derive_more": dict(path="derive_more"),
    "itertools": dict(version="0.13"),
    "ordered-float": dict(version="4.6"),
    "http": dict(version="1"),
    "toml": dict(version="0.9"),
}


def rewrite_dep(name, spec, crate):
    if isinstance(spec, str):
        spec = {"version": spec}
    spec = dict(spec)
    if "path" in spec and "git" not in spec and name not in SHIMMED:
        target = os.path.basename(os.path.normpath(spec["path"]))
        out = {"path": f"../{target}"}
    elif (name in SHIMMED and crate not in (SHIMMED[name] or {}).get("except_in", [])
          and crate in (SHIMMED[name] or {}).get("only_in", [crate])):
        s = SHIMMED[name]
        if s is None:
            return None
        s = dict(s)
        feats_ok = s.pop("features_ok", [])
        s.pop("except_in", None)
        s.pop("only_in", None)
        if "path" in s:
            s["path"] = os.path.join(SHIMS, s["path"])
        out = s
        fs = list(s.get("features", [])) + [f for f in spec.get("features", []) if f in feats_ok]
        if fs:
            out["features"] = fs
        if spec.get("package") and "package" not in out:
            out["package"] = spec["package"]
        if spec.get("optional"):
            out["optional"] = True
        return out
    else:
        out = {k: spec[k] for k in ("version", "package") if k in spec}
    for k in ("features", "default-features", "optional"):
        if k in spec:
            out[k] = spec[k]
    return out


def manifest(crate):
    src = tomllib.load(open(f"{REPO}/{crate}/Cargo.toml", "rb"))
    pkg = {k: v for k, v in src["package"].items() if k in ("name", "version", "edition", "build", "authors", "description")}
    if os.path.exists(f"{REPO}/{crate}/build.rs"):
        pkg.setdefault("build", "build.rs")
    out = ["[package]"] + [f"{k} = {toml_value(v)}" for k, v in pkg.items()]
    if "lib" in src:
        out += ["", "[lib]"] + [f"{k} = {toml_value(v)}" for k, v in src["lib"].items()]
    if "features" in src:
        out += ["", "[features]"] + [
            f"{toml_key(k)} = {toml_value([x for x in v if SHIMMED.get(x, 0) is not None])}"
            for k, v in src["features"].items()]
    for sect in ("dependencies", "build-dependencies", "dev-dependencies"):
        if sect not in src:
            continue
        out += ["", f"[{sect}]"]
        for n, s in src[sect].items():
            r = rewrite_dep(n, s, crate)
            if r is not None:
                out.append(f"{toml_key(n)} = {toml_value(r)}")
    return "\n".join(out) + "\n"


def generate():
    os.makedirs(WS, exist_ok=True)
    crates = list(BUILT)
    for c in crates:
        d = os.path.join(WS, c)
        os.makedirs(d, exist_ok=True)
        for name in os.listdir(d):
            if name != "Cargo.toml" and not os.path.lexists(f"{REPO}/{c}/{name}"):
                stale = os.path.join(d, name)
                if os.path.isdir(stale) and not os.path.islink(stale):
                    shutil.rmtree(stale)
                else:
                    os.remove(stale)
        for name in ("src", "tests", "build.rs"):
            if os.path.exists(f"{REPO}/{c}/{name}"):
                link(f"{REPO}/{c}/{name}", os.path.join(d, name))
        write(os.path.join(d, "Cargo.toml"), manifest(c))
    link(f"{REPO}/schemas", os.path.join(WS, "schemas"))


if __name__ == "__main__":
    generate()
