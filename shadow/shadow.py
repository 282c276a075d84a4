#!/usr/bin/env python3
"""shadow.py DEST PKG... [--leaf=NAME]: lays out in DEST a cargo workspace of the real crates of /repo.

Every package directory holds a derived Cargo.toml and symlinks to /repo's own src (and build.rs), so the code compiled
is /repo's working tree. What differs from /repo's workspace, all of it stated here:
 - dev-dependencies, tests and benches are left out;
 - parity-scale-codec, merkletree-mintlayer, enum-iterator, oneshot and enumflags2 (git or uncached crates) are replaced by the stand-ins in
   stubs/; ml_primitives and the module that converts to it are left out;
 - path members not asked for, directly or through dependencies, are left out."""
import os, re, sys, tomllib

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
STUBS = {"enumflags2": "enumflags2", "oneshot": "oneshot", "parity-scale-codec": "parity-scale-codec", "merkletree-mintlayer": "merkletree-mintlayer", "enum-iterator": "enum-iterator"}
DROP = {"ml_primitives", "mockall", "ledger-lib", "mintlayer-ledger-messages", "trezor-client"}
DROP_FEATURES = {"lmdb", "mock"}
#: file: regexes of lines blanked
CUTS = {"common/src/lib.rs": [r"^pub mod primitives_converters;$"]}

#: "leaf" layouts: the same sources with whole modules left out, so that the packages that only those modules need are
#: not compiled. Only a matter of speed: where a leaf layout does not compile (because the code now refers to what is
#: left out), vfw falls back to the full layout.
MODS = lambda *m: r"^(pub )?mod (%s);$" % "|".join(m)
LEAF = {
    "common": {
        "cuts": {
            "common/src/lib.rs": [MODS("address", "chain", "size_estimation", "text_summary", "token_decimals_provider"),
                                  r"(?s)^pub use token_decimals_provider::\{.*?\};"],
            "common/src/primitives/mod.rs": [MODS("id", "user_agent", "version_tag", "hash_encoded"),
                                  r"^pub use (id|version_tag)::.*;$", r"^use crate::chain::.*;$",
                                  r"(?s)^#\[derive\([^\n]*\]\npub enum CoinOrTokenId \{.*?^\}\n", r"(?s)^impl CoinOrTokenId \{.*?^\}\n"],
            "common/src/primitives/amount/rpc.rs": [r"(?s)^use crate::\{.*?^\};\n",
                                  r"(?s)^    pub fn from_currency_amount.*?^    \}\n"],
            "utils/src/lib.rs": [r"^(pub )?mod (?!array_2d|shallow_clone|concurrency_impl|const_value|displayable_option|ensure|newtype|sorted|try_as|iter|graph_traversals|concatln)\w+;$",
                                  r"(?s)^pub mod mintlayer_core_log_error_support \{.*?^\}\n", r"(?s)^pub use (tokio_utils|log_error)::.*?;$", r"(?s)^use .*?;$"],
            "rpc/types/src/lib.rs": [],
        },
        "drop": {
            "common": {"crypto", "logging", "script", "rpc-types", "typename", "anyhow", "clap", "fixed-hash", "generic-array", "itertools",
                       "lazy_static", "merkletree-mintlayer", "num", "paste", "ref-cast", "smallvec", "strum", "unwrap-infallible", "once_cell"},
            "utils": {"crypto", "logging", "log_error", "randomness", "serialization", "anyhow", "clap", "ctor", "directories", "fix-hidden-lifetime-bug",
                      "fixed-hash", "heck", "probabilistic-collections", "qrcodegen", "slave-pool", "tokio", "tracing", "zeroize", "parity-scale-codec"},
        },
    },
}

LEAF["storage"] = LEAF["common"]
LEAF["accounting"] = {"cuts": dict(LEAF["common"]["cuts"], **{"accounting/src/lib.rs": [r"^(pub )?mod block_undo;$", r"(?s)^    block_undo::\{.*?\},$"]}), "drop": LEAF["common"]["drop"]}


def q(v):
    if isinstance(v, bool): return "true" if v else "false"
    if isinstance(v, (int, float)): return str(v)
    if isinstance(v, str): return '"' + v.replace("\\", "\\\\").replace('"', '\\"') + '"'
    if isinstance(v, list): return "[" + ", ".join(q(x) for x in v) + "]"
    return "{ " + ", ".join(f"{q(k)} = {q(x)}" for k, x in v.items()) + " }"


def write(path, text):
    try:
        if open(path).read() == text: return
    except FileNotFoundError:
        os.makedirs(os.path.dirname(path), exist_ok=True)
    open(path, "w").write(text)


def link(dst, src):
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    if os.path.lexists(dst) and not os.path.islink(dst): os.remove(dst)
    if os.path.islink(dst):
        if os.readlink(dst) == src: return
        os.remove(dst)
    os.symlink(src, dst)


def load(p):
    with open(os.path.join(REPO, p, "Cargo.toml"), "rb") as f: return tomllib.load(f)


def mirror(d, dest, cuts):
    """Symlinks the source files of d, except those with a cut, which are copies; unneeded links are removed."""
    names = set()
    top = os.path.join(dest, d)
    if os.path.islink(top): os.remove(top)
    os.makedirs(top, exist_ok=True)
    assert os.path.realpath(top).startswith(os.path.realpath(dest) + "/"), "never write outside dest"
    for dp, dns, fns in os.walk(os.path.join(REPO, d)):
        rel = os.path.relpath(dp, REPO)
        for f in fns:
            r = os.path.normpath(os.path.join(rel, f))
            names.add(r)
            src, dst = os.path.join(REPO, r), os.path.join(dest, r)
            t = None
            if f.endswith(".rs"):
                t0 = t = open(src, encoding="utf-8").read()
                for x in cuts.get(r, []): t = re.sub(x, lambda m: "\n" * m.group().count("\n"), t, flags=re.M)
                # the proofs for an old version of kani, which no longer compile
                t = t.replace("#[cfg(kani)]", "#[cfg(any())]")
                if t == t0: t = None
            if t is None: link(dst, src)
            else:
                if os.path.islink(dst): os.remove(dst)
                write(dst, t)
    for dp, dns, fns in os.walk(os.path.join(dest, d)):
        for f in fns:
            r = os.path.normpath(os.path.join(os.path.relpath(dp, dest), f))
            if r not in names: os.remove(os.path.join(dest, r))


def main(dest, roots, leaf=None, harness=None):
    leaf = LEAF[leaf] if leaf else {"cuts": {}, "drop": {}}
    cuts = {f: CUTS.get(f, []) + leaf["cuts"].get(f, []) for f in [*CUTS, *leaf["cuts"]]}
    root = load("")
    wdeps = root["workspace"]["dependencies"]
    todo, done = list(roots), {}
    while todo:
        p = os.path.normpath(todo.pop())
        if p in done: continue
        m = load(p)
        done[p] = m
        for sect in ("dependencies", "build-dependencies"):
            for n, d in m.get(sect, {}).items():
                if isinstance(d, dict) and "path" in d and not d.get("optional") and n not in leaf["drop"].get(p, ()):
                    todo.append(os.path.join(p, d["path"]))
    for p, m in done.items():
        base = os.path.join(dest, p)
        out = ["[package]"]
        for k, v in m["package"].items():
            out.append(f"{k} = {q(root['workspace']['package'][k]) if isinstance(v, dict) and v.get('workspace') else q(v)}")
        out += ["autotests = false", "autobenches = false", "autoexamples = false"]
        if "lib" in m: out += ["[lib]"] + [f"{k} = {q(v)}" for k, v in m["lib"].items()]
        dropped = set()
        for sect in ("dependencies", "build-dependencies"):
            out.append(f"[{sect}]")
            for n, d in m.get(sect, {}).items():
                d = {"version": d} if isinstance(d, str) else dict(d)
                pathdep = "path" in d and not d.get("workspace")
                if n in DROP or n in leaf["drop"].get(p, ()) or (pathdep and os.path.normpath(os.path.join(p, d["path"])) not in done):
                    dropped.add(n); continue
                if d.pop("workspace", False):
                    w = wdeps[n]
                    w = {"version": w} if isinstance(w, str) else dict(w)
                    f = w.get("features", []) + d.get("features", [])
                    w.update(d)
                    if f: w["features"] = f
                    d = w
                if n in STUBS:
                    d = {k: v for k, v in d.items() if k in ("features", "optional")}
                    d["path"] = os.path.join(HERE, "stubs", STUBS[n])
                elif pathdep:
                    f = [x for x in d.get("features", []) if x not in DROP_FEATURES]
                    if "features" in d: d["features"] = f
                out.append(f"{q(n)} = {q(d)}")
        if "features" in m:
            out.append("[features]")
            for k, v in m["features"].items():
                v = [x for x in v if not any(x in (dr, "dep:" + dr) or x.startswith(dr + "/") or x.startswith(dr + "?/") for dr in dropped)]
                out.append(f"{q(k)} = {q(v)}")
        write(os.path.join(base, "Cargo.toml"), "\n".join(out) + "\n")
        if os.path.exists(os.path.join(REPO, p, "build.rs")): link(os.path.join(base, "build.rs"), os.path.join(REPO, p, "build.rs"))
        for x in os.listdir(os.path.join(REPO, p)):
            if x in ("Cargo.toml", "src", "build.rs", "tests", "target", "benches"): continue
            # data directories (include_str! and the like); not nested packages
            full = os.path.join(REPO, p, x)
            if any(os.path.normpath(os.path.join(p, x)) == d or d.startswith(os.path.normpath(os.path.join(p, x)) + "/") for d in done): continue
            if os.path.isdir(full) and not os.path.exists(os.path.join(full, "Cargo.toml")): link(os.path.join(base, x), full)
        mirror(p + "/src", dest, cuts)
    if harness:
        # the crate of contract cases: /verif/harness/NAME, with path dependencies on the crates laid out here
        hc = os.path.join(HERE, "..", "harness", harness)
        with open(os.path.join(hc, "Cargo.toml")) as f: t = f.read()
        t = t.replace("\n[workspace]\n", "\n").replace('"../vsrc"', q(os.path.normpath(os.path.join(hc, "../vsrc")))).replace(f"../../.build/h/{harness}/", "../")
        write(os.path.join(dest, "h_" + harness, "Cargo.toml"), t)
        link(os.path.join(dest, "h_" + harness, "src"), os.path.normpath(os.path.join(hc, "src")))
    ws = ["[workspace]", 'resolver = "2"', f"members = {q(sorted(done) + (['h_' + harness] if harness else []))}"]
    ws.append("[profile.dev]\ndebug = 0\nopt-level = 1\n[profile.dev.build-override]\nopt-level = 0")
    write(os.path.join(dest, "Cargo.toml"), "\n".join(ws) + "\n")
    lock = os.path.join(dest, "Cargo.lock")
    if not os.path.exists(lock):
        write(lock, open(os.path.join(REPO, "Cargo.lock")).read())


if __name__ == "__main__":
    opt = lambda n: next((a[len(n) + 3:] for a in sys.argv[1:] if a.startswith(f"--{n}=")), None)
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    main(os.path.abspath(args[0]), args[1:], opt("leaf"), opt("harness"))
