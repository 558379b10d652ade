#!/usr/bin/env python3
"""Generates the simulated workspace: /repo's sources, unmodified, behind the simulator's seams.

Every source file that is compiled is the one in /repo (symlinks); generated from /repo's file of
the same name are only Cargo.toml (dependencies that come from git are dropped or replaced) and each
crate's root lib.rs, which gets one line, `extern crate simstd as std;`, so that `std::sync` and
`std::thread` inside the crate are the simulator's. Cargo patches rayon-core, num_cpus and yastl with
simulated versions; libc's I/O, randomness and clock entry points are taken over at link time.

Usage: mkws.py [WS]"""

import os
import re
import shutil
import sys

HERE = os.path.dirname(os.path.realpath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
WS = sys.argv[1] if len(sys.argv) > 1 else os.path.join(os.path.dirname(HERE), ".build", "ws")

SIMSTD = 'simstd = { path = "%s/simstd" }' % HERE
CRATES = {
    "algebraic-gpu": {
        "add_deps": SIMSTD,
        "root": {"src/lib.rs": {"simstd": True}},
    },
    "fields": {
        "deps": {"franklin-crypto"},
        "add_deps": 'ff = {package="ff_ce" , version="0.12", features = ["derive"]}',
        "root": {
            "src/lib.rs": {
                "drop": [r"pub use franklin_crypto::bellman as bellman_ce;"],
                "replace": [(r"pub use bellman_ce::pairing::ff;", "pub extern crate ff;")],
            }
        },
    },
    "starky": {
        "deps": {"profiler_macro"},
        "add_deps": 'profiler_macro = { path = "%s/shims/profiler_macro" }\n%s' % (HERE, SIMSTD),
        "no_dev": True,
        "skip": {"benches"},
        "root": {
            "src/lib.rs": {
                "replace": [
                    ("mod fri;", "pub mod fri;"),
                    ("mod starkinfo_codegen;", "pub mod starkinfo_codegen;"),
                ],
                "simstd": True,
            }
        },
    },
    "recursion": {
        "deps": {"powdr", "powdr-parser-util", "algebraic", "wasmer"},
        "add_deps": SIMSTD,
        "no_dev": True,
        "root": {
            "src/lib.rs": {
                "mods": ["pilcom", "r1cs2plonk"],
                "replace": [("mod io_utils;", "pub mod io_utils;")],
                "simstd": True,
            },
            "src/compressor12/mod.rs": {
                "mods": ["compressor12_exec", "compressor12_setup", "plonk_setup"],
            },
        },
    },
    "algebraic": {
        "add_deps": SIMSTD,
        "no_dev": True,
        "root": {"src/lib.rs": {"simstd": True}},
    },
    # the same crates where the libraries they miss are replaced by stand-ins
    "fields+bellman": {"add_deps": SIMSTD},
    "recursion+powdr": {
        "add_deps": SIMSTD,
        "no_dev": True,
        "root": {
            "src/lib.rs": {
                "replace": [("mod io_utils;", "pub mod io_utils;")],
                "simstd": True,
            },
        },
    },
    "recursion-gnark/ffi": {
        "skip": {"build.rs", "go"},
        "add_deps": SIMSTD,
        "no_build_deps": True,
        "root": {"src/lib.rs": {"mods": ["ffi"], "simstd": True}},
    },
    "groth16": {
        "deps": {"profiler_macro", "algebraic", "franklin-crypto", "bellperson", "regex"},
        "add_deps": (
            'profiler_macro = { path = "%s/shims/profiler_macro" }\n%s\nregex = "1"\n'
            'bellperson = { version = "0.26", default-features = false, features = ["groth16"] }'
        )
        % (HERE, SIMSTD),
        "no_dev": True,
        "features": '[features]\ndefault = ["cuda"]\ncuda = ["ff", "pairing", "group", "blstrs", '
        '"algebraic-gpu/default", "rand_new", "rand_core"]\nopencl = []\nprofiler = []\n',
        "root": {"src/lib.rs": {"simstd": True}},
    },
}
GROUPS = {
    "starky": ["fields", "starky", "recursion"],
    "alg": ["fields+bellman", "algebraic", "algebraic-gpu", "groth16", "recursion-gnark/ffi"],
    "comp": ["fields+bellman", "starky", "algebraic", "recursion+powdr"],
}
# dependencies that come from git and cannot be fetched, and what stands in for them
SHIMS = {"alg": ["franklin-crypto"], "comp": ["franklin-crypto", "powdr", "powdr-parser-util"]}


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.islink(path):
        os.unlink(path)
    try:
        with open(path) as f:
            if f.read() == text:
                return
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(text)


def link(target, path):
    if os.path.islink(path):
        if os.readlink(path) == target:
            return
        os.unlink(path)
    elif os.path.isdir(path):
        shutil.rmtree(path)
    elif os.path.exists(path):
        os.unlink(path)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    os.symlink(target, path)


def source(text, rule):
    out = []
    for line in text.splitlines(keepends=True):
        code = line.strip()
        mod = re.fullmatch(r"(?:pub(?:\(crate\))? )?mod (\w+);", code)
        if mod and mod[1] in rule.get("mods", ()) or code in rule.get("drop", ()):
            line = "// left out: " + line
        for old, new in rule.get("replace", ()):
            if code == old:
                line = new + "\n"
        out.append(line)
    if rule.get("simstd"):
        # after the inner attributes and inner doc comments
        k = 0
        depth = 0
        for i, line in enumerate(out):
            code = line.strip()
            if depth or code.startswith("#!["):
                depth += code.count("[") - code.count("]")
                k = i + 1
            elif code.startswith("//!") or not code or code.startswith("//"):
                if code.startswith("//!"):
                    k = i + 1
            else:
                break
        out.insert(k, "#[allow(unused_extern_crates)] extern crate simstd as std;\n")
    return "".join(out)


def manifest(text, crate, shims):
    left_out = crate.get("deps", set())
    out = []
    section = ""
    done = False
    for line in text.splitlines(keepends=True):
        if not line.endswith("\n"):
            line += "\n"
        head = re.match(r"\s*(\[+[^\]]+\]+)", line)
        if head:
            section = head[1]
        if section == "[features]" and "features" in crate:
            if not done:
                out.append(crate["features"])
                done = True
            continue
        if section in ("[dev-dependencies]", "[[bench]]") and crate.get("no_dev"):
            continue
        if section == "[build-dependencies]" and crate.get("no_build_deps"):
            continue
        if re.match(r"crate-type\s*=", line):
            line = 'crate-type = ["rlib"]\n'
        name = re.match(r"([\w-]+)\s*=\s*[\"{]", line)
        if name and name[1] in shims:
            # what comes from git here is taken from a directory
            line = re.sub(r'\bgit\s*=\s*"[^"]*"', f'path = "{HERE}/shims/{name[1]}"', line)
            line = re.sub(r',\s*branch\s*=\s*"[^"]*"', "", line)
        if name and name[1] in left_out:
            line = "# left out: " + line
        elif re.match(r"[\w-]+\s*=\s*\[", line):
            for dep in left_out:
                line = re.sub(rf'"{re.escape(dep)}(/[^"]*)?"\s*,?\s*', "", line)
        out.append(line)
        if line.strip() == "[dependencies]" and "add_deps" in crate:
            out.append(crate["add_deps"] + "\n")
    return "".join(out)


def mirror(src, dst, generated, skip):
    if os.path.islink(dst):
        os.unlink(dst)
    os.makedirs(dst, exist_ok=True)
    names = {n for n in os.listdir(src) if n not in skip and n != "target"}
    for old in os.listdir(dst):
        if old not in names:
            p = os.path.join(dst, old)
            shutil.rmtree(p) if os.path.isdir(p) and not os.path.islink(p) else os.unlink(p)
    for name in names:
        here = [g[len(name) + 1 :] for g in generated if g.startswith(name + "/")]
        if here:
            mirror(os.path.join(src, name), os.path.join(dst, name), here, ())
        elif name not in generated:
            link(os.path.join(src, name), os.path.join(dst, name))


def main():
    # one workspace per harness, so that features and patches of one do not reach the other
    for group, names in GROUPS.items():
        ws = os.path.join(WS, group)
        os.makedirs(ws, exist_ok=True)
        members = []
        for rules in names:
            crate = CRATES[rules]
            name = rules.split("+")[0]
            src, dst = os.path.join(REPO, name), os.path.join(ws, name)
            if not os.path.isdir(src):
                sys.exit(f"missing {src}")
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            roots = crate.get("root", {})
            mirror(src, dst, ["Cargo.toml", *roots], crate.get("skip", ()))
            with open(os.path.join(src, "Cargo.toml")) as f:
                write(os.path.join(dst, "Cargo.toml"), manifest(f.read(), crate, SHIMS.get(group, ())))
            for path, rule in roots.items():
                with open(os.path.join(src, path)) as f:
                    write(os.path.join(dst, path), source(f.read(), rule))
            members.append(name)
        h = f"h-{group}"
        link(os.path.join(HERE, h, "src"), os.path.join(ws, h, "src"))
        if group == "starky":
            # the verifier circuits' library, which the simulation reads as text
            lib = os.path.join(REPO, "stark-circuits/circuits")
            link(lib, os.path.join(ws, h, "circuits"))
            names = sorted(n[:-7] for n in os.listdir(lib) if n.endswith(".circom"))
            write(
                os.path.join(ws, h, "circuits.rs"),
                "const FILES: &[(&str, &str)] = &[\n%s];\n" % "".join(f'    ("{n}", include_str!("circuits/{n}.circom")),\n' for n in names),
            )
        with open(os.path.join(HERE, h, "Cargo.toml.in")) as f:
            write(os.path.join(ws, h, "Cargo.toml"), f.read().replace("@SIM@", HERE))
        members.append(h)
        patches = ["rayon-core", "num_cpus", "lazy_static"]
        if group == "alg":
            patches.append("yastl")
        write(
            os.path.join(ws, "Cargo.toml"),
            '[workspace]\nmembers = [%s]\nresolver = "2"\n\n[profile.release]\nopt-level = 3\n'
            "debug = false\nincremental = false\ncodegen-units = 16\noverflow-checks = false\n\n"
            "[patch.crates-io]\n%s\n"
            % (
                ", ".join(f'"{n}"' for n in members),
                "\n".join(f'{p} = {{ path = "{HERE}/shims/{p}" }}' for p in patches),
            ),
        )
        lock = os.path.join(HERE, f"Cargo.lock.{group}")
        with open(lock if os.path.exists(lock) else os.path.join(REPO, "Cargo.lock")) as f:
            text = f.read()
        seen = os.path.join(ws, ".seed-Cargo.lock")
        if not (
            os.path.exists(os.path.join(ws, "Cargo.lock"))
            and os.path.exists(seen)
            and open(seen).read() == text
        ):
            write(os.path.join(ws, "Cargo.lock"), text)
            write(seen, text)


if __name__ == "__main__":
    main()
