"""Writes /verif/seeded/<id>/ from the table below (patches are made in a scratch copy of /repo). usage: seeds.py [id...]"""
import json, os, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = r'''#!/bin/bash
# runs with cwd = the repository
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
. /opt/vp/env.sh
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src"
cp "$here"/*.rs "$work/src/"
cp "$repo/Cargo.lock" "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
redscript = { path = "$repo/core" }
redscript-decompiler = { path = "$repo/decompiler" }
hashbrown = "0.14"
@DEPS@
EOF
@PRE@
export CARGO_TARGET_DIR="$work/target" CARGO_INCREMENTAL=0 RUSTFLAGS="--cap-lints warn" DEMO_WORK="$work"
cargo run --offline --quiet --manifest-path "$work/Cargo.toml"
'''
COMMON = r'''#![allow(dead_code, unused_imports)]
pub use redscript::ast::*;
pub use redscript::bundle::*;
pub use redscript::bytecode::*;
pub use redscript::definition::*;
pub use redscript::Ref;
pub use redscript_decompiler::print::{write_definition, OutputMode};
pub use std::io::Cursor;

pub fn base() -> ScriptBundle {
    let raw = std::fs::read("resources/predef.redscripts").unwrap();
    ScriptBundle::load(&mut Cursor::new(raw)).unwrap()
}
pub fn save(b: &ScriptBundle) -> Vec<u8> {
    let mut out = Cursor::new(vec![]);
    b.save(&mut out).unwrap();
    out.into_inner()
}
pub fn load(raw: Vec<u8>) -> ScriptBundle {
    ScriptBundle::load(&mut Cursor::new(raw)).unwrap()
}
pub fn name(pool: &mut ConstantPool, s: &str) -> PoolIndex<CName> {
    pool.names.add(Ref::from(s))
}
pub fn type_(pool: &mut ConstantPool, s: &str) -> PoolIndex<Type> {
    let n = name(pool, s);
    pool.add_definition(Definition::type_(n, Type::Prim))
}
pub fn blank(code: Vec<Instr<Offset>>) -> Function {
    Function {
        visibility: Visibility::Public,
        flags: FunctionFlags::new().with_is_static(true).with_has_body(!code.is_empty()),
        source: Some(SourceReference::default()),
        return_type: None,
        unk1: false,
        base_method: None,
        parameters: vec![],
        locals: vec![],
        operator: None,
        cast: 0,
        code: Code::new(code),
        unk2: vec![],
    }
}
pub fn func(pool: &mut ConstantPool, s: &str, code: Vec<Instr<Offset>>) -> PoolIndex<Function> {
    let n = name(pool, s);
    pool.add_definition(Definition::function(n, PoolIndex::UNDEFINED, blank(code)))
}
pub fn text<A>(pool: &ConstantPool, idx: PoolIndex<A>) -> Result<String, String> {
    let mut out = vec![];
    write_definition(&mut out, pool.definition(idx).unwrap(), pool, 0, OutputMode::Code { verbose: false }).map_err(|e| e.to_string())?;
    Ok(String::from_utf8(out).unwrap())
}
pub fn class() -> Class {
    Class { visibility: Visibility::Public, flags: ClassFlags::new(), base: PoolIndex::UNDEFINED, functions: vec![], fields: vec![], overrides: vec![] }
}
pub fn off(n: i16) -> Offset {
    Offset::new(n)
}
'''
SEEDS = {}


def seed(id, prop, edits, main, needs, breaks, deps="", pre=""):
    SEEDS[id] = dict(prop=prop, edits=edits, main=main, needs=needs, breaks=breaks, deps=deps, pre=pre)


exec(open(os.path.join(ROOT, "tools", "seedlist.py")).read())


def main():
    want = sys.argv[1:] or list(SEEDS)
    wt = "/tmp/seedwt"
    for id in want:
        s = SEEDS[id]
        shutil.rmtree(wt, ignore_errors=True)
        subprocess.run(["git", "clone", "-q", "/repo", wt], check=True)
        for (f, old, new) in s["edits"]:
            p = os.path.join(wt, f)
            t = open(p).read()
            if t.count(old) != 1:
                sys.exit(f"{id}: {f}: {t.count(old)} matches of {old!r}")
            open(p, "w").write(t.replace(old, new))
        d = os.path.join(ROOT, "seeded", id)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        diff = subprocess.run(["git", "-C", wt, "diff"], stdout=subprocess.PIPE, check=True).stdout
        open(os.path.join(d, "patch.diff"), "wb").write(diff)
        open(os.path.join(d, "demo.sh"), "w").write(DEMO.replace("@DEPS@", s["deps"]).replace("@PRE@", s["pre"]))
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        if s["main"].lstrip().startswith("//raw"):
            open(os.path.join(d, "main.rs"), "w").write(s["main"].lstrip())
            if s.get("common"):
                open(os.path.join(d, "common.rs"), "w").write(COMMON)
                for x in ["compiler", "peg", "peg-macros", "hamt-sync", "sequence_trie"]:
                    shutil.copytree(os.path.join(ROOT, "standins", x), os.path.join(d, "standins", x), ignore=shutil.ignore_patterns("target", "Cargo.lock"))
        else:
            open(os.path.join(d, "common.rs"), "w").write(COMMON)
            open(os.path.join(d, "main.rs"), "w").write("mod common;\nuse common::*;\n\nfn main() {" + s["main"] + "}\n")
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        shutil.rmtree(wt, ignore_errors=True)
        print("wrote", id)


main()
