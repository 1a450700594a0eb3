//! Monitors of the command line tool: it runs as a process in a scratch directory; everything it leaves there is
//! compared with what it was told to do.
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::path::{Component, Path, PathBuf};
use std::process::Command;

use redscript::definition::AnyDefinition;
use redscript_compiler::diagnostics::Diagnostic;
use redscript_compiler::source_map::{Files, SourceFilter};
use redscript_compiler::unit::CompilationUnit;
use redscript_decompiler::files::FileIndex;
use redscript_decompiler::print::{write_definition, OutputMode};
use vcomp::lang::Printer;
use vcomp::progen::{Gen, Shape};
use vmon::obs::{load, save};
use vmon::report::*;
use vmon::rng::{hash_bytes, Rng};
use vmon::spec::SBundle;
use vmon::{ensure, ensure_eq, gen};

use crate::world::Scratch;

type R<T> = Result<T, String>;

fn io<T>(what: &str, r: std::io::Result<T>) -> R<T> {
    r.map_err(|e| format!("HARNESS: {what}: {e}"))
}

/// every file below a directory with its content, and every directory
fn tree(dir: &Path) -> R<(BTreeMap<PathBuf, Vec<u8>>, BTreeSet<PathBuf>)> {
    let (mut files, mut dirs, mut todo) = (BTreeMap::new(), BTreeSet::new(), vec![dir.to_path_buf()]);
    while let Some(d) = todo.pop() {
        for e in io("read_dir", fs::read_dir(&d))? {
            let p = io("entry", e)?.path();
            if p.is_dir() {
                dirs.insert(p.clone());
                todo.push(p);
            } else {
                files.insert(p.clone(), io("read", fs::read(&p))?);
            }
        }
    }
    Ok((files, dirs))
}

fn cli(cwd: &Path, args: &[String]) -> R<(Option<i32>, String)> {
    cli_with(cwd, args, &[])
}

fn cli_with(cwd: &Path, args: &[String], env: &[(&str, &str)]) -> R<(Option<i32>, String)> {
    let exe = io("own path", std::env::current_exe())?.with_file_name("redscript-cli");
    let out = io("start", Command::new(exe).args(args).current_dir(cwd).env("RUST_BACKTRACE", "0").envs(env.iter().copied()).output())?;
    let text = format!("{}{}", String::from_utf8_lossy(&out.stdout), String::from_utf8_lossy(&out.stderr));
    ensure!(!text.contains("panicked at"), "the tool panics: {text}");
    ensure!(out.status.code().is_some(), "the tool is ended by a signal: {:?} {text}", out.status);
    Ok((out.status.code(), text))
}

fn program(r: &mut Rng, modules: bool) -> Vec<String> {
    let sh = Shape { modules, mods: false, size: 1 + r.below(4) };
    let p = Gen::new(r).program(&sh);
    Printer { p: &p, r, extra: 0, noise: false }.files()
}

fn compiled(base: &[u8], texts: &[(PathBuf, String)]) -> R<Option<Vec<u8>>> {
    let mut bundle = load(base).map_err(|e| format!("HARNESS: base: {e}"))?;
    let mut files = Files::new();
    for (p, t) in texts {
        files.add(p.clone(), t.clone());
    }
    let unit = CompilationUnit::new_with_defaults(&mut bundle.pool).map_err(|e| format!("HARNESS: {e}"))?;
    match unit.compile_files(&files) {
        Ok(o) if o.diagnostics().iter().any(|d| d.is_fatal()) => Ok(None),
        Ok(_) => save(&bundle).map(Some).map_err(|e| format!("HARNESS: {e}")),
        Err(_) => Ok(None),
    }
}

/// what the library reports about these sources
fn reported(base: &[u8], texts: &[(PathBuf, String)]) -> R<Vec<String>> {
    let mut bundle = load(base).map_err(|e| format!("HARNESS: base: {e}"))?;
    let mut files = Files::new();
    for (p, t) in texts {
        files.add(p.clone(), t.clone());
    }
    let unit = CompilationUnit::new_with_defaults(&mut bundle.pool).map_err(|e| format!("HARNESS: {e}"))?;
    let show = |d: &Diagnostic| {
        let mut t = String::new();
        d.display(&files, &mut t).map(|()| t.trim_end().to_owned()).map_err(|e| format!("HARNESS: {e}"))
    };
    match unit.compile_files(&files) {
        Ok(o) => o.diagnostics().iter().map(show).collect(),
        Err(e) => Diagnostic::from_error(e).map_or_else(|_| Ok(vec![]), |d| Ok(vec![show(&d)?])),
    }
}

fn args(xs: &[&str]) -> Vec<String> {
    xs.iter().map(|s| (*s).to_owned()).collect()
}

fn mode(r: &mut Rng) -> (OutputMode, Vec<String>) {
    match r.below(5) {
        0 => (OutputMode::Code { verbose: false }, vec![]),
        1 => (OutputMode::Code { verbose: true }, args(&["-v"])),
        2 => (OutputMode::Code { verbose: false }, args(&["-m", "code"])),
        3 => (OutputMode::SyntaxTree, args(&["--mode", "ast"])),
        _ => (OutputMode::Bytecode, args(&["-m", "bytecode"])),
    }
}

/// stored paths of source files; the odd ones stay inside the scratch directory even when they are followed
fn stored_path(r: &mut Rng, scratch: &Path, i: usize) -> PathBuf {
    match r.below(12) {
        0 => PathBuf::from(format!("../up{i}.reds")),
        1 => PathBuf::from(format!("../../sib/up{i}.reds")),
        2 => PathBuf::from(format!("a/../../b{i}.reds")),
        3 => scratch.join(format!("abs/x{i}.reds")),
        4 => PathBuf::from(format!("./dot{i}.reds")),
        5 => PathBuf::from(format!("a/./b/c{i}.reds")),
        6 => PathBuf::from(format!("same.reds")),
        7 => PathBuf::from(format!("deep/er/and/deeper/f {i}.script")),
        8 => PathBuf::from(format!("ünï/c{i}.reds")),
        9 => PathBuf::from("orphans.script"),
        10 => PathBuf::from(format!("noext{i}")),
        _ => PathBuf::from(format!("mods/m{i}.reds")),
    }
}

fn plain(p: &Path) -> bool {
    p.components().all(|c| matches!(c, Component::Normal(_)))
}

/// removes each of the texts once from the content; they can be in any order
fn consists_of(content: &[u8], texts: &[Vec<u8>]) -> bool {
    let mut left: Vec<&Vec<u8>> = texts.iter().filter(|t| !t.is_empty()).collect();
    left.sort_by_key(|t| std::cmp::Reverse(t.len()));
    let mut rest = content;
    while !rest.is_empty() {
        let Some(k) = left.iter().position(|t| rest.starts_with(t)) else { return false };
        rest = &rest[left[k].len()..];
        left.remove(k);
    }
    left.is_empty()
}

fn decompile(r: &mut Rng, obs: &mut Obs, base: &[u8]) -> R<()> {
    let s = Scratch::new()?;
    let home = s.0.join("d1/d2/d3/d4");
    io("mkdir", fs::create_dir_all(&home))?;
    io("mkdir", fs::create_dir_all(s.0.join("abs")))?;
    io("mkdir", fs::create_dir_all(s.0.join("d1/d2/d3/sib")))?;
    let dump = r.bool();
    let bytes = if dump || r.bool() {
        let mut bytes = base.to_vec();
        for k in 0..1 + r.below(2) {
            let modules = r.bool();
            let texts: Vec<(PathBuf, String)> = program(r, modules)
                .into_iter()
                .enumerate()
                .map(|(i, t)| (stored_path(r, &s.0, i + 10 * k), if k == 0 { t } else { format!("func Extra{i}() -> Int32 {{\n  return {i};\n}}\n") }))
                .collect();
            bytes = compiled(&bytes, &texts)?.ok_or("HARNESS: a valid program is refused")?;
        }
        bytes
    } else {
        // anything that can be loaded, including bodies that make no sense
        gen::bundle(r, 40).write()
    };
    let Ok(bundle) = load(&bytes) else { return Ok(()) };
    let (mode, mut a) = mode(r);
    if dump {
        a.push((*r.pick(&["-f", "--dump-files"])).to_owned());
    }
    let input = home.join("in put.redscripts");
    io("write", fs::write(&input, &bytes))?;
    let out = home.join("out");
    let mut all = args(&["decompile", *r.pick(&["-i", "--input"]), "in put.redscripts", *r.pick(&["-o", "--output"]), "out"]);
    all.extend(a);
    obs.describe(format!("{all:?}"));
    obs.distinct(hash_bytes(&bytes));
    if r.chance(1, 3) {
        // over the output of an earlier run
        if dump {
            cli(&home, &all)?;
        } else {
            io("write", fs::write(&out, vec![b'x'; 100_000]))?;
        }
        obs.hit("earlier output");
    }
    let before = tree(&s.0)?;
    let (code, text) = cli(&home, &all)?;
    let (after, _) = tree(&s.0)?;
    for (p, c) in &after {
        if !p.starts_with(&out) {
            ensure!(before.0.get(p) == Some(c), "decompiling into {out:?} writes {p:?}");
        }
    }
    ensure!(before.0.keys().all(|p| after.contains_key(p)), "decompiling removes a file");
    ensure_eq!(code, Some(0), "exit status ({text})");
    let print = |def| {
        let mut t = vec![];
        write_definition(&mut t, def, &bundle.pool, 0, mode).ok();
        t
    };
    if !dump {
        obs.hit("single files");
        let mut want = vec![];
        for (_, d) in bundle.pool.roots() {
            if matches!(d.value, AnyDefinition::Class(_) | AnyDefinition::Enum(_) | AnyDefinition::Function(_)) {
                want.extend(print(d));
                obs.hit("definitions");
            }
        }
        let got = after.get(&out).ok_or("no output file")?;
        ensure!(got == &want, "the output is not what the definitions look like: {} bytes instead of {}", got.len(), want.len());
        return Ok(());
    }
    obs.hit("dumps");
    let mut want: BTreeMap<PathBuf, Vec<Vec<u8>>> = BTreeMap::new();
    let mut odd: Vec<Vec<Vec<u8>>> = vec![];
    for e in FileIndex::from_pool(&bundle.pool).iter() {
        let texts: Vec<_> = e.definitions.iter().map(|d| print(d)).collect();
        obs.add("definitions", texts.len() as u64);
        if plain(e.path) {
            want.entry(out.join(e.path)).or_default().extend(texts);
        } else {
            obs.hit("paths that lead elsewhere");
            odd.push(texts);
        }
    }
    for (p, texts) in &want {
        let got = after.get(p).ok_or_else(|| format!("no file {p:?}"))?;
        if odd.is_empty() {
            ensure!(consists_of(got, texts), "{p:?} does not contain exactly the definitions of that file");
        }
        for t in texts {
            ensure!(t.is_empty() || got.windows(t.len()).any(|w| w == &t[..]), "{p:?} lacks {:?}", String::from_utf8_lossy(t));
        }
    }
    for texts in odd {
        let found = after.iter().any(|(p, got)| p.starts_with(&out) && texts.iter().all(|t| t.is_empty() || got.windows(t.len()).any(|w| w == &t[..])));
        ensure!(found, "the definitions of a file are nowhere in the output");
    }
    Ok(())
}

fn compile(r: &mut Rng, obs: &mut Obs, base: &[u8]) -> R<()> {
    let s = Scratch::new()?;
    let home = &s.0;
    let valid = r.chance(2, 3);
    let lint = r.chance(1, 4);
    let modules = r.bool();
    let mut texts = program(r, modules);
    if !valid {
        let k = r.below(texts.len());
        texts[k].push_str(*r.pick(&["func Bad() -> Int32 { return \"a\"; }\n", "func Bad() -> Nope {}\n", "func Bad( {\n", "class Bad extends Nope {}\n"]));
    }
    for (k, t) in texts.iter_mut().enumerate() {
        if r.chance(1, 4) {
            t.push_str(&format!("func Suspicious{k}() -> Int32 {{\n  let unused: Int32 = {k};\n  return 1;\n}}\n"));
        }
    }
    let ndirs = 1 + r.below(4);
    let mut a = args(&[if lint { "lint" } else { "compile" }]);
    let mut roots = vec![];
    for d in 0..ndirs {
        let dir = home.join(format!("src {d}"));
        io("mkdir", fs::create_dir_all(dir.join("in/ner")))?;
        // none of these is a script
        for n in ["readme.txt", "x.reds.bak", "in/reds", "in/ner/y.redsx", "in/.hidden"] {
            if r.chance(1, 3) {
                io("write", fs::write(dir.join(n), "this is not a script {{{"))?;
            }
        }
        if r.chance(1, 4) {
            io("mkdir", fs::create_dir_all(dir.join("folder.reds")))?;
            obs.hit("folders named like scripts");
        }
        roots.push(dir);
    }
    for (i, t) in texts.iter().enumerate() {
        let sub = *r.pick(&["", "in", "in/ner", "in/ner", "folder.reds"]);
        let root = r.pick(&roots).clone();
        let root = root.join(sub);
        let dir = if root.is_dir() { root } else { roots[0].clone() };
        let p = dir.join(format!("script {i}.reds"));
        io("write", fs::write(&p, t))?;
    }
    for d in &roots {
        a.push((*r.pick(&["-s", "--src"])).to_owned());
        a.push(d.strip_prefix(home).unwrap().to_str().unwrap().to_owned());
    }
    if r.chance(1, 4) {
        // a single script given by name
        let p = home.join("lonely.reds");
        io("write", fs::write(&p, "func Lonely() -> Int32 { return 7; }\n"))?;
        roots.push(p);
        a.extend(args(&["-s", "lonely.reds"]));
    }
    // what the library finds there, by the names the tool is given
    let found = io("sources", Files::from_dirs(&roots, &SourceFilter::None))?;
    let mut sources = vec![];
    for f in found.files() {
        let t = io("read", fs::read_to_string(f.path()))?;
        sources.push((f.path().strip_prefix(home).map_err(|e| format!("HARNESS: {e}"))?.to_path_buf(), t));
    }
    let reports = reported(base, &sources)?;
    let input = home.join("base.redscripts");
    io("write", fs::write(&input, base))?;
    let out = match r.below(3) {
        0 => input.clone(),
        1 => {
            io("write", fs::write(home.join("out.redscripts"), b"previous"))?;
            home.join("out.redscripts")
        }
        _ => home.join("new.redscripts"),
    };
    a.extend(args(&[*r.pick(&["-b", "--bundle"]), "base.redscripts"]));
    if !lint {
        a.extend(args(&["-o", out.strip_prefix(home).unwrap().to_str().unwrap()]));
    }
    obs.describe(format!("{a:?}\n{texts:#?}"));
    obs.distinct(hash_bytes(format!("{a:?}{texts:?}").as_bytes()));
    let before = tree(home)?;
    let (code, text) = cli(home, &a)?;
    let after = tree(home)?;
    ensure_eq!(before.1, after.1, "directories");
    for (p, c) in &after.0 {
        if *p != out || lint || !valid {
            ensure!(before.0.get(p) == Some(c), "{p:?} is changed by {} of {} scripts ({text})", a[0], if valid { "valid" } else { "invalid" });
        }
    }
    ensure!(before.0.keys().all(|p| after.0.contains_key(p)), "a file is removed");
    for t in reports {
        ensure!(text.contains(&t), "what the library reports is not reported: {t}\nthe tool says {text}");
        obs.hit("diagnostics");
    }
    if lint {
        obs.hit("lint");
        ensure_eq!(code, Some(0), "exit status ({text})");
        ensure!(text.contains("Lint successful") == valid, "linting {} scripts says {text}", if valid { "valid" } else { "invalid" });
        return Ok(());
    }
    if !valid {
        obs.hit("refused");
        ensure!(text.contains("Build failed") || code != Some(0), "compiling invalid scripts says {text}");
        return Ok(());
    }
    obs.hit("compiled");
    ensure_eq!(code, Some(0), "exit status ({text})");
    let got = after.0.get(&out).ok_or_else(|| format!("no output: {text}"))?;
    let want = compiled(base, &sources)?.ok_or("HARNESS: a valid program is refused")?;
    let (read, _) = SBundle::read(got).map_err(|e| format!("output: {e}"))?;
    obs.add("definitions", vcomp::compose::index(&read)?.len() as u64);
    ensure!(got == &want, "the output is not what the library compiles: {} bytes instead of {}", got.len(), want.len());
    Ok(())
}

fn faults(i: usize, r: &mut Rng, obs: &mut Obs, base: &[u8]) -> R<()> {
    let s = Scratch::new()?;
    let home = &s.0;
    io("mkdir", fs::create_dir_all(home.join("src")))?;
    io("write", fs::write(home.join("src/a.reds"), "func A() -> Int32 { return 1; }\n"))?;
    io("write", fs::write(home.join("base.redscripts"), base))?;
    let cut = r.below(base.len());
    io("write", fs::write(home.join("cut.redscripts"), &base[..cut]))?;
    io("write", fs::write(home.join("text.redscripts"), "this is not a cache"))?;
    io("mkdir", fs::create_dir_all(home.join("dir")))?;
    io("write", fs::write(home.join("file"), "x"))?;
    io("write", fs::write(home.join("src.bin"), [0xff, 0xfe, 0]))?;
    const CASES: &[&[&str]] = &[
        &["compile", "-s", "src", "-b", "none", "-o", "out"],
        &["compile", "-s", "src", "-b", "cut.redscripts", "-o", "out"],
        &["compile", "-s", "src", "-b", "text.redscripts", "-o", "out"],
        &["compile", "-s", "src", "-b", "base.redscripts", "-o", "dir"],
        &["compile", "-s", "src", "-b", "base.redscripts", "-o", "no/such/dir"],
        &["compile", "-s", "src", "-b", "base.redscripts", "-o", "/dev/full"],
        &["compile", "-s", "src.bin", "-b", "base.redscripts", "-o", "out"],
        &["compile", "-s", "src", "-o", "out"],
        &["compile", "-s", "src", "-b", "base.redscripts"],
        &["compile", "-s", "src", "-b", "base.redscripts", "-o", "out", "-x"],
        &["decompile", "-i", "none", "-o", "out"],
        &["decompile", "-i", "cut.redscripts", "-o", "out"],
        &["decompile", "-i", "text.redscripts", "-o", "out"],
        &["decompile", "-i", "base.redscripts", "-o", "dir"],
        &["decompile", "-i", "base.redscripts", "-o", "/dev/full"],
        &["decompile", "-i", "base.redscripts", "-o", "file", "-f"],
        &["decompile", "-i", "base.redscripts", "-o", "out", "-m", "what"],
        &["decompile", "-i", "base.redscripts"],
        &["lint", "-s", "src", "-b", "none"],
        &["lint", "-s", "src", "-b", "cut.redscripts"],
        &["nothing"],
        &[],
    ];
    let a = args(CASES[i % CASES.len()]);
    obs.describe(format!("{a:?}"));
    let before = tree(home)?;
    let (code, text) = cli(home, &a)?;
    let after = tree(home)?;
    obs.hit("faults");
    obs.seen("kinds of faults", (i % CASES.len()) as u64);
    ensure!(code != Some(0), "{a:?} ends with success: {text}");
    for (p, c) in &before.0 {
        ensure!(after.0.get(p) == Some(c), "{p:?} is changed");
    }
    Ok(())
}

/// each operation that changes a file fails, once or with all later ones that need space: the tool says so, or the output is what it is without
fn failing(r: &mut Rng, obs: &mut Obs, base: &[u8]) -> R<()> {
    let s = Scratch::new()?;
    let home = s.0.join("home");
    io("mkdir", fs::create_dir_all(home.join("src")))?;
    let modules = r.bool();
    let texts: Vec<(PathBuf, String)> = program(r, modules).into_iter().enumerate().map(|(i, t)| (home.join(format!("src/p{i}.reds")), t)).collect();
    let command = r.below(3);
    let all = if command == 0 {
        for (p, t) in &texts {
            io("write", fs::write(p, t))?;
        }
        io("write", fs::write(home.join("in.redscripts"), base))?;
        args(&["compile", "-s", "src", "-b", "in.redscripts", "-o", "out"])
    } else {
        // enough for the output to be written in several parts
        let mut long = String::new();
        for i in 0..40 + r.below(150) {
            long.push_str(&format!("func Filler{i}(text: String) -> String {{\n  return \"{}\" + text;\n}}\n", "filler ".repeat(r.below(60))));
        }
        let mut texts = texts;
        texts.push(("src/filler.reds".into(), long));
        let bytes = compiled(base, &texts)?.ok_or("HARNESS: a valid program is refused")?;
        io("write", fs::write(home.join("in.redscripts"), bytes))?;
        let mut a = args(&["decompile", "-i", "in.redscripts", "-o", "out"]);
        a.extend(mode(r).1);
        if command == 2 {
            a.push("-f".to_owned());
        }
        a
    };
    obs.describe(format!("{all:?}"));
    let (code, text) = cli(&home, &all)?;
    ensure!(code == Some(0), "{all:?} fails: {text}");
    let want = tree(&home)?;
    let clear = || {
        fs::remove_file(home.join("out")).ok();
        fs::remove_dir_all(home.join("out")).ok();
    };
    let root = s.0.to_string_lossy().into_owned();
    let log = s.0.join("events");
    let log = log.to_string_lossy().into_owned();
    for full in [false, true] {
        for k in 1.. {
            clear();
            fs::remove_file(&log).ok();
            let at = k.to_string();
            let part = r.below(3).to_string();
            let mut env = vec![("LD_PRELOAD", env!("VSCC_SHIM")), ("VSCC_ROOT", &*root), ("VSCC_LOG", &*log), ("VSCC_FAIL", &*at), ("VSCC_PART", &*part)];
            if full {
                env.push(("VSCC_FULL", "1"));
            }
            let (code, text) = cli_with(&home, &all, &env)?;
            if !fs::read_to_string(&log).unwrap_or_default().contains("fail\t") {
                break;
            }
            obs.hit("failing operations");
            obs.max("operations", k);
            if code == Some(0) {
                ensure!(tree(&home)? == want, "{all:?} ends with success although operation {k} failed, and the output is not complete: {text}");
            } else {
                obs.hit("failures reported");
                ensure!(!text.trim().is_empty(), "{all:?} fails without a word");
            }
        }
    }
    Ok(())
}

pub fn run(c: &mut Check) {
    let base = vcomp::base::bytes();
    let n = c.n(400, 5000);
    c.run("decompile", n, |_, r, obs| decompile(r, obs, &base));
    c.run("compile", n, |_, r, obs| compile(r, obs, &base));
    c.run("faults", 44, |i, r, obs| faults(i, r, obs, &base));
    let n = c.n(60, 600);
    c.run("failing operations", n, |_, r, obs| failing(r, obs, &base));
    c.require("failing operations", 300);
    c.require("failures reported", 300);
    c.require("dumps", 50);
    c.require("single files", 50);
    c.require("paths that lead elsewhere", 30);
    c.require("earlier output", 50);
    c.require("diagnostics", 50);
    c.require("compiled", 100);
    c.require("refused", 50);
    c.require("lint", 30);
    c.require("faults", 44);
}
