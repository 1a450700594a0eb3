use std::collections::BTreeMap;
use std::path::PathBuf;

use redscript::bundle::ScriptBundle;
use redscript_compiler::diagnostics::Diagnostic;
use redscript_compiler::source_map::Files;
use redscript_compiler::unit::CompilationUnit;
use vcomp::lang::*;
use vcomp::machine::V;
use vcomp::modules::Modules;
use vcomp::progen::*;
use vcomp::total;
use vcomp::decls::{Decls, Reader};
use vcomp::tyck::Types;
use vcomp::typing;
use vcomp::vm::Vm;
use vmon::obs::{load, save};
use vmon::report::*;
use vcomp::faults::{self, At, FAULTS, HELPERS, MARK};
use vmon::rng::Rng;
use vmon::{ensure, ensure_eq};
use vmon::spec::{SBundle, SVal};

/// what a compilation did: the resulting bundle, or why there is none
pub fn compile(base: &[u8], texts: &[(String, String)]) -> Result<(Vec<u8>, Vec<String>), String> {
    let mut bundle: ScriptBundle = load(base).map_err(|e| format!("base: {e}"))?;
    let mut files = Files::new();
    for (p, t) in texts {
        files.add(PathBuf::from(p), t.clone());
    }
    let unit = CompilationUnit::new_with_defaults(&mut bundle.pool).map_err(|e| format!("{e}"))?;
    let out = unit.compile_files(&files).map_err(|e| format!("error: {e:?}"))?;
    let mut diags = vec![];
    for d in out.diagnostics() {
        let mut s = String::new();
        d.display(&files, &mut s).map_err(|e| format!("{e}"))?;
        if d.is_fatal() {
            return Err(format!("fatal: {s}"));
        }
        diags.push(if matches!(d, Diagnostic::Deprecation(..)) { "DEPRECATED".to_owned() } else { d.code().to_owned() });
    }
    Ok((save(&bundle).map_err(|e| format!("{e}"))?, diags))
}

/// where a compilation says its definitions are: index, file, line
type Refs = Vec<(u32, PathBuf, usize)>;

fn compile_refs(base: &[u8], texts: &[(String, String)]) -> Result<(Vec<u8>, Refs), String> {
    let mut bundle: ScriptBundle = load(base).map_err(|e| format!("base: {e}"))?;
    let mut files = Files::new();
    for (p, t) in texts {
        files.add(PathBuf::from(p), t.clone());
    }
    let unit = CompilationUnit::new_with_defaults(&mut bundle.pool).map_err(|e| format!("{e}"))?;
    let out = unit.compile_files(&files).map_err(|e| format!("error: {e:?}"))?;
    for d in out.diagnostics() {
        let mut s = String::new();
        d.display(&files, &mut s).map_err(|e| format!("{e}"))?;
        if d.is_fatal() {
            return Err(format!("fatal: {s}"));
        }
    }
    let mut refs = vec![];
    for r in out.source_refs() {
        let f = files.lookup_file(r.pos()).ok_or("a reference to no file")?;
        let l = f.lookup(r.pos()).ok_or("a reference to no place in the file")?;
        refs.push((u32::from(r.index()), f.path().to_owned(), l.line));
    }
    Ok((save(&bundle).map_err(|e| format!("{e}"))?, refs))
}

fn declarations(c: &mut Check, workload: &str, n: usize) {
    let base = vcomp::base::bytes();
    c.run(workload, n, |_, r, obs| {
        let stages = r.range(1, 4);
        let mut d = Decls::new(r);
        let mut bytes = base.clone();
        let mut shown = String::new();
        for st in 0..stages {
            let first = d.stage();
            let t = d.files[first..].to_vec();
            for (p, s) in &t {
                shown.push_str(&format!("----- {p}\n{s}\n"));
            }
            obs.describe(shown.clone());
            let (b, refs) = compile_refs(&bytes, &t).map_err(|e| format!("valid declarations are rejected: {e}"))?;
            bytes = b;
            let (b, _) = SBundle::read(&bytes).map_err(|e| format!("output: {e}"))?;
            let mut rd = Reader::new(&b);
            rd.check(&d).map_err(|e| format!("after {} compilations {e}", st + 1))?;
            obs.add("declarations", rd.checked);
            // everything declared in this compilation and nothing else is referred to where it is
            for (i, (f, line)) in &rd.at {
                if *f < first {
                    continue;
                }
                let at: Vec<_> = refs.iter().filter(|x| x.0 == *i).collect();
                let name = vcomp::wf::name(&b, *i)?;
                match at[..] {
                    [x] if x.1 == PathBuf::from(&d.files[*f].0) && x.2 == *line => obs.hit("source references"),
                    _ => return Err(format!("{name} in {} line {line} is reported at {at:?}", d.files[*f].0)),
                }
            }
        }
        for (k, n) in &d.seen {
            obs.add(k, *n);
        }
        obs.distinct(vmon::rng::hash_bytes(&bytes));
        Ok(())
    });
}

/// one statement on top of the prelude: refused, or well typed
fn typed(base: &[u8], stmt: &str, ret: usize, obs: &mut Obs) -> Result<(), String> {
    let text = typing::function(stmt, ret);
    obs.describe(format!("{stmt}\n(in)\n{text}"));
    let out = match compile(base, &[("t.reds".to_owned(), text)]) {
        Err(e) if e.starts_with("fatal") || e.contains("SyntaxError") => {
            obs.hit("refused");
            return Ok(());
        }
        Err(e) => return Err(e),
        Ok(o) => o,
    };
    let (b, _) = SBundle::read(&out.0).map_err(|e| format!("output: {e}"))?;
    let t = Types::new(&b);
    let go = (1..b.defs.len() as u32).find(|i| vcomp::wf::name(&b, *i).is_ok_and(|n| n.starts_with("Go;"))).ok_or("no function in the output")?;
    let n = match t.all(|i| i >= go) {
        Ok(n) => n,
        // comparisons of unrelated types are warned about and go through
        Err(("compare", _)) if out.1.iter().any(|d| d == "DEPRECATED") => {
            obs.hit("unrelated comparisons");
            return Ok(());
        }
        Err((sig, e)) => {
            let e = e.split_once(": ").map_or(e.as_str(), |e| e.1);
            let null = |a: &str, b: &str| a.starts_with("wref<") && (b == "null" || b == "ref<IScriptable>");
            let sig = match sig {
                // what a matcher is does not matter, so its parts do not have to fit each other either
                "branches" if stmt.starts_with("switch ") => "case",
                "assign" if stmt.contains('[') && e.contains(" needs wref<") && e.ends_with(", gets null") => "weak-or-null",
                "compare" if e.split_once(" compared with ").is_some_and(|(a, b)| null(a, b) || null(b, a)) => "weak-or-null",
                sig => sig,
            };
            return Err(format!("sig={sig} {stmt:?}: {e}"));
        }
    };
    obs.hit("accepted");
    obs.add("typed operands", n);
    obs.distinct(vmon::rng::hash_bytes(stmt.as_bytes()));
    if let SVal::Function(f) = &b.defs[go as usize].val {
        for i in &f.code {
            obs.seen("instructions", u64::from(i.op));
        }
    }
    Ok(())
}

/// whole programs, which are well typed by construction
fn typed_programs(c: &mut Check, workload: &str, n: usize) {
    let base = vcomp::base::bytes();
    c.run(workload, n, |_, r, obs| {
        let (modules, mods) = (r.bool(), r.bool());
        let sh = Shape { modules, mods, size: 1 + r.below(6) };
        let p = Gen::new(r).program(&sh);
        let all = Printer { p: &p, r, extra: 0, noise: false }.files();
        obs.describe(all.iter().enumerate().map(|(i, t)| format!("----- file {i} stage {}\n{t}", p.files[i].stage)).collect::<String>());
        let mut bytes = base.clone();
        for st in 0..=usize::from(mods) {
            bytes = compile(&bytes, &texts(&p, st, &all)).map_err(|e| format!("a valid program is rejected: {e}"))?.0;
        }
        let (b, _) = SBundle::read(&bytes).map_err(|e| format!("output: {e}"))?;
        let n = Types::new(&b).all(|_| true).map_err(|(sig, e)| format!("sig=program-{sig} {e}"))?;
        obs.add("typed operands in programs", n);
        obs.hit("programs");
        obs.distinct(vmon::rng::hash_bytes(&bytes));
        Ok(())
    });
}

fn texts(p: &Prog, stage: usize, all: &[String]) -> Vec<(String, String)> {
    (0..p.files.len()).filter(|i| p.files[*i].stage == stage).map(|i| (format!("file{i}.reds"), all[i].clone())).collect()
}

fn semantics(c: &mut Check, workload: &str, n: usize, modules: bool, mods: bool) {
    let base = vcomp::base::bytes();
    c.run(workload, n, |_, r, obs| {
        let sh = Shape { modules, mods, size: 1 + r.below(6) };
        let p = Gen::new(r).program(&sh);
        let extra = *r.pick(&[0, 0, 2]);
        let noise = r.bool();
        let all = Printer { p: &p, r, extra, noise }.files();
        obs.describe(all.iter().enumerate().map(|(i, t)| format!("----- file {i} stage {}\n{t}", p.files[i].stage)).collect::<String>());
        let mut bytes = base.clone();
        for st in 0..=usize::from(mods) {
            let (b, _) = compile(&bytes, &texts(&p, st, &all)).map_err(|e| format!("a valid program is rejected: {e}"))?;
            bytes = b;
        }
        let (b, _) = SBundle::read(&bytes).map_err(|e| format!("output: {e}"))?;
        for (x, y, z) in [(0, 1, false), (3, -7, true), (100, 2, true)] {
            let args = vec![V::I(x), V::I(y), V::B(z)];
            let mut it = Interp::new(&p, 60_000);
            let want = match it.main(args.clone()) {
                Err(e) if e.starts_with("FUEL") => {
                    obs.hit("runs too long");
                    continue;
                }
                Err(e) if e.contains("out of range") => {
                    obs.hit("element vanished while in use");
                    continue;
                }
                Err(e) => return Err(format!("HARNESS: {e}")),
                Ok(v) => v,
            };
            let mut vm = Vm::new(&b, 3_000_000);
            let name = format!("{};", p.qual(p.funs[p.main].file, "Main"));
            let main = (1..b.defs.len() as u32)
                .find(|i| vm.function(*i).is_ok() && vm.name_of(*i).is_ok_and(|n| n.starts_with(&name))).ok_or_else(|| format!("no function {name} in the output"))?;
            let got = vm.call(main, None, args.into_iter().map(|v| Some(vcomp::machine::Place::temp(v))).collect());
            for (i, e) in it.m.trace.iter().enumerate() {
                match vm.m.trace.get(i) {
                    Some(g) if g == e => {}
                    g => return Err(format!("Main({x}, {y}, {z}): event {i} should be {e:?}, is {g:?} ({got:?})")),
                }
            }
            if vm.m.trace.len() > it.m.trace.len() {
                return Err(format!("Main({x}, {y}, {z}): unexpected event {:?}", vm.m.trace[it.m.trace.len()]));
            }
            let got = got.map_err(|e| format!("Main({x}, {y}, {z}): {e}"))?;
            if got != want {
                return Err(format!("Main({x}, {y}, {z}) should be {}, is {}", want.show(), got.show()));
            }
            marks(&vm.lines, &all, obs)?;
            obs.add("events", it.m.trace.len() as u64);
            obs.add("calls", vm.calls);
            obs.hit("runs");
            for (k, n) in it.seen {
                obs.add(k, n);
            }
            for o in &vm.ops {
                obs.seen("instructions", u64::from(*o));
            }
        }
        obs.distinct(vmon::rng::hash_bytes(&bytes));
        Ok(())
    });
}

/// the line stored with each call of `Mark` has to be where the call is
fn marks(lines: &BTreeMap<i32, u16>, all: &[String], obs: &mut Obs) -> Result<(), String> {
    for (m, line) in lines {
        let text = format!("Mark({m}");
        let ends = |t: &str, i: usize| !t[i + text.len()..].starts_with(|c: char| c.is_ascii_digit());
        let mut at = all.iter().flat_map(|t| t.match_indices(&text).filter(|(i, _)| ends(t, *i)).map(|(i, _)| t[..i].matches('\n').count()));
        if let (Some(l), None) = (at.next(), at.next()) {
            ensure!(usize::from(*line) == l, "the call {text} in line {l} (counted from 0) is said to be in line {line}");
            obs.hit("lines of calls");
        }
    }
    Ok(())
}

fn find_main(b: &SBundle, vm: &Vm, name: &str) -> Result<u32, String> {
    (1..b.defs.len() as u32).find(|i| vm.function(*i).is_ok() && vm.name_of(*i).is_ok_and(|n| n == name)).ok_or_else(|| format!("no function {name} in the output"))
}

/// small programs with known events: alone, then several of them together spread over files and modules
fn corners(c: &mut Check, n: usize) {
    use vcomp::corners::CORNERS;
    let base = vcomp::base::bytes();
    c.run("corners", CORNERS.len() + n, |i, r, obs| {
        let mut pick: Vec<usize> = if i < CORNERS.len() { vec![i] } else { (0..r.range(2, 6)).map(|_| r.below(CORNERS.len())).collect() };
        if r.bool() {
            pick.reverse();
        }
        let nf = if i < CORNERS.len() { 1 } else { r.range(1, 3) };
        let mut files: Vec<String> = (0..nf).map(|_| String::new()).collect();
        let mut main = String::from("func Main() -> Int32 {\n");
        let mut want: Vec<String> = vec![];
        for (k, x) in pick.iter().enumerate() {
            let cn = &CORNERS[*x];
            // operators and casts would become ambiguous
            let items = cn.items.replace('$', &format!("_{k}"));
            let body = cn.body.replace('$', &format!("_{k}"));
            let body = if r.bool() { body.replace("; ", ";\n  ").replace("{ ", "{\n ") } else { body };
            let pad = "\n".repeat(r.below(4));
            let mut item: Vec<String> = items.split('\n').map(str::to_owned).collect();
            item.push(format!("func Corner_{k}() -> Void {{ {body} }}"));
            if r.bool() {
                item.rotate_right(1);
            }
            if item.iter().filter(|i| i.contains("func Cast(")).count() > 0 && pick[..k].contains(x) {
                continue;
            }
            let f = r.below(nf);
            for it in item {
                files[f].push_str(&pad);
                files[f].push_str(&it);
                files[f].push('\n');
            }
            main.push_str(&format!("  Mark({}); Corner_{k}();\n", 100 + k));
            want.push(format!("Mark {}", 100 + k));
            want.extend(cn.want.iter().map(|w| (*w).to_owned()));
            obs.seen("corners", *x as u64);
        }
        main.push_str("  return 0;\n}\n");
        files[0].push_str(&main);
        let texts: Vec<_> = files.iter().enumerate().map(|(i, t)| (format!("corner{i}.reds"), t.clone())).collect();
        obs.describe(texts.iter().map(|t| format!("----- {}\n{}", t.0, t.1)).collect::<String>());
        let (bytes, _) = compile(&base, &texts).map_err(|e| format!("a valid program is rejected: {e}"))?;
        obs.distinct(vmon::rng::hash_bytes(&bytes));
        let (b, _) = SBundle::read(&bytes).map_err(|e| format!("output: {e}"))?;
        vcomp::wf::check(&b, true)?;
        let mut vm = Vm::new(&b, 1_000_000);
        let main = find_main(&b, &vm, "Main;")?;
        let v = vm.call(main, None, vec![]);
        let names: Vec<&str> = pick.iter().map(|x| CORNERS[*x].name).collect();
        for (k, w) in want.iter().enumerate() {
            let g = vm.m.trace.get(k).map(|e| e.to_string());
            ensure!(g.as_deref() == Some(w), "{names:?}: event {k} should be {w}, is {g:?} ({v:?})");
        }
        ensure!(vm.m.trace.len() == want.len(), "{names:?}: unexpected event {:?}", vm.m.trace[want.len()]);
        v?;
        obs.add("corner events", want.len() as u64);
        marks(&vm.lines, &files, obs)
    });
}

/// array literals among other operands: a program, and the same one with each operand evaluated by a statement of its own
const LITERALS: &[(&str, &str, &str)] = &[
    (
        "literal-after-and",
        "if TraceB(false) && SumOf([TraceI(1)]) > 0 { Mark(2); } return 0;",
        "if TraceB(false) { let a = [TraceI(1)]; if SumOf(a) > 0 { Mark(2); } } return 0;",
    ),
    (
        "literal-after-or",
        "if TraceB(true) || SumOf([TraceI(1)]) > 0 { Mark(2); } return 0;",
        "let c = TraceB(true); if !c { let a = [TraceI(1)]; c = SumOf(a) > 0; } if c { Mark(2); } return 0;",
    ),
    (
        "literal-in-branch",
        "return TraceB(false) ? SumOf([TraceI(1)]) : 0;",
        "if TraceB(false) { let a = [TraceI(1)]; return SumOf(a); } return 0;",
    ),
    (
        "literal-after-argument",
        "return TraceI(1) + SumOf([TraceI(2), TraceI(3)]);",
        "let x = TraceI(1); let a = [TraceI(2), TraceI(3)]; return x + SumOf(a);",
    ),
    (
        "literal-in-case",
        "switch TraceI(9) { case SumOf([TraceI(5)]): Mark(2); break; case 2: Mark(3); break; } return 0;",
        "let x = TraceI(9); let a = [TraceI(5)]; if x == SumOf(a) { Mark(2); } else { if x == 2 { Mark(3); } } return 0;",
    ),
    (
        "literal-first",
        "return SumOf([TraceI(2), TraceI(3)]) + TraceI(1);",
        "let a = [TraceI(2), TraceI(3)]; let x = TraceI(1); return SumOf(a) + x;",
    ),
    (
        "literals-in-sequence",
        "return SumOf([TraceI(2), SumOf([TraceI(3), TraceI(4)])]) + SumOf([TraceI(5)]);",
        "let p = TraceI(2); let q = TraceI(3); let s = TraceI(4); let i = [q, s]; let a = [p, SumOf(i)]; let z = [TraceI(5)]; return SumOf(a) + SumOf(z);",
    ),
];

fn trace(base: &[u8], body: &str) -> Result<(Vec<String>, String), String> {
    let texts = vec![("literal.reds".to_owned(), format!("public func Main() -> Int32 {{ {body} }}\n"))];
    let (bytes, _) = compile(base, &texts).map_err(|e| format!("a valid program is rejected: {e}"))?;
    let (b, _) = SBundle::read(&bytes).map_err(|e| format!("output: {e}"))?;
    let mut vm = Vm::new(&b, 100_000);
    let main = (1..b.defs.len() as u32).find(|i| vm.function(*i).is_ok() && vm.name_of(*i).is_ok_and(|n| n == "Main;")).ok_or("no Main")?;
    let v = vm.call(main, None, vec![])?;
    Ok((vm.m.trace.iter().map(|e| format!("{e:?}")).collect(), v.show()))
}

fn outcome(bytes: &[u8], unique: bool, obs: &mut Obs) -> Result<(), String> {
    let (b, _) = SBundle::read(bytes).map_err(|e| format!("output: {e}"))?;
    let f = vcomp::wf::check(&b, unique)?;
    obs.add("bodies", f.bodies);
    obs.add("jumps", f.jumps);
    obs.add("instructions", f.instrs);
    obs.distinct(vmon::rng::hash_bytes(bytes));
    Ok(())
}

fn output(c: &mut Check, workload: &str, n: usize, modules: bool, mods: bool) {
    let base = vcomp::base::bytes();
    c.run(workload, n, |_, r, obs| {
        let sh = Shape { modules, mods, size: 1 + r.below(6) };
        let p = Gen::new(r).program(&sh);
        let all = Printer { p: &p, r, extra: 0, noise: false }.files();
        obs.describe(all.iter().enumerate().map(|(i, t)| format!("----- file {i} stage {}\n{t}", p.files[i].stage)).collect::<String>());
        let mut bytes = base.clone();
        for st in 0..=usize::from(mods) {
            let t = texts(&p, st, &all);
            let (b, _) = compile(&bytes, &t).map_err(|e| format!("a valid program is rejected: {e}"))?;
            if st == 1 {
                obs.hit(match p.funs.iter().filter(|f| !f.wraps.is_empty()).count() {
                    0 => "no wrapped function",
                    1 => "one wrapped function",
                    _ => "several wrapped functions",
                });
            }
            for k in 0..3 {
                let again = if k == 0 {
                    std::thread::scope(|s| s.spawn(|| compile(&bytes, &t)).join().map_err(|_| "panic".to_owned())?)?
                } else {
                    compile(&bytes, &t)?
                };
                if again.0 != b {
                    return Err(format!("compiling the same files again gives another bundle (stage {st})"));
                }
                obs.hit("compiled again");
            }
            bytes = b;
            outcome(&bytes, true, obs)?;
        }
        Ok(())
    });
}

fn composition(c: &mut Check, workload: &str, n: usize, modules: bool) {
    let base = vcomp::base::bytes();
    c.run(workload, n, |_, r, obs| {
        let sh = Shape { modules, mods: true, size: 1 + r.below(6) };
        let p = Gen::new(r).program(&sh);
        let all = Printer { p: &p, r, extra: 0, noise: false }.files();
        obs.describe(all.iter().enumerate().map(|(i, t)| format!("----- file {i} stage {}\n{t}", p.files[i].stage)).collect::<String>());
        let read = |b: &[u8]| SBundle::read(b).map(|x| x.0).map_err(|e| format!("output: {e}"));
        let first = compile(&base, &texts(&p, 0, &all)).map_err(|e| format!("a valid program is rejected: {e}"))?.0;
        let second = compile(&first, &texts(&p, 1, &all)).map_err(|e| format!("a valid program is rejected: {e}"))?.0;
        let nothing = compile(&first, &[("empty.reds".to_owned(), "// nothing\n".to_owned())]).map_err(|e| format!("an empty file is rejected: {e}"))?.0;
        let (b0, b1, b2, bn) = (read(&base)?, read(&first)?, read(&second)?, read(&nothing)?);
        let none = vcomp::compose::Plan::default();
        vcomp::compose::compare(&b0, &b1, &none, |k| obs.hit(k)).map_err(|e| format!("first stage: {e}"))?;
        vcomp::compose::compare(&b1, &bn, &none, |k| obs.hit(k)).map_err(|e| format!("empty file: {e}"))?;
        vcomp::compose::compare(&bn, &b1, &none, |k| obs.hit(k)).map_err(|e| format!("empty file: {e}"))?;
        vcomp::compose::compare(&b1, &b2, &vcomp::compose::plan(&p), |k| obs.hit(k))?;
        obs.distinct(vmon::rng::hash_bytes(&second));
        Ok(())
    });
}

/// programs with the given mistakes, each in a place of its own
fn mistakes(base: &[u8], set: &[usize], r: &mut Rng, obs: &mut Obs) -> Result<(), String> {
    let sh = Shape { modules: r.bool(), mods: false, size: 1 + r.below(4) };
    let mut p = Gen::new(r).program(&sh);
    let mut marks: Vec<(usize, String, usize)> = vec![];
    let mut taken = vec![];
    for (k, i) in set.iter().enumerate() {
        let name = format!("{MARK}{k}@");
        let file = match FAULTS[*i].0 {
            At::Stmt => faults::mark(&mut p, r, &name, &mut taken, |_| true),
            At::Static => faults::mark(&mut p, r, &name, &mut taken, |f| f.stat || f.class.is_none()),
            At::Void => faults::mark(&mut p, r, &name, &mut taken, |f| f.ret.is_none()),
            At::Value => faults::mark(&mut p, r, &name, &mut taken, |f| f.ret.is_some()),
            _ => Some(r.below(p.files.len())),
        };
        match file {
            Some(f) => marks.push((f, name, *i)),
            None => obs.hit("no place"),
        }
    }
    let noise = r.bool();
    let mut all = Printer { p: &p, r, extra: 0, noise }.files();
    for (k, (file, name, i)) in marks.iter().enumerate() {
        let t = &mut all[*file];
        match FAULTS[*i].0 {
            At::Item => *t = format!("{t}\n{name}\n"),
            At::Member => *t = format!("{t}\npublic class ZzBad{k} extends ZzAbs {{\n{name}\n}}\n"),
            At::Import => {
                let l = if t.contains("module ") { t[t.find("module ").unwrap()..].find('\n').unwrap() + t.find("module ").unwrap() + 1 } else { 0 };
                *t = format!("{}{name}\n{}", &t[..l], &t[l..]);
            }
            _ => {}
        }
    }
    let mk = |with: bool| -> Vec<(String, String)> {
        let mut out = vec![];
        for (i, t) in all.iter().enumerate() {
            let mut t = t.clone();
            for (k, (_, name, i)) in marks.iter().enumerate() {
                let text = FAULTS[*i].1.replace("ZzBad", &format!("ZzBadItem{k}")).replace("zz", &format!("zz{k}"));
                t = t.replace(name, if with { &text } else { "" });
            }
            out.push((format!("file{i}.reds"), t));
        }
        out
    };
    let (good, bad) = (mk(false), mk(true));
    obs.describe(bad.iter().map(|t| format!("----- {}\n{}\n", t.0, t.1)).collect::<String>());
    obs.distinct(vmon::rng::hash_bytes(format!("{bad:?}").as_bytes()));
    let before = faults::diagnose(base, &good)?;
    if let Some(d) = before.iter().find(|d| d.fatal) {
        return Err(format!("a valid program is refused: {d:?}"));
    }
    let after = faults::diagnose(base, &bad)?;
    let mut fatal: Vec<_> = after.iter().filter(|d| d.fatal).collect();
    for (file, name, i) in &marks {
        let (_, text, codes) = FAULTS[*i];
        let at = all[*file].find(name.as_str()).ok_or("HARNESS: mark lost")?;
        let line = all[*file][..at].matches('\n').count();
        let Some(k) = fatal.iter().position(|d| d.file == *file && d.line == line) else {
            let sig = match faults::finding(*i) {
                Some(f) if fatal.is_empty() => format!("sig={f} "),
                _ => String::new(),
            };
            return Err(format!("{sig}{text:?} in line {} of file {file} is not reported, reported are {fatal:?}", line + 1));
        };
        let d = fatal.remove(k);
        ensure!(codes.split('|').any(|c| c == d.code), "{text:?} is reported as {} instead of {codes}: {}", d.code, d.text);
        obs.hit("mistakes");
        obs.seen("kinds", vmon::rng::hash_bytes(text.as_bytes()));
    }
    ensure!(fatal.is_empty(), "besides {:?} this is reported: {fatal:?}", marks.iter().map(|m| FAULTS[m.2].1).collect::<Vec<_>>());
    Ok(())
}

fn main() {
    install_panic_hook();
    let id = std::env::args().nth(1).expect("property");
    match id.as_str() {
        "C18" => {
            let mut c = Check::new("C18", "monitored", "what a program does when executed is what its source says");
            let n = c.n(2000, 20000);
            semantics(&mut c, "programs", n, false, false);
            semantics(&mut c, "modules", n / 2, true, false);
            semantics(&mut c, "mods", n / 2, false, true);
            semantics(&mut c, "mods in modules", n / 2, true, true);
            let n = c.n(600, 12_000);
            corners(&mut c, n);
            c.require("corner events", 2000);
            c.require("lines of calls", 1000);
            c.run("array literals among operands", LITERALS.len(), |i, _, obs| {
                let (sig, body, want) = LITERALS[i];
                obs.describe(format!("{body}\nshould do what this does:\n{want}"));
                let base = vcomp::base::bytes();
                let want = trace(&base, want)?;
                let got = trace(&base, body).map_err(|e| format!("sig={sig} {e}"))?;
                obs.hit("literals among operands");
                if got != want {
                    return Err(format!("sig={sig} does {got:?} instead of {want:?}"));
                }
                Ok(())
            });
            c.require("runs", 1000);
            c.require("literals among operands", LITERALS.len() as u64);
            c.finish()
        }
        "C17" => {
            let mut c = Check::new("C17", "monitored", "the compiler answers every text with a result or with located diagnostics");
            let bases = [vcomp::base::bytes(), vcomp::base::bare()];
            let nasty = total::nasty();
            let quick = c.n(6000, 60000);
            c.run("hand-written extremes", nasty.len() * 4, |i, _, obs| {
                let t = &nasty[i / 4];
                let mut texts = vec![("nasty.reds".to_owned(), t.clone())];
                if i % 2 == 1 {
                    texts.insert(0, ("prelude.reds".to_owned(), total::PRELUDE.to_owned()));
                }
                obs.describe(t.chars().take(2000).collect::<String>());
                obs.distinct(vmon::rng::hash_bytes(t.as_bytes()));
                total::probe(&bases[i / 2 % 2], &texts, obs).map(drop)
            });
            c.run("token soup", quick, |i, r, obs| {
                let texts: Vec<_> = (0..1 + r.below(2)).map(|i| (format!("soup{i}.reds"), total::soup(r))).collect();
                obs.describe(format!("{texts:?}"));
                obs.distinct(vmon::rng::hash_bytes(format!("{texts:?}").as_bytes()));
                total::probe(&bases[usize::from(i % 8 > 5)], &texts, obs).map(drop)
            });
            c.run("loosely typed", quick, |i, r, obs| {
                let mut texts: Vec<_> = (0..1 + r.below(3)).map(|i| (format!("loose{i}.reds"), total::Loose { r: &mut *r }.file())).collect();
                if r.bool() {
                    texts.insert(0, ("prelude.reds".to_owned(), total::PRELUDE.to_owned()));
                }
                obs.describe(texts.iter().map(|t| format!("----- {}\n{}\n", t.0, t.1)).collect::<String>());
                obs.distinct(vmon::rng::hash_bytes(format!("{texts:?}").as_bytes()));
                total::probe(&bases[usize::from(i % 8 > 5)], &texts, obs).map(drop)
            });
            c.run("statements", quick, |i, r, obs| {
                let text = total::Loose { r: &mut *r }.function();
                let texts = vec![("prelude.reds".to_owned(), total::PRELUDE.to_owned()), ("stmt.reds".to_owned(), text)];
                obs.describe(texts[1].1.clone());
                obs.distinct(vmon::rng::hash_bytes(texts[1].1.as_bytes()));
                total::probe(&bases[usize::from(i % 8 > 5)], &texts, obs).map(drop)
            });
            c.run("damaged programs", quick / 3, |i, r, obs| {
                let sh = Shape { modules: r.bool(), mods: false, size: 1 + r.below(3) };
                let p = Gen::new(r).program(&sh);
                let noise = r.bool();
                let all = Printer { p: &p, r, extra: 0, noise }.files();
                let mut texts: Vec<_> = all.into_iter().enumerate().map(|(i, t)| (format!("file{i}.reds"), t)).collect();
                total::mutate(&mut texts, r);
                obs.describe(texts.iter().map(|t| format!("----- {}\n{}\n", t.0, t.1)).collect::<String>());
                obs.distinct(vmon::rng::hash_bytes(format!("{texts:?}").as_bytes()));
                total::probe(&bases[usize::from(i % 8 > 5)], &texts, obs).map(drop)
            });
            c.require("accepted", 300);
            c.require("refused at once", 1000);
            c.require("refused with diagnostics", 1000);
            c.finish()
        }
        "C20" => {
            let mut c = Check::new("C20", "monitored", "every accepted program yields a well-formed bundle, the same one every time");
            let n = c.n(1500, 20000);
            for (w, modules, mods) in [("programs", false, false), ("modules", true, false), ("mods", false, true), ("mods in modules", true, true)] {
                output(&mut c, w, n / 2, modules, mods);
            }
            let base = vcomp::base::bytes();
            let nasty = total::nasty();
            c.run("hand-written extremes", nasty.len(), |i, _, obs| {
                let texts = vec![("prelude.reds".to_owned(), total::PRELUDE.to_owned()), ("nasty.reds".to_owned(), nasty[i].clone())];
                obs.describe(nasty[i].chars().take(2000).collect::<String>());
                if let Ok((bytes, _)) = compile(&base, &texts) {
                    obs.hit("accepted extremes");
                    outcome(&bytes, false, obs)?;
                }
                Ok(())
            });
            c.run("loosely typed", n * 2, |_, r, obs| {
                let mut l = total::Loose { r: &mut *r };
                let text = if l.r.bool() { l.file() } else { l.function() };
                let texts = vec![("prelude.reds".to_owned(), total::PRELUDE.to_owned()), ("loose.reds".to_owned(), text)];
                obs.describe(texts[1].1.clone());
                if let Ok((bytes, _)) = compile(&base, &texts) {
                    obs.hit("accepted");
                    outcome(&bytes, false, obs)?;
                }
                Ok(())
            });
            // code around the longest jump there can be: refused, or right
            let (lim, _) = compile(&base, &[("limits.reds".to_owned(), total::filler_prelude())]).expect("limits");
            let deeper = c.n(1, 8);
            c.run("jump limits", total::OVER.len() * deeper, |i, r, obs| {
                let form = total::OVER[i % total::OVER.len()];
                let extra = if i < total::OVER.len() { String::new() } else { "Take(b); ".repeat(r.below(40)) };
                let form = form.replace("Take(b);", &format!("{extra}Take(b);"));
                let try_ = |n: usize, obs: &mut Obs| -> Result<Option<u64>, String> {
                    let Some(e) = total::filler(n) else { return Ok(None) };
                    let text = format!("public func Go(b: Bool, o: ref<Lo>, w: wref<Lo>, a: array<Bool>) -> Bool {{ {} return true; }}\n", form.replace('E', &e).replace(&format!("{}quals", e), "Equals"));
                    obs.describe(format!("{form} with {n} bytes of code for E"));
                    match compile(&lim, &[("go.reds".to_owned(), text)]) {
                        Ok((bytes, _)) => {
                            let (b, _) = SBundle::read(&bytes).map_err(|e| format!("output: {e}"))?;
                            let f = vcomp::wf::check(&b, true).map_err(|m| format!("{form} with {n} bytes of code for E: {m}"))?;
                            vcomp::tyck::Types::new(&b).all(|_| true).map_err(|m| format!("{form} with {n} bytes of code for E: {}", m.1))?;
                            obs.hit("accepted near the limit");
                            Ok(Some(f.far))
                        }
                        Err(e) if e.starts_with("error") || e.contains("panic") => Err(format!("{form} with {n} bytes of code for E: {e}")),
                        Err(_) => {
                            obs.hit("refused near the limit");
                            Ok(Some(0))
                        }
                    }
                };
                let (mut lo, mut hi) = (10_000, 70_000);
                ensure!(try_(lo, obs)?.is_some_and(|f| f > 0), "{form} with {lo} bytes of code for E is refused");
                ensure!(try_(hi, obs)? == Some(0), "{form} with {hi} bytes of code for E is accepted");
                while hi - lo > 1 {
                    let mid = (lo + hi) / 2;
                    match try_(mid, obs)? {
                        None => return Err(format!("HARNESS: no code of {mid} bytes")),
                        Some(0) => hi = mid,
                        Some(_) => lo = mid,
                    }
                }
                let mut far = 0;
                for n in lo - 40..hi + 60 {
                    far = far.max(try_(n, obs)?.unwrap_or(0));
                }
                // nothing that could be written is refused
                ensure!(far >= 32760, "{form}: the longest jump accepted is {far}");
                obs.max("longest jump", far);
                obs.hit("limits");
                Ok(())
            });
            c.require("limits", total::OVER.len() as u64);
            c.require("bodies", 10000);
            c.require("jumps", 1000);
            c.require("compiled again", 1000);
            c.require("accepted", 40);
            c.finish()
        }
        "C23" => {
            let mut c = Check::new("C23", "monitored", "every mistake is reported once, where it is, as what it is, and nothing else is");
            let (base, _) = compile(&vcomp::base::bytes(), &[("helpers.reds".to_owned(), HELPERS.to_owned())]).expect("helpers");
            let k = c.n(25, 250);
            c.run("single mistakes", FAULTS.len() * k, |i, r, obs| mistakes(&base, &[i % FAULTS.len()], r, obs));
            let n = c.n(2000, 20000);
            c.run("several mistakes", n, |_, r, obs| {
                let k = 2 + r.below(4);
                let set: Vec<usize> = (0..k).map(|_| r.below(FAULTS.len())).filter(|i| faults::alone(*i)).collect();
                mistakes(&base, &set, r, obs)
            });
            c.run("no mistakes", n, |_, r, obs| {
                let sh = Shape { modules: r.bool(), mods: false, size: 1 + r.below(6) };
                let p = Gen::new(r).program(&sh);
                let noise = r.bool();
                let all = Printer { p: &p, r, extra: 0, noise }.files();
                let texts: Vec<_> = all.into_iter().enumerate().map(|(i, t)| (format!("file{i}.reds"), t)).collect();
                obs.describe(texts.iter().map(|t| format!("----- {}\n{}\n", t.0, t.1)).collect::<String>());
                let said = faults::diagnose(&base, &texts)?;
                let mut got: Vec<(usize, String)> = vec![];
                for d in said {
                    ensure!(d.text.contains("never used"), "a valid program is criticised: {d:?}");
                    got.push((d.file, d.name));
                }
                got.sort();
                let want = faults::unused(&p);
                obs.add("unused locals", want.len() as u64);
                ensure_eq!(got, want, "locals reported as unused");
                Ok(())
            });
            c.require("mistakes", (FAULTS.len() * k) as u64);
            c.require("unused locals", 500);
            c.finish()
        }
        "C25" => {
            let mut c = Check::new("C25", "monitored", "a name means the visible definition its module and imports give it");
            let base = vcomp::base::bytes();
            let n = c.n(6000, 60000);
            c.run("names", n, |_, r, obs| {
                let m = Modules::gen(r, false);
                let texts: Vec<(String, String)> = (0..m.files.len()).map(|i| (format!("file{i}.reds"), m.text(i, r, &[]).0)).collect();
                obs.describe(texts.iter().enumerate().map(|(i, t)| format!("----- {} stage {}\n{}", t.0, m.files[i].stage, t.1)).collect::<String>());
                obs.distinct(vmon::rng::hash_bytes(format!("{texts:?}").as_bytes()));
                let mut bytes = base.clone();
                for st in 0..2 {
                    let part: Vec<_> = (0..texts.len()).filter(|i| m.files[*i].stage == st).map(|i| texts[i].clone()).collect();
                    if !part.is_empty() {
                        bytes = compile(&bytes, &part).map_err(|e| format!("a valid program is rejected: {e}"))?.0;
                    }
                }
                let (b, _) = SBundle::read(&bytes).map_err(|e| format!("output: {e}"))?;
                m.check(&b, |k| obs.hit(k))
            });
            c.run("names without a meaning", n, |_, r, obs| {
                let m = Modules::gen(r, true);
                let mut want = std::collections::BTreeSet::new();
                let mut texts: Vec<(String, String)> = vec![];
                for i in 0..m.files.len() {
                    let mut extra = vec![];
                    if r.below(6) == 0 {
                        extra.push((*r.pick(&["import Qx.Nope", "import Qa.ZNope", "import Qx.Qy.*", "import Qa.Qb.{ZNope}", "import Qx.Qy.{ZFoo}", "import Qa.Qb.Qc.Qz.*"])).to_owned());
                        want.insert((i, usize::from(m.files[i].module.is_some())));
                    }
                    let (t, at) = m.text(i, r, &extra);
                    for p in m.probes.iter().filter(|p| p.file == i) {
                        if m.target(p).is_empty() {
                            want.insert((i, at[&p.id]));
                        }
                    }
                    texts.push((format!("file{i}.reds"), t));
                }
                obs.describe(texts.iter().map(|t| format!("----- {}\n{}", t.0, t.1)).collect::<String>());
                let said = faults::diagnose(&base, &texts)?;
                let got: std::collections::BTreeSet<(usize, usize)> = said.iter().filter(|d| d.fatal).map(|d| (d.file, d.line)).collect();
                obs.add("unresolved", want.len() as u64);
                ensure_eq!(got, want, "lines with names that are reported as unresolved; all that was said is {said:?}");
                Ok(())
            });
            for k in ["calls", "calls with a literal", "objects", "objects made elsewhere", "static calls", "members", "bases", "definitions left out", "unresolved"] {
                c.require(k, 1000);
            }
            c.finish()
        }
        "C27" => {
            let mut c = Check::new("C27", "monitored", "what the compiler accepts becomes well-typed code");
            let base = compile(&vcomp::base::bytes(), &[("prelude.reds".to_owned(), typing::prelude())]).unwrap().0;
            let atoms = typing::atoms();
            let n = c.n(150_000, 20_000_000);
            c.run("statements", n, |i, r, obs| {
                let form = typing::FORMS[i % typing::FORMS.len()];
                let (x, y, t) = (r.pick(&atoms).clone(), r.pick(&atoms).clone(), r.below(typing::TYPES.len()));
                typed(&base, &typing::statement(form, &x, &y, t), if form.contains("return") { t + 1 } else { 0 }, obs)
            });
            let n = c.n(60_000, 10_000_000);
            c.run("nested", n, |_, r, obs| {
                let form = *r.pick(typing::FORMS);
                let depth = 1 + r.below(2);
                let (x, y, t) = (typing::nested(r, &atoms, depth), typing::nested(r, &atoms, depth), r.below(typing::TYPES.len()));
                typed(&base, &typing::statement(form, &x, &y, t), if form.contains("return") { t + 1 } else { 0 }, obs)
            });
            let n = c.n(2500, 500_000);
            typed_programs(&mut c, "programs", n);
            for (k, n) in [("accepted", 7000), ("refused", 100_000), ("typed operands", 25_000), ("unrelated comparisons", 1000), ("programs", 2500), ("typed operands in programs", 500_000)] {
                c.require(k, n);
            }
            c.finish()
        }
        "C26" => {
            let mut c = Check::new("C26", "monitored", "a declaration becomes a definition with exactly the properties it states");
            let n = c.n(8000, 250000);
            declarations(&mut c, "declarations", n);
            for (k, n) in [("declarations", 100_000), ("source references", 50_000), ("added fields", 500), ("added methods", 500), ("added overrides", 60), ("callbacks", 2000), ("conditions that hold", 2000), ("conditions that do not", 2000), ("defaults", 3000), ("enum defaults", 200), ("enums", 3000), ("fields there are already", 300), ("native functions", 3000), ("persistent fields", 3000), ("replaced functions", 400), ("replaced methods", 300), ("replaced natives", 150), ("runtime properties", 10_000), ("structs", 3000), ("operators and casts", 2000), ("wrapped callbacks", 80), ("wrapped methods", 400)] {
                c.require(k, n);
            }
            c.finish()
        }
        "C19" => {
            let mut c = Check::new("C19", "monitored", "adding scripts to a bundle changes what they say and nothing else");
            let n = c.n(2500, 25000);
            composition(&mut c, "mods", n, false);
            composition(&mut c, "mods in modules", n, true);
            c.require("untouched functions", 1000);
            c.require("wrapped bodies", 500);
            c.require("replaced functions", 100);
            c.finish()
        }
        id => panic!("unknown property {id}"),
    }
}
