//! C16: command line of the compiler wrapper.
#[allow(dead_code, unused_imports)]
#[path = "/repo/scc/cli/src/opts.rs"]
mod opts;

use std::path::PathBuf;

use opts::{fix_args, Opts};
use vmon::report::{guarded, install_panic_hook, Check};
use vmon::rng::{hash_str, Rng};
use vmon::{ensure, ensure_eq};

#[derive(Debug, Clone, PartialEq)]
struct Want {
    scripts_dir: String,
    cache_dir: Option<String>,
    output: Option<String>,
    paths: Option<String>,
    cache_file: Option<String>,
    threads: Option<u8>,
    warnings: Vec<String>,
    profile: Option<bool>,
    toggles: [bool; 5],
}

const TOGGLES: [&str; 5] = ["-optimize", "-no-testonly", "-no-breakpoint", "-no-exec", "-no-debug"];

fn word(r: &mut Rng) -> String {
    let n = 1 + r.below(8);
    (0..n)
        .map(|_| *r.pick(&['a', 'b', 'Z', '0', '9', '_', '.', '(', ')', '-', '=', 'ż', '日', '&', '\'', '%', '+', ',', 'W']))
        .collect()
}

/// a Windows or Unix path; only single spaces, never next to a separator
fn path(r: &mut Rng, spaces: bool) -> String {
    let sep = if r.chance(3, 4) { "\\" } else { "/" };
    let mut s = String::from(if sep == "\\" { *r.pick(&["C:\\", "D:\\", "\\\\srv\\"]) } else { "/" });
    let n = 1 + r.below(5);
    for k in 0..n {
        if k > 0 {
            s.push_str(sep);
        }
        s.push_str(&word(r));
        while spaces && r.chance(1, 3) {
            s.push(' ');
            s.push_str(&word(r));
        }
    }
    s
}

fn want(r: &mut Rng, spaces: bool) -> Want {
    let opt = |r: &mut Rng| r.bool();
    Want {
        scripts_dir: path(r, spaces),
        cache_dir: opt(r).then(|| path(r, spaces)),
        output: opt(r).then(|| path(r, spaces)),
        paths: opt(r).then(|| path(r, spaces)),
        cache_file: opt(r).then(|| path(r, spaces)),
        threads: opt(r).then(|| r.u8()),
        warnings: (0..r.below(4)).map(|_| word(r)).collect(),
        profile: opt(r).then(|| r.bool()),
        toggles: [0; 5].map(|_| r.bool()),
    }
}

/// (text, is a path) groups; a group stays together
fn groups(w: &Want, r: &mut Rng) -> Vec<Vec<(String, bool)>> {
    let flag = |s: &str| (s.to_owned(), false);
    let p = |s: &str| (s.to_owned(), true);
    let mut g = vec![];
    if let Some(v) = &w.cache_dir {
        g.push(vec![flag("-customCacheDir"), p(v)]);
    }
    if let Some(v) = &w.output {
        g.push(vec![flag("-outputCacheFile"), p(v)]);
    }
    if let Some(v) = &w.paths {
        g.push(vec![flag("-compilePathsFile"), p(v)]);
    }
    if let Some(v) = &w.cache_file {
        g.push(vec![p(v)]);
    }
    if let Some(v) = w.threads {
        g.push(vec![flag("-threads"), flag(&v.to_string())]);
    }
    if let Some(v) = w.profile {
        g.push(vec![flag(if v { "-profile=on" } else { "-profile=off" })]);
    }
    for (t, on) in TOGGLES.iter().zip(w.toggles) {
        if on {
            g.push(vec![flag(t)]);
        }
    }
    for k in (1..g.len()).rev() {
        let j = r.below(k + 1);
        g.swap(k, j);
    }
    // warnings keep their order among themselves
    let mut at = 0;
    for v in &w.warnings {
        at = r.range(at, g.len());
        g.insert(at, vec![flag(&format!("-W{v}"))]);
        at += 1;
    }
    g.insert(0, vec![flag("-compile"), p(&w.scripts_dir)]);
    g
}

fn load(args: &[String]) -> Result<Result<Opts, String>, String> {
    let refs: Vec<&str> = args.iter().map(String::as_str).collect();
    guarded(|| Opts::load(&refs).map_err(|e| format!("{e:?}")))
}

fn compare(w: &Want, o: &Opts) -> Result<(), String> {
    let p = |v: &Option<String>| v.as_ref().map(PathBuf::from);
    ensure_eq!(o.scripts_dir, PathBuf::from(&w.scripts_dir), "scripts directory");
    ensure_eq!(o.cache_dir, p(&w.cache_dir), "cache directory");
    ensure_eq!(o.output_cache_file, p(&w.output), "output cache file");
    ensure_eq!(o.script_paths_file, p(&w.paths), "script paths file");
    ensure_eq!(o.cache_file, p(&w.cache_file), "cache file");
    ensure_eq!(o.threads, w.threads.unwrap_or(1), "threads");
    ensure_eq!(o.warnings, w.warnings, "warnings");
    ensure_eq!(o.profile, w.profile.unwrap_or(true), "profile");
    let t = [o.optimize, o.no_testonly, o.no_breakpoint, o.no_exec, o.no_debug];
    ensure_eq!(t, w.toggles, "toggles");
    Ok(())
}

/// how Windows splits a command line into arguments
fn windows_split(s: &str) -> Vec<String> {
    let c: Vec<char> = s.chars().collect();
    let mut out = vec![];
    let mut i = 0;
    loop {
        while i < c.len() && (c[i] == ' ' || c[i] == '\t') {
            i += 1;
        }
        if i >= c.len() {
            return out;
        }
        let mut cur = String::new();
        let mut quoted = false;
        while i < c.len() {
            if !quoted && (c[i] == ' ' || c[i] == '\t') {
                break;
            }
            if c[i] == '\\' {
                let start = i;
                while i < c.len() && c[i] == '\\' {
                    i += 1;
                }
                let n = i - start;
                if i < c.len() && c[i] == '"' {
                    cur.extend(std::iter::repeat('\\').take(n / 2));
                    if n % 2 == 1 {
                        cur.push('"');
                        i += 1;
                    }
                } else {
                    cur.extend(std::iter::repeat('\\').take(n));
                }
            } else if c[i] == '"' {
                if quoted && c.get(i + 1) == Some(&'"') {
                    cur.push('"');
                    i += 2;
                } else {
                    quoted = !quoted;
                    i += 1;
                }
            } else {
                cur.push(c[i]);
                i += 1;
            }
        }
        out.push(cur);
    }
}

fn main() {
    install_panic_hook();
    let mut c = Check::new(
        "C16",
        "monitored",
        "parsed options equal the options a command line was generated from; malformed lines are refused",
    );
    let n = c.n(40_000, 1_000_000);
    c.run("any order", n, |_, r, o| {
        let w = want(r, true);
        let args: Vec<String> = groups(&w, r).concat().into_iter().map(|a| a.0).collect();
        o.describe(format!("{args:?}"));
        o.distinct(hash_str(&format!("{args:?}")));
        o.sample(|| format!("{args:?}"));
        let fixed = guarded(|| fix_args(args.clone()))?;
        ensure_eq!(fixed, args, "arguments that were not mangled");
        let got = load(&args)?.map_err(|e| format!("refused: {e}"))?;
        compare(&w, &got)?;
        o.add("options", args.len() as u64);
        o.hit("command lines");
        Ok(())
    });
    let n = c.n(40_000, 1_000_000);
    c.run("mangled", n, |i, r, o| {
        // the game quotes every path; one that ends with a backslash swallows its closing quote
        let mut w = want(r, true);
        let trailing = i % 4 != 0;
        if trailing {
            w.scripts_dir = format!("{}\\", w.scripts_dir.trim_end_matches(['\\', '/']));
        }
        if i % 2 == 0 {
            for v in [&mut w.cache_dir, &mut w.output, &mut w.paths, &mut w.cache_file].into_iter().flatten() {
                if r.bool() {
                    *v = format!("{}\\", v.trim_end_matches(['\\', '/']));
                }
            }
        }
        let g = groups(&w, r).concat();
        let args: Vec<String> = g.iter().map(|a| a.0.clone()).collect();
        let line = g
            .iter()
            .map(|(s, is_path)| if *is_path { format!("\"{s}\"") } else { s.clone() })
            .collect::<Vec<_>>()
            .join(" ");
        o.describe(line.clone());
        o.distinct(hash_str(&line));
        o.sample(|| line.clone());
        let split = windows_split(&line);
        o.hit(if split == args { "intact command lines" } else { "mangled command lines" });
        let fixed = guarded(|| fix_args(split))?;
        ensure_eq!(fixed, args, "repaired arguments");
        let got = load(&fixed)?.map_err(|e| format!("refused: {e}"))?;
        compare(&w, &got)?;
        Ok(())
    });
    let n = c.n(40_000, 1_000_000);
    c.run("malformed", n, |i, r, o| {
        let w = want(r, true);
        let g = groups(&w, r);
        let mut args: Vec<String> = g.concat().into_iter().map(|a| a.0).collect();
        let kind = i % 9;
        let at = |g: &[Vec<(String, bool)>], r: &mut Rng| {
            let k = 1 + r.below(g.len());
            g[..k].iter().map(Vec::len).sum::<usize>()
        };
        match kind {
            0 => {
                let k = at(&g, r);
                args.insert(k, r.pick(&["-foo", "-Optimize", "-optimise", "-thread", "-no_exec", "-profil=on", "-compiles", "-compile", "-no-debugx", "--optimize", "-no-exec=1", "-w", "-customcachedir", "-optimize ", "-"]).to_string());
            }
            1 => {
                if w.threads.is_some() {
                    return Ok(());
                }
                let k = at(&g, r);
                args.insert(k, "-threads".into());
                args.insert(k + 1, r.pick(&["256", "x", "4x", "1.5", "99999999999", "0x4", "-0", "1e1", " 1", "1 ", "٣", "300", "256"]).to_string());
            }
            2 => {
                if w.profile.is_some() {
                    return Ok(());
                }
                let k = at(&g, r);
                args.insert(k, r.pick(&["-profile", "-profile=", "-profile=ON", "-profile=On", "-profile=Off", "-profile=oN", "-profile=on=off", "-profile=off=on", "-profile==on", "-profile=on=", "-profile= on", "-Profile=on", "-profile=yes", "-profile=off ", "-profile=1"]).to_string());
            }
            3 => {
                // an option without its value
                let f = r.pick(&["-customCacheDir", "-outputCacheFile", "-compilePathsFile", "-threads"]).to_string();
                if args.contains(&f) {
                    return Ok(());
                }
                args.push(f);
            }
            4 => {
                // a repeated option
                let Some(k) = args.iter().position(|a| a == r.pick(&TOGGLES)) else { return Ok(()) };
                let a = args[k].clone();
                let at = at(&g, r);
                args.insert(at, a);
            }
            5 => {
                args.remove(0);
            }
            6 => {
                // a value that looks like an option
                let at: Vec<usize> = (0..args.len())
                    .filter(|k| ["-compile", "-customCacheDir", "-outputCacheFile", "-compilePathsFile", "-threads"].contains(&args[*k].as_str()))
                    .collect();
                let k = *r.pick(&at) + 1;
                args[k] = match r.below(3) {
                    0 => format!("-{}", args[k]),
                    1 => format!("{}{}", r.pick(&["-c", "-p", "-n", "--", "-compile", "-profile", "-o", "-t", "-x"]), args[k]),
                    _ => r.pick(&["-", "-w", "-optimise", "-profile:on", "-wall", "-1"]).to_string(),
                };
            }
            7 => {
                // one file too many
                let a = path(r, true);
                let b = path(r, true);
                let k = at(&g, r);
                args.insert(k, a);
                args.push(b);
                if w.cache_file.is_none() && r.bool() {
                    // two are already too many
                }
            }
            _ => args.truncate(r.below(2)),
        }
        o.describe(format!("{args:?}"));
        o.distinct(hash_str(&format!("{args:?}")));
        o.seen("kinds", kind as u64);
        match load(&args)? {
            Err(_) => o.hit("refused"),
            Ok(got) => return Err(format!("accepted a malformed command line as {got:?}")),
        }
        Ok(())
    });
    let n = c.n(60_000, 1_500_000);
    c.run("arbitrary", n, |_, r, o| {
        let n = r.below(12);
        let args: Vec<String> = (0..n)
            .map(|_| match r.below(4) {
                0 => r.pick(&["-compile", "-threads", "-profile=on", "-W", "", "--", "--help", "-h", "-customCacheDir", "-", "=", "\"", "\\\""]).to_string(),
                _ => {
                    let k = r.below(10);
                    (0..k).map(|_| *r.pick(&['"', ' ', '\\', '-', 'a', '=', 'é', '/', '\t', '\n'])).collect()
                }
            })
            .collect();
        o.describe(format!("{args:?}"));
        o.distinct(hash_str(&format!("{args:?}")));
        let fixed = guarded(|| fix_args(args.clone()))?;
        ensure!(fixed.iter().all(|a| !a.is_empty()), "an empty argument is left: {fixed:?}");
        if !args.iter().any(|a| a.contains('"')) {
            let want: Vec<String> = args.iter().filter(|a| !a.is_empty()).cloned().collect();
            ensure_eq!(fixed, want, "arguments without quotes");
            o.hit("lines without quotes");
        } else {
            o.hit("lines with quotes");
        }
        let _ = load(&fixed)?;
        let _ = load(&args)?;
        Ok(())
    });
    c.require("command lines", 10_000);
    c.require("mangled command lines", 5000);
    c.require("intact command lines", 2000);
    c.require("refused", 10_000);
    c.require_all("kinds", 0..9);
    c.finish()
}
