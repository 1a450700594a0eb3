//! An installation in a scratch directory, what happens to it, and what must be true of it afterwards.
use std::fs;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, SystemTime};

use redscript::bundle::ScriptBundle;
use redscript::definition::{Definition, Enum};
use redscript_compiler::source_map::{Files, SourceFilter};
use redscript_compiler::unit::CompilationUnit;
use vmon::report::*;
use vmon::rng::Rng;

pub type R<T> = Result<T, String>;

fn io<T>(what: &str, r: std::io::Result<T>) -> R<T> {
    r.map_err(|e| format!("harness: {what}: {e}"))
}

/// the compiler process: settings through the C interface, outcome as exit code and text
pub fn child(args: &[String]) -> i32 {
    use scc_lib::api::*;
    use std::ffi::CString;
    let c = |s: &str| CString::new(s).unwrap();
    unsafe {
        let mut s = scc_settings_new(c(&args[0]).as_ptr());
        if args[1] != "-" {
            scc_settings_set_custom_cache_file(&mut s, c(&args[1]).as_ptr());
        }
        if args[2] != "-" {
            scc_settings_set_output_cache_file(&mut s, c(&args[2]).as_ptr());
        }
        for p in &args[3..] {
            scc_settings_add_script_path(&mut s, c(p).as_ptr());
        }
        let res = scc_compile(s);
        let ok = scc_get_success(&res).is_some();
        let mut buf = vec![0u8; 4000];
        let n = scc_copy_error(&res, buf.as_mut_ptr(), buf.len());
        println!("{}", String::from_utf8_lossy(&buf[..n]));
        scc_free_result(res);
        if ok {
            0
        } else {
            2
        }
    }
}

/// puts the library where the command line looks for it
pub fn place_library() {
    let dir = std::env::current_exe().expect("own path").parent().expect("directory").to_path_buf();
    let temp = dir.join(format!("scc_lib.{}", std::process::id()));
    fs::copy(dir.join("deps").join("libscc_lib.so"), &temp).expect("library");
    fs::rename(&temp, dir.join("scc_lib.dll")).expect("library");
}

static NEXT: AtomicU64 = AtomicU64::new(0);

pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new() -> R<Scratch> {
        let dir = std::env::temp_dir().join(format!("vscc-{}-{}", std::process::id(), NEXT.fetch_add(1, Ordering::Relaxed)));
        io("scratch", fs::create_dir_all(&dir))?;
        Ok(Scratch(dir))
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        fs::remove_dir_all(&self.0).ok();
    }
}

pub fn predef() -> Vec<u8> {
    fs::read("/repo/resources/predef.redscripts").expect("predef.redscripts")
}

fn build(base: &[u8], files: &Files, sign: bool) -> R<Vec<u8>> {
    let mut bundle = ScriptBundle::load(&mut std::io::Cursor::new(base)).map_err(|e| format!("load: {e}"))?;
    CompilationUnit::new(&mut bundle.pool, vec![]).map_err(|e| format!("{e}"))?.compile_and_report(files).map_err(|e| format!("refused: {e}"))?;
    if sign {
        let name = bundle.pool.names.add("$REDSCRIPT_SIGNATURE".into());
        bundle.pool.add_definition::<Enum>(Definition::enum_(name, Enum { flags: 0, size: 0, members: vec![], unk1: false }));
    }
    let mut out = std::io::Cursor::new(vec![]);
    bundle.save(&mut out).map_err(|e| format!("save: {e}"))?;
    Ok(out.into_inner())
}

/// the cache as the game ships it in its n-th version
pub fn game(version: u64) -> R<Vec<u8>> {
    let mut files = Files::new();
    files.add("game.reds".into(), format!("public abstract class GameVersion{version} {{ public let since: Int32; public final func Age() -> Int32 {{ return {version}; }} }}\n"));
    build(&predef(), &files, false)
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Layout {
    /// r6/cache/final.redscripts, not named
    Default,
    /// the same, named
    Named,
    /// another file, which does not exist at first
    Custom,
    /// another file, which is all there is
    Alone,
}

#[derive(Debug, Clone, Copy)]
pub enum Step {
    Run(bool),
    Update,
    Valid,
    Invalid,
    /// an earlier release of the compiler was the last one to run
    Legacy,
}

pub struct Scenario {
    pub name: &'static str,
    pub layout: Layout,
    pub before: &'static [Step],
    pub run: bool,
}

pub fn scenarios() -> Vec<Scenario> {
    use Step::*;
    const SAME: Step = Run(false);
    const SEP: Step = Run(true);
    let mut v = vec![];
    for layout in [Layout::Default, Layout::Named, Layout::Custom, Layout::Alone] {
        for (name, before) in [
            ("first run", &[][..]),
            ("second run", &[SAME][..]),
            ("run with other scripts", &[SAME, Valid][..]),
            ("run after an update", &[SAME, Update][..]),
            ("run after a refused run", &[Invalid, SAME, Valid][..]),
            ("run after a later refused run", &[SAME, Invalid, SAME, Valid][..]),
            ("run after a separate run", &[SEP][..]),
            ("run after separate and same", &[SEP, SAME, Valid][..]),
            ("run after same and separate", &[SAME, SEP, Valid][..]),
            ("run after an update after a separate run", &[SEP, Update][..]),
            ("run after a run of an earlier release", &[SAME, Legacy, Valid][..]),
        ] {
            for run in [false, true] {
                v.push(Scenario { name, layout, before, run });
            }
        }
    }
    v
}

pub struct World {
    pub scratch: Scratch,
    layout: Layout,
    /// through the command line rather than the library
    cli: bool,
    r6: PathBuf,
    cache: PathBuf,
    out: PathBuf,
    /// another name of the cache
    alias: Option<PathBuf>,
    extra: Vec<PathBuf>,
    version: u64,
    /// the cache the game shipped last
    pristine: Vec<u8>,
    clock: u64,
    scripts: u64,
    valid: bool,
    last_mode: Option<bool>,
    pub log: Vec<String>,
}

/// files below a directory with contents and times
pub struct Snapshot {
    files: Vec<(PathBuf, Vec<u8>, SystemTime)>,
    dirs: Vec<PathBuf>,
    version: u64,
    pristine: Vec<u8>,
    valid: bool,
    last_mode: Option<bool>,
    log: usize,
}

fn walk(dir: &Path, files: &mut Vec<PathBuf>, dirs: &mut Vec<PathBuf>) -> R<()> {
    for e in io("read_dir", fs::read_dir(dir))? {
        let p = io("entry", e)?.path();
        if p.is_dir() {
            dirs.push(p.clone());
            walk(&p, files, dirs)?;
        } else {
            files.push(p);
        }
    }
    Ok(())
}

fn put(path: &Path, data: &[u8], time: SystemTime) -> R<()> {
    io("write", fs::write(path, data))?;
    io("touch", fs::OpenOptions::new().write(true).open(path).and_then(|f| f.set_modified(time)))
}

impl World {
    pub fn new(r: &mut Rng) -> R<World> {
        let layout = *r.pick(&[Layout::Default, Layout::Default, Layout::Named, Layout::Custom, Layout::Alone]);
        Self::with_layout(r, layout)
    }

    pub fn with_layout(r: &mut Rng, layout: Layout) -> R<World> {
        let scratch = Scratch::new()?;
        let r6 = scratch.0.join("r6");
        let default = r6.join("cache").join("final.redscripts");
        let cache = match layout {
            Layout::Default | Layout::Named => default.clone(),
            Layout::Custom => r6.join("cache").join("modded").join("final.redscripts"),
            Layout::Alone => scratch.0.join("elsewhere").join(*r.pick(&["final.redscripts", "some cache.redscripts"])),
        };
        let out = match r.below(4) {
            0 => scratch.0.join("out").join("final.redscripts"),
            1 if layout != Layout::Custom => cache.with_file_name("modded.redscripts"),
            _ => scratch.0.join("out").join("final.redscripts.modded"),
        };
        for d in [r6.join("scripts"), r6.join("cache"), scratch.0.join("elsewhere"), scratch.0.join("out"), scratch.0.join("mods")] {
            io("mkdir", fs::create_dir_all(d))?;
        }
        let alias = r.chance(1, 2).then(|| {
            let (dir, name) = (cache.parent().expect("directory"), cache.file_name().expect("name"));
            match r.below(3) {
                0 => cache.clone(),
                1 => dir.join("..").join(dir.file_name().expect("directory name")).join(name),
                _ => r6.join("scripts").join("..").join("..").join(cache.strip_prefix(&scratch.0).expect("scratch")),
            }
        });
        let mut w = World { scratch, layout, cli: r.bool(), r6, cache, out, alias, extra: vec![], version: 0, pristine: vec![], clock: 1_500_000_000, scripts: 0, valid: true, last_mode: None, log: vec![] };
        w.log.push(format!("layout {layout:?}, {}", if w.cli { "command line" } else { "library" }));
        w.version = 1 + r.below(3) as u64;
        w.pristine = game(w.version)?;
        w.clock += r.below(1_000_000) as u64;
        let first = if layout == Layout::Custom { &default } else { &w.cache };
        put(first, &w.pristine, w.time())?;
        if layout != Layout::Custom && r.chance(1, 3) {
            let n = *r.pick(&[1, 2, 5]);
            w.extra = (0..n).map(|k| w.scratch.0.join(if k == 0 { "mods".to_owned() } else { format!("mods {k}") })).collect();
        }
        w.write_scripts(r, true)?;
        if layout == Layout::Custom && r.bool() {
            // the ordinary cache has been compiled before
            w.log.push("ordinary cache compiled".to_owned());
            w.spawn(None, None, &[], false)?;
        }
        Ok(w)
    }

    fn time(&self) -> SystemTime {
        // unpacked files have all sorts of times, but those of two versions differ
        match self.version % 5 {
            3 => SystemTime::UNIX_EPOCH - Duration::from_secs(11_644_473_600 - self.clock % 1_000_000),
            4 => SystemTime::UNIX_EPOCH + Duration::from_nanos(self.version - 4),
            _ => SystemTime::UNIX_EPOCH + Duration::from_nanos(self.clock * 1_000_000_000 + 17),
        }
    }

    fn write_scripts(&mut self, r: &mut Rng, valid: bool) -> R<()> {
        for d in self.dirs() {
            if d.exists() {
                io("clear", fs::remove_dir_all(&d))?;
            }
            io("mkdir", fs::create_dir_all(&d))?;
        }
        let n = if valid { r.below(4) } else { 1 + r.below(3) };
        let bad = r.below(n.max(1));
        for k in 0..n {
            self.scripts += 1;
            let s = self.scripts;
            let mut text = match r.below(4) {
                0 => format!("public class Script{s} {{ public let field{s}: Int32; public final func Get{s}() -> Int32 {{ return {s}; }} }}\n"),
                1 => format!("func Global{s}() -> Int32 = {s}\n"),
                2 => format!("module Mod{s}\npublic func Inside{s}() -> String {{ return \"text {s}\"; }}\n"),
                _ => format!("public class Newer{s} extends GameVersion{} {{}}\n", self.version),
            };
            if !valid && k == bad {
                text.push_str(*r.pick(&["func Bad() -> Int32 { return undefinedVariable; }\n", "func Worse( {\n", "class Lost extends NowhereToBeFound {}\n", "func Odd() -> Int32 = \"x\"\n"]));
            }
            let root = if r.chance(1, 3) && !self.extra.is_empty() { r.pick(&self.extra).clone() } else { self.r6.join("scripts") };
            let dir = if r.bool() { root.join(format!("mod{}", r.below(2))) } else { root };
            io("mkdir", fs::create_dir_all(&dir))?;
            io("script", fs::write(dir.join(format!("s{s}.reds")), text))?;
        }
        self.valid = valid;
        self.log.push(format!("{} scripts, {}", n, if valid { "valid" } else { "invalid" }));
        Ok(())
    }

    pub fn fix_scripts(&mut self, r: &mut Rng) -> R<()> {
        if !self.valid {
            self.write_scripts(r, true)?;
        }
        Ok(())
    }

    fn dirs(&self) -> Vec<PathBuf> {
        std::iter::once(self.r6.join("scripts")).chain(self.extra.iter().cloned()).collect()
    }

    fn expected(&self) -> R<Vec<u8>> {
        let files = Files::from_dirs(&self.dirs(), &SourceFilter::None).map_err(|e| format!("harness: {e}"))?;
        build(&self.pristine, &files, true)
    }

    fn command(&self, cache: Option<&Path>, out: Option<&Path>) -> Command {
        let mut c = if self.cli { self.command_line(cache, out) } else { self.client(cache, out) };
        c.env("LD_PRELOAD", env!("VSCC_SHIM")).env("VSCC_ROOT", &self.scratch.0).stdin(Stdio::null());
        c
    }

    fn client(&self, cache: Option<&Path>, out: Option<&Path>) -> Command {
        let mut c = Command::new(std::env::current_exe().expect("own path"));
        let text = |p: Option<&Path>| p.map_or("-".to_owned(), |p| p.display().to_string());
        c.arg("child").arg(&self.r6).arg(text(cache)).arg(text(out));
        c.args(&self.extra);
        c
    }

    /// the command line the game uses, in some order
    fn command_line(&self, cache: Option<&Path>, out: Option<&Path>) -> Command {
        let mut groups = vec![];
        if let Some(p) = cache {
            let dir = p.parent().expect("cache").display().to_string();
            match self.log.len() % 3 {
                0 if p.ends_with("final.redscripts") => groups.push(vec!["-customCacheDir".to_owned(), dir]),
                1 => {
                    // the file is preferred
                    groups.push(vec![p.display().to_string()]);
                    groups.push(vec!["-customCacheDir".to_owned(), "/nonexistent/cache".to_owned()]);
                }
                _ => groups.push(vec![p.display().to_string()]),
            }
        }
        if let Some(p) = out {
            groups.push(vec!["-outputCacheFile".to_owned(), p.display().to_string()]);
        }
        if !self.extra.is_empty() {
            let list = self.scratch.0.join("paths.txt");
            fs::write(&list, self.extra.iter().map(|p| format!("{}\n", p.display())).collect::<String>()).ok();
            groups.push(vec!["-compilePathsFile".to_owned(), list.display().to_string()]);
        }
        if self.log.len() % 2 == 0 {
            groups.push(vec!["-threads".to_owned(), "4".to_owned()]);
            groups.push(vec!["-no-testonly".to_owned()]);
            groups.push(vec!["-Wnone".to_owned()]);
        }
        let k = self.log.len() % groups.len().max(1);
        groups.rotate_left(k);
        let mut c = Command::new(std::env::current_exe().expect("own path").with_file_name("scc-cli"));
        c.arg("-compile").arg(self.r6.join("scripts")).args(groups.into_iter().flatten());
        c
    }

    fn paths(&self, separate: bool) -> (Option<&Path>, Option<&Path>) {
        let cache = (self.layout != Layout::Default).then_some(self.cache.as_path());
        // the output of a run in place can be given as well, in any spelling
        let same = self.alias.as_deref().filter(|_| self.log.len() % 2 == 0);
        (cache, if separate { Some(self.out.as_path()) } else { same })
    }

    /// exit code and error text
    fn spawn(&self, cache: Option<&Path>, out: Option<&Path>, env: &[(&str, String)], quiet: bool) -> R<(i32, String)> {
        let _ = quiet;
        let o = io("spawn", self.command(cache, out).envs(env.iter().map(|(k, v)| (k, v))).output())?;
        let code = o.status.code().ok_or_else(|| format!("the compiler was ended by {:?}: {}", o.status, String::from_utf8_lossy(&o.stderr)))?;
        // the command line has no room for reasons
        let code = if self.cli && code == 1 { 2 } else { code };
        Ok((code, format!("{}{}", String::from_utf8_lossy(&o.stdout), String::from_utf8_lossy(&o.stderr))))
    }

    fn fail<T>(&self, what: String) -> R<T> {
        let mut list = vec![];
        let (mut files, mut dirs) = (vec![], vec![]);
        walk(&self.scratch.0, &mut files, &mut dirs).ok();
        for f in files {
            let same = fs::read(&f).map_or(false, |b| b == self.pristine);
            list.push(format!("{} ({} bytes{})", f.strip_prefix(&self.scratch.0).unwrap_or(&f).display(), fs::metadata(&f).map_or(0, |m| m.len()), if same { ", the game's" } else { "" }));
        }
        list.sort();
        Err(format!("{what}\nhistory: {}\nfiles: {}", self.log.join("; "), list.join(", ")))
    }

    fn backup(&self) -> PathBuf {
        self.cache.with_extension("redscripts.bk")
    }

    /// a copy of what the game shipped must be where the compiler takes it from
    fn kept(&self) -> R<()> {
        let default = self.r6.join("cache").join("final.redscripts");
        for p in [&self.cache, &self.backup(), &default, &default.with_extension("redscripts.bk")] {
            if fs::read(p).map_or(false, |b| b == self.pristine) {
                return Ok(());
            }
        }
        self.fail("the cache the game shipped is lost".to_owned())
    }

    fn update(&mut self, obs: &mut Obs) -> R<()> {
        self.version += 1;
        self.clock += 1000 + self.version * 7;
        self.pristine = game(self.version)?;
        // an update replaces the cache that the game loads
        if let Some(dir) = self.cache.parent() {
            io("mkdir", fs::create_dir_all(dir))?;
        }
        // at any time, even right after the last compilation
        let now = fs::metadata(&self.cache).and_then(|m| m.modified());
        let time = match (now, self.clock % 3) {
            (Ok(t), 0) => t + Duration::from_nanos([1, 1000, 1_000_000, 1_000_000_000][self.version as usize % 4]),
            _ => self.time(),
        };
        put(&self.cache, &self.pristine, time)?;
        self.log.push(format!("update to {}", self.version));
        obs.hit("updates");
        Ok(())
    }

    pub fn run(&mut self, separate: bool, obs: &mut Obs) -> R<()> {
        let expected = self.expected();
        let (cache, out) = self.paths(separate);
        let target = out.unwrap_or(&self.cache).to_path_buf();
        let before = fs::read(&target).ok();
        let logfile = self.scratch.0.join("events");
        fs::remove_file(&logfile).ok();
        let (code, text) = self.spawn(cache, out, &[("VSCC_LOG", logfile.display().to_string())], false)?;
        self.log.push(format!("{} run: {code}", if separate { "separate" } else { "same" }));
        let events = fs::read_to_string(&logfile).unwrap_or_default();
        if self.last_mode.is_some_and(|m| m != separate) {
            obs.hit("switches of mode");
        }
        self.last_mode = Some(separate);
        let after = fs::read(&target).ok();
        match (&expected, code) {
            (Ok(e), 0) => {
                if after.as_ref() != Some(e) {
                    return self.fail(format!("the output is not the scripts compiled into the game's cache ({} bytes instead of {})", after.map_or(0, |a| a.len()), e.len()));
                }
                self.durable(&events, &target)?;
                obs.hit("successful runs");
                obs.hit(if self.cli { "command line" } else { "library" });
            }
            (Err(e), 2) => {
                // a cache that did not exist may have been set up
                if before.is_some() && after != before && !(target == self.cache && after.as_ref() == Some(&self.pristine)) {
                    return self.fail(format!("a refused run changed the output ({e})"));
                }
                if text.trim().is_empty() && !self.cli {
                    return self.fail("a refused run says nothing".to_owned());
                }
                obs.hit("refused runs");
            }
            (e, _) => return self.fail(format!("the run ended with {code}, but should have {}: {text}", if e.is_ok() { "succeeded" } else { "been refused" })),
        }
        if separate && fs::read(&self.cache).ok().as_ref() != Some(&self.pristine) {
            return self.fail("with a separate output the cache is not the game's afterwards".to_owned());
        }
        obs.add("file operations", events.lines().count() as u64);
        let kinds: String = events.lines().map(|l| &l[..1.min(l.len())]).collect();
        obs.seen("traces", vmon::rng::hash_str(&kinds));
        self.kept()
    }

    /// what the timestamp vouches for is on disk before the timestamp is
    fn durable(&self, events: &str, target: &Path) -> R<()> {
        let target = target.display().to_string();
        let mut dirty = false;
        for l in events.lines() {
            let mut f = l.split('\t');
            let (op, path) = (f.next().unwrap_or(""), f.next().unwrap_or(""));
            match op {
                "write" | "truncate" | "create" if path == target => dirty = true,
                "sync" if path == target => dirty = false,
                "write" if path.ends_with(".ts") && dirty => return self.fail("the timestamp is written before the output is on disk".to_owned()),
                _ => {}
            }
        }
        Ok(())
    }

    pub fn step(&mut self, s: &Step, r: &mut Rng, obs: &mut Obs) -> R<()> {
        match s {
            Step::Run(separate) => self.run(*separate, obs),
            Step::Legacy => self.legacy(obs),
            Step::Update => self.update(obs),
            Step::Valid => self.write_scripts(r, true),
            Step::Invalid => self.write_scripts(r, false),
        }
    }

    /// whether it is known which file is the original one of a cache next to the ordinary one
    fn vouched(&self) -> bool {
        let ts = self.cache.with_extension("redscripts.ts");
        self.layout != Layout::Custom || [ts.with_file_name("redscript.ts"), ts].iter().any(|p| fs::metadata(p).is_ok_and(|m| m.len() == 16))
    }

    /// What an earlier release left behind: the timestamp had another name.
    fn legacy(&mut self, obs: &mut Obs) -> R<()> {
        let default = self.r6.join("cache").join("final.redscripts");
        for cache in [&default, &self.cache] {
            let now = cache.with_extension("redscripts.ts");
            if now.exists() {
                io("rename", fs::rename(&now, now.with_file_name("redscript.ts")))?;
                obs.hit("earlier releases");
            }
        }
        self.log.push("timestamp of an earlier release".to_owned());
        Ok(())
    }

    pub fn random_step(&mut self, r: &mut Rng, obs: &mut Obs) -> R<()> {
        if r.chance(1, 8) {
            self.legacy(obs)?;
        }
        match r.below(12) {
            0..=4 => self.run(false, obs),
            5 | 6 => self.run(true, obs),
            7 => {
                if !self.vouched() {
                    // whether a cache that appears elsewhere or the backup of the ordinary one is the original is anyone's guess
                    self.fix_scripts(r)?;
                    self.run(r.bool(), obs)?;
                }
                self.update(obs)?;
                // scripts may be about the version before
                self.write_scripts(r, true)
            }
            8 => self.write_scripts(r, true),
            9 => self.write_scripts(r, false),
            _ => {
                let separate = r.chance(1, 3);
                let (k, part) = (1 + r.below(12), r.below(4));
                if self.crash(separate, k, part, obs)?.is_some() {
                    obs.hit("crashes");
                    self.kept()?;
                    if r.bool() {
                        // and again, before anything is repaired
                        self.crash(r.chance(1, 3), 1 + r.below(12), r.below(4), obs)?;
                        self.kept()?;
                    }
                    if r.chance(1, 3) && self.vouched() {
                        self.update(obs)?;
                        self.write_scripts(r, true)?;
                    }
                    self.fix_scripts(r)?;
                    self.run(r.chance(1, 3), obs)?;
                }
                Ok(())
            }
        }
    }

    /// one more round, which must work
    pub fn settle(&mut self, r: &mut Rng, obs: &mut Obs) -> R<()> {
        self.fix_scripts(r)?;
        self.run(r.bool(), obs)?;
        self.run(r.bool(), obs)?;
        obs.distinct(vmon::rng::hash_str(&self.log.join(";")));
        Ok(())
    }

    /// a run that ends at the k-th change of a file, or None if there are fewer
    pub fn crash(&mut self, separate: bool, k: usize, part: usize, obs: &mut Obs) -> R<Option<()>> {
        let (cache, out) = self.paths(separate);
        let (code, text) = self.spawn(cache, out, &[("VSCC_KILL", k.to_string()), ("VSCC_PART", part.to_string())], true)?;
        self.log.push(format!("{} run ended at {k}/{part}: {code}", if separate { "separate" } else { "same" }));
        if code == 99 {
            obs.hit("ended runs");
            return Ok(Some(()));
        }
        if code != 0 && code != 2 {
            return self.fail(format!("the run ended with {code}: {text}"));
        }
        if self.last_mode.is_some_and(|m| m != separate) {
            obs.hit("switches of mode");
        }
        self.last_mode = Some(separate);
        Ok(None)
    }

    /// a run in which the k-th change of a file fails (and all later ones that need space, if the disk is full), or None if there are fewer
    pub fn failing(&mut self, separate: bool, k: usize, full: bool, part: usize, obs: &mut Obs) -> R<Option<()>> {
        let expected = self.expected();
        let (cache, out) = self.paths(separate);
        let target = out.unwrap_or(&self.cache).to_path_buf();
        let logfile = self.scratch.0.join("events");
        fs::remove_file(&logfile).ok();
        let mut env = vec![("VSCC_FAIL", k.to_string()), ("VSCC_PART", part.to_string()), ("VSCC_LOG", logfile.display().to_string())];
        if full {
            env.push(("VSCC_FULL", "1".to_owned()));
        }
        let (code, text) = self.spawn(cache, out, &env, true)?;
        let events = fs::read_to_string(&logfile).unwrap_or_default();
        fs::remove_file(&logfile).ok();
        let mut lines = events.lines();
        let failed = lines.by_ref().take_while(|l| !l.starts_with("fail\t")).last().unwrap_or("").replace(&*self.scratch.0.to_string_lossy(), "");
        self.log.push(format!("{} run with {} from {k}/{part} ({failed}): {code}", if separate { "separate" } else { "same" }, if full { "a full disk" } else { "an i/o error" }));
        if !events.contains("fail\t") {
            return Ok(None);
        }
        match code {
            0 => {
                // the failure did not matter
                let e = expected.or_else(|e| self.fail(format!("a run that has to be refused succeeds ({e})")))?;
                if fs::read(&target).ok().as_ref() != Some(&e) {
                    return self.fail("a run in which a write failed claims success, but the output is not the scripts compiled into the game's cache".to_owned());
                }
                obs.hit("failures that did not matter");
            }
            2 if !text.trim().is_empty() || self.cli => obs.hit("failures reported"),
            2 => return self.fail("a failed run says nothing".to_owned()),
            _ => return self.fail(format!("the run ended with {code}: {text}")),
        }
        if self.last_mode.is_some_and(|m| m != separate) {
            obs.hit("switches of mode");
        }
        self.last_mode = Some(separate);
        Ok(Some(()))
    }

    pub fn after_crash(&mut self, separate: bool, r: &mut Rng, obs: &mut Obs) -> R<()> {
        self.kept()?;
        self.fix_scripts(r)?;
        self.run(separate, obs)?;
        self.run(false, obs)?;
        obs.distinct(vmon::rng::hash_str(&self.log.join(";")));
        Ok(())
    }

    pub fn concurrent(&mut self, r: &mut Rng, obs: &mut Obs) -> R<()> {
        let expected = self.expected()?;
        let modes: Vec<bool> = {
            let n = 2 + r.below(3);
            match r.below(3) {
                0 => vec![true; n],
                1 => vec![false; n],
                _ => (0..n).map(|_| r.bool()).collect(),
            }
        };
        // the file that does not exist yet is set up by one of them
        if self.layout == Layout::Custom && !self.cache.exists() {
            self.run(false, obs)?;
        }
        let children: Vec<_> = modes
            .iter()
            .map(|s| {
                let (cache, out) = self.paths(*s);
                io("spawn", self.command(cache, out).env("VSCC_DELAY", r.u32().to_string()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn())
            })
            .collect::<R<_>>()?;
        self.log.push(format!("at the same time: {modes:?}"));
        for c in children {
            let o = io("wait", c.wait_with_output())?;
            if o.status.code() != Some(0) {
                return self.fail(format!("one of several concurrent runs ended with {:?}: {}{}", o.status, String::from_utf8_lossy(&o.stdout), String::from_utf8_lossy(&o.stderr)));
            }
            obs.hit("concurrent runs");
        }
        if modes.contains(&true) && fs::read(&self.out).ok().as_ref() != Some(&expected) {
            return self.fail("the separate output of concurrent runs is wrong".to_owned());
        }
        let cache = fs::read(&self.cache).unwrap_or_default();
        if cache != expected && (!modes.contains(&true) || cache != self.pristine) {
            return self.fail("the cache after concurrent runs is wrong".to_owned());
        }
        self.kept()
    }

    pub fn snapshot(&self) -> R<Snapshot> {
        let (mut files, mut dirs) = (vec![], vec![]);
        walk(&self.scratch.0, &mut files, &mut dirs)?;
        let files = files.into_iter().map(|p| Ok((p.clone(), io("read", fs::read(&p))?, io("time", fs::metadata(&p).and_then(|m| m.modified()))?))).collect::<R<_>>()?;
        Ok(Snapshot { files, dirs, version: self.version, pristine: self.pristine.clone(), valid: self.valid, last_mode: self.last_mode, log: self.log.len() })
    }

    pub fn restore(&mut self, s: &Snapshot) -> R<()> {
        io("clear", fs::remove_dir_all(&self.scratch.0))?;
        io("mkdir", fs::create_dir_all(&self.scratch.0))?;
        for d in &s.dirs {
            io("mkdir", fs::create_dir_all(d))?;
        }
        for (p, data, time) in &s.files {
            put(p, data, *time)?;
        }
        (self.version, self.valid, self.last_mode) = (s.version, s.valid, s.last_mode);
        self.pristine = s.pristine.clone();
        self.log.truncate(s.log);
        Ok(())
    }
}

/// a run ends while it writes its output, and before the next one the game is updated
pub fn update_after_crash(r: &mut Rng, obs: &mut Obs) -> R<()> {
    let mut w = World::with_layout(r, Layout::Default)?;
    w.run(false, obs)?;
    for k in 1.. {
        let snap = w.snapshot()?;
        if w.crash(false, k, r.below(4), obs)?.is_none() {
            break;
        }
        w.update(obs)?;
        w.write_scripts(r, true)?;
        let old = w.log.len();
        w.run(r.chance(1, 3), obs)?;
        w.run(false, obs)?;
        obs.hit("updates after a crash");
        w.log.truncate(old);
        w.restore(&snap)?;
    }
    Ok(())
}

/// Somebody removed or replaced what the compiler keeps: it may refuse to go on, but not take something else for the
/// game's cache.
pub fn damaged(r: &mut Rng, obs: &mut Obs) -> R<()> {
    let mut w = World::new(r)?;
    for _ in 0..1 + r.below(2) {
        w.fix_scripts(r)?;
        w.run(r.chance(1, 3), obs)?;
    }
    let default = w.r6.join("cache").join("final.redscripts");
    let both = [default.with_extension("redscripts.bk"), w.backup()];
    let kind = r.below(4);
    match kind {
        0 => {}
        1 | 2 => both.iter().for_each(|p| drop(fs::remove_file(p))),
        _ => {
            // with what has been compiled before
            let out = [&w.cache, &w.out].into_iter().find_map(|p| fs::read(p).ok().filter(|b| b.windows(10).any(|x| x == b"$REDSCRIPT")));
            for p in both.iter().filter(|p| p.exists()) {
                if let Some(b) = &out {
                    io("replace", fs::write(p, b))?;
                }
            }
        }
    }
    if kind == 0 || kind == 2 || r.chance(1, 3) {
        for c in [&default, &w.cache] {
            fs::remove_file(c.with_extension("redscripts.ts")).ok();
        }
    }
    w.log.push(format!("damage {kind}"));
    for _ in 0..2 {
        if r.bool() {
            w.write_scripts(r, true)?;
        }
        let expected = w.expected()?;
        let separate = r.bool();
        let (cache, out) = w.paths(separate);
        let target = out.unwrap_or(&w.cache).to_path_buf();
        let before = fs::read(&target).ok();
        let (code, text) = w.spawn(cache, out, &[], false)?;
        w.log.push(format!("{} run: {code}", if separate { "separate" } else { "same" }));
        let after = fs::read(&target).ok();
        if code == 0 {
            obs.hit("damage that did not matter");
            if after.as_ref() != Some(&expected) {
                return w.fail(format!("the output is not the scripts compiled into the game's cache ({} bytes instead of {})", after.map_or(0, |a| a.len()), expected.len()));
            }
        } else {
            obs.hit("damage refused");
            if after != before && separate {
                return w.fail(format!("a refused run changes the output: {text}"));
            }
        }
    }
    Ok(())
}

/// the output that comes with the repository
pub fn reference(separate: bool, r: &mut Rng, obs: &mut Obs) -> R<()> {
    let mut w = World::with_layout(r, Layout::Alone)?;
    w.pristine = predef();
    put(&w.cache, &w.pristine, w.time())?;
    for d in w.dirs() {
        io("clear", fs::remove_dir_all(&d))?;
        io("mkdir", fs::create_dir_all(&d))?;
    }
    io("script", fs::write(w.r6.join("scripts/test.reds"), "class TestClass {}"))?;
    w.run(separate, obs)?;
    let got = fs::read(if separate { &w.out } else { &w.cache }).unwrap_or_default();
    if got != fs::read("/repo/resources/predef.redscripts.cmp").unwrap_or_default() {
        return w.fail("the output is not resources/predef.redscripts.cmp".to_owned());
    }
    Ok(())
}
