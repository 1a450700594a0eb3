//! What the library interface says about an output or an error, against what the scripts declare.
use std::collections::{BTreeMap, BTreeSet};
use std::ffi::{c_void, CStr, CString};
use std::fs;
use std::path::PathBuf;

use scc_lib::api::*;
use vmon::report::*;
use vmon::rng::Rng;

use crate::world::{game, Scratch, R};

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
struct Ref {
    kind: u8,
    name: String,
    parent: String,
    native: bool,
    file: usize,
    line: usize,
}

struct Source<'a> {
    r: &'a mut Rng,
    text: String,
    line: usize,
    file: usize,
    module: String,
    next: &'a mut usize,
    refs: &'a mut Vec<Ref>,
    added: &'a mut BTreeSet<&'static str>,
}

impl Source<'_> {
    fn put(&mut self, s: &str) {
        self.text.push_str(s);
        self.line += s.matches('\n').count();
    }
    fn gap(&mut self) {
        if self.r.chance(1, 300) {
            let s = "\n".repeat(self.r.range(1000, 70_000));
            self.put(&s);
        }
        for _ in 0..self.r.below(3) {
            let s = *self.r.pick(&["\n", "// a comment: func Nothing()\n", "/* several\n   lines */\n", "\n\n", "// \u{17c}\u{f3}\u{142}w \u{1f980}\n", "\r\n", "  \n"]);
            self.put(s);
        }
    }
    fn id(&mut self, s: &str) -> String {
        *self.next += 1;
        format!("{s}{}", self.next)
    }
    fn qual(&self, n: &str) -> String {
        if self.module.is_empty() {
            n.to_owned()
        } else {
            format!("{}.{n}", self.module)
        }
    }
    fn note(&mut self, kind: u8, name: String, parent: &str, native: bool) {
        let r = Ref { kind, name, parent: parent.to_owned(), native, file: self.file, line: self.line };
        self.refs.push(r);
    }
    fn method(&mut self, owner: &str, native_class: bool) {
        let n = self.id("Met");
        let native = native_class && self.r.bool();
        self.put("  ");
        self.note(3, n.clone(), owner, native);
        if native {
            self.put(&format!("public native func {n}(a: Int32)\n"));
        } else {
            let t = *self.r.pick(&["public final func NAME() -> Int32 { return 1; }\n", "public func NAME(x: String) -> Void {\n\n  }\n", "public static func NAME() -> Bool = true\n", "private final func NAME(opt a: array<Int32>) -> String {\n    return \"\u{17c} \\\" func\";\n  }\n"]);
            self.put(&t.replace("NAME", &n));
        }
    }
    fn class(&mut self) {
        let n = self.id("Cls");
        let q = self.qual(&n);
        let native = self.r.chance(1, 4);
        let quals = *self.r.pick(&["public ", "public ", "", "public abstract ", "public final ", "private ", "importonly "]);
        let base = *self.r.pick(&["", "", " extends GameVersion1"]);
        let structure = self.r.chance(1, 6);
        let quals = if structure && quals.len() > 7 { "public " } else { quals };
        self.note(1, q.clone(), "", native || quals == "importonly ");
        self.put(&format!("{quals}{}{} {n}{} {{", if native { "native " } else { "" }, if structure { "struct" } else { "class" }, if structure { "" } else { base }));
        let s = *self.r.pick(&["\n", " "]);
        self.put(s);
        for _ in 0..self.r.below(4) {
            self.gap();
            if !structure && self.r.bool() {
                self.method(&q, native);
            } else {
                let f = self.id("fld");
                let nf = native && self.r.bool();
                self.note(2, f.clone(), &q, nf);
                let t = *self.r.pick(&["Int32", "String", "array<Float>", "ref<GameVersion1>", "Bool"]);
                let note = *self.r.pick(&["", "", "@runtimeProperty(\"a\", \"b\") "]);
                let quals = *self.r.pick(&["public ", "protected ", "private ", "public persistent ", "public const ", "public quest ", ""]);
                let t = if quals.contains("persistent") { "Int32" } else { t };
                self.put(&format!("{note}{quals}{}let {f}: {t};\n", if nf { "native " } else { "" }));
            }
        }
        self.put("}");
        let s = *self.r.pick(&["\n", " ", "\n\n", "\r\n"]);
        self.put(s);
    }
    fn item(&mut self) {
        self.gap();
        match self.r.below(9) {
            0..=2 => self.class(),
            3 => {
                let n = self.id("Enm");
                let q = self.qual(&n);
                self.note(4, q, "", false);
                self.put(&format!("enum {n} {{ First = 0,\n Second = 1, }}\n"));
            }
            4 | 5 => {
                let n = self.id("Fun");
                let q = self.qual(&n);
                let native = self.r.chance(1, 4);
                self.note(3, q, "", native);
                if native {
                    self.put(&format!("public static native func {n}(a: Int32) -> Int32"));
                } else {
                    self.put(&format!("public func {n}(a: Int32) -> Int32 {{\n return a; }} "));
                }
                self.put("\n");
            }
            6 => {
                let n = self.id("Add");
                self.note(3, n.clone(), "GameVersion1", false);
                self.put(&format!("@addMethod(GameVersion1) public final func {n}() -> Int32 {{ return 1; }}\n"));
            }
            7 => {
                let n = self.id("xtr");
                self.note(2, n.clone(), "GameVersion1", false);
                self.put(&format!("@addField(GameVersion1) public let {n}: String;\n"));
            }
            _ => {
                if self.added.insert("replaced") {
                    self.note(3, "Age".to_owned(), "GameVersion1", false);
                    self.put("@replaceMethod(GameVersion1) public final func Age() -> Int32 { return 77; }\n");
                }
            }
        }
    }
}

fn c(s: &str) -> CString {
    CString::new(s).unwrap()
}

#[repr(C)]
struct Text {
    ptr: *const u8,
    len: usize,
}

impl Text {
    fn get(&self) -> R<String> {
        if self.ptr.is_null() {
            return if self.len == 0 { Ok(String::new()) } else { Err(format!("a null string of {} bytes", self.len)) };
        }
        let b = unsafe { std::slice::from_raw_parts(self.ptr, self.len) };
        std::str::from_utf8(b).map(str::to_owned).map_err(|e| e.to_string())
    }
}

/// an opaque result of the library
type Res = *mut c_void;
type Report = extern "C" fn(ctx: *mut c_void, kind: u32, native: bool, name: Text, parent: Text, path: Text, line: usize);

extern "C" {
    fn client_compile(r6: *const i8, cache: *const i8, out: *const i8, scripts: *const i8) -> Res;
    fn client_report(r: Res, ctx: *mut c_void, report: Report) -> bool;
    fn client_error(r: Res, buffer: *mut u8, size: usize) -> usize;
    fn client_free(r: Res);
}

/// what the library exports
#[no_mangle]
extern "C" fn GetProcAddress(_: *mut c_void, name: *const i8) -> *const c_void {
    macro_rules! table {
        ($n:expr, $($f:ident),*) => { match $n { $(stringify!($f) => $f as *const c_void,)* n => panic!("the header asks for {n}") } };
    }
    let name = unsafe { CStr::from_ptr(name) }.to_str().unwrap_or("");
    table!(name, scc_settings_new, scc_settings_set_custom_cache_file, scc_settings_set_output_cache_file, scc_settings_add_script_path,
        scc_compile, scc_free_result, scc_get_success, scc_copy_error, scc_output_get_source_ref, scc_output_source_ref_count, scc_source_ref_type,
        scc_source_ref_is_native, scc_source_ref_name, scc_source_ref_parent_name, scc_source_ref_path, scc_source_ref_line)
}

#[derive(Default)]
struct Seen {
    refs: Vec<(u32, bool, R<String>, R<String>, R<String>, usize)>,
}

extern "C" fn report(ctx: *mut c_void, kind: u32, native: bool, name: Text, parent: Text, path: Text, line: usize) {
    let seen = unsafe { &mut *ctx.cast::<Seen>() };
    seen.refs.push((kind, native, name.get(), parent.get(), path.get(), line));
}

/// a result as the C client has it
struct Outcome(Res);

impl Outcome {
    fn report(&self) -> Option<Seen> {
        let mut seen = Seen::default();
        unsafe { client_report(self.0, (&mut seen as *mut Seen).cast(), report) }.then_some(seen)
    }
}

impl Drop for Outcome {
    fn drop(&mut self) {
        unsafe { client_free(self.0) }
    }
}

struct Install {
    _scratch: Scratch,
    r6: PathBuf,
    mods: PathBuf,
}

fn install() -> R<Install> {
    let s = Scratch::new()?;
    let r6 = s.0.join("r6");
    let mods = s.0.join("more mods");
    for d in ["scripts", "cache", "config/redsUserHints"] {
        fs::create_dir_all(r6.join(d)).map_err(|e| e.to_string())?;
    }
    fs::create_dir_all(&mods).map_err(|e| e.to_string())?;
    fs::write(r6.join("cache/final.redscripts"), game(1)?).map_err(|e| e.to_string())?;
    Ok(Install { _scratch: s, r6, mods })
}

/// compiles with some choice of settings; the second value is where the output is
fn start(w: &Install, r: &mut Rng) -> (Outcome, PathBuf) {
    let default = w.r6.join("cache/final.redscripts");
    let named = r.bool();
    let out = r.bool().then(|| w.mods.join("out put.redscripts"));
    let p = |p: Option<&PathBuf>| c(p.map_or("", |p| p.to_str().unwrap()));
    let res = unsafe {
        client_compile(c(w.r6.to_str().unwrap()).as_ptr(), p(named.then_some(&default)).as_ptr(), p(out.as_ref()).as_ptr(), c(w.mods.to_str().unwrap()).as_ptr())
    };
    (Outcome(res), out.unwrap_or(default))
}

/// every size of buffer: the text or its beginning, ended with a zero, and nothing beyond the buffer
fn copies(res: &Outcome, success: bool, r: &mut Rng) -> R<String> {
    let mut full = vec![0u8; 1 << 16];
    let n = unsafe { client_error(res.0, full.as_mut_ptr(), full.len()) };
    let whole = full[..n].to_vec();
    for size in (0..20).chain([n.saturating_sub(1), n, n + 1, n + 2, r.below(n + 10)]) {
        let mut buf = vec![0xa5u8; size + 64];
        let k = unsafe { client_error(res.0, buf.as_mut_ptr(), size) };
        if buf[size..].iter().any(|b| *b != 0xa5) {
            return Err(format!("copying an error of {n} bytes into {size} bytes writes beyond them"));
        }
        if success {
            continue;
        }
        if k != n.min(size.saturating_sub(1)) || buf[..k] != whole[..k] || (size > 0 && buf[k] != 0) {
            return Err(format!("copying an error of {n} bytes into {size} bytes gives {k} bytes"));
        }
    }
    String::from_utf8(whole).map_err(|e| e.to_string())
}

fn references(r: &mut Rng, obs: &mut Obs) -> R<()> {
    let w = install()?;
    let (mut refs, mut next, mut added) = (vec![], 0, BTreeSet::new());
    let (mut paths, mut shown) = (vec![], String::new());
    for file in 0..r.below(5) {
        let mut s = Source { r: &mut *r, text: String::new(), line: 0, file, module: String::new(), next: &mut next, refs: &mut refs, added: &mut added };
        s.gap();
        if s.r.chance(1, 3) {
            s.module = (*s.r.pick(&["Mod", "Mod.Deep", "Other"])).to_owned();
            let m = format!("module {}\n", s.module);
            s.put(&m);
        }
        for _ in 0..s.r.below(6) {
            s.item();
        }
        if s.r.bool() {
            s.gap();
        }
        let text = s.text;
        let dir = match r.below(4) {
            0 => w.mods.clone(),
            1 => w.r6.join("scripts/some mod/\u{17c}"),
            _ => w.r6.join("scripts"),
        };
        fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
        let p = dir.join(format!("f{file}.reds"));
        fs::write(&p, &text).map_err(|e| e.to_string())?;
        shown.push_str(&format!("----- {}\n{text}\n", p.display()));
        obs.describe(shown.clone());
        paths.push(p.display().to_string());
    }
    let (res, place) = start(&w, r);
    let seen = res.report();
    let err = copies(&res, seen.is_some(), r)?;
    let Some(seen) = seen else {
        return Err(format!("a valid program is rejected: {err}"));
    };
    if !err.is_empty() {
        return Err(format!("a successful result has an error: {err}"));
    }
    if !fs::read(&place).map_or(false, |b| b.windows(10).any(|w| w == b"$REDSCRIPT")) {
        return Err(format!("there is no output in {}", place.display()));
    }
    let mut got = vec![];
    for (kind, native, name, parent, path, line) in seen.refs {
        let (name, path) = (name?, path?);
        got.push(Ref {
            kind: kind as u8,
            name: if kind == 3 { name.split(';').next().unwrap_or("").to_owned() } else { name },
            parent: parent?,
            native,
            file: paths.iter().position(|p| *p == path).ok_or_else(|| format!("a reference to the file {path:?}"))?,
            line,
        });
        obs.hit("references");
        obs.seen("kinds", u64::from(kind));
    }
    got.sort();
    refs.sort();
    obs.distinct(vmon::rng::hash_str(&format!("{refs:?}")));
    if got != refs {
        let missing: Vec<_> = refs.iter().filter(|x| !got.contains(x)).take(5).collect();
        let extra: Vec<_> = got.iter().filter(|x| !refs.contains(x)).take(5).collect();
        return Err(format!("the references are not what the scripts declare: missing {missing:?}, instead {extra:?}"));
    }
    Ok(())
}

/// an error of a known kind: its code, its text, the first characters of what it points at, and whether it stops everything else
const BAD: [(&str, &str, &str); 6] = [
    ("UNRESOLVED_REF", "func NAME() -> Int32 { return nowhere; }", "nowhere"),
    ("UNRESOLVED_TYPE", "func NAME(a: NoSuchType) -> Void {}", ""),
    ("TYPE_ERR", "func NAME() -> Int32 { return \"text\"; }", "\"text\""),
    ("UNRESOLVED_FN", "func NAME() -> Int32 { return NoSuchFunction(1); }", "NoSuchFunction"),
    ("UNRESOLVED_MEMBER", "func NAME(a: ref<GameVersion1>) -> Int32 { return a.noSuchField; }", "a.noSuchField"),
    ("ARG_COUNT_MISMATCH", "", ""),
];

fn errors(r: &mut Rng, obs: &mut Obs) -> R<()> {
    let w = install()?;
    let mut culprits: BTreeSet<String> = BTreeSet::new();
    // code, file relative to the scripts, what it points at, its line
    let mut found: Vec<(&str, Option<String>, &str, String)> = vec![];
    let (mut id, mut shown) = (0, String::new());
    // text that cannot be read stops everything else
    let syntax = r.chance(1, 8);
    let many = if r.chance(1, 10) { 60 } else { 4 };
    let nfiles = 1 + r.below(5);
    let unreadable = r.below(nfiles);
    for file in 0..nfiles {
        let (dir, owner, rel) = match r.below(4) {
            0 => (w.r6.join("scripts"), format!("f{file}.reds"), Some(format!("f{file}.reds"))),
            1 => (w.mods.clone(), format!("f{file}.reds"), None),
            2 => (w.r6.join("scripts/mod A/inner"), "mod A".to_owned(), Some(format!("mod A/inner/f{file}.reds"))),
            _ => (w.r6.join("scripts/mod \u{17c}"), "mod \u{17c}".to_owned(), Some(format!("mod \u{17c}/f{file}.reds"))),
        };
        let mut text = String::new();
        for _ in 0..r.below(many) {
            id += 1;
            if r.chance(1, 4) && !syntax {
                let (code, t, at) = *r.pick(&BAD[..5]);
                let line = t.replace("NAME", &format!("Bad{id}"));
                text.push_str(&format!("{line}\n"));
                culprits.insert(owner.clone());
                found.push((code, rel.clone(), at, line));
            } else {
                text.push_str(&format!("// \u{142}\nfunc Good{id}() -> Int32 {{ return {id}; }}\n"));
            }
        }
        if syntax && file == unreadable {
            let line = format!("func Bad{id}( {{ }}");
            text.push_str(&format!("{line}\n"));
            culprits.insert(owner.clone());
            // what hints call this is not settled: no hint is about it
            found.push(("", rel.clone(), "", line));
        }
        fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
        fs::write(dir.join(format!("f{file}.reds")), &text).map_err(|e| e.to_string())?;
        shown.push_str(&format!("----- {owner}: f{file}\n{text}\n"));
        obs.describe(shown.clone());
    }
    // hints: what each of them says and whether it applies
    let mut applied = BTreeSet::new();
    let mut all = BTreeMap::new();
    let mut groups: BTreeMap<&str, Vec<String>> = BTreeMap::new();
    let mut first: BTreeMap<usize, String> = BTreeMap::new();
    for n in 0..r.below(5) {
        let (code, _, at) = *r.pick(&BAD);
        let about = found.get(r.below(found.len().max(1))).cloned();
        let file = match (&about, r.below(3)) {
            (Some((_, Some(f), _, _)), 0) => Some(f.clone()),
            (_, 1) => Some((*r.pick(&["mod A/absent.reds", "mod A", "mod A/inner", "f0.reds", ""])).to_owned()),
            _ => None,
        };
        let span = r.bool().then(|| if at.len() > 2 && r.bool() { at[..at.len() - 1].to_owned() } else if at.len() > 2 && r.bool() { at[1..].to_owned() } else { "somethingElse".to_owned() });
        let line = r.bool().then(|| about.as_ref().filter(|_| r.bool()).map_or("no such line".to_owned(), |a| a.3[5..8.min(a.3.len())].to_owned()));
        let message = format!("advice number {n}");
        let mut t = format!("[[{code}]]\nid = \"H{n}\"\nmessage = \"{message}\"\n");
        for (k, v) in [("file", &file), ("span_starts_with", &span), ("line_contains", &line)] {
            if let Some(v) = v {
                t.push_str(&format!("{k} = {v:?}\n"));
            }
        }
        groups.entry(code).or_default().push(t.clone());
        all.insert(n, (code, file.clone(), span.clone(), line.clone(), message.clone()));
    }
    // the hints about one kind of error are in one file, so that they are considered in the order in which they are written
    let mut hints = BTreeMap::new();
    let nhints = 1 + r.below(3);
    for (k, g) in groups.values().enumerate() {
        hints.entry(k % nhints).or_insert_with(String::new).push_str(&g.concat());
    }
    // more about the same errors, which does not apply, elsewhere
    if r.bool() && !groups.is_empty() {
        let more: String = groups.keys().map(|code| format!("[[{code}]]\nid = \"X\"\nmessage = \"no advice\"\nspan_starts_with = \"somethingElse\"\n")).collect();
        hints.insert(7, more);
    }
    // without any hints when some of them cannot be read
    let garbled = !hints.is_empty() && r.chance(1, 10);
    if garbled {
        hints.insert(9, "[[TYPE_ERR]\nid = ".to_owned());
    }
    for (k, toml) in &hints {
        fs::write(w.r6.join(format!("config/redsUserHints/hints {k}.toml")), toml).map_err(|e| e.to_string())?;
        fs::write(w.r6.join(format!("config/redsUserHints/notes{k}{}", r.pick(&[".txt", ".toml.bak", "toml", ""]))), "not a hint").map_err(|e| e.to_string())?;
        shown.push_str(toml);
        obs.describe(shown.clone());
    }
    for (k, (code, rel, at, text)) in found.iter().enumerate() {
        for (n, (hc, file, span, line, message)) in &all {
            let here = hc == code && file.as_ref().map_or(true, |f| Some(f) == rel.as_ref());
            let hit = span.as_ref().map_or(false, |s| !at.is_empty() && at.starts_with(s.as_str())) || line.as_ref().map_or(false, |l| text.contains(l.as_str()));
            if here && hit && !garbled && !first.contains_key(&k) {
                first.insert(k, message.clone());
                applied.insert(message.clone());
                let _ = n;
            }
        }
    }
    let (res, _) = start(&w, r);
    let success = res.report().is_some();
    let err = copies(&res, success, r)?;
    if found.is_empty() {
        if !success {
            return Err(format!("a valid program is rejected: {err}"));
        }
        obs.hit("accepted");
        return Ok(());
    }
    if success {
        return Err("an invalid program is accepted".to_owned());
    }
    obs.hit("refused");
    obs.distinct(vmon::rng::hash_str(&err));
    let listed: Vec<&str> = err.lines().filter_map(|l| l.strip_prefix("- ")).collect();
    let mut want: Vec<String> = culprits.iter().cloned().collect();
    want.extend(applied.iter().cloned());
    let mut got: Vec<String> = listed.iter().map(|s| (*s).to_owned()).collect();
    got.sort();
    want.sort();
    if got != want {
        return Err(format!("the error names {got:?}, but the causes and hints are {want:?}\n{err}"));
    }
    obs.add("causes", culprits.len() as u64);
    obs.add("hints", applied.len() as u64);
    Ok(())
}

pub fn run(c: &mut Check) {
    let n = c.n(1500, 20000);
    c.run("references", n, |_, r, obs| references(r, obs));
    c.run("errors", n, |_, r, obs| errors(r, obs));
    c.require("references", 1000);
    c.require("refused", 200);
    c.require("hints", 30);
    c.require("causes", 200);
    c.require_all("kinds", 1..5);
}
