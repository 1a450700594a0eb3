//! Declarations of every kind, and what each has to become in the bundle.
use std::collections::BTreeMap;
use std::fmt::Write as _;

use vmon::rng::Rng;
use vmon::spec::*;

use crate::wf::type_text;

pub const CLASS_FLAGS: u16 = !(cf::HAS_FUNCTIONS | cf::HAS_FIELDS | cf::HAS_OVERRIDES);
pub const FUN_FLAGS: u32 = !(ff::OPERATOR | ff::RET | ff::BASE | ff::PARAMS | ff::LOCALS | ff::BODY);
pub const FIELD_FLAGS: u16 = !(fdf::HAS_HINT | fdf::HAS_DEFAULT);

#[derive(Clone, Debug)]
pub struct Ty {
    /// as written
    pub src: String,
    /// as stored
    pub repr: String,
    /// as part of a function name
    pub mangled: String,
}

#[derive(Clone, Debug)]
pub struct FieldW {
    pub name: String,
    pub ty: String,
    pub flags: u16,
    pub vis: Option<u8>,
    pub attrs: Vec<(String, String)>,
    pub default: Option<String>,
    pub at: (usize, usize),
    dropped: bool,
}

#[derive(Clone, Debug)]
pub struct FunW {
    pub name: String,
    pub vis: Option<u8>,
    pub flags: u32,
    pub ret: Option<String>,
    pub params: Vec<(String, String, u8)>,
    pub locals: Vec<(String, String)>,
    pub body: bool,
    pub at: (usize, usize),
    /// its condition is false
    dropped: bool,
    /// the class whose method of the same name it overrides
    pub base: Option<String>,
    /// replaced or wrapped: the variables and the place of the declaration are another one's
    pub loose: bool,
    src: FunSrc,
}

/// what it takes to write the function again
#[derive(Clone, Debug, Default)]
struct FunSrc {
    name: String,
    quals: Vec<&'static str>,
    params: Vec<(String, Ty, u8)>,
    ret: Option<Ty>,
}

#[derive(Clone, Debug)]
pub struct ClassW {
    pub path: String,
    pub vis: u8,
    pub flags: u16,
    pub base: Option<String>,
    pub fields: Vec<FieldW>,
    pub funs: Vec<FunW>,
    /// functions wrappers bring along
    pub extra: usize,
    pub at: (usize, usize),
    stage: usize,
}

#[derive(Clone, Debug)]
pub struct EnumW {
    pub path: String,
    pub members: Vec<(String, i64)>,
    pub at: (usize, usize),
}

pub struct Decls<'a> {
    r: &'a mut Rng,
    pub classes: Vec<ClassW>,
    pub enums: Vec<EnumW>,
    /// functions outside of classes by full name
    pub funs: Vec<FunW>,
    pub files: Vec<(String, String)>,
    modules: Vec<String>,
    /// module, name, kind
    types: Vec<(String, String, char)>,
    n: usize,
    stage: usize,
    pub seen: BTreeMap<&'static str, u64>,
    texts: Vec<String>,
}

/// name under which a function is stored
fn mangle(src: &FunSrc) -> String {
    let op = src.name.starts_with("Operator");
    let cast = src.name == "Cast";
    let mut name = src.name.clone();
    if !op && !cast && src.quals.iter().any(|q| matches!(*q, "cb" | "exec" | "native")) {
        return name;
    }
    name.push(';');
    for p in &src.params {
        if op && p.2 == 2 {
            name.push_str("Out");
        }
        name.push_str(&p.1.mangled);
    }
    if op || cast {
        name.push(';');
        name.push_str(src.ret.as_ref().filter(|t| !t.mangled.is_empty()).map_or("Void", |t| &t.mangled));
    }
    name
}

fn path(module: &str, name: &str) -> String {
    if module.is_empty() { name.to_owned() } else { format!("{module}.{name}") }
}

const PRIMS: &[&str] = &[
    "Int32", "Bool", "Float", "String", "CName", "TweakDBID", "ResRef", "Int64", "Uint32", "Uint64", "Double", "Variant", "Int8", "Uint8", "Int16",
    "Uint16",
];

impl<'a> Decls<'a> {
    pub fn new(r: &'a mut Rng) -> Self {
        Decls { r, classes: vec![], enums: vec![], funs: vec![], files: vec![], modules: vec![], types: vec![], n: 0, stage: 0, seen: BTreeMap::new(), texts: vec![] }
    }
    fn hit(&mut self, k: &'static str) {
        *self.seen.entry(k).or_default() += 1;
    }
    fn id(&mut self, p: &str) -> String {
        self.n += 1;
        let tail = *self.r.pick(&["", "_", "x", "Of", "Z9", "", "_", "x", "Of", "AndSomeMoreOfIt", "_that_is_long_enough_for_everything_there_is_to_say_about_what_it_stands_for"]);
        format!("{p}{}{tail}", self.n)
    }
    fn ty(&mut self, f: usize, persistent: bool, depth: usize) -> Ty {
        let m = self.modules[f].clone();
        let known: Vec<(String, String, char)> = self.types.iter().filter(|t| t.0 == m || t.0.is_empty()).cloned().collect();
        if depth > 0 && self.r.chance(1, 4) {
            let t = self.ty(f, persistent, depth - 1);
            return Ty { src: format!("array<{}>", t.src), repr: format!("array:{}", t.repr), mangled: format!("array<{}>", t.mangled) };
        }
        if !known.is_empty() && self.r.chance(2, 5) {
            let (m, n, k) = self.r.pick(&known).clone();
            let p = path(&m, &n);
            return match k {
                'c' => {
                    let w = *self.r.pick(&["ref", "wref"]);
                    Ty { src: format!("{w}<{n}>"), repr: format!("{w}:{p}"), mangled: n }
                }
                _ => Ty { src: n.clone(), repr: p, mangled: n },
            };
        }
        let p = loop {
            let p = *self.r.pick(PRIMS);
            if !persistent || !["String", "Variant", "ResRef"].contains(&p) {
                break p;
            }
        };
        Ty { src: p.into(), repr: p.into(), mangled: p.into() }
    }
    fn line(&self, f: usize) -> (usize, usize) {
        (f, self.texts[f].matches('\n').count())
    }
    fn put(&mut self, f: usize, t: &str) {
        self.texts[f].push_str(t);
    }
    fn gap(&mut self, f: usize) {
        let g = *self.r.pick(&["\n", "\n", "\n\n", "\n// a comment\n", " ", "\n/* longer\n one */\n", "\r\n", "\n\t"]);
        self.put(f, g);
    }
    fn space(&mut self, f: usize) {
        let g = *self.r.pick(&[" ", " ", " ", " ", "  ", "\n", " /* c */ "]);
        self.put(f, g);
    }
    fn vis(&mut self) -> (u8, &'static str) {
        *self.r.pick(&[(0, "public"), (1, "protected"), (2, "private"), (2, ""), (0, "public")])
    }
    fn quals(&mut self, f: usize, mut q: Vec<&'static str>) {
        q.retain(|q| !q.is_empty());
        self.r.shuffle(&mut q);
        for q in q {
            self.put(f, q);
            self.space(f);
        }
    }
    /// a constant condition: its text, its value, how tightly it binds
    fn cte(&mut self, depth: usize) -> (String, bool, u8) {
        let wrap = |x: (String, bool, u8), p: u8| if x.2 < p { format!("({})", x.0) } else { x.0 };
        match self.r.below(if depth == 0 { 3 } else { 8 }) {
            0 => ("true".into(), true, 9),
            1 => ("false".into(), false, 9),
            2 => (format!("ModuleExists(\"{}\")", self.r.pick(&["Nope", "Nope.Alpha", "Alph", "Alpha.Su", ""])), false, 9),
            3 => {
                let x = self.cte(depth - 1);
                let v = x.1;
                (format!("!{}", wrap(x, 8)), !v, 8)
            }
            4 | 5 => {
                let (x, y) = (self.cte(depth - 1), self.cte(depth - 1));
                let v = x.1 && y.1;
                (format!("{} && {}", wrap(x, 4), wrap(y, 5)), v, 4)
            }
            6 => {
                let (x, y) = (self.cte(depth - 1), self.cte(depth - 1));
                let v = x.1 || y.1;
                (format!("{} || {}", wrap(x, 3), wrap(y, 4)), v, 3)
            }
            _ => {
                let (c, x, y) = (self.cte(depth - 1), self.cte(depth - 1), self.cte(depth - 1));
                let v = if c.1 { x.1 } else { y.1 };
                (format!("{} ? {} : {}", wrap(c, 9), wrap(x, 9), wrap(y, 9)), v, 1)
            }
        }
    }
    /// conditions, and whether the declaration stays
    fn cond(&mut self, f: usize, p: usize) -> bool {
        let mut v = true;
        while self.r.chance(1, p) {
            let (t, x, _) = self.cte(2);
            self.put(f, &format!("@if({t})"));
            self.space(f);
            v &= x;
            self.hit(if x { "conditions that hold" } else { "conditions that do not" });
        }
        v
    }
    fn field(&mut self, f: usize, native: bool, class: &str, added: Option<&str>) -> FieldW {
        self.gap(f);
        let at = self.line(f);
        let name = self.id("f");
        let (v, vq) = self.vis();
        let dropped = !self.cond(f, 10);
        let persistent = self.r.chance(1, 4);
        let native = native && self.r.bool();
        if let Some(c) = added {
            self.put(f, &format!("@addField({c})"));
            self.space(f);
        }
        let mut attrs = vec![];
        for _ in 0..self.r.pick(&[0usize, 0, 0, 1, 2, 3]).to_owned() {
            let k = (*self.r.pick(&["ModSettings.mod", "k", "", "with space", "quote\\\"d", "ünï"])).to_owned();
            let x = format!("{}", self.r.below(100));
            self.put(f, &format!("@runtimeProperty(\"{k}\", \"{x}\")"));
            self.space(f);
            attrs.push((k.replace("\\\"", "\""), x));
            self.hit("runtime properties");
        }
        let mut q = vec![vq];
        let mut flags = fdf::BROWSABLE;
        if persistent {
            q.push("persistent");
            flags |= fdf::PERSISTENT;
            self.hit("persistent fields");
        }
        if native {
            q.push("native");
            flags |= fdf::NATIVE;
            self.hit("native fields");
        }
        self.quals(f, q);
        let t = self.ty(f, persistent, 2);
        self.put(f, &format!("let {name}: {}", t.src));
        let mut default = None;
        if self.r.chance(1, 2) {
            let d: Option<(String, String)> = match t.repr.as_str() {
                "Int32" => Some(self.r.pick(&[("0", "0"), ("17", "17"), ("2147483647", "2147483647")]).to_owned()).map(|(a, b)| (a.into(), b.into())),
                "Bool" => Some(self.r.pick(&[("true", "true"), ("false", "false")]).to_owned()).map(|(a, b)| (a.into(), b.into())),
                "Float" => Some(self.r.pick(&[("1.0", "1"), ("2", "2"), ("0.1", "0.1"), ("3.1415927", "3.1415927"), ("16777217", "16777217"), ("0.000001", "0.000001")]).to_owned()).map(|(a, b)| (a.into(), b.into())),
                "Double" => Some(self.r.pick(&[("1.5d", "1.5"), ("0.1d", "0.1"), ("2", "2"), ("3.141592653589793d", "3.141592653589793")]).to_owned()).map(|(a, b)| (a.into(), b.into())),
                "Int64" => Some(self.r.pick(&[("5l", "5"), ("9223372036854775807l", "9223372036854775807"), ("4", "4")]).to_owned()).map(|(a, b)| (a.into(), b.into())),
                "Uint32" => Some(self.r.pick(&[("5u", "5"), ("4294967295u", "4294967295")]).to_owned()).map(|(a, b)| (a.into(), b.into())),
                "Uint64" => Some(self.r.pick(&[("5ul", "5"), ("18446744073709551615ul", "18446744073709551615"), ("4u", "4")]).to_owned()).map(|(a, b)| (a.into(), b.into())),
                "String" => Some(self.r.pick(&[("\"\"", ""), ("\"text\"", "text"), ("\"a\\\"b\\n\"", "a\"b\n"), ("\"ż\"", "ż")]).to_owned()).map(|(a, b)| (a.into(), b.into())),
                "CName" => Some(self.r.pick(&[("n\"name\"", "name"), ("n\"\"", "")]).to_owned()).map(|(a, b)| (a.into(), b.into())),
                "ResRef" => Some(("r\"base/x.ent\"".into(), "base/x.ent".into())),
                "TweakDBID" => Some(("t\"Items.x\"".into(), "Items.x".into())),
                x if x.starts_with("ref:") => Some(("null".into(), "null".into())),
                x => self
                    .enums
                    .iter()
                    .find(|e| e.path == x && !e.members.is_empty())
                    .cloned()
                    .map(|e| {
                        let m = self.r.pick(&e.members).0.clone();
                        let n = x.rsplit('.').next().unwrap();
                        self.hit("enum defaults");
                        (format!("{n}.{m}"), format!("{n}.{m}"))
                    }),
            };
            if let Some((a, b)) = d {
                self.space(f);
                self.put(f, &format!("= {a}"));
                default = Some(b);
                self.hit("defaults");
            }
        }
        self.put(f, ";");
        let _ = class;
        FieldW { name, ty: t.repr, flags, vis: added.map(|_| v), attrs, default, at, dropped }
    }
    /// `class`: (native, abstract, struct) of the class it is declared in
    fn fun(&mut self, f: usize, class: Option<(bool, bool, bool)>, added: Option<&str>, same: Option<&FunW>) -> FunW {
        self.gap(f);
        let at = self.line(f);
        let dropped = !self.cond(f, 10);
        if let Some(c) = added {
            self.put(f, c);
            self.space(f);
        }
        let (v, vq) = self.vis();
        let native_ok = class.map_or(true, |c| c.0) && same.is_none();
        let mut src = FunSrc::default();
        let mut flags = 0;
        if class.is_none() && added.map_or(true, |a| a.contains("Global")) {
            flags |= ff::STATIC;
        }
        match same {
            Some(s) => src = s.src.clone(),
            None => {
                src.name = self.id("F");
                if class.is_none() && added.is_none() && self.r.chance(1, 5) {
                    src.name = (*self.r.pick(&["OperatorAdd", "OperatorAssignAdd", "OperatorLogicOr", "OperatorXor", "OperatorEqual", "OperatorAssignOr", "Cast", "Cast"])).to_owned();
                }
                for (q, p) in [("final", 5), ("const", 8), ("quest", 8), ("cb", 6), ("exec", 8), ("static", 4), ("native", 3)] {
                    let ok = match q {
                        "native" => native_ok,
                        "static" => class.is_some(),
                        "cb" => class.is_some(),
                        _ => true,
                    };
                    if ok && (self.r.chance(1, p) || q == "static" && class.is_some_and(|c| c.2)) {
                        src.quals.push(q);
                    }
                }
                for _ in 0..*self.r.pick(&[0usize, 0, 1, 2, 3, 5]) {
                    let t = self.ty(f, false, 2);
                    let t = if self.r.chance(1, 8) { Ty { src: format!("script_ref<{}>", t.src), repr: format!("script_ref:{}", t.repr), mangled: format!("script_ref<{}>", t.mangled) } } else { t };
                    let fl = *self.r.pick(&[0u8, 0, 0, 1, 2, 8]);
                    let n = self.id("p");
                    src.params.push((n, t, fl));
                }
                if self.r.bool() {
                    src.ret = Some(self.ty(f, false, 2));
                } else if self.r.bool() {
                    src.ret = Some(Ty { src: "Void".into(), repr: String::new(), mangled: String::new() });
                }
            }
        }
        // the full name has to be a new one
        let special = src.name.starts_with("Operator") || src.name == "Cast";
        if special && same.is_none() {
            let n = path(&self.modules[f].clone(), &mangle(&src));
            if self.funs.iter().any(|f| f.name == n) {
                src.name = self.id("F");
            } else {
                self.hit("operators and casts");
            }
        }
        if src.name == "Cast" {
            flags |= ff::CAST;
        }
        for q in &src.quals {
            flags |= match *q {
                "final" => ff::FINAL,
                "const" => ff::CONST,
                "quest" => ff::QUEST,
                "cb" => ff::CALLBACK,
                "exec" => ff::EXEC,
                "static" => ff::STATIC,
                "native" => ff::NATIVE,
                _ => 0,
            };
        }
        let mut q = src.quals.clone();
        q.push(vq);
        self.quals(f, q);
        self.put(f, "func");
        self.space(f);
        self.put(f, &format!("{}(", src.name));
        for (i, (n, t, fl)) in src.params.clone().iter().enumerate() {
            if i > 0 {
                self.put(f, ",");
                self.space(f);
            }
            let q = ["", "opt ", "out ", "", "", "", "", "", "const "][usize::from(*fl)];
            self.put(f, &format!("{q}{n}: {}", t.src));
        }
        self.put(f, ")");
        if let Some(t) = &src.ret {
            self.put(f, &format!(" -> {}", t.src.clone()));
        }
        let mut locals = vec![];
        let native = flags & ff::NATIVE != 0 && same.is_none();
        let body = !native && !(same.is_none() && class.is_some_and(|c| c.1) && self.r.chance(1, 3));
        if body {
            self.put(f, " {");
            let mut open = 0;
            for _ in 0..*self.r.pick(&[0usize, 0, 1, 2, 4]) {
                if self.r.chance(1, 4) {
                    self.put(f, " if true {");
                    open += 1;
                }
                self.gap(f);
                let n = self.id("l");
                let t = self.ty(f, false, 2);
                self.put(f, &format!("let {n}: {};", t.src));
                locals.push((n, t.repr));
                if open > 0 && self.r.bool() {
                    self.put(f, " }");
                    open -= 1;
                }
            }
            for _ in 0..open {
                self.put(f, " }");
            }
            if let Some(t) = src.ret.clone().filter(|t| !t.repr.is_empty()) {
                let n = self.id("l");
                self.put(f, &format!(" let {n}: {}; return {n};", t.src));
                locals.push((n, t.repr));
            }
            self.put(f, " }");
        } else {
            self.put(f, ";");
        }
        for (b, k) in [
            (ff::FINAL, "final functions"), (ff::CONST, "const functions"), (ff::QUEST, "quest functions"), (ff::CALLBACK, "callbacks"),
            (ff::EXEC, "exec functions"), (ff::NATIVE, "native functions"), (ff::STATIC, "static functions"),
        ] {
            if flags & b != 0 {
                self.hit(k);
            }
        }
        let name = mangle(&src);
        FunW {
            name: if class.is_none() && added.is_none() { path(&self.modules[f].clone(), &name) } else { name },
            vis: if class.is_none() || added.is_some() { Some(v) } else { None },
            flags,
            ret: src.ret.as_ref().filter(|t| !t.repr.is_empty()).map(|t| t.repr.clone()),
            params: src.params.iter().map(|p| (p.0.clone(), p.1.repr.clone(), p.2)).collect(),
            locals,
            body,
            at,
            base: None,
            loose: false,
            dropped,
            src,
        }
    }
    fn class(&mut self, f: usize, mut name: String, is_struct: bool) {
        self.gap(f);
        let at = self.line(f);
        let mut stays = true;
        if self.r.chance(1, 8) {
            stays = self.cond(f, 2);
            if !stays && self.r.bool() {
                // the other one may have the same name
                self.class_rest(f, name.clone(), is_struct, at, false);
                self.gap(f);
                let at = self.line(f);
                return self.class_rest(f, name, is_struct, at, true);
            }
            if !stays {
                let other = self.id("D");
                self.class_rest(f, other, is_struct, at, false);
                self.gap(f);
                let at = self.line(f);
                return self.class_rest(f, name, is_struct, at, true);
            }
        }
        self.class_rest(f, std::mem::take(&mut name), is_struct, at, stays)
    }
    fn class_rest(&mut self, f: usize, name: String, is_struct: bool, at: (usize, usize), stays: bool) {
        let m = self.modules[f].clone();
        let (vis, vq) = self.vis();
        let mut q = vec![vq];
        let mut flags = 0;
        for (k, b, p) in [("abstract", cf::ABSTRACT, 4), ("final", cf::FINAL, 4), ("native", cf::NATIVE, 3), ("importonly", cf::IMPORT_ONLY | cf::NATIVE, 8)] {
            if self.r.chance(1, p) && !(is_struct && k == "abstract") {
                q.push(k);
                flags |= b;
                self.hit(k);
            }
        }
        self.quals(f, q);
        if is_struct {
            flags |= cf::STRUCT;
            self.hit("structs");
        }
        let kw = if is_struct { "struct" } else { "class" };
        self.put(f, kw);
        self.space(f);
        self.put(f, &name);
        let mut base = Some("IScriptable".to_owned()).filter(|_| !is_struct);
        if !is_struct {
            // only classes further up, so that there are no circles
            let known: Vec<(String, String)> = self
                .classes
                .iter()
                .filter(|c| c.flags & cf::STRUCT == 0)
                .filter_map(|c| self.types.iter().find(|t| path(&t.0, &t.1) == c.path && (t.0 == m || t.0.is_empty())))
                .map(|t| (t.0.clone(), t.1.clone()))
                .collect();
            if !known.is_empty() && self.r.bool() {
                let (km, kn) = self.r.pick(&known).clone();
                self.put(f, &format!(" extends {kn}"));
                base = Some(path(&km, &kn));
                self.hit("derived classes");
            }
        }
        self.put(f, " {");
        let p = path(&m, &name);
        let c = (flags & cf::NATIVE != 0, flags & cf::ABSTRACT != 0, is_struct);
        let (mut fields, mut funs) = (vec![], vec![]);
        for _ in 0..self.r.below(6) {
            if self.r.bool() {
                let x = self.field(f, c.0, &p, None);
                fields.extend(Some(x).filter(|x| !x.dropped));
            } else {
                let x = self.fun(f, Some(c), None, None);
                funs.extend(Some(x).filter(|x| !x.dropped));
            }
        }
        self.gap(f);
        self.put(f, "}");
        if !stays {
            return;
        }
        self.classes.push(ClassW { path: p, vis, flags, base, fields, funs, extra: 0, at, stage: self.stage });
    }
    fn enum_(&mut self, f: usize, name: String) {
        self.gap(f);
        let at = self.line(f);
        if self.r.chance(1, 6) {
            self.put(f, "@if(true || ModuleExists(\"Nope\"))");
            self.space(f);
        }
        let (_, vq) = self.vis();
        self.quals(f, vec![vq]);
        self.put(f, &format!("enum {name} {{"));
        let mut members = vec![];
        let n = self.r.below(6);
        for k in 0..n {
            let m = self.id("M");
            let v = *self.r.pick(&[0i64, 1, 2, 7, 7, 255, 256, 2147483647, 2147483648, 9223372036854775807]);
            self.space(f);
            let l = if v > 2147483647 || self.r.chance(1, 6) { "l" } else { "" };
            let _ = write!(self.texts[f], "{m} = {v}{l}");
            if k + 1 < n || self.r.bool() {
                self.put(f, ",");
            }
            members.push((m, v));
        }
        self.put(f, " }");
        self.hit("enums");
        self.enums.push(EnumW { path: path(&self.modules[f].clone(), &name), members, at });
    }
    /// the files of another compilation; returns where they begin
    pub fn stage(&mut self) -> usize {
        let first = self.texts.len();
        let nf = self.r.range(1, 6);
        for k in 0..nf {
            let m = *self.r.pick(&["", "", "Alpha", "Alpha.Sub", "Beta"]);
            self.modules.push(m.to_owned());
            let mut t = String::new();
            if self.r.bool() {
                t.push_str("// first line\n");
            }
            if self.r.chance(1, 8) {
                // lines beyond what fits in a byte, and in two
                let n = *self.r.pick(&[200, 250, 300, 70_000]);
                t.push_str(&"\n".repeat(n));
                if n > 65_536 {
                    self.hit("long files");
                }
            }
            if !m.is_empty() {
                t.push_str(&format!("module {m}\n"));
            }
            self.texts.push(t);
            let dir = *self.r.pick(&["", "dir/", "a/b c/", "ż/"]);
            self.files.push((format!("{dir}stage{}_{k}.reds", self.stage), String::new()));
        }
        // names first: declarations may use what comes later
        let mut plan = vec![];
        for f in first..first + nf {
            let m = self.modules[f].clone();
            for _ in 0..self.r.range(1, 6) {
                let k = *self.r.pick(&['c', 'c', 'c', 's', 'e', 'f', 'f']);
                let n = self.id(match k {
                    'c' => "C",
                    's' => "S",
                    'e' => "E",
                    _ => "G",
                });
                if k != 'f' {
                    self.types.push((m.clone(), n.clone(), k));
                }
                plan.push((f, k, n));
            }
        }
        let edits = if self.stage > 0 { self.r.range(2, 8) } else { 0 };
        for _ in 0..edits {
            plan.push((first + self.r.below(nf), 'x', String::new()));
        }
        self.r.shuffle(&mut plan);
        for (f, k, n) in plan {
            match k {
                'c' => self.class(f, n, false),
                's' => self.class(f, n, true),
                'e' => self.enum_(f, n),
                'x' => self.edit(f),
                _ => {
                    let x = self.fun(f, None, None, None);
                    self.funs.extend(Some(x).filter(|x| !x.dropped));
                }
            }
        }
        for f in first..first + nf {
            self.gap(f);
            self.files[f].1 = self.texts[f].clone();
        }
        self.stage += 1;
        first
    }
    /// something added to, wrapped or replaced in what earlier compilations made
    fn edit(&mut self, f: usize) {
        let m = self.modules[f].clone();
        // annotations find what is visible without modules
        let cs: Vec<usize> = (0..self.classes.len()).filter(|c| self.classes[*c].stage < self.stage && !self.classes[*c].path.contains('.')).collect();
        if cs.is_empty() {
            return;
        }
        let c = *self.r.pick(&cs);
        let cn = self.classes[c].path.clone();
        let fl = self.classes[c].flags;
        let k3 = (fl & cf::NATIVE != 0, fl & cf::ABSTRACT != 0, fl & cf::STRUCT != 0);
        match self.r.below(6) {
            0 if fl & cf::STRUCT == 0 => {
                let x = self.field(f, k3.0, &cn, Some(&cn));
                self.classes[c].fields.extend(Some(x).filter(|x| !x.dropped));
                self.hit("added fields");
            }
            1 if fl & cf::STRUCT == 0 => {
                // a field there is already, in the class or one it derives from
                let mut up = Some(cn.clone());
                let mut names = vec![];
                while let Some(u) = up {
                    let Some(k) = self.classes.iter().find(|c| c.path == u) else { break };
                    names.extend(k.fields.iter().filter(|f| f.at.0 < self.first_of_stage()).map(|f| f.name.clone()));
                    up = k.base.clone();
                }
                if !names.is_empty() {
                    let n = self.r.pick(&names).clone();
                    self.put(f, &format!("\n@addField({cn}) let {n}: Int32;"));
                    self.hit("fields there are already");
                }
            }
            2 => {
                // maybe the same as a method of the class it derives from
                let base = self.classes[c].base.clone();
                let theirs: Vec<FunW> = base
                    .and_then(|b| self.classes.iter().find(|c| c.path == b && c.stage < self.stage).cloned())
                    .map(|b| b.funs.iter().filter(|x| x.at.0 < self.first_of_stage() && x.flags & ff::NATIVE == 0 && x.params.iter().all(|p| !p.1.contains('.')) && !x.ret.as_ref().is_some_and(|r| r.contains('.'))).cloned().collect())
                    .unwrap_or_default();
                let ann = format!("@addMethod({cn})");
                let mine: Vec<String> = self.classes[c].funs.iter().map(|f| f.name.clone()).collect();
                let theirs: Vec<FunW> = theirs.into_iter().filter(|t| !mine.contains(&t.name)).collect();
                let mut x = if !theirs.is_empty() && self.r.chance(2, 3) {
                    let t = self.r.pick(&theirs).clone();
                    let mut x = self.fun(f, Some(k3), Some(&ann), Some(&t));
                    if x.flags & ff::STATIC == 0 {
                        x.base = self.classes[c].base.clone();
                    }
                    self.hit("added overrides");
                    x
                } else {
                    self.fun(f, Some(k3), Some(&ann), None)
                };
                x.loose = false;
                self.classes[c].funs.extend(Some(x).filter(|x| !x.dropped));
                self.hit("added methods");
            }
            3 => {
                let gs: Vec<usize> = (0..self.funs.len()).filter(|g| !self.funs[*g].name.contains('.') && self.funs[*g].at.0 < self.first_of_stage() && self.plain(&self.funs[*g], &m)).collect();
                if gs.is_empty() {
                    return;
                }
                let g = *self.r.pick(&gs);
                let t = self.funs[g].clone();
                if t.loose {
                    return;
                }
                let mut x = self.fun(f, None, Some("@replaceGlobal()"), Some(&t));
                if x.dropped {
                    return;
                }
                x.flags &= !ff::NATIVE;
                x.loose = true;
                if t.flags & ff::NATIVE != 0 {
                    self.hit("replaced natives");
                }
                self.funs[g] = x;
                self.hit("replaced functions");
            }
            k => {
                let fs: Vec<usize> = (0..self.classes[c].funs.len())
                    .filter(|x| {
                        let w = &self.classes[c].funs[*x];
                        !w.loose && w.at.0 < self.first_of_stage() && self.plain(w, &m) && w.body && (k == 4 || w.flags & ff::NATIVE == 0)
                    })
                    .collect();
                if fs.is_empty() {
                    return;
                }
                let i = *self.r.pick(&fs);
                let t = self.classes[c].funs[i].clone();
                let what = if k == 4 { "replaceMethod" } else { "wrapMethod" };
                let mut x = self.fun(f, Some(k3), Some(&format!("@{what}({cn})")), Some(&t));
                if x.dropped {
                    return;
                }
                if k == 4 {
                    x.flags &= !ff::NATIVE;
                    x.base = t.base.clone();
                    x.loose = true;
                    self.classes[c].funs[i] = x;
                    self.hit("replaced methods");
                } else {
                    self.classes[c].funs[i].loose = true;
                    self.classes[c].extra += 2;
                    self.hit("wrapped methods");
                    if t.flags & ff::CALLBACK != 0 {
                        self.hit("wrapped callbacks");
                    }
                }
            }
        }
    }
    fn first_of_stage(&self) -> usize {
        self.files.iter().position(|f| f.0.contains(&format!("stage{}_", self.stage))).unwrap_or(usize::MAX)
    }
    /// can the function be written in the module without imports
    fn plain(&self, w: &FunW, m: &str) -> bool {
        let ok = |t: &str| {
            let n = t.rsplit(':').next().unwrap();
            match n.rsplit_once('.') {
                None => true,
                Some((x, _)) => x == m,
            }
        };
        w.params.iter().all(|p| ok(&p.1)) && w.ret.as_ref().map_or(true, |r| ok(r))
    }
}

type R<T> = Result<T, String>;

fn same<A: PartialEq + std::fmt::Debug>(what: &str, got: A, want: A) -> R<()> {
    if got == want { Ok(()) } else { Err(format!("{what} should be {want:?}, is {got:?}")) }
}

pub struct Reader<'a> {
    pub b: &'a SBundle,
    by_name: BTreeMap<String, Vec<u32>>,
    pub checked: u64,
    pub at: Vec<(u32, (usize, usize))>,
}

impl<'a> Reader<'a> {
    pub fn new(b: &'a SBundle) -> Self {
        let mut by_name: BTreeMap<String, Vec<u32>> = BTreeMap::new();
        for i in 1..b.defs.len() as u32 {
            if let Ok(n) = crate::wf::name(b, i) {
                by_name.entry(n.to_owned()).or_default().push(i);
            }
        }
        Reader { b, by_name, checked: 0, at: vec![] }
    }
    fn def(&self, i: u32) -> &'a SDef {
        &self.b.defs[i as usize]
    }
    fn one(&self, name: &str, f: impl Fn(&SVal) -> bool) -> R<u32> {
        let v: Vec<u32> = self.by_name.get(name).into_iter().flatten().copied().filter(|i| f(&self.def(*i).val)).collect();
        match v[..] {
            [i] => Ok(i),
            _ => Err(format!("there are {} definitions of {name}", v.len())),
        }
    }
    fn name(&self, i: u32) -> R<&'a str> {
        crate::wf::name(self.b, i)
    }
    fn field(&mut self, i: u32, w: &FieldW, class: u32, cname: &str) -> R<()> {
        let p = format!("field {cname}.{}", w.name);
        let SVal::Field(f) = &self.def(i).val else { return Err(format!("{p} is not a field")) };
        same(&format!("the name of {p}"), self.name(i)?, w.name.as_str())?;
        same(&format!("the owner of {p}"), self.def(i).parent, class)?;
        same(&format!("the type of {p}"), type_text(self.b, f.type_, 0)?, w.ty.clone())?;
        same(&format!("the flags of {p}"), f.flags & FIELD_FLAGS, w.flags)?;
        same(&format!("the attributes of {p}"), &f.attrs, &w.attrs)?;
        same(&format!("the hint of {p}"), &f.hint, &None)?;
        same(&format!("the default of {p}"), f.defaults.clone(), w.default.iter().map(|d| (cname.to_owned(), d.clone())).collect())?;
        if let Some(v) = w.vis {
            same(&format!("the visibility of {p}"), f.vis, v)?;
        }
        self.at.push((i, w.at));
        self.checked += 1;
        Ok(())
    }
    fn fun(&mut self, i: u32, w: &FunW, class: u32, files: &[(String, String)]) -> R<()> {
        let p = format!("function {}", w.name);
        let SVal::Function(f) = &self.def(i).val else { return Err(format!("{p} is not a function")) };
        same(&format!("the owner of {p}"), self.def(i).parent, class)?;
        same(&format!("the flags of {p}"), f.flags & FUN_FLAGS, w.flags)?;
        same(&format!("the result of {p}"), f.ret.map(|t| type_text(self.b, t, 0)).transpose()?, w.ret.clone())?;
        let mut ps = vec![];
        for x in &f.params {
            match &self.def(*x).val {
                SVal::Parameter { type_, flags } => {
                    same(&format!("the owner of a parameter of {p}"), self.def(*x).parent, i)?;
                    ps.push((self.name(*x)?.to_owned(), type_text(self.b, *type_, 0)?, *flags));
                }
                v => return Err(format!("a parameter of {p} is {v:?}")),
            }
        }
        if w.loose {
            // wrapped: the parameters keep their types
            let strip = |v: &[(String, String, u8)]| v.iter().map(|p| (p.1.clone(), p.2)).collect::<Vec<_>>();
            let w2: Vec<_> = w.params.iter().map(|p| (p.0.clone(), p.1.clone(), p.2)).collect();
            same(&format!("the parameters of {p}"), strip(&ps), strip(&w2))?;
        } else {
            same(&format!("the parameters of {p}"), ps, w.params.clone())?;
            let mut ls = vec![];
            for x in &f.locals {
                match &self.def(*x).val {
                    SVal::Local { type_, .. } => ls.push((self.name(*x)?.split('$').next().unwrap_or("").to_owned(), type_text(self.b, *type_, 0)?)),
                    v => return Err(format!("a variable of {p} is {v:?}")),
                }
            }
            ls.sort();
            let mut want = w.locals.clone();
            want.sort();
            same(&format!("the variables of {p}"), ls, want)?;
            if f.flags & ff::NATIVE == 0 {
                let (sf, line) = f.source.ok_or_else(|| format!("{p} has no source"))?;
            match &self.def(sf).val {
                SVal::SourceFile { path, .. } => {
                    same(&format!("the file of {p}"), path.as_str(), files[w.at.0].0.as_str())?;
                }
                v => return Err(format!("the file of {p} is {v:?}")),
            }
            same(&format!("the line (counted from 0) of {p}"), line as usize, w.at.1)?;
            }
            self.at.push((i, w.at));
        }
        if let Some(v) = w.vis {
            same(&format!("the visibility of {p}"), f.vis, v)?;
        }
        same(&format!("that {p} has code"), !f.code.is_empty(), w.body)?;
        match (&w.base, f.base_method) {
            (None, None) => {}
            (Some(b), Some(x)) => {
                same(&format!("the method overridden by {p}"), self.name(x)?, w.name.as_str())?;
                same(&format!("the class of the method overridden by {p}"), self.name(self.def(x).parent)?, b.as_str())?;
            }
            (b, x) => return Err(format!("{p} overrides {x:?}, should override one of {b:?}")),
        }
        same(&format!("the rest of {p}"), (f.operator, f.cast, f.unk1, f.unk2.len()), (None, 0, false, 0))?;
        self.checked += 1;
        Ok(())
    }
    pub fn check(&mut self, d: &Decls<'_>) -> R<()> {
        for c in &d.classes {
            let i = self.one(&c.path, |v| matches!(v, SVal::Class(_)))?;
            let SVal::Class(k) = &self.def(i).val else { unreachable!() };
            let p = format!("class {}", c.path);
            same(&format!("the visibility of {p}"), k.vis, c.vis)?;
            same(&format!("the flags of {p}"), k.flags & CLASS_FLAGS, c.flags)?;
            let base = if k.base == 0 { None } else { Some(self.name(k.base)?.to_owned()) };
            same(&format!("the base of {p}"), base, c.base.clone())?;
            same(&format!("the number of fields of {p}"), k.fields.len(), c.fields.len())?;
            same(&format!("the overrides of {p}"), k.overrides.len(), 0)?;
            let mut fields: Vec<&FieldW> = c.fields.iter().collect();
            fields.sort_by_key(|f| f.at);
            for (x, w) in k.fields.iter().zip(fields) {
                self.field(*x, w, i, &c.path)?;
            }
            same(&format!("the number of functions of {p}"), k.functions.len(), c.funs.len() + c.extra)?;
            let mut seen = 0;
            let mut last = None;
            let mut funs: Vec<&FunW> = c.funs.iter().collect();
            funs.sort_by_key(|f| f.at);
            for w in funs {
                let at: Vec<usize> = (0..k.functions.len()).filter(|x| self.name(k.functions[*x]).is_ok_and(|n| n == w.name)).collect();
                let [at] = at[..] else { return Err(format!("{p} has {} functions {}", at.len(), w.name)) };
                if !w.loose {
                    // wrapped ones move to the end
                    if last > Some(at) && c.extra == 0 {
                        return Err(format!("{} is not where it was declared among the functions of {p}", w.name));
                    }
                    last = Some(at);
                }
                self.fun(k.functions[at], w, i, &d.files)?;
                seen += 1;
            }
            for x in &k.functions {
                let n = self.name(*x)?;
                if c.funs.iter().any(|w| w.name == n) {
                    continue;
                }
                let SVal::Function(f) = &self.def(*x).val else { return Err(format!("{p} lists something else as a function")) };
                same(&format!("whether {n} in {p} is a callback"), f.flags & ff::CALLBACK, 0)?;
            }
            let _ = seen;
            self.at.push((i, c.at));
            self.checked += 1;
        }
        for e in &d.enums {
            let i = self.one(&e.path, |v| matches!(v, SVal::Enum { .. }))?;
            let SVal::Enum { members, size, .. } = &self.def(i).val else { unreachable!() };
            let mut ms = vec![];
            for m in members {
                match &self.def(*m).val {
                    SVal::EnumValue(v) => ms.push((self.name(*m)?.to_owned(), *v)),
                    v => return Err(format!("a member of {} is {v:?}", e.path)),
                }
                same("the owner of an enum member", self.def(*m).parent, i)?;
            }
            same(&format!("the members of {}", e.path), ms, e.members.clone())?;
            same(&format!("the size of {}", e.path), *size, 4)?;
            self.at.push((i, e.at));
            self.checked += 1;
        }
        for w in &d.funs {
            let i = self.one(&w.name, |v| matches!(v, SVal::Function(_)))?;
            self.fun(i, w, 0, &d.files)?;
        }
        // every file has a number of its own
        let mut ids = BTreeMap::new();
        for x in &self.b.defs {
            if let SVal::SourceFile { id, path, .. } = &x.val {
                if let (Some(k), true) = (path.find("stage"), path.contains("_")) {
                    if let Some(o) = ids.insert((path[k + 5..].split('_').next().unwrap().to_owned(), *id), path.clone()) {
                        return Err(format!("{o} and {path} have the same number"));
                    }
                }
            }
        }
        Ok(())
    }
}
