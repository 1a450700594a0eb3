//! Programs divided into modules, and what a name means in each of them.
use std::collections::{BTreeMap, BTreeSet};

use vmon::rng::Rng;
use vmon::spec::*;

use crate::wf::{name, R};

#[derive(Clone, Debug)]
pub enum Cond {
    Lit(bool),
    Exists(&'static str),
    Not(Box<Cond>),
    And(Box<Cond>, Box<Cond>),
    Or(Box<Cond>, Box<Cond>),
    If(Box<Cond>, Box<Cond>, Box<Cond>),
}

impl Cond {
    fn gen(r: &mut Rng, d: usize) -> Cond {
        match if d == 0 { r.below(5) } else { r.below(9) } {
            0 => Cond::Lit(r.bool()),
            1..=4 => Cond::Exists(*r.pick(PATHS)),
            5 => Cond::Not(Box::new(Cond::gen(r, d - 1))),
            6 => Cond::And(Box::new(Cond::gen(r, d - 1)), Box::new(Cond::gen(r, d - 1))),
            7 => Cond::Or(Box::new(Cond::gen(r, d - 1)), Box::new(Cond::gen(r, d - 1))),
            _ => Cond::If(Box::new(Cond::gen(r, d - 1)), Box::new(Cond::gen(r, d - 1)), Box::new(Cond::gen(r, d - 1))),
        }
    }

    fn holds(&self, known: &BTreeSet<&str>) -> bool {
        match self {
            Cond::Lit(b) => *b,
            Cond::Exists(p) => known.contains(p),
            Cond::Not(c) => !c.holds(known),
            Cond::And(a, b) => a.holds(known) && b.holds(known),
            Cond::Or(a, b) => a.holds(known) || b.holds(known),
            Cond::If(c, a, b) => if c.holds(known) { a.holds(known) } else { b.holds(known) },
        }
    }

    fn text(&self) -> String {
        match self {
            Cond::Lit(b) => b.to_string(),
            Cond::Exists(p) => format!("ModuleExists(\"{p}\")"),
            Cond::Not(c) => format!("!({})", c.text()),
            Cond::And(a, b) => format!("({}) && ({})", a.text(), b.text()),
            Cond::Or(a, b) => format!("({}) || ({})", a.text(), b.text()),
            Cond::If(c, a, b) => format!("(({}) ? ({}) : ({}))", c.text(), a.text(), b.text()),
        }
    }
}

fn conds(cs: &[Cond]) -> String {
    cs.iter().map(|c| format!("@if({}) ", c.text())).collect()
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum Kind {
    Fun,
    Class,
    Enum,
}

#[derive(Clone, Debug)]
pub struct Def {
    pub file: usize,
    pub kind: Kind,
    pub name: &'static str,
    /// the type of the parameter of a function
    pub ty: &'static str,
    pub public: bool,
    pub conds: Vec<Cond>,
    /// the name of the base of a class, as it is written
    pub base: Option<&'static str>,
    /// conditions of the static method of a class
    pub member: Vec<Cond>,
    /// tells definitions with the same name apart
    pub id: i32,
}

#[derive(Clone, Debug)]
pub enum What {
    Exact(&'static str, String),
    Some(&'static str, Vec<String>),
    All(&'static str),
}

#[derive(Clone, Debug)]
pub struct Imp {
    pub what: What,
    pub conds: Vec<Cond>,
}

#[derive(Clone, Debug)]
pub enum Use {
    /// calls the function of that name for that type, with a plain literal or with a variable
    Call(&'static str, &'static str, bool),
    New(&'static str),
    Static(&'static str),
    Member(&'static str),
    /// uses the field of an object another function made, by the number of its class
    Made(usize),
}

#[derive(Clone, Debug)]
pub struct Probe {
    pub file: usize,
    pub what: Use,
    pub id: usize,
}

#[derive(Clone, Debug)]
pub struct File {
    pub module: Option<&'static str>,
    pub stage: usize,
    pub imports: Vec<Imp>,
}

#[derive(Clone, Debug)]
pub struct Modules {
    pub files: Vec<File>,
    pub defs: Vec<Def>,
    pub probes: Vec<Probe>,
}

pub const PATHS: &[&str] = &["Qa", "Qa.Qb", "Qa.Qb.Qc", "Qd", "Qd.Qa", "Qb"];
const FUNS: &[&str] = &["ZFoo", "ZBar", "Qb"];
const TYPES: &[(&str, &str)] = &[("Int32", "1"), ("Int64", "1"), ("Float", "1.0"), ("String", "\"1\""), ("Bool", "true"), ("CName", "n\"1\"")];
const CLASSES: &[&str] = &["ZKa", "ZKb", "ZKc"];
const ENUMS: &[&str] = &["ZEa", "ZEb"];

/// what a name means in a file
type Scope = BTreeMap<(Kind, &'static str), Vec<usize>>;

impl Modules {
    fn known(&self, stage: usize) -> BTreeSet<&'static str> {
        self.files.iter().filter(|f| f.stage == stage).filter_map(|f| f.module).collect()
    }

    pub fn exists(&self, d: usize) -> bool {
        let known = self.known(self.files[self.defs[d].file].stage);
        self.defs[d].conds.iter().all(|c| c.holds(&known))
    }

    fn has_member(&self, d: usize) -> bool {
        let known = self.known(self.files[self.defs[d].file].stage);
        self.defs[d].member.iter().all(|c| c.holds(&known))
    }

    fn module(&self, d: usize) -> Option<&'static str> {
        self.files[self.defs[d].file].module
    }

    /// the definitions of a module which a file can see
    fn children(&self, module: Option<&str>, stage: usize) -> Vec<usize> {
        (0..self.defs.len()).filter(|d| self.module(*d) == module && self.files[self.defs[*d].file].stage <= stage && self.exists(*d)).collect()
    }

    fn bring(&self, s: &mut Scope, list: &[usize]) {
        let mut fresh: Scope = BTreeMap::new();
        for d in list {
            fresh.entry((self.defs[*d].kind, self.defs[*d].name)).or_default().push(*d);
        }
        for (k, v) in fresh {
            let e = s.entry(k).or_default();
            if k.0 != Kind::Fun {
                e.clear();
            }
            e.extend(v);
            e.sort_unstable();
            e.dedup();
        }
    }

    pub fn imported(&self, file: usize, import: &Imp) -> Vec<usize> {
        let stage = self.files[file].stage;
        let known = self.known(stage);
        if !import.conds.iter().all(|c| c.holds(&known)) {
            return vec![];
        }
        let (module, names): (_, Option<Vec<&str>>) = match &import.what {
            What::All(m) => (*m, None),
            What::Exact(m, n) => (*m, Some(vec![n])),
            What::Some(m, ns) => (*m, Some(ns.iter().map(String::as_str).collect())),
        };
        self.children(Some(module), stage).into_iter().filter(|d| self.defs[*d].public || self.defs[*d].kind == Kind::Enum).filter(|d| names.as_ref().map_or(true, |ns| ns.contains(&self.defs[*d].name))).collect()
    }

    pub fn scope(&self, file: usize) -> Scope {
        let mut s = Scope::new();
        let f = &self.files[file];
        self.bring(&mut s, &self.children(None, f.stage));
        if f.module.is_some() {
            self.bring(&mut s, &self.children(f.module, f.stage));
        }
        for i in &f.imports {
            let list = self.imported(file, i);
            self.bring(&mut s, &list);
        }
        s
    }

    /// whether two imported or own classes or enums compete for a name in a file
    fn contested(&self, file: usize) -> bool {
        let f = &self.files[file];
        let mut seen: BTreeMap<(Kind, &str), usize> = BTreeMap::new();
        let mut lists: Vec<Vec<usize>> = f.imports.iter().map(|i| self.imported(file, i)).collect();
        lists.push(self.children(f.module, f.stage));
        for l in lists {
            for d in l {
                let k = (self.defs[d].kind, self.defs[d].name);
                if k.0 != Kind::Fun && *seen.entry(k).or_insert(d) != d {
                    return true;
                }
            }
        }
        false
    }

    /// the definitions a use may refer to
    pub fn target(&self, p: &Probe) -> Vec<usize> {
        let s = self.scope(p.file);
        let get = |k, n| s.get(&(k, n)).cloned().unwrap_or_default();
        match &p.what {
            Use::Call(n, t, _) => get(Kind::Fun, n).into_iter().filter(|d| self.defs[*d].ty == *t).collect(),
            Use::New(n) => get(Kind::Class, n),
            Use::Static(n) => {
                let mut at = get(Kind::Class, n).first().copied();
                while let Some(d) = at.filter(|d| !self.has_member(*d)) {
                    at = self.base(d).flatten();
                }
                at.into_iter().collect()
            }
            Use::Member(n) => get(Kind::Enum, n),
            Use::Made(d) => if self.makers(p.file).contains(d) { vec![*d] } else { vec![] },
        }
    }

    /// classes with a function that makes objects of them and is visible in a file
    fn makers(&self, file: usize) -> Vec<usize> {
        let f = &self.files[file];
        let mut all = self.children(None, f.stage);
        if f.module.is_some() {
            all.extend(self.children(f.module, f.stage));
        }
        for i in f.imports.iter().filter(|i| matches!(i.what, What::All(_))) {
            all.extend(self.imported(file, i));
        }
        all.retain(|d| self.defs[*d].kind == Kind::Class);
        all
    }

    pub fn base(&self, d: usize) -> Option<Option<usize>> {
        let b = self.defs[d].base?;
        Some(self.scope(self.defs[d].file).get(&(Kind::Class, b)).and_then(|v| v.first().copied()))
    }

    pub fn gen(r: &mut Rng, broken: bool) -> Modules {
        let mut m = Modules { files: vec![], defs: vec![], probes: vec![] };
        let nfiles = 2 + r.below(5);
        let staged = !broken && r.below(3) == 0;
        for _ in 0..nfiles {
            let module = if r.below(5) == 0 { None } else { Some(*r.pick(PATHS)) };
            m.files.push(File { module, stage: usize::from(staged && r.bool()), imports: vec![] });
        }
        // definitions; those which would be defined twice are told apart by opposite conditions
        let mut id = 1000;
        let mut taken: BTreeSet<(Option<&str>, Kind, &str, &str)> = BTreeSet::new();
        for file in 0..nfiles {
            for _ in 0..r.below(6) {
                let kind = *r.pick(&[Kind::Fun, Kind::Fun, Kind::Class, Kind::Class, Kind::Enum]);
                let (name, ty) = match kind {
                    Kind::Fun => (*r.pick(FUNS), r.pick(TYPES).0),
                    Kind::Class => (*r.pick(CLASSES), ""),
                    Kind::Enum => (*r.pick(ENUMS), ""),
                };
                if !taken.insert((m.files[file].module, kind, name, ty)) {
                    continue;
                }
                let mut def = Def { file, kind, name, ty, public: r.below(3) > 0, conds: vec![], base: None, member: vec![], id };
                id += 1;
                match r.below(5) {
                    0 => def.conds = vec![Cond::gen(r, 2)],
                    1 if r.bool() => def.conds = vec![Cond::gen(r, 1), Cond::gen(r, 1)],
                    2 => {
                        let c = Cond::gen(r, 2);
                        let mut other = def.clone();
                        other.conds = vec![Cond::Not(Box::new(c.clone()))];
                        other.public = r.bool();
                        // the definition may be in another file of the same module
                        let peers: Vec<usize> = (0..nfiles).filter(|f| m.files[*f].module == m.files[file].module && m.files[*f].stage == m.files[file].stage).collect();
                        other.file = *r.pick(&peers);
                        other.id = id;
                        id += 1;
                        def.conds = vec![c];
                        m.defs.push(other);
                    }
                    _ => {}
                }
                if r.below(4) == 0 {
                    def.member = vec![Cond::gen(r, 1)];
                }
                m.defs.push(def);
            }
        }
        // imports
        for file in 0..nfiles {
            for _ in 0..r.below(4) {
                let stage = m.files[file].stage;
                let others: Vec<&'static str> = (0..nfiles).filter(|f| m.files[*f].stage <= stage && (0..m.defs.len()).any(|d| m.defs[d].file == *f && m.exists(d))).filter_map(|f| m.files[f].module).collect();
                if others.is_empty() {
                    continue;
                }
                let module = *r.pick(&others);
                let names: BTreeSet<&'static str> = m.children(Some(module), stage).into_iter().map(|d| m.defs[d].name).collect();
                let names: Vec<&'static str> = names.into_iter().collect();
                let what = match r.below(3) {
                    0 => What::All(module),
                    1 => What::Exact(module, (*r.pick(&names)).to_owned()),
                    _ => {
                        let mut ns: Vec<String> = (0..1 + r.below(3)).map(|_| (*r.pick(&names)).to_owned()).collect();
                        ns.dedup();
                        What::Some(module, ns)
                    }
                };
                let cs = if r.below(4) == 0 { vec![Cond::gen(r, 1)] } else { vec![] };
                m.files[file].imports.push(Imp { what, conds: cs });
                if m.contested(file) {
                    m.files[file].imports.pop();
                }
            }
        }
        // bases, without cycles
        for d in 0..m.defs.len() {
            if m.defs[d].kind != Kind::Class || !r.bool() {
                continue;
            }
            m.defs[d].base = Some(*r.pick(CLASSES));
            match m.base(d) {
                Some(Some(b)) if b < d && m.exists(d) && m.defs[b].name != m.defs[d].name => {}
                _ => m.defs[d].base = None,
            }
        }
        // uses
        for file in 0..nfiles {
            for _ in 0..2 + r.below(8) {
                let makers = if broken { (0..m.defs.len()).filter(|d| m.defs[*d].kind == Kind::Class).collect() } else { m.makers(file) };
                let what = match r.below(8) {
                    6.. if !makers.is_empty() => Use::Made(*r.pick(&makers)),
                    0..=2 => Use::Call(*r.pick(FUNS), r.pick(TYPES).0, false),
                    3 => Use::New(*r.pick(CLASSES)),
                    4 => Use::Static(*r.pick(CLASSES)),
                    _ => Use::Member(*r.pick(ENUMS)),
                };
                let mut p = Probe { file, what, id: m.probes.len() };
                let found = m.target(&p);
                if found.is_empty() && !(broken && r.below(3) == 0) {
                    continue;
                }
                // an argument of another type is converted when there is just one function it can be for
                if let Use::Call(n, _, plain) = &mut p.what {
                    *plain = m.scope(file).get(&(Kind::Fun, *n)).map_or(0, Vec::len) == 1 && !found.is_empty() && r.bool();
                }
                m.probes.push(p);
            }
        }
        m
    }

    /// the text of a file and the line of each probe in it
    pub fn text(&self, file: usize, r: &mut Rng, extra: &[String]) -> (String, BTreeMap<usize, usize>) {
        let f = &self.files[file];
        let mut o = String::new();
        if let Some(m) = f.module {
            o.push_str(&format!("module {m}\n"));
        }
        for e in extra {
            o.push_str(&format!("{e}\n"));
        }
        for i in &f.imports {
            o.push_str(&conds(&i.conds));
            match &i.what {
                What::Exact(m, n) => o.push_str(&format!("import {m}.{n}\n")),
                What::Some(m, ns) => o.push_str(&format!("import {m}.{{{}}}\n", ns.join(", "))),
                What::All(m) => o.push_str(&format!("import {m}.*\n")),
            }
        }
        let mut items: Vec<(Option<usize>, String)> = vec![];
        for d in self.defs.iter().filter(|d| d.file == file) {
            let vis = if d.public { "public " } else { ["", "private ", "protected "][r.below(3)] };
            let c = conds(&d.conds);
            let id = d.id;
            if d.kind == Kind::Class {
                items.push((None, format!("{c}{vis}func ZMake{id}() -> ref<{}> {{ return new {}(); }}", d.name, d.name)));
            }
            items.push((None, match d.kind {
                Kind::Fun => format!("{c}{vis}func {}(x: {}) -> Int32 {{ return {id}; }}", d.name, d.ty),
                Kind::Class => format!(
                    "{c}{vis}class {}{} {{ public let v{id}: Int32; {}public static func ZSt() -> Int32 {{ return {id}; }} }}",
                    d.name,
                    d.base.map_or(String::new(), |b| format!(" extends {b}")),
                    conds(&d.member)
                ),
                Kind::Enum => format!("{c}enum {} {{ Other = 1, ZMem = {id} }}", d.name),
            }));
        }
        for p in self.probes.iter().filter(|p| p.file == file) {
            let body = match &p.what {
                Use::Call(n, t, plain) => {
                    let lit = TYPES.iter().find(|x| x.0 == *t).unwrap().1;
                    if *plain {
                        format!("return {n}({lit});")
                    } else {
                        format!("let a: {t} = {lit}; return {n}(a);")
                    }
                }
                Use::New(n) => format!("let a = new {n}(); return IsDefined(a) ? 1 : 2;"),
                Use::Static(n) => format!("return {n}.ZSt();"),
                Use::Made(d) => format!("return ZMake{0}().v{0};", self.defs[*d].id),
                Use::Member(n) => format!("return EnumInt({n}.ZMem);"),
            };
            items.push((Some(p.id), format!("func ZProbe{}() -> Int32 {{ {body} }}", p.id)));
        }
        let mut at = BTreeMap::new();
        let mut line = o.matches('\n').count();
        while !items.is_empty() {
            let (p, t) = items.swap_remove(r.below(items.len()));
            o.push_str(&t);
            o.push('\n');
            if let Some(p) = p {
                at.insert(p, line);
            }
            line += 1;
        }
        (o, at)
    }

    fn path(&self, d: usize) -> String {
        let own = match self.defs[d].kind {
            Kind::Fun => format!("{};{}", self.defs[d].name, self.defs[d].ty),
            _ => self.defs[d].name.to_owned(),
        };
        self.module(d).map_or(own.clone(), |m| format!("{m}.{own}"))
    }

    /// compares a compiled program with what its names mean
    pub fn check(&self, b: &SBundle, mut hit: impl FnMut(&'static str)) -> R<()> {
        let mut at: BTreeMap<&str, u32> = BTreeMap::new();
        for i in 1..b.defs.len() as u32 {
            if b.defs[i as usize].parent == 0 && matches!(b.defs[i as usize].val, SVal::Class(_) | SVal::Enum { .. } | SVal::Function(_)) && at.insert(name(b, i)?, i).is_some() {
                return Err(format!("{} is defined twice", name(b, i)?));
            }
        }
        // what is defined, and under which name
        let mut place: BTreeMap<usize, u32> = BTreeMap::new();
        for d in 0..self.defs.len() {
            let path = self.path(d);
            let enabled = self.exists(d);
            hit(if enabled { "definitions" } else { "definitions left out" });
            match at.get(path.as_str()) {
                Some(i) if enabled => {
                    place.insert(d, *i);
                }
                None if enabled => return Err(format!("{path} ({}) is not defined", self.defs[d].id)),
                Some(_) if !(0..self.defs.len()).any(|e| e != d && self.path(e) == path && self.exists(e)) => return Err(format!("{path} ({}) is defined although its condition does not hold", self.defs[d].id)),
                _ => {}
            }
        }
        let value = |f: &SFunction| f.code.iter().find(|i| i.op == 6).map(|i| i.args[0] as i32);
        for (d, i) in &place {
            let id = self.defs[*d].id;
            match &b.defs[*i as usize].val {
                SVal::Function(f) if value(f) == Some(id) => {}
                SVal::Class(c) => {
                    let fields: Vec<&str> = c.fields.iter().map(|f| name(b, *f)).collect::<R<_>>()?;
                    if fields != [format!("v{id}")] {
                        return Err(format!("{} has the fields {fields:?} instead of v{id}", self.path(*d)));
                    }
                    if c.functions.len() != usize::from(self.has_member(*d)) {
                        return Err(format!("{} has {} functions", self.path(*d), c.functions.len()));
                    }
                    let base = self.base(*d).flatten().map_or("IScriptable".to_owned(), |x| self.path(x));
                    let got = if c.base == 0 { "" } else { name(b, c.base)? };
                    if got != base && !(self.base(*d).is_none() && got.is_empty()) {
                        return Err(format!("{} is based on {got:?} instead of {base}", self.path(*d)));
                    }
                    if self.defs[*d].base.is_some() {
                        hit("bases");
                    }
                }
                SVal::Enum { members, .. } if members.iter().any(|m| b.defs[*m as usize].val == SVal::EnumValue(id.into())) => {}
                _ => return Err(format!("{} is not the definition numbered {id}", self.path(*d))),
            }
        }
        for p in &self.probes {
            let want: Vec<u32> = self.target(p).iter().map(|d| place[d]).collect();
            let own = format!("ZProbe{};", p.id);
            let own = self.files[p.file].module.map_or(own.clone(), |m| format!("{m}.{own}"));
            let Some(i) = at.get(own.as_str()) else { return Err(format!("{own} is missing")) };
            let SVal::Function(f) = &b.defs[*i as usize].val else { return Err(format!("{own} is no function")) };
            let got: Vec<u32> = match &p.what {
                Use::Call(..) | Use::Static(_) => f.code.iter().filter(|i| i.op == 36).map(|i| i.args[2] as u32).collect(),
                Use::New(_) => f.code.iter().filter(|i| i.op == 48).map(|i| i.args[0] as u32).collect(),
                Use::Made(_) => f.code.iter().filter(|i| i.op == 26).map(|i| i.args[0] as u32).collect(),
                Use::Member(_) => f.code.iter().filter(|i| i.op == 15).map(|i| i.args[0] as u32).collect(),
            };
            let [got] = got[..] else { return Err(format!("{own} refers to {} definitions", got.len())) };
            let got = if matches!(p.what, Use::Static(_) | Use::Made(_)) { b.defs[got as usize].parent } else { got };
            if !want.contains(&got) {
                return Err(format!("{own} uses {} instead of {:?}", name(b, got)?, want.iter().map(|w| name(b, *w)).collect::<R<Vec<_>>>()?));
            }
            hit(match p.what {
                Use::Call(_, _, true) => "calls with a literal",
                Use::Call(..) => "calls",
                Use::New(_) => "objects",
                Use::Static(_) => "static calls",
                Use::Member(_) => "members",
                Use::Made(d) if self.scope(p.file).get(&(Kind::Class, self.defs[d].name)).map_or(true, |v| !v.contains(&d)) => "objects of shadowed classes",
                Use::Made(_) => "objects made elsewhere",
            });
        }
        Ok(())
    }
}
