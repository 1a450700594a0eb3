//! The source language: programs as this check understands them, printed to text for the compiler and executed
//! directly by a reference interpreter.
use std::collections::HashMap;
use std::fmt::Write as _;

use vmon::rng::Rng;

use crate::machine::*;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum T {
    Int,
    Bool,
    Float,
    Str,
    Name,
    Tdb,
    Res,
    Long,
    UInt,
    ULong,
    Double,
    Enum(usize),
    Struct(usize),
    Ref(usize),
    WRef(usize),
    Arr(Box<T>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum E {
    Lit(V),
    /// an integer literal that stands for a value of a wider type
    Widened(i32, V),
    Null,
    EnumM(usize, usize),
    Var(String),
    This,
    Field(Box<E>, String, T),
    Index(Box<E>, Box<E>, T),
    Bin(&'static str, Box<E>, Box<E>),
    Un(char, Box<E>),
    Cond(Box<E>, Box<E>, Box<E>),
    Call(usize, Vec<E>),
    Method(Box<E>, usize, Vec<E>),
    Super(usize, Vec<E>),
    Wrapped(Vec<E>),
    New(usize),
    Make(usize, Vec<E>),
    Interp(String, Vec<(E, String)>),
    Arr(Vec<E>, T),
    /// intrinsic: name, arguments, element or target type
    Intr(&'static str, Vec<E>, T),
    As(Box<E>, usize),
    Nat(&'static str, Vec<E>),
    ToWeak(Box<E>),
    FromWeak(Box<E>),
    ToVariant(Box<E>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum S {
    Let(String, T, Option<E>, bool),
    Set(E, E),
    SetOp(&'static str, E, E),
    Ex(E),
    If(E, Vec<S>, Option<Vec<S>>),
    While(E, Vec<S>),
    For(String, E, Vec<S>),
    Switch(E, Vec<(E, Vec<S>)>, Option<Vec<S>>),
    Ret(Option<E>),
    Break,
    /// text put in place of a statement, to be found in the printed program
    Raw(String),
}

#[derive(Clone, Debug)]
pub struct Param {
    pub name: String,
    pub ty: T,
    pub out: bool,
    pub opt: bool,
}

#[derive(Clone, Debug)]
pub struct Layer {
    pub file: usize,
    pub params: Vec<String>,
    pub body: Vec<S>,
}

#[derive(Clone, Debug)]
pub struct Fun {
    pub name: String,
    pub class: Option<usize>,
    pub stat: bool,
    pub fin: bool,
    pub params: Vec<Param>,
    pub ret: Option<T>,
    pub body: Vec<S>,
    pub level: usize,
    pub file: usize,
    /// declared outside its class
    pub added: bool,
    pub replaced: Option<Layer>,
    pub wraps: Vec<Layer>,
    pub public: bool,
}

#[derive(Clone, Debug)]
pub struct FieldDef {
    pub name: String,
    pub ty: T,
    pub default: Option<E>,
    pub file: usize,
    pub added: bool,
}

#[derive(Clone, Debug)]
pub struct Cls {
    pub name: String,
    pub base: Option<usize>,
    pub fields: Vec<FieldDef>,
    pub funs: Vec<usize>,
    pub abs: bool,
    pub file: usize,
}

#[derive(Clone, Debug)]
pub struct Stru {
    pub name: String,
    pub fields: Vec<(String, T)>,
    pub file: usize,
}

#[derive(Clone, Debug)]
pub struct Enu {
    pub name: String,
    pub members: Vec<(String, i64)>,
    pub file: usize,
}

#[derive(Clone, Debug, Default)]
pub struct FileDef {
    pub stage: usize,
    pub module: String,
}

#[derive(Clone, Debug, Default)]
pub struct Prog {
    pub enums: Vec<Enu>,
    pub structs: Vec<Stru>,
    pub classes: Vec<Cls>,
    pub funs: Vec<Fun>,
    pub files: Vec<FileDef>,
    pub main: usize,
}

impl Prog {
    pub fn qual(&self, file: usize, name: &str) -> String {
        let m = &self.files[file].module;
        if m.is_empty() {
            name.to_owned()
        } else {
            format!("{m}.{name}")
        }
    }
    pub fn ename(&self, e: usize) -> String {
        self.qual(self.enums[e].file, &self.enums[e].name)
    }
    pub fn cname(&self, c: usize) -> String {
        self.qual(self.classes[c].file, &self.classes[c].name)
    }
    pub fn ty(&self, t: &T) -> String {
        match t {
            T::Int => "Int32".into(),
            T::Bool => "Bool".into(),
            T::Float => "Float".into(),
            T::Str => "String".into(),
            T::Name => "CName".into(),
            T::Tdb => "TweakDBID".into(),
            T::Res => "ResRef".into(),
            T::Long => "Int64".into(),
            T::UInt => "Uint32".into(),
            T::ULong => "Uint64".into(),
            T::Double => "Double".into(),
            T::Enum(e) => self.enums[*e].name.clone(),
            T::Struct(s) => self.structs[*s].name.clone(),
            T::Ref(c) => format!("ref<{}>", self.classes[*c].name),
            T::WRef(c) => format!("wref<{}>", self.classes[*c].name),
            T::Arr(t) => format!("array<{}>", self.ty(t)),
        }
    }
    pub fn default(&self, t: &T) -> V {
        match t {
            T::Int => V::I(0),
            T::Bool => V::B(false),
            T::Float => V::F(0.0),
            T::Str => V::S(String::new()),
            T::Name => V::N("None".into()),
            T::Tdb => V::T(String::new()),
            T::Res => V::R(String::new()),
            T::Long => V::L(0),
            T::UInt => V::U(0),
            T::ULong => V::UL(0),
            T::Double => V::D(0.0),
            T::Enum(e) => V::E(self.ename(*e), 0),
            T::Struct(s) => {
                let d = &self.structs[*s];
                V::St(self.qual(d.file, &d.name), d.fields.iter().map(|f| (f.0.clone(), self.default(&f.1))).collect())
            }
            T::Ref(_) => V::O(None),
            T::WRef(_) => V::W(None),
            T::Arr(_) => V::A(vec![]),
        }
    }
    /// the value of a variable declared without an initializer
    pub fn initial(&self, t: &T) -> V {
        match t {
            T::Enum(e) => V::E(self.ename(*e), self.enums[*e].members.first().map_or(0, |m| m.1)),
            t => self.default(t),
        }
    }
    pub fn derives(&self, mut c: usize, base: usize) -> bool {
        loop {
            if c == base {
                return true;
            }
            match self.classes[c].base {
                Some(b) => c = b,
                None => return false,
            }
        }
    }
    pub fn all_fields(&self, c: usize) -> Vec<&FieldDef> {
        let mut v = match self.classes[c].base {
            Some(b) => self.all_fields(b),
            None => vec![],
        };
        v.extend(&self.classes[c].fields);
        v
    }
    fn same_sig(&self, a: usize, b: usize) -> bool {
        let (a, b) = (&self.funs[a], &self.funs[b]);
        a.name == b.name
            && a.params.len() == b.params.len()
            && a.params.iter().zip(&b.params).all(|(x, y)| x.ty == y.ty && x.out == y.out)
    }
    /// what a call of `fun` on an object of class `c` runs
    pub fn dispatch(&self, c: usize, fun: usize) -> usize {
        if self.funs[fun].fin || self.funs[fun].stat {
            return fun;
        }
        let mut cur = Some(c);
        while let Some(k) = cur {
            if let Some(f) = self.classes[k].funs.iter().find(|f| self.same_sig(**f, fun)) {
                return *f;
            }
            cur = self.classes[k].base;
        }
        fun
    }
}

// ---------------------------------------------------------------------------------------------- printing

pub fn escape(s: &str, r: &mut Rng) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\'' => o.push_str(if r.bool() { "\\'" } else { "'" }),
            c if !c.is_ascii() && r.bool() => write!(o, "\\u{{{:x}}}", c as u32).unwrap(),
            c if r.chance(1, 40) => write!(o, "\\u{{{:04X}}}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o
}

pub struct Printer<'a> {
    pub p: &'a Prog,
    pub r: &'a mut Rng,
    /// also put parentheses where none are needed
    pub extra: usize,
    pub noise: bool,
}

fn prec(e: &E) -> u8 {
    match e {
        E::Cond(..) => 0,
        E::Bin(op, ..) => match *op {
            "||" => 1,
            "&&" => 2,
            "|" => 3,
            "^" => 4,
            "&" => 5,
            "==" | "!=" => 6,
            "<" | "<=" | ">" | ">=" => 7,
            "+" | "-" => 8,
            _ => 9,
        },
        E::Un(..) | E::New(_) | E::Make(..) => 10,
        E::Lit(V::I(i)) if *i < 0 => 10,
        E::Lit(V::L(i)) if *i < 0 => 10,
        E::Lit(V::F(i)) if *i < 0.0 => 10,
        E::Lit(V::D(i)) if *i < 0.0 => 10,
        E::Widened(i, _) if *i < 0 => 10,
        E::ToWeak(e) | E::FromWeak(e) | E::ToVariant(e) => prec(e),
        _ => 11,
    }
}

impl Printer<'_> {
    fn ws(&mut self) -> &'static str {
        if !self.noise {
            return " ";
        }
        match self.r.below(24) {
            0 => "\n",
            1 => " /* c */ ",
            2 => "\t",
            3 => " // x = {\n",
            4 => " /* /* n */ ; */ ",
            5 => "  ",
            6 => "\r\n",
            _ => " ",
        }
    }
    fn sub(&mut self, e: &E, min: u8) -> String {
        let s = self.expr(e);
        if prec(e) < min || (self.extra > 0 && self.r.chance(self.extra, 10)) {
            format!("({s})")
        } else {
            s
        }
    }
    fn list(&mut self, es: &[E]) -> String {
        let mut o = String::new();
        for (i, e) in es.iter().enumerate() {
            if i > 0 {
                o.push(',');
                o.push_str(self.ws());
            }
            let s = self.sub(e, 0);
            if top_level_less(&s) {
                write!(o, "({s})").unwrap();
            } else {
                o.push_str(&s);
            }
        }
        o
    }
    pub fn expr(&mut self, e: &E) -> String {
        match e {
            E::Lit(v) => self.lit(v),
            E::Widened(i, _) => i.to_string(),
            E::Null => "null".into(),
            E::EnumM(e, m) => format!("{}.{}", self.p.enums[*e].name, self.p.enums[*e].members[*m].0),
            E::Var(n) => n.clone(),
            E::This => "this".into(),
            E::Field(o, n, _) => format!("{}.{n}", self.sub(o, 11)),
            E::Index(a, i, _) => {
                let a = self.sub(a, 11);
                format!("{a}[{}]", self.sub(i, 0))
            }
            E::Bin(op, a, b) => {
                let p = prec(e);
                let a = self.sub(a, p);
                let (w1, w2) = (self.ws(), self.ws());
                format!("{a}{w1}{op}{w2}{}", self.sub(b, p + 1))
            }
            E::Un(c, a) => format!("{c}{}", self.sub(a, 10)),
            E::Cond(c, a, b) => {
                let c = self.sub(c, 1);
                let (w1, w2) = (self.ws(), self.ws());
                let a = self.sub(a, 0);
                format!("{c}{w1}?{w2}{a} : {}", self.sub(b, 0))
            }
            E::Call(f, args) => {
                let f = &self.p.funs[*f];
                let name = match f.class {
                    Some(c) => format!("{}.{}", self.p.classes[c].name, f.name),
                    None => f.name.clone(),
                };
                format!("{name}({})", self.list(args))
            }
            E::Method(o, f, args) => {
                let o = self.sub(o, 11);
                format!("{o}.{}({})", self.p.funs[*f].name, self.list(args))
            }
            E::Super(f, args) => format!("super.{}({})", self.p.funs[*f].name, self.list(args)),
            E::Wrapped(args) => format!("wrappedMethod({})", self.list(args)),
            E::New(c) => format!("new {}()", self.p.classes[*c].name),
            E::Make(s, args) => format!("new {}({})", self.p.structs[*s].name, self.list(args)),
            E::Interp(pre, parts) => {
                let mut o = format!("s\"{}", escape(pre, self.r));
                for (e, t) in parts {
                    let e = self.sub(e, 0);
                    write!(o, "\\({e}){}", escape(t, self.r)).unwrap();
                }
                o.push('"');
                o
            }
            E::Arr(es, _) => format!("[{}]", self.list(es)),
            E::Intr(n, args, t) => match *n {
                "IntEnum" => format!("IntEnum<{}>({})", self.p.ty(t), self.list(args)),
                "FromVariant" => format!("FromVariant<{}>({})", self.p.ty(t), self.list(args)),
                n => format!("{n}({})", self.list(args)),
            },
            E::As(e, c) => format!("{} as {}", self.sub(e, 11), self.p.classes[*c].name),
            E::Nat(n, args) => {
                let list = self.list(args);
                format!("{n}({list}{})", self.ws().trim_start_matches(' '))
            }
            E::ToWeak(e) | E::FromWeak(e) | E::ToVariant(e) => self.expr(e),
        }
    }
    fn lit(&mut self, v: &V) -> String {
        match v {
            V::B(b) => b.to_string(),
            V::I(i) => i.to_string(),
            V::L(i) => format!("{i}l"),
            V::U(i) => format!("{i}u"),
            V::UL(i) => format!("{i}ul"),
            V::F(f) => format!("{f:?}"),
            V::D(f) => {
                if f.fract() == 0.0 && self.r.bool() {
                    format!("{f}d")
                } else {
                    format!("{f:?}d")
                }
            }
            V::S(s) => format!("\"{}\"", escape(s, self.r)),
            V::N(s) => format!("n\"{}\"", escape(s, self.r)),
            V::T(s) => format!("t\"{}\"", escape(s, self.r)),
            V::R(s) => format!("r\"{}\"", escape(s, self.r)),
            v => unreachable!("{v:?}"),
        }
    }
    pub fn block(&mut self, b: &[S], ind: usize, o: &mut String) {
        for s in b {
            self.stmt(s, ind, o);
        }
    }
    fn nl(&mut self, ind: usize, o: &mut String) {
        if self.noise && self.r.chance(1, 12) {
            o.push_str(*self.r.pick(&["  ", "\t", "", "/* a\n b */", "// \"\n"]));
        } else {
            o.push_str(&"  ".repeat(ind));
        }
    }
    fn stmt(&mut self, s: &S, ind: usize, o: &mut String) {
        self.nl(ind, o);
        match s {
            S::Let(n, t, e, typed) => {
                write!(o, "let {n}").unwrap();
                if *typed {
                    write!(o, ": {}", self.p.ty(t)).unwrap();
                }
                if let Some(e) = e {
                    let e = self.sub(e, 0);
                    write!(o, "{}={}{e}", self.ws(), self.ws()).unwrap();
                }
                o.push_str(";\n");
            }
            S::Set(a, b) => {
                let a = self.expr(a);
                let b = self.sub(b, 1);
                writeln!(o, "{a}{}={}{b};", self.ws(), self.ws()).unwrap();
            }
            S::SetOp(op, a, b) => {
                let a = self.expr(a);
                let b = self.sub(b, 1);
                writeln!(o, "{a} {op} {b};").unwrap();
            }
            S::Ex(e) => {
                let e = self.expr(e);
                writeln!(o, "{e};").unwrap();
            }
            S::If(c, a, b) => {
                let c = self.sub(c, 0);
                writeln!(o, "if{}{c}{}{{", self.gap(), self.ws()).unwrap();
                self.block(a, ind + 1, o);
                self.nl(ind, o);
                o.push('}');
                match b.as_deref() {
                    Some([S::If(..)]) if self.r.bool() => {
                        o.push_str(" else ");
                        let mut inner = String::new();
                        self.stmt(&b.as_ref().unwrap()[0], 0, &mut inner);
                        o.push_str(inner.trim_start_matches(' '));
                    }
                    Some(b) => {
                        o.push_str(" else {\n");
                        self.block(b, ind + 1, o);
                        self.nl(ind, o);
                        o.push_str("}\n");
                    }
                    None => o.push_str(if self.r.chance(1, 8) { ";\n" } else { "\n" }),
                }
            }
            S::While(c, b) => {
                let c = self.sub(c, 0);
                writeln!(o, "while{}{c} {{", self.gap()).unwrap();
                self.block(b, ind + 1, o);
                self.nl(ind, o);
                o.push_str(if self.r.chance(1, 8) { "};\n" } else { "}\n" });
            }
            S::For(n, e, b) => {
                let e = self.sub(e, 0);
                writeln!(o, "for {n} in {e} {{").unwrap();
                self.block(b, ind + 1, o);
                self.nl(ind, o);
                o.push_str("}\n");
            }
            S::Switch(e, cs, d) => {
                let e = self.sub(e, 0);
                writeln!(o, "switch {e} {{").unwrap();
                for (m, b) in cs {
                    let m = self.sub(m, 1);
                    self.nl(ind + 1, o);
                    writeln!(o, "case {m}:").unwrap();
                    self.block(b, ind + 2, o);
                }
                if let Some(d) = d {
                    self.nl(ind + 1, o);
                    o.push_str("default:\n");
                    self.block(d, ind + 2, o);
                }
                self.nl(ind, o);
                o.push_str("}\n");
            }
            S::Ret(None) => o.push_str("return;\n"),
            S::Ret(Some(e)) => {
                let e = self.sub(e, 0);
                writeln!(o, "return {e};").unwrap();
            }
            S::Break => o.push_str("break;\n"),
            S::Raw(t) => {
                o.push_str(t);
                o.push('\n');
            }
        }
    }
    /// between a keyword and an expression
    fn gap(&mut self) -> &'static str {
        if self.noise && self.r.chance(1, 10) {
            "\n\t"
        } else {
            " "
        }
    }
    fn params(&mut self, f: &Fun, names: Option<&[String]>) -> String {
        let mut o = String::new();
        for (i, p) in f.params.iter().enumerate() {
            if i > 0 {
                o.push_str(", ");
            }
            if p.out {
                o.push_str("out ");
            }
            if p.opt {
                o.push_str("opt ");
            }
            let n = names.map_or(&p.name, |n| &n[i]);
            write!(o, "{n}: {}", self.p.ty(&p.ty)).unwrap();
        }
        let ret = f.ret.as_ref().map_or(String::new(), |t| format!(" -> {}", self.p.ty(t)));
        format!("({o}){ret}")
    }
    fn quals(&mut self, f: &Fun) -> String {
        let mut q: Vec<&str> = vec![];
        if f.public {
            q.push("public");
        }
        if f.stat {
            q.push("static");
        }
        if f.fin {
            q.push("final");
        }
        self.r.shuffle(&mut q);
        q.iter().map(|s| format!("{s} ")).collect()
    }
    fn fun(&mut self, f: &Fun, head: &str, layer: Option<&Layer>, ind: usize, o: &mut String) {
        if !head.is_empty() {
            self.nl(ind, o);
            writeln!(o, "{head}").unwrap();
        }
        let q = self.quals(f);
        let ps = self.params(f, layer.map(|l| l.params.as_slice()));
        let body = layer.map_or(&f.body, |l| &l.body);
        self.nl(ind, o);
        write!(o, "{q}func {}{ps}", f.name).unwrap();
        if let ([S::Ret(Some(e))], true) = (body.as_slice(), self.r.bool()) {
            let e = self.sub(e, 0);
            writeln!(o, " = {e}").unwrap();
            return;
        }
        o.push_str(" {\n");
        self.block(body, ind + 1, o);
        self.nl(ind, o);
        o.push_str("}\n");
    }
    /// the text of every file
    pub fn files(&mut self) -> Vec<String> {
        let p = self.p;
        let mut items: Vec<Vec<String>> = vec![vec![]; p.files.len()];
        for e in &p.enums {
            let mut o = format!("{}enum {} {{", if p.files[e.file].module.is_empty() { "" } else { "public " }, e.name);
            for (i, (n, v)) in e.members.iter().enumerate() {
                write!(o, "{}\n  {n} = {v}", if i > 0 { "," } else { "" }).unwrap();
            }
            o.push_str(if self.r.bool() { ",\n}\n" } else { "\n}\n" });
            items[e.file].push(o);
        }
        for s in &p.structs {
            let mut o = format!("{}struct {} {{\n", if p.files[s.file].module.is_empty() { "" } else { "public " }, s.name);
            for (n, t) in &s.fields {
                writeln!(o, "  {}let {n}: {};", if self.r.bool() { "public " } else { "" }, p.ty(t)).unwrap();
            }
            o.push_str("}\n");
            items[s.file].push(o);
        }
        for c in &p.classes {
            let mut o = String::new();
            if !p.files[c.file].module.is_empty() {
                o.push_str("public ");
            }
            if c.abs {
                o.push_str("abstract ");
            }
            write!(o, "class {}", c.name).unwrap();
            if let Some(b) = c.base {
                write!(o, " extends {}", p.classes[b].name).unwrap();
            } else if self.r.bool() {
                o.push_str(" extends IScriptable");
            }
            o.push_str(" {\n");
            let mut members = vec![];
            for f in c.fields.iter() {
                let mut m = String::new();
                if f.added {
                    writeln!(m, "@addField({})", c.name).unwrap();
                }
                write!(m, "{}let {}: {}", if f.added { "" } else { "  " }, f.name, p.ty(&f.ty)).unwrap();
                if let Some(d) = &f.default {
                    let d = self.expr(d);
                    write!(m, " = {d}").unwrap();
                }
                m.push_str(";\n");
                if f.added {
                    items[f.file].push(m);
                } else {
                    members.push(m);
                }
            }
            for f in &c.funs {
                let f = &p.funs[*f];
                let mut m = String::new();
                if f.added {
                    self.fun(f, &format!("@addMethod({})", c.name), None, 0, &mut m);
                    items[f.file].push(m);
                } else {
                    self.fun(f, "", None, 1, &mut m);
                    members.push(m);
                }
            }
            // methods and fields may come in any order; the order of fields among themselves is kept
            let nf = c.fields.iter().filter(|f| !f.added).count();
            let funs = members.split_off(nf);
            for (i, f) in funs.into_iter().enumerate() {
                let at = self.r.below(members.len() + 1);
                let _ = i;
                members.insert(at, f);
            }
            for m in members {
                o.push_str(&m);
            }
            o.push_str("}\n");
            items[c.file].push(o);
        }
        for f in &p.funs {
            if f.class.is_none() {
                let mut o = String::new();
                self.fun(f, "", None, 0, &mut o);
                items[f.file].push(o);
            }
        }
        for list in &mut items {
            self.r.shuffle(list);
        }
        // the order of layers over the same target matters, so these are not shuffled
        for f in &p.funs {
            let cls = f.class.map(|c| p.classes[c].name.clone()).unwrap_or_default();
            if let Some(l) = &f.replaced {
                let mut o = String::new();
                let head = if f.class.is_some() { format!("@replaceMethod({cls})") } else { "@replaceGlobal()".into() };
                self.fun(f, &head, Some(l), 0, &mut o);
                items[l.file].push(o);
            }
            for l in &f.wraps {
                let mut o = String::new();
                self.fun(f, &format!("@wrapMethod({cls})"), Some(l), 0, &mut o);
                items[l.file].push(o);
            }
        }
        let mut out = vec![];
        for (i, list) in items.iter().enumerate() {
            let mut o = String::new();
            if self.noise && self.r.chance(1, 3) {
                o.push_str("// a script\n/* with /* nested */ comments */\n");
            }
            if !p.files[i].module.is_empty() {
                writeln!(o, "module {}", p.files[i].module).unwrap();
            }
            o.push_str(&self.imports(i));
            for x in list {
                o.push_str(x);
                if self.noise && self.r.chance(1, 6) {
                    o.push('\n');
                }
            }
            out.push(o);
        }
        out
    }
    /// everything top-level that lives in a module other than the file's own
    fn imports(&mut self, file: usize) -> String {
        let p = self.p;
        let mut by: std::collections::BTreeMap<String, Vec<String>> = Default::default();
        let here = p.files[file].module.clone();
        let mut add = |f: usize, n: &str| {
            let m = &p.files[f].module;
            if !m.is_empty() && *m != here && p.files[f].stage <= p.files[file].stage {
                let v = by.entry(m.clone()).or_default();
                if !v.contains(&n.to_owned()) {
                    v.push(n.to_owned());
                }
            }
        };
        for e in &p.enums {
            add(e.file, &e.name);
        }
        for s in &p.structs {
            add(s.file, &s.name);
        }
        for c in &p.classes {
            add(c.file, &c.name);
        }
        for f in p.funs.iter().filter(|f| f.class.is_none()) {
            add(f.file, &f.name);
        }
        let mut o = String::new();
        for (m, names) in by {
            match self.r.below(3) {
                0 => writeln!(o, "import {m}.*").unwrap(),
                1 => writeln!(o, "import {m}.{{{}}}", names.join(", ")).unwrap(),
                _ => {
                    for n in names {
                        writeln!(o, "import {m}.{n}").unwrap();
                    }
                }
            }
        }
        o
    }
}

/// a `<` outside parentheses: the text could be taken for the start of type arguments
fn top_level_less(s: &str) -> bool {
    let mut d = 0i32;
    for c in s.bytes() {
        match c {
            b'(' | b'[' => d += 1,
            b')' | b']' => d -= 1,
            b'<' if d <= 0 => return true,
            _ => {}
        }
    }
    false
}

// ---------------------------------------------------------------------------------------------- running

pub struct Interp<'a> {
    pub p: &'a Prog,
    pub m: Machine,
    pub seen: HashMap<&'static str, u64>,
    depth: usize,
}

struct Env {
    scopes: Vec<HashMap<String, Place>>,
    this: Option<usize>,
    /// function and the layer below
    wrapped: Option<(usize, usize)>,
}

enum Flow {
    Next,
    Break,
    Return(V),
}

type R<T> = Result<T, String>;

pub fn op_name(op: &str) -> &'static str {
    match op {
        "+" | "+=" => "OperatorAdd",
        "-" | "-=" => "OperatorSubtract",
        "*" | "*=" => "OperatorMultiply",
        "/" | "/=" => "OperatorDivide",
        "%" => "OperatorModulo",
        "|" | "|=" => "OperatorOr",
        "^" => "OperatorXor",
        "&" | "&=" => "OperatorAnd",
        "<" => "OperatorLess",
        "<=" => "OperatorLessEqual",
        ">" => "OperatorGreater",
        ">=" => "OperatorGreaterEqual",
        "==" => "OperatorEqual",
        "!=" => "OperatorNotEqual",
        "!" => "OperatorLogicNot",
        "~" => "OperatorBitNot",
        _ => unreachable!("{op}"),
    }
}

impl<'a> Interp<'a> {
    pub fn new(p: &'a Prog, fuel: u64) -> Self {
        Interp { p, m: Machine::new(fuel), seen: HashMap::new(), depth: 0 }
    }
    fn hit(&mut self, s: &'static str) {
        *self.seen.entry(s).or_default() += 1;
    }
    pub fn main(&mut self, args: Vec<V>) -> R<V> {
        let args = args.into_iter().map(|v| Some(Place::temp(v))).collect();
        self.call(self.p.main, None, args)
    }
    pub fn call(&mut self, f: usize, this: Option<usize>, args: Vec<Option<Place>>) -> R<V> {
        let layers = self.p.funs[f].wraps.len();
        self.layer(f, layers, this, args)
    }
    /// `depth`: 0 is the function itself (or its replacement), n the n-th wrapper
    fn layer(&mut self, f: usize, depth: usize, this: Option<usize>, args: Vec<Option<Place>>) -> R<V> {
        self.m.step()?;
        let p = self.p;
        let fun = &p.funs[f];
        self.depth += 1;
        if self.depth > 60 {
            return Err("FUEL (depth)".into());
        }
        let layer = if depth > 0 { Some(&fun.wraps[depth - 1]) } else { fun.replaced.as_ref() };
        if depth > 0 {
            self.hit("wrapper");
        } else if layer.is_some() {
            self.hit("replacement");
        }
        let mut top = HashMap::new();
        for (i, (prm, a)) in fun.params.iter().zip(args).enumerate() {
            let name = layer.map_or(&prm.name, |l| &l.params[i]).clone();
            let place = match a {
                None => {
                    self.hit("omitted");
                    Place::cell(self.m.alloc(p.default(&prm.ty)))
                }
                Some(a) if prm.out => a,
                Some(a) => {
                    let v = self.m.read(&a)?.ok_or("argument out of range")?;
                    Place::cell(self.m.alloc(v))
                }
            };
            top.insert(name, place);
        }
        let mut env = Env { scopes: vec![top], this, wrapped: (depth > 0).then(|| (f, depth - 1)) };
        let body = layer.map_or(&fun.body, |l| &l.body);
        let flow = self.block(&mut env, body)?;
        self.depth -= 1;
        Ok(match (flow, &fun.ret) {
            (Flow::Return(v), _) => v,
            (_, None) => V::Void,
            (_, Some(t)) => p.default(t),
        })
    }
    fn block(&mut self, env: &mut Env, b: &[S]) -> R<Flow> {
        env.scopes.push(HashMap::new());
        let r = self.seq(env, b);
        env.scopes.pop();
        r
    }
    fn seq(&mut self, env: &mut Env, b: &[S]) -> R<Flow> {
        for s in b {
            match self.stmt(env, s)? {
                Flow::Next => {}
                f => return Ok(f),
            }
        }
        Ok(Flow::Next)
    }
    fn stmt(&mut self, env: &mut Env, s: &S) -> R<Flow> {
        self.m.step()?;
        match s {
            S::Let(n, t, e, _) => {
                let v = match e {
                    Some(e) => self.ev(env, e)?,
                    None => self.p.initial(t),
                };
                let c = self.m.alloc(v);
                if env.scopes.iter().any(|s| s.contains_key(n)) {
                    self.hit("shadowing");
                }
                env.scopes.last_mut().unwrap().insert(n.clone(), Place::cell(c));
            }
            S::Set(a, b) => {
                let p = self.place(env, a)?;
                let v = self.ev(env, b)?;
                self.m.write(&p, v)?;
            }
            S::SetOp(op, a, b) => {
                let p = self.place(env, a)?;
                let v = self.ev(env, b)?;
                let old = self.m.read(&p)?.ok_or("out of range")?;
                let v = self.bin(op_name(op), &old, &v)?;
                self.m.write(&p, v)?;
            }
            S::Ex(e) => {
                self.ev(env, e)?;
            }
            S::If(c, a, b) => {
                return if self.ev(env, c)?.truth()? {
                    self.block(env, a)
                } else if let Some(b) = b {
                    self.hit("else");
                    self.block(env, b)
                } else {
                    Ok(Flow::Next)
                };
            }
            S::While(c, b) => {
                while self.ev(env, c)?.truth()? {
                    self.hit("iteration");
                    match self.block(env, b)? {
                        Flow::Next => {}
                        Flow::Break => {
                            self.hit("break out of a loop");
                            break;
                        }
                        f => return Ok(f),
                    }
                }
            }
            S::For(n, e, b) => {
                let xs = match self.ev(env, e)? {
                    V::A(xs) => xs,
                    v => return Err(format!("for over {}", v.show())),
                };
                for x in xs {
                    self.m.step()?;
                    self.hit("element");
                    let c = self.m.alloc(x);
                    env.scopes.push(HashMap::from([(n.clone(), Place::cell(c))]));
                    let f = self.block(env, b)?;
                    env.scopes.pop();
                    match f {
                        Flow::Next => {}
                        Flow::Break => {
                            self.hit("break out of a loop");
                            break;
                        }
                        f => return Ok(f),
                    }
                }
            }
            S::Switch(e, cs, d) => {
                let v = self.ev(env, e)?;
                let mut at = None;
                for (i, (m, _)) in cs.iter().enumerate() {
                    if self.ev(env, m)? == v {
                        at = Some(i);
                        break;
                    }
                }
                if let Some(i) = at {
                    self.hit("case");
                    for (_, b) in &cs[i..] {
                        match self.block(env, b)? {
                            Flow::Next => {}
                            Flow::Break => return Ok(Flow::Next),
                            f => return Ok(f),
                        }
                    }
                    self.hit("case into default");
                }
                if let Some(d) = d {
                    self.hit("default");
                    return Ok(match self.block(env, d)? {
                        Flow::Return(v) => Flow::Return(v),
                        _ => Flow::Next,
                    });
                }
            }
            S::Ret(None) => return Ok(Flow::Return(V::Void)),
            S::Ret(Some(e)) => return Ok(Flow::Return(self.ev(env, e)?)),
            S::Break => return Ok(Flow::Break),
            S::Raw(_) => return Err("raw text executed".into()),
        }
        Ok(Flow::Next)
    }
    fn bin(&mut self, name: &str, a: &V, b: &V) -> R<V> {
        let v = bin(name, a, b).ok_or_else(|| format!("reference: {name} of {} and {}", a.show(), b.show()))?;
        too_long(&v)?;
        Ok(v)
    }
    fn nowhere(v: V) -> Place {
        Place { root: Root::Nowhere(Box::new(v)), path: vec![] }
    }
    fn place(&mut self, env: &mut Env, e: &E) -> R<Place> {
        self.m.step()?;
        Ok(match e {
            E::Var(n) => match env.scopes.iter().rev().find_map(|s| s.get(n)) {
                Some(p) => p.clone(),
                None => return Err(format!("reference: no variable {n}")),
            },
            E::Field(o, n, t) => match &**o {
                E::This | E::Method(..) | E::FromWeak(_) | E::Call(..) | E::As(..) | E::New(_) | E::Cond(..) | E::Super(..) => {
                    let o = self.ev(env, o)?;
                    self.member(o, n, t)?
                }
                _ => {
                    let p = self.place(env, o)?;
                    match self.m.read(&p)? {
                        Some(v @ V::O(_)) => self.member(v, n, t)?,
                        Some(V::St(..)) => p.sub(Sub::Field(n.clone())),
                        v => return Err(format!("reference: field of {v:?}")),
                    }
                }
            },
            E::Index(a, i, t) => {
                let p = self.place(env, a)?;
                let i = self.ev(env, i)?.int()?;
                match self.m.read(&p)? {
                    Some(V::A(xs)) if usize::try_from(i).is_ok_and(|i| i < xs.len()) => p.sub(Sub::Index(i)),
                    _ => {
                        self.hit("index out of range");
                        Self::nowhere(self.p.default(t))
                    }
                }
            }
            e => Place::temp(self.ev(env, e)?),
        })
    }
    fn member(&mut self, o: V, n: &str, t: &T) -> R<Place> {
        Ok(match o {
            V::O(Some(o)) => Place { root: Root::Obj(o, n.to_owned()), path: vec![] },
            V::O(None) => {
                self.hit("member of null");
                Self::nowhere(self.p.default(t))
            }
            v => return Err(format!("reference: member of {}", v.show())),
        })
    }
    fn class_of(&self, o: usize) -> usize {
        let n = &self.m.heap[o].class;
        (0..self.p.classes.len()).find(|c| self.p.cname(*c) == *n).unwrap()
    }
    fn args(&mut self, env: &mut Env, f: usize, args: &[E]) -> R<Vec<Option<Place>>> {
        let mut v = vec![];
        for (i, p) in self.p.funs[f].params.iter().enumerate() {
            v.push(match args.get(i) {
                None => None,
                Some(a) if p.out => Some(self.place(env, a)?),
                Some(a) => Some(Place::temp(self.ev(env, a)?)),
            });
        }
        Ok(v)
    }
    fn ev(&mut self, env: &mut Env, e: &E) -> R<V> {
        self.m.step()?;
        let p = self.p;
        Ok(match e {
            E::Lit(v) | E::Widened(_, v) => v.clone(),
            E::Null => V::O(None),
            E::EnumM(e, m) => V::E(p.ename(*e), p.enums[*e].members[*m].1),
            E::Var(_) | E::Field(..) | E::Index(..) => {
                let q = self.place(env, e)?;
                self.m.read(&q)?.ok_or("out of range")?
            }
            E::This => V::O(env.this),
            E::Bin("&&", a, b) => {
                if self.ev(env, a)?.truth()? {
                    V::B(self.ev(env, b)?.truth()?)
                } else {
                    self.hit("operand not needed");
                    V::B(false)
                }
            }
            E::Bin("||", a, b) => {
                if self.ev(env, a)?.truth()? {
                    self.hit("operand not needed");
                    V::B(true)
                } else {
                    V::B(self.ev(env, b)?.truth()?)
                }
            }
            E::Bin(op, a, b) => {
                let a = self.ev(env, a)?;
                let b = self.ev(env, b)?;
                self.bin(op_name(op), &a, &b)?
            }
            E::Un(c, a) => match (c, self.ev(env, a)?) {
                ('!', V::B(b)) => V::B(!b),
                ('-', V::I(i)) => V::I(i.wrapping_neg()),
                ('-', V::F(i)) => V::F(-i),
                ('~', V::I(i)) => V::I(!i),
                (c, v) => return Err(format!("reference: {c}{}", v.show())),
            },
            E::Cond(c, a, b) => {
                if self.ev(env, c)?.truth()? {
                    self.ev(env, a)?
                } else {
                    self.ev(env, b)?
                }
            }
            E::Call(f, args) => {
                let a = self.args(env, *f, args)?;
                if p.funs[*f].class.is_some() {
                    self.hit("static method");
                }
                self.call(*f, None, a)?
            }
            E::Method(o, f, args) => match self.ev(env, o)? {
                V::O(None) => {
                    self.hit("call on null");
                    match &p.funs[*f].ret {
                        Some(t) => p.default(t),
                        None => V::Void,
                    }
                }
                V::O(Some(o)) => {
                    let a = self.args(env, *f, args)?;
                    let target = p.dispatch(self.class_of(o), *f);
                    if target != *f {
                        self.hit("overridden");
                    }
                    self.call(target, Some(o), a)?
                }
                v => return Err(format!("reference: call on {}", v.show())),
            },
            E::Super(f, args) => {
                self.hit("super");
                let a = self.args(env, *f, args)?;
                self.call(*f, env.this, a)?
            }
            E::Wrapped(args) => {
                let (f, l) = env.wrapped.ok_or("reference: nothing wrapped")?;
                let a = self.args(env, f, args)?;
                self.layer(f, l, env.this, a)?
            }
            E::New(c) => {
                let fields = p.all_fields(*c);
                let mut v = vec![];
                for f in fields {
                    let x = match &f.default {
                        Some(E::ToWeak(_)) => V::W(None),
                        Some(d) => self.ev(env, d)?,
                        None => p.default(&f.ty),
                    };
                    v.push((f.name.clone(), x));
                }
                self.m.heap.push(Obj { class: p.cname(*c), fields: v });
                V::O(Some(self.m.heap.len() - 1))
            }
            E::Make(s, args) => {
                let d = &p.structs[*s];
                let mut v = vec![];
                for (f, a) in d.fields.iter().zip(args) {
                    v.push((f.0.clone(), self.ev(env, a)?));
                }
                V::St(p.qual(d.file, &d.name), v)
            }
            E::Interp(pre, parts) => {
                let mut s = pre.clone();
                for (e, t) in parts {
                    s.push_str(&self.ev(env, e)?.text());
                    s.push_str(t);
                }
                let v = V::S(s);
                too_long(&v)?;
                v
            }
            E::Arr(es, _) => {
                let mut v = vec![];
                for e in es {
                    v.push(self.ev(env, e)?);
                }
                V::A(v)
            }
            E::Intr(n, args, t) => self.intr(env, n, args, t)?,
            E::As(e, c) => match self.ev(env, e)? {
                V::O(Some(o)) => {
                    let ok = p.derives(self.class_of(o), *c);
                    self.hit(if ok { "cast" } else { "failed cast" });
                    V::O(ok.then_some(o))
                }
                V::O(None) => V::O(None),
                v => return Err(format!("reference: cast of {}", v.show())),
            },
            E::Nat(n, args) => {
                let mut out = None;
                let mut vals = vec![];
                for (i, a) in args.iter().enumerate() {
                    if i == 0 && *n == "Bump" {
                        let q = self.place(env, a)?;
                        vals.push(V::Void);
                        out = Some(q);
                    } else {
                        vals.push(self.ev(env, a)?);
                    }
                }
                if let Some(q) = &out {
                    vals[0] = self.m.read(q)?.ok_or("out of range")?;
                }
                native(&mut self.m, n, &vals, out.as_ref())?
            }
            E::ToWeak(e) => match self.ev(env, e)? {
                V::O(o) => V::W(o),
                v => return Err(format!("reference: weak {}", v.show())),
            },
            E::FromWeak(e) => match self.ev(env, e)? {
                V::W(o) => V::O(o),
                v => return Err(format!("reference: strong {}", v.show())),
            },
            E::ToVariant(e) => V::Var(Some(Box::new(self.ev(env, e)?))),
        })
    }
    fn intr(&mut self, env: &mut Env, n: &'static str, args: &[E], t: &T) -> R<V> {
        let p = self.p;
        if let Some(op) = n.strip_prefix("Array") {
            let place = self.place(env, &args[0])?;
            let mut rest = vec![];
            for a in &args[1..] {
                rest.push(self.ev(env, a)?);
            }
            let mut xs = match self.m.read(&place)? {
                Some(V::A(xs)) => xs,
                v => return Err(format!("reference: {n} of {v:?}")),
            };
            let elem = p.default(t);
            let (v, write) = match op {
                "Clear" => {
                    xs.clear();
                    (V::Void, true)
                }
                "Size" => (V::I(xs.len() as i32), false),
                "Resize" => {
                    xs.resize(rest[0].int()?.clamp(0, 300) as usize, elem);
                    (V::Void, true)
                }
                "Grow" => {
                    let k = (xs.len() + rest[0].int()?.clamp(0, 300) as usize).min(300);
                    xs.resize(k, elem);
                    (V::Void, true)
                }
                "FindFirst" | "FindLast" => (if xs.contains(&rest[0]) { rest[0].clone() } else { elem }, false),
                "Contains" => (V::B(xs.contains(&rest[0])), false),
                "Count" => (V::I(xs.iter().filter(|y| **y == rest[0]).count() as i32), false),
                "Push" => {
                    if xs.len() < 300 {
                        xs.push(rest[0].clone());
                    }
                    (V::Void, true)
                }
                "Pop" => (xs.pop().unwrap_or(elem), true),
                "Insert" => {
                    let k = rest[0].int()?.clamp(0, xs.len() as i64) as usize;
                    if xs.len() < 300 {
                        xs.insert(k, rest[1].clone());
                    }
                    (V::Void, true)
                }
                "Remove" => match xs.iter().position(|y| *y == rest[0]) {
                    Some(k) => {
                        xs.remove(k);
                        (V::B(true), true)
                    }
                    None => (V::B(false), false),
                },
                "Erase" => match usize::try_from(rest[0].int()?).ok().filter(|k| *k < xs.len()) {
                    Some(k) => {
                        xs.remove(k);
                        (V::B(true), true)
                    }
                    None => (V::B(false), false),
                },
                "Last" => (xs.last().cloned().unwrap_or(elem), false),
                _ => return Err(format!("reference: {n}")),
            };
            if write {
                self.m.write(&place, V::A(xs))?;
            }
            return Ok(v);
        }
        let mut v = vec![];
        for a in args {
            v.push(self.ev(env, a)?);
        }
        Ok(match (n, v.as_slice()) {
            ("Equals", [a, b]) => V::B(a == b),
            ("NotEquals", [a, b]) => V::B(a != b),
            ("ToString", [a]) => V::S(a.text()),
            ("EnumInt", [V::E(_, i)]) => V::I(*i as i32),
            ("IntEnum", [V::I(i)]) => match t {
                T::Enum(e) => V::E(p.ename(*e), i64::from(*i)),
                _ => return Err("reference: IntEnum".into()),
            },
            ("IsDefined", [V::O(o) | V::W(o)]) => V::B(o.is_some()),
            ("ToVariant", [a]) => V::Var(Some(Box::new(a.clone()))),
            ("FromVariant", [V::Var(Some(x))]) => {
                let d = p.default(t);
                if d.kind() == x.kind() {
                    (**x).clone()
                } else {
                    d
                }
            }
            _ => return Err(format!("reference: {n} of {v:?}")),
        })
    }
}

pub fn too_long(v: &V) -> R<()> {
    match v {
        V::S(s) if s.len() > 4000 => Err("FUEL (length)".into()),
        _ => Ok(()),
    }
}
