//! Programs for the decompiler: an environment of definitions, an assembler, and generators that emit bytecode
//! together with the source it means.
use std::collections::HashMap;

use crate::gen;
use crate::rng::Rng;
use crate::spec::*;
use crate::xast::{BINOPS, K, UNOPS, X};

// opcodes
pub const NOP: u8 = 0;
pub const NULL: u8 = 1;
pub const BREAKPOINT: u8 = 21;
pub const ASSIGN: u8 = 22;
pub const LOCAL: u8 = 24;
pub const PARAM: u8 = 25;
pub const OBJECT_FIELD: u8 = 26;
pub const SWITCH: u8 = 28;
pub const SWITCH_LABEL: u8 = 29;
pub const SWITCH_DEFAULT: u8 = 30;
pub const JUMP: u8 = 31;
pub const JUMP_IF_FALSE: u8 = 32;
pub const SKIP: u8 = 33;
pub const CONDITIONAL: u8 = 34;
pub const CONSTRUCT: u8 = 35;
pub const INVOKE_STATIC: u8 = 36;
pub const INVOKE_VIRTUAL: u8 = 37;
pub const PARAM_END: u8 = 38;
pub const RETURN: u8 = 39;
pub const STRUCT_FIELD: u8 = 40;
pub const CONTEXT: u8 = 41;
pub const NEW: u8 = 48;
pub const DELETE: u8 = 49;
pub const THIS: u8 = 50;
pub const PROFILING: u8 = 51;

#[derive(Clone, Debug)]
pub enum Tok {
    /// labels fill the offset operands in order
    I(SInstr, Vec<usize>),
    L(usize),
}

/// resolves labels to offsets relative to the start of each instruction
pub fn assemble(toks: &[Tok]) -> Result<Vec<SInstr>, String> {
    let mut at = HashMap::new();
    let mut pos = 0u32;
    for t in toks {
        match t {
            Tok::I(i, _) => pos += i.virt_size(),
            Tok::L(l) => {
                if at.insert(*l, pos).is_some() {
                    return Err(format!("label {l} bound twice"));
                }
            }
        }
    }
    let mut out = vec![];
    pos = 0;
    for t in toks {
        if let Tok::I(i, labels) = t {
            let mut i = i.clone();
            let mut ls = labels.iter();
            let mut k = 0;
            for f in layout(i.op).unwrap() {
                match f {
                    F::Text => continue,
                    F::Off(_) => {
                        let l = ls.next().ok_or("missing label")?;
                        let target = *at.get(l).ok_or_else(|| format!("label {l} not bound"))?;
                        i.args[k] = u64::from((target as u16).wrapping_sub(pos as u16));
                    }
                    _ => {}
                }
                k += 1;
            }
            pos += i.virt_size();
            out.push(i);
        }
    }
    Ok(out)
}

#[derive(Clone, Debug)]
pub struct Fun {
    pub idx: u32,
    pub name: String,
    pub is_static: bool,
    pub class: Option<usize>,
    pub nparams: usize,
    pub ret: Option<String>,
}

#[derive(Clone, Debug)]
pub struct Cls {
    pub idx: u32,
    pub name: String,
    pub fields: Vec<(u32, String)>,
}

pub struct Env {
    pub b: SBundle,
    tables: HashMap<(u8, String), u32>,
    types: HashMap<String, u32>,
    pub classes: Vec<Cls>,
    pub enums: Vec<(u32, String, Vec<(u32, String)>)>,
    pub funs: Vec<Fun>,
    pub binops: Vec<(u32, &'static str)>,
    pub unops: Vec<(u32, char)>,
    pub virtuals: Vec<String>,
    /// index of the function whose body is being generated
    pub cur: u32,
    pub cur_name: String,
    pub cur_class: usize,
    pub locals: Vec<(u32, String, String)>,
    pub params: Vec<(u32, String)>,
    pub file: u32,
}

/// how a type stored as `ref:array:Int32` is written in the source
pub fn pretty_type(repr: &str) -> String {
    let parts: Vec<&str> = repr.split(':').collect();
    let mut s = parts[parts.len() - 1].to_owned();
    for p in parts[..parts.len() - 1].iter().rev() {
        s = format!("{p}<{s}>");
    }
    s
}

pub const TYPE_NAMES: [&str; 12] = [
    "Int32", "Float", "String", "Bool", "CName", "Uint64", "ref:Alpha", "wref:Beta", "array:Int32", "array:ref:Alpha",
    "script_ref:String", "Double",
];

impl Env {
    pub fn name(&mut self, s: &str) -> u32 {
        self.intern(0, s)
    }
    /// 0 names, 1 tweakdb, 2 resources, 3 strings
    pub fn intern(&mut self, table: u8, s: &str) -> u32 {
        let v = match table {
            0 => &mut self.b.names,
            1 => &mut self.b.tweakdb,
            2 => &mut self.b.resources,
            _ => &mut self.b.strings,
        };
        *self.tables.entry((table, s.to_owned())).or_insert_with(|| {
            v.push(s.to_owned());
            v.len() as u32 - 1
        })
    }
    pub fn add(&mut self, name: &str, parent: u32, val: SVal) -> u32 {
        let name = self.name(name);
        self.b.defs.push(SDef { name, parent, unk: [0; 3], val });
        self.b.defs.len() as u32 - 1
    }
    /// the type definition of a stored type name
    pub fn type_(&mut self, repr: &str) -> u32 {
        if let Some(i) = self.types.get(repr) {
            return *i;
        }
        let val = match repr.split_once(':') {
            None => SVal::Type(if self.classes.iter().any(|c| c.name == repr) { 1 } else { 0 }, 0, 0),
            Some((head, tail)) => {
                let inner = self.type_(tail);
                let tag = match head {
                    "ref" => 2,
                    "wref" => 3,
                    "array" => 4,
                    _ => 6,
                };
                SVal::Type(tag, inner, 0)
            }
        };
        let i = self.add(repr, 0, val);
        self.types.insert(repr.to_owned(), i);
        i
    }
    pub fn function(&mut self, name: &str, parent: u32, flags: u32, params: &[(&str, &str, u8)], ret: Option<&str>) -> u32 {
        let idx = self.add(name, parent, SVal::Function(SFunction::default()));
        let mut f = SFunction { flags, ..SFunction::default() };
        if flags & ff::NATIVE == 0 {
            f.source = Some((self.file, 1));
        }
        for (n, t, fl) in params {
            let type_ = self.type_(t);
            let p = self.add(n, idx, SVal::Parameter { type_, flags: *fl });
            f.params.push(p);
        }
        if !params.is_empty() {
            f.flags |= ff::PARAMS;
        }
        if let Some(t) = ret {
            f.ret = Some(self.type_(t));
            f.flags |= ff::RET;
        }
        self.b.defs[idx as usize].val = SVal::Function(f);
        idx
    }
    pub fn class(&mut self, name: &str, base: u32, flags: u16) -> usize {
        let idx = self.add(name, 0, SVal::Class(SClass { flags, base, ..SClass::default() }));
        self.classes.push(Cls { idx, name: name.to_owned(), fields: vec![] });
        self.classes.len() - 1
    }
    pub fn field(&mut self, class: usize, name: &str, ty: &str) -> u32 {
        let type_ = self.type_(ty);
        let parent = self.classes[class].idx;
        let i = self.add(name, parent, SVal::Field(SField { type_, ..SField::default() }));
        self.classes[class].fields.push((i, name.to_owned()));
        if let SVal::Class(c) = &mut self.b.defs[parent as usize].val {
            c.fields.push(i);
            c.flags |= cf::HAS_FIELDS;
        }
        i
    }
    pub fn method(&mut self, class: usize, idx: u32) {
        let ci = self.classes[class].idx;
        if let SVal::Class(c) = &mut self.b.defs[ci as usize].val {
            c.functions.push(idx);
            c.flags |= cf::HAS_FUNCTIONS;
        }
    }
    pub fn set_code(&mut self, fun: u32, code: Vec<SInstr>) {
        if let SVal::Function(f) = &mut self.b.defs[fun as usize].val {
            f.flags = if code.is_empty() { f.flags & !ff::BODY } else { f.flags | ff::BODY };
            f.code = code;
        }
    }
    pub fn add_local(&mut self, name: &str, ty: &str) -> usize {
        let type_ = self.type_(ty);
        let cur = self.cur;
        let i = self.add(name, cur, SVal::Local { type_, flags: 0 });
        if let SVal::Function(f) = &mut self.b.defs[cur as usize].val {
            f.locals.push(i);
            f.flags |= ff::LOCALS;
        }
        self.locals.push((i, name.to_owned(), ty.to_owned()));
        self.locals.len() - 1
    }

    pub fn empty() -> Env {
        let mut e = Env {
            b: SBundle {
                version: 14,
                names: vec![],
                tweakdb: vec![],
                resources: vec![],
                strings: vec![],
                defs: vec![null_def()],
                ..SBundle::default()
            },
            tables: HashMap::new(),
            types: HashMap::new(),
            classes: vec![],
            enums: vec![],
            funs: vec![],
            binops: vec![],
            unops: vec![],
            virtuals: vec![],
            cur: 0,
            cur_name: String::new(),
            cur_class: 0,
            locals: vec![],
            params: vec![],
            file: 0,
        };
        for t in 0..4 {
            e.intern(t, if t == 0 { "None" } else { "" });
        }
        e.file = e.add("", 0, SVal::SourceFile { id: 1, hash: 2, path: "unit.script".into() });
        e
    }

    /// a small world for function bodies to refer to; the body belongs to a method of class Beta
    pub fn world(r: &mut Rng) -> Env {
        let mut e = Env::empty();
        let alpha = e.class("Alpha", 0, 0);
        let alpha_idx = e.classes[alpha].idx;
        let beta = e.class("Beta", alpha_idx, 0);
        let data = e.class("Data", 0, cf::STRUCT);
        for (c, n, t) in [(alpha, "hp", "Int32"), (alpha, "next", "ref:Alpha"), (beta, "list", "array:Int32"), (data, "dx", "Float"), (data, "inner", "Data")] {
            e.field(c, n, t);
        }
        for (en, ms) in [("Kind", vec!["One", "Two", "Three"]), ("gameMode", vec!["Idle"])] {
            let idx = e.add(en, 0, SVal::Enum { flags: 0, size: 4, members: vec![], unk1: false });
            let mut members = vec![];
            for (k, m) in ms.iter().enumerate() {
                members.push((e.add(m, idx, SVal::EnumValue(k as i64)), (*m).to_owned()));
            }
            e.b.defs[idx as usize].val =
                SVal::Enum { flags: 0, size: 4, members: members.iter().map(|m| m.0).collect(), unk1: false };
            e.enums.push((idx, en.to_owned(), members));
        }
        let p = ("a", "Int32", 0);
        for (n, k, ret) in [
            ("Log", 1, None),
            ("GetTime;", 0, Some("Float")),
            ("Combine;Int32StringInt32;Int32", 3, Some("Int32")),
            ("AddEx;Int32Int32;Int32", 2, Some("Int32")),
            ("Cast;Int32;Float", 1, Some("Float")),
            ("Cast;FloatArr;array:ref:Alpha", 1, Some("array:ref:Alpha")),
            // not conversions
            ("CastRay;Int32Int32;Int32", 2, Some("Int32")),
            ("Cast", 1, Some("Int32")),
            ("castAway;Int32", 1, Some("Int32")),
        ] {
            let odd = r.u32() & (ff::NATIVE | ff::EXEC | ff::CONST | ff::QUEST | ff::THREAD_SAFE | ff::FINAL);
            let idx = e.function(n, 0, ff::STATIC | odd, &vec![p; k], ret);
            e.funs.push(Fun { idx, name: n.into(), is_static: true, class: None, nparams: k, ret: ret.map(str::to_owned) });
        }
        let cname = |e: &Env, c: usize| e.classes[c].idx;
        for (c, n, fl, k) in [
            (alpha, "Make;Int32;Alpha", ff::STATIC, 1),
            (data, "OperatorAdd;IntInt", ff::STATIC, 2),
            (alpha, "Heal;Int32", ff::FINAL, 1),
            (alpha, "Act;Int32", 0, 1),
            (beta, "Jump;", ff::FINAL, 0),
            (beta, "Mix;ABC", ff::NATIVE | ff::FINAL, 3),
            (alpha, "AsRef;X", ff::FINAL, 1),
        ] {
            let parent = cname(&e, c);
            let odd = r.u32() & (ff::NATIVE | ff::CALLBACK | ff::CONST | ff::QUEST | ff::THREAD_SAFE | ff::FINAL);
            let idx = e.function(n, parent, fl | odd, &vec![p; k], None);
            e.method(c, idx);
            e.funs.push(Fun { idx, name: n.into(), is_static: fl & ff::STATIC != 0, class: Some(c), nparams: k, ret: None });
        }
        for (n, sym, _) in BINOPS {
            let full = format!("{n};{}", r.pick(&["Int32Int32;Int32", "FloatFloat;Float", ""]));
            let idx = e.function(&full, 0, ff::STATIC | ff::FINAL | ff::NATIVE, &[p, ("b", "Int32", 0)], Some("Int32"));
            e.binops.push((idx, sym));
        }
        for (n, sym) in UNOPS {
            let idx = e.function(&format!("{n};Int32;Int32"), 0, ff::STATIC | ff::FINAL | ff::NATIVE, &[p], Some("Int32"));
            e.unops.push((idx, sym));
        }
        e.virtuals = vec!["OnTick;Float".into(), "Update".into(), "IsReady;".into(), "OperatorNeg;X".into()];
        // the function under test sometimes overrides a method of the base class
        e.cur_name = if r.bool() { "Act;Int32".into() } else { "Body;".into() };
        e.cur_class = beta;
        let parent = e.classes[beta].idx;
        let name = e.cur_name.clone();
        e.cur = e.function(&name, parent, 0, &[("p0", "Int32", 0), ("p1", "ref:Alpha", 2)], Some("Int32"));
        let cur = e.cur;
        e.method(beta, cur);
        if let SVal::Function(f) = &e.b.defs[cur as usize].val {
            e.params = f.params.iter().zip(["p0", "p1"]).map(|(i, n)| (*i, n.to_owned())).collect();
        }
        let locals = if r.chance(1, 300) { r.range(200, 600) } else { r.below(5) };
        for k in 0..locals {
            let t = *r.pick(&TYPE_NAMES);
            e.add_local(&format!("v{k}"), t);
        }
        e
    }
}

/// intrinsic operations: opcode, name, argument count
pub const INTRINSICS: [(u8, &str, usize); 55] = [
    (42, "Equals", 2),
    (43, "Equals", 2),
    (44, "Equals", 2),
    (45, "NotEquals", 2),
    (46, "NotEquals", 2),
    (47, "NotEquals", 2),
    (49, "Delete", 1),
    (52, "ArrayClear", 1),
    (53, "ArraySize", 1),
    (54, "ArrayResize", 2),
    (55, "ArrayFindFirst", 2),
    (56, "ArrayFindFirst", 2),
    (57, "ArrayFindLast", 2),
    (58, "ArrayFindLast", 2),
    (59, "ArrayContains", 2),
    (60, "ArrayContains", 2),
    (61, "ArrayCount", 2),
    (62, "ArrayCount", 2),
    (63, "ArrayPush", 2),
    (64, "ArrayPop", 1),
    (65, "ArrayInsert", 3),
    (66, "ArrayRemove", 2),
    (67, "ArrayRemove", 2),
    (68, "ArrayGrow", 2),
    (69, "ArrayErase", 2),
    (70, "ArrayErase", 2),
    (71, "ArrayLast", 1),
    (73, "ArraySort", 1),
    (74, "ArraySortByPredicate", 2),
    (75, "ArraySize", 1),
    (76, "ArrayFindFirst", 2),
    (77, "ArrayFindFirst", 2),
    (78, "ArrayFindLast", 2),
    (79, "ArrayFindLast", 2),
    (80, "ArrayContains", 2),
    (81, "ArrayContains", 2),
    (82, "ArrayCount", 2),
    (83, "ArrayCount", 2),
    (84, "ArrayLast", 1),
    (86, "IsDefined", 1),
    (87, "IsDefined", 1),
    (88, "EnumInt", 1),
    (91, "ToString", 1),
    (92, "ToVariant", 1),
    (94, "IsDefined", 1),
    (95, "VariantIsRef", 1),
    (96, "VariantIsArray", 1),
    (97, "VariantTypeName", 1),
    (98, "ToString", 1),
    (99, "WeakRefToRef", 1),
    (100, "RefToWeakRef", 1),
    (102, "AsRef", 1),
    (103, "Deref", 1),
    (89, "IntEnum", 1),
    (93, "FromVariant", 1),
];

/// Emits bytecode and, in step, the source it stands for.
pub struct G<'a> {
    pub e: &'a mut Env,
    pub r: &'a mut Rng,
    pub toks: Vec<Tok>,
    pub next_label: usize,
    pub ops: Vec<u8>,
    /// odd statements that mean nothing (breakpoints, profiling) may be inserted
    pub noise: bool,
}

fn bx(x: X) -> Box<X> {
    Box::new(x)
}
fn id(s: &str) -> X {
    X::Id(s.to_owned())
}

impl<'a> G<'a> {
    pub fn new(e: &'a mut Env, r: &'a mut Rng) -> G<'a> {
        G { e, r, toks: vec![], next_label: 0, ops: vec![], noise: true }
    }
    pub fn label(&mut self) -> usize {
        self.next_label += 1;
        self.next_label - 1
    }
    pub fn bind(&mut self, l: usize) {
        self.toks.push(Tok::L(l));
    }
    pub fn op(&mut self, op: u8, args: &[u64]) {
        self.ops.push(op);
        self.toks.push(Tok::I(SInstr::new(op, args), vec![]));
    }
    pub fn opl(&mut self, op: u8, args: &[u64], labels: &[usize]) {
        self.ops.push(op);
        self.toks.push(Tok::I(SInstr::new(op, args), labels.to_vec()));
    }
    fn ty(&mut self) -> (u32, String) {
        let t = *self.r.pick(&TYPE_NAMES);
        (self.e.type_(t), pretty_type(t))
    }

    pub fn constant(&mut self, numbers: bool) -> X {
        let v = self.r.spicy();
        let k = if numbers { self.r.below(17) } else { 11 + self.r.below(6) };
        let int = |s, v| X::Const(K::Int(s, v));
        match k {
            0 => {
                self.op(2, &[]);
                int("", 1)
            }
            1 => {
                self.op(3, &[]);
                int("", 0)
            }
            2 => {
                self.op(4, &[v & 0xff]);
                int("", (v as u8 as i8).into())
            }
            3 => {
                self.op(5, &[v & 0xffff]);
                int("", (v as u16 as i16).into())
            }
            4 => {
                self.op(6, &[v & 0xffff_ffff]);
                int("", (v as u32 as i32).into())
            }
            5 => {
                self.op(7, &[v]);
                int("l", (v as i64).into())
            }
            6 => {
                self.op(8, &[v & 0xff]);
                int("u", (v as u8).into())
            }
            7 => {
                self.op(9, &[v & 0xffff]);
                int("u", (v as u16).into())
            }
            8 => {
                self.op(10, &[v & 0xffff_ffff]);
                int("u", (v as u32).into())
            }
            9 => {
                self.op(11, &[v]);
                int("ul", v.into())
            }
            10 => {
                if self.r.bool() {
                    let mut f = match self.r.below(4) {
                        3 => *self.r.pick(&[0.0f32, -0.0, 1e-7, 0.005, -0.995, 1e10, 1e20, f32::MAX, f32::MIN_POSITIVE, 1e-45, 16_777_217., 0.125]),
                        0 => f32::from_bits(v as u32),
                        1 => (v as i32 % 100_000) as f32 / 1000.,
                        _ => (v as i32 % 1000) as f32 / 4.,
                    };
                    if !f.is_finite() {
                        f = 0.1;
                    }
                    self.op(12, &[f.to_bits().into()]);
                    X::Const(K::F32(f.to_bits()))
                } else {
                    let mut f = match self.r.below(4) {
                        3 => *self.r.pick(&[0.0f64, -0.0, 1e-7, 0.005, -0.995, 1e10, 1e40, f64::MAX, f64::MIN_POSITIVE, 5e-324, 9_007_199_254_740_993., 0.125]),
                        0 => f64::from_bits(v),
                        1 => (v as i32) as f64 / 1000.,
                        _ => (v as i32 % 1000) as f64 / 4.,
                    };
                    if !f.is_finite() {
                        f = -0.001;
                    }
                    self.op(13, &[f.to_bits()]);
                    X::Const(K::F64(f.to_bits()))
                }
            }
            11..=14 => {
                let t = gen::text(self.r);
                let (op, table, ch) = [(14, 0, 'n'), (16, 3, ' '), (17, 1, 't'), (18, 2, 'r')][k - 11];
                let i = self.e.intern(table, &t);
                self.op(op, &[i.into()]);
                X::Const(K::Str(ch, t))
            }
            15 => {
                self.op(19, &[]);
                X::Const(K::Bool(true))
            }
            _ => {
                self.op(20, &[]);
                X::Const(K::Bool(false))
            }
        }
    }

    pub fn atom(&mut self, numbers: bool) -> X {
        match self.r.below(9) {
            0 | 1 => self.constant(numbers),
            2 | 3 if !self.e.locals.is_empty() => {
                let (i, n, _) = self.r.pick(&self.e.locals).clone();
                self.op(LOCAL, &[i.into()]);
                X::Id(n)
            }
            4 => {
                let (i, n) = self.r.pick(&self.e.params).clone();
                self.op(PARAM, &[i.into()]);
                X::Id(n)
            }
            5 => {
                let (ei, en, ms) = self.r.pick(&self.e.enums).clone();
                let (mi, mn) = self.r.pick(&ms).clone();
                self.op(15, &[ei.into(), mi.into()]);
                X::Member(bx(X::Id(en)), mn)
            }
            6 => {
                let op = if self.r.bool() { NULL } else { 101 };
                self.op(op, &[]);
                X::Null
            }
            7 => {
                let (i, n) = self.r.pick(&self.e.classes[0].fields).clone();
                self.op(OBJECT_FIELD, &[i.into()]);
                X::Member(bx(X::This), n)
            }
            _ => {
                self.op(THIS, &[]);
                X::This
            }
        }
    }

    /// arguments of a call, with skipped (optional) and short-circuited parameters as the compiler emits them
    fn args(&mut self, n: usize, d: usize) -> Vec<X> {
        let mut out = vec![];
        let given = if n > 0 && self.r.chance(1, 5) { self.r.below(n + 1) } else { n };
        for k in 0..n {
            if k >= given {
                self.op(NOP, &[]);
            } else if self.r.chance(1, 6) {
                let l = self.label();
                self.opl(SKIP, &[0], &[l]);
                out.push(self.expr(d, true));
                self.bind(l);
            } else {
                out.push(self.expr(d, true));
            }
        }
        self.op(PARAM_END, &[]);
        out
    }
    pub fn invoke_static(&mut self, idx: u32, n: usize, d: usize) -> Vec<X> {
        let l = self.label();
        let line = self.r.u64() & 0xffff;
        let flags = self.r.u64() & 0xffff;
        self.opl(INVOKE_STATIC, &[0, line, idx.into(), flags], &[l]);
        let a = self.args(n, d);
        self.bind(l);
        a
    }
    fn invoke_virtual(&mut self, d: usize) -> (String, Vec<X>) {
        let n = self.r.pick(&self.e.virtuals).clone();
        let i = self.e.name(&n);
        let l = self.label();
        self.opl(INVOKE_VIRTUAL, &[0, 7, i.into(), 0], &[l]);
        let (k, d) = self.many(3, d);
        let a = self.args(k, d);
        self.bind(l);
        (n, a)
    }
    /// a number of operands, and how deep they are; rarely a large one of simple ones
    fn many(&mut self, below: usize, d: usize) -> (usize, usize) {
        if self.r.chance(1, 40) {
            (*self.r.pick(&[5, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200, 255]), 0)
        } else {
            (self.r.below(below), d)
        }
    }
    /// a fixed-arity operator call, no optional parameters
    fn op_call(&mut self, idx: u32, n: usize, d: usize) -> Vec<X> {
        let l = self.label();
        self.opl(INVOKE_STATIC, &[0, 1, idx.into(), 0], &[l]);
        let a = (0..n).map(|_| self.expr(d, true)).collect();
        self.op(PARAM_END, &[]);
        self.bind(l);
        a
    }

    pub fn expr(&mut self, d: usize, numbers: bool) -> X {
        if d == 0 {
            return self.atom(numbers);
        }
        let d = d - 1;
        match self.r.below(20) {
            0 | 1 => self.atom(numbers),
            2..=5 => {
                let k = self.r.below(self.e.binops.len());
                let idx = self.e.binops[k].0;
                let a = self.op_call(idx, 2, d);
                X::Call(self.def_name(idx), vec![], a)
            }
            6 => {
                let k = self.r.below(self.e.unops.len());
                let idx = self.e.unops[k].0;
                let a = self.op_call(idx, 1, d);
                X::Call(self.def_name(idx), vec![], a)
            }
            7 => {
                let fs: Vec<Fun> = self.e.funs.iter().filter(|f| f.is_static).cloned().collect();
                let f = self.r.pick(&fs).clone();
                let a = self.invoke_static(f.idx, f.nparams, d);
                match f.class {
                    Some(c) => X::Method(bx(id(&self.e.classes[c].name)), f.name, a),
                    None => {
                        let targs = if f.name.starts_with("Cast;") { vec![pretty_type(f.ret.as_ref().unwrap())] } else { vec![] };
                        X::Call(f.name, targs, a)
                    }
                }
            }
            8 | 9 => {
                // method called on an explicit object
                let l = self.label();
                self.opl(CONTEXT, &[0], &[l]);
                let obj = self.expr(d, false);
                let x = self.method(Some(obj), d);
                self.bind(l);
                x
            }
            10 => self.method(None, d),
            11 => {
                let l = self.label();
                self.opl(CONTEXT, &[0], &[l]);
                let obj = self.expr(d, false);
                let c = self.r.below(2);
                let (i, n) = self.r.pick(&self.e.classes[c].fields).clone();
                self.op(OBJECT_FIELD, &[i.into()]);
                self.bind(l);
                X::Member(bx(obj), n)
            }
            12 => {
                let (i, n) = self.r.pick(&self.e.classes[2].fields).clone();
                self.op(STRUCT_FIELD, &[i.into()]);
                let obj = self.expr(d, false);
                X::Member(bx(obj), n)
            }
            13 => {
                let (t, _) = self.ty();
                let op = *self.r.pick(&[72u8, 85]);
                self.op(op, &[t.into()]);
                let a = self.expr(d, false);
                let i = self.expr(d, true);
                X::Elem(bx(a), bx(i))
            }
            14 => {
                let c = self.r.pick(&self.e.classes).clone();
                if self.r.bool() {
                    self.op(NEW, &[c.idx.into()]);
                    X::New(c.name, vec![])
                } else {
                    let (n, d) = self.many(4, d);
                    self.op(CONSTRUCT, &[n as u64, c.idx.into()]);
                    let a = (0..n).map(|_| self.expr(d, true)).collect();
                    X::New(c.name, a)
                }
            }
            15 => {
                let t = *self.r.pick(&["Alpha", "Beta"]);
                let i = self.e.type_(t);
                let k = self.r.below(2) as u64;
                self.op(90, &[i.into(), k]);
                let e = self.expr(d, false);
                X::Cast(t.to_owned(), bx(e))
            }
            16 => {
                let (f, x) = (self.label(), self.label());
                self.opl(CONDITIONAL, &[0, 0], &[f, x]);
                let c = self.expr(d, true);
                let a = self.expr(d, true);
                self.bind(f);
                let b = self.expr(d, true);
                self.bind(x);
                X::Cond(bx(c), bx(a), bx(b))
            }
            _ => {
                let (op, name, n) = *self.r.pick(&INTRINSICS);
                let (t, tn) = self.ty();
                let args: Vec<u64> = layout(op)
                    .unwrap()
                    .iter()
                    .map(|f| if *f == F::P { t.into() } else { self.r.u64() & 0xff })
                    .collect();
                self.op(op, &args);
                // a wrapper the printer omits takes the place of its operand
                let elided = matches!(op, 99 | 100 | 102);
                let a = (0..n).map(|_| self.expr(d, if elided { numbers } else { true })).collect();
                let targs = if matches!(op, 89 | 93) { vec![tn] } else { vec![] };
                X::Call(name.to_owned(), targs, a)
            }
        }
    }
    pub fn def_name(&self, idx: u32) -> String {
        self.e.b.names[self.e.b.defs[idx as usize].name as usize].clone()
    }

    fn method(&mut self, ctx: Option<X>, d: usize) -> X {
        if self.r.bool() {
            let (n, a) = self.invoke_virtual(d);
            return X::Method(bx(ctx.unwrap_or(X::This)), n, a);
        }
        let fs: Vec<Fun> = self.e.funs.iter().filter(|f| !f.is_static).cloned().collect();
        let f = self.r.pick(&fs).clone();
        let a = self.invoke_static(f.idx, f.nparams, d);
        // a non-virtual call of the overridden method is a call of the base implementation
        let is_super = f.name == self.e.cur_name && f.class != Some(self.e.cur_class);
        let obj = match ctx {
            None | Some(X::This) if is_super => X::Super,
            None => X::This,
            Some(x) => x,
        };
        X::Method(bx(obj), f.name, a)
    }

    /// something that can be assigned to
    pub fn place(&mut self, d: usize) -> X {
        match self.r.below(4) {
            0 | 1 if !self.e.locals.is_empty() => {
                let (i, n, _) = self.r.pick(&self.e.locals).clone();
                self.op(LOCAL, &[i.into()]);
                X::Id(n)
            }
            2 => {
                let (t, _) = self.ty();
                self.op(72, &[t.into()]);
                let a = self.expr(d, false);
                let i = self.expr(d, true);
                X::Elem(bx(a), bx(i))
            }
            _ => {
                let l = self.label();
                self.opl(CONTEXT, &[0], &[l]);
                let obj = self.expr(d, false);
                let (i, n) = self.r.pick(&self.e.classes[0].fields).clone();
                self.op(OBJECT_FIELD, &[i.into()]);
                self.bind(l);
                X::Member(bx(obj), n)
            }
        }
    }
    pub fn noise(&mut self) {
        if self.noise && self.r.chance(1, 12) {
            match self.r.below(4) {
                0 => self.op(NOP, &[]),
                3 => {
                    // a jump to the next instruction
                    let l = self.label();
                    self.opl(JUMP, &[0], &[l]);
                    self.bind(l);
                }
                1 => self.op(BREAKPOINT, &[1, 2, 3, 4, 1, 6]),
                _ => {
                    let mut i = SInstr::new(PROFILING, &[1]);
                    i.text = gen::ident(self.r).into_bytes();
                    self.ops.push(PROFILING);
                    self.toks.push(Tok::I(i, vec![]));
                }
            }
        }
    }
    /// a statement without control flow
    pub fn simple(&mut self, d: usize) -> X {
        self.noise();
        if self.r.chance(1, 3) {
            self.op(ASSIGN, &[]);
            let l = self.place(d.min(1));
            let v = self.expr(d, true);
            X::Assign(bx(l), bx(v))
        } else {
            self.expr(d.max(1), true)
        }
    }
}

// ------------------------------------------------------------------ structured programs

/// what the leaves of a structured program look like
pub trait Leaves {
    fn action(g: &mut G<'_>) -> X;
    fn condition(g: &mut G<'_>) -> X;
    fn subject(g: &mut G<'_>) -> X;
    /// matcher of case `k`
    fn matcher(g: &mut G<'_>, k: i32) -> X;
    fn result(g: &mut G<'_>) -> X;
}

#[derive(Clone, Copy)]
pub struct Shape {
    pub depth: usize,
    pub width: usize,
    pub dead: bool,
}

#[derive(Clone, Copy, Default)]
struct In {
    exit: Option<usize>,
    /// breaking out is not generated here (see DESIGN: default case without any other break)
    no_break: bool,
}

/// Structures used, for evidence.
#[derive(Default, Clone, Debug)]
pub struct Used {
    pub ifs: u64,
    pub elses: u64,
    pub whiles: u64,
    pub switches: u64,
    pub defaults: u64,
    pub shared: u64,
    pub fallthrough: u64,
    pub breaks: u64,
    pub returns: u64,
    pub dead: u64,
    pub wide: u64,
}

pub fn program<L: Leaves>(g: &mut G<'_>, sh: Shape, u: &mut Used) -> Vec<X> {
    let b = block::<L>(g, sh, In::default(), u);
    // every function ends like this
    g.op(NOP, &[]);
    b
}

fn ends(b: &[X]) -> bool {
    matches!(b.last(), Some(X::Return(_) | X::Break))
}

fn block<L: Leaves>(g: &mut G<'_>, sh: Shape, i: In, u: &mut Used) -> Vec<X> {
    let mut out: Vec<X> = vec![];
    let n = g.r.below(sh.width + 1);
    for _ in 0..n {
        if ends(&out) {
            if !(sh.dead && g.r.chance(1, 4)) {
                break;
            }
            u.dead += 1;
        }
        out.push(stmt::<L>(g, sh, i, u));
    }
    out
}

fn stmt<L: Leaves>(g: &mut G<'_>, sh: Shape, i: In, u: &mut Used) -> X {
    let inner = Shape { depth: sh.depth.saturating_sub(1), ..sh };
    g.noise();
    let k = if sh.depth == 0 { g.r.below(5) } else { g.r.below(14) };
    match k {
        0 if g.r.bool() => {
            u.returns += 1;
            g.op(RETURN, &[]);
            if g.r.bool() {
                X::Return(Some(bx(L::result(g))))
            } else {
                g.op(NOP, &[]);
                X::Return(None)
            }
        }
        1 if i.exit.is_some() && !i.no_break => {
            u.breaks += 1;
            g.opl(JUMP, &[0], &[i.exit.unwrap()]);
            X::Break
        }
        0..=5 => L::action(g),
        6..=9 => {
            u.ifs += 1;
            let else_l = g.label();
            g.opl(JUMP_IF_FALSE, &[0], &[else_l]);
            let c = L::condition(g);
            let t = block::<L>(g, inner, i, u);
            if g.r.bool() {
                u.elses += 1;
                let exit = g.label();
                g.opl(JUMP, &[0], &[exit]);
                g.bind(else_l);
                let f = block::<L>(g, inner, i, u);
                g.bind(exit);
                X::If(bx(c), t, Some(f))
            } else {
                g.bind(else_l);
                X::If(bx(c), t, None)
            }
        }
        10 | 11 => {
            u.whiles += 1;
            let (exit, start) = (g.label(), g.label());
            g.bind(start);
            g.opl(JUMP_IF_FALSE, &[0], &[exit]);
            let c = L::condition(g);
            let b = block::<L>(g, inner, In { exit: Some(exit), no_break: false }, u);
            g.opl(JUMP, &[0], &[start]);
            g.bind(exit);
            X::While(bx(c), b)
        }
        _ => switch::<L>(g, inner, u),
    }
}

fn switch<L: Leaves>(g: &mut G<'_>, inner: Shape, u: &mut Used) -> X {
    u.switches += 1;
    let (first, exit) = (g.label(), g.label());
    let mut next = g.label();
    let t = g.e.type_("Int32");
    g.opl(SWITCH, &[t.into(), 0], &[first]);
    let subject = L::subject(g);
    g.bind(first);
    let wide = inner.depth < 2 && g.r.chance(1, 30);
    let n = if wide { g.r.range(20, 300) } else { g.r.range(1, 5) };
    u.wide += u64::from(wide);
    let inner = if wide { Shape { depth: 0, width: 1, ..inner } } else { inner };
    let mut cases = vec![];
    let mut body_l = g.label();
    let mut open = false;
    let mut any_break = false;
    for k in 0..n {
        g.bind(next);
        next = g.label();
        g.opl(SWITCH_LABEL, &[0, 0], &[next, body_l]);
        let m = L::matcher(g, k as i32);
        open = true;
        if g.r.chance(1, 4) {
            u.shared += 1;
            cases.push((m, vec![]));
            continue;
        }
        g.bind(body_l);
        body_l = g.label();
        open = false;
        let before = u.breaks;
        let at = g.toks.len();
        let mut b = block::<L>(g, inner, In { exit: Some(exit), no_break: false }, u);
        if b.is_empty() {
            b.push(L::action(g));
        }
        if !ends(&b) {
            if g.r.chance(3, 4) {
                u.breaks += 1;
                g.opl(JUMP, &[0], &[exit]);
                b.push(X::Break);
            } else {
                u.fallthrough += 1;
            }
        }
        if u.breaks > before && jumps_to(&g.toks[at..], exit) {
            any_break = true;
        }
        cases.push((m, b));
    }
    if open {
        // no statements left: the shared body is what follows
        g.bind(body_l);
    }
    g.bind(next);
    let mut default = None;
    if g.r.bool() {
        u.defaults += 1;
        g.op(SWITCH_DEFAULT, &[]);
        let mut b = block::<L>(g, inner, In { exit: Some(exit), no_break: !any_break }, u);
        if any_break && !ends(&b) && g.r.chance(1, 3) {
            g.opl(JUMP, &[0], &[exit]);
            b.push(X::Break);
            u.breaks += 1;
        }
        default = Some(b);
    }
    g.bind(exit);
    X::Switch(bx(subject), cases, default)
}

fn jumps_to(toks: &[Tok], l: usize) -> bool {
    toks.iter().any(|t| matches!(t, Tok::I(i, ls) if i.op == JUMP && ls == &[l]))
}

// ------------------------------------------------------------------ interpreter

#[derive(Debug, Clone, PartialEq)]
pub enum Ev {
    Act(i128),
    Cond(i128, bool),
    Subj(i128, i32),
    Ret(Option<i128>),
    End,
}

enum Flow {
    Next,
    Break,
    Return,
}

/// Runs a structured program against a stream of decisions and records what it does.
pub struct Run<'a> {
    pub bits: &'a [u8],
    pub at: usize,
    pub trace: Vec<Ev>,
    steps: usize,
}

impl<'a> Run<'a> {
    pub fn trace(body: &[X], bits: &'a [u8]) -> Result<Vec<Ev>, String> {
        let mut r = Run { bits, at: 0, trace: vec![], steps: 0 };
        if !matches!(r.block(body)?, Flow::Return) {
            r.trace.push(Ev::End);
        }
        Ok(r.trace)
    }
    fn decide(&mut self) -> u8 {
        let v = self.bits.get(self.at).copied().unwrap_or(0);
        self.at += 1;
        v
    }
    fn arg(&self, x: &X, f: &str) -> Result<i128, String> {
        match x {
            X::Call(n, _, a) if n == f => match a.as_slice() {
                [X::Const(K::Int("", v))] => Ok(*v),
                _ => Err(format!("unexpected arguments of {f}: {a:?}")),
            },
            x => Err(format!("expected a call of {f}, found {x:?}")),
        }
    }
    fn cond(&mut self, x: &X) -> Result<bool, String> {
        let k = self.arg(x, "cond")?;
        // past the end of the stream every condition is false, so every loop ends
        let v = self.decide() & 1 == 1;
        self.trace.push(Ev::Cond(k, v));
        Ok(v)
    }
    fn block(&mut self, b: &[X]) -> Result<Flow, String> {
        for x in b {
            self.steps += 1;
            if self.steps > 200_000 {
                return Err("the program does not terminate".into());
            }
            match x {
                X::Return(None) => {
                    self.trace.push(Ev::Ret(None));
                    return Ok(Flow::Return);
                }
                X::Return(Some(v)) => {
                    let k = self.arg(v, "result")?;
                    self.trace.push(Ev::Ret(Some(k)));
                    return Ok(Flow::Return);
                }
                X::Break => return Ok(Flow::Break),
                X::Seq(v) => match self.block(v)? {
                    Flow::Next => {}
                    f => return Ok(f),
                },
                X::If(c, t, f) => {
                    let flow = if self.cond(c)? {
                        self.block(t)?
                    } else if let Some(f) = f {
                        self.block(f)?
                    } else {
                        Flow::Next
                    };
                    if !matches!(flow, Flow::Next) {
                        return Ok(flow);
                    }
                }
                X::While(c, b) => {
                    while self.cond(c)? {
                        match self.block(b)? {
                            Flow::Next => {}
                            Flow::Break => break,
                            Flow::Return => return Ok(Flow::Return),
                        }
                    }
                }
                X::Switch(s, cases, default) => {
                    let k = self.arg(s, "subject")?;
                    let v = i32::from(self.decide() % 6);
                    self.trace.push(Ev::Subj(k, v));
                    let mut hit = false;
                    let mut flow = Flow::Next;
                    for (m, b) in cases {
                        let X::Const(K::Int("", m)) = m else { return Err(format!("unexpected case {m:?}")) };
                        hit |= *m == i128::from(v);
                        if hit {
                            flow = self.block(b)?;
                            if !matches!(flow, Flow::Next) {
                                break;
                            }
                        }
                    }
                    if matches!(flow, Flow::Next) {
                        if let Some(d) = default {
                            flow = self.block(d)?;
                        }
                    }
                    if matches!(flow, Flow::Return) {
                        return Ok(Flow::Return);
                    }
                }
                X::Declare(_, _, None) => {}
                x => {
                    let k = self.arg(x, "act")?;
                    self.trace.push(Ev::Act(k));
                }
            }
        }
        Ok(Flow::Next)
    }
}
