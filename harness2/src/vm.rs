//! Executes compiled bytecode, read from the saved file by the independent reader. Everything an instruction says
//! about its operands is checked against what is found there: locals and parameters belong to the running function,
//! types and fields are of the right kind, jumps land on instructions.
use std::collections::HashMap;

use vmon::spec::*;

use crate::machine::*;

pub struct Fun {
    pub idx: u32,
    pub name: String,
    /// (offset of instruction, instruction)
    pub code: Vec<(u32, SInstr)>,
    pub at: HashMap<u32, usize>,
    pub end: u32,
}

pub struct Vm<'a> {
    pub b: &'a SBundle,
    pub m: Machine,
    funs: HashMap<u32, std::rc::Rc<Fun>>,
    pub ops: std::collections::HashSet<u8>,
    pub calls: u64,
    /// the line stored with calls of `Mark`, by mark
    pub lines: std::collections::BTreeMap<i32, u16>,
    depth: usize,
}

struct Frame {
    f: std::rc::Rc<Fun>,
    this: Option<usize>,
    params: HashMap<u32, Place>,
    locals: HashMap<u32, Place>,
}

enum Flow {
    Next(usize),
    Return(V),
}

type R<T> = Result<T, String>;

impl<'a> Vm<'a> {
    pub fn new(b: &'a SBundle, fuel: u64) -> Vm<'a> {
        Vm { b, m: Machine::new(fuel), funs: HashMap::new(), ops: Default::default(), calls: 0, lines: Default::default(), depth: 0 }
    }
    pub fn name_of(&self, idx: u32) -> R<&'a str> {
        let d = self.b.defs.get(idx as usize).ok_or_else(|| format!("no definition {idx}"))?;
        self.b.names.get(d.name as usize).map(String::as_str).ok_or_else(|| format!("definition {idx} has no name"))
    }
    pub fn function(&self, idx: u32) -> R<&'a SFunction> {
        match self.b.defs.get(idx as usize).map(|d| &d.val) {
            Some(SVal::Function(f)) => Ok(f),
            _ => Err(format!("definition {idx} is not a function")),
        }
    }
    fn class(&self, idx: u32) -> R<&'a SClass> {
        match self.b.defs.get(idx as usize).map(|d| &d.val) {
            Some(SVal::Class(c)) => Ok(c),
            _ => Err(format!("definition {idx} is not a class")),
        }
    }
    pub fn find(&self, name: &str) -> Option<u32> {
        self.b.defs.iter().enumerate().skip(1).find_map(|(i, d)| {
            let ok = d.parent == 0
                && matches!(d.val, SVal::Function(_) | SVal::Class(_) | SVal::Enum { .. })
                && self.b.names.get(d.name as usize).is_some_and(|n| n == name);
            ok.then_some(i as u32)
        })
    }
    fn fun(&mut self, idx: u32) -> R<std::rc::Rc<Fun>> {
        if let Some(f) = self.funs.get(&idx) {
            return Ok(f.clone());
        }
        let f = self.function(idx)?;
        let mut code = vec![];
        let mut at = HashMap::new();
        let mut off = 0;
        for i in &f.code {
            at.insert(off, code.len());
            code.push((off, i.clone()));
            off += i.virt_size();
        }
        let f = std::rc::Rc::new(Fun { idx, name: self.name_of(idx)?.to_owned(), code, at, end: off });
        self.funs.insert(idx, f.clone());
        Ok(f)
    }
    pub fn default(&self, ty: u32) -> R<V> {
        let d = self.b.defs.get(ty as usize).ok_or("no such type")?;
        let (tag, inner, size) = match d.val {
            SVal::Type(t, i, s) => (t, i, s),
            _ => return Err(format!("definition {ty} is not a type")),
        };
        let name = self.name_of(ty)?;
        Ok(match tag {
            0 => match name {
                "Bool" => V::B(false),
                "Int32" => V::I(0),
                "Int64" => V::L(0),
                "Uint32" => V::U(0),
                "Uint64" => V::UL(0),
                "Float" => V::F(0.0),
                "Double" => V::D(0.0),
                "String" => V::S(String::new()),
                "CName" => V::N("None".into()),
                "TweakDBID" => V::T(String::new()),
                "ResRef" => V::R(String::new()),
                "Variant" => V::Var(None),
                n if SMALL.contains(&n) => V::K(SMALL.iter().position(|k| *k == n).unwrap() as u8, 0),
                n => return Err(format!("primitive type {n}")),
            },
            1 => {
                let c = self.find(name).ok_or_else(|| format!("type {name} has no definition"))?;
                match &self.b.defs[c as usize].val {
                    SVal::Enum { .. } => V::E(name.to_owned(), 0),
                    SVal::Class(_) => self.structure(c)?,
                    _ => return Err(format!("type {name} is neither an enum nor a struct")),
                }
            }
            2 => V::O(None),
            3 => V::W(None),
            4 => V::A(vec![]),
            5 => V::A(vec![self.default(inner)?; size as usize]),
            6 => self.default(inner)?,
            t => return Err(format!("type tag {t}")),
        })
    }
    fn structure(&self, c: u32) -> R<V> {
        let cls = self.class(c)?;
        if cls.flags & cf::STRUCT == 0 {
            return Err(format!("{} is not a struct", self.name_of(c)?));
        }
        let mut fs = vec![];
        for f in &cls.fields {
            fs.push((self.name_of(*f)?.to_owned(), self.default(self.field(*f)?.type_)?));
        }
        Ok(V::St(self.name_of(c)?.to_owned(), fs))
    }
    fn field(&self, idx: u32) -> R<&'a SField> {
        match self.b.defs.get(idx as usize).map(|d| &d.val) {
            Some(SVal::Field(f)) => Ok(f),
            _ => Err(format!("definition {idx} is not a field")),
        }
    }
    fn parse_default(&self, ty: u32, text: &str) -> R<V> {
        let bad = || format!("default {text:?} for {}", self.name_of(ty).unwrap_or("?"));
        Ok(match self.default(ty)? {
            V::B(_) => V::B(text.parse().map_err(|_| bad())?),
            V::I(_) => V::I(text.parse().map_err(|_| bad())?),
            V::L(_) => V::L(text.parse().map_err(|_| bad())?),
            V::U(_) => V::U(text.parse().map_err(|_| bad())?),
            V::UL(_) => V::UL(text.parse().map_err(|_| bad())?),
            V::K(k, _) => V::K(k, text.parse().map_err(|_| bad())?),
            V::F(_) => V::F(text.parse().map_err(|_| bad())?),
            V::D(_) => V::D(text.parse().map_err(|_| bad())?),
            V::S(_) => V::S(text.into()),
            V::N(_) => V::N(text.into()),
            V::T(_) => V::T(text.into()),
            V::R(_) => V::R(text.into()),
            V::O(_) if text == "null" => V::O(None),
            V::W(_) if text == "null" => V::W(None),
            V::E(n, _) => {
                let e = self.find(&n).ok_or_else(bad)?;
                let member = text.rsplit('.').next().unwrap();
                match &self.b.defs[e as usize].val {
                    SVal::Enum { members, .. } => {
                        for x in members {
                            if self.name_of(*x)? == member {
                                if let SVal::EnumValue(v) = self.b.defs[*x as usize].val {
                                    return Ok(V::E(n, v));
                                }
                            }
                        }
                        return Err(bad());
                    }
                    _ => return Err(bad()),
                }
            }
            _ => return Err(bad()),
        })
    }
    pub fn instantiate(&mut self, c: u32) -> R<usize> {
        let mut chain = vec![];
        let mut cur = c;
        while cur != 0 {
            if chain.contains(&cur) {
                return Err("class inherits from itself".into());
            }
            chain.push(cur);
            cur = self.class(cur)?.base;
        }
        if self.class(c)?.flags & (cf::STRUCT | cf::ABSTRACT) != 0 {
            return Err(format!("object of {}", self.name_of(c)?));
        }
        let mut fields = vec![];
        for k in chain.iter().rev() {
            for f in &self.class(*k)?.fields {
                let fd = self.field(*f)?;
                let name = self.name_of(*f)?.to_owned();
                if fields.iter().any(|x: &(String, V)| x.0 == name) {
                    return Err(format!("field {name} occurs twice in {}", self.name_of(c)?));
                }
                let v = match fd.defaults.first() {
                    Some((_, text)) => self.parse_default(fd.type_, text)?,
                    None => self.default(fd.type_)?,
                };
                fields.push((name, v));
            }
        }
        let class = self.name_of(c)?.to_owned();
        self.m.heap.push(Obj { class, fields });
        Ok(self.m.heap.len() - 1)
    }
    /// the method an object's class answers a name with
    pub fn lookup(&self, obj: usize, name: &str) -> R<u32> {
        let class = self.m.heap[obj].class.clone();
        let mut cur = self.find(&class).ok_or("class vanished")?;
        while cur != 0 {
            let c = self.class(cur)?;
            let mut found = c.functions.iter().filter(|f| self.name_of(**f).is_ok_and(|n| n == name));
            if let Some(f) = found.next() {
                if found.next().is_some() {
                    return Err(format!("{} has two methods {name}", self.name_of(cur)?));
                }
                return Ok(*f);
            }
            cur = c.base;
        }
        Err(format!("{class} has no method {name}"))
    }
    fn inherits(&self, obj: usize, base: u32) -> R<bool> {
        let mut cur = self.find(&self.m.heap[obj].class.clone()).ok_or("class vanished")?;
        while cur != 0 {
            if cur == base {
                return Ok(true);
            }
            cur = self.class(cur)?.base;
        }
        Ok(false)
    }

    /// `args`: one entry per parameter; None for an omitted optional one
    pub fn call(&mut self, idx: u32, this: Option<usize>, args: Vec<Option<Place>>) -> R<V> {
        self.m.step()?;
        self.calls += 1;
        let f = self.function(idx)?;
        if args.len() != f.params.len() {
            return Err(format!("{} called with {} arguments", self.name_of(idx)?, args.len()));
        }
        if f.flags & ff::NATIVE != 0 {
            let mut vals = vec![];
            let mut out = None;
            for (p, a) in f.params.iter().zip(&args) {
                let (_, fl) = self.param(*p)?;
                let a = a.as_ref().ok_or("omitted native argument")?;
                vals.push(self.m.read(a)?.ok_or("argument out of range")?);
                if fl & 2 != 0 {
                    out = Some(a.clone());
                }
            }
            let name = self.name_of(idx)?;
            return native(&mut self.m, name, &vals, out.as_ref());
        }
        if f.code.is_empty() {
            return Err(format!("{} has no body", self.name_of(idx)?));
        }
        self.depth += 1;
        if self.depth > 120 {
            return Err("FUEL (depth)".into());
        }
        if (f.flags & ff::STATIC == 0) != this.is_some() {
            return Err(format!("{}: static and instance mixed up", self.name_of(idx)?));
        }
        let mut fr = Frame { f: self.fun(idx)?, this, params: HashMap::new(), locals: HashMap::new() };
        for (p, a) in f.params.iter().zip(args) {
            let (ty, fl) = self.param(*p)?;
            let def = self.default(ty)?;
            let place = match a {
                None if fl & 1 != 0 => Place::cell(self.m.alloc(def)),
                None => return Err(format!("{}: a required argument was omitted", self.name_of(idx)?)),
                Some(a) => {
                    let v = self.m.read(&a)?.unwrap_or_else(|| def.clone());
                    if v.kind() != def.kind() {
                        return Err(format!("{}: {} passed for {}", self.name_of(idx)?, v.show(), self.name_of(ty)?));
                    }
                    if fl & 2 != 0 {
                        a
                    } else {
                        Place::cell(self.m.alloc(v))
                    }
                }
            };
            fr.params.insert(*p, place);
        }
        for l in &f.locals {
            let ty = match self.b.defs.get(*l as usize).map(|d| &d.val) {
                Some(SVal::Local { type_, .. }) => *type_,
                _ => return Err(format!("{}: local {l} is not a local", self.name_of(idx)?)),
            };
            let v = self.default(ty)?;
            fr.locals.insert(*l, Place::cell(self.m.alloc(v)));
        }
        let mut pc = 0;
        let mut ret = V::Void;
        while pc < fr.f.code.len() {
            match self.stmt(&mut fr, pc)? {
                Flow::Next(n) => pc = n,
                Flow::Return(v) => {
                    ret = v;
                    break;
                }
            }
        }
        self.depth -= 1;
        match (f.ret, &ret) {
            (None, V::Void) => {}
            (Some(t), V::Void) => ret = self.default(t)?,
            (Some(t), v) => {
                if self.default(t)?.kind() != v.kind() {
                    return Err(format!("{} returned {}", self.name_of(idx)?, v.show()));
                }
            }
            (None, v) => return Err(format!("{} returned {}", self.name_of(idx)?, v.show())),
        }
        Ok(ret)
    }
    pub fn param(&self, p: u32) -> R<(u32, u8)> {
        match self.b.defs.get(p as usize).map(|d| &d.val) {
            Some(SVal::Parameter { type_, flags }) => Ok((*type_, spec_param(*flags))),
            _ => Err(format!("definition {p} is not a parameter")),
        }
    }
    fn target(fr: &Frame, pc: usize, rel: u64) -> R<usize> {
        let (off, i) = &fr.f.code[pc];
        let t = i64::from(*off) + i64::from(rel as u16 as i16);
        if t == i64::from(fr.f.end) {
            return Ok(fr.f.code.len());
        }
        u32::try_from(t)
            .ok()
            .and_then(|t| fr.f.at.get(&t).copied())
            .ok_or_else(|| format!("{}: instruction {} at {off} jumps to {t}", fr.f.name, i.op))
    }
    fn stmt(&mut self, fr: &mut Frame, pc: usize) -> R<Flow> {
        self.m.step()?;
        let (_, i) = fr.f.code[pc].clone();
        Ok(match i.op {
            0 | 30 => {
                self.ops.insert(i.op);
                Flow::Next(pc + 1)
            }
            31 => {
                self.ops.insert(i.op);
                Flow::Next(Self::target(fr, pc, i.args[0])?)
            }
            32 => {
                self.ops.insert(i.op);
                let (v, n) = self.eval(fr, pc + 1)?;
                Flow::Next(if v.truth()? { n } else { Self::target(fr, pc, i.args[0])? })
            }
            39 => {
                self.ops.insert(i.op);
                let op = fr.f.code.get(pc + 1).ok_or("return at the end of the code")?.1.op;
                if op == 0 {
                    Flow::Return(V::Void)
                } else {
                    Flow::Return(self.eval(fr, pc + 1)?.0)
                }
            }
            28 => {
                self.ops.insert(i.op);
                self.typed(i.args[0], None)?;
                let want = self.default(i.args[0] as u32)?.kind();
                let (v, n) = self.eval(fr, pc + 1)?;
                if v.kind() != want {
                    return Err(format!("switch on {} of another type", v.show()));
                }
                let mut at = Self::target(fr, pc, i.args[1])?;
                if at != n {
                    return Err(format!("{}: the first case is not where the switch says", fr.f.name));
                }
                loop {
                    self.m.step()?;
                    match fr.f.code.get(at).map(|x| x.1.clone()) {
                        Some(l) if l.op == 29 => {
                            self.ops.insert(29);
                            let (c, _) = self.eval(fr, at + 1)?;
                            if c.kind() != v.kind() {
                                return Err(format!("case {} of a switch on {}", c.show(), v.show()));
                            }
                            if c == v {
                                break Flow::Next(Self::target(fr, at, l.args[1])?);
                            }
                            let next = Self::target(fr, at, l.args[0])?;
                            if next <= at {
                                return Err(format!("{}: a case leads back", fr.f.name));
                            }
                            at = next;
                        }
                        _ => break Flow::Next(at),
                    }
                }
            }
            29 => return Err(format!("{}: control runs into a case label", fr.f.name)),
            22 => {
                self.ops.insert(22);
                let (p, n) = self.place(fr, pc + 1)?;
                let (v, n) = self.eval(fr, n)?;
                self.m.write(&p, v)?;
                Flow::Next(n)
            }
            _ => Flow::Next(self.eval(fr, pc)?.1),
        })
    }
    fn typed(&self, t: u64, tag: Option<u8>) -> R<(u8, u32)> {
        match self.b.defs.get(t as usize).map(|d| &d.val) {
            Some(SVal::Type(g, inner, _)) if tag.map_or(true, |x| x == *g) => Ok((*g, *inner)),
            d => Err(format!("operand {t} should be a type of kind {tag:?}, not {d:?}")),
        }
    }
    /// an array operand of the type the instruction names
    fn array(&mut self, fr: &mut Frame, pc: usize, ty: u64) -> R<(Place, Vec<V>, V, usize)> {
        let (_, inner) = self.typed(ty, Some(4))?;
        let def = self.default(inner)?;
        let (p, n) = self.place(fr, pc)?;
        match self.m.read(&p)? {
            Some(V::A(xs)) => {
                if xs.iter().any(|x| x.kind() != def.kind()) {
                    return Err(format!("array operand of another type than {}", self.name_of(ty as u32)?));
                }
                Ok((p, xs, def, n))
            }
            None => Ok((Place { root: Root::Nowhere(Box::new(V::A(vec![]))), path: vec![] }, vec![], def, n)),
            Some(v) => Err(format!("{} used as an array", v.show())),
        }
    }
    /// what the array holds once the other operands are evaluated
    fn elements(&self, p: &Place) -> R<Vec<V>> {
        match self.m.read(p)? {
            Some(V::A(xs)) => Ok(xs),
            v => Err(format!("{v:?} used as an array")),
        }
    }
    fn place(&mut self, fr: &mut Frame, pc: usize) -> R<(Place, usize)> {
        self.m.step()?;
        let (_, i) = fr.f.code.get(pc).ok_or("code ends within an expression")?.clone();
        match i.op {
            24 => {
                self.ops.insert(24);
                let p = fr.locals.get(&(i.args[0] as u32));
                let p = p.ok_or_else(|| format!("{} uses local {} of another function", fr.f.name, i.args[0]))?;
                Ok((p.clone(), pc + 1))
            }
            25 => {
                self.ops.insert(25);
                let p = fr.params.get(&(i.args[0] as u32));
                let p = p.ok_or_else(|| format!("{} uses parameter {} of another function", fr.f.name, i.args[0]))?;
                Ok((p.clone(), pc + 1))
            }
            40 => {
                self.ops.insert(40);
                let name = self.name_of(i.args[0] as u32)?.to_owned();
                self.field(i.args[0] as u32)?;
                let (p, n) = self.place(fr, pc + 1)?;
                Ok((p.sub(Sub::Field(name)), n))
            }
            72 | 85 => {
                self.ops.insert(i.op);
                let (_, inner) = self.typed(i.args[0], Some(if i.op == 72 { 4 } else { 5 }))?;
                let (p, n) = self.place(fr, pc + 1)?;
                let (ix, n) = self.eval(fr, n)?;
                let ix = ix.int()?;
                match self.m.read(&p)? {
                    Some(V::A(xs)) if usize::try_from(ix).is_ok_and(|i| i < xs.len()) => Ok((p.sub(Sub::Index(ix)), n)),
                    Some(V::A(_)) | None => {
                        Ok((Place { root: Root::Nowhere(Box::new(self.default(inner)?)), path: vec![] }, n))
                    }
                    Some(v) => Err(format!("{} indexed", v.show())),
                }
            }
            41 => {
                // Context: the member of an object
                let exit = Self::target(fr, pc, i.args[0])?;
                if exit == 0 || fr.f.code.get(exit - 1).map(|x| x.1.op) != Some(26) {
                    let (v, n) = self.eval(fr, pc)?;
                    return Ok((Place::temp(v), n));
                }
                let (v, n) = self.eval(fr, pc + 1)?;
                let next = fr.f.code.get(n).ok_or("code ends within a context")?.1.clone();
                if next.op != 26 {
                    return Err(format!("{}: context followed by instruction {}", fr.f.name, next.op));
                }
                self.ops.insert(41);
                self.ops.insert(26);
                if exit != n + 1 {
                    return Err(format!("{}: a context ends elsewhere", fr.f.name));
                }
                let fd = self.field(next.args[0] as u32)?;
                let name = self.name_of(next.args[0] as u32)?.to_owned();
                match v {
                    V::O(Some(o)) => {
                        let owner = self.b.defs[next.args[0] as usize].parent;
                        if !self.inherits(o, owner)? {
                            return Err(format!("field {name} of a class the object is not an instance of"));
                        }
                        Ok((Place { root: Root::Obj(o, name), path: vec![] }, n + 1))
                    }
                    V::O(None) => {
                        Ok((Place { root: Root::Nowhere(Box::new(self.default(fd.type_)?)), path: vec![] }, n + 1))
                    }
                    v => Err(format!("{} used as an object", v.show())),
                }
            }
            102 | 103 => {
                self.ops.insert(i.op);
                self.typed(i.args[0], None)?;
                self.place(fr, pc + 1)
            }
            _ => {
                let (v, n) = self.eval(fr, pc)?;
                Ok((Place::temp(v), n))
            }
        }
    }
    fn text(&self, table: u8, i: u64) -> R<String> {
        let t = match table {
            0 => &self.b.names,
            1 => &self.b.tweakdb,
            2 => &self.b.resources,
            _ => &self.b.strings,
        };
        t.get(i as usize).cloned().ok_or_else(|| format!("no constant {i} in table {table}"))
    }
    fn eval(&mut self, fr: &mut Frame, pc: usize) -> R<(V, usize)> {
        self.m.step()?;
        let (_, i) = fr.f.code.get(pc).ok_or("code ends within an expression")?.clone();
        self.ops.insert(i.op);
        let a = |k: usize| i.args[k];
        let n1 = pc + 1;
        Ok(match i.op {
            1 => (V::O(None), n1),
            101 => (V::W(None), n1),
            2 => (V::I(1), n1),
            3 => (V::I(0), n1),
            4 => (V::K(0, i32::from(a(0) as i8)), n1),
            5 => (V::K(1, i32::from(a(0) as i16)), n1),
            8 => (V::K(2, i32::from(a(0) as u8)), n1),
            9 => (V::K(3, i32::from(a(0) as u16)), n1),
            6 => (V::I(a(0) as i32), n1),
            7 => (V::L(a(0) as i64), n1),
            10 => (V::U(a(0) as u32), n1),
            11 => (V::UL(a(0)), n1),
            12 => (V::F(f32::from_bits(a(0) as u32)), n1),
            13 => (V::D(f64::from_bits(a(0))), n1),
            14 => (V::N(self.text(0, a(0))?), n1),
            17 => (V::T(self.text(1, a(0))?), n1),
            18 => (V::R(self.text(2, a(0))?), n1),
            16 => (V::S(self.text(3, a(0))?), n1),
            19 => (V::B(true), n1),
            20 => (V::B(false), n1),
            15 => match (&self.b.defs.get(a(0) as usize).map(|d| &d.val), &self.b.defs.get(a(1) as usize).map(|d| &d.val)) {
                (Some(SVal::Enum { members, .. }), Some(SVal::EnumValue(v))) if members.contains(&(a(1) as u32)) => {
                    (V::E(self.name_of(a(0) as u32)?.to_owned(), *v), n1)
                }
                _ => return Err("enum constant of another enum".into()),
            },
            24 | 25 | 40 | 72 | 85 => {
                let (p, n) = self.place(fr, pc)?;
                (self.m.read(&p)?.ok_or("read out of range")?, n)
            }
            34 => {
                let (c, n) = self.eval(fr, n1)?;
                let other = Self::target(fr, pc, a(0))?;
                let exit = Self::target(fr, pc, a(1))?;
                if c.truth()? {
                    let (v, n) = self.eval(fr, n)?;
                    if n != other {
                        return Err(format!("{}: the arms of a conditional do not meet", fr.f.name));
                    }
                    (v, exit)
                } else {
                    let (v, n) = self.eval(fr, other)?;
                    if n != exit {
                        return Err(format!("{}: a conditional ends elsewhere", fr.f.name));
                    }
                    (v, exit)
                }
            }
            35 => {
                let mut v = self.structure(a(1) as u32)?;
                let mut n = n1;
                let fields = self.class(a(1) as u32)?.fields.clone();
                if a(0) != 0 && a(0) as usize != fields.len() {
                    return Err(format!("{} arguments construct a struct of {}", a(0), fields.len()));
                }
                for k in 0..a(0) as usize {
                    let (x, nn) = self.eval(fr, n)?;
                    n = nn;
                    if let V::St(_, fs) = &mut v {
                        if fs[k].1.kind() != x.kind() {
                            return Err(format!("field {} constructed from {}", fs[k].0, x.show()));
                        }
                        fs[k].1 = x;
                    }
                }
                (v, n)
            }
            48 => (V::O(Some(self.instantiate(a(0) as u32)?)), n1),
            50 => match fr.this {
                Some(o) => (V::O(Some(o)), n1),
                None => return Err(format!("{}: this in a static function", fr.f.name)),
            },
            41 => {
                let exit = Self::target(fr, pc, a(0))?;
                let (v, n) = self.eval(fr, n1)?;
                let next = fr.f.code.get(n).ok_or("code ends within a context")?.1.clone();
                match next.op {
                    26 => {
                        let fd = self.field(next.args[0] as u32)?;
                        let name = self.name_of(next.args[0] as u32)?.to_owned();
                        if exit != n + 1 {
                            return Err(format!("{}: a context ends elsewhere", fr.f.name));
                        }
                        match v {
                            V::O(Some(o)) => {
                                let p = Place { root: Root::Obj(o, name), path: vec![] };
                                (self.m.read(&p)?.unwrap(), n + 1)
                            }
                            V::O(None) => (self.default(fd.type_)?, n + 1),
                            v => return Err(format!("{} used as an object", v.show())),
                        }
                    }
                    36 | 37 => match v {
                        V::O(o) => {
                            if let Some(o) = o {
                                let r = self.invoke(fr, n, Some(o))?;
                                if r.1 != exit {
                                    return Err(format!("{}: a context ends elsewhere", fr.f.name));
                                }
                                r
                            } else {
                                let ret = if next.op == 36 { self.function(next.args[2] as u32)?.ret } else { self.virtual_ret(next.args[2])? };
                                let v = match ret {
                                    Some(t) => self.default(t)?,
                                    None => V::Void,
                                };
                                (v, exit)
                            }
                        }
                        v => return Err(format!("{} used as an object", v.show())),
                    },
                    op => return Err(format!("context followed by instruction {op}")),
                }
            }
            36 | 37 => self.invoke(fr, pc, None)?,
            42 | 45 => {
                self.typed(a(0), None)?;
                let (x, n) = self.eval(fr, n1)?;
                let (y, n) = self.eval(fr, n)?;
                if x.kind() != self.default(a(0) as u32)?.kind() {
                    return Err(format!("{} compared as {}", x.show(), self.name_of(a(0) as u32)?));
                }
                (V::B((x == y) == (i.op == 42)), n)
            }
            52 => {
                let (p, _, _, n) = self.array(fr, n1, a(0))?;
                self.m.write(&p, V::A(vec![]))?;
                (V::Void, n)
            }
            53 => {
                let (_, xs, _, n) = self.array(fr, n1, a(0))?;
                (V::I(xs.len() as i32), n)
            }
            54 | 68 => {
                let (p, _, d, n) = self.array(fr, n1, a(0))?;
                let (k, n) = self.eval(fr, n)?;
                let mut xs = self.elements(&p)?;
                let k = k.int()?.clamp(0, 300) as usize;
                let k = if i.op == 54 { k } else { xs.len() + k };
                xs.resize(k.min(300), d);
                self.m.write(&p, V::A(xs))?;
                (V::Void, n)
            }
            55 | 57 | 59 | 61 | 66 => {
                let (p, _, d, n) = self.array(fr, n1, a(0))?;
                let (x, n) = self.eval(fr, n)?;
                let mut xs = self.elements(&p)?;
                if x.kind() != d.kind() {
                    return Err(format!("{} sought in an array of {}", x.show(), d.show()));
                }
                let v = match i.op {
                    55 | 57 => if xs.contains(&x) { x } else { d },
                    59 => V::B(xs.contains(&x)),
                    61 => V::I(xs.iter().filter(|y| **y == x).count() as i32),
                    _ => match xs.iter().position(|y| *y == x) {
                        Some(k) => {
                            xs.remove(k);
                            self.m.write(&p, V::A(xs))?;
                            V::B(true)
                        }
                        None => V::B(false),
                    },
                };
                (v, n)
            }
            63 => {
                let (p, _, d, n) = self.array(fr, n1, a(0))?;
                let (x, n) = self.eval(fr, n)?;
                if x.kind() != d.kind() {
                    return Err(format!("{} pushed to an array of {}", x.show(), d.show()));
                }
                if let Some(V::A(mut xs)) = self.m.read(&p)? {
                    if xs.len() < 300 {
                        xs.push(x);
                    }
                    self.m.write(&p, V::A(xs))?;
                }
                (V::Void, n)
            }
            64 => {
                let (p, mut xs, d, n) = self.array(fr, n1, a(0))?;
                let v = xs.pop().unwrap_or(d);
                self.m.write(&p, V::A(xs))?;
                (v, n)
            }
            65 => {
                let (p, _, d, n) = self.array(fr, n1, a(0))?;
                let (k, n) = self.eval(fr, n)?;
                let (x, n) = self.eval(fr, n)?;
                if x.kind() != d.kind() {
                    return Err(format!("{} inserted in an array of {}", x.show(), d.show()));
                }
                if let Some(V::A(mut xs)) = self.m.read(&p)? {
                    let k = k.int()?.clamp(0, xs.len() as i64) as usize;
                    if xs.len() < 300 {
                        xs.insert(k, x);
                    }
                    self.m.write(&p, V::A(xs))?;
                }
                (V::Void, n)
            }
            69 => {
                let (p, _, _, n) = self.array(fr, n1, a(0))?;
                let (k, n) = self.eval(fr, n)?;
                let mut done = false;
                if let Some(V::A(mut xs)) = self.m.read(&p)? {
                    if let Some(k) = usize::try_from(k.int()?).ok().filter(|k| *k < xs.len()) {
                        xs.remove(k);
                        done = true;
                    }
                    self.m.write(&p, V::A(xs))?;
                }
                (V::B(done), n)
            }
            71 => {
                let (_, xs, d, n) = self.array(fr, n1, a(0))?;
                (xs.last().cloned().unwrap_or(d), n)
            }
            86 => match self.eval(fr, n1)? {
                (V::O(x), n) => (V::B(x.is_some()), n),
                (v, _) => return Err(format!("{} tested as a reference", v.show())),
            },
            87 => match self.eval(fr, n1)? {
                (V::W(x), n) => (V::B(x.is_some()), n),
                (v, _) => return Err(format!("{} tested as a weak reference", v.show())),
            },
            88 => {
                self.typed(a(0), Some(1))?;
                match self.eval(fr, n1)? {
                    (V::E(e, x), n) if e == self.name_of(a(0) as u32)? => (V::I(x as i32), n),
                    (v, _) => return Err(format!("{} converted from an enum", v.show())),
                }
            }
            89 => {
                self.typed(a(0), Some(1))?;
                let e = self.name_of(a(0) as u32)?.to_owned();
                match self.eval(fr, n1)? {
                    (V::I(x), n) => (V::E(e, i64::from(x)), n),
                    (v, _) => return Err(format!("{} converted to an enum", v.show())),
                }
            }
            90 => {
                self.class(a(0) as u32)?;
                match self.eval(fr, n1)? {
                    (V::O(Some(o)), n) => (V::O(self.inherits(o, a(0) as u32)?.then_some(o)), n),
                    (V::O(None), n) => (V::O(None), n),
                    (v, _) => return Err(format!("{} cast", v.show())),
                }
            }
            91 => {
                let want = self.default(a(0) as u32)?.kind();
                let (v, n) = self.eval(fr, n1)?;
                if v.kind() != want {
                    return Err(format!("{} formatted as {}", v.show(), self.name_of(a(0) as u32)?));
                }
                (V::S(v.text()), n)
            }
            98 => {
                let (v, n) = self.eval(fr, n1)?;
                (V::S(v.text()), n)
            }
            92 => {
                let want = self.default(a(0) as u32)?.kind();
                let (v, n) = self.eval(fr, n1)?;
                if v.kind() != want {
                    return Err(format!("{} stored in a variant as {}", v.show(), self.name_of(a(0) as u32)?));
                }
                (V::Var(Some(Box::new(v))), n)
            }
            93 => {
                let d = self.default(a(0) as u32)?;
                match self.eval(fr, n1)? {
                    (V::Var(Some(v)), n) if v.kind() == d.kind() => (*v, n),
                    (V::Var(_), n) => (d, n),
                    (v, _) => return Err(format!("{} used as a variant", v.show())),
                }
            }
            94 => match self.eval(fr, n1)? {
                (V::Var(x), n) => (V::B(x.is_some()), n),
                (v, _) => return Err(format!("{} used as a variant", v.show())),
            },
            95 | 96 => match self.eval(fr, n1)? {
                (V::Var(x), n) => {
                    let k = x.map_or(0, |x| x.kind());
                    (V::B(if i.op == 95 { k == 14 || k == 15 } else { k == 13 }), n)
                }
                (v, _) => return Err(format!("{} used as a variant", v.show())),
            },
            99 => match self.eval(fr, n1)? {
                (V::W(x), n) => (V::O(x), n),
                (v, _) => return Err(format!("{} converted from a weak reference", v.show())),
            },
            100 => match self.eval(fr, n1)? {
                (V::O(x), n) => (V::W(x), n),
                (v, _) => return Err(format!("{} converted to a weak reference", v.show())),
            },
            102 | 103 => {
                self.typed(a(0), None)?;
                let want = self.default(a(0) as u32)?.kind();
                let (v, n) = self.eval(fr, n1)?;
                if v.kind() != want {
                    return Err(format!("reference to {} of another type", v.show()));
                }
                (v, n)
            }
            22 => {
                let (p, n) = self.place(fr, n1)?;
                let (v, n) = self.eval(fr, n)?;
                self.m.write(&p, v)?;
                (V::Void, n)
            }
            op => return Err(format!("{}: instruction {op} where an expression should be", fr.f.name)),
        })
    }
    fn virtual_ret(&self, name: u64) -> R<Option<u32>> {
        let n = self.text(0, name)?;
        for (i, d) in self.b.defs.iter().enumerate() {
            if let SVal::Function(f) = &d.val {
                if self.name_of(i as u32)? == n {
                    return Ok(f.ret);
                }
            }
        }
        Err(format!("no method {n} anywhere"))
    }
    fn invoke(&mut self, fr: &mut Frame, pc: usize, ctx: Option<usize>) -> R<(V, usize)> {
        let (_, i) = fr.f.code[pc].clone();
        self.ops.insert(i.op);
        let exit = Self::target(fr, pc, i.args[0])?;
        let this = ctx.or(fr.this);
        let idx = if i.op == 36 {
            i.args[2] as u32
        } else {
            let name = self.text(0, i.args[2])?;
            let o = this.ok_or_else(|| format!("virtual call of {name} without an object"))?;
            let idx = self.lookup(o, &name)?;
            if self.function(idx)?.flags & ff::NATIVE != 0 {
                return Err(format!("native method {name} is called by name"));
            }
            idx
        };
        let f = self.function(idx)?;
        let this = if f.flags & ff::STATIC != 0 { None } else { this };
        if f.flags & ff::STATIC == 0 && this.is_none() {
            return Err(format!("{} called without an object", self.name_of(idx)?));
        }
        if let (Some(o), true) = (this, f.flags & ff::STATIC == 0) {
            let owner = self.b.defs[idx as usize].parent;
            if owner == 0 || !self.inherits(o, owner)? {
                return Err(format!("{} called on an object of another class", self.name_of(idx)?));
            }
        }
        let params = f.params.clone();
        let mut args = vec![];
        let mut n = pc + 1;
        let short = self.name_of(idx)?.to_owned();
        if let ("Mark", Some(x)) = (short.as_str(), fr.f.code.get(n)) {
            if x.1.op == 6 {
                self.lines.insert(x.1.args[0] as i32, i.args[1] as u16);
            }
        }
        let mut skip_rest: Option<V> = None;
        for (k, p) in params.iter().enumerate() {
            let (_, fl) = self.param(*p)?;
            let op = fr.f.code.get(n).ok_or("code ends within a call")?.1.clone();
            if op.op == 33 {
                if fl & 4 == 0 {
                    return Err(format!("{short}: a strict argument is skippable"));
                }
                self.ops.insert(33);
                let after = Self::target(fr, n, op.args[0])?;
                // the callee decides whether to evaluate the argument
                let first = match &args[0] {
                    Some(p) => self.m.read(p)?.ok_or("out of range")?.truth()?,
                    None => return Err("omitted operand".into()),
                };
                let needed = if short.starts_with("OperatorLogicAnd") { first } else { !first };
                if needed {
                    let (v, e) = self.eval(fr, n + 1)?;
                    if e != after {
                        return Err(format!("{}: a skipped argument ends elsewhere", fr.f.name));
                    }
                    skip_rest = Some(V::B(v.truth()?));
                } else {
                    skip_rest = Some(V::B(first));
                }
                args.push(Some(Place::temp(V::B(false))));
                n = after;
                continue;
            }
            if fl & 4 != 0 {
                return Err(format!("{short}: argument {k} cannot be skipped"));
            }
            if op.op == 0 {
                args.push(None);
                n += 1;
                continue;
            }
            let flagged = i.args[3] >> k & 1 == 1;
            if op.op == 102 {
                let inner = fr.f.code.get(n + 1).ok_or("code ends within a call")?.1.op;
                let temp = !self.lasting(fr, n + 1)?;
                if temp != flagged {
                    return Err(format!("{}: argument {k} of {short} (instruction {inner}) is a reference to a {} but is {}flagged as one to a temporary",
                        fr.f.name, if temp { "temporary" } else { "lasting place" }, if flagged { "" } else { "not " }));
                }
            }
            if fl & 2 != 0 {
                let (p, e) = self.place(fr, n)?;
                args.push(Some(p));
                n = e;
            } else {
                let (v, e) = self.eval(fr, n)?;
                args.push(Some(Place::temp(v)));
                n = e;
            }
        }
        if fr.f.code.get(n).map(|x| x.1.op) != Some(38) {
            return Err(format!("{}: arguments of {short} end at instruction {:?}", fr.f.name, fr.f.code.get(n).map(|x| x.1.op)));
        }
        self.ops.insert(38);
        if exit != n + 1 {
            return Err(format!("{}: the call of {short} ends elsewhere", fr.f.name));
        }
        if let Some(v) = skip_rest {
            return Ok((v, n + 1));
        }
        let v = self.call(idx, this, args)?;
        Ok((v, n + 1))
    }
    /// does the expression denote something that outlives the call
    fn lasting(&self, fr: &Frame, pc: usize) -> R<bool> {
        let i = &fr.f.code.get(pc).ok_or("code ends within an expression")?.1;
        Ok(match i.op {
            1..=20 => !matches!(i.op, 1),
            24 | 25 | 50 | 103 => true,
            40 | 72 | 85 => self.lasting(fr, pc + 1)?,
            41 => {
                // a field of an object, not the result of a method
                let exit = Self::target(fr, pc, i.args[0])?;
                fr.f.code.get(exit - 1).map(|x| x.1.op) == Some(26)
            }
            _ => false,
        })
    }
}

/// parameter flags: 1 optional, 2 out, 4 short-circuit
fn spec_param(f: u8) -> u8 {
    f & 7
}
