//! Whether the code of a body is well typed: every value has the type that what receives it needs.
use std::collections::HashMap;
use std::fmt;

use vmon::spec::*;

use crate::wf::name;

#[derive(Clone, PartialEq, Eq)]
pub enum T {
    Void,
    /// `null`
    Null,
    WeakNull,
    /// simple types, structs and enums by name
    Is(String),
    Ref(u32),
    Weak(u32),
    Arr(Box<T>),
    Static(Box<T>, u32),
    Script(Box<T>),
}

impl fmt::Debug for T {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            T::Void => write!(f, "Void"),
            T::Null => write!(f, "null"),
            T::WeakNull => write!(f, "weak null"),
            T::Is(n) => write!(f, "{n}"),
            T::Ref(c) => write!(f, "ref<{c}>"),
            T::Weak(c) => write!(f, "wref<{c}>"),
            T::Arr(t) => write!(f, "array<{t:?}>"),
            T::Static(t, n) => write!(f, "{t:?}[{n}]"),
            T::Script(t) => write!(f, "script_ref<{t:?}>"),
        }
    }
}

/// what is wrong: a short stable name and the text
pub struct Bad {
    pub sig: &'static str,
    pub text: String,
}
type R<X> = Result<X, Bad>;

fn bad<X>(sig: &'static str, text: String) -> R<X> {
    Err(Bad { sig, text })
}

pub struct Types<'a> {
    b: &'a SBundle,
    classes: HashMap<&'a str, u32>,
    methods: HashMap<(u32, &'a str), u32>,
}

impl<'a> Types<'a> {
    pub fn new(b: &'a SBundle) -> Types<'a> {
        let mut classes = HashMap::new();
        let mut methods = HashMap::new();
        for (i, d) in b.defs.iter().enumerate().skip(1) {
            if let SVal::Class(c) = &d.val {
                if let Ok(n) = name(b, i as u32) {
                    classes.insert(n, i as u32);
                }
                for f in &c.functions {
                    if let Ok(n) = name(b, *f) {
                        methods.insert((i as u32, n), *f);
                    }
                }
            }
        }
        Types { b, classes, methods }
    }
    fn ty(&self, i: u64) -> R<T> {
        let Some(d) = self.b.defs.get(i as usize) else { return bad("type", format!("{i} is not a type")) };
        let SVal::Type(tag, inner, n) = d.val else { return bad("type", format!("{i} is not a type")) };
        let class = || match self.b.defs.get(inner as usize).map(|d| &d.val) {
            Some(SVal::Type(1, ..)) => {
                let n = name(self.b, inner).unwrap_or("?");
                match self.classes.get(n) {
                    Some(c) => Ok(*c),
                    None => bad("reference", format!("reference to {n}, which is not a class")),
                }
            }
            v => bad("reference", format!("reference to {v:?}")),
        };
        Ok(match tag {
            0 | 1 => T::Is(name(self.b, i as u32).unwrap_or("?").to_owned()),
            2 => T::Ref(class()?),
            3 => T::Weak(class()?),
            4 => T::Arr(Box::new(self.ty(u64::from(inner))?)),
            5 => T::Static(Box::new(self.ty(u64::from(inner))?), n),
            _ => T::Script(Box::new(self.ty(u64::from(inner))?)),
        })
    }
    fn class(&self, i: u32) -> Option<&'a SClass> {
        match self.b.defs.get(i as usize).map(|d| &d.val) {
            Some(SVal::Class(c)) if i != 0 => Some(c),
            _ => None,
        }
    }
    fn extends(&self, mut c: u32, base: u32) -> bool {
        for _ in 0..200 {
            if c == base {
                return true;
            }
            match self.class(c) {
                Some(k) => c = k.base,
                None => return false,
            }
        }
        false
    }
    /// can a value of the first type be used as one of the second
    fn fits(&self, v: &T, t: &T) -> bool {
        match (v, t) {
            (T::Ref(a), T::Ref(b)) | (T::Weak(a), T::Weak(b)) => self.extends(*a, *b),
            (T::Null, T::Ref(_)) | (T::WeakNull, T::Weak(_)) => true,
            _ => v == t,
        }
    }
    fn show(&self, t: &T) -> String {
        match t {
            T::Ref(c) => format!("ref<{}>", name(self.b, *c).unwrap_or("?")),
            T::Weak(c) => format!("wref<{}>", name(self.b, *c).unwrap_or("?")),
            T::Arr(t) => format!("array<{}>", self.show(t)),
            T::Static(t, n) => format!("{}[{n}]", self.show(t)),
            T::Script(t) => format!("script_ref<{}>", self.show(t)),
            t => format!("{t:?}"),
        }
    }
    pub fn body(&self, fun: u32) -> R<u64> {
        let d = &self.b.defs[fun as usize];
        let SVal::Function(f) = &d.val else { return Ok(0) };
        let ret = match f.ret {
            Some(t) => self.ty(u64::from(t))?,
            None => T::Void,
        };
        let this = if f.flags & ff::STATIC == 0 && self.class(d.parent).is_some() { Some(d.parent) } else { None };
        let mut x = Body { t: self, f, ret, this, checks: 0, switch: vec![], unrelated: vec![] };
        let mut k = 0;
        while k < f.code.len() {
            k = x.stmt(k)?;
        }
        if let Some(u) = x.unrelated.pop() {
            return bad("compare", u);
        }
        Ok(x.checks)
    }
    /// every body of the functions `ok` accepts
    pub fn all(&self, ok: impl Fn(u32) -> bool) -> Result<u64, (&'static str, String)> {
        let mut n = 0;
        for i in 1..self.b.defs.len() as u32 {
            if ok(i) {
                n += self.body(i).map_err(|e| (e.sig, format!("in {}: {}", name(self.b, i).unwrap_or("?"), e.text)))?;
            }
        }
        Ok(n)
    }
}

struct Body<'x, 'a> {
    t: &'x Types<'a>,
    f: &'a SFunction,
    ret: T,
    this: Option<u32>,
    checks: u64,
    switch: Vec<T>,
    unrelated: Vec<String>,
}

impl<'x, 'a> Body<'x, 'a> {
    fn op(&self, k: usize) -> R<&'a SInstr> {
        match self.f.code.get(k) {
            Some(i) => Ok(i),
            None => bad("code", "the code ends within an expression".into()),
        }
    }
    fn fit(&mut self, v: &T, t: &T, sig: &'static str, what: &str) -> R<()> {
        self.checks += 1;
        if self.t.fits(v, t) {
            return Ok(());
        }
        let sig = match (v, t) {
            // a reference to a variable of another class
            (T::Script(v), T::Script(t)) if matches!((&**v, &**t), (T::Ref(_), T::Ref(_)) | (T::Weak(_), T::Weak(_))) => "script-ref-variance",
            // a member of a struct that was not followed to
            (T::Script(_), T::Is(_)) if sig == "struct-member" => "script-ref-member",
            _ => sig,
        };
        bad(sig, format!("{what} needs {}, gets {}", self.t.show(t), self.t.show(v)))
    }
    fn is(&mut self, v: &T, t: &str, sig: &'static str, what: &str) -> R<()> {
        self.fit(v, &T::Is(t.into()), sig, what)
    }
    fn stmt(&mut self, k: usize) -> R<usize> {
        let i = self.op(k)?;
        Ok(match i.op {
            0 | 30 | 31 => k + 1,
            32 => {
                let (v, n) = self.expr(k + 1)?;
                self.is(&v, "Bool", "condition", "a condition")?;
                n
            }
            28 => {
                let t = self.t.ty(i.args[0])?;
                let (v, n) = self.expr(k + 1)?;
                self.fit(&v, &t, "switch", "a switch")?;
                self.switch.push(t);
                n
            }
            29 => {
                let (v, n) = self.expr(k + 1)?;
                // labels belong to one of the switches further up
                if !self.switch.iter().any(|t| self.t.fits(&v, t)) {
                    let all = self.switch.clone();
                    return bad("case", format!("a case is {}, switches are on {all:?}", self.t.show(&v)));
                }
                self.checks += 1;
                n
            }
            39 => {
                if self.op(k + 1)?.op == 0 {
                    if self.ret != T::Void {
                        return bad("return", format!("nothing is returned, {} should be", self.t.show(&self.ret)));
                    }
                    return Ok(k + 2);
                }
                let (v, n) = self.expr(k + 1)?;
                let r = self.ret.clone();
                self.fit(&v, &r, "return", "the result")?;
                n
            }
            22 => {
                let (p, n) = self.expr(k + 1)?;
                let (v, n) = self.expr(n)?;
                self.fit(&v, &p, "assign", "an assignment")?;
                n
            }
            _ => self.expr(k)?.1,
        })
    }
    fn int(&mut self, v: &T) -> R<()> {
        self.checks += 1;
        match v {
            T::Is(n) if ["Int32", "Uint32", "Int64", "Uint64", "Int16", "Uint16", "Int8", "Uint8"].contains(&n.as_str()) => Ok(()),
            v => bad("index", format!("an index or size is {}", self.t.show(v))),
        }
    }
    fn array(&mut self, k: usize, ty: u64) -> R<(T, usize)> {
        let t = self.t.ty(ty)?;
        let (T::Arr(e) | T::Static(e, _)) = t.clone() else { return bad("array-type", format!("array operation on {}", self.t.show(&t))) };
        let (v, n) = self.expr(k)?;
        self.checks += 1;
        if v != t {
            return bad("array-type", format!("operation on {} gets {}", self.t.show(&t), self.t.show(&v)));
        }
        Ok((*e, n))
    }
    fn expr(&mut self, k: usize) -> R<(T, usize)> {
        let i = self.op(k)?;
        let n1 = k + 1;
        let a = |n: usize| i.args[n];
        let prim = |n: &str| T::Is(n.to_owned());
        Ok(match i.op {
            1 => (T::Null, n1),
            101 => (T::WeakNull, n1),
            2 | 3 | 6 => (prim("Int32"), n1),
            4 => (prim("Int8"), n1),
            5 => (prim("Int16"), n1),
            7 => (prim("Int64"), n1),
            8 => (prim("Uint8"), n1),
            9 => (prim("Uint16"), n1),
            10 => (prim("Uint32"), n1),
            11 => (prim("Uint64"), n1),
            12 => (prim("Float"), n1),
            13 => (prim("Double"), n1),
            14 => (prim("CName"), n1),
            15 => (prim(name(self.t.b, a(0) as u32).unwrap_or("?")), n1),
            16 => (prim("String"), n1),
            17 => (prim("TweakDBID"), n1),
            18 => (prim("ResRef"), n1),
            19 | 20 => (prim("Bool"), n1),
            24 | 25 => match &self.t.b.defs.get(a(0) as usize).map(|d| &d.val) {
                Some(SVal::Local { type_, .. } | SVal::Parameter { type_, .. }) => (self.t.ty(u64::from(*type_))?, n1),
                _ => return bad("variable", format!("{} is not a variable", a(0))),
            },
            26 => {
                // a member of this
                let Some(c) = self.this else { return bad("member", "a member in a static function".into()) };
                (self.member(a(0), c)?, n1)
            }
            40 => {
                let (v, n) = self.expr(n1)?;
                let SVal::Field(f) = &self.t.b.defs[a(0) as usize].val else { return bad("member", format!("{} is not a field", a(0))) };
                let owner = name(self.t.b, self.t.b.defs[a(0) as usize].parent).unwrap_or("?").to_owned();
                self.is(&v, &owner, "struct-member", "a member of a struct")?;
                (self.t.ty(u64::from(f.type_))?, n)
            }
            34 => {
                let (c, n) = self.expr(n1)?;
                self.is(&c, "Bool", "condition", "a condition")?;
                let (x, n) = self.expr(n)?;
                let (y, n) = self.expr(n)?;
                self.checks += 1;
                let t = if self.t.fits(&x, &y) {
                    y
                } else if self.t.fits(&y, &x) {
                    x
                } else if let (T::Ref(p), T::Ref(q)) | (T::Weak(p), T::Weak(q)) = (&x, &y) {
                    let mut c = *p;
                    while c != 0 && !self.t.extends(*q, c) {
                        c = self.t.class(c).map_or(0, |k| k.base);
                    }
                    if c == 0 {
                        return bad("branches", format!("a conditional has {} and {}", self.t.show(&x), self.t.show(&y)));
                    }
                    if matches!(x, T::Ref(_)) { T::Ref(c) } else { T::Weak(c) }
                } else {
                    let sig = if matches!((&x, &y), (T::Weak(_), T::Null) | (T::Null, T::Weak(_))) { "weak-or-null" } else { "branches" };
                    return bad(sig, format!("a conditional has {} and {}", self.t.show(&x), self.t.show(&y)));
                };
                (t, n)
            }
            35 => {
                let Some(c) = self.t.class(a(1) as u32) else { return bad("construct", format!("{} is constructed", a(1))) };
                let mut n = n1;
                for k in 0..a(0) as usize {
                    let (v, nn) = self.expr(n)?;
                    n = nn;
                    let Some(SVal::Field(f)) = c.fields.get(k).map(|f| &self.t.b.defs[*f as usize].val) else { return bad("construct", "too many values".into()) };
                    let t = self.t.ty(u64::from(f.type_))?;
                    self.fit(&v, &t, "construct", "a member of a constructed struct")?;
                }
                (prim(name(self.t.b, a(1) as u32).unwrap_or("?")), n)
            }
            36 | 37 => self.call(k, None)?,
            41 => {
                let (v, n) = self.expr(n1)?;
                let T::Ref(c) = v else {
                    let sig = if matches!(v, T::Script(_)) { "script-ref-member" } else { "context" };
                    return bad(sig, format!("a member of {}", self.t.show(&v)));
                };
                let next = self.op(n)?;
                match next.op {
                    26 => (self.member(next.args[0], c)?, n + 1),
                    36 | 37 => self.call(n, Some(c))?,
                    op => return bad("context", format!("instruction {op} in the context of an object")),
                }
            }
            42..=47 => {
                let t = self.t.ty(a(0))?;
                let (x, n) = self.expr(n1)?;
                let (y, n) = self.expr(n)?;
                if i.op == 42 || i.op == 45 {
                    self.fit(&x, &t, "compare", "a comparison")?;
                    // references of different classes can be the same
                    if !matches!((&y, &t), (T::Ref(_) | T::Null, T::Ref(_)) | (T::Weak(_) | T::WeakNull, T::Weak(_))) && !self.t.fits(&y, &t) {
                        self.unrelated.push(format!("{} compared with {}", self.t.show(&t), self.t.show(&y)));
                    }
                }
                (prim("Bool"), n)
            }
            48 => {
                if self.t.class(a(0) as u32).is_none() {
                    return bad("new", format!("an instance of {}", a(0)));
                }
                (T::Ref(a(0) as u32), n1)
            }
            50 => match self.this {
                Some(c) => (T::Ref(c), n1),
                None => return bad("this", "this in a static function".into()),
            },
            52 | 73 => (T::Void, self.array(n1, a(0))?.1),
            53 | 75 => (prim("Int32"), self.array(n1, a(0))?.1),
            54 | 68 => {
                let (_, n) = self.array(n1, a(0))?;
                let (v, n) = self.expr(n)?;
                self.int(&v)?;
                (T::Void, n)
            }
            55..=63 | 66 | 67 | 76..=83 => {
                let (e, n) = self.array(n1, a(0))?;
                let (v, n) = self.expr(n)?;
                self.fit(&v, &e, "element", "an element")?;
                let t = match i.op {
                    55..=58 | 76..=79 => e,
                    59 | 60 | 66 | 67 | 80 | 81 => prim("Bool"),
                    63 => T::Void,
                    _ => prim("Int32"),
                };
                (t, n)
            }
            64 | 71 | 84 => self.array(n1, a(0))?,
            65 => {
                let (e, n) = self.array(n1, a(0))?;
                let (v, n) = self.expr(n)?;
                self.int(&v)?;
                let (v, n) = self.expr(n)?;
                self.fit(&v, &e, "element", "an element")?;
                (T::Void, n)
            }
            69 | 70 => {
                let (_, n) = self.array(n1, a(0))?;
                let (v, n) = self.expr(n)?;
                self.int(&v)?;
                (prim("Bool"), n)
            }
            72 | 85 => {
                let (e, n) = self.array(n1, a(0))?;
                let (v, n) = self.expr(n)?;
                self.int(&v)?;
                (e, n)
            }
            86 | 87 => {
                let (v, n) = self.expr(n1)?;
                self.checks += 1;
                let ok = if i.op == 86 { matches!(v, T::Ref(_) | T::Null) } else { matches!(v, T::Weak(_) | T::WeakNull) };
                if !ok {
                    return bad("defined", format!("whether {} is defined (op {})", self.t.show(&v), i.op));
                }
                (prim("Bool"), n)
            }
            88 => {
                let t = self.t.ty(a(0))?;
                let (v, n) = self.expr(n1)?;
                self.fit(&v, &t, "enum", "a conversion of an enum")?;
                (prim("Int32"), n)
            }
            89 => {
                let t = self.t.ty(a(0))?;
                let (v, n) = self.expr(n1)?;
                self.checks += 1;
                let number = match &v {
                    T::Is(n) => self.t.b.defs.iter().enumerate().any(|(k, d)| k > 0 && matches!(d.val, SVal::Enum { .. }) && name(self.t.b, k as u32).is_ok_and(|m| m == n)),
                    _ => false,
                };
                if !number && self.int(&v).is_err() {
                    return bad("enum", format!("an enum is made of {}", self.t.show(&v)));
                }
                (t, n)
            }
            90 => {
                let (v, n) = self.expr(n1)?;
                self.checks += 1;
                if !matches!(v, T::Ref(_) | T::Null) {
                    let sig = if matches!(v, T::Script(_)) { "cast-script-ref" } else { "cast" };
                    return bad(sig, format!("a cast of {}", self.t.show(&v)));
                }
                (T::Ref(a(0) as u32), n)
            }
            91 | 92 => {
                let t = self.t.ty(a(0))?;
                let (v, n) = self.expr(n1)?;
                self.fit(&v, &t, "convert", if i.op == 91 { "formatting" } else { "storing in a variant" })?;
                (prim(if i.op == 91 { "String" } else { "Variant" }), n)
            }
            93 => {
                let t = self.t.ty(a(0))?;
                let (v, n) = self.expr(n1)?;
                self.is(&v, "Variant", "convert", "reading a variant")?;
                (t, n)
            }
            94..=98 => {
                let (v, n) = self.expr(n1)?;
                self.is(&v, "Variant", "convert", "asking a variant")?;
                (prim(match i.op {
                    97 => "CName",
                    98 => "String",
                    _ => "Bool",
                }), n)
            }
            99 => match self.expr(n1)? {
                (T::Weak(c), n) => (T::Ref(c), n),
                (T::WeakNull, n) => (T::Null, n),
                (v, _) => return bad("weak", format!("{} converted from a weak reference", self.t.show(&v))),
            },
            100 => match self.expr(n1)? {
                (T::Ref(c), n) => (T::Weak(c), n),
                (T::Null, n) => (T::WeakNull, n),
                (v, _) => return bad("weak", format!("{} converted to a weak reference", self.t.show(&v))),
            },
            102 => {
                let t = self.t.ty(a(0))?;
                let (v, n) = self.expr(n1)?;
                self.fit(&v, &t, "script-ref", "taking a reference")?;
                (T::Script(Box::new(t)), n)
            }
            103 => {
                // stored with the type of the reference
                let t = self.t.ty(a(0))?;
                let (v, n) = self.expr(n1)?;
                let T::Script(e) = t.clone() else { return bad("script-ref", format!("{} is followed", self.t.show(&t))) };
                self.fit(&v, &t, "script-ref", "following a reference")?;
                (*e, n)
            }
            22 => {
                let (p, n) = self.expr(n1)?;
                let (v, n) = self.expr(n)?;
                self.fit(&v, &p, "assign", "an assignment")?;
                (T::Void, n)
            }
            op => return bad("code", format!("instruction {op} within an expression")),
        })
    }
    fn member(&mut self, f: u64, c: u32) -> R<T> {
        let d = &self.t.b.defs[f as usize];
        let SVal::Field(x) = &d.val else { return bad("member", format!("{f} is not a field")) };
        self.checks += 1;
        if !self.t.extends(c, d.parent) {
            return bad("member", format!("member {} of {}", name(self.t.b, f as u32).unwrap_or("?"), name(self.t.b, c).unwrap_or("?")));
        }
        self.t.ty(u64::from(x.type_))
    }
    /// whether an expression is a place that stays, as opposed to the result of some computation
    fn lasting(&mut self, k: usize) -> R<bool> {
        Ok(match self.op(k)?.op {
            2..=20 | 24 | 25 | 50 | 103 => true,
            40 | 72 | 85 => self.lasting(k + 1)?,
            41 => {
                let n = self.expr(k + 1)?.1;
                self.op(n)?.op == 26
            }
            _ => false,
        })
    }
    fn call(&mut self, k: usize, on: Option<u32>) -> R<(T, usize)> {
        let i = self.op(k)?;
        let (idx, owner) = if i.op == 36 {
            let idx = i.args[2] as u32;
            let p = self.t.b.defs[idx as usize].parent;
            let SVal::Function(f) = &self.t.b.defs[idx as usize].val else { return bad("call", format!("{idx} is called")) };
            if f.flags & ff::STATIC == 0 {
                let Some(c) = on.or(self.this) else { return bad("call", format!("method {} without an object", name(self.t.b, idx).unwrap_or("?"))) };
                self.checks += 1;
                if !self.t.extends(c, p) {
                    return bad("call", format!("method {} of another class", name(self.t.b, idx).unwrap_or("?")));
                }
            }
            (idx, p)
        } else {
            let Some(n) = self.t.b.names.get(i.args[2] as usize) else { return bad("call", "no such name".into()) };
            let Some(mut c) = on.or(self.this) else { return bad("call", format!("method {n} without an object")) };
            loop {
                if let Some(f) = self.t.methods.get(&(c, n.as_str())) {
                    break (*f, c);
                }
                match self.t.class(c) {
                    Some(k) if k.base != 0 => c = k.base,
                    _ => return bad("call", format!("there is no method {n}")),
                }
            }
        };
        let _ = owner;
        let SVal::Function(f) = &self.t.b.defs[idx as usize].val else { return bad("call", format!("{idx} is called")) };
        let fname = name(self.t.b, idx).unwrap_or("?");
        let mut at = k + 1;
        let mut n = 0;
        loop {
            let x = self.op(at)?;
            if x.op == 38 {
                break;
            }
            let Some(p) = f.params.get(n) else { return bad("call", format!("too many values for {fname}")) };
            let SVal::Parameter { type_, flags } = &self.t.b.defs[*p as usize].val else { return bad("call", format!("{p} is not a parameter")) };
            n += 1;
            if x.op == 0 {
                if flags & 1 == 0 {
                    return bad("call", format!("parameter {} of {fname} is left out", n - 1));
                }
                at += 1;
                continue;
            }
            let start = if x.op == 33 { at + 1 } else { at };
            let (v, next) = self.expr(start)?;
            let t = self.t.ty(u64::from(*type_))?;
            let temp = match v {
                T::Script(_) => !(self.op(start)?.op == 102 && self.lasting(start + 1)?),
                _ => false,
            };
            self.checks += 1;
            if (i.args[3] >> (n - 1) & 1 == 1) != temp {
                return bad("temporary", format!("argument {} of {fname} is {}a reference to a temporary, but flagged otherwise", n - 1, if temp { "" } else { "not " }));
            }
            if flags & 2 != 0 {
                // what comes out has to fit as well
                self.checks += 1;
                if v != t {
                    let sig = match (&v, &t) {
                        (T::Null | T::WeakNull, _) => "out-null",
                        (T::Ref(_), T::Ref(_)) | (T::Weak(_), T::Weak(_)) if self.t.fits(&v, &t) => "out-derived",
                        (T::Script(_), T::Script(_)) => "script-ref-variance",
                        _ => "out",
                    };
                    return bad(sig, format!("{} for an out parameter of {fname} of {}", self.t.show(&v), self.t.show(&t)));
                }
            } else {
                self.fit(&v, &t, "argument", &format!("parameter {} of {fname}", n - 1))?;
            }
            at = next;
        }
        if n != f.params.len() {
            return bad("call", format!("{n} values for {fname}"));
        }
        Ok((
            match f.ret {
                Some(t) => self.t.ty(u64::from(t))?,
                None => T::Void,
            },
            at + 1,
        ))
    }
}
