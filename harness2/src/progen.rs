//! Generates well-typed programs.
use vmon::rng::Rng;

use crate::lang::*;
use crate::machine::V;

#[derive(Clone)]
struct Var {
    name: String,
    ty: T,
    ro: bool,
}

pub struct Shape {
    pub modules: bool,
    pub mods: bool,
    pub size: usize,
}

pub struct Gen<'a> {
    pub r: &'a mut Rng,
    pub p: Prog,
    blocks: Vec<Vec<Var>>,
    this: Option<usize>,
    ret: Option<T>,
    level: usize,
    stage: usize,
    breakable: usize,
    budget: usize,
    /// functions of one name: overloads
    wrapped: Option<usize>,
    marks: i32,
    nest: usize,
}

const NAMES: &[&str] = &[
    "a", "b", "c", "x", "y", "i", "j", "lets", "newish", "nullable", "thisOne", "superb", "trueish", "returned", "ifx",
    "inner", "asx", "n", "r", "t", "s", "_u", "forX", "whiles", "breakx", "v1", "v2", "outer", "opts", "casex", "defaults",
];
const TEXTS: &[&str] = &[
    "", "a", " ", "  ", "None", "x y", "\"q\"", "back\\slash", "new\nline", "tab\t", "it's", "{}", "żółć", "日本", "\u{1F600}", "// no", "/* no */",
    "\\(x)", "<b>", "a\rb", "longer text with several words", "0", "s\"", "\u{7f}",
];
pub const INTS: &[i32] = &[0, 1, 2, 3, 5, 7, 10, 31, 64, 100, 127, 128, 255, 256, 1000, 32767, 65536, -1, -2, -7, -128, i32::MAX, i32::MIN];

fn b(e: E) -> Box<E> {
    Box::new(e)
}

impl<'a> Gen<'a> {
    pub fn new(r: &'a mut Rng) -> Gen<'a> {
        Gen {
            r,
            p: Default::default(),
            blocks: vec![],
            this: None,
            ret: None,
            level: 0,
            stage: 0,
            breakable: 0,
            budget: 0,
            wrapped: None,
            marks: 0,
            nest: 0,
        }
    }
    fn file_of(&mut self, stage: usize) -> usize {
        let c: Vec<usize> = (0..self.p.files.len()).filter(|i| self.p.files[*i].stage == stage).collect();
        *self.r.pick(&c)
    }
    fn prim(&mut self) -> T {
        match self.r.below(16) {
            0..=5 => T::Int,
            6..=8 => T::Bool,
            9 | 10 => T::Str,
            11 => T::Float,
            12 => T::Name,
            13 => self.r.pick(&[T::Tdb, T::Res]).clone(),
            14 => self.r.pick(&[T::Long, T::UInt, T::ULong, T::Double]).clone(),
            _ => T::Int,
        }
    }
    fn stage_ok(&self, file: usize) -> bool {
        self.p.files[file].stage <= self.stage
    }
    fn any_ty(&mut self, refs: bool) -> T {
        let enums: Vec<usize> = (0..self.p.enums.len()).filter(|e| self.stage_ok(self.p.enums[*e].file)).collect();
        let structs: Vec<usize> = (0..self.p.structs.len()).filter(|e| self.stage_ok(self.p.structs[*e].file)).collect();
        let classes: Vec<usize> = (0..self.p.classes.len()).filter(|e| self.stage_ok(self.p.classes[*e].file)).collect();
        match self.r.below(14) {
            0 | 1 if !enums.is_empty() => T::Enum(*self.r.pick(&enums)),
            2 | 3 if !structs.is_empty() => T::Struct(*self.r.pick(&structs)),
            4 | 5 if refs && !classes.is_empty() => T::Ref(*self.r.pick(&classes)),
            6 if refs && !classes.is_empty() => T::WRef(*self.r.pick(&classes)),
            7 | 8 => {
                let t = match self.r.below(5) {
                    0 if !structs.is_empty() => T::Struct(*self.r.pick(&structs)),
                    1 if refs && !classes.is_empty() => T::Ref(*self.r.pick(&classes)),
                    2 => T::Str,
                    3 if self.r.chance(1, 3) => T::Arr(Box::new(T::Int)),
                    3 if refs && !classes.is_empty() => T::WRef(*self.r.pick(&classes)),
                    _ => T::Int,
                };
                T::Arr(Box::new(t))
            }
            _ => self.prim(),
        }
    }
    pub fn program(mut self, sh: &Shape) -> Prog {
        let mods = ["", "Alpha", "Beta.Gamma", "Alpha.Sub", "Omega"];
        let n = if sh.modules { self.r.range(2, 5) } else { self.r.range(1, 3) };
        for i in 0..n {
            let stage = usize::from(sh.mods && i > 0);
            let module = if sh.modules && stage == 1 || sh.modules && !sh.mods { (*self.r.pick(&mods)).to_owned() } else { String::new() };
            self.p.files.push(FileDef { stage, module });
        }
        if sh.mods && n == 1 {
            self.p.files.push(FileDef { stage: 1, module: String::new() });
        }
        let stages = if sh.mods { 2 } else { 1 };
        let mut families: Vec<Vec<usize>> = vec![];
        for stage in 0..stages {
            self.stage = stage;
            for _ in 0..self.r.range(1, 2) {
                let k = self.p.enums.len();
                let m = self.r.range(1, 5);
                let mut members = vec![];
                for i in 0..m {
                    let v = match self.r.below(6) {
                        0 => -(i as i64) - 1,
                        1 => 100 + i as i64,
                        2 => i64::from(i32::MAX) - i as i64,
                        _ => i as i64,
                    };
                    members.push((format!("{}{i}", self.r.pick(&["M", "nullM", "Case", "m_"])), v));
                }
                let file = self.file_of(stage);
                self.p.enums.push(Enu { name: format!("E{k}"), members, file });
            }
            for _ in 0..self.r.below(3) {
                let k = self.p.structs.len();
                let mut fields = vec![];
                for i in 0..self.r.range(1, 4) {
                    let t = self.any_ty(true);
                    fields.push((format!("f{i}"), t));
                }
                let file = self.file_of(stage);
                self.p.structs.push(Stru { name: format!("S{k}"), fields, file });
            }
            let nc = self.r.range(1, 3);
            let first = self.p.classes.len();
            for _ in 0..nc {
                let k = self.p.classes.len();
                let base = if k > 0 && self.r.chance(2, 3) { Some(self.r.below(k)) } else { None };
                let abs = self.r.chance(1, 6);
                let file = self.file_of(stage);
                self.p.classes.push(Cls { name: format!("C{k}"), base, fields: vec![], funs: vec![], abs, file });
            }
            let nclasses = self.p.classes.len();
            for c in first..nclasses {
                for i in 0..self.r.below(4) {
                    self.field(c, format!("m{c}_{i}"), self.p.classes[c].file, false);
                }
            }
            if stage == 1 {
                for _ in 0..self.r.below(3) {
                    let c = self.r.below(first.max(1));
                    let k = self.p.classes[c].fields.len();
                    let file = self.file_of(1);
                    self.field(c, format!("added{c}_{k}"), file, true);
                }
            }
            // signatures
            let nf = self.r.range(2, 2 + sh.size);
            for _ in 0..nf {
                let fam = families.len();
                let (params, ret) = self.signature();
                let in_class = self.r.chance(3, 5);
                let name = format!("{}{fam}", self.r.pick(&["Fun", "Get", "newF", "thisF", "ifF"]));
                if !in_class {
                    let file = self.file_of(stage);
                    let f = self.p.funs.len();
                    let fun = self.mk(name.clone(), None, true, false, params.clone(), ret.clone(), fam, file, false);
                    self.p.funs.push(fun);
                    families.push(vec![f]);
                    // an overload
                    if self.r.chance(1, 3) {
                        let (p2, r2) = self.signature();
                        let prim = |t: &T| matches!(t, T::Int | T::Bool | T::Float | T::Str | T::Name);
                        let ok = match (params.first(), p2.first()) {
                            (Some(x), Some(y)) => prim(&x.ty) && prim(&y.ty) && x.ty != y.ty && !x.opt && !y.opt,
                            _ => false,
                        };
                        if ok {
                            let f = self.p.funs.len();
                            let fun = self.mk(name, None, true, false, p2, r2, fam, file, false);
                    self.p.funs.push(fun);
                            families.last_mut().unwrap().push(f);
                        }
                    }
                    continue;
                }
                let c = if stage == 1 && self.r.chance(1, 2) { self.r.below(first.max(1)) } else { self.r.range(first, nclasses - 1) };
                let added = stage == 1 && c < first;
                let stat = self.r.chance(1, 5);
                let overrides: Vec<usize> = if stat {
                    vec![]
                } else {
                    (0..nclasses).filter(|k| *k != c && self.p.derives(*k, c) && self.p.files[self.p.classes[*k].file].stage == stage).collect()
                };
                let fin = stat && self.r.bool() || self.r.chance(1, 4) || overrides.is_empty() && self.r.bool();
                let file = if added { self.file_of(1) } else { self.p.classes[c].file };
                let f = self.p.funs.len();
                let fun = self.mk(name.clone(), Some(c), stat, fin, params.clone(), ret.clone(), fam, file, added);
                    self.p.funs.push(fun);
                self.p.classes[c].funs.push(f);
                let mut fam_funs = vec![f];
                if !fin {
                    for k in overrides {
                        if self.r.chance(2, 3) {
                            let f = self.p.funs.len();
                            let file = self.p.classes[k].file;
                            let fun = self.mk(name.clone(), Some(k), false, false, params.clone(), ret.clone(), fam, file, false);
                    self.p.funs.push(fun);
                            self.p.classes[k].funs.push(f);
                            fam_funs.push(f);
                        }
                    }
                }
                families.push(fam_funs);
            }
        }
        // bodies
        for f in 0..self.p.funs.len() {
            let fun = self.p.funs[f].clone();
            let names: Vec<String> = fun.params.iter().map(|p| p.name.clone()).collect();
            let body = self.body(&fun, &names, fun.file, None, sh.size);
            self.p.funs[f].body = body;
        }
        if sh.mods {
            for f in 0..self.p.funs.len() {
                let fun = self.p.funs[f].clone();
                if self.p.files[fun.file].stage == 1 {
                    continue;
                }
                if self.r.chance(1, 5) {
                    let file = self.file_of(1);
                    let names = self.layer_names(&fun);
                    let body = self.body(&fun, &names, file, None, sh.size);
                    self.p.funs[f].replaced = Some(Layer { file, params: names, body });
                }
                if fun.class.is_some() && self.r.chance(1, 2) {
                    let mut files: Vec<usize> = vec![];
                    for _ in 0..self.r.range(1, 3) {
                        files.push(self.file_of(1));
                    }
                    files.sort_unstable();
                    for file in files {
                        let names = self.layer_names(&fun);
                        let body = self.body(&fun, &names, file, Some(f), sh.size);
                        self.p.funs[f].wraps.push(Layer { file, params: names, body });
                    }
                }
            }
        }
        // entry point
        let stage = stages - 1;
        let file = self.file_of(stage);
        let params = vec![
            Param { name: "a".into(), ty: T::Int, out: false, opt: false },
            Param { name: "b".into(), ty: T::Int, out: false, opt: false },
            Param { name: "c".into(), ty: T::Bool, out: false, opt: false },
        ];
        let fam = families.len();
        let fun = self.mk("Main".into(), None, true, false, params, Some(T::Int), fam, file, false);
        let names: Vec<String> = fun.params.iter().map(|p| p.name.clone()).collect();
        self.p.main = self.p.funs.len();
        self.p.funs.push(fun.clone());
        let body = self.body(&fun, &names, file, None, sh.size * 2);
        self.p.funs[self.p.main].body = body;
        self.p
    }
    fn layer_names(&mut self, f: &Fun) -> Vec<String> {
        let fresh = self.r.bool();
        f.params.iter().enumerate().map(|(i, p)| if fresh { format!("w{i}") } else { p.name.clone() }).collect()
    }
    #[allow(clippy::too_many_arguments)]
    fn mk(&mut self, name: String, class: Option<usize>, stat: bool, fin: bool, params: Vec<Param>, ret: Option<T>, level: usize, file: usize, added: bool) -> Fun {
        let public = class.is_some() && self.r.bool() || !self.p.files[file].module.is_empty();
        let stat = stat && (class.is_some() || self.r.bool());
        Fun { name, class, stat, fin, params, ret, body: vec![], level, file, added, replaced: None, wraps: vec![], public }
    }
    fn field(&mut self, c: usize, name: String, file: usize, added: bool) {
        let ty = self.any_ty(true);
        let default = if self.r.chance(1, 2) {
            match &ty {
                T::Int | T::Bool | T::Str | T::Name | T::Float | T::Tdb => match self.literal(&ty) {
                    // the compiler takes no operators here, and a minus is one
                    E::Lit(V::I(i)) => Some(E::Lit(V::I(i & i32::MAX))),
                    E::Lit(V::F(f)) => Some(E::Lit(V::F(f.abs()))),
                    e => Some(e),
                },
                T::Enum(e) => Some(E::EnumM(*e, self.r.below(self.p.enums[*e].members.len()))),
                _ => None,
            }
        } else {
            None
        };
        self.p.classes[c].fields.push(FieldDef { name, ty, default, file, added });
    }
    fn signature(&mut self) -> (Vec<Param>, Option<T>) {
        let mut params = vec![];
        let n = self.r.below(5);
        let mut opts = false;
        for i in 0..n {
            let ty = match self.any_ty(true) {
                T::Arr(t) if !matches!(*t, T::Int | T::Str) => T::Arr(Box::new(T::Int)),
                t => t,
            };
            let out = !opts && self.r.chance(1, 6);
            opts = opts || !out && self.r.chance(1, 6);
            params.push(Param { name: format!("p{i}"), ty, out, opt: opts });
        }
        if self.r.chance(1, 3) {
            for (i, p) in params.iter_mut().enumerate() {
                p.name = NAMES[(i * 7 + n) % NAMES.len()].to_owned();
            }
        }
        let ret = match self.r.below(5) {
            0 => None,
            _ => Some(self.any_ty(true)),
        };
        (params, ret)
    }
    fn body(&mut self, f: &Fun, names: &[String], file: usize, wrapped: Option<usize>, size: usize) -> Vec<S> {
        self.blocks = vec![];
        self.blocks.push(f.params.iter().zip(names).map(|(p, n)| Var { name: n.clone(), ty: p.ty.clone(), ro: false }).collect());
        self.this = if f.stat { None } else { f.class };
        self.ret = f.ret.clone();
        self.level = f.level;
        self.stage = self.p.files[file].stage;
        self.breakable = 0;
        self.nest = 0;
        self.wrapped = wrapped;
        self.budget = self.r.range(2, 4 + size * 3);
        if f.ret.is_some() && wrapped.is_none() && self.r.chance(1, 6) {
            let t = f.ret.clone().unwrap();
            return vec![S::Ret(Some(self.full(&t, 3)))];
        }
        let n = self.r.range(1, 3 + size);
        self.blocks.push(vec![]);
        let mut body = vec![];
        for _ in 0..n {
            self.stmt(&mut body, 3);
        }
        if let Some(w) = wrapped {
            for _ in 0..self.r.range(1, 2) {
                let e = E::Wrapped(self.p.funs[w].params.iter().zip(names).map(|(_, n)| E::Var(n.clone())).collect());
                // the parameters have to be visible under their names
                let ok = names.iter().all(|n| self.blocks.iter().rev().find_map(|b| b.iter().rev().find(|v| v.name == *n)).is_some_and(|v| f.params.iter().zip(names).any(|(p, m)| m == n && p.ty == v.ty && !v.ro)));
                if !ok {
                    break;
                }
                let s = match f.ret.clone() {
                    Some(t) if self.r.chance(3, 4) => {
                        let name = self.fresh();
                        let s = S::Let(name.clone(), t.clone(), Some(e), true);
                        self.declare(name, t, false);
                        s
                    }
                    _ => S::Ex(e),
                };
                body.push(s);
            }
        }
        for v in self.visible().into_iter().take(8) {
            if self.r.chance(1, 2) {
                body.push(S::Ex(self.dump(E::Var(v.name))));
            }
        }
        if let Some(t) = f.ret.clone() {
            let e = self.full(&t, 2);
            body.push(S::Ret(Some(e)));
        }
        self.blocks.clear();
        body
    }
    fn dump(&mut self, e: E) -> E {
        E::Nat("Dump", vec![E::ToVariant(b(e))])
    }
    fn visible(&self) -> Vec<Var> {
        let mut out: Vec<Var> = vec![];
        for bl in self.blocks.iter().rev() {
            for v in bl.iter().rev() {
                if !out.iter().any(|o| o.name == v.name) {
                    out.push(v.clone());
                }
            }
        }
        out
    }
    fn fresh(&mut self) -> String {
        (*self.r.pick(NAMES)).to_owned()
    }
    fn declare(&mut self, name: String, ty: T, ro: bool) {
        self.blocks.last_mut().unwrap().push(Var { name, ty, ro });
    }
    fn vars(&self, f: impl Fn(&Var) -> bool) -> Vec<Var> {
        self.visible().into_iter().filter(|v| f(v)).collect()
    }
    fn literal(&mut self, t: &T) -> E {
        let text = |r: &mut Rng| (*r.pick(TEXTS)).to_owned();
        E::Lit(match t {
            T::Int => V::I(*self.r.pick(INTS)),
            T::Bool => V::B(self.r.bool()),
            T::Float => V::F(self.r.range(0, 64) as f32 / 4.0 - 4.0),
            T::Str => V::S(text(self.r)),
            T::Name => V::N(text(self.r)),
            T::Tdb => V::T(text(self.r)),
            T::Res => V::R(text(self.r)),
            T::Long => V::L(*self.r.pick(&[0, 1, 5_000_000_000, i64::MAX])),
            T::UInt => V::U(*self.r.pick(&[0, 1, 77, u32::MAX])),
            T::ULong => V::UL(*self.r.pick(&[0, 1, 77, u64::MAX])),
            T::Double => V::D(*self.r.pick(&[0.0, 1.0, 2.5, 1024.125])),
            T::Enum(e) => return E::EnumM(*e, self.r.below(self.p.enums[*e].members.len())),
            _ => unreachable!(),
        })
    }
    fn instantiable(&self, c: usize) -> Vec<usize> {
        (0..self.p.classes.len())
            .filter(|k| !self.p.classes[*k].abs && self.p.derives(*k, c) && self.stage_ok(self.p.classes[*k].file))
            .collect()
    }
    /// an expression without subexpressions worth mentioning. `conv`: an implicit conversion may apply here
    fn atom(&mut self, t: &T, conv: bool) -> E {
        let vs = self.vars(|v| v.ty == *t || matches!((&v.ty, t), (T::Ref(a), T::Ref(c)) if self.p.derives(*a, *c)));
        if !vs.is_empty() && self.r.chance(2, 3) {
            return E::Var(self.r.pick(&vs).name.clone());
        }
        match t {
            T::Ref(c) => {
                if let Some(k) = self.this {
                    if self.p.derives(k, *c) && self.r.chance(1, 3) {
                        return E::This;
                    }
                }
                if conv && self.r.chance(1, 4) {
                    if let Some(w) = self.weak(*c, 0) {
                        return E::FromWeak(b(w));
                    }
                }
                let ks = self.instantiable(*c);
                if !ks.is_empty() && (!conv || self.r.chance(2, 3)) {
                    return E::New(*self.r.pick(&ks));
                }
                if conv {
                    E::Null
                } else {
                    // a reference that is null but has a type
                    E::As(b(E::New(self.any_class())), *c)
                }
            }
            T::WRef(c) => {
                if conv {
                    let e = self.atom(&T::Ref(*c), true);
                    match e {
                        // no two conversions in a row
                        E::FromWeak(_) => E::ToWeak(b(E::Null)),
                        e => E::ToWeak(b(e)),
                    }
                } else {
                    match vs.first() {
                        Some(v) => E::Var(v.name.clone()),
                        None => E::Intr("FromVariant", vec![E::Intr("ToVariant", vec![E::Lit(V::I(1))], T::Int)], t.clone()),
                    }
                }
            }
            T::Arr(x) => match &**x {
                // objects made in an array literal would be made early
                T::Ref(c) if self.r.bool() => match self.refs_of(false) {
                    Some((es, k)) if k == *c => E::Arr(es, T::Ref(k)),
                    _ => self.atom_array(t, &vs),
                },
                T::Struct(_) | T::Ref(_) | T::WRef(_) | T::Arr(_) => self.atom_array(t, &vs),
                x => {
                    let n = self.r.range(1, 3);
                    E::Arr((0..n).map(|_| self.literal(x)).collect(), x.clone())
                }
            },
            T::Struct(s) => {
                let fs = self.p.structs[*s].fields.clone();
                E::Make(*s, fs.iter().map(|f| self.atom(&f.1, true)).collect())
            }
            t => self.literal(t),
        }
    }
    fn atom_array(&mut self, t: &T, vs: &[Var]) -> E {
        match vs.first() {
            Some(v) => E::Var(v.name.clone()),
            None => E::Intr("FromVariant", vec![E::Intr("ToVariant", vec![E::Lit(V::B(true))], T::Bool)], t.clone()),
        }
    }
    /// references to objects of several classes and the closest class all of them derive from
    fn refs_of(&mut self, new: bool) -> Option<(Vec<E>, usize)> {
        let mut es = vec![];
        let mut l: Option<usize> = None;
        for _ in 0..self.r.range(1, 3) {
            let vs = self.vars(|v| matches!(v.ty, T::Ref(_)));
            let (e, k) = if !vs.is_empty() && self.r.bool() {
                let v = self.r.pick(&vs).clone();
                let T::Ref(k) = v.ty else { unreachable!() };
                (E::Var(v.name), k)
            } else if !new {
                return None;
            } else {
                let ks: Vec<usize> =
                    (0..self.p.classes.len()).filter(|k| !self.p.classes[*k].abs && self.stage_ok(self.p.classes[*k].file)).collect();
                if ks.is_empty() {
                    return None;
                }
                let k = *self.r.pick(&ks);
                (E::New(k), k)
            };
            let mut up = Some(l.unwrap_or(k));
            while up.is_some_and(|u| !self.p.derives(k, u)) {
                up = self.p.classes[up.unwrap()].base;
            }
            l = Some(up?);
            es.push(e);
        }
        Some((es, l?))
    }
    fn any_class(&mut self) -> usize {
        let ks: Vec<usize> = (0..self.p.classes.len()).filter(|k| !self.p.classes[*k].abs && self.stage_ok(self.p.classes[*k].file)).collect();
        match ks.is_empty() {
            true => {
                // make one that can be instantiated
                let k = (0..self.p.classes.len()).find(|k| self.stage_ok(self.p.classes[*k].file)).unwrap();
                self.p.classes[k].abs = false;
                k
            }
            false => *self.r.pick(&ks),
        }
    }
    /// at the top of an initializer, assignment, return: literals of other types and arrays with effects are fine
    fn full(&mut self, t: &T, d: usize) -> E {
        match t {
            T::Float | T::Double | T::Long if self.r.chance(1, 5) => {
                let i = *self.r.pick(&[0, 1, 3, 100, 65536, 16_777_217]);
                let v = match t {
                    T::Float => V::F(i as f32),
                    T::Double => V::D(f64::from(i)),
                    _ => V::L(i64::from(i)),
                };
                return E::Widened(i, v);
            }
            T::Arr(x) if **x == T::Int && self.r.chance(1, 60) => {
                let n = *self.r.pick(&[100, 127, 128, 200, 260, 299]);
                return E::Arr((0..n).map(|_| self.literal(x)).collect(), T::Int);
            }
            T::Arr(x) if self.r.chance(1, 2) => {
                let n = self.r.below(4);
                if let T::Ref(c) = &**x {
                    if let (Some((es, k)), true) = (self.refs_of(true), self.r.bool()) {
                        if k == *c {
                            return E::Arr(es, (**x).clone());
                        }
                    }
                    // the elements have to be of exactly the class
                    let vs = self.vars(|v| v.ty == **x);
                    let mut es = vec![];
                    for _ in 0..n {
                        if !vs.is_empty() && self.r.bool() {
                            es.push(E::Var(self.r.pick(&vs).name.clone()));
                        } else if !self.p.classes[*c].abs {
                            es.push(E::New(*c));
                        }
                    }
                    return E::Arr(es, (**x).clone());
                }
                return E::Arr((0..n).map(|_| self.full(x, d.saturating_sub(1))).collect(), (**x).clone());
            }
            _ => {}
        }
        self.expr(t, d, true)
    }
    fn callable(&mut self, t: Option<&T>) -> Vec<usize> {
        (0..self.p.funs.len())
            .filter(|f| {
                let f = &self.p.funs[*f];
                f.level < self.level
                    && self.stage_ok(f.file)
                    && t.map_or(true, |t| f.ret.as_ref() == Some(t))
            })
            .collect()
    }
    fn args(&mut self, f: usize, d: usize, outs: bool) -> Option<Vec<E>> {
        let params = self.p.funs[f].params.clone();
        let mut v = vec![];
        for p in params {
            if p.opt && self.r.chance(1, 3) {
                break;
            }
            if p.out {
                if !outs {
                    return None;
                }
                let e = self.lvalue(&p.ty)?;
                v.push(e);
            } else {
                let e = self.expr(&p.ty, d, true);
                v.push(e);
            }
        }
        Some(v)
    }
    /// a reference to an object of the class (or one derived from it) to call a method on
    fn receiver(&mut self, c: usize, d: usize) -> E {
        if self.r.chance(1, 3) {
            if let Some(w) = self.weak(c, d) {
                return E::FromWeak(b(w));
            }
        }
        if d > 0 && self.r.chance(1, 5) {
            return self.expr(&T::Ref(c), d - 1, false);
        }
        self.atom(&T::Ref(c), false)
    }
    fn call(&mut self, f: usize, d: usize, outs: bool) -> Option<E> {
        let args = self.args(f, d, outs)?;
        let fun = self.p.funs[f].clone();
        Some(match fun.class {
            None => E::Call(f, args),
            Some(_) if fun.stat => E::Call(f, args),
            Some(c) => {
                let o = self.receiver(c, d);
                E::Method(b(o), f, args)
            }
        })
    }
    /// a weak reference to an object of the class (or one derived from it): a variable, member, element or the
    /// result of a call
    fn weak(&mut self, c: usize, d: usize) -> Option<E> {
        let ks: Vec<usize> =
            (0..self.p.classes.len()).filter(|k| self.p.derives(*k, c) && self.stage_ok(self.p.classes[*k].file)).collect();
        if ks.is_empty() {
            return None;
        }
        for _ in 0..3 {
            let t = T::WRef(*self.r.pick(&ks));
            if d > 0 && self.r.chance(1, 3) {
                let fs = self.callable(Some(&t));
                if !fs.is_empty() {
                    let f = *self.r.pick(&fs);
                    if let Some(e) = self.call(f, d - 1, false) {
                        return Some(e);
                    }
                }
            }
            if let Some(e) = self.lvalue(&t) {
                return Some(e);
            }
        }
        None
    }
    /// a place of exactly this type that can be assigned
    fn lvalue(&mut self, t: &T) -> Option<E> {
        let mut c: Vec<E> = vec![];
        for v in self.visible() {
            if v.ro {
                continue;
            }
            let e = E::Var(v.name.clone());
            if v.ty == *t {
                c.push(e.clone());
            }
            self.parts(&e, &v.ty, t, &mut c, 2);
        }
        if let Some(k) = self.this {
            self.parts(&E::This, &T::Ref(k), t, &mut c, 2);
        }
        if c.is_empty() {
            return None;
        }
        Some(self.r.pick(&c).clone())
    }
    fn parts(&self, e: &E, et: &T, t: &T, out: &mut Vec<E>, d: usize) {
        if d == 0 {
            return;
        }
        let fields: Vec<(String, T)> = match et {
            T::Struct(s) => self.p.structs[*s].fields.clone(),
            T::Ref(c) | T::WRef(c) => self
                .p
                .all_fields(*c)
                .into_iter()
                .filter(|f| self.stage_ok(f.file))
                .map(|f| (f.name.clone(), f.ty.clone()))
                .collect(),
            _ => vec![],
        };
        let e = &if matches!(et, T::WRef(_)) { E::FromWeak(b(e.clone())) } else { e.clone() };
        for (n, ft) in fields {
            let x = E::Field(b(e.clone()), n, ft.clone());
            if ft == *t {
                out.push(x.clone());
            }
            self.parts(&x, &ft, t, out, d - 1);
        }
        if let T::Arr(x) = et {
            if **x == *t || matches!(**x, T::Struct(_)) {
                let y = E::Index(b(e.clone()), b(E::Lit(V::I(0))), (**x).clone());
                if **x == *t {
                    out.push(y.clone());
                }
                self.parts(&y, x, t, out, d - 1);
            }
        }
    }
    fn array_var(&mut self, f: impl Fn(&T) -> bool, write: bool) -> Option<(E, T)> {
        let mut c = vec![];
        for v in self.visible() {
            if v.ro && write {
                continue;
            }
            match &v.ty {
                T::Arr(x) if f(x) => c.push((E::Var(v.name.clone()), (**x).clone())),
                _ => {}
            }
        }
        if let Some(k) = self.this {
            for fd in self.p.all_fields(k) {
                match &fd.ty {
                    T::Arr(x) if f(x) && self.stage_ok(fd.file) => {
                        c.push((E::Field(b(E::This), fd.name.clone(), fd.ty.clone()), (**x).clone()));
                    }
                    _ => {}
                }
            }
        }
        if c.is_empty() {
            None
        } else {
            Some(self.r.pick(&c).clone())
        }
    }
    pub fn expr(&mut self, t: &T, d: usize, conv: bool) -> E {
        if d == 0 {
            return self.atom(t, conv);
        }
        let n = d - 1;
        match self.r.below(12) {
            0 | 1 => return self.atom(t, conv),
            2 => {
                let c = self.expr(&T::Bool, n, false);
                let x = self.expr(t, n, false);
                let y = match t {
                    T::Ref(_) if self.r.chance(1, 4) => E::Null,
                    T::Float if self.r.chance(1, 5) => E::Widened(7, V::F(7.0)),
                    t => self.expr(t, n, false),
                };
                // a condition that is a relation of a name would need parentheses only sometimes: always fine
                return E::Cond(b(c), b(x), b(y));
            }
            3 | 4 => {
                let fs = self.callable(Some(t));
                if !fs.is_empty() {
                    let f = *self.r.pick(&fs);
                    if let Some(e) = self.call(f, n, false) {
                        return e;
                    }
                }
            }
            5 => {
                // a member or element
                if let Some(e) = self.lvalue(t) {
                    return match e {
                        E::Index(a, _, t) => E::Index(a, b(self.expr(&T::Int, n, true)), t),
                        e => e,
                    };
                }
            }
            6 => {
                if let Some((a, x)) = self.array_var(|x| x == t, true) {
                    let k = *self.r.pick(&["ArrayPop", "ArrayLast", "ArrayFindFirst"]);
                    let mut args = vec![a];
                    if k == "ArrayFindFirst" {
                        args.push(self.expr(&x, n, true));
                    }
                    return E::Intr(k, args, x);
                }
            }
            7 if self.r.chance(1, 2) => {
                let x = self.expr(t, n, false);
                return E::Intr("FromVariant", vec![E::Intr("ToVariant", vec![x], t.clone())], t.clone());
            }
            _ => {}
        }
        match t {
            T::Int => match self.r.below(12) {
                0..=4 => {
                    let op = *self.r.pick(&["+", "-", "*", "/", "%", "|", "^", "&"]);
                    E::Bin(op, b(self.expr(t, n, false)), b(self.expr(t, n, false)))
                }
                5 => E::Un(*self.r.pick(&['-', '~']), b(self.expr(t, n, false))),
                6 => {
                    let e = self.r.below(self.p.enums.len());
                    if self.stage_ok(self.p.enums[e].file) {
                        let x = self.expr(&T::Enum(e), n, false);
                        E::Intr("EnumInt", vec![x], T::Enum(e))
                    } else {
                        self.atom(t, conv)
                    }
                }
                7 => match self.array_var(|_| true, false) {
                    Some((a, x)) if matches!(x, T::Int | T::Str | T::Bool) && self.r.bool() => {
                        let y = self.expr(&x, n, true);
                        E::Intr("ArrayCount", vec![a, y], x)
                    }
                    Some((a, x)) => E::Intr("ArraySize", vec![a], x),
                    None => self.atom(t, conv),
                },
                8 => E::Nat("LenRef", vec![self.expr(&T::Str, n, true)]),
                _ => E::Nat("TraceI", vec![self.expr(t, n, true)]),
            },
            T::Bool => match self.r.below(12) {
                0..=2 => {
                    let op = *self.r.pick(&["&&", "||"]);
                    E::Bin(op, b(self.expr(t, n, false)), b(self.expr(t, n, false)))
                }
                3 => E::Un('!', b(self.expr(t, n, false))),
                4..=6 => {
                    let op = *self.r.pick(&["<", "<=", ">", ">=", "==", "!="]);
                    E::Bin(op, b(self.expr(&T::Int, n, false)), b(self.expr(&T::Int, n, false)))
                }
                7 => {
                    let x = match self.prim() {
                        T::Bool => T::Float,
                        x => x,
                    };
                    let k = *self.r.pick(&["Equals", "NotEquals"]);
                    E::Intr(k, vec![self.expr(&x, n, false), self.expr(&x, n, false)], x)
                }
                8 => match self.array_var(|x| matches!(x, T::Int | T::Str), false) {
                    Some((a, x)) => {
                        let y = self.expr(&x, n, true);
                        E::Intr("ArrayContains", vec![a, y], x)
                    }
                    None => self.atom(t, conv),
                },
                9 => {
                    let vs = self.vars(|v| matches!(v.ty, T::Ref(_) | T::WRef(_)));
                    if vs.is_empty() {
                        return self.atom(t, conv);
                    }
                    let v = self.r.pick(&vs).clone();
                    E::Intr("IsDefined", vec![E::Var(v.name)], v.ty)
                }
                10 => E::Bin("<", b(self.expr(&T::Float, n, false)), b(self.expr(&T::Float, n, false))),
                _ => E::Nat("TraceB", vec![self.expr(t, n, true)]),
            },
            T::Float => match self.r.below(4) {
                0 => E::Nat("TraceF", vec![self.expr(t, n, true)]),
                1 => E::Un('-', b(self.expr(t, n, false))),
                _ => {
                    let op = *self.r.pick(&["+", "-", "*"]);
                    E::Bin(op, b(self.expr(t, n, false)), b(self.expr(t, n, false)))
                }
            },
            T::Str => match self.r.below(5) {
                0 => E::Nat("TraceS", vec![self.expr(t, n, true)]),
                1 => {
                    let x = self.r.pick(&[T::Int, T::Bool, T::Name, T::Str]).clone();
                    E::Intr("ToString", vec![self.expr(&x, n, false)], x)
                }
                2 => E::Bin("+", b(self.expr(t, n, false)), b(self.expr(t, n, false))),
                _ => {
                    let pre = (*self.r.pick(TEXTS)).to_owned();
                    let k = self.r.range(0, 3);
                    let parts = (0..k)
                        .map(|_| {
                            let x = self.r.pick(&[T::Int, T::Bool, T::Str, T::Float, T::Name]).clone();
                            let e = self.expr(&x, n, false);
                            (e, (*self.r.pick(TEXTS)).to_owned())
                        })
                        .collect();
                    E::Interp(pre, parts)
                }
            },
            T::Enum(_) if self.r.bool() => E::Intr("IntEnum", vec![self.expr(&T::Int, n, false)], t.clone()),
            T::Struct(s) => {
                let fs = self.p.structs[*s].fields.clone();
                E::Make(*s, fs.iter().map(|f| self.expr(&f.1, n, true)).collect())
            }
            T::Ref(c) if self.r.bool() => {
                let vs = self.vars(|v| matches!(v.ty, T::Ref(_) | T::WRef(_)));
                if self.r.chance(1, 3) {
                    let k = self.r.below(self.p.classes.len());
                    if let Some(w) = self.weak(k, n) {
                        return E::As(b(E::FromWeak(b(w))), *c);
                    }
                }
                match vs.is_empty() {
                    true => self.atom(t, conv),
                    false => {
                        let v = self.r.pick(&vs).clone();
                        let e = E::Var(v.name);
                        let e = if matches!(v.ty, T::WRef(_)) { E::FromWeak(b(e)) } else { e };
                        E::As(b(e), *c)
                    }
                }
            }
            t => self.atom(t, conv),
        }
    }
    fn block(&mut self, n: usize, d: usize) -> Vec<S> {
        self.block_then(n, d, |_, _| {})
    }
    /// `end` adds the last statement while what the block declares is still in view
    fn block_then(&mut self, n: usize, d: usize, end: impl FnOnce(&mut Self, &mut Vec<S>)) -> Vec<S> {
        self.blocks.push(vec![]);
        let mut out = vec![];
        for _ in 0..n {
            self.stmt(&mut out, d);
        }
        end(self, &mut out);
        self.blocks.pop();
        out
    }
    fn mark(&mut self) -> S {
        self.marks += 1;
        S::Ex(E::Nat("Mark", vec![E::Lit(V::I(self.marks))]))
    }
    fn stmt(&mut self, out: &mut Vec<S>, d: usize) {
        if self.budget == 0 {
            let m = self.mark();
            out.push(m);
            return;
        }
        self.budget -= 1;
        let ed = 1 + self.r.below(3);
        match self.r.below(22) {
            0..=3 => self.let_(out, ed),
            4 | 5 => {
                let vs: Vec<Var> = self.vars(|v| !v.ro);
                if vs.is_empty() {
                    return self.let_(out, ed);
                }
                let t = self.r.pick(&vs).ty.clone();
                let t = if self.r.chance(1, 3) { self.any_ty(true) } else { t };
                if let Some(l) = self.lvalue(&t) {
                    let l = match l {
                        E::Index(a, _, t) => {
                            let i = if self.r.bool() { E::Lit(V::I(self.r.below(3) as i32)) } else { self.expr(&T::Int, 1, true) };
                            E::Index(a, b(i), t)
                        }
                        l => l,
                    };
                    let e = if matches!(l, E::Var(_)) { self.full(&t, ed) } else { self.expr(&t, ed, true) };
                    out.push(S::Set(l, e));
                }
            }
            6 | 7 => {
                let t = self.r.pick(&[T::Int, T::Int, T::Int, T::Float, T::Str]).clone();
                if let Some(l) = self.lvalue(&t) {
                    let op = match t {
                        T::Int => *self.r.pick(&["+=", "-=", "*=", "/=", "|=", "&="]),
                        _ => "+=",
                    };
                    let e = self.expr(&t, ed, true);
                    out.push(S::SetOp(op, l, e));
                }
            }
            8 => {
                let m = self.mark();
                out.push(m);
            }
            9 => {
                let t = self.any_ty(true);
                let e = self.expr(&t, ed, false);
                // the type of a bare null or of an empty array is not known
                let s = self.dump(e);
                out.push(S::Ex(s));
            }
            10..=12 if d > 0 => {
                let c = if self.r.chance(1, 8) { self.pure_sum() } else { self.expr(&T::Bool, ed, true) };
                let k = self.r.range(0, 3);
                let a = self.block_then(k, d - 1, Self::leave);
                let e = match self.r.below(5) {
                    0 | 1 => {
                        let k = self.r.range(0, 3);
                        Some(self.block_then(k, d - 1, Self::leave))
                    }
                    2 => {
                        let c = self.expr(&T::Bool, 1, true);
                        let k = self.r.range(0, 2);
                        let x = self.block(k, d - 1);
                        let k = self.r.range(0, 2);
                        let y = self.r.bool().then(|| self.block(k, d - 1));
                        Some(vec![S::If(c, x, y)])
                    }
                    _ => None,
                };
                out.push(S::If(c, a, e));
            }
            13 | 14 if d > 0 && self.nest < 2 => self.while_(out, d),
            15 | 16 if d > 0 && self.nest < 2 => {
                let t = match self.any_ty(true) {
                    T::Arr(t) => *t,
                    _ => T::Int,
                };
                let e = match self.array_var(|_| true, false) {
                    Some((e, x)) if self.r.bool() => {
                        self.for_(out, e, x, d);
                        return;
                    }
                    _ if matches!(t, T::Ref(_) | T::WRef(_) | T::Arr(_)) => match self.refs_of(true) {
                        Some((es, k)) => {
                            self.for_(out, E::Arr(es, T::Ref(k)), T::Ref(k), d);
                            return;
                        }
                        None => return,
                    },
                    _ => {
                        let n = self.r.range(1, 3);
                        E::Arr((0..n).map(|_| self.expr(&t, ed, false)).collect(), t.clone())
                    }
                };
                self.for_(out, e, t, d);
            }
            17 | 18 if d > 0 => self.switch(out, d, ed),
            19 | 20 => {
                let fs = self.callable(None);
                if fs.is_empty() {
                    return;
                }
                let f = *self.r.pick(&fs);
                if self.this.is_some() && self.r.chance(1, 3) {
                    if let Some(s) = self.super_call(ed) {
                        out.push(S::Ex(s));
                        return;
                    }
                }
                if let Some(c) = self.call(f, ed - 1, true) {
                    match self.p.funs[f].ret.clone() {
                        Some(t) if self.r.bool() => {
                            let name = self.fresh();
                            out.push(S::Let(name.clone(), t.clone(), Some(c), true));
                            self.declare(name, t, false);
                        }
                        _ => out.push(S::Ex(c)),
                    }
                }
            }
            _ => self.array_stmt(out, ed),
        }
    }
    fn super_call(&mut self, d: usize) -> Option<E> {
        let base = self.p.classes[self.this?].base?;
        let mut fs = vec![];
        let mut k = Some(base);
        let mut names: Vec<String> = vec![];
        while let Some(c) = k {
            for f in &self.p.classes[c].funs {
                let fun = &self.p.funs[*f];
                if !names.contains(&fun.name) && fun.level <= self.level && self.stage_ok(fun.file) {
                    names.push(fun.name.clone());
                    // the same family must not come back here through dispatch
                    if !fun.stat {
                        fs.push(*f);
                    }
                }
            }
            k = self.p.classes[c].base;
        }
        if fs.is_empty() {
            return None;
        }
        let f = *self.r.pick(&fs);
        let args = self.args(f, d - 1, true)?;
        Some(E::Super(f, args))
    }
    fn leave(&mut self, out: &mut Vec<S>) {
        if self.breakable > 0 && self.r.chance(1, 5) {
            out.push(S::Break);
        } else if self.r.chance(1, 12) {
            let e = self.ret.clone().map(|t| self.full(&t, 1));
            out.push(S::Ret(e));
        }
    }
    fn let_(&mut self, out: &mut Vec<S>, ed: usize) {
        let t = self.any_ty(true);
        let name = self.fresh();
        let s = match self.r.below(5) {
            0 => S::Let(name.clone(), t.clone(), None, true),
            1 if !matches!(t, T::Ref(_) | T::WRef(_) | T::Arr(_)) => {
                let e = self.expr(&t, ed, false);
                S::Let(name.clone(), t.clone(), Some(e), false)
            }
            1 if matches!(t, T::Ref(_)) => {
                let c = self.any_class();
                self.declare(name.clone(), T::Ref(c), false);
                out.push(S::Let(name, T::Ref(c), Some(E::New(c)), false));
                return;
            }
            _ => {
                let e = self.full(&t, ed);
                S::Let(name.clone(), t.clone(), Some(e), true)
            }
        };
        out.push(s);
        self.declare(name, t, false);
    }
    fn while_(&mut self, out: &mut Vec<S>, d: usize) {
        let name = self.fresh();
        out.push(S::Let(name.clone(), T::Int, Some(E::Lit(V::I(0))), self.r.bool()));
        self.declare(name.clone(), T::Int, true);
        let k = self.r.range(0, 4) as i32;
        let mut c = E::Bin("<", b(E::Var(name.clone())), b(E::Lit(V::I(k))));
        if self.r.chance(1, 3) {
            let x = self.expr(&T::Bool, 1, false);
            c = if self.r.bool() { E::Bin("&&", b(c), b(x)) } else { E::Bin("&&", b(x), b(c)) };
        }
        if self.r.chance(1, 5) {
            let x = self.pure_sum();
            c = E::Bin("&&", b(c), b(x));
        }
        self.breakable += 1;
        self.nest += 1;
        self.blocks.push(vec![]);
        let mut body = vec![];
        let inc = S::SetOp("+=", E::Var(name.clone()), E::Lit(V::I(1)));
        let first = self.r.bool();
        if first {
            body.push(inc.clone());
        }
        for _ in 0..self.r.range(1, 3) {
            self.stmt(&mut body, d - 1);
        }
        if !first {
            // the counter may be shadowed at the end of the body
            if self.blocks.last().unwrap().iter().any(|v| v.name == name) {
                body.insert(0, inc);
            } else {
                body.push(inc);
            }
        }
        self.blocks.pop();
        self.nest -= 1;
        self.breakable -= 1;
        out.push(S::While(c, body));
    }
    /// a condition without effects that contains an array literal
    fn pure_sum(&mut self) -> E {
        let vs = self.vars(|v| v.ty == T::Int);
        let n = self.r.range(1, 3);
        let es = (0..n)
            .map(|_| if vs.is_empty() || self.r.chance(1, 3) { E::Lit(V::I(self.r.below(4) as i32)) } else { E::Var(self.r.pick(&vs).name.clone()) })
            .collect();
        let op = *self.r.pick(&["<", "!=", "<="]);
        E::Bin(op, b(E::Nat("SumOf", vec![E::Arr(es, T::Int)])), b(E::Lit(V::I(self.r.below(12) as i32))))
    }
    fn for_(&mut self, out: &mut Vec<S>, e: E, t: T, d: usize) {
        let name = self.fresh();
        self.breakable += 1;
        self.nest += 1;
        self.blocks.push(vec![Var { name: name.clone(), ty: t, ro: false }]);
        let k = self.r.range(1, 3);
        let mut body = self.block_then(k, d - 1, Self::leave);
        if self.r.chance(1, 3) {
            body.insert(0, S::Ex(E::Nat("Dump", vec![E::ToVariant(b(E::Var(name.clone())))])));
        }
        self.blocks.pop();
        self.nest -= 1;
        self.breakable -= 1;
        out.push(S::For(name, e, body));
    }
    fn switch(&mut self, out: &mut Vec<S>, d: usize, ed: usize) {
        let e = self.r.below(self.p.enums.len());
        let t = match self.r.below(6) {
            0 => T::Str,
            1 => T::Name,
            2 => T::Bool,
            3 | 4 if self.stage_ok(self.p.enums[e].file) => T::Enum(e),
            _ => T::Int,
        };
        let m = self.expr(&t, ed, false);
        let n = self.r.range(1, 4);
        let has_default = self.r.bool();
        self.breakable += 1;
        let mut cases = vec![];
        for i in 0..n {
            let c = match &t {
                T::Int => E::Lit(V::I(*self.r.pick(&[0, 1, 2, 3, 5, -1]))),
                t => match self.literal(t) {
                    E::Lit(V::S(s)) => E::Lit(V::S(s.replace('<', ""))),
                    e => e,
                },
            };
            let last = i + 1 == n;
            let mut body = vec![];
            if !self.r.chance(1, 4) {
                let k = self.r.range(1, 2);
                let leaves = !last || !has_default || self.r.bool();
                body = self.block_then(k, d - 1, |g, body| {
                    if leaves {
                        if g.r.chance(1, 8) {
                            let e = g.ret.clone().map(|t| g.full(&t, 1));
                            body.push(S::Ret(e));
                        } else {
                            body.push(S::Break);
                        }
                    }
                });
            }
            cases.push((c, body));
        }
        let default = has_default.then(|| {
            let k = self.r.range(0, 2);
            let mut body = self.block(k, d - 1);
            if self.r.chance(1, 4) {
                body.push(S::Break);
            }
            body
        });
        self.breakable -= 1;
        out.push(S::Switch(m, cases, default));
    }
    fn array_stmt(&mut self, out: &mut Vec<S>, ed: usize) {
        let Some((a, x)) = self.array_var(|_| true, true) else { return self.let_(out, ed) };
        let k = *self.r.pick(&["ArrayPush", "ArrayPush", "ArrayPush", "ArrayInsert", "ArrayErase", "ArrayRemove", "ArrayClear", "ArrayResize", "ArrayGrow"]);
        let mut args = vec![a];
        match k {
            "ArrayPush" | "ArrayRemove" => args.push(self.expr(&x, ed, true)),
            "ArrayInsert" => {
                args.push(E::Lit(V::I(self.r.below(4) as i32)));
                args.push(self.expr(&x, ed, true));
            }
            "ArrayErase" | "ArrayResize" | "ArrayGrow" => args.push(E::Lit(V::I(self.r.below(4) as i32))),
            _ => {}
        }
        out.push(S::Ex(E::Intr(k, args, x)));
    }
}

