//! Whether a bundle makes sense to the game: every reference means something of the right kind, every body is a
//! sequence of complete statements, and every jump leads to where one begins.
use std::collections::{BTreeMap, BTreeSet, HashMap};

use vmon::spec::*;

pub type R<T> = Result<T, String>;

pub fn name(b: &SBundle, i: u32) -> R<&str> {
    let d = b.defs.get(i as usize).ok_or_else(|| format!("reference to {i} of {} definitions", b.defs.len()))?;
    b.names.get(d.name as usize).map(String::as_str).ok_or_else(|| format!("definition {i} has no name"))
}

fn kind(b: &SBundle, i: u32) -> &'static str {
    match b.defs.get(i as usize).map(|d| &d.val) {
        None => "nothing",
        Some(_) if i == 0 => "nothing",
        Some(SVal::Type(..)) => "type",
        Some(SVal::Class(_)) => "class",
        Some(SVal::EnumValue(_)) => "member",
        Some(SVal::Enum { .. }) => "enum",
        Some(SVal::Function(_)) => "function",
        Some(SVal::Parameter { .. }) => "parameter",
        Some(SVal::Local { .. }) => "local",
        Some(SVal::Field(_)) => "field",
        Some(SVal::SourceFile { .. }) => "file",
    }
}

fn is(b: &SBundle, i: u64, k: &str, what: &str) -> R<()> {
    let got = kind(b, u32::try_from(i).unwrap_or(0));
    if got == k {
        Ok(())
    } else {
        Err(format!("{what} should be a {k}, {i} is a {got}"))
    }
}

fn tag(b: &SBundle, i: u64, tags: &[u8], what: &str) -> R<()> {
    is(b, i, "type", what)?;
    match &b.defs[i as usize].val {
        SVal::Type(t, ..) if tags.contains(t) => Ok(()),
        v => Err(format!("{what} should be a type of kind {tags:?}, not {v:?}")),
    }
}

struct Body<'a> {
    b: &'a SBundle,
    f: &'a SFunction,
    at: Vec<u32>,
    pos: HashMap<u32, usize>,
    /// where a statement begins
    starts: BTreeSet<usize>,
    labels: BTreeSet<usize>,
    jumps: Vec<(usize, usize, &'static str)>,
    far: std::cell::Cell<u64>,
    depth: usize,
}

impl Body<'_> {
    fn target(&self, k: usize, n: usize) -> R<usize> {
        let i = &self.f.code[k];
        let by = i64::from(i.args[n] as u16 as i16);
        self.far.set(self.far.get().max(by.unsigned_abs()));
        let t = i64::from(self.at[k]) + by;
        u32::try_from(t).ok().and_then(|t| self.pos.get(&t).copied()).ok_or_else(|| format!("instruction {k} (op {}) at {} leads to {t}, which is not an instruction", i.op, self.at[k]))
    }
    fn operands(&self, k: usize) -> R<()> {
        let i = &self.f.code[k];
        let w = format!("the operand of instruction {k} (op {})", i.op);
        let a = |n: usize| i.args[n];
        let within = |n: u64, len: usize, what: &str| if (n as usize) < len { Ok(()) } else { Err(format!("{w}: {what} {n} of {len}")) };
        match i.op {
            14 => within(a(0), self.b.names.len(), "name"),
            15 => {
                is(self.b, a(0), "enum", &w)?;
                match &self.b.defs[a(0) as usize].val {
                    SVal::Enum { members, .. } if members.contains(&(a(1) as u32)) => Ok(()),
                    _ => Err(format!("{w}: {} is not a member of enum {}", a(1), a(0))),
                }
            }
            16 => within(a(0), self.b.strings.len(), "string"),
            17 => within(a(0), self.b.tweakdb.len(), "record"),
            18 => within(a(0), self.b.resources.len(), "resource"),
            24 => {
                is(self.b, a(0), "local", &w)?;
                if self.f.locals.contains(&(a(0) as u32)) { Ok(()) } else { Err(format!("{w}: local {} of another function", a(0))) }
            }
            25 => {
                is(self.b, a(0), "parameter", &w)?;
                if self.f.params.contains(&(a(0) as u32)) { Ok(()) } else { Err(format!("{w}: parameter {} of another function", a(0))) }
            }
            26 | 40 => is(self.b, a(0), "field", &w),
            28 | 42..=47 | 91..=93 | 102 | 103 => is(self.b, a(0), "type", &w),
            35 => {
                is(self.b, a(1), "class", &w)?;
                match &self.b.defs[a(1) as usize].val {
                    SVal::Class(c) if c.flags & cf::STRUCT != 0 && (a(0) == 0 || a(0) as usize == c.fields.len()) => Ok(()),
                    _ => Err(format!("{w}: constructs {} with {} values", a(1), a(0))),
                }
            }
            36 => is(self.b, a(2), "function", &w),
            37 => within(a(2), self.b.names.len(), "name"),
            48 | 90 => is(self.b, a(0), "class", &w),
            52..=74 => tag(self.b, a(0), &[4], &w),
            75..=85 => tag(self.b, a(0), &[5], &w),
            88 | 89 => tag(self.b, a(0), &[1], &w),
            _ => Ok(()),
        }
    }
    /// one value or statement starting at an instruction; the instruction following it
    fn expr(&mut self, k: usize) -> R<usize> {
        let i = self.f.code.get(k).ok_or("the code ends within an expression")?;
        self.operands(k)?;
        self.depth += 1;
        let n = k + 1;
        let args = match i.op {
            0..=20 | 24..=27 | 48 | 50 | 101 => 0,
            22 | 42..=47 | 54..=63 | 66..=70 | 72 | 76..=83 | 85 => 2,
            40 | 49 | 52 | 53 | 64 | 71 | 73..=75 | 84 | 86..=100 | 102 | 103 => 1,
            65 => 3,
            35 => i.args[0] as usize,
            34 => {
                let mid = self.expr(n)?;
                let other = self.expr(mid)?;
                let end = self.expr(other)?;
                if self.target(k, 0)? != other || self.target(k, 1)? != end {
                    return Err(format!("the arms of the conditional at {k} are elsewhere"));
                }
                return Ok(end);
            }
            41 => {
                let mid = self.expr(n)?;
                let end = self.expr(mid)?;
                if self.target(k, 0)? != end {
                    return Err(format!("the context at {k} ends elsewhere"));
                }
                return Ok(end);
            }
            36 | 37 => {
                let mut count = 0;
                let mut at = n;
                loop {
                    match self.f.code.get(at).map(|i| i.op) {
                        None => return Err("the code ends within a call".into()),
                        Some(38) => break,
                        Some(33) => {
                            let end = self.expr(at + 1)?;
                            if self.target(at, 0)? != end {
                                return Err(format!("the skip at {at} leads elsewhere"));
                            }
                            at = end;
                        }
                        Some(_) => at = self.expr(at)?,
                    }
                    count += 1;
                }
                if self.target(k, 0)? != at + 1 {
                    return Err(format!("the call at {k} ends elsewhere"));
                }
                if i.op == 36 {
                    if let SVal::Function(f) = &self.b.defs[i.args[2] as usize].val {
                        if f.params.len() != count {
                            return Err(format!("the call at {k} passes {count} values to a function of {}", f.params.len()));
                        }
                    }
                }
                return Ok(at + 1);
            }
            op => return Err(format!("instruction {k} (op {op}) within an expression")),
        };
        let mut at = n;
        for _ in 0..args {
            at = self.expr(at)?;
        }
        Ok(at)
    }
    fn stmts(&mut self) -> R<()> {
        let mut k = 0;
        while k < self.f.code.len() {
            self.starts.insert(k);
            let i = &self.f.code[k];
            self.operands(k)?;
            k = match i.op {
                30 => k + 1,
                31 => {
                    self.jumps.push((k, self.target(k, 0)?, "jump"));
                    k + 1
                }
                32 => {
                    self.jumps.push((k, self.target(k, 0)?, "conditional jump"));
                    self.expr(k + 1)?
                }
                28 => {
                    let end = self.expr(k + 1)?;
                    if self.target(k, 1)? != end {
                        return Err(format!("the first case of the switch at {k} is elsewhere"));
                    }
                    end
                }
                29 => {
                    self.labels.insert(k);
                    self.jumps.push((k, self.target(k, 0)?, "next case"));
                    let body = self.target(k, 1)?;
                    self.jumps.push((k, body, "case body"));
                    let end = self.expr(k + 1)?;
                    if body < end {
                        return Err(format!("the body of the case at {k} precedes it"));
                    }
                    end
                }
                39 => self.expr(k + 1)?,
                _ => self.expr(k)?,
            };
        }
        self.starts.insert(self.f.code.len());
        for (from, to, what) in &self.jumps {
            if !self.starts.contains(to) {
                return Err(format!("the {what} at {from} leads into the middle of the statement before {to}"));
            }
        }
        Ok(())
    }
}

pub fn body(b: &SBundle, f: &SFunction) -> R<(usize, u64)> {
    let mut at = vec![];
    let mut pos = HashMap::new();
    let mut o = 0;
    for (k, i) in f.code.iter().enumerate() {
        at.push(o);
        pos.insert(o, k);
        o += i.virt_size();
    }
    pos.insert(o, f.code.len());
    let mut x = Body { b, f, at, pos, starts: BTreeSet::new(), labels: BTreeSet::new(), jumps: vec![], far: std::cell::Cell::new(0), depth: 0 };
    x.stmts()?;
    Ok((x.jumps.len(), x.far.get()))
}

/// the text a type is stored under
pub fn type_text(b: &SBundle, i: u32, d: usize) -> R<String> {
    if d > 300 {
        return Err("endless type".into());
    }
    Ok(match &b.defs.get(i as usize).ok_or("no such type")?.val {
        SVal::Type(0 | 1, _, _) => name(b, i)?.to_owned(),
        SVal::Type(2, t, _) => format!("ref:{}", type_text(b, *t, d + 1)?),
        SVal::Type(3, t, _) => format!("wref:{}", type_text(b, *t, d + 1)?),
        SVal::Type(4, t, _) => format!("array:{}", type_text(b, *t, d + 1)?),
        SVal::Type(5, t, n) => format!("[{n}]{}", type_text(b, *t, d + 1)?),
        SVal::Type(6, t, _) => format!("script_ref:{}", type_text(b, *t, d + 1)?),
        v => return Err(format!("{v:?} is not a type")),
    })
}

#[derive(Default, Debug)]
pub struct Facts {
    pub bodies: u64,
    pub jumps: u64,
    pub instrs: u64,
    /// the longest distance any instruction leads over
    pub far: u64,
}

/// `unique`: the source declares nothing twice, so neither may the bundle
pub fn check(b: &SBundle, unique: bool) -> R<Facts> {
    let mut facts = Facts::default();
    let mut tops: BTreeMap<(&str, &str), u32> = BTreeMap::new();
    let class_names: BTreeSet<&str> = (1..b.defs.len() as u32).filter(|i| matches!(kind(b, *i), "class" | "enum")).filter_map(|i| name(b, i).ok()).collect();
    for (i, d) in b.defs.iter().enumerate().skip(1) {
        let i = i as u32;
        let nm = name(b, i)?;
        let w = |e: String| format!("definition {i} ({} {nm:?}): {e}", kind(b, i));
        let owned = |list: &[u32], k: &str| -> R<()> {
            let mut seen = BTreeSet::new();
            for m in list {
                is(b, u64::from(*m), k, "a member").map_err(w)?;
                // a function that got wrapped keeps its parameters, which stay with its place
                if k != "parameter" && b.defs[*m as usize].parent != i {
                    return Err(w(format!("its {k} {m} ({}) belongs to {}", name(b, *m)?, b.defs[*m as usize].parent)));
                }
                if !seen.insert(m) {
                    return Err(w(format!("{k} {m} is listed twice")));
                }
            }
            Ok(())
        };
        let parent = |kinds: &[&str]| -> R<()> {
            let k = if d.parent == 0 { "nothing" } else { kind(b, d.parent) };
            if kinds.contains(&k) { Ok(()) } else { Err(w(format!("belongs to {} ({k})", d.parent))) }
        };
        match &d.val {
            SVal::Type(t, inner, _) => {
                if *t >= 2 {
                    is(b, u64::from(*inner), "type", "the inner type").map_err(w)?;
                }
                if *t != 5 && type_text(b, i, 0)? != nm {
                    return Err(w(format!("stands for {}", type_text(b, i, 0)?)));
                }
                if *t == 1 && !class_names.contains(nm) {
                    return Err(w("stands for a class that does not exist".into()));
                }
            }
            SVal::Class(c) => {
                parent(&["nothing"])?;
                if c.base != 0 {
                    is(b, u64::from(c.base), "class", "the base").map_err(w)?;
                    if c.base >= i {
                        return Err(w(format!("comes before its base {}", c.base)));
                    }
                }
                owned(&c.functions, "function")?;
                owned(&c.fields, "field")?;
                let mut names = BTreeSet::new();
                for m in c.functions.iter().chain(&c.fields) {
                    if !names.insert(name(b, *m)?) && unique {
                        return Err(w(format!("has two members called {}", name(b, *m)?)));
                    }
                }
                if let Some(j) = tops.insert(("class", nm), i).filter(|_| unique) {
                    return Err(w(format!("has the name of class {j}")));
                }
            }
            SVal::EnumValue(_) => {
                parent(&["enum"])?;
                if !matches!(&b.defs[d.parent as usize].val, SVal::Enum { members, .. } if members.contains(&i)) {
                    return Err(w("is not listed by its enum".into()));
                }
            }
            SVal::Enum { members, .. } => {
                owned(members, "member")?;
                let mut names = BTreeSet::new();
                for m in members {
                    if !names.insert(name(b, *m)?) && unique {
                        return Err(w(format!("has two members called {}", name(b, *m)?)));
                    }
                }
            }
            SVal::Function(f) => {
                parent(&["nothing", "class"])?;
                if d.parent != 0 {
                    if !matches!(&b.defs[d.parent as usize].val, SVal::Class(c) if c.functions.contains(&i)) {
                        return Err(w("is not listed by its class".into()));
                    }
                } else if let Some(j) = tops.insert(("function", nm), i).filter(|_| unique) {
                    return Err(w(format!("has the name of function {j}")));
                }
                owned(&f.params, "parameter")?;
                owned(&f.locals, "local")?;
                if let Some(t) = f.ret {
                    is(b, u64::from(t), "type", "the return type").map_err(w)?;
                }
                if let Some(m) = f.base_method {
                    is(b, u64::from(m), "function", "the base method").map_err(w)?;
                }
                if let Some((file, _)) = f.source {
                    is(b, u64::from(file), "file", "the source").map_err(w)?;
                }
                if d.parent == 0 && f.flags & ff::STATIC == 0 {
                    return Err(w("is global but not static".into()));
                }
                if !f.code.is_empty() {
                    if f.flags & ff::NATIVE != 0 {
                        return Err(w("is native and has a body".into()));
                    }
                    facts.bodies += 1;
                    facts.instrs += f.code.len() as u64;
                    let (jumps, far) = body(b, f).map_err(w)?;
                    facts.jumps += jumps as u64;
                    facts.far = facts.far.max(far);
                    if f.flags & ff::STATIC != 0 && f.code.iter().any(|i| i.op == 50) {
                        return Err(w("is static and uses this".into()));
                    }
                }
            }
            SVal::Parameter { type_, .. } => {
                parent(&["function"])?;
                is(b, u64::from(*type_), "type", "the type").map_err(w)?;
            }
            SVal::Local { type_, .. } => {
                parent(&["function"])?;
                is(b, u64::from(*type_), "type", "the type").map_err(w)?;
            }
            SVal::Field(f) => {
                parent(&["class"])?;
                is(b, u64::from(f.type_), "type", "the type").map_err(w)?;
                if !matches!(&b.defs[d.parent as usize].val, SVal::Class(c) if c.fields.contains(&i)) {
                    return Err(w("is not listed by its class".into()));
                }
            }
            SVal::SourceFile { .. } => {}
        }
    }
    Ok(facts)
}
