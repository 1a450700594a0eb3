//! What adding scripts to a bundle may change: what they say, and nothing else.
use std::collections::{BTreeMap, BTreeSet};

use vmon::spec::*;

use crate::lang::Prog;
use crate::wf::{name, type_text, R};

/// the name of a definition with the names of what it belongs to
pub fn path(b: &SBundle, i: u32) -> R<String> {
    if i == 0 {
        return Ok(String::new());
    }
    let d = &b.defs[i as usize];
    let own = name(b, i)?;
    Ok(match &d.val {
        SVal::SourceFile { path, .. } => format!("file {path}"),
        SVal::Type(..) => format!("type {}", type_text(b, i, 0)?),
        _ if d.parent != 0 => format!("{}/{own}", path(b, d.parent)?),
        _ => own.to_owned(),
    })
}

fn place(list: &[u32], i: u32) -> String {
    list.iter().position(|x| *x == i).map_or_else(|| format!("foreign {i}"), |n| format!("#{n}"))
}

pub fn code(b: &SBundle, f: &SFunction) -> R<String> {
    let mut s = String::new();
    // the order in which locals are listed says nothing, the order in which they are used does
    let mut used = vec![];
    for i in &f.code {
        if i.op == 24 && f.locals.contains(&(i.args[0] as u32)) && !used.contains(&(i.args[0] as u32)) {
            used.push(i.args[0] as u32);
        }
    }
    for l in &used {
        if let SVal::Local { type_, flags } = &b.defs[*l as usize].val {
            s.push_str(&format!("local {:?} {} {flags}\n", name(b, *l)?, path(b, *type_)?));
        }
    }
    for i in &f.code {
        s.push_str(&format!("{}", i.op));
        for (k, (fl, a)) in layout(i.op).ok_or("op")?.iter().zip(&i.args).enumerate() {
            let a = *a;
            let text = match (i.op, fl) {
                (14, _) | (37, F::P) => b.names[a as usize].clone(),
                (16, _) => b.strings[a as usize].clone(),
                (17, _) => b.tweakdb[a as usize].clone(),
                (18, _) => b.resources[a as usize].clone(),
                (24, _) => place(&used, a as u32),
                (25, _) => place(&f.params, a as u32),
                (_, F::P) => path(b, a as u32)?,
                _ => format!("{k}:{a}"),
            };
            s.push_str(&format!(" {text:?}"));
        }
        s.push('\n');
    }
    Ok(s)
}

pub fn signature(b: &SBundle, f: &SFunction) -> R<String> {
    let mut s = String::new();
    for p in &f.params {
        if let SVal::Parameter { type_, flags } = &b.defs[*p as usize].val {
            s.push_str(&format!("{} {} {flags}; ", name(b, *p)?, path(b, *type_)?));
        }
    }
    s.push_str(&f.ret.map_or(Ok("nothing".to_owned()), |t| path(b, t))?);
    Ok(s)
}

fn types_only(b: &SBundle, f: &SFunction) -> R<String> {
    let mut s = String::new();
    for p in &f.params {
        if let SVal::Parameter { type_, flags } = &b.defs[*p as usize].val {
            s.push_str(&format!("{} {flags}; ", path(b, *type_)?));
        }
    }
    s.push_str(&f.ret.map_or(Ok("nothing".to_owned()), |t| path(b, t))?);
    Ok(s)
}

fn all(b: &SBundle, f: &SFunction) -> R<String> {
    let mut s = format!("{} {:#x} {:?} {} {:?} {} ", f.vis, f.flags, f.source.map(|(file, line)| path(b, file).map(|p| (p, line))).transpose()?, f.unk1, f.operator, f.cast);
    s.push_str(&f.base_method.map_or(Ok("-".to_owned()), |m| path(b, m))?);
    s.push_str(&format!("({})", signature(b, f)?));
    for l in &f.locals {
        if let SVal::Local { type_, flags } = &b.defs[*l as usize].val {
            s.push_str(&format!(" {} {} {flags},", name(b, *l)?, path(b, *type_)?));
        }
    }
    s.push('\n');
    s.push_str(&code(b, f)?);
    Ok(s)
}

/// everything of interest by path: functions, fields, classes, enums
pub fn index(b: &SBundle) -> R<BTreeMap<String, u32>> {
    let mut m = BTreeMap::new();
    for i in 1..b.defs.len() as u32 {
        if matches!(b.defs[i as usize].val, SVal::Function(_) | SVal::Field(_) | SVal::Class(_) | SVal::Enum { .. } | SVal::EnumValue(_)) {
            m.insert(path(b, i)?, i);
        }
    }
    Ok(m)
}

#[derive(Default)]
pub struct Plan {
    /// paths of functions
    pub wrapped: BTreeSet<String>,
    pub replaced: BTreeSet<String>,
    /// paths of added members
    pub added: BTreeSet<String>,
}

/// which of the functions of the first bundle the second stage of a program changes, by class and plain name
pub fn plan(p: &Prog) -> Plan {
    let mut plan = Plan::default();
    for f in &p.funs {
        let owner = f.class.map_or(String::new(), |c| format!("{}/", p.cname(c)));
        let nm = if f.class.is_some() { f.name.clone() } else { p.qual(f.file, &f.name) };
        let path = format!("{owner}{nm};");
        if !f.wraps.is_empty() {
            plan.wrapped.insert(path.clone());
        }
        if f.replaced.is_some() {
            plan.replaced.insert(path.clone());
        }
        if f.added {
            plan.added.insert(path);
        }
    }
    for (c, cls) in p.classes.iter().enumerate() {
        for f in cls.fields.iter().filter(|f| f.added) {
            plan.added.insert(format!("{}/{}", p.cname(c), f.name));
        }
    }
    plan
}

/// a path as plans have it, without the types of parameters
fn plain(path: &str) -> String {
    match path.split_once(';') {
        Some((a, _)) => format!("{a};"),
        None => path.to_owned(),
    }
}

pub fn compare(before: &SBundle, after: &SBundle, plan: &Plan, mut note: impl FnMut(&'static str)) -> R<()> {
    let now = index(after)?;
    let was = index(before)?;
    for (p, i) in &was {
        let j = *now.get(p).ok_or_else(|| format!("{p} has disappeared"))?;
        let key = plain(p);
        match (&before.defs[*i as usize].val, &after.defs[j as usize].val) {
            (SVal::Function(f), SVal::Function(g)) => {
                let (wrapped, replaced) = (plan.wrapped.contains(&key), plan.replaced.contains(&key));
                if !wrapped && !replaced {
                    let (x, y) = (all(before, f)?, all(after, g)?);
                    if x != y {
                        return Err(format!("{p}, which nothing changes, was\n{x}\nand is\n{y}"));
                    }
                    note("untouched functions");
                    continue;
                }
                if types_only(before, f)? != types_only(after, g)? {
                    return Err(format!("{p} took {} and now takes {}", types_only(before, f)?, types_only(after, g)?));
                }
                if f.flags & ff::STATIC != g.flags & ff::STATIC {
                    return Err(format!("{p} changed from {:#x} to {:#x}", f.flags, g.flags));
                }
                if wrapped {
                    if replaced {
                        // the replacement decides what parameters are called and who may call it
                    } else if signature(before, f)? != signature(after, g)? || f.vis != g.vis || (f.flags ^ g.flags) & !ff::DERIVED != 0 {
                        return Err(format!("{p} is wrapped and changed from {} {:#x} to {} {:#x}", signature(before, f)?, f.flags, signature(after, g)?, g.flags));
                    }
                    note("wrapped functions");
                    if !replaced {
                        let owner = after.defs[j as usize].parent;
                        let body = code(before, f)?;
                        let mut kept = false;
                        for m in now.values() {
                            if *m != j && after.defs[*m as usize].parent == owner {
                                if let SVal::Function(h) = &after.defs[*m as usize].val {
                                    kept |= code(after, h)? == body && types_only(after, h)? == types_only(before, f)? && h.locals.len() == f.locals.len();
                                }
                            }
                        }
                        if !kept {
                            return Err(format!("{p} is wrapped, but what it did is no longer anywhere:\n{body}"));
                        }
                        note("wrapped bodies");
                    }
                } else {
                    note("replaced functions");
                }
            }
            (SVal::Field(f), SVal::Field(g)) => {
                if (f.vis, f.flags, &f.hint, &f.attrs, &f.defaults) != (g.vis, g.flags, &g.hint, &g.attrs, &g.defaults) || path(before, f.type_)? != path(after, g.type_)? {
                    return Err(format!("field {p} changed from {f:?} to {g:?}"));
                }
                note("untouched fields");
            }
            (SVal::Class(c), SVal::Class(d)) => {
                if c.vis != d.vis || (c.flags ^ d.flags) & !cf::DERIVED != 0 || path(before, c.base)? != path(after, d.base)? {
                    return Err(format!("class {p} changed from {c:?} to {d:?}"));
                }
                for (old, new) in [(&c.fields, &d.fields), (&c.functions, &d.functions)] {
                    let old: Vec<_> = old.iter().map(|i| path(before, *i)).collect::<R<_>>()?;
                    let new: Vec<_> = new.iter().map(|i| path(after, *i)).collect::<R<_>>()?;
                    let kept: Vec<_> = new.iter().filter(|n| old.contains(n)).cloned().collect();
                    let (mut a, mut b) = (old.clone(), kept);
                    a.sort();
                    b.sort();
                    if a != b {
                        return Err(format!("class {p} had {old:?} and has {new:?}"));
                    }
                    for extra in new.iter().filter(|n| !old.contains(n)) {
                        let own = extra.rsplit('/').next().unwrap_or("");
                        if !plan.added.contains(&plain(extra)) && !own.contains('$') {
                            return Err(format!("class {p} got {extra}, which nothing adds"));
                        }
                        if own.contains('$') && !plan.wrapped.iter().any(|w| w.starts_with(&format!("{p}/"))) {
                            return Err(format!("class {p} got {extra}, but nothing of it is wrapped"));
                        }
                    }
                }
                note("classes");
            }
            (SVal::Enum { flags, size, members, .. }, SVal::Enum { flags: f2, size: s2, members: m2, .. }) => {
                let a: Vec<_> = members.iter().map(|i| path(before, *i)).collect::<R<_>>()?;
                let b: Vec<_> = m2.iter().map(|i| path(after, *i)).collect::<R<_>>()?;
                if (flags, size) != (f2, s2) || a != b {
                    return Err(format!("enum {p} had {a:?} and has {b:?}"));
                }
                note("enums");
            }
            (SVal::EnumValue(a), SVal::EnumValue(b)) if a == b => {}
            (a, b) => return Err(format!("{p} was {a:?} and is {b:?}")),
        }
    }
    Ok(())
}
