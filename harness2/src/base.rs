//! The script bundle programs are compiled against: the types and native functions the language itself needs.
use vmon::prog::Env;
use vmon::spec::*;

use crate::machine::NATIVES;

pub const TYPES: &[&str] = &[
    "Int32", "Bool", "Float", "String", "CName", "TweakDBID", "ResRef", "Int64", "Uint32", "Uint64", "Double", "Variant",
    "Int8", "Uint8", "Int16", "Uint16", "redResourceReferenceScriptToken",
];

/// the part of a mangled name a type contributes
fn mangled(t: &str) -> String {
    match t.strip_prefix("script_ref:") {
        Some(t) => format!("Script_Ref{t}"),
        None => t.to_owned(),
    }
}

pub fn env(null_type: bool) -> Env {
    let mut e = Env::empty();
    for t in TYPES {
        e.type_(t);
    }
    for t in ["script_ref:String", "array:Int32"] {
        e.type_(t);
    }
    e.class("IScriptable", 0, cf::ABSTRACT | cf::NATIVE);
    e.type_("IScriptable");
    // an array of fixed size can come from the game only
    let host = e.class("Host", 0, 0);
    let int = e.type_("Int32");
    let grid = e.add("Int32[3]", 0, SVal::Type(5, int, 3));
    let fld = e.field(host, "grid", "Int32");
    if let SVal::Field(f) = &mut e.b.defs[fld as usize].val {
        f.type_ = grid;
    }
    e.field(host, "size", "Int32");
    let hidx = e.classes[host].idx;
    let f = e.function("TraceI;Int32", hidx, ff::NATIVE, &[("a", "Int32", 0)], Some("Int32"));
    e.method(host, f);
    for t in ["Host", "ref:Host", "wref:Host"] {
        e.type_(t);
    }
    if null_type {
        e.type_("ref:IScriptable");
    }
    for (name, params, ret) in NATIVES {
        let op = name.starts_with("Operator");
        let mut full = (*name).to_owned();
        if op {
            full.push(';');
            for p in *params {
                match p.strip_prefix("out ") {
                    Some(t) => full.push_str(&format!("Out{}", mangled(t))),
                    None => full.push_str(&mangled(p)),
                }
            }
            full.push(';');
            full.push_str(ret);
        }
        let mut ps = vec![];
        for (i, p) in params.iter().enumerate() {
            let (t, mut fl) = match p.strip_prefix("out ") {
                Some(t) => (t, 2u8),
                None => (*p, 0),
            };
            if i == 1 && name.starts_with("OperatorLogic") {
                fl |= 4;
            }
            ps.push((["a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n"][i], t, fl));
        }
        let ret = if ret.is_empty() { None } else { Some(*ret) };
        e.function(&full, 0, ff::NATIVE | ff::STATIC | ff::FINAL, &ps, ret);
    }
    e
}

pub fn bytes() -> Vec<u8> {
    env(true).b.write()
}

/// the same without the type a null constant stands for
pub fn bare() -> Vec<u8> {
    env(false).b.write()
}
