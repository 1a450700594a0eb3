//! Valid programs with exactly one mistake, and what has to be said about it.
use std::path::PathBuf;

use redscript_compiler::diagnostics::Diagnostic;
use redscript_compiler::unit::CompilationUnit;
use vmon::obs::load;
use vmon::rng::Rng;

use crate::lang::*;
use crate::total;

pub const MARK: &str = "@@@MARK@@@";

/// where a mistake can be made
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum At {
    /// a statement, anywhere
    Stmt,
    /// a statement of a global or static function
    Static,
    /// a statement of a function without a result
    Void,
    /// a statement of a function with a result
    Value,
    /// a definition of a file
    Item,
    /// a member of a class
    Member,
    /// an import
    Import,
}

/// definitions the mistakes refer to
pub const HELPERS: &str = r#"
public abstract class ZzAbs {
  public let zf: Int32;
  public let zs: String;
  public func ZzM() -> Int32 { return this.zf; }
  public func ZzP(a: Int32) -> Int32 { return a; }
  public static func ZzSt() -> Int32 { return 1; }
}
public class ZzCon extends ZzAbs {
  public let zr: ref<ZzCon>;
  public let za: array<Int32>;
  public func ZzQ() -> Int32 { return 2; }
}
public class ZzOther {}
public struct ZzStr { public let za: Int32; public let zb: String; }
enum ZzEn { A = 0, B = 1 }
public func ZzOver(a: Int32) -> Int32 { return a; }
public func ZzOver(a: String) -> Int32 { return 0; }
public func ZzOpt(a: Int32, opt b: String) -> Int32 { return a; }
public func ZzOut(out a: Int32) -> Void { a = 1; }
public func ZzVoid() -> Void {}
public func ZzTake(a: Int32) -> Void {}
public func ZzText(a: String) -> Void {}
public func ZzBool(a: Bool) -> Void {}
public func ZzGet() -> ref<ZzCon> { return new ZzCon(); }
public func ZzWeak() -> wref<ZzCon> { return new ZzCon(); }
public func ZzMkStr() -> ZzStr { return new ZzStr(1, "a"); }
public func ZzArr() -> array<Int32> { return [1]; }
"#;

/// a mistake: where it is made, its text (`¦` before the part that has to be pointed at, when it is not the first line),
/// and the code it has to be reported with
pub const FAULTS: &[(At, &str, &str)] = &[
    (At::Stmt, "ZzNope();", "UNRESOLVED_FN"),
    (At::Stmt, "ZzTake(ZzNope(1, 2));", "UNRESOLVED_FN"),
    (At::Stmt, "let zz: ZzNoType;", "UNRESOLVED_TYPE"),
    (At::Stmt, "let zz: ref<ZzNoType>;", "UNRESOLVED_TYPE"),
    (At::Stmt, "let zz: array<array<wref<ZzNoType>>>;", "UNRESOLVED_TYPE"),
    (At::Stmt, "let zz: ref<ZzCon> = new ZzNoType();", "UNRESOLVED_TYPE"),
    (At::Stmt, "let zz = ZzGet() as ZzNoType;", "UNRESOLVED_TYPE"),
    (At::Stmt, "zzNoVar = 1;", "UNRESOLVED_REF"),
    (At::Stmt, "ZzTake(zzNoVar);", "UNRESOLVED_REF"),
    (At::Stmt, "zzNoVar.zf = 1;", "UNRESOLVED_REF"),
    (At::Stmt, "ZzTake(ZzGet().nope);", "UNRESOLVED_MEMBER"),
    (At::Stmt, "ZzGet().nope = 1;", "UNRESOLVED_MEMBER"),
    (At::Stmt, "ZzTake(ZzMkStr().nope);", "UNRESOLVED_MEMBER"),
    (At::Stmt, "let zz = ZzEn.Nope;", "UNRESOLVED_MEMBER"),
    (At::Stmt, "ZzGet().Nope();", "UNRESOLVED_METHOD"),
    (At::Stmt, "ZzGet().zf();", "UNRESOLVED_METHOD"),
    (At::Stmt, "ZzAbs.Nope();", "UNRESOLVED_METHOD"),
    (At::Stmt, "ZzOver(true);", "NO_MATCHING_OVERLOAD"),
    (At::Stmt, "ZzOver();", "NO_MATCHING_OVERLOAD"),
    (At::Stmt, "ZzOver(1, 2);", "NO_MATCHING_OVERLOAD"),
    (At::Stmt, "ZzOpt();", "NO_MATCHING_OVERLOAD"),
    (At::Stmt, "ZzOpt(1, 2);", "NO_MATCHING_OVERLOAD"),
    (At::Stmt, "ZzOpt(1, \"a\", 3);", "NO_MATCHING_OVERLOAD"),
    (At::Stmt, "ZzGet().ZzP(\"a\");", "NO_MATCHING_OVERLOAD"),
    (At::Stmt, "ZzAbs.ZzSt(1);", "NO_MATCHING_OVERLOAD"),
    (At::Stmt, "ZzTake(1 + \"a\");", "NO_MATCHING_OVERLOAD"),
    (At::Stmt, "ZzTake(ZzGet());", "NO_MATCHING_OVERLOAD"),
    (At::Stmt, "ZzTake(null);", "NO_MATCHING_OVERLOAD"),
    (At::Stmt, "let zz = new ZzStr(1);", "NO_MATCHING_OVERLOAD"),
    (At::Stmt, "let zz = new ZzStr(1, \"a\", 2);", "NO_MATCHING_OVERLOAD"),
    (At::Stmt, "let zz = new ZzStr(1, 2);", "TYPE_ERR"),
    (At::Stmt, "ArraySize(ZzArr(), 1);", "NO_MATCHING_OVERLOAD"),
    (At::Stmt, "ArraySize();", "NO_MATCHING_OVERLOAD"),
    (At::Stmt, "ArraySize(1);", "TYPE_ERR"),
    (At::Stmt, "let zz = new ZzAbs();", "NEW_ABSTRACT"),
    (At::Stmt, "let zz = [];", "TYPE_ANN_REQUIRED"),
    (At::Stmt, "let zz: Int32 = \"a\";", "TYPE_ERR"),
    (At::Stmt, "let zz: String = 1;", "TYPE_ERR"),
    (At::Stmt, "let zz: Int32 = null;", "TYPE_ERR"),
    (At::Stmt, "let zz: ref<ZzOther> = ZzGet();", "TYPE_ERR"),
    (At::Stmt, "let zz: array<Int32> = [1, \"a\"];", "TYPE_ERR"),
    (At::Stmt, "let zz: array<String> = ZzArr();", "TYPE_ERR"),
    (At::Stmt, "let zz: ZzStr = ZzGet();", "TYPE_ERR"),
    (At::Stmt, "ZzGet().zs = 1;", "TYPE_ERR"),
    (At::Stmt, "ZzGet().zr = ZzMkStr();", "TYPE_ERR"),
    (At::Stmt, "if 1 { ZzVoid(); }", "TYPE_ERR"),
    (At::Stmt, "if ZzGet() { ZzVoid(); }", "TYPE_ERR"),
    (At::Stmt, "while \"a\" { ZzVoid(); }", "TYPE_ERR"),
    (At::Stmt, "ZzBool(1 == 1 && 2);", "NO_MATCHING_OVERLOAD"),
    (At::Stmt, "ZzBool(!1);", "NO_MATCHING_OVERLOAD"),
    (At::Stmt, "ZzTake(true ? 1 : \"a\");", "TYPE_ERR"),
    (At::Stmt, "ZzTake(1 ? 1 : 2);", "TYPE_ERR"),
    (At::Stmt, "let zz: array<Int32>; ZzTake(zz[\"a\"]);", "TYPE_ERR"),
    (At::Stmt, "ZzTake(ZzGet()[0]);", "UNSUPPORTED|TYPE_ERR"),
    (At::Stmt, "for zz in 5 { ZzVoid(); }", "TYPE_ERR"),
    (At::Stmt, "let zz = ZzVoid();", "POOL_ERR|INVALID_VOID_USE"),
    (At::Stmt, "ZzTake(ZzVoid());", "NO_MATCHING_OVERLOAD|INVALID_VOID_USE"),
    (At::Stmt, "ZzGet().ZzSt();", "INVALID_STATIC_USE"),
    (At::Stmt, "ZzAbs.ZzM();", "INVALID_NONSTATIC_USE"),
    (At::Stmt, "ZzTake(ZzArr().zf);", "INVALID_MEMBER_ACCESS"),
    (At::Stmt, "ZzVoid() = 1;", "TYPE_ERR|INVALID_VOID_USE"),
    (At::Stmt, "ZzMkStr().za = 1;", "OTHER"),
    (At::Stmt, "ZzArr()[0] = 1;", "OTHER"),
    (At::Stmt, "let zz = ZzCon;", "UNSUPPORTED"),
    (At::Stmt, "ZzTake(ZzEn);", "NO_MATCHING_OVERLOAD|UNSUPPORTED"),
    (At::Stmt, "let zz = ZzGet() as Int32;", "UNSUPPORTED"),
    (At::Stmt, "switch 1 { case 1: ZzVoid(); case 2: ZzVoid(); break; }", "OTHER"),
    (At::Static, "ZzTake(this.zf);", "UNEXPECTED_THIS"),
    (At::Static, "super.ZzM();", "UNEXPECTED_THIS"),
    (At::Void, "return 1;", "TYPE_ERR"),
    (At::Value, "return;", "TYPE_ERR"),
    (At::Value, "return new ZzOther();", "TYPE_ERR"),
    (At::Value, "return ZzVoid();", "TYPE_ERR|INVALID_VOID_USE"),
    (At::Item, "public func ZzBad() -> Int32;", "MISSING_BODY"),
    (At::Item, "public native func ZzBad() -> Int32 { return 1; }", "UNEXPECTED_BODY"),
    (At::Item, "public func ZzBad(a: ZzNoType) -> Void {}", "UNRESOLVED_TYPE"),
    (At::Item, "public func ZzBad() -> ZzNoType {}", "UNRESOLVED_TYPE"),
    (At::Item, "public func ZzBad() -> Int32 { return \"a\"; }", "TYPE_ERR"),
    (At::Item, "public func ZzBad(a: Int32) -> Void { let zz: = 1; }", "SYNTAX"),
    (At::Item, "public class ZzBad extends ZzNoType {}", "UNRESOLVED_TYPE"),
    (At::Item, "public class ZzBad { native let zz: Int32; }", "UNEXPECTED_NATIVE"),
    (At::Item, "public class ZzBad { native func Zz() -> Int32; }", "UNEXPECTED_NATIVE"),
    (At::Item, "public class ZzBad { let zz: Int32 = ZzOver(1); }", "INVALID_CONSTANT"),
    (At::Item, "public class ZzBad { let zz: Int32 = \"a\"; }", "TYPE_ERR"),
    (At::Item, "public class ZzBad { persistent let zz: String; }", "INVALID_PERSISTENT"),
    (At::Item, "public class ZzBad {} public class ZzBad {}", "SYM_REDEFINITION"),
    (At::Item, "@wrapMethod(ZzNoType) public func Zz() -> Void {}", "UNRESOLVED_REF|UNRESOLVED_TYPE"),
    (At::Item, "@wrapMethod(ZzCon) public func ZzNope() -> Void {}", "UNRESOLVED_METHOD"),
    (At::Item, "@wrapMethod(ZzAbs) public func ZzM(a: Int32) -> Int32 { return 1; }", "UNRESOLVED_METHOD"),
    (At::Item, "@replaceMethod(ZzCon) public func ZzNope() -> Void {}", "UNRESOLVED_METHOD"),
    (At::Item, "@replaceMethod(ZzNoType) public func ZzNope() -> Void {}", "UNRESOLVED_REF|UNRESOLVED_TYPE"),
    (At::Item, "@addMethod(ZzNoType) public func Zz() -> Void {}", "UNRESOLVED_REF|UNRESOLVED_TYPE"),
    (At::Item, "@addField(ZzNoType) public let zz: Int32;", "UNRESOLVED_REF|UNRESOLVED_TYPE"),
    (At::Item, "@addField(ZzCon) public let zz: ZzNoType;", "UNRESOLVED_TYPE"),
    (At::Item, "@wrapMethod() public func Zz() -> Void {}", "INVALID_ANN_USE"),
    (At::Item, "@addMethod(1) public func Zz() -> Void {}", "INVALID_ANN_USE"),
    (At::Item, "@replaceGlobal() public func ZzNope() -> Void {}", "UNRESOLVED_FN"),
    (At::Item, "@wrapMethod(ZzCon) public func ZzQ() -> Int32;", "MISSING_BODY"),
    (At::Item, "@if(Zz()) public func ZzBad() -> Void {}", "OTHER"),
    (At::Item, "public let zz: Int32;", "UNSUPPORTED"),
    (At::Member, "public func ZzBad() -> Int32;", "MISSING_BODY"),
    (At::Member, "public func ZzBad() -> Int32 { return \"a\"; }", "TYPE_ERR"),
    (At::Member, "public let zzBad: ZzNoType;", "UNRESOLVED_TYPE"),
    (At::Member, "public let zzBad: Int32 = 1.5;", "TYPE_ERR"),
    (At::Member, "public static func ZzBad() -> Int32 { return this.zf; }", "UNEXPECTED_THIS"),
    (At::Import, "import ZzNo.Nope", "UNRESOLVED_IMPORT"),
    (At::Import, "@if(Zz()) import ZzNo.*", "OTHER"),
    (At::Import, "import ZzNo.*", "UNRESOLVED_IMPORT"),
    (At::Item, "public class ZzBad { persistent let zz: array<String>; }", "INVALID_PERSISTENT"),
    (At::Item, "public class ZzBad { persistent let zz: array<array<Variant>>; }", "INVALID_PERSISTENT"),
    (At::Item, "public class ZzBad { persistent let zz: ResRef; }", "INVALID_PERSISTENT"),
    (At::Item, "@addField(ZzCon) persistent let zz: array<ResRef>;", "INVALID_PERSISTENT"),
    (At::Item, "@addField(ZzCon) native let zz: Int32;", "UNEXPECTED_NATIVE"),
    (At::Item, "@addMethod(ZzCon) public native func Zz() -> Int32;", "UNEXPECTED_NATIVE"),
    (At::Item, "public class ZzBad extends ZzBad {}", "UNSUPPORTED"),
    (At::Item, "public class ZzBad extends ZzBad { let a: Int32; let b: Int32; let c: Int32; let d: Int32; let e: String; let f: String; }", "UNSUPPORTED"),
    (At::Item, "public class ZzBadA extends ZzBadB { func m() {} func n() {} func o() {} func p() {} } public class ZzBadB extends ZzBadA { let a: Int32; let b: Int32; let c: Int32; let d: Int32; func m() {} }", "UNSUPPORTED"),
    (At::Item, "public abstract class ZzBadA extends ZzBadB {} public class ZzBadB extends ZzBadC {} public abstract class ZzBadC extends ZzBadD {} public class ZzBadD extends ZzBadE {} public class ZzBadE extends ZzBadA {}", "UNSUPPORTED"),
    (At::Item, "public class ZzBadA extends ZzBadB {} public class ZzBadB extends ZzBadA {}", "UNSUPPORTED"),
    (At::Item, "public class ZzBadA extends ZzBadB {} public class ZzBadB extends ZzBadC {} public class ZzBadC extends ZzBadA {}", "UNSUPPORTED"),
    (At::Item, "public class ZzBad extends ZzBadT {} public class ZzBadQ extends ZzBadR {} public class ZzBadR extends ZzBadS {} public class ZzBadS extends ZzBadQ {} public class ZzBadT extends ZzAbs {}", "UNSUPPORTED"),
    (At::Item, "public struct ZzBad { public func Zz() -> Void {} }", "UNSUPPORTED"),
    (At::Item, "public abstract class ZzBad { public static func Zz() -> Int32 { return zz; } }", "UNRESOLVED_REF"),
    (At::Item, "@wrapMethod(ZzCon) public native func ZzQ() -> Int32;", "UNSUPPORTED"),
    (At::Item, "@if(1) public func ZzBad() -> Void {}", "OTHER"),
    (At::Item, "@if(true == true) public func ZzBad() -> Void {}", "OTHER"),
    (At::Item, "@if(-true) public func ZzBad() -> Void {}", "OTHER"),
    (At::Item, "@if(ModuleExists(1)) public func ZzBad() -> Void {}", "OTHER"),
    (At::Item, "public class ZzBad { @if(1) public let zz: Int32; }", "OTHER"),
    (At::Item, "public class ZzBad { @if(zz) public func Zz() -> Void {} }", "OTHER"),
    (At::Item, "public class ZzBad { @runtimeProperty(\"a\") public let zz: Int32; }", "INVALID_ANN_USE"),
    (At::Item, "public class ZzBad { @runtimeProperty(1, 2) public let zz: Int32; }", "INVALID_ANN_USE"),
    (At::Item, "public class ZzBad { @runtimeProperty(n\"a\", \"b\") public let zz: Int32; }", "INVALID_ANN_USE"),
    (At::Item, "public class ZzBad { let zz: ZzEn = ZzGet().zf; }", "INVALID_CONSTANT"),
    (At::Item, "public class ZzBad { let zz: ref<ZzCon> = new ZzCon(); }", "INVALID_CONSTANT"),
    (At::Item, "public class ZzBad { let zz: ZzEn = ZzEn.Nope; }", "UNRESOLVED_MEMBER"),
    (At::Item, "public class ZzBad { let zz: Int32 = null; }", "TYPE_ERR"),
    (At::Item, "public class ZzBad { let zz: Bool = 1; }", "TYPE_ERR"),
    (At::Item, "public class ZzBad { let zz: array<ZzNoType>; }", "UNRESOLVED_TYPE"),
    (At::Item, "public class ZzBad { func Zz(a: Int32, b: array<ref<ZzNoType>>) -> Void {} }", "UNRESOLVED_TYPE"),
    (At::Item, "public struct ZzBad {} public struct ZzBad {}", "SYM_REDEFINITION"),
    (At::Item, "public class ZzBad {} public struct ZzBad {}", "SYM_REDEFINITION"),
    (At::Item, "@replaceMethod() public func Zz() -> Void {}", "INVALID_ANN_USE"),
    (At::Item, "@addField() public let zz: Int32;", "INVALID_ANN_USE"),
    (At::Item, "@addField(1) public let zz: Int32;", "INVALID_ANN_USE"),
    (At::Item, "@replaceMethod(ZzEn) public func Zz() -> Void {}", "UNRESOLVED_TYPE"),
    (At::Item, "@wrapMethod(ZzEn) public func Zz() -> Void {}", "UNRESOLVED_TYPE"),
    (At::Item, "@addMethod(ZzEn) public func Zz() -> Void {}", "UNRESOLVED_TYPE"),
    (At::Item, "@addField(ZzEn) public let zz: Int32;", "UNRESOLVED_TYPE"),
    (At::Item, "@replaceGlobal() public func ZzOver(a: Bool) -> Int32 { return 1; }", "UNRESOLVED_FN"),
    (At::Item, "@replaceMethod(ZzAbs) public func ZzP(a: Int64) -> Int32 { return 1; }", "UNRESOLVED_METHOD"),
    (At::Item, "@replaceMethod(ZzCon) public func ZzP(a: Int32) -> Int32 { return 1; }", "UNRESOLVED_METHOD"),
    (At::Item, "@wrapMethod(ZzCon) public func ZzM() -> Int32 { return 1; }", "UNRESOLVED_METHOD"),
    (At::Item, "@wrapMethod(ZzCon) public func ZzQ() -> Int32 { return wrappedMethod(1); }", "NO_MATCHING_OVERLOAD"),
    (At::Stmt, "wrappedMethod();", "UNRESOLVED_FN"),
    (At::Stmt, "let zz: ref<ZzCon> = ZzWeak().zr.za;", "TYPE_ERR"),
    (At::Stmt, "let zz: Uint64 = -1ul;", "NO_MATCHING_OVERLOAD|TYPE_ERR"),
    (At::Stmt, "let zz: array<ref<ZzCon>>; ArrayPush(zz, new ZzOther());", "TYPE_ERR"),
    (At::Stmt, "let zz: array<Int32>; ArrayPush(zz, \"a\");", "TYPE_ERR"),
    (At::Stmt, "let zz: array<Int32>; ArrayInsert(zz, \"a\", 1);", "TYPE_ERR"),
    (At::Stmt, "let zz: array<Int32>; ArrayResize(zz, \"a\");", "TYPE_ERR"),
    (At::Stmt, "ZzTake(ZzGet().ZzQ);", "UNRESOLVED_MEMBER"),
    (At::Stmt, "for zz in ZzGet() { ZzVoid(); }", "TYPE_ERR"),
    (At::Stmt, "for zz in [1, 2] { ZzText(zz); }", "NO_MATCHING_OVERLOAD"),
    (At::Stmt, "switch 1 { case \"a\": break; }", "TYPE_ERR"),
    (At::Stmt, "switch ZzGet() { case \"a\": break; }", "TYPE_ERR"),
    (At::Stmt, "switch 1 { default: ZzNope(); }", "UNRESOLVED_FN"),
    (At::Stmt, "if true { } else { ZzNope(); }", "UNRESOLVED_FN"),
    (At::Stmt, "while ZzNope() { }", "UNRESOLVED_FN"),
    (At::Stmt, "ZzText(s\"a\\(ZzNope())b\");", "UNRESOLVED_FN"),
    (At::Stmt, "ZzText(s\"a\\(ZzVoid())b\");", "UNSUPPORTED"),
    (At::Stmt, "ZzTake(ZzGet().zs);", "NO_MATCHING_OVERLOAD"),
    (At::Stmt, "let zz = new ZzCon(1);", "NO_MATCHING_OVERLOAD"),
    (At::Stmt, "let zz = new ZzEn();", "UNSUPPORTED"),
    (At::Stmt, "let zz: Int32 = ZzEn.A;", "TYPE_ERR"),
    (At::Stmt, "let zz: ZzEn = 1;", "TYPE_ERR"),
    (At::Stmt, "let zz: CName = \"a\";", "TYPE_ERR"),
    (At::Stmt, "let zz: String = n\"a\";", "TYPE_ERR"),
    (At::Stmt, "ZzBool(ZzGet() == 1);", "NO_MATCHING_OVERLOAD"),
    (At::Stmt, "ZzNope.Nope();", "UNRESOLVED_REF"),
    (At::Stmt, "let zz = ZzGet() as ZzOther as ZzNoType;", "UNRESOLVED_TYPE"),
];

/// mistakes that do not end the compilation at once, so that others are reported as well
pub fn alone(i: usize) -> bool {
    FAULTS[i].2 != "SYNTAX" && finding(i).is_none()
}

/// mistakes known not to be reported
pub fn finding(i: usize) -> Option<&'static str> {
    FAULTS[i].1.contains("case \"a\":").then_some("case-type")
}

/// puts a mark into a random block of a random function that `ok` accepts; the file it is in
pub fn mark(p: &mut Prog, r: &mut Rng, name: &str, taken: &mut Vec<usize>, ok: impl Fn(&Fun) -> bool) -> Option<usize> {
    let cands: Vec<usize> = (0..p.funs.len()).filter(|i| !taken.contains(i) && ok(&p.funs[*i])).collect();
    if cands.is_empty() {
        return None;
    }
    let f = *r.pick(&cands);
    taken.push(f);
    let f = &mut p.funs[f];
    let mut bodies: Vec<(usize, &mut Vec<S>)> = vec![(f.file, &mut f.body)];
    for l in f.wraps.iter_mut().chain(f.replaced.iter_mut()) {
        bodies.push((l.file, &mut l.body));
    }
    let k = r.below(bodies.len());
    let (file, body) = bodies.swap_remove(k);
    place(body, r, name);
    Some(file)
}

fn place(b: &mut Vec<S>, r: &mut Rng, name: &str) {
    let nested: Vec<usize> =
        (0..b.len()).filter(|i| matches!(b[*i], S::If(..) | S::While(..) | S::For(..) | S::Switch(..))).collect();
    if nested.is_empty() || r.chance(1, 3) {
        let i = r.below(b.len() + 1);
        b.insert(i, S::Raw(name.to_owned()));
        return;
    }
    let i = *r.pick(&nested);
    match &mut b[i] {
        S::If(_, t, e) => match e {
            Some(e) if r.bool() => place(e, r, name),
            _ => place(t, r, name),
        },
        S::While(_, t) | S::For(_, _, t) => place(t, r, name),
        S::Switch(_, cs, d) => {
            // only bodies that do not fall through
            let mut bs: Vec<&mut Vec<S>> = cs.iter_mut().map(|c| &mut c.1).chain(d.iter_mut()).filter(|b| !b.is_empty()).collect();
            if bs.is_empty() {
                b.insert(i, S::Raw(name.to_owned()));
            } else {
                let k = r.below(bs.len());
                bs[k].insert(0, S::Raw(name.to_owned()));
            }
        }
        _ => unreachable!(),
    }
}

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct Said {
    pub fatal: bool,
    pub code: String,
    pub file: usize,
    pub line: usize,
    pub text: String,
    /// the name that is declared there, for declarations
    pub name: String,
}

fn said(d: &Diagnostic, texts: &[(String, String)]) -> Result<Said, String> {
    let low = usize::from(d.span().low);
    let (file, line, col) = total::locate(texts, low).ok_or_else(|| format!("{d} is in no file"))?;
    let name = texts[file].1.split('\n').nth(line).and_then(|l| l.chars().skip(col).collect::<String>().split(|c: char| !c.is_alphanumeric() && c != '_').nth(1).map(str::to_owned)).unwrap_or_default();
    let code = if matches!(d, Diagnostic::SyntaxError(..)) { "SYNTAX" } else { d.code() };
    Ok(Said { fatal: d.is_fatal(), code: code.to_owned(), file, line, text: format!("{d}").chars().take(200).collect(), name })
}

/// everything that is said about the given files, in the order of the files and lines
pub fn diagnose(base: &[u8], texts: &[(String, String)]) -> Result<Vec<Said>, String> {
    let mut bundle = load(base).map_err(|e| format!("base: {e}"))?;
    let mut files = redscript_compiler::source_map::Files::new();
    for (p, t) in texts {
        files.add(PathBuf::from(p), t.clone());
    }
    let unit = CompilationUnit::new_with_defaults(&mut bundle.pool).map_err(|e| format!("HARNESS: {e}"))?;
    let mut out = vec![];
    match unit.compile_files(&files) {
        Err(e) => {
            let d = Diagnostic::from_error(e).map_err(|e| format!("refused without saying where: {e:?}"))?;
            out.push(said(&d, texts)?);
        }
        Ok(o) => {
            for d in o.diagnostics() {
                out.push(said(d, texts)?);
            }
        }
    }
    out.sort();
    Ok(out)
}

/// the locals of a program that nothing refers to, by file and name
pub fn unused(p: &Prog) -> Vec<(usize, String)> {
    let mut out = vec![];
    for f in &p.funs {
        let mut bodies = vec![(f.file, &f.body)];
        bodies.extend(f.wraps.iter().chain(f.replaced.iter()).map(|l| (l.file, &l.body)));
        for (file, b) in bodies {
            let mut u = Unused { scopes: vec![], out: vec![] };
            u.block(b, None);
            out.extend(u.out.into_iter().map(|n| (file, n)));
        }
    }
    out.sort();
    out
}

struct Unused {
    scopes: Vec<Vec<(String, bool)>>,
    out: Vec<String>,
}

impl Unused {
    // the variable of a loop counts as used
    fn block(&mut self, b: &[S], var: Option<&str>) {
        self.scopes.push(var.map(|v| (v.to_owned(), true)).into_iter().collect());
        for s in b {
            self.stmt(s);
        }
        for (n, used) in self.scopes.pop().unwrap() {
            if !used {
                self.out.push(n);
            }
        }
    }
    fn stmt(&mut self, s: &S) {
        match s {
            S::Let(n, _, e, _) => {
                if let Some(e) = e {
                    self.expr(e);
                }
                self.scopes.last_mut().unwrap().push((n.clone(), false));
            }
            S::Set(a, b) | S::SetOp(_, a, b) => {
                self.expr(a);
                self.expr(b);
            }
            S::Ex(e) => self.expr(e),
            S::If(c, t, e) => {
                self.expr(c);
                self.block(t, None);
                if let Some(e) = e {
                    self.block(e, None);
                }
            }
            S::While(c, b) => {
                self.expr(c);
                self.block(b, None);
            }
            S::For(n, e, b) => {
                self.expr(e);
                self.block(b, Some(n));
            }
            S::Switch(e, cs, d) => {
                self.expr(e);
                for (m, b) in cs {
                    self.expr(m);
                    self.block(b, None);
                }
                if let Some(d) = d {
                    self.block(d, None);
                }
            }
            S::Ret(Some(e)) => self.expr(e),
            S::Ret(None) | S::Break | S::Raw(_) => {}
        }
    }
    fn expr(&mut self, e: &E) {
        // every variable in it, found in its description
        let d = format!("{e:?}");
        for part in d.split("Var(\"").skip(1) {
            let n = &part[..part.find('"').unwrap()];
            if let Some(v) = self.scopes.iter_mut().rev().flat_map(|s| s.iter_mut().rev()).find(|v| v.0 == n) {
                v.1 = true;
            }
        }
    }
}
