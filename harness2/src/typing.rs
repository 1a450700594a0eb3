//! Statements put together without regard to types: the compiler has to refuse them or emit well-typed code.
use vmon::rng::Rng;

/// what the statements are about
pub const PRELUDE: &str = r#"
public class Ta extends IScriptable {
  public let fi: Int32;
  public let fs: String;
  public let fr: ref<Ta>;
  public let fw: wref<Tb>;
  public let fa: array<Int32>;
  public let ft: Ts;
  public let fe: Te;
  public func Mi(a: Int32) -> Int32 { return a; }
  public func Mr(a: ref<Ta>) -> ref<Tb> { return null; }
  public func Ms(opt a: String, opt b: wref<Ta>) -> Void {}
  public func Mo(out a: Int32) -> Bool { return true; }
  public static func Si(a: Int32) -> String { return ""; }
  public static func Sn() -> array<Ts> { let a: array<Ts>; return a; }
}
public class Tb extends Ta {
  public let gi: Float;
  public func Mi(a: Int32) -> Int32 { return a; }
}
public class Tc extends IScriptable {
  public let fi: CName;
}
public abstract class Td extends Tb {}
public struct Ts { public let si: Int32; public let sr: ref<Ta>; public let ss: String; }
public struct Tu { public let si: Int32; }
public struct Tw { public let sb: ref<Tb>; public let sw: wref<Ta>; public let st: Tu; }
enum Te { A = 0, B = 1, }
enum Tf { A = 0, C = 5, }
public func Vo() -> Void {}
public func Ov(a: Int32) -> Int32 { return a; }
public func Ov(a: String) -> String { return a; }
public func Ov(a: ref<Ta>) -> wref<Ta> { return a; }
public func Ov(a: wref<Tb>, opt b: Float) -> ref<Ta> { return null; }
public func Ov(a: array<Int32>) -> array<Int32> { return a; }
public func Two(a: ref<Ta>, b: wref<Tb>) -> ref<Tb> { return null; }
"#;

/// types with a name for what takes and makes them
pub const TYPES: &[&str] = &[
    "Bool", "Int32", "Int64", "Uint32", "Uint64", "Float", "Double", "Int8", "String", "CName", "TweakDBID", "ResRef", "Variant", "Te", "Tf", "Ts", "Tu",
    "Tw", "ref<Ta>", "ref<Tb>", "ref<Tc>", "ref<Td>", "wref<Ta>", "wref<Tb>", "wref<Tc>", "array<Int32>", "array<String>", "array<ref<Ta>>", "array<ref<Tb>>",
    "array<wref<Ta>>", "array<Ts>", "array<array<Int32>>", "array<Te>", "script_ref<String>", "script_ref<Int32>", "script_ref<array<Int32>>", "script_ref<Ts>", "script_ref<ref<Tb>>",
];

pub fn prelude() -> String {
    let mut s = PRELUDE.to_owned();
    for (k, t) in TYPES.iter().enumerate() {
        s.push_str(&format!("public func Take{k}(a: {t}) -> {t} {{ return a; }}\n"));
        s.push_str(&format!("public func Out{k}(out a: {t}) -> Void {{ }}\n"));
        s.push_str(&format!("public func Opt{k}(opt a: {t}, opt b: Int32) -> Void {{ }}\n"));
    }
    s
}

/// the function around a statement
pub fn function(stmt: &str, ret: usize) -> String {
    let ps: Vec<String> = TYPES.iter().enumerate().map(|(k, t)| format!("p{k}: {t}")).collect();
    let ret = match ret {
        0 => "Void".to_owned(),
        k => TYPES[k - 1].to_owned(),
    };
    let wrap = if ret == "Void" { "" } else { "let zend: " };
    let end = if wrap.is_empty() { String::new() } else { format!(" {wrap}{ret}; return zend;") };
    format!("public class Tz extends Tb {{ public func Go({}) -> {ret} {{ {stmt}{end} }}\n}}\n", ps.join(", "))
}

/// expressions that are something by themselves
pub fn atoms() -> Vec<String> {
    let mut v: Vec<String> = (0..TYPES.len()).map(|k| format!("p{k}")).collect();
    for a in [
        "1", "1.5", "2u", "3l", "4ul", "5.5d", "true", "\"s\"", "n\"n\"", "t\"t.t\"", "r\"r\"", "null", "this", "Te.A", "Tf.C", "Vo()", "Ta.Si(1)", "new Ta()", "new Tb()", "new Tu(1)", "[1, 2]", "[new Tb()]", "this.fi", "this.fs",
        "this.fr", "this.fw", "this.fa", "this.ft", "this.ft.si", "this.fe", "this.gi", "p15.sr", "p17.sw", "p18.fr.fr", "p22.fi", "p18.Mr(null)", "p25[0]", "p27[0]", "p30[0]", "p31[0]", "p29[0]", "Ta", "Te", "Ts", "nope", "Ta.Sn()[0]", "Ta.Sn()[0].si", "Ta.Sn()[0].sr.fs", "[1, 2][0]", "Take35(p35)", "Take17(p17).st.si", "Deref(p36).si", "Deref(p35)[0]", "this.Mr(null).fs",
    ] {
        v.push(a.to_owned());
    }
    v
}

/// what statements consist of: `X`, `Y` are expressions, `T`, `N` a type and its number
pub const FORMS: &[&str] = &[
    "X = Y;",
    "let z: T = X;",
    "TakeN(X);",
    "Take33(AsRef(X));",
    "Take34(AsRef(X));",
    "Take35(AsRef(X));",
    "Take36(AsRef(X));",
    "OutN(X);",
    "OptN(X);",
    "OptN(X, Y);",
    "return X;",
    "let z = X == Y;",
    "let z = X != Y;",
    "let z = X + Y;",
    "let z = X - Y;",
    "let z = X * Y;",
    "let z = X % Y;",
    "let z = X | Y;",
    "let z = X < Y;",
    "let z = X >= Y;",
    "let z = X && Y;",
    "let z = X || Y;",
    "X += Y;",
    "X -= Y;",
    "let z = X ? Y : Y;",
    "let z = true ? X : Y;",
    "let z: T = true ? X : Y;",
    "TakeN(true ? X : Y);",
    "let z = [X, Y];",
    "let z: array<T> = [X, Y];",
    "if X { Vo(); }",
    "while X { Vo(); }",
    "switch X { case Y: Vo(); break; default: break; }",
    "switch X { case Y: case 1: Vo(); }",
    "for q in X { TakeN(q); }",
    "let z = X[Y];",
    "X[Y] = X[0];",
    "X[0] = Y;",
    "ArrayPush(X, Y);",
    "ArrayInsert(X, 0, Y);",
    "ArrayInsert(X, Y, X[0]);",
    "ArrayContains(X, Y);",
    "ArrayFindFirst(X, Y);",
    "ArrayFindLast(X, Y);",
    "ArrayCount(X, Y);",
    "ArrayRemove(X, Y);",
    "ArrayErase(X, Y);",
    "ArrayResize(X, Y);",
    "ArrayGrow(X, Y);",
    "ArrayClear(X);",
    "let z = ArraySize(X);",
    "let z = ArrayPop(X);",
    "let z: T = ArrayPop(X);",
    "let z = ArrayLast(X);",
    "let z = IsDefined(X);",
    "let z = ToString(X);",
    "let z = ToVariant(X);",
    "let z: T = FromVariant(X);",
    "let z = FromVariant<T>(X);",
    "let z = EnumInt(X);",
    "let z = IntEnum<T>(X);",
    "let z: T = IntEnum(X);",
    "let z = VariantTypeName(X);",
    "let z = VariantIsRef(X);",
    "let z = AsRef(X);",
    "let z: T = AsRef(X);",
    "let z = Deref(X);",
    "let z: T = Deref(X);",
    "let z = Equals(X, Y);",
    "let z = NotEquals(X, Y);",
    "let z = Cast<T>(X);",
    "let z = X as Ta;",
    "let z = X as Tb;",
    "let z = X as Td;",
    "let z: T = X as Tb;",
    "let z = X as T;",
    "let z = X.fi;",
    "let z = X.fs;",
    "let z = X.fr;",
    "let z = X.si;",
    "let z = X.sr.fi;",
    "X.fi = Y;",
    "X.fr = Y;",
    "X.fw = Y;",
    "X.fa = Y;",
    "X.si = Y;",
    "X.st.si = Y;",
    "X.fa[Y] = 1;",
    "X.Mi(Y);",
    "X.Mr(Y);",
    "X.Ms(Y);",
    "X.Ms(Y, X);",
    "X.Mo(Y);",
    "X.Mr(Y).Mr(X);",
    "Ta.Si(X);",
    "super.Mr(X);",
    "this.Mi(X);",
    "Mi(X);",
    "let z = new Ts(X, Y, \"a\");",
    "let z = new Tw(X, Y, new Tu(1));",
    "let z = new Tw(p19, Y, X);",
    "let z: T = new Tu(X);",
    "Ov(X);",
    "let z: T = Ov(X);",
    "TakeN(Ov(X));",
    "Two(X, Y);",
    "Ov(X, Y);",
    "let z = s\"a\\(X)b\\(Y)\";",
    "let z = -X;",
    "let z = !X;",
    "let z = ~X;",
    "let z: wref<Ta> = X;",
    "let z: ref<Ta> = X;",
    "let z: T; z = X;",
    "let z: array<T>; ArrayPush(z, X);",
    "let z: T = X; TakeN(z);",
    "return true ? X : Y;",
    "let z = X; z = Y;",
    "let z: ref<T>; let y = z;",
    "let z: wref<T>; let y = z;",
    "let z: script_ref<T> = X;",
];

/// a statement: form, expressions, type
pub fn statement(form: &str, x: &str, y: &str, t: usize) -> String {
    let mut s = String::new();
    let cs: Vec<char> = form.chars().collect();
    for (k, c) in cs.iter().enumerate() {
        let word = |j: usize| cs.get(j).is_some_and(|c| c.is_alphanumeric());
        let alone = !(k > 0 && word(k - 1)) && !word(k + 1);
        match c {
            'X' if alone => s.push_str(x),
            'Y' if alone => s.push_str(y),
            'T' if alone => s.push_str(TYPES[t]),
            'N' if k >= 3 && !word(k + 1) && matches!(cs[k - 1], 'e' | 't') => s.push_str(&t.to_string()),
            c => s.push(*c),
        }
    }
    s
}

/// an expression made of others
pub fn nested(r: &mut Rng, atoms: &[String], depth: usize) -> String {
    if depth == 0 || r.chance(1, 3) {
        return r.pick(atoms).clone();
    }
    let x = nested(r, atoms, depth - 1);
    let y = nested(r, atoms, depth - 1);
    let t = r.below(TYPES.len());
    let f = *r.pick(&[
        "(X + Y)", "(X == Y)", "(X && Y)", "(true ? X : Y)", "(p0 ? X : Y)", "[X, Y]", "[X]", "X[Y]", "X.fi", "X.fr", "X.fw", "X.si", "X.sr", "X.fa", "X.ft", "X.Mi(Y)", "X.Mr(Y)", "TakeN(X)", "(X as Ta)", "(X as Tb)", "Ov(X)",
        "ArrayPop(X)", "ArrayLast(X)", "ArraySize(X)", "IsDefined(X)", "ToString(X)", "ToVariant(X)", "FromVariant<T>(X)", "AsRef(X)", "Deref(X)", "EnumInt(X)", "IntEnum<T>(X)", "new Tu(X)", "-X", "!X", "Cast<T>(X)",
        "Two(X, Y)", "s\"\\(X)\"", "Equals(X, Y)", "ArrayContains(X, Y)",
    ]);
    statement(f, &x, &y, t)
}
