//! Observation of real redscript values through their public API, expressed in the reference model.
use redscript::bundle::{ConstantPool, PoolIndex, ScriptBundle};
use redscript::bytecode::{Code, Instr, Offset};
use redscript::definition::{
    AnyDefinition, Class, ClassFlags, Definition, Enum, Field, FieldFlags, Function, FunctionFlags, Local, LocalFlags,
    Parameter, ParameterFlags, Property, SourceFile, SourceReference, Type, Visibility,
};
use redscript::encode::Encode;
use redscript::decode::Decode;

use crate::spec::*;

pub fn ix<A>(i: PoolIndex<A>) -> u32 {
    u32::from(i)
}
fn ixs<A>(v: &[PoolIndex<A>]) -> Vec<u32> {
    v.iter().map(|i| ix(*i)).collect()
}
pub fn un<A>(i: u32) -> PoolIndex<A> {
    PoolIndex::new(i)
}
fn uns<A>(v: &[u32]) -> Vec<PoolIndex<A>> {
    v.iter().map(|i| un(*i)).collect()
}

macro_rules! single {
    ($m:ident) => {
        $m! {
            14 NameConst, 17 TweakDbIdConst, 18 ResourceConst, 24 Local, 25 Param, 26 ObjectField, 40 StructField,
            42 Equals, 43 RefStringEqualsString, 44 StringEqualsRefString, 45 NotEquals, 46 RefStringNotEqualsString,
            47 StringNotEqualsRefString, 48 New, 52 ArrayClear, 53 ArraySize, 54 ArrayResize, 55 ArrayFindFirst,
            56 ArrayFindFirstFast, 57 ArrayFindLast, 58 ArrayFindLastFast, 59 ArrayContains, 60 ArrayContainsFast,
            61 ArrayCount, 62 ArrayCountFast, 63 ArrayPush, 64 ArrayPop, 65 ArrayInsert, 66 ArrayRemove,
            67 ArrayRemoveFast, 68 ArrayGrow, 69 ArrayErase, 70 ArrayEraseFast, 71 ArrayLast, 72 ArrayElement,
            73 ArraySort, 74 ArraySortByPredicate, 75 StaticArraySize, 76 StaticArrayFindFirst,
            77 StaticArrayFindFirstFast, 78 StaticArrayFindLast, 79 StaticArrayFindLastFast, 80 StaticArrayContains,
            81 StaticArrayContainsFast, 82 StaticArrayCount, 83 StaticArrayCountFast, 84 StaticArrayLast,
            85 StaticArrayElement, 91 ToString, 92 ToVariant, 93 FromVariant, 102 AsRef, 103 Deref
        }
    };
}
macro_rules! nullary {
    ($m:ident) => {
        $m! {
            0 Nop, 1 Null, 2 I32One, 3 I32Zero, 19 TrueConst, 20 FalseConst, 22 Assign, 27 ExternalVar,
            30 SwitchDefault, 38 ParamEnd, 39 Return, 49 Delete, 50 This, 86 RefToBool, 87 WeakRefToBool,
            94 VariantIsDefined, 95 VariantIsRef, 96 VariantIsArray, 97 VariantTypeName, 98 VariantToString,
            99 WeakRefToRef, 100 RefToWeakRef, 101 WeakRefNull
        }
    };
}

/// Reads an instruction's operands into the model. `off` turns a jump operand into bits.
pub fn instr_of<L: Copy>(i: &Instr<L>, off: impl Fn(L) -> u64) -> SInstr {
    macro_rules! do_single { ($($n:literal $v:ident),*) => { match i { $(Instr::$v(p) => return SInstr::new($n, &[u64::from(ix(*p))]),)* _ => {} } } }
    macro_rules! do_null { ($($n:literal $v:ident),*) => { match i { $(Instr::$v => return SInstr::new($n, &[]),)* _ => {} } } }
    single!(do_single);
    nullary!(do_null);
    match i {
        Instr::I8Const(v) => SInstr::new(4, &[u64::from(*v as u8)]),
        Instr::I16Const(v) => SInstr::new(5, &[u64::from(*v as u16)]),
        Instr::I32Const(v) => SInstr::new(6, &[u64::from(*v as u32)]),
        Instr::I64Const(v) => SInstr::new(7, &[*v as u64]),
        Instr::U8Const(v) => SInstr::new(8, &[u64::from(*v)]),
        Instr::U16Const(v) => SInstr::new(9, &[u64::from(*v)]),
        Instr::U32Const(v) => SInstr::new(10, &[u64::from(*v)]),
        Instr::U64Const(v) => SInstr::new(11, &[*v]),
        Instr::F32Const(v) => SInstr::new(12, &[u64::from(v.to_bits())]),
        Instr::F64Const(v) => SInstr::new(13, &[v.to_bits()]),
        Instr::EnumConst(a, b) => SInstr::new(15, &[u64::from(ix(*a)), u64::from(ix(*b))]),
        Instr::StringConst(p) => SInstr::new(16, &[u64::from(ix(*p))]),
        Instr::Breakpoint(b) => {
            let mut o = vec![21u8];
            b.encode(&mut o).unwrap();
            SInstr::read(&mut Rd::new(&o)).unwrap()
        }
        Instr::Target(_) => SInstr::new(23, &[]),
        Instr::Switch(t, o) => SInstr::new(28, &[u64::from(ix(*t)), off(*o)]),
        Instr::SwitchLabel(a, b) => SInstr::new(29, &[off(*a), off(*b)]),
        Instr::Jump(a) => SInstr::new(31, &[off(*a)]),
        Instr::JumpIfFalse(a) => SInstr::new(32, &[off(*a)]),
        Instr::Skip(a) => SInstr::new(33, &[off(*a)]),
        Instr::Conditional(a, b) => SInstr::new(34, &[off(*a), off(*b)]),
        Instr::Construct(n, c) => SInstr::new(35, &[u64::from(*n), u64::from(ix(*c))]),
        Instr::InvokeStatic(o, l, f, u) => {
            SInstr::new(36, &[off(*o), u64::from(*l), u64::from(ix(*f)), u64::from(*u)])
        }
        Instr::InvokeVirtual(o, l, f, u) => {
            SInstr::new(37, &[off(*o), u64::from(*l), u64::from(ix(*f)), u64::from(*u)])
        }
        Instr::Context(o) => SInstr::new(41, &[off(*o)]),
        Instr::StartProfiling(s) => {
            let mut o = vec![51u8];
            s.encode(&mut o).unwrap();
            SInstr::read(&mut Rd::new(&o)).unwrap()
        }
        Instr::EnumToI32(t, n) => SInstr::new(88, &[u64::from(ix(*t)), u64::from(*n)]),
        Instr::I32ToEnum(t, n) => SInstr::new(89, &[u64::from(ix(*t)), u64::from(*n)]),
        Instr::DynamicCast(t, n) => SInstr::new(90, &[u64::from(ix(*t)), u64::from(*n)]),
        _ => unreachable!("instruction not in the model"),
    }
}

pub fn off_bits(o: Offset) -> u64 {
    u64::from(o.value as u16)
}

pub fn instr(i: &Instr<Offset>) -> SInstr {
    instr_of(i, off_bits)
}

pub fn code(c: &Code<Offset>) -> Vec<SInstr> {
    c.as_ref().iter().map(instr).collect()
}

/// Builds the real instruction for a model instruction; jump operands through `loc`.
pub fn make_instr<L: Copy>(s: &SInstr, loc: impl Fn(u64) -> L) -> Instr<L> {
    let a = |n: usize| s.args[n];
    let p = |n: usize| s.args[n] as u32;
    macro_rules! do_single { ($($n:literal $v:ident),*) => { match s.op { $($n => return Instr::$v(un(p(0))),)* _ => {} } } }
    macro_rules! do_null { ($($n:literal $v:ident),*) => { match s.op { $($n => return Instr::$v,)* _ => {} } } }
    single!(do_single);
    nullary!(do_null);
    match s.op {
        4 => Instr::I8Const(a(0) as i8),
        5 => Instr::I16Const(a(0) as i16),
        6 => Instr::I32Const(a(0) as i32),
        7 => Instr::I64Const(a(0) as i64),
        8 => Instr::U8Const(a(0) as u8),
        9 => Instr::U16Const(a(0) as u16),
        10 => Instr::U32Const(a(0) as u32),
        11 => Instr::U64Const(a(0)),
        12 => Instr::F32Const(f32::from_bits(a(0) as u32)),
        13 => Instr::F64Const(f64::from_bits(a(0))),
        15 => Instr::EnumConst(un(p(0)), un(p(1))),
        16 => Instr::StringConst(un(p(0))),
        21 => {
            let mut b = vec![];
            s.write(&mut b);
            Instr::Breakpoint(Box::new(Decode::decode(&mut &b[1..]).unwrap()))
        }
        23 => Instr::Target(loc(s.args.first().copied().unwrap_or(0))),
        28 => Instr::Switch(un(p(0)), loc(a(1))),
        29 => Instr::SwitchLabel(loc(a(0)), loc(a(1))),
        31 => Instr::Jump(loc(a(0))),
        32 => Instr::JumpIfFalse(loc(a(0))),
        33 => Instr::Skip(loc(a(0))),
        34 => Instr::Conditional(loc(a(0)), loc(a(1))),
        35 => Instr::Construct(a(0) as u8, un(p(1))),
        36 => Instr::InvokeStatic(loc(a(0)), a(1) as u16, un(p(2)), a(3) as u16),
        37 => Instr::InvokeVirtual(loc(a(0)), a(1) as u16, un(p(2)), a(3) as u16),
        41 => Instr::Context(loc(a(0))),
        51 => {
            let mut b = vec![];
            s.write(&mut b);
            Instr::StartProfiling(Box::new(Decode::decode(&mut &b[1..]).unwrap()))
        }
        88 => Instr::EnumToI32(un(p(0)), a(1) as u8),
        89 => Instr::I32ToEnum(un(p(0)), a(1) as u8),
        90 => Instr::DynamicCast(un(p(0)), a(1) as u8),
        _ => unreachable!(),
    }
}

pub fn mk(s: &SInstr) -> Instr<Offset> {
    make_instr(s, |v| Offset::new(v as u16 as i16))
}

fn vis(v: Visibility) -> u8 {
    match v {
        Visibility::Public => 0,
        Visibility::Protected => 1,
        Visibility::Private => 2,
    }
}
pub fn mkvis(v: u8) -> Visibility {
    match v {
        0 => Visibility::Public,
        1 => Visibility::Protected,
        _ => Visibility::Private,
    }
}

pub fn def(d: &Definition) -> SDef {
    SDef {
        name: ix(d.name),
        parent: ix(d.parent),
        unk: [d.unk1, d.unk2, d.unk3],
        val: val(&d.value),
    }
}

fn props(v: &[Property]) -> Vec<(String, String)> {
    v.iter().map(|p| (p.name.clone(), p.value.clone())).collect()
}

pub fn val(v: &AnyDefinition) -> SVal {
    match v {
        AnyDefinition::Type(t) => match t {
            Type::Prim => SVal::Type(0, 0, 0),
            Type::Class => SVal::Type(1, 0, 0),
            Type::Ref(t) => SVal::Type(2, ix(*t), 0),
            Type::WeakRef(t) => SVal::Type(3, ix(*t), 0),
            Type::Array(t) => SVal::Type(4, ix(*t), 0),
            Type::StaticArray(t, n) => SVal::Type(5, ix(*t), *n),
            Type::ScriptRef(t) => SVal::Type(6, ix(*t), 0),
        },
        AnyDefinition::Class(c) => SVal::Class(SClass {
            vis: vis(c.visibility),
            flags: u16::from_le_bytes(c.flags.into_bytes()),
            base: ix(c.base),
            functions: ixs(&c.functions),
            fields: ixs(&c.fields),
            overrides: ixs(&c.overrides),
        }),
        AnyDefinition::EnumValue(n) => SVal::EnumValue(*n),
        AnyDefinition::Enum(e) => SVal::Enum { flags: e.flags, size: e.size, members: ixs(&e.members), unk1: e.unk1 },
        AnyDefinition::Function(f) => SVal::Function(SFunction {
            vis: vis(f.visibility),
            flags: u32::from_le_bytes(f.flags.into_bytes()),
            source: f.source.as_ref().map(|s| (ix(s.file), s.line)),
            ret: f.return_type.map(ix),
            unk1: f.unk1,
            base_method: f.base_method.map(ix),
            params: ixs(&f.parameters),
            locals: ixs(&f.locals),
            operator: f.operator,
            cast: f.cast,
            code: code(&f.code),
            unk2: ixs(&f.unk2),
        }),
        AnyDefinition::Parameter(p) => SVal::Parameter { type_: ix(p.type_), flags: p.flags.into_bytes()[0] },
        AnyDefinition::Local(p) => SVal::Local { type_: ix(p.type_), flags: p.flags.into_bytes()[0] },
        AnyDefinition::Field(f) => SVal::Field(SField {
            vis: vis(f.visibility),
            type_: ix(f.type_),
            flags: u16::from_le_bytes(f.flags.into_bytes()),
            hint: f.hint.clone(),
            attrs: props(&f.attributes),
            defaults: props(&f.defaults),
        }),
        AnyDefinition::SourceFile(s) => {
            SVal::SourceFile { id: s.id, hash: s.path_hash, path: s.path.to_string_lossy().into_owned() }
        }
    }
}

/// Builds a real definition from a model one (public constructors/fields only).
pub fn make_def(d: &SDef) -> Definition {
    Definition {
        name: un(d.name),
        parent: un(d.parent),
        unk1: d.unk[0],
        unk2: d.unk[1],
        unk3: d.unk[2],
        value: make_val(&d.val),
    }
}

fn mkprops(v: &[(String, String)]) -> Vec<Property> {
    v.iter().map(|(a, b)| Property { name: a.clone(), value: b.clone() }).collect()
}

pub fn make_val(v: &SVal) -> AnyDefinition {
    match v {
        SVal::Type(t, i, n) => AnyDefinition::Type(match t {
            0 => Type::Prim,
            1 => Type::Class,
            2 => Type::Ref(un(*i)),
            3 => Type::WeakRef(un(*i)),
            4 => Type::Array(un(*i)),
            5 => Type::StaticArray(un(*i), *n),
            _ => Type::ScriptRef(un(*i)),
        }),
        SVal::Class(c) => AnyDefinition::Class(Class {
            visibility: mkvis(c.vis),
            flags: ClassFlags::from_bytes(c.flags.to_le_bytes()),
            base: un(c.base),
            functions: uns(&c.functions),
            fields: uns(&c.fields),
            overrides: uns(&c.overrides),
        }),
        SVal::EnumValue(n) => AnyDefinition::EnumValue(*n),
        SVal::Enum { flags, size, members, unk1 } => {
            AnyDefinition::Enum(Enum { flags: *flags, size: *size, members: uns(members), unk1: *unk1 })
        }
        SVal::Function(f) => AnyDefinition::Function(Function {
            visibility: mkvis(f.vis),
            flags: FunctionFlags::from_bytes(f.flags.to_le_bytes()),
            source: f.source.map(|(file, line)| SourceReference { file: un(file), line }),
            return_type: f.ret.map(un),
            unk1: f.unk1,
            base_method: f.base_method.map(un),
            parameters: uns(&f.params),
            locals: uns(&f.locals),
            operator: f.operator,
            cast: f.cast,
            code: Code::new(f.code.iter().map(mk).collect()),
            unk2: uns(&f.unk2),
        }),
        SVal::Parameter { type_, flags } => {
            AnyDefinition::Parameter(Parameter { type_: un(*type_), flags: ParameterFlags::from_bytes([*flags]) })
        }
        SVal::Local { type_, flags } => {
            AnyDefinition::Local(Local { type_: un(*type_), flags: LocalFlags::from_bytes([*flags]) })
        }
        SVal::Field(f) => AnyDefinition::Field(Field {
            visibility: mkvis(f.vis),
            type_: un(f.type_),
            flags: FieldFlags::from_bytes(f.flags.to_le_bytes()),
            hint: f.hint.clone(),
            attributes: mkprops(&f.attrs),
            defaults: mkprops(&f.defaults),
        }),
        SVal::SourceFile { id, hash, path } => {
            AnyDefinition::SourceFile(SourceFile { id: *id, path_hash: *hash, path: path.into() })
        }
    }
}

/// Flag bits that merely restate which optional parts are present are recomputed by a writer; the model compares
/// the parts themselves.
pub fn strip_derived(v: &SVal) -> SVal {
    let mut v = v.clone();
    match &mut v {
        SVal::Class(c) => c.flags &= !cf::DERIVED,
        SVal::Function(f) => f.flags &= !ff::DERIVED,
        SVal::Field(f) => f.flags &= !fdf::HAS_HINT,
        _ => {}
    }
    v
}

fn table<T>(get: impl Fn(u32) -> Result<T, redscript::bundle::PoolError>, to: impl Fn(T) -> String) -> Vec<String> {
    let mut v = vec![];
    while let Ok(s) = get(v.len() as u32) {
        v.push(to(s));
        if v.len() > 5_000_000 {
            break;
        }
    }
    v
}

pub struct PoolView {
    /// names[0] reads as "None" whatever is stored there
    pub names: Vec<String>,
    pub tweakdb: Vec<String>,
    pub resources: Vec<String>,
    pub strings: Vec<String>,
    /// index 0 absent from the public iteration; filled with the null definition
    pub defs: Vec<SDef>,
}

pub fn view(pool: &ConstantPool) -> Result<PoolView, String> {
    let mut defs = vec![null_def()];
    for (i, d) in pool.definitions() {
        if ix(i) as usize != defs.len() {
            return Err(format!("definitions() yields index {} at position {}", ix(i), defs.len()));
        }
        defs.push(def(d));
    }
    // names[0] is special: a pool with no names still answers index 0
    let mut names: Vec<String> = vec!["None".into()];
    while let Ok(s) = pool.names.get(un(names.len() as u32)) {
        names.push(s.to_string());
    }
    Ok(PoolView {
        names,
        tweakdb: table(|i| pool.tweakdb_ids.get(un(i)), |s| s.to_string()),
        resources: table(|i| pool.resources.get(un(i)), |s| s.to_string()),
        strings: table(|i| pool.strings.get(un(i)), |s| s.to_string()),
        defs,
    })
}

/// Compares everything observable in a real pool with the model.
pub fn compare_pool(pool: &ConstantPool, m: &SBundle) -> Result<(), String> {
    let v = view(pool)?;
    let mut mnames = m.names.clone();
    if mnames.is_empty() {
        mnames.push("None".into());
    }
    mnames[0] = "None".into();
    for (what, a, b) in [
        ("names", &v.names, &mnames),
        ("tweakdb ids", &v.tweakdb, &m.tweakdb),
        ("resources", &v.resources, &m.resources),
        ("strings", &v.strings, &m.strings),
    ] {
        if a != b {
            let i = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
            return Err(format!(
                "{what} table differs at {i}: got {:?}, expected {:?} (lengths {} vs {})",
                a.get(i),
                b.get(i),
                a.len(),
                b.len()
            ));
        }
    }
    if v.defs.len() != m.defs.len() {
        return Err(format!("{} definitions, expected {}", v.defs.len(), m.defs.len()));
    }
    for (i, (a, b)) in v.defs.iter().zip(&m.defs).enumerate() {
        if (a.name, a.parent, a.unk) != (b.name, b.parent, b.unk) {
            return Err(format!(
                "definition {i}: name/parent/misc {:?}, expected {:?}",
                (a.name, a.parent, a.unk),
                (b.name, b.parent, b.unk)
            ));
        }
        let (x, y) = (strip_derived(&a.val), strip_derived(&b.val));
        if x != y {
            return Err(format!("definition {i}: got {}, expected {}", short(&x), short(&y)));
        }
    }
    Ok(())
}

pub fn short<T: std::fmt::Debug>(v: &T) -> String {
    let s = format!("{v:?}");
    if s.len() > 900 {
        let mut c = 900;
        while !s.is_char_boundary(c) {
            c -= 1;
        }
        format!("{}...", &s[..c])
    } else {
        s
    }
}

/// Model comparison of two files/pools, up to derived flag bits.
pub fn compare_models(a: &SBundle, b: &SBundle) -> Result<(), String> {
    let ha = (a.version, a.flags, a.timestamp, a.unk3, a.chunks);
    let hb = (b.version, b.flags, b.timestamp, b.unk3, b.chunks);
    if ha != hb {
        return Err(format!("header fields {ha:?}, expected {hb:?}"));
    }
    for (what, x, y) in [
        ("names", &a.names, &b.names),
        ("tweakdb ids", &a.tweakdb, &b.tweakdb),
        ("resources", &a.resources, &b.resources),
        ("strings", &a.strings, &b.strings),
    ] {
        if x != y {
            let i = x.iter().zip(y).position(|(p, q)| p != q).unwrap_or(x.len().min(y.len()));
            return Err(format!("{what} table differs at {i}: got {:?}, expected {:?}", x.get(i), y.get(i)));
        }
    }
    if a.defs.len() != b.defs.len() {
        return Err(format!("{} definitions, expected {}", a.defs.len(), b.defs.len()));
    }
    for (i, (x, y)) in a.defs.iter().zip(&b.defs).enumerate() {
        if (x.name, x.parent, x.unk) != (y.name, y.parent, y.unk) {
            return Err(format!(
                "definition {i}: name/parent/misc {:?}, expected {:?}",
                (x.name, x.parent, x.unk),
                (y.name, y.parent, y.unk)
            ));
        }
        let (p, q) = (strip_derived(&x.val), strip_derived(&y.val));
        if p != q {
            return Err(format!("definition {i}: got {}, expected {}", short(&p), short(&q)));
        }
    }
    Ok(())
}

/// Presence flags in a saved file must restate which parts are there.
pub fn check_derived(d: &SDef) -> Result<(), String> {
    match &d.val {
        SVal::Class(c) => {
            for (bit, has) in [
                (cf::HAS_FUNCTIONS, !c.functions.is_empty()),
                (cf::HAS_FIELDS, !c.fields.is_empty()),
                (cf::HAS_OVERRIDES, !c.overrides.is_empty()),
            ] {
                if (c.flags & bit != 0) != has {
                    return Err(format!("class presence flag {bit:#x} does not match its contents"));
                }
            }
        }
        SVal::Function(f) => {
            for (bit, has) in [
                (ff::RET, f.ret.is_some()),
                (ff::BASE, f.base_method.is_some()),
                (ff::PARAMS, !f.params.is_empty() || !f.unk2.is_empty()),
                (ff::LOCALS, !f.locals.is_empty()),
                (ff::OPERATOR, f.operator.is_some()),
                (ff::BODY, !f.code.is_empty()),
            ] {
                if (f.flags & bit != 0) != has {
                    return Err(format!("function presence flag {bit:#x} does not match its contents"));
                }
            }
        }
        _ => {}
    }
    Ok(())
}

pub fn load(b: &[u8]) -> std::io::Result<ScriptBundle> {
    ScriptBundle::load(&mut std::io::Cursor::new(b))
}
pub fn save(b: &ScriptBundle) -> std::io::Result<Vec<u8>> {
    let mut o = std::io::Cursor::new(vec![]);
    b.save(&mut o)?;
    Ok(o.into_inner())
}
