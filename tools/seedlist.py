DEF, BUN, BC = "core/src/definition.rs", "core/src/bundle.rs", "core/src/bytecode.rs"
DL, DP, DF = "decompiler/src/lib.rs", "decompiler/src/print.rs", "decompiler/src/files.rs"

seed("overrides-need-fields", "C01",
     [(DEF, ".with_has_overrides(!self.overrides.is_empty());", ".with_has_overrides(!self.fields.is_empty() && !self.overrides.is_empty());")],
     r'''
    let mut b = base();
    let t = type_(&mut b.pool, "Int32");
    let n = name(&mut b.pool, "F");
    let f = b.pool.add_definition(Definition::field(n, PoolIndex::UNDEFINED, Field {
        visibility: Visibility::Public, type_: t, flags: FieldFlags::new(), hint: None, attributes: vec![], defaults: vec![] }));
    let n = name(&mut b.pool, "K");
    let mut k = class();
    k.overrides.push(f);
    let c: PoolIndex<Class> = b.pool.add_definition(Definition::class(n, k));
    let b = load(save(&b));
    assert_eq!(b.pool.class(c).unwrap().overrides, [f]);
''', "a class with field overrides but no fields of its own", "saving drops the overrides of classes that declare no fields")

seed("empty-hint", "C01",
     [(DEF, "let flags = self.flags.with_has_hint(self.hint.is_some());",
       'let hint = self.hint.as_deref().filter(|hint| !hint.trim().is_empty());\n        let flags = self.flags.with_has_hint(hint.is_some());'),
      (DEF, "        if let Some(ref hint) = self.hint {\n            output", "        if let Some(hint) = hint {\n            output")],
     r'''
    let mut b = base();
    let t = type_(&mut b.pool, "Int32");
    let n = name(&mut b.pool, "F");
    let f: PoolIndex<Field> = b.pool.add_definition(Definition::field(n, PoolIndex::UNDEFINED, Field {
        visibility: Visibility::Public, type_: t, flags: FieldFlags::new(), hint: Some("  ".into()), attributes: vec![], defaults: vec![] }));
    let b = load(save(&b));
    assert_eq!(b.pool.field(f).unwrap().hint.as_deref(), Some("  "));
''', "a field whose hint is empty or blank", "the hint of such a field is lost when the cache is saved")

seed("stale-header-hash", "C02",
     [(BUN, "            hash: 0xDEAD_BEEF,\n", "            hash: if header.chunks == 0 { 0xDEAD_BEEF } else { header.hash },\n")],
     r'''
    // the header checksum covers the header with the checksum field set to 0xDEADBEEF
    let mut raw = std::fs::read("resources/predef.redscripts").unwrap();
    raw[28..32].copy_from_slice(&3u32.to_le_bytes());
    let b = load(raw);
    let once = save(&b);
    let twice = save(&load(once.clone()));
    assert_eq!(once, twice);
''', "a cache with a non-zero chunk count", "the header checksum depends on the previous checksum, so files are wrong and not reproducible")

seed("short-write", "C04",
     [(BUN, "        output.write_all(&tweakdb_offsets)?;", "        output.write(&tweakdb_offsets)?;")],
     r'''
    struct Short(Cursor<Vec<u8>>);
    impl std::io::Write for Short {
        fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { self.0.write(&b[..b.len().min(64)]) }
        fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
    }
    impl std::io::Seek for Short {
        fn seek(&mut self, p: std::io::SeekFrom) -> std::io::Result<u64> { self.0.seek(p) }
    }
    let mut b = base();
    for i in 0..100 { b.pool.tweakdb_ids.add(Ref::from(format!("T{i}").as_str())); }
    let mut o = Short(Cursor::new(vec![]));
    b.save(&mut o).unwrap();
    assert!(o.0.into_inner() == save(&b));
''', "an output that accepts only a part of a buffer in one call", "the file is silently corrupt although saving reports success")

seed("intern-after-duplicates", "C08",
     [(BUN, "            let idx = PoolIndex::new(self.strings.len() as u32);\n", "            let idx = PoolIndex::new(self.mappings.len() as u32);\n")],
     r'''
    let mut b = base();
    let mut raw = save(&b);
    for s in ["One", "Two", "Three"] { b.pool.names.add(Ref::from(s)); }
    raw = { let _ = raw; save(&b) };
    // make the last two entries of the name table refer to the same text
    let rd = |r: &[u8], at: usize| u32::from_le_bytes(r[at..at + 4].try_into().unwrap()) as usize;
    let (off, n) = (rd(&raw, 44), rd(&raw, 48));
    let first: Vec<u8> = raw[off + (n - 2) * 4..off + (n - 1) * 4].to_vec();
    raw[off + (n - 1) * 4..off + n * 4].copy_from_slice(&first);
    let mut b = load(raw);
    let i = b.pool.names.add(Ref::from("Brand new"));
    assert_eq!(b.pool.names.get(i).unwrap().as_ref(), "Brand new");
''', "a loaded cache that lists one string twice, then a new string", "the new string is given the index of another one")

seed("target-not-relative", "C06",
     [(BC, "                targets[false_.index].relative(location),\n                targets[exit.index].relative(location),",
       "                targets[false_.index].relative(location),\n                targets[exit.index.max(false_.index)].relative(location),")],
     r'''
    let i: Instr<Label> = Instr::Conditional(Label { index: 1 }, Label { index: 0 });
    let r = i.resolve_labels(Location::new(10), &[Location::new(50), Location::new(30)]);
    assert_eq!(r, Instr::Conditional(off(20), off(40)));
''', "a conditional whose exit label was created before its else label", "the end of the conditional jumps to the else branch")

seed("fast-erase-order", "C10",
     [(DL, "            Instr::ArrayErase(_) | Instr::ArrayEraseFast(_) => self.consume_intrisnic(IntrinsicOp::ArrayErase)?,",
       "            Instr::ArrayErase(_) => self.consume_intrisnic(IntrinsicOp::ArrayErase)?,\n            Instr::ArrayEraseFast(_) => self.consume_intrisnic(IntrinsicOp::ArrayRemove)?,")],
     r'''
    let mut p = ConstantPool::default();
    p.add_definition::<Type>(Definition::DEFAULT);
    p.names.add(Ref::from("x"));
    let t = type_(&mut p, "Int32");
    let f = func(&mut p, "f;", vec![Instr::ArrayEraseFast(t), Instr::This, Instr::I32One, Instr::Nop]);
    assert!(text(&p, f).unwrap().contains("ArrayErase(this, 1)"));
''', "a function using the fast form of array erase", "it is decompiled as a call of another function")

seed("case-exit-boundary", "C11",
     [(DL, "Instr::Jump(offset) if offset.absolute(loc) > exit => Some(offset.absolute(loc)),", "Instr::Jump(offset) if offset.absolute(loc) >= exit => Some(offset.absolute(loc)),")],
     r'''
    let mut p = ConstantPool::default();
    p.add_definition::<Type>(Definition::DEFAULT);
    p.names.add(Ref::from("x"));
    let t = type_(&mut p, "Int32");
    // switch (this) { case 1: if true { return 5; } else { return 6; } return 8; default: return 9; } return 7;
    let code = vec![
        Instr::Switch(t, off(12)), // 0
        Instr::This, // 11
        Instr::SwitchLabel(off(22), off(6)), // 12 -> default at 34, body at 18
        Instr::I32One, // 17
        Instr::JumpIfFalse(off(12)), // 18 -> 30
        Instr::TrueConst, // 21
        Instr::I32Const(5), // 22
        Instr::Jump(off(7)), // 27 -> 34 (end of the case)
        Instr::This, // 30
        Instr::Jump(off(19)), // 31 -> 50 (break)
        Instr::SwitchDefault, // 34
        Instr::I32Const(9), // 35
        Instr::I32Const(10), // 40
        Instr::I32Const(11), // 45
        Instr::Return, // 50
        Instr::Nop,
    ];
    let f = func(&mut p, "f;", code);
    let s = text(&p, f).unwrap();
    let d = s.split("default:").nth(1).unwrap_or("").split('}').next().unwrap_or("");
    assert!(d.contains("9;") && d.contains("11;"), "{s}");
''', "a switch case in which an if/else reaches the end of the case before the first break", "the switch is closed at the wrong place: later cases move out of it")

seed("escape-resource", "C12",
     [(DP, 'write!(out, "t\\"{}\\"", str::escape_default(str))?', 'write!(out, "t\\"{}\\"", str)?')],
     r'''
    let mut p = ConstantPool::default();
    p.add_definition::<Type>(Definition::DEFAULT);
    p.names.add(Ref::from("x"));
    p.tweakdb_ids.add(Ref::from("x"));
    let i = p.tweakdb_ids.add(Ref::from("a\"b"));
    let f = func(&mut p, "f;", vec![Instr::TweakDbIdConst(i), Instr::Nop]);
    let s = text(&p, f).unwrap();
    assert!(s.contains("t\"a\\\"b\""), "{s}");
''', "a TweakDB identifier with a quote or another special character", "the printed literal ends early or means another string")

seed("neg-of-sum", "C12",
     [(DP, "ParentOp::Condition => binop.precedence() >= BinOp::AssignAdd.precedence(),", "ParentOp::Condition => binop.precedence() >= BinOp::AssignAdd.precedence(),"),
      ("core/src/ast.rs", "            BinOp::Xor => 6,\n            BinOp::And => 5,", "            BinOp::Xor => 5,\n            BinOp::And => 6,")],
     r'''
    assert!(BinOp::Xor.precedence() > BinOp::And.precedence(), "& binds tighter than ^");
    assert!(BinOp::And.does_associate(BinOp::Xor));
    assert!(!BinOp::Xor.does_associate(BinOp::And));
''', "bitwise and nested in bitwise xor or the other way round", "printed expressions are grouped differently when read back")

seed("persistent-const", "C13",
     [(DP, '            if field.flags.is_persistent() {\n                write!(out, "persistent ")?;\n            }\n            if field.flags.is_const() {',
       '            if field.flags.is_persistent() {\n                write!(out, "persistent ")?;\n            } else if field.flags.is_const() {')],
     r'''
    let mut p = ConstantPool::default();
    p.add_definition::<Type>(Definition::DEFAULT);
    p.names.add(Ref::from("x"));
    let t = type_(&mut p, "Int32");
    let n = name(&mut p, "fld");
    let f: PoolIndex<Field> = p.add_definition(Definition::field(n, PoolIndex::UNDEFINED, Field {
        visibility: Visibility::Public, type_: t, flags: FieldFlags::new().with_is_persistent(true).with_is_const(true), hint: None, attributes: vec![], defaults: vec![] }));
    let s = text(&p, f).unwrap();
    assert!(s.contains("persistent") && s.contains("const"), "{s}");
''', "a field that is both persistent and constant", "the declaration lacks a modifier")

seed("first-line-of-first-method", "C14",
     [(DEF, "                        .map(|source| source.line)\n                })\n                .min(),", "                        .map(|source| source.line)\n                })\n                .next(),")],
     r'''
    use redscript_decompiler::files::FileIndex;
    let mut p = ConstantPool::default();
    p.add_definition::<Type>(Definition::DEFAULT);
    p.names.add(Ref::from("x"));
    let file: PoolIndex<SourceFile> = p.add_definition(Definition::source_file(SourceFile { id: 0, path_hash: 0, path: "a.script".into() }));
    let mk = |p: &mut ConstantPool, s: &str, parent: PoolIndex<Class>, line: u32| {
        let mut f = blank(vec![Instr::Nop]);
        f.source = Some(SourceReference { file, line });
        let n = name(p, s);
        p.add_definition::<Function>(Definition::function(n, parent, f))
    };
    let n = name(&mut p, "K");
    let k: PoolIndex<Class> = p.add_definition(Definition::class(n, class()));
    let a = mk(&mut p, "late;", k, 90);
    let b = mk(&mut p, "early;", k, 10);
    let mut c = class();
    c.functions = vec![a, b];
    p.put_definition(k, Definition::class(n, c));
    mk(&mut p, "global;", PoolIndex::UNDEFINED, 50);
    let idx = FileIndex::from_pool(&p);
    let e = idx.iter().find(|e| e.path.to_str() == Some("a.script")).unwrap();
    let lines: Vec<_> = e.definitions.iter().map(|d| p.names.get(d.name).unwrap().to_string()).collect();
    assert_eq!(lines, ["K", "global;"]);
''', "a class whose methods are not listed in the order of their source lines", "definitions are written to the file in the wrong order")

seed("threads-wrap", "C16",
     [("scc/cli/src/opts.rs", ".parse(|s| s.map(|s| s.parse::<u8>()).unwrap_or(Ok(Opts::DEFAULT_THREADS)));",
       ".parse(|s| s.map(|s| s.parse::<u16>()).unwrap_or(Ok(Opts::DEFAULT_THREADS.into())))\n            .map(|n| n as u8);")],
     """//raw
#[allow(dead_code, unused_imports)]
#[path = "opts.inc"]
mod opts;

fn main() {
    let ok = opts::Opts::load(&["-compile", "dir", "-threads", "255"]).unwrap();
    assert_eq!(ok.threads, 255);
    assert!(opts::Opts::load(&["-compile", "dir", "-threads", "300"]).is_err());
}
""",
     "a thread count of 256 or more", "a number that does not fit is taken modulo 256 instead of being refused",
     deps='bpaf = "0.7"', pre='cp "$repo/scc/cli/src/opts.rs" "$work/src/opts.inc"')

COMPILER = 'redscript-compiler = { path = "$work/standins/compiler" }'
STANDINS = 'cp -r "$here/standins" "$work/"\ngrep -rl /repo "$work/standins" | xargs sed -i "s#/repo#$repo#g"\nsed -i "/^\\[workspace\\]$/d" "$work"/standins/*/Cargo.toml'
COMPILE = '''
use redscript_compiler::source_map::Files;
use redscript_compiler::unit::CompilationUnit;

/// codes of fatal diagnostics
fn compile(b: &mut ScriptBundle, texts: &[&str]) -> Vec<String> {
    let mut files = Files::new();
    for (i, t) in texts.iter().enumerate() {
        files.add(format!("f{i}.reds").into(), (*t).to_owned());
    }
    let unit = CompilationUnit::new_with_defaults(&mut b.pool).unwrap();
    let out = unit.compile_files(&files).unwrap();
    out.diagnostics().iter().filter(|d| d.is_fatal()).map(|d| d.code().to_owned()).collect()
}
fn definitions<'a>(b: &'a ScriptBundle, n: &str) -> Vec<&'a Definition> {
    b.pool.definitions().map(|d| d.1).filter(|d| b.pool.names.get(d.name).map_or(false, |m| m.as_ref() == n || n.ends_with('*') && m.starts_with(n.trim_end_matches('*')))).collect()
}
fn function<'a>(b: &'a ScriptBundle, n: &str) -> &'a Function {
    match &definitions(b, n)[0].value {
        AnyDefinition::Function(f) => f,
        _ => panic!("not a function"),
    }
}
fn code(b: &ScriptBundle, n: &str) -> Vec<String> {
    function(b, n).code.iter().map(|(_, i)| format!("{i:?}")).collect()
}
'''


def cseed(id, prop, edits, main, needs, breaks):
    seed(id, prop, edits, "//raw\nmod common;\nuse common::*;\n" + COMPILE + "\nfn main() {" + main + "}\n", needs, breaks, deps=COMPILER, pre=STANDINS)
    SEEDS[id]["common"] = True


cseed("second-element", "C18", [("compiler/src/typechecker.rs", ".skip(1)\n                        .try_fold", ".skip(2)\n                        .try_fold")], '''
    let mut b = base();
    assert!(compile(&mut b, &["class P {} class A extends P {} class B extends P {} func F() -> Int32 { let a = [new A(), new B()]; return ArraySize(a); }"]).is_empty());
    let f = function(&b, "F;");
    for l in &f.locals {
        let t = b.pool.local(*l).unwrap().type_;
        let n = b.pool.def_name(t).unwrap();
        if n.starts_with("array") {
            assert_eq!(n.as_ref(), "array:ref:P");
        }
    }
''', "an array literal whose second element alone is of another class", "the array is given the element type of the first element, the second one does not fit")

cseed("weak-field-call", "C27", [("compiler/src/typechecker.rs", """                let converted_context = if let TypeId::WeakRef(inner) = type_ {
                    insert_conversion(checked_context, &TypeId::Ref(inner), Conversion::WeakRefToRef)
                } else {
                    checked_context
                };
                Expr::MethodCall""", """                let converted_context = match type_ {
                    TypeId::WeakRef(inner) if !matches!(checked_context, Expr::ArrayElem(_, _, _)) => {
                        insert_conversion(checked_context, &TypeId::Ref(inner), Conversion::WeakRefToRef)
                    }
                    _ => checked_context,
                };
                Expr::MethodCall""")], '''
    let mut b = base();
    assert!(compile(&mut b, &["class A { func m() {} } func F(a: array<wref<A>>) { a[0].m(); }"]).is_empty());
    let code = code(&b, "F;*");
    assert!(code.iter().any(|i| i.starts_with("WeakRefToRef")), "{code:?}");
''', "a method called on an element of an array of weak references", "the weak reference is used as the object without being converted")

cseed("static-base-method", "C26", [("compiler/src/unit.rs", "base_method: spec.base_method.filter(|_| !flags.is_static()),", "base_method: spec.base_method.filter(|_| !flags.is_final()),")], '''
    let mut b = base();
    assert!(compile(&mut b, &["class A { public func m() {} public static func s() {} }"]).is_empty());
    assert!(compile(&mut b, &["class B extends A {}"]).is_empty());
    assert!(compile(&mut b, &["@addMethod(B) public final func m() {} @addMethod(B) public static func s() {}"]).is_empty());
    for d in definitions(&b, "m;").iter().chain(&definitions(&b, "s;")) {
        let AnyDefinition::Function(f) = &d.value else { panic!() };
        let in_b = b.pool.def_name(d.parent).unwrap().as_ref() == "B";
        assert_eq!(f.base_method.is_some(), in_b && !f.flags.is_static());
    }
''', "a final method overriding one of the base class, or a static method of the same name as one of the base class", "the overridden method is not recorded for final methods, but for static ones")

cseed("callback-wrapper", "C26", [("compiler/src/unit.rs", "func.flags = func.flags.with_is_callback(false);", "if func.locals.is_empty() {\n                    func.flags = func.flags.with_is_callback(false);\n                }")], '''
    let mut b = base();
    assert_eq!(compile(&mut b, &["class A { cb func OnX() -> Bool { let i = true; return i; } cb func OnY() -> Bool { return true; } }"]), [""; 0]);
    assert!(compile(&mut b, &["@wrapMethod(A) cb func OnX() -> Bool { let b = wrappedMethod(); return b; } @wrapMethod(A) cb func OnY() -> Bool { return wrappedMethod(); }"]).is_empty());
    let callbacks = b.pool.definitions().filter(|d| matches!(&d.1.value, AnyDefinition::Function(f) if f.flags.is_callback())).count();
    assert_eq!(callbacks, 2);
''', "a wrapped callback with a local variable", "the wrapped original remains a callback besides the wrapper, so the event is handled twice")

cseed("persistent-nested", "C23", [("compiler/src/unit.rs", "typ.arguments().iter().all(can_be_persistent)", "typ.arguments().is_empty() || !DISALLOWED_TYPES.contains(&typ.arguments()[0])")], '''
    assert!(compile(&mut base(), &["class A { persistent let x: array<array<Int32>>; }"]).is_empty());
    assert!(!compile(&mut base(), &["class A { persistent let x: array<Variant>; }"]).is_empty());
    assert!(!compile(&mut base(), &["class A { persistent let x: array<array<Variant>>; }"]).is_empty());
''', "a persistent field of a type that contains a type which cannot be saved two levels down", "the field is accepted")

cseed("protected-import", "C25", [("compiler/src/symbol.rs", "funs.into_iter().filter(|(_, v)| *v <= visibility)", "funs.into_iter().filter(|(_, v)| *v <= visibility || *v == Visibility::Protected)")], '''
    let m = "module M protected func F() -> Int32 { return 1; } public func G() -> Int32 { return F(); }";
    assert!(compile(&mut base(), &[m, "import M.* func H() -> Int32 { return G(); }"]).is_empty());
    assert!(!compile(&mut base(), &[m, "import M.* func H() -> Int32 { return F(); }"]).is_empty());
''', "a protected function of another module", "it can be called from everywhere")

cseed("module-prefix", "C25", [("compiler/src/cte.rs", "self.modules.contains(&ModulePath::parse(name))", '(self.modules.contains(&ModulePath::parse(name)) || (name.contains(\'.\') && self.modules.iter().any(|m| m.render().as_ref().starts_with(&format!("{name}.")))))')], '''
    let mut b = base();
    let src = "@if(ModuleExists(\\"Mod.Sub\\")) func F() -> Int32 { return 1; } @if(!ModuleExists(\\"Mod.Sub\\")) func F() -> String { return \\"\\"; }";
    assert!(compile(&mut b, &[src, "module Mod.Sub.Deep func X() {}"]).is_empty());
    let t = function(&b, "F;").return_type.unwrap();
    assert_eq!(b.pool.def_name(t).unwrap().as_ref(), "String");
''', "a condition on a module of which only a nested module exists", "the condition holds")

cseed("deep-hierarchy", "C20", [("compiler/src/unit.rs", "sorted.sort_by_key(|idx| collect_supertypes(*idx, pool).unwrap().len());", "sorted.sort_by_key(|idx| collect_supertypes(*idx, pool).unwrap().len().min(3));")], '''
    let mut b = base();
    let mut src = String::new();
    for i in (1..9).rev() {
        src.push_str(&format!("class C{i} extends C{} {{}}\\n", i - 1));
    }
    assert!(compile(&mut b, &[&src, "class C0 {}"]).is_empty());
    for (i, d) in b.pool.definitions() {
        if let AnyDefinition::Class(c) = &d.value {
            assert!(c.base.is_undefined() || u32::from(c.base) < u32::from(i), "a class precedes its base");
        }
    }
''', "a hierarchy of more than four classes that are declared in reverse order", "classes come before their base classes in the output")

seed("native-method-parent", "C07", [("core/src/mapper.rs", "| Instr::DynamicCast(idx, _) =>", "| Instr::DynamicCast(idx, 0) =>")], '''
    use redscript::mapper::{MultiMapper, PoolMapper};
    let mut p = ConstantPool::default();
    p.add_definition::<Type>(Definition::DEFAULT);
    let n = name(&mut p, "A");
    let a: PoolIndex<Class> = p.add_definition(Definition::class(n, class()));
    let n = name(&mut p, "B");
    let b: PoolIndex<Class> = p.add_definition(Definition::class(n, class()));
    let f = func(&mut p, "f;", vec![Instr::DynamicCast(a, 1), Instr::Null, Instr::DynamicCast(a, 0), Instr::Null]);
    PoolMapper::default().with_class_mapper(MultiMapper::new([(a, b)].into_iter().collect())).map(&mut p);
    for i in p.function(f).unwrap().code.iter() {
        if let (_, Instr::DynamicCast(c, _)) = i {
            assert_eq!(c, b);
        }
    }
''', "a cast instruction with a flag other than zero", "the class it casts to is not renumbered")

seed("negative-zero", "C05", [("core/src/encode.rs", "output.write_f64::<LittleEndian>(*self)", "output.write_f64::<LittleEndian>(*self + 0.0)")], '''
    let mut b = base();
    let f = func(&mut b.pool, "f;", vec![Instr::F64Const(-0.0)]);
    let back = load(save(&b));
    let Some((_, Instr::F64Const(v))) = back.pool.function(f).unwrap().code.iter().next() else { panic!() };
    assert!(v.is_sign_negative());
''', "the constant negative zero of 64 bits", "its sign is lost when encoding")

seed("method-after-failure", "C15", [("decompiler/src/print.rs", 'log::error!("Method decompilation {} failed (caused by {})", method_index, err);', 'log::error!("Decompilation of method {} failed (caused by {})", method_index, err);\n                    if matches!(err, Error::PoolError(_)) {\n                        return Err(err);\n                    }')], '''
    let mut p = ConstantPool::default();
    p.add_definition::<Type>(Definition::DEFAULT);
    let n = name(&mut p, "K");
    let k: PoolIndex<Class> = p.add_definition(Definition::class(n, class()));
    let mk = |p: &mut ConstantPool, s: &str, code: Vec<Instr<Offset>>| {
        let n = name(p, s);
        p.add_definition::<Function>(Definition::function(n, k, blank(code)))
    };
    let a = mk(&mut p, "broken;", vec![Instr::Local(PoolIndex::new(4000))]);
    let b = mk(&mut p, "fine;", vec![Instr::Return, Instr::Nop]);
    let mut c = class();
    c.functions = vec![a, b];
    p.put_definition(k, Definition::class(n, c));
    assert!(text(&p, k).unwrap().contains("fine"));
''', "a class with a method that refers to a definition which does not exist, followed by other methods", "the methods after it and the rest of the dump are lost")
