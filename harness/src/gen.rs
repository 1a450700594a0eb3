//! Workload generation: random well-formed bundles and instructions.
use crate::rng::Rng;
use crate::spec::*;

pub fn ident(r: &mut Rng) -> String {
    const A: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_";
    const B: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789";
    let n = r.range(1, 12);
    let mut s = String::new();
    s.push(*r.pick(A) as char);
    for _ in 1..n {
        s.push(*r.pick(B) as char);
    }
    s
}

/// any text, no NUL
pub fn text(r: &mut Rng) -> String {
    match r.below(12) {
        0 => String::new(),
        1 => (*r.pick(&["None", "None", "none", "NONE", "None ", " None", "Non", "Nones"])).into(),
        2 | 3 | 4 => ident(r),
        5 => format!("{};{}{}", ident(r), ident(r), ident(r)),
        6 => format!("ref:{}", ident(r)),
        7 => {
            let n = r.range(1, 30);
            (0..n)
                .map(|_| *r.pick(&['a', '"', '\\', '\n', '/', 'é', '漢', '🎮', ' ', '\u{7f}', '\u{1}', ';', ':', '\'', '{', '\r', '\t']))
                .collect()
        }
        8 => {
            let n = if r.chance(1, 40) { r.range(600, 9000) } else { r.range(100, 600) };
            (0..n).map(|_| (b' ' + r.below(95) as u8) as char).collect()
        }
        9 => format!("base\\{}/{}.script", ident(r), ident(r)),
        _ => {
            let n = r.below(8);
            (0..n)
                .map(|_| loop {
                    if let Some(c) = char::from_u32(r.below(0x11_0000) as u32) {
                        if c != '\0' {
                            break c;
                        }
                    }
                })
                .collect()
        }
    }
}

fn text16(r: &mut Rng) -> String {
    let mut s = match r.below(300) {
        0 => "x".repeat(65535),
        1 => "y".repeat(r.range(255, 257)),
        _ => text(r),
    };
    if r.chance(1, 20) && s.len() < 60000 {
        s.push('\0');
        s.push('z');
    }
    s
}

fn path(r: &mut Rng) -> String {
    let n = r.range(1, 4);
    let mut v: Vec<String> = (0..n).map(|_| ident(r)).collect();
    if r.chance(1, 10) {
        v.push("目录 with space".into());
    }
    let sep = if r.chance(1, 10) { "//" } else { "/" };
    let lead = if r.chance(1, 8) { *r.pick(&["/", "./", "../", "C:/", "//"]) } else { "" };
    let ext = if r.chance(1, 8) { *r.pick(&["", ".", ".reds", "/", ".SCRIPT"]) } else { ".script" };
    format!("{lead}{}{ext}", v.join(sep))
}

pub fn string_table(r: &mut Rng, max: usize, first: Option<&str>) -> Vec<String> {
    let n = r.below(max + 1);
    let mut v: Vec<String> = vec![];
    if let Some(f) = first {
        v.push(f.to_owned());
    }
    let mut seen = std::collections::HashSet::new();
    for _ in 0..n {
        let t = if !v.is_empty() && r.chance(1, 60) { r.pick(&v).clone() } else { text(r) };
        // mostly unique, as in real files
        if seen.insert(t.clone()) || r.chance(1, 4) {
            v.push(t);
        }
    }
    v
}

pub fn idx(r: &mut Rng, n: usize) -> u32 {
    match r.below(12) {
        0 => 0,
        1 => r.u32(),
        2 => u32::MAX,
        _ => r.below(n.max(1)) as u32,
    }
}
pub fn idxs(r: &mut Rng, n: usize, max: usize) -> Vec<u32> {
    let k = if r.chance(1, 3) { 0 } else { r.below(max + 1) };
    (0..k).map(|_| idx(r, n)).collect()
}

pub fn instr_of_op(r: &mut Rng, op: u8, npool: usize) -> SInstr {
    let mut s = SInstr::new(op, &[]);
    for f in layout(op).unwrap() {
        match f {
            F::Text => s.text = text(r).into_bytes(),
            F::Bool => s.args.push(u64::from(r.bool())),
            F::P => s.args.push(u64::from(idx(r, npool))),
            F::B1 => s.args.push(r.spicy() & 0xff),
            F::B2 | F::Off(_) => s.args.push(r.spicy() & 0xffff),
            F::B4 => s.args.push(r.spicy() & 0xffff_ffff),
            F::B8 => s.args.push(r.spicy()),
        }
    }
    s
}

/// any instruction that can appear in stored bytecode
pub fn instr(r: &mut Rng, npool: usize) -> SInstr {
    loop {
        let op = r.below(OP_COUNT as usize) as u8;
        if op != OP_TARGET {
            return instr_of_op(r, op, npool);
        }
    }
}

pub fn code(r: &mut Rng, npool: usize) -> Vec<SInstr> {
    let n = match r.below(400) / 10 {
        0 if r.chance(1, 10) => r.range(1000, 2500),
        0 => r.range(200, 600),
        1..=20 => r.range(1, 6),
        _ => r.range(1, 40),
    };
    (0..n).map(|_| instr(r, npool)).collect()
}

fn props(r: &mut Rng) -> Vec<(String, String)> {
    let n = if r.bool() { 0 } else { r.below(4) };
    (0..n).map(|_| (text16(r), text16(r))).collect()
}

pub fn val(r: &mut Rng, kind: u8, n: usize) -> SVal {
    match kind {
        0 => {
            let t = r.below(7) as u8;
            SVal::Type(t, if t >= 2 { idx(r, n) } else { 0 }, if t == 5 { r.spicy() as u32 } else { 0 })
        }
        1 => {
            let functions = idxs(r, n, 8);
            let fields = idxs(r, n, 8);
            let overrides = idxs(r, n, 4);
            let mut flags = r.u16() & !cf::DERIVED;
            if !functions.is_empty() {
                flags |= cf::HAS_FUNCTIONS;
            }
            if !fields.is_empty() {
                flags |= cf::HAS_FIELDS;
            }
            if !overrides.is_empty() {
                flags |= cf::HAS_OVERRIDES;
            }
            SVal::Class(SClass { vis: r.below(3) as u8, flags, base: idx(r, n), functions, fields, overrides })
        }
        2 => SVal::EnumValue(r.spicy() as i64),
        3 => SVal::Enum { flags: r.u8(), size: r.u8(), members: idxs(r, n, 10), unk1: r.bool() },
        5 => {
            let mut flags = r.u32() & !ff::DERIVED;
            let native = flags & ff::NATIVE != 0;
            let unk4 = r.chance(1, 6);
            if unk4 {
                flags |= ff::UNK4;
            } else {
                flags &= !ff::UNK4;
            }
            let mut f = SFunction {
                vis: r.below(3) as u8,
                flags,
                source: if native { None } else { Some((idx(r, n), r.spicy() as u32)) },
                ret: r.bool().then(|| idx(r, n)),
                unk1: false,
                base_method: r.chance(1, 3).then(|| idx(r, n)),
                params: idxs(r, n, 6),
                locals: if r.chance(1, 60) { idxs(r, n, 400) } else { idxs(r, n, 6) },
                operator: r.chance(1, 4).then(|| r.spicy() as u32),
                cast: 0,
                code: if r.chance(3, 4) { code(r, n) } else { vec![] },
                unk2: if unk4 { idxs(r, n, 4) } else { vec![] },
            };
            if f.ret.is_some() {
                f.flags |= ff::RET;
                f.unk1 = r.bool();
            }
            if f.flags & ff::CAST != 0 {
                f.cast = r.u8();
            }
            if f.base_method.is_some() {
                f.flags |= ff::BASE;
            }
            // the second parameter list counts, too
            if !f.params.is_empty() || !f.unk2.is_empty() {
                f.flags |= ff::PARAMS;
            }
            if !f.locals.is_empty() {
                f.flags |= ff::LOCALS;
            }
            if f.operator.is_some() {
                f.flags |= ff::OPERATOR;
            }
            if !f.code.is_empty() {
                f.flags |= ff::BODY;
            }
            SVal::Function(f)
        }
        6 => SVal::Parameter { type_: idx(r, n), flags: r.u8() },
        7 => SVal::Local { type_: idx(r, n), flags: r.u8() },
        8 => {
            let hint = r.chance(1, 4).then(|| text16(r));
            let mut flags = r.u16() & !fdf::HAS_HINT;
            if hint.is_some() {
                flags |= fdf::HAS_HINT;
            }
            SVal::Field(SField {
                vis: r.below(3) as u8,
                type_: idx(r, n),
                flags,
                hint,
                attrs: props(r),
                defaults: props(r),
            })
        }
        _ => SVal::SourceFile { id: r.spicy() as u32, hash: r.u64(), path: path(r) },
    }
}

pub const KINDS: [u8; 9] = [0, 1, 2, 3, 5, 6, 7, 8, 9];

pub fn definition(r: &mut Rng, n: usize) -> SDef {
    let kind = if r.chance(1, 3) { 5 } else { *r.pick(&KINDS) };
    SDef {
        name: idx(r, n),
        parent: idx(r, n),
        unk: if r.chance(1, 3) { [r.u8(), r.u8(), r.u8()] } else { [0; 3] },
        val: val(r, kind, n),
    }
}

fn corner(r: &mut Rng) -> u32 {
    match r.below(4) {
        0 => 0,
        1 => *r.pick(&[1, 7, u32::MAX]),
        _ => r.u32(),
    }
}

pub fn bundle(r: &mut Rng, max_defs: usize) -> SBundle {
    let ndefs = r.below(max_defs + 1);
    let first = if r.bool() { "" } else { "None" };
    let mut b = SBundle {
        version: if r.chance(2, 3) { 14 } else { r.spicy() as u32 & *r.pick(&[0xf, 0xff, u32::MAX]) },
        flags: r.u32() & *r.pick(&[0, 0xff, u32::MAX]),
        timestamp: r.u64().to_le_bytes(),
        unk3: corner(r),
        chunks: corner(r),
        names: string_table(r, 30, Some(first)),
        tweakdb: string_table(r, 12, None),
        resources: string_table(r, 12, None),
        strings: string_table(r, 20, None),
        defs: vec![null_def()],
    };
    for _ in 0..ndefs {
        b.defs.push(definition(r, ndefs + 2));
    }
    b
}

pub fn layout_variant(r: &mut Rng, b: &SBundle) -> Layout {
    let mut l = SBundle::canonical_layout();
    if r.bool() {
        l.dedup_strings = r.bool();
        l.share_suffixes = r.chance(1, 3);
        if r.bool() {
            let mut o: Vec<usize> = (1..b.defs.len()).collect();
            r.shuffle(&mut o);
            l.body_order = Some(o);
        }
        l.gap = if r.chance(1, 3) { r.below(9) } else { 0 };
        l.trailing = if r.chance(1, 3) { r.below(40) } else { 0 };
    }
    l
}

pub const SCALES: usize = 6;
/// A bundle in which one thing is far larger than usual: past the limits of 8, 12, 15, 16 and 24 bits.
pub fn scale(r: &mut Rng, i: usize) -> SBundle {
    let mut b = bundle(r, 12);
    let n = b.defs.len() + 2;
    let def = |val| SDef { name: 1, parent: 0, unk: [0; 3], val };
    let many = |r: &mut Rng| (0..[256, 300, 0x8001, 0x1_0000, 70_000][r.below(5)]).map(|_| idx(r, n)).collect::<Vec<u32>>();
    match i % SCALES {
        0 => {
            for len in [255, 256, 1023, 1024, 4095, 4096, 4097, 0x7fff, 0x8000, 0xffff, 0x1_0000, 70_000] {
                let s: String = (0..len).map(|_| (b'!' + r.below(90) as u8) as char).collect();
                let t = r.below(4);
                [&mut b.names, &mut b.tweakdb, &mut b.resources, &mut b.strings][t].push(s);
            }
            if i == 0 {
                b.names.push("long".repeat(0x48_0000));
                b.names.push("behind the long one".into());
            }
        }
        1 => {
            let t = r.below(4);
            let table = [&mut b.names, &mut b.tweakdb, &mut b.resources, &mut b.strings].into_iter().nth(t).unwrap();
            for k in 0..70_000 {
                table.push(format!("n{k}"));
            }
        }
        2 => {
            // many short instructions with every kind of longer one among them
            for len in [1500, 0x8200] {
                let mut code: Vec<SInstr> = (0..len).map(|k| SInstr::new([0, 2, 3, 19, 50][k % 5], &[])).collect();
                for _ in 0..400 {
                    let at = r.below(len);
                    code[at] = instr(r, n);
                }
                for op in 0..OP_COUNT {
                    if op != OP_TARGET {
                        code.push(instr_of_op(r, op, n));
                    }
                }
                b.defs.push(def(SVal::Function(SFunction { flags: ff::NATIVE | ff::BODY, code, ..SFunction::default() })));
            }
        }
        3 => {
            for _ in 0..66_000 {
                let kind = *r.pick(&[0, 2, 6, 7]);
                let val = val(r, kind, 66_000);
                b.defs.push(SDef { name: r.below(3) as u32, parent: idx(r, 66_000), unk: [0; 3], val });
            }
        }
        4 => {
            let (functions, fields, overrides) = (many(r), many(r), many(r));
            let flags = cf::HAS_FUNCTIONS | cf::HAS_FIELDS | cf::HAS_OVERRIDES;
            b.defs.push(def(SVal::Class(SClass { vis: 0, flags, base: 1, functions, fields, overrides })));
            b.defs.push(def(SVal::Enum { flags: 0, size: 8, members: many(r), unk1: true }));
            let (params, locals, unk2) = (many(r), many(r), many(r));
            b.defs.push(def(SVal::Function(SFunction {
                flags: ff::NATIVE | ff::PARAMS | ff::LOCALS | ff::UNK4,
                params,
                locals,
                unk2,
                ..SFunction::default()
            })));
        }
        _ => {
            let few = |r: &mut Rng| (0..[256, 300, 0x1_0001][r.below(3)]).map(|k| (format!("a{k}"), ident(r))).collect();
            let (attrs, mut defaults): (_, Vec<(String, String)>) = (few(r), few(r));
            for len in [0x7fff, 0x8000, 0xffff] {
                defaults.push(("p".repeat(len), "q".repeat(0xffff - len)));
            }
            let hint = Some("h".repeat(0xffff));
            b.defs.push(def(SVal::Field(SField { vis: 2, type_: 1, flags: fdf::HAS_HINT, hint, attrs, defaults })));
            b.defs.push(def(SVal::SourceFile { id: 1, hash: 2, path: "d/".repeat(0x4000) + "some.reds" }));
        }
    }
    for _ in 0..4 {
        b.defs.push(definition(r, n));
    }
    b
}
