//! Independent model of the .redscripts file format: written from the format, not from the code under test.
//! `write` produces a file, `read` is a strict validating reader used on files the real code saved.
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct SBundle {
    pub version: u32,
    pub flags: u32,
    pub timestamp: [u8; 8],
    pub unk3: u32,
    pub chunks: u32,
    pub names: Vec<String>,
    pub tweakdb: Vec<String>,
    pub resources: Vec<String>,
    pub strings: Vec<String>,
    /// defs[0] is the reserved null definition
    pub defs: Vec<SDef>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct SDef {
    pub name: u32,
    pub parent: u32,
    pub unk: [u8; 3],
    pub val: SVal,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum SVal {
    /// tag, inner type, array size
    Type(u8, u32, u32),
    Class(SClass),
    EnumValue(i64),
    Enum { flags: u8, size: u8, members: Vec<u32>, unk1: bool },
    Function(SFunction),
    Parameter { type_: u32, flags: u8 },
    Local { type_: u32, flags: u8 },
    Field(SField),
    SourceFile { id: u32, hash: u64, path: String },
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct SClass {
    pub vis: u8,
    pub flags: u16,
    pub base: u32,
    pub functions: Vec<u32>,
    pub fields: Vec<u32>,
    pub overrides: Vec<u32>,
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct SFunction {
    pub vis: u8,
    pub flags: u32,
    pub source: Option<(u32, u32)>,
    pub ret: Option<u32>,
    pub unk1: bool,
    pub base_method: Option<u32>,
    pub params: Vec<u32>,
    pub locals: Vec<u32>,
    pub operator: Option<u32>,
    pub cast: u8,
    pub code: Vec<SInstr>,
    pub unk2: Vec<u32>,
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct SField {
    pub vis: u8,
    pub type_: u32,
    pub flags: u16,
    pub hint: Option<String>,
    pub attrs: Vec<(String, String)>,
    pub defaults: Vec<(String, String)>,
}

pub mod cf {
    //! class flag bits
    pub const NATIVE: u16 = 1;
    pub const ABSTRACT: u16 = 2;
    pub const FINAL: u16 = 4;
    pub const STRUCT: u16 = 8;
    pub const HAS_FUNCTIONS: u16 = 16;
    pub const HAS_FIELDS: u16 = 32;
    pub const IMPORT_ONLY: u16 = 64;
    pub const TEST_ONLY: u16 = 128;
    pub const HAS_OVERRIDES: u16 = 256;
    pub const DERIVED: u16 = HAS_FUNCTIONS | HAS_FIELDS | HAS_OVERRIDES;
}
pub mod ff {
    //! function flag bits
    pub const STATIC: u32 = 1;
    pub const EXEC: u32 = 1 << 1;
    pub const TIMER: u32 = 1 << 2;
    pub const FINAL: u32 = 1 << 3;
    pub const NATIVE: u32 = 1 << 4;
    pub const UNK1: u32 = 1 << 5;
    pub const CALLBACK: u32 = 1 << 6;
    pub const OPERATOR: u32 = 1 << 7;
    pub const RET: u32 = 1 << 8;
    pub const BASE: u32 = 1 << 9;
    pub const PARAMS: u32 = 1 << 10;
    pub const LOCALS: u32 = 1 << 11;
    pub const BODY: u32 = 1 << 12;
    pub const CAST: u32 = 1 << 13;
    pub const IMPLICIT_CAST: u32 = 1 << 14;
    pub const THREAD_SAFE: u32 = 1 << 18;
    pub const CONST: u32 = 1 << 19;
    pub const UNK2: u32 = 1 << 20;
    pub const UNK3: u32 = 1 << 21;
    pub const QUEST: u32 = 1 << 22;
    pub const UNK4: u32 = 1 << 23;
    pub const UNK5: u32 = 1 << 24;
    pub const UNK6: u32 = 1 << 25;
    pub const DERIVED: u32 = OPERATOR | RET | BASE | PARAMS | LOCALS | BODY;
}
pub mod fdf {
    //! field flag bits
    pub const NATIVE: u16 = 1;
    pub const EDITABLE: u16 = 1 << 1;
    pub const INLINE: u16 = 1 << 2;
    pub const CONST: u16 = 1 << 3;
    pub const REPLICATED: u16 = 1 << 4;
    pub const HAS_HINT: u16 = 1 << 5;
    pub const INSTANCE_EDITABLE: u16 = 1 << 6;
    pub const HAS_DEFAULT: u16 = 1 << 7;
    pub const PERSISTENT: u16 = 1 << 8;
    pub const TEST_ONLY: u16 = 1 << 9;
    pub const BROWSABLE: u16 = 1 << 10;
}

/// One instruction: opcode and operand values. Jump-like operands hold the offset relative to the start of the
/// instruction (as the API reports it), not the wire value.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct SInstr {
    pub op: u8,
    pub args: Vec<u64>,
    pub text: Vec<u8>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum F {
    B1,
    B2,
    B4,
    B8,
    Bool,
    /// pool reference: 4 bytes in the file, 8 bytes in the address space jumps are counted in
    P,
    /// relative jump, biased by the distance from instruction start to the end of the operand
    Off(i16),
    /// u32-length-prefixed text
    Text,
}

pub const OP_COUNT: u8 = 104;
pub const OP_TARGET: u8 = 23;

pub fn layout(op: u8) -> Option<&'static [F]> {
    use F::*;
    Some(match op {
        0..=3 => &[],
        4 | 8 => &[B1],
        5 | 9 => &[B2],
        6 | 10 | 12 => &[B4],
        7 | 11 | 13 => &[B8],
        14 => &[P],
        15 => &[P, P],
        16 => &[B4],
        17 | 18 => &[P],
        19 | 20 => &[],
        21 => &[B2, B4, B2, B2, Bool, B8],
        22 | 23 => &[],
        24..=26 => &[P],
        27 => &[],
        28 => &[P, Off(11)],
        29 => &[Off(3), Off(5)],
        30 => &[],
        31..=33 => &[Off(3)],
        34 => &[Off(3), Off(5)],
        35 => &[B1, P],
        36 | 37 => &[Off(3), B2, P, B2],
        38 | 39 => &[],
        40 => &[P],
        41 => &[Off(3)],
        42..=48 => &[P],
        49 | 50 => &[],
        51 => &[Text, B1],
        52..=85 => &[P],
        86 | 87 => &[],
        88..=90 => &[P, B1],
        91..=93 => &[P],
        94..=101 => &[],
        102 | 103 => &[P],
        _ => return None,
    })
}

impl F {
    pub fn wire(self) -> usize {
        match self {
            F::B1 | F::Bool => 1,
            F::B2 | F::Off(_) => 2,
            F::B4 | F::P => 4,
            F::B8 => 8,
            F::Text => 4,
        }
    }
    /// width in the virtual address space that jump offsets and the code size prefix use
    pub fn virt(self) -> usize {
        match self {
            F::P => 8,
            f => f.wire(),
        }
    }
}

impl SInstr {
    pub fn new(op: u8, args: &[u64]) -> SInstr {
        SInstr { op, args: args.to_vec(), text: vec![] }
    }
    pub fn virt_size(&self) -> u32 {
        if self.op == OP_TARGET {
            return 0;
        }
        1 + layout(self.op).unwrap().iter().map(|f| f.virt() as u32).sum::<u32>() + self.text.len() as u32
    }
    pub fn wire_size(&self) -> usize {
        1 + layout(self.op).unwrap().iter().map(|f| f.wire()).sum::<usize>() + self.text.len()
    }
    pub fn write(&self, o: &mut Vec<u8>) {
        o.push(self.op);
        let mut it = self.args.iter();
        for f in layout(self.op).unwrap() {
            match f {
                F::Text => {
                    o.extend((self.text.len() as u32).to_le_bytes());
                    o.extend(&self.text);
                }
                F::Off(bias) => {
                    let v = *it.next().unwrap() as u16 as i16;
                    o.extend(v.wrapping_sub(*bias).to_le_bytes());
                }
                F::Bool => o.push(bool_byte(*it.next().unwrap() != 0)),
                f => o.extend(&it.next().unwrap().to_le_bytes()[..f.wire()]),
            }
        }
    }
    pub fn read(r: &mut Rd) -> Result<SInstr, String> {
        let op = r.u8()?;
        let l = layout(op).ok_or_else(|| format!("unknown opcode {op}"))?;
        let mut args = vec![];
        let mut text = vec![];
        for f in l {
            match f {
                F::Text => {
                    let n = r.u32()? as usize;
                    text = r.take(n)?.to_vec();
                }
                F::Off(bias) => {
                    let v = r.u16()? as i16;
                    args.push(u64::from(v.wrapping_add(*bias) as u16));
                }
                F::Bool => args.push(u64::from(r.u8()? != 0)),
                f => {
                    let b = r.take(f.wire())?;
                    let mut x = [0u8; 8];
                    x[..b.len()].copy_from_slice(b);
                    args.push(u64::from_le_bytes(x));
                }
            }
        }
        Ok(SInstr { op, args, text })
    }
}

pub struct Rd<'a> {
    pub b: &'a [u8],
    pub p: usize,
    /// accept any non-zero byte as a true boolean
    pub lenient: bool,
}
impl<'a> Rd<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        Rd { b, p: 0, lenient: false }
    }
    pub fn at(b: &'a [u8], p: usize) -> Self {
        Rd { b, p, lenient: false }
    }
    pub fn take(&mut self, n: usize) -> Result<&'a [u8], String> {
        if self.p > self.b.len() || n > self.b.len() - self.p {
            return Err(format!("read past end at {} (+{n})", self.p));
        }
        let r = &self.b[self.p..self.p + n];
        self.p += n;
        Ok(r)
    }
    pub fn u8(&mut self) -> Result<u8, String> {
        Ok(self.take(1)?[0])
    }
    pub fn bool(&mut self) -> Result<bool, String> {
        match self.u8()? {
            0 => Ok(false),
            1 => Ok(true),
            _ if self.lenient => Ok(true),
            x => Err(format!("boolean byte {x}")),
        }
    }
    pub fn u16(&mut self) -> Result<u16, String> {
        Ok(u16::from_le_bytes(self.take(2)?.try_into().unwrap()))
    }
    pub fn u32(&mut self) -> Result<u32, String> {
        Ok(u32::from_le_bytes(self.take(4)?.try_into().unwrap()))
    }
    pub fn u64(&mut self) -> Result<u64, String> {
        Ok(u64::from_le_bytes(self.take(8)?.try_into().unwrap()))
    }
    pub fn vec32(&mut self) -> Result<Vec<u32>, String> {
        let n = self.u32()?;
        let mut v = vec![];
        for _ in 0..n {
            v.push(self.u32()?);
        }
        Ok(v)
    }
    pub fn str16(&mut self) -> Result<String, String> {
        let n = self.u16()? as usize;
        String::from_utf8(self.take(n)?.to_vec()).map_err(|e| e.to_string())
    }
}

fn w16s(o: &mut Vec<u8>, s: &str) {
    o.extend((s.len() as u16).to_le_bytes());
    o.extend(s.as_bytes());
}
fn w32v(o: &mut Vec<u8>, v: &[u32]) {
    o.extend((v.len() as u32).to_le_bytes());
    for x in v {
        o.extend(x.to_le_bytes());
    }
}

impl SVal {
    pub fn kind(&self) -> u8 {
        match self {
            SVal::Type(..) => 0,
            SVal::Class(_) => 1,
            SVal::EnumValue(_) => 2,
            SVal::Enum { .. } => 3,
            SVal::Function(_) => 5,
            SVal::Parameter { .. } => 6,
            SVal::Local { .. } => 7,
            SVal::Field(_) => 8,
            SVal::SourceFile { .. } => 9,
        }
    }

    pub fn write(&self, o: &mut Vec<u8>) {
        match self {
            SVal::Type(t, inner, n) => {
                o.push(*t);
                if *t >= 2 {
                    o.extend(inner.to_le_bytes());
                }
                if *t == 5 {
                    o.extend(n.to_le_bytes());
                }
            }
            SVal::Class(c) => {
                o.push(c.vis);
                o.extend(c.flags.to_le_bytes());
                o.extend(c.base.to_le_bytes());
                if c.flags & cf::HAS_FUNCTIONS != 0 {
                    w32v(o, &c.functions);
                }
                if c.flags & cf::HAS_FIELDS != 0 {
                    w32v(o, &c.fields);
                }
                if c.flags & cf::HAS_OVERRIDES != 0 {
                    w32v(o, &c.overrides);
                }
            }
            SVal::EnumValue(v) => o.extend(v.to_le_bytes()),
            SVal::Enum { flags, size, members, unk1 } => {
                o.push(*flags);
                o.push(*size);
                w32v(o, members);
                o.push(bool_byte(*unk1));
            }
            SVal::Function(f) => {
                o.push(f.vis);
                o.extend(f.flags.to_le_bytes());
                if f.flags & ff::NATIVE == 0 {
                    let (a, b) = f.source.unwrap_or((0, 0));
                    o.extend(a.to_le_bytes());
                    o.extend(b.to_le_bytes());
                }
                if f.flags & ff::RET != 0 {
                    o.extend(f.ret.unwrap_or(0).to_le_bytes());
                    o.push(bool_byte(f.unk1));
                }
                if f.flags & ff::BASE != 0 {
                    o.extend(f.base_method.unwrap_or(0).to_le_bytes());
                }
                if f.flags & ff::PARAMS != 0 {
                    w32v(o, &f.params);
                }
                if f.flags & ff::LOCALS != 0 {
                    w32v(o, &f.locals);
                }
                if f.flags & ff::OPERATOR != 0 {
                    o.extend(f.operator.unwrap_or(0).to_le_bytes());
                }
                if f.flags & ff::CAST != 0 {
                    o.push(f.cast);
                }
                if f.flags & ff::BODY != 0 {
                    let size: u32 = f.code.iter().map(SInstr::virt_size).sum();
                    o.extend(size.to_le_bytes());
                    for i in &f.code {
                        i.write(o);
                    }
                }
                if f.flags & ff::UNK4 != 0 {
                    w32v(o, &f.unk2);
                }
            }
            SVal::Parameter { type_, flags } | SVal::Local { type_, flags } => {
                o.extend(type_.to_le_bytes());
                o.push(*flags);
            }
            SVal::Field(f) => {
                o.push(f.vis);
                o.extend(f.type_.to_le_bytes());
                o.extend(f.flags.to_le_bytes());
                if f.flags & fdf::HAS_HINT != 0 {
                    w16s(o, f.hint.as_deref().unwrap_or(""));
                }
                for ps in [&f.attrs, &f.defaults] {
                    o.extend((ps.len() as u32).to_le_bytes());
                    for (a, b) in ps {
                        w16s(o, a);
                        w16s(o, b);
                    }
                }
            }
            SVal::SourceFile { id, hash, path } => {
                o.extend(id.to_le_bytes());
                o.extend(hash.to_le_bytes());
                w16s(o, &path.replace('/', "\\"));
            }
        }
    }

    pub fn read(kind: u8, r: &mut Rd) -> Result<SVal, String> {
        Ok(match kind {
            0 => {
                let t = r.u8()?;
                if t > 6 {
                    return Err(format!("type tag {t}"));
                }
                let inner = if t >= 2 { r.u32()? } else { 0 };
                let n = if t == 5 { r.u32()? } else { 0 };
                SVal::Type(t, inner, n)
            }
            1 => {
                let vis = vis(r.u8()?)?;
                let flags = r.u16()?;
                let base = r.u32()?;
                let functions = if flags & cf::HAS_FUNCTIONS != 0 { r.vec32()? } else { vec![] };
                let fields = if flags & cf::HAS_FIELDS != 0 { r.vec32()? } else { vec![] };
                let overrides = if flags & cf::HAS_OVERRIDES != 0 { r.vec32()? } else { vec![] };
                SVal::Class(SClass { vis, flags, base, functions, fields, overrides })
            }
            2 => SVal::EnumValue(r.u64()? as i64),
            3 => SVal::Enum { flags: r.u8()?, size: r.u8()?, members: r.vec32()?, unk1: r.bool()? },
            5 => {
                let vis = vis(r.u8()?)?;
                let flags = r.u32()?;
                let source = if flags & ff::NATIVE == 0 { Some((r.u32()?, r.u32()?)) } else { None };
                let (ret, unk1) = if flags & ff::RET != 0 { (Some(r.u32()?), r.bool()?) } else { (None, false) };
                let base_method = if flags & ff::BASE != 0 { Some(r.u32()?) } else { None };
                let params = if flags & ff::PARAMS != 0 { r.vec32()? } else { vec![] };
                let locals = if flags & ff::LOCALS != 0 { r.vec32()? } else { vec![] };
                let operator = if flags & ff::OPERATOR != 0 { Some(r.u32()?) } else { None };
                let cast = if flags & ff::CAST != 0 { r.u8()? } else { 0 };
                let code = if flags & ff::BODY != 0 { read_code(r)? } else { vec![] };
                let unk2 = if flags & ff::UNK4 != 0 { r.vec32()? } else { vec![] };
                SVal::Function(SFunction {
                    vis, flags, source, ret, unk1, base_method, params, locals, operator, cast, code, unk2,
                })
            }
            6 => SVal::Parameter { type_: r.u32()?, flags: r.u8()? },
            7 => SVal::Local { type_: r.u32()?, flags: r.u8()? },
            8 => {
                let vis = vis(r.u8()?)?;
                let type_ = r.u32()?;
                let flags = r.u16()?;
                let hint = if flags & fdf::HAS_HINT != 0 { Some(r.str16()?) } else { None };
                let mut ps = [vec![], vec![]];
                for p in &mut ps {
                    let n = r.u32()?;
                    for _ in 0..n {
                        p.push((r.str16()?, r.str16()?));
                    }
                }
                let [attrs, defaults] = ps;
                SVal::Field(SField { vis, type_, flags, hint, attrs, defaults })
            }
            9 => SVal::SourceFile { id: r.u32()?, hash: r.u64()?, path: r.str16()?.replace('\\', "/") },
            k => return Err(format!("definition kind {k}")),
        })
    }
}

fn vis(v: u8) -> Result<u8, String> {
    if v <= 2 {
        Ok(v)
    } else {
        Err(format!("visibility {v}"))
    }
}

pub fn read_code(r: &mut Rd) -> Result<Vec<SInstr>, String> {
    let size = r.u32()?;
    let mut at = 0u64;
    let size = u64::from(size);
    let mut code = vec![];
    while at < size {
        let i = SInstr::read(r)?;
        at += u64::from(i.virt_size());
        code.push(i);
    }
    if at != size && !r.lenient {
        return Err(format!("code size prefix {size} does not end on an instruction boundary (reached {at})"));
    }
    Ok(code)
}

pub fn crc32(b: &[u8]) -> u32 {
    let mut c = !0u32;
    for x in b {
        c ^= u32::from(*x);
        for _ in 0..8 {
            c = if c & 1 != 0 { (c >> 1) ^ 0xEDB8_8320 } else { c >> 1 };
        }
    }
    !c
}

pub const MAGIC: u32 = 0x5344_4552;
pub const HEADER: usize = 104;

/// Where things are in a written/validated file.
#[derive(Clone, Debug, Default)]
pub struct FileMap {
    pub data: (usize, usize),
    pub tables: [(usize, usize); 5], // names, tweakdb, resources, defs, strings: (offset, count)
    pub bodies: Vec<(usize, usize)>, // per definition
}

/// Layout freedom a writer has; the loader must not care.
#[derive(Clone, Debug, Default)]
pub struct Layout {
    pub dedup_strings: bool,
    pub share_suffixes: bool,
    pub body_order: Option<Vec<usize>>,
    pub gap: usize,
    pub trailing: usize,
}

impl SBundle {
    pub fn canonical_layout() -> Layout {
        Layout { dedup_strings: true, ..Layout::default() }
    }

    pub fn write(&self) -> Vec<u8> {
        self.write_with(&Self::canonical_layout()).0
    }

    pub fn write_with(&self, lay: &Layout) -> (Vec<u8>, FileMap) {
        let mut map = FileMap::default();
        let mut data: Vec<u8> = vec![];
        let mut at: HashMap<&str, u32> = HashMap::new();
        let mut offs: [Vec<u32>; 4] = Default::default();
        for (k, table) in [&self.names, &self.tweakdb, &self.resources, &self.strings].into_iter().enumerate() {
            for s in table {
                let off = match at.get(s.as_str()) {
                    Some(o) if lay.dedup_strings => *o,
                    _ => {
                        let mut found = None;
                        if lay.share_suffixes {
                            // a string may live in the tail of another one
                            let mut pat = s.as_bytes().to_vec();
                            pat.push(0);
                            found = data.windows(pat.len()).position(|w| w == pat.as_slice());
                        }
                        let o = found.unwrap_or(data.len()) as u32;
                        if found.is_none() {
                            data.extend(s.as_bytes());
                            data.push(0);
                        }
                        at.insert(s, o);
                        o
                    }
                };
                offs[k].push(off);
            }
        }
        let mut o: Vec<u8> = vec![0; HEADER];
        let mut tables: Vec<(u32, u32, u32)> = vec![];
        let tab = |o: &Vec<u8>, start: usize, count: usize, tables: &mut Vec<(u32, u32, u32)>| {
            tables.push((start as u32, count as u32, crc32(&o[start..])));
        };
        let s = o.len();
        o.extend(&data);
        tab(&o, s, data.len(), &mut tables);
        map.data = (s, data.len());
        for k in 0..3 {
            let s = o.len();
            for x in &offs[k] {
                o.extend(x.to_le_bytes());
            }
            tab(&o, s, offs[k].len(), &mut tables);
            map.tables[k] = (s, offs[k].len());
        }
        let dh = o.len();
        o.resize(dh + 20 * self.defs.len(), 0);
        map.tables[3] = (dh, self.defs.len());
        let s = o.len();
        for x in &offs[3] {
            o.extend(x.to_le_bytes());
        }
        let strings_tab = (s as u32, offs[3].len() as u32, crc32(&o[s..]));
        map.tables[4] = (s, offs[3].len());
        map.bodies = vec![(0, 0); self.defs.len()];
        let order: Vec<usize> = match &lay.body_order {
            Some(v) => v.clone(),
            None => (1..self.defs.len()).collect(),
        };
        for i in order {
            let s = o.len();
            self.defs[i].val.write(&mut o);
            map.bodies[i] = (s, o.len() - s);
            o.resize(o.len() + lay.gap, 0xEE);
        }
        o.resize(o.len() + lay.trailing, 0xAB);
        for (i, d) in self.defs.iter().enumerate().skip(1) {
            let h = &mut o[dh + 20 * i..dh + 20 * i + 20];
            h[0..4].copy_from_slice(&d.name.to_le_bytes());
            h[4..8].copy_from_slice(&d.parent.to_le_bytes());
            h[8..12].copy_from_slice(&(map.bodies[i].0 as u32).to_le_bytes());
            h[12..16].copy_from_slice(&(map.bodies[i].1 as u32).to_le_bytes());
            h[16] = d.val.kind();
            h[17..20].copy_from_slice(&d.unk);
        }
        let defs_tab = (dh as u32, self.defs.len() as u32, crc32(&o[dh..dh + 20 * self.defs.len()]));
        let mut h: Vec<u8> = vec![];
        h.extend(MAGIC.to_le_bytes());
        h.extend(self.version.to_le_bytes());
        h.extend(self.flags.to_le_bytes());
        h.extend(self.timestamp);
        h.extend(self.unk3.to_le_bytes());
        h.extend(0xDEAD_BEEFu32.to_le_bytes());
        h.extend(self.chunks.to_le_bytes());
        for (a, b, c) in tables.iter().chain([&defs_tab, &strings_tab]) {
            h.extend(a.to_le_bytes());
            h.extend(b.to_le_bytes());
            h.extend(c.to_le_bytes());
        }
        let crc = crc32(&h);
        h[24..28].copy_from_slice(&crc.to_le_bytes());
        assert_eq!(h.len(), HEADER);
        o[..HEADER].copy_from_slice(&h);
        (o, map)
    }

    /// Strict reader: everything a consumer may rely on is checked.
    pub fn read(b: &[u8]) -> Result<(SBundle, FileMap), String> {
        let mut r = Rd::new(b);
        let mut map = FileMap::default();
        if r.u32()? != MAGIC {
            return Err("bad magic".into());
        }
        let version = r.u32()?;
        let flags = r.u32()?;
        let timestamp: [u8; 8] = r.take(8)?.try_into().unwrap();
        let unk3 = r.u32()?;
        let hash = r.u32()?;
        let chunks = r.u32()?;
        let mut t = vec![];
        for _ in 0..6 {
            t.push((r.u32()? as usize, r.u32()? as usize, r.u32()?));
        }
        let mut hb = b[..HEADER].to_vec();
        hb[24..28].copy_from_slice(&0xDEAD_BEEFu32.to_le_bytes());
        if crc32(&hb) != hash {
            return Err(format!("header hash {hash:08x} does not match its contents {:08x}", crc32(&hb)));
        }
        let labels = ["data", "names", "tweakdb", "resources", "definitions", "strings"];
        let width = [1usize, 4, 4, 4, 20, 4];
        let mut used: Vec<(usize, usize, String)> = vec![(0, HEADER, "header".into())];
        let mut pos = HEADER;
        for k in 0..6 {
            let (off, count, crc) = t[k];
            let len = count * width[k];
            if off != pos {
                return Err(format!("{} table offset {off}, expected {pos}", labels[k]));
            }
            if off + len > b.len() {
                return Err(format!("{} table runs past the end of the file", labels[k]));
            }
            if crc32(&b[off..off + len]) != crc {
                return Err(format!("{} table checksum mismatch", labels[k]));
            }
            used.push((off, len, labels[k].into()));
            pos = off + len;
        }
        let data = &b[t[0].0..t[0].0 + t[0].1];
        map.data = (t[0].0, t[0].1);
        let mut starts: HashMap<usize, ()> = HashMap::new();
        let mut str_at = |off: usize, what: &str| -> Result<String, String> {
            if off >= data.len() {
                return Err(format!("{what}: string offset {off} outside the data block ({})", data.len()));
            }
            let end = data[off..].iter().position(|c| *c == 0).ok_or_else(|| format!("{what}: unterminated string"))?;
            starts.insert(off, ());
            String::from_utf8(data[off..off + end].to_vec()).map_err(|e| format!("{what}: {e}"))
        };
        let mut tabs: Vec<Vec<String>> = vec![];
        for (k, mk) in [(1usize, 0usize), (2, 1), (3, 2), (5, 4)] {
            let mut v = vec![];
            for i in 0..t[k].1 {
                let o = Rd::at(b, t[k].0 + 4 * i).u32()? as usize;
                v.push(str_at(o, labels[k])?);
            }
            map.tables[mk] = (t[k].0, t[k].1);
            tabs.push(v);
        }
        map.tables[3] = (t[4].0, t[4].1);
        let mut defs = vec![];
        for i in 0..t[4].1 {
            let mut h = Rd::at(b, t[4].0 + 20 * i);
            let (name, parent, off, size) = (h.u32()?, h.u32()?, h.u32()? as usize, h.u32()? as usize);
            let kind = h.u8()?;
            let unk = [h.u8()?, h.u8()?, h.u8()?];
            if i == 0 {
                if b[t[4].0..t[4].0 + 20].iter().any(|x| *x != 0) {
                    return Err("definition 0 is not the null definition".into());
                }
                defs.push(null_def());
                map.bodies.push((0, 0));
                continue;
            }
            let mut body = Rd::at(b, off);
            let val = SVal::read(kind, &mut body).map_err(|e| format!("definition {i}: {e}"))?;
            if body.p != off + size {
                return Err(format!("definition {i}: header says {size} bytes, body has {}", body.p - off));
            }
            used.push((off, size, format!("definition {i}")));
            map.bodies.push((off, size));
            defs.push(SDef { name, parent, unk, val });
        }
        used.sort();
        let mut end = 0;
        for (off, len, what) in &used {
            if *off != end {
                return Err(format!(
                    "{what} starts at {off}, previous region ends at {end}: {}",
                    if *off < end { "overlap" } else { "unaccounted bytes" }
                ));
            }
            end = off + len;
        }
        if end != b.len() {
            return Err(format!("file has {} bytes, {end} accounted for", b.len()));
        }
        let strings = tabs.pop().unwrap();
        let resources = tabs.pop().unwrap();
        let tweakdb = tabs.pop().unwrap();
        let names = tabs.pop().unwrap();
        // every byte of the data block belongs to a referenced string
        let mut p = 0;
        while p < data.len() {
            if !starts.contains_key(&p) {
                return Err(format!("data block: unreferenced bytes at {p}"));
            }
            p += data[p..].iter().position(|c| *c == 0).unwrap() + 1;
        }
        Ok((
            SBundle { version, flags, timestamp, unk3, chunks, names, tweakdb, resources, strings, defs },
            map,
        ))
    }
}

impl SBundle {
    /// What any loader has to be able to make of the bytes, without the writer's side of the format (checksums,
    /// sizes, overlaps, unreferenced bytes). `None`: the layout fields admit more than one reading.
    pub fn read_lenient(b: &[u8]) -> Option<Result<SBundle, String>> {
        let mut r = Rd::new(b);
        macro_rules! tri {
            ($e:expr) => {
                match $e {
                    Ok(v) => v,
                    Err(e) => return Some(Err(e)),
                }
            };
        }
        if tri!(r.u32()) != MAGIC {
            return Some(Err("bad magic".into()));
        }
        let version = tri!(r.u32());
        let flags = tri!(r.u32());
        let timestamp: [u8; 8] = tri!(r.take(8)).try_into().unwrap();
        let unk3 = tri!(r.u32());
        tri!(r.u32());
        let chunks = tri!(r.u32());
        let mut t = vec![];
        for _ in 0..6 {
            t.push((tri!(r.u32()) as usize, tri!(r.u32()) as usize));
            tri!(r.u32());
        }
        let width = [1usize, 4, 4, 4, 20, 4];
        let mut pos = HEADER;
        for k in 0..6 {
            if t[k].0 != pos {
                return None;
            }
            let len = t[k].1.checked_mul(width[k])?;
            if len > b.len() - pos {
                return Some(Err(format!("table {k} runs past the end of the file")));
            }
            pos += len;
        }
        let data = &b[t[0].0..t[0].0 + t[0].1];
        let mut tabs: Vec<Vec<String>> = vec![];
        for k in [1usize, 2, 3, 5] {
            let mut v = vec![];
            for i in 0..t[k].1 {
                let off = tri!(Rd::at(b, t[k].0 + 4 * i).u32()) as usize;
                if off >= data.len() {
                    return Some(Err(format!("string offset {off} outside the data block ({})", data.len())));
                }
                let Some(end) = data[off..].iter().position(|c| *c == 0) else {
                    return Some(Err("unterminated string".into()));
                };
                v.push(tri!(String::from_utf8(data[off..off + end].to_vec()).map_err(|e| format!("string data: {e}"))));
            }
            tabs.push(v);
        }
        let mut defs = vec![];
        for i in 0..t[4].1 {
            let mut h = Rd::at(b, t[4].0 + 20 * i);
            let (name, parent, off) = (tri!(h.u32()), tri!(h.u32()), tri!(h.u32()) as usize);
            tri!(h.u32());
            let kind = tri!(h.u8());
            let unk = [tri!(h.u8()), tri!(h.u8()), tri!(h.u8())];
            if i == 0 {
                if kind != 0 {
                    return None;
                }
                defs.push(null_def());
                continue;
            }
            let mut body = Rd::at(b, off);
            body.lenient = true;
            let val = tri!(SVal::read(kind, &mut body).map_err(|e| format!("definition {i}: {e}")));
            defs.push(SDef { name, parent, unk, val });
        }
        if defs.is_empty() {
            defs.push(null_def());
        }
        let strings = tabs.pop().unwrap();
        let resources = tabs.pop().unwrap();
        let tweakdb = tabs.pop().unwrap();
        let names = tabs.pop().unwrap();
        Some(Ok(SBundle { version, flags, timestamp, unk3, chunks, names, tweakdb, resources, strings, defs }))
    }
}

thread_local! {
    /// The byte written for a true boolean; any but 0 means true.
    pub static TRUE: std::cell::Cell<u8> = const { std::cell::Cell::new(1) };
}
fn bool_byte(b: bool) -> u8 {
    if b { TRUE.with(|t| t.get()) } else { 0 }
}

pub fn null_def() -> SDef {
    SDef { name: 0, parent: 0, unk: [0; 3], val: SVal::Type(0, 0, 0) }
}
