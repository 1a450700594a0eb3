//! The state both interpreters (of the source and of the bytecode) work on: values, places, objects, the trace of
//! observable events, and the native functions.
use std::fmt::Write as _;

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Void,
    B(bool),
    I(i32),
    L(i64),
    U(u32),
    UL(u64),
    F(f32),
    D(f64),
    S(String),
    N(String),
    /// TweakDBID
    T(String),
    /// ResRef
    R(String),
    E(String, i64),
    A(Vec<V>),
    /// strong reference: heap index
    O(Option<usize>),
    /// weak reference
    W(Option<usize>),
    St(String, Vec<(String, V)>),
    Var(Option<Box<V>>),
    /// the small integers: Int8, Int16, Uint8, Uint16
    K(u8, i32),
}

pub const SMALL: [&str; 4] = ["Int8", "Int16", "Uint8", "Uint16"];

impl V {
    pub fn kind(&self) -> u8 {
        match self {
            V::Void => 0,
            V::B(_) => 1,
            V::I(_) => 2,
            V::L(_) => 3,
            V::U(_) => 4,
            V::UL(_) => 5,
            V::F(_) => 6,
            V::D(_) => 7,
            V::S(_) => 8,
            V::N(_) => 9,
            V::T(_) => 10,
            V::R(_) => 11,
            V::E(..) => 12,
            V::A(_) => 13,
            V::O(_) => 14,
            V::W(_) => 15,
            V::St(..) => 16,
            V::Var(_) => 17,
            V::K(k, _) => 20 + k,
        }
    }
    pub fn show(&self) -> String {
        let mut s = String::new();
        self.put(&mut s);
        s
    }
    fn put(&self, o: &mut String) {
        match self {
            V::Void => o.push_str("void"),
            V::B(b) => write!(o, "{b}").unwrap(),
            V::I(i) => write!(o, "{i}").unwrap(),
            V::L(i) => write!(o, "{i}l").unwrap(),
            V::U(i) => write!(o, "{i}u").unwrap(),
            V::UL(i) => write!(o, "{i}ul").unwrap(),
            V::K(k, i) => write!(o, "{i}{}", SMALL[*k as usize]).unwrap(),
            V::F(f) => write!(o, "{f}f").unwrap(),
            V::D(f) => write!(o, "{f}d").unwrap(),
            V::S(s) => write!(o, "{s:?}").unwrap(),
            V::N(s) => write!(o, "n{s:?}").unwrap(),
            V::T(s) => write!(o, "t{s:?}").unwrap(),
            V::R(s) => write!(o, "r{s:?}").unwrap(),
            V::E(n, i) => write!(o, "{n}#{i}").unwrap(),
            V::A(xs) => {
                o.push('[');
                for x in xs {
                    x.put(o);
                    o.push(',');
                }
                o.push(']');
            }
            V::O(None) => o.push_str("null"),
            V::O(Some(i)) => write!(o, "@{i}").unwrap(),
            V::W(None) => o.push_str("wnull"),
            V::W(Some(i)) => write!(o, "w@{i}").unwrap(),
            V::St(n, fs) => {
                write!(o, "{n}{{").unwrap();
                for (f, v) in fs {
                    write!(o, "{f}=").unwrap();
                    v.put(o);
                    o.push(',');
                }
                o.push('}');
            }
            V::Var(None) => o.push_str("variant()"),
            V::Var(Some(v)) => {
                o.push_str("variant(");
                v.put(o);
                o.push(')');
            }
        }
    }
    /// what ToString gives
    pub fn text(&self) -> String {
        match self {
            V::S(s) => s.clone(),
            V::Var(Some(v)) => v.text(),
            v => v.show(),
        }
    }
    pub fn truth(&self) -> Result<bool, String> {
        match self {
            V::B(b) => Ok(*b),
            v => Err(format!("{} used as a condition", v.show())),
        }
    }
    pub fn int(&self) -> Result<i64, String> {
        Ok(match self {
            V::I(i) => i64::from(*i),
            V::L(i) => *i,
            V::U(i) => i64::from(*i),
            V::UL(i) => *i as i64,
            v => return Err(format!("{} used as an integer", v.show())),
        })
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Sub {
    Field(String),
    Index(i64),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Root {
    Cell(usize),
    Obj(usize, String),
    /// a member of null: reads give the value, writes go nowhere
    Nowhere(Box<V>),
    /// a temporary
    Temp(Box<V>),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Place {
    pub root: Root,
    pub path: Vec<Sub>,
}

impl Place {
    pub fn cell(i: usize) -> Place {
        Place { root: Root::Cell(i), path: vec![] }
    }
    pub fn temp(v: V) -> Place {
        Place { root: Root::Temp(Box::new(v)), path: vec![] }
    }
    pub fn sub(mut self, s: Sub) -> Place {
        self.path.push(s);
        self
    }
}

pub struct Obj {
    pub class: String,
    pub fields: Vec<(String, V)>,
}

#[derive(Default)]
pub struct Machine {
    pub cells: Vec<V>,
    pub heap: Vec<Obj>,
    pub trace: Vec<String>,
    pub steps: u64,
    pub fuel: u64,
}

impl Machine {
    pub fn new(fuel: u64) -> Machine {
        Machine { fuel, ..Machine::default() }
    }
    pub fn step(&mut self) -> Result<(), String> {
        self.steps += 1;
        if self.steps > self.fuel {
            return Err("FUEL".into());
        }
        Ok(())
    }
    pub fn alloc(&mut self, v: V) -> usize {
        self.cells.push(v);
        self.cells.len() - 1
    }
    fn walk<'a>(mut v: &'a V, path: &[Sub]) -> Result<Option<&'a V>, String> {
        for s in path {
            v = match (v, s) {
                (V::St(_, fs), Sub::Field(n)) => match fs.iter().find(|f| f.0 == *n) {
                    Some(f) => &f.1,
                    None => return Err(format!("{} has no field {n}", v.show())),
                },
                (V::A(xs), Sub::Index(i)) => match usize::try_from(*i).ok().and_then(|i| xs.get(i)) {
                    Some(x) => x,
                    None => return Ok(None),
                },
                _ => return Err(format!("{s:?} of {}", v.show())),
            };
        }
        Ok(Some(v))
    }
    fn walk_mut<'a>(mut v: &'a mut V, path: &[Sub]) -> Result<Option<&'a mut V>, String> {
        for s in path {
            v = match (v, s) {
                (V::St(_, fs), Sub::Field(n)) => match fs.iter_mut().find(|f| f.0 == *n) {
                    Some(f) => &mut f.1,
                    None => return Err(format!("no field {n}")),
                },
                (V::A(xs), Sub::Index(i)) => match usize::try_from(*i).ok().and_then(|i| xs.get_mut(i)) {
                    Some(x) => x,
                    None => return Ok(None),
                },
                _ => return Err(format!("{s:?} of another kind of value")),
            };
        }
        Ok(Some(v))
    }
    /// None: an index out of range
    pub fn read(&self, p: &Place) -> Result<Option<V>, String> {
        let root = match &p.root {
            Root::Cell(i) => &self.cells[*i],
            Root::Obj(o, f) => match self.heap[*o].fields.iter().find(|x| x.0 == *f) {
                Some(x) => &x.1,
                None => return Err(format!("{} has no field {f}", self.heap[*o].class)),
            },
            Root::Nowhere(v) | Root::Temp(v) => v,
        };
        Ok(Self::walk(root, &p.path)?.cloned())
    }
    pub fn write(&mut self, p: &Place, v: V) -> Result<(), String> {
        let root = match &p.root {
            Root::Cell(i) => &mut self.cells[*i],
            Root::Obj(o, f) => {
                let class = self.heap[*o].class.clone();
                match self.heap[*o].fields.iter_mut().find(|x| x.0 == *f) {
                    Some(x) => &mut x.1,
                    None => return Err(format!("{class} has no field {f}")),
                }
            }
            Root::Nowhere(_) => return Ok(()),
            Root::Temp(_) => return Err("assignment to a temporary".into()),
        };
        if let Some(x) = Self::walk_mut(root, &p.path)? {
            if x.kind() != v.kind() {
                return Err(format!("{} assigned to a place that holds {}", v.show(), x.show()));
            }
            *x = v;
        }
        Ok(())
    }
    pub fn event(&mut self, s: String) {
        self.trace.push(s);
    }
    pub fn show(&self, v: &V) -> String {
        match v {
            V::O(Some(i)) | V::W(Some(i)) => format!("{}:{}", v.show(), self.heap[*i].class),
            v => v.show(),
        }
    }
}

/// every native function of the base library: name, parameters (type, out), return type
pub const NATIVES: &[(&str, &[&str], &str)] = &[
    ("OperatorAdd", &["Int32", "Int32"], "Int32"),
    ("OperatorAdd", &["Float", "Float"], "Float"),
    ("OperatorAdd", &["script_ref:String", "script_ref:String"], "String"),
    ("OperatorSubtract", &["Int32", "Int32"], "Int32"),
    ("OperatorSubtract", &["Float", "Float"], "Float"),
    ("OperatorMultiply", &["Int32", "Int32"], "Int32"),
    ("OperatorMultiply", &["Float", "Float"], "Float"),
    ("OperatorDivide", &["Int32", "Int32"], "Int32"),
    ("OperatorModulo", &["Int32", "Int32"], "Int32"),
    ("OperatorOr", &["Int32", "Int32"], "Int32"),
    ("OperatorXor", &["Int32", "Int32"], "Int32"),
    ("OperatorAnd", &["Int32", "Int32"], "Int32"),
    ("OperatorLess", &["Int32", "Int32"], "Bool"),
    ("OperatorLess", &["Float", "Float"], "Bool"),
    ("OperatorLessEqual", &["Int32", "Int32"], "Bool"),
    ("OperatorGreater", &["Int32", "Int32"], "Bool"),
    ("OperatorGreaterEqual", &["Int32", "Int32"], "Bool"),
    ("OperatorEqual", &["Int32", "Int32"], "Bool"),
    ("OperatorEqual", &["Bool", "Bool"], "Bool"),
    ("OperatorNotEqual", &["Int32", "Int32"], "Bool"),
    ("OperatorLogicAnd", &["Bool", "Bool"], "Bool"),
    ("OperatorLogicOr", &["Bool", "Bool"], "Bool"),
    ("OperatorLogicNot", &["Bool"], "Bool"),
    ("OperatorNeg", &["Int32"], "Int32"),
    ("OperatorNeg", &["Float"], "Float"),
    ("OperatorBitNot", &["Int32"], "Int32"),
    ("OperatorAssignAdd", &["out Int32", "Int32"], "Int32"),
    ("OperatorAssignAdd", &["out Float", "Float"], "Float"),
    ("OperatorAssignAdd", &["out String", "script_ref:String"], "String"),
    ("OperatorAssignSubtract", &["out Int32", "Int32"], "Int32"),
    ("OperatorAssignMultiply", &["out Int32", "Int32"], "Int32"),
    ("OperatorAssignDivide", &["out Int32", "Int32"], "Int32"),
    ("OperatorAssignOr", &["out Int32", "Int32"], "Int32"),
    ("OperatorAssignAnd", &["out Int32", "Int32"], "Int32"),
    ("TraceI", &["Int32"], "Int32"),
    ("TraceB", &["Bool"], "Bool"),
    ("TraceS", &["String"], "String"),
    ("TraceF", &["Float"], "Float"),
    ("Mark", &["Int32"], ""),
    ("Dump", &["Variant"], ""),
    ("LenRef", &["script_ref:String"], "Int32"),
    ("Bump", &["out Int32", "Int32"], ""),
    ("SumOf", &["array:Int32"], "Int32"),
    (
        "Many",
        &[
            "script_ref:String", "script_ref:String", "script_ref:String", "script_ref:String", "script_ref:String", "script_ref:String",
            "script_ref:String", "script_ref:String", "script_ref:String", "script_ref:String", "script_ref:String", "script_ref:String",
            "script_ref:String", "script_ref:String",
        ],
        "Int32",
    ),
];

fn strip(sig: &str) -> &str {
    sig.split(';').next().unwrap()
}

/// Runs a native. `args` are values except for out parameters, which come as places.
pub fn native(m: &mut Machine, sig: &str, args: &[V], out: Option<&Place>) -> Result<V, String> {
    let name = strip(sig);
    let wrong = || format!("native {sig} called with {:?}", args.iter().map(V::show).collect::<Vec<_>>());
    if let Some(op) = name.strip_prefix("OperatorAssign") {
        let p = out.ok_or_else(wrong)?;
        let old = m.read(p)?.ok_or("out of range")?;
        let v = bin(&format!("Operator{op}"), &old, args.last().ok_or_else(wrong)?).ok_or_else(wrong)?;
        crate::lang::too_long(&v)?;
        m.write(p, v.clone())?;
        return Ok(v);
    }
    Ok(match (name, args) {
        ("OperatorLogicNot", [V::B(a)]) => V::B(!a),
        ("OperatorNeg", [V::I(a)]) => V::I(a.wrapping_neg()),
        ("OperatorNeg", [V::F(a)]) => V::F(-a),
        ("OperatorBitNot", [V::I(a)]) => V::I(!a),
        ("TraceI" | "TraceB" | "TraceS" | "TraceF", [v]) => {
            m.event(format!("{name} {}", v.show()));
            v.clone()
        }
        ("Mark", [v]) => {
            m.event(format!("Mark {}", v.show()));
            V::Void
        }
        ("Dump", [v]) => {
            let inner = match v {
                V::Var(Some(x)) => m.show(x),
                v => return Err(format!("Dump of {}", v.show())),
            };
            m.event(format!("Dump {inner}"));
            V::Void
        }
        ("SumOf", [V::A(xs)]) => {
            let mut n = 0i32;
            for x in xs {
                match x {
                    V::I(i) => n = n.wrapping_mul(3).wrapping_add(*i),
                    _ => return Err(wrong()),
                }
            }
            V::I(n)
        }
        ("Many", xs) => {
            let mut n = 0i32;
            for x in xs {
                match x {
                    V::S(s) => n = n.wrapping_mul(2).wrapping_add(s.len() as i32),
                    _ => return Err(wrong()),
                }
            }
            V::I(n)
        }
        ("LenRef", [V::S(s)]) => V::I(s.len() as i32),
        ("Bump", [_, V::I(b)]) => {
            let p = out.ok_or_else(wrong)?;
            let old = m.read(p)?.ok_or("out of range")?.int()? as i32;
            m.write(p, V::I(old.wrapping_add(*b).wrapping_mul(3)))?;
            V::Void
        }
        (_, [a, b]) => {
            let v = bin(name, a, b).ok_or_else(wrong)?;
            crate::lang::too_long(&v)?;
            v
        }
        _ => return Err(wrong()),
    })
}

/// strict binary operators
pub fn bin(name: &str, a: &V, b: &V) -> Option<V> {
    Some(match (name, a, b) {
        ("OperatorAdd", V::I(a), V::I(b)) => V::I(a.wrapping_add(*b)),
        ("OperatorSubtract", V::I(a), V::I(b)) => V::I(a.wrapping_sub(*b)),
        ("OperatorMultiply", V::I(a), V::I(b)) => V::I(a.wrapping_mul(*b)),
        ("OperatorDivide", V::I(a), V::I(b)) => V::I(if *b == 0 { 0 } else { a.wrapping_div(*b) }),
        ("OperatorModulo", V::I(a), V::I(b)) => V::I(if *b == 0 { 0 } else { a.wrapping_rem(*b) }),
        ("OperatorOr", V::I(a), V::I(b)) => V::I(a | b),
        ("OperatorXor", V::I(a), V::I(b)) => V::I(a ^ b),
        ("OperatorAnd", V::I(a), V::I(b)) => V::I(a & b),
        ("OperatorLess", V::I(a), V::I(b)) => V::B(a < b),
        ("OperatorLessEqual", V::I(a), V::I(b)) => V::B(a <= b),
        ("OperatorGreater", V::I(a), V::I(b)) => V::B(a > b),
        ("OperatorGreaterEqual", V::I(a), V::I(b)) => V::B(a >= b),
        ("OperatorEqual", V::I(a), V::I(b)) => V::B(a == b),
        ("OperatorEqual", V::B(a), V::B(b)) => V::B(a == b),
        ("OperatorNotEqual", V::I(a), V::I(b)) => V::B(a != b),
        ("OperatorAdd", V::F(a), V::F(b)) => V::F(a + b),
        ("OperatorSubtract", V::F(a), V::F(b)) => V::F(a - b),
        ("OperatorMultiply", V::F(a), V::F(b)) => V::F(a * b),
        ("OperatorLess", V::F(a), V::F(b)) => V::B(a < b),
        ("OperatorAdd", V::S(a), V::S(b)) => V::S(format!("{a}{b}")),
        _ => return None,
    })
}
