//! A neutral syntax tree: converted from the tree the decompiler returns, and produced by an independent parser of
//! the language's concrete syntax.
use redscript::ast::{BinOp, Constant, Expr, Literal, Seq, SourceAst, UnOp};

#[derive(Debug, Clone, PartialEq)]
pub enum K {
    /// literal prefix (' ' for plain strings) and text
    Str(char, String),
    F32(u32),
    F64(u64),
    /// suffix ("", "l", "u", "ul") and value
    Int(&'static str, i128),
    Bool(bool),
}

#[derive(Debug, Clone, PartialEq)]
pub enum X {
    Id(String),
    Const(K),
    Cast(String, Box<X>),
    Declare(String, Option<String>, Option<Box<X>>),
    Assign(Box<X>, Box<X>),
    Call(String, Vec<String>, Vec<X>),
    Method(Box<X>, String, Vec<X>),
    Member(Box<X>, String),
    Elem(Box<X>, Box<X>),
    New(String, Vec<X>),
    Return(Option<Box<X>>),
    Seq(Vec<X>),
    Switch(Box<X>, Vec<(X, Vec<X>)>, Option<Vec<X>>),
    Goto(u16),
    If(Box<X>, Vec<X>, Option<Vec<X>>),
    Cond(Box<X>, Box<X>, Box<X>),
    While(Box<X>, Vec<X>),
    For(String, Box<X>, Vec<X>),
    Bin(&'static str, Box<X>, Box<X>),
    Un(char, Box<X>),
    ArrayLit(Vec<X>),
    Interp(String, Vec<(X, String)>),
    This,
    Super,
    Break,
    Null,
}

pub const BINOPS: [(&str, &str, u8); 22] = [
    ("OperatorAssignAdd", "+=", 10),
    ("OperatorAssignSubtract", "-=", 10),
    ("OperatorAssignMultiply", "*=", 10),
    ("OperatorAssignDivide", "/=", 10),
    ("OperatorAssignOr", "|=", 10),
    ("OperatorAssignAnd", "&=", 10),
    ("OperatorLogicOr", "||", 9),
    ("OperatorLogicAnd", "&&", 8),
    ("OperatorOr", "|", 7),
    ("OperatorXor", "^", 6),
    ("OperatorAnd", "&", 5),
    ("OperatorEqual", "==", 4),
    ("OperatorNotEqual", "!=", 4),
    ("OperatorLess", "<", 3),
    ("OperatorLessEqual", "<=", 3),
    ("OperatorGreater", ">", 3),
    ("OperatorGreaterEqual", ">=", 3),
    ("OperatorAdd", "+", 2),
    ("OperatorSubtract", "-", 2),
    ("OperatorMultiply", "*", 1),
    ("OperatorDivide", "/", 1),
    ("OperatorModulo", "%", 1),
];
pub const UNOPS: [(&str, char); 3] = [("OperatorBitNot", '~'), ("OperatorLogicNot", '!'), ("OperatorNeg", '-')];

pub fn binop_sym(op: BinOp) -> &'static str {
    use BinOp::*;
    match op {
        AssignAdd => "+=",
        AssignSubtract => "-=",
        AssignMultiply => "*=",
        AssignDivide => "/=",
        AssignOr => "|=",
        AssignAnd => "&=",
        LogicOr => "||",
        LogicAnd => "&&",
        Or => "|",
        Xor => "^",
        And => "&",
        Equal => "==",
        NotEqual => "!=",
        Less => "<",
        LessEqual => "<=",
        Greater => ">",
        GreaterEqual => ">=",
        Add => "+",
        Subtract => "-",
        Multiply => "*",
        Divide => "/",
        Modulo => "%",
    }
}
pub fn unop_sym(op: UnOp) -> char {
    match op {
        UnOp::BitNot => '~',
        UnOp::LogicNot => '!',
        UnOp::Neg => '-',
    }
}

pub fn seq(s: &Seq<SourceAst>) -> Vec<X> {
    s.exprs.iter().map(conv).collect()
}
fn b(e: &Expr<SourceAst>) -> Box<X> {
    Box::new(conv(e))
}
fn all(es: &[Expr<SourceAst>]) -> Vec<X> {
    es.iter().map(conv).collect()
}
fn s<T: ToString>(v: &T) -> String {
    v.to_string()
}

pub fn konst(c: &Constant) -> K {
    match c {
        Constant::String(l, t) => K::Str(
            match l {
                Literal::String => ' ',
                Literal::Name => 'n',
                Literal::Resource => 'r',
                Literal::TweakDbId => 't',
            },
            t.to_string(),
        ),
        Constant::F32(v) => K::F32(v.to_bits()),
        Constant::F64(v) => K::F64(v.to_bits()),
        Constant::I32(v) => K::Int("", i128::from(*v)),
        Constant::I64(v) => K::Int("l", i128::from(*v)),
        Constant::U32(v) => K::Int("u", i128::from(*v)),
        Constant::U64(v) => K::Int("ul", i128::from(*v)),
        Constant::Bool(v) => K::Bool(*v),
    }
}

pub fn conv(e: &Expr<SourceAst>) -> X {
    match e {
        Expr::Ident(n, _) => X::Id(s(n)),
        Expr::Constant(c, _) => X::Const(konst(c)),
        Expr::ArrayLit(v, _, _) => X::ArrayLit(all(v)),
        Expr::InterpolatedString(p, parts, _) => {
            X::Interp(p.to_string(), parts.iter().map(|(e, t)| (conv(e), t.to_string())).collect())
        }
        Expr::Declare(n, t, v, _) => X::Declare(s(n), t.as_ref().map(|t| s(&t.pretty())), v.as_ref().map(|v| b(v))),
        Expr::Cast(t, e, _) => X::Cast(s(&t.pretty()), b(e)),
        Expr::Assign(l, r, _) => X::Assign(b(l), b(r)),
        Expr::Call(n, t, a, _) => X::Call(s(n), t.iter().map(|t| s(&t.pretty())).collect(), all(a)),
        Expr::MethodCall(o, n, a, _) => X::Method(b(o), s(n), all(a)),
        Expr::Member(o, n, _) => X::Member(b(o), s(n)),
        Expr::ArrayElem(a, i, _) => X::Elem(b(a), b(i)),
        Expr::New(t, a, _) => X::New(s(&t.pretty()), all(a)),
        Expr::Return(v, _) => X::Return(v.as_ref().map(|v| b(v))),
        Expr::Seq(q) => X::Seq(seq(q)),
        Expr::Switch(e, cs, d, _) => X::Switch(
            b(e),
            cs.iter().map(|c| (conv(&c.matcher), seq(&c.body))).collect(),
            d.as_ref().map(seq),
        ),
        Expr::Goto(t, _) => X::Goto(t.position.value),
        Expr::If(c, t, f, _) => X::If(b(c), seq(t), f.as_ref().map(seq)),
        Expr::Conditional(c, t, f, _) => X::Cond(b(c), b(t), b(f)),
        Expr::While(c, q, _) => X::While(b(c), seq(q)),
        Expr::ForIn(n, e, q, _) => X::For(s(n), b(e), seq(q)),
        Expr::BinOp(l, r, op, _) => X::Bin(binop_sym(*op), b(l), b(r)),
        Expr::UnOp(e, op, _) => X::Un(unop_sym(*op), b(e)),
        Expr::This(_) => X::This,
        Expr::Super(_) => X::Super,
        Expr::Break(_) => X::Break,
        Expr::Null(_) => X::Null,
    }
}

fn is_empty(x: &X) -> bool {
    matches!(x, X::Seq(v) if v.iter().all(is_empty))
}

fn nblock(v: &[X], verbose: bool) -> Vec<X> {
    let mut out = vec![];
    for x in v {
        if is_empty(x) {
            continue;
        }
        match norm(x, verbose) {
            X::Seq(inner) => out.extend(inner),
            y => out.push(y),
        }
    }
    out
}

/// Source-level meaning of a tree: operator calls become operators, implicit conversions disappear (unless
/// verbose), overload suffixes are dropped, empty statements vanish, negated literals are literals.
pub fn norm(x: &X, verbose: bool) -> X {
    let n = |x: &X| Box::new(norm(x, verbose));
    let ns = |v: &[X]| v.iter().map(|x| norm(x, verbose)).collect::<Vec<_>>();
    let base = |s: &str| s.split(';').next().unwrap().to_owned();
    match x {
        X::Id(v) => X::Id(v.clone()),
        X::Const(k) => X::Const(k.clone()),
        X::Cast(t, e) => X::Cast(t.clone(), n(e)),
        X::Declare(a, t, v) => X::Declare(a.clone(), t.clone(), v.as_ref().map(|v| n(v))),
        X::Assign(a, c) => X::Assign(n(a), n(c)),
        X::Call(name, t, args) => {
            let name = base(name);
            if let (Some((_, sym, _)), [l, r]) = (BINOPS.iter().find(|o| o.0 == name), args.as_slice()) {
                return bin(sym, *n(l), *n(r));
            }
            if let (Some((_, sym)), [e]) = (UNOPS.iter().find(|o| o.0 == name), args.as_slice()) {
                return fold_neg(*sym, norm(e, verbose));
            }
            if let (false, true, [e]) =
                (verbose, matches!(name.as_str(), "WeakRefToRef" | "RefToWeakRef" | "AsRef"), args.as_slice())
            {
                return norm(e, verbose);
            }
            X::Call(name, t.clone(), ns(args))
        }
        X::Method(o, name, args) => X::Method(n(o), base(name), ns(args)),
        X::Member(o, f) => X::Member(n(o), f.clone()),
        X::Elem(a, i) => X::Elem(n(a), n(i)),
        X::New(t, a) => X::New(t.clone(), ns(a)),
        X::Return(v) => X::Return(v.as_ref().map(|v| n(v))),
        X::Seq(v) => X::Seq(nblock(v, verbose)),
        X::Switch(e, cs, d) => X::Switch(
            n(e),
            cs.iter().map(|(m, v)| (norm(m, verbose), nblock(v, verbose))).collect(),
            d.as_ref().map(|d| nblock(d, verbose)),
        ),
        X::Goto(g) => X::Goto(*g),
        X::If(c, t, f) => X::If(n(c), nblock(t, verbose), f.as_ref().map(|f| nblock(f, verbose))),
        X::Cond(a, c, d) => X::Cond(n(a), n(c), n(d)),
        X::While(c, v) => X::While(n(c), nblock(v, verbose)),
        X::For(i, e, v) => X::For(i.clone(), n(e), nblock(v, verbose)),
        X::Bin(o, l, r) => bin(o, *n(l), *n(r)),
        X::Un(o, e) => fold_neg(*o, norm(e, verbose)),
        X::ArrayLit(v) => X::ArrayLit(ns(v)),
        X::Interp(p, v) => X::Interp(p.clone(), v.iter().map(|(e, t)| (norm(e, verbose), t.clone())).collect()),
        X::This => X::This,
        X::Super => X::Super,
        X::Break => X::Break,
        X::Null => X::Null,
    }
}
pub fn norm_block(v: &[X], verbose: bool) -> Vec<X> {
    nblock(v, verbose)
}

/// operators for which the grouping of a chain makes no difference are grouped to the left
fn bin(op: &'static str, l: X, r: X) -> X {
    match r {
        X::Bin(o, rl, rr) if o == op && matches!(op, "&&" | "||" | "&" | "|" | "^") => X::Bin(op, Box::new(bin(op, l, *rl)), rr),
        r => X::Bin(op, Box::new(l), Box::new(r)),
    }
}

fn fold_neg(op: char, e: X) -> X {
    if op == '-' {
        match &e {
            X::Const(K::Int(suf, v)) if !suf.starts_with('u') => return X::Const(K::Int(suf, -v)),
            X::Const(K::F32(v)) => return X::Const(K::F32(v ^ (1 << 31))),
            X::Const(K::F64(v)) => return X::Const(K::F64(v ^ (1 << 63))),
            _ => {}
        }
    }
    X::Un(op, Box::new(e))
}

// ------------------------------------------------------------------ parser
pub struct P<'a> {
    s: &'a [u8],
    p: usize,
    /// names that may be followed by type arguments
    generic: &'a dyn Fn(&str) -> bool,
}

pub type R<T> = Result<T, String>;

#[derive(Debug, Clone, PartialEq, Default)]
pub struct Decl {
    pub annotations: Vec<(String, String)>,
    pub quals: Vec<String>,
    pub keyword: String,
    pub name: String,
    pub base: Option<String>,
    pub params: Vec<(Vec<String>, String, String)>,
    pub ret: Option<String>,
    pub type_: Option<String>,
    pub value: Option<String>,
    pub body: Option<Vec<X>>,
    pub members: Vec<Decl>,
}

fn idc(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_'
}

impl<'a> P<'a> {
    pub fn new(s: &'a str, generic: &'a dyn Fn(&str) -> bool) -> P<'a> {
        P { s: s.as_bytes(), p: 0, generic }
    }
    fn err<T>(&self, m: &str) -> R<T> {
        let lo = self.p.saturating_sub(60);
        let hi = (self.p + 40).min(self.s.len());
        Err(format!(
            "syntax error: {m} at byte {}: `{}<here>{}`",
            self.p,
            String::from_utf8_lossy(&self.s[lo..self.p]),
            String::from_utf8_lossy(&self.s[self.p..hi])
        ))
    }
    fn ws(&mut self) {
        while self.p < self.s.len() && matches!(self.s[self.p], b' ' | b'\n' | b'\r' | b'\t') {
            self.p += 1;
        }
    }
    pub fn eof(&mut self) -> bool {
        self.ws();
        self.p >= self.s.len()
    }
    fn peek(&self) -> u8 {
        self.s.get(self.p).copied().unwrap_or(0)
    }
    fn looking(&mut self, t: &str) -> bool {
        self.ws();
        self.s[self.p..].starts_with(t.as_bytes())
    }
    fn eat(&mut self, t: &str) -> bool {
        if self.looking(t) {
            self.p += t.len();
            true
        } else {
            false
        }
    }
    fn need(&mut self, t: &str) -> R<()> {
        if self.eat(t) {
            Ok(())
        } else {
            self.err(&format!("expected `{t}`"))
        }
    }
    fn kw(&mut self, t: &str) -> bool {
        if self.looking(t) && !self.s.get(self.p + t.len()).copied().is_some_and(idc) {
            self.p += t.len();
            true
        } else {
            false
        }
    }
    fn ident(&mut self) -> R<String> {
        self.ws();
        let st = self.p;
        if self.peek().is_ascii_digit() {
            return self.err("identifier");
        }
        while idc(self.peek()) {
            self.p += 1;
        }
        if st == self.p {
            return self.err("identifier");
        }
        Ok(String::from_utf8_lossy(&self.s[st..self.p]).into_owned())
    }
    fn word(&mut self) -> Option<String> {
        let save = self.p;
        match self.ident() {
            Ok(w) => Some(w),
            Err(_) => {
                self.p = save;
                None
            }
        }
    }
    /// canonical text of a type
    pub fn type_(&mut self) -> R<String> {
        self.ws();
        let mut name = String::new();
        while self.peek() == b'[' {
            while self.peek() != b']' {
                name.push(self.peek() as char);
                self.p += 1;
                if self.p >= self.s.len() {
                    return self.err("]");
                }
            }
            name.push(']');
            self.p += 1;
        }
        name += &self.ident()?;
        if self.eat("<") {
            let mut args = vec![];
            loop {
                let mut a = self.type_()?;
                if self.eat(";") {
                    self.ws();
                    a += "; ";
                    while self.peek().is_ascii_digit() {
                        a.push(self.peek() as char);
                        self.p += 1;
                    }
                }
                args.push(a);
                if !self.eat(",") {
                    break;
                }
            }
            self.need(">")?;
            name = format!("{name}<{}>", args.join(", "));
        }
        Ok(name)
    }
    fn string(&mut self) -> R<String> {
        self.need("\"")?;
        let mut out = vec![];
        loop {
            let c = self.peek();
            if self.p >= self.s.len() {
                return self.err("unterminated string");
            }
            self.p += 1;
            match c {
                b'"' => break,
                b'\\' => {
                    let e = self.peek();
                    self.p += 1;
                    match e {
                        b'n' => out.push(b'\n'),
                        b'r' => out.push(b'\r'),
                        b't' => out.push(b'\t'),
                        b'\'' => out.push(b'\''),
                        b'"' => out.push(b'"'),
                        b'\\' => out.push(b'\\'),
                        b'u' => {
                            if self.peek() != b'{' {
                                return self.err("{");
                            }
                            self.p += 1;
                            let st = self.p;
                            while self.peek().is_ascii_hexdigit() {
                                self.p += 1;
                            }
                            let h = std::str::from_utf8(&self.s[st..self.p]).unwrap();
                            let ch = u32::from_str_radix(h, 16).ok().and_then(char::from_u32);
                            if self.peek() != b'}' || h.len() > 6 {
                                return self.err("}");
                            }
                            self.p += 1;
                            let Some(ch) = ch else { return self.err("character") };
                            let mut buf = [0; 4];
                            out.extend(ch.encode_utf8(&mut buf).bytes());
                        }
                        _ => return self.err("escape"),
                    }
                }
                c => out.push(c),
            }
        }
        String::from_utf8(out).or_else(|_| self.err("utf-8"))
    }
    fn number(&mut self) -> R<K> {
        self.ws();
        let st = self.p;
        if self.peek() == b'-' {
            self.p += 1;
        }
        while self.peek().is_ascii_digit() || self.peek() == b'.' {
            self.p += 1;
        }
        let t = std::str::from_utf8(&self.s[st..self.p]).unwrap().to_owned();
        if t.is_empty() || t == "-" {
            return self.err("number");
        }
        let mut uns = false;
        if self.peek() == b'u' {
            uns = true;
            self.p += 1;
        }
        let mut post = 0;
        if matches!(self.peek(), b'l' | b'd') {
            post = self.peek();
            self.p += 1;
        }
        let bad = |m: &str| format!("literal `{t}` is not a valid {m}");
        if post == b'd' {
            return t.parse::<f64>().map(|v| K::F64(v.to_bits())).map_err(|_| bad("double"));
        }
        if t.contains('.') {
            return t.parse::<f32>().map(|v| K::F32(v.to_bits())).map_err(|_| bad("float"));
        }
        match (uns, post) {
            (true, b'l') => t.parse::<u64>().map(|v| K::Int("ul", v.into())).map_err(|_| bad("Uint64")),
            (true, _) => t.parse::<u32>().map(|v| K::Int("u", v.into())).map_err(|_| bad("Uint32")),
            (false, b'l') => t.parse::<i64>().map(|v| K::Int("l", v.into())).map_err(|_| bad("Int64")),
            _ => t.parse::<i32>().map(|v| K::Int("", v.into())).map_err(|_| bad("Int32")),
        }
    }
    fn args(&mut self, close: &str) -> R<Vec<X>> {
        let mut v = vec![];
        if self.eat(close) {
            return Ok(v);
        }
        loop {
            v.push(self.expr()?);
            if self.eat(",") {
                continue;
            }
            self.need(close)?;
            return Ok(v);
        }
    }
    pub fn expr(&mut self) -> R<X> {
        let l = self.bin(9)?;
        self.ws();
        if self.eat("?") {
            let a = self.expr()?;
            self.need(":")?;
            let c = self.expr()?;
            return Ok(X::Cond(Box::new(l), Box::new(a), Box::new(c)));
        }
        for (_, sym, lv) in BINOPS {
            if lv == 10 && self.eat(sym) {
                let r = self.expr()?;
                return Ok(X::Bin(sym, Box::new(l), Box::new(r)));
            }
        }
        if self.looking("=") && !self.looking("==") {
            self.need("=")?;
            let r = self.expr()?;
            return Ok(X::Assign(Box::new(l), Box::new(r)));
        }
        Ok(l)
    }
    fn op_at(&mut self, lv: u8) -> Option<&'static str> {
        self.ws();
        let rest = &self.s[self.p..];
        // longest match first
        let mut best: Option<(&'static str, u8)> = None;
        for (_, sym, l) in BINOPS {
            if rest.starts_with(sym.as_bytes()) && best.map_or(true, |(s, _)| s.len() < sym.len()) {
                best = Some((sym, l));
            }
        }
        match best {
            Some((s, l)) if l == lv => Some(s),
            _ => None,
        }
    }
    fn bin(&mut self, lv: u8) -> R<X> {
        if lv == 0 {
            return self.unary();
        }
        let mut l = self.bin(lv - 1)?;
        while let Some(op) = self.op_at(lv) {
            self.p += op.len();
            let r = self.bin(lv - 1)?;
            l = X::Bin(op, Box::new(l), Box::new(r));
        }
        Ok(l)
    }
    fn unary(&mut self) -> R<X> {
        self.ws();
        let c = self.peek();
        if matches!(c, b'!' | b'~' | b'-') {
            let save = self.p;
            self.p += 1;
            match self.unary() {
                Ok(e) => return Ok(X::Un(c as char, Box::new(e))),
                Err(e) => {
                    // a literal such as the smallest integer
                    self.p = save;
                    if c == b'-' {
                        let k = self.number().map_err(|_| e)?;
                        return self.postfix(X::Const(k));
                    }
                    return Err(e);
                }
            }
        }
        let a = self.atom()?;
        self.postfix(a)
    }
    fn postfix(&mut self, mut e: X) -> R<X> {
        loop {
            self.ws();
            if self.eat("[") {
                let i = self.expr()?;
                self.need("]")?;
                e = X::Elem(Box::new(e), Box::new(i));
            } else if self.eat(".") {
                let n = self.ident()?;
                if self.eat("(") {
                    let a = self.args(")")?;
                    e = X::Method(Box::new(e), n, a);
                } else {
                    e = X::Member(Box::new(e), n);
                }
            } else if self.kw("as") {
                let t = self.type_()?;
                e = X::Cast(t, Box::new(e));
            } else {
                return Ok(e);
            }
        }
    }
    fn atom(&mut self) -> R<X> {
        self.ws();
        if self.kw("new") {
            let n = self.ident()?;
            self.need("(")?;
            return Ok(X::New(n, self.args(")")?));
        }
        if self.eat("[") {
            return Ok(X::ArrayLit(self.args("]")?));
        }
        if self.eat("(") {
            let e = self.expr()?;
            self.need(")")?;
            return Ok(e);
        }
        for (w, x) in [("null", X::Null), ("this", X::This), ("super", X::Super)] {
            if self.kw(w) {
                return Ok(x);
            }
        }
        if self.kw("true") {
            return Ok(X::Const(K::Bool(true)));
        }
        if self.kw("false") {
            return Ok(X::Const(K::Bool(false)));
        }
        let c = self.peek();
        if c.is_ascii_digit() {
            return Ok(X::Const(self.number()?));
        }
        if c == b'"' {
            return Ok(X::Const(K::Str(' ', self.string()?)));
        }
        if matches!(c, b'n' | b'r' | b't') && self.s.get(self.p + 1) == Some(&b'"') {
            self.p += 1;
            return Ok(X::Const(K::Str(c as char, self.string()?)));
        }
        let n = self.ident()?;
        let mut targs = vec![];
        if (self.generic)(&n) && self.eat("<") {
            loop {
                targs.push(self.type_()?);
                if !self.eat(",") {
                    break;
                }
            }
            self.need(">")?;
        }
        if self.eat("(") {
            let a = self.args(")")?;
            return Ok(X::Call(n, targs, a));
        }
        if !targs.is_empty() {
            return self.err("(");
        }
        Ok(X::Id(n))
    }
    pub fn block(&mut self) -> R<Vec<X>> {
        let mut v = vec![];
        loop {
            self.ws();
            if self.eof() || self.peek() == b'}' {
                return Ok(v);
            }
            let save = self.p;
            if self.kw("case") || (self.kw("default") && self.looking(":")) {
                self.p = save;
                return Ok(v);
            }
            self.p = save;
            v.push(self.stmt()?);
        }
    }
    fn braces(&mut self) -> R<Vec<X>> {
        self.need("{")?;
        let v = self.block()?;
        self.need("}")?;
        Ok(v)
    }
    fn stmt(&mut self) -> R<X> {
        if self.kw("while") {
            let c = self.expr()?;
            let v = self.braces()?;
            self.eat(";");
            return Ok(X::While(Box::new(c), v));
        }
        if self.kw("if") {
            let c = self.expr()?;
            let t = self.braces()?;
            let mut f = None;
            if self.kw("else") {
                if self.looking("{") {
                    f = Some(self.braces()?);
                } else {
                    f = Some(vec![self.stmt()?]);
                }
            }
            self.eat(";");
            return Ok(X::If(Box::new(c), t, f));
        }
        if self.kw("switch") {
            let e = self.expr()?;
            self.need("{")?;
            let mut cs = vec![];
            while self.kw("case") {
                let m = self.expr()?;
                self.need(":")?;
                cs.push((m, self.block()?));
            }
            let mut d = None;
            if self.kw("default") {
                self.need(":")?;
                d = Some(self.block()?);
            }
            self.need("}")?;
            self.eat(";");
            return Ok(X::Switch(Box::new(e), cs, d));
        }
        if self.kw("return") {
            if self.eat(";") {
                return Ok(X::Return(None));
            }
            let e = self.expr()?;
            self.need(";")?;
            return Ok(X::Return(Some(Box::new(e))));
        }
        if self.kw("break") {
            self.need(";")?;
            return Ok(X::Break);
        }
        if self.kw("goto") {
            let K::Int("", v) = self.number()? else { return self.err("goto target") };
            self.need(";")?;
            return Ok(X::Goto(v as u16));
        }
        if self.kw("let") {
            let n = self.ident()?;
            let mut t = None;
            if self.eat(":") {
                t = Some(self.type_()?);
            }
            let mut v = None;
            if self.eat("=") {
                v = Some(Box::new(self.expr()?));
            }
            self.need(";")?;
            return Ok(X::Declare(n, t, v));
        }
        let e = self.expr()?;
        self.need(";")?;
        Ok(e)
    }

    // ---- declarations
    pub fn decls(&mut self) -> R<Vec<Decl>> {
        let mut v = vec![];
        loop {
            self.ws();
            if self.eof() || self.peek() == b'}' {
                return Ok(v);
            }
            v.push(self.decl()?);
        }
    }
    pub fn decl(&mut self) -> R<Decl> {
        let mut d = Decl::default();
        while self.eat("@") {
            let n = self.ident()?;
            self.need("(")?;
            if n == "runtimeProperty" {
                let a = self.string()?;
                self.need(",")?;
                let b = self.string()?;
                self.need(")")?;
                d.annotations.push((n, format!("{a:?},{b:?}")));
                continue;
            }
            let st = self.p;
            // raw text up to the closing parenthesis at the end of the line
            while self.p < self.s.len() && self.peek() != b'\n' {
                self.p += 1;
            }
            let raw = String::from_utf8_lossy(&self.s[st..self.p]).into_owned();
            let Some(raw) = raw.strip_suffix(')') else { return self.err(")") };
            d.annotations.push((n, raw.to_owned()));
        }
        loop {
            let Some(w) = self.word() else { return self.err("declaration") };
            match w.as_str() {
                "class" | "struct" | "enum" | "func" | "let" => {
                    d.keyword = w;
                    break;
                }
                _ => d.quals.push(w),
            }
        }
        d.name = self.ident()?;
        match d.keyword.as_str() {
            "class" | "struct" => {
                if self.kw("extends") {
                    d.base = Some(self.ident()?);
                }
                self.need("{")?;
                d.members = self.decls()?;
                self.need("}")?;
            }
            "enum" => {
                self.need("{")?;
                loop {
                    if self.eat("}") {
                        break;
                    }
                    let n = self.ident()?;
                    self.need("=")?;
                    self.ws();
                    let st = self.p;
                    if self.peek() == b'-' {
                        self.p += 1;
                    }
                    while self.peek().is_ascii_digit() {
                        self.p += 1;
                    }
                    let v = String::from_utf8_lossy(&self.s[st..self.p]).into_owned();
                    d.members.push(Decl { name: n, value: Some(v), ..Decl::default() });
                    if !self.eat(",") {
                        self.need("}")?;
                        break;
                    }
                }
            }
            "func" => {
                self.need("(")?;
                if !self.eat(")") {
                    loop {
                        let mut words = vec![self.ident()?];
                        while !self.eat(":") {
                            words.push(self.ident()?);
                        }
                        let t = self.type_()?;
                        let n = words.pop().unwrap();
                        d.params.push((words, n, t));
                        if !self.eat(",") {
                            self.need(")")?;
                            break;
                        }
                    }
                }
                if self.eat("->") {
                    d.ret = Some(self.type_()?);
                }
                if self.looking("{") {
                    d.body = Some(self.braces()?);
                    self.eat(";");
                } else {
                    self.need(";")?;
                }
            }
            _ => {
                self.need(":")?;
                d.type_ = Some(self.type_()?);
                self.need(";")?;
            }
        }
        Ok(d)
    }
}

/// First difference between two trees, for messages.
pub fn diff(a: &[X], b: &[X]) -> Option<String> {
    if a == b {
        return None;
    }
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        if x != y {
            return Some(format!("statement {i}: got {x:?}, expected {y:?}"));
        }
    }
    Some(format!("got {} statements, expected {}", a.len(), b.len()))
}
