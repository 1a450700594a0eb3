//! Feeding the compiler anything at all and judging how it answers.
use std::path::PathBuf;

use redscript::ast::Span;
use redscript::bundle::ScriptBundle;
use redscript_compiler::diagnostics::Diagnostic;
use redscript_compiler::error::Error;
use redscript_compiler::source_map::Files;
use redscript_compiler::unit::CompilationUnit;
use vmon::obs::{load, save};
use vmon::report::Obs;
use vmon::rng::Rng;

pub fn files(texts: &[(String, String)]) -> Files {
    let mut files = Files::new();
    for (p, t) in texts {
        files.add(PathBuf::from(p), t.clone());
    }
    files
}

/// the file, line and column (from zero) a position stands for, computed from the texts alone
pub fn locate(texts: &[(String, String)], pos: usize) -> Option<(usize, usize, usize)> {
    let mut low = 0;
    for (i, (_, t)) in texts.iter().enumerate() {
        if pos <= low + t.len() {
            let at = pos.checked_sub(low)?;
            let before = t.get(..at)?;
            let line = before.matches('\n').count();
            let col = before.rsplit('\n').next().unwrap_or("").chars().count();
            return Some((i, line, col));
        }
        low += t.len() + 1;
    }
    None
}

/// a diagnostic has to point at a stretch of one of the files, and its text has to show it
pub fn located(d: &Diagnostic, texts: &[(String, String)], files: &Files) -> Result<(), String> {
    let what = format!("{d}");
    let Span { low, high } = d.span();
    let (low, high) = (usize::from(low), usize::from(high));
    if low > high {
        return Err(format!("diagnostic \"{what}\" ends before it starts: {low}..{high}"));
    }
    let (f, line, col) = locate(texts, low).ok_or_else(|| format!("diagnostic \"{what}\" is at {low}..{high}, which is in no file"))?;
    let (g, _, _) = locate(texts, high).ok_or_else(|| format!("diagnostic \"{what}\" is at {low}..{high}, which ends in no file"))?;
    if f != g {
        return Err(format!("diagnostic \"{what}\" is at {low}..{high}, which starts in file {f} and ends in file {g}"));
    }
    let mut s = String::new();
    d.display(files, &mut s).map_err(|e| format!("diagnostic \"{what}\" cannot be shown: {e}"))?;
    let head = format!("At {}:{}:{}:\n", texts[f].0, line + 1, col + 1);
    let text = texts[f].1.split('\n').nth(line).unwrap_or("").trim_end().replace('\t', " ");
    let at = s.find(&head).ok_or_else(|| format!("diagnostic is at {head:?} but shown as {s:?}"))?;
    let rest = &s[at + head.len()..];
    let rest = rest.strip_prefix(&text).and_then(|r| r.strip_prefix('\n')).ok_or_else(|| format!("diagnostic in the line {text:?} is shown as {s:?}"))?;
    let mark = rest.lines().next().unwrap_or("");
    if mark.find('^') != Some(col) || mark.trim_start().trim_start_matches('^') != "" {
        return Err(format!("diagnostic in column {col} is marked as {mark:?} in {s:?}"));
    }
    if rest.lines().nth(1).map_or(true, str::is_empty) {
        return Err(format!("diagnostic without a message: {s:?}"));
    }
    Ok(())
}

pub fn refusal(e: Error, texts: &[(String, String)], files: &Files, obs: &mut Obs) -> Result<(), String> {
    match Diagnostic::from_error(e) {
        Ok(d) => {
            obs.hit("refused at once");
            obs.seen("causes", vmon::rng::hash_bytes(cause(&d).as_bytes()));
            located(&d, texts, files)
        }
        Err(e) => Err(format!("the program is refused without saying where: {e:?}")),
    }
}

/// what kind of diagnostic it is, without what is specific to the program
pub fn cause(d: &Diagnostic) -> String {
    let s = format!("{d:?}");
    s.split(['(', '"']).take(2).collect::<Vec<_>>().join("(").chars().take_while(|c| !c.is_ascii_digit()).collect()
}

pub fn probe(base: &[u8], texts: &[(String, String)], obs: &mut Obs) -> Result<bool, String> {
    let files = files(texts);
    let mut clean = false;
    for mode in 0..3 {
        let mut bundle: ScriptBundle = load(base).map_err(|e| format!("base: {e}"))?;
        let unit = CompilationUnit::new_with_defaults(&mut bundle.pool).map_err(|e| format!("HARNESS: {e}"))?;
        if mode == 0 {
            match unit.compile_files(&files) {
                Err(e) => refusal(e, texts, &files, obs)?,
                Ok(out) => {
                    for d in out.diagnostics() {
                        obs.seen("causes", vmon::rng::hash_bytes(cause(d).as_bytes()));
                        located(d, texts, &files)?;
                    }
                    obs.add("diagnostics", out.diagnostics().len() as u64);
                    if out.diagnostics().iter().any(Diagnostic::is_fatal) {
                        obs.hit("refused with diagnostics");
                    } else {
                        obs.hit("accepted");
                        clean = true;
                        let saved = save(&bundle).map_err(|e| format!("an accepted program cannot be saved: {e}"))?;
                        load(&saved).map_err(|e| format!("an accepted program cannot be loaded back: {e}"))?;
                    }
                }
            }
        } else {
            match unit.typecheck_files(&files, mode == 1, mode == 2) {
                Err(e) => refusal(e, texts, &files, obs)?,
                Ok(out) => {
                    for d in out.diagnostics() {
                        located(d, texts, &files)?;
                    }
                }
            }
        }
    }
    Ok(clean)
}

const WORDS: &[&str] = &[
    "func", "class", "struct", "enum", "let", "if", "else", "while", "for", "in", "switch", "case", "default", "break", "return", "new",
    "null", "true", "false", "this", "super", "extends", "import", "module", "public", "private", "protected", "static", "final", "native",
    "abstract", "const", "cb", "persistent", "out", "opt", "quest", "exec", "as", "callback", "wref", "script_ref", "array", "ref",
    "@wrapMethod(A)", "@addMethod(A)", "@addField(A)", "@replaceMethod(A)", "@replaceGlobal()", "@if(ModuleExists(\"M\"))", "@runtimeProperty(\"a\", \"b\")",
    "@wrapMethod", "@if(true)", "@addMethod(Nope)", "@mixedRef", "@neverRef",
    "A", "B", "x", "y", "f", "F", "M", "wrappedMethod", "Main", "IScriptable", "Int32", "String", "Bool", "Float", "Void", "CName", "Uint8", "array<Int32>",
    "ref<A>", "wref<A>", "script_ref<String>", "[Int32]", "[Int32; 3]", "[A]", "Cast", "ArraySize", "ArrayPush", "Equals", "IsDefined", "ToString", "AsRef", "Deref",
    "FromVariant", "ToVariant", "EnumInt", "IntEnum", "ArrayInsert", "NameOf", "Rnd", "E", "E.a", "V2",
    "1", "0", "-1", "1.5", "1l", "1u", "1ul", "1d", "2147483647", "2147483648", "99999999999999999999", "0x10", "1e5", ".5", "1.",
    "\"s\"", "n\"s\"", "t\"s\"", "r\"s\"", "s\"a\\(x)b\"", "s\"\\(\"", "\"\\u{48}\"", "\"\\u{D800}\"", "\"\\u{FFFFFFFF}\"", "\"\\q\"", "\"\\u{}\"", "\"", "\"é\"", "'", "\\",
    "(", ")", "{", "}", "[", "]", "<", ">", ";", ":", ",", ".", "->", "=", "==", "!=", "<=", ">=", "+", "-", "*", "/", "%", "&&", "||", "!", "&", "|", "^", "~",
    "?", "+=", "-=", "*=", "/=", "%=", "|=", "&=", "//", "/*", "*/", "// é\n", "/* */", "\n", "\t", " ", "\r\n", "\u{feff}", "\u{1F600}", "_", "#", "$", "@", "`",
];

pub fn soup(r: &mut Rng) -> String {
    let n = 1 + r.below(60);
    let mut s = String::new();
    if r.below(3) > 0 {
        s.push_str(*r.pick(&["func F() -> Void {", "class A extends B {", "func F(x: Int32, y: ref<A>) -> Int32 { return ", "module M\n", "enum E {", "public static func F() {", "@wrapMethod(A) func f() -> Int32 {"]));
    }
    for _ in 0..n {
        s.push_str(*r.pick(WORDS));
        if r.below(5) > 0 {
            s.push(' ');
        }
    }
    s
}

/// expressions and statements in which anything can appear anywhere, but which mostly parse
pub struct Loose<'a> {
    pub r: &'a mut Rng,
}

impl Loose<'_> {
    fn pick(&mut self, xs: &[&str]) -> String {
        (*self.r.pick(xs)).to_owned()
    }

    pub fn name(&mut self) -> String {
        self.pick(&["x", "y", "z", "a", "b", "w", "s", "f", "g", "h", "i", "j", "A", "B", "C", "E", "V", "M.f", "M", "u", "v", "st", "arr", "objs", "this", "undefined", "o", "k"])
    }

    pub fn ty(&mut self, d: usize) -> String {
        if d == 0 || self.r.below(3) > 0 {
            return self.pick(&["Int32", "Int32", "String", "Bool", "Float", "A", "B", "C", "V", "E", "CName", "Variant", "Void", "Uint8", "Int64", "Nope", "K", "IScriptable", "Double", "ResRef", "TweakDBID"]);
        }
        let t = self.ty(d - 1);
        match self.r.below(7) {
            0 => format!("array<{t}>"),
            1 => format!("ref<{t}>"),
            2 => format!("wref<{t}>"),
            3 => format!("script_ref<{t}>"),
            4 => format!("array<{t}>"),
            5 if self.r.below(8) == 0 => format!("[{t}; {}]", self.r.below(5)),
            _ => format!("{}<{t}>", self.pick(&["array", "A", "Foo", "Int32", "script_ref"])),
        }
    }

    pub fn expr(&mut self, d: usize) -> String {
        if d == 0 || self.r.below(5) == 0 {
            return match self.r.below(3) {
                0 | 1 => self.name(),
                _ => self.pick(&[
                    "0", "1", "2", "255", "-1", "3.5", "1l", "7u", "1ul", "2.0d", "true", "false", "null", "this", "super", "\"s\"", "n\"n\"", "t\"T.t\"", "r\"r.r\"",
                    "s\"\"", "s\"q\\(x)\"", "E.a", "E.zz", "[]", "new A()", "new V(1, 2)", "new Nope()", "new E()", "new Abs()", "new B(1)", "wrappedMethod()",
                ]),
            };
        }
        let e = |l: &mut Self| l.expr(d - 1);
        match self.r.below(17) {
            0 | 1 => {
                let op = self.pick(&["+", "-", "*", "/", "%", "==", "!=", "<", "<=", ">", ">=", "&&", "||", "&", "|", "^"]);
                format!("({} {op} {})", e(self), e(self))
            }
            2 => format!("{}{}", self.pick(&["-", "!", "~"]), e(self)),
            3 | 4 => {
                let f = self.pick(&[
                    "f", "g", "h", "Cast", "Cast<Int32>", "Cast<Float>", "ArraySize", "ArrayPush", "ArrayPop", "ArrayInsert", "ArrayErase", "ArrayContains", "ArrayCount",
                    "ArrayLast", "ArrayFindFirst", "ArrayResize", "ArrayClear", "ArrayRemove", "ArrayGrow", "Equals", "NotEquals", "IsDefined", "ToString", "AsRef", "Deref", "FromVariant",
                    "ToVariant", "EnumInt", "IntEnum", "IntEnum<E>", "FromVariant<Int32>", "FromVariant<A>", "RefToWeakRef", "WeakRefToRef", "IsPrototype", "ArraySort", "M.f", "A", "undefined", "OperatorAdd",
                    "OperatorAssignAdd", "wrappedMethod", "OperatorLogicAnd", "Cast<Nope>", "IntEnum<Int32>", "Trace", "many",
                ]);
                format!("{f}({})", self.args(d))
            }
            5 => format!("({}).{}({})", e(self), self.pick(&["m", "n", "st", "p", "f", "nope", "vm"]), self.args(d)),
            6 => format!("({}).{}", e(self), self.pick(&["i", "s", "a", "next", "nope", "x", "y", "m"])),
            7 => format!("({})[{}]", e(self), e(self)),
            8 => format!("[{}]", self.args(d)),
            9 => format!("({} ? {} : {})", e(self), e(self), e(self)),
            10 => format!("({} as {})", e(self), self.ty(1)),
            11 => format!("new {}({})", self.pick(&["A", "B", "V", "C", "Abs", "W", "Nope", "Int32", "E"]), self.args(d)),
            12 => format!("s\"a\\({})b\\({})\"", e(self), e(self)),
            13 => format!("({})", e(self)),
            14 => format!("{}.st({})", self.pick(&["A", "B", "V", "super", "this", "E", "M"]), self.args(d)),
            15 => format!("[{}]", e(self)),
            _ => format!("super.{}({})", self.pick(&["m", "n", "nope"]), self.args(d)),
        }
    }

    fn deep(&mut self) -> String {
        let d = *self.r.pick(&[0, 1, 1, 2, 3]);
        self.expr(d)
    }

    fn args(&mut self, d: usize) -> String {
        let n = *self.r.pick(&[0, 1, 1, 1, 2, 2, 3, 4]);
        (0..n).map(|_| self.expr(d - 1)).collect::<Vec<_>>().join(", ")
    }

    pub fn stmts(&mut self, d: usize) -> String {
        let n = self.r.below(4);
        (0..n).map(|_| self.stmt(d)).collect::<Vec<_>>().join("\n")
    }

    pub fn stmt(&mut self, d: usize) -> String {
        let k = if d == 0 { self.r.below(7) } else { self.r.below(14) };
        match k {
            0 | 1 => format!("let {}{}{};", self.pick(&["x", "y", "z", "k", "i", "v2", "this", "A"]), {
                if self.r.bool() { format!(": {}", self.ty(2)) } else { String::new() }
            }, if self.r.below(4) > 0 { format!(" = {}", self.deep()) } else { String::new() }),
            2 => format!("return{};", if self.r.bool() { format!(" {}", self.deep()) } else { String::new() }),
            3 => format!("{} {} {};", self.deep(), self.pick(&["=", "+=", "-=", "*=", "/="]), self.deep()),
            4 | 5 => format!("{};", self.deep()),
            6 => "break;".to_owned(),
            7 | 8 => {
                let mut s = format!("if {} {{\n{}\n}}", self.deep(), self.stmts(d - 1));
                while self.r.below(3) == 0 {
                    s.push_str(&format!(" else if {} {{\n{}\n}}", self.deep(), self.stmts(d - 1)));
                }
                if self.r.bool() {
                    s.push_str(&format!(" else {{\n{}\n}}", self.stmts(d - 1)));
                }
                s
            }
            9 => format!("while {} {{\n{}\n}}", self.deep(), self.stmts(d - 1)),
            10 => format!("for {} in {} {{\n{}\n}}", self.pick(&["x", "q", "i", "this"]), self.deep(), self.stmts(d - 1)),
            11 => {
                let mut s = format!("switch {} {{\n", self.deep());
                for _ in 0..self.r.below(4) {
                    s.push_str(&format!("case {}:\n{}\n", self.deep(), self.stmts(d - 1)));
                }
                if self.r.bool() {
                    s.push_str(&format!("default:\n{}\n", self.stmts(d - 1)));
                }
                s.push('}');
                s
            }
            12 => "break;".to_owned(),
            _ => format!("{};", self.deep()),
        }
    }

    fn quals(&mut self) -> String {
        let mut s = String::new();
        while self.r.below(3) == 0 {
            s.push_str(&self.pick(&["public ", "private ", "protected ", "static ", "final ", "native ", "abstract ", "const ", "cb ", "exec ", "quest ", "persistent "]));
        }
        s
    }

    fn params(&mut self) -> String {
        let n = *self.r.pick(&[0, 0, 1, 1, 2, 3]);
        (0..n).map(|i| format!("{}{}: {}", self.pick(&["", "", "", "out ", "opt ", "const "]), ["x", "y", "x", "z"][i], self.ty(2))).collect::<Vec<_>>().join(", ")
    }

    fn func(&mut self, name: &str) -> String {
        let q = self.quals();
        let p = self.params();
        let ret = if self.r.below(3) > 0 { format!(" -> {}", self.ty(2)) } else { String::new() };
        let body = match self.r.below(8) {
            0 => ";".to_owned(),
            1 => format!(" = {}", self.deep()),
            _ => format!(" {{\n{}\n{}\n}}", self.stmts(2), self.stmts(2)),
        };
        format!("{q}func {name}({p}){ret}{body}\n")
    }

    fn annotation(&mut self) -> String {
        self.pick(&[
            "@wrapMethod(A) ", "@wrapMethod(B) ", "@replaceMethod(A) ", "@addMethod(A) ", "@addMethod(B) ", "@addField(A) ", "@replaceGlobal() ", "@wrapMethod(Nope) ", "@addMethod(V) ", "@addField(E) ",
            "@if(ModuleExists(\"M\")) ", "@if(!ModuleExists(\"M\")) ", "@if(ModuleExists(1)) ", "@if(x) ", "@if(true && ModuleExists(\"N\")) ", "@wrapMethod() ", "@wrapMethod(A, B) ", "@wrapMethod(1) ", "@if() ",
            "@runtimeProperty(\"a\", \"b\") ", "@runtimeProperty(1) ", "@addMethod(A) @wrapMethod(A) ", "@replaceMethod(C) ", "@replaceMethod(E) ", "@addField(V) ",
        ])
    }

    pub fn definition(&mut self) -> String {
        let mut s = String::new();
        while self.r.below(4) == 0 {
            let a = self.annotation();
            s.push_str(&a);
        }
        match self.r.below(8) {
            0 | 1 | 2 => {
                let n = self.pick(&["f", "g", "h", "m", "n", "st", "Main", "p", "OperatorAdd", "OperatorMultiply", "many"]);
                s.push_str(&self.func(&n));
            }
            3 | 4 => {
                let n = self.pick(&["A", "B", "C", "D", "K", "Abs", "W", "Int32", "IScriptable", "A"]);
                let ext = self.pick(&["", "", " extends A", " extends B", " extends C", " extends D", " extends E", " extends V", " extends Nope", " extends IScriptable", " extends K"]);
                let q = self.quals();
                let kw = self.pick(&["class", "class", "class", "struct"]);
                s.push_str(&format!("{q}{kw} {n}{} {{\n", if kw == "struct" { "" } else { &ext }));
                for _ in 0..self.r.below(6) {
                    if self.r.bool() {
                        let n = self.pick(&["m", "n", "st", "p"]);
                        if self.r.below(6) == 0 {
                            let a = self.annotation();
                            s.push_str(&a);
                        }
                        s.push_str(&self.func(&n));
                    } else {
                        let f = self.field();
                        s.push_str(&f);
                    }
                }
                s.push_str("}\n");
            }
            5 => {
                let n = self.pick(&["E", "E", "Q", "A"]);
                s.push_str(&format!("enum {n} {{ a = {}, b = {}, {} }}\n", self.pick(&["0", "1", "-1", "2147483647"]), self.pick(&["0", "1", "-5", "255", "70000"]), self.pick(&["", "c = 9", "a = 2"])));
            }
            6 => {
                let f = self.field();
                s.push_str(&f);
            }
            _ => s.push_str(&self.pick(&[
                "struct V { let x: Int32; let y: Float; public static func st() -> V { return new V(1, 1.0); } }\n",
                "class A { let i: Int32; let s: String; let a: array<Int32>; let next: wref<A>; func m(x: Int32) -> Int32 { return x; } static func st(opt x: Int32) -> Int32 { return x; } }\n",
                "class B extends A { func m(x: Int32) -> Int32 { return super.m(x); } cb func n() -> Bool { return true; } }\n",
                "abstract class Abs extends A { func p() -> Void; }\n",
                "enum E { a = 0, b = 1 }\n",
                "native func many(x: Int32, opt y: Int32) -> Int32;\n",
                "func f(x: Int32) -> Int32 { return x; }\nfunc f(x: String) -> Int32 { return 1; }\n",
                "func g(x: ref<A>) -> ref<A> = x;\n",
            ])),
        }
        s
    }

    fn field(&mut self) -> String {
        let q = self.quals();
        let n = self.pick(&["i", "s", "a", "next", "o", "x", "w"]);
        let t = self.ty(2);
        let d = if self.r.below(4) == 0 { format!(" = {}", self.deep()) } else { String::new() };
        format!("{q}let {n}: {t}{d};\n")
    }

    /// one function that mostly gets past the parser
    pub fn function(&mut self) -> String {
        let n = *self.r.pick(&[1, 1, 1, 2, 3]);
        let body: String = (0..n).map(|_| self.stmt(2) + "\n").collect();
        format!("func T(a: ref<A>, b: wref<B>, x: Int32, s: String, v: V, e: E, arr: array<Int32>, objs: array<ref<A>>, u: Variant) -> Int32 {{\n{body}\nreturn 0;\n}}")
    }

    pub fn file(&mut self) -> String {
        let mut s = String::new();
        if self.r.below(3) == 0 {
            s.push_str(&self.pick(&["module M\n", "module N\n", "module M.K\n", "module M\nimport N.*\n", "module A\n"]));
        }
        while self.r.below(3) == 0 {
            s.push_str(&self.pick(&["import M.*\n", "import N.A\n", "import M.{A, f}\n", "import Nope.*\n", "import M.f\n", "import M.K.*\n", "import A\n", "@if(ModuleExists(\"M\"))\nimport M.*\n"]));
        }
        for _ in 0..1 + self.r.below(8) {
            let d = self.definition();
            s.push_str(&d);
        }
        s
    }
}

/// splits a text into tokens such that joining them gives it back
pub fn tokens(s: &str) -> Vec<&str> {
    let mut out = vec![];
    let mut start = 0;
    let b: Vec<(usize, char)> = s.char_indices().collect();
    let mut i = 0;
    let word = |c: char| c.is_alphanumeric() || c == '_';
    while i < b.len() {
        let mut j = i + 1;
        if word(b[i].1) {
            while j < b.len() && word(b[j].1) {
                j += 1;
            }
        }
        let end = b.get(j).map_or(s.len(), |x| x.0);
        out.push(&s[start..end]);
        start = end;
        i = j;
    }
    out
}

pub fn mutate(texts: &mut [(String, String)], r: &mut Rng) {
    let pool: Vec<String> = texts.iter().flat_map(|t| tokens(&t.1).into_iter().map(str::to_owned)).collect();
    for _ in 0..1 + r.below(4) {
        let k = r.below(texts.len());
        let t = &texts[k].1;
        if t.is_empty() {
            continue;
        }
        let mut toks: Vec<String> = tokens(t).into_iter().map(str::to_owned).collect();
        let i = r.below(toks.len());
        match r.below(8) {
            0 => {
                toks.remove(i);
            }
            1 => toks[i] = r.pick(&pool).clone(),
            2 => toks[i] = (*r.pick(WORDS)).to_owned(),
            3 => toks.insert(i, (*r.pick(WORDS)).to_owned()),
            4 => {
                let j = r.below(toks.len());
                toks.swap(i, j);
            }
            5 => {
                let j = i + r.below(12.min(toks.len() - i));
                let cut: Vec<_> = toks.drain(i..j).collect();
                if r.bool() {
                    let at = r.below(toks.len() + 1);
                    toks.splice(at..at, cut);
                }
            }
            6 => toks.truncate(i),
            _ => {
                // replace a word by another word
                let words: Vec<usize> = (0..toks.len()).filter(|i| toks[*i].starts_with(|c: char| c.is_alphanumeric())).collect();
                if words.len() > 1 {
                    let (a, b) = (*r.pick(&words), *r.pick(&words));
                    toks[a] = toks[b].clone();
                }
            }
        }
        texts[k].1 = toks.concat();
    }
}

pub const PRELUDE: &str = "class A { let i: Int32; let s: String; let a: array<Int32>; let next: wref<A>; func m(x: Int32) -> Int32 { return x; } static func st(opt x: Int32) -> Int32 { return x; } }
class B extends A { func m(x: Int32) -> Int32 { return super.m(x); } cb func n() -> Bool { return true; } }
abstract class Abs extends A { func p() -> Int32 { return 1; } }
struct V { let x: Int32; let y: Float; }
enum E { a = 0, b = 1 }
func f(x: Int32) -> Int32 { return x; }
func f(x: String) -> Int32 { return 1; }
func g(x: ref<A>) -> ref<A> { return x; }
func nothing() -> Void {}
";

/// texts chosen because something about them is extreme
pub fn nasty() -> Vec<String> {
    let mut v: Vec<String> = [
        "", " ", "\n", "\r\n", "\u{feff}", "//", "/*", "/**/", "/* /* */ */", "module", "module M", "module M.", "import", "import M", "import M.*",
        "func", "func F", "func F()", "func F();", "native func F()", "native func F();", "func F() {", "func F() }", "class", "class A", "class A {", "struct S", "enum E {}", "enum E { }", "enum E { a }", "enum E { a = }",
        "enum E { a = 1, }", "enum E { a = 9223372036854775808 }", "enum E { a = -1 }", "enum E { a = 0, a = 0 }", "let x: Int32;", "let x: Int32 = 1;", "let x;", "@", "@if", "@if()", "@if(1) func F() {}", "@if(true) func F() {}",
        "@if(ModuleExists(M)) func F() {}", "@if(!1) func F() {}", "@if(ModuleExists(\"a\", \"b\")) func F() {}", "@if(\"a\" == \"a\") func F() {}", "@if(ModuleExists()) class X {}", "@if(nope()) import A.B\nfunc F() {}",
        "class X extends X {}", "class X extends Y {} class Y extends X {}", "class X extends Y {} class Y extends Z {} class Z extends Y {} func F(x: ref<X>) -> ref<Z> { return x; }",
        "class X extends X { func m() -> Void { super.m(); } } func F() { let x = new X(); x.m(); x.q = 1; }",
        "class X extends Y { let a: Int32; } class Y extends X { let b: Int32; } func F(x: ref<X>) -> Bool { return Equals(x.c, x); }",
        "struct S { let s: S; } func F() -> S { let s: S; return s; }", "struct S { let a: array<S>; }", "struct S extends S {}", "class X extends IScriptable { func m() -> Void { super.m(); } }",
        "class X { func m() -> Void { super.m(); } }", "class X { func m() -> Void { let x = super; } }", "func F() { let x = super; }", "func F() { let x = this; }", "func F() { super.f(); }", "class X { static func m() -> Void { this.m(); } }",
        "struct S { func m() -> Void {} }", "struct S { static func m() -> Void { let x = this; } }",
        "func F() { let x = null; }", "func F() { let x; }", "func F() { let x = F(); }", "func F() { let x: Void; }", "func F(x: Void) {}", "func F() { let x = [null]; }", "func F() { let x = []; }", "func F() { let x: array<Void>; }",
        "func F() { return null; }", "func F() -> Void { return F(); }", "func F() -> Int32 { return; }", "func F() { F() == F(); }", "func F() { null == null; }", "func F() { let x = null == null; }", "func F() { let x = true ? null : null; }", "func F() { let x = true ? F() : F(); }",
        "func F() { Equals(null, null); }", "func F() { ToVariant(null); }", "func F() { ToVariant(F()); }", "func F() { ToString(null); }", "func F() { let x = s\"\\(null)\"; }", "func F() { let x = s\"\\(F())\"; }", "func F() { IsDefined(null); }", "func F() { IsDefined(F()); }",
        "func F() { AsRef(null); }", "func F() { AsRef(1); }", "func F() { AsRef(F()); }", "func F() { Deref(null); }", "func F() { Deref(1); }", "func F() { Cast(1); }", "func F() { Cast<Int32>(1); }", "func F() { Cast<Nope>(1); }", "func F() { Cast<Float>(null); }", "func F() { Cast(); }",
        "func F() { EnumInt(1); }", "func F() { EnumInt(null); }", "func F() { IntEnum(1); }", "func F() { IntEnum<Int32>(1); }", "func F() { IntEnum<E>(null); }", "func F() { FromVariant(1); }", "func F() { let x: Int32 = FromVariant(1); }", "func F() { FromVariant<Int32>(null); }",
        "func F() { for x in null {} }", "func F() { for x in 1 {} }", "func F() { for x in [] {} }", "func F() { for x in [1] {} }", "func F() { for x in [[1]] {} }", "func F() { for x in F() {} }", "func F() { for x in undefined {} }",
        "func F() { switch null {} }", "func F() { switch F() {} }", "func F() { switch 1 {} }", "func F() { switch 1 { case null: break; } }", "func F() { switch 1 { default: } }", "func F() { switch 1 { case 1: case 2: } }", "func F() { switch 1 { case [1]: f(1); case \"a\": f(2); } }", "func F() { switch 1 { default: default: } }",
        "func F() { while null {} }", "func F() { if null {} }", "func F() { if F() {} }", "func F() { break; }", "func F() { if true { break; } }", "func F() { let x = !null; }", "func F() { let x = -null; }", "func F() { let x = null + null; }", "func F() { let x = F() + F(); }", "func F() { let x = 1 + F(); }",
        "func F() { null = null; }", "func F() { 1 = 1; }", "func F() { F() = 1; }", "func F() { let x = 1; x = null; }", "func F() { let x = 1; x = F(); }", "func F() { 1 += 1; }", "func F() { let x = (x = 1); }", "func F() { let x = x; }", "func F() { x = 1; let x: Int32; }", "func F() { this = this; }",
        "func F() { null.x; }", "func F() { null.m(); }", "func F() { 1.m(); }", "func F() { 1.x; }", "func F() { E.a.b; }", "func F() { E.zz; }", "func F() { A.i; }", "func F() { A.st(); }", "func F() { A.m(1); }", "func F() { M.x.y.z; }", "func F() { E = 1; }", "func F() { let x = E; }", "func F() { let x = A; }", "func F() { A; }", "func F() { f; }", "func F() { let x = f; }", "func F() { E(1); }", "func F() { A(); }", "func F() { V(1, 2.0); }",
        "func F() { null[0]; }", "func F() { [1][0]; }", "func F() { let a = [1]; a[null]; }", "func F() { let a = [1]; a[\"x\"]; }", "func F() { 1[1]; }", "func F() { F()[0]; }", "func F() { [][0] = 1; }", "func F() { [F()]; }", "func F() { let a = [1, \"a\"]; }", "func F() { let a = [1, null]; }", "func F() { let a: array<String> = [1]; }",
        "func F() { new A; }", "func F() { new A(1); }", "func F() { new V(); }", "func F() { new V(1); }", "func F() { new V(1, 2.0, 3); }", "func F() { new V(null, null); }", "func F() { new V(F(), F()); }", "func F() { new E(); }", "func F() { new Abs(); }", "func F() { new Nope(); }", "func F() { new Int32(); }", "func F() { new IScriptable(); }", "func F() { new array(); }",
        "func F() { 1 as A; }", "func F() { null as A; }", "func F() { F() as A; }", "func F() { new A() as Nope; }", "func F() { new A() as Int32; }", "func F() { new A() as V; }", "func F() { new A() as E; }", "func F() { let x: ref<A>; x as B; }",
        "func F() { ArraySize(null); }", "func F() { ArraySize(1); }", "func F() { ArraySize(); }", "func F() { ArraySize([1], [1]); }", "func F() { ArrayPush([1], null); }", "func F() { ArrayPush([], 1); }", "func F() { ArrayClear(F()); }", "func F() { ArrayPush(null, 1); }", "func F() { ArrayInsert(1, 2, 3); }", "func F() { let a: array<Int32>; ArrayPush(a, F()); }", "func F() { let a: [Int32; 3]; ArrayPush(a, 1); }", "func F() { let a: [Int32; 3]; a[0] = 1; for x in a {} ArraySize(a); }",
        "func F() { let a: ref<Int32>; }", "func F() { let a: wref<Int32>; a = null; }", "func F() { let a: ref<ref<A>>; }", "func F() { let a: script_ref<A>; }", "func F() { let a: array<array<array<Int32>>> = [[[1]]]; }", "func F() { let a: array; }", "func F() { let a: ref; }", "func F() { let a: array<Int32, Int32>; }", "func F() { let a: Int32<Int32>; }", "func F() { let a: [Int32; 0]; }", "func F() { let a: [Int32; 99999999999]; }", "func F() { let a: [Int32; -1]; }", "func F(a: Nope) -> Nope {}", "func F() -> array<Nope>;", "func F(a: wref<V>) -> ref<E> { return a; }",
        "@wrapMethod(A) func m(x: Int32) -> Int32 { return wrappedMethod(x); }", "@wrapMethod(A) func m(x: String) -> Int32 { return wrappedMethod(x); }", "@wrapMethod(A) func m(x: Int32) -> Int32 { return wrappedMethod(); }", "@wrapMethod(A) func m(x: Int32) -> Int32 { return wrappedMethod(null); }", "@wrapMethod(A) func m(x: Int32) -> Int32 {}", "@wrapMethod(A) func nope() -> Int32 {}", "@wrapMethod(Nope) func m(x: Int32) -> Int32 {}", "@wrapMethod(V) func m() {}", "@wrapMethod(E) func m() {}", "@wrapMethod() func m() {}", "@wrapMethod(\"A\") func m(x: Int32) -> Int32 {}", "@wrapMethod(A, B) func m(x: Int32) -> Int32 {}", "@wrapMethod(A) class X {}", "@wrapMethod(A) let x: Int32;", "@wrapMethod(A) enum X {}", "@wrapMethod(A) func m(x: Int32) -> Int32;",
        "@replaceMethod(A) func m(x: Int32) -> Int32 { return wrappedMethod(x); }", "@replaceMethod(A) func m(x: Int32) -> Int32 { return 2; }\n@replaceMethod(A) func m(x: Int32) -> Int32 { return 3; }", "@replaceMethod(A) func nope() {}", "@replaceMethod(A) static func m(x: Int32) -> Int32 { return 2; }", "@addMethod(A) func m(x: Int32) -> Int32 { return 2; }", "@addMethod(A) static func m(x: Int32) -> Int32 { return 2; }", "@addMethod(V) func m(x: Int32) -> Int32 { return 2; }", "@addMethod(E) func m(x: Int32) -> Int32 { return 2; }", "@addMethod(Nope) func m() {}", "@addMethod(A) native func q();", "@addMethod(A) func q();", "@addMethod() func q() {}",
        "@addField(A) let i: Int32;", "@addField(A) let q: Nope;", "@addField(Nope) let q: Int32;", "@addField(V) let q: Int32;", "@addField(E) let q: Int32;", "@addField(A) let q: Int32 = 1;", "@addField(A) let q: Int32 = F();", "@addField(A) let q: Void;", "@addField() let q: Int32;", "@addField(A) func q() {}", "@addField(A) let q: ref<A> = null;", "@addField(A) let q: Float = 1;", "@addField(A) let q: E = E.a;", "@addField(A) let q: E = E.zz;", "@addField(A) let q: String = 1;",
        "@replaceGlobal() func f(x: Int32) -> Int32 { return 2; }", "@replaceGlobal() func f(x: Int32) -> String { return \"\"; }", "@replaceGlobal() func nope() {}", "@replaceGlobal(A) func f(x: Int32) -> Int32 { return 2; }", "@replaceGlobal func f(x: Int32) -> Int32 { return 2; }", "@replaceGlobal() class X {}",
        "@wrapMethod(A) @if(true) func m(x: Int32) -> Int32 { return 1; }", "@wrapMethod(A) @replaceMethod(A) func m(x: Int32) -> Int32 { return 1; }", "@wrapMethod(A) @wrapMethod(B) func m(x: Int32) -> Int32 { return wrappedMethod(x); }", "@runtimeProperty(\"a\") let x: Int32;", "@runtimeProperty(1, 2) let x: Int32;", "class X { @runtimeProperty(\"a\", \"b\") let x: Int32; @runtimeProperty(1, 2) let y: Int32; @runtimeProperty() let z: Int32; }", "class X { @wrapMethod(A) func m(x: Int32) -> Int32 { return 1; } }", "class X { @if(ModuleExists(\"M\")) func m(x: Int32) -> Int32 { return nope; } }", "class X { @if(1) let m: Int32; }",
        "class A {}", "class B extends A { let i: String; }", "class X { let a: Int32; let a: Int32; func m() {} func m() {} }", "enum A { a = 0 }", "func f(x: Int32) -> Int32 { return 1; }", "func F() {} func F() {}", "class Int32 {}", "class String extends A {}", "enum Int32 { a = 0 }", "class IScriptable {}", "class F {} func F() {}", "enum F { a = 0 } class F {}", "class X extends E {}", "class X extends V {}", "class X extends Int32 {}", "class X extends Nope {}", "struct X extends V {}", "struct X extends A { let y: Int32; } func F() { new X(1); }",
        "func F() { let x = \"\\u{D800}\"; }", "func F() { let x = \"\\u{110000}\"; }", "func F() { let x = \"\\u{FFFFFFFFF}\"; }", "func F() { let x = \"\\u{}\"; }", "func F() { let x = \"\\u{1F600}\"; }", "func F() { let x = \"\\x\"; }", "func F() { let x = \"", "func F() { let x = \"\\", "func F() { let x = s\"\\(\"; }", "func F() { let x = s\"\\()\"; }", "func F() { let x = s\"\\(1\"; }", "func F() { let x = s\"\\(\"\\(1)\")\"; }", "func F() { let x = n\"\"; }", "func F() { let x = \"\u{0}\"; }",
        "func F() { let x = 2147483647; }", "func F() { let x = 2147483648; }", "func F() { let x = -2147483648; }", "func F() { let x = 4294967295u; }", "func F() { let x = 4294967296u; }", "func F() { let x = 18446744073709551615ul; }", "func F() { let x = 18446744073709551616ul; }", "func F() { let x = 9223372036854775808l; }", "func F() { let x = 1e400; }", "func F() { let x = 340282350000000000000000000000000000000000.0; }", "func F() { let x = 1.0d; let y = 1.5l; let z = 1.5u; }", "func F() { let x: Uint8 = 256; }", "func F() { let x: Int8 = -1; }", "func F() { let x: Uint64 = 1; let y: Int64 = 1; let z: Float = 1; let w: Double = 1.0; }", "func F() { let x: Uint32 = 1.5; }", "func F() { let x: Double = 1; let y: Float = 1.0d; }", "func F() { let x = 0x; }", "func F() { let x = 0xFFFFFFFFFFFFFFFFFF; }",
        "é", "func é() {}", "func F() { let é = 1; }", "// é\nfunc F() { let x = nope; } // é", "func F() { let x = \"é\" + nope; }", "/* é */ nope", "\"é\"", "func F() { let x = \"\u{1F600}\"; nope; }\u{1F600}", "class É {}",
        "func F(x: Int32, x: Int32) {}", "func F(out x: Int32) { x = 1; } func G() { F(1); F(null); F(x); let y: String; F(y); }", "func F(opt x: Int32, y: Int32) {} func G() { F(); F(1); F(1, 2); }", "func F(opt out x: Int32) {} func G() { F(); }", "func F(x: script_ref<String>) {} func G() { F(\"a\"); let s = \"a\"; F(s); F(s + s); }", "func F(const x: Int32) { x = 1; }", "func F() -> Int32 { while true {} }", "func F() -> Int32 { switch 1 { case 1: return 1; default: return 2; } }", "func F() -> Int32 { if true { return 1; } else { } }",
        "func F() -> Int32 = 1", "func F() -> Int32 = 1;", "func F() -> Int32 = null", "func F() = 1", "func F() -> Void = nothing()", "func F() { nothing().x; }", "cb func F() {}", "callback func F() {}", "class X { cb func F() {} cb func OnF(x: Int32) -> Bool { } }", "native class X {} native func F() {}", "native class X { func m(); native func n(); }", "abstract class X { func m(); }", "abstract func F();", "exec func F() {}", "persistent let x: Int32;", "static func F() {}", "public public func F() {}", "const func F() {}", "final class X {} class Y extends X {}",
        "func OperatorAdd(x: A, y: A) -> A { return x; } func F(x: A) { x + x; }", "func OperatorAdd() -> A {} func F(x: A) { x + x; }", "func Cast(x: Int32) -> A {} func F() { let a: A = Cast(1); }", "func Cast(x: Int32) -> Int32 = x func F() { Cast<Int32>(1); }", "func OperatorLogicAnd(x: Int32, y: Int32) -> Int32 { return x; } func F() { let x = 1 && 2; }", "func OperatorEqual(x: A, y: A) -> String { return \"\"; } func F(x: A) { if x == x {} }",
    ].iter().map(|s| (*s).to_owned()).collect();
    let deep = |open: &str, mid: &str, close: &str, n: usize| format!("{}{mid}{}", open.repeat(n), close.repeat(n));
    for n in [40, 100] {
        v.push(format!("func F() {{ let x = {}; }}", deep("(", "1", ")", n)));
        v.push(format!("func F() {{ let x = {}; }}", deep("!", "true", "", n)));
        v.push(format!("func F() {{ let x = {}; }}", deep("[", "1", "]", n)));
        v.push(format!("func F() {{ let x = {}; }}", deep("f(", "1", ")", n)));
        v.push(format!("func F() {{ let x: {}; }}", deep("array<", "Int32", ">", n)));
        v.push(format!("func F() {{ {} }}", deep("if true { ", "nothing();", "}", n)));
        v.push(format!("func F() {{ {} }}", deep("while true { ", "break;", "}", n)));
        v.push(format!("func F() {{ {} }}", deep("switch 1 { case 1: ", "break;", "}", n)));
        v.push(format!("func F() {{ {} }}", deep("for x in [1] { ", "nothing();", "}", n)));
        v.push(format!("func F() {{ let x = {}; }}", deep("true ? 1 : (", "1", ")", n)));
        v.push(format!("func F() {{ if true {{}} {} }}", "else if true {} ".repeat(n)));
    }
    for n in [15, 16, 17, 32, 64, 65, 200] {
        let ps: Vec<String> = (0..n).map(|i| format!("{}p{i}: Int32", if i % 2 == 1 { "opt " } else { "" })).collect();
        let qs: Vec<String> = (0..n).map(|i| format!("opt p{i}: Int32")).collect();
        let s: Vec<String> = (0..n).map(|i| format!("s{i}: script_ref<String>")).collect();
        let args = vec!["1"; n].join(", ");
        v.push(format!("func P({}) -> Int32 {{ return p0; }} func F() {{ P({args}); }}", ps.join(", ")));
        v.push(format!("func P({}) -> Int32 {{ return p0; }} func F() {{ P({args}); P(); P(1); }}", qs.join(", ")));
        v.push(format!("class K {{ func P({}) -> Int32 {{ return p0; }} }} @wrapMethod(K) func P({}) -> Int32 {{ return wrappedMethod(p0); }} func F(k: ref<K>) {{ k.P({args}); k.P(); }}", qs.join(", "), qs.join(", ")));
        v.push(format!("func P({}) -> Int32 {{ return 1; }} func F() {{ let t = \"s\"; P({}); P({}); }}", s.join(", "), vec!["ToString(1)"; n].join(", "), vec!["t"; n].join(", ")));
    }
    for n in [254, 255, 256, 257, 300, 600] {
        let fs: Vec<String> = (0..n).map(|i| format!("let f{i}: Int32;")).collect();
        v.push(format!("struct Big {{ {} }} func F() -> Big {{ return new Big({}); }}", fs.join(" "), vec!["1"; n].join(", ")));
        v.push(format!("func F() {{ let x = [{}]; }}", vec!["1"; n].join(", ")));
        v.push(format!("func F() {{ let x = {}; }}", vec!["1"; 60].join(" + ")));
        v.push(format!("func F() {{ let x = \"{}\"; }}", "y".repeat(n)));
        v.push(format!("func {}() {{}}", "y".repeat(n)));
        v.push(format!("enum Q {{ {} }}", (0..n).map(|i| format!("a{i} = {i}")).collect::<Vec<_>>().join(", ")));
        v.push(format!("func F() {{ switch 1 {{ {} }} }}", (0..n).map(|i| format!("case {i}: break;")).collect::<Vec<_>>().join(" ")));
        v.push(format!("func F() {{ {} }}", (0..n).map(|i| format!("let x{i} = {i};")).collect::<Vec<_>>().join(" ")));
    }
    for n in [900, 1306, 1307, 1308, 1309, 1310, 1311, 1312, 2700, 4500] {
        // bodies around the reach of a 16-bit jump
        v.push(format!("func F(x: Int32) {{ while x < 1 {{ {} }} }}", "f(x);".repeat(n)));
        v.push(format!("func F(x: Int32) {{ if x < 1 {{ {} }} else {{ {} }} }}", "f(x);".repeat(n), "f(2);".repeat(n)));
        v.push(format!("func F(x: Int32) {{ switch x {{ case 1: {} break; default: }} }}", "f(x);".repeat(n)));
    }
    v
}

/// functions for `filler`
pub fn filler_prelude() -> String {
    let mut s = String::from("public class Lo extends IScriptable { public let b: Bool; public let o: ref<Lo>; public let a: array<Bool>; public func V(x: Bool) -> Bool { return x; } public func O() -> ref<Lo> { return this; } public final func N(x: Bool) -> Bool { return x; } public func Two(x: Bool, y: Bool) -> ref<Lo> { return this; } }\n");
    for k in 0..70 {
        s.push_str(&format!("public func Z{k}({}) -> Bool {{ return true; }}\n", (0..k).map(|i| format!("opt a{i}: Bool")).collect::<Vec<_>>().join(", ")));
    }
    s.push_str(&format!("public func W({}) -> Bool {{ return true; }}\n", (0..48).map(|i| format!("opt a{i}: Bool")).collect::<Vec<_>>().join(", ")));
    s.push_str("public func S(x: Bool) -> Bool { return x; }\npublic func Take(x: Bool) {}\n");
    s
}

/// an expression whose code takes exactly `n` bytes, if it can be had
pub fn filler(n: usize) -> Option<String> {
    // a call of `Zk` takes 16 bytes and one for each parameter left out, `true` takes one
    match n {
        1 => Some("true".to_owned()),
        16..=85 => Some(format!("Z{}()", n - 16)),
        64..=85_000 => {
            // a call of `W` with 48 arguments of about the same size
            let rest = n - 16;
            let (each, more) = (rest / 48, rest % 48);
            let mut args = vec![];
            let mut owed = 0;
            for k in 0..48 {
                let want = each + usize::from(k < more) + owed;
                owed = 0;
                if let Some(a) = filler(want) {
                    args.push(a);
                } else if want > 0 {
                    args.push("true".to_owned());
                    owed = want - 1;
                } else {
                    return None;
                }
            }
            (owed == 0).then(|| format!("W({})", args.join(", ")))
        }
        _ => None,
    }
}

/// bodies with a jump over `E`
pub const OVER: &[&str] = &[
    "if b { Take(E); }",
    "if E { Take(b); }",
    "if E { Take(b); } else { Take(!b); }",
    "if b { Take(E); } else { Take(b); }",
    "if b { Take(b); } else { Take(E); }",
    "if b { Take(E); } else { Take(E); }",
    "while b { Take(E); }",
    "while E { Take(b); }",
    "while b { if b { break; } Take(E); }",
    "while b { Take(E); if b { break; } }",
    "let z = b ? E : b;",
    "let z = b ? b : E;",
    "let z = b ? E : E;",
    "let z = E ? b : b;",
    "let z = b && E;",
    "let z = E && b;",
    "let z = b || (b && E);",
    "let z = S(E);",
    "let z = S(S(S(E)));",
    "let z = o.V(E);",
    "let z = o.N(E);",
    "let z = o.o.V(E);",
    "let z = o.o.o.N(E);",
    "let z = o.Two(E, b).b;",
    "let z = o.Two(b, b).Two(E, b).o.b;",
    "let z = o.Two(E, E).Two(b, b).V(b);",
    "let z = o.V(o.V(o.V(E)));",
    "let z = w.V(E);",
    "let z = w.o.V(E) && b;",
    "switch b { case E: Take(b); break; default: Take(b); }",
    "switch b { case true: Take(E); break; default: Take(b); }",
    "switch b { case true: Take(E); break; case false: Take(b); break; case E: }",
    "switch b { case true: Take(b); break; default: Take(E); }",
    "switch b { case true: case E: Take(b); break; case false: Take(b); }",
    "switch E { case true: Take(b); break; default: Take(b); }",
    "switch b { case true: if b { break; } Take(E); default: Take(b); }",
    "for x in a { Take(E); }",
    "for x in a { if x { break; } Take(E); }",
    "while b { switch b { case true: Take(E); break; } }",
    "if b { while b { Take(E); } }",
    "if b { return E; }",
    "let z = Equals(E, b);",
    "let z = [b, E];",
    "if b { Take(E); Take(b); Take(E); }",
];
