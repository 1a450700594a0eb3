//! Monitors for the `redscript-decompiler` crate.
use std::collections::{BTreeMap, HashMap, HashSet};

use redscript::bundle::{ConstantPool, PoolIndex, ScriptBundle};
use redscript::definition::{AnyDefinition, Definition, Function};
use redscript_decompiler::files::FileIndex;
use redscript_decompiler::print::{write_definition, OutputMode};
use redscript_decompiler::Decompiler;
use vmon::alloc;
use vmon::faulty::{FailKind, Faulty, Plan, ERRORS};
use vmon::gen;
use vmon::obs::{self, un};
use vmon::prog::*;
use vmon::report::{guarded, Check, Obs};
use vmon::rng::{hash_bytes, Rng};
use vmon::spec::*;
use vmon::xast::{self, Decl, K, P, X};
use vmon::{ensure, ensure_eq};

#[global_allocator]
static GLOBAL: alloc::Monitor = alloc::Monitor;

fn main() {
    let id = std::env::args().nth(1).unwrap_or_default();
    match id.as_str() {
        "C10" => c10(),
        "C11" => c11(),
        "C12" => c12(),
        "C13" => c13(),
        "C14" => c14(),
        "C15" => c15(),
        _ => {
            eprintln!("unknown check {id}");
            std::process::exit(2);
        }
    }
}

const MODES: [OutputMode; 4] = [
    OutputMode::Code { verbose: false },
    OutputMode::Code { verbose: true },
    OutputMode::SyntaxTree,
    OutputMode::Bytecode,
];

fn load(b: &SBundle) -> Result<ScriptBundle, String> {
    obs::load(&b.write()).map_err(|e| format!("loading the generated cache: {e}"))
}

fn definition(pool: &ConstantPool, i: u32) -> Result<&Definition, String> {
    pool.definition(un::<Definition>(i)).map_err(|e| format!("definition {i}: {e}"))
}

fn function(def: &Definition) -> Result<&Function, String> {
    match &def.value {
        AnyDefinition::Function(f) => Ok(f),
        _ => Err("not a function".into()),
    }
}

fn decompile(pool: &ConstantPool, i: u32) -> Result<Vec<X>, String> {
    let def = definition(pool, i)?;
    let seq = Decompiler::decompiled(function(def)?, def, pool).map_err(|e| format!("decompiling: {e}"))?;
    Ok(xast::seq(&seq))
}

fn print(pool: &ConstantPool, i: u32, mode: OutputMode) -> Result<String, String> {
    let mut out = vec![];
    write_definition(&mut out, definition(pool, i)?, pool, 0, mode).map_err(|e| format!("printing: {e}"))?;
    String::from_utf8(out).map_err(|e| format!("printed text is not UTF-8: {e}"))
}

fn listing(code: &[SInstr]) -> String {
    let mut pos = 0;
    let mut s = String::new();
    for i in code {
        s += &format!("{pos}: {:?}\n", obs::mk(i));
        pos += i.virt_size();
    }
    s
}

/// Splits the declarations of locals from the statements: every local has to be declared exactly once, with its type.
fn strip_declarations(got: Vec<X>, locals: &[(u32, String, String)]) -> Result<Vec<X>, String> {
    let mut declared: BTreeMap<String, String> = BTreeMap::new();
    let mut out = vec![];
    for x in got {
        match x {
            X::Declare(n, t, v) => {
                let t = t.ok_or_else(|| format!("local {n} declared without a type"))?;
                ensure!(declared.insert(n.clone(), t).is_none(), "local {n} is declared twice");
                if let Some(v) = v {
                    out.push(X::Assign(Box::new(X::Id(n)), v));
                }
            }
            X::Seq(v) if v.is_empty() => {}
            x => out.push(x),
        }
    }
    let want: BTreeMap<String, String> = locals.iter().map(|l| (l.1.clone(), pretty_type(&l.2))).collect();
    ensure_eq!(declared, want, "declared locals");
    Ok(out)
}

fn count_ops(o: &mut Obs, ops: &[u8]) {
    o.add("instructions", ops.len() as u64);
    for op in ops {
        o.seen("opcodes", u64::from(*op));
    }
}

/// opcodes a function body can consist of
fn expression_ops() -> Vec<u64> {
    (0..OP_COUNT).filter(|o| !matches!(o, 23 | 27 | 28..=32)).map(u64::from).collect()
}

// ------------------------------------------------------------------ C10
fn c10() {
    let mut c = Check::new(
        "C10",
        "monitored",
        "every function body made of expressions and assignments decompiles to exactly the source it was assembled from",
    );
    let n = c.n(30_000, 900_000);
    let body = |kind: usize, i: usize, r: &mut Rng, o: &mut Obs| {
        let mut e = Env::world(r);
        let depth = 1 + i % 5;
        let mut g = G::new(&mut e, r);
        let mut want = vec![];
        match kind {
            0 => {
                let k = 1 + g.r.below(6);
                for _ in 0..k {
                    let x = g.simple(depth);
                    want.push(x);
                }
            }
            1 => {
                // as many statements as fit
                let room = g.r.range(8_000, 60_000) as u32;
                let mut size = 0;
                let mut at = 0;
                while size < room && want.len() < 12_000 {
                    let x = if i % 3 == 0 {
                        g.op(ASSIGN, &[]);
                        let l = g.place(0);
                        let v = if i % 6 == 0 && !want.is_empty() && g.r.chance(9, 10) {
                            g.op(NULL, &[]);
                            X::Null
                        } else {
                            g.expr(0, true)
                        };
                        X::Assign(Box::new(l), Box::new(v))
                    } else {
                        g.simple(1 + i % 2)
                    };
                    want.push(x);
                    size += g.toks[at..].iter().map(|t| if let Tok::I(i, _) = t { i.virt_size() } else { 0 }).sum::<u32>();
                    at = g.toks.len();
                }
                o.max("statements of a function", want.len() as u64);
            }
            _ => {
                // operators nested in one another on either side
                let levels = g.r.range(20, 120);
                let mut ends = vec![];
                let k = g.r.below(g.e.binops.len());
                for _ in 0..levels {
                    let idx = if g.r.bool() { g.e.binops[k].0 } else { g.r.pick(&g.e.binops).0 };
                    let l = g.label();
                    g.opl(INVOKE_STATIC, &[0, 1, idx.into(), 0], &[l]);
                    let first = g.r.bool().then(|| g.expr(1, true));
                    ends.push((idx, l, first));
                }
                let mut x = g.expr(1, true);
                for (idx, l, first) in ends.into_iter().rev() {
                    let args = match first {
                        Some(f) => vec![f, x],
                        None => {
                            let second = g.expr(1, true);
                            vec![x, second]
                        }
                    };
                    g.op(PARAM_END, &[]);
                    g.bind(l);
                    x = X::Call(g.def_name(idx), vec![], args);
                }
                want.push(x);
                o.max("operators nested", levels as u64);
            }
        }
        if g.r.bool() {
            g.op(RETURN, &[]);
            let v = g.expr(depth, true);
            want.push(X::Return(Some(Box::new(v))));
        }
        g.op(NOP, &[]);
        let code = assemble(&g.toks)?;
        if code.iter().map(SInstr::virt_size).sum::<u32>() > 65_000 {
            return Ok(());
        }
        count_ops(o, &g.ops);
        if kind == 0 {
            o.describe(format!("expected: {want:#?}\n{}", listing(&code)));
        }
        o.distinct(hash_bytes(format!("{code:?}").as_bytes()));
        let cur = e.cur;
        e.set_code(cur, code);
        let b = load(&e.b)?;
        let got = strip_declarations(decompile(&b.pool, cur)?, &e.locals)?;
        if let Some(d) = xast::diff(&got, &want) {
            return Err(d);
        }
        o.add("statements", want.len() as u64);
        o.hit(["functions", "long functions", "nested functions"][kind]);
        o.sample(|| format!("{want:?}").chars().take(2000).collect());
        Ok(())
    };
    c.run("expressions", n, |i, r, o| body(0, i, r, o));
    let n = c.n(40, 800);
    c.run("long", n, |i, r, o| body(1, i, r, o));
    let n = c.n(400, 8000);
    c.run("nested", n, |i, r, o| body(2, i, r, o));
    c.require("long functions", 20);
    c.require("nested functions", 300);
    c.require("functions", 1000);
    c.require("statements", 3000);
    c.require_all("opcodes", expression_ops());
    c.assume("bytecode of the shape the compiler and the game produce: operands in evaluation order, calls closed by ParamEnd, method calls on objects wrapped in Context");
    c.finish()
}

// ------------------------------------------------------------------ C11
struct Events;
impl Events {
    fn call(g: &mut G<'_>, f: &str) -> X {
        let k = g.r.below(1_000_000) as i32;
        let fun = g.e.funs.iter().find(|x| x.name == f).unwrap().clone();
        let l = g.label();
        g.opl(INVOKE_STATIC, &[0, 0, fun.idx.into(), 0], &[l]);
        g.op(6, &[k as u64]);
        g.op(PARAM_END, &[]);
        g.bind(l);
        X::Call(f.into(), vec![], vec![X::Const(K::Int("", k.into()))])
    }
}
impl Leaves for Events {
    fn action(g: &mut G<'_>) -> X {
        Events::call(g, "act")
    }
    fn condition(g: &mut G<'_>) -> X {
        Events::call(g, "cond")
    }
    fn subject(g: &mut G<'_>) -> X {
        Events::call(g, "subject")
    }
    fn matcher(g: &mut G<'_>, k: i32) -> X {
        g.op(6, &[k as u64]);
        X::Const(K::Int("", k.into()))
    }
    fn result(g: &mut G<'_>) -> X {
        Events::call(g, "result")
    }
}

fn event_env() -> Env {
    let mut e = Env::empty();
    for f in ["act", "cond", "subject", "result"] {
        let idx = e.function(f, 0, ff::STATIC | ff::FINAL | ff::NATIVE, &[("a", "Int32", 0)], Some("Int32"));
        e.funs.push(Fun { idx, name: f.into(), is_static: true, class: None, nparams: 1, ret: None });
    }
    e.cur = e.function("Body;", 0, ff::STATIC, &[], Some("Int32"));
    e
}

fn has_goto(b: &[X]) -> bool {
    b.iter().any(|x| match x {
        X::Goto(_) => true,
        X::Seq(v) | X::While(_, v) => has_goto(v),
        X::If(_, t, f) => has_goto(t) || f.as_ref().is_some_and(|f| has_goto(f)),
        X::Switch(_, cs, d) => cs.iter().any(|c| has_goto(&c.1)) || d.as_ref().is_some_and(|d| has_goto(d)),
        _ => false,
    })
}

/// runs the source and the decompiled program on the same decisions
fn same_behaviour(want: &[X], got: &[X], r: &mut Rng, o: &mut Obs, runs: usize) -> Result<(), String> {
    ensure!(!has_goto(got), "structured code was decompiled to a goto: {got:?}");
    for k in 0..runs {
        let n = r.below(60);
        let bits: Vec<u8> = match k {
            0 => vec![],
            1 => vec![1; 40],
            _ => {
                // biased streams get deep into loops and branches
                let p = r.below(8);
                (0..n).map(|_| if r.below(8) < p { 1 } else { r.u8() & 0x3e } | (r.u8() & 6)).collect()
            }
        };
        let a = Run::trace(want, &bits).map_err(|e| format!("source: {e}"))?;
        let b = Run::trace(got, &bits).map_err(|e| format!("decompiled: {e}"))?;
        o.add("events compared", a.len() as u64);
        o.seen("distinct traces", hash_bytes(format!("{a:?}").as_bytes()) & 0xff_ffff);
        if a != b {
            let at = a.iter().zip(&b).take_while(|(x, y)| x == y).count();
            return Err(format!(
                "behaves differently after {at} events: the function does {:?} where the decompiled code does {:?}; decisions {bits:?}; decompiled {got:?}",
                a.get(at),
                b.get(at)
            ));
        }
        o.hit("runs");
    }
    Ok(())
}

/// The breaks of a default case when no other case has one; see known-findings.txt.
fn default_break_case(e: &mut Env, r: &mut Rng) -> (Vec<X>, Vec<SInstr>) {
    let mut g = G::new(e, r);
    g.noise = false;
    let (first, next, body, exit, l1, l2) = (g.label(), g.label(), g.label(), g.label(), g.label(), g.label());
    let t = g.e.type_("Int32");
    g.opl(SWITCH, &[t.into(), 0], &[first]);
    let subject = Events::subject(&mut g);
    g.bind(first);
    g.opl(SWITCH_LABEL, &[0, 0], &[next, body]);
    let m = Events::matcher(&mut g, 0);
    g.bind(body);
    g.op(RETURN, &[]);
    let res = Events::result(&mut g);
    g.bind(next);
    g.op(SWITCH_DEFAULT, &[]);
    g.opl(JUMP_IF_FALSE, &[0], &[l1]);
    let c1 = Events::condition(&mut g);
    g.opl(JUMP_IF_FALSE, &[0], &[l2]);
    let c2 = Events::condition(&mut g);
    g.opl(JUMP, &[0], &[exit]);
    g.bind(l2);
    let a1 = Events::action(&mut g);
    g.bind(l1);
    let a2 = Events::action(&mut g);
    g.bind(exit);
    let a3 = Events::action(&mut g);
    g.op(NOP, &[]);
    let want = vec![
        X::Switch(
            Box::new(subject),
            vec![(m, vec![X::Return(Some(Box::new(res)))])],
            Some(vec![X::If(Box::new(c1), vec![X::If(Box::new(c2), vec![X::Break], None), a1], None), a2]),
        ),
        a3,
    ];
    let code = assemble(&g.toks).unwrap();
    (want, code)
}

fn c11() {
    let mut c = Check::new(
        "C11",
        "monitored",
        "decompiled control flow performs the same actions, in the same order, under the same decisions as the bytecode",
    );
    let run = |want: Vec<X>, code: Vec<SInstr>, mut e: Env, r: &mut Rng, o: &mut Obs, runs: usize| {
        o.describe(format!("source: {want:#?}\n{}", listing(&code)));
        o.distinct(hash_bytes(format!("{code:?}").as_bytes()));
        o.max("largest function (bytes of code)", code.iter().map(|i| u64::from(i.virt_size())).sum());
        let cur = e.cur;
        e.set_code(cur, code);
        let b = load(&e.b)?;
        let got = decompile(&b.pool, cur)?;
        same_behaviour(&want, &got, r, o, runs)?;
        o.hit("functions");
        o.sample(|| format!("{want:?}"));
        Ok(())
    };
    let n = c.n(60_000, 1_500_000);
    c.run("structured", n, |i, r, o| {
        let mut e = event_env();
        let mut u = Used::default();
        let sh = Shape { depth: 1 + i % 5, width: [2, 3, 5, 8][i / 5 % 4], dead: i % 3 == 0 };
        let mut g = G::new(&mut e, r);
        let want = program::<Events>(&mut g, sh, &mut u);
        let code = assemble(&g.toks)?;
        if code.iter().map(SInstr::virt_size).sum::<u32>() > 60_000 {
            return Ok(());
        }
        for (k, v) in [
            ("if", u.ifs),
            ("else", u.elses),
            ("while", u.whiles),
            ("switch", u.switches),
            ("default", u.defaults),
            ("shared case labels", u.shared),
            ("fallthrough", u.fallthrough),
            ("break", u.breaks),
            ("return", u.returns),
            ("unreachable statements", u.dead),
            ("wide switches", u.wide),
        ] {
            o.add(k, v);
        }
        run(want, code, e, r, o, 12)
    });
    // branches and loops spanning more than half of the address space
    let n = c.n(16, 200);
    c.run("long", n, |i, r, o| {
        let mut e = event_env();
        let mut g = G::new(&mut e, r);
        g.noise = false;
        let count = 1480 + g.r.below(800);
        let mut acts = |g: &mut G<'_>, n: usize| -> Vec<X> { (0..n).map(|_| Events::action(g)).collect() };
        let (l, x) = (g.label(), g.label());
        let want = match i % 3 {
            0 => {
                g.opl(JUMP_IF_FALSE, &[0], &[l]);
                let cond = Events::condition(&mut g);
                let b = acts(&mut g, count);
                g.bind(l);
                vec![X::If(Box::new(cond), b, None)]
            }
            1 => {
                g.bind(x);
                g.opl(JUMP_IF_FALSE, &[0], &[l]);
                let cond = Events::condition(&mut g);
                let b = acts(&mut g, count);
                g.opl(JUMP, &[0], &[x]);
                g.bind(l);
                vec![X::While(Box::new(cond), b)]
            }
            _ => {
                g.opl(JUMP_IF_FALSE, &[0], &[l]);
                let cond = Events::condition(&mut g);
                let t = acts(&mut g, 20);
                g.opl(JUMP, &[0], &[x]);
                g.bind(l);
                let f = acts(&mut g, count);
                g.bind(x);
                vec![X::If(Box::new(cond), t, Some(f))]
            }
        };
        let tail = Events::action(&mut g);
        g.op(NOP, &[]);
        let code = assemble(&g.toks)?;
        let mut want = want;
        want.push(tail);
        o.hit("long functions");
        run(want, code, e, r, o, 3)
    });
    c.run("default-break", 1, |_, r, o| {
        let mut e = event_env();
        let (want, code) = default_break_case(&mut e, r);
        run(want, code, e, r, o, 60).map_err(|m| format!("sig=default-break {m}"))
    });
    for k in ["if", "else", "while", "switch", "default", "shared case labels", "fallthrough", "break", "return", "unreachable statements"] {
        c.require(k, 1000);
    }
    c.require("functions", 5000);
    c.require("long functions", 16);
    c.require("wide switches", 100);
    c.require("events compared", 100_000);
    c.assume("bytecode of structured programs as the compiler lays them out (including breakpoints, profiling markers, shared labels, empty and unreachable blocks)");
    c.finish()
}

// ------------------------------------------------------------------ C12
struct Rich;
impl Leaves for Rich {
    fn action(g: &mut G<'_>) -> X {
        let d = 1 + g.r.below(3);
        g.simple(d)
    }
    fn condition(g: &mut G<'_>) -> X {
        g.expr(2, true)
    }
    fn subject(g: &mut G<'_>) -> X {
        g.expr(2, true)
    }
    fn matcher(g: &mut G<'_>, _: i32) -> X {
        g.expr(1, true)
    }
    fn result(g: &mut G<'_>) -> X {
        g.expr(3, true)
    }
}

fn generic(n: &str) -> bool {
    matches!(n, "Cast" | "IntEnum" | "FromVariant")
}

fn parse_decls(text: &str) -> Result<Vec<Decl>, String> {
    let g = |n: &str| generic(n);
    let mut p = P::new(text, &g);
    let d = p.decls()?;
    ensure!(p.eof(), "text left over after the declarations");
    Ok(d)
}

fn has_cond(x: &X) -> bool {
    matches!(x, X::Cond(..))
}

fn c12() {
    let mut c = Check::new(
        "C12",
        "monitored",
        "source printed for a function parses back to the tree it was printed from",
    );
    let check = |e: &mut Env, code: Vec<SInstr>, o: &mut Obs| -> Result<(), String> {
        let cur = e.cur;
        e.set_code(cur, code);
        let b = load(&e.b)?;
        let tree = decompile(&b.pool, cur)?;
        for verbose in [false, true] {
            let text = print(&b.pool, cur, OutputMode::Code { verbose })?;
            o.describe(format!("verbose: {verbose}\n{text}"));
            let mut ds = parse_decls(&text)?;
            ensure_eq!(ds.len(), 1, "number of printed functions");
            let d = ds.remove(0);
            let got = xast::norm_block(&d.body.ok_or("the function is printed without a body")?, verbose);
            let want = xast::norm_block(&tree, verbose);
            if let Some(d) = xast::diff(&got, &want) {
                return Err(format!("printed source has a different meaning (verbose={verbose}): {d}"));
            }
            o.add("characters parsed", text.len() as u64);
            if text.contains('(') {
                o.add("parenthesised groups", text.matches(" (").count() as u64);
            }
            o.distinct(hash_bytes(text.as_bytes()));
            o.sample(|| text.clone());
            o.hit("functions");
        }
        Ok(())
    };
    let n = c.n(24_000, 600_000);
    c.run("expressions", n, |i, r, o| {
        let mut e = Env::world(r);
        let mut g = G::new(&mut e, r);
        let k = 1 + g.r.below(4);
        for _ in 0..k {
            let x = g.simple(1 + i % 5);
            if has_cond(&x) {
                o.hit("conditional statements");
            }
        }
        g.op(NOP, &[]);
        let code = assemble(&g.toks)?;
        count_ops(o, &g.ops);
        check(&mut e, code, o)
    });
    let n = c.n(12_000, 300_000);
    c.run("statements", n, |i, r, o| {
        let mut e = Env::world(r);
        let mut g = G::new(&mut e, r);
        let mut u = Used::default();
        program::<Rich>(&mut g, Shape { depth: 1 + i % 4, width: 2 + i % 3, dead: false }, &mut u);
        let code = assemble(&g.toks)?;
        if code.iter().map(SInstr::virt_size).sum::<u32>() > 60_000 {
            return Ok(());
        }
        count_ops(o, &g.ops);
        o.add("control structures", u.ifs + u.whiles + u.switches);
        check(&mut e, code, o)
    });
    // every pair of nested operators, on either side
    let nops = 25;
    c.run("operator pairs", nops * nops * 6, |i, r, o| {
        let (a, b, side) = (i % nops, i / nops % nops, i / nops / nops);
        let mut e = Env::world(r);
        let mut g = G::new(&mut e, r);
        g.noise = false;
        let leaf = |g: &mut G<'_>| {
            let (i, _) = g.e.params[0].clone();
            g.op(PARAM, &[i.into()]);
        };
        fn apply(g: &mut G<'_>, op: usize, sub: &mut dyn FnMut(&mut G<'_>, usize)) {
            let (idx, n) = if op < 22 { (g.e.binops[op].0, 2) } else { (g.e.unops[op - 22].0, 1) };
            let l = g.label();
            g.opl(INVOKE_STATIC, &[0, 1, idx.into(), 0], &[l]);
            for k in 0..n {
                sub(g, k);
            }
            g.op(PARAM_END, &[]);
            g.bind(l);
        }
        let inner = |g: &mut G<'_>| apply(g, b, &mut |g, _| leaf(g));
        match side {
            0 | 1 => apply(&mut g, a, &mut |g, k| if k == side { inner(g) } else { leaf(g) }),
            2 => {
                // through a conversion that is not printed
                apply(&mut g, a, &mut |g, k| {
                    if k == 1 || a >= 22 {
                        g.op(99, &[]);
                        inner(g);
                    } else {
                        leaf(g);
                    }
                });
            }
            3 => {
                // below a member access, a cast, an element
                match a % 4 {
                    0 => {
                        let (f, _) = g.e.classes[2].fields[0].clone();
                        g.op(STRUCT_FIELD, &[f.into()]);
                        inner(&mut g);
                    }
                    1 => {
                        let t = g.e.type_("Alpha");
                        g.op(90, &[t.into(), 0]);
                        inner(&mut g);
                    }
                    2 => {
                        let t = g.e.type_("array:Int32");
                        g.op(72, &[t.into()]);
                        inner(&mut g);
                        leaf(&mut g);
                    }
                    _ => {
                        let l = g.label();
                        g.opl(CONTEXT, &[0], &[l]);
                        inner(&mut g);
                        let f = g.e.name("Update");
                        let m = g.label();
                        g.opl(INVOKE_VIRTUAL, &[0, 7, f.into(), 0], &[m]);
                        g.op(PARAM_END, &[]);
                        g.bind(m);
                        g.bind(l);
                    }
                }
            }
            4 => {
                // a conditional below an operator and an operator below each part of a conditional
                let cond = |g: &mut G<'_>, k: usize| {
                    let (x, y) = (g.label(), g.label());
                    g.opl(CONDITIONAL, &[0, 0], &[x, y]);
                    for p in 0..3 {
                        if p == 2 {
                            g.bind(x);
                        }
                        if p == k {
                            inner(g);
                        } else {
                            leaf(g);
                        }
                    }
                    g.bind(y);
                };
                apply(&mut g, a, &mut |g, k| cond(g, k));
            }
            _ => {
                // negation of negations, casts below operators
                apply(&mut g, a, &mut |g, _| {
                    let t = g.e.type_("Alpha");
                    g.op(90, &[t.into(), 0]);
                    inner(g);
                });
            }
        }
        g.op(NOP, &[]);
        let code = assemble(&g.toks)?;
        o.hit("operator pairs");
        check(&mut e, code, o)
    });
    c.require("functions", 10_000);
    c.require("operator pairs", (nops * nops * 6) as u64);
    c.require("control structures", 2000);
    c.require_all("opcodes", expression_ops());
    c.assume("identifiers in the cache are valid identifiers and no keywords; floats are finite; type arguments are only read after the generic intrinsics");
    c.finish()
}

// ------------------------------------------------------------------ C13
const VIS: [&str; 3] = ["public", "protected", "private"];

fn quals(vis: u8, set: &[(bool, &str)]) -> Vec<String> {
    let mut v = vec![VIS[vis as usize].to_owned()];
    v.extend(set.iter().filter(|q| q.0).map(|q| q.1.to_owned()));
    v
}

fn sorted(mut v: Vec<String>) -> Vec<String> {
    v.sort();
    v
}

fn canon(mut d: Decl) -> Decl {
    d.quals = sorted(d.quals);
    d.params = d.params.into_iter().map(|(q, n, t)| (sorted(q), n, t)).collect();
    d.members = d.members.into_iter().map(canon).collect();
    d
}

struct DeclGen<'a> {
    e: Env,
    r: &'a mut Rng,
    serial: usize,
}

impl DeclGen<'_> {
    fn fresh(&mut self, base: &str) -> String {
        self.serial += 1;
        format!("{base}{}", self.serial)
    }
    fn ty(&mut self) -> (String, String) {
        if self.r.chance(1, 10) {
            // static arrays have their own notation, wherever they are nested
            let leaf = *self.r.pick(&["Int32", "Float", "Alpha", "Data"]);
            let mut i = self.e.type_(leaf);
            let mut text = leaf.to_owned();
            for level in 0..self.r.range(1, 5) {
                let n = if self.r.chance(1, 8) { self.r.u32() } else { self.r.below(64) as u32 };
                let tag = if level == 0 && self.r.bool() { 5 } else { self.r.range(2, 6) as u8 };
                i = self.e.add(&format!("nested{tag}"), 0, SVal::Type(tag, i, if tag == 5 { n } else { 0 }));
                text = match tag {
                    2 => format!("ref<{text}>"),
                    3 => format!("wref<{text}>"),
                    4 => format!("array<{text}>"),
                    5 => format!("array<{text}; {n}>"),
                    _ => format!("script_ref<{text}>"),
                };
            }
            return (format!("#{i}"), text);
        }
        let t = *self.r.pick(&TYPE_NAMES);
        (t.to_owned(), pretty_type(t))
    }
    fn type_idx(&mut self, t: &str) -> u32 {
        match t.strip_prefix('#') {
            Some(i) => i.parse().unwrap(),
            None => self.e.type_(t),
        }
    }
    fn function(&mut self, parent: u32) -> (u32, Decl) {
        let r = &mut *self.r;
        let vis = r.below(3) as u8;
        let pick = [ff::FINAL, ff::STATIC, ff::NATIVE, ff::EXEC, ff::CONST, ff::QUEST, ff::CALLBACK, ff::TIMER, ff::THREAD_SAFE];
        let mut flags = 0;
        for f in pick {
            if r.chance(1, 3) {
                flags |= f;
            }
        }
        let name = self.fresh("Fun");
        let stored = match self.r.below(3) {
            0 => name.clone(),
            1 => format!("{name};"),
            _ => format!("{name};Int32Float;String"),
        };
        let idx = self.e.add(&stored, parent, SVal::Function(SFunction::default()));
        let mut f = SFunction { vis, flags, ..SFunction::default() };
        if flags & ff::NATIVE == 0 {
            f.source = Some((self.e.file, 1));
        }
        let mut d = Decl { keyword: "func".into(), name, ..Decl::default() };
        let has = |m: u32| flags & m != 0;
        d.quals = quals(
            vis,
            &[
                (has(ff::FINAL), "final"),
                (has(ff::STATIC), "static"),
                (has(ff::NATIVE), "native"),
                (has(ff::EXEC), "exec"),
                (has(ff::CONST), "const"),
                (has(ff::QUEST), "quest"),
                (has(ff::CALLBACK), "cb"),
            ],
        );
        for _ in 0..self.r.below(4) {
            let (t, pt) = self.ty();
            let type_ = self.type_idx(&t);
            let pf = self.r.below(64) as u8;
            let n = self.fresh("p");
            let p = self.e.add(&n, idx, SVal::Parameter { type_, flags: pf });
            f.params.push(p);
            f.flags |= ff::PARAMS;
            // optional = 1, out = 2, short-circuit = 4, const = 8
            let mut q = vec![];
            for (bit, w) in [(PARAM_OPT, "opt"), (PARAM_OUT, "out"), (PARAM_CONST, "const")] {
                if pf & bit != 0 {
                    q.push(w.to_owned());
                }
            }
            d.params.push((q, n, pt));
        }
        d.ret = Some("Void".into());
        if self.r.bool() {
            let (t, pt) = self.ty();
            f.ret = Some(self.type_idx(&t));
            f.flags |= ff::RET;
            d.ret = Some(pt);
        }
        if self.r.bool() {
            // a body with a known shape, or without any instruction
            f.flags |= ff::BODY;
            if self.r.chance(1, 6) {
                d.body = Some(vec![]);
                self.e.b.defs[idx as usize].val = SVal::Function(f);
                return (idx, d);
            }
            let k = self.r.below(100) as i8;
            f.code = vec![SInstr::new(RETURN, &[]), SInstr::new(4, &[k as u8 as u64]), SInstr::new(NOP, &[])];
            d.body = Some(vec![X::Return(Some(Box::new(X::Const(K::Int("", k.into())))))]);
        }
        self.e.b.defs[idx as usize].val = SVal::Function(f);
        (idx, d)
    }
    fn field(&mut self, parent: u32) -> (u32, Decl) {
        let vis = self.r.below(3) as u8;
        let flags = self.r.u16() & 0x7ff & !fdf::HAS_HINT;
        let (t, pt) = self.ty();
        let type_ = self.type_idx(&t);
        let n = self.fresh("fld");
        let mut f = SField { vis, type_, flags, ..SField::default() };
        let mut d = Decl { keyword: "let".into(), name: n.clone(), type_: Some(pt), ..Decl::default() };
        for _ in 0..self.r.below(3) {
            let (a, b) = (gen::text(self.r), gen::text(self.r));
            d.annotations.push(("runtimeProperty".into(), format!("{a:?},{b:?}")));
            f.attrs.push((a, b));
        }
        for _ in 0..self.r.below(2) {
            let (a, b) = (gen::ident(self.r), ["1", "true", "n\"x\"", "(1, 2)"][self.r.below(4)].to_owned());
            d.annotations.push(("default".into(), format!("{a}, {b}")));
            f.defaults.push((a, b));
        }
        let has = |m: u16| flags & m != 0;
        d.quals = quals(
            vis,
            &[
                (has(fdf::INLINE), "inline"),
                (has(fdf::REPLICATED), "replicated"),
                (has(fdf::EDITABLE), "edit"),
                (has(fdf::NATIVE), "native"),
                (has(fdf::PERSISTENT), "persistent"),
                (has(fdf::CONST), "const"),
            ],
        );
        let i = self.e.add(&n, parent, SVal::Field(f));
        (i, d)
    }
    fn class(&mut self, base: Option<(u32, String)>) -> (u32, Decl) {
        let vis = self.r.below(3) as u8;
        let pick = [cf::NATIVE, cf::ABSTRACT, cf::FINAL, cf::STRUCT, cf::IMPORT_ONLY, cf::TEST_ONLY];
        let mut flags = 0;
        for f in pick {
            if self.r.chance(1, 3) {
                flags |= f;
            }
        }
        let n = self.fresh("Cls");
        let idx = self.e.add(&n, 0, SVal::Class(SClass::default()));
        let has = |m: u16| flags & m != 0;
        let mut d = Decl {
            keyword: if has(cf::STRUCT) { "struct" } else { "class" }.into(),
            name: n,
            base: base.as_ref().map(|b| b.1.clone()),
            ..Decl::default()
        };
        d.quals = quals(
            vis,
            &[
                (has(cf::ABSTRACT), "abstract"),
                (has(cf::FINAL), "final"),
                (has(cf::IMPORT_ONLY), "importonly"),
                (has(cf::NATIVE) && !has(cf::IMPORT_ONLY), "native"),
            ],
        );
        let mut k = SClass { vis, flags, base: base.map_or(0, |b| b.0), ..SClass::default() };
        for _ in 0..self.r.below(4) {
            let (i, m) = self.field(idx);
            k.fields.push(i);
            k.flags |= cf::HAS_FIELDS;
            d.members.push(m);
        }
        for _ in 0..self.r.below(4) {
            let (i, m) = self.function(idx);
            k.functions.push(i);
            k.flags |= cf::HAS_FUNCTIONS;
            d.members.push(m);
        }
        self.e.b.defs[idx as usize].val = SVal::Class(k);
        (idx, d)
    }
    fn enum_(&mut self) -> (u32, Decl) {
        let n = self.fresh("En");
        let idx = self.e.add(&n, 0, SVal::Enum { flags: 0, size: 4, members: vec![], unk1: false });
        let mut d = Decl { keyword: "enum".into(), name: n, ..Decl::default() };
        let mut members = vec![];
        for _ in 0..self.r.below(5) {
            let v = self.r.spicy() as i64;
            let m = self.fresh("m");
            members.push(self.e.add(&m, idx, SVal::EnumValue(v)));
            d.members.push(Decl { name: m, value: Some(v.to_string()), ..Decl::default() });
        }
        self.e.b.defs[idx as usize].val = SVal::Enum { flags: 0, size: 4, members, unk1: false };
        (idx, d)
    }
}

const PARAM_OPT: u8 = 1;
const PARAM_OUT: u8 = 2;
const PARAM_CONST: u8 = 8;

fn c13() {
    let mut c = Check::new(
        "C13",
        "monitored",
        "printed declarations carry every modifier, type, parameter, base, member, value and attribute of the definition, and nothing else",
    );
    let n = c.n(20_000, 500_000);
    c.run("declarations", n, |_, r, o| {
        let mut g = DeclGen { e: Env::empty(), r, serial: 0 };
        let mut roots: Vec<(u32, Decl)> = vec![];
        let mut base = None;
        for _ in 0..1 + g.r.below(3) {
            let b = if g.r.bool() { base.clone() } else { None };
            let (i, d) = g.class(b);
            base = Some((i, d.name.clone()));
            roots.push((i, d));
        }
        let k = g.r.below(3);
        for _ in 0..k {
            roots.push(g.enum_());
        }
        let k = g.r.below(3);
        for _ in 0..k {
            roots.push(g.function(0));
        }
        let e = g.e;
        let b = load(&e.b)?;
        for (i, want) in roots {
            let text = print(&b.pool, i, OutputMode::Code { verbose: r.bool() })?;
            o.describe(format!("expected {want:#?}\n{text}"));
            o.distinct(hash_bytes(text.as_bytes()));
            let ds = parse_decls(&text)?;
            ensure_eq!(ds.len(), 1, "number of printed definitions");
            let got = canon(ds.into_iter().next().unwrap());
            let want = canon(want);
            if got != want {
                let pair = got
                    .members
                    .iter()
                    .zip(&want.members)
                    .find(|(a, b)| a != b)
                    .map_or_else(|| format!("{got:?} instead of {want:?}"), |(a, b)| format!("{a:?} instead of {b:?}"));
                return Err(format!("printed declaration differs: {pair}"));
            }
            o.hit(match want.keyword.as_str() {
                "class" | "struct" => "classes and structs",
                "enum" => "enums",
                _ => "global functions",
            });
            for m in &want.members {
                match m.keyword.as_str() {
                    "let" => o.hit("fields"),
                    "func" => o.hit("methods"),
                    _ => o.hit("enum members"),
                }
                o.add("modifiers", m.quals.len() as u64);
                o.add("attributes", m.annotations.len() as u64);
                o.add("parameters", m.params.len() as u64);
            }
            o.add("modifiers", want.quals.len() as u64);
            o.sample(|| text.clone());
        }
        Ok(())
    });
    let n = c.n(4000, 60_000);
    c.run("bytecode listing", n, |i, r, o| {
        let mut e = Env::world(r);
        let mut g = G::new(&mut e, r);
        let mut u = Used::default();
        program::<Rich>(&mut g, Shape { depth: 2, width: 3, dead: true }, &mut u);
        let mut code = assemble(&g.toks)?;
        if i % 200 == 0 {
            // a listing does not follow jumps: repeated, up to where offsets end
            let once = code.clone();
            let size = once.iter().map(SInstr::virt_size).sum::<u32>().max(1);
            for _ in 1..r.range(30_000, 60_000) as u32 / size {
                code.extend_from_slice(&once);
            }
            o.max("bytes listed", code.iter().map(SInstr::virt_size).sum::<u32>().into());
        }
        if code.iter().map(SInstr::virt_size).sum::<u32>() > 60_000 {
            return Ok(());
        }
        let cur = e.cur;
        e.set_code(cur, code.clone());
        let b = load(&e.b)?;
        let text = print(&b.pool, cur, OutputMode::Bytecode)?;
        o.describe(text.clone());
        let mut lines: Vec<&str> = text.lines().collect();
        while lines.last().is_some_and(|l| l.trim().is_empty()) {
            lines.pop();
        }
        let open = lines.iter().position(|l| l.ends_with('{')).ok_or("no body")?;
        ensure_eq!(lines.last().map(|l| l.trim()), Some("}"), "end of the listing");
        let mut body: Vec<&str> = lines[open + 1..lines.len() - 1].iter().map(|l| l.trim()).filter(|l| !l.is_empty()).collect();
        for (_, n, t) in &e.locals {
            let want = format!("let {n}: {};", pretty_type(t));
            ensure_eq!(body.first().copied(), Some(want.as_str()), "declaration of a local");
            body.remove(0);
        }
        ensure_eq!(body.len(), code.len(), "number of listed instructions");
        let mut pos = 0;
        for (line, i) in body.iter().zip(&code) {
            // operands spelled as the program's own description of the instruction
            let want = format!("{pos}: {}", format!("{:?}", obs::mk(i)).to_lowercase());
            ensure_eq!(line.to_owned(), want.as_str(), "listed instruction");
            pos += i.virt_size();
            o.hit("listed instructions");
        }
        Ok(())
    });
    let n = c.n(3000, 60_000);
    c.run("syntax tree listing", n, |_, r, o| {
        let mut e = Env::world(r);
        let mut g = G::new(&mut e, r);
        let mut u = Used::default();
        program::<Rich>(&mut g, Shape { depth: 2, width: 3, dead: true }, &mut u);
        let code = assemble(&g.toks)?;
        if code.iter().map(SInstr::virt_size).sum::<u32>() > 60_000 {
            return Ok(());
        }
        let cur = e.cur;
        e.set_code(cur, code);
        let b = load(&e.b)?;
        let def = definition(&b.pool, cur)?;
        let tree = Decompiler::decompiled(function(def)?, def, &b.pool).map_err(|e| format!("not decompiled: {e:?}"))?;
        let text = print(&b.pool, cur, OutputMode::SyntaxTree)?;
        o.describe(text.clone());
        let squeeze = |s: &str| s.chars().filter(|c| !c.is_whitespace()).collect::<String>();
        let open = text.find(" {\n").ok_or("no body")?;
        let close = text.rfind('}').ok_or("no end of the body")?;
        let mut want = String::new();
        for x in &tree.exprs {
            want.push_str(&squeeze(&format!("{x:?}")));
            o.hit("listed statements");
        }
        // the spelling of nested commas is up to the form of the dump
        let norm = |s: String| s.replace(",)", ")").replace(",}", "}").replace(",]", "]");
        let got = norm(squeeze(&text[open + 3..close]));
        ensure_eq!(got, norm(want), "listed syntax tree");
        o.distinct(hash_bytes(got.as_bytes()));
        Ok(())
    });
    c.require("listed statements", 5000);
    c.require("classes and structs", 1000);
    c.require("enums", 1000);
    c.require("global functions", 1000);
    c.require("fields", 1000);
    c.require("methods", 1000);
    c.require("attributes", 1000);
    c.require("parameters", 1000);
    c.require("listed instructions", 10_000);
    c.finish()
}

// ------------------------------------------------------------------ C14
fn c14() {
    let mut c = Check::new(
        "C14",
        "monitored",
        "grouping by source file lists every class, enum and global function, in the files its code comes from, in source order",
    );
    let n = c.n(24_000, 300_000);
    c.run("files", n, |_, r, o| {
        let mut e = Env::empty();
        let nfiles = 1 + r.below(6);
        let mut files = vec![];
        for k in 0..nfiles {
            let path = format!("dir{}/file{k}.script", r.below(3));
            files.push((e.add("", 0, SVal::SourceFile { id: k as u32, hash: r.u64(), path: path.clone() }), path));
        }
        let mut line_pool: Vec<u32> = (0..r.range(120, 400) as u32).chain([0xffff, 0x1_0000, 0x7fff_ffff, 0x8000_0000, u32::MAX]).collect();
        r.shuffle(&mut line_pool);
        // expected: definition -> files
        let mut want: HashMap<u32, HashSet<String>> = HashMap::new();
        let mut first: HashMap<u32, u32> = HashMap::new();
        let ndefs = 1 + r.below(14);
        let orphan = "orphans.script".to_owned();
        for k in 0..ndefs {
            match r.below(4) {
                0 => {
                    let i = e.add(&format!("En{k}"), 0, SVal::Enum { flags: r.below(4) as u8, size: 1 << r.below(4), members: vec![], unk1: r.bool() });
                    if r.bool() {
                        let m = e.add(&format!("Em{k}"), i, SVal::EnumValue(r.u64() as i64));
                        if let SVal::Enum { members, .. } = &mut e.b.defs[i as usize].val {
                            members.push(m);
                        }
                    }
                    want.entry(i).or_default().insert(orphan.clone());
                }
                1 => {
                    let native = r.bool();
                    let rest = r.u32() & 0x1f_ffff & !(ff::NATIVE | ff::RET | ff::BASE | ff::PARAMS | ff::LOCALS | ff::BODY);
                    let i = e.function(&format!("F{k}"), 0, rest | if native { ff::NATIVE } else { 0 }, &[], None);
                    if r.bool() {
                        e.set_code(i, vec![SInstr::new(NOP, &[])]);
                    }
                    if native {
                        want.entry(i).or_default().insert(orphan.clone());
                    } else {
                        let f = r.pick(&files).clone();
                        let line = line_pool.pop().unwrap();
                        if let SVal::Function(fun) = &mut e.b.defs[i as usize].val {
                            fun.source = Some((f.0, line));
                        }
                        first.insert(i, line);
                        want.entry(i).or_default().insert(f.1);
                    }
                }
                _ => {
                    let ci = e.class(&format!("C{k}"), 0, r.u16() & 0x1ff & !cf::DERIVED);
                    let i = e.classes[ci].idx;
                    if let SVal::Class(c) = &mut e.b.defs[i as usize].val {
                        c.vis = r.below(3) as u8;
                    }
                    let mut scripted = false;
                    for m in 0..r.below(5) {
                        let native = r.chance(1, 3);
                        let rest = r.u32() & 0x1f_ffff & !(ff::NATIVE | ff::RET | ff::BASE | ff::PARAMS | ff::LOCALS | ff::BODY);
                        let f = e.function(&format!("M{m}"), i, rest | if native { ff::NATIVE } else { 0 }, &[], None);
                        if r.bool() {
                            e.set_code(f, vec![SInstr::new(NOP, &[])]);
                        }
                        e.method(ci, f);
                        if !native {
                            scripted = true;
                            let file = r.pick(&files).clone();
                            let line = line_pool.pop().unwrap();
                            if let SVal::Function(fun) = &mut e.b.defs[f as usize].val {
                                fun.source = Some((file.0, line));
                            }
                            let l = first.entry(i).or_insert(line);
                            *l = (*l).min(line);
                            want.entry(i).or_default().insert(file.1);
                        }
                    }
                    if !scripted {
                        want.entry(i).or_default().insert(orphan.clone());
                    }
                    e.field(ci, "x", "Int32");
                }
            }
        }
        o.describe(format!("{:#?}", e.b.defs));
        let b = load(&e.b)?;
        let pool = &b.pool;
        let by_ptr: HashMap<*const Definition, u32> =
            (1..e.b.defs.len() as u32).map(|i| (definition(pool, i).unwrap() as *const _, i)).collect();
        let index = FileIndex::from_pool(pool);
        let mut got: HashMap<u32, HashSet<String>> = HashMap::new();
        let mut paths = HashSet::new();
        for entry in index.iter() {
            let path = entry.path.to_string_lossy().replace('\\', "/");
            ensure!(paths.insert(path.clone()), "file {path} is listed twice");
            let mut last = 0;
            for d in &entry.definitions {
                let i = *by_ptr.get(&(*d as *const _)).ok_or("a definition that is not in the pool")?;
                ensure!(got.entry(i).or_default().insert(path.clone()), "definition {i} is listed twice in {path}");
                if path != orphan {
                    let l = first.get(&i).copied().unwrap_or(0);
                    ensure!(l >= last, "definition {i} (line {l}) is listed after line {last} in {path}");
                    last = l;
                }
                o.hit("listed definitions");
            }
            o.hit("files");
        }
        ensure_eq!(got, want, "files of each definition");
        o.distinct(hash_bytes(format!("{:?}", e.b.defs).as_bytes()));
        Ok(())
    });
    c.require("files", 10_000);
    c.require("listed definitions", 20_000);
    c.finish()
}

// ------------------------------------------------------------------ C15
fn print_all(b: &ScriptBundle, o: &mut Obs, modes: &[OutputMode]) -> Result<(), String> {
    let pool = &b.pool;
    let n = pool.definitions().count() as u32;
    for i in 0..=n {
        let Ok(def) = pool.definition(PoolIndex::<Definition>::new(i)) else { continue };
        for &mode in modes {
            let mut out = vec![];
            match write_definition(&mut out, def, pool, 0, mode) {
                Ok(()) => o.hit("printed definitions"),
                Err(e) => {
                    o.hit("rejected definitions");
                    o.seen("kinds of errors", hash_bytes(e.to_string().split_whitespace().take(4).collect::<String>().as_bytes()) & 0xffff);
                }
            }
            o.max("largest output", out.len() as u64);
        }
    }
    let index = FileIndex::from_pool(pool);
    for e in index.iter() {
        o.add("indexed definitions", e.definitions.len() as u64);
    }
    Ok(())
}

/// the stack the command line tool runs with
/// The closure runs on another thread only while this one waits for it, so nothing is ever used from two threads.
struct Exclusive<T>(T);
unsafe impl<T> Send for Exclusive<T> {}
impl<F: FnOnce() -> T, T> Exclusive<F> {
    fn call(self) -> T {
        (self.0)()
    }
}

fn on_main_stack<T: Send>(f: impl FnOnce() -> T) -> Result<T, String> {
    let f = Exclusive(f);
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(8 << 20)
            .spawn_scoped(s, move || guarded(move || f.call()))
            .map_err(|e| e.to_string())?
            .join()
            .map_err(|_| "worker died".to_owned())?
    })
}

fn c15() {
    let mut c = Check::new(
        "C15",
        "monitored",
        "decompiling any cache that loads ends with output or an error, within bounded time and stack, and a method that cannot be decompiled does not affect the others",
    );
    let n = c.n(2500, 60_000);
    c.run("arbitrary pools", n, |_, r, o| {
        let m = gen::bundle(r, 30);
        o.describe(format!("{:#?}", m.defs));
        let b = load(&m)?;
        o.distinct(hash_bytes(format!("{:?}", m.defs).as_bytes()));
        on_main_stack(|| print_all(&b, o, &MODES))??;
        o.hit("pools");
        Ok(())
    });
    // what cannot be written is not passed off as text, nor as something that cannot be decompiled
    let n = c.n(300, 6000);
    c.run("failing output", n, |i, r, o| {
        let mut bodies = false;
        let mut e = Env::world(r);
        let mut g = G::new(&mut e, r);
        let mut u = Used::default();
        program::<Rich>(&mut g, Shape { depth: 2, width: 3, dead: false }, &mut u);
        let code = assemble(&g.toks)?;
        let cur = e.cur;
        e.set_code(cur, code);
        let b = load(&e.b)?;
        o.distinct(hash_bytes(&e.b.write()));
        let mode = MODES[i % MODES.len()];
        let kind = [FailKind::Error, FailKind::Zero, FailKind::PartialThenError][i / 4 % 3];
        for (_, def) in b.pool.roots() {
            bodies |= matches!(&def.value, AnyDefinition::Class(c) if c.functions.contains(&un(cur)));
            let mut dry = Faulty::new(vec![], Plan::none(), 0);
            if write_definition(&mut dry, def, &b.pool, 0, mode).is_err() {
                continue;
            }
            for _ in 0..40.min(dry.ops) {
                let k = r.below(dry.ops as usize) as u64;
                let (sticky, error) = (r.bool(), *r.pick(&ERRORS));
                let plan = Plan { fail_at: Some(k), fail_kind: kind, sticky, error, ..Plan::none() };
                o.describe(format!("{mode:?}: {kind:?} ({error:?}, sticky {sticky}) at operation {k}/{}", dry.ops));
                let mut f = Faulty::new(vec![], plan, 0);
                let res = guarded(|| write_definition(&mut f, def, &b.pool, 0, mode))?;
                if f.failed > 0 {
                    ensure!(res.is_err(), "printing claims success although writing failed ({kind:?}, {error:?}, sticky {sticky}) at operation {k} of {}", dry.ops);
                    o.hit("failed writes surfaced");
                }
            }
        }
        if bodies {
            o.hit("failing output with methods");
        }
        Ok(())
    });
    // well-formed bodies with a few instructions replaced, removed, duplicated or retargeted
    let n = c.n(20_000, 500_000);
    c.run("damaged bodies", n, |i, r, o| {
        let mut e = Env::world(r);
        let mut g = G::new(&mut e, r);
        let mut u = Used::default();
        program::<Rich>(&mut g, Shape { depth: 1 + i % 4, width: 3, dead: true }, &mut u);
        let mut code = assemble(&g.toks)?;
        let ndefs = e.b.defs.len();
        for _ in 0..1 + r.below(4) {
            if code.is_empty() {
                break;
            }
            let k = r.below(code.len());
            match r.below(5) {
                0 => code[k] = gen::instr(r, ndefs),
                1 => {
                    code.remove(k);
                }
                2 => {
                    let x = code[k].clone();
                    code.insert(r.below(code.len() + 1), x);
                }
                3 => code.truncate(k),
                _ => {
                    // prefer jumps
                    let jumps: Vec<usize> = (0..code.len()).filter(|k| matches!(code[*k].op, 28 | 29 | 31..=34)).collect();
                    let k = if jumps.is_empty() { k } else { *r.pick(&jumps) };
                    let total: u32 = code.iter().map(SInstr::virt_size).sum();
                    if let Some(a) = code[k].args.last_mut() {
                        *a = match r.below(3) {
                            0 => r.spicy() & 0xffff,
                            1 => u64::from((r.below(total as usize + 1) as u16).wrapping_sub(r.below(total as usize + 1) as u16)),
                            _ => a.wrapping_add(r.below(9) as u64).wrapping_sub(4) & 0xffff,
                        };
                    }
                }
            }
        }
        if code.iter().map(SInstr::virt_size).sum::<u32>() > 64_000 {
            return Ok(());
        }
        o.describe(listing(&code));
        o.distinct(hash_bytes(format!("{code:?}").as_bytes()));
        let cur = e.cur;
        e.set_code(cur, code);
        let b = load(&e.b)?;
        let def = definition(&b.pool, cur)?;
        for mode in MODES {
            let mut out = vec![];
            let ok = on_main_stack(|| write_definition(&mut out, def, &b.pool, 0, mode).is_ok())?;
            o.hit(if ok { "damaged bodies printed" } else { "damaged bodies rejected" });
        }
        Ok(())
    });
    // pathological shapes
    let n = c.n(120, 2000);
    c.run("extremes", n, |i, r, o| {
        let mut e = Env::world(r);
        let mut code: Vec<SInstr> = vec![];
        let t = e.type_("Int32");
        let size = [600usize, 3000, 20_000, 32_000][i / 15 % 4];
        match i % 15 {
            0 => code = vec![SInstr::new(RETURN, &[]); size],
            1 => code = vec![SInstr::new(ASSIGN, &[]); size],
            2 => code = vec![SInstr::new(103, &[t.into()]); size / 9],
            3 => code = vec![SInstr::new(CONTEXT, &[3]); size / 3],
            4 => code = vec![SInstr::new(CONDITIONAL, &[3, 5]); size / 5],
            // every branch reaches the end
            5 | 6 => {
                let k = size / 4;
                for j in 0..k {
                    let rest = (k - j) * 4;
                    code.push(SInstr::new(JUMP_IF_FALSE, &[rest as u64]));
                    code.push(SInstr::new(19, &[]));
                }
                code.push(SInstr::new(NOP, &[]));
            }
            // all branches jump back to the start
            7 => {
                let mut pos = 0u16;
                for _ in 0..size / 7 {
                    code.push(SInstr::new(JUMP_IF_FALSE, &[7]));
                    code.push(SInstr::new(19, &[]));
                    pos += 4;
                    code.push(SInstr::new(JUMP, &[u64::from(0u16.wrapping_sub(pos))]));
                    pos += 3;
                }
            }
            // switch labels chained in a circle, or onto themselves
            8 => {
                code.push(SInstr::new(SWITCH, &[t.into(), 12]));
                code.push(SInstr::new(19, &[]));
                for _ in 0..size / 6 {
                    code.push(SInstr::new(SWITCH_LABEL, &[r.pick(&[0u64, 6, 0xfffa, 12]) & 0xffff, 5]));
                    code.push(SInstr::new(19, &[]));
                }
            }
            // labels whose bodies overlap: nested re-reading
            9 => {
                for _ in 0..size / 40 {
                    code.push(SInstr::new(SWITCH, &[t.into(), 12]));
                    code.push(SInstr::new(19, &[]));
                    for _ in 0..3 {
                        code.push(SInstr::new(SWITCH_LABEL, &[6, 6]));
                        code.push(SInstr::new(19, &[]));
                    }
                    code.push(SInstr::new(SWITCH_DEFAULT, &[]));
                }
            }
            10 => {
                let f = e.funs[0].idx;
                for _ in 0..size / 20 {
                    code.push(SInstr::new(INVOKE_STATIC, &[14, 0, f.into(), 0]));
                }
            }
            11 => code = vec![SInstr::new(NOP, &[]); size * 2],
            // more code than offsets can address
            12 => code = vec![SInstr::new(6, &[7]); 14_000 + size],
            13 => {
                // types that contain themselves
                let n = e.b.defs.len() as u32;
                let tag = 2 + r.below(5) as u8;
                e.b.defs.push(SDef { name: 0, parent: 0, unk: [0; 3], val: SVal::Type(tag, n, 3) });
                if let SVal::Function(f) = &mut e.b.defs[e.cur as usize].val {
                    f.ret = Some(n);
                    f.flags |= ff::RET;
                }
                code = vec![SInstr::new(NOP, &[])];
            }
            _ => {
                // members of the wrong kind, a class that contains itself
                let ci = e.classes[0].idx;
                let (cur, n) = (e.cur, e.b.defs.len());
                if let SVal::Class(k) = &mut e.b.defs[ci as usize].val {
                    k.functions.push(ci);
                    k.functions.push(r.below(n) as u32);
                    k.fields.push(if r.bool() { ci } else { cur });
                }
                code = vec![SInstr::new(NOP, &[])];
            }
        }
        o.describe(format!("shape {} size {size}", i % 15));
        o.seen("shapes", (i % 15) as u64);
        let cur = e.cur;
        e.set_code(cur, code);
        let b = load(&e.b)?;
        let started = std::time::Instant::now();
        // the syntax tree dump is indented through one adapter per level: slow by nature on nested code
        let modes = [OutputMode::Code { verbose: false }, OutputMode::Bytecode];
        on_main_stack(|| print_all(&b, o, &modes))??;
        let secs = started.elapsed().as_secs();
        o.max("slowest extreme (s)", secs);
        Ok(())
    });
    let n = c.n(3000, 60_000);
    c.run("isolation", n, |_, r, o| {
        // a class whose methods are partly broken: the others are printed exactly as on their own
        let mut e = Env::empty();
        let ci = e.class("Host", 0, 0);
        let parent = e.classes[ci].idx;
        let mut good = vec![];
        let mut bad = 0;
        for k in 0..2 + r.below(6) {
            let f = e.function(&format!("Method{k};"), parent, 0, &[], None);
            e.method(ci, f);
            if r.chance(1, 3) {
                bad += 1;
                let code = match r.below(4) {
                    0 => vec![SInstr::new(PARAM_END, &[])],
                    1 => vec![SInstr::new(JUMP_IF_FALSE, &[2]), SInstr::new(19, &[]), SInstr::new(NOP, &[])],
                    2 => vec![SInstr::new(SWITCH_DEFAULT, &[]), SInstr::new(NOP, &[])],
                    _ => vec![SInstr::new(LOCAL, &[9_999_999]), SInstr::new(NOP, &[])],
                };
                e.set_code(f, code);
            } else {
                e.set_code(f, vec![SInstr::new(RETURN, &[]), SInstr::new(6, &[k as u64]), SInstr::new(NOP, &[])]);
                good.push(f);
            }
        }
        o.describe(format!("{:#?}", e.b.defs));
        let b = load(&e.b)?;
        for mode in [OutputMode::Code { verbose: false }, OutputMode::SyntaxTree] {
            let text = print(&b.pool, parent, mode)?;
            for f in &good {
                let mut out = vec![];
                write_definition(&mut out, definition(&b.pool, *f)?, &b.pool, 1, mode).map_err(|e| e.to_string())?;
                let own = String::from_utf8_lossy(&out).into_owned();
                ensure!(text.contains(&own), "a method that can be decompiled is missing: {own:?} in {text:?}");
                o.hit("methods found next to broken ones");
            }
            ensure!(text.trim_end().ends_with('}'), "the class is not closed");
        }
        o.add("broken methods", bad);
        Ok(())
    });
    c.require("failed writes surfaced", 2000);
    c.require("failing output with methods", 50);
    c.require("pools", 500);
    c.require("damaged bodies printed", 1000);
    c.require("damaged bodies rejected", 1000);
    c.require_all("shapes", 0..15);
    c.require("broken methods", 1000);
    c.require("methods found next to broken ones", 1000);
    c.finish()
}
