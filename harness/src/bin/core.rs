//! Monitors for the `redscript` core crate: bundle format, bytecode, pool, remapping, names.
use std::io::{Cursor, Read, Write};

use redscript::ast::{BinOp, Pos, Span, TypeName, UnOp};
use redscript::bundle::{PoolIndex, ScriptBundle, Timestamp};
use redscript::bytecode::{Code, CodeCursor, CursorError, Instr, IntrinsicOp, Label, Location, Offset};
use redscript::decode::Decode;
use redscript::definition::{AnyDefinition, Class, Function};
use redscript::encode::Encode;
use redscript::io::StreamOffset;
use redscript::mapper::{Mapper, MultiMapper, PoolMapper};
use redscript::Ref;
use vmon::alloc;
use vmon::faulty::{ERRORS, FailKind, Faulty, Plan};
use vmon::gen;
use vmon::obs::{self, ix, un};
use vmon::report::{guarded, hex, Check, Obs};
use vmon::rng::{hash_bytes, hash_str, Rng};
use vmon::spec::*;
use vmon::{ensure, ensure_eq};

#[global_allocator]
static GLOBAL: alloc::Monitor = alloc::Monitor;

fn predef() -> Vec<u8> {
    std::fs::read("/repo/resources/predef.redscripts").unwrap_or_default()
}

fn main() {
    let id = std::env::args().nth(1).unwrap_or_default();
    match id.as_str() {
        "C01" => c01(),
        "C02" => c02(),
        "C03" => c03(),
        "C04" => c04(),
        "C05" => c05(),
        "C06" => c06(),
        "C07" => c07(),
        "C08" => c08(),
        "C09" => c09(),
        _ => {
            eprintln!("unknown check {id}");
            std::process::exit(2);
        }
    }
}

fn ioe(what: &str) -> impl Fn(std::io::Error) -> String + '_ {
    move |e| format!("{what}: {e}")
}

fn count_bundle(o: &mut Obs, b: &SBundle, bytes: &[u8]) {
    o.add("definitions", b.defs.len() as u64 - 1);
    for d in &b.defs[1..] {
        o.seen("definition kinds", u64::from(d.val.kind()));
        if let SVal::Function(f) = &d.val {
            o.add("instructions", f.code.len() as u64);
            for i in &f.code {
                o.seen("opcodes", u64::from(i.op));
            }
        }
    }
    o.add("strings", (b.names.len() + b.tweakdb.len() + b.resources.len() + b.strings.len()) as u64);
    o.max("file bytes", bytes.len() as u64);
    if b.defs.len() > 1 {
        o.distinct(hash_bytes(bytes));
    }
}

/// The named flag accessors must read the documented bits.
fn check_accessors(d: &redscript::definition::Definition, m: &SDef) -> Result<(), String> {
    macro_rules! bits { ($flags:expr, $val:expr, $($name:ident $bit:expr),*) => {
        $( ensure_eq!($flags.$name(), $val & $bit != 0, "flag {} of {:#x}", stringify!($name), $val); )*
    } }
    match (&d.value, &m.val) {
        (AnyDefinition::Class(c), SVal::Class(s)) => {
            bits!(c.flags, s.flags, is_native cf::NATIVE, is_abstract cf::ABSTRACT, is_final cf::FINAL,
                is_struct cf::STRUCT, has_functions cf::HAS_FUNCTIONS, has_fields cf::HAS_FIELDS,
                is_import_only cf::IMPORT_ONLY, is_test_only cf::TEST_ONLY, has_overrides cf::HAS_OVERRIDES);
        }
        (AnyDefinition::Function(f), SVal::Function(s)) => {
            bits!(f.flags, s.flags, is_static ff::STATIC, is_exec ff::EXEC, is_timer ff::TIMER, is_final ff::FINAL,
                is_native ff::NATIVE, is_callback ff::CALLBACK, is_operator ff::OPERATOR, has_return_value ff::RET,
                has_base_method ff::BASE, has_parameters ff::PARAMS, has_locals ff::LOCALS, has_body ff::BODY,
                is_cast ff::CAST, is_implicit_cast ff::IMPLICIT_CAST, is_thread_safe ff::THREAD_SAFE,
                is_const ff::CONST, is_quest ff::QUEST);
        }
        (AnyDefinition::Field(f), SVal::Field(s)) => {
            bits!(f.flags, s.flags, is_native fdf::NATIVE, is_editable fdf::EDITABLE, is_inline fdf::INLINE,
                is_const fdf::CONST, is_replicated fdf::REPLICATED, has_hint fdf::HAS_HINT,
                is_instance_editable fdf::INSTANCE_EDITABLE, has_default fdf::HAS_DEFAULT,
                is_persistent fdf::PERSISTENT, is_test_only fdf::TEST_ONLY, is_browsable fdf::BROWSABLE);
        }
        (AnyDefinition::Parameter(p), SVal::Parameter { flags, .. }) => {
            bits!(p.flags, *flags, is_optional 1, is_out 2, is_short_circuit 4, is_const 8);
        }
        (AnyDefinition::Local(p), SVal::Local { flags, .. }) => {
            bits!(p.flags, *flags, is_const 1);
        }
        _ => {}
    }
    Ok(())
}

fn roundtrip(b: &SBundle, bytes: &[u8]) -> Result<Vec<u8>, String> {
    let real = obs::load(bytes).map_err(ioe("loading a well-formed file"))?;
    obs::compare_pool(&real.pool, b).map_err(|e| format!("after load: {e}"))?;
    for (i, d) in real.pool.definitions() {
        check_accessors(d, &b.defs[ix(i) as usize]).map_err(|e| format!("definition {i}: {e}"))?;
    }
    let saved = obs::save(&real).map_err(ioe("saving"))?;
    let (m, _) = SBundle::read(&saved).map_err(|e| format!("saved file is not readable by the reference reader: {e}"))?;
    obs::compare_models(&m, b).map_err(|e| format!("saved file: {e}"))?;
    for (i, d) in m.defs.iter().enumerate() {
        obs::check_derived(d).map_err(|e| format!("saved definition {i}: {e}"))?;
    }
    let again = obs::load(&saved).map_err(ioe("reloading the saved file"))?;
    obs::compare_pool(&again.pool, b).map_err(|e| format!("after reload: {e}"))?;
    Ok(saved)
}

// ---------------------------------------------------------------- C01
fn c01() {
    let mut c = Check::new(
        "C01",
        "exploration",
        "Random well-formed bundles (all definition kinds, all opcodes, arbitrary flag bits, unicode/empty/duplicate \
         strings, shuffled body order, gaps, shared string tails) written by an independent encoder; each is loaded, \
         saved, re-read by an independent strict reader and re-loaded, and every observable value is compared. \
         Non-trivial: at least one definition; distinct by file bytes.",
    );
    c.assume("names slot 0 is the reserved 'None' name and definition 0 the reserved null definition");
    c.assume("bits restating which optional parts a definition has are derived, not data");
    let n = c.n(6000, 150_000);
    c.run("bundle", n, |i, r, o| {
        let max = match i % 10 {
            0 => 200,
            1..=3 => 40,
            _ => 8,
        };
        let b = gen::bundle(r, max);
        if r.chance(1, 4) {
            TRUE.with(|t| t.set(r.range(2, 255) as u8));
        }
        let (bytes, _) = b.write_with(&gen::layout_variant(r, &b));
        TRUE.with(|t| t.set(1));
        o.describe(format!("file {} bytes: {}", bytes.len(), hex(&bytes[..bytes.len().min(4000)])));
        roundtrip(&b, &bytes)?;
        count_bundle(o, &b, &bytes);
        o.sample(|| format!("{} defs, {} names, {} bytes", b.defs.len(), b.names.len(), bytes.len()));
        Ok(())
    });
    let n = c.n(40, 400);
    c.run("big", n, |_, r, o| {
        let mut b = gen::bundle(r, 3000);
        // a function body far beyond 64 KiB of address space and a table with thousands of names
        let code: Vec<SInstr> = (0..9000).map(|_| gen::instr(r, 5000)).collect();
        b.defs.push(SDef {
            name: 1,
            parent: 2,
            unk: [0; 3],
            val: SVal::Function(SFunction { flags: ff::NATIVE | ff::BODY, code, ..SFunction::default() }),
        });
        for k in 0..5000 {
            b.names.push(format!("name{k}"));
        }
        let bytes = b.write();
        roundtrip(&b, &bytes)?;
        count_bundle(o, &b, &bytes);
        Ok(())
    });
    let n = c.n(gen::SCALES, 60);
    c.run("scale", n, |i, r, o| {
        let b = gen::scale(r, i);
        o.describe(format!("scale {}", i % gen::SCALES));
        let bytes = b.write();
        roundtrip(&b, &bytes)?;
        count_bundle(o, &b, &bytes);
        o.hit("large caches");
        Ok(())
    });
    c.run("predef", 1, |_, _, o| {
        let bytes = predef();
        let real = obs::load(&bytes).map_err(ioe("loading the shipped predef bundle"))?;
        let saved = obs::save(&real).map_err(ioe("saving"))?;
        let (m, _) = SBundle::read(&saved)?;
        obs::compare_pool(&real.pool, &m)?;
        o.hit("predef");
        Ok(())
    });
    // whatever the loader accepts, it must not change by saving and loading again
    let n = c.n(60_000, 2_000_000);
    c.run("accepted-mutants", n, |_, r, o| {
        let bytes = mutant(r, 12);
        let Ok(Ok(real)) = guarded(|| obs::load(&bytes)) else {
            o.hit("mutants rejected");
            return Ok(());
        };
        let v = obs::view(&real.pool)?;
        // an assembler-only marker instruction in a stored body is outside the format
        for d in &v.defs {
            if let SVal::Function(f) = &d.val {
                if f.code.iter().any(|i| i.op == OP_TARGET) {
                    return Ok(());
                }
                // optional parts present without the flag that announces them cannot come from a loader
            }
        }
        o.describe(format!("file {}", hex(&bytes)));
        let saved = obs::save(&real).map_err(ioe("saving an accepted file"))?;
        let again = obs::load(&saved).map_err(ioe("reloading an accepted file after saving it"))?;
        let w = obs::view(&again.pool)?;
        ensure!(
            v.names == w.names && v.tweakdb == w.tweakdb && v.resources == w.resources && v.strings == w.strings,
            "string tables changed by save+load of an accepted file"
        );
        ensure_eq!(v.defs.len(), w.defs.len(), "definition count");
        for (i, (a, b)) in v.defs.iter().zip(&w.defs).enumerate() {
            ensure!(
                (a.name, a.parent, a.unk) == (b.name, b.parent, b.unk)
                    && obs::strip_derived(&a.val) == obs::strip_derived(&b.val),
                "definition {i} changed by save+load: {} -> {}",
                obs::short(a),
                obs::short(b)
            );
        }
        o.hit("mutants accepted");
        o.distinct(hash_bytes(&bytes));
        Ok(())
    });
    c.require("mutants accepted", 1000);
    c.require("definitions", 10_000);
    c.require_all("definition kinds", gen::KINDS.map(u64::from));
    c.require_all("opcodes", (0..u64::from(OP_COUNT)).filter(|x| *x != u64::from(OP_TARGET)));
    c.finish()
}

/// A hostile file derived from a valid one.
fn mutant(r: &mut Rng, max_defs: usize) -> Vec<u8> {
    let (mut bytes, map) = if r.chance(1, 8) {
        let p = predef();
        let m = SBundle::read(&p).map(|x| x.1).unwrap_or_default();
        (p, m)
    } else {
        let b = gen::bundle(r, max_defs);
        b.write_with(&gen::layout_variant(r, &b))
    };
    let k = r.range(1, 3);
    for _ in 0..k {
        if bytes.is_empty() {
            break;
        }
        let len = bytes.len();
        let pos = match r.below(8) {
            0 => r.below(len.min(HEADER)),
            1 if map.tables[3].1 > 0 => {
                let (o, n) = map.tables[3];
                (o + r.below(n * 20)).min(len - 1)
            }
            2 | 3 if map.bodies.len() > 1 => {
                let (o, n) = *r.pick(&map.bodies[1..]);
                (o + r.below(n.max(1))).min(len - 1)
            }
            4 if map.data.1 > 0 => (map.data.0 + r.below(map.data.1)).min(len - 1),
            5 => {
                let (o, n) = *r.pick(&map.tables);
                (o + r.below((n * 4).max(1))).min(len - 1)
            }
            _ => r.below(len),
        };
        match r.below(7) {
            0 => bytes[pos] ^= 1 << r.below(8),
            1 => bytes[pos] = r.u8(),
            2 => {
                let v = (r.spicy() as u32).to_le_bytes();
                for (j, x) in v.iter().enumerate() {
                    if pos + j < len {
                        bytes[pos + j] = *x;
                    }
                }
            }
            3 => {
                // aligned header field
                let p = 4 * r.below(26);
                let v = (r.spicy() as u32).to_le_bytes();
                if p + 4 <= len {
                    bytes[p..p + 4].copy_from_slice(&v);
                }
            }
            4 if r.chance(1, 3) => bytes.truncate(pos),
            5 => {
                bytes.remove(pos);
            }
            _ => bytes[pos] = *r.pick(&[0, 1, 2, 0x7f, 0x80, 0xff, 4, 5, 9, 10, 23, 51]),
        }
    }
    bytes
}

// ---------------------------------------------------------------- C02
fn c02() {
    let mut c = Check::new(
        "C02",
        "exploration",
        "Random bundles are loaded and saved; the output is validated by an independent strict reader (magic, header \
         hash, per-table checksums/offsets/counts, per-definition offset+size, no overlap, no unaccounted byte, every \
         string stored once and referenced), saved repeatedly and from several threads, and re-saved after reload. \
         Non-trivial: at least one definition; distinct by output bytes.",
    );
    let n = c.n(6000, 150_000);
    c.run("save", n, |i, r, o| {
        let b = gen::bundle(r, if i % 10 == 0 { 150 } else { 12 });
        let (bytes, _) = b.write_with(&gen::layout_variant(r, &b));
        o.describe(format!("file {}", hex(&bytes[..bytes.len().min(4000)])));
        let real = obs::load(&bytes).map_err(ioe("load"))?;
        let s1 = obs::save(&real).map_err(ioe("save"))?;
        let (m, _) = SBundle::read(&s1).map_err(|e| format!("saved file violates the format: {e}"))?;
        // each distinct string is stored once
        let mut uniq = std::collections::HashSet::new();
        let mut expect = 0usize;
        for s in m.names.iter().chain(&m.tweakdb).chain(&m.resources).chain(&m.strings) {
            if uniq.insert(s.as_str()) {
                expect += s.len() + 1;
            }
        }
        let data = u32::from_le_bytes(s1[36..40].try_into().unwrap()) as usize;
        ensure_eq!(data, expect, "string data bytes");
        // same input, same bytes
        let s2 = obs::save(&real).map_err(ioe("second save"))?;
        ensure!(s1 == s2, "two saves of one bundle differ at byte {}", first_diff(&s1, &s2));
        let twin = obs::load(&bytes).map_err(ioe("load"))?;
        let s3 = obs::save(&twin).map_err(ioe("save"))?;
        ensure!(s1 == s3, "saves of two loads of one file differ at byte {}", first_diff(&s1, &s3));
        // saving does not disturb the in-memory bundle
        obs::compare_pool(&real.pool, &b).map_err(|e| format!("bundle changed by saving: {e}"))?;
        // a saved file is a fixed point
        let re = obs::load(&s1).map_err(ioe("reload"))?;
        let s4 = obs::save(&re).map_err(ioe("save"))?;
        ensure!(s1 == s4, "re-saving a saved file changes byte {}", first_diff(&s1, &s4));
        // and does not depend on where the output stream happened to be positioned
        let mut out = Cursor::new(vec![]);
        out.set_position(r.below(300) as u64);
        real.save(&mut out).map_err(ioe("save"))?;
        ensure!(out.get_ref() == &s1, "output depends on the initial stream position");
        if r.chance(1, 50) {
            let s1c = s1.clone();
            let bytes2 = bytes.clone();
            let other = std::thread::spawn(move || obs::save(&obs::load(&bytes2).unwrap()).unwrap() == s1c)
                .join()
                .unwrap_or(false);
            ensure!(other, "saving on another thread gives different bytes");
            o.hit("cross-thread saves");
        }
        o.add("checksummed tables", 6);
        o.hit("saves validated");
        count_bundle(o, &b, &s1);
        o.sample(|| format!("{} bytes, header {}", s1.len(), hex(&s1[..HEADER])));
        Ok(())
    });
    c.run("predef", 1, |_, _, o| {
        let p = predef();
        let s = obs::save(&obs::load(&p).map_err(ioe("load"))?).map_err(ioe("save"))?;
        SBundle::read(&s).map_err(|e| format!("saved predef violates the format: {e}"))?;
        let s2 = obs::save(&obs::load(&s).map_err(ioe("load"))?).map_err(ioe("save"))?;
        ensure!(s == s2, "re-saving the saved predef changes it");
        o.hit("predef");
        Ok(())
    });
    let n = c.n(gen::SCALES, 60);
    c.run("scale", n, |i, r, o| {
        let b = gen::scale(r, i);
        o.describe(format!("scale {}", i % gen::SCALES));
        let s1 = obs::save(&obs::load(&b.write()).map_err(ioe("load"))?).map_err(ioe("save"))?;
        let (m, _) = SBundle::read(&s1).map_err(|e| format!("saved file violates the format: {e}"))?;
        for (i, d) in m.defs.iter().enumerate() {
            obs::check_derived(d).map_err(|e| format!("definition {i}: {e}"))?;
        }
        let s2 = obs::save(&obs::load(&s1).map_err(ioe("reload"))?).map_err(ioe("save"))?;
        ensure!(s1 == s2, "re-saving a saved file changes byte {}", first_diff(&s1, &s2));
        count_bundle(o, &b, &s1);
        o.hit("large caches");
        Ok(())
    });
    // definitions made in memory, whose flags have never been in a file
    let n = c.n(3000, 60_000);
    c.run("edited", n, |_, r, o| {
        let mut b = gen::bundle(r, 30);
        let mut real = obs::load(&b.write()).map_err(ioe("load"))?;
        let len = b.defs.len();
        let mut order = vec![];
        for _ in 0..1 + r.below(12) {
            let slot = if len > 1 && r.bool() { 1 + r.below(len - 1) } else { b.defs.len() };
            let d = gen::definition(r, len);
            let mut stale = d.clone();
            match &mut stale.val {
                SVal::Class(c) => c.flags ^= r.u16() & cf::DERIVED,
                SVal::Function(f) => {
                    f.flags ^= r.u32() & ff::DERIVED;
                    if f.flags & ff::NATIVE != 0 && r.bool() {
                        // natives are stored without a source
                        f.source = Some((gen::idx(r, len), r.u32()));
                        o.hit("natives with a source");
                    }
                    if f.flags & ff::CAST == 0 && r.bool() {
                        f.cast = r.u8();
                    }
                }
                SVal::Field(f) => f.flags ^= r.u16() & fdf::HAS_HINT,
                _ => {}
            }
            order.push((slot, obs::short(&stale)));
            if slot == b.defs.len() {
                let at = real.pool.add_definition::<redscript::definition::Definition>(obs::make_def(&stale));
                ensure_eq!(obs::ix(at) as usize, slot, "index of an added definition");
                b.defs.push(d);
            } else {
                real.pool.put_definition(obs::un::<redscript::definition::Definition>(slot as u32), obs::make_def(&stale));
                b.defs[slot] = d;
            }
        }
        o.describe(format!("{order:?}"));
        let s1 = obs::save(&real).map_err(ioe("save"))?;
        let (m, _) = SBundle::read(&s1).map_err(|e| format!("saved file violates the format: {e}"))?;
        obs::compare_models(&m, &b).map_err(|e| format!("an edited cache is saved differently: {e}"))?;
        for d in &m.defs[1..] {
            obs::check_derived(d)?;
        }
        let s2 = obs::save(&obs::load(&s1).map_err(ioe("reload"))?).map_err(ioe("save"))?;
        ensure!(s1 == s2, "re-saving an edited cache changes byte {}", first_diff(&s1, &s2));
        o.distinct(vmon::rng::hash_bytes(&s1));
        o.hit("edited caches");
        Ok(())
    });
    c.require("saves validated", 500);
    c.require("edited caches", 500);
    c.require("natives with a source", 100);
    c.finish()
}

fn first_diff(a: &[u8], b: &[u8]) -> usize {
    a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()))
}

// ---------------------------------------------------------------- C03
fn alloc_limit(len: usize) -> usize {
    (4 << 20) + 256 * len
}

/// Loads under the allocation monitor; Err = violation.
fn hostile_load(bytes: &[u8], o: &mut Obs) -> Result<Option<ScriptBundle>, String> {
    alloc::reset();
    let res = guarded(|| obs::load(bytes));
    let st = alloc::stats();
    o.max("largest single allocation", st.max_request as u64);
    let res = res.map_err(|e| format!("loading hostile bytes: {e}"))?;
    ensure!(
        st.max_request <= alloc_limit(bytes.len()),
        "loading a {}-byte file requested {} bytes in one allocation",
        bytes.len(),
        st.max_request
    );
    let reference = SBundle::read_lenient(bytes);
    match res {
        Ok(b) => {
            o.hit("accepted");
            match reference {
                Some(Err(e)) => return Err(format!("a file the format does not allow was accepted: {e}")),
                Some(Ok(m)) => {
                    obs::compare_pool(&b.pool, &m).map_err(|e| format!("an accepted file was misread: {e}"))?;
                    o.hit("accepted files compared");
                }
                None => o.hit("layout fields ambiguous"),
            }
            Ok(Some(b))
        }
        Err(e) => {
            match reference {
                Some(Err(e)) => {
                    o.hit("rejected as the reference reader does");
                    o.seen("reasons to reject", hash_str(&e.chars().filter(|c| !c.is_ascii_digit()).collect::<String>()));
                }
                Some(Ok(_)) => o.hit("rejected, readable for the reference"),
                None => {}
            }
            o.seen("error kinds", hash_str(&format!("{:?}", e.kind())));
            o.hit("rejected");
            Ok(None)
        }
    }
}

fn c03() {
    let mut c = Check::new(
        "C03",
        "exploration",
        "Hostile files: structure-aware mutants of valid bundles (header/table/definition/body/bytecode fields set to \
         boundary values, bit flips, deletions, truncations), every strict prefix of saved files, random bytes, and \
         single-field sweeps. The monitor watches for panics, arithmetic overflow, aborts and oversized allocations; \
         every strict prefix must be rejected, and so must every file the independent reader cannot make sense of; \
         what is accepted must have the content that reader finds. Distinct by file bytes.",
    );
    let n = c.n(120_000, 4_000_000);
    c.run("mutants", n, |_, r, o| {
        let bytes = mutant(r, 10);
        o.describe(format!("file {}", hex(&bytes)));
        let b = hostile_load(&bytes, o)?;
        if let Some(b) = b {
            // what was accepted can be inspected and saved without crashing
            guarded(|| obs::view(&b.pool)).map_err(|e| format!("inspecting an accepted file: {e}"))??;
            guarded(|| obs::save(&b)).map_err(|e| format!("saving an accepted file: {e}"))?.map_err(ioe("saving an accepted file"))?;
        }
        o.distinct(hash_bytes(&bytes));
        Ok(())
    });
    let n = c.n(20_000, 500_000);
    c.run("random-bytes", n, |i, r, o| {
        let len = r.below(400);
        let mut bytes: Vec<u8> = (0..len).map(|_| r.u8()).collect();
        if i % 4 != 0 && len >= 4 {
            bytes[..4].copy_from_slice(&MAGIC.to_le_bytes());
        }
        if i % 4 >= 2 && len >= HEADER {
            // plausible small counts
            for k in 0..6 {
                let v = (r.below(6) as u32).to_le_bytes();
                bytes[36 + 12 * k - 4..36 + 12 * k].copy_from_slice(&v);
            }
        }
        o.describe(format!("file {}", hex(&bytes)));
        hostile_load(&bytes, o)?;
        if len >= 4 {
            o.distinct(hash_bytes(&bytes));
        }
        Ok(())
    });
    let n = c.n(300, 10_000);
    c.run("prefixes", n, |_, r, o| {
        let b = gen::bundle(r, 6);
        let real = obs::load(&b.write()).map_err(ioe("load"))?;
        let s = obs::save(&real).map_err(ioe("save"))?;
        let cuts: Vec<usize> = if s.len() <= 3000 { (0..s.len()).collect() } else { (0..3000).map(|_| r.below(s.len())).collect() };
        for cut in cuts {
            o.describe(format!("prefix {cut} of {}", hex(&s[..s.len().min(5000)])));
            let res = hostile_load(&s[..cut], o)?;
            ensure!(res.is_none(), "a file truncated to {cut} of {} bytes was accepted", s.len());
            o.hit("truncations rejected");
        }
        o.distinct(hash_bytes(&s));
        Ok(())
    });
    // single-field sweep: every byte of a kitchen-sink file set to boundary values
    let (sink, _) = kitchen_sink().write_with(&SBundle::canonical_layout());
    let values = [0u8, 1, 2, 3, 4, 5, 7, 9, 10, 23, 28, 0x7f, 0x80, 0xfd, 0xfe, 0xff];
    let total = sink.len() * values.len();
    c.run("byte-sweep", total, |i, _, o| {
        let mut f = sink.clone();
        f[i / values.len()] = values[i % values.len()];
        o.describe(format!("byte {} of the kitchen-sink file set to {}", i / values.len(), values[i % values.len()]));
        if let Some(b) = hostile_load(&f, o)? {
            guarded(|| obs::save(&b)).map_err(|e| format!("saving an accepted file: {e}"))?.map_err(ioe("saving"))?;
        }
        o.distinct(hash_bytes(&f));
        Ok(())
    });
    let words = [0u32, 1, 0x7fff, 0x8000, 0xffff, 0x7fff_fffc, 0x7fff_ffff, 0x8000_0000, 0xffff_fffd, 0xffff_ffff];
    let total = (sink.len() - 3) * words.len();
    c.run("word-sweep", total, |i, _, o| {
        let mut f = sink.clone();
        let p = i / words.len();
        f[p..p + 4].copy_from_slice(&words[i % words.len()].to_le_bytes());
        o.describe(format!("u32 at {p} of the kitchen-sink file set to {:#x}", words[i % words.len()]));
        if let Some(b) = hostile_load(&f, o)? {
            guarded(|| obs::save(&b)).map_err(|e| format!("saving an accepted file: {e}"))?.map_err(ioe("saving"))?;
        }
        o.distinct(hash_bytes(&f));
        Ok(())
    });
    // raw instruction streams
    let n = c.n(100_000, 3_000_000);
    c.run("code-bytes", n, |_, r, o| {
        let len = r.below(60);
        let mut bytes: Vec<u8> = (r.below(90) as u32).to_le_bytes().to_vec();
        for _ in 0..len {
            bytes.push(if r.bool() { r.u8() } else { r.below(104) as u8 });
        }
        o.describe(format!("code block {}", hex(&bytes)));
        alloc::reset();
        let res = guarded(|| Code::<Offset>::decode(&mut Cursor::new(&bytes))).map_err(|e| format!("decoding code: {e}"))?;
        let st = alloc::stats();
        ensure!(st.max_request <= alloc_limit(bytes.len()), "decoding {} bytes of code requested {} bytes", bytes.len(), st.max_request);
        let mut rd = Rd::new(&bytes);
        rd.lenient = true;
        let reference = read_code(&mut rd);
        match res {
            Ok(_) => {
                reference.map_err(|e| format!("code the format does not allow was accepted: {e}"))?;
                o.hit("code accepted");
            }
            Err(_) => o.hit("code rejected"),
        }
        o.distinct(hash_bytes(&bytes));
        Ok(())
    });
    let lens = [0usize, 1, 255, 65_520, 65_528, 65_529, 65_530, 65_531, 65_535, 65_536, 70_000, 131_072, 131_066];
    c.run("long-operands", lens.len() * 3, |i, _, o| {
        let len = lens[i / 3];
        let claimed = [6 + len as u32, 1, u32::MAX][i % 3];
        let mut bytes = claimed.to_le_bytes().to_vec();
        bytes.push(51);
        bytes.extend((len as u32).to_le_bytes());
        bytes.extend(std::iter::repeat(b'x').take(len));
        bytes.push(1);
        o.describe(format!("StartProfiling with a {len}-byte name in a code block of declared size {claimed}"));
        let res = guarded(|| {
            Code::<Offset>::decode(&mut Cursor::new(&bytes)).map(|c| {
                let mut out = vec![];
                let r = c.encode(&mut out);
                (r, out)
            })
        })
        .map_err(|e| format!("decoding code: {e}"))?;
        if let Ok((r, out)) = res {
            r.map_err(ioe("re-encoding accepted code"))?;
            ensure!(claimed != u32::MAX, "a truncated code block was accepted");
            ensure!(out[4..] == bytes[4..], "an accepted long instruction is not written back as it was read");
            ensure_eq!(u32::from_le_bytes(out[..4].try_into().unwrap()), 6 + len as u32, "declared code size");
            o.hit("long operands accepted");
        } else if claimed != u32::MAX {
            ensure!(len > 60_000, "a valid {len}-byte operand was rejected");
        }
        o.distinct(hash_bytes(&bytes[..8]));
        Ok(())
    });
    c.require("accepted", 1000);
    c.require("rejected", 1000);
    c.require("truncations rejected", 1000);
    c.require("accepted files compared", 1000);
    c.require("rejected as the reference reader does", 1000);
    c.finish()
}

/// A file containing every definition kind and every opcode.
fn kitchen_sink() -> SBundle {
    let mut r = Rng::new(0xC0FFEE);
    let mut b = SBundle {
        version: 14,
        names: ["", "A", "Int32", "ref:A", "f;Int32"].map(String::from).to_vec(),
        tweakdb: vec!["Items.X".into()],
        resources: vec!["base\\x.ent".into()],
        strings: vec!["hello".into(), "A".into()],
        defs: vec![null_def()],
        ..SBundle::default()
    };
    for t in 0..7 {
        b.defs.push(SDef { name: 2, parent: 0, unk: [0; 3], val: SVal::Type(t, if t >= 2 { 1 } else { 0 }, if t == 5 { 4 } else { 0 }) });
    }
    for k in [1u8, 2, 3, 6, 7, 8, 9] {
        let mut v = gen::val(&mut r, k, 10);
        if let SVal::Field(f) = &mut v {
            f.hint = Some("hint".into());
            f.flags |= fdf::HAS_HINT;
            f.attrs = vec![("k".into(), "v".into())];
        }
        if let SVal::Class(cl) = &mut v {
            cl.functions = vec![1, 2];
            cl.fields = vec![3];
            cl.overrides = vec![4];
            cl.flags |= cf::DERIVED;
        }
        b.defs.push(SDef { name: 1, parent: 0, unk: [0; 3], val: v });
    }
    let code: Vec<SInstr> = (0..OP_COUNT).filter(|o| *o != OP_TARGET).map(|op| gen::instr_of_op(&mut r, op, 10)).collect();
    b.defs.push(SDef {
        name: 4,
        parent: 8,
        unk: [1, 2, 3],
        val: SVal::Function(SFunction {
            vis: 1,
            flags: ff::DERIVED | ff::CAST | ff::UNK4,
            source: Some((14, 3)),
            ret: Some(1),
            unk1: true,
            base_method: Some(15),
            params: vec![11],
            locals: vec![12],
            operator: Some(7),
            cast: 9,
            code,
            unk2: vec![11],
        }),
    });
    b
}

// ---------------------------------------------------------------- C04
fn c04() {
    let mut c = Check::new(
        "C04",
        "fault_enumeration",
        "Streams with short transfers and spurious Interrupted must give the same result as a plain stream; an error \
         (or zero-length transfer) injected at the k-th stream operation, for every k of a run, must surface as Err \
         from load/save, never as success, panic or endless loop. Non-trivial: the fault was actually reached; \
         distinct by (file, operation, fault kind, k).",
    );
    let n = c.n(1500, 40_000);
    c.run("short-transfers", n, |i, r, o| {
        let b = gen::bundle(r, if i % 8 == 0 { 60 } else { 8 });
        let bytes = b.write();
        let plain = obs::load(&bytes).map_err(ioe("load"))?;
        let expect = obs::save(&plain).map_err(ioe("save"))?;
        let plan = Plan {
            max_chunk: *r.pick(&[0, 1, 1, 2, 3, 7, 64]),
            interrupt_pct: *r.pick(&[0, 0, 10, 40]),
            ..Plan::none()
        };
        o.describe(format!("{plan:?} file {}", hex(&bytes[..bytes.len().min(3000)])));
        let mut f = Faulty::new(bytes.clone(), plan.clone(), r.u64());
        let got = ScriptBundle::load(&mut f).map_err(ioe("load over a stuttering stream"))?;
        o.add("short reads", f.short);
        o.add("interrupted reads", f.interrupts);
        obs::compare_pool(&got.pool, &b).map_err(|e| format!("stuttering read: {e}"))?;
        let mut w = Faulty::new(vec![], plan, r.u64());
        got.save(&mut w).map_err(ioe("save over a stuttering stream"))?;
        o.add("short writes", w.short);
        o.add("interrupted writes", w.interrupts);
        let out = w.inner.into_inner();
        ensure!(
            out == expect,
            "file written through a stuttering stream differs at byte {} ({} vs {} bytes)",
            first_diff(&out, &expect),
            out.len(),
            expect.len()
        );
        o.distinct(hash_bytes(&bytes));
        Ok(())
    });
    let n = c.n(600, 15_000);
    c.run("save-faults", n, |i, r, o| {
        let b = gen::bundle(r, if i % 10 == 0 { 40 } else { 6 });
        let bytes = b.write();
        let real = obs::load(&bytes).map_err(ioe("load"))?;
        let mut dry = Faulty::new(vec![], Plan::none(), 0);
        // writes can be held back by a buffer: what save did not flush would fail where nobody looks
        let buffer = if i % 2 == 1 { Some(*r.pick(&[16, 64, 300, 4096, 1 << 20])) } else { None };
        let save = |f: &mut Faulty| match buffer {
            Some(n) => real.save(&mut std::io::BufWriter::with_capacity(n, f)),
            None => real.save(f),
        };
        save(&mut dry).map_err(ioe("save"))?;
        let ops = dry.ops;
        let ks: Vec<u64> = if ops <= 2500 { (0..ops).collect() } else { (0..2500).map(|_| r.below(ops as usize) as u64).collect() };
        let kind = [FailKind::Error, FailKind::Zero, FailKind::PartialThenError][i % 3];
        for k in ks {
            let error = ERRORS[(k as usize + i) % ERRORS.len()];
            let sticky = (k as usize / ERRORS.len() + i / 3) % 2 == 0;
            let plan = Plan { fail_at: Some(k), fail_kind: kind, sticky, error, ..Plan::none() };
            o.describe(format!("save fault (buffer {buffer:?}) {kind:?} ({error:?}, sticky {sticky}) at op {k}/{ops} file {}", hex(&bytes[..bytes.len().min(3000)])));
            let mut f = Faulty::new(vec![], plan, 0);
            let res = guarded(|| save(&mut f))?;
            if f.failed > 0 {
                ensure!(res.is_err(), "save reported success although the stream failed ({kind:?}, {error:?}, sticky {sticky}) at operation {k} of {ops}");
                o.hit("save faults surfaced");
                if buffer.is_some() {
                    o.hit("save faults behind a buffer");
                }
                o.seen("error kinds injected", error as u64);
                o.distinct(hash_bytes(&bytes) ^ (k << 3) ^ kind as u64);
            }
        }
        o.sample(|| format!("save of {} defs: {kind:?} injected at each of {ops} operations", b.defs.len()));
        Ok(())
    });
    let n = c.n(600, 15_000);
    c.run("load-faults", n, |i, r, o| {
        let b = gen::bundle(r, if i % 10 == 0 { 40 } else { 6 });
        let bytes = b.write();
        let mut dry = Faulty::new(bytes.clone(), Plan::none(), 0);
        ScriptBundle::load(&mut dry).map_err(ioe("load"))?;
        let ops = dry.ops;
        let ks: Vec<u64> = if ops <= 2500 { (0..ops).collect() } else { (0..2500).map(|_| r.below(ops as usize) as u64).collect() };
        let kind = [FailKind::Error, FailKind::Zero, FailKind::PartialThenError][i % 3];
        for k in ks {
            let error = ERRORS[(k as usize + i) % ERRORS.len()];
            let sticky = (k as usize / ERRORS.len() + i / 3) % 2 == 0;
            let plan = Plan { fail_at: Some(k), fail_kind: kind, sticky, error, ..Plan::none() };
            o.describe(format!("load fault {kind:?} ({error:?}, sticky {sticky}) at op {k}/{ops} file {}", hex(&bytes[..bytes.len().min(3000)])));
            let mut f = Faulty::new(bytes.clone(), plan, 0);
            let res = guarded(|| ScriptBundle::load(&mut f).map(|_| ()))?;
            // a zero-length read is a premature end of file unless the stream really is at its end
            if f.failed > 0 && !(kind == FailKind::Zero && f.failed == 1 && f.inner.position() as usize == bytes.len()) {
                ensure!(res.is_err(), "load reported success although the stream failed ({kind:?}, {error:?}, sticky {sticky}) at operation {k} of {ops}");
                o.hit("load faults surfaced");
                o.seen("error kinds injected", error as u64);
                o.distinct(hash_bytes(&bytes) ^ (k << 3) ^ kind as u64 ^ 0x5555);
            }
        }
        Ok(())
    });
    let n = c.n(4000, 100_000);
    c.run("offset-stream", n, |_, r, o| {
        let start = r.below(50);
        let mut f = Faulty::new(vec![7; 50], Plan { max_chunk: r.range(1, 5), interrupt_pct: 20, ..Plan::none() }, r.u64());
        f.inner.set_position(start as u64);
        let mut s = StreamOffset::new_seekable(f).map_err(ioe("seekable"))?;
        ensure_eq!(s.offset(), start, "initial offset");
        let mut at = start;
        for _ in 0..r.range(1, 20) {
            let n = r.below(12);
            let buf = vec![r.u8(); n];
            match s.write(&buf) {
                Ok(k) => {
                    ensure!(k <= n, "wrote more than asked");
                    at += k;
                }
                Err(_) => o.hit("interrupted offset writes"),
            }
            ensure_eq!(s.offset(), at, "offset after a write");
            if r.bool() {
                let _ = s.write_all(&buf).map(|()| at += n);
                ensure_eq!(s.offset(), at, "offset after write_all");
            }
        }
        let inner = s.into_inner();
        ensure_eq!(inner.inner.position() as usize, at, "real stream position");
        let data = inner.inner.into_inner();
        let mut rd = StreamOffset::new_zeroed(Faulty::new(data, Plan { max_chunk: 3, interrupt_pct: 20, ..Plan::none() }, r.u64()));
        let mut total = 0;
        for _ in 0..20 {
            let mut buf = vec![0; r.below(9)];
            if let Ok(k) = rd.read(&mut buf) {
                total += k;
            }
            ensure_eq!(rd.offset(), total, "offset after a read");
        }
        o.hit("offset histories");
        Ok(())
    });
    c.require("save faults surfaced", 1000);
    c.require("save faults behind a buffer", 500);
    c.require("load faults surfaced", 1000);
    c.require("short writes", 1000);
    c.require("interrupted reads", 100);
    c.finish()
}

// ---------------------------------------------------------------- C05
fn check_instr(s: &SInstr, o: &mut Obs) -> Result<(), String> {
    let mut bytes = vec![];
    s.write(&mut bytes);
    let mut rd = bytes.clone();
    rd.extend([0xA5; 12]);
    let mut cur = Cursor::new(&rd[..]);
    let real: Instr<Offset> = Decode::decode(&mut cur).map_err(|e| format!("decoding {}: {e}", hex(&bytes)))?;
    ensure_eq!(cur.position() as usize, bytes.len(), "bytes consumed by opcode {}", s.op);
    let seen = obs::instr(&real);
    ensure!(&seen == s, "opcode {}: bytes {} decode to {:?}, expected {:?}", s.op, hex(&bytes), seen, s);
    let mut out = vec![];
    real.encode(&mut out).map_err(ioe("encode"))?;
    ensure!(out == bytes, "opcode {}: decoded {} re-encodes to {}", s.op, hex(&bytes), hex(&out));
    let made = obs::mk(s);
    let mut out = vec![];
    made.encode(&mut out).map_err(ioe("encode"))?;
    ensure!(out == bytes, "opcode {} {:?} encodes to {}, expected {}", s.op, s, hex(&out), hex(&bytes));
    if s.op != OP_TARGET {
        ensure_eq!(u32::from(real.size()), s.virt_size(), "address-space size of opcode {}", s.op);
    }
    let nan = match &made {
        Instr::F32Const(f) => f.is_nan(),
        Instr::F64Const(f) => f.is_nan(),
        _ => false,
    };
    if !nan {
        ensure!(made == real, "opcode {}: constructed and decoded instructions differ", s.op);
    }
    o.hit("instructions round-tripped");
    o.seen("opcodes", u64::from(s.op));
    Ok(())
}

fn c05() {
    let mut c = Check::new(
        "C05",
        "exploration",
        "Every opcode with boundary and random operands (1- and 2-byte operands exhaustively) is encoded, decoded, \
         re-encoded and measured against an independent opcode table; every truncation must fail; unknown opcodes \
         must be rejected; whole code blocks are checked for their size prefix. Distinct by instruction bytes.",
    );
    let n = c.n(4000, 100_000) * OP_COUNT as usize / 104;
    for op in 0..OP_COUNT {
        if op == OP_TARGET {
            continue;
        }
        let name = format!("op{op:03}");
        let per = n / 20;
        c.run(&name, per, |_, r, o| {
            let s = gen::instr_of_op(r, op, 1000);
            o.describe(format!("{s:?}"));
            check_instr(&s, o)?;
            let mut b = vec![];
            s.write(&mut b);
            for cut in 0..b.len() {
                let res: std::io::Result<Instr<Offset>> = Decode::decode(&mut &b[..cut]);
                ensure!(res.is_err(), "truncated opcode {op} ({cut} of {} bytes) decoded", b.len());
                o.hit("truncations rejected");
            }
            o.distinct(hash_bytes(&b));
            Ok(())
        });
    }
    // exhaustive 16-bit operands
    for op in [5u8, 9, 28, 29, 31, 32, 33, 34, 36, 37, 41] {
        let lay = layout(op).unwrap();
        let name = format!("exhaustive{op:03}");
        c.run(&name, 256, |hi, r, o| {
            let base = gen::instr_of_op(r, op, 1000);
            for lo in 0..256u64 {
                let v = ((hi as u64) << 8) | lo;
                let mut k = 0;
                for f in lay {
                    if matches!(f, F::B2 | F::Off(_)) {
                        let mut s = base.clone();
                        s.args[k] = v;
                        check_instr(&s, o)?;
                        o.hit("16-bit operands enumerated");
                    }
                    k += 1;
                }
            }
            Ok(())
        });
    }
    c.run("exhaustive-8bit", 256, |v, r, o| {
        for op in [4u8, 8, 35, 51, 88, 89, 90] {
            let mut s = gen::instr_of_op(r, op, 1000);
            let mut k = 0;
            for f in layout(op).unwrap() {
                if *f == F::B1 {
                    s.args[k] = v as u64;
                }
                if *f != F::Text {
                    k += 1;
                }
            }
            check_instr(&s, o)?;
        }
        Ok(())
    });
    c.run("unknown-opcodes", 256 - OP_COUNT as usize, |i, r, o| {
        let op = OP_COUNT + i as u8;
        let mut b = vec![op];
        b.extend((0..32).map(|_| r.u8()));
        let res: std::io::Result<Instr<Offset>> = guarded(|| Decode::decode(&mut &b[..]))?;
        ensure!(res.is_err(), "undefined opcode {op} was accepted as {:?}", res);
        o.hit("unknown opcodes rejected");
        Ok(())
    });
    let n = c.n(6000, 200_000);
    c.run("code-block", n, |i, r, o| {
        let mut code = gen::code(r, 100);
        if i % 300 == 0 {
            // past the 16-bit range
            while code.iter().map(SInstr::virt_size).sum::<u32>() < 70_000 {
                code.push(gen::instr(r, 100));
            }
        }
        o.describe(format!("{code:?}"));
        let size: u32 = code.iter().map(SInstr::virt_size).sum();
        let mut bytes = size.to_le_bytes().to_vec();
        for s in &code {
            s.write(&mut bytes);
        }
        let made = Code::new(code.iter().map(obs::mk).collect());
        let mut out = vec![];
        made.encode(&mut out).map_err(ioe("encode code"))?;
        ensure!(out == bytes, "code block of {} instructions encodes differently at byte {}", code.len(), first_diff(&out, &bytes));
        bytes.extend([0x31; 9]);
        let mut cur = Cursor::new(&bytes[..]);
        let back: Code<Offset> = Decode::decode(&mut cur).map_err(ioe("decode code"))?;
        ensure_eq!(cur.position() as usize, bytes.len() - 9, "bytes consumed by a code block");
        ensure!(obs::code(&back) == code, "code block changed by encode+decode");
        ensure_eq!(back.len(), code.len(), "Code::len");
        ensure_eq!(back.is_empty(), code.is_empty(), "Code::is_empty");
        o.hit("code blocks");
        o.distinct(hash_bytes(&out));
        o.sample(|| format!("code block of {} instructions, address-space size {size}, {} bytes", code.len(), out.len()));
        Ok(())
    });
    c.run("encode-faults", 104, |op, r, o| {
        if op == OP_TARGET as usize {
            return Ok(());
        }
        let s = gen::instr_of_op(r, op as u8, 50);
        let real = obs::mk(&s);
        for k in 0..40 {
            let mut f = Faulty::new(vec![], Plan { fail_at: Some(k), ..Plan::none() }, 0);
            let res = real.encode(&mut f);
            if f.failed > 0 {
                ensure!(res.is_err(), "encoding opcode {op} ignored a write error at operation {k}");
                o.hit("encode faults surfaced");
            }
        }
        Ok(())
    });
    c.require_all("opcodes", (0..u64::from(OP_COUNT)).filter(|x| *x != u64::from(OP_TARGET)));
    c.require("16-bit operands enumerated", 65_536);
    c.require("code blocks", 100);
    c.finish()
}

// ---------------------------------------------------------------- C06
fn bounded_code(r: &mut Rng, limit: u32) -> Vec<SInstr> {
    let mut v = vec![];
    let mut size = 0;
    let n = if r.chance(1, 60) { 5000 } else { r.below(60) };
    for _ in 0..n {
        let i = gen::instr(r, 50);
        size += i.virt_size();
        if size > limit {
            break;
        }
        v.push(i);
    }
    v
}

fn c06() {
    let mut c = Check::new(
        "C06",
        "exploration",
        "Random instruction sequences (up to the full 16-bit address space): iteration locations, a cursor driven by \
         random pop/peek/seek/range histories against an independent position model, and label resolution checked by \
         resolving every produced jump back to its target, plus a dense sweep of (location, target) pairs. Distinct \
         by code and history.",
    );
    c.assume("function bodies fit the 16-bit address space");
    let n = c.n(15_000, 400_000);
    c.run("cursor-history", n, |_, r, o| {
        let code = bounded_code(r, 65_535);
        let real = Code::new(code.iter().map(obs::mk).collect());
        let mut at = vec![0u32];
        for s in &code {
            at.push(at.last().unwrap() + s.virt_size());
        }
        o.describe(format!("{code:?}"));
        // iteration
        let mut k = 0;
        for (loc, i) in real.iter() {
            ensure_eq!(u32::from(loc.value), at[k], "location of instruction {k} in iteration");
            ensure!(obs::instr(&i) == code[k], "iteration yields a different instruction at {k}");
            k += 1;
        }
        ensure_eq!(k, code.len(), "instructions yielded by iteration");
        o.add("iterated instructions", k as u64);
        let index: std::collections::HashMap<u32, usize> = at.iter().enumerate().map(|(i, p)| (*p, i)).collect();
        let mut cur: CodeCursor<'_, Offset> = real.cursor();
        let mut pos = 0usize;
        let steps = r.range(1, 40);
        let mut h = 0u64;
        for _ in 0..steps {
            ensure_eq!(u32::from(cur.pos().value), at[pos], "cursor position");
            match cur.peek() {
                Some(i) => ensure!(pos < code.len() && obs::instr(&i) == code[pos], "peek disagrees at {pos}"),
                None => ensure_eq!(pos, code.len(), "peek at end"),
            }
            let op = r.below(5);
            h = h.wrapping_mul(31).wrapping_add(op as u64);
            match op {
                0 | 1 => match cur.pop() {
                    Ok(i) => {
                        ensure!(pos < code.len() && obs::instr(&i) == code[pos], "pop returned the wrong instruction at {pos}");
                        pos += 1;
                        o.hit("pops");
                    }
                    Err(CursorError::EndOfCode) => {
                        ensure_eq!(pos, code.len(), "end of code reported");
                        o.hit("end of code");
                    }
                    Err(e) => return Err(format!("pop failed: {e}")),
                },
                2 => {
                    let t = if r.chance(2, 3) { *r.pick(&at) } else { r.below(*at.last().unwrap() as usize + 20) as u32 };
                    let res = cur.seek_abs(Location::new(t.min(65_535) as u16));
                    seek_verdict(&index, t.min(65_535), &mut pos, res, o)?;
                }
                3 => {
                    let t = i64::from(if r.chance(2, 3) { *r.pick(&at) } else { r.below(*at.last().unwrap() as usize + 20) as u32 });
                    let d = t - i64::from(at[pos]);
                    if i16::try_from(d).is_ok() && (0..=65_535).contains(&t) {
                        let res = cur.seek_rel(Offset::new(d as i16));
                        seek_verdict(&index, t as u32, &mut pos, res, o)?;
                    }
                }
                _ => {
                    let mut a = *r.pick(&at);
                    let mut b = *r.pick(&at);
                    if a > b {
                        if r.bool() {
                            let res = guarded(|| cur.range(Location::new(a as u16), Location::new(b as u16)).is_err());
                            ensure!(res.map_err(|e| format!("range {a}..{b}: {e}"))?, "the backward range {a}..{b} was accepted");
                            o.hit("backward ranges rejected");
                            continue;
                        }
                        std::mem::swap(&mut a, &mut b);
                    }
                    let bad = r.chance(1, 6);
                    if bad {
                        b += 1;
                    }
                    if b <= 65_535 {
                        let it = cur.range(Location::new(a as u16), Location::new(b as u16));
                        match (it, index.get(&b)) {
                            (Ok(it), Some(end)) => {
                                let mut k = index[&a];
                                for (loc, i) in it {
                                    ensure_eq!(u32::from(loc.value), at[k], "location inside range");
                                    ensure!(obs::instr(&i) == code[k], "range yields a different instruction");
                                    k += 1;
                                }
                                ensure_eq!(k, *end, "end of range {a}..{b}");
                                o.hit("ranges");
                            }
                            (Err(_), None) => o.hit("bad ranges rejected"),
                            (Ok(_), None) => return Err(format!("range {a}..{b} does not end on an instruction but was accepted")),
                            (Err(e), Some(_)) => return Err(format!("range {a}..{b} rejected: {e}")),
                        }
                    }
                }
            }
        }
        o.distinct(h ^ at.iter().fold(7u64, |a, b| a.wrapping_mul(1_000_003).wrapping_add(u64::from(*b))));
        Ok(())
    });
    let n = c.n(10_000, 300_000);
    c.run("labels", n, |_, r, o| {
        let code = bounded_code(r, 65_000);
        let nl = r.range(1, 12);
        let targets: Vec<Location> = (0..nl).map(|_| Location::new(match r.below(4) { 0 => r.u16(), 1 => *r.pick(&[0, 1, 0x7fff, 0x8000, 0xffff]), _ => r.below(400) as u16 })).collect();
        let mut at = r.below(300) as u32;
        if r.chance(1, 6) {
            at = r.below(60_000) as u32;
        }
        for s in &code {
            let loc = Location::new(at as u16);
            let labels: Vec<usize> = s.args.iter().map(|_| r.below(nl)).collect();
            // feed label numbers through the jump operands
            let mut ls = s.clone();
            let mut k = 0;
            for f in layout(s.op).unwrap() {
                if *f == F::Text {
                    continue;
                }
                if matches!(f, F::Off(_)) {
                    ls.args[k] = labels[k] as u64;
                }
                k += 1;
            }
            let sym: Instr<Label> = obs::make_instr(&ls, |v| Label { index: v as usize });
            ensure_eq!(u32::from(sym.size()), s.virt_size(), "size of an unresolved instruction");
            o.describe(format!("{sym:?} at {loc} targets {targets:?}"));
            let res = guarded(|| sym.resolve_labels(loc, &targets)).map_err(|e| format!("resolving labels: {e}"))?;
            let got = obs::instr(&res);
            ensure_eq!(got.op, s.op, "opcode after label resolution");
            ensure_eq!(got.text, s.text, "text operand after label resolution");
            let mut k = 0;
            for f in layout(s.op).unwrap() {
                if *f == F::Text {
                    continue;
                }
                if matches!(f, F::Off(_)) {
                    let off = Offset::new(got.args[k] as u16 as i16);
                    ensure_eq!(off.absolute(loc), targets[labels[k]], "jump operand {k} of opcode {} at {loc} resolves to", s.op);
                    o.hit("jumps resolved");
                    o.seen("jump opcodes", u64::from(s.op) * 4 + k as u64);
                } else {
                    ensure_eq!(got.args[k], s.args[k], "operand {k} of opcode {} after label resolution", s.op);
                }
                k += 1;
            }
            at = (at + s.virt_size()).min(65_535);
        }
        o.distinct(at as u64 ^ hash_str(&format!("{targets:?}{}", code.len())));
        o.sample(|| format!("{} instructions resolved against {targets:?}", code.len()));
        Ok(())
    });
    c.run("target-instr", 200, |_, r, o| {
        let t = [Location::new(r.u16()), Location::new(r.u16())];
        let loc = Location::new(r.u16());
        let k = r.below(2);
        let i: Instr<Label> = Instr::Target(Label { index: k });
        ensure_eq!(i.size(), 0, "a label marker occupies no address space");
        match guarded(|| i.resolve_labels(loc, &t))? {
            Instr::Target(off) => ensure_eq!(off.absolute(loc), t[k], "resolved marker"),
            other => return Err(format!("marker resolved to {other:?}")),
        }
        o.hit("markers");
        Ok(())
    });
    let grid: Vec<u16> = {
        let mut v: Vec<u16> = (0..=65_535u32).step_by(251).map(|x| x as u16).collect();
        v.extend([1, 2, 3, 4, 5, 0x7ffd, 0x7ffe, 0x7fff, 0x8000, 0x8001, 0xfffc, 0xfffd, 0xfffe, 0xffff]);
        v
    };
    c.run("location-pairs", grid.len(), |i, _, o| {
        let base = Location::new(grid[i]);
        for t in &grid {
            let tgt = Location::new(*t);
            let off = guarded(|| tgt.relative(base)).map_err(|e| format!("offset from {base} to {tgt}: {e}"))?;
            ensure_eq!(off.absolute(base), tgt, "location {tgt} relative to {base} leads to");
            let d = i32::from(*t) - i32::from(grid[i]);
            if let Ok(d) = i16::try_from(d) {
                ensure_eq!(off.value, d, "offset from {base} to {tgt}");
            }
            o.hit("location pairs");
        }
        Ok(())
    });
    c.require("jumps resolved", 1000);
    c.require("pops", 1000);
    c.require("ranges", 500);
    c.require("end of code", 50);
    c.require("jump opcodes", 11);
    c.finish()
}

fn seek_verdict(
    index: &std::collections::HashMap<u32, usize>,
    t: u32,
    pos: &mut usize,
    res: Result<(), CursorError>,
    o: &mut Obs,
) -> Result<(), String> {
    match (res, index.get(&t)) {
        (Ok(()), Some(i)) => {
            *pos = *i;
            o.hit("seeks");
            Ok(())
        }
        (Err(CursorError::InvalidInstructionOffset(l)), None) => {
            ensure_eq!(u32::from(l.value), t, "offset named in the error");
            o.hit("seeks rejected");
            Ok(())
        }
        (Ok(()), None) => Err(format!("seek to {t}, which is inside an instruction, was accepted")),
        (Err(e), Some(_)) => Err(format!("seek to instruction boundary {t} rejected: {e}")),
        (Err(e), None) => Err(format!("seek to {t} failed with an unexpected error: {e}")),
    }
}

// ---------------------------------------------------------------- C07
struct Shift(u32);
impl Mapper<PoolIndex<Class>> for Shift {
    fn apply(&self, v: PoolIndex<Class>) -> PoolIndex<Class> {
        un(ix(v).wrapping_add(self.0))
    }
}
impl Mapper<PoolIndex<Function>> for Shift {
    fn apply(&self, v: PoolIndex<Function>) -> PoolIndex<Function> {
        un(ix(v).wrapping_mul(3).wrapping_add(self.0))
    }
}

fn c07() {
    let mut c = Check::new(
        "C07",
        "exploration",
        "Random pools and random class/function renumberings (table-driven and arbitrary user mappers, either or \
         both): after remapping, every definition is compared with an independent model of exactly which references \
         are class or function references. Non-trivial: at least one reference changed; distinct by pool and mapping.",
    );
    let n = c.n(8000, 250_000);
    c.run("remap", n, |i, r, o| {
        let b = if i % 2500 == 1 { gen::scale(r, 2 + i / 2500 % 3) } else { gen::bundle(r, if i % 10 == 0 { 120 } else { 20 }) };
        let mut real = obs::load(&b.write()).map_err(ioe("load"))?;
        let nd = b.defs.len() as u32 + 2;
        let mut cm: hashbrown::HashMap<PoolIndex<Class>, PoolIndex<Class>> = hashbrown::HashMap::new();
        let mut fm: hashbrown::HashMap<PoolIndex<Function>, PoolIndex<Function>> = hashbrown::HashMap::new();
        let k = r.range(0, 12);
        for _ in 0..k {
            cm.insert(un(gen::idx(r, nd as usize)), un(gen::idx(r, nd as usize)));
        }
        let k = r.range(0, 12);
        for _ in 0..k {
            fm.insert(un(gen::idx(r, nd as usize)), un(gen::idx(r, nd as usize)));
        }
        let mode = r.below(5);
        let sh = r.u32();
        o.describe(format!("mode {mode} classes {cm:?} functions {fm:?} pool {}", obs::short(&b.defs)));
        let use_c = matches!(mode, 0 | 1 | 3);
        let use_f = matches!(mode, 0 | 2 | 3);
        let mc = |x: u32| -> u32 {
            if !use_c {
                x
            } else if mode == 3 {
                x.wrapping_add(sh)
            } else {
                cm.get(&un(x)).map_or(x, |v| ix(*v))
            }
        };
        let mf = |x: u32| -> u32 {
            if !use_f {
                x
            } else if mode == 3 {
                x.wrapping_mul(3).wrapping_add(sh)
            } else {
                fm.get(&un(x)).map_or(x, |v| ix(*v))
            }
        };
        match mode {
            0 => PoolMapper::default()
                .with_class_mapper(MultiMapper::new(cm.clone()))
                .with_function_mapper(MultiMapper::new(fm.clone()))
                .map(&mut real.pool),
            1 => PoolMapper::default().with_class_mapper(MultiMapper::new(cm.clone())).map(&mut real.pool),
            2 => PoolMapper::default().with_function_mapper(MultiMapper::new(fm.clone())).map(&mut real.pool),
            3 => PoolMapper::default().with_function_mapper(Shift(sh)).with_class_mapper(Shift(sh)).map(&mut real.pool),
            _ => PoolMapper::default().map(&mut real.pool),
        }
        let mut m = b.clone();
        let mut changed = 0u64;
        for d in &mut m.defs[1..] {
            let before = d.clone();
            match &mut d.val {
                SVal::Class(cl) => cl.base = mc(cl.base),
                SVal::Function(f) => {
                    d.parent = mc(d.parent);
                    for i in &mut f.code {
                        match i.op {
                            35 => i.args[1] = u64::from(mc(i.args[1] as u32)),
                            48 | 90 => i.args[0] = u64::from(mc(i.args[0] as u32)),
                            36 => i.args[2] = u64::from(mf(i.args[2] as u32)),
                            _ => {}
                        }
                    }
                }
                SVal::Field(_) => d.parent = mc(d.parent),
                SVal::Parameter { .. } | SVal::Local { .. } => d.parent = mf(d.parent),
                _ => {}
            }
            if *d != before {
                changed += 1;
                o.seen("kinds remapped", u64::from(d.val.kind()));
            }
        }
        obs::compare_pool(&real.pool, &m).map_err(|e| format!("after remapping (mode {mode}): {e}"))?;
        o.add("definitions changed", changed);
        o.add("definitions compared", m.defs.len() as u64);
        if changed > 0 {
            o.distinct(r.u64());
        }
        o.sample(|| format!("mode {mode}, {} class and {} function mappings, {changed} definitions changed", cm.len(), fm.len()));
        Ok(())
    });
    c.require("definitions changed", 1000);
    c.require_all("kinds remapped", [1, 5, 6, 7, 8]);
    c.finish()
}

// ---------------------------------------------------------------- C08
#[derive(Default)]
struct STab {
    v: Vec<String>,
    none: bool,
}

impl STab {
    fn check<K: redscript::bundle::DefaultString>(
        &mut self,
        t: &mut redscript::bundle::Strings<K>,
        r: &mut Rng,
        o: &mut Obs,
    ) -> Result<(), String> {
        match r.below(4) {
            0 | 1 => {
                let s = if !self.v.is_empty() && r.chance(2, 5) { r.pick(&self.v).clone() } else { gen::text(r) };
                let got = ix(t.add(Ref::from(s.as_str())));
                o.hit("interned");
                if self.none && s == "None" {
                    ensure_eq!(got, 0, "interning the reserved name");
                } else if self.v.contains(&s) {
                    ensure!(
                        self.v.get(got as usize) == Some(&s),
                        "interning existing {s:?} returned index {got}, which holds {:?}",
                        self.v.get(got as usize)
                    );
                    o.hit("interned again");
                } else {
                    ensure_eq!(got as usize, self.v.len(), "index of a new string");
                    self.v.push(s);
                }
            }
            2 => {
                let i = if r.chance(4, 5) { r.below(self.v.len() + 2) as u32 } else { r.u32() };
                let want: Option<&str> = if self.none && i == 0 { Some("None") } else { self.v.get(i as usize).map(String::as_str) };
                let a = t.get(un(i)).ok();
                let b = t.get_ref(un(i)).ok();
                ensure_eq!(a.as_deref(), want, "get({i})");
                ensure_eq!(b, want, "get_ref({i})");
                o.hit("lookups by index");
            }
            _ => {
                let s = if !self.v.is_empty() && r.chance(3, 4) { r.pick(&self.v).clone() } else { gen::text(r) };
                match t.get_index(&s) {
                    Some(i) => ensure!(
                        self.v.get(ix(i) as usize) == Some(&s),
                        "get_index({s:?}) = {i}, which holds {:?}",
                        self.v.get(ix(i) as usize)
                    ),
                    None => ensure!(!self.v.contains(&s), "get_index({s:?}) finds nothing although it is stored"),
                }
                o.hit("lookups by text");
            }
        }
        Ok(())
    }
    fn settle<K: redscript::bundle::DefaultString>(&self, t: &redscript::bundle::Strings<K>) -> Result<(), String> {
        for (i, s) in self.v.iter().enumerate() {
            if i == 0 && self.none {
                continue;
            }
            let g = t.get(un(i as u32)).map_err(|e| e.to_string())?;
            ensure_eq!(&*g, s.as_str(), "string {i} at the end of the history");
        }
        ensure!(t.get(un(self.v.len() as u32)).is_err() || self.v.is_empty(), "an unknown index is answered");
        Ok(())
    }
}

fn typed(pool: &redscript::bundle::ConstantPool, i: u32, m: Option<&SDef>) -> Result<(), String> {
    let kind = m.map(|d| d.val.kind());
    macro_rules! acc { ($f:ident, $k:expr, $wrap:expr) => {
        match pool.$f(un(i)) {
            Ok(v) => {
                ensure!(kind == Some($k), "{}({i}) answered although the definition is {kind:?}", stringify!($f));
                #[allow(clippy::redundant_closure_call)]
                let got = obs::val(&($wrap)(v));
                ensure!(obs::strip_derived(&got) == obs::strip_derived(&m.unwrap().val), "{}({i}) returned the wrong definition", stringify!($f));
            }
            Err(_) => ensure!(kind != Some($k), "{}({i}) fails although the definition is there", stringify!($f)),
        }
    } }
    acc!(type_, 0, |v: &redscript::definition::Type| AnyDefinition::Type(*v));
    acc!(class, 1, |v: &redscript::definition::Class| AnyDefinition::Class(v.clone()));
    acc!(enum_value, 2, |v: i64| AnyDefinition::EnumValue(v));
    acc!(enum_, 3, |v: &redscript::definition::Enum| AnyDefinition::Enum(v.clone()));
    acc!(function, 5, |v: &redscript::definition::Function| AnyDefinition::Function(v.clone()));
    acc!(parameter, 6, |v: &redscript::definition::Parameter| AnyDefinition::Parameter(v.clone()));
    acc!(local, 7, |v: &redscript::definition::Local| AnyDefinition::Local(v.clone()));
    acc!(field, 8, |v: &redscript::definition::Field| AnyDefinition::Field(v.clone()));
    Ok(())
}

fn c08() {
    let mut c = Check::new(
        "C08",
        "exploration",
        "Random histories of interning, lookup, definition add/put/swap/rename/reserve/edit operations on loaded and \
         fresh pools, checked step by step against a plain-vector model, then saved and re-read by the reference \
         reader. Distinct by history outcome.",
    );
    c.assume("slot 0 of the name table is reserved for 'None', as in every shipped bundle");
    let n = c.n(6000, 150_000);
    c.run("pool-history", n, |i, r, o| {
        let b = gen::bundle(r, if i % 20 == 0 { 80 } else { 10 });
        let mut real = obs::load(&b.write()).map_err(ioe("load"))?;
        let mut m = b.clone();
        let mut names = STab { v: b.names.clone(), none: true };
        let mut tdb = STab { v: b.tweakdb.clone(), none: false };
        let mut res = STab { v: b.resources.clone(), none: false };
        let mut strs = STab { v: b.strings.clone(), none: false };
        let steps = r.range(5, 120);
        for step in 0..steps {
            let p = &mut real.pool;
            let n = m.defs.len();
            let at = |r: &mut Rng| if n > 1 { r.range(1, n - 1) } else { 0 };
            let op = r.below(14);
            o.describe(format!("step {step} op {op} of a history on {}", obs::short(&b)));
            match op {
                0 | 1 => names.check(&mut p.names, r, o)?,
                2 => tdb.check(&mut p.tweakdb_ids, r, o)?,
                3 => res.check(&mut p.resources, r, o)?,
                4 => strs.check(&mut p.strings, r, o)?,
                5 => {
                    let d = gen::definition(r, n + 2);
                    let got: PoolIndex<Function> = p.add_definition(obs::make_def(&d));
                    ensure_eq!(ix(got) as usize, n, "index of an added definition");
                    m.defs.push(d);
                    o.hit("definitions added");
                }
                6 => {
                    let got: PoolIndex<Class> = p.reserve();
                    ensure_eq!(ix(got) as usize, n, "index of a reserved definition");
                    m.defs.push(null_def());
                    if r.bool() {
                        let d = gen::definition(r, n + 2);
                        p.put_definition(got, obs::make_def(&d));
                        m.defs[n] = d;
                    }
                    o.hit("definitions reserved");
                }
                7 => {
                    let k = at(r);
                    if k > 0 {
                        let d = gen::definition(r, n + 2);
                        p.put_definition::<Class>(un(k as u32), obs::make_def(&d));
                        m.defs[k] = d;
                        o.hit("definitions replaced");
                    }
                }
                8 => {
                    let (x, y) = (at(r), at(r));
                    if x > 0 && y > 0 {
                        p.swap_definition::<Class>(un(x as u32), un(y as u32));
                        m.defs.swap(x, y);
                        o.hit("definitions swapped");
                    }
                }
                9 => {
                    let k = at(r);
                    if k > 0 {
                        let nm = gen::idx(r, 40);
                        p.rename::<Class>(un(k as u32), un(nm));
                        m.defs[k].name = nm;
                        o.hit("definitions renamed");
                    }
                }
                10 => {
                    let nm = gen::idx(r, 40);
                    let got: PoolIndex<Class> = p.stub_definition(un(nm));
                    ensure_eq!(ix(got) as usize, n, "index of a stub");
                    m.defs.push(SDef { name: nm, parent: 0, unk: [0; 3], val: SVal::Type(0, 0, 0) });
                    o.hit("stubs");
                }
                11 => {
                    let k = at(r) as u32;
                    let md = m.defs.get_mut(k as usize);
                    match p.class_mut(un(k)) {
                        Ok(cl) => {
                            cl.functions.push(un(77));
                            match md {
                                Some(SDef { val: SVal::Class(x), .. }) => x.functions.push(77),
                                _ => return Err(format!("class_mut({k}) answered for a non-class")),
                            }
                            o.hit("edits in place");
                        }
                        Err(_) => ensure!(!matches!(md, Some(SDef { val: SVal::Class(_), .. })), "class_mut({k}) refused a class"),
                    }
                    let md = m.defs.get_mut(k as usize);
                    match p.function_mut(un(k)) {
                        Ok(f) => {
                            f.code = Code::new(vec![Instr::Return, Instr::Nop]);
                            f.locals = vec![];
                            match md {
                                Some(SDef { val: SVal::Function(x), .. }) => {
                                    x.code = vec![SInstr::new(39, &[]), SInstr::new(0, &[])];
                                    x.locals.clear();
                                }
                                _ => return Err(format!("function_mut({k}) answered for a non-function")),
                            }
                            o.hit("edits in place");
                        }
                        Err(_) => ensure!(!matches!(md, Some(SDef { val: SVal::Function(_), .. })), "function_mut({k}) refused a function"),
                    }
                    let md = m.defs.get_mut(k as usize);
                    match p.field_mut(un(k)) {
                        Ok(f) => {
                            f.type_ = un(5);
                            match md {
                                Some(SDef { val: SVal::Field(x), .. }) => x.type_ = 5,
                                _ => return Err(format!("field_mut({k}) answered for a non-field")),
                            }
                            o.hit("edits in place");
                        }
                        Err(_) => ensure!(!matches!(md, Some(SDef { val: SVal::Field(_), .. })), "field_mut({k}) refused a field"),
                    }
                }
                12 => {
                    let k = if r.chance(5, 6) { r.below(n + 2) as u32 } else { r.u32() };
                    typed(p, k, m.defs.get(k as usize))?;
                    match (p.definition::<Class>(un(k)), m.defs.get(k as usize)) {
                        (Ok(d), Some(x)) => ensure!(
                            ix(d.name) == x.name && ix(d.parent) == x.parent,
                            "definition({k}) returned a different definition"
                        ),
                        (Err(_), None) => {}
                        (a, b) => return Err(format!("definition({k}): found {} expected {}", a.is_ok(), b.is_some())),
                    }
                    let want = m.defs.get(k as usize).and_then(|d| {
                        if d.name == 0 {
                            Some("None".to_owned())
                        } else {
                            names.v.get(d.name as usize).cloned()
                        }
                    });
                    ensure_eq!(p.def_name::<Class>(un(k)).ok().map(|s| s.to_string()), want, "def_name({k})");
                    o.hit("typed lookups");
                }
                _ => {
                    let got: Vec<u32> = p.definitions().map(|(i, _)| ix(i)).collect();
                    let want: Vec<u32> = (1..n as u32).collect();
                    ensure_eq!(got, want, "definitions() order");
                    let mut back: Vec<u32> = p.definitions().rev().map(|(i, _)| ix(i)).collect();
                    back.reverse();
                    ensure_eq!(back, want, "definitions() reversed");
                    let roots: Vec<u32> = p.roots().map(|(i, _)| ix(i)).collect();
                    let wr: Vec<u32> = (1..n).filter(|k| m.defs[*k].parent == 0).map(|k| k as u32).collect();
                    ensure_eq!(roots, wr, "roots()");
                    o.hit("enumerations");
                }
            }
            o.hit("history steps");
            o.seen("operations", op as u64);
        }
        names.settle(&real.pool.names)?;
        tdb.settle(&real.pool.tweakdb_ids)?;
        res.settle(&real.pool.resources)?;
        strs.settle(&real.pool.strings)?;
        m.names = names.v;
        m.tweakdb = tdb.v;
        m.resources = res.v;
        m.strings = strs.v;
        obs::compare_pool(&real.pool, &m).map_err(|e| format!("end of history: {e}"))?;
        // the edited pool is what gets saved; a clone is independent of its original
        let copy = real.pool.clone();
        let saved = obs::save(&real).map_err(ioe("saving after the history"))?;
        let (f, _) = SBundle::read(&saved).map_err(|e| format!("file saved after the history: {e}"))?;
        obs::compare_models(&f, &m).map_err(|e| format!("file saved after the history: {e}"))?;
        real.pool.add_definition::<Class>(obs::make_def(&gen::definition(r, 4)));
        real.pool.names.add(Ref::from("\u{1}fresh"));
        obs::compare_pool(&copy, &m).map_err(|e| format!("a cloned pool changed with its original: {e}"))?;
        o.distinct(hash_bytes(&saved));
        o.sample(|| format!("{steps} steps, {} definitions, {} names at the end", m.defs.len(), m.names.len()));
        Ok(())
    });
    let n = c.n(3000, 60_000);
    c.run("fresh-tables", n, |_, r, o| {
        let mut p = redscript::bundle::ConstantPool::default();
        let mut a = STab::default();
        let mut b = STab::default();
        let mut d = STab::default();
        for _ in 0..r.range(3, 60) {
            a.check(&mut p.strings, r, o)?;
            b.check(&mut p.tweakdb_ids, r, o)?;
            d.check(&mut p.resources, r, o)?;
        }
        a.settle(&p.strings)?;
        b.settle(&p.tweakdb_ids)?;
        d.settle(&p.resources)?;
        o.hit("fresh tables");
        Ok(())
    });
    c.require("history steps", 10_000);
    c.require("interned again", 500);
    c.require_all("operations", 0..14);
    c.finish()
}

// ---------------------------------------------------------------- C09
#[derive(Clone, Debug, PartialEq)]
struct T {
    name: String,
    args: Vec<T>,
}
fn gen_t(r: &mut Rng, depth: usize, unary: bool) -> T {
    const W: [&str; 5] = ["ref", "wref", "script_ref", "array", "array"];
    let wrapped = depth > 0 && r.chance(2, 3);
    let name = if wrapped || r.chance(1, 12) {
        if r.chance(4, 5) { (*r.pick(&W)).to_owned() } else { gen::ident(r) }
    } else if r.bool() {
        (*r.pick(&["Int32", "Bool", "String", "Void", "Float", "IScriptable", "ref", "array"])).to_owned()
    } else {
        gen::ident(r)
    };
    let args = if wrapped {
        let k = if unary || r.chance(3, 4) { 1 } else { r.range(2, 3) };
        (0..k).map(|_| gen_t(r, depth - 1, unary)).collect()
    } else {
        vec![]
    };
    T { name, args }
}
fn real_t(t: &T) -> TypeName {
    TypeName::new(redscript::ast::Ident::from_ref(&t.name), t.args.iter().map(real_t).collect())
}
fn view_t(t: &TypeName) -> T {
    T { name: t.name().to_string(), args: t.arguments().iter().map(view_t).collect() }
}
fn unwrapped(t: &T) -> &T {
    if (t.name == "ref" || t.name == "wref") && t.args.len() == 1 {
        unwrapped(&t.args[0])
    } else {
        t
    }
}
fn mangled(t: &T) -> String {
    let t = unwrapped(t);
    if t.args.is_empty() {
        t.name.clone()
    } else {
        format!("{}<{}>", t.name, t.args.iter().map(mangled).collect::<Vec<_>>().join(","))
    }
}
fn pretty(t: &T) -> String {
    if t.args.is_empty() {
        t.name.clone()
    } else {
        format!("{}<{}>", t.name, t.args.iter().map(pretty).collect::<Vec<_>>().join(", "))
    }
}
fn repr(t: &T) -> String {
    let mut s = t.name.clone();
    for a in &t.args {
        s.push(':');
        s.push_str(&repr(a));
    }
    s
}

fn c09() {
    use std::str::FromStr;
    let mut c = Check::new(
        "C09",
        "exploration",
        "Random (nested, wrapped) type names: storage form, source form and function-identity form compared with an \
         independent implementation and parsed back; operator/intrinsic names enumerated completely against the \
         language's table; spans and timestamps compared with a plain model. Distinct by type text.",
    );
    let n = c.n(40_000, 1_000_000);
    c.run("type-names", n, |i, r, o| {
        let unary = i % 2 == 0;
        let t = gen_t(r, r.clone().below(6), unary);
        o.describe(format!("{t:?}"));
        let real = real_t(&t);
        ensure_eq!(view_t(&real), t, "name and arguments");
        ensure_eq!(real.pretty().to_string(), pretty(&t), "source form");
        ensure_eq!(real.mangled().to_string(), mangled(&t), "function-identity form");
        ensure_eq!(real.to_string(), mangled(&t), "display form");
        ensure_eq!(real.repr().to_string(), repr(&t), "storage form");
        use redscript::ast::Kind;
        let k = match real.kind() {
            Kind::Prim => "prim",
            Kind::Ref => "ref",
            Kind::WRef => "wref",
            Kind::ScriptRef => "script_ref",
            Kind::Array => "array",
        };
        let want = if ["ref", "wref", "script_ref", "array"].contains(&t.name.as_str()) { t.name.as_str() } else { "prim" };
        ensure_eq!(k, want, "kind of {}", t.name);
        if unary {
            let back = TypeName::from_repr(&real.repr());
            ensure_eq!(view_t(&back), t, "type read back from its storage form {}", real.repr());
            ensure!(back == real, "read-back type is not equal to the original");
            o.hit("storage forms read back");
        }
        // equality is structural
        let u = gen_t(r, 2, unary);
        ensure_eq!(real_t(&u) == real, u == t, "equality of {t:?} and {u:?}");
        o.hit("type names");
        o.distinct(hash_str(&pretty(&t)));
        o.sample(|| pretty(&t));
        Ok(())
    });
    c.run("basic-types", 1, |_, _, o| {
        for (t, n) in [
            (TypeName::BOOL, "Bool"), (TypeName::CNAME, "CName"), (TypeName::DOUBLE, "Double"), (TypeName::FLOAT, "Float"),
            (TypeName::INT16, "Int16"), (TypeName::INT32, "Int32"), (TypeName::INT64, "Int64"), (TypeName::INT8, "Int8"),
            (TypeName::RESOURCE, "ResRef"), (TypeName::STRING, "String"), (TypeName::TWEAKDB_ID, "TweakDBID"),
            (TypeName::UINT16, "Uint16"), (TypeName::UINT32, "Uint32"), (TypeName::UINT64, "Uint64"), (TypeName::UINT8, "Uint8"),
            (TypeName::VARIANT, "Variant"), (TypeName::VOID, "Void"),
        ] {
            ensure_eq!(t.repr().to_string(), n, "basic type");
            ensure!(t == TypeName::from_repr(n), "basic type {n} read back");
            ensure!(TypeName::basic_owned(Ref::from(n)) == t, "basic type {n} built from an owned name");
            o.hit("basic types");
        }
        Ok(())
    });
    c.run("operators", 1, |_, _, o| {
        const BIN: [&str; 22] = [
            "OperatorAssignAdd", "OperatorAssignSubtract", "OperatorAssignMultiply", "OperatorAssignDivide",
            "OperatorAssignOr", "OperatorAssignAnd", "OperatorLogicOr", "OperatorLogicAnd", "OperatorOr", "OperatorXor",
            "OperatorAnd", "OperatorEqual", "OperatorNotEqual", "OperatorLess", "OperatorLessEqual", "OperatorGreater",
            "OperatorGreaterEqual", "OperatorAdd", "OperatorSubtract", "OperatorMultiply", "OperatorDivide", "OperatorModulo",
        ];
        let all = [
            BinOp::AssignAdd, BinOp::AssignSubtract, BinOp::AssignMultiply, BinOp::AssignDivide, BinOp::AssignOr,
            BinOp::AssignAnd, BinOp::LogicOr, BinOp::LogicAnd, BinOp::Or, BinOp::Xor, BinOp::And, BinOp::Equal,
            BinOp::NotEqual, BinOp::Less, BinOp::LessEqual, BinOp::Greater, BinOp::GreaterEqual, BinOp::Add,
            BinOp::Subtract, BinOp::Multiply, BinOp::Divide, BinOp::Modulo,
        ];
        for (op, name) in all.iter().zip(BIN) {
            ensure_eq!(op.to_string(), name, "operator name");
            ensure_eq!(<&'static str>::from(*op), name, "operator static name");
            let back = BinOp::from_str(name).map_err(|e| format!("{name}: {e}"))?;
            ensure_eq!(back.to_string(), name, "operator parsed from {name}");
            o.hit("operators");
        }
        for (op, name) in [(UnOp::BitNot, "OperatorBitNot"), (UnOp::LogicNot, "OperatorLogicNot"), (UnOp::Neg, "OperatorNeg")] {
            ensure_eq!(op.to_string(), name, "operator name");
            ensure_eq!(<&'static str>::from(op), name, "operator static name");
            ensure_eq!(UnOp::from_str(name).map_err(|e| e.to_string())?.to_string(), name, "operator parsed");
            ensure!(BinOp::from_str(name).is_err(), "{name} is not a binary operator");
            o.hit("operators");
        }
        const INTR: [(&str, u8); 31] = [
            ("Equals", 2), ("NotEquals", 2), ("ArrayClear", 1), ("ArraySize", 1), ("ArrayResize", 2), ("ArrayFindFirst", 2),
            ("ArrayFindLast", 2), ("ArrayContains", 2), ("ArrayCount", 2), ("ArrayPush", 2), ("ArrayPop", 1),
            ("ArrayInsert", 3), ("ArrayRemove", 2), ("ArrayGrow", 2), ("ArrayErase", 2), ("ArrayLast", 1), ("ArraySort", 1),
            ("ArraySortByPredicate", 2), ("ToString", 1), ("EnumInt", 1), ("IntEnum", 1), ("ToVariant", 1),
            ("FromVariant", 1), ("VariantIsRef", 1), ("VariantIsArray", 1), ("VariantTypeName", 1), ("AsRef", 1),
            ("Deref", 1), ("RefToWeakRef", 1), ("WeakRefToRef", 1), ("IsDefined", 1),
        ];
        for (name, argc) in INTR {
            let op = IntrinsicOp::from_str(name).map_err(|e| format!("{name}: {e}"))?;
            ensure_eq!(op.to_string(), name, "intrinsic name");
            ensure_eq!(<&'static str>::from(op), name, "intrinsic static name");
            ensure_eq!(op.arg_count(), argc, "argument count of {name}");
            o.hit("intrinsics");
        }
        for bad in ["operatoradd", "Add", "", "OperatorAdd;Int32Int32", "equals"] {
            ensure!(BinOp::from_str(bad).is_err() && UnOp::from_str(bad).is_err(), "{bad:?} parsed as an operator");
        }
        Ok(())
    });
    let n = c.n(20_000, 300_000);
    c.run("spans", n, |_, r, o| {
        let p = |x: u32| Pos::new(x as usize);
        let w = |r: &mut Rng| if r.bool() { r.below(12) as u32 } else { r.u32() >> 1 };
        let (a, b, cc, d) = (w(r), w(r), w(r), w(r));
        let (a, b) = (a.min(b), a.max(b));
        let (cc, d) = (cc.min(d), cc.max(d));
        let s = Span::new(p(a), p(b));
        let t = Span::new(p(cc), p(d));
        ensure_eq!(s.merge(t), Span::new(p(a.min(cc)), p(b.max(d))), "merge");
        ensure_eq!(t.merge(s), s.merge(t), "merge is symmetric");
        let q = w(r);
        ensure_eq!(s.contains(p(q)), a <= q && q < b, "contains");
        let want = if a > q { std::cmp::Ordering::Greater } else if b < q { std::cmp::Ordering::Less } else { std::cmp::Ordering::Equal };
        ensure_eq!(s.compare_pos(p(q)), want, "compare_pos");
        ensure_eq!(usize::from(p(q) + 5usize), q as usize + 5, "position sum");
        ensure_eq!(usize::from((p(q) + 9usize) - 4usize), q as usize + 5, "position difference");
        let big = (r.u32() >> 1 >> r.below(31)) as usize;
        ensure_eq!(usize::from(p(q) + big), (q as usize).wrapping_add(big), "position sum");
        ensure_eq!(usize::from((p(q) + big) - big), q as usize, "position difference");
        ensure_eq!(p(q).to_string(), q.to_string(), "position text");
        o.hit("spans");
        Ok(())
    });
    let n = c.n(5000, 100_000);
    c.run("timestamps", n, |_, r, o| {
        let bytes = r.u64().to_le_bytes();
        let v = u64::from_le_bytes(bytes);
        let ts = Timestamp::decode(&mut &bytes[..]).map_err(ioe("timestamp"))?;
        let f = |sh: u32, w: u32| (v >> sh) & ((1 << w) - 1);
        ensure_eq!(u64::from(ts.day()), f(10, 5), "day");
        ensure_eq!(u64::from(ts.month()), f(15, 5), "month");
        ensure_eq!(u64::from(ts.year()), f(20, 12), "year");
        ensure_eq!(u64::from(ts.millis()), f(32, 10), "millis");
        ensure_eq!(u64::from(ts.seconds()), f(42, 6), "seconds");
        ensure_eq!(u64::from(ts.minutes()), f(48, 6), "minutes");
        ensure_eq!(u64::from(ts.hours()), f(54, 10), "hours");
        let mut out = vec![];
        ts.encode(&mut out).map_err(ioe("timestamp"))?;
        ensure_eq!(out, bytes.to_vec(), "timestamp bytes");
        let want = format!(
            "{:02}/{:02}/{} {:02}:{:02}:{:02}:{:03}",
            f(10, 5) + 1, f(15, 5) + 1, f(20, 12), f(54, 10), f(48, 6), f(42, 6), f(32, 10)
        );
        ensure_eq!(ts.to_string(), want, "timestamp text");
        o.hit("timestamps");
        Ok(())
    });
    c.require("storage forms read back", 1000);
    c.require("operators", 25);
    c.require("intrinsics", 31);
    c.finish()
}
