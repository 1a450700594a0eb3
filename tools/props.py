"""Source of properties.jsonl, MANIFEST.json's check list and bins.json. Run: python3 tools/props.py"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, technique, note, bin=("harness", "core"),
         level="exploration"):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, observe=observe, technique=technique, note=note, bin=bin, level=level))


CORE = "core/src/"
prop("C01", "Loading and saving a script cache loses and invents nothing",
     "For every valid script cache, loading it yields exactly the strings, definitions, flags and bytecode stored in "
     "it, in the same order and under the same indices, and saving what was loaded yields a cache with the same "
     "content. This holds for every definition kind, every flag combination and every instruction, wherever the file "
     "places its definition bodies and however it shares its string data.",
     ["inputs"], "All valid script caches: every definition kind x flag set x instruction operand x table layout.",
     "The tests load and save one 3 MB sample file and compare sizes of its tables; flag combinations, optional "
     "sections and operands absent from that file are never exercised.",
     [CORE + "bundle.rs", CORE + "definition.rs", CORE + "bytecode.rs", CORE + "decode.rs", CORE + "encode.rs"],
     [dict(name="symmetric decode/encode of each record", where=CORE + "definition.rs"),
      dict(name="constant pool decode/encode", where=CORE + "bundle.rs")],
     ["ScriptBundle::load", "ScriptBundle::save", "ConstantPool accessors"],
     "reference-model monitor on load/save of generated and mutated caches",
     "Every observed load is compared field by field with an independent model of the format and every observed save "
     "is decoded by an independent strict reader; assurance extends to the generated caches only.")
prop("C02", "A saved script cache is internally consistent and reproducible",
     "Every saved script cache carries correct header and table checksums, counts, offsets and body sizes, stores each "
     "distinct string once and leaves no byte unaccounted for. Saving the same content again, in another thread or "
     "after a reload yields identical bytes.",
     ["inputs", "histories"], "All loadable caches and pools, saved any number of times from any thread.",
     "The game and other tools, not this repository, consume the checksums and offsets; the tests only reload the "
     "file with the same code, which ignores most of them.",
     [CORE + "bundle.rs", CORE + "encode.rs"],
     [dict(name="two-phase header and definition table write", where=CORE + "bundle.rs ConstantPool::encode"),
      dict(name="string deduplication", where=CORE + "bundle.rs")],
     ["ScriptBundle::save output bytes"],
     "independent strict validator over every saved file, replayed saves compared byte for byte",
     "Held on the saves observed; the validator is written from the format, not from the code under test.")
prop("C03", "Malformed or truncated caches are refused, never crash the loader",
     "Loading arbitrary bytes as a script cache either succeeds or returns an error: it never panics, overflows, "
     "aborts, or requests memory out of proportion to the size of the input. Every strict prefix of a saved cache is "
     "refused, a file whose records the format does not allow (unknown tags, texts that are not UTF-8, references to "
     "strings that do not exist, cut-off or overlong records) is refused, and anything that was accepted holds exactly "
     "what the file says and can be inspected and saved without a crash.",
     ["inputs"], "All byte strings, in particular every prefix and every corruption of a valid cache.",
     "Tests load one valid file; corrupted tags, counts, sizes and offsets are never fed to the loader.",
     [CORE + "bundle.rs", CORE + "definition.rs", CORE + "bytecode.rs", CORE + "decode.rs"],
     [dict(name="tag and length validation while decoding", where=CORE + "decode.rs, definition.rs, bytecode.rs")],
     ["ScriptBundle::load result, panics, allocation requests"],
     "panic/overflow/allocation monitors and an independent lenient reader (accept/reject and content) under structure-aware corruption, prefix and field sweeps",
     "Overflow checks and debug assertions are on, an instrumented allocator bounds each request; reach is the "
     "mutants generated plus full single-byte and single-word sweeps of one all-features file.")
prop("C04", "I/O faults while loading or saving are reported, partial transfers are not",
     "If the underlying stream fails at any point while a cache is loaded or saved, the operation returns an error "
     "and never reports success, also when a buffer in between holds writes back. Short reads, short writes and interrupted calls change neither the loaded content nor "
     "the saved bytes.",
     ["fault_sequences", "inputs"], "Every position at which a read, write or seek fails or is cut short.",
     "All tests use in-memory cursors that never fail and always transfer everything.",
     [CORE + "bundle.rs", CORE + "encode.rs", CORE + "decode.rs", CORE + "util.rs"],
     [dict(name="exact transfers and error propagation", where=CORE + "bundle.rs ConstantPool::encode/decode")],
     ["results of load/save over a fault-injecting stream"],
     "fault injection at every stream operation (12 error kinds, one-off and persistent), outcome monitor",
     "For each sampled cache every operation index is failed in turn (or a sample of indices for large caches).",
     level="fault_enumeration")
prop("C05", "Every bytecode instruction survives encoding and occupies its declared size",
     "For every instruction and every operand value, encoding produces exactly the bytes the virtual machine format "
     "prescribes and decoding those bytes yields the same instruction, consuming exactly them. The size an instruction "
     "reports is the one the virtual machine uses for addressing, unknown opcodes and cut-off operands are refused, and "
     "a code block is delimited exactly by its size prefix.",
     ["inputs"], "All opcodes x all operand values (16-bit operands exhaustively), all sequences of instructions.",
     "Tests see only the instructions in the sample file; jump offsets near the limits and rare opcodes never occur.",
     [CORE + "bytecode.rs"],
     [dict(name="instruction codec", where=CORE + "bytecode.rs"), dict(name="instruction sizes", where=CORE + "bytecode.rs")],
     ["encoded bytes", "decoded instructions", "reported sizes"],
     "reference-model monitor over the codec, 16-bit operands enumerated",
     "Exhaustive over opcodes and 16-bit operands, sampled with boundary values over wider operands.")
prop("C06", "Jumps and code positions always resolve to the intended instruction",
     "Resolving symbolic labels turns every jump into an offset that leads back exactly to the labelled position, for "
     "code of any size the format can address, and leaves all other instructions unchanged. Walking, seeking in and "
     "taking ranges of code report each instruction at its true position, and refuse positions that are not the start "
     "of an instruction.",
     ["programs", "inputs"], "All instruction sequences with labels, all seek/pop/range histories over them.",
     "Tests compile small functions; long functions, backward jumps across the 32 KiB mark and invalid seeks are absent.",
     [CORE + "bytecode.rs"],
     [dict(name="label resolution", where=CORE + "bytecode.rs"), dict(name="code cursor", where=CORE + "bytecode.rs")],
     ["resolved offsets", "cursor positions"],
     "model-based history monitor over cursors and label resolution",
     "Histories of cursor operations are compared step by step with a position model.")
prop("C07", "Remapping pool indices changes exactly the mapped references",
     "Applying an index mapping to a pool replaces every reference that the mapping covers, in definitions and in "
     "bytecode, and nothing else; references outside the mapping, and everything that is not a reference, stay as they were.",
     ["inputs"], "All pools and all partial mappings, including cyclic and chained ones.",
     "Remapping runs only inside the compiler on small inputs; most instruction kinds and definition kinds are never remapped in a test.",
     [CORE + "mapper.rs"],
     [dict(name="pool mapper", where=CORE + "mapper.rs")],
     ["pool content before and after"],
     "reference-model monitor: expected pool computed independently, compared in full",
     "Held on the pools and mappings generated; covers every definition kind and opcode.")
prop("C08", "Pool histories behave like a plain indexed store with unique strings",
     "Under any sequence of interning, lookups, additions, reservations, replacements, renames, swaps and in-place "
     "edits, each string has exactly one index that never changes and always reads back the same text, and each "
     "definition slot returns what was last stored there. Lookups of absent entries or of the wrong kind report an "
     "error rather than another entry.",
     ["histories"], "All operation sequences over a fresh or loaded pool.",
     "Tests perform a handful of fixed steps; interleavings of interning after load, re-interning and replacement are not sampled.",
     [CORE + "bundle.rs"],
     [dict(name="string interning", where=CORE + "bundle.rs Strings"), dict(name="definition slots", where=CORE + "bundle.rs ConstantPool")],
     ["return value of every pool operation"],
     "online trace checker: every operation's result against a sequential model",
     "Held on the histories driven; the model is a plain vector and map.")
prop("C09", "Type names, operator names, spans and timestamps keep their meaning",
     "A type name rendered for display or storage identifies exactly that type and is read back as it; every operator and "
     "intrinsic name maps to one operator and back; merged spans cover both parts; and a stored build timestamp decodes "
     "to the date and time it encodes.",
     ["inputs"], "All type names of any nesting, all operators and intrinsics, all spans and timestamp bit patterns.",
     "Tests touch a few names; nesting, fixed-size arrays and boundary timestamps are not sampled.",
     [CORE + "ast.rs", CORE + "bytecode.rs", CORE + "bundle.rs"],
     [dict(name="type name rendering", where=CORE + "ast.rs"), dict(name="operator tables", where=CORE + "ast.rs, bytecode.rs"),
      dict(name="timestamp bit layout", where=CORE + "bundle.rs")],
     ["rendered names", "parsed names", "timestamp fields"],
     "reference-table monitor, finite tables enumerated",
     "Operators and intrinsics exhaustively, type names and timestamps sampled.")

exec(open(os.path.join(ROOT, "tools", "props_more.py")).read()) if os.path.exists(os.path.join(ROOT, "tools", "props_more.py")) else None

NA = globals().get("NA", [])


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                anchors=dict(files=p["files"], mechanism=p["mechanism"], observe_at=p["observe"], hook_needed=None))) + "\n")
        for n in NA:
            if "statement" in n:
                f.write(json.dumps(dict(
                    id=n["id"], title=n["title"], statement=n["statement"],
                    quantifier=dict(over=n["over"], text=n["text"]), why_tests_cant=n["why"],
                    anchors=dict(files=n["files"], mechanism=n["mechanism"], hook_needed=None))) + "\n")
    claimed = [p for p in P if p["bin"]]
    json.dump(dict(
        version=1,
        setup_cmd="python3 setup.py",
        checks=[dict(property=p["id"], quick_cmd=f"python3 run.py {p['id']}",
                     thorough_cmd=f"VERIF_TIER=thorough python3 run.py {p['id']}",
                     technique=p["technique"], level=p["level"], level_note=p["note"]) for p in claimed],
        not_applicable=[dict(property=n["id"], reason=n["reason"]) for n in NA],
        notes="No hooks are needed in /repo: every monitor observes public interfaces or compiles the real source files "
              "into the harness. See DESIGN.md."), open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
    json.dump({p["id"]: list(p["bin"]) for p in claimed}, open(os.path.join(ROOT, "bins.json"), "w"), indent=0)


main()
