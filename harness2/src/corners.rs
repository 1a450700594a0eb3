//! Small programs with the events they have to cause. `$` stands for a suffix that makes names unique.
pub struct Corner {
    pub name: &'static str,
    pub items: &'static str,
    pub body: &'static str,
    /// events, one per line; `Dump` is written as it is logged
    pub want: &'static [&'static str],
}
const fn c(name: &'static str, items: &'static str, body: &'static str, want: &'static [&'static str]) -> Corner {
    Corner { name, items, body, want }
}
pub const CORNERS: &[Corner] = &[
    c("reference to a temporary's field",
      "struct S$ { let a: Int32; let t: String; }\nfunc Mk$() -> S$ { return new S$(1, \"four\"); }",
      "let v = Mk$(); Dump(LenRef(v.t)); let q = [v]; Dump(LenRef(q[0].t));", &["Dump 4", "Dump 4"]),
    c("reference to an element",
      "func Mk$() -> array<String> { return [\"a\", \"bcd\"]; }",
      "let v = Mk$(); Dump(LenRef(v[0])); Dump(LenRef(v[TraceI(1)]));", &["Dump 1", "TraceI 1", "Dump 3"]),
    c("reference to what a reference refers to",
      "func F$(r: script_ref<String>) -> Int32 { return LenRef(Deref(r)) + LenRef(Deref(r) + \"xx\"); }",
      "Dump(F$(\"abc\")); let s = \"abcd\"; Dump(F$(s)); Dump(F$(AsRef(s)));", &["Dump 8", "Dump 10", "Dump 10"]),
    c("reference to a constant, a field and a call",
      "class C$ { let t: String; func T() -> String { return \"12345\"; } func R() -> Int32 { return LenRef(this.t); } }",
      "let c = new C$(); c.t = \"12\"; Dump(LenRef(\"1\")); Dump(LenRef(c.t)); Dump(LenRef(c.T())); Dump(c.R());", &["Dump 1", "Dump 2", "Dump 5", "Dump 2"]),
    c("many references",
      "func S$(n: Int32) -> String { return n == 0 ? \"\" : \"x\"; }",
      "let a = \"x\"; Dump(Many(S$(1), a, S$(0), a, a, a, a, a, a, S$(1), a, S$(0), a, S$(1))); Dump(Many(a, a, a, a, a, a, a, a, S$(1), a, a, a, a, a)); Dump(Many(S$(0), a, \"\", \"\", \"\", \"\", \"\", \"\", \"\", \"\", \"\", a, \"\", S$(1)));",
      &["Dump 14331", "Dump 16383", "Dump 4101"]),
    c("reference to an object of a derived class",
      "class A$ { func N() -> Int32 { return 1; } }\nclass B$ extends A$ { func N() -> Int32 { return 2; } }\nfunc F$(r: script_ref<ref<A$>>) -> Int32 { return Deref(r).N(); }",
      "let b = new B$(); Dump(F$(b)); Dump(F$(new B$())); let a: ref<A$> = new A$(); Dump(F$(a));", &["Dump 2", "Dump 2", "Dump 1"]),
    c("reference to a struct",
      "struct S$ { let a: Int32; let t: String; }\nfunc F$(r: script_ref<S$>) -> Int32 { return Deref(r).a; }",
      "Dump(F$(new S$(7, \"\"))); let s = new S$(8, \"\"); Dump(F$(s));", &["Dump 7", "Dump 8"]),
    c("reference to a number and an array",
      "func F$(r: script_ref<Int32>, q: script_ref<array<Int32>>) -> Int32 { return Deref(r) + ArraySize(Deref(q)) + Deref(q)[1]; }",
      "let n = 3; let q = [10, 20, 30]; Dump(F$(n, q)); Dump(F$(5, [1, 2]));", &["Dump 26", "Dump 9"]),
    c("weak references to abstract classes",
      "abstract class A$ { func N() -> Int32 { return 1; } }\nclass B$ extends A$ { func N() -> Int32 { return 2; } }\nfunc F$(w: wref<A$>) -> Int32 { return w.N(); }",
      "let b = new B$(); let w: wref<B$> = b; let v: wref<A$> = w; Dump(F$(w)); Dump(F$(v)); let r: ref<A$> = w; Dump(r.N()); Dump(F$(r));", &["Dump 2", "Dump 2", "Dump 2", "Dump 2"]),
    c("weak references in members, elements and results",
      "class N$ { let next: wref<N$>; let all: array<wref<N$>>; let v: Int32; func Next() -> wref<N$> { return this.next; } func V() -> Int32 { return this.v; } }\nclass M$ extends N$ {}",
      "let a = new N$(); let b = new M$(); a.next = b; b.next = a; a.v = 1; b.v = 2; ArrayPush(a.all, b); Dump(a.next.v); Dump(a.next.next.v); Dump(a.next.V()); Dump(a.Next().v); Dump(a.Next().Next().V()); Dump(a.all[0].v); Dump(a.all[0].V()); Dump(IsDefined(a.all[0] as M$)); Dump(IsDefined(a.next as M$)); Dump(IsDefined(b.Next() as M$)); a.Next().v = 9; Dump(b.v); a.all[0].v += 1; Dump(b.v); for w in a.all { Dump(w.v); w.v = 4; } Dump(b.V());",
      &["Dump 2", "Dump 1", "Dump 2", "Dump 2", "Dump 1", "Dump 2", "Dump 2", "Dump true", "Dump true", "Dump false", "Dump 9", "Dump 10", "Dump 10", "Dump 4"]),
    c("methods of a class found beyond an empty one",
      "class A$ { func N() -> Int32 { return 1; } protected let x: Int32; }\nclass B$ extends A$ {}\nclass C$ extends B$ { func N() -> Int32 { this.x = 5; return super.N() + 10 + this.x; } }",
      "Dump(new C$().N()); Dump(new B$().N());", &["Dump 16", "Dump 1"]),
    c("methods of the closest class",
      "class A$ { func N() -> Int32 { return 1; } }\nclass B$ extends A$ { func N() -> Int32 { return 2; } }\nclass D$ extends B$ { let q: Int32; }\nclass C$ extends D$ { func N() -> Int32 { return super.N() + 10; } }",
      "Dump(new C$().N());", &["Dump 12"]),
    c("elements of several classes",
      "class A$ { func N() -> Int32 { return 1; } }\nclass B$ extends A$ { func N() -> Int32 { return 2; } }\nclass C$ extends A$ { func N() -> Int32 { return 3; } }",
      "let x = [new B$(), new C$()]; for o in x { Dump(o.N()); } let y = [new A$(), new B$(), new C$()]; Dump(y[1].N()); let z: array<ref<A$>> = [new C$(), new B$()]; Dump(z[0].N()); for o in [new B$(), new A$()] { Dump(o.N()); } ArrayPush(x, new A$()); Dump(x[2].N());",
      &["Dump 2", "Dump 3", "Dump 2", "Dump 3", "Dump 2", "Dump 1", "Dump 1"]),
    c("empty elements",
      "class A$ { }",
      "let x: array<ref<A$>> = [null, new A$()]; Dump(IsDefined(x[0])); Dump(IsDefined(x[1])); let y: array<wref<A$>> = [x[1], null]; Dump(IsDefined(y[0])); Dump(IsDefined(y[1]));", &["Dump false", "Dump true", "Dump true", "Dump false"]),
    c("cases take the type of what is switched on",
      "func F$(x: Float) -> Int32 { switch x { case 1: return 10; case 2.5: return 20; case 3: return 30; case 4: return 40; } return 0; }\nfunc G$(x: Int64) -> Int32 { switch x { case 1: return 10; case 2: return 20; case 3: return 30; default: return 1; } }\nfunc H$(x: Double) -> Int32 { switch x { case 1: return 10; case 2.0: return 20; case 3: return 30; } return 1; }\nfunc I$(x: Uint64) -> Int32 { switch x { case 1u: return 10; case 2ul: return 20; case 3u: return 30; } return 1; }",
      "Dump(F$(1.0)); Dump(F$(2.5)); Dump(F$(3.0)); Dump(F$(4.0)); Dump(G$(1l)); Dump(G$(3l)); Dump(H$(1.0d)); Dump(H$(3.0d)); Dump(I$(3ul)); Dump(I$(2ul)); Dump(I$(9ul));",
      &["Dump 10", "Dump 20", "Dump 30", "Dump 40", "Dump 10", "Dump 30", "Dump 10", "Dump 30", "Dump 30", "Dump 20", "Dump 1"]),
    c("comparison takes the type of its first operand",
      "",
      "let f = 2.0; let l = 3l; let d = 4.0d; let u = 5ul; Dump(Equals(f, 2)); Dump(NotEquals(l, 3)); Dump(Equals(d, 4)); Dump(Equals(d, 4.0)); Dump(Equals(u, 5u)); Dump(Equals(u, 6u));", &["Dump true", "Dump false", "Dump true", "Dump true", "Dump true", "Dump false"]),
    c("conditional takes the type of its first branch",
      "",
      "let b = TraceB(true); let f = b ? 1.5 : 2; let g = b ? 1l : 2; let h = !b ? 1.0d : 2; Dump(f); Dump(g); Dump(h);", &["TraceB true", "Dump 1.5f", "Dump 1l", "Dump 2d"]),
    c("casts by target type",
      "func Cast(x: Int32) -> Float { return x == 3 ? 3.5 : 0.0; }\nfunc Cast(x: Int32) -> String { return \"s\"; }\nfunc Cast(x: Int32) -> Int64 { return 9l; }\nfunc Cast(x: String) -> Int32 { return LenRef(x); }",
      "let f: Float = Cast(3); let s: String = Cast(3); let l: Int64 = Cast(3); Dump(f); Dump(s); Dump(l); let n = 3; let g: Float = Cast(n); let t: String = Cast(n); Dump(g); Dump(t); Dump(Cast<Float>(3)); Dump(Cast<String>(n)); Dump(Cast<Int64>(n)); Dump(Cast<Int32>(\"four\"));",
      &["Dump 3.5f", "Dump \"s\"", "Dump 9l", "Dump 3.5f", "Dump \"s\"", "Dump 3.5f", "Dump \"s\"", "Dump 9l", "Dump 4"]),
    c("operators of scripts",
      "struct V$ { let x: Int32; let y: Int32; }\nfunc OperatorAdd(a: V$, b: V$) -> V$ { return new V$(a.x + b.x, a.y + b.y); }\nfunc OperatorMultiply(a: V$, n: Int32) -> V$ { return new V$(a.x * n, a.y * n); }\nfunc OperatorMultiply(n: Int32, a: V$) -> Int32 { return n * (a.x - a.y); }\nfunc OperatorAssignAdd(out a: V$, b: V$) -> V$ { a = a + b; return a; }\nfunc OperatorNeg(a: V$) -> V$ { return new V$(-a.x, -a.y); }\nfunc OperatorLess(a: V$, b: V$) -> Bool { return a.x < b.x; }\nfunc OperatorEqual(a: V$, b: V$) -> Bool { return a.x == b.x && a.y == b.y; }",
      "let a = new V$(1, 2); let b = new V$(10, 20); let c = a + b * 2; Dump(c.x); Dump(c.y); Dump(3 * b); c += a; Dump(c.y); c = -c; Dump(c.x); Dump(a < b); Dump(b < a); Dump(a == b); Dump(a == new V$(1, 2));",
      &["Dump 21", "Dump 42", "Dump -30", "Dump 44", "Dump -22", "Dump true", "Dump false", "Dump false", "Dump true"]),
    c("static arrays",
      "",
      "let h = new Host(); h.grid[1] = 5; h.size = 2; h.grid[h.size] = h.grid[1] + 1; h.grid[0] += 3; Dump(h.grid[0]); Dump(h.grid[1]); Dump(h.grid[2]); for x in [h.grid[2]] { Dump(x); }", &["Dump 3", "Dump 5", "Dump 6", "Dump 6"]),
    c("native methods",
      "func F$(h: wref<Host>) -> Int32 { return h.TraceI(4); }\nclass H$ extends Host { func G() -> Int32 { return this.TraceI(7) + super.TraceI(8); } }",
      "let h = new Host(); Dump(h.TraceI(3)); Dump(F$(h)); Dump(new H$().G());", &["TraceI 3", "Dump 3", "TraceI 4", "Dump 4", "TraceI 7", "TraceI 8", "Dump 15"]),
    c("small numbers start at zero in every round",
      "class C$ { let a: Uint8; let b: Int8; let c: Uint16; let d: Int16; }",
      "let i = 0; let c = new C$(); while i < 2 { let a: Uint8; let b: Int8; let q: Uint16; let d: Int16; Dump(a); Dump(b); Dump(q); Dump(d); c.a = a; c.b = b; c.c = q; c.d = d; i += 1; } Dump(c.c); Dump(Equals(c.a, c.a));",
      &["Dump 0Uint8", "Dump 0Int8", "Dump 0Uint16", "Dump 0Int16", "Dump 0Uint8", "Dump 0Int8", "Dump 0Uint16", "Dump 0Int16", "Dump 0Uint16", "Dump true"]),
    c("variables start afresh in every round",
      "enum E$ { A = 0, B = 4 }\nstruct S$ { let n: Int32; let t: String; }\nclass C$ {}",
      "let i = 0; while i < 2 { let n: Int32; let f: Float; let s: String; let b: Bool; let l: Int64; let u: Uint32; let w: Uint64; let d: Double; let e: E$; let q: array<Int32>; let o: ref<C$>; let p: wref<C$>; let k: CName; let v: S$; Dump(n); Dump(f); Dump(s); Dump(b); Dump(l); Dump(u); Dump(w); Dump(d); Dump(Equals(e, E$.A)); Dump(ArraySize(q)); Dump(IsDefined(o)); Dump(IsDefined(p)); Dump(k); Dump(v.n); Dump(v.t); n = 5; f = 2.0; s = \"x\"; b = true; l = 4l; u = 3u; w = 9ul; d = 1.0d; e = E$.B; ArrayPush(q, 1); o = new C$(); p = o; k = n\"kk\"; v.n = 6; v.t = \"y\"; i += 1; }",
      &["Dump 0", "Dump 0f", "Dump \"\"", "Dump false", "Dump 0l", "Dump 0u", "Dump 0ul", "Dump 0d", "Dump true", "Dump 0", "Dump false", "Dump false", "Dump n\"None\"", "Dump 0", "Dump \"\"",
        "Dump 0", "Dump 0f", "Dump \"\"", "Dump false", "Dump 0l", "Dump 0u", "Dump 0ul", "Dump 0d", "Dump true", "Dump 0", "Dump false", "Dump false", "Dump n\"None\"", "Dump 0", "Dump \"\""]),
    c("cases without statements fall through",
      "func F$(x: Int32) -> Int32 { switch x { case 1: case 2: case 3: return 10; case 4: default: return 20; } }\nfunc G$(x: Int32) -> Int32 { let r = 0; switch x { case 1: r += 1; break; case 2: case 3: case 4: r += 4; break; case 5: default: r += 8; } return r; }\nfunc H$(x: Int32) -> Int32 { let r = 1; switch x { case 1: break; case 2: r = 2; break; case 3: } return r; }",
      "Dump(F$(1)); Dump(F$(2)); Dump(F$(3)); Dump(F$(4)); Dump(F$(5)); Dump(G$(1)); Dump(G$(2)); Dump(G$(3)); Dump(G$(4)); Dump(G$(5)); Dump(G$(6)); Dump(H$(1)); Dump(H$(2)); Dump(H$(3)); Dump(H$(4));",
      &["Dump 10", "Dump 10", "Dump 10", "Dump 20", "Dump 20", "Dump 1", "Dump 4", "Dump 4", "Dump 4", "Dump 8", "Dump 8", "Dump 1", "Dump 2", "Dump 1", "Dump 1"]),
    c("optional parameters",
      "func F$(a: Int32, opt b: Int32, opt s: String) -> Int32 { return a * 100 + b * 10 + LenRef(s); }\nclass C$ { func M(opt a: Int32, opt o: ref<C$>) -> Bool { return a == 0 && !IsDefined(o); } static func S(opt x: Float) -> Float { return x; } }",
      "Dump(F$(1)); Dump(F$(1, 2)); Dump(F$(1, 2, \"abc\")); let c = new C$(); Dump(c.M()); Dump(c.M(1)); Dump(c.M(0, c)); Dump(C$.S()); Dump(C$.S(2.0));",
      &["Dump 100", "Dump 120", "Dump 123", "Dump true", "Dump false", "Dump false", "Dump 0f", "Dump 2f"]),
    c("out parameters",
      "struct S$ { let n: Int32; }\nclass C$ { let n: Int32; let q: array<Int32>; let s: S$; }\nfunc I$(out x: Int32, by: Int32) -> Void { x += by; }\nfunc P$(out q: array<Int32>) -> Int32 { ArrayPush(q, 7); return ArraySize(q); }\nfunc R$(out c: ref<C$>) -> Void { c = new C$(); c.n = 50; }",
      "let c = new C$(); let k = 1; I$(k, 2); Dump(k); I$(c.n, 3); Dump(c.n); I$(c.s.n, 4); Dump(c.s.n); Dump(P$(c.q)); I$(c.q[0], 5); Dump(c.q[0]); let d: ref<C$>; R$(d); Dump(d.n); R$(c); Dump(c.n); Dump(ArraySize(c.q));",
      &["Dump 3", "Dump 3", "Dump 4", "Dump 1", "Dump 12", "Dump 50", "Dump 50", "Dump 0"]),
    c("overloads by number and type",
      "func F$() -> Int32 { return 0; }\nfunc F$(a: Int32) -> Int32 { return 1; }\nfunc F$(a: String) -> Int32 { return 2; }\nfunc F$(a: Int32, b: Int32) -> Int32 { return 3; }\nfunc F$(a: Float, b: Int32) -> Int32 { return 4; }\nfunc F$(a: array<Int32>) -> Int32 { return 5; }\nfunc F$(a: array<String>) -> Int32 { return 6; }\nfunc F$(out a: Bool) -> Int32 { return 7; }",
      "let b = true; Dump(F$()); Dump(F$(1)); Dump(F$(\"\")); Dump(F$(1, 2)); Dump(F$(1.0, 2)); Dump(F$([1])); Dump(F$([\"\"])); Dump(F$(b));",
      &["Dump 0", "Dump 1", "Dump 2", "Dump 3", "Dump 4", "Dump 5", "Dump 6", "Dump 7"]),
    c("overloads of methods up the classes",
      "class A$ { func F(a: Int32) -> Int32 { return 1; } func F(a: String) -> Int32 { return 2; } static func S(a: Int32) -> Int32 { return 3; } }\nclass B$ extends A$ { func F(a: Int32) -> Int32 { return 4; } func F(a: Bool) -> Int32 { return 5; } static func S(a: String) -> Int32 { return 6; } }",
      "let b = new B$(); let a: ref<A$> = b; Dump(b.F(1)); Dump(b.F(\"\")); Dump(b.F(true)); Dump(a.F(1)); Dump(a.F(\"\")); Dump(A$.S(1)); Dump(B$.S(\"\"));",
      &["Dump 4", "Dump 2", "Dump 5", "Dump 4", "Dump 2", "Dump 3", "Dump 6"]),
    c("final and static methods",
      "class A$ { final func F() -> Int32 { return 1; } func G() -> Int32 { return this.F() + this.V(); } func V() -> Int32 { return 10; } static func S(o: ref<A$>) -> Int32 { return o.G(); } }\nclass B$ extends A$ { func V() -> Int32 { return 20; } }",
      "let b = new B$(); Dump(b.F()); Dump(b.G()); Dump(A$.S(b)); Dump(B$.S(new A$()));", &["Dump 1", "Dump 21", "Dump 21", "Dump 11"]),
    c("nested loops and breaks",
      "",
      "let i = 0; while i < 3 { let j = 0; while true { if j == 2 { break; } switch j { case 0: Dump(i); break; default: if i == 1 { Dump(-1); } } j += 1; } i += 1; } for x in [1, 2, 3] { if x == 2 { break; } for y in [x, x] { if y > 0 { Dump(y); break; } } }",
      &["Dump 0", "Dump 1", "Dump -1", "Dump 2", "Dump 1"]),
    c("strings and interpolation",
      "",
      "let n = 4; let t = \"a\\\"b\\n\"; Dump(s\"<\\(n)>\\(t)-\\(n + 1)\"); Dump(t + ToString(n) + \"\\u{e9}\"); t += \"z\"; Dump(t); Dump(s\"\\(s\"in\\(n)\")!\"); Dump(\"\\u{1F600}\\u{41}\\u{0042}\\u{10FFFF}\\u{7ff}\\u{e000}\");",
      &["Dump \"<4>a\\\"b\\n-5\"", "Dump \"a\\\"b\\n4é\"", "Dump \"a\\\"b\\nz\"", "Dump \"in4!\"", "Dump \"😀AB\\u{10ffff}\u{7ff}\\u{e000}\""]),
    c("interpolation of references",
      "func F$(r: script_ref<Int32>, t: script_ref<String>) -> String { return s\"\\(r) \\(t)  \\(Deref(r))\\(Deref(t))\"; }",
      "let n = 4; Dump(F$(n, \"ab\")); Dump(F$(5, F$(n, \"c\")));", &["Dump \"4 ab  4ab\"", "Dump \"5 4 c  4c  54 c  4c\""]),
    c("literals of every kind",
      "",
      "Dump(n\"name\"); Dump(t\"Items.x\"); Dump(r\"base\\\\x.ent\"); Dump(4294967295u); Dump(18446744073709551615ul); Dump(9223372036854775807l); Dump(2147483647); Dump(-2147483647); Dump(1.5d); Dump(0.1); Dump(\"\"); Dump(-1.5); Dump(0.1d); Dump(9007199254740993l);",
      &["Dump n\"name\"", "Dump t\"Items.x\"", "Dump r\"base\\\\x.ent\"", "Dump 4294967295u", "Dump 18446744073709551615ul", "Dump 9223372036854775807l", "Dump 2147483647", "Dump -2147483647", "Dump 1.5d", "Dump 0.1f", "Dump \"\"", "Dump -1.5f", "Dump 0.1d", "Dump 9007199254740993l"]),
    c("associativity",
      "",
      "Dump(100 - 10 - 1); Dump(100 / 10 / 5); Dump(100 - 10 * 2 + 1); Dump(7 % 4 * 2); Dump(1 - -2); Dump(- -3); Dump(-(-(3))); Dump(~5 + 1); Dump(1 | 2 ^ 3 & 2); Dump(2 + 3 == 5 && !(1 > 2)); Dump(true || false && false); Dump(true ? 1 : false ? 2 : 3); Dump(false ? 1 : true ? 2 : 3); Dump(-2 * 3 - 4);",
      &["Dump 89", "Dump 2", "Dump 81", "Dump 6", "Dump 3", "Dump 3", "Dump 3", "Dump -5", "Dump 1", "Dump true", "Dump true", "Dump 1", "Dump 2", "Dump -10"]),
    c("constants of modules and static calls through values",
      "class K$ { static func N(a: Int32) -> Int32 { return a + 1; } }",
      "Dump(K$.N(K$.N(1)));", &["Dump 3"]),
    c("enums",
      "enum E$ { A = 0, B = 1, C = 7, D = 8 }\nfunc F$(e: E$) -> Int32 { switch e { case E$.A: return 1; case E$.C: return 2; case E$.D: return 3; } return 9; }",
      "Dump(EnumInt(E$.A)); Dump(EnumInt(E$.B)); Dump(EnumInt(E$.C)); Dump(EnumInt(E$.D)); Dump(F$(E$.A)); Dump(F$(E$.B)); Dump(F$(E$.C)); Dump(F$(E$.D)); let e: E$ = IntEnum(7); Dump(Equals(e, E$.C)); Dump(NotEquals(e, E$.D)); Dump(F$(IntEnum<E$>(0)));",
      &["Dump 0", "Dump 1", "Dump 7", "Dump 8", "Dump 1", "Dump 9", "Dump 2", "Dump 3", "Dump true", "Dump true", "Dump 1"]),
    c("variants",
      "class C$ { let n: Int32; }",
      "let v: Variant = 5; Dump(FromVariant<Int32>(v)); let o = new C$(); o.n = 3; v = o; Dump(FromVariant<ref<C$>>(v).n); Dump(VariantIsRef(v)); Dump(VariantIsArray(v)); v = [1, 2]; Dump(VariantIsArray(v)); let q: array<Int32> = FromVariant<array<Int32>>(v); Dump(ArraySize(q)); let n: Int32 = FromVariant(ToVariant(8)); Dump(n);",
      &["Dump 5", "Dump 3", "Dump true", "Dump false", "Dump true", "Dump 2", "Dump 8"]),
    c("array operations",
      "",
      "let q: array<Int32>; ArrayResize(q, 2); Dump(ArraySize(q)); ArrayPush(q, 5); ArrayInsert(q, 0, 9); Dump(q[0]); Dump(ArrayContains(q, 5)); Dump(ArrayLast(q)); Dump(ArrayPop(q)); ArrayErase(q, 0); Dump(q[0]); Dump(ArrayRemove(q, 0)); Dump(ArraySize(q)); ArrayClear(q); Dump(ArraySize(q)); ArrayGrow(q, 3); Dump(ArraySize(q)); Dump(ArrayCount(q, 0));",
      &["Dump 2", "Dump 9", "Dump true", "Dump 5", "Dump 5", "Dump 0", "Dump true", "Dump 1", "Dump 0", "Dump 3", "Dump 3"]),
    c("arrays are values",
      "struct S$ { let q: array<Int32>; let n: Int32; }",
      "let a = [1, 2]; let b = a; ArrayPush(b, 3); Dump(ArraySize(a)); Dump(ArraySize(b)); let s = new S$(a, 1); let t = s; t.q[0] = 9; t.n = 2; Dump(s.q[0]); Dump(s.n); Dump(t.q[0]); for x in a { x = 100; ArrayPush(a, x); if ArraySize(a) > 4 { break; } } Dump(a[0]);",
      &["Dump 2", "Dump 3", "Dump 1", "Dump 1", "Dump 9", "Dump 1"]),
    c("early returns and code after them",
      "func F$(x: Int32) -> Int32 { if x > 0 { return 1; } else { if x < -5 { return 2; } } while x < 0 { x += 1; if x == -2 { return 3; } } return 4; }\nfunc G$(x: Int32) -> Void { if x > 0 { return; } Dump(x); }",
      "Dump(F$(1)); Dump(F$(-9)); Dump(F$(-4)); Dump(F$(-1)); Dump(F$(0)); G$(1); G$(0);", &["Dump 1", "Dump 2", "Dump 3", "Dump 4", "Dump 4", "Dump 0"]),
    c("the object itself",
      "class C$ { let n: Int32; func Me() -> ref<C$> { return this; } func Add(k: Int32) -> ref<C$> { this.n += k; return this.Me(); } static func Of(n: Int32) -> ref<C$> { let c = new C$(); c.n = n; return c; } }",
      "Dump(C$.Of(1).Add(2).Add(3).n); let c = C$.Of(5); c.Add(1); Dump(c.Me().Me().n);", &["Dump 6", "Dump 6"]),
    c("fields with values",
      "class A$ { let n: Int32 = 5; let f: Float = 2; let t: String = \"x\"; let b: Bool = true; let k: CName = n\"kk\"; let l: Int64 = 7l; let d: Double = 1.5d; let u: Uint32 = 3u; }\nclass B$ extends A$ { let p: Int32 = 6; }",
      "let b = new B$(); Dump(b.n); Dump(b.f); Dump(b.t); Dump(b.b); Dump(b.k); Dump(b.l); Dump(b.d); Dump(b.u); Dump(b.p);",
      &["Dump 5", "Dump 2f", "Dump \"x\"", "Dump true", "Dump n\"kk\"", "Dump 7l", "Dump 1.5d", "Dump 3u", "Dump 6"]),
    c("names of variables in nested blocks",
      "",
      "let x = 1; if true { let x = 2; Dump(x); if true { let x = \"three\"; Dump(x); } Dump(x); } else { let x = 4; Dump(x); } Dump(x); for x in [5] { Dump(x); } while x < 2 { x += 1; let x = 9; Dump(x); } Dump(x); switch x { case 2: let x = 7; Dump(x); break; } Dump(x);",
      &["Dump 2", "Dump \"three\"", "Dump 2", "Dump 1", "Dump 5", "Dump 9", "Dump 2", "Dump 7", "Dump 2"]),
    c("recursion",
      "func Fib$(n: Int32) -> Int32 { return n < 2 ? n : Fib$(n - 1) + Fib$(n - 2); }\nfunc Even$(n: Int32) -> Bool { return n == 0 ? true : Odd$(n - 1); }\nfunc Odd$(n: Int32) -> Bool { if n == 0 { return false; } return Even$(n - 1); }",
      "Dump(Fib$(10)); Dump(Even$(7)); Dump(Odd$(7));", &["Dump 55", "Dump false", "Dump true"]),
    c("operands are evaluated from left to right, once",
      "class C$ { let n: Int32; let q: array<Int32>; func Get(k: Int32) -> ref<C$> { Mark(k); return this; } }",
      "let c = new C$(); c.q = [1, 2, 3]; let x = TraceI(1) + TraceI(2) * TraceI(3) - TraceI(4); Dump(x); c.Get(9000001).q[TraceI(1)] = TraceI(6); c.Get(9000002).n += TraceI(7); Dump(c.n); Dump(TraceB(false) && TraceB(true)); Dump(TraceB(true) || TraceB(false)); let z = TraceB(true) ? TraceI(1) : TraceI(2); Dump(z);",
      &["TraceI 1", "TraceI 2", "TraceI 3", "TraceI 4", "Dump 3", "Mark 9000001", "TraceI 1", "TraceI 6", "Mark 9000002", "TraceI 7", "Dump 7", "TraceB false", "Dump false", "TraceB true", "Dump true", "TraceB true", "TraceI 1", "Dump 1"]),
];
