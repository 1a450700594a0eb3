From 8ba2cf892df004c7aade828ca4e05e6e850209fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:48 +0000
Subject: [PATCH 01/54] fix: accept every 16-bit jump offset when decoding and
 encoding instructions

Biasing an offset near the limits of i16 overflowed, which aborted debug builds.
---
 core/src/bytecode.rs | 44 ++++++++++++++++++++++----------------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/core/src/bytecode.rs b/core/src/bytecode.rs
index b84fa18..c3b9c26 100644
--- a/core/src/bytecode.rs
+++ b/core/src/bytecode.rs
@@ -380,28 +380,28 @@ impl Decode for Instr<Offset> {
             25 => Ok(Instr::Param(input.decode()?)),
             26 => Ok(Instr::ObjectField(input.decode()?)),
             27 => Ok(Instr::ExternalVar),
-            28 => Ok(Instr::Switch(input.decode()?, Offset::new(input.decode::<i16>()? + 11))),
+            28 => Ok(Instr::Switch(input.decode()?, Offset::new(input.decode::<i16>()?.wrapping_add(11)))),
             29 => Ok(Instr::SwitchLabel(
-                Offset::new(input.decode::<i16>()? + 3),
-                Offset::new(input.decode::<i16>()? + 5),
+                Offset::new(input.decode::<i16>()?.wrapping_add(3)),
+                Offset::new(input.decode::<i16>()?.wrapping_add(5)),
             )),
             30 => Ok(Instr::SwitchDefault),
-            31 => Ok(Instr::Jump(Offset::new(input.decode::<i16>()? + 3))),
-            32 => Ok(Instr::JumpIfFalse(Offset::new(input.decode::<i16>()? + 3))),
-            33 => Ok(Instr::Skip(Offset::new(input.decode::<i16>()? + 3))),
+            31 => Ok(Instr::Jump(Offset::new(input.decode::<i16>()?.wrapping_add(3)))),
+            32 => Ok(Instr::JumpIfFalse(Offset::new(input.decode::<i16>()?.wrapping_add(3)))),
+            33 => Ok(Instr::Skip(Offset::new(input.decode::<i16>()?.wrapping_add(3)))),
             34 => Ok(Instr::Conditional(
-                Offset::new(input.decode::<i16>()? + 3),
-                Offset::new(input.decode::<i16>()? + 5),
+                Offset::new(input.decode::<i16>()?.wrapping_add(3)),
+                Offset::new(input.decode::<i16>()?.wrapping_add(5)),
             )),
             35 => Ok(Instr::Construct(input.decode()?, input.decode()?)),
             36 => Ok(Instr::InvokeStatic(
-                Offset::new(input.decode::<i16>()? + 3),
+                Offset::new(input.decode::<i16>()?.wrapping_add(3)),
                 input.decode()?,
                 input.decode()?,
                 input.decode()?,
             )),
             37 => Ok(Instr::InvokeVirtual(
-                Offset::new(input.decode::<i16>()? + 3),
+                Offset::new(input.decode::<i16>()?.wrapping_add(3)),
                 input.decode()?,
                 input.decode()?,
                 input.decode()?,
@@ -409,7 +409,7 @@ impl Decode for Instr<Offset> {
             38 => Ok(Instr::ParamEnd),
             39 => Ok(Instr::Return),
             40 => Ok(Instr::StructField(input.decode()?)),
-            41 => Ok(Instr::Context(Offset::new(input.decode::<i16>()? + 3))),
+            41 => Ok(Instr::Context(Offset::new(input.decode::<i16>()?.wrapping_add(3)))),
             42 => Ok(Instr::Equals(input.decode()?)),
 
             43 => Ok(Instr::RefStringEqualsString(input.decode()?)),
@@ -596,32 +596,32 @@ impl Encode for Instr<Offset> {
             Instr::Switch(idx, offset) => {
                 output.encode(&28u8)?;
                 output.encode(idx)?;
-                output.encode(&Offset::new(offset.value - 11))?;
+                output.encode(&Offset::new(offset.value.wrapping_sub(11)))?;
             }
             Instr::SwitchLabel(start, exit) => {
                 output.encode(&29u8)?;
-                output.encode(&Offset::new(start.value - 3))?;
-                output.encode(&Offset::new(exit.value - 5))?;
+                output.encode(&Offset::new(start.value.wrapping_sub(3)))?;
+                output.encode(&Offset::new(exit.value.wrapping_sub(5)))?;
             }
             Instr::SwitchDefault => {
                 output.encode(&30u8)?;
             }
             Instr::Jump(offset) => {
                 output.encode(&31u8)?;
-                output.encode(&Offset::new(offset.value - 3))?;
+                output.encode(&Offset::new(offset.value.wrapping_sub(3)))?;
             }
             Instr::JumpIfFalse(offset) => {
                 output.encode(&32u8)?;
-                output.encode(&Offset::new(offset.value - 3))?;
+                output.encode(&Offset::new(offset.value.wrapping_sub(3)))?;
             }
             Instr::Skip(offset) => {
                 output.encode(&33u8)?;
-                output.encode(&Offset::new(offset.value - 3))?;
+                output.encode(&Offset::new(offset.value.wrapping_sub(3)))?;
             }
             Instr::Conditional(if_true, if_false) => {
                 output.encode(&34u8)?;
-                output.encode(&Offset::new(if_true.value - 3))?;
-                output.encode(&Offset::new(if_false.value - 5))?;
+                output.encode(&Offset::new(if_true.value.wrapping_sub(3)))?;
+                output.encode(&Offset::new(if_false.value.wrapping_sub(5)))?;
             }
             Instr::Construct(n_params, idx) => {
                 output.encode(&35u8)?;
@@ -630,14 +630,14 @@ impl Encode for Instr<Offset> {
             }
             Instr::InvokeStatic(offset, line, idx, u) => {
                 output.encode(&36u8)?;
-                output.encode(&Offset::new(offset.value - 3))?;
+                output.encode(&Offset::new(offset.value.wrapping_sub(3)))?;
                 output.encode(line)?;
                 output.encode(idx)?;
                 output.encode(u)?;
             }
             Instr::InvokeVirtual(offset, line, idx, u) => {
                 output.encode(&37u8)?;
-                output.encode(&Offset::new(offset.value - 3))?;
+                output.encode(&Offset::new(offset.value.wrapping_sub(3)))?;
                 output.encode(line)?;
                 output.encode(idx)?;
                 output.encode(u)?;
@@ -654,7 +654,7 @@ impl Encode for Instr<Offset> {
             }
             Instr::Context(offset) => {
                 output.encode(&41u8)?;
-                output.encode(&Offset::new(offset.value - 3))?;
+                output.encode(&Offset::new(offset.value.wrapping_sub(3)))?;
             }
             Instr::Equals(idx) => {
                 output.encode(&42u8)?;
-- 
2.43.0


From cf2477bf7c3220ec8949b8f01b8173549234896f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:48 +0000
Subject: [PATCH 02/54] fix: compute relative offsets without overflowing past
 the middle of a function

---
 core/src/bytecode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/bytecode.rs b/core/src/bytecode.rs
index c3b9c26..598d609 100644
--- a/core/src/bytecode.rs
+++ b/core/src/bytecode.rs
@@ -975,7 +975,7 @@ impl Location {
 
     #[inline]
     pub fn relative(&self, base: Location) -> Offset {
-        Offset::new(self.value as i16 - base.value as i16)
+        Offset::new(self.value.wrapping_sub(base.value) as i16)
     }
 }
 
-- 
2.43.0


From 87daf0c9d473dd74a604df5932c73745d841eebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:48 +0000
Subject: [PATCH 03/54] fix: report malformed tags in a script cache as errors
 instead of panicking

---
 core/src/bundle.rs     |  3 ++-
 core/src/definition.rs | 12 +++++++++---
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/core/src/bundle.rs b/core/src/bundle.rs
index e8e1130..1b8dc33 100644
--- a/core/src/bundle.rs
+++ b/core/src/bundle.rs
@@ -575,7 +575,8 @@ pub enum DefinitionType {
 
 impl Decode for DefinitionType {
     fn decode<I: io::Read>(input: &mut I) -> io::Result<Self> {
-        Ok(DefinitionType::from_bytes(input.decode()?).expect("Invalid DefinitionType enum value"))
+        DefinitionType::from_bytes(input.decode()?)
+            .map_err(|_| io::Error::new(io::ErrorKind::InvalidData, "Invalid DefinitionType enum value"))
     }
 }
 
diff --git a/core/src/definition.rs b/core/src/definition.rs
index 9e9be69..f996c17 100644
--- a/core/src/definition.rs
+++ b/core/src/definition.rs
@@ -38,7 +38,9 @@ impl Definition {
             DefinitionType::Class => AnyDefinition::Class(input.decode()?),
             DefinitionType::EnumValue => AnyDefinition::EnumValue(input.decode()?),
             DefinitionType::Enum => AnyDefinition::Enum(input.decode()?),
-            DefinitionType::BitField => panic!("Bit field not supported"),
+            DefinitionType::BitField => {
+                return Err(io::Error::new(io::ErrorKind::InvalidData, "Bit field not supported"));
+            }
             DefinitionType::Function => AnyDefinition::Function(input.decode()?),
             DefinitionType::Parameter => AnyDefinition::Parameter(input.decode()?),
             DefinitionType::Local => AnyDefinition::Local(input.decode()?),
@@ -485,7 +487,10 @@ impl Decode for Type {
             4 => Ok(Type::Array(input.decode()?)),
             5 => Ok(Type::StaticArray(input.decode()?, input.decode()?)),
             6 => Ok(Type::ScriptRef(input.decode()?)),
-            _ => panic!("Unknown Type enum value {}", tag),
+            _ => Err(io::Error::new(
+                io::ErrorKind::InvalidData,
+                format!("Unknown Type enum value {tag}"),
+            )),
         }
     }
 }
@@ -761,7 +766,8 @@ impl Display for Visibility {
 
 impl Decode for Visibility {
     fn decode<I: io::Read>(input: &mut I) -> io::Result<Self> {
-        Ok(Visibility::from_bytes(input.decode()?).expect("Invalid Visibility enum value"))
+        Visibility::from_bytes(input.decode()?)
+            .map_err(|_| io::Error::new(io::ErrorKind::InvalidData, "Invalid Visibility enum value"))
     }
 }
 
-- 
2.43.0


From 190c42c8c61c6c370e442c26342d712a597d2fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:48 +0000
Subject: [PATCH 04/54] fix: do not allocate memory for sizes declared in a
 script cache before reading the data

---
 core/src/decode.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/core/src/decode.rs b/core/src/decode.rs
index 8573c78..4770ba8 100644
--- a/core/src/decode.rs
+++ b/core/src/decode.rs
@@ -1,4 +1,4 @@
-use std::io;
+use std::io::{self, Read};
 
 use byteorder::{LittleEndian, ReadBytesExt};
 
@@ -114,7 +114,8 @@ pub trait DecodeExt: io::Read + Sized {
 
     fn decode_vec<S: Into<u32>, A: Decode>(&mut self, count: S) -> io::Result<Vec<A>> {
         let size = count.into() as usize;
-        let mut vec = Vec::with_capacity(size);
+        // the count comes from the input, so it cannot be trusted for a large allocation upfront
+        let mut vec = Vec::with_capacity(size.min(0x1000));
         for _ in 0..size {
             vec.push(self.decode()?);
         }
@@ -128,8 +129,11 @@ pub trait DecodeExt: io::Read + Sized {
 
     fn decode_bytes<S: Into<u32>>(&mut self, count: S) -> io::Result<Vec<u8>> {
         let size = count.into() as usize;
-        let mut vec = vec![0; size];
-        self.read_exact(&mut vec)?;
+        let mut vec = Vec::new();
+        self.by_ref().take(size as u64).read_to_end(&mut vec)?;
+        if vec.len() < size {
+            return Err(io::ErrorKind::UnexpectedEof.into());
+        }
         Ok(vec)
     }
 
-- 
2.43.0


From 88a0dc74bdd98e430ea86f15bda55072cc4ca679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:08 +0000
Subject: [PATCH 05/54] fix: reject profiling instructions too long to be
 addressed instead of overflowing their size

---
 core/src/bytecode.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/src/bytecode.rs b/core/src/bytecode.rs
index 598d609..b90b67f 100644
--- a/core/src/bytecode.rs
+++ b/core/src/bytecode.rs
@@ -948,6 +948,10 @@ pub struct StartProfiling(String, u8);
 impl Decode for StartProfiling {
     fn decode<I: io::Read>(input: &mut I) -> io::Result<Self> {
         let function = input.decode_str_prefixed::<u32>()?;
+        // the whole instruction has to be addressable with 16 bits
+        if function.len() > usize::from(u16::MAX) - 6 {
+            return Err(io::Error::new(io::ErrorKind::InvalidData, "Profiled function name too long"));
+        }
         let enabled = input.decode()?;
         Ok(StartProfiling(function, enabled))
     }
-- 
2.43.0


From 3437ad4409c97e54288baa5b2b2814a0f3c465f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:28 +0000
Subject: [PATCH 06/54] fix: do not panic on code longer than its offsets can
 address or on inverted ranges

---
 core/src/bytecode.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/core/src/bytecode.rs b/core/src/bytecode.rs
index b90b67f..52c7fc1 100644
--- a/core/src/bytecode.rs
+++ b/core/src/bytecode.rs
@@ -1178,9 +1178,9 @@ pub struct CodeCursor<'a, Loc> {
 impl<'a, Loc: Clone> CodeCursor<'a, Loc> {
     pub fn new(code: &'a [Instr<Loc>]) -> Self {
         let mut offsets = Vec::with_capacity(code.len());
-        let mut size = 0;
+        let mut size = 0u16;
         for instr in code {
-            size += instr.size();
+            size = size.wrapping_add(instr.size());
             offsets.push(size);
         }
 
@@ -1213,7 +1213,10 @@ impl<'a, Loc: Clone> CodeCursor<'a, Loc> {
     pub fn range(&self, from: Location, to: Location) -> Result<CodeIter<'_, Loc>, CursorError> {
         let start = self.get_index(from)?;
         let end = self.get_index(to)?;
-        let slice = &self.code[start..end];
+        let slice = self
+            .code
+            .get(start..end)
+            .ok_or(CursorError::InvalidInstructionOffset(to))?;
         Ok(CodeIter::new_at(slice, from))
     }
 
@@ -1265,7 +1268,7 @@ impl<'a, Loc: Clone> Iterator for CodeIter<'a, Loc> {
         if let [head, tail @ ..] = self.slice {
             let location = Location::new(self.offset);
             self.slice = tail;
-            self.offset += head.size();
+            self.offset = self.offset.wrapping_add(head.size());
             Some((location, head.clone()))
         } else {
             None
-- 
2.43.0


From 941190dd2f72cf97bf3293eab7131f1a5b77753e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:12 +0000
Subject: [PATCH 07/54] fix: reject malformed control flow when decompiling
 instead of panicking, looping or overflowing the stack

---
 decompiler/src/lib.rs | 43 ++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 38 insertions(+), 5 deletions(-)

diff --git a/decompiler/src/lib.rs b/decompiler/src/lib.rs
index 1da9c57..0e90a90 100644
--- a/decompiler/src/lib.rs
+++ b/decompiler/src/lib.rs
@@ -10,15 +10,27 @@ pub mod error;
 pub mod files;
 pub mod print;
 
+// a function spans at most 64 KiB of code and well-formed code is visited at most twice (labels of a switch)
+const MAX_STEPS: usize = 1 << 18;
+const MAX_DEPTH: usize = 512;
+
 pub struct Decompiler<'a> {
     code: CodeCursor<'a, Offset>,
     definition: &'a Definition,
     pool: &'a ConstantPool,
+    steps: usize,
+    depth: usize,
 }
 
 impl<'a> Decompiler<'a> {
     pub fn new(code: CodeCursor<'a, Offset>, definition: &'a Definition, pool: &'a ConstantPool) -> Self {
-        Self { code, definition, pool }
+        Self {
+            code,
+            definition,
+            pool,
+            steps: 0,
+            depth: 0,
+        }
     }
 
     pub fn decompiled(function: &Function, def: &Definition, pool: &ConstantPool) -> Result<Seq<SourceAst>, Error> {
@@ -117,6 +129,9 @@ impl<'a> Decompiler<'a> {
     ) -> Result<Expr<SourceAst>, Error> {
         let condition = self.consume()?;
         let target = offset.absolute(position);
+        if target <= position {
+            return Err(Error::DecompileError("Unsupported backward JumpIfFalse"));
+        }
 
         let is_loop = self
             .code
@@ -148,6 +163,9 @@ impl<'a> Decompiler<'a> {
         let mut labels = Vec::new();
         while let Some(Instr::SwitchLabel(exit_offset, start_offset)) = self.code.peek() {
             let position = self.code.pos();
+            if exit_offset.absolute(position) <= position {
+                return Err(Error::DecompileError("Unsupported backward SwitchLabel"));
+            }
             labels.push((position, start_offset.absolute(position)));
             self.code.seek_rel(exit_offset)?;
         }
@@ -207,6 +225,24 @@ impl<'a> Decompiler<'a> {
         &mut self,
         context: Option<Expr<SourceAst>>,
         block: Option<BlockContext>,
+    ) -> Result<Expr<SourceAst>, Error> {
+        self.steps += 1;
+        if self.steps > MAX_STEPS {
+            return Err(Error::DecompileError("Code is too complex"));
+        }
+        if self.depth >= MAX_DEPTH {
+            return Err(Error::DecompileError("Code is nested too deeply"));
+        }
+        self.depth += 1;
+        let res = self.consume_instr(context, block);
+        self.depth -= 1;
+        res
+    }
+
+    fn consume_instr(
+        &mut self,
+        context: Option<Expr<SourceAst>>,
+        block: Option<BlockContext>,
     ) -> Result<Expr<SourceAst>, Error> {
         let position = self.code.pos();
         let res = match self.code.pop()? {
@@ -267,10 +303,7 @@ impl<'a> Decompiler<'a> {
             Instr::Switch(_, start) => self.consume_switch(start.absolute(position))?,
             Instr::SwitchLabel(_, _) => return Err(Error::DecompileError("Unexpected SwitchLabel")),
             Instr::SwitchDefault => return Err(Error::DecompileError("Unexpected SwitchDefault")),
-            Instr::JumpIfFalse(offset) => {
-                assert!(offset.value >= 0, "negative offset is not supported for JumpIfFalse");
-                self.consume_conditional_jump(position, offset, block)?
-            }
+            Instr::JumpIfFalse(offset) => self.consume_conditional_jump(position, offset, block)?,
             Instr::Skip(offset) => Expr::Goto(Target::new(offset.absolute(position)), Span::ZERO),
             Instr::Conditional(_, _) => {
                 let expr = self.consume()?;
-- 
2.43.0


From 7a7719123eb5cd3ffd3ee927399c3230e9502671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:12 +0000
Subject: [PATCH 08/54] fix: continue after the end of a loop whose body ends
 with a return or a break when decompiling

---
 decompiler/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/decompiler/src/lib.rs b/decompiler/src/lib.rs
index 0e90a90..254bd56 100644
--- a/decompiler/src/lib.rs
+++ b/decompiler/src/lib.rs
@@ -141,6 +141,8 @@ impl<'a> Decompiler<'a> {
         let result = if is_loop {
             let block = BlockContext::new_loop(position, target);
             let body = self.consume_path(target, Some(block))?;
+            // the body can end early, leaving the jump back to the condition behind
+            self.code.seek_abs(target)?;
             Expr::While(condition.into(), body, Span::ZERO)
         } else {
             let mut body = self.consume_path(target, block)?;
-- 
2.43.0


From 36b06b6c350ddda3ea3bea03cfba1276c9b02011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:12 +0000
Subject: [PATCH 09/54] fix: keep unreachable code at the end of a branch out
 of the code that follows it when decompiling

---
 decompiler/src/lib.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/decompiler/src/lib.rs b/decompiler/src/lib.rs
index 254bd56..0589d07 100644
--- a/decompiler/src/lib.rs
+++ b/decompiler/src/lib.rs
@@ -63,6 +63,14 @@ impl<'a> Decompiler<'a> {
         Ok(body)
     }
 
+    // moves past unreachable code left before the target
+    fn skip_to(&mut self, target: Location) -> Result<(), Error> {
+        if target > self.code.pos() {
+            self.code.seek_abs(target)?;
+        }
+        Ok(())
+    }
+
     fn consume_path(&mut self, target: Location, block: Option<BlockContext>) -> Result<Seq<SourceAst>, Error> {
         let mut body = Vec::new();
         loop {
@@ -149,6 +157,7 @@ impl<'a> Decompiler<'a> {
             self.code.seek_abs(target)?;
             if let Some(jump) = resolve_jump(&mut body) {
                 let else_case = self.consume_path(jump.position, block)?;
+                self.skip_to(jump.position)?;
                 Expr::If(condition.into(), body, Some(else_case), Span::ZERO)
             } else {
                 Expr::If(condition.into(), body, None, Span::ZERO)
@@ -171,14 +180,16 @@ impl<'a> Decompiler<'a> {
             labels.push((position, start_offset.absolute(position)));
             self.code.seek_rel(exit_offset)?;
         }
+        let mut block = None;
         if self.code.peek() == Some(Instr::SwitchDefault) {
             labels.push((self.code.pos(), self.code.pos()));
-        };
+        } else if !labels.is_empty() {
+            block = Some(BlockContext::new_switch(self.code.pos()));
+        }
         labels.sort_by_key(|(_, start)| *start);
 
         let mut default = None;
         let mut cases = Vec::new();
-        let mut block = None;
         for (label, start_position) in labels {
             self.code.seek_abs(label)?;
 
@@ -216,6 +227,10 @@ impl<'a> Decompiler<'a> {
             }
         }
 
+        if let Some(BlockContext::Switch { epilogue }) = block {
+            self.skip_to(epilogue)?;
+        }
+
         Ok(Expr::Switch(Box::new(subject), cases, default, Span::ZERO))
     }
 
-- 
2.43.0


From 9efab8f35e7c86ecdbc2514428934e7cb2407304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:31 +0000
Subject: [PATCH 10/54] fix: do not move the code following a switch into its
 empty default case when decompiling

---
 decompiler/src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/decompiler/src/lib.rs b/decompiler/src/lib.rs
index 0589d07..ca62e24 100644
--- a/decompiler/src/lib.rs
+++ b/decompiler/src/lib.rs
@@ -1,4 +1,5 @@
 use std::collections::BTreeMap;
+use std::mem;
 
 use error::Error;
 use redscript::ast::{Constant, Expr, Ident, Literal, Seq, SourceAst, Span, SwitchCase, Target, TypeName};
@@ -18,6 +19,7 @@ pub struct Decompiler<'a> {
     code: CodeCursor<'a, Offset>,
     definition: &'a Definition,
     pool: &'a ConstantPool,
+    end: Location,
     steps: usize,
     depth: usize,
 }
@@ -28,6 +30,7 @@ impl<'a> Decompiler<'a> {
             code,
             definition,
             pool,
+            end: Location::MAX,
             steps: 0,
             depth: 0,
         }
@@ -73,6 +76,7 @@ impl<'a> Decompiler<'a> {
 
     fn consume_path(&mut self, target: Location, block: Option<BlockContext>) -> Result<Seq<SourceAst>, Error> {
         let mut body = Vec::new();
+        let outer_end = mem::replace(&mut self.end, target);
         loop {
             if self.code.pos() >= target
                 || matches!(body.last(), Some(Expr::Goto(_, _)))
@@ -87,6 +91,7 @@ impl<'a> Decompiler<'a> {
                 Err(err) => return Err(err),
             }
         }
+        self.end = outer_end;
         Ok(Seq::new(body))
     }
 
@@ -219,6 +224,9 @@ impl<'a> Decompiler<'a> {
                 Instr::SwitchDefault => {
                     if let Some(BlockContext::Switch { epilogue }) = block {
                         default = Some(self.consume_path(epilogue, block)?);
+                    } else if self.code.pos() >= self.end || matches!(self.code.peek(), None | Some(Instr::Jump(_))) {
+                        // there's nothing left in the enclosing block
+                        default = Some(Seq::new(vec![]));
                     } else {
                         default = Some(Seq::new(vec![self.consume_with(None, block)?]));
                     }
-- 
2.43.0


From ec24ab30e240453412eaf7d41dd91c7d7a1c3af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:51 +0000
Subject: [PATCH 11/54] fix: report malformed definitions as errors when
 printing them instead of panicking

---
 decompiler/src/print.rs | 75 +++++++++++++++++++++++++++--------------
 1 file changed, 49 insertions(+), 26 deletions(-)

diff --git a/decompiler/src/print.rs b/decompiler/src/print.rs
index ef3f9b2..4a60ef6 100644
--- a/decompiler/src/print.rs
+++ b/decompiler/src/print.rs
@@ -11,6 +11,7 @@ use crate::Decompiler;
 
 const INDENT_CHAR: char = ' ';
 const INDENT_SIZE: usize = 2;
+const MAX_TYPE_DEPTH: usize = 64;
 
 #[derive(Debug, Clone, Copy)]
 pub enum OutputMode {
@@ -62,12 +63,17 @@ pub fn write_definition<W: Write>(
 
             for field_index in &class.fields {
                 let field = pool.definition(*field_index)?;
+                field.value.as_field().ok_or(Error::DecompileError("Expected a field"))?;
                 write_definition(out, field, pool, depth + 1, mode)?;
             }
 
             for method_index in &class.functions {
                 let method = pool.definition(*method_index)?;
-                if let Err(err) = write_definition(out, method, pool, depth + 1, mode) {
+                let result = match method.value {
+                    AnyDefinition::Function(_) => write_definition(out, method, pool, depth + 1, mode),
+                    _ => Err(Error::DecompileError("Expected a method")),
+                };
+                if let Err(err) = result {
                     log::error!("Method decompilation {} failed (caused by {})", method_index, err);
                 }
             }
@@ -83,16 +89,21 @@ pub fn write_definition<W: Write>(
             writeln!(out, "enum {} {{", pool.names.get(definition.name)?)?;
 
             for member in &enum_.members {
-                write_definition(out, pool.definition(*member)?, pool, depth + 1, mode)?;
+                let member = pool.definition(*member)?;
+                member
+                    .value
+                    .as_enum_value()
+                    .ok_or(Error::DecompileError("Expected an enum member"))?;
+                write_definition(out, member, pool, depth + 1, mode)?;
             }
 
             writeln!(out, "}}")?;
         }
         AnyDefinition::Function(fun) => {
             let return_type = fun.return_type.map_or_else(
-                || "Void".to_owned(),
-                |idx| format_type(pool.definition(idx).unwrap(), pool).unwrap(),
-            );
+                || Ok("Void".to_owned()),
+                |idx| format_type(pool.definition(idx)?, pool),
+            )?;
 
             let name = pool.names.get(definition.name)?;
             let pretty_name = name.split(';').next().expect("Function with empty name");
@@ -100,8 +111,9 @@ pub fn write_definition<W: Write>(
             let params = fun
                 .parameters
                 .iter()
-                .map(|param| format_param(pool.definition(*param).unwrap(), pool).unwrap())
-                .format(", ");
+                .map(|param| format_param(pool.definition(*param)?, pool))
+                .collect::<Result<Vec<_>, _>>()?
+                .join(", ");
 
             writeln!(out)?;
             write_indent(out, depth)?;
@@ -185,7 +197,7 @@ pub fn write_definition<W: Write>(
             }
             writeln!(out, "let {}: {};", field_name, type_name)?;
         }
-        AnyDefinition::SourceFile(_) => panic!(),
+        AnyDefinition::SourceFile(_) => return Err(Error::DecompileError("Unexpected source file")),
     }
     Ok(())
 }
@@ -213,7 +225,9 @@ fn write_function_body<W: Write>(
         }
         OutputMode::Bytecode => {
             for local in &fun.locals {
-                write_definition(out, pool.definition(*local)?, pool, depth + 1, mode)?;
+                let local = pool.definition(*local)?;
+                local.value.as_local().ok_or(Error::DecompileError("Expected a local"))?;
+                write_definition(out, local, pool, depth + 1, mode)?;
                 writeln!(out)?;
             }
             for (offset, instr) in fun.code.iter() {
@@ -383,7 +397,7 @@ fn write_expr_nested<W: Write>(
         Expr::Null(_) => write!(out, "null")?,
         Expr::This(_) => write!(out, "this")?,
         Expr::Super(_) => write!(out, "super")?,
-        _ => panic!("Shouldn't get here"),
+        _ => return Err(Error::DecompileError("Unexpected expression")),
     };
     Ok(())
 }
@@ -398,7 +412,7 @@ fn write_call<W: Write>(
 ) -> Result<(), Error> {
     let fun_name = name.as_ref().split(';').next().expect("Empty function name");
 
-    if let Ok(binop) = BinOp::from_str(fun_name) {
+    if let (Ok(binop), [lhs, rhs]) = (BinOp::from_str(fun_name), params) {
         if parent_op
             .filter(|op| match op {
                 ParentOp::UnOp | ParentOp::Dot => true,
@@ -407,16 +421,16 @@ fn write_call<W: Write>(
             .is_some()
         {
             write!(out, "(")?;
-            write_binop(out, &params[0], &params[1], binop, verbose)?;
+            write_binop(out, lhs, rhs, binop, verbose)?;
             write!(out, ")")?;
             Ok(())
         } else {
-            write_binop(out, &params[0], &params[1], binop, verbose)
+            write_binop(out, lhs, rhs, binop, verbose)
         }
-    } else if let Ok(unop) = UnOp::from_str(fun_name) {
-        write_unop(out, &params[0], unop, verbose)
-    } else if (fun_name == "WeakRefToRef" || fun_name == "RefToWeakRef" || fun_name == "AsRef") && !verbose {
-        write_expr(out, &params[0], verbose, 0)
+    } else if let (Ok(unop), [param]) = (UnOp::from_str(fun_name), params) {
+        write_unop(out, param, unop, verbose)
+    } else if let (false, "WeakRefToRef" | "RefToWeakRef" | "AsRef", [param]) = (verbose, fun_name, params) {
+        write_expr(out, param, verbose, 0)
     } else {
         write!(out, "{}", fun_name)?;
         if !type_params.is_empty() {
@@ -453,7 +467,10 @@ fn write_unop<W: Write>(out: &mut W, param: &Expr<SourceAst>, op: UnOp, verbose:
 }
 
 fn format_param(def: &Definition, pool: &ConstantPool) -> Result<String, Error> {
-    let param = def.value.as_parameter().expect("Expected a param definition");
+    let param = def
+        .value
+        .as_parameter()
+        .ok_or(Error::DecompileError("Expected a parameter"))?;
     let type_name = format_type(pool.definition(param.type_)?, pool)?;
     let name = pool.names.get(def.name)?;
     let out = if param.flags.is_out() { "out " } else { "" };
@@ -463,16 +480,22 @@ fn format_param(def: &Definition, pool: &ConstantPool) -> Result<String, Error>
 }
 
 fn format_type(def: &Definition, pool: &ConstantPool) -> Result<String, Error> {
-    let type_ = def.value.as_type().expect("Expected a type definition");
+    format_nested_type(def, pool, 0)
+}
+
+fn format_nested_type(def: &Definition, pool: &ConstantPool, depth: usize) -> Result<String, Error> {
+    if depth > MAX_TYPE_DEPTH {
+        return Err(Error::DecompileError("Type is nested too deeply"));
+    }
+    let nested = |idx| format_nested_type(pool.definition(idx)?, pool, depth + 1);
+    let type_ = def.value.as_type().ok_or(Error::DecompileError("Expected a type"))?;
     let result = match type_ {
         Type::Prim | Type::Class => pool.names.get(def.name)?.to_string(),
-        Type::Ref(nested) => format!("ref<{}>", format_type(pool.definition(*nested)?, pool)?),
-        Type::WeakRef(nested) => format!("wref<{}>", format_type(pool.definition(*nested)?, pool)?),
-        Type::Array(nested) => format!("array<{}>", format_type(pool.definition(*nested)?, pool)?),
-        Type::StaticArray(nested, size) => {
-            format!("array<{}; {size}>", format_type(pool.definition(*nested)?, pool)?)
-        }
-        Type::ScriptRef(nested) => format!("script_ref<{}>", format_type(pool.definition(*nested)?, pool)?),
+        Type::Ref(inner) => format!("ref<{}>", nested(*inner)?),
+        Type::WeakRef(inner) => format!("wref<{}>", nested(*inner)?),
+        Type::Array(inner) => format!("array<{}>", nested(*inner)?),
+        Type::StaticArray(inner, size) => format!("array<{}; {size}>", nested(*inner)?),
+        Type::ScriptRef(inner) => format!("script_ref<{}>", nested(*inner)?),
     };
     Ok(result)
 }
-- 
2.43.0


From caa296d5b20277b6dbc732f0dd701dab93ea31eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:51 +0000
Subject: [PATCH 12/54] fix: print floats that need more than two decimal
 digits exactly

---
 decompiler/src/print.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/decompiler/src/print.rs b/decompiler/src/print.rs
index 4a60ef6..f3bf77a 100644
--- a/decompiler/src/print.rs
+++ b/decompiler/src/print.rs
@@ -1,3 +1,4 @@
+use std::fmt;
 use std::io::Write;
 use std::str::FromStr;
 
@@ -274,8 +275,8 @@ fn write_expr_nested<W: Write>(
             Constant::I64(lit) => write!(out, "{}l", lit)?,
             Constant::U32(lit) => write!(out, "{}u", lit)?,
             Constant::U64(lit) => write!(out, "{}u", lit)?,
-            Constant::F32(lit) => write!(out, "{:.2}", lit)?,
-            Constant::F64(lit) => write!(out, "{:.2}d", lit)?,
+            Constant::F32(lit) => write!(out, "{}", format_float(lit))?,
+            Constant::F64(lit) => write!(out, "{}d", format_float(lit))?,
             Constant::Bool(true) => write!(out, "true")?,
             Constant::Bool(false) => write!(out, "false")?,
         },
@@ -500,6 +501,14 @@ fn format_nested_type(def: &Definition, pool: &ConstantPool, depth: usize) -> Re
     Ok(result)
 }
 
+fn format_float<A: PartialEq + FromStr + fmt::Display>(val: &A) -> String {
+    let short = format!("{val:.2}");
+    match short.parse::<A>() {
+        Ok(parsed) if parsed == *val => short,
+        _ => val.to_string(),
+    }
+}
+
 fn format_binop(op: BinOp) -> &'static str {
     match op {
         BinOp::AssignAdd => "+=",
-- 
2.43.0


From 62a4fd9ddcf04bf8ff2135390a84daae57d7b546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:51 +0000
Subject: [PATCH 13/54] fix: print unsigned 64-bit literals with the suffix of
 their type

---
 decompiler/src/print.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decompiler/src/print.rs b/decompiler/src/print.rs
index f3bf77a..207d323 100644
--- a/decompiler/src/print.rs
+++ b/decompiler/src/print.rs
@@ -274,7 +274,7 @@ fn write_expr_nested<W: Write>(
             Constant::I32(lit) => write!(out, "{}", lit)?,
             Constant::I64(lit) => write!(out, "{}l", lit)?,
             Constant::U32(lit) => write!(out, "{}u", lit)?,
-            Constant::U64(lit) => write!(out, "{}u", lit)?,
+            Constant::U64(lit) => write!(out, "{}ul", lit)?,
             Constant::F32(lit) => write!(out, "{}", format_float(lit))?,
             Constant::F64(lit) => write!(out, "{}d", format_float(lit))?,
             Constant::Bool(true) => write!(out, "true")?,
-- 
2.43.0


From 122a6d9f5956a92b0e83a308c4252e6f9a900288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:51 +0000
Subject: [PATCH 14/54] fix: escape the attributes of fields in decompiled code

---
 decompiler/src/print.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/decompiler/src/print.rs b/decompiler/src/print.rs
index 207d323..5782df5 100644
--- a/decompiler/src/print.rs
+++ b/decompiler/src/print.rs
@@ -168,7 +168,12 @@ pub fn write_definition<W: Write>(
             writeln!(out)?;
             for property in &field.attributes {
                 write_indent(out, depth)?;
-                writeln!(out, "@runtimeProperty(\"{}\", \"{}\")", property.name, property.value)?;
+                writeln!(
+                    out,
+                    "@runtimeProperty(\"{}\", \"{}\")",
+                    str::escape_default(&property.name),
+                    str::escape_default(&property.value)
+                )?;
             }
 
             for property in &field.defaults {
-- 
2.43.0


From 5973eb85b5ca2fcc03730d5ab26c14fc7d9c164b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:20 +0000
Subject: [PATCH 15/54] fix: print the parentheses needed to keep the grouping
 of decompiled expressions

---
 decompiler/src/print.rs | 43 ++++++++++++++++++++++++++++++-----------
 1 file changed, 32 insertions(+), 11 deletions(-)

diff --git a/decompiler/src/print.rs b/decompiler/src/print.rs
index 5782df5..08d8f4a 100644
--- a/decompiler/src/print.rs
+++ b/decompiler/src/print.rs
@@ -270,6 +270,12 @@ fn write_expr_nested<W: Write>(
     depth: usize,
 ) -> Result<(), Error> {
     match expr {
+        // these bind weaker than any operator
+        Expr::Assign(_, _, _) | Expr::Conditional(_, _, _, _) if parent_op.is_some() => {
+            write!(out, "(")?;
+            write_expr(out, expr, verbose, depth)?;
+            write!(out, ")")?;
+        }
         Expr::Ident(ident, _) => write!(out, "{}", ident)?,
         Expr::Constant(cons, _) => match cons {
             Constant::String(Literal::String, str) => write!(out, "\"{}\"", str::escape_default(str))?,
@@ -288,11 +294,11 @@ fn write_expr_nested<W: Write>(
         Expr::Cast(type_, expr, _) => {
             if parent_op.is_some() {
                 write!(out, "(")?;
-                write_expr(out, expr, verbose, 0)?;
+                write_expr_nested(out, expr, Some(ParentOp::Dot), verbose, 0)?;
                 write!(out, " as {}", type_.pretty())?;
                 write!(out, ")")?;
             } else {
-                write_expr(out, expr, verbose, 0)?;
+                write_expr_nested(out, expr, Some(ParentOp::Dot), verbose, 0)?;
                 write!(out, " as {}", type_.pretty())?;
             }
         }
@@ -318,7 +324,7 @@ fn write_expr_nested<W: Write>(
             write_call(out, fun, &[], params, None, verbose)?;
         }
         Expr::ArrayElem(arr, idx, _) => {
-            write_expr(out, arr, verbose, 0)?;
+            write_expr_nested(out, arr, Some(ParentOp::Dot), verbose, 0)?;
             write!(out, "[")?;
             write_expr(out, idx, verbose, 0)?;
             write!(out, "]")?;
@@ -375,7 +381,7 @@ fn write_expr_nested<W: Write>(
             }
         }
         Expr::Conditional(condition, true_, false_, _) => {
-            write_expr(out, condition, verbose, 0)?;
+            write_expr_nested(out, condition, Some(ParentOp::Condition), verbose, 0)?;
             write!(out, " ? ")?;
             write_expr(out, true_, verbose, 0)?;
             write!(out, " : ")?;
@@ -390,7 +396,7 @@ fn write_expr_nested<W: Write>(
             write!(out, "}}")?;
         }
         Expr::Member(expr, accessor, _) => {
-            write_expr(out, expr, verbose, 0)?;
+            write_expr_nested(out, expr, Some(ParentOp::Dot), verbose, 0)?;
             write!(out, ".{}", accessor)?;
         }
         Expr::BinOp(lhs, rhs, op, _) => {
@@ -422,7 +428,13 @@ fn write_call<W: Write>(
         if parent_op
             .filter(|op| match op {
                 ParentOp::UnOp | ParentOp::Dot => true,
-                ParentOp::BinOp(op) => !binop.does_associate(*op),
+                ParentOp::Condition => binop.precedence() >= BinOp::AssignAdd.precedence(),
+                ParentOp::BinOpLhs(op) => !binop.does_associate(*op),
+                // arithmetic groups to the left
+                ParentOp::BinOpRhs(op @ (BinOp::Add | BinOp::Subtract | BinOp::Multiply)) => {
+                    binop.precedence() >= op.precedence()
+                }
+                ParentOp::BinOpRhs(op) => !binop.does_associate(*op),
             })
             .is_some()
         {
@@ -434,9 +446,16 @@ fn write_call<W: Write>(
             write_binop(out, lhs, rhs, binop, verbose)
         }
     } else if let (Ok(unop), [param]) = (UnOp::from_str(fun_name), params) {
-        write_unop(out, param, unop, verbose)
+        if matches!(parent_op, Some(ParentOp::Dot)) {
+            write!(out, "(")?;
+            write_unop(out, param, unop, verbose)?;
+            write!(out, ")")?;
+            Ok(())
+        } else {
+            write_unop(out, param, unop, verbose)
+        }
     } else if let (false, "WeakRefToRef" | "RefToWeakRef" | "AsRef", [param]) = (verbose, fun_name, params) {
-        write_expr(out, param, verbose, 0)
+        write_expr_nested(out, param, parent_op, verbose, 0)
     } else {
         write!(out, "{}", fun_name)?;
         if !type_params.is_empty() {
@@ -462,9 +481,9 @@ fn write_binop<W: Write>(
     op: BinOp,
     verbose: bool,
 ) -> Result<(), Error> {
-    write_expr_nested(out, lhs, Some(ParentOp::BinOp(op)), verbose, 0)?;
+    write_expr_nested(out, lhs, Some(ParentOp::BinOpLhs(op)), verbose, 0)?;
     write!(out, " {} ", format_binop(op))?;
-    write_expr_nested(out, rhs, Some(ParentOp::BinOp(op)), verbose, 0)
+    write_expr_nested(out, rhs, Some(ParentOp::BinOpRhs(op)), verbose, 0)
 }
 
 fn write_unop<W: Write>(out: &mut W, param: &Expr<SourceAst>, op: UnOp, verbose: bool) -> Result<(), Error> {
@@ -551,6 +570,8 @@ fn format_unop(op: UnOp) -> &'static str {
 
 enum ParentOp {
     UnOp,
-    BinOp(BinOp),
+    BinOpLhs(BinOp),
+    BinOpRhs(BinOp),
+    Condition,
     Dot,
 }
-- 
2.43.0


From 3c9d60622d0245b4a79dbeb3e2722cd06e878d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:21 +0000
Subject: [PATCH 16/54] fix: print methods named like an operator as method
 calls

---
 decompiler/src/print.rs | 44 +++++++++++++++++++++++++++--------------
 1 file changed, 29 insertions(+), 15 deletions(-)

diff --git a/decompiler/src/print.rs b/decompiler/src/print.rs
index 08d8f4a..8f5417f 100644
--- a/decompiler/src/print.rs
+++ b/decompiler/src/print.rs
@@ -321,7 +321,7 @@ fn write_expr_nested<W: Write>(
         Expr::MethodCall(obj, fun, params, _) => {
             write_expr_nested(out, obj, Some(ParentOp::Dot), verbose, 0)?;
             write!(out, ".")?;
-            write_call(out, fun, &[], params, None, verbose)?;
+            write_plain_call(out, pretty_name(fun), &[], params, verbose)?;
         }
         Expr::ArrayElem(arr, idx, _) => {
             write_expr_nested(out, arr, Some(ParentOp::Dot), verbose, 0)?;
@@ -422,7 +422,7 @@ fn write_call<W: Write>(
     parent_op: Option<ParentOp>,
     verbose: bool,
 ) -> Result<(), Error> {
-    let fun_name = name.as_ref().split(';').next().expect("Empty function name");
+    let fun_name = pretty_name(name);
 
     if let (Ok(binop), [lhs, rhs]) = (BinOp::from_str(fun_name), params) {
         if parent_op
@@ -457,21 +457,35 @@ fn write_call<W: Write>(
     } else if let (false, "WeakRefToRef" | "RefToWeakRef" | "AsRef", [param]) = (verbose, fun_name, params) {
         write_expr_nested(out, param, parent_op, verbose, 0)
     } else {
-        write!(out, "{}", fun_name)?;
-        if !type_params.is_empty() {
-            write!(out, "<{}>", type_params.iter().map(TypeName::pretty).format(", "))?;
-        }
-        write!(out, "(")?;
-        if !params.is_empty() {
-            for param in params.iter().take(params.len() - 1) {
-                write_expr(out, param, verbose, 0)?;
-                write!(out, ", ")?;
-            }
-            write_expr(out, params.last().unwrap(), verbose, 0)?;
+        write_plain_call(out, fun_name, type_params, params, verbose)
+    }
+}
+
+fn write_plain_call<W: Write>(
+    out: &mut W,
+    name: &str,
+    type_params: &[TypeName],
+    params: &[Expr<SourceAst>],
+    verbose: bool,
+) -> Result<(), Error> {
+    write!(out, "{}", name)?;
+    if !type_params.is_empty() {
+        write!(out, "<{}>", type_params.iter().map(TypeName::pretty).format(", "))?;
+    }
+    write!(out, "(")?;
+    if !params.is_empty() {
+        for param in params.iter().take(params.len() - 1) {
+            write_expr(out, param, verbose, 0)?;
+            write!(out, ", ")?;
         }
-        write!(out, ")")?;
-        Ok(())
+        write_expr(out, params.last().unwrap(), verbose, 0)?;
     }
+    write!(out, ")")?;
+    Ok(())
+}
+
+fn pretty_name(name: &Ident) -> &str {
+    name.as_ref().split(';').next().expect("Empty function name")
 }
 
 fn write_binop<W: Write>(
-- 
2.43.0


From 734eed9c881a972bb319f753d4e404c51f376234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:48 +0000
Subject: [PATCH 17/54] fix: skip references to missing source files when
 grouping definitions instead of panicking

---
 decompiler/src/files.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decompiler/src/files.rs b/decompiler/src/files.rs
index 459361f..86cf161 100644
--- a/decompiler/src/files.rs
+++ b/decompiler/src/files.rs
@@ -32,7 +32,7 @@ impl<'a> FileIndex<'a> {
 
     pub fn iter(&'a self) -> impl Iterator<Item = FileEntry<'a>> {
         let source_files = self.file_map.iter().filter_map(move |(idx, children)| {
-            if let AnyDefinition::SourceFile(ref file) = self.pool.definition(*idx).unwrap().value {
+            if let AnyDefinition::SourceFile(ref file) = self.pool.definition(*idx).ok()?.value {
                 let definitions = children
                     .iter()
                     .filter_map(|child| self.pool.definition(*child).ok())
-- 
2.43.0


From 6e97560e8089d718321403018b298c834497007e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:24 +0000
Subject: [PATCH 18/54] fix: decompile super calls emitted by the compiler as
 super calls

---
 decompiler/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/decompiler/src/lib.rs b/decompiler/src/lib.rs
index ca62e24..038f92b 100644
--- a/decompiler/src/lib.rs
+++ b/decompiler/src/lib.rs
@@ -349,7 +349,12 @@ impl<'a> Decompiler<'a> {
                 let fun = self.pool.function(idx)?;
                 let name = Ident::from_heap(self.pool.names.get(def.name)?);
                 let params = self.consume_params()?;
+                let is_super = self.definition.name == def.name && self.definition.parent != def.parent;
                 if let Some(ctx) = context {
+                    let ctx = match ctx {
+                        Expr::This(span) if is_super && !fun.flags.is_static() => Expr::Super(span),
+                        ctx => ctx,
+                    };
                     Expr::MethodCall(Box::new(ctx), name, params, Span::ZERO)
                 } else if fun.flags.is_static() {
                     if def.parent.is_undefined() {
@@ -368,7 +373,7 @@ impl<'a> Decompiler<'a> {
                         Expr::MethodCall(expr, name, params, Span::ZERO)
                     }
                 } else {
-                    let ctx = if self.definition.name == def.name && self.definition.parent != def.parent {
+                    let ctx = if is_super {
                         Expr::Super(Span::ZERO)
                     } else {
                         Expr::This(Span::ZERO)
-- 
2.43.0


From b5871d9fa6ed086b2e76c1e724d1d3bcea15c2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:16 +0000
Subject: [PATCH 19/54] fix: do not take the labels of an outer switch for
 those of a switch at the end of its case when decompiling

---
 decompiler/src/lib.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/decompiler/src/lib.rs b/decompiler/src/lib.rs
index 038f92b..1ee4abe 100644
--- a/decompiler/src/lib.rs
+++ b/decompiler/src/lib.rs
@@ -177,8 +177,11 @@ impl<'a> Decompiler<'a> {
 
         self.code.seek_abs(start)?;
         let mut labels = Vec::new();
-        while let Some(Instr::SwitchLabel(exit_offset, start_offset)) = self.code.peek() {
-            let position = self.code.pos();
+        // labels past the end of the enclosing block belong to an outer switch
+        while let (position, Some(Instr::SwitchLabel(exit_offset, start_offset))) = (self.code.pos(), self.code.peek()) {
+            if position >= self.end {
+                break;
+            }
             if exit_offset.absolute(position) <= position {
                 return Err(Error::DecompileError("Unsupported backward SwitchLabel"));
             }
@@ -186,7 +189,7 @@ impl<'a> Decompiler<'a> {
             self.code.seek_rel(exit_offset)?;
         }
         let mut block = None;
-        if self.code.peek() == Some(Instr::SwitchDefault) {
+        if self.code.peek() == Some(Instr::SwitchDefault) && self.code.pos() < self.end {
             labels.push((self.code.pos(), self.code.pos()));
         } else if !labels.is_empty() {
             block = Some(BlockContext::new_switch(self.code.pos()));
-- 
2.43.0


From 880d5bfe70057847841a8237dcf91adeba21dbc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:49 +0000
Subject: [PATCH 20/54] fix: do not move a statement that breaks out of a loop
 into the default case of the switch before it when decompiling

---
 decompiler/src/lib.rs | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/decompiler/src/lib.rs b/decompiler/src/lib.rs
index 1ee4abe..81f495c 100644
--- a/decompiler/src/lib.rs
+++ b/decompiler/src/lib.rs
@@ -172,7 +172,7 @@ impl<'a> Decompiler<'a> {
         Ok(result)
     }
 
-    fn consume_switch(&mut self, start: Location) -> Result<Expr<SourceAst>, Error> {
+    fn consume_switch(&mut self, start: Location, outer: Option<BlockContext>) -> Result<Expr<SourceAst>, Error> {
         let subject = self.consume()?;
 
         self.code.seek_abs(start)?;
@@ -231,7 +231,20 @@ impl<'a> Decompiler<'a> {
                         // there's nothing left in the enclosing block
                         default = Some(Seq::new(vec![]));
                     } else {
-                        default = Some(Seq::new(vec![self.consume_with(None, block)?]));
+                        let position = self.code.pos();
+                        let mut body = vec![self.consume_with(None, outer)?];
+                        if let Some(epilogue) = outer.map(|block| block.epilogue()) {
+                            // code that breaks out of the enclosing block can't be a part of this one
+                            if self
+                                .code
+                                .range(position, self.code.pos())?
+                                .any(|(loc, i)| matches!(i, Instr::Jump(offset) if offset.absolute(loc) == epilogue))
+                            {
+                                self.code.seek_abs(position)?;
+                                body.clear();
+                            }
+                        }
+                        default = Some(Seq::new(body));
                     }
                 }
                 _ => return Err(Error::DecompileError("Unexpected switch label instruction")),
@@ -328,7 +341,7 @@ impl<'a> Decompiler<'a> {
                 }
             }
             Instr::ExternalVar => return Err(Error::DecompileError("Unexpected ExternalVar")),
-            Instr::Switch(_, start) => self.consume_switch(start.absolute(position))?,
+            Instr::Switch(_, start) => self.consume_switch(start.absolute(position), block)?,
             Instr::SwitchLabel(_, _) => return Err(Error::DecompileError("Unexpected SwitchLabel")),
             Instr::SwitchDefault => return Err(Error::DecompileError("Unexpected SwitchDefault")),
             Instr::JumpIfFalse(offset) => self.consume_conditional_jump(position, offset, block)?,
@@ -574,4 +587,10 @@ impl BlockContext {
     fn new_switch(epilogue: Location) -> Self {
         Self::Switch { epilogue }
     }
+
+    fn epilogue(self) -> Location {
+        match self {
+            Self::Loop { epilogue, .. } | Self::Switch { epilogue } => epilogue,
+        }
+    }
 }
-- 
2.43.0


From ea5599b4bd4e9f4876ff342e3de9634b4461f63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:26 +0000
Subject: [PATCH 21/54] fix: fix_args tracks quote parity within one argument

An argument that swallowed two closing quotes (two paths ending with a
backslash and no spaces in the second) flipped the grouping state once, so
every following option was glued to the previous path.
---
 scc/cli/src/opts.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/scc/cli/src/opts.rs b/scc/cli/src/opts.rs
index 58c6cb5..8e5dc2c 100644
--- a/scc/cli/src/opts.rs
+++ b/scc/cli/src/opts.rs
@@ -9,7 +9,8 @@ pub fn fix_args(args: Vec<String>) -> Vec<String> {
 
     // when cyberpunk's args are processed, the \" messes up the grouping, so we need to fix the args that have quotes & spaces in them
     for arg in args {
-        let contains_quote = arg.contains('"');
+        let arg_quotes = arg.matches('"').count();
+        let contains_quote = arg_quotes > 0;
         if !contains_quote && !broken {
             fixed_args.push(arg);
         } else if !broken {
@@ -39,7 +40,8 @@ pub fn fix_args(args: Vec<String>) -> Vec<String> {
                 *last = format!("{} {}", last, broken_arg);
             }
         }
-        if contains_quote {
+        // an even number of quotes leaves the grouping as it was
+        if arg_quotes % 2 == 1 {
             broken = !broken;
         }
     }
-- 
2.43.0


From d40ed0856186616e8159ef8854e50b73470987da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:30 +0000
Subject: [PATCH 22/54] fix: give trailing empty switch cases a body to
 continue with

The label of the body shared by a run of empty cases was only bound when a
non-empty case followed. With none following, a match jumped to the start
of the function.
---
 compiler/src/assembler.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/compiler/src/assembler.rs b/compiler/src/assembler.rs
index 27f24de..745f642 100644
--- a/compiler/src/assembler.rs
+++ b/compiler/src/assembler.rs
@@ -171,6 +171,7 @@ impl<'a> Assembler<'a> {
                 let mut case_iter = cases.into_iter().peekable();
                 while case_iter.peek().is_some() {
                     let body_label = self.new_label();
+                    let mut has_body = false;
 
                     for case in &mut case_iter {
                         self.emit_label(next_case_label);
@@ -181,9 +182,14 @@ impl<'a> Assembler<'a> {
                         if !case.body.exprs.iter().all(Expr::is_empty) {
                             self.emit_label(body_label);
                             self.assemble_seq(case.body, scope, pool, Some(exit_label))?;
+                            has_body = true;
                             break;
                         }
                     }
+                    if !has_body {
+                        // no body follows the remaining cases, they continue with the default one
+                        self.emit_label(body_label);
+                    }
                 }
                 self.emit_label(next_case_label);
 
-- 
2.43.0


From ec35d3da37b1aac0e08b9d4e218cd79c41d9b0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:30 +0000
Subject: [PATCH 23/54] fix: evaluate array literals in a while condition on
 every iteration

The literal was only built once, before the loop, so the condition kept
seeing the values of the first evaluation.
---
 compiler/src/sugar.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/compiler/src/sugar.rs b/compiler/src/sugar.rs
index 761522b..c6ad68f 100644
--- a/compiler/src/sugar.rs
+++ b/compiler/src/sugar.rs
@@ -1,4 +1,4 @@
-use std::vec;
+use std::{mem, vec};
 
 use redscript::ast::{BinOp, Constant, Expr, Ident, Literal, Seq, Span, TypeName};
 use redscript::bundle::{ConstantPool, PoolIndex};
@@ -137,6 +137,22 @@ impl<'a> ExprTransformer<TypedAst> for Desugar<'a> {
         Ok(acc)
     }
 
+    fn on_while(&mut self, cond: TypedExpr, body: Seq<TypedAst>, span: Span) -> Result<TypedExpr, Error> {
+        let body = self.on_seq(body)?;
+        let outer = mem::take(&mut self.prefix_exprs);
+        let cond = self.on_expr(cond)?;
+        let mut prefix = mem::replace(&mut self.prefix_exprs, outer);
+
+        if prefix.is_empty() {
+            return Ok(Expr::While(Box::new(cond), body, span));
+        }
+        // what the condition depends on has to be evaluated anew for each iteration
+        let exit = Seq::new(vec![Expr::Break(span)]);
+        prefix.push(Expr::If(Box::new(cond), body, Some(exit), span));
+        let always = Expr::Constant(Constant::Bool(true), span);
+        Ok(Expr::While(Box::new(always), Seq::new(prefix), span))
+    }
+
     fn on_for_in(
         &mut self,
         name: PoolIndex<Local>,
-- 
2.43.0


From 2525cb5b88e04ffd1a1f4b2e9aad913578a8f6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:18 +0000
Subject: [PATCH 24/54] fix: report escapes that are not unicode code points as
 syntax errors

---
 compiler/src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compiler/src/parser.rs b/compiler/src/parser.rs
index 4453419..c9bea0b 100644
--- a/compiler/src/parser.rs
+++ b/compiler/src/parser.rs
@@ -235,8 +235,8 @@ peg::parser! {
             / r"\'" { '\'' }
             / r#"\""# { '\"' }
             / r"\\" { '\\' }
-            / "\\u{" u:$(['a'..='f' | 'A'..='F' | '0'..='9']*<1,6>) "}" {
-                char::from_u32(u32::from_str_radix(u, 16).unwrap()).unwrap()
+            / "\\u{" u:$(['a'..='f' | 'A'..='F' | '0'..='9']*<1,6>) "}" {?
+                u32::from_str_radix(u, 16).ok().and_then(char::from_u32).ok_or("valid unicode code point")
             }
 
         rule string_contents() -> String
-- 
2.43.0


From b5a80d457165a47af22e92aa23dfb0506def5735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:18 +0000
Subject: [PATCH 25/54] fix: report values without a storable type instead of
 panicking

---
 compiler/src/scope.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/src/scope.rs b/compiler/src/scope.rs
index 0e47324..0cf2839 100644
--- a/compiler/src/scope.rs
+++ b/compiler/src/scope.rs
@@ -209,7 +209,7 @@ impl Scope {
                 TypeId::Array(inner) => Type::Array(self.get_type_index(inner, pool)?),
                 TypeId::StaticArray(inner, size) => Type::StaticArray(self.get_type_index(inner, pool)?, *size),
                 TypeId::ScriptRef(inner) => Type::ScriptRef(self.get_type_index(inner, pool)?),
-                TypeId::Null | TypeId::Void => panic!(),
+                TypeId::Null | TypeId::Void => return Err(Cause::TypeAnnotationRequired),
             };
             let type_idx = pool.add_definition(Definition::type_(name_idx, value));
             self.add_type(name, type_idx);
-- 
2.43.0


From 17ccf85a9bfa2183b9426053742bf44e5014a343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:18 +0000
Subject: [PATCH 26/54] fix: say where a method is added to a class that cannot
 be extended yet

---
 compiler/src/unit.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/compiler/src/unit.rs b/compiler/src/unit.rs
index 94976ab..c89f269 100644
--- a/compiler/src/unit.rs
+++ b/compiler/src/unit.rs
@@ -915,7 +915,11 @@ impl<'a> CompilationUnit<'a> {
                         self.diagnostics.push(Diagnostic::AddMethodConflict(ann.span));
                     }
 
-                    let class = self.pool.class(target_class_idx)?;
+                    let class = self
+                        .pool
+                        .class(target_class_idx)
+                        .map_err(Cause::from)
+                        .with_span(ann.span)?;
                     let base_method = if class.base != PoolIndex::UNDEFINED {
                         let base = self.pool.class(class.base)?;
                         base.functions
-- 
2.43.0


From 3e83f88f2fd31d2b63e49e2f7473e95048a266ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:18 +0000
Subject: [PATCH 27/54] fix: report cyclic inheritance instead of following it
 forever

---
 compiler/src/unit.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/compiler/src/unit.rs b/compiler/src/unit.rs
index c89f269..21ae3cd 100644
--- a/compiler/src/unit.rs
+++ b/compiler/src/unit.rs
@@ -509,7 +509,12 @@ impl<'a> CompilationUnit<'a> {
             PoolIndex::UNDEFINED
         } else if let Some(base_name) = source.base {
             if let Ok(Symbol::Class(base_idx, _)) = scope.resolve_symbol(base_name.clone()) {
-                base_idx
+                if self.is_derived_from(base_idx, class_idx) {
+                    self.report(Cause::UnsupportedFeature("cyclic inheritance").with_span(source.span))?;
+                    PoolIndex::UNDEFINED
+                } else {
+                    base_idx
+                }
             } else {
                 self.report(Cause::ClassNotFound(base_name).with_span(source.span))?;
                 PoolIndex::UNDEFINED
@@ -518,7 +523,11 @@ impl<'a> CompilationUnit<'a> {
             .resolve_symbol(Ident::from_static("IScriptable"))
             .with_span(source.span)
         {
-            class
+            if self.is_derived_from(class, class_idx) {
+                PoolIndex::UNDEFINED
+            } else {
+                class
+            }
         } else {
             log::warn!("No IScriptable in scope, defaulting to no implicit base class");
             PoolIndex::UNDEFINED
@@ -539,6 +548,16 @@ impl<'a> CompilationUnit<'a> {
         Ok(())
     }
 
+    fn is_derived_from(&self, mut class_idx: PoolIndex<Class>, ancestor: PoolIndex<Class>) -> bool {
+        while !class_idx.is_undefined() {
+            if class_idx == ancestor {
+                return true;
+            }
+            class_idx = self.pool.class(class_idx).map_or(PoolIndex::UNDEFINED, |class| class.base);
+        }
+        false
+    }
+
     fn define_function(&mut self, spec: FunctionSpec, scope: &mut Scope) -> Result<(), Error> {
         let decl = &spec.source.declaration;
         let is_native = !spec.is_replacement && decl.qualifiers.contain(Qualifier::Native);
-- 
2.43.0


From 465f5fa4d4ef503d1e0e4606d2d4297d1b61d26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:33 +0000
Subject: [PATCH 28/54] fix: define a class even if one of its members cannot
 be defined

---
 compiler/src/unit.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/compiler/src/unit.rs b/compiler/src/unit.rs
index 21ae3cd..37ef607 100644
--- a/compiler/src/unit.rs
+++ b/compiler/src/unit.rs
@@ -488,8 +488,10 @@ impl<'a> CompilationUnit<'a> {
                         source: fun,
                     };
 
-                    self.define_function(spec, scope)?;
-                    functions.push(fun_idx);
+                    match self.define_function(spec, scope) {
+                        Ok(()) => functions.push(fun_idx),
+                        Err(err) => self.report(err)?,
+                    }
                 }
                 MemberSource::Field(let_) => {
                     if !eval_conditions(ctx, &let_.declaration.annotations)? {
@@ -499,8 +501,10 @@ impl<'a> CompilationUnit<'a> {
                     let name_idx = self.pool.names.add(let_.declaration.name.to_heap());
                     let field_idx = self.pool.stub_definition(name_idx);
 
-                    self.define_field(field_idx, class_idx, flags, visibility, let_, scope)?;
-                    fields.push(field_idx);
+                    match self.define_field(field_idx, class_idx, flags, visibility, let_, scope) {
+                        Ok(()) => fields.push(field_idx),
+                        Err(err) => self.report(err)?,
+                    }
                 }
             }
         }
-- 
2.43.0


From 3303e2823ba37abc717cf9010639ea52b0006789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:42 +0000
Subject: [PATCH 29/54] fix: define a class even if the condition of a member
 is invalid

---
 compiler/src/unit.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/compiler/src/unit.rs b/compiler/src/unit.rs
index 37ef607..41f48ea 100644
--- a/compiler/src/unit.rs
+++ b/compiler/src/unit.rs
@@ -460,8 +460,13 @@ impl<'a> CompilationUnit<'a> {
         for member in source.members {
             match member {
                 MemberSource::Function(fun) => {
-                    if !eval_conditions(ctx, &fun.declaration.annotations)? {
-                        continue;
+                    match eval_conditions(ctx, &fun.declaration.annotations) {
+                        Ok(true) => {}
+                        Ok(false) => continue,
+                        Err(err) => {
+                            self.report(err)?;
+                            continue;
+                        }
                     }
 
                     if is_struct && !fun.declaration.qualifiers.contain(Qualifier::Static) {
@@ -494,8 +499,13 @@ impl<'a> CompilationUnit<'a> {
                     }
                 }
                 MemberSource::Field(let_) => {
-                    if !eval_conditions(ctx, &let_.declaration.annotations)? {
-                        continue;
+                    match eval_conditions(ctx, &let_.declaration.annotations) {
+                        Ok(true) => {}
+                        Ok(false) => continue,
+                        Err(err) => {
+                            self.report(err)?;
+                            continue;
+                        }
                     }
 
                     let name_idx = self.pool.names.add(let_.declaration.name.to_heap());
-- 
2.43.0


From 01327128d00b794bd5f9e41138b4be6678ccd6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:42 +0000
Subject: [PATCH 30/54] fix: say where a field is added to a class that is not
 defined yet

---
 compiler/src/unit.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/compiler/src/unit.rs b/compiler/src/unit.rs
index 41f48ea..5ee814b 100644
--- a/compiler/src/unit.rs
+++ b/compiler/src/unit.rs
@@ -778,7 +778,8 @@ impl<'a> CompilationUnit<'a> {
                         // we avoid redefining the field because it'd crash the game
                         return Ok(());
                     }
-                    let flags = self.pool.class(target_class)?.flags;
+                    let class = self.pool.class(target_class).map_err(Cause::from);
+                    let flags = class.with_span(ann.span)?.flags;
                     self.define_field(index, target_class, flags, visibility, source, scope)?;
                     self.pool.class_mut(target_class)?.fields.push(index);
                     return Ok(());
-- 
2.43.0


From ed0474d86550b9b4a4ea2b1326ce0a70ab4a323e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:42 +0000
Subject: [PATCH 31/54] fix: keep the diagnostics of an invalid function when
 other functions use it

---
 compiler/src/unit.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/compiler/src/unit.rs b/compiler/src/unit.rs
index 5ee814b..9c904fd 100644
--- a/compiler/src/unit.rs
+++ b/compiler/src/unit.rs
@@ -288,7 +288,12 @@ impl<'a> CompilationUnit<'a> {
 
                     compiled_funcs.push(func);
                 }
-                Err(err) => self.diagnostics.push(Diagnostic::from_error(err)?),
+                Err(err) => match Diagnostic::from_error(err) {
+                    Ok(diagnostic) => self.diagnostics.push(diagnostic),
+                    // uses of definitions that have already been reported as invalid
+                    Err(Error::PoolError(_)) if self.diagnostics.iter().any(Diagnostic::is_fatal) => {}
+                    Err(other) => return Err(other),
+                },
             }
         }
 
-- 
2.43.0


From f4e792c9cf93aad06362fa173df8dada6d6d2dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:57 +0000
Subject: [PATCH 32/54] fix: refuse by-reference temporaries that the
 invocation flags cannot describe

---
 compiler/src/assembler.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/compiler/src/assembler.rs b/compiler/src/assembler.rs
index 745f642..f2c7246 100644
--- a/compiler/src/assembler.rs
+++ b/compiler/src/assembler.rs
@@ -403,7 +403,9 @@ impl<'a> Assembler<'a> {
         for (n, arg) in args.iter().enumerate() {
             let is_rvalue_ref = Self::is_rvalue_ref(arg, scope, pool).unwrap_or(false);
             if is_rvalue_ref {
-                invoke_flags |= 1 << n;
+                invoke_flags |= 1u16.checked_shl(n as u32).ok_or_else(|| {
+                    Cause::UnsupportedFeature("passing a temporary by reference after the 16th argument").with_span(span)
+                })?;
             }
         }
 
-- 
2.43.0


From 3dc7316bfb7cda55ebb4c4a503b27e0247bb9647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:57 +0000
Subject: [PATCH 33/54] fix: refuse to construct structs with more fields than
 the instruction can count

---
 compiler/src/assembler.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/compiler/src/assembler.rs b/compiler/src/assembler.rs
index f2c7246..6dde78b 100644
--- a/compiler/src/assembler.rs
+++ b/compiler/src/assembler.rs
@@ -140,7 +140,10 @@ impl<'a> Assembler<'a> {
             Expr::New(type_, args, span) => match type_ {
                 TypeId::Class(idx) => self.emit(Instr::New(idx)),
                 TypeId::Struct(idx) => {
-                    self.emit(Instr::Construct(args.len() as u8, idx));
+                    let count = args.len().try_into().map_err(|_| {
+                        Cause::UnsupportedFeature("constructing structs with more than 255 fields").with_span(span)
+                    })?;
+                    self.emit(Instr::Construct(count, idx));
                     for arg in args.into_vec() {
                         self.assemble(arg, scope, pool, None)?;
                     }
-- 
2.43.0


From 74d4b0e51c29c0fc4ba33f8810facf6beece8c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:39 +0000
Subject: [PATCH 34/54] fix: refuse this and super in static functions wherever
 they appear

---
 compiler/src/typechecker.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/compiler/src/typechecker.rs b/compiler/src/typechecker.rs
index c2a159f..fa437f0 100644
--- a/compiler/src/typechecker.rs
+++ b/compiler/src/typechecker.rs
@@ -345,6 +345,9 @@ impl<'a> TypeChecker<'a> {
                     }
                 }
             }
+            Expr::This(span) | Expr::Super(span) if scope.this.is_none() => {
+                return Err(Cause::UnexpectedThis.with_span(*span))
+            }
             Expr::This(span) => Expr::This(*span),
             Expr::Super(span) => Expr::Super(*span),
             Expr::Break(span) => Expr::Break(*span),
-- 
2.43.0


From 87906ab3ed4f062b036e44ae5aa9289a09a663ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:35 +0000
Subject: [PATCH 35/54] fix: refuse NUL characters in literals, which the
 script cache cannot store

---
 compiler/src/parser.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/compiler/src/parser.rs b/compiler/src/parser.rs
index c9bea0b..66e6543 100644
--- a/compiler/src/parser.rs
+++ b/compiler/src/parser.rs
@@ -228,7 +228,7 @@ peg::parser! {
             }
 
         rule escaped_char() -> char
-            = !['\\' | '\"'] c:[_] { c }
+            = !['\\' | '\"' | '\0'] c:[_] { c }
             / r"\n" { '\n' }
             / r"\r" { '\r' }
             / r"\t" { '\t' }
@@ -236,7 +236,11 @@ peg::parser! {
             / r#"\""# { '\"' }
             / r"\\" { '\\' }
             / "\\u{" u:$(['a'..='f' | 'A'..='F' | '0'..='9']*<1,6>) "}" {?
-                u32::from_str_radix(u, 16).ok().and_then(char::from_u32).ok_or("valid unicode code point")
+                u32::from_str_radix(u, 16)
+                    .ok()
+                    .and_then(char::from_u32)
+                    .filter(|c| *c != '\0')
+                    .ok_or("valid unicode code point")
             }
 
         rule string_contents() -> String
-- 
2.43.0


From b9a2979dc6211b037eb3bdc2424ec3109f787556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:59 +0000
Subject: [PATCH 36/54] fix: refuse functions with jumps too long to encode

---
 compiler/src/assembler.rs | 37 +++++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/compiler/src/assembler.rs b/compiler/src/assembler.rs
index 6dde78b..8e18f12 100644
--- a/compiler/src/assembler.rs
+++ b/compiler/src/assembler.rs
@@ -585,6 +585,39 @@ impl<'a> Assembler<'a> {
         Ok(())
     }
 
+    /// checks that all jumps fit in the 16 bits used to encode them
+    fn are_jumps_encodable(&self) -> bool {
+        let mut targets = vec![0; self.labels];
+        let mut pos = 0i64;
+        for instr in &self.instructions {
+            if let Instr::Target(label) = instr {
+                targets[label.index] = pos;
+            }
+            pos += i64::from(instr.size());
+        }
+
+        pos = 0;
+        for instr in &self.instructions {
+            let fits = |label: &Label| i16::try_from(targets[label.index] - pos).is_ok();
+            let is_encodable = match instr {
+                Instr::Conditional(a, b) | Instr::SwitchLabel(a, b) => fits(a) && fits(b),
+                Instr::Switch(_, a)
+                | Instr::Jump(a)
+                | Instr::JumpIfFalse(a)
+                | Instr::Skip(a)
+                | Instr::Context(a)
+                | Instr::InvokeStatic(a, _, _, _)
+                | Instr::InvokeVirtual(a, _, _, _) => fits(a),
+                _ => true,
+            };
+            if !is_encodable {
+                return false;
+            }
+            pos += i64::from(instr.size());
+        }
+        true
+    }
+
     fn into_code(self) -> Code<Offset> {
         let mut locations = Vec::with_capacity(self.labels);
         locations.resize(self.labels, Location::new(0));
@@ -609,9 +642,13 @@ impl<'a> Assembler<'a> {
         scope: &mut Scope,
         pool: &mut ConstantPool,
     ) -> Result<Code<Offset>, Error> {
+        let span = seq.exprs.first().map_or(Span::ZERO, Expr::span);
         let mut assembler = Self::new(files);
         assembler.assemble_seq(seq, scope, pool, None)?;
         assembler.emit(Instr::Nop);
+        if !assembler.are_jumps_encodable() {
+            return Err(Cause::UnsupportedFeature("jumping over more than 32 KB of bytecode").with_span(span));
+        }
         Ok(assembler.into_code())
     }
 }
-- 
2.43.0


From 59fdc27dcbafdb967b8e3640b2d05850c064572d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:21 +0000
Subject: [PATCH 37/54] fix: do not write beyond an empty error buffer

---
 scc/lib/src/api.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scc/lib/src/api.rs b/scc/lib/src/api.rs
index d2a712c..ded06d4 100644
--- a/scc/lib/src/api.rs
+++ b/scc/lib/src/api.rs
@@ -72,6 +72,9 @@ pub unsafe extern "C" fn scc_copy_error(output: &SccResult, buffer: *mut u8, buf
     match output {
         SccResult::Success(_) => 0,
         SccResult::Error(error) => {
+            if buffer_size == 0 {
+                return 0;
+            }
             let error = error.to_string();
             let max_len = error.len().min(buffer_size - 1);
             unsafe {
-- 
2.43.0


From bff4cbb58743815a4c073a1205b90bd110b45d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:21 +0000
Subject: [PATCH 38/54] fix: accept cache files with a modification time before
 1970

---
 scc/lib/src/timestamp.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/scc/lib/src/timestamp.rs b/scc/lib/src/timestamp.rs
index 73245dd..8f7bb2b 100644
--- a/scc/lib/src/timestamp.rs
+++ b/scc/lib/src/timestamp.rs
@@ -27,12 +27,10 @@ impl CompileTimestamp {
     }
 
     pub fn of_cache_file(file: &File) -> io::Result<Self> {
-        let nanos = file
-            .metadata()?
-            .modified()?
-            .duration_since(SystemTime::UNIX_EPOCH)
-            .unwrap()
-            .as_nanos();
+        let nanos = match file.metadata()?.modified()?.duration_since(SystemTime::UNIX_EPOCH) {
+            Ok(after) => after.as_nanos(),
+            Err(before) => before.duration().as_nanos().wrapping_neg(),
+        };
         Ok(Self { nanos })
     }
 }
-- 
2.43.0


From 2af6124b178d08429842126b2e12084039e8cf85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:00 +0000
Subject: [PATCH 39/54] fix: copy cache files completely or not at all, by one
 process at a time

---
 scc/lib/src/lib.rs | 41 +++++++++++++++++++++++++----------------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/scc/lib/src/lib.rs b/scc/lib/src/lib.rs
index 59f2f8c..cbd88b9 100644
--- a/scc/lib/src/lib.rs
+++ b/scc/lib/src/lib.rs
@@ -56,24 +56,13 @@ fn try_compile(settings: &SccSettings) -> anyhow::Result<SccResult> {
         .chain(settings.additional_script_paths.iter().cloned())
         .collect::<Vec<_>>();
 
-    if !cache_path.exists() {
-        let base_cache_file = get_base_bundle_path(&default_cache_dir);
-        let cache_dir = cache_path
-            .parent()
-            .context("Provided cache file path has no parent directory")?;
-        fs::create_dir_all(cache_dir).context("Failed to create the cache directory")?;
-        fs::copy(base_cache_file, &cache_path).context("Could not copy the base script cache file")?;
-    }
+    let cache_dir = cache_path
+        .parent()
+        .context("Provided cache file path has no parent directory")?;
+    fs::create_dir_all(cache_dir).context("Failed to create the cache directory")?;
 
-    let backup_path = cache_path.with_extension(BACKUP_FILE_EXT);
-    let fallback_backup_path = settings.r6_dir.join("cache").join(BACKUP_FILE_NAME);
     let output_cache_path = settings.output_cache_file.as_deref().unwrap_or(&cache_path);
 
-    if fallback_backup_path.exists() && !backup_path.exists() {
-        log::info!("Re-initializing backup file from {}", fallback_backup_path.display());
-        fs::copy(fallback_backup_path, &backup_path).context("Failed to copy the backup file")?;
-    }
-
     let files = Files::from_dirs(&script_paths, &SourceFilter::None).context("Could not load script sources")?;
 
     match try_compile_files(&settings.r6_dir, &cache_path, output_cache_path, files) {
@@ -132,6 +121,18 @@ fn try_compile_files(
         .write()
         .context("Failed to acquire a write lock on the timestamp file")?;
 
+    let default_cache_dir = r6_dir.join("cache");
+    if !cache_path.exists() {
+        let base_cache_file = get_base_bundle_path(&default_cache_dir);
+        copy_file(&base_cache_file, cache_path).context("Could not copy the base script cache file")?;
+    }
+
+    let fallback_backup_path = default_cache_dir.join(BACKUP_FILE_NAME);
+    if fallback_backup_path.exists() && !backup_path.exists() {
+        log::info!("Re-initializing backup file from {}", fallback_backup_path.display());
+        copy_file(&fallback_backup_path, &backup_path).context("Failed to copy the backup file")?;
+    }
+
     let write_timestamp = File::open(cache_path)
         .and_then(|f| CompileTimestamp::of_cache_file(&f))
         .context("Failed to obtain a timestamp of the cache file")?;
@@ -161,7 +162,7 @@ fn try_compile_files(
                     "Redscript cache file is not ours, copying it to {}",
                     backup_path.display()
                 );
-                fs::copy(cache_path, &backup_path).context("Failed to copy the cache file")?;
+                copy_file(cache_path, &backup_path).context("Failed to copy the cache file")?;
             }
             Some(_) if !backup_path.exists() => {
                 return Err(anyhow::anyhow!(
@@ -258,6 +259,14 @@ fn get_base_bundle_path(cache_dir: &Path) -> PathBuf {
     }
 }
 
+/// Copies a file in such a way that the destination never contains just a part of it.
+fn copy_file(from: &Path, to: &Path) -> io::Result<()> {
+    let mut temp_path = to.as_os_str().to_owned();
+    temp_path.push(".tmp");
+    fs::copy(from, &temp_path)?;
+    fs::rename(&temp_path, to)
+}
+
 fn add_redscript_signature_def(pool: &mut ConstantPool) {
     let name = pool.names.add(REDSCRIPT_SIGNATURE_DEF.into());
     let enum_ = Enum {
-- 
2.43.0


From 175b2d6a9fbb74f65bab5b1d9a590335d3aaf983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:00 +0000
Subject: [PATCH 40/54] fix: notice a game update that follows a refused first
 compilation

---
 scc/lib/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scc/lib/src/lib.rs b/scc/lib/src/lib.rs
index cbd88b9..e3a1a47 100644
--- a/scc/lib/src/lib.rs
+++ b/scc/lib/src/lib.rs
@@ -156,6 +156,7 @@ fn try_compile_files(
         match saved_timestamp {
             None if backup_path.exists() => {
                 log::info!("Previous cache backup file found");
+                write_timestamp.write(&mut *ts_file)?;
             }
             saved_timestamp if saved_timestamp != Some(write_timestamp) => {
                 log::info!(
@@ -163,6 +164,7 @@ fn try_compile_files(
                     backup_path.display()
                 );
                 copy_file(cache_path, &backup_path).context("Failed to copy the cache file")?;
+                write_timestamp.write(&mut *ts_file)?;
             }
             Some(_) if !backup_path.exists() => {
                 return Err(anyhow::anyhow!(
-- 
2.43.0


From ee6464cfa88d8529dda5240df5735dfc18826147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:00 +0000
Subject: [PATCH 41/54] fix: never take an incomplete output for the original
 cache

---
 scc/lib/src/lib.rs       | 66 ++++++++++++++++++++++++++++------------
 scc/lib/src/timestamp.rs |  3 ++
 2 files changed, 49 insertions(+), 20 deletions(-)

diff --git a/scc/lib/src/lib.rs b/scc/lib/src/lib.rs
index e3a1a47..e02138f 100644
--- a/scc/lib/src/lib.rs
+++ b/scc/lib/src/lib.rs
@@ -136,8 +136,13 @@ fn try_compile_files(
     let write_timestamp = File::open(cache_path)
         .and_then(|f| CompileTimestamp::of_cache_file(&f))
         .context("Failed to obtain a timestamp of the cache file")?;
-    let saved_timestamp =
+    let mut saved_timestamp =
         CompileTimestamp::read(&mut *ts_file).context("Failed to read the existing timestamp file")?;
+    if saved_timestamp == Some(CompileTimestamp::UNFINISHED) && backup_path.exists() && !is_original_cache(cache_path) {
+        log::info!("The previous compilation did not finish, the cache file is incomplete");
+        write_timestamp.write(&mut *ts_file)?;
+        saved_timestamp = Some(write_timestamp);
+    }
 
     let input_cache_path = if is_output_file_separate {
         match saved_timestamp {
@@ -178,18 +183,7 @@ fn try_compile_files(
         backup_path
     };
 
-    #[cfg(feature = "mmap")]
-    let mut bundle = {
-        let (map, _) = vmap::Map::with_options()
-            .open(input_cache_path)
-            .context("Failed to open the original script cache file")?;
-        ScriptBundle::load(&mut io::Cursor::new(map.as_ref())).context("Failed to load the original script cache")?
-    };
-    #[cfg(not(feature = "mmap"))]
-    let mut bundle = {
-        let file = File::open(input_cache_path).context("Failed to open the original script cache file")?;
-        ScriptBundle::load(&mut io::BufReader::new(file)).context("Failed to load the original script cache")?
-    };
+    let mut bundle = load_cache(&input_cache_path)?;
 
     if check_for_redscript_signature_def(&bundle.pool) {
         return Err(anyhow::anyhow!(
@@ -215,13 +209,24 @@ fn try_compile_files(
 
             add_redscript_signature_def(&mut bundle.pool);
 
-            let mut file = File::create(output_cache_path).map_err(|err| match err.kind() {
-                io::ErrorKind::PermissionDenied => anyhow::anyhow!(
-                    "Could not write to '{}', make sure the file is not read-only",
-                    output_cache_path.display()
-                ),
-                _ => err.into(),
-            })?;
+            let mut file = OpenOptions::new()
+                .write(true)
+                .create(true)
+                .truncate(false)
+                .open(output_cache_path)
+                .map_err(|err| match err.kind() {
+                    io::ErrorKind::PermissionDenied => anyhow::anyhow!(
+                        "Could not write to '{}', make sure the file is not read-only",
+                        output_cache_path.display()
+                    ),
+                    _ => err.into(),
+                })?;
+            if !is_output_file_separate {
+                // an incomplete cache must never be mistaken for the original one
+                CompileTimestamp::UNFINISHED.write(&mut *ts_file)?;
+                ts_file.sync_all()?;
+            }
+            file.set_len(0)?;
             bundle.save(&mut io::BufWriter::new(&mut file))?;
             file.sync_all()?;
 
@@ -261,6 +266,27 @@ fn get_base_bundle_path(cache_dir: &Path) -> PathBuf {
     }
 }
 
+fn load_cache(path: &Path) -> anyhow::Result<ScriptBundle> {
+    #[cfg(feature = "mmap")]
+    let bundle = {
+        let (map, _) = vmap::Map::with_options()
+            .open(path)
+            .context("Failed to open the original script cache file")?;
+        ScriptBundle::load(&mut io::Cursor::new(map.as_ref())).context("Failed to load the original script cache")?
+    };
+    #[cfg(not(feature = "mmap"))]
+    let bundle = {
+        let file = File::open(path).context("Failed to open the original script cache file")?;
+        ScriptBundle::load(&mut io::BufReader::new(file)).context("Failed to load the original script cache")?
+    };
+    Ok(bundle)
+}
+
+/// Checks whether a cache is complete and not an output of this compiler.
+fn is_original_cache(path: &Path) -> bool {
+    load_cache(path).is_ok_and(|bundle| !check_for_redscript_signature_def(&bundle.pool))
+}
+
 /// Copies a file in such a way that the destination never contains just a part of it.
 fn copy_file(from: &Path, to: &Path) -> io::Result<()> {
     let mut temp_path = to.as_os_str().to_owned();
diff --git a/scc/lib/src/timestamp.rs b/scc/lib/src/timestamp.rs
index 8f7bb2b..7700926 100644
--- a/scc/lib/src/timestamp.rs
+++ b/scc/lib/src/timestamp.rs
@@ -10,6 +10,9 @@ pub struct CompileTimestamp {
 }
 
 impl CompileTimestamp {
+    /// Stands for a cache file that is being written to.
+    pub const UNFINISHED: Self = Self { nanos: 1 << 127 };
+
     pub fn read<R: io::Read + io::Seek>(input: &mut R) -> io::Result<Option<Self>> {
         if input.seek(io::SeekFrom::End(0))? == 0 {
             return Ok(None);
-- 
2.43.0


From 2e48965091ef005253b9aecec8dfef4e3220128c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:30 +0000
Subject: [PATCH 42/54] fix: keep dumped files inside of the output directory

---
 cli/src/main.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/cli/src/main.rs b/cli/src/main.rs
index a33aa12..e6927ed 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -1,6 +1,6 @@
 use std::fs::{self, File};
-use std::io;
-use std::path::{Path, PathBuf};
+use std::io::{self, Write};
+use std::path::{Component, Path, PathBuf};
 
 use anyhow::Context;
 use argh::FromArgs;
@@ -141,7 +141,7 @@ fn decompile(opts: DecompileOpts) -> anyhow::Result<()> {
 
     if opts.dump_files {
         for entry in FileIndex::from_pool(pool).iter() {
-            let path = opts.output.as_path().join(entry.path);
+            let path = opts.output.as_path().join(relative_path(entry.path));
 
             fs::create_dir_all(path.parent().expect("entry path should have at least one component"))?;
 
@@ -191,6 +191,13 @@ fn lint(opts: LintOpts) -> anyhow::Result<()> {
     }
 }
 
+/// Strips everything that could lead out of the directory the path is going to be joined with.
+fn relative_path(path: &Path) -> PathBuf {
+    path.components()
+        .filter(|component| matches!(component, Component::Normal(_)))
+        .collect()
+}
+
 fn load_bundle(path: &Path) -> anyhow::Result<ScriptBundle> {
     let (map, _) = Map::with_options()
         .open(path)
-- 
2.43.0


From f36f1d323c503b637902d28146681ceb6e58aa52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:06 +0000
Subject: [PATCH 43/54] fix: report errors while writing decompiled code

---
 cli/src/main.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cli/src/main.rs b/cli/src/main.rs
index e6927ed..dd9bfae 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -152,6 +152,7 @@ fn decompile(opts: DecompileOpts) -> anyhow::Result<()> {
                     log::error!("Failed to process a definition: {err}");
                 }
             }
+            output.flush().context("Failed to write the output")?;
         }
     } else {
         let file = File::create(&opts.output).context("Failed to create a file at the specified output path")?;
@@ -166,6 +167,7 @@ fn decompile(opts: DecompileOpts) -> anyhow::Result<()> {
                 log::error!("Failed to process a definition: {err}");
             }
         }
+        output.flush().context("Failed to write the output")?;
     }
     log::info!("Output successfully saved to {}", opts.output.display());
     Ok(())
-- 
2.43.0


From 34cd0cd1aeaf9a8fbb006a5cd5ad32822f5da50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:21 +0000
Subject: [PATCH 44/54] fix: keep the definitions of source files with the same
 path when dumping files

---
 cli/src/main.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/cli/src/main.rs b/cli/src/main.rs
index dd9bfae..d25a1ec 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -1,3 +1,4 @@
+use std::collections::HashSet;
 use std::fs::{self, File};
 use std::io::{self, Write};
 use std::path::{Component, Path, PathBuf};
@@ -140,12 +141,20 @@ fn decompile(opts: DecompileOpts) -> anyhow::Result<()> {
     };
 
     if opts.dump_files {
+        let mut written = HashSet::new();
         for entry in FileIndex::from_pool(pool).iter() {
             let path = opts.output.as_path().join(relative_path(entry.path));
 
             fs::create_dir_all(path.parent().expect("entry path should have at least one component"))?;
 
-            let file = File::create(path).context("Failed to create a file at the specified output path")?;
+            // different source files can have the same path
+            let file = if written.contains(&path) {
+                File::options().append(true).open(&path)
+            } else {
+                File::create(&path)
+            };
+            let file = file.context("Failed to create a file at the specified output path")?;
+            written.insert(path);
             let mut output = io::BufWriter::new(file);
             for def in entry.definitions {
                 if let Err(err) = write_definition(&mut output, def, pool, 0, mode) {
-- 
2.43.0


From 8358b459a8914b20ee28365b0ac3d5b2a0f6530f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:33 +0000
Subject: [PATCH 45/54] fix: ignore directories named like scripts

---
 compiler/src/source_map.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/compiler/src/source_map.rs b/compiler/src/source_map.rs
index 07f4be0..5706bd0 100644
--- a/compiler/src/source_map.rs
+++ b/compiler/src/source_map.rs
@@ -88,6 +88,7 @@ fn filtered_file_iter<'a>(path: &'a Path, filter: &'a SourceFilter) -> impl Iter
             .follow_links(true)
             .into_iter()
             .filter_map(Result::ok)
+            .filter(|entry| !entry.file_type().is_dir())
             .map(DirEntry::into_path)
             .filter(move |p| filter.apply(p.strip_prefix(path).unwrap()));
         Either::Right(iter)
-- 
2.43.0


From 738b8be8e45ea68eb8322d32004894f599d51b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:40 +0000
Subject: [PATCH 46/54] fix: report errors of the code generator along with
 other diagnostics

---
 compiler/src/unit.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/compiler/src/unit.rs b/compiler/src/unit.rs
index 9c904fd..dc0e2b1 100644
--- a/compiler/src/unit.rs
+++ b/compiler/src/unit.rs
@@ -263,8 +263,10 @@ impl<'a> CompilationUnit<'a> {
         }
 
         for default in self.field_defaults.drain(..) {
-            let diagnostics = Self::compile_default(default, self.pool)?;
-            self.diagnostics.extend(diagnostics);
+            match Self::compile_default(default, self.pool) {
+                Ok(diagnostics) => self.diagnostics.extend(diagnostics),
+                Err(err) => self.diagnostics.push(Diagnostic::from_error(err)?),
+            }
         }
 
         // create function proxies
@@ -300,9 +302,15 @@ impl<'a> CompilationUnit<'a> {
         Ok(compiled_funcs)
     }
 
-    fn finish(self, functions: Vec<CompiledFunction>, files: &Files) -> Result<CompilationOutput, Error> {
+    fn finish(mut self, functions: Vec<CompiledFunction>, files: &Files) -> Result<CompilationOutput, Error> {
         for mut func in functions {
-            let code = Assembler::from_body(func.code, files, &mut func.scope, self.pool)?;
+            let code = match Assembler::from_body(func.code, files, &mut func.scope, self.pool) {
+                Ok(code) => code,
+                Err(err) => {
+                    self.report(err)?;
+                    continue;
+                }
+            };
             let function = self.pool.function_mut(func.index)?;
             function.code = code;
             function.locals = func.locals;
-- 
2.43.0


From 41301976fa4f8bb7297288d0c1522c068fb0897b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:58 +0000
Subject: [PATCH 47/54] fix: report invalid conditions along with other
 diagnostics

---
 compiler/src/unit.rs | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/compiler/src/unit.rs b/compiler/src/unit.rs
index dc0e2b1..b714136 100644
--- a/compiler/src/unit.rs
+++ b/compiler/src/unit.rs
@@ -168,12 +168,15 @@ impl<'a> CompilationUnit<'a> {
             let mut slots = Vec::with_capacity(module.entries.len());
 
             for entry in module.entries {
-                if eval_conditions(&cte, entry.annotations())? {
-                    match self.define_symbol(entry, &path, permissive) {
-                        Ok(slot) => slots.push(slot),
-                        Err(err) => self.report(err)?,
-                    };
-                }
+                let res = match eval_conditions(&cte, entry.annotations()) {
+                    Ok(true) => self.define_symbol(entry, &path, permissive).map(Some),
+                    Ok(false) => Ok(None),
+                    Err(err) => Err(err),
+                };
+                match res {
+                    Ok(slot) => slots.extend(slot),
+                    Err(err) => self.report(err)?,
+                };
             }
             queue.push((path, module.imports, slots));
         }
@@ -192,13 +195,15 @@ impl<'a> CompilationUnit<'a> {
             };
 
             for import in imports {
-                if eval_conditions(&cte, import.annotations())? {
-                    if let Err(err) = self
+                let res = match eval_conditions(&cte, import.annotations()) {
+                    Ok(true) => self
                         .symbols
-                        .populate_import(import, &mut module_scope, Visibility::Public)
-                    {
-                        self.report(err)?;
-                    }
+                        .populate_import(import, &mut module_scope, Visibility::Public),
+                    Ok(false) => Ok(()),
+                    Err(err) => Err(err),
+                };
+                if let Err(err) = res {
+                    self.report(err)?;
                 }
             }
 
-- 
2.43.0


From f4fa28aae4b0e4eee737bdc55bfbde0c703505ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:38 +0000
Subject: [PATCH 48/54] fix: allow a function to be imported more than once

---
 compiler/src/scope.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/compiler/src/scope.rs b/compiler/src/scope.rs
index 0cf2839..13aff05 100644
--- a/compiler/src/scope.rs
+++ b/compiler/src/scope.rs
@@ -63,7 +63,12 @@ impl Scope {
             Symbol::Functions(funs) => match self.symbols.find(&name) {
                 Some(Symbol::Functions(existing)) => {
                     let mut combined = existing.clone();
-                    combined.extend(funs);
+                    for fun in funs {
+                        // the same function can be imported more than once
+                        if !combined.iter().any(|(idx, _)| *idx == fun.0) {
+                            combined.push(fun);
+                        }
+                    }
                     self.symbols = self.symbols.insert(name, Symbol::Functions(combined));
                 }
                 _ => {
-- 
2.43.0


From 0d26e8c40098949ae9c89f9df1432e367f03fbca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:13 +0000
Subject: [PATCH 49/54] fix: tell classes with the same name in different
 modules apart

---
 compiler/src/scope.rs | 53 +++++++++++++++++++++++++++----------------
 1 file changed, 33 insertions(+), 20 deletions(-)

diff --git a/compiler/src/scope.rs b/compiler/src/scope.rs
index 13aff05..680b7ef 100644
--- a/compiler/src/scope.rs
+++ b/compiler/src/scope.rs
@@ -10,6 +10,7 @@ use crate::symbol::{FunctionSignature, Symbol};
 #[derive(Debug, Clone)]
 pub struct Scope {
     symbols: Map<Ident, Symbol>,
+    shadowed: Map<Ident, Vec<Symbol>>,
     references: Map<Ident, Value>,
     types: Map<Ident, PoolIndex<Type>>,
 
@@ -29,6 +30,7 @@ impl Scope {
 
         let result = Self {
             symbols: Map::new(),
+            shadowed: Map::new(),
             references: Map::new(),
             types,
             this: None,
@@ -76,6 +78,11 @@ impl Scope {
                 }
             },
             _ => {
+                if let Some(existing) = self.symbols.find(&name) {
+                    let mut shadowed = self.shadowed.find(&name).cloned().unwrap_or_default();
+                    shadowed.push(existing.clone());
+                    self.shadowed = self.shadowed.insert(name.clone(), shadowed);
+                }
                 self.symbols = self.symbols.insert(name, symbol);
             }
         }
@@ -223,21 +230,20 @@ impl Scope {
     }
 
     pub fn resolve_type(&self, name: &TypeName, pool: &ConstantPool) -> Result<TypeId, Cause> {
-        let result = if let Some(res) = self.types.find(&name.repr()) {
-            self.resolve_type_from_pool(*res, pool)?
-        } else {
-            match (name.kind(), name.arguments()) {
-                (Kind::Ref, [nested]) => TypeId::Ref(Box::new(self.resolve_type(nested, pool)?)),
-                (Kind::WRef, [nested]) => TypeId::WeakRef(Box::new(self.resolve_type(nested, pool)?)),
-                (Kind::ScriptRef, [nested]) => TypeId::ScriptRef(Box::new(self.resolve_type(nested, pool)?)),
-                (Kind::Array, [nested]) => TypeId::Array(Box::new(self.resolve_type(nested, pool)?)),
-                _ => match self.symbols.find(&name.repr()) {
-                    Some(Symbol::Class(idx, _)) => TypeId::Class(*idx),
-                    Some(Symbol::Struct(idx, _)) => TypeId::Struct(*idx),
-                    Some(Symbol::Enum(idx)) => TypeId::Enum(*idx),
-                    _ => return Err(Cause::UnresolvedType(name.pretty())),
+        let result = match (name.kind(), name.arguments()) {
+            (Kind::Ref, [nested]) => TypeId::Ref(Box::new(self.resolve_type(nested, pool)?)),
+            (Kind::WRef, [nested]) => TypeId::WeakRef(Box::new(self.resolve_type(nested, pool)?)),
+            (Kind::ScriptRef, [nested]) => TypeId::ScriptRef(Box::new(self.resolve_type(nested, pool)?)),
+            (Kind::Array, [nested]) => TypeId::Array(Box::new(self.resolve_type(nested, pool)?)),
+            _ => match self.symbols.find(&name.repr()) {
+                Some(Symbol::Class(idx, _)) => TypeId::Class(*idx),
+                Some(Symbol::Struct(idx, _)) => TypeId::Struct(*idx),
+                Some(Symbol::Enum(idx)) => TypeId::Enum(*idx),
+                _ => match self.types.find(&name.repr()) {
+                    Some(idx) => self.resolve_type_from_pool(*idx, pool)?,
+                    None => return Err(Cause::UnresolvedType(name.pretty())),
                 },
-            }
+            },
         };
         Ok(result)
     }
@@ -251,12 +257,19 @@ impl Scope {
             Type::Class => {
                 let name = pool.def_name(index)?;
                 let ident = Ident::from_ref(name.split('.').last().unwrap());
-                match self.symbols.find(&ident) {
-                    Some(Symbol::Class(class_idx, _)) => TypeId::Class(*class_idx),
-                    Some(Symbol::Struct(struct_idx, _)) => TypeId::Struct(*struct_idx),
-                    Some(Symbol::Enum(enum_idx)) => TypeId::Enum(*enum_idx),
-                    _ => return Err(Cause::UnresolvedType(ident)),
-                }
+                // the name alone might refer to a definition of another module
+                self.symbols
+                    .find(&ident)
+                    .into_iter()
+                    .chain(self.shadowed.find(&ident).into_iter().flatten())
+                    .filter_map(|symbol| match symbol {
+                        Symbol::Class(class_idx, _) => Some((TypeId::Class(*class_idx), pool.def_name(*class_idx))),
+                        Symbol::Struct(class_idx, _) => Some((TypeId::Struct(*class_idx), pool.def_name(*class_idx))),
+                        Symbol::Enum(enum_idx) => Some((TypeId::Enum(*enum_idx), pool.def_name(*enum_idx))),
+                        Symbol::Functions(_) => None,
+                    })
+                    .find_map(|(type_, def_name)| def_name.is_ok_and(|def_name| def_name == name).then_some(type_))
+                    .ok_or(Cause::UnresolvedType(ident))?
             }
             Type::Ref(type_) => {
                 let inner = self.resolve_type_from_pool(*type_, pool)?;
-- 
2.43.0


From d24c6692b4a7be02c926dce9f3d6a2d124cbce8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:50 +0000
Subject: [PATCH 50/54] fix: refuse casts of values that are not references

---
 compiler/src/typechecker.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/compiler/src/typechecker.rs b/compiler/src/typechecker.rs
index fa437f0..8b426c0 100644
--- a/compiler/src/typechecker.rs
+++ b/compiler/src/typechecker.rs
@@ -121,11 +121,19 @@ impl<'a> TypeChecker<'a> {
             Expr::Cast(type_name, expr, span) => {
                 let type_ = scope.resolve_type(type_name, self.pool).with_span(*span)?;
                 let checked = self.check(expr, None, scope)?;
-                if let TypeId::WeakRef(inner) = type_of(&checked, scope, self.pool)? {
-                    let converted = insert_conversion(checked, &TypeId::Ref(inner), Conversion::WeakRefToRef);
-                    Expr::Cast(type_, Box::new(converted), *span)
-                } else {
-                    Expr::Cast(type_, Box::new(checked), *span)
+                match type_of(&checked, scope, self.pool)? {
+                    TypeId::WeakRef(inner) => {
+                        let converted = insert_conversion(checked, &TypeId::Ref(inner), Conversion::WeakRefToRef);
+                        Expr::Cast(type_, Box::new(converted), *span)
+                    }
+                    TypeId::Ref(_) | TypeId::ScriptRef(_) | TypeId::Null => {
+                        Expr::Cast(type_, Box::new(checked), *span)
+                    }
+                    // only references can be cast at runtime
+                    other => {
+                        let cause = Cause::UnsupportedOperation("casting", other.pretty(self.pool)?);
+                        return Err(cause.with_span(*span));
+                    }
                 }
             }
             Expr::Assign(lhs, rhs, span) => {
@@ -734,7 +742,7 @@ pub fn type_of(expr: &TypedExpr, scope: &Scope, pool: &ConstantPool) -> Result<T
         Expr::ArrayLit(_, type_, _) => TypeId::Array(type_.clone().unwrap()),
         Expr::InterpolatedString(_, _, span) => scope.resolve_type(&TypeName::STRING, pool).with_span(*span)?,
         Expr::Cast(type_, expr, _) => match type_of(expr, scope, pool)? {
-            TypeId::WeakRef(_) | TypeId::Ref(_) => TypeId::Ref(Box::new(type_.clone())),
+            TypeId::WeakRef(_) | TypeId::Ref(_) | TypeId::Null => TypeId::Ref(Box::new(type_.clone())),
             TypeId::ScriptRef(_) => TypeId::ScriptRef(Box::new(type_.clone())),
             _ => type_.clone(),
         },
-- 
2.43.0


From 5da3ed4b19e9effcfaf417e5c19df979fa931cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:01 +0000
Subject: [PATCH 51/54] fix: flush the output of a saved script cache, so that
 a failure to write its header is not lost

---
 core/src/bundle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/bundle.rs b/core/src/bundle.rs
index 1b8dc33..41e887e 100644
--- a/core/src/bundle.rs
+++ b/core/src/bundle.rs
@@ -34,7 +34,7 @@ impl ScriptBundle {
 
         output.seek(io::SeekFrom::Start(0))?;
         output.encode(&header)?;
-        Ok(())
+        output.flush()
     }
 }
 
-- 
2.43.0


From 21ede8da70021258fbc302d65ab8bf9d54cc2007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:09 +0000
Subject: [PATCH 52/54] fix: do not take a failure to write the output for a
 method that cannot be decompiled

---
 decompiler/src/print.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/decompiler/src/print.rs b/decompiler/src/print.rs
index 8f5417f..65113c1 100644
--- a/decompiler/src/print.rs
+++ b/decompiler/src/print.rs
@@ -74,8 +74,10 @@ pub fn write_definition<W: Write>(
                     AnyDefinition::Function(_) => write_definition(out, method, pool, depth + 1, mode),
                     _ => Err(Error::DecompileError("Expected a method")),
                 };
-                if let Err(err) = result {
-                    log::error!("Method decompilation {} failed (caused by {})", method_index, err);
+                match result {
+                    Ok(()) => {}
+                    Err(err @ Error::IoError(_)) => return Err(err),
+                    Err(err) => log::error!("Method decompilation {} failed (caused by {})", method_index, err),
                 }
             }
             writeln!(out, "}}")?;
-- 
2.43.0


From 93a3705ebe20e65ea175b388c3046900ecfd30ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:09 +0000
Subject: [PATCH 53/54] fix: fail when decompiled text cannot be written

---
 cli/src/main.rs | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/cli/src/main.rs b/cli/src/main.rs
index d25a1ec..d3e4aa5 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -6,10 +6,11 @@ use std::path::{Component, Path, PathBuf};
 use anyhow::Context;
 use argh::FromArgs;
 use flexi_logger::{LevelFilter, LogSpecBuilder, Logger};
-use redscript::bundle::ScriptBundle;
-use redscript::definition::AnyDefinition;
+use redscript::bundle::{ConstantPool, ScriptBundle};
+use redscript::definition::{AnyDefinition, Definition};
 use redscript_compiler::source_map::{Files, SourceFilter};
 use redscript_compiler::unit::CompilationUnit;
+use redscript_decompiler::error::Error;
 use redscript_decompiler::files::FileIndex;
 use redscript_decompiler::print::{write_definition, OutputMode};
 use vmap::Map;
@@ -157,9 +158,7 @@ fn decompile(opts: DecompileOpts) -> anyhow::Result<()> {
             written.insert(path);
             let mut output = io::BufWriter::new(file);
             for def in entry.definitions {
-                if let Err(err) = write_definition(&mut output, def, pool, 0, mode) {
-                    log::error!("Failed to process a definition: {err}");
-                }
+                write_or_report(&mut output, def, pool, mode)?;
             }
             output.flush().context("Failed to write the output")?;
         }
@@ -172,9 +171,7 @@ fn decompile(opts: DecompileOpts) -> anyhow::Result<()> {
                 || matches!(&def.value, AnyDefinition::Enum(_))
                 || matches!(&def.value, AnyDefinition::Function(_))
         }) {
-            if let Err(err) = write_definition(&mut output, def, pool, 0, mode) {
-                log::error!("Failed to process a definition: {err}");
-            }
+            write_or_report(&mut output, def, pool, mode)?;
         }
         output.flush().context("Failed to write the output")?;
     }
@@ -182,6 +179,23 @@ fn decompile(opts: DecompileOpts) -> anyhow::Result<()> {
     Ok(())
 }
 
+/// Reports definitions that cannot be processed, fails if the output cannot be written.
+fn write_or_report<W: io::Write>(
+    output: &mut W,
+    def: &Definition,
+    pool: &ConstantPool,
+    mode: OutputMode,
+) -> anyhow::Result<()> {
+    match write_definition(output, def, pool, 0, mode) {
+        Err(err @ Error::IoError(_)) => Err(err).context("Failed to write the output"),
+        Err(err) => {
+            log::error!("Failed to process a definition: {err}");
+            Ok(())
+        }
+        Ok(()) => Ok(()),
+    }
+}
+
 fn lint(opts: LintOpts) -> anyhow::Result<()> {
     match opts.bundle {
         Some(bundle_path) => {
-- 
2.43.0


From 250e204ac1287405e9087c5901a3e13a49cf94e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:16 +0000
Subject: [PATCH 54/54] fix: recognize the cache as the output when its path is
 spelled differently

---
 scc/lib/src/lib.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/scc/lib/src/lib.rs b/scc/lib/src/lib.rs
index e02138f..e87a61f 100644
--- a/scc/lib/src/lib.rs
+++ b/scc/lib/src/lib.rs
@@ -96,7 +96,7 @@ fn try_compile_files(
     #[cfg(windows)]
     let is_output_file_separate = output_cache_path.normalize_virtually()? != cache_path.normalize_virtually()?;
     #[cfg(not(windows))]
-    let is_output_file_separate = output_cache_path != cache_path;
+    let is_output_file_separate = resolve_path(output_cache_path) != resolve_path(cache_path);
 
     let fallback_timestamp_path = cache_path
         .parent()
@@ -282,6 +282,16 @@ fn load_cache(path: &Path) -> anyhow::Result<ScriptBundle> {
     Ok(bundle)
 }
 
+/// Resolves links and parent directories in the path of a file that does not have to exist yet.
+#[cfg(not(windows))]
+fn resolve_path(path: &Path) -> PathBuf {
+    let resolved = path.canonicalize().or_else(|err| match (path.parent(), path.file_name()) {
+        (Some(dir), Some(name)) => Ok(Path::new(".").join(dir).canonicalize()?.join(name)),
+        _ => Err(err),
+    });
+    resolved.unwrap_or_else(|_| path.to_path_buf())
+}
+
 /// Checks whether a cache is complete and not an output of this compiler.
 fn is_original_cache(path: &Path) -> bool {
     load_cache(path).is_ok_and(|bundle| !check_for_redscript_signature_def(&bundle.pool))
-- 
2.43.0

