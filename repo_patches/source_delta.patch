From a48f9d37ef4d85ca9d4a6cd9e6346cc3519e0bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:41:09 +0000
Subject: [PATCH 01/11] fix: do not reserve memory for a declared element count

The vector readers allocated room for as many elements as the input
declared, before reading any of them. A few bytes could make the process
abort or reserve gigabytes. Let the vectors grow with the elements that
are really read.
---
 whasm/src/binary/core/vec.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/whasm/src/binary/core/vec.rs b/whasm/src/binary/core/vec.rs
index c1f359a..b729fcb 100644
--- a/whasm/src/binary/core/vec.rs
+++ b/whasm/src/binary/core/vec.rs
@@ -55,7 +55,7 @@ use crate::binary::{WasmBinary, WasmBinaryParse, WasmBinaryParseProxy, Result};
 impl<T: WasmBinaryParse> WasmBinaryParse for Vec<T> {
     fn parse<Binary: WasmBinary>(bin: &mut Binary) -> Result<Self> {
         let n: u32 = bin.parse()?;
-        let mut result = Vec::with_capacity(n as usize);
+        let mut result = Vec::new();
         for _ in 0..n {
             result.push(bin.parse()?);
         }
@@ -87,7 +87,7 @@ pub struct UnwrappingVec<T: WasmBinaryParseProxy> ( Vec<T::Inner> );
 impl<T: WasmBinaryParseProxy> WasmBinaryParse for UnwrappingVec<T> {
     fn parse<Binary: WasmBinary>(bin: &mut Binary) -> Result<Self> {
         let n: u32 = bin.parse()?;
-        let mut result = Vec::with_capacity(n as usize);
+        let mut result = Vec::new();
         for _ in 0..n {
             result.push(<T as WasmBinaryParse>::parse(bin)?.unwrap());
         }
-- 
2.43.0


From 5726bc707a13a1b08d982eece8a386e2e31548d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:41:09 +0000
Subject: [PATCH 02/11] fix: reject function declarations without a code
 section

The number of declarations was compared with the number of bodies only
when a code section was present. Without one the declared functions were
silently dropped. Compare the numbers after the last section as well.
---
 whasm/src/binary/module.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/whasm/src/binary/module.rs b/whasm/src/binary/module.rs
index f109086..9b438f1 100644
--- a/whasm/src/binary/module.rs
+++ b/whasm/src/binary/module.rs
@@ -67,6 +67,11 @@ impl WasmBinaryParse for module::Module {
             }
         }
 
+        // the code section may be missing altogether
+        if result.funcs.len() != func_types.len() {
+            return Err(Error::UnexpectedEndOfFile);
+        }
+
         Ok(result)
     }
 }
-- 
2.43.0


From 553141da1ecae358a9330ada64268c72d3d4cd5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:41:09 +0000
Subject: [PATCH 03/11] fix: check the alignment of memory instructions

The alignment check was commented out, and the two immediates of loads
and stores were named in the wrong order: the alignment comes first.
Any alignment was accepted.
---
 whasm/src/validation/instr.rs | 58 ++++++++++++++++-------------------
 1 file changed, 27 insertions(+), 31 deletions(-)

diff --git a/whasm/src/validation/instr.rs b/whasm/src/validation/instr.rs
index f750d85..ccf4e7b 100644
--- a/whasm/src/validation/instr.rs
+++ b/whasm/src/validation/instr.rs
@@ -160,74 +160,74 @@ impl<'a> Validate<'a> for instr::Instr {
             }
             // ... reserved ...
             // Memory load
-            /* 0x28 */ Instr::I32Load(_offset, align) => {
+            /* 0x28 */ Instr::I32Load(align, _offset) => {
                 validate_load(ctx, *align, 32, ty::Val::I32)?;
             }
-            /* 0x29 */ Instr::I64Load(_offset, align) => {
+            /* 0x29 */ Instr::I64Load(align, _offset) => {
                 validate_load(ctx, *align, 64, ty::Val::I64)?;
             }
-            /* 0x2A */ Instr::F32Load(_offset, align) => {
+            /* 0x2A */ Instr::F32Load(align, _offset) => {
                 validate_load(ctx, *align, 32, ty::Val::F32)?;
             }
-            /* 0x2B */ Instr::F64Load(_offset, align) => {
+            /* 0x2B */ Instr::F64Load(align, _offset) => {
                 validate_load(ctx, *align, 64, ty::Val::F64)?;
             }
-            /* 0x2C */ Instr::I32Load8S(_offset, align) => {
+            /* 0x2C */ Instr::I32Load8S(align, _offset) => {
                 validate_load(ctx, *align, 8, ty::Val::I32)?;
             }
-            /* 0x2D */ Instr::I32Load8U(_offset, align) => {
+            /* 0x2D */ Instr::I32Load8U(align, _offset) => {
                 validate_load(ctx, *align, 8, ty::Val::I32)?;
             }
-            /* 0x2E */ Instr::I32Load16S(_offset, align) => {
+            /* 0x2E */ Instr::I32Load16S(align, _offset) => {
                 validate_load(ctx, *align, 16, ty::Val::I32)?;
             }
-            /* 0x2F */ Instr::I32Load16U(_offset, align) => {
+            /* 0x2F */ Instr::I32Load16U(align, _offset) => {
                 validate_load(ctx, *align, 16, ty::Val::I32)?;
             }
-            /* 0x30 */ Instr::I64Load8S(_offset, align) => {
+            /* 0x30 */ Instr::I64Load8S(align, _offset) => {
                 validate_load(ctx, *align, 8, ty::Val::I64)?;
             }
-            /* 0x31 */ Instr::I64Load8U(_offset, align) => {
+            /* 0x31 */ Instr::I64Load8U(align, _offset) => {
                 validate_load(ctx, *align, 8, ty::Val::I64)?;
             }
-            /* 0x32 */ Instr::I64Load16S(_offset, align) => {
+            /* 0x32 */ Instr::I64Load16S(align, _offset) => {
                 validate_load(ctx, *align, 16, ty::Val::I64)?;
             }
-            /* 0x33 */ Instr::I64Load16U(_offset, align) => {
+            /* 0x33 */ Instr::I64Load16U(align, _offset) => {
                 validate_load(ctx, *align, 16, ty::Val::I64)?;
             }
-            /* 0x34 */ Instr::I64Load32S(_offset, align) => {
+            /* 0x34 */ Instr::I64Load32S(align, _offset) => {
                 validate_load(ctx, *align, 32, ty::Val::I64)?;
             }
-            /* 0x35 */ Instr::I64Load32U(_offset, align) => {
+            /* 0x35 */ Instr::I64Load32U(align, _offset) => {
                 validate_load(ctx, *align, 32, ty::Val::I64)?;
             }
             // Memory store
-            /* 0x36 */ Instr::I32Store(_offset, align) => {
+            /* 0x36 */ Instr::I32Store(align, _offset) => {
                 validate_store(ctx, *align, 32, ty::Val::I32)?;
             }
-            /* 0x37 */ Instr::I64Store(_offset, align) => {
+            /* 0x37 */ Instr::I64Store(align, _offset) => {
                 validate_store(ctx, *align, 64, ty::Val::I64)?;
             }
-            /* 0x38 */ Instr::F32Store(_offset, align) => {
+            /* 0x38 */ Instr::F32Store(align, _offset) => {
                 validate_store(ctx, *align, 32, ty::Val::F32)?;
             }
-            /* 0x39 */ Instr::F64Store(_offset, align) => {
+            /* 0x39 */ Instr::F64Store(align, _offset) => {
                 validate_store(ctx, *align, 64, ty::Val::F64)?;
             }
-            /* 0x3A */ Instr::I32Store8(_offset, align) => {
+            /* 0x3A */ Instr::I32Store8(align, _offset) => {
                 validate_store(ctx, *align, 8, ty::Val::I32)?;
             }
-            /* 0x3B */ Instr::I32Store16(_offset, align) => {
+            /* 0x3B */ Instr::I32Store16(align, _offset) => {
                 validate_store(ctx, *align, 16, ty::Val::I32)?;
             }
-            /* 0x3C */ Instr::I64Store8(_offset, align) => {
+            /* 0x3C */ Instr::I64Store8(align, _offset) => {
                 validate_store(ctx, *align, 8, ty::Val::I64)?;
             }
-            /* 0x3D */ Instr::I64Store16(_offset, align) => {
+            /* 0x3D */ Instr::I64Store16(align, _offset) => {
                 validate_store(ctx, *align, 16, ty::Val::I64)?;
             }
-            /* 0x3E */ Instr::I64Store32(_offset, align) => {
+            /* 0x3E */ Instr::I64Store32(align, _offset) => {
                 validate_store(ctx, *align, 32, ty::Val::I64)?;
             }
             // Memory management
@@ -760,25 +760,21 @@ impl<'a> Validate<'a> for instr::Instr {
     }
 }
 
-fn validate_load<'a>(ctx: &mut Context<'a>, _align: u32, _size: u32, val: ty::Val) -> Result<()> {
+fn validate_load<'a>(ctx: &mut Context<'a>, align: u32, size: u32, val: ty::Val) -> Result<()> {
     idx::Mem(0).validate(ctx)?;
-    /*
-    if !( 1<<align <= size/8 ) {
+    if !( align < 32 && 1u32<<align <= size/8 ) {
         return Err(Error::UnexpectedEndOfFile);
     }
-    */
     ctx.stacks.pop_operands(&[ty::Val::I32])?;
     ctx.stacks.push_operands(&[val]);
     Ok(())
 }
 
-fn validate_store<'a>(ctx: &mut Context<'a>, _align: u32, _size: u32, val: ty::Val) -> Result<()> {
+fn validate_store<'a>(ctx: &mut Context<'a>, align: u32, size: u32, val: ty::Val) -> Result<()> {
     idx::Mem(0).validate(ctx)?;
-    /*
-    if !( 1<<align <= size/8 ) {
+    if !( align < 32 && 1u32<<align <= size/8 ) {
         return Err(Error::UnexpectedEndOfFile);
     }
-    */
     ctx.stacks.pop_operands(&[ty::Val::I32, val])?;
     Ok(())
 }
\ No newline at end of file
-- 
2.43.0


From e723b9266a5ed2451c3028be04cd057cdc17378d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:41:09 +0000
Subject: [PATCH 04/11] fix: count imported tables and memories towards the
 limit of one

A module that imports a table or a memory and also defines one was
accepted, as were several imported ones.
---
 whasm/src/validation/module.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/whasm/src/validation/module.rs b/whasm/src/validation/module.rs
index f4d45f8..f834fe9 100644
--- a/whasm/src/validation/module.rs
+++ b/whasm/src/validation/module.rs
@@ -68,10 +68,10 @@ impl<'a> Validate<'a> for module::Module {
             exports.push(ty);
         }
 
-        if !(self.tables.len() <= 1) {
+        if !(ctx.tables.len() <= 1) {
             return Err(Error::UnexpectedEndOfFile);
         }
-        if !(self.mems.len() <= 1) {
+        if !(ctx.mems.len() <= 1) {
             return Err(Error::UnexpectedEndOfFile);
         }
 
-- 
2.43.0


From fc55b476b1314fbd5b0b5aafd2e65895f7d08637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:41:09 +0000
Subject: [PATCH 05/11] fix: let global initialisers refer to imported globals
 only

Initialisers were checked against the globals the module defines itself,
so reading an imported global was rejected or resolved to the wrong one,
and reading a global of the module was accepted.
---
 whasm/src/validation/module.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whasm/src/validation/module.rs b/whasm/src/validation/module.rs
index f834fe9..846bdca 100644
--- a/whasm/src/validation/module.rs
+++ b/whasm/src/validation/module.rs
@@ -31,7 +31,7 @@ impl<'a> Validate<'a> for module::Module {
     fn validate(&'a self, _ctx: &mut Context<'a>) -> Result<Self::ValidationResult> {
         let mut ctx = Context::from(&self)?;
         let mut ctx_globals = Context::default();
-        ctx_globals.use_globals(&self.globals);
+        ctx_globals.use_imported_globals(&self.imports);
 
         for ty in self.types.iter() {
             ty.validate(&mut ctx)?;
-- 
2.43.0


From 0ef260d7b41e77c5e7b0add1b8093776ca269ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:41:09 +0000
Subject: [PATCH 06/11] fix: allow memories of 65536 pages

The limit is inclusive: 2^16 pages is the full 32-bit address space.
---
 whasm/src/validation/ty.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whasm/src/validation/ty.rs b/whasm/src/validation/ty.rs
index 9ddcaa9..d50613d 100644
--- a/whasm/src/validation/ty.rs
+++ b/whasm/src/validation/ty.rs
@@ -38,7 +38,7 @@ impl<'a> Validate<'a> for ty::Mem {
     type ValidationResult = ();
     fn validate(&'a self, ctx: &mut Context<'a>) -> Result<Self::ValidationResult> {
         let range = self.lim.validate(ctx)?;
-        if !(range <= (std::u16::MAX as u32)) {
+        if !(range <= 1 << 16) {
             return Err(Error::UnexpectedEndOfFile);
         }
         Ok(())
-- 
2.43.0


From 73e188be231f9d0a948a3052a324486c4d79ac20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:41:09 +0000
Subject: [PATCH 07/11] fix: allow branches to the label of the function body

A branch to the outermost label acts like a return. It was rejected
because the frame of the function body was not considered a label.
---
 whasm/src/validation/idx.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/whasm/src/validation/idx.rs b/whasm/src/validation/idx.rs
index 562bb2b..93119ea 100644
--- a/whasm/src/validation/idx.rs
+++ b/whasm/src/validation/idx.rs
@@ -71,10 +71,8 @@ impl<'a> Validate<'a> for idx::Label {
     type ValidationResult = Frame<'a>;
     fn validate(&'a self, ctx: &mut Context<'a>) -> Result<Self::ValidationResult> {
         let idx = self.0 as usize;
-        // the stack must have at least idx+1 elements
-        // since the base frame can not be indexed with
-        // a label.
-        if !( idx + 1 < ctx.stacks.frames.len() ) {
+        // the outermost label is the function body itself
+        if !( idx < ctx.stacks.frames.len() ) {
             return Err(Error::UnexpectedEndOfFile);
         }
         let idx = ctx.stacks.frames.len() - idx - 1;
-- 
2.43.0


From 701f6771bb859ea934007fc1ea9c1511a23cfcc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:41:09 +0000
Subject: [PATCH 08/11] fix: reject run-length vectors of 2^32 elements or more

The format limits the number of locals of a function to 2^32 - 1, but the
total over all runs was not checked. Sum up the runs before expanding
them, so that an over-long list is rejected without filling the memory.
---
 whasm/src/binary/core/vec.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/whasm/src/binary/core/vec.rs b/whasm/src/binary/core/vec.rs
index b729fcb..fc73c42 100644
--- a/whasm/src/binary/core/vec.rs
+++ b/whasm/src/binary/core/vec.rs
@@ -50,7 +50,7 @@
 //! assert_eq!(result, vec![0x2A, 0x8A, 0x42]);
 //! ```
 
-use crate::binary::{WasmBinary, WasmBinaryParse, WasmBinaryParseProxy, Result};
+use crate::binary::{WasmBinary, WasmBinaryParse, WasmBinaryParseProxy, Result, Error};
 
 impl<T: WasmBinaryParse> WasmBinaryParse for Vec<T> {
     fn parse<Binary: WasmBinary>(bin: &mut Binary) -> Result<Self> {
@@ -67,10 +67,8 @@ pub struct CompactVec<T> ( Vec<T> );
 impl<T: WasmBinaryParse + Copy> WasmBinaryParse for CompactVec<T> {
     fn parse<Binary: WasmBinary>(bin: &mut Binary) -> Result<Self> {
         let mut result = vec![];
-        let k: u32 = bin.parse()?;
-        for _ in 0..k {
-            let n: u32 = bin.parse()?;
-            let val = bin.parse()?;
+        let runs: Vec<(u32, T)> = parse_runs(bin)?;
+        for (n, val) in runs {
             for _ in 0..n {
                 result.push(val);
             }
@@ -83,6 +81,20 @@ impl<T: WasmBinaryParse + Copy> WasmBinaryParseProxy for CompactVec<T> {
     fn unwrap(self) -> Self::Inner { self.0 }
 }
 
+/// Parse the runs without expanding them. The expanded length must fit in a `u32`.
+fn parse_runs<T: WasmBinaryParse, Binary: WasmBinary>(bin: &mut Binary) -> Result<Vec<(u32, T)>> {
+    let mut runs = vec![];
+    let mut total: u32 = 0;
+    let k: u32 = bin.parse()?;
+    for _ in 0..k {
+        let n: u32 = bin.parse()?;
+        let val = bin.parse()?;
+        total = total.checked_add(n).ok_or(Error::OutOfRangeUnsignedInteger)?;
+        runs.push((n, val));
+    }
+    Ok(runs)
+}
+
 pub struct UnwrappingVec<T: WasmBinaryParseProxy> ( Vec<T::Inner> );
 impl<T: WasmBinaryParseProxy> WasmBinaryParse for UnwrappingVec<T> {
     fn parse<Binary: WasmBinary>(bin: &mut Binary) -> Result<Self> {
-- 
2.43.0


From 36a9a1edab1e9489979463767f20f238f0165a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:41:09 +0000
Subject: [PATCH 09/11] fix: decode floats correctly on big-endian hosts

The bytes were copied into the float in stream order, which is only right
where the host is little-endian too.
---
 whasm/src/binary/core/float.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/whasm/src/binary/core/float.rs b/whasm/src/binary/core/float.rs
index 07b9873..46a5b35 100644
--- a/whasm/src/binary/core/float.rs
+++ b/whasm/src/binary/core/float.rs
@@ -44,8 +44,10 @@ fn parse_float_iee754<T, Binary: WasmBinary>(bin: &mut Binary) -> Result<T>
 where T: Float + Sized {
     let mut result = T::zero();
     let bytes: *mut u8 = (&mut result as *mut T).cast();
-    for n in 0..std::mem::size_of::<T>() {
+    let size = std::mem::size_of::<T>();
+    for n in 0..size {
         let Byte(byte) = bin.parse()?;
+        let n = if cfg!(target_endian = "big") { size - 1 - n } else { n };
         unsafe { bytes.offset(n as isize).write_unaligned(byte) };
     }
     Ok(result)
-- 
2.43.0


From bfbb12044ce2506c65f0f87abbfd746b2c3b5c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:51:44 +0000
Subject: [PATCH 10/11] fix: describe out-of-range unsigned integers as
 unsigned

The message of the error said "signed integer", the same as for the
signed one.
---
 whasm/src/binary/core/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whasm/src/binary/core/error.rs b/whasm/src/binary/core/error.rs
index fd03eaa..dc7817c 100644
--- a/whasm/src/binary/core/error.rs
+++ b/whasm/src/binary/core/error.rs
@@ -15,7 +15,7 @@ pub enum Error {
     #[error(display = "Reading out of range signed integer.")]
     OutOfRangeSignedInteger,
 
-    #[error(display = "Reading out of range signed integer.")]
+    #[error(display = "Reading out of range unsigned integer.")]
     OutOfRangeUnsignedInteger,
 
     #[error(display = "Byte sequence is not a valid utf-8 encoding.")]
-- 
2.43.0


From b4edbc8ed08169937ccda47a3fc83ed0e2152e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:39:55 +0000
Subject: [PATCH 11/11] fix: accept file names that are not valid Unicode in
 the parser tool

The tool collected its arguments as strings, which panics when an argument is
not valid Unicode. Keep the arguments as the operating system gives them.
---
 parser/src/main.rs | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/parser/src/main.rs b/parser/src/main.rs
index 992e85e..963c0eb 100644
--- a/parser/src/main.rs
+++ b/parser/src/main.rs
@@ -1,20 +1,21 @@
+use std::ffi::OsString;
 use std::io::Read;
 use whasm::structure::{module::Module};
 use whasm::binary::{WasmBinary};
 use whasm::validation::{ValidationEntry};
 
 fn main() {
-    let args: Vec<String> = std::env::args().collect();
+    let args: Vec<OsString> = std::env::args_os().collect();
     let config = Config::new(&args)
         .unwrap_or_else(|err| {
             println!("Problem pargin input arguments: {}", err);
-            println!("Usage: {} [-p|--print] file.wasm", args[0]);
+            println!("Usage: {} [-p|--print] file.wasm", args[0].to_string_lossy());
             std::process::exit(1);
         });
 
     let mut file = std::fs::File::open(&config.filename)
         .unwrap_or_else(|err| {
-            println!("Could not open file \"{}\"", config.filename);
+            println!("Could not open file \"{}\"", config.filename.to_string_lossy());
             println!("{}", err);
             std::process::exit(1);
         });
@@ -22,7 +23,7 @@ fn main() {
     let mut buffer = Vec::new();
     file.read_to_end(&mut buffer)
         .unwrap_or_else(|err| {
-            println!("Could not read file \"{}\"", config.filename);
+            println!("Could not read file \"{}\"", config.filename.to_string_lossy());
             println!("{}", err);
             std::process::exit(1);
         });
@@ -31,14 +32,14 @@ fn main() {
 
     let module: Module = iter.parse()
         .unwrap_or_else(|err| {
-            println!("Error parsing file \"{}\".", config.filename);
+            println!("Error parsing file \"{}\".", config.filename.to_string_lossy());
             println!("{}", err);
             std::process::exit(1);
         });
 
     module.validate()
         .unwrap_or_else(|err| {
-            println!("Error validating file \"{}\".", config.filename);
+            println!("Error validating file \"{}\".", config.filename.to_string_lossy());
             println!("{}", err);
             std::process::exit(1);
         });
@@ -49,24 +50,24 @@ fn main() {
 }
 
 struct Config {
-    filename: String,
+    filename: OsString,
     print: bool,
 }
 
 impl Config {
-    fn new(args: &[String]) -> Result<Config, Box<dyn std::error::Error>> {
+    fn new(args: &[OsString]) -> Result<Config, Box<dyn std::error::Error>> {
         let mut print = false;
-        let mut filename = "".into();
+        let mut filename = OsString::new();
 
         let mut args = args.iter();
         let _binname = args.next().ok_or("Not enough arguments.")?;
         for arg in args {
-            match &arg[..] {
-                "-p" | "--print" => {
+            match arg.to_str() {
+                Some("-p") | Some("--print") => {
                     print = true;
                 },
-                other => {
-                    filename = other.into();
+                _ => {
+                    filename = arg.clone();
                 },
             }
         }
-- 
2.43.0

