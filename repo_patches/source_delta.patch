From af3a955f65bb6043f783042205daeef356d6bc0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:39 +0000
Subject: [PATCH 01/27] fix: report an array whose length differs from its
 declared length as an encode error

Encoding a primitive array panicked in assert_eq!, any other array either panicked on
an out of bounds index or silently dropped the elements past the declared length.
---
 protospec-build/src/coder/encode/array.rs       |  2 ++
 protospec-build/src/coder/encode/instruction.rs |  3 +++
 protospec-build/src/compiler/encoder.rs         | 12 ++++++++++--
 3 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/protospec-build/src/coder/encode/array.rs b/protospec-build/src/coder/encode/array.rs
index 7748bb7..cfbeb4b 100644
--- a/protospec-build/src/coder/encode/array.rs
+++ b/protospec-build/src/coder/encode/array.rs
@@ -89,6 +89,8 @@ impl Context {
         self.encode_type(&type_.element, target, new_source);
         let drained = self.instructions.drain(current_pos..).collect();
         let len = if let Some(len) = len {
+            self.instructions
+                .push(Instruction::CheckLen(source, len));
             len
         } else {
             let len = self.alloc_register();
diff --git a/protospec-build/src/coder/encode/instruction.rs b/protospec-build/src/coder/encode/instruction.rs
index 333f912..ca45155 100644
--- a/protospec-build/src/coder/encode/instruction.rs
+++ b/protospec-build/src/coder/encode/instruction.rs
@@ -58,6 +58,8 @@ pub enum Instruction {
     Loop(usize, usize, Vec<Instruction>),
     /// len target, buffer, cast_type
     GetLen(usize, usize, Option<ScalarType>),
+    /// source, expected length
+    CheckLen(usize, usize),
     /// register
     Drop(usize),
     /// original, checked, is_copyable, message
@@ -174,6 +176,7 @@ impl fmt::Display for Instruction {
             Instruction::GetLen(dest, buffer, cast_type) => {
                 write!(f, "GetLen({}, {}, {:?})", dest, buffer, cast_type)
             }
+            Instruction::CheckLen(source, len) => write!(f, "CheckLen({}, {})", source, len),
             Instruction::Drop(register) => write!(f, "Drop({})", register),
             Instruction::NullCheck(original, checked, is_copyable, message) => write!(
                 f,
diff --git a/protospec-build/src/compiler/encoder.rs b/protospec-build/src/compiler/encoder.rs
index 3029fa3..a94818e 100644
--- a/protospec-build/src/compiler/encoder.rs
+++ b/protospec-build/src/compiler/encoder.rs
@@ -115,6 +115,15 @@ impl EncoderContext {
                         let #len = #source.len() #cast;
                     });
                 }
+                Instruction::CheckLen(source, len) => {
+                    let source = emit_register(*source);
+                    let len = emit_register(*len);
+                    statements.push(quote! {
+                        if #len as usize != #source.len() {
+                            return Err(encode_error("array length does not match its declared length").into());
+                        }
+                    });
+                }
                 Instruction::NullCheck(target, destination, is_copyable, message) => {
                     let target = emit_register(*target);
                     let destination = emit_register(*destination);
@@ -303,8 +312,7 @@ impl EncoderContext {
                             {
                                 let t_count = #len as usize;
                                 if t_count != #data.len() {
-                                    //todo: throw an error properly
-                                    assert_eq!(t_count, #data.len());
+                                    return Err(encode_error("array length does not match its declared length").into());
                                 }
                                 #writing
                             }
-- 
2.43.0


From 9616aef717853fd0fd5afc30cb3d78bc40f158db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:24 +0000
Subject: [PATCH 02/27] fix: do not allocate from a declared length before the
 data is read

---
 protospec-build/src/compiler/decoder.rs | 33 ++++++++++++++++++-------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/protospec-build/src/compiler/decoder.rs b/protospec-build/src/compiler/decoder.rs
index 06b50e5..7b93775 100644
--- a/protospec-build/src/compiler/decoder.rs
+++ b/protospec-build/src/compiler/decoder.rs
@@ -13,6 +13,21 @@ fn emit_target(target: &Target) -> TokenStream {
     }
 }
 
+/// reads an exact amount of bytes into `raw`; the length comes from the input, so nothing is allocated ahead of the data
+fn emit_read_raw(target: &TokenStream, len: TokenStream, async_: &TokenStream) -> TokenStream {
+    quote! {
+        let mut raw: Vec<u8> = Vec::new();
+        let raw_len = match #len {
+            Some(raw_len) => raw_len,
+            None => return Err(decode_error("declared length is out of range").into()),
+        };
+        (&mut *#target).take(raw_len as u64).read_to_end(&mut raw)#async_?;
+        if raw.len() != raw_len {
+            return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+        }
+    }
+}
+
 fn prepare_decode(
     options: &CompileOptions,
     context: &Context,
@@ -314,13 +329,12 @@ fn prepare_decode(
                 };
                 if let Some(len) = len {
                     let len = emit_register(*len);
+                    let read_raw = emit_read_raw(&target, quote! { t_count.checked_mul(size) }, &async_);
                     statements.push(quote! {
                         let #data = {
                             let t_count = #len as usize;
                             let size = mem::size_of::<#type_>();
-                            let mut raw: Vec<u8> = Vec::with_capacity(t_count * size);
-                            unsafe { raw.set_len(t_count * size) };
-                            #target.read_exact(&mut raw[..])#async_?;
+                            #read_raw
                             raw.chunks_exact(size).map(|x| #type_::#decoder(x.try_into().unwrap())).collect::<Vec<#type_>>()
                         };
                     });
@@ -349,13 +363,12 @@ fn prepare_decode(
 
                 if let Some(len) = len {
                     let len = emit_register(*len);
+                    let read_raw = emit_read_raw(&target, quote! { t_count.checked_mul(size) }, &async_);
                     statements.push(quote! {
                         let #data = {
                             let t_count = #len as usize;
                             let size = mem::size_of::<#type_>();
-                            let mut raw: Vec<u8> = Vec::with_capacity(t_count * size);
-                            unsafe { raw.set_len(t_count * size) };
-                            #target.read_exact(&mut raw[..])#async_?;
+                            #read_raw
                             raw.chunks_exact(size).map(|x| #enum_ident::from_repr(#type_::#decoder(x.try_into().unwrap()))).collect::<Result<Vec<#enum_ident>>>()?
                         };
                     });
@@ -378,7 +391,7 @@ fn prepare_decode(
                 let target = emit_target(target);
                 if let Some(stop) = stop {
                     statements.push(quote! {
-                        let mut #output = Vec::with_capacity(#stop as usize);
+                        let mut #output = Vec::new();
                         for _ in 0..#stop {
                             #inner
                         }
@@ -501,9 +514,11 @@ fn prepare_decode(
             Instruction::Skip(target, len) => {
                 let target = emit_target(target);
                 let len = emit_register(*len);
+                let read_raw = emit_read_raw(&target, quote! { Some(#len as usize) }, &async_);
                 statements.push(quote! {
-                    let mut big_scratch = vec![0u8; #len as usize];
-                    #target.read_exact(&mut big_scratch[..])#async_?;
+                    {
+                        #read_raw
+                    }
                 });
             }
         }
-- 
2.43.0


From 47f59e03af339f81b6f278e1730276008a016b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:13 +0000
Subject: [PATCH 03/27] fix: report a partial trailing element of an unbounded
 array as a decode error

---
 protospec-build/src/compiler/decoder.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/protospec-build/src/compiler/decoder.rs b/protospec-build/src/compiler/decoder.rs
index 7b93775..7b9858b 100644
--- a/protospec-build/src/compiler/decoder.rs
+++ b/protospec-build/src/compiler/decoder.rs
@@ -344,6 +344,9 @@ fn prepare_decode(
                             let mut raw: Vec<u8> = Vec::new();
                             #target.read_to_end(&mut raw)#async_?;
                             let size = mem::size_of::<#type_>();
+                            if raw.len() % size != 0 {
+                                return Err(decode_error("unexpected end of stream within an array element").into());
+                            }
                             raw.chunks_exact(size).map(|x| #type_::#decoder(x.try_into().unwrap())).collect::<Vec<#type_>>()
                         };
                     });
@@ -378,6 +381,9 @@ fn prepare_decode(
                             let mut raw: Vec<u8> = Vec::new();
                             #target.read_to_end(&mut raw)#async_?;
                             let size = mem::size_of::<#type_>();
+                            if raw.len() % size != 0 {
+                                return Err(decode_error("unexpected end of stream within an array element").into());
+                            }
                             raw.chunks_exact(size).map(|x| #enum_ident::from_repr(#type_::#decoder(x.try_into().unwrap()))).collect::<Result<Vec<#enum_ident>>>()?
                         };
                     });
-- 
2.43.0


From e586a6ce83c4c5e2a782f4191ac720876c44c8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:54 +0000
Subject: [PATCH 04/27] fix: apply chained transforms in the same order when
 encoding and decoding

---
 protospec-build/src/coder/encode/field.rs |  3 ++-
 protospec-build/src/compiler/decoder.rs   |  6 ++++--
 protospec-build/src/compiler/encoder.rs   | 17 ++++++++++++-----
 3 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/protospec-build/src/coder/encode/field.rs b/protospec-build/src/coder/encode/field.rs
index 1cc8eca..cdf0fd4 100644
--- a/protospec-build/src/coder/encode/field.rs
+++ b/protospec-build/src/coder/encode/field.rs
@@ -67,7 +67,8 @@ impl Context {
     ) {
         let mut new_streams = vec![];
 
-        for transform in field.transforms.borrow().iter() {
+        // the first transform is the innermost: streams are wrapped starting at the output, as the decoder unwraps them
+        for transform in field.transforms.borrow().iter().rev() {
             let condition = if let Some(condition) = &transform.condition {
                 let value = self.alloc_register();
                 self.instructions
diff --git a/protospec-build/src/compiler/decoder.rs b/protospec-build/src/compiler/decoder.rs
index 7b9858b..91e37ba 100644
--- a/protospec-build/src/compiler/decoder.rs
+++ b/protospec-build/src/compiler/decoder.rs
@@ -180,7 +180,9 @@ fn prepare_decode(
                 let new_stream_value = emit_register(*new_stream);
                 let args = args.iter().map(|x| emit_register(*x)).collect::<Vec<_>>();
                 let input = emit_target(stream);
-                let transformed = transformer.inner.decoding_gen(input, args, is_async);
+                let transformed = transformer
+                    .inner
+                    .decoding_gen(quote! { (&mut *#input) }, args, is_async);
                 statements.push(quote! {
                     let mut #new_stream_value = #transformed;
                     let #new_stream_value = &mut #new_stream_value;
@@ -200,7 +202,7 @@ fn prepare_decode(
                 let input = emit_target(stream);
                 let transformed = transformer
                     .inner
-                    .decoding_gen(input.clone(), args, is_async);
+                    .decoding_gen(quote! { (&mut *#input) }, args, is_async);
                 let prelude = prepare_decode(options, context, &prelude[..], is_async, false);
 
                 //todo: would be nicer to use generics here instead of trait object
diff --git a/protospec-build/src/compiler/encoder.rs b/protospec-build/src/compiler/encoder.rs
index a94818e..4b01a2a 100644
--- a/protospec-build/src/compiler/encoder.rs
+++ b/protospec-build/src/compiler/encoder.rs
@@ -7,14 +7,21 @@ use crate::{coder::*, map_async, Endian, EndianScalarType, ScalarType};
 fn emit_target(target: &Target) -> TokenStream {
     match target {
         Target::Direct => quote! { writer },
-        Target::Stream(x) => emit_register(*x),
-        Target::Buf(x) => {
+        Target::Stream(x) | Target::Buf(x) => {
             let buf = emit_register(*x);
             quote! { (&mut #buf) }
         }
     }
 }
 
+/// the target as input of a transform, which may take it by value
+fn emit_transform_input(target: &Target) -> TokenStream {
+    match target {
+        Target::Direct => quote! { (&mut *writer) },
+        target => emit_target(target),
+    }
+}
+
 struct EncoderContext {
     is_async: bool,
     resolved_refs: HashMap<String, usize>,
@@ -162,7 +169,7 @@ impl EncoderContext {
                 Instruction::WrapStream(stream, new_stream, transformer, args) => {
                     let new_stream_value = emit_register(*new_stream);
                     let args = args.iter().map(|x| emit_register(*x)).collect::<Vec<_>>();
-                    let input = emit_target(stream);
+                    let input = emit_transform_input(stream);
                     let transformed = transformer.inner.encoding_gen(input, args, self.is_async);
                     statements.push(quote! {
                         let mut #new_stream_value = #transformed;
@@ -338,7 +345,7 @@ impl EncoderContext {
                     let new_stream_value = emit_register(*new_stream);
                     let owned_new_stream = emit_register(*owned_new_stream);
                     let args = args.iter().map(|x| emit_register(*x)).collect::<Vec<_>>();
-                    let input = emit_target(stream);
+                    let input = emit_transform_input(stream);
                     let transformed =
                         transformer
                             .inner
@@ -354,7 +361,7 @@ impl EncoderContext {
                     //todo: would be nicer to use generics here instead of trait object
                     statements.push(quote! {
                         let mut #owned_new_stream = None;
-                        let #new_stream_value: &mut #trait_name = if #condition {
+                        let mut #new_stream_value: &mut #trait_name = if #condition {
                             #prelude
                             #owned_new_stream = Some(#transformed);
                             #owned_new_stream.as_mut().unwrap()
-- 
2.43.0


From 12d549febde488ebbe9f6181441675ec8c359714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:28 +0000
Subject: [PATCH 05/27] fix: decode variable length integers of every encoded
 length

---
 protospec-build/src/prelude/var.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/protospec-build/src/prelude/var.rs b/protospec-build/src/prelude/var.rs
index 66b0e50..288ff68 100644
--- a/protospec-build/src/prelude/var.rs
+++ b/protospec-build/src/prelude/var.rs
@@ -71,7 +71,7 @@ impl ForeignType for VarInt {
         is_async: bool,
     ) -> TokenStream {
         let inner = self.type_ref();
-        let end = (self.scalar_type.size() as f64 / 7.0).ceil() as usize;
+        let end = ((self.scalar_type.size() * 8 + 6) / 7) as usize;
         let inner_unsigned = emit_type_ref(&self.unsigned);
         let async_ = map_async(is_async);
         quote! {
@@ -83,7 +83,7 @@ impl ForeignType for VarInt {
                     #source.read_exact(&mut buf[..])#async_?;
                     output |= ((buf[0] as #inner_unsigned & 127) << (i * 7)) as #inner;
                     i += 1;
-                    if i > #end {
+                    if i >= #end {
                         break;
                     }
                 }
-- 
2.43.0


From 8f9c19ab9ecb2c863191ada90963ffdc525b9910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:28 +0000
Subject: [PATCH 06/27] fix: decode utf16 in the byte order it is encoded in,
 without trusting the declared length

---
 protospec-build/src/prelude/utf16.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/protospec-build/src/prelude/utf16.rs b/protospec-build/src/prelude/utf16.rs
index 76540c5..3eb464d 100644
--- a/protospec-build/src/prelude/utf16.rs
+++ b/protospec-build/src/prelude/utf16.rs
@@ -32,15 +32,16 @@ impl ForeignType for Utf16 {
         quote! {
             let #output_ref = {
                 let t_count = #len as usize;
-                let mut t: Vec<u16> = Vec::with_capacity(t_count);
-                unsafe { t.set_len(t_count); }
-                let t_borrow = &mut t[..];
-                let t_borrow2 = unsafe {
-                    let len = t_borrow.len() * 2;
-                    let ptr = t.as_ptr() as *mut u8;
-                    slice::from_raw_parts_mut(ptr, len)
+                let t_len = match t_count.checked_mul(2) {
+                    Some(t_len) => t_len,
+                    None => return Err(decode_error("declared length is out of range").into()),
                 };
-                #source.read_exact(&mut t_borrow2[..])#async_?;
+                let mut t: Vec<u8> = Vec::new();
+                (&mut *#source).take(t_len as u64).read_to_end(&mut t)#async_?;
+                if t.len() != t_len {
+                    return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+                }
+                let t = t.chunks_exact(2).map(|x| u16::from_be_bytes([x[0], x[1]])).collect::<Vec<u16>>();
                 String::from_utf16(&t[..])?
             };
         }
-- 
2.43.0


From 628f40e48791e1f5e87f526c68caef083ac66b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:28 +0000
Subject: [PATCH 07/27] fix: do not allocate a utf8 string from its declared
 length before the data is read

---
 protospec-build/src/prelude/utf8.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/protospec-build/src/prelude/utf8.rs b/protospec-build/src/prelude/utf8.rs
index 4c01365..52aee3c 100644
--- a/protospec-build/src/prelude/utf8.rs
+++ b/protospec-build/src/prelude/utf8.rs
@@ -32,15 +32,11 @@ impl ForeignType for Utf8 {
             quote! {
                 let #output_ref = {
                     let t_count = #len as usize;
-                    let mut t: Vec<u8> = Vec::with_capacity(t_count);
-                    unsafe { t.set_len(t_count); }
-                    let t_borrow = &mut t[..];
-                    let t_borrow2 = unsafe {
-                        let len = t_borrow.len();
-                        let ptr = t.as_ptr() as *mut u8;
-                        slice::from_raw_parts_mut(ptr, len)
-                    };
-                    #source.read_exact(&mut t_borrow2[..])#async_?;
+                    let mut t: Vec<u8> = Vec::new();
+                    (&mut *#source).take(t_count as u64).read_to_end(&mut t)#async_?;
+                    if t.len() != t_count {
+                        return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+                    }
                     String::from_utf8(t)?
                 };
             }
-- 
2.43.0


From 46c562658563d6556ab8d20f942f2be9843064a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:43 +0000
Subject: [PATCH 08/27] fix: decode two-digit escapes of string literals

---
 protospec-build/src/tokenizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protospec-build/src/tokenizer.rs b/protospec-build/src/tokenizer.rs
index 29f5e9c..cf9f0dd 100644
--- a/protospec-build/src/tokenizer.rs
+++ b/protospec-build/src/tokenizer.rs
@@ -216,7 +216,7 @@ impl Token {
                                 i += 1;
                                 out.push(
                                     u8::from_str_radix(
-                                        std::str::from_utf8(&input[i..i + 2]).unwrap(),
+                                        std::str::from_utf8(&input[i - 1..i + 1]).unwrap(),
                                         16,
                                     )
                                     .unwrap(),
-- 
2.43.0


From c24ee9f60629cbec07609f2c4f56f955ec6cd626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:43 +0000
Subject: [PATCH 09/27] fix: do not move fields of named tuple types out of the
 value being encoded

---
 protospec-build/src/asg/types/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/protospec-build/src/asg/types/mod.rs b/protospec-build/src/asg/types/mod.rs
index ef64d74..50f4b20 100644
--- a/protospec-build/src/asg/types/mod.rs
+++ b/protospec-build/src/asg/types/mod.rs
@@ -153,7 +153,13 @@ impl Type {
     }
 
     pub fn copyable(&self) -> bool {
-        match &*self.resolved() {
+        match self {
+            // other named types are emitted as structs, which are not Copy
+            Type::Ref(x) => match &*x.target.type_.borrow() {
+                Type::Enum(_) | Type::Bitfield(_) => true,
+                Type::Foreign(foreign) => foreign.obj.copyable(),
+                _ => false,
+            },
             Type::Enum(_) => true,
             Type::Bitfield(_) => true,
             Type::Scalar(_) => true,
-- 
2.43.0


From 944147502d3d4e6598d14f11d13cab3ba44184a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:59 +0000
Subject: [PATCH 10/27] fix: encode container variants of tagged enums with
 their own length and transforms

---
 protospec-build/src/coder/encode/container.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protospec-build/src/coder/encode/container.rs b/protospec-build/src/coder/encode/container.rs
index 831eff8..2d77939 100644
--- a/protospec-build/src/coder/encode/container.rs
+++ b/protospec-build/src/coder/encode/container.rs
@@ -229,7 +229,7 @@ impl Context {
                             self.instructions.push(Instruction::SetRef(name, register));
                         }
                         self.encode_container_calculated(type_);
-                        self.encode_container_items(type_, buf_target, source, false);
+                        self.encode_field_unconditional(buf_target, source, child, false, false);
                         self.instructions.push(Instruction::Break);
                     }
                     _ => {
-- 
2.43.0


From 887bdaa8e02b035b460e8616cead75fa11faa174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:27 +0000
Subject: [PATCH 11/27] fix: generate compiling code for bool arrays and bool
 tagged enum variants

---
 protospec-build/src/compiler/decoder.rs | 11 ++++++-----
 protospec-build/src/compiler/encoder.rs |  4 ++--
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/protospec-build/src/compiler/decoder.rs b/protospec-build/src/compiler/decoder.rs
index 91e37ba..13dbbb5 100644
--- a/protospec-build/src/compiler/decoder.rs
+++ b/protospec-build/src/compiler/decoder.rs
@@ -322,12 +322,13 @@ fn prepare_decode(
             Instruction::DecodePrimitiveArray(target, data, type_, len) => {
                 let target = emit_target(target);
                 let data = emit_register(*data);
-                let decoder = match type_ {
+                let item = match type_ {
+                    PrimitiveType::Bool => quote! { x[0] != 0 },
                     PrimitiveType::Scalar(EndianScalarType {
                         endian: Endian::Little,
                         ..
-                    }) => quote! { from_le_bytes },
-                    _ => quote! { from_be_bytes },
+                    }) => quote! { #type_::from_le_bytes(x.try_into().unwrap()) },
+                    _ => quote! { #type_::from_be_bytes(x.try_into().unwrap()) },
                 };
                 if let Some(len) = len {
                     let len = emit_register(*len);
@@ -337,7 +338,7 @@ fn prepare_decode(
                             let t_count = #len as usize;
                             let size = mem::size_of::<#type_>();
                             #read_raw
-                            raw.chunks_exact(size).map(|x| #type_::#decoder(x.try_into().unwrap())).collect::<Vec<#type_>>()
+                            raw.chunks_exact(size).map(|x| #item).collect::<Vec<#type_>>()
                         };
                     });
                 } else {
@@ -349,7 +350,7 @@ fn prepare_decode(
                             if raw.len() % size != 0 {
                                 return Err(decode_error("unexpected end of stream within an array element").into());
                             }
-                            raw.chunks_exact(size).map(|x| #type_::#decoder(x.try_into().unwrap())).collect::<Vec<#type_>>()
+                            raw.chunks_exact(size).map(|x| #item).collect::<Vec<#type_>>()
                         };
                     });
                 }
diff --git a/protospec-build/src/compiler/encoder.rs b/protospec-build/src/compiler/encoder.rs
index 4b01a2a..537cad0 100644
--- a/protospec-build/src/compiler/encoder.rs
+++ b/protospec-build/src/compiler/encoder.rs
@@ -252,7 +252,7 @@ impl EncoderContext {
                     let target = emit_target(target);
                     let data = emit_register(*data);
                     statements.push(quote! {
-                        #target.write_all(&[if #data { 1u8 } else { 0u8 }])#async_?;
+                        #target.write_all(&[if #data.clone() { 1u8 } else { 0u8 }])#async_?;
                     });
                 }
                 Instruction::EncodePrimitive(
@@ -283,7 +283,7 @@ impl EncoderContext {
                         PrimitiveType::Bool => {
                             quote! {
                                 for x in #data.iter() {
-                                    #target.write_all(&[if x { 1u8 } else { 0u8 }])#async_?;
+                                    #target.write_all(&[if *x { 1u8 } else { 0u8 }])#async_?;
                                 }
                             }
                         }
-- 
2.43.0


From b677b01b6f27430ddd331712c3780f5e70ee0446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:21 +0000
Subject: [PATCH 12/27] fix: apply unary operators to the result of a cast, not
 to its operand

---
 protospec-build/src/compiler/expr.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/protospec-build/src/compiler/expr.rs b/protospec-build/src/compiler/expr.rs
index abe5e06..83fdee4 100644
--- a/protospec-build/src/compiler/expr.rs
+++ b/protospec-build/src/compiler/expr.rs
@@ -315,17 +315,17 @@ pub fn emit_expression<F: Fn(&Arc<Field>) -> TokenStream>(
             match &*c.inner.get_type().unwrap().resolved() {
                 Type::Enum(_) => {
                     quote! {
-                        (#inner).to_repr() as #target
+                        ((#inner).to_repr() as #target)
                     }
                 }
                 Type::Bitfield(_) => {
                     quote! {
-                        (#inner).0 as #target
+                        ((#inner).0 as #target)
                     }
                 }
                 _ => {
                     quote! {
-                        (#inner) as #target
+                        ((#inner) as #target)
                     }
                 }
             }
-- 
2.43.0


From d87c96079bf84a269276d9760e29322c9e2b8a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:35 +0000
Subject: [PATCH 13/27] fix: emit the value of a constant used in an expression

---
 protospec-build/src/compiler/expr.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/protospec-build/src/compiler/expr.rs b/protospec-build/src/compiler/expr.rs
index 83fdee4..6df53be 100644
--- a/protospec-build/src/compiler/expr.rs
+++ b/protospec-build/src/compiler/expr.rs
@@ -361,9 +361,9 @@ pub fn emit_expression<F: Fn(&Arc<Field>) -> TokenStream>(
             }
         }
         ConstRef(c) => {
-            let c = format_ident!("{}", c.name);
+            let value = emit_expression(&c.value, ref_resolver);
             quote! {
-                #c
+                (#value)
             }
         }
         InputRef(c) => {
-- 
2.43.0


From d05a0161588403b10361613e0d7c6bda4b963085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:35 +0000
Subject: [PATCH 14/27] fix: index arrays with a usize, reporting an index out
 of range as an error

---
 protospec-build/src/compiler/expr.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/protospec-build/src/compiler/expr.rs b/protospec-build/src/compiler/expr.rs
index 6df53be..d57d780 100644
--- a/protospec-build/src/compiler/expr.rs
+++ b/protospec-build/src/compiler/expr.rs
@@ -334,8 +334,9 @@ pub fn emit_expression<F: Fn(&Arc<Field>) -> TokenStream>(
             let array = emit_expression(&c.array, ref_resolver);
             let index = emit_expression(&c.index, ref_resolver);
 
+            // an index from the data can be out of range
             quote! {
-                (#array)[#index]
+                (*(#array).get((#index) as usize).ok_or_else(|| std::io::Error::from(std::io::ErrorKind::InvalidData))?)
             }
         }
         EnumAccess(c) => {
-- 
2.43.0


From b1301834a79bd44f7a42d3d75bb79f77612857ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:02 +0000
Subject: [PATCH 15/27] fix: report a string whose length differs from its
 declared length as an encode error

---
 protospec-build/src/prelude/utf16.rs | 7 ++++++-
 protospec-build/src/prelude/utf8.rs  | 6 +++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/protospec-build/src/prelude/utf16.rs b/protospec-build/src/prelude/utf16.rs
index 3eb464d..5dcd6c1 100644
--- a/protospec-build/src/prelude/utf16.rs
+++ b/protospec-build/src/prelude/utf16.rs
@@ -51,12 +51,17 @@ impl ForeignType for Utf16 {
         &self,
         target: TokenStream,
         field_ref: TokenStream,
-        _arguments: Vec<TokenStream>,
+        arguments: Vec<TokenStream>,
         is_async: bool,
     ) -> TokenStream {
         let async_ = map_async(is_async);
+        let len = arguments.first().expect("missing len argument");
         quote! {
             {
+                let t_count = #len as usize;
+                if t_count != #field_ref.encode_utf16().count() {
+                    return Err(encode_error("string length does not match its declared length").into());
+                }
                 for utf16 in #field_ref.encode_utf16() {
                     #target.write_all(&utf16.to_be_bytes()[..])#async_?;
                 }
diff --git a/protospec-build/src/prelude/utf8.rs b/protospec-build/src/prelude/utf8.rs
index 52aee3c..b4c725c 100644
--- a/protospec-build/src/prelude/utf8.rs
+++ b/protospec-build/src/prelude/utf8.rs
@@ -62,9 +62,13 @@ impl ForeignType for Utf8 {
         is_async: bool,
     ) -> TokenStream {
         let async_ = map_async(is_async);
-        if let Some(_) = arguments.first() {
+        if let Some(len) = arguments.first() {
             quote! {
                 {
+                    let t_count = #len as usize;
+                    if t_count != #field_ref.len() {
+                        return Err(encode_error("string length does not match its declared length").into());
+                    }
                     #target.write_all(#field_ref.as_bytes())#async_?;
                 }
             }
-- 
2.43.0


From bb58451f7b894bd617ab393773ed122413966731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:57 +0000
Subject: [PATCH 16/27] fix: report a missing terminator as a decode error
 instead of looping forever

---
 protospec-build/src/compiler/decoder.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/protospec-build/src/compiler/decoder.rs b/protospec-build/src/compiler/decoder.rs
index 13dbbb5..c676909 100644
--- a/protospec-build/src/compiler/decoder.rs
+++ b/protospec-build/src/compiler/decoder.rs
@@ -414,8 +414,7 @@ fn prepare_decode(
                                 break;
                             }
                             if (buf.len() < #terminator.len()) {
-                                //todo: confirm this cannot infinite loop
-                                continue;
+                                return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
                             }
                             if &buf[..#terminator.len()] == #terminator {
                                 #target.consume(#terminator.len());
-- 
2.43.0


From d14e5d75968d35a1f43fb629a7b7b2e7c2d78742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:18 +0000
Subject: [PATCH 17/27] fix: emit tuple indices without a suffix, which current
 compilers reject

---
 protospec-build/src/compiler/encoder.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/protospec-build/src/compiler/encoder.rs b/protospec-build/src/compiler/encoder.rs
index 537cad0..ebb62f9 100644
--- a/protospec-build/src/compiler/encoder.rs
+++ b/protospec-build/src/compiler/encoder.rs
@@ -75,6 +75,7 @@ impl EncoderContext {
                                 quote! { #source[#index as usize] }
                             }
                             FieldRef::TupleAccess(x) => {
+                                let x = syn::Index::from(*x);
                                 quote! { #source.#x }
                             }
                         };
-- 
2.43.0


From 35d6177a3b14282d9190e3946fdcc84dc890256c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:52 +0000
Subject: [PATCH 18/27] fix: emit several pending blen fields in declaration
 order

---
 protospec-build/src/coder/encode/container.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/protospec-build/src/coder/encode/container.rs b/protospec-build/src/coder/encode/container.rs
index 2d77939..9e87665 100644
--- a/protospec-build/src/coder/encode/container.rs
+++ b/protospec-build/src/coder/encode/container.rs
@@ -152,10 +152,11 @@ impl Context {
                         self.eval_blen_expr(&blen_calls[..], auto_field, calculated);
 
                     auto_targets.remove(i);
-                    let target = auto_targets
-                        .get(i)
-                        .map(|(target, _)| Target::Buf(*target))
-                        .unwrap_or(buf_target);
+                    // what precedes this field is in the buffer of the pending field before it
+                    let target = match i.checked_sub(1) {
+                        Some(previous) => Target::Buf(auto_targets[previous].0),
+                        None => buf_target,
+                    };
                     self.encode_field(target, calculated_register, auto_field, conditional);
                     self.instructions
                         .push(Instruction::EmitBuf(target, auto_target));
-- 
2.43.0


From 9e4fd10e5918b6425c593918c0aae56a37d86a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:13 +0000
Subject: [PATCH 19/27] fix: do not allocate the declared length of a container
 before encoding it

---
 protospec-build/src/compiler/encoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/protospec-build/src/compiler/encoder.rs b/protospec-build/src/compiler/encoder.rs
index ebb62f9..4b56109 100644
--- a/protospec-build/src/compiler/encoder.rs
+++ b/protospec-build/src/compiler/encoder.rs
@@ -88,8 +88,8 @@ impl EncoderContext {
                     let buf = emit_register(*buf);
                     let len = emit_register(*len);
                     statements.push(quote! {
-                        //todo: strictly bound this
-                        let mut #buf: Vec<u8> = Vec::with_capacity(#len as usize);
+                        // the length is only a hint and can be any value: do not allocate it up front
+                        let mut #buf: Vec<u8> = Vec::with_capacity(::std::cmp::min(#len as u64, 4096) as usize);
                     });
                 }
                 Instruction::AllocDynBuf(buf) => {
-- 
2.43.0


From 0ef3969f0cf039c91916fa7d9b4aa05a3a9e943a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:38 +0000
Subject: [PATCH 20/27] fix: parenthesize the trait objects of conditional
 transforms in asynchronous code

---
 protospec-build/src/compiler/decoder.rs | 4 ++--
 protospec-build/src/compiler/encoder.rs | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/protospec-build/src/compiler/decoder.rs b/protospec-build/src/compiler/decoder.rs
index c676909..fe52f4e 100644
--- a/protospec-build/src/compiler/decoder.rs
+++ b/protospec-build/src/compiler/decoder.rs
@@ -209,12 +209,12 @@ fn prepare_decode(
                 if is_async {
                     statements.push(quote! {
                         let mut r_xform;
-                        let #new_stream_value: &mut dyn AsyncBufRead + Unpin + Send + Sync = if #condition {
+                        let #new_stream_value: &mut (dyn AsyncBufRead + Unpin + Send + Sync) = if #condition {
                             #prelude
                             r_xform = #transformed;
                             &mut r_xform
                         } else {
-                            #input as &mut dyn AsyncBufRead + Unpin + Send + Sync
+                            #input as &mut (dyn AsyncBufRead + Unpin + Send + Sync)
                         };
                     })
                 } else {
diff --git a/protospec-build/src/compiler/encoder.rs b/protospec-build/src/compiler/encoder.rs
index 4b56109..df2c3e8 100644
--- a/protospec-build/src/compiler/encoder.rs
+++ b/protospec-build/src/compiler/encoder.rs
@@ -354,7 +354,7 @@ impl EncoderContext {
                     let prelude = self.prepare_encode(&prelude[..], false);
 
                     let trait_name = if self.is_async {
-                        quote! { dyn AsyncWrite + Send + Sync + Unpin }
+                        quote! { (dyn AsyncWrite + Send + Sync + Unpin) }
                     } else {
                         quote! { dyn Write }
                     };
-- 
2.43.0


From 36d60bd1e1ab14b968c899623304dc323b969115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:38 +0000
Subject: [PATCH 21/27] fix: do not import the synchronous traits into
 asynchronous functions

---
 protospec-build/src/compiler/decoder.rs | 2 +-
 protospec-build/src/compiler/mod.rs     | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/protospec-build/src/compiler/decoder.rs b/protospec-build/src/compiler/decoder.rs
index fe52f4e..8ac79d9 100644
--- a/protospec-build/src/compiler/decoder.rs
+++ b/protospec-build/src/compiler/decoder.rs
@@ -44,7 +44,7 @@ fn prepare_decode(
             })
         } else {
             statements.push(quote! {
-                use std::io::Read;
+                use std::io::{ Read, BufRead };
             })
         }
     }
diff --git a/protospec-build/src/compiler/mod.rs b/protospec-build/src/compiler/mod.rs
index 240c04a..83314c5 100644
--- a/protospec-build/src/compiler/mod.rs
+++ b/protospec-build/src/compiler/mod.rs
@@ -135,7 +135,7 @@ pub fn compile_program(program: &Program, options: &CompileOptions) -> TokenStre
     };
 
     components.push(quote! {
-        use std::io::{Read, BufRead, Cursor};
+        use std::io::Cursor;
         use std::slice;
         use std::mem;
         use std::convert::TryInto;
@@ -255,7 +255,7 @@ fn prepare_impls(field: &Arc<Field>, options: &CompileOptions) -> TokenStream {
 
     quote! {
         impl #container_ident {
-            pub fn decode_sync<R: Read + BufRead>(reader: &mut R #arguments) -> Result<Self> {
+            pub fn decode_sync<R: std::io::Read + std::io::BufRead>(reader: &mut R #arguments) -> Result<Self> {
                 #redefaults
                 #decode_sync
             }
-- 
2.43.0


From 845c443178295ea6e1af4f142c7da0b814bbd593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:43 +0000
Subject: [PATCH 22/27] fix: keep type arguments apart from the locals of the
 emitted functions

---
 protospec-build/src/compiler/expr.rs | 7 +------
 protospec-build/src/compiler/mod.rs  | 7 ++++++-
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/protospec-build/src/compiler/expr.rs b/protospec-build/src/compiler/expr.rs
index d57d780..6d07c7f 100644
--- a/protospec-build/src/compiler/expr.rs
+++ b/protospec-build/src/compiler/expr.rs
@@ -367,12 +367,7 @@ pub fn emit_expression<F: Fn(&Arc<Field>) -> TokenStream>(
                 (#value)
             }
         }
-        InputRef(c) => {
-            let c = format_ident!("{}", c.name);
-            quote! {
-                #c
-            }
-        }
+        InputRef(c) => emit_argument(&c.name),
         FieldRef(c) => ref_resolver(c),
         Str(c) => {
             let c = Literal::byte_string(&c.content[..]);
diff --git a/protospec-build/src/compiler/mod.rs b/protospec-build/src/compiler/mod.rs
index 83314c5..6ed61d5 100644
--- a/protospec-build/src/compiler/mod.rs
+++ b/protospec-build/src/compiler/mod.rs
@@ -203,7 +203,7 @@ fn prepare_impls(field: &Arc<Field>, options: &CompileOptions) -> TokenStream {
     let mut arguments = vec![];
     let mut redefaults = vec![];
     for argument in field.arguments.borrow().iter() {
-        let name = emit_ident(&argument.name);
+        let name = emit_argument(&argument.name);
         let type_ref = emit_type_ref(&argument.type_);
         let opt_type_ref = if argument.default_value.is_some() {
             quote! { Option<#type_ref> }
@@ -277,6 +277,11 @@ fn emit_ident(name: &str) -> TokenStream {
     }
 }
 
+/// type arguments share a scope with the locals of the emitted functions, so they are prefixed
+fn emit_argument(name: &str) -> TokenStream {
+    emit_ident(&format!("arg_{}", name))
+}
+
 fn emit_register(register: usize) -> TokenStream {
     let ident = format_ident!("r_{}", register);
     quote! {
-- 
2.43.0


From 42dcf00d4c5cec0d15c2696f7a4c3898087faa6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:44 +0000
Subject: [PATCH 23/27] fix: tokenizer reports positions behind multi-line
 tokens and the end of every token

---
 protospec-build/src/tokenizer.rs | 38 ++++++++++++++++----------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/protospec-build/src/tokenizer.rs b/protospec-build/src/tokenizer.rs
index cf9f0dd..5c17f46 100644
--- a/protospec-build/src/tokenizer.rs
+++ b/protospec-build/src/tokenizer.rs
@@ -537,35 +537,38 @@ impl fmt::Debug for SpannedToken {
     }
 }
 
+/// moves the position `index` over `consumed`, which can span lines
+fn advance(consumed: &[u8], index: &mut u64, line_no: &mut u64, line_start: &mut u64) {
+    for byte in consumed {
+        *index += 1;
+        if *byte == b'\n' {
+            *line_no += 1;
+            *line_start = *index;
+        }
+    }
+}
+
 pub fn tokenize(input: &str, strip_comments: bool) -> Result<Vec<SpannedToken>> {
     let mut input = input.as_bytes();
     let mut tokens = vec![];
-    let mut index = 064;
+    let mut index = 0u64;
     let mut line_no = 1u64;
     let mut line_start = 0u64;
     while input.len() > 0 {
         match Token::gobble(input) {
             (output, Some(token)) => {
-                let start_line = line_no;
-                match &token {
-                    Token::CommentLine(_) => {
-                        line_no += 1;
-                    }
-                    Token::CommentBlock(s) => {
-                        line_no += s.chars().filter(|x| *x == '\n').count() as u64;
-                    }
-                    _ => (),
-                }
+                let (start_line, start_col) = (line_no, index - line_start + 1);
+                let consumed = &input[..input.len() - output.len()];
+                advance(consumed, &mut index, &mut line_no, &mut line_start);
                 tokens.push(SpannedToken {
                     token,
                     span: Span {
                         line_start: start_line,
                         line_stop: line_no,
-                        col_start: index - line_start + 1,
-                        col_stop: index - line_start + (input.len() - output.len()) as u64 + 1,
+                        col_start: start_col,
+                        col_stop: index - line_start + 1,
                     },
                 });
-                index += (input.len() - output.len()) as u64;
                 input = output;
             }
             (output, None) => {
@@ -578,11 +581,8 @@ pub fn tokenize(input: &str, strip_comments: bool) -> Result<Vec<SpannedToken>>
                         index
                     ));
                 }
-                index += (input.len() - output.len()) as u64;
-                if input[0] == b'\n' {
-                    line_no += 1;
-                    line_start = index;
-                }
+                let consumed = &input[..input.len() - output.len()];
+                advance(consumed, &mut index, &mut line_no, &mut line_start);
                 input = output;
             }
         }
-- 
2.43.0


From 4ddb4983214b8a1638594024d7dbf6f001491fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:44 +0000
Subject: [PATCH 24/27] fix: types of imported files are compiled, and keep
 their aliases

---
 protospec-build/src/asg/program.rs                |  2 ++
 protospec-build/src/compiler/mod.rs               | 15 ++++++++++++++-
 .../src/semantics/convert/program/import.rs       |  6 ++++++
 .../src/semantics/convert/program/mod.rs          |  3 ++-
 .../src/semantics/convert/program/resolve.rs      |  7 ++++++-
 protospec-build/src/semantics/mod.rs              |  2 +-
 6 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/protospec-build/src/asg/program.rs b/protospec-build/src/asg/program.rs
index 8d53e93..f918b7e 100644
--- a/protospec-build/src/asg/program.rs
+++ b/protospec-build/src/asg/program.rs
@@ -6,6 +6,8 @@ pub struct Program {
     pub consts: IndexMap<String, Arc<Const>>,
     pub transforms: IndexMap<String, Arc<Transform>>,
     pub functions: IndexMap<String, Arc<Function>>,
+    /// every type of the imported files and of the files these import, under its own name
+    pub dependencies: Vec<Arc<Field>>,
 }
 
 impl Program {
diff --git a/protospec-build/src/compiler/mod.rs b/protospec-build/src/compiler/mod.rs
index 6ed61d5..ac3233b 100644
--- a/protospec-build/src/compiler/mod.rs
+++ b/protospec-build/src/compiler/mod.rs
@@ -142,7 +142,20 @@ pub fn compile_program(program: &Program, options: &CompileOptions) -> TokenStre
 
         #errors
     });
-    for (name, field) in program.types.iter() {
+    let mut emitted: Vec<&Arc<Field>> = vec![];
+    for field in program.types.values() {
+        // an imported type can have several names
+        if !emitted.iter().any(|x| Arc::ptr_eq(x, field)) {
+            emitted.push(field);
+        }
+    }
+    for field in program.dependencies.iter() {
+        if !emitted.iter().any(|x| x.name == field.name) {
+            emitted.push(field);
+        }
+    }
+    for field in emitted {
+        let name = &field.name;
         match &*field.type_.borrow() {
             Type::Foreign(_) => continue,
             Type::Container(item) => {
diff --git a/protospec-build/src/semantics/convert/program/import.rs b/protospec-build/src/semantics/convert/program/import.rs
index 13e130c..0a3552a 100644
--- a/protospec-build/src/semantics/convert/program/import.rs
+++ b/protospec-build/src/semantics/convert/program/import.rs
@@ -12,6 +12,12 @@ impl Scope {
         let content = String::from_utf8_lossy(&import.from.content[..]);
         let normalized = resolver.normalize_import(content.as_ref())?;
         if let Some(cached) = import_cache.get(&normalized) {
+            for field in cached.types.values().chain(cached.dependencies.iter()) {
+                let mut program = program.borrow_mut();
+                if !program.dependencies.iter().any(|x| Arc::ptr_eq(x, field)) {
+                    program.dependencies.push(field.clone());
+                }
+            }
             for import_item in import.items.iter() {
                 let imported_name = if let Some(alias) = import_item.alias.as_ref() {
                     alias.name.clone()
diff --git a/protospec-build/src/semantics/convert/program/mod.rs b/protospec-build/src/semantics/convert/program/mod.rs
index 0c15ee2..c3cb3b7 100644
--- a/protospec-build/src/semantics/convert/program/mod.rs
+++ b/protospec-build/src/semantics/convert/program/mod.rs
@@ -17,7 +17,7 @@ impl Program {
     ) -> AsgResult<Program> {
         let mut cached_imports: IndexMap<String, Program> = IndexMap::new();
 
-        Program::from_ast_imports(ast, resolver, &mut cached_imports)?;
+        Program::from_ast_imports(ast, resolver, &mut cached_imports, &mut IndexSet::new())?;
         Program::from_ast_imported(ast, resolver, &cached_imports)
     }
 
@@ -31,6 +31,7 @@ impl Program {
             consts: IndexMap::new(),
             transforms: IndexMap::new(),
             functions: IndexMap::new(),
+            dependencies: vec![],
         }));
 
         {
diff --git a/protospec-build/src/semantics/convert/program/resolve.rs b/protospec-build/src/semantics/convert/program/resolve.rs
index 042cc22..8364f3c 100644
--- a/protospec-build/src/semantics/convert/program/resolve.rs
+++ b/protospec-build/src/semantics/convert/program/resolve.rs
@@ -5,6 +5,7 @@ impl Program {
         ast: &ast::Program,
         resolver: &T,
         cache: &mut IndexMap<String, Program>,
+        pending: &mut IndexSet<String>,
     ) -> AsgResult<()> {
         for declaration in ast.declarations.iter() {
             match declaration {
@@ -13,6 +14,10 @@ impl Program {
                     let normalized = resolver.normalize_import(&content[..])?;
                     if let Some(_cached) = cache.get(&normalized) {
                     } else {
+                        if !pending.insert(normalized.clone()) {
+                            // the file imports itself, possibly through others
+                            return Err(AsgError::ImportMissing(content, import.from.span));
+                        }
                         let loaded = resolver.resolve_import(&normalized)?;
                         if let Some(loaded) = loaded {
                             let parsed = match crate::parse(&loaded) {
@@ -21,7 +26,7 @@ impl Program {
                                     return Err(AsgError::ImportParse(content, import.from.span, e))
                                 }
                             };
-                            Program::from_ast_imports(&parsed, resolver, cache)?;
+                            Program::from_ast_imports(&parsed, resolver, cache, pending)?;
                             let asg = Program::from_ast_imported(&parsed, resolver, cache)?;
                             cache.insert(normalized, asg);
                         } else {
diff --git a/protospec-build/src/semantics/mod.rs b/protospec-build/src/semantics/mod.rs
index 596dd46..d10371e 100644
--- a/protospec-build/src/semantics/mod.rs
+++ b/protospec-build/src/semantics/mod.rs
@@ -3,7 +3,7 @@ use crate::ImportResolver;
 use crate::Span;
 use crate::{asg::*, ScalarType};
 use ast::Node;
-use indexmap::IndexMap;
+use indexmap::{IndexMap, IndexSet};
 use std::cell::{Cell, RefCell};
 use std::fmt;
 use std::{sync::Arc, unimplemented};
-- 
2.43.0


From 7b9216ff5a9dbfe8286d48822462d91ef36161bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:44 +0000
Subject: [PATCH 25/27] fix: optional type arguments are passed as Option

---
 .../src/coder/decode/instruction.rs           |  2 +-
 protospec-build/src/coder/decode/mod.rs       |  2 +-
 .../src/coder/encode/instruction.rs           |  6 ++---
 protospec-build/src/coder/encode/var_ref.rs   |  1 +
 protospec-build/src/coder/mod.rs              | 26 +++++++++++++++++++
 protospec-build/src/compiler/decoder.rs       |  2 +-
 protospec-build/src/compiler/encoder.rs       |  2 +-
 protospec-build/src/compiler/mod.rs           |  9 +++++++
 .../src/semantics/convert/type_/type_ref.rs   |  2 +-
 9 files changed, 43 insertions(+), 9 deletions(-)

diff --git a/protospec-build/src/coder/decode/instruction.rs b/protospec-build/src/coder/decode/instruction.rs
index d5a7296..1dce46c 100644
--- a/protospec-build/src/coder/decode/instruction.rs
+++ b/protospec-build/src/coder/decode/instruction.rs
@@ -40,7 +40,7 @@ pub enum Instruction {
     ), // condition, prelude, stream, new stream, transformer, arguments
 
     DecodeForeign(Target, usize, Arc<ForeignType>, Vec<usize>),
-    DecodeRef(Target, usize, String, Vec<usize>),
+    DecodeRef(Target, usize, String, Vec<RefArgument>),
     DecodeRepr(String, PrimitiveType, usize, Target),
     DecodePrimitive(Target, usize, PrimitiveType),
     DecodePrimitiveArray(Target, usize, PrimitiveType, Option<usize>),
diff --git a/protospec-build/src/coder/decode/mod.rs b/protospec-build/src/coder/decode/mod.rs
index 0e5369d..68d7579 100644
--- a/protospec-build/src/coder/decode/mod.rs
+++ b/protospec-build/src/coder/decode/mod.rs
@@ -153,7 +153,7 @@ impl Context {
                         source,
                         output,
                         r.target.name.clone(),
-                        args,
+                        RefArgument::collect(&r.target, &args[..]),
                     ));
                 }
                 output
diff --git a/protospec-build/src/coder/encode/instruction.rs b/protospec-build/src/coder/encode/instruction.rs
index ca45155..d27e17c 100644
--- a/protospec-build/src/coder/encode/instruction.rs
+++ b/protospec-build/src/coder/encode/instruction.rs
@@ -40,7 +40,7 @@ pub enum Instruction {
     /// dest, source, type, arguments
     EncodeForeign(Target, usize, Arc<ForeignType>, Vec<usize>),
     /// dest, source, arguments
-    EncodeRef(Target, usize, Vec<usize>),
+    EncodeRef(Target, usize, Vec<RefArgument>),
     /// rep type, dest, source
     EncodeEnum(Target, usize, EndianScalarType),
     /// dest, source
@@ -142,9 +142,7 @@ impl fmt::Display for Instruction {
                 write!(f, ")")
             }
             Instruction::EncodeRef(dest, source, arguments) => {
-                write!(f, "EncodeRef({:?}, {}, ", dest, source)?;
-                write_arguments(f, &arguments[..])?;
-                write!(f, ")")
+                write!(f, "EncodeRef({:?}, {}, {:?})", dest, source, arguments)
             }
             Instruction::EncodeEnum(dest, source, type_) => {
                 write!(f, "EncodeEnum({:?}, {}, {})", dest, source, type_)
diff --git a/protospec-build/src/coder/encode/var_ref.rs b/protospec-build/src/coder/encode/var_ref.rs
index 45ad006..933a2c1 100644
--- a/protospec-build/src/coder/encode/var_ref.rs
+++ b/protospec-build/src/coder/encode/var_ref.rs
@@ -22,6 +22,7 @@ impl Context {
                 self.instructions.push(Instruction::Eval(r, arg.clone()));
                 args.push(r);
             }
+            let args = RefArgument::collect(&type_.target, &args[..]);
             self.instructions
                 .push(Instruction::EncodeRef(target, source, args));
         }
diff --git a/protospec-build/src/coder/mod.rs b/protospec-build/src/coder/mod.rs
index c087b01..9a2445c 100644
--- a/protospec-build/src/coder/mod.rs
+++ b/protospec-build/src/coder/mod.rs
@@ -13,6 +13,32 @@ pub enum FieldRef {
     TupleAccess(usize),
 }
 
+/// what a reference passes for an argument of its type
+#[derive(Debug, Clone, Copy)]
+pub enum RefArgument {
+    Required(usize),
+    /// the argument has a default value, which is used when nothing is given
+    Optional(Option<usize>),
+}
+
+impl RefArgument {
+    /// for every argument of the type, the register of the value given for it
+    pub fn collect(target: &crate::asg::Field, given: &[usize]) -> Vec<RefArgument> {
+        target
+            .arguments
+            .borrow()
+            .iter()
+            .enumerate()
+            .map(|(i, argument)| match given.get(i) {
+                Some(register) if argument.default_value.is_none() => {
+                    RefArgument::Required(*register)
+                }
+                register => RefArgument::Optional(register.copied()),
+            })
+            .collect()
+    }
+}
+
 #[derive(Debug, Clone, Copy)]
 pub enum Target {
     Direct,
diff --git a/protospec-build/src/compiler/decoder.rs b/protospec-build/src/compiler/decoder.rs
index 8ac79d9..f73c832 100644
--- a/protospec-build/src/compiler/decoder.rs
+++ b/protospec-build/src/compiler/decoder.rs
@@ -248,7 +248,7 @@ fn prepare_decode(
             Instruction::DecodeRef(target, source, class, args) => {
                 let mut out_arguments = vec![];
                 for argument in args {
-                    let value = emit_register(*argument);
+                    let value = emit_ref_argument(argument);
                     out_arguments.push(quote! {, #value});
                 }
                 let out_arguments = flatten(out_arguments);
diff --git a/protospec-build/src/compiler/encoder.rs b/protospec-build/src/compiler/encoder.rs
index df2c3e8..ccd909a 100644
--- a/protospec-build/src/compiler/encoder.rs
+++ b/protospec-build/src/compiler/encoder.rs
@@ -209,7 +209,7 @@ impl EncoderContext {
                 Instruction::EncodeRef(target, source, args) => {
                     let mut out_arguments = vec![];
                     for argument in args {
-                        let value = emit_register(*argument);
+                        let value = emit_ref_argument(argument);
                         out_arguments.push(quote! {, #value});
                     }
                     let out_arguments = flatten(out_arguments);
diff --git a/protospec-build/src/compiler/mod.rs b/protospec-build/src/compiler/mod.rs
index ac3233b..185d80d 100644
--- a/protospec-build/src/compiler/mod.rs
+++ b/protospec-build/src/compiler/mod.rs
@@ -187,6 +187,15 @@ pub fn compile_program(program: &Program, options: &CompileOptions) -> TokenStre
         }
         components.push(prepare_impls(&field, options));
     }
+    for (alias, field) in program.types.iter() {
+        if *alias != field.name && !matches!(&*field.type_.borrow(), Type::Foreign(_)) {
+            let alias = format_ident!("{}", global_name(alias));
+            let ident = format_ident!("{}", global_name(&field.name));
+            components.push(quote! {
+                pub type #alias = #ident;
+            });
+        }
+    }
     let components = flatten(components);
     quote! {
         #[allow(unused_imports, unused_parens, unused_variables, dead_code, unused_mut, non_upper_case_globals)]
diff --git a/protospec-build/src/semantics/convert/type_/type_ref.rs b/protospec-build/src/semantics/convert/type_/type_ref.rs
index 04269d0..74c94ff 100644
--- a/protospec-build/src/semantics/convert/type_/type_ref.rs
+++ b/protospec-build/src/semantics/convert/type_/type_ref.rs
@@ -13,7 +13,7 @@ impl Scope {
                 .count();
             // optionals MUST be at the end
             if min_arg_count < type_.arguments.len()
-                && target_args[target_args.len() - min_arg_count..]
+                && target_args[..min_arg_count]
                     .iter()
                     .any(|x| x.default_value.is_some())
             {
-- 
2.43.0


From fb6cbab84ffa36b73abdfdeffd01c3e97fdc5f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:44 +0000
Subject: [PATCH 26/27] fix: division by zero and a pad alignment of zero are
 errors, not panics

---
 protospec-build/src/compiler/expr.rs | 19 +++++++++++++++++++
 protospec-build/src/compiler/mod.rs  | 18 ++++++++++++++++++
 protospec-build/src/prelude/pad.rs   |  3 ++-
 3 files changed, 39 insertions(+), 1 deletion(-)

diff --git a/protospec-build/src/compiler/expr.rs b/protospec-build/src/compiler/expr.rs
index 6d07c7f..9f13789 100644
--- a/protospec-build/src/compiler/expr.rs
+++ b/protospec-build/src/compiler/expr.rs
@@ -250,6 +250,13 @@ pub fn eval_const_expression(expr: &Expression) -> Option<ConstValue> {
     }
 }
 
+fn is_nonzero_literal(expr: &Expression) -> bool {
+    match expr {
+        Expression::Int(c) => c.value - c.value != Some(c.value),
+        _ => false,
+    }
+}
+
 pub fn emit_expression<F: Fn(&Arc<Field>) -> TokenStream>(
     expr: &Expression,
     ref_resolver: &F,
@@ -263,6 +270,18 @@ pub fn emit_expression<F: Fn(&Arc<Field>) -> TokenStream>(
                 quote! {
                     (#left).unwrap_or(#right)
                 }
+            } else if matches!(c.op, BinaryOp::Div | BinaryOp::Mod)
+                && !is_nonzero_literal(&c.right)
+                && matches!(c.right.get_type(), Some(x) if matches!(*x.resolved(), Type::Scalar(_)))
+            {
+                let op = match c.op {
+                    BinaryOp::Div => quote! { wrapping_div },
+                    _ => quote! { wrapping_rem },
+                };
+                let right = emit_divisor(&right);
+                quote! {
+                    ((#left).#op(#right))
+                }
             } else {
                 let op = match c.op {
                     BinaryOp::Lt => quote! { < },
diff --git a/protospec-build/src/compiler/mod.rs b/protospec-build/src/compiler/mod.rs
index 185d80d..c651f03 100644
--- a/protospec-build/src/compiler/mod.rs
+++ b/protospec-build/src/compiler/mod.rs
@@ -311,6 +311,17 @@ fn emit_register(register: usize) -> TokenStream {
     }
 }
 
+fn emit_ref_argument(argument: &coder::RefArgument) -> TokenStream {
+    match argument {
+        coder::RefArgument::Required(register) => emit_register(*register),
+        coder::RefArgument::Optional(Some(register)) => {
+            let register = emit_register(*register);
+            quote! { Some(#register) }
+        }
+        coder::RefArgument::Optional(None) => quote! { None },
+    }
+}
+
 fn flatten<T: IntoIterator<Item = TokenStream>>(iter: T) -> TokenStream {
     let mut out = quote! {};
     out.append_all(iter);
@@ -332,6 +343,13 @@ fn flatten_separated<T: IntoIterator<Item = TokenStream>>(
     out
 }
 
+/// a divisor from the data can be zero
+pub fn emit_divisor(divisor: &TokenStream) -> TokenStream {
+    quote! {
+        (Some(#divisor).filter(|x| *x != 0).ok_or_else(|| std::io::Error::from(std::io::ErrorKind::InvalidData))?)
+    }
+}
+
 pub fn emit_type_ref(item: &Type) -> TokenStream {
     match item {
         Type::Container(_) => unimplemented!(),
diff --git a/protospec-build/src/prelude/pad.rs b/protospec-build/src/prelude/pad.rs
index 1b45ce7..af32e1a 100644
--- a/protospec-build/src/prelude/pad.rs
+++ b/protospec-build/src/prelude/pad.rs
@@ -25,8 +25,9 @@ impl ForeignFunction for PadFunction {
     fn call(&self, arguments: &[FFIArgumentValue]) -> TokenStream {
         let pad = &arguments[0].value;
         let base = &arguments[1].value;
+        let divisor = crate::compiler::emit_divisor(pad);
         return quote! {
-            if #base % #pad == 0 {
+            if #base % #divisor == 0 {
                 0
             } else {
                 (#pad - (#base % #pad))
-- 
2.43.0


From 7c3ee22d2b1045becb98ac01e4b7e3389c5aa944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:40 +0000
Subject: [PATCH 27/27] fix: constant arithmetic that overflows, divides by
 zero, shifts too far or negates an unsigned number is refused

---
 .../src/asg/expression/const_int.rs           | 56 ++++++++++++++++---
 1 file changed, 47 insertions(+), 9 deletions(-)

diff --git a/protospec-build/src/asg/expression/const_int.rs b/protospec-build/src/asg/expression/const_int.rs
index b08936e..96612b9 100644
--- a/protospec-build/src/asg/expression/const_int.rs
+++ b/protospec-build/src/asg/expression/const_int.rs
@@ -1,3 +1,5 @@
+use std::convert::TryFrom;
+
 use super::*;
 
 #[derive(Clone, Copy, Debug, PartialEq)]
@@ -50,6 +52,24 @@ macro_rules! const_int_biop_map {
     };
 }
 
+macro_rules! const_int_biop_checked {
+    ($e1: expr, $e2: expr, $i1: ident, $i2: ident, $op: expr) => {
+        match ($e1, $e2) {
+            (ConstInt::I8($i1), ConstInt::I8($i2)) => ($op).map(ConstInt::I8),
+            (ConstInt::I16($i1), ConstInt::I16($i2)) => ($op).map(ConstInt::I16),
+            (ConstInt::I32($i1), ConstInt::I32($i2)) => ($op).map(ConstInt::I32),
+            (ConstInt::I64($i1), ConstInt::I64($i2)) => ($op).map(ConstInt::I64),
+            (ConstInt::I128($i1), ConstInt::I128($i2)) => ($op).map(ConstInt::I128),
+            (ConstInt::U8($i1), ConstInt::U8($i2)) => ($op).map(ConstInt::U8),
+            (ConstInt::U16($i1), ConstInt::U16($i2)) => ($op).map(ConstInt::U16),
+            (ConstInt::U32($i1), ConstInt::U32($i2)) => ($op).map(ConstInt::U32),
+            (ConstInt::U64($i1), ConstInt::U64($i2)) => ($op).map(ConstInt::U64),
+            (ConstInt::U128($i1), ConstInt::U128($i2)) => ($op).map(ConstInt::U128),
+            _ => None,
+        }
+    };
+}
+
 macro_rules! const_int_map {
     ($e1: expr, $i1: ident, $sop: expr, $usop: expr) => {
         match $e1 {
@@ -118,7 +138,13 @@ impl Shr for ConstInt {
     type Output = Option<Self>;
 
     fn shr(self, other: Self) -> Self::Output {
-        const_int_biop_map!(self, other, i1, i2, i1 >> i2)
+        const_int_biop_checked!(
+            self,
+            other,
+            i1,
+            i2,
+            u32::try_from(i2).ok().and_then(|i2| i1.checked_shr(i2))
+        )
     }
 }
 
@@ -126,7 +152,13 @@ impl Shl for ConstInt {
     type Output = Option<Self>;
 
     fn shl(self, other: Self) -> Self::Output {
-        const_int_biop_map!(self, other, i1, i2, i1 << i2)
+        const_int_biop_checked!(
+            self,
+            other,
+            i1,
+            i2,
+            u32::try_from(i2).ok().and_then(|i2| i1.checked_shl(i2))
+        )
     }
 }
 
@@ -134,7 +166,7 @@ impl Add for ConstInt {
     type Output = Option<Self>;
 
     fn add(self, other: Self) -> Self::Output {
-        const_int_biop_map!(self, other, i1, i2, i1 + i2)
+        const_int_biop_checked!(self, other, i1, i2, i1.checked_add(i2))
     }
 }
 
@@ -142,7 +174,7 @@ impl Sub for ConstInt {
     type Output = Option<Self>;
 
     fn sub(self, other: Self) -> Self::Output {
-        const_int_biop_map!(self, other, i1, i2, i1 - i2)
+        const_int_biop_checked!(self, other, i1, i2, i1.checked_sub(i2))
     }
 }
 
@@ -150,7 +182,7 @@ impl Mul for ConstInt {
     type Output = Option<Self>;
 
     fn mul(self, other: Self) -> Self::Output {
-        const_int_biop_map!(self, other, i1, i2, i1 * i2)
+        const_int_biop_checked!(self, other, i1, i2, i1.checked_mul(i2))
     }
 }
 
@@ -158,7 +190,7 @@ impl Div for ConstInt {
     type Output = Option<Self>;
 
     fn div(self, other: Self) -> Self::Output {
-        const_int_biop_map!(self, other, i1, i2, i1 / i2)
+        const_int_biop_checked!(self, other, i1, i2, i1.checked_div(i2))
     }
 }
 
@@ -166,16 +198,22 @@ impl Rem for ConstInt {
     type Output = Option<Self>;
 
     fn rem(self, other: Self) -> Self::Output {
-        const_int_biop_map!(self, other, i1, i2, i1 % i2)
+        const_int_biop_checked!(self, other, i1, i2, i1.checked_rem(i2))
     }
 }
 
 impl Neg for ConstInt {
     type Output = Option<Self>;
 
-    #[allow(unreachable_code, unused_variables)]
     fn neg(self) -> Self::Output {
-        const_int_map!(self, i1, -i1, unimplemented!("cannot neg unsigned value"))
+        match self {
+            ConstInt::I8(i1) => i1.checked_neg().map(ConstInt::I8),
+            ConstInt::I16(i1) => i1.checked_neg().map(ConstInt::I16),
+            ConstInt::I32(i1) => i1.checked_neg().map(ConstInt::I32),
+            ConstInt::I64(i1) => i1.checked_neg().map(ConstInt::I64),
+            ConstInt::I128(i1) => i1.checked_neg().map(ConstInt::I128),
+            _ => None,
+        }
     }
 }
 
-- 
2.43.0

