From 5356c5574a5b1a1a40f22568234dfc328fc165e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:29 +0000
Subject: [PATCH 01/41] fix: wtf-8 validation checks the last byte of an
 encoded high surrogate

---
 wtf8/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/wtf8/src/lib.rs b/wtf8/src/lib.rs
index 60c9ef8..a6c0c37 100644
--- a/wtf8/src/lib.rs
+++ b/wtf8/src/lib.rs
@@ -1263,8 +1263,10 @@ pub fn validate_wtf8(bytes: &[u8]) -> Result<(), Wtf8Error> {
                 match n {
                     0x80..=0x9f => {}
                     0xA0..=0xAF => {
+                        if !tail.contains(&next!()) {
+                            err!(3);
+                        }
                         is_high_surrogate = true;
-                        next!();
                         continue;
                     }
                     0xB0..=0xBF => {
-- 
2.43.0


From 796c102a4fad1644c65f615259396f04083c4e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:29 +0000
Subject: [PATCH 02/41] fix: wtf-8 validation reports an error length that
 stays inside the input

---
 wtf8/src/lib.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/wtf8/src/lib.rs b/wtf8/src/lib.rs
index a6c0c37..ddf499c 100644
--- a/wtf8/src/lib.rs
+++ b/wtf8/src/lib.rs
@@ -1249,12 +1249,18 @@ pub fn validate_wtf8(bytes: &[u8]) -> Result<(), Wtf8Error> {
                 }
             }
             0xE0 => {
-                if !(0xA0..=0xBF).contains(&next!()) || !tail.contains(&next!()) {
+                if !(0xA0..=0xBF).contains(&next!()) {
+                    err!(2);
+                }
+                if !tail.contains(&next!()) {
                     err!(3);
                 }
             }
             0xE1..=0xEC | 0xEE..=0xEF => {
-                if !tail.contains(&next!()) || !tail.contains(&next!()) {
+                if !tail.contains(&next!()) {
+                    err!(2);
+                }
+                if !tail.contains(&next!()) {
                     err!(3);
                 }
             }
@@ -1270,6 +1276,9 @@ pub fn validate_wtf8(bytes: &[u8]) -> Result<(), Wtf8Error> {
                         continue;
                     }
                     0xB0..=0xBF => {
+                        if !tail.contains(&next!()) {
+                            err!(3);
+                        }
                         // Encoded surrogate pairs are invalid.
                         if is_high_surrogate {
                             return Err(Wtf8Error {
@@ -1277,8 +1286,10 @@ pub fn validate_wtf8(bytes: &[u8]) -> Result<(), Wtf8Error> {
                                 error_len: NonZeroU8::new(6),
                             });
                         }
+                        is_high_surrogate = false;
+                        continue;
                     }
-                    _ => err!(3),
+                    _ => err!(2),
                 }
                 if !tail.contains(&next!()) {
                     err!(3);
-- 
2.43.0


From 5c21096c4ca2d668b1c67f79788415893d7fd155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:52 +0000
Subject: [PATCH 03/41] fix: modified UTF-8 decoding validates the continuation
 bytes of a surrogate pair

---
 src/mod_utf8.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mod_utf8.rs b/src/mod_utf8.rs
index 2367ec1..96f9ecb 100644
--- a/src/mod_utf8.rs
+++ b/src/mod_utf8.rs
@@ -95,10 +95,10 @@ pub fn modified_utf8_to_string(buf: &[u8]) -> Result<Wtf8String, MutfError> {
                 0xED => {
                     if let (
                         Some(n @ 0xA0..=0xAF),
-                        Some(n1),
+                        Some(n1 @ 0x80..=0xBF),
                         Some(0xED),
                         Some(n3 @ 0xB0..=0xBF),
-                        Some(n4),
+                        Some(n4 @ 0x80..=0xBF),
                     ) = (
                         buf.get(index + 1),
                         buf.get(index + 2),
-- 
2.43.0


From 381ae969ff48609ab9184b5995a92a31434fff3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:52 +0000
Subject: [PATCH 04/41] fix: strings whose encoding exceeds 65535 bytes are
 rejected instead of truncating the length

---
 src/rw.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rw.rs b/src/rw.rs
index 0f4f81c..264cd0e 100644
--- a/src/rw.rs
+++ b/src/rw.rs
@@ -473,7 +473,9 @@ impl ReadWrite for Wtf8String {
 
     fn write_to<T: Write>(&self, writer: &mut T) -> Result<()> {
         let string = crate::mod_utf8::string_to_modified_utf8(self);
-        (string.len() as u16).write_to(writer)?;
+        u16::try_from(string.len())
+            .map_err(|_| Error::Invalid("string length", string.len().to_string().into()))?
+            .write_to(writer)?;
         writer.write_all(&string)?;
         Ok(())
     }
-- 
2.43.0


From d5c8fff657d25f0bf25edf0c0aa7a1114c355220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:52 +0000
Subject: [PATCH 05/41] fix: a static field store is written as putstatic

---
 src/code/convert.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/code/convert.rs b/src/code/convert.rs
index 0ed456d..3f1748d 100644
--- a/src/code/convert.rs
+++ b/src/code/convert.rs
@@ -758,7 +758,7 @@ impl Conv {
                     (GetOrPut::Get, MemberType::Virtual) => GETFIELD,
                     (GetOrPut::Put, MemberType::Virtual) => PUTFIELD,
                     (GetOrPut::Get, MemberType::Static) => GETSTATIC,
-                    (GetOrPut::Put, MemberType::Static) => GETSTATIC,
+                    (GetOrPut::Put, MemberType::Static) => PUTSTATIC,
                 }
                 .write_to(&mut cursor)?;
                 cp.insert_ordynamic(mem.clone(), ConstantPoolWriter::insert_member)
-- 
2.43.0


From a23bf79df8b759e6929f22ffb0b2c0da804cf86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:54 +0000
Subject: [PATCH 06/41] fix: descriptors keep unpaired surrogates in class
 names when written

---
 src/annotation/mod.rs | 2 +-
 src/attr.rs           | 2 +-
 src/code/structure.rs | 2 +-
 src/rw.rs             | 6 +++---
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/annotation/mod.rs b/src/annotation/mod.rs
index 247600a..51a4959 100644
--- a/src/annotation/mod.rs
+++ b/src/annotation/mod.rs
@@ -188,7 +188,7 @@ impl ConstantPoolReadWrite for AnnotationValue {
                 write_to!(
                     &n.as_ref().map_or_else(
                         || Cow::Borrowed(w!("V")),
-                        |t| Cow::Owned(t.to_string().into())
+                        |t| Cow::Owned(t.into())
                     ),
                     cp,
                     writer
diff --git a/src/attr.rs b/src/attr.rs
index 5acc566..e700166 100644
--- a/src/attr.rs
+++ b/src/attr.rs
@@ -55,7 +55,7 @@ impl ConstantPoolReadWrite for Option<(Cow<'static, Wtf8Str>, Type)> {
         writer: &mut W,
     ) -> Result<(), Error> {
         if let Some((n, t)) = self {
-            cp.insert_nameandtype(n.clone(), Cow::Owned(t.to_string().into()))
+            cp.insert_nameandtype(n.clone(), Cow::Owned(t.into()))
                 .write_to(writer)
         } else {
             0u16.write_to(writer)
diff --git a/src/code/structure.rs b/src/code/structure.rs
index e83fc6f..ffe9eea 100644
--- a/src/code/structure.rs
+++ b/src/code/structure.rs
@@ -252,7 +252,7 @@ impl From<ClassType> for Cow<'static, Wtf8Str> {
         match t {
             ClassType::Object(s) => s,
             ClassType::Array(dim, ty) => {
-                Cow::Owned(format!("{}{}", "[".repeat(dim as usize), ty).into())
+                Cow::Owned((&Type::ArrayRef(dim, Box::new(ty))).into())
             }
         }
     }
diff --git a/src/rw.rs b/src/rw.rs
index 264cd0e..b22a4c3 100644
--- a/src/rw.rs
+++ b/src/rw.rs
@@ -39,7 +39,7 @@ pub trait ConstantPoolWriter {
             Constant::Class(s) => self.insert_indirect_str(7, s),
             Constant::Member(mem) => self.insert_member(mem),
             Constant::MethodType(t) => {
-                let desc = self.insert_wtf8(Cow::Owned(t.to_string().into()));
+                let desc = self.insert_wtf8(Cow::Owned((&t).into()));
                 self.insert_raw(RawConstantEntry::MethodType(desc))
             }
             Constant::MethodHandle(h) => {
@@ -88,7 +88,7 @@ pub trait ConstantPoolWriter {
             RawConstantEntry::Dynamic
         };
         let name_and_type =
-            self.insert_nameandtype(d.name, Cow::Owned(d.descriptor.to_string().into()));
+            self.insert_nameandtype(d.name, Cow::Owned((&d.descriptor).into()));
         self.insert_raw(e(bsm, name_and_type))
     }
     /// insert an indirect string such as String / Module / Package entry, used by the procedural macro.
@@ -143,7 +143,7 @@ pub trait ConstantPoolWriter {
             _ => RawConstantEntry::Field,
         }(
             self.insert_class(mem.owner),
-            self.insert_nameandtype(mem.name, Cow::Owned(mem.descriptor.to_string().into())),
+            self.insert_nameandtype(mem.name, Cow::Owned((&mem.descriptor).into())),
         );
         self.insert_raw(entry)
     }
-- 
2.43.0


From 9764378776d1199051db8f2396018571238cd358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:11 +0000
Subject: [PATCH 07/41] fix: a descriptor with more than 255 array dimensions
 is an error, not a panic

---
 src/ty.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ty.rs b/src/ty.rs
index 14db75a..17d3de3 100644
--- a/src/ty.rs
+++ b/src/ty.rs
@@ -115,7 +115,9 @@ pub fn parse_type(s: &Wtf8Str) -> Result<Type> {
                 let mut dim: u8 = 1;
                 while Some('['.into()) == c.as_str().codepoints().next() {
                     c.next();
-                    dim += 1;
+                    dim = dim.checked_add(1).ok_or_else(|| {
+                        crate::error::Error::Invalid("array dimension", "more than 255".into())
+                    })?;
                 }
                 let r = get_type(c)?;
                 Type::ArrayRef(dim, Box::new(r))
-- 
2.43.0


From 09b8a2232aa442b48a8d45419f447d5c2f0bacb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:11 +0000
Subject: [PATCH 08/41] fix: a method descriptor nested in another descriptor
 is rejected

---
 src/ty.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/ty.rs b/src/ty.rs
index 17d3de3..90b35e7 100644
--- a/src/ty.rs
+++ b/src/ty.rs
@@ -89,7 +89,10 @@ impl Type {
 }
 
 pub fn parse_type(s: &Wtf8Str) -> Result<Type> {
-    fn get_type(c: &mut wtf_8::Wtf8CodePoints) -> Result<Type, crate::error::Error> {
+    fn get_type(
+        c: &mut wtf_8::Wtf8CodePoints,
+        allow_method: bool,
+    ) -> Result<Type, crate::error::Error> {
         let next_codepoint = c.next();
         Ok(match next_codepoint.map(|c| c.to_char_lossy()) {
             Some('B') => Type::Byte,
@@ -119,13 +122,13 @@ pub fn parse_type(s: &Wtf8Str) -> Result<Type> {
                         crate::error::Error::Invalid("array dimension", "more than 255".into())
                     })?;
                 }
-                let r = get_type(c)?;
+                let r = get_type(c, false)?;
                 Type::ArrayRef(dim, Box::new(r))
             }
-            Some('(') => {
+            Some('(') if allow_method => {
                 let mut types = Vec::new();
                 while c.as_str().codepoints().next().unwrap_or_else(|| ')'.into()) != ')' {
-                    types.push(get_type(c)?)
+                    types.push(get_type(c, false)?)
                 }
                 if c.next().is_none() {
                     return Err(unexpected_end());
@@ -135,7 +138,7 @@ pub fn parse_type(s: &Wtf8Str) -> Result<Type> {
                         ret: if Some('V'.into()) == c.as_str().codepoints().next() {
                             None
                         } else {
-                            Some(Box::new(get_type(c)?))
+                            Some(Box::new(get_type(c, false)?))
                         },
                     }
                 }
@@ -149,7 +152,7 @@ pub fn parse_type(s: &Wtf8Str) -> Result<Type> {
             None => return Err(unexpected_end()),
         })
     }
-    get_type(&mut s.codepoints())
+    get_type(&mut s.codepoints(), true)
 }
 
 impl ConstantPoolReadWrite for Cow<'static, Wtf8Str> {
-- 
2.43.0


From 1d1840ba74d947eafbdec7a062143bf6558e028d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:12 +0000
Subject: [PATCH 09/41] fix: text after a complete descriptor is rejected
 instead of ignored

---
 src/ty.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/ty.rs b/src/ty.rs
index 90b35e7..b589ad0 100644
--- a/src/ty.rs
+++ b/src/ty.rs
@@ -136,6 +136,7 @@ pub fn parse_type(s: &Wtf8Str) -> Result<Type> {
                     Type::Method {
                         parameters: types,
                         ret: if Some('V'.into()) == c.as_str().codepoints().next() {
+                            c.next();
                             None
                         } else {
                             Some(Box::new(get_type(c, false)?))
@@ -152,7 +153,15 @@ pub fn parse_type(s: &Wtf8Str) -> Result<Type> {
             None => return Err(unexpected_end()),
         })
     }
-    get_type(&mut s.codepoints(), true)
+    let mut c = s.codepoints();
+    let ty = get_type(&mut c, true)?;
+    if c.next().is_some() {
+        return Err(crate::error::Error::Invalid(
+            "descriptor",
+            s.to_string_lossy().into_owned().into(),
+        ));
+    }
+    Ok(ty)
 }
 
 impl ConstantPoolReadWrite for Cow<'static, Wtf8Str> {
-- 
2.43.0


From d0cb883bd709ddcb009fcee4aee86f3bfb1089c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:52 +0000
Subject: [PATCH 10/41] fix: a thrown type variable is written as a type
 variable

---
 src/signature.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/signature.rs b/src/signature.rs
index 2eb2393..4aa2ea2 100644
--- a/src/signature.rs
+++ b/src/signature.rs
@@ -626,7 +626,7 @@ impl Display for Throws {
         f.write_char('^')?;
         match self {
             Throws::TypeParameter(p) => {
-                write!(f, "L{};", p)
+                write!(f, "T{};", p)
             }
             Throws::Class(c) => c.fmt(f),
         }
-- 
2.43.0


From 80594166d837b96a7a0771b06df0388d07f59dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:52 +0000
Subject: [PATCH 11/41] fix: interface bounds of a type parameter are parsed
 after its other bounds

---
 src/signature.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/signature.rs b/src/signature.rs
index 4aa2ea2..7f30503 100644
--- a/src/signature.rs
+++ b/src/signature.rs
@@ -379,8 +379,8 @@ fn type_parameter(i: &str) -> IResult<'_, TypeParameter> {
         (chars.as_str(), None)
     };
     let mut interface_bounds = vec![];
-    while let Some(':') = chars.next() {
-        let (new_i, bound) = ref_type_sig(chars.as_str())?;
+    while let Some(rest) = i.strip_prefix(':') {
+        let (new_i, bound) = ref_type_sig(rest)?;
         interface_bounds.push(bound);
         i = new_i;
     }
-- 
2.43.0


From dc10a3e5e160ebe9db17f77b92deb4dd1c92f7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:52 +0000
Subject: [PATCH 12/41] fix: a signature with more than 255 array dimensions is
 an error, not a panic

---
 src/signature.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/signature.rs b/src/signature.rs
index 7f30503..77c308b 100644
--- a/src/signature.rs
+++ b/src/signature.rs
@@ -177,7 +177,9 @@ fn ref_type_sig(i: &str) -> IResult<'_, RefTypeSignature> {
             let mut c = i.chars();
             while let Some('[') = c.as_str().chars().next() {
                 c.next();
-                dim += 1;
+                dim = dim
+                    .checked_add(1)
+                    .ok_or_else(|| invalid("array dimension", "more than 255"))?;
             }
             let (i, t) = type_sig(c.as_str())?;
             Ok((i, RefTypeSignature::ArrayRef(dim, Box::new(t))))
-- 
2.43.0


From 8ac3f6ca69992f976c0e8cb2a88894dfd463cd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:54 +0000
Subject: [PATCH 13/41] fix: text after a complete signature is rejected
 instead of ignored

---
 src/signature.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/signature.rs b/src/signature.rs
index 77c308b..5742be8 100644
--- a/src/signature.rs
+++ b/src/signature.rs
@@ -477,7 +477,10 @@ macro_rules! fromstr_impls {
                 type Err = crate::error::Error;
 
                 fn from_str(s: &str) -> Result<Self, Self::Err> {
-                    $fn(s).map(|(_, r)| r)
+                    match $fn(s)? {
+                        ("", r) => Ok(r),
+                        (rest, _) => Err(invalid("text after signature", rest)),
+                    }
                 }
             }
         )*
-- 
2.43.0


From 0f0adf6f7a409c44156c30791c3ae26989df1e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:20 +0000
Subject: [PATCH 14/41] fix: the element class of a new array is not mistaken
 for a primitive descriptor

---
 src/code/convert.rs | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/code/convert.rs b/src/code/convert.rs
index 3f1748d..bdb12c0 100644
--- a/src/code/convert.rs
+++ b/src/code/convert.rs
@@ -25,6 +25,20 @@ impl Conv {
                 labeler.get_label((curpos + $off as i64) as u32)
             }};
         }
+        // The type a class constant stands for: only names of arrays are descriptors.
+        macro_rules! class_type {
+            ($idx:expr) => {
+                match try_cp_read!(
+                    $idx,
+                    labeler.read_or_dynamic($idx, ConstantPoolReader::read_class)
+                )? {
+                    OrDynamic::Static(c) if c.as_bytes().first() == Some(&b'[') => {
+                        OrDynamic::Static(parse_type(&c)?)
+                    }
+                    c => c.map_static(Type::Ref),
+                }
+            };
+        }
         #[inline]
         fn push<C: Into<OrDynamic<Constant>>>(c: C) -> Instruction {
             Push(c.into())
@@ -351,22 +365,8 @@ impl Conv {
             I::NewArray(11) => NewArray(OrDynamic::Static(Type::Long), 1),
             I::NewArray(n) => return Err(Error::Invalid("NewArray type", n.to_string().into())),
 
-            I::ANewArray(r) => NewArray(
-                try_cp_read!(
-                    r,
-                    labeler.read_or_dynamic(r, ConstantPoolReader::read_class)
-                )?
-                .map_static(|c| parse_type(&c).unwrap_or(Type::Ref(c))),
-                1,
-            ),
-            I::MultiANewArray(r, dim) => NewArray(
-                try_cp_read!(
-                    r,
-                    labeler.read_or_dynamic(r, ConstantPoolReader::read_class)
-                )?
-                .map_static(|c| parse_type(&c).unwrap_or(Type::Ref(c))),
-                dim,
-            ),
+            I::ANewArray(r) => NewArray(class_type!(r), 1),
+            I::MultiANewArray(r, dim) => NewArray(class_type!(r), dim),
             I::CheckCast(r) => CheckCast(
                 try_cp_read!(
                     r,
-- 
2.43.0


From fc10a65f0fac84047d4954bd11f9bb6a726d2cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:21 +0000
Subject: [PATCH 15/41] fix: array creation instructions are written instead of
 dropped

---
 src/code/convert.rs | 52 ++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 51 insertions(+), 1 deletion(-)

diff --git a/src/code/convert.rs b/src/code/convert.rs
index bdb12c0..5bbfd71 100644
--- a/src/code/convert.rs
+++ b/src/code/convert.rs
@@ -366,6 +366,17 @@ impl Conv {
             I::NewArray(n) => return Err(Error::Invalid("NewArray type", n.to_string().into())),
 
             I::ANewArray(r) => NewArray(class_type!(r), 1),
+            // One dimension of an array: what the other instructions create from the element type.
+            I::MultiANewArray(r, 1) => NewArray(
+                match class_type!(r) {
+                    OrDynamic::Static(Type::ArrayRef(1, ty)) => OrDynamic::Static(*ty),
+                    OrDynamic::Static(Type::ArrayRef(dim, ty)) => {
+                        OrDynamic::Static(Type::ArrayRef(dim - 1, ty))
+                    }
+                    ty => ty,
+                },
+                1,
+            ),
             I::MultiANewArray(r, dim) => NewArray(class_type!(r), dim),
             I::CheckCast(r) => CheckCast(
                 try_cp_read!(
@@ -698,7 +709,46 @@ impl Conv {
                 cp.insert_ordynamic(ty.clone(), |w, x| w.insert_class(x))
                     .write_to(&mut cursor)?;
             }
-            Instruction::NewArray(_, _) => {}
+            Instruction::NewArray(ref ty, 1) => {
+                let primitive = match ty {
+                    OrDynamic::Static(Type::Boolean) => Some(4u8),
+                    OrDynamic::Static(Type::Char) => Some(5),
+                    OrDynamic::Static(Type::Float) => Some(6),
+                    OrDynamic::Static(Type::Double) => Some(7),
+                    OrDynamic::Static(Type::Byte) => Some(8),
+                    OrDynamic::Static(Type::Short) => Some(9),
+                    OrDynamic::Static(Type::Int) => Some(10),
+                    OrDynamic::Static(Type::Long) => Some(11),
+                    OrDynamic::Static(Type::Method { .. }) => {
+                        return Err(Error::Invalid("NewArray type", "method type".into()))
+                    }
+                    _ => None,
+                };
+                if let Some(primitive) = primitive {
+                    NEWARRAY.write_to(&mut cursor)?;
+                    primitive.write_to(&mut cursor)?;
+                } else {
+                    ANEWARRAY.write_to(&mut cursor)?;
+                    cp.insert_ordynamic(ty.clone(), |w, ty| match ty {
+                        Type::Ref(name) => w.insert_class(name),
+                        ty => w.insert_class(Cow::Owned((&ty).into())),
+                    })
+                    .write_to(&mut cursor)?;
+                }
+            }
+            Instruction::NewArray(ref ty, dim) => {
+                match ty {
+                    OrDynamic::Static(Type::ArrayRef(dims, _)) if (1..=*dims).contains(&dim) => {}
+                    OrDynamic::Dynamic(_) if dim != 0 => {}
+                    _ => return Err(Error::Invalid("NewArray dimensions", dim.to_string().into())),
+                }
+                MULTIANEWARRAY.write_to(&mut cursor)?;
+                cp.insert_ordynamic(ty.clone(), |w, ty| {
+                    w.insert_class(Cow::Owned((&ty).into()))
+                })
+                .write_to(&mut cursor)?;
+                dim.write_to(&mut cursor)?;
+            }
             Instruction::Monitor(MonitorOperation::Enter) => MONITORENTER.write_to(&mut cursor)?,
             Instruction::Monitor(MonitorOperation::Exit) => MONITOREXIT.write_to(&mut cursor)?,
             Instruction::Conversion(NumberType::Long, NumberType::Int) => {
-- 
2.43.0


From 3d8d8bf2c5b4e992d2d0d3ae456d7a11c54aaf6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:25 +0000
Subject: [PATCH 16/41] fix: the size reserved for a jump and the form written
 for it agree

---
 src/code.rs | 33 ++++++++++++++++-----------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/src/code.rs b/src/code.rs
index 716b6c7..00d444d 100644
--- a/src/code.rs
+++ b/src/code.rs
@@ -319,8 +319,18 @@ impl ConstantPoolReadWrite for Code {
         let mut last_idx = 0;
         buf_iter = buf.iter();
         let mut sizes_of_jump_insns = Vec::new();
-        for j in &jumps {
-            last_idx += buf_iter.next().unwrap().len();
+        for (i, j) in jumps.iter().enumerate() {
+            let buf_len = buf_iter.next().unwrap().len();
+            last_idx += buf_len;
+            // Whether the offset to the label fits in 16 bits, even if every other jump is wide.
+            macro_rules! is_near {
+                ($label: expr) => {{
+                    let (buf_idx, buf_off) = get_label!($label);
+                    let max_index = |n: usize| if n != 0 { index_hints[n - 1] } else { 0 } as i64;
+                    let off = max_index(buf_idx) + buf_off as i64 - max_index(i) - buf_len as i64;
+                    i16::try_from(off).is_ok()
+                }};
+            }
             let actual_size = 1 + match *j {
                 Instruction::LookupSwitch { default: _, table } => {
                     // Here, `last_idx` is the opcode byte, and `last_idx + 1` is where the
@@ -348,26 +358,14 @@ impl ConstantPoolReadWrite for Code {
                     padding + 12 + offsets.len() * 4
                 }
                 Instruction::Jsr(target) | Instruction::Jump(JumpCondition::Always, target) => {
-                    let (buf_idx, buf_off) = get_label!(target);
-                    let target_off = if buf_idx != 0 {
-                        index_hints[buf_idx - 1]
-                    } else {
-                        0
-                    } + buf_off;
-                    if target_off <= 65535 {
+                    if is_near!(target) {
                         2
                     } else {
                         4
                     }
                 }
                 Instruction::Jump(_, target) => {
-                    let (buf_idx, buf_off) = get_label!(target);
-                    let target_off = if buf_idx != 0 {
-                        index_hints[buf_idx - 1]
-                    } else {
-                        0
-                    } + buf_off;
-                    if target_off <= 65535 {
+                    if is_near!(target) {
                         2
                     } else {
                         7
@@ -405,7 +403,8 @@ impl ConstantPoolReadWrite for Code {
             macro_rules! wide {
                 ($label: ident, $off: ident => $non_wide: expr, $wide: expr) => {{
                     let $off = resolve_label!($label);
-                    if let Ok($off) = i16::try_from($off) {
+                    if *size_of_jump_insn == 3 {
+                        let $off = $off as i16;
                         $non_wide
                     } else {
                         $wide
-- 
2.43.0


From 47e3d069ae7a4c8cfb4af50d523dffc857ec36cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:25 +0000
Subject: [PATCH 17/41] fix: a far conditional jump is written as a correct
 inverted jump over goto_w

---
 src/code.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/code.rs b/src/code.rs
index 00d444d..b36d64f 100644
--- a/src/code.rs
+++ b/src/code.rs
@@ -471,9 +471,9 @@ impl ConstantPoolReadWrite for Code {
                     }, {
                         // JumpCondition::Always is matched before this
                         u8::write_to(&(-cond).unwrap().into(), writer)?;
-                        write_to!(&5i32, writer)?;
+                        write_to!(&8i16, writer)?; // skips this and the goto_w
                         GOTO_W.write_to(writer)?;
-                        write_to!(&off, writer)?;
+                        write_to!(&(off - 3), writer)?; // relative to the goto_w
                     })
                 }
                 // other variants are not inserted
-- 
2.43.0


From 2d7e05d1e0e31ad2919f5952caa16bd33d004b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:52 +0000
Subject: [PATCH 18/41] fix: code longer than 65535 bytes is rejected, as
 offsets into it do not fit their fields

---
 src/code.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/code.rs b/src/code.rs
index b36d64f..f8ce5be 100644
--- a/src/code.rs
+++ b/src/code.rs
@@ -77,7 +77,11 @@ impl ConstantPoolReadWrite for Code {
         let max_stack = u16::read_from(reader)?;
         let max_locals = u16::read_from(reader)?;
         // Read code to a buffer so we are able to seek.
-        let mut code = vec![0; u32::read_from(reader)? as usize];
+        let code_len = u32::read_from(reader)?;
+        if code_len > u16::MAX.into() {
+            return Err(Error::Invalid("code length", code_len.to_string().into()));
+        }
+        let mut code = vec![0; code_len as usize];
         reader.read_exact(&mut code)?;
         let mut labeler = Labeler {
             inner: cp,
@@ -379,8 +383,11 @@ impl ConstantPoolReadWrite for Code {
             actual_indices.push(last_idx);
         }
         // The index of the second last `buf` element + length of last element.
-        let code_len = (buf_iter.next().unwrap().len() + last_idx) as u32;
-        code_len.write_to(writer)?; // u4 code_length
+        let code_len = buf_iter.next().unwrap().len() + last_idx;
+        if code_len > u16::MAX.into() {
+            return Err(Error::Invalid("code length", code_len.to_string().into()));
+        }
+        (code_len as u32).write_to(writer)?; // u4 code_length
         let mut jumps_iter = jumps.into_iter();
         let mut buf_iter = buf.into_iter();
         writer.write_all(&buf_iter.next().unwrap())?;
-- 
2.43.0


From 97be2c623b2f587454aa56be180a7913f3893539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:53 +0000
Subject: [PATCH 19/41] fix: an empty or overflowing tableswitch range is an
 error, not a panic

---
 src/code.rs | 9 ++++++++-
 src/insn.rs | 9 ++++++---
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/code.rs b/src/code.rs
index f8ce5be..9f71935 100644
--- a/src/code.rs
+++ b/src/code.rs
@@ -447,8 +447,15 @@ impl ConstantPoolReadWrite for Code {
                     let padding = if modulus == 0 { 0 } else { 4 - modulus };
                     writer.write_all(&vec![0; padding])?; // proper 4 byte alignment
                     write_to!(&resolve_label!(default), writer)?;
+                    let high: i32 = (*low as i64 + offsets.len() as i64 - 1)
+                        .try_into()
+                        .ok()
+                        .filter(|high| low <= high)
+                        .ok_or_else(|| {
+                            Error::Invalid("tableswitch range", offsets.len().to_string().into())
+                        })?;
                     write_to!(low, writer)?;
-                    write_to!(&(low + (offsets.len() - 1) as i32), writer)?;
+                    write_to!(&high, writer)?;
                     for l in offsets {
                         write_to!(&resolve_label!(l), writer)?;
                     }
diff --git a/src/insn.rs b/src/insn.rs
index e7b35f3..8b570d1 100644
--- a/src/insn.rs
+++ b/src/insn.rs
@@ -2,7 +2,7 @@
 //!
 //! Used for translating raw code to useful code.
 
-use crate::{helper as h, ReadWrite, Result};
+use crate::{helper as h, Error, ReadWrite, Result};
 
 #[derive(Copy, Clone, Debug, Eq, PartialEq, ReadWrite)]
 pub(crate) struct SwitchEntry(pub i32, pub i32);
@@ -39,8 +39,11 @@ impl ReadWrite for TableSwitch {
     fn read_from<T: std::io::Read>(reader: &mut T) -> Result<Self> {
         let low = i32::read_from(reader)?;
         let high = i32::read_from(reader)?;
-        let len = (high - low + 1) as usize;
-        let mut offsets = Vec::with_capacity(len);
+        if low > high {
+            return Err(Error::Invalid("tableswitch range", high.to_string().into()));
+        }
+        let len = high as i64 - low as i64 + 1;
+        let mut offsets = Vec::new();
         for _ in 0..len {
             offsets.push(i32::read_from(reader)?);
         }
-- 
2.43.0


From fecb04c51c9d1c7642054323202f6447d7372221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:54 +0000
Subject: [PATCH 20/41] fix: a missing label or a reversed range in code
 metadata is an error, not a panic

---
 src/annotation/type_annotation.rs |  4 ++--
 src/code.rs                       | 27 ++++++++++++++++++++++++---
 2 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/annotation/type_annotation.rs b/src/annotation/type_annotation.rs
index 78246ae..0d562f3 100644
--- a/src/annotation/type_annotation.rs
+++ b/src/annotation/type_annotation.rs
@@ -5,7 +5,7 @@ use wtf_8::Wtf8Str;
 
 use super::super::Type;
 use super::AnnotationValue;
-use crate::code::{Catch, Label};
+use crate::code::{range_len, Catch, Label};
 use crate::{helper as h, ConstantPoolReadWrite, ReadWrite};
 
 /// Represents where a type annotation is annotated in a class.
@@ -74,7 +74,7 @@ impl ConstantPoolReadWrite for LocalVarTarget {
         let start = cp.label(&self.start);
         let end = cp.label(&self.end);
         start.write_to(writer)?;
-        (end - start).write_to(writer)?;
+        range_len(start, end)?.write_to(writer)?;
         self.idx.write_to(writer)?;
         Ok(())
     }
diff --git a/src/code.rs b/src/code.rs
index 9f71935..381e21e 100644
--- a/src/code.rs
+++ b/src/code.rs
@@ -23,6 +23,12 @@ use once_cell::sync::OnceCell;
 pub use structure::*;
 use wtf_8::Wtf8Str;
 
+/// The length of the code range from `start` to `end`.
+pub(crate) fn range_len(start: u16, end: u16) -> crate::Result<u16> {
+    end.checked_sub(start)
+        .ok_or_else(|| Error::Invalid("code range", format!("{start}..{end}").into()))
+}
+
 #[derive(Clone, PartialEq, Eq, Debug, Default)]
 pub struct Code {
     pub max_stack: u16,
@@ -501,6 +507,7 @@ impl ConstantPoolReadWrite for Code {
             labels: &'a HashMap<Label, (usize, usize)>,
             writer: &'a mut T,
             catches: &'a Vec<Catch>,
+            missing: Option<Label>,
         }
 
         impl<'a, T: ConstantPoolWriter> ConstantPoolWriter for Labeler<'a, T> {
@@ -515,7 +522,14 @@ impl ConstantPoolReadWrite for Code {
             }
 
             fn label(&mut self, lbl: &Label) -> u16 {
-                let (buf_off, inner_off) = *self.labels.get(lbl).unwrap();
+                let (buf_off, inner_off) = match self.labels.get(lbl) {
+                    Some(pos) => *pos,
+                    None => {
+                        // Reported as an error once everything is written.
+                        self.missing.get_or_insert(*lbl);
+                        return 0;
+                    }
+                };
                 (if buf_off == 0 {
                     0
                 } else {
@@ -537,6 +551,7 @@ impl ConstantPoolReadWrite for Code {
             labels: &labels,
             writer: cp,
             catches: &self.catches,
+            missing: None,
         };
         for Catch {
             start,
@@ -572,7 +587,7 @@ impl ConstantPoolReadWrite for Code {
                     for lc in l {
                         if let Some(ref desc) = lc.descriptor {
                             let start = labeler.label(&lc.start);
-                            let len = labeler.label(&lc.end) - start;
+                            let len = range_len(start, labeler.label(&lc.end))?;
                             var.push(LocalVar {
                                 start,
                                 len,
@@ -583,7 +598,7 @@ impl ConstantPoolReadWrite for Code {
                         }
                         if let Some(ref sig) = lc.signature {
                             let start = labeler.label(&lc.start);
-                            let len = labeler.label(&lc.end) - start;
+                            let len = range_len(start, labeler.label(&lc.end))?;
                             ty.push(LocalVarType {
                                 start,
                                 len,
@@ -614,6 +629,12 @@ impl ConstantPoolReadWrite for Code {
             }
             .write_to(&mut labeler, &mut attributes_writer)?;
         }
+        if let Some(label) = labeler.missing {
+            return Err(Error::Invalid(
+                "referenced label",
+                label.0.to_string().into(),
+            ));
+        }
         (self.attrs.len() as u16 + extra_attrs).write_to(writer)?;
         writer.write_all(&attributes_writer)?;
         Ok(())
-- 
2.43.0


From b3ab7f2bdecae59e08d2c7540d3e02d676831947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:55 +0000
Subject: [PATCH 21/41] fix: an annotation on a catch that is not in the code
 is an error, not malformed output

---
 src/code/structure.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/code/structure.rs b/src/code/structure.rs
index ffe9eea..d00826b 100644
--- a/src/code/structure.rs
+++ b/src/code/structure.rs
@@ -456,8 +456,7 @@ impl ConstantPoolReadWrite for Catch {
     ) -> crate::Result<(), Error> {
         match cp.catch(self) {
             Some(off) => off.write_to(writer),
-            // Ignore here because the block was probably removed.
-            None => Ok(()),
+            None => Err(Error::Invalid("catch", "not a catch of the code".into())),
         }
     }
 }
-- 
2.43.0


From ba23cb3b5d5e0eb27328952bfa6d7e7047ff83f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:31 +0000
Subject: [PATCH 22/41] fix: a local variable range past 65535 is an error, not
 a panic

---
 src/code.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/code.rs b/src/code.rs
index 381e21e..d4cfc8d 100644
--- a/src/code.rs
+++ b/src/code.rs
@@ -173,7 +173,7 @@ impl ConstantPoolReadWrite for Code {
                 CodeAttr::LocalVariableTable(localvar) => {
                     for l in localvar {
                         let start = labeler.get_label(l.start as u32);
-                        let end = labeler.get_label((l.start + l.len) as u32);
+                        let end = labeler.get_label(l.start as u32 + l.len as u32);
 
                         let key = LocalVarKey(start, end, l.index, l.name.clone());
                         match local_vars.entry(key) {
@@ -196,7 +196,7 @@ impl ConstantPoolReadWrite for Code {
                 CodeAttr::LocalVariableTypeTable(vartypes) => {
                     for l in vartypes {
                         let start = labeler.get_label(l.start as u32);
-                        let end = labeler.get_label((l.start + l.len) as u32);
+                        let end = labeler.get_label(l.start as u32 + l.len as u32);
                         let key = LocalVarKey(start, end, l.index, l.name.clone());
                         match local_vars.entry(key) {
                             Entry::Occupied(mut e) => {
-- 
2.43.0


From e98daa098912de2abd598355e5799e8c4eea7625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:32 +0000
Subject: [PATCH 23/41] fix: local variables are read in the order of the class
 file, not of a hash table

---
 src/code.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/code.rs b/src/code.rs
index d4cfc8d..76e4d89 100644
--- a/src/code.rs
+++ b/src/code.rs
@@ -1,7 +1,6 @@
 //! Structures that represent instructions that will be
 //! executed when a method is called.
 
-use std::collections::hash_map::Entry;
 use std::collections::{BTreeMap, HashMap};
 use std::convert::TryFrom;
 use std::hash::Hash;
@@ -19,6 +18,7 @@ mod convert;
 mod structure;
 
 use convert::*;
+use indexmap::map::{Entry, IndexMap};
 use once_cell::sync::OnceCell;
 pub use structure::*;
 use wtf_8::Wtf8Str;
@@ -156,9 +156,9 @@ impl ConstantPoolReadWrite for Code {
 
         // Local variables have two different types of attributes containing
         // information about them. One has descriptor and other has siganture.
-        // A HashMap is used to locate existing local variable data described
-        // by an attribute from before.
-        let mut local_vars: HashMap<LocalVarKey, LocalVar> = HashMap::new();
+        // A map is used to locate existing local variable data described
+        // by an attribute from before, keeping the order of the attributes.
+        let mut local_vars: IndexMap<LocalVarKey, LocalVar> = IndexMap::new();
 
         #[derive(Hash, Eq, PartialEq)]
         struct LocalVarKey(Lbl, Lbl, u16, Cow<'static, Wtf8Str>);
-- 
2.43.0


From f2a2ecb98d26d0b5a801704239c2707a595ab07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:33 +0000
Subject: [PATCH 24/41] fix: line numbers at one position are all kept, and a
 bad position is an error

---
 src/code.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/code.rs b/src/code.rs
index 76e4d89..fd843eb 100644
--- a/src/code.rs
+++ b/src/code.rs
@@ -167,7 +167,10 @@ impl ConstantPoolReadWrite for Code {
             match CodeAttr::read_from(&mut labeler, reader)? {
                 CodeAttr::LineNumberTable(ln) => {
                     for self::LineNumber(off, line) in ln {
-                        to_insert.insert(pos2idx[&(off as u32)], vec![LineNumber(line)]);
+                        let idx = pos2idx
+                            .get(&(off as u32))
+                            .ok_or_else(|| Error::Invalid("index", format!("{off}").into()))?;
+                        to_insert.entry(*idx).or_default().push(LineNumber(line));
                     }
                 }
                 CodeAttr::LocalVariableTable(localvar) => {
@@ -244,7 +247,7 @@ impl ConstantPoolReadWrite for Code {
                 .push(Label(v));
         }
         for (k, v) in to_insert.into_iter().rev() {
-            for i in v {
+            for i in v.into_iter().rev() {
                 instructions.insert(k, i)
             }
         }
-- 
2.43.0


From 7564554184f024e9f7a6d81b975c2716fc64f3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:34 +0000
Subject: [PATCH 25/41] fix: line numbers in code are written

---
 src/code.rs         | 16 +++++++++++++++-
 src/code/convert.rs |  4 ++--
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/code.rs b/src/code.rs
index fd843eb..07664d6 100644
--- a/src/code.rs
+++ b/src/code.rs
@@ -272,7 +272,7 @@ impl ConstantPoolReadWrite for Code {
         let mut buf: Vec<Vec<u8>> = Vec::new();
         let mut jumps: Vec<&Instruction> = Vec::new();
         let mut cursor: Cursor<Vec<u8>> = Cursor::new(Vec::new());
-        let mut line_numbers: HashMap<usize, u16> = HashMap::new();
+        let mut line_numbers: Vec<((usize, usize), u16)> = Vec::new();
         let mut labels: HashMap<Label, (usize, usize)> = HashMap::new();
         macro_rules! get_label {
             ($label: expr) => {
@@ -632,6 +632,20 @@ impl ConstantPoolReadWrite for Code {
             }
             .write_to(&mut labeler, &mut attributes_writer)?;
         }
+        if !line_numbers.is_empty() {
+            extra_attrs += 1;
+            let table = line_numbers
+                .into_iter()
+                .map(|((buf_off, inner_off), line)| {
+                    let start = match buf_off {
+                        0 => 0,
+                        n => actual_indices[n - 1],
+                    };
+                    LineNumber((start + inner_off) as u16, line)
+                })
+                .collect();
+            CodeAttr::LineNumberTable(table).write_to(&mut labeler, &mut attributes_writer)?;
+        }
         if let Some(label) = labeler.missing {
             return Err(Error::Invalid(
                 "referenced label",
diff --git a/src/code/convert.rs b/src/code/convert.rs
index 5bbfd71..9417bf1 100644
--- a/src/code/convert.rs
+++ b/src/code/convert.rs
@@ -428,7 +428,7 @@ impl Conv {
         jumps: &mut Vec<&'a Instruction>,
         buf: &mut Vec<Vec<u8>>,
         labels: &mut HashMap<Lbl, (usize, usize)>,
-        line_numbers: &mut HashMap<usize, u16>,
+        line_numbers: &mut Vec<((usize, usize), u16)>,
         insn: &'a Instruction,
         cp: &mut W,
     ) -> Result<Cursor<Vec<u8>>> {
@@ -845,7 +845,7 @@ impl Conv {
             Instruction::Swap => SWAP.write_to(&mut cursor)?,
             Instruction::IntIncrement(l, inc) => wide_or_normal!(IINC, l => u8, inc => i8),
             Instruction::LineNumber(ln) => {
-                line_numbers.insert(cursor.position() as usize, ln);
+                line_numbers.push(((buf.len(), cursor.position() as usize), ln));
             }
             Instruction::LookupSwitch { .. }
             | Instruction::TableSwitch { .. }
-- 
2.43.0


From 4f4e3779bb3be0765be62fcac79b8e947add54d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:35 +0000
Subject: [PATCH 26/41] fix: loading a dynamically computed constant can be
 read

---
 src/code/convert.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/code/convert.rs b/src/code/convert.rs
index 9417bf1..cdab7b8 100644
--- a/src/code/convert.rs
+++ b/src/code/convert.rs
@@ -87,8 +87,14 @@ impl Conv {
             I::Bipush(b) => push(Constant::I32(b as i32)),
             I::Sipush(s) => push(Constant::I32(s as i32)),
 
-            I::Ldc(b) => push(try_cp_read_idx!(labeler, b as u16, read_constant)?),
-            I::LdcW(i) | I::Ldc2W(i) => push(try_cp_read_idx!(labeler, i, read_constant)?),
+            I::Ldc(b) => push(try_cp_read!(
+                b,
+                labeler.read_or_dynamic(b as u16, ConstantPoolReader::read_constant)
+            )?),
+            I::LdcW(i) | I::Ldc2W(i) => push(try_cp_read!(
+                i,
+                labeler.read_or_dynamic(i, ConstantPoolReader::read_constant)
+            )?),
 
             I::IALoad => Array(Load, ArrayType::Int),
             I::LALoad => Array(Load, ArrayType::Long),
-- 
2.43.0


From c81eca5451410568774311d02271317c7813d97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:03 +0000
Subject: [PATCH 27/41] fix: a reference to a bootstrap method is an error when
 the class has none

---
 src/clazz.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/clazz.rs b/src/clazz.rs
index 9cc40a1..740dfc4 100644
--- a/src/clazz.rs
+++ b/src/clazz.rs
@@ -47,12 +47,11 @@ impl ReadWrite for Class {
                 let version = JavaVersion::read_from(reader)?;
                 let mut cp = MapCp::read_from(reader)?;
                 let c = ClassWrapper::read_from(&mut cp, reader)?;
-                for attr in &c.attributes {
-                    if let ClassAttribute::BootstrapMethods(b) = attr {
-                        cp.bootstrap_methods(b)?;
-                        break;
-                    }
-                }
+                let bsms = c.attributes.iter().find_map(|attr| match attr {
+                    ClassAttribute::BootstrapMethods(b) => Some(b.as_slice()),
+                    _ => None,
+                });
+                cp.bootstrap_methods(bsms.unwrap_or(&[]))?;
                 Ok(Class {
                     version,
                     access: c.access,
-- 
2.43.0


From 01da1e29c6f1788ee85df71a713b076173e4cb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:04 +0000
Subject: [PATCH 28/41] fix: bootstrap methods needed by arguments of bootstrap
 methods get the index they are written at

---
 src/clazz.rs | 13 ++++++-------
 src/cp.rs    | 11 ++++++++---
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/clazz.rs b/src/clazz.rs
index 740dfc4..3877ddf 100644
--- a/src/clazz.rs
+++ b/src/clazz.rs
@@ -109,13 +109,12 @@ impl ReadWrite for Class {
         if !cp.bsm.is_empty() {
             let mut i: u16 = 0;
             let mut buf2 = vec![];
-            while !cp.bsm.is_empty() {
-                let v = cp.bsm;
-                cp.bsm = vec![];
-                i += v.len() as u16;
-                for bsm in v {
-                    bsm.write_to(&mut cp, &mut buf2)?;
-                }
+            // Writing a bootstrap method may add the ones its arguments need.
+            while let Some(bsm) = cp.bsm.get(usize::from(i)).cloned() {
+                bsm.write_to(&mut cp, &mut buf2)?;
+                i = i.checked_add(1).ok_or_else(|| {
+                    Error::Invalid("number of bootstrap methods", "more than 65535".into())
+                })?;
             }
             write_to!(
                 &Cow::Borrowed(Wtf8Str::new("BootstrapMethods")),
diff --git a/src/cp.rs b/src/cp.rs
index fe44d63..5502c8f 100644
--- a/src/cp.rs
+++ b/src/cp.rs
@@ -229,8 +229,13 @@ impl ConstantPoolWriter for VecCp {
     }
 
     fn insert_bsm(&mut self, bsm: BootstrapMethod) -> u16 {
-        let ret = self.bsm.len() as u16;
-        self.bsm.push(bsm);
-        ret
+        let ret = match self.bsm.iter().position(|b| *b == bsm) {
+            Some(idx) => idx,
+            None => {
+                self.bsm.push(bsm);
+                self.bsm.len() - 1
+            }
+        };
+        ret as u16
     }
 }
-- 
2.43.0


From c0bd8950727bc129065e93bc9595a408d4c0e50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:05 +0000
Subject: [PATCH 29/41] fix: the attribute count of a class counts the
 bootstrap methods attribute exactly when it is written

---
 src/clazz.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/clazz.rs b/src/clazz.rs
index 3877ddf..be6670c 100644
--- a/src/clazz.rs
+++ b/src/clazz.rs
@@ -99,13 +99,23 @@ impl ReadWrite for Class {
         for m in &self.methods {
             m.write_to(&mut cp, &mut buf)?;
         }
-        (self.attributes.len() as u16).write_to(&mut buf)?;
+        // All bootstrap methods are written as one attribute.
+        let mut attributes: u16 = 0;
+        let mut attrs_buf = vec![];
         for a in &self.attributes {
             match a {
                 ClassAttribute::BootstrapMethods(_) => {}
-                _ => a.write_to(&mut cp, &mut buf)?,
+                _ => {
+                    a.write_to(&mut cp, &mut attrs_buf)?;
+                    attributes += 1;
+                }
             }
         }
+        if !cp.bsm.is_empty() {
+            attributes += 1;
+        }
+        attributes.write_to(&mut buf)?;
+        buf.write_all(&attrs_buf)?;
         if !cp.bsm.is_empty() {
             let mut i: u16 = 0;
             let mut buf2 = vec![];
-- 
2.43.0


From 0e22c9d2b67ee49e4dcec83def6192100266c089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:35 +0000
Subject: [PATCH 30/41] fix: counts that do not fit in 16 bits are errors
 instead of being truncated

---
 src/annotation/mod.rs |  5 ++---
 src/clazz.rs          | 10 +++++-----
 src/code.rs           |  8 ++++----
 src/dynamic.rs        |  2 +-
 src/helper.rs         |  7 +++++++
 5 files changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/annotation/mod.rs b/src/annotation/mod.rs
index 51a4959..0ec076a 100644
--- a/src/annotation/mod.rs
+++ b/src/annotation/mod.rs
@@ -200,7 +200,7 @@ impl ConstantPoolReadWrite for AnnotationValue {
             }
             AnnotationValue::Array(v) => {
                 b'['.write_to(writer)?;
-                (v.len() as u16).write_to(writer)?;
+                h::write_count(v.len(), writer)?;
                 for e in v {
                     e.write_to(cp, writer)?;
                 }
@@ -239,8 +239,7 @@ impl ConstantPoolReadWrite for HashMap<Cow<'static, Wtf8Str>, AnnotationValue> {
         cp: &mut C,
         writer: &mut W,
     ) -> Result<(), Error> {
-        let size = self.len() as u16;
-        size.write_to(writer)?;
+        h::write_count(self.len(), writer)?;
         for (k, e) in self {
             write_to!(k, cp, writer)?;
             e.write_to(cp, writer)?;
diff --git a/src/clazz.rs b/src/clazz.rs
index be6670c..bbe8ca1 100644
--- a/src/clazz.rs
+++ b/src/clazz.rs
@@ -87,20 +87,20 @@ impl ReadWrite for Class {
             .as_ref()
             .map_or(0, |n| cp.insert_class(n.clone()))
             .write_to(&mut buf)?;
-        (self.interfaces.len() as u16).write_to(&mut buf)?;
+        h::write_count(self.interfaces.len(), &mut buf)?;
         for i in &self.interfaces {
             cp.insert_class(i.clone()).write_to(&mut buf)?;
         }
-        (self.fields.len() as u16).write_to(&mut buf)?;
+        h::write_count(self.fields.len(), &mut buf)?;
         for f in &self.fields {
             f.write_to(&mut cp, &mut buf)?;
         }
-        (self.methods.len() as u16).write_to(&mut buf)?;
+        h::write_count(self.methods.len(), &mut buf)?;
         for m in &self.methods {
             m.write_to(&mut cp, &mut buf)?;
         }
         // All bootstrap methods are written as one attribute.
-        let mut attributes: u16 = 0;
+        let mut attributes = 0;
         let mut attrs_buf = vec![];
         for a in &self.attributes {
             match a {
@@ -114,7 +114,7 @@ impl ReadWrite for Class {
         if !cp.bsm.is_empty() {
             attributes += 1;
         }
-        attributes.write_to(&mut buf)?;
+        h::write_count(attributes, &mut buf)?;
         buf.write_all(&attrs_buf)?;
         if !cp.bsm.is_empty() {
             let mut i: u16 = 0;
diff --git a/src/code.rs b/src/code.rs
index 07664d6..73a1faf 100644
--- a/src/code.rs
+++ b/src/code.rs
@@ -548,7 +548,7 @@ impl ConstantPoolReadWrite for Code {
             }
         }
 
-        (self.catches.len() as u16).write_to(writer)?;
+        h::write_count(self.catches.len(), writer)?;
         let mut labeler = Labeler {
             indices: &actual_indices,
             labels: &labels,
@@ -652,7 +652,7 @@ impl ConstantPoolReadWrite for Code {
                 label.0.to_string().into(),
             ));
         }
-        (self.attrs.len() as u16 + extra_attrs).write_to(writer)?;
+        h::write_count(self.attrs.len() + extra_attrs, writer)?;
         writer.write_all(&attributes_writer)?;
         Ok(())
     }
@@ -782,11 +782,11 @@ impl ConstantPoolReadWrite for RawFrame {
             RawFrame::Full(off, locals, stack) => {
                 255u8.write_to(writer)?;
                 off.write_to(writer)?;
-                (locals.len() as u16).write_to(writer)?;
+                h::write_count(locals.len(), writer)?;
                 for local in locals {
                     local.write_to(cp, writer)?;
                 }
-                (stack.len() as u16).write_to(writer)?;
+                h::write_count(stack.len(), writer)?;
                 for s in stack {
                     s.write_to(cp, writer)?;
                 }
diff --git a/src/dynamic.rs b/src/dynamic.rs
index 3a64676..7cf807b 100644
--- a/src/dynamic.rs
+++ b/src/dynamic.rs
@@ -37,7 +37,7 @@ impl ConstantPoolReadWrite for BootstrapMethod {
     ) -> Result<(), Error> {
         cp.insert_method_handle(self.handle.clone())
             .write_to(writer)?;
-        (self.arguments.len() as u16).write_to(writer)?;
+        h::write_count(self.arguments.len(), writer)?;
         for arg in self.arguments.iter().cloned() {
             cp.insert_ordynamic(arg, ConstantPoolWriter::insert_constant)
                 .write_to(writer)?;
diff --git a/src/helper.rs b/src/helper.rs
index 67a7814..909a459 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -24,6 +24,13 @@ pub trait ReadWriteAs<T> {
     fn write_to<W: Write>(x: &T, writer: &mut W) -> crate::Result<()>;
 }
 
+/// Writes a number of elements, which must fit in 16 bits.
+pub(crate) fn write_count<W: Write>(count: usize, writer: &mut W) -> crate::Result<()> {
+    u16::try_from(count)
+        .map_err(|_| Error::Invalid("number of elements", count.to_string().into()))?
+        .write_to(writer)
+}
+
 pub struct Normal;
 
 impl<T: ReadWrite> ConstantPoolReadWriteAs<T> for Normal {
-- 
2.43.0


From bdb2de44c6938e953302e9bba10dd2dae3c7f7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:00 +0000
Subject: [PATCH 31/41] fix: the stated length of an attribute is not allocated
 before its bytes are read

---
 coffer_macros/src/derive.rs | 6 ++----
 src/helper.rs               | 9 +++++++++
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/coffer_macros/src/derive.rs b/coffer_macros/src/derive.rs
index 9854e6f..f3c4c3a 100644
--- a/coffer_macros/src/derive.rs
+++ b/coffer_macros/src/derive.rs
@@ -231,8 +231,7 @@ pub(crate) fn attr_enum(s: synstructure::Structure) -> Result<TokenStream2> {
             }, quote! {
                 #ident => {
                     let len = u32::read_from(#reader)?;
-                    let mut vec = vec![0; len as usize];
-                    #reader.read_exact(&mut vec)?;
+                    let vec = crate::helper::read_bytes(len, #reader)?;
                     let mut __inner_reader: &[u8] = vec.as_ref();
                     let #inner_reader = &mut __inner_reader;
                     let ret = #construct;
@@ -255,8 +254,7 @@ pub(crate) fn attr_enum(s: synstructure::Structure) -> Result<TokenStream2> {
                         #read_match
                         _ => {
                             let byte_size = u32::read_from(#reader)?;
-                            let mut bytes = vec![0; byte_size as usize];
-                            #reader.read_exact(&mut bytes)?;
+                            let bytes = crate::helper::read_bytes(byte_size, #reader)?;
                             let raw_attr = crate::prelude::RawAttribute::__new(attribute_name, bytes);
                             Ok(Self::#raw_variant_name(raw_attr))
                         }
diff --git a/src/helper.rs b/src/helper.rs
index 909a459..374e311 100644
--- a/src/helper.rs
+++ b/src/helper.rs
@@ -31,6 +31,15 @@ pub(crate) fn write_count<W: Write>(count: usize, writer: &mut W) -> crate::Resu
         .write_to(writer)
 }
 
+/// Reads exactly `len` bytes, without trusting `len` before the bytes are there.
+pub(crate) fn read_bytes<R: Read>(len: u32, reader: &mut R) -> crate::Result<Vec<u8>> {
+    let mut vec = vec![];
+    if reader.take(len.into()).read_to_end(&mut vec)? < len as usize {
+        return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+    }
+    Ok(vec)
+}
+
 pub struct Normal;
 
 impl<T: ReadWrite> ConstantPoolReadWriteAs<T> for Normal {
-- 
2.43.0


From f77e8e108a327f6def4ef5f58ba91a54d5a53dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:00 +0000
Subject: [PATCH 32/41] fix: a wide last entry of a full constant pool does not
 overflow the index

---
 src/cp.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cp.rs b/src/cp.rs
index 5502c8f..d46f627 100644
--- a/src/cp.rs
+++ b/src/cp.rs
@@ -157,11 +157,11 @@ impl ReadWrite for MapCp {
     fn read_from<T: Read>(reader: &mut T) -> Result<Self> {
         let mut cp = MapCp::new();
         let count = u16::read_from(reader)?;
-        let mut i = 1;
+        let mut i: u16 = 1;
         while i < count {
             let entry = RawConstantEntry::read_from(reader)?;
             let idx = i;
-            i += entry.size();
+            i = i.saturating_add(entry.size());
             cp.entries.insert(idx, entry);
         }
         Ok(cp)
-- 
2.43.0


From 450b53c48bde0bb8783c4ef20f290cc80bdce838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:01 +0000
Subject: [PATCH 33/41] fix: writing a constant pool that is too large is an
 error, not an overflow

---
 src/cp.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/cp.rs b/src/cp.rs
index d46f627..10e703f 100644
--- a/src/cp.rs
+++ b/src/cp.rs
@@ -114,6 +114,8 @@ pub struct VecCp {
     cache: HashMap<RawConstantEntry, u16>,
     /// Not actual len. (if e.wide 2 else 1 for e in entries) + 1 in pseudocode
     len: u16,
+    /// Set when an entry did not fit. The indices handed out since then are meaningless.
+    full: bool,
     pub(crate) bsm: Vec<BootstrapMethod>,
 }
 impl VecCp {
@@ -124,6 +126,7 @@ impl VecCp {
             entries: vec![],
             cache: HashMap::new(),
             len: 1,
+            full: false,
             bsm: vec![],
         }
     }
@@ -206,6 +209,12 @@ impl ReadWrite for VecCp {
     }
 
     fn write_to<T: Write>(&self, writer: &mut T) -> Result<()> {
+        if self.full {
+            return Err(Error::Invalid(
+                "constant pool",
+                "more than 65534 entries".into(),
+            ));
+        }
         self.len.write_to(writer)?;
         for e in &self.entries {
             e.write_to(writer)?;
@@ -220,7 +229,13 @@ impl ConstantPoolWriter for VecCp {
             Entry::Occupied(e) => *e.get(),
             Entry::Vacant(e) => {
                 let idx = self.len;
-                self.len += value.size();
+                match idx.checked_add(value.size()) {
+                    Some(len) => self.len = len,
+                    None => {
+                        self.full = true;
+                        return 0;
+                    }
+                }
                 e.insert(idx);
                 self.entries.push(value);
                 idx
-- 
2.43.0


From c3565bb16649ddd8f64a516226f9ad8ceaea4caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:40 +0000
Subject: [PATCH 34/41] fix: a borrowed string entry is written with its tag
 and length

---
 src/cp.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cp.rs b/src/cp.rs
index 10e703f..6d98fa1 100644
--- a/src/cp.rs
+++ b/src/cp.rs
@@ -11,7 +11,7 @@ use wtf_8::Wtf8Str;
 
 use crate::prelude::{BootstrapMethod, Read, Result, Write};
 use crate::total_floats::{TotalF32, TotalF64};
-use crate::{mod_utf8, ConstantPoolReader, ConstantPoolWriter, Error, ReadWrite};
+use crate::{ConstantPoolReader, ConstantPoolWriter, Error, ReadWrite};
 
 #[derive(Clone, Debug, Copy)]
 pub struct StrRef<'a>(pub &'a Wtf8Str);
@@ -25,14 +25,14 @@ impl<'a> ReadWrite for StrRef<'a> {
     }
 
     fn write_to<T: Write>(&self, writer: &mut T) -> Result<()> {
-        writer.write_all(&mod_utf8::string_to_modified_utf8(self.0))?;
-        Ok(())
+        self.0.to_owned().write_to(writer)
     }
 }
 
 #[derive(ReadWrite, Debug, Clone, Copy)]
 #[coffer(tag_type(u8))]
 pub enum ConstEntryRef<'a> {
+    #[coffer(tag = 1)]
     UTF8(StrRef<'a>),
     #[coffer(tag = 3)]
     Int(i32),
-- 
2.43.0


From f6453eac34fee487fb2ecb42ee3e38cc06d1f08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:41 +0000
Subject: [PATCH 35/41] fix: a bootstrap method that needs its own result is an
 error instead of an endless structure

---
 src/cp.rs | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/cp.rs b/src/cp.rs
index 6d98fa1..f413b9e 100644
--- a/src/cp.rs
+++ b/src/cp.rs
@@ -2,14 +2,14 @@
 
 use std::borrow::Cow;
 use std::collections::hash_map::Entry;
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::hash::Hash;
 use std::sync::Arc;
 
 use once_cell::sync::OnceCell;
 use wtf_8::Wtf8Str;
 
-use crate::prelude::{BootstrapMethod, Read, Result, Write};
+use crate::prelude::{BootstrapMethod, OrDynamic, Read, Result, Write};
 use crate::total_floats::{TotalF32, TotalF64};
 use crate::{ConstantPoolReader, ConstantPoolWriter, Error, ReadWrite};
 
@@ -185,6 +185,34 @@ impl ConstantPoolReader for MapCp {
     }
 
     fn bootstrap_methods(&mut self, bsms: &[BootstrapMethod]) -> Result<()> {
+        // A bootstrap method that needs its own result must not become part of itself.
+        let mut owners = HashMap::new();
+        for (i, cells) in &self.refs {
+            owners.extend(cells.iter().map(|c| (Arc::as_ptr(c), usize::from(*i))));
+        }
+        let mut pending: Vec<(usize, Vec<usize>)> = vec![];
+        for (i, b) in bsms.iter().enumerate() {
+            let needs: Vec<usize> = (b.arguments.iter())
+                .filter_map(|a| match a {
+                    OrDynamic::Dynamic(d) => owners.get(&Arc::as_ptr(&d.bsm)).copied(),
+                    OrDynamic::Static(_) => None,
+                })
+                .collect();
+            if !needs.is_empty() {
+                pending.push((i, needs));
+            }
+        }
+        while !pending.is_empty() {
+            let unresolved: HashSet<usize> = pending.iter().map(|(i, _)| *i).collect();
+            let before = pending.len();
+            pending.retain(|(_, needs)| needs.iter().any(|n| unresolved.contains(n)));
+            if pending.len() == before {
+                return Err(Error::Invalid(
+                    "bootstrap method",
+                    "needs its own result".into(),
+                ));
+            }
+        }
         for (i, b) in bsms.iter().enumerate() {
             if let Entry::Occupied(bsm) = self.refs.entry(i as _) {
                 for reg in bsm.remove() {
-- 
2.43.0


From 6acd3b89db41c783419cf3cc50d17a51a51c75f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:29 +0000
Subject: [PATCH 36/41] fix: tags of double and long verification types were
 swapped

---
 src/code.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/code.rs b/src/code.rs
index 73a1faf..6cbf533 100644
--- a/src/code.rs
+++ b/src/code.rs
@@ -664,8 +664,8 @@ pub enum VerificationType {
     Top,
     Int,
     Float,
-    Long,
     Double,
+    Long,
     Null,
     UninitializedThis,
     Object(#[coffer(as = "h::Class")] Cow<'static, Wtf8Str>),
-- 
2.43.0


From 03f71e19e7e21a9fc7e535371dd9462950a18b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:41 +0000
Subject: [PATCH 37/41] fix: do not reserve memory for elements that the input
 only announces

---
 src/annotation/mod.rs | 4 ++--
 src/code.rs           | 8 ++++----
 src/dynamic.rs        | 2 +-
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/annotation/mod.rs b/src/annotation/mod.rs
index 0ec076a..efa617a 100644
--- a/src/annotation/mod.rs
+++ b/src/annotation/mod.rs
@@ -123,7 +123,7 @@ impl ConstantPoolReadWrite for AnnotationValue {
             '@' => AnnotationValue::Annotation(Annotation::read_from(cp, reader)?),
             '[' => {
                 let num = u16::read_from(reader)?;
-                let mut values = Vec::with_capacity(num as usize);
+                let mut values = vec![];
                 for _ in 0..num {
                     values.push(AnnotationValue::read_from(cp, reader)?)
                 }
@@ -225,7 +225,7 @@ impl ConstantPoolReadWrite for HashMap<Cow<'static, Wtf8Str>, AnnotationValue> {
         reader: &mut R,
     ) -> Result<Self, Error> {
         let pairs = u16::read_from(reader)?;
-        let mut element_values = HashMap::with_capacity(pairs as usize);
+        let mut element_values = HashMap::new();
         for _ in 0..pairs {
             let name = read_from!(cp, reader)?;
             let value = AnnotationValue::read_from(cp, reader)?;
diff --git a/src/code.rs b/src/code.rs
index 6cbf533..54d9573 100644
--- a/src/code.rs
+++ b/src/code.rs
@@ -124,7 +124,7 @@ impl ConstantPoolReadWrite for Code {
 
         // Read try-catch blocks.
         let exceptions = u16::read_from(reader)?;
-        let mut catches = Vec::with_capacity(exceptions as usize);
+        let mut catches = vec![];
         for _ in 0..exceptions {
             let start = read_from!(&mut labeler, reader)?;
             let end = read_from!(&mut labeler, reader)?;
@@ -148,7 +148,7 @@ impl ConstantPoolReadWrite for Code {
 
         // Read Attributes
         let numattrs = u16::read_from(reader)?;
-        let mut attrs = Vec::with_capacity(numattrs as usize);
+        let mut attrs = vec![];
 
         // Some attributes are instructions that will be inserted to the vector.
         // It should be sorted to avoid ending in the wrong positions.
@@ -726,7 +726,7 @@ impl ConstantPoolReadWrite for RawFrame {
                 u16::read_from(reader)?,
                 {
                     let locals = u16::read_from(reader)?;
-                    let mut local = Vec::with_capacity(locals as usize);
+                    let mut local = vec![];
                     for _ in 0..locals {
                         local.push(VerificationType::read_from(cp, reader)?);
                     }
@@ -734,7 +734,7 @@ impl ConstantPoolReadWrite for RawFrame {
                 },
                 {
                     let stacks = u16::read_from(reader)?;
-                    let mut stack = Vec::with_capacity(stacks as usize);
+                    let mut stack = vec![];
                     for _ in 0..stacks {
                         stack.push(VerificationType::read_from(cp, reader)?);
                     }
diff --git a/src/dynamic.rs b/src/dynamic.rs
index 7cf807b..eb1c274 100644
--- a/src/dynamic.rs
+++ b/src/dynamic.rs
@@ -19,7 +19,7 @@ impl ConstantPoolReadWrite for BootstrapMethod {
     ) -> Result<Self, Error> {
         let handle = try_cp_read!(cp, reader, read_method_handle)?;
         let num_arguments = u16::read_from(reader)?;
-        let mut arguments = Vec::with_capacity(num_arguments.into());
+        let mut arguments = vec![];
         for _ in 0..num_arguments {
             let idx = u16::read_from(reader)?;
             arguments.push(try_cp_read!(
-- 
2.43.0


From 1f2b838bf75ab7e634976261aba492a4415e5015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:08 +0000
Subject: [PATCH 38/41] fix: multianewarray with dimensions that its class does
 not have is an error

---
 src/code/convert.rs | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/code/convert.rs b/src/code/convert.rs
index cdab7b8..8c5aca5 100644
--- a/src/code/convert.rs
+++ b/src/code/convert.rs
@@ -372,18 +372,23 @@ impl Conv {
             I::NewArray(n) => return Err(Error::Invalid("NewArray type", n.to_string().into())),
 
             I::ANewArray(r) => NewArray(class_type!(r), 1),
-            // One dimension of an array: what the other instructions create from the element type.
-            I::MultiANewArray(r, 1) => NewArray(
-                match class_type!(r) {
-                    OrDynamic::Static(Type::ArrayRef(1, ty)) => OrDynamic::Static(*ty),
-                    OrDynamic::Static(Type::ArrayRef(dim, ty)) => {
-                        OrDynamic::Static(Type::ArrayRef(dim - 1, ty))
-                    }
-                    ty => ty,
-                },
-                1,
-            ),
-            I::MultiANewArray(r, dim) => NewArray(class_type!(r), dim),
+            I::MultiANewArray(r, dim) => match (class_type!(r), dim) {
+                // One dimension of an array: what the other instructions create from the element type.
+                (OrDynamic::Static(Type::ArrayRef(1, ty)), 1) => NewArray(OrDynamic::Static(*ty), 1),
+                (OrDynamic::Static(Type::ArrayRef(dims, ty)), 1) => {
+                    NewArray(OrDynamic::Static(Type::ArrayRef(dims - 1, ty)), 1)
+                }
+                (OrDynamic::Static(Type::ArrayRef(dims, ty)), 2..=255) if dim <= dims => {
+                    NewArray(OrDynamic::Static(Type::ArrayRef(dims, ty)), dim)
+                }
+                (ty @ OrDynamic::Dynamic(_), 1..=255) => NewArray(ty, dim),
+                _ => {
+                    return Err(Error::Invalid(
+                        "MultiANewArray dimensions",
+                        dim.to_string().into(),
+                    ))
+                }
+            },
             I::CheckCast(r) => CheckCast(
                 try_cp_read!(
                     r,
-- 
2.43.0


From 6da5ee1265f48fd905d6f490c89c69d4eb230c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:47 +0000
Subject: [PATCH 39/41] fix: a member or dynamic constant whose descriptor is
 of the wrong kind is an error instead of becoming another kind of constant

---
 src/rw.rs | 42 ++++++++++++++++++++++--------------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/src/rw.rs b/src/rw.rs
index b22a4c3..10cd16a 100644
--- a/src/rw.rs
+++ b/src/rw.rs
@@ -278,6 +278,9 @@ pub trait ConstantPoolReader {
             Some(RawConstantEntry::InvokeDynamic(s, a)) => {
                 let cell = Arc::new(OnceCell::default());
                 let (name, descriptor) = self.read_nameandtype(a)?;
+                if !descriptor.is_method() {
+                    return None;
+                }
                 self.resolve_later(s, cell.clone());
                 Some(Dynamic {
                     bsm: cell,
@@ -293,6 +296,9 @@ pub trait ConstantPoolReader {
             Some(RawConstantEntry::Dynamic(s, a)) => {
                 let cell = Arc::new(OnceCell::default());
                 let (name, descriptor) = self.read_nameandtype(a)?;
+                if descriptor.is_method() {
+                    return None;
+                }
                 self.resolve_later(s, cell.clone());
                 Some(Dynamic {
                     bsm: cell,
@@ -317,27 +323,23 @@ pub trait ConstantPoolReader {
         }
     }
     fn read_member(&mut self, idx: u16) -> Option<MemberRef> {
-        match self.read_raw(idx) {
-            Some(RawConstantEntry::Method(o, nt)) | Some(RawConstantEntry::Field(o, nt)) => self
-                .read_indirect_str(7, o)
-                .and_then(|o| self.read_nameandtype(nt).map(|(n, t)| (o, n, t)))
-                .map(|(o, n, t)| MemberRef {
-                    owner: o,
-                    name: n,
-                    descriptor: t,
-                    itfs: false,
-                }),
-            Some(RawConstantEntry::InterfaceMethod(o, nt)) => self
-                .read_indirect_str(7, o)
-                .and_then(|o| self.read_nameandtype(nt).map(|(n, t)| (o, n, t)))
-                .map(|(o, n, t)| MemberRef {
-                    owner: o,
-                    name: n,
-                    descriptor: t,
-                    itfs: true,
-                }),
-            _ => None,
+        let (o, nt, method, itfs) = match self.read_raw(idx)? {
+            RawConstantEntry::Field(o, nt) => (o, nt, false, false),
+            RawConstantEntry::Method(o, nt) => (o, nt, true, false),
+            RawConstantEntry::InterfaceMethod(o, nt) => (o, nt, true, true),
+            _ => return None,
+        };
+        let owner = self.read_indirect_str(7, o)?;
+        let (name, descriptor) = self.read_nameandtype(nt)?;
+        if descriptor.is_method() != method {
+            return None;
         }
+        Some(MemberRef {
+            owner,
+            name,
+            descriptor,
+            itfs,
+        })
     }
 
     /// Registers a bootstrap method to be resolved.
-- 
2.43.0


From 099c654223f1ecf3ca63ba2bbcea0d27a4489cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:55 +0000
Subject: [PATCH 40/41] fix: a signature with an unpaired surrogate is an error
 instead of being changed

---
 src/signature.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/signature.rs b/src/signature.rs
index 5742be8..6b73093 100644
--- a/src/signature.rs
+++ b/src/signature.rs
@@ -493,7 +493,8 @@ macro_rules! cprw_impls {
             impl ConstantPoolReadWrite for $ty {
                 fn read_from<C: crate::ConstantPoolReader, R: std::io::Read>(cp: &mut C, reader: &mut R) -> crate::Result<Self> {
                     let s = Cow::<'static, wtf_8::Wtf8Str>::read_from(cp, reader)?;
-                    FromStr::from_str(&s.to_string_lossy())
+                    let s = s.as_str().ok_or_else(|| invalid("signature", s.to_string_lossy()))?;
+                    FromStr::from_str(s)
                 }
 
                 fn write_to<C: crate::ConstantPoolWriter, W: std::io::Write>(&self, cp: &mut C, writer: &mut W) -> crate::Result<()> {
-- 
2.43.0


From 095f88d307d498b9098a3e0407102e181116baa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:18 +0000
Subject: [PATCH 41/41] fix: a local variable without any type is an error
 instead of being left out

---
 src/code.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/code.rs b/src/code.rs
index 54d9573..e241c32 100644
--- a/src/code.rs
+++ b/src/code.rs
@@ -588,6 +588,12 @@ impl ConstantPoolReadWrite for Code {
                     let mut ty: Vec<LocalVarType> = vec![];
                     let mut var: Vec<LocalVar> = vec![];
                     for lc in l {
+                        if lc.descriptor.is_none() && lc.signature.is_none() {
+                            return Err(Error::Invalid(
+                                "local variables",
+                                "no localvariable type or descriptor present".into(),
+                            ));
+                        }
                         if let Some(ref desc) = lc.descriptor {
                             let start = labeler.label(&lc.start);
                             let len = range_len(start, labeler.label(&lc.end))?;
-- 
2.43.0

