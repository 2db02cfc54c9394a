From 7755eec7d54500b864839dff880605cff96fc254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:58 +0000
Subject: [PATCH 01/21] fix: verify the origin of standard authorizations in
 Auth::verify

---
 stacks/src/transaction/auth.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/stacks/src/transaction/auth.rs b/stacks/src/transaction/auth.rs
index c1042fd..ca9d79d 100644
--- a/stacks/src/transaction/auth.rs
+++ b/stacks/src/transaction/auth.rs
@@ -89,8 +89,9 @@ impl Auth {
     where
         T: Into<SignatureHash>,
     {
-        if let Self::Sponsored(origin, sponsor) = self {
-            let origin = origin.verify(hash.into(), AUTH_TYPE_STANDARD)?;
+        let origin = self.verify_origin(hash)?;
+
+        if let Self::Sponsored(_, sponsor) = self {
             let auth_type = AUTH_TYPE_SPONSORED;
             sponsor.verify(origin, auth_type)?;
         }
-- 
2.43.0


From 32c31ea88174d30156cde755ae1df61bd68702b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:20 +0000
Subject: [PATCH 02/21] fix: return an error when decoding truncated clarity
 values

---
 stacks/src/clarity/impl.rs | 70 ++++++++++++++++++++------------------
 stacks/src/clarity/mod.rs  | 25 +++++++++++++-
 2 files changed, 61 insertions(+), 34 deletions(-)

diff --git a/stacks/src/clarity/impl.rs b/stacks/src/clarity/impl.rs
index 75d6030..fdfc16e 100644
--- a/stacks/src/clarity/impl.rs
+++ b/stacks/src/clarity/impl.rs
@@ -10,6 +10,9 @@ use std::fmt::Debug;
 use std::fmt::Display;
 
 use crate::clarity::decode_clarity_type;
+use crate::clarity::read_bytes;
+use crate::clarity::read_u32;
+use crate::clarity::read_u8;
 use crate::clarity::Buffer;
 use crate::clarity::Clarity;
 use crate::clarity::Codec;
@@ -46,12 +49,12 @@ impl Codec for Int {
     where
         Self: Sized,
     {
-        if bytes[0] != Self::id() {
+        if read_u8(bytes, 0)? != Self::id() {
             return Err(Error::BadIdentifier(Self::id(), bytes[0]));
         }
 
         let mut buff = [0u8; 16];
-        buff.copy_from_slice(&bytes[1..17]);
+        buff.copy_from_slice(read_bytes(bytes, 1, 16)?);
         Ok(Self::new(i128::from_be_bytes(buff)))
     }
 }
@@ -99,12 +102,12 @@ impl Codec for UInt {
     where
         Self: Sized,
     {
-        if bytes[0] != Self::id() {
+        if read_u8(bytes, 0)? != Self::id() {
             return Err(Error::BadIdentifier(Self::id(), bytes[0]));
         }
 
         let mut buff = [0u8; 16];
-        buff.copy_from_slice(&bytes[1..17]);
+        buff.copy_from_slice(read_bytes(bytes, 1, 16)?);
         Ok(Self::new(u128::from_be_bytes(buff)))
     }
 }
@@ -153,17 +156,17 @@ impl Codec for Buffer {
     where
         Self: Sized,
     {
-        if bytes[0] != Self::id() {
+        if read_u8(bytes, 0)? != Self::id() {
             return Err(Error::BadIdentifier(Self::id(), bytes[0]));
         }
 
-        let len = u32::from_be_bytes([bytes[1], bytes[2], bytes[3], bytes[4]]);
+        let len = read_u32(bytes, 1)?;
         let mut offset = 5;
 
         let mut buff = vec![];
 
         for _ in 0..len {
-            buff.push(bytes[offset]);
+            buff.push(read_u8(bytes, offset)?);
             offset += 1;
         }
 
@@ -225,7 +228,7 @@ impl Codec for True {
     where
         Self: Sized,
     {
-        if bytes[0] != Self::id() {
+        if read_u8(bytes, 0)? != Self::id() {
             return Err(Error::BadIdentifier(Self::id(), bytes[0]));
         }
 
@@ -262,7 +265,7 @@ impl Codec for False {
     where
         Self: Sized,
     {
-        if bytes[0] != Self::id() {
+        if read_u8(bytes, 0)? != Self::id() {
             return Err(Error::BadIdentifier(Self::id(), bytes[0]));
         }
 
@@ -302,11 +305,11 @@ impl Codec for PrincipalStandard {
     where
         Self: Sized,
     {
-        if bytes[0] != Self::id() {
+        if read_u8(bytes, 0)? != Self::id() {
             return Err(Error::BadIdentifier(Self::id(), bytes[0]));
         }
 
-        let addr = c32_address(&bytes[2..22], bytes[1])?;
+        let addr = c32_address(read_bytes(bytes, 2, 20)?, bytes[1])?;
         Ok(Self::new(addr))
     }
 }
@@ -361,12 +364,13 @@ impl Codec for PrincipalContract {
     where
         Self: Sized,
     {
-        if bytes[0] != Self::id() {
+        if read_u8(bytes, 0)? != Self::id() {
             return Err(Error::BadIdentifier(Self::id(), bytes[0]));
         }
 
-        let addr = c32_address(&bytes[2..22], bytes[1])?;
-        let name = String::from_utf8(bytes[23..23 + bytes[22] as usize].to_vec())?;
+        let addr = c32_address(read_bytes(bytes, 2, 20)?, bytes[1])?;
+        let name =
+            String::from_utf8(read_bytes(bytes, 23, read_u8(bytes, 22)? as usize)?.to_vec())?;
         Ok(Self::new((addr, name)))
     }
 }
@@ -412,7 +416,7 @@ impl Codec for ResponseOk {
     where
         Self: Sized,
     {
-        if bytes[0] != Self::id() {
+        if read_u8(bytes, 0)? != Self::id() {
             return Err(Error::BadIdentifier(Self::id(), bytes[0]));
         }
 
@@ -450,7 +454,7 @@ impl Codec for ResponseErr {
     where
         Self: Sized,
     {
-        if bytes[0] != Self::id() {
+        if read_u8(bytes, 0)? != Self::id() {
             return Err(Error::BadIdentifier(Self::id(), bytes[0]));
         }
 
@@ -488,7 +492,7 @@ impl Codec for OptionalSome {
     where
         Self: Sized,
     {
-        if bytes[0] != Self::id() {
+        if read_u8(bytes, 0)? != Self::id() {
             return Err(Error::BadIdentifier(Self::id(), bytes[0]));
         }
 
@@ -524,7 +528,7 @@ impl Codec for OptionalNone {
     where
         Self: Sized,
     {
-        if bytes[0] != Self::id() {
+        if read_u8(bytes, 0)? != Self::id() {
             return Err(Error::BadIdentifier(Self::id(), bytes[0]));
         }
 
@@ -568,11 +572,11 @@ impl Codec for List {
     where
         Self: Sized,
     {
-        if bytes[0] != Self::id() {
+        if read_u8(bytes, 0)? != Self::id() {
             return Err(Error::BadIdentifier(Self::id(), bytes[0]));
         }
 
-        let len = u32::from_be_bytes([bytes[1], bytes[2], bytes[3], bytes[4]]);
+        let len = read_u32(bytes, 1)?;
 
         let mut offset = 5;
         let mut values = vec![];
@@ -701,18 +705,18 @@ impl Codec for Tuple {
     where
         Self: Sized,
     {
-        if bytes[0] != Self::id() {
+        if read_u8(bytes, 0)? != Self::id() {
             return Err(Error::BadIdentifier(Self::id(), bytes[0]));
         }
 
-        let len = u32::from_be_bytes([bytes[1], bytes[2], bytes[3], bytes[4]]);
+        let len = read_u32(bytes, 1)?;
 
         let mut offset = 5;
         let mut values = vec![];
 
         for _ in 0..len {
-            let k_len = bytes[offset] as usize;
-            let key = String::from_utf8((bytes[offset + 1..offset + 1 + k_len]).to_vec())?;
+            let k_len = read_u8(bytes, offset)? as usize;
+            let key = String::from_utf8(read_bytes(bytes, offset + 1, k_len)?.to_vec())?;
             offset += 1 + k_len;
             let value = decode_clarity_type(&bytes[offset..])?;
             offset += value.encode()?.len();
@@ -782,12 +786,12 @@ impl Codec for StringAscii {
     where
         Self: Sized,
     {
-        if bytes[0] != Self::id() {
+        if read_u8(bytes, 0)? != Self::id() {
             return Err(Error::BadIdentifier(Self::id(), bytes[0]));
         }
 
-        let len = u32::from_be_bytes([bytes[1], bytes[2], bytes[3], bytes[4]]);
-        let str = String::from_utf8(bytes[5..(5 + len as usize)].to_vec())?;
+        let len = read_u32(bytes, 1)?;
+        let str = String::from_utf8(read_bytes(bytes, 5, len as usize)?.to_vec())?;
         Ok(Self::new(str))
     }
 }
@@ -823,8 +827,8 @@ impl Codec for StringUtf8 {
     where
         Self: Sized,
     {
-        let len = u32::from_be_bytes([bytes[1], bytes[2], bytes[3], bytes[4]]);
-        let str = String::from_utf8(bytes[5..(5 + len as usize)].to_vec())?;
+        let len = read_u32(bytes, 1)?;
+        let str = String::from_utf8(read_bytes(bytes, 5, len as usize)?.to_vec())?;
         Ok(Self::new(str))
     }
 }
@@ -866,7 +870,7 @@ impl Codec for LengthPrefixedStr {
         Self: Sized,
     {
         Ok(Self::new(String::from_utf8(
-            bytes[1..=(bytes[0] as usize)].to_vec(),
+            read_bytes(bytes, 1, read_u8(bytes, 0)? as usize)?.to_vec(),
         )?))
     }
 }
@@ -917,10 +921,10 @@ impl Codec for FnArguments {
     where
         Self: Sized,
     {
-        let (len, mut remainder) = bytes.split_at(4);
-        let num = u32::from_be_bytes(len.try_into()?) as usize;
+        let num = read_u32(bytes, 0)?;
+        let mut remainder = &bytes[4..];
 
-        let mut __value = Vec::with_capacity(num);
+        let mut __value = vec![];
 
         for _ in 0..num {
             let arg = decode_clarity_type(remainder)?;
diff --git a/stacks/src/clarity/mod.rs b/stacks/src/clarity/mod.rs
index a2c1b42..c0460be 100644
--- a/stacks/src/clarity/mod.rs
+++ b/stacks/src/clarity/mod.rs
@@ -38,6 +38,9 @@ pub enum Error {
     /// Decoding a type with an unknown type identifier.
     #[error("Unexpected type identifier - received: {0}")]
     UnexpectedType(u8),
+    /// Received fewer bytes than the encoding calls for.
+    #[error("Unexpected end of input - received {0} bytes")]
+    UnexpectedEnd(usize),
     /// `crypto::c32` crate errors.
     #[error(transparent)]
     C32(#[from] crypto::c32::Error),
@@ -170,9 +173,29 @@ impl_clarity_primitive!(StringUtf8, String, CLARITY_TYPE_STRING_UTF8);
 impl_clarity_primitive!(LengthPrefixedStr, String, CLARITY_TYPE_NON_STD);
 impl_clarity_primitive!(FnArguments, Vec<Box<dyn Clarity>>, CLARITY_TYPE_NON_STD);
 
+/// Reads `len` bytes at an offset, or fails if the input ends before.
+pub(crate) fn read_bytes(bytes: &[u8], offset: usize, len: usize) -> Result<&[u8], Error> {
+    bytes
+        .get(offset..)
+        .and_then(|rest| rest.get(..len))
+        .ok_or(Error::UnexpectedEnd(bytes.len()))
+}
+
+/// Reads the byte at an offset, or fails if the input ends before.
+pub(crate) fn read_u8(bytes: &[u8], offset: usize) -> Result<u8, Error> {
+    Ok(read_bytes(bytes, offset, 1)?[0])
+}
+
+/// Reads the big-endian `u32` at an offset, or fails if the input ends before.
+pub(crate) fn read_u32(bytes: &[u8], offset: usize) -> Result<u32, Error> {
+    Ok(u32::from_be_bytes(
+        read_bytes(bytes, offset, 4)?.try_into()?,
+    ))
+}
+
 /// Decodes a Clarity type from encoded bytes.
 pub fn decode_clarity_type(bytes: &[u8]) -> Result<Box<dyn Clarity>, Error> {
-    let tag = bytes[0];
+    let tag = read_u8(bytes, 0)?;
 
     match tag {
         CLARITY_TYPE_INT => Ok(Box::new(Int::decode(bytes)?)),
-- 
2.43.0


From ab4eb927c0b329102ad66b4a5c558cc66286910a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:24 +0000
Subject: [PATCH 03/21] fix: check the type identifier in StringUtf8::decode

---
 stacks/src/clarity/impl.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stacks/src/clarity/impl.rs b/stacks/src/clarity/impl.rs
index fdfc16e..2d98a8d 100644
--- a/stacks/src/clarity/impl.rs
+++ b/stacks/src/clarity/impl.rs
@@ -827,6 +827,10 @@ impl Codec for StringUtf8 {
     where
         Self: Sized,
     {
+        if read_u8(bytes, 0)? != Self::id() {
+            return Err(Error::BadIdentifier(Self::id(), bytes[0]));
+        }
+
         let len = read_u32(bytes, 1)?;
         let str = String::from_utf8(read_bytes(bytes, 5, len as usize)?.to_vec())?;
         Ok(Self::new(str))
-- 
2.43.0


From 9d90e76ad2b943d51a399df92095716b2c9ad029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:28 +0000
Subject: [PATCH 04/21] fix: reject non-ASCII text in StringAscii::decode

---
 stacks/src/clarity/impl.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/stacks/src/clarity/impl.rs b/stacks/src/clarity/impl.rs
index 2d98a8d..975b91f 100644
--- a/stacks/src/clarity/impl.rs
+++ b/stacks/src/clarity/impl.rs
@@ -792,6 +792,11 @@ impl Codec for StringAscii {
 
         let len = read_u32(bytes, 1)?;
         let str = String::from_utf8(read_bytes(bytes, 5, len as usize)?.to_vec())?;
+
+        if !str.is_ascii() {
+            return Err(Error::BadStringType("Ascii".to_string()));
+        }
+
         Ok(Self::new(str))
     }
 }
-- 
2.43.0


From 7c87c22ceb040f552ee2c3c60147afeed8b8f81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:54 +0000
Subject: [PATCH 05/21] fix: apply the name length limit when decoding names

---
 stacks/src/clarity/impl.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/stacks/src/clarity/impl.rs b/stacks/src/clarity/impl.rs
index 975b91f..96e22b4 100644
--- a/stacks/src/clarity/impl.rs
+++ b/stacks/src/clarity/impl.rs
@@ -369,8 +369,7 @@ impl Codec for PrincipalContract {
         }
 
         let addr = c32_address(read_bytes(bytes, 2, 20)?, bytes[1])?;
-        let name =
-            String::from_utf8(read_bytes(bytes, 23, read_u8(bytes, 22)? as usize)?.to_vec())?;
+        let name = LengthPrefixedStr::decode(&bytes[22..])?.into_value();
         Ok(Self::new((addr, name)))
     }
 }
@@ -715,9 +714,8 @@ impl Codec for Tuple {
         let mut values = vec![];
 
         for _ in 0..len {
-            let k_len = read_u8(bytes, offset)? as usize;
-            let key = String::from_utf8(read_bytes(bytes, offset + 1, k_len)?.to_vec())?;
-            offset += 1 + k_len;
+            let key = LengthPrefixedStr::decode(&bytes[offset..])?.into_value();
+            offset += 1 + key.len();
             let value = decode_clarity_type(&bytes[offset..])?;
             offset += value.encode()?.len();
             values.push((key, value));
@@ -878,8 +876,14 @@ impl Codec for LengthPrefixedStr {
     where
         Self: Sized,
     {
+        let len = read_u8(bytes, 0)? as usize;
+
+        if len > 128 {
+            return Err(Error::BadStringLength(len, 128));
+        }
+
         Ok(Self::new(String::from_utf8(
-            read_bytes(bytes, 1, read_u8(bytes, 0)? as usize)?.to_vec(),
+            read_bytes(bytes, 1, len)?.to_vec(),
         )?))
     }
 }
-- 
2.43.0


From c42dd6f2116b547390a9d1daef01667c32b55008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:58 +0000
Subject: [PATCH 06/21] fix: return an error when decoding truncated payloads

---
 stacks/src/transaction/payload.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/stacks/src/transaction/payload.rs b/stacks/src/transaction/payload.rs
index 7a570d1..5979813 100644
--- a/stacks/src/transaction/payload.rs
+++ b/stacks/src/transaction/payload.rs
@@ -13,6 +13,8 @@ use dyn_clone::DynClone;
 
 use crate::clarity;
 use crate::clarity::decode_clarity_type;
+use crate::clarity::read_bytes;
+use crate::clarity::read_u8;
 use crate::clarity::Clarity;
 use crate::clarity::Codec;
 use crate::clarity::FnArguments;
@@ -38,7 +40,7 @@ impl Codec for Box<dyn Payload> {
     where
         Self: Sized,
     {
-        match bytes[0] {
+        match read_u8(bytes, 0)? {
             PAYLOAD_TYPE_TOKEN_TRANSFER => {
                 let payload = TokenTransferPayload::decode(bytes)?;
                 Ok(Box::new(payload))
@@ -102,7 +104,7 @@ impl Codec for TokenTransferPayload {
     where
         Self: Sized,
     {
-        if bytes[0] != PAYLOAD_TYPE_TOKEN_TRANSFER {
+        if read_u8(bytes, 0)? != PAYLOAD_TYPE_TOKEN_TRANSFER {
             return Err(clarity::Error::UnexpectedType(bytes[0]));
         }
 
@@ -113,12 +115,12 @@ impl Codec for TokenTransferPayload {
 
         offset += addr_len;
 
-        let amount_bytes = &bytes[offset..offset + 8];
+        let amount_bytes = read_bytes(bytes, offset, 8)?;
         let amount = u64::from_be_bytes(amount_bytes.try_into()?);
 
         offset += 8;
 
-        let memo_bytes = &bytes[offset..offset + 34];
+        let memo_bytes = read_bytes(bytes, offset, 34)?;
         let memo = String::from_utf8(memo_bytes.to_vec())?;
 
         Ok(Self {
@@ -175,16 +177,16 @@ impl Codec for ContractCallPayload {
     where
         Self: Sized,
     {
-        if bytes[0] != PAYLOAD_TYPE_CONTRACT_CALL {
+        if read_u8(bytes, 0)? != PAYLOAD_TYPE_CONTRACT_CALL {
             return Err(clarity::Error::UnexpectedType(bytes[0]));
         }
 
         let mut offset = 1;
 
-        let version = bytes[offset];
+        let version = read_u8(bytes, offset)?;
         offset += 1;
 
-        let hash = Hash160::new(&bytes[offset..offset + 20]);
+        let hash = Hash160::new(read_bytes(bytes, offset, 20)?);
         let address = Address::new(hash, version);
 
         offset += 20;
-- 
2.43.0


From 4577bb3c7705e9216c94621bab1fcf76dadf0131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:41 +0000
Subject: [PATCH 07/21] fix: reject token transfer recipients that are not
 principals

---
 stacks/src/transaction/payload.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/stacks/src/transaction/payload.rs b/stacks/src/transaction/payload.rs
index 5979813..3993d5e 100644
--- a/stacks/src/transaction/payload.rs
+++ b/stacks/src/transaction/payload.rs
@@ -19,6 +19,8 @@ use crate::clarity::Clarity;
 use crate::clarity::Codec;
 use crate::clarity::FnArguments;
 use crate::clarity::LengthPrefixedStr;
+use crate::clarity::PrincipalContract;
+use crate::clarity::PrincipalStandard;
 use crate::crypto::c32::Address;
 use crate::crypto::Hash160;
 
@@ -78,10 +80,23 @@ impl TokenTransferPayload {
             memo: memo.into(),
         }
     }
+
+    /// Checks that a recipient is a principal.
+    fn check_recipient(address: &dyn Clarity) -> Result<(), clarity::Error> {
+        let address = address.as_any();
+
+        if address.is::<PrincipalStandard>() || address.is::<PrincipalContract>() {
+            Ok(())
+        } else {
+            Err(clarity::Error::BadDowncast)
+        }
+    }
 }
 
 impl Codec for TokenTransferPayload {
     fn encode(&self) -> Result<Vec<u8>, clarity::Error> {
+        Self::check_recipient(self.address.as_ref())?;
+
         let mut memo_bytes = vec![0; 34];
 
         if self.memo.len() > 34 {
@@ -111,6 +126,8 @@ impl Codec for TokenTransferPayload {
         let mut offset = 1;
 
         let address = decode_clarity_type(&bytes[offset..])?;
+        Self::check_recipient(address.as_ref())?;
+
         let addr_len = address.len()?;
 
         offset += addr_len;
-- 
2.43.0


From b8f6929a76a0c1ac967b259ec1a533902d38817d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:45 +0000
Subject: [PATCH 08/21] fix: return errors instead of panicking in c32check
 encode and decode

---
 stacks/src/crypto/c32.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/stacks/src/crypto/c32.rs b/stacks/src/crypto/c32.rs
index 8b3085a..147b0fd 100644
--- a/stacks/src/crypto/c32.rs
+++ b/stacks/src/crypto/c32.rs
@@ -224,7 +224,10 @@ where
     buff.extend_from_slice(&checksum);
 
     let mut encoded = c32_encode(&buff)?.into_bytes();
-    encoded.insert(0, C32_ALPHABET[version as usize]);
+    let symbol = C32_ALPHABET
+        .get(version as usize)
+        .ok_or(Error::UnknownAddressVersion(version))?;
+    encoded.insert(0, *symbol);
 
     Ok(String::from_utf8(encoded)?)
 }
@@ -236,7 +239,7 @@ where
 {
     let str: String = str.into();
 
-    if !str.is_ascii() {
+    if !str.is_ascii() || str.is_empty() {
         return Err(Error::BadInput);
     }
 
-- 
2.43.0


From e15a36a73f546219c6f4725906fceac864c0f39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:49 +0000
Subject: [PATCH 09/21] fix: decode only 20-byte addresses of a known version

---
 stacks/src/crypto/c32.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/stacks/src/crypto/c32.rs b/stacks/src/crypto/c32.rs
index 147b0fd..b9f9f74 100644
--- a/stacks/src/crypto/c32.rs
+++ b/stacks/src/crypto/c32.rs
@@ -8,6 +8,7 @@
 
 use secp256k1::PublicKey;
 
+use crate::crypto::hash::HASH160_ENCODED_SIZE;
 use crate::crypto::DSha256Hash;
 use crate::crypto::Hash160;
 use crate::crypto::Sha256Hash;
@@ -294,7 +295,17 @@ where
         return Err(Error::BadAddress(str));
     }
 
-    c32check_decode(&str[1..])
+    let (hash, version) = c32check_decode(&str[1..])?;
+
+    if ![22, 26, 20, 21].contains(&version) {
+        return Err(Error::UnknownAddressVersion(version));
+    }
+
+    if hash.len() != HASH160_ENCODED_SIZE {
+        return Err(Error::BadAddress(str));
+    }
+
+    Ok((hash, version))
 }
 
 /// Hashes a public key to a P2PKH address.
-- 
2.43.0


From d4b32583d2b864f32b0007ac96bae59e80e62b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:53 +0000
Subject: [PATCH 10/21] fix: encode all-zero input to Base58 without an extra
 leading digit

---
 stacks/src/crypto/b58.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stacks/src/crypto/b58.rs b/stacks/src/crypto/b58.rs
index d0071fa..d256d54 100644
--- a/stacks/src/crypto/b58.rs
+++ b/stacks/src/crypto/b58.rs
@@ -70,7 +70,7 @@ where
     }
 
     let mut result = Vec::with_capacity(data.len() * 138 / 100 + 1);
-    let mut buff = data.to_vec();
+    let mut buff = data[zeros..].to_vec();
 
     while !buff.is_empty() {
         let mut rem = 0;
-- 
2.43.0


From 403e6f3eecdea311b6ef9389057df2215f405525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:57 +0000
Subject: [PATCH 11/21] fix: return errors instead of panicking when decoding
 malformed Base58

---
 stacks/src/crypto/b58.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/stacks/src/crypto/b58.rs b/stacks/src/crypto/b58.rs
index d256d54..f0ffbcd 100644
--- a/stacks/src/crypto/b58.rs
+++ b/stacks/src/crypto/b58.rs
@@ -36,6 +36,9 @@ pub enum Error {
     /// Expected and received checksums are different.
     #[error("Bad checksum - expected {0}, received: {1}")]
     BadChecksum(String, String),
+    /// Received fewer bytes than a version and a checksum take.
+    #[error("Bad length - expected at least 5 bytes, received: {0}")]
+    BadLength(usize),
     /// Received an unknown bitcoin version byte.
     #[error("Unknown address version, received: {0}")]
     UnknownAddressVersion(u8),
@@ -116,7 +119,7 @@ where
     let mut buff = vec![0u8; str.len() * 733 / 1000 + 1];
 
     for c in str.chars() {
-        let index = B58_BYTE_MAP[c as usize];
+        let index = *B58_BYTE_MAP.get(c as usize).unwrap_or(&-1);
 
         if index == -1 {
             return Err(Error::BadChar(c));
@@ -175,6 +178,10 @@ where
     let buff = b58_decode(str)?;
     let buff_max = buff.len();
 
+    if buff_max < 5 {
+        return Err(Error::BadLength(buff_max));
+    }
+
     let checksum = &buff[buff_max - 4..];
     let data = buff[1..buff_max - 4].to_vec();
 
-- 
2.43.0


From a523eceba131d2b7541f9d19ebef6b38200e5ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:15 +0000
Subject: [PATCH 12/21] fix: replace the value when inserting under a present
 key into a Tuple

---
 stacks/src/clarity/impl.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/stacks/src/clarity/impl.rs b/stacks/src/clarity/impl.rs
index 96e22b4..bf355c5 100644
--- a/stacks/src/clarity/impl.rs
+++ b/stacks/src/clarity/impl.rs
@@ -655,11 +655,17 @@ impl Tuple {
     }
 
     /// Inserts a key-value pair into the tuple.
+    ///
+    /// Replaces the value if the key was present in the tuple.
     pub fn insert<T>(&mut self, key: String, value: T)
     where
         T: Clarity,
     {
-        self.__value.push((key, Box::new(value)));
+        if let Some(current) = self.get_mut(&key) {
+            *current = Box::new(value);
+        } else {
+            self.__value.push((key, Box::new(value)));
+        }
     }
 
     /// Removes a key-value pair from the tuple.
-- 
2.43.0


From 1991608322bbd150ff0dc0c674b4d7a09916b69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:19 +0000
Subject: [PATCH 13/21] fix: encode tuple entries in ascending key order

---
 stacks/src/clarity/impl.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/stacks/src/clarity/impl.rs b/stacks/src/clarity/impl.rs
index bf355c5..6d87e3b 100644
--- a/stacks/src/clarity/impl.rs
+++ b/stacks/src/clarity/impl.rs
@@ -698,7 +698,11 @@ impl Codec for Tuple {
         let mut buff = vec![Self::id()];
         buff.extend_from_slice(&u32::try_from(self.__value.len())?.to_be_bytes());
 
-        for (k, v) in &self.__value {
+        // The consensus serialization orders the entries by key.
+        let mut entries = self.__value.iter().collect::<Vec<_>>();
+        entries.sort_by(|(a, _), (b, _)| a.cmp(b));
+
+        for (k, v) in entries {
             buff.extend_from_slice(&LengthPrefixedStr::new((*k).to_string()).encode()?);
             buff.extend_from_slice(&v.encode()?);
         }
-- 
2.43.0


From 0c1dc9bb0253e6072963d4fd2e1651e289e091bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:44 +0000
Subject: [PATCH 14/21] fix: compare clarity values by their encoding instead
 of their text

---
 stacks/src/clarity/macro.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/stacks/src/clarity/macro.rs b/stacks/src/clarity/macro.rs
index 7d228a9..7076ab1 100644
--- a/stacks/src/clarity/macro.rs
+++ b/stacks/src/clarity/macro.rs
@@ -69,7 +69,12 @@ macro_rules! impl_clarity_primitive {
         }
         impl ::std::cmp::PartialEq for $name {
             fn eq(&self, other: &Self) -> bool {
-                self.to_string() == other.to_string()
+                use $crate::clarity::Codec;
+                match (self.encode(), other.encode()) {
+                    (Ok(a), Ok(b)) => a == b,
+                    (Err(_), Err(_)) => self.to_string() == other.to_string(),
+                    _ => false,
+                }
             }
         }
         impl ::std::cmp::Eq for $name {}
-- 
2.43.0


From 87513f605c45c135f2dfd6b88678e02c8cee3a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:01 +0000
Subject: [PATCH 15/21] fix: report mismatching and missing optional fields in
 derived tuple conversion

---
 stacks_derive/src/from_tuple.rs | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/stacks_derive/src/from_tuple.rs b/stacks_derive/src/from_tuple.rs
index d09ef0f..7a4c6bd 100644
--- a/stacks_derive/src/from_tuple.rs
+++ b/stacks_derive/src/from_tuple.rs
@@ -213,14 +213,14 @@ pub(crate) fn __impl(input: proc_macro::TokenStream) -> Result<TokenStream> {
                     // handle Option<i128>
                     if ident.eq("Option") && args.to_string().eq("i128") {
                         __internal_extract_and_cast(&mut stream, &key, &ty_name);
-                        __internal_derive_option(&mut stream, &quote!(Int));
+                        __internal_derive_option(&mut stream, &quote!(Int), &key, &ty_name);
                         break 'stream;
                     }
 
                     // handle Option<u128>
                     if ident.eq("Option") && args.to_string().eq("u128") {
                         __internal_extract_and_cast(&mut stream, &key, &ty_name);
-                        __internal_derive_option(&mut stream, &quote!(UInt));
+                        __internal_derive_option(&mut stream, &quote!(UInt), &key, &ty_name);
                         break 'stream;
                     }
 
@@ -230,9 +230,15 @@ pub(crate) fn __impl(input: proc_macro::TokenStream) -> Result<TokenStream> {
                         __internal_extract_and_cast(&mut stream, &key, &ty_name);
                         let err_cast = __Error::Cast(key, ty, ident.to_token_stream());
                         let tokens = quote!(
-                            .and_then(|x| x.cast::<::stacks_rs::clarity::OptionalSome>().map_err(|_| #err_cast))
-                            .and_then(|x| Ok(x.into_value().to_string()))
-                            .ok()
+                            .and_then(|x| {
+                                if x.as_any().is::<::stacks_rs::clarity::OptionalNone>() {
+                                    return Ok(None);
+                                }
+
+                                x.cast::<::stacks_rs::clarity::OptionalSome>()
+                                    .map(|x| Some(x.into_value().to_string()))
+                                    .map_err(|_| #err_cast)
+                            })?
                         );
                         stream.extend(tokens);
                         break 'stream;
@@ -338,17 +344,24 @@ where
     })
 }
 
-fn __internal_derive_option<Token>(stream: &mut TokenStream, ty: &Token)
+fn __internal_derive_option<Token>(stream: &mut TokenStream, ty: &Token, key: &Token, ident: &Token)
 where
     Token: quote::ToTokens,
 {
+    let err_cast = __Error::Cast(key, ty, ident);
+
     stream.extend(quote! {
-        .map(|value| {
+        .and_then(|value| {
+            if value.as_any().is::<::stacks_rs::clarity::OptionalNone>() {
+                return Ok(None);
+            }
+
             value
             .cast::<::stacks_rs::clarity::OptionalSome>()
             .and_then(|value| value.cast::<::stacks_rs::clarity::#ty>())
             .map(::stacks_rs::clarity::#ty::into_value)
-            .ok()
+            .map(Some)
+            .map_err(|_| #err_cast)
         })?
     })
 }
-- 
2.43.0


From 9e5411dd25f49d9f96376cc5f82cfdff4319f4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:25 +0000
Subject: [PATCH 16/21] fix: percent-encode contract and function names in
 read-only call paths

---
 stacks/src/rpc.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/stacks/src/rpc.rs b/stacks/src/rpc.rs
index 4885f45..b2febdd 100644
--- a/stacks/src/rpc.rs
+++ b/stacks/src/rpc.rs
@@ -6,6 +6,7 @@
 //
 // Usage of this file is permitted solely under a sanctioned license.
 
+use std::fmt::Write;
 use std::format as f;
 
 use serde::Deserialize;
@@ -177,6 +178,21 @@ pub struct ReadOnlyErr {
     pub cause: String,
 }
 
+/// Percent-encodes the reserved characters of a URL path segment.
+fn encode_segment(segment: &str) -> String {
+    let mut buff = String::with_capacity(segment.len());
+
+    for byte in segment.bytes() {
+        if byte.is_ascii_alphanumeric() || b"-._~".contains(&byte) {
+            buff.push(byte as char);
+        } else {
+            write!(buff, "%{byte:02X}").unwrap();
+        }
+    }
+
+    buff
+}
+
 #[derive(Debug, Clone)]
 pub struct StacksRPC {
     /// The stacks rpc endpoint.
@@ -255,9 +271,9 @@ impl StacksRPC {
         let req = ureq::post(&f!(
             "{}/v2/contracts/call-read/{}/{}/{}",
             self.__url,
-            contract_addr,
-            contract_name,
-            fn_name
+            encode_segment(contract_addr),
+            encode_segment(contract_name),
+            encode_segment(fn_name)
         ));
 
         let arguments = fn_args
-- 
2.43.0


From 583187cd60b5205379b1329f2ac528e74f81144d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:29 +0000
Subject: [PATCH 17/21] fix: let clarity!(Buffer) expand to an empty buffer

---
 stacks/src/clarity/macro.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stacks/src/clarity/macro.rs b/stacks/src/clarity/macro.rs
index 7076ab1..380c1fe 100644
--- a/stacks/src/clarity/macro.rs
+++ b/stacks/src/clarity/macro.rs
@@ -13,7 +13,7 @@ macro_rules! clarity {
     (Int, $x:expr) => ($crate::clarity::Int::new($x));
     (UInt, $x:expr) => ($crate::clarity::UInt::new($x));
     (Buffer, $x:expr) => ($crate::clarity::Buffer::new($x.to_vec()));
-    (Buffer) => (@empty, Buffer);
+    (Buffer) => (clarity!(@empty, Buffer));
     (True) => ($crate::clarity::True::new());
     (False) => ($crate::clarity::False::new());
     (PrincipalStandard, $x:expr) => ($crate::clarity::PrincipalStandard::new($x.to_string()));
-- 
2.43.0


From 4706cfe53bb985edd79e3b76359c7582816d3dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:05 +0000
Subject: [PATCH 18/21] fix: report redirect answers to RPC calls as errors

---
 stacks/src/rpc.rs | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/stacks/src/rpc.rs b/stacks/src/rpc.rs
index b2febdd..d543c1f 100644
--- a/stacks/src/rpc.rs
+++ b/stacks/src/rpc.rs
@@ -193,6 +193,19 @@ fn encode_segment(segment: &str) -> String {
     buff
 }
 
+/// Creates a `POST` request that doesn't follow redirects, which would drop its body.
+fn post(url: &str) -> ureq::Request {
+    ureq::AgentBuilder::new().redirects(0).build().post(url)
+}
+
+/// Turns a redirect that was not followed into a status error.
+fn reject_redirect(res: ureq::Response) -> Result<ureq::Response, ureq::Error> {
+    match res.status() {
+        code @ 300..=399 => Err(ureq::Error::Status(code, res)),
+        _ => Ok(res),
+    }
+}
+
 #[derive(Debug, Clone)]
 pub struct StacksRPC {
     /// The stacks rpc endpoint.
@@ -211,7 +224,8 @@ impl StacksRPC {
     /// Gets the node info.
     pub fn info(&self) -> Result<NodeInfoResponse, Error> {
         let request = ureq::get(&f!("{}/v2/info", self.__url));
-        Ok(request.call()?.into_json::<NodeInfoResponse>()?)
+        let response = request.call().and_then(reject_redirect)?;
+        Ok(response.into_json::<NodeInfoResponse>()?)
     }
 
     /// Gets the info of a specific address.
@@ -220,15 +234,16 @@ impl StacksRPC {
         T: Into<String>,
     {
         let request = ureq::get(&f!("{}/v2/accounts/{}", self.__url, addr.into()));
-        Ok(request.call()?.into_json::<AddressInfoResponse>()?)
+        let response = request.call().and_then(reject_redirect)?;
+        Ok(response.into_json::<AddressInfoResponse>()?)
     }
 
     /// Gets an estimated fee for a `Transaction`.
     pub fn estimate_fee(&self, transaction: &Transaction) -> Result<EstimateFeeResponse, Error> {
-        let response = ureq::post(&f!("{}/v2/fees/transaction", self.__url))
+        let response = post(&f!("{}/v2/fees/transaction", self.__url))
             .send_json(ureq::json!({"transaction_payload": transaction.payload.hex()?, "estimated_len": transaction.len()?}));
 
-        match response {
+        match response.and_then(reject_redirect) {
             Ok(res) => Ok(EstimateFeeResponse::Ok(res.into_json::<FeeOk>()?)),
             Err(err) => {
                 if let ureq::Error::Status(_, res) = err {
@@ -242,11 +257,11 @@ impl StacksRPC {
 
     /// Broadcasts an encoded transaction.
     pub fn broadcast(&self, transaction: &Transaction) -> Result<BroadcastResponse, Error> {
-        let response = ureq::post(&f!("{}/v2/transactions", self.__url))
+        let response = post(&f!("{}/v2/transactions", self.__url))
             .set("Content-Type", "application/octet-stream")
             .send_bytes(&transaction.encode()?);
 
-        match response {
+        match response.and_then(reject_redirect) {
             Ok(res) => Ok(BroadcastResponse::Ok(res.into_string()?)),
             Err(err) => {
                 if let ureq::Error::Status(_, res) = err {
@@ -268,7 +283,7 @@ impl StacksRPC {
         fn_args: FnArguments,
         sender: &str,
     ) -> Result<ReadOnlyResponse, Error> {
-        let req = ureq::post(&f!(
+        let req = post(&f!(
             "{}/v2/contracts/call-read/{}/{}/{}",
             self.__url,
             encode_segment(contract_addr),
@@ -284,8 +299,9 @@ impl StacksRPC {
         let response = req.send_json(ureq::json!({
             "sender": sender,
             "arguments": arguments,
-        }))?;
+        }));
 
+        let response = response.and_then(reject_redirect)?;
         Ok(response.into_json::<ReadOnlyResponse>()?)
     }
 }
-- 
2.43.0


From 4cf306fb088bcce812d48bedc359a988787347be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:48 +0000
Subject: [PATCH 19/21] fix: fail verification of oversized multi-sig
 conditions instead of panicking

---
 stacks/src/transaction/auth.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/stacks/src/transaction/auth.rs b/stacks/src/transaction/auth.rs
index ca9d79d..2feadae 100644
--- a/stacks/src/transaction/auth.rs
+++ b/stacks/src/transaction/auth.rs
@@ -444,6 +444,12 @@ impl Codec for SpendingConditionMultiSig {
 
 impl SpendingCondition for SpendingConditionMultiSig {
     fn verify(&self, hash: SignatureHash, typ: u8) -> Result<SignatureHash, Error> {
+        // A multi-sig script counts its keys in a single opcode, so no signer
+        // can have more keys than that opcode can express.
+        if self.fields.len() > usize::from(u8::MAX - 80) {
+            return Err(Error::BadSignatureCount(self.required, u8::MAX));
+        }
+
         let mut public_keys = vec![];
         let mut next = hash;
 
-- 
2.43.0


From 9ca3ebd4774e5c7d57e90b0f9ef7e73af8113312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:53 +0000
Subject: [PATCH 20/21] fix: percent-encode the address in account paths

---
 stacks/src/rpc.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/stacks/src/rpc.rs b/stacks/src/rpc.rs
index d543c1f..8f41ca6 100644
--- a/stacks/src/rpc.rs
+++ b/stacks/src/rpc.rs
@@ -233,7 +233,11 @@ impl StacksRPC {
     where
         T: Into<String>,
     {
-        let request = ureq::get(&f!("{}/v2/accounts/{}", self.__url, addr.into()));
+        let request = ureq::get(&f!(
+            "{}/v2/accounts/{}",
+            self.__url,
+            encode_segment(&addr.into())
+        ));
         let response = request.call().and_then(reject_redirect)?;
         Ok(response.into_json::<AddressInfoResponse>()?)
     }
-- 
2.43.0


From 1be8a782efdf18f66e7403408a17629038b43f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:51 +0000
Subject: [PATCH 21/21] fix: refuse dot segments in RPC paths

---
 stacks/src/rpc.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/stacks/src/rpc.rs b/stacks/src/rpc.rs
index 8f41ca6..50adcf4 100644
--- a/stacks/src/rpc.rs
+++ b/stacks/src/rpc.rs
@@ -179,7 +179,16 @@ pub struct ReadOnlyErr {
 }
 
 /// Percent-encodes the reserved characters of a URL path segment.
-fn encode_segment(segment: &str) -> String {
+///
+/// Fails for dot-segments, which name another path instead of being a part of it.
+fn encode_segment(segment: &str) -> Result<String, std::io::Error> {
+    if segment == "." || segment == ".." {
+        return Err(std::io::Error::new(
+            std::io::ErrorKind::InvalidInput,
+            f!("Bad path segment: {segment}"),
+        ));
+    }
+
     let mut buff = String::with_capacity(segment.len());
 
     for byte in segment.bytes() {
@@ -190,7 +199,7 @@ fn encode_segment(segment: &str) -> String {
         }
     }
 
-    buff
+    Ok(buff)
 }
 
 /// Creates a `POST` request that doesn't follow redirects, which would drop its body.
@@ -236,7 +245,7 @@ impl StacksRPC {
         let request = ureq::get(&f!(
             "{}/v2/accounts/{}",
             self.__url,
-            encode_segment(&addr.into())
+            encode_segment(&addr.into())?
         ));
         let response = request.call().and_then(reject_redirect)?;
         Ok(response.into_json::<AddressInfoResponse>()?)
@@ -290,9 +299,9 @@ impl StacksRPC {
         let req = post(&f!(
             "{}/v2/contracts/call-read/{}/{}/{}",
             self.__url,
-            encode_segment(contract_addr),
-            encode_segment(contract_name),
-            encode_segment(fn_name)
+            encode_segment(contract_addr)?,
+            encode_segment(contract_name)?,
+            encode_segment(fn_name)?
         ));
 
         let arguments = fn_args
-- 
2.43.0

