From 3cb5ea037ce7494fd16f862554992d112aac3248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:57 +0000
Subject: [PATCH 001/110] fix: report write errors of large PBO entries instead
 of panicking

---
 libs/pbo/src/write.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libs/pbo/src/write.rs b/libs/pbo/src/write.rs
index fcfe538..dfbe4bf 100644
--- a/libs/pbo/src/write.rs
+++ b/libs/pbo/src/write.rs
@@ -178,16 +178,16 @@ impl<I: Seek + Read> WritablePbo<I> {
 
             if header.size() > 1_000_000 {
                 // pay the paralellization cost for large files
+                let mut written = Ok(());
                 std::thread::scope(|s| {
                     s.spawn(|| {
                         hasher.update(&*buffer);
                     });
                     s.spawn(|| {
-                        buffered_output
-                            .write_all(&buffer)
-                            .expect("failed to write file");
+                        written = buffered_output.write_all(&buffer);
                     });
                 });
+                written?;
             } else {
                 buffered_output.write_all(&buffer)?;
                 hasher.update(&buffer);
-- 
2.43.0


From 5bdd26ce00a4070e17a9d60b483adc1456df11a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:57 +0000
Subject: [PATCH 002/110] fix: fail when a file changes size between being
 added and written to a PBO

---
 libs/pbo/src/write.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libs/pbo/src/write.rs b/libs/pbo/src/write.rs
index dfbe4bf..e3c45f3 100644
--- a/libs/pbo/src/write.rs
+++ b/libs/pbo/src/write.rs
@@ -175,6 +175,12 @@ impl<I: Seek + Read> WritablePbo<I> {
                 .expect("file with header should exist");
             let mut buffer = Vec::with_capacity(header.size() as usize);
             file.read_to_end(&mut buffer)?;
+            if buffer.len() != header.size() as usize {
+                return Err(Error::Io(std::io::Error::other(format!(
+                    "size of {} changed while writing the PBO",
+                    header.filename()
+                ))));
+            }
 
             if header.size() > 1_000_000 {
                 // pay the paralellization cost for large files
-- 
2.43.0


From d34b21984de8523408774a08c0184be7d4cb5a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:57 +0000
Subject: [PATCH 003/110] fix: order PBO entries that differ only in case
 deterministically

---
 libs/pbo/src/write.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libs/pbo/src/write.rs b/libs/pbo/src/write.rs
index e3c45f3..31f77e4 100644
--- a/libs/pbo/src/write.rs
+++ b/libs/pbo/src/write.rs
@@ -91,6 +91,7 @@ impl<I: Seek + Read> WritablePbo<I> {
             a.filename()
                 .to_lowercase()
                 .cmp(&b.filename().to_lowercase())
+                .then_with(|| a.filename().cmp(b.filename()))
         });
         sorted
     }
-- 
2.43.0


From 7aed5522108809491ea97a56ea5e9347a85d6011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:58 +0000
Subject: [PATCH 004/110] fix: find PBO entries stored with / and entries whose
 names differ only in case

---
 libs/pbo/src/read.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/libs/pbo/src/read.rs b/libs/pbo/src/read.rs
index 2090b8d..6345735 100644
--- a/libs/pbo/src/read.rs
+++ b/libs/pbo/src/read.rs
@@ -80,6 +80,16 @@ impl<I: Seek + Read> ReadablePbo<I> {
             .find(|h| h.filename() == name.replace('/', "\\"))
     }
 
+    /// Find the position of a file, preferring an exact match over one that differs only in case
+    fn position(&self, name: &str) -> Option<usize> {
+        let name = name.replace('/', "\\");
+        let lower = name.to_lowercase();
+        let names = || self.headers.iter().map(|h| h.filename().replace('/', "\\"));
+        names()
+            .position(|n| n == name)
+            .or_else(|| names().position(|n| n.to_lowercase() == lower))
+    }
+
     /// Get the PBO's properties
     pub const fn properties(&self) -> &IndexMap<String, String> {
         &self.properties
@@ -111,9 +121,10 @@ impl<I: Seek + Read> ReadablePbo<I> {
     /// # Errors
     /// if the file cannot be read
     pub fn file(&mut self, name: &str) -> Result<Option<File<I>>, Error> {
+        let position = self.position(name);
         self.input.seek(SeekFrom::Start(self.blob_start))?;
-        for header in &self.headers {
-            if header.filename().to_lowercase() == name.replace('/', "\\").to_lowercase() {
+        for (index, header) in self.headers.iter().enumerate() {
+            if Some(index) == position {
                 return Ok(Some(File::new(header, &mut self.input)));
             }
             self.input
@@ -127,9 +138,10 @@ impl<I: Seek + Read> ReadablePbo<I> {
     /// # Errors
     /// if the file cannot be read
     pub fn file_offset(&self, name: &str) -> Result<Option<u64>, Error> {
+        let position = self.position(name);
         let mut offset = self.blob_start;
-        for header in &self.headers {
-            if header.filename().to_lowercase() == name.replace('/', "\\").to_lowercase() {
+        for (index, header) in self.headers.iter().enumerate() {
+            if Some(index) == position {
                 return Ok(Some(offset));
             }
             offset += header.size() as u64;
-- 
2.43.0


From 3c42ce7151997768ea9fe6d3fdcd72a2d9f534d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:58 +0000
Subject: [PATCH 005/110] fix: checksum of a PBO without properties

---
 libs/pbo/src/read.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/libs/pbo/src/read.rs b/libs/pbo/src/read.rs
index 6345735..cc1949b 100644
--- a/libs/pbo/src/read.rs
+++ b/libs/pbo/src/read.rs
@@ -189,22 +189,22 @@ impl<I: Seek + Read> ReadablePbo<I> {
         let mut headers: Cursor<Vec<u8>> = Cursor::new(Vec::new());
         if let Some(vers_header) = &self.vers_header {
             vers_header.write_pbo(&mut headers)?;
-        }
 
-        if let Some(prefix) = self.properties.get("prefix") {
-            headers.write_cstring(b"prefix")?;
-            headers.write_cstring(prefix)?;
-        }
+            if let Some(prefix) = self.properties.get("prefix") {
+                headers.write_cstring(b"prefix")?;
+                headers.write_cstring(prefix)?;
+            }
 
-        for (key, value) in &self.properties {
-            if key == "prefix" {
-                continue;
+            for (key, value) in &self.properties {
+                if key == "prefix" {
+                    continue;
+                }
+                headers.write_cstring(key.as_bytes())?;
+                headers.write_cstring(value.as_bytes())?;
             }
-            headers.write_cstring(key.as_bytes())?;
-            headers.write_cstring(value.as_bytes())?;
-        }
 
-        headers.write_all(&[0])?;
+            headers.write_all(&[0])?;
+        }
 
         for header in &self.files_sorted() {
             header.write_pbo(&mut headers)?;
-- 
2.43.0


From 0959b90a3535bd3e04e3ef252de4e71b44488908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:58 +0000
Subject: [PATCH 006/110] fix: do not treat a failing read as an empty file
 when hashing PBO file names

---
 libs/pbo/src/read.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libs/pbo/src/read.rs b/libs/pbo/src/read.rs
index cc1949b..00d0cf4 100644
--- a/libs/pbo/src/read.rs
+++ b/libs/pbo/src/read.rs
@@ -243,8 +243,10 @@ impl<I: Seek + Read> ReadablePbo<I> {
             let Some(mut file) = self.file(header.filename())? else {
                 continue;
             };
-            if file.read_u8().is_err() {
-                continue;
+            match file.read_u8() {
+                Ok(_) => {}
+                Err(e) if e.kind() == std::io::ErrorKind::UnexpectedEof => continue,
+                Err(e) => return Err(e.into()),
             }
             hasher.update(header.filename().replace('/', "\\").to_lowercase());
         }
-- 
2.43.0


From c6b7af3c1b92e2359af5f46de7cb18f6a7bd47eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:25 +0000
Subject: [PATCH 007/110] fix: reject signatures made with a different key of
 the same authority

---
 libs/signing/src/error.rs  | 4 ++++
 libs/signing/src/public.rs | 7 +++++++
 2 files changed, 11 insertions(+)

diff --git a/libs/signing/src/error.rs b/libs/signing/src/error.rs
index b7fc81e..2dc6cd3 100644
--- a/libs/signing/src/error.rs
+++ b/libs/signing/src/error.rs
@@ -41,6 +41,10 @@ pub enum Error {
         key: String,
     },
 
+    #[error("Key mismatch")]
+    /// The signature was made with a different key of the same authority
+    KeyMismatch,
+
     #[error("Unknown signature version {0}")]
     /// Unknown signature version
     UknownBISignVersion(u32),
diff --git a/libs/signing/src/public.rs b/libs/signing/src/public.rs
index 1e62b17..bd0a7f4 100644
--- a/libs/signing/src/public.rs
+++ b/libs/signing/src/public.rs
@@ -116,6 +116,13 @@ impl BIPublicKey {
             });
         }
 
+        if self.length != signature.length
+            || self.exponent != signature.exponent
+            || self.n != signature.n
+        {
+            return Err(Error::KeyMismatch);
+        }
+
         if pbo.is_sorted().is_err() {
             return Err(Error::InvalidFileSorting);
         }
-- 
2.43.0


From bb68b4089c30b5a4e1d70f4fc0a7ae2d2be7dfeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:25 +0000
Subject: [PATCH 008/110] fix: return an error for damaged public keys and
 signatures instead of panicking

---
 libs/signing/src/public.rs    | 9 ++++-----
 libs/signing/src/signature.rs | 9 ++++-----
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/libs/signing/src/public.rs b/libs/signing/src/public.rs
index bd0a7f4..5fd0c6e 100644
--- a/libs/signing/src/public.rs
+++ b/libs/signing/src/public.rs
@@ -73,10 +73,7 @@ impl BIPublicKey {
     /// Read a public key from a reader
     ///
     /// # Errors
-    /// If the reader fails to read
-    ///
-    /// # Panics
-    /// If the public key is invalid
+    /// If the reader fails to read or the public key is invalid
     pub fn read<I: Read>(input: &mut I) -> Result<Self, Error> {
         let authority = input.read_cstring()?;
         let temp = input.read_u32::<LittleEndian>()?;
@@ -86,7 +83,9 @@ impl BIPublicKey {
         let length = input.read_u32::<LittleEndian>()?;
         let exponent = BigUint::new(vec![input.read_u32::<LittleEndian>()?]);
 
-        assert_eq!(temp, length / 8 + 20);
+        if temp != length / 8 + 20 {
+            return Err(Error::InvalidLength);
+        }
 
         let mut buffer = vec![0; (length / 8) as usize];
         input.read_exact(&mut buffer)?;
diff --git a/libs/signing/src/signature.rs b/libs/signing/src/signature.rs
index af52b13..b40547c 100644
--- a/libs/signing/src/signature.rs
+++ b/libs/signing/src/signature.rs
@@ -107,10 +107,7 @@ impl BISign {
     /// Read a signature from a reader
     ///
     /// # Errors
-    /// If the reader fails to read
-    ///
-    /// # Panics
-    /// If the signature is invalid
+    /// If the reader fails to read or the signature is invalid
     pub fn read<I: Read>(input: &mut I) -> Result<Self, Error> {
         let authority = input.read_cstring()?;
         let temp = input.read_u32::<LittleEndian>()?;
@@ -120,7 +117,9 @@ impl BISign {
         let length = input.read_u32::<LittleEndian>()?;
         let exponent = BigUint::new(vec![input.read_u32::<LittleEndian>()?]);
 
-        assert_eq!(temp, length / 8 + 20);
+        if temp != length / 8 + 20 {
+            return Err(Error::InvalidLength);
+        }
 
         let mut buffer = vec![0; (length / 8) as usize];
         input.read_exact(&mut buffer)?;
-- 
2.43.0


From 0be5ae4417d48f555d12d63b5b2cf9494b96acba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:25 +0000
Subject: [PATCH 009/110] fix: do not allocate the size claimed by a damaged
 key or signature

---
 libs/signing/src/lib.rs       | 11 +++++++++
 libs/signing/src/private.rs   | 42 ++++++-----------------------------
 libs/signing/src/public.rs    |  4 +---
 libs/signing/src/signature.rs | 16 ++++---------
 4 files changed, 23 insertions(+), 50 deletions(-)

diff --git a/libs/signing/src/lib.rs b/libs/signing/src/lib.rs
index c8cb967..83fc45a 100644
--- a/libs/signing/src/lib.rs
+++ b/libs/signing/src/lib.rs
@@ -34,6 +34,17 @@ pub fn write_biguint<O: Write>(output: &mut O, bn: &BigUint, size: usize) -> Res
     output.write_all(&vec).map_err(std::convert::Into::into)
 }
 
+/// Reads a [`BigUint`] of the given size from the given input.
+fn read_biguint<I: Read>(input: &mut I, size: u32) -> Result<BigUint, Error> {
+    // the size is not trusted, only what is there gets allocated
+    let mut buffer = Vec::new();
+    input.take(u64::from(size)).read_to_end(&mut buffer)?;
+    if buffer.len() != size as usize {
+        return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+    }
+    Ok(BigUint::from_bytes_le(&buffer))
+}
+
 fn display_hashes(a: &BigUint, b: &BigUint) -> (String, String) {
     let hex_a = a.to_str_radix(16).to_lowercase();
     let hex_b = b.to_str_radix(16).to_lowercase();
diff --git a/libs/signing/src/private.rs b/libs/signing/src/private.rs
index 40231d6..d4ccfb2 100644
--- a/libs/signing/src/private.rs
+++ b/libs/signing/src/private.rs
@@ -95,47 +95,19 @@ impl BIPrivateKey {
             BigUint::from_bytes_le(&buffer)
         };
 
-        let n = {
-            let mut buffer = vec![0; (length / 8) as usize];
-            input.read_exact(&mut buffer)?;
-            BigUint::from_bytes_le(&buffer)
-        };
+        let n = crate::read_biguint(input, length / 8)?;
 
-        let p = {
-            let mut buffer = vec![0; (length / 16) as usize];
-            input.read_exact(&mut buffer)?;
-            BigUint::from_bytes_le(&buffer)
-        };
+        let p = crate::read_biguint(input, length / 16)?;
 
-        let q = {
-            let mut buffer = vec![0; (length / 16) as usize];
-            input.read_exact(&mut buffer)?;
-            BigUint::from_bytes_le(&buffer)
-        };
+        let q = crate::read_biguint(input, length / 16)?;
 
-        let dp = {
-            let mut buffer = vec![0; (length / 16) as usize];
-            input.read_exact(&mut buffer)?;
-            BigUint::from_bytes_le(&buffer)
-        };
+        let dp = crate::read_biguint(input, length / 16)?;
 
-        let dq = {
-            let mut buffer = vec![0; (length / 16) as usize];
-            input.read_exact(&mut buffer)?;
-            BigUint::from_bytes_le(&buffer)
-        };
+        let dq = crate::read_biguint(input, length / 16)?;
 
-        let qinv = {
-            let mut buffer = vec![0; (length / 16) as usize];
-            input.read_exact(&mut buffer)?;
-            BigUint::from_bytes_le(&buffer)
-        };
+        let qinv = crate::read_biguint(input, length / 16)?;
 
-        let d = {
-            let mut buffer = vec![0; (length / 8) as usize];
-            input.read_exact(&mut buffer)?;
-            BigUint::from_bytes_le(&buffer)
-        };
+        let d = crate::read_biguint(input, length / 8)?;
 
         Ok(Self {
             authority,
diff --git a/libs/signing/src/public.rs b/libs/signing/src/public.rs
index 5fd0c6e..148aed5 100644
--- a/libs/signing/src/public.rs
+++ b/libs/signing/src/public.rs
@@ -87,9 +87,7 @@ impl BIPublicKey {
             return Err(Error::InvalidLength);
         }
 
-        let mut buffer = vec![0; (length / 8) as usize];
-        input.read_exact(&mut buffer)?;
-        let n = BigUint::from_bytes_le(&buffer);
+        let n = crate::read_biguint(input, length / 8)?;
 
         Ok(Self {
             authority,
diff --git a/libs/signing/src/signature.rs b/libs/signing/src/signature.rs
index b40547c..a42a8fd 100644
--- a/libs/signing/src/signature.rs
+++ b/libs/signing/src/signature.rs
@@ -121,15 +121,11 @@ impl BISign {
             return Err(Error::InvalidLength);
         }
 
-        let mut buffer = vec![0; (length / 8) as usize];
-        input.read_exact(&mut buffer)?;
-        let n = BigUint::from_bytes_le(&buffer);
+        let n = crate::read_biguint(input, length / 8)?;
 
         input.read_u32::<LittleEndian>()?;
 
-        let mut buffer = vec![0; (length / 8) as usize];
-        input.read_exact(&mut buffer)?;
-        let sig1 = BigUint::from_bytes_le(&buffer);
+        let sig1 = crate::read_biguint(input, length / 8)?;
 
         let version = match input.read_u32::<LittleEndian>()? {
             2 => BISignVersion::V2,
@@ -141,15 +137,11 @@ impl BISign {
 
         input.read_u32::<LittleEndian>()?;
 
-        let mut buffer = vec![0; (length / 8) as usize];
-        input.read_exact(&mut buffer)?;
-        let sig2 = BigUint::from_bytes_le(&buffer);
+        let sig2 = crate::read_biguint(input, length / 8)?;
 
         input.read_u32::<LittleEndian>()?;
 
-        let mut buffer = vec![0; (length / 8) as usize];
-        input.read_exact(&mut buffer)?;
-        let sig3 = BigUint::from_bytes_le(&buffer);
+        let sig3 = crate::read_biguint(input, length / 8)?;
 
         Ok(Self {
             version,
-- 
2.43.0


From 659678be1098a3c08cf03e2bafcad7bcd5fb5395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:25 +0000
Subject: [PATCH 010/110] fix: reject keys that are too short or have no
 modulus instead of panicking

---
 libs/signing/src/lib.rs       | 14 ++++++++++++++
 libs/signing/src/private.rs   |  2 +-
 libs/signing/src/public.rs    |  2 +-
 libs/signing/src/signature.rs |  2 +-
 4 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/libs/signing/src/lib.rs b/libs/signing/src/lib.rs
index 83fc45a..561d092 100644
--- a/libs/signing/src/lib.rs
+++ b/libs/signing/src/lib.rs
@@ -45,6 +45,15 @@ fn read_biguint<I: Read>(input: &mut I, size: u32) -> Result<BigUint, Error> {
     Ok(BigUint::from_bytes_le(&buffer))
 }
 
+/// Reads the modulus of a key, which can not be zero.
+fn read_modulus<I: Read>(input: &mut I, length: u32) -> Result<BigUint, Error> {
+    let n = read_biguint(input, length / 8)?;
+    if n.bits() == 0 {
+        return Err(Error::InvalidLength);
+    }
+    Ok(n)
+}
+
 fn display_hashes(a: &BigUint, b: &BigUint) -> (String, String) {
     let hex_a = a.to_str_radix(16).to_lowercase();
     let hex_b = b.to_str_radix(16).to_lowercase();
@@ -72,6 +81,11 @@ pub fn generate_hashes<I: Seek + Read>(
     version: BISignVersion,
     length: u32,
 ) -> Result<(BigUint, BigUint, BigUint), Error> {
+    // the padding around a hash takes 38 bytes
+    if length / 8 < 38 {
+        return Err(Error::InvalidLength);
+    }
+
     let mut hasher = Sha1::new();
     let hash1 = pbo.gen_checksum()?;
 
diff --git a/libs/signing/src/private.rs b/libs/signing/src/private.rs
index d4ccfb2..acce29d 100644
--- a/libs/signing/src/private.rs
+++ b/libs/signing/src/private.rs
@@ -95,7 +95,7 @@ impl BIPrivateKey {
             BigUint::from_bytes_le(&buffer)
         };
 
-        let n = crate::read_biguint(input, length / 8)?;
+        let n = crate::read_modulus(input, length)?;
 
         let p = crate::read_biguint(input, length / 16)?;
 
diff --git a/libs/signing/src/public.rs b/libs/signing/src/public.rs
index 148aed5..bd32691 100644
--- a/libs/signing/src/public.rs
+++ b/libs/signing/src/public.rs
@@ -87,7 +87,7 @@ impl BIPublicKey {
             return Err(Error::InvalidLength);
         }
 
-        let n = crate::read_biguint(input, length / 8)?;
+        let n = crate::read_modulus(input, length)?;
 
         Ok(Self {
             authority,
diff --git a/libs/signing/src/signature.rs b/libs/signing/src/signature.rs
index a42a8fd..fef5330 100644
--- a/libs/signing/src/signature.rs
+++ b/libs/signing/src/signature.rs
@@ -121,7 +121,7 @@ impl BISign {
             return Err(Error::InvalidLength);
         }
 
-        let n = crate::read_biguint(input, length / 8)?;
+        let n = crate::read_modulus(input, length)?;
 
         input.read_u32::<LittleEndian>()?;
 
-- 
2.43.0


From f4d87120469f9e37260d4389b47b25fadcd59213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:24 +0000
Subject: [PATCH 011/110] fix: report write errors hit when flushing a P3D

---
 libs/p3d/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libs/p3d/src/lib.rs b/libs/p3d/src/lib.rs
index d10547a..b9f2245 100644
--- a/libs/p3d/src/lib.rs
+++ b/libs/p3d/src/lib.rs
@@ -77,6 +77,8 @@ impl P3D {
             lod.write(&mut writer)?;
         }
 
+        writer.flush()?;
+
         Ok(())
     }
 }
-- 
2.43.0


From 3ef34213f6a7485d8957c382536e052f20668e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:24 +0000
Subject: [PATCH 012/110] fix: do not ignore read errors between the fields of
 a P3D LOD

---
 libs/p3d/src/lod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/p3d/src/lod.rs b/libs/p3d/src/lod.rs
index 4724aa6..9d8e7fa 100644
--- a/libs/p3d/src/lod.rs
+++ b/libs/p3d/src/lod.rs
@@ -38,7 +38,7 @@ impl LOD {
         let num_face_normals = input.read_u32::<LittleEndian>()?;
         let num_faces = input.read_u32::<LittleEndian>()?;
 
-        input.bytes().nth(3);
+        input.read_exact(&mut buffer)?; // flags
 
         let mut points: Vec<Point> = Vec::with_capacity(num_points as usize);
         let mut face_normals: Vec<(f32, f32, f32)> = Vec::with_capacity(num_face_normals as usize);
@@ -70,7 +70,7 @@ impl LOD {
         let mut taggs: IndexMap<String, Box<[u8]>> = IndexMap::new();
 
         loop {
-            input.bytes().next();
+            input.read_u8()?; // active
 
             let name = input.read_cstring()?;
             let size = input.read_u32::<LittleEndian>()?;
-- 
2.43.0


From 9b2246243c0ba82d320e1b4f30f65e19f9f0a946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:58 +0000
Subject: [PATCH 013/110] fix: do not allocate the counts and sizes claimed by
 a damaged P3D

---
 libs/p3d/src/lib.rs |  2 +-
 libs/p3d/src/lod.rs | 16 ++++++++++------
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/libs/p3d/src/lib.rs b/libs/p3d/src/lib.rs
index b9f2245..3670d9e 100644
--- a/libs/p3d/src/lib.rs
+++ b/libs/p3d/src/lib.rs
@@ -49,7 +49,7 @@ impl P3D {
 
         let version = reader.read_u32::<LittleEndian>()?;
         let num_lods = reader.read_u32::<LittleEndian>()?;
-        let mut lods: Vec<LOD> = Vec::with_capacity(num_lods as usize);
+        let mut lods: Vec<LOD> = Vec::new();
 
         for _i in 0..num_lods {
             lods.push(LOD::read(&mut reader)?);
diff --git a/libs/p3d/src/lod.rs b/libs/p3d/src/lod.rs
index 9d8e7fa..4288485 100644
--- a/libs/p3d/src/lod.rs
+++ b/libs/p3d/src/lod.rs
@@ -40,9 +40,10 @@ impl LOD {
 
         input.read_exact(&mut buffer)?; // flags
 
-        let mut points: Vec<Point> = Vec::with_capacity(num_points as usize);
-        let mut face_normals: Vec<(f32, f32, f32)> = Vec::with_capacity(num_face_normals as usize);
-        let mut faces: Vec<Face> = Vec::with_capacity(num_faces as usize);
+        // The counts are untrusted, memory is only used for what can actually be read
+        let mut points: Vec<Point> = Vec::new();
+        let mut face_normals: Vec<(f32, f32, f32)> = Vec::new();
+        let mut faces: Vec<Face> = Vec::new();
 
         for _i in 0..num_points {
             points.push(Point::read(input)?);
@@ -74,14 +75,17 @@ impl LOD {
 
             let name = input.read_cstring()?;
             let size = input.read_u32::<LittleEndian>()?;
-            let mut buffer = vec![0; size as usize].into_boxed_slice();
-            input.read_exact(&mut buffer)?;
+            let mut buffer = Vec::new();
+            input.take(u64::from(size)).read_to_end(&mut buffer)?;
+            if buffer.len() != size as usize {
+                return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+            }
 
             if name == "#EndOfFile#" {
                 break;
             }
 
-            taggs.insert(name, buffer);
+            taggs.insert(name, buffer.into_boxed_slice());
         }
 
         let resolution = input.read_f32::<LittleEndian>()?;
-- 
2.43.0


From 5b34e8a552797fb674d28b36af5064ed58bdfaaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:58 +0000
Subject: [PATCH 014/110] fix: do not take a texture found under another
 extension for an existing material

---
 libs/p3d/src/functions/missing.rs | 36 +++++++++++++++----------------
 1 file changed, 17 insertions(+), 19 deletions(-)

diff --git a/libs/p3d/src/functions/missing.rs b/libs/p3d/src/functions/missing.rs
index 7a58fd1..bda4623 100644
--- a/libs/p3d/src/functions/missing.rs
+++ b/libs/p3d/src/functions/missing.rs
@@ -40,6 +40,20 @@ impl SearchCache {
     }
 }
 
+/// Check if a path exists in the workspace, remembering the answer for exactly that path
+fn cached_exists(
+    workspace: &WorkspacePath,
+    cache: &SearchCache,
+    path: &String,
+) -> Result<bool, Error> {
+    if let Some(exists) = cache.exists(path) {
+        return Ok(exists);
+    }
+    let exists = workspace.locate(path)?.is_some();
+    cache.insert(path.clone(), exists);
+    Ok(exists)
+}
+
 impl P3D {
     /// Find missing textures and materials in the P3D
     ///
@@ -69,11 +83,7 @@ impl P3D {
                 format!("\\{texture}")
             };
             // let texture = texture.to_lowercase();
-            if let Some(exists) = cache.exists(&texture) {
-                if !exists {
-                    missing_textures.push(texture);
-                }
-            } else if workspace.locate(&texture)?.is_none() {
+            if !cached_exists(workspace, cache, &texture)? {
                 #[allow(clippy::case_sensitive_file_extension_comparisons)]
                 // working on lowercase paths
                 let (replaced, ext) = if texture.ends_with(".paa") {
@@ -85,14 +95,9 @@ impl P3D {
                 } else {
                     (texture.clone(), "")
                 };
-                if ext.is_empty() || workspace.locate(&replaced)?.is_none() {
-                    cache.insert(texture.clone(), false);
+                if ext.is_empty() || !cached_exists(workspace, cache, &replaced)? {
                     missing_textures.push(texture);
-                } else {
-                    cache.insert(texture.clone(), true);
                 }
-            } else {
-                cache.insert(texture.clone(), true);
             }
         }
         let mut missing_materials = Vec::new();
@@ -105,15 +110,8 @@ impl P3D {
             } else {
                 format!("\\{material}")
             };
-            if let Some(exists) = cache.exists(&material) {
-                if !exists {
-                    missing_materials.push(material);
-                }
-            } else if workspace.locate(&material)?.is_none() {
-                cache.insert(material.clone(), false);
+            if !cached_exists(workspace, cache, &material)? {
                 missing_materials.push(material);
-            } else {
-                cache.insert(material.clone(), true);
             }
         }
         Ok((missing_textures, missing_materials))
-- 
2.43.0


From da6ce19babbf09fa2baeaa952701762cb98214ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:58 +0000
Subject: [PATCH 015/110] fix: report missing textures and materials of a P3D
 in a stable order

---
 libs/p3d/src/functions/missing.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libs/p3d/src/functions/missing.rs b/libs/p3d/src/functions/missing.rs
index bda4623..7ef0ddb 100644
--- a/libs/p3d/src/functions/missing.rs
+++ b/libs/p3d/src/functions/missing.rs
@@ -1,5 +1,5 @@
 use std::{
-    collections::{HashMap, HashSet},
+    collections::{BTreeSet, HashMap},
     sync::RwLock,
 };
 
@@ -64,8 +64,8 @@ impl P3D {
         workspace: &WorkspacePath,
         cache: &SearchCache,
     ) -> Result<(Vec<String>, Vec<String>), Error> {
-        let mut textures = HashSet::new();
-        let mut materials = HashSet::new();
+        let mut textures = BTreeSet::new();
+        let mut materials = BTreeSet::new();
         for lod in &self.lods {
             for face in &lod.faces {
                 textures.insert(face.texture.clone());
-- 
2.43.0


From a0b6850f337e7c62f20138d576e4323e6c76f4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:42 +0000
Subject: [PATCH 016/110] fix: return an error for PAA formats that can not be
 decoded instead of panicking

---
 libs/paa/src/paa.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/libs/paa/src/paa.rs b/libs/paa/src/paa.rs
index e00241a..fd0eae6 100644
--- a/libs/paa/src/paa.rs
+++ b/libs/paa/src/paa.rs
@@ -88,6 +88,15 @@ impl Paa {
                     seek.clone_from_slice(&offs[p..p + 4]);
                     let seek = u32::from_le_bytes(seek);
                     if seek != 0 {
+                        if !matches!(
+                            paa.format,
+                            PaXType::DXT1 | PaXType::DXT3 | PaXType::DXT5
+                        ) {
+                            return Err(Error::new(
+                                std::io::ErrorKind::InvalidData,
+                                format!("unsupported paa format {}", paa.format),
+                            ));
+                        }
                         input.seek(SeekFrom::Start(u64::from(seek)))?;
                         paa.maps
                             .push(MipMap::from_stream(paa.format.clone().into(), &mut input)?);
-- 
2.43.0


From 4af939269d545460049cb53284c558fdcfbcdbe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:42 +0000
Subject: [PATCH 017/110] fix: do not allocate the tagg size claimed by a
 damaged PAA

---
 libs/paa/src/paa.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/libs/paa/src/paa.rs b/libs/paa/src/paa.rs
index fd0eae6..8e1e69a 100644
--- a/libs/paa/src/paa.rs
+++ b/libs/paa/src/paa.rs
@@ -74,10 +74,16 @@ impl Paa {
                         .to_string()
                 };
                 paa.taggs.insert(name, {
-                    let mut buffer: Box<[u8]> =
-                        vec![0; (input.read_u32::<LittleEndian>()?) as usize].into_boxed_slice();
-                    input.read_exact(&mut buffer)?;
-                    buffer.to_vec()
+                    let length = input.read_u32::<LittleEndian>()?;
+                    let mut buffer = Vec::new();
+                    input
+                        .by_ref()
+                        .take(u64::from(length))
+                        .read_to_end(&mut buffer)?;
+                    if buffer.len() != length as usize {
+                        return Err(Error::from(std::io::ErrorKind::UnexpectedEof));
+                    }
+                    buffer
                 });
             }
             // Read MipMaps
-- 
2.43.0


From 80a2cc273ea6234ea8112aae049964e1c665ca2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:42 +0000
Subject: [PATCH 018/110] fix: handle PAA mipmaps of any size, and reject those
 with too little data, instead of panicking

---
 libs/paa/src/mipmap.rs | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/libs/paa/src/mipmap.rs b/libs/paa/src/mipmap.rs
index 6c46873..31353fd 100644
--- a/libs/paa/src/mipmap.rs
+++ b/libs/paa/src/mipmap.rs
@@ -22,12 +22,25 @@ impl MipMap {
         let length = stream.read_u24::<LittleEndian>()?;
         let mut buffer: Box<[u8]> = vec![0; length as usize].into_boxed_slice();
         stream.read_exact(&mut buffer)?;
-        Ok(Self {
+        let mipmap = Self {
             format,
             width,
             height,
             data: buffer.to_vec(),
-        })
+        };
+        // LZO can not expand data by more than 255 times
+        let max_size = if mipmap.is_compressed() {
+            mipmap.data.len() * 256
+        } else {
+            mipmap.data.len()
+        };
+        if mipmap.block_size() > max_size {
+            return Err(std::io::Error::new(
+                std::io::ErrorKind::InvalidData,
+                "mipmap has less data than its dimensions require",
+            ));
+        }
+        Ok(mipmap)
     }
 
     #[must_use]
@@ -46,6 +59,12 @@ impl MipMap {
         self.width % 32768 != self.width
     }
 
+    /// The size of the image data once it is no longer compressed with LZO
+    fn block_size(&self) -> usize {
+        self.format
+            .compressed_size(usize::from(self.width()), usize::from(self.height))
+    }
+
     #[must_use]
     /// Get the height of the `MipMap`
     pub const fn height(&self) -> u16 {
@@ -84,11 +103,10 @@ impl MipMap {
             width_2 -= 32768;
             true
         };
-        let mut img_size: u32 = u32::from(width_2) * u32::from(self.height);
-        if self.format == Format::Bc1 {
-            img_size /= 2;
+        if width_2 == 0 || self.height == 0 {
+            return image::DynamicImage::new_rgba8(u32::from(width_2), u32::from(self.height));
         }
-        let mut buffer: Box<[u8]> = vec![0; img_size as usize].into_boxed_slice();
+        let mut buffer: Box<[u8]> = vec![0; self.block_size()].into_boxed_slice();
         let mut out_buffer = vec![0u8; 4 * (width_2 as usize) * (self.height as usize)];
         if compress {
             let _ = hemtt_lzo::decompress_to_slice(data, &mut buffer);
-- 
2.43.0


From b1af633895058c9183919743e9a39d35d5db9200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:53 +0000
Subject: [PATCH 019/110] fix: reject images of a size a PAA can not hold
 instead of panicking or truncating it

---
 libs/paa/src/paa.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/libs/paa/src/paa.rs b/libs/paa/src/paa.rs
index 8e1e69a..5ce518a 100644
--- a/libs/paa/src/paa.rs
+++ b/libs/paa/src/paa.rs
@@ -121,9 +121,24 @@ impl Paa {
     /// Write the Paa to the given output
     ///
     /// # Errors
-    /// [`std::io::Error`] if the output is not writable
+    /// [`std::io::Error`] if the output is not writable, or the image has a size a Paa can not hold
     pub fn write(image: &RgbaImage, output: &mut impl Write) -> Result<(), Error> {
         let algo: Format = PaXType::DXT5.clone().into();
+        let size = algo.compressed_size(image.width() as usize, image.height() as usize);
+        if size == 0
+            || size >= 1 << 24
+            || image.width() >= 1 << 15
+            || image.height() >= 1 << 16
+        {
+            return Err(Error::new(
+                std::io::ErrorKind::InvalidInput,
+                format!(
+                    "a paa can not hold an image of {}x{}",
+                    image.width(),
+                    image.height()
+                ),
+            ));
+        }
         output.write_all(&PaXType::DXT5.as_bytes())?; // 2
 
         // Average Color
@@ -181,7 +196,6 @@ impl Paa {
         // Write main image
         output.write_u16::<LittleEndian>(image.width() as u16)?;
         output.write_u16::<LittleEndian>(image.height() as u16)?;
-        let size = algo.compressed_size(image.width() as usize, image.height() as usize);
         output.write_u24::<LittleEndian>(size as u32)?;
         let mut buffer = vec![0; size];
         algo.compress(
-- 
2.43.0


From ab0e38e65262c45eba0f8886d087a1a9ffcbb99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:19 +0000
Subject: [PATCH 020/110] fix: do not write compressed data outside of an
 output buffer that is too small

---
 libs/lzo/src/lib.rs | 74 +++++++++++++++++++++++++--------------------
 1 file changed, 42 insertions(+), 32 deletions(-)

diff --git a/libs/lzo/src/lib.rs b/libs/lzo/src/lib.rs
index b4bb667..9b65c56 100644
--- a/libs/lzo/src/lib.rs
+++ b/libs/lzo/src/lib.rs
@@ -50,26 +50,50 @@ pub enum LzoError {
 /// # Errors
 /// [`LzoError`] if an error occurs
 pub fn compress(input: &[u8], output: &mut Vec<u8>) -> Result<(), LzoError> {
+    output.clear();
     unsafe {
-        let wrkmem = libc::malloc(LZO1X_MEM_COMPRESS);
-        let mut out_len = output.capacity();
-        let err = compress::lzo1x_1_compress(
-            input.as_ptr(),
-            input.len(),
-            output.as_mut_ptr(),
-            &mut out_len,
-            wrkmem,
-        );
-
+        let out_len = compress_into(input, output.as_mut_ptr(), output.capacity())?;
         output.set_len(out_len);
-        libc::free(wrkmem);
-        let res = mem::transmute::<i32, LzoError>(err);
-        if res == LzoError::Ok {
-            Ok(())
-        } else {
-            Err(res)
+    }
+    Ok(())
+}
+
+#[cfg(feature = "compress")]
+/// compress `input` into the `capacity` bytes at `out`, returns the compressed size
+///
+/// # Safety
+/// `out` must be valid for writes of `capacity` bytes
+unsafe fn compress_into(input: &[u8], out: *mut u8, capacity: usize) -> Result<usize, LzoError> {
+    // The compressor does not know the size of its output, it needs room for the worst case
+    let worst = worst_compress(input.len());
+    let mut spare: Vec<u8> = Vec::new();
+    let target = if capacity < worst {
+        spare
+            .try_reserve_exact(worst)
+            .map_err(|_| LzoError::OutOfMemory)?;
+        spare.as_mut_ptr()
+    } else {
+        out
+    };
+    let wrkmem = libc::malloc(LZO1X_MEM_COMPRESS);
+    if wrkmem.is_null() {
+        return Err(LzoError::OutOfMemory);
+    }
+    let mut out_len = 0;
+    let err =
+        compress::lzo1x_1_compress(input.as_ptr(), input.len(), target, &mut out_len, wrkmem);
+    libc::free(wrkmem);
+    let res = mem::transmute::<i32, LzoError>(err);
+    if res != LzoError::Ok {
+        return Err(res);
+    }
+    if capacity < worst {
+        if out_len > capacity {
+            return Err(LzoError::OutputOverrun);
         }
+        std::ptr::copy_nonoverlapping(target, out, out_len);
     }
+    Ok(out_len)
 }
 
 #[cfg(feature = "compress")]
@@ -79,22 +103,8 @@ pub fn compress(input: &[u8], output: &mut Vec<u8>) -> Result<(), LzoError> {
 /// [`LzoError`] if an error occurs
 pub fn compress_to_slice<'a>(in_: &[u8], out: &'a mut [u8]) -> Result<&'a mut [u8], LzoError> {
     unsafe {
-        let wrkmem = libc::malloc(LZO1X_MEM_COMPRESS);
-        let mut out_len = out.len();
-        let err = compress::lzo1x_1_compress(
-            in_.as_ptr(),
-            in_.len(),
-            out.as_mut_ptr(),
-            &mut out_len,
-            wrkmem,
-        );
-        libc::free(wrkmem);
-        let res = mem::transmute::<i32, LzoError>(err);
-        if res == LzoError::Ok {
-            Ok(slice::from_raw_parts_mut(out.as_mut_ptr(), out_len))
-        } else {
-            Err(res)
-        }
+        let out_len = compress_into(in_, out.as_mut_ptr(), out.len())?;
+        Ok(slice::from_raw_parts_mut(out.as_mut_ptr(), out_len))
     }
 }
 
-- 
2.43.0


From b982449b559e758ef5bea0b88ec37f094228111e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:08 +0000
Subject: [PATCH 021/110] fix: decode PAA mipmaps with a height that is not a
 multiple of 4

---
 libs/paa/src/mipmap.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/libs/paa/src/mipmap.rs b/libs/paa/src/mipmap.rs
index 31353fd..e13a8f1 100644
--- a/libs/paa/src/mipmap.rs
+++ b/libs/paa/src/mipmap.rs
@@ -107,23 +107,26 @@ impl MipMap {
             return image::DynamicImage::new_rgba8(u32::from(width_2), u32::from(self.height));
         }
         let mut buffer: Box<[u8]> = vec![0; self.block_size()].into_boxed_slice();
-        let mut out_buffer = vec![0u8; 4 * (width_2 as usize) * (self.height as usize)];
+        // The image is decoded in rows of blocks that are 4 pixels high
+        let block_height = usize::from(self.height).div_ceil(4) * 4;
+        let mut out_buffer = vec![0u8; 4 * usize::from(width_2) * block_height];
         if compress {
             let _ = hemtt_lzo::decompress_to_slice(data, &mut buffer);
             self.format.decompress(
                 &buffer,
                 usize::from(width_2),
-                usize::from(self.height),
+                block_height,
                 &mut out_buffer,
             );
         } else {
             self.format.decompress(
                 data,
                 usize::from(width_2),
-                usize::from(self.height),
+                block_height,
                 &mut out_buffer,
             );
         };
+        out_buffer.truncate(4 * usize::from(width_2) * usize::from(self.height));
         image::DynamicImage::ImageRgba8(
             image::RgbaImage::from_raw(u32::from(width_2), u32::from(self.height), out_buffer)
                 .expect("paa should contain valid image data"),
-- 
2.43.0


From a51065ea04a60a1cb15c639572a2b9e75dc98bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:35 +0000
Subject: [PATCH 022/110] fix: resolve paths through the longest matching
 prefix instead of a random one

---
 libs/workspace/src/path.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/libs/workspace/src/path.rs b/libs/workspace/src/path.rs
index 06712e7..73a08ce 100644
--- a/libs/workspace/src/path.rs
+++ b/libs/workspace/src/path.rs
@@ -136,10 +136,15 @@ impl WorkspacePath {
     pub fn as_virtual_str(&self) -> String {
         let mut path = self.data.path.as_str().replace('\\', "/");
         let path_lower = path.to_lowercase();
-        if let Some((base, root)) =
-            self.data.workspace.pointers.iter().find(|(_, vfs)| {
+        if let Some((base, root)) = self
+            .data
+            .workspace
+            .pointers
+            .iter()
+            .filter(|(_, vfs)| {
                 path_lower.starts_with(&format!("{}/", vfs.as_str().to_lowercase()))
             })
+            .max_by_key(|(_, vfs)| vfs.as_str().len())
         {
             path = format!("{}{}", base, &path[root.as_str().len()..].to_string());
         }
@@ -250,7 +255,8 @@ impl WorkspacePath {
                 .workspace
                 .pointers
                 .iter()
-                .find(|(p, _)| path_lower.starts_with(&format!("{}/", p.to_lowercase())))
+                .filter(|(p, _)| path_lower.starts_with(&format!("{}/", p.to_lowercase())))
+                .max_by_key(|(p, _)| p.len())
             {
                 let ret_path = root.join(
                     path.strip_prefix_insensitive(base)
-- 
2.43.0


From 759aab7bddfa00b2750b9242659038a3de71c6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:35 +0000
Subject: [PATCH 023/110] fix: match paths case-insensitively in the workspace
 instead of the current directory, and report errors

---
 libs/workspace/src/path.rs | 81 +++++++++++++++-----------------------
 1 file changed, 32 insertions(+), 49 deletions(-)

diff --git a/libs/workspace/src/path.rs b/libs/workspace/src/path.rs
index 73a08ce..c25ff68 100644
--- a/libs/workspace/src/path.rs
+++ b/libs/workspace/src/path.rs
@@ -1,8 +1,4 @@
-use std::{
-    hash::Hasher,
-    path::{Path, PathBuf},
-    sync::Arc,
-};
+use std::{hash::Hasher, sync::Arc};
 
 use hemtt_common::strip::StripInsensitive;
 use vfs::{SeekAndWrite, VfsPath};
@@ -204,9 +200,6 @@ impl WorkspacePath {
     ///
     /// # Errors
     /// [`Error::Vfs`] if the path could not be located
-    ///
-    /// # Panics
-    /// If the found path is not valid utf-8
     pub fn locate(&self, path: &str) -> Result<Option<LocateResult>, Error> {
         fn is_wrong_case(on_disk: &VfsPath, requested: &str) -> bool {
             let on_disk = on_disk.as_str().replace('\\', "/");
@@ -264,7 +257,6 @@ impl WorkspacePath {
                         .strip_prefix('/')
                         .unwrap_or(&path),
                 )?;
-                let path_str = ret_path.as_str().trim_start_matches('/');
                 if ret_path.exists()? {
                     return Ok(Some(LocateResult {
                         case_mismatch: if is_wrong_case(&ret_path, &path) {
@@ -279,31 +271,28 @@ impl WorkspacePath {
                             }),
                         },
                     }));
-                } else if let Some(insensitive) = exists_case_insensitive(Path::new(path_str)) {
+                } else if let Some(insensitive) =
+                    find_case_insensitive(&self.data.workspace, &ret_path)?
+                {
                     return Ok(Some(LocateResult {
-                        case_mismatch: Some(insensitive.to_string_lossy().to_string()),
+                        case_mismatch: Some(insensitive.as_str().to_string()),
                         path: Self {
                             data: Arc::new(WorkspacePathData {
-                                path: self
-                                    .data
-                                    .workspace
-                                    .vfs
-                                    .join(insensitive.to_str().expect("utf-8"))?,
+                                path: insensitive,
                                 workspace: self.data.workspace.clone(),
                             }),
                         },
                     }));
                 }
-            } else if let Some(insensitive) = exists_case_insensitive(Path::new(&path)) {
+            } else if let Some(insensitive) = find_case_insensitive(
+                &self.data.workspace,
+                &self.data.workspace.vfs.join(&path)?,
+            )? {
                 return Ok(Some(LocateResult {
-                    case_mismatch: Some(insensitive.to_string_lossy().to_string()),
+                    case_mismatch: Some(insensitive.as_str().to_string()),
                     path: Self {
                         data: Arc::new(WorkspacePathData {
-                            path: self
-                                .data
-                                .workspace
-                                .vfs
-                                .join(insensitive.to_str().expect("utf-8"))?,
+                            path: insensitive,
                             workspace: self.data.workspace.clone(),
                         }),
                     },
@@ -424,35 +413,29 @@ pub struct LocateResult {
     pub case_mismatch: Option<String>,
 }
 
-/// Check if a path exists in a case-insensitive manner.
-fn exists_case_insensitive(path: &Path) -> Option<PathBuf> {
-    exists_case_insensitive_from(path, PathBuf::from("."))
-        .or_else(|| exists_case_insensitive_from(path, PathBuf::from("./include")))
+/// Find a path in the workspace in a case-insensitive manner.
+fn find_case_insensitive(workspace: &Workspace, path: &VfsPath) -> Result<Option<VfsPath>, Error> {
+    if let Some(found) = find_case_insensitive_from(&workspace.vfs, path)? {
+        return Ok(Some(found));
+    }
+    find_case_insensitive_from(&workspace.vfs.join("include")?, path)
 }
 
-fn exists_case_insensitive_from(path: &Path, from: PathBuf) -> Option<PathBuf> {
-    let mut current_path = from;
-    for component in path.components() {
-        if let std::path::Component::Normal(name) = component {
-            let mut found = false;
-            if let Ok(entries) = std::fs::read_dir(&current_path) {
-                for entry in entries.filter_map(Result::ok) {
-                    if entry.file_name().eq_ignore_ascii_case(name) {
-                        current_path.push(entry.file_name());
-                        found = true;
-                        break;
-                    }
-                }
-            }
-            if !found {
-                return None;
+fn find_case_insensitive_from(from: &VfsPath, path: &VfsPath) -> Result<Option<VfsPath>, Error> {
+    let mut candidates = vec![from.clone()];
+    for name in path.as_str().split('/').filter(|name| !name.is_empty()) {
+        let mut found = Vec::new();
+        for candidate in candidates {
+            if candidate.is_dir()? {
+                found.extend(
+                    candidate
+                        .read_dir()?
+                        .filter(|entry| entry.filename().eq_ignore_ascii_case(name)),
+                );
             }
         }
+        found.sort_by(|a, b| a.as_str().cmp(b.as_str()));
+        candidates = found;
     }
-
-    if current_path.exists() {
-        Some(current_path)
-    } else {
-        None
-    }
+    Ok(candidates.into_iter().next())
 }
-- 
2.43.0


From d148c404c221016761d275b377480def5b8288a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:36 +0000
Subject: [PATCH 024/110] fix: report errors when walking the workspace instead
 of leaving out what can not be read

---
 libs/workspace/src/lib.rs  | 13 +++++++++----
 libs/workspace/src/path.rs | 12 +++++++-----
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/libs/workspace/src/lib.rs b/libs/workspace/src/lib.rs
index f3f31c4..7ddf39c 100644
--- a/libs/workspace/src/lib.rs
+++ b/libs/workspace/src/lib.rs
@@ -8,7 +8,7 @@ use hemtt_common::{
 };
 use pdrive::PDrive;
 use tracing::trace;
-use vfs::{AltrootFS, MemoryFS, OverlayFS, PhysicalFS, VfsPath};
+use vfs::{error::VfsErrorKind, AltrootFS, MemoryFS, OverlayFS, PhysicalFS, VfsPath};
 
 // Re-export for macros
 pub use linkme;
@@ -101,9 +101,14 @@ impl Workspace {
                 continue;
             }
             for entry in root.walk_dir()? {
-                let Ok(entry) = entry else {
-                    trace!("unknown issue with entry: {:?}", entry);
-                    continue;
+                let entry = match entry {
+                    Ok(entry) => entry,
+                    // dangling links and files that were removed meanwhile
+                    Err(e) if matches!(e.kind(), VfsErrorKind::FileNotFound) => {
+                        trace!("entry not found: {:?}", e);
+                        continue;
+                    }
+                    Err(e) => return Err(e.into()),
                 };
                 if entry.as_str().contains(".hemtt") {
                     continue;
diff --git a/libs/workspace/src/path.rs b/libs/workspace/src/path.rs
index c25ff68..5c82bbf 100644
--- a/libs/workspace/src/path.rs
+++ b/libs/workspace/src/path.rs
@@ -1,7 +1,7 @@
 use std::{hash::Hasher, sync::Arc};
 
 use hemtt_common::strip::StripInsensitive;
-use vfs::{SeekAndWrite, VfsPath};
+use vfs::{error::VfsErrorKind, SeekAndWrite, VfsPath};
 
 use super::{Error, LayerType, Workspace};
 
@@ -335,16 +335,18 @@ impl WorkspacePath {
     ///
     /// # Errors
     /// [`Error::Vfs`] if the workspace could not be walked
-    #[allow(clippy::missing_panics_doc)]
     pub fn walk_dir(&self) -> Result<Vec<Self>, Error> {
         Ok(self
             .data
             .path
             .walk_dir()?
-            .filter(std::result::Result::is_ok)
-            .map(|p| Self {
+            // dangling links and files that were removed meanwhile
+            .filter(|p| !matches!(p, Err(e) if matches!(e.kind(), VfsErrorKind::FileNotFound)))
+            .collect::<Result<Vec<_>, _>>()?
+            .into_iter()
+            .map(|path| Self {
                 data: Arc::new(WorkspacePathData {
-                    path: p.expect("filtered"),
+                    path,
                     workspace: self.data.workspace.clone(),
                 }),
             })
-- 
2.43.0


From 4e040bf159b9d8e71eae33bc9d8141b70e1d7ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:57 +0000
Subject: [PATCH 025/110] fix: report errors when scanning for addons instead
 of leaving them or their settings out

---
 libs/workspace/src/addons.rs | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/libs/workspace/src/addons.rs b/libs/workspace/src/addons.rs
index f42f8c5..54ae8b5 100644
--- a/libs/workspace/src/addons.rs
+++ b/libs/workspace/src/addons.rs
@@ -1,8 +1,8 @@
 use std::fmt::Display;
 use std::ops::Range;
 use std::path::{Path, PathBuf};
+use std::str::FromStr;
 use std::sync::{Arc, RwLock};
-use std::{fs::DirEntry, str::FromStr};
 
 use hemtt_common::config::AddonConfig;
 use hemtt_common::prefix::{Prefix, FILES};
@@ -47,7 +47,7 @@ impl Addon {
         Ok(Self {
             config: {
                 let path = path.join("addon.toml");
-                if path.exists() {
+                if path.try_exists()? {
                     Some(AddonConfig::from_file(&path)?)
                 } else {
                     None
@@ -67,7 +67,7 @@ impl Addon {
                 );
                 'search: for file in &files {
                     let path = path.join(file);
-                    if path.exists() {
+                    if path.try_exists()? {
                         let content = std::fs::read_to_string(path)?;
                         prefix = Some(Prefix::new(&content)?);
                         break 'search;
@@ -181,15 +181,24 @@ impl Location {
     /// - [`Error::AddonLocationInvalid`] if a folder name is invalid
     pub fn scan(self, root: &Path) -> Result<Option<Vec<Addon>>, crate::error::Error> {
         let folder = root.join(self.to_string());
-        if !folder.exists() {
+        if !folder.try_exists()? {
             return Ok(None);
         }
         trace!("Scanning {} for addons", folder.display());
-        std::fs::read_dir(folder)?
-            .collect::<std::io::Result<Vec<DirEntry>>>()?
-            .iter()
-            .map(std::fs::DirEntry::path)
-            .filter(|file_or_dir| file_or_dir.is_dir())
+        let mut folders = Vec::new();
+        for entry in std::fs::read_dir(folder)? {
+            let path = entry?.path();
+            match std::fs::metadata(&path) {
+                Ok(metadata) if metadata.is_dir() => folders.push(path),
+                Ok(_) => (),
+                // dangling links
+                Err(e) if e.kind() == std::io::ErrorKind::NotFound => (),
+                Err(e) => return Err(e.into()),
+            }
+        }
+        folders.sort();
+        folders
+            .into_iter()
             .map(|file| {
                 let Some(name) = file.file_name() else {
                     return Err(crate::error::Error::Addon(Error::LocationInvalid(
-- 
2.43.0


From f1cfd638559ecbeb064757c78ea58ac1f4d73474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:57 +0000
Subject: [PATCH 026/110] fix: strip prefixes that contain or cut through
 non-ASCII letters without panicking

---
 libs/common/src/strip.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/libs/common/src/strip.rs b/libs/common/src/strip.rs
index 3e5497d..6d85c34 100644
--- a/libs/common/src/strip.rs
+++ b/libs/common/src/strip.rs
@@ -5,14 +5,13 @@ pub trait StripInsensitive {
 
 impl StripInsensitive for str {
     fn strip_prefix_insensitive(&self, prefix: &str) -> Option<&str> {
-        if self.len() < prefix.len() {
-            return None;
-        }
-        if self[..prefix.len()].eq_ignore_ascii_case(prefix) {
-            Some(&self[prefix.len()..])
-        } else {
-            None
+        let mut rest = self.chars();
+        for expected in prefix.chars() {
+            if !rest.next()?.to_lowercase().eq(expected.to_lowercase()) {
+                return None;
+            }
         }
+        Some(rest.as_str())
     }
 }
 
-- 
2.43.0


From 7b88f5807bcef02418537c492e7b85408c7811fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:15 +0000
Subject: [PATCH 027/110] fix: report an unexpected end of input inside of a
 string instead of returning a part of it

---
 libs/common/src/io.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/libs/common/src/io.rs b/libs/common/src/io.rs
index b670c90..5d09889 100644
--- a/libs/common/src/io.rs
+++ b/libs/common/src/io.rs
@@ -29,13 +29,18 @@ pub trait ReadExt: Read {
 impl<T: Read> ReadExt for T {
     fn read_cstring(&mut self) -> io::Result<String> {
         let mut bytes: Vec<u8> = Vec::new();
+        let mut terminated = false;
         for byte in self.bytes() {
             let b = byte?;
             if b == 0 {
+                terminated = true;
                 break;
             }
             bytes.push(b);
         }
+        if !terminated {
+            return Err(io::Error::from(io::ErrorKind::UnexpectedEof));
+        }
 
         String::from_utf8(bytes).map_or_else(
             |_| {
@@ -50,12 +55,18 @@ impl<T: Read> ReadExt for T {
         let mut result: u32 = 0;
         for (i, byte) in self.bytes().enumerate() {
             let b: u32 = byte?.into();
+            if i > 4 {
+                return Err(io::Error::new(
+                    io::ErrorKind::InvalidData,
+                    "compressed int is too long",
+                ));
+            }
             result |= (b & 0x7f) << (i * 7);
             if b < 0x80 {
-                break;
+                return Ok(result);
             }
         }
-        Ok(result)
+        Err(io::Error::from(io::ErrorKind::UnexpectedEof))
     }
 }
 
-- 
2.43.0


From 4a69820a945b0972715e4784d5b96d9e3f6c157f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:06 +0000
Subject: [PATCH 028/110] fix: do not escape entities in string table names and
 IDs again when writing

---
 libs/stringtable/src/key.rs     | 4 +++-
 libs/stringtable/src/lib.rs     | 9 +++++++--
 libs/stringtable/src/package.rs | 4 ++--
 3 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/libs/stringtable/src/key.rs b/libs/stringtable/src/key.rs
index 70bdb18..840a22e 100644
--- a/libs/stringtable/src/key.rs
+++ b/libs/stringtable/src/key.rs
@@ -1,6 +1,8 @@
 use quick_xml::escape::minimal_escape;
 use serde::{Deserialize, Serialize, Serializer};
 
+use crate::min_escape_str;
+
 #[allow(clippy::ref_option)] // `&Option<String>` is expected by serde
 fn min_escape<S>(s: &Option<String>, ser: S) -> Result<S::Ok, S::Error>
 where
@@ -15,7 +17,7 @@ where
 #[derive(Clone, Debug, Deserialize, Serialize)]
 #[serde(rename_all = "PascalCase")]
 pub struct Key {
-    #[serde(rename = "@ID")]
+    #[serde(rename = "@ID", serialize_with = "min_escape_str")]
     id: String,
     #[serde(skip_serializing_if = "Option::is_none", serialize_with = "min_escape")]
     #[serde(alias = "original", alias = "ORIGINAL")]
diff --git a/libs/stringtable/src/lib.rs b/libs/stringtable/src/lib.rs
index 242e0d2..7fb16ae 100644
--- a/libs/stringtable/src/lib.rs
+++ b/libs/stringtable/src/lib.rs
@@ -1,6 +1,6 @@
 use std::io::BufReader;
 
-use quick_xml::se::Serializer;
+use quick_xml::{escape::minimal_escape, se::Serializer};
 use serde::{Deserialize, Serialize};
 
 pub mod analyze;
@@ -13,9 +13,14 @@ pub use package::Package;
 pub use totals::Totals;
 use tracing::error;
 
+/// Entities are kept as they are written, they must not be escaped again
+fn min_escape_str<S: serde::Serializer>(s: &str, ser: S) -> Result<S::Ok, S::Error> {
+    ser.serialize_str(&minimal_escape(s))
+}
+
 #[derive(Clone, Debug, Deserialize, Serialize)]
 pub struct Project {
-    #[serde(rename = "@name")]
+    #[serde(rename = "@name", serialize_with = "min_escape_str")]
     name: String,
     #[serde(rename = "Package")]
     packages: Vec<Package>,
diff --git a/libs/stringtable/src/package.rs b/libs/stringtable/src/package.rs
index 735eafc..78fb419 100644
--- a/libs/stringtable/src/package.rs
+++ b/libs/stringtable/src/package.rs
@@ -1,10 +1,10 @@
 use serde::{Deserialize, Serialize};
 
-use crate::{Key, Totals};
+use crate::{min_escape_str, Key, Totals};
 
 #[derive(Clone, Debug, Deserialize, Serialize)]
 pub struct Package {
-    #[serde(rename = "@name")]
+    #[serde(rename = "@name", serialize_with = "min_escape_str")]
     name: String,
     #[serde(rename = "Key")]
     #[serde(default)]
-- 
2.43.0


From e0ab5a409e51569377a49354dc436cad4185989a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:11 +0000
Subject: [PATCH 029/110] fix: keep string table comments followed by a blank
 line out of multi-line translations

---
 libs/stringtable/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/stringtable/src/lib.rs b/libs/stringtable/src/lib.rs
index 7fb16ae..0d1e926 100644
--- a/libs/stringtable/src/lib.rs
+++ b/libs/stringtable/src/lib.rs
@@ -73,7 +73,7 @@ impl Project {
                         buffer.push('\n');
                     }
                 }
-                if !reading_comments && !buffer.is_empty() {
+                if !reading_comments && !buffer.is_empty() && !l_trim.is_empty() {
                     comments.push((
                         buffer.trim().to_string(),
                         l_trim.to_string(),
-- 
2.43.0


From 16051c5c3786667990d13f7833acbddd795e16d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:21 +0000
Subject: [PATCH 030/110] fix: do not repeat string table entries that share a
 line with a comment

---
 libs/stringtable/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libs/stringtable/src/lib.rs b/libs/stringtable/src/lib.rs
index 0d1e926..7b28e4b 100644
--- a/libs/stringtable/src/lib.rs
+++ b/libs/stringtable/src/lib.rs
@@ -83,8 +83,13 @@ impl Project {
                 }
                 if reading_comments {
                     buffer.push_str(&l);
-                    if l_trim.ends_with("-->") {
+                    if let Some((_, rest)) = l_trim.split_once("-->") {
                         reading_comments = false;
+                        // a comment sharing its line with something else has no line to stay before
+                        let rest = rest.trim();
+                        if !rest.is_empty() && !rest.starts_with("<!--") {
+                            buffer.clear();
+                        }
                     }
                 }
                 if !reading_comments {
-- 
2.43.0


From e843af8b1217d8f8bd72c4bc0d81d18518fb8222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:40 +0000
Subject: [PATCH 031/110] fix: stop string table comments from multiplying with
 every write

---
 libs/stringtable/src/lib.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/libs/stringtable/src/lib.rs b/libs/stringtable/src/lib.rs
index 7b28e4b..a69552d 100644
--- a/libs/stringtable/src/lib.rs
+++ b/libs/stringtable/src/lib.rs
@@ -137,8 +137,19 @@ impl Project {
                 clear_next = false;
                 in_key = None;
             }
-            for (before, after, key) in &self.meta_comments {
-                if l_trim.starts_with(after) && &in_key == key {
+            // lines that look alike share their comments, write each of them once
+            let comments = self
+                .meta_comments
+                .iter()
+                .filter(|(_, after, key)| l_trim.starts_with(after) && &in_key == key)
+                .map(|(before, _, _)| (before, before.lines().map(str::trim).collect::<Vec<_>>()))
+                .collect::<Vec<_>>();
+            for (i, (before, lines)) in comments.iter().enumerate() {
+                let repeated = comments.iter().enumerate().any(|(j, (_, other))| {
+                    other.windows(lines.len()).any(|w| w == lines)
+                        && (other.len() > lines.len() || j < i)
+                });
+                if !repeated {
                     let mut whitespace = line
                         .chars()
                         .take_while(|c| c.is_whitespace())
-- 
2.43.0


From f417ce1d57593e284d3f1350dd3f7784d1adb2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:28 +0000
Subject: [PATCH 032/110] fix: detect launch configurations that extend each
 other without the first one being part of the circle

---
 libs/common/src/config/project/hemtt/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libs/common/src/config/project/hemtt/mod.rs b/libs/common/src/config/project/hemtt/mod.rs
index 5ed768c..6789074 100644
--- a/libs/common/src/config/project/hemtt/mod.rs
+++ b/libs/common/src/config/project/hemtt/mod.rs
@@ -102,10 +102,12 @@ impl HemttSectionFile {
                     .into_iter()
                     .map(|(k, v)| {
                         let mut base = v;
+                        let mut seen = vec![k.clone()];
                         while let Some(extends) = &base.extends {
-                            if extends == &k {
-                                return Err(Error::LaunchConfigExtendsSelf(k));
+                            if seen.contains(extends) {
+                                return Err(Error::LaunchConfigExtendsSelf(extends.clone()));
                             }
+                            seen.push(extends.clone());
                             if let Some(extends) = launch_source.get(extends) {
                                 base = base.extend(extends.clone());
                             } else {
-- 
2.43.0


From 95448b4581bd3649845ebd2357adecfaefc8babc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:28 +0000
Subject: [PATCH 033/110] fix: report an error when it is unknown whether
 lints.toml or launch.toml exist instead of ignoring them

---
 libs/common/src/config/project/hemtt/mod.rs | 2 +-
 libs/common/src/config/project/mod.rs       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/common/src/config/project/hemtt/mod.rs b/libs/common/src/config/project/hemtt/mod.rs
index 6789074..529ba67 100644
--- a/libs/common/src/config/project/hemtt/mod.rs
+++ b/libs/common/src/config/project/hemtt/mod.rs
@@ -77,7 +77,7 @@ impl HemttSectionFile {
     pub fn into_config(self, path: &Path, prefix: &str) -> Result<HemttConfig, Error> {
         let mut launch_path = path.to_path_buf();
         launch_path.set_file_name("launch.toml");
-        let launch_source = if launch_path.exists() {
+        let launch_source = if launch_path.try_exists()? {
             if self.launch.is_empty() {
                 let launch_source = std::fs::read_to_string(&launch_path)?;
                 if launch_source.contains("[hemtt.launch") {
diff --git a/libs/common/src/config/project/mod.rs b/libs/common/src/config/project/mod.rs
index 03711f1..a670367 100644
--- a/libs/common/src/config/project/mod.rs
+++ b/libs/common/src/config/project/mod.rs
@@ -201,7 +201,7 @@ impl TryFrom<ProjectFile> for ProjectConfig {
 
         let mut lints_path = file.meta_path;
         lints_path.set_file_name("lints.toml");
-        let lints_source = if lints_path.exists() {
+        let lints_source = if lints_path.try_exists()? {
             if ret.lints.is_empty() {
                 let lints_source = std::fs::read_to_string(&lints_path)?;
                 if lints_source.contains("[lints.") {
-- 
2.43.0


From de78992c91086912dc5d357e1496f4daeaadb711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:28 +0000
Subject: [PATCH 034/110] fix: do not drop stringtable lints of project.toml
 when lints.toml exists

---
 libs/common/src/config/project/lint.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/common/src/config/project/lint.rs b/libs/common/src/config/project/lint.rs
index 42b34f6..66da836 100644
--- a/libs/common/src/config/project/lint.rs
+++ b/libs/common/src/config/project/lint.rs
@@ -32,7 +32,7 @@ impl LintGroupConfig {
     }
 
     pub fn is_empty(&self) -> bool {
-        self.config.is_empty() && self.sqf.is_empty()
+        self.config.is_empty() && self.sqf.is_empty() && self.stringtables.is_empty()
     }
 }
 
-- 
2.43.0


From 725de3ab3568e14fb303269eb6d710584a4068e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:28 +0000
Subject: [PATCH 035/110] fix: reject an empty prefix in prefix files with keys

---
 libs/common/src/prefix.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libs/common/src/prefix.rs b/libs/common/src/prefix.rs
index bfd9536..9a41f68 100644
--- a/libs/common/src/prefix.rs
+++ b/libs/common/src/prefix.rs
@@ -57,6 +57,9 @@ impl Prefix {
                 let key = split.0.trim().to_lowercase();
                 if key == "prefix" {
                     let content = split.1.trim();
+                    if content.is_empty() {
+                        return Err(Error::Empty);
+                    }
                     if content.starts_with('\\') {
                         return Err(Error::InvalidPrefix(content.to_string()));
                     }
-- 
2.43.0


From e0831a738ee98eac8aab9e78938710bfa5d6c923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:08 +0000
Subject: [PATCH 036/110] fix: do not start block comments inside of strings
 and line comments when preprocessing

---
 libs/preprocessor/src/parse/mod.rs | 43 ++++++++++++++++++++++--------
 1 file changed, 32 insertions(+), 11 deletions(-)

diff --git a/libs/preprocessor/src/parse/mod.rs b/libs/preprocessor/src/parse/mod.rs
index ba8a21e..d478c3e 100644
--- a/libs/preprocessor/src/parse/mod.rs
+++ b/libs/preprocessor/src/parse/mod.rs
@@ -6,7 +6,7 @@ use hemtt_workspace::{
     WorkspacePath,
 };
 
-use pest::Parser;
+use pest::{error::InputLocation, iterators::Pairs, Parser};
 use pest_derive::Parser;
 
 use crate::{codes::pe24_parsing_failed::ParsingFailed, Error};
@@ -25,8 +25,7 @@ pub struct PreprocessorParser;
 /// If the file is invalid
 pub fn parse(path: &WorkspacePath) -> Result<Vec<Arc<Token>>, Error> {
     let source = path.read_to_string()?;
-    let pairs = PreprocessorParser::parse(Rule::file, &source)
-        .map_err(|e| ParsingFailed::code(e, path.clone()))?;
+    let mut pairs = parse_from(&source, 0, path)?;
     let mut tokens = Vec::new();
     let mut line = 1;
     let mut col = 0;
@@ -34,7 +33,7 @@ pub fn parse(path: &WorkspacePath) -> Result<Vec<Arc<Token>>, Error> {
     let mut in_single_string = false;
     let mut in_double_string = false;
     let mut skipping_comment = false;
-    for pair in pairs {
+    while let Some(pair) = pairs.next() {
         let start = LineCol(offset, (line, col));
         match pair.as_rule() {
             Rule::newline => {
@@ -45,17 +44,21 @@ pub fn parse(path: &WorkspacePath) -> Result<Vec<Arc<Token>>, Error> {
                 col = 0;
             }
             Rule::COMMENT => {
-                if in_single_string || in_double_string {
+                if in_single_string || in_double_string || skipping_comment {
+                    // Not the start of a comment, only the marker itself is read
+                    let marker = &pair.as_str()[..2];
+                    offset += marker.len();
+                    col += marker.len();
                     if !skipping_comment {
                         tokens.push(Arc::new(Token::new(
-                            Symbol::Word(pair.as_str().to_string()),
-                            Position::new(
-                                start,
-                                LineCol(start.0 + 2, (start.1 .0 + 2, start.1 .1 + 2)),
-                                path.clone(),
-                            ),
+                            Symbol::Word(marker.to_string()),
+                            Position::new(start, LineCol(offset, (line, col)), path.clone()),
                         )));
                     }
+                    if pair.as_str().len() > marker.len() {
+                        pairs = parse_from(&source, offset, path)?;
+                    }
+                    continue;
                 } else {
                     let lines = pair.as_str().split('\n').collect::<Vec<_>>();
                     let count = lines.len() - 1;
@@ -104,6 +107,24 @@ pub fn parse(path: &WorkspacePath) -> Result<Vec<Arc<Token>>, Error> {
     Ok(tokens)
 }
 
+/// Parse the source after an offset
+fn parse_from<'a>(
+    source: &'a str,
+    from: usize,
+    path: &WorkspacePath,
+) -> Result<Pairs<'a, Rule>, Error> {
+    PreprocessorParser::parse(Rule::file, &source[from..]).map_err(|mut e| {
+        match &mut e.location {
+            InputLocation::Pos(pos) => *pos += from,
+            InputLocation::Span((start, end)) => {
+                *start += from;
+                *end += from;
+            }
+        }
+        ParsingFailed::code(e, path.clone())
+    })
+}
+
 trait Parse {
     fn to_symbol(pair: pest::iterators::Pair<Rule>) -> Self;
 }
-- 
2.43.0


From 59d78839b2954c3f36a658f75da706704d8c116b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:35 +0000
Subject: [PATCH 037/110] fix: track #else for each #if, and reject one outside
 of any #if instead of panicking

---
 libs/preprocessor/src/ifstate.rs | 50 +++++++++++++-------------------
 1 file changed, 20 insertions(+), 30 deletions(-)

diff --git a/libs/preprocessor/src/ifstate.rs b/libs/preprocessor/src/ifstate.rs
index de0412c..7e36e2b 100644
--- a/libs/preprocessor/src/ifstate.rs
+++ b/libs/preprocessor/src/ifstate.rs
@@ -2,7 +2,10 @@ use std::sync::Arc;
 
 use hemtt_workspace::reporting::Token;
 
-use crate::{codes::pe17_double_else::DoubleElse, Error};
+use crate::{
+    codes::{pe17_double_else::DoubleElse, pe1_unexpected_token::UnexpectedToken},
+    Error,
+};
 
 #[derive(Clone, Debug, Eq, PartialEq)]
 pub enum IfState {
@@ -34,22 +37,20 @@ impl IfState {
 
 #[derive(Clone, Default, Debug, Eq, PartialEq)]
 pub struct IfStates {
-    stack: Vec<IfState>,
-    did_else: Option<Arc<Token>>,
+    /// The state of each open `#if`, and its `#else` if there was one
+    stack: Vec<(IfState, Option<Arc<Token>>)>,
 }
 
 impl IfStates {
     pub fn reading(&self) -> bool {
-        self.stack.is_empty() || self.stack.iter().all(IfState::reading)
+        self.stack.iter().all(|(state, _)| state.reading())
     }
 
     pub fn push(&mut self, s: IfState) {
-        self.did_else = None;
-        self.stack.push(s);
+        self.stack.push((s, None));
     }
 
     pub fn push_if(&mut self, token: Arc<Token>, state: bool) {
-        self.did_else = None;
         if state {
             self.push(IfState::ReadingIf(token));
         } else {
@@ -58,39 +59,28 @@ impl IfStates {
     }
 
     pub fn pop(&mut self) -> Option<IfState> {
-        self.did_else = None;
-        self.stack.pop()
+        self.stack.pop().map(|(state, _)| state)
     }
 
     pub fn flip(&mut self, token: Arc<Token>) -> Result<(), Error> {
-        if let Some(previous) = self.did_else.take() {
+        let Some(((state, did_else), parents)) = self.stack.split_last_mut() else {
+            return Err(UnexpectedToken::code(token.as_ref().clone(), Vec::new()));
+        };
+        if let Some(previous) = did_else {
             return Err(DoubleElse::code(
                 token.as_ref().clone(),
                 previous.as_ref().clone(),
-                self.stack
-                    .last()
-                    .expect("did_else should only be Some if there is a last element in the stack")
-                    .token()
-                    .as_ref()
-                    .clone(),
+                state.token().as_ref().clone(),
             ));
         }
-        if self
-            .stack
-            .iter()
-            .take(self.stack.len() - 1)
-            .all(IfState::reading)
-        {
-            if let Some(new) = match self.pop() {
-                Some(IfState::PassingChild(t)) => Some(IfState::PassingChild(t)),
-                Some(IfState::PassingIf(t)) => Some(IfState::ReadingElse(t)),
-                Some(IfState::ReadingIf(t)) => Some(IfState::PassingElse(t)),
-                Some(IfState::PassingElse(_) | IfState::ReadingElse(_)) | None => None,
-            } {
-                self.push(new);
+        if parents.iter().all(|(parent, _)| parent.reading()) {
+            match state {
+                IfState::PassingIf(t) => *state = IfState::ReadingElse(t.clone()),
+                IfState::ReadingIf(t) => *state = IfState::PassingElse(t.clone()),
+                IfState::PassingChild(_) | IfState::PassingElse(_) | IfState::ReadingElse(_) => {}
             }
         }
-        self.did_else = Some(token);
+        *did_else = Some(token);
         Ok(())
     }
 }
-- 
2.43.0


From fd8b2490be9a941e0b52a036714dfd9e7be0e443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:47 +0000
Subject: [PATCH 038/110] fix: concatenate after strings that contain the other
 kind of quote

---
 libs/workspace/src/reporting/processed.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/libs/workspace/src/reporting/processed.rs b/libs/workspace/src/reporting/processed.rs
index 35f2c89..5494a7e 100644
--- a/libs/workspace/src/reporting/processed.rs
+++ b/libs/workspace/src/reporting/processed.rs
@@ -68,8 +68,6 @@ fn append_token(
             string_stack.push('"');
         } else if string_stack.last().expect("string stack is empty") == &'"' {
             string_stack.pop();
-        } else {
-            string_stack.push('"');
         }
     } else if token.symbol().is_single_quote() {
         if string_stack.is_empty() {
@@ -78,8 +76,6 @@ fn append_token(
             && token.position().start().0 != token.position().end().0
         {
             string_stack.pop();
-        } else {
-            string_stack.push('\'');
         }
     }
     if token.symbol().is_newline() {
-- 
2.43.0


From cd514477189b42d175db0c3e26d7621d3a90188c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:49 +0000
Subject: [PATCH 039/110] fix: ignore whitespace and comments after a defined
 value when comparing it in #if

---
 libs/preprocessor/src/processor/directives.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libs/preprocessor/src/processor/directives.rs b/libs/preprocessor/src/processor/directives.rs
index 59c0997..6431ff9 100644
--- a/libs/preprocessor/src/processor/directives.rs
+++ b/libs/preprocessor/src/processor/directives.rs
@@ -346,7 +346,11 @@ impl Processor {
             token: Arc<Token>,
         ) -> Result<(Vec<Arc<Token>>, bool), Error> {
             if let Some((_, definition, _)) = defines.get_with_gen(&token, Some(token.position())) {
-                if let Definition::Value(tokens) = definition {
+                if let Definition::Value(mut tokens) = definition {
+                    // whitespace or a comment at the end of the define is not part of the value
+                    while tokens.last().is_some_and(|t| t.symbol().is_whitespace()) {
+                        tokens.pop();
+                    }
                     return Ok((tokens, true));
                 }
                 return Err(IfUnitOrFunction::code(
-- 
2.43.0


From aed46517d3f1180951e1f78f56e41a50f7b1a616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:43 +0000
Subject: [PATCH 040/110] fix: keep ## in strings inside of macros

---
 libs/preprocessor/src/definition.rs        | 28 +++++++++++++++++-----
 libs/preprocessor/src/processor/defines.rs |  4 ++--
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/libs/preprocessor/src/definition.rs b/libs/preprocessor/src/definition.rs
index b6429f5..938321a 100644
--- a/libs/preprocessor/src/definition.rs
+++ b/libs/preprocessor/src/definition.rs
@@ -1,6 +1,9 @@
 use std::sync::Arc;
 
-use hemtt_workspace::{position::Position, reporting::Token};
+use hemtt_workspace::{
+    position::Position,
+    reporting::{Symbol, Token},
+};
 use peekmore::{PeekMore, PeekMoreIterator};
 
 #[derive(Clone, Debug, PartialEq, Eq)]
@@ -103,10 +106,23 @@ impl FunctionDefinition {
     #[must_use]
     /// Get the body as a stream
     pub fn stream(&self) -> PeekMoreIterator<impl Iterator<Item = Arc<Token>>> {
-        self.body
-            .clone()
-            .into_iter()
-            .filter(|t| !t.symbol().is_join())
-            .peekmore()
+        without_joins(self.body.clone()).into_iter().peekmore()
     }
 }
+
+/// Remove the [`Symbol::Join`]s that are not part of a string
+pub fn without_joins(mut body: Vec<Arc<Token>>) -> Vec<Arc<Token>> {
+    let mut string: Option<Symbol> = None;
+    body.retain(|token| {
+        let symbol = token.symbol();
+        if symbol.is_double_quote() || symbol.is_single_quote() {
+            if string.is_none() {
+                string = Some(symbol.clone());
+            } else if string.as_ref() == Some(symbol) {
+                string = None;
+            }
+        }
+        string.is_some() || !symbol.is_join()
+    });
+    body
+}
diff --git a/libs/preprocessor/src/processor/defines.rs b/libs/preprocessor/src/processor/defines.rs
index 7c49671..14ee550 100644
--- a/libs/preprocessor/src/processor/defines.rs
+++ b/libs/preprocessor/src/processor/defines.rs
@@ -14,7 +14,7 @@ use crate::{
         pe9_function_call_argument_count::FunctionCallArgumentCount, pw3_padded_arg::PaddedArg,
     },
     defines::DefineSource,
-    definition::Definition,
+    definition::{without_joins, Definition},
     Error,
 };
 
@@ -284,7 +284,7 @@ impl Processor {
                     ));
                 } else {
                     let mut layer = Vec::new();
-                    let body: Vec<_> = body.into_iter().filter(|t| !t.symbol().is_join()).collect();
+                    let body = without_joins(body);
                     self.walk(
                         Some(callsite),
                         Some(&ident_string),
-- 
2.43.0


From 44ff2171293753b1b0db873b705b0d5b424ce103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:55 +0000
Subject: [PATCH 041/110] fix: count a macro that expands to nothing as an
 argument

---
 libs/preprocessor/src/processor/defines.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libs/preprocessor/src/processor/defines.rs b/libs/preprocessor/src/processor/defines.rs
index 14ee550..10988b7 100644
--- a/libs/preprocessor/src/processor/defines.rs
+++ b/libs/preprocessor/src/processor/defines.rs
@@ -48,6 +48,7 @@ impl Processor {
         let mut depth = 0;
         let mut args = Vec::new();
         let mut arg = Vec::new();
+        let mut expanded = false;
         while let Some(token) = stream.peek() {
             let symbol = token.symbol();
             if quotes {
@@ -61,6 +62,7 @@ impl Processor {
                 if self.defines.contains_key(word) {
                     let mut inner = Vec::new();
                     self.define_use(callsite, pragma, stream, &mut inner)?;
+                    expanded = true;
                     arg.append(
                         &mut inner
                             .into_iter()
@@ -81,6 +83,7 @@ impl Processor {
             } else if symbol.is_comma() {
                 args.push(arg);
                 arg = Vec::new();
+                expanded = false;
                 stream.next();
                 continue;
             } else if symbol.is_double_quote() {
@@ -88,7 +91,8 @@ impl Processor {
             }
             arg.push(stream.next().expect("peeked above"));
         }
-        if !arg.is_empty() {
+        // a macro that expanded to nothing is still an argument
+        if !arg.is_empty() || expanded {
             args.push(arg);
         }
         Ok(Some(args))
-- 
2.43.0


From 690b98a1407d73d54546b7cb9ff100d8fc83fa23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:58 +0000
Subject: [PATCH 042/110] fix: do not overflow the stack on macros that use
 each other, and keep arguments out of other macros

---
 libs/preprocessor/src/defines.rs           | 30 ++++++++++++++--------
 libs/preprocessor/src/processor/defines.rs |  4 ++-
 2 files changed, 23 insertions(+), 11 deletions(-)

diff --git a/libs/preprocessor/src/defines.rs b/libs/preprocessor/src/defines.rs
index 827fc05..33c8f72 100644
--- a/libs/preprocessor/src/defines.rs
+++ b/libs/preprocessor/src/defines.rs
@@ -22,7 +22,8 @@ type InnerDefines = HashMap<Arc<str>, (Arc<Token>, Definition, DefineSource)>;
 /// `HashMap` of all current defines
 pub struct Defines {
     global: InnerDefines,
-    stack: Vec<(Arc<str>, InnerDefines)>,
+    /// The macros being expanded, and their arguments if they have any
+    stack: Vec<(Arc<str>, Option<InnerDefines>)>,
     counter: u16,
 }
 
@@ -84,10 +85,14 @@ impl Defines {
             if *last.0 == *key {
                 return false;
             }
-            if last.1.contains_key(key) {
+            if last.1.as_ref().is_some_and(|args| args.contains_key(key)) {
                 return true;
             }
         }
+        // prevent infinite recursion
+        if self.stack.iter().any(|(name, _)| **name == *key) {
+            return false;
+        }
         self.global.contains_key(key)
     }
 
@@ -227,7 +232,7 @@ impl Defines {
         self.stack
             .last()
             .as_ref()
-            .and_then(|i| i.1.get(key))
+            .and_then(|i| i.1.as_ref()?.get(key))
             .or_else(|| self.global.get(key))
             .cloned()
     }
@@ -237,7 +242,7 @@ impl Defines {
         self.stack
             .last()
             .as_ref()
-            .and_then(|i| i.1.get(key))
+            .and_then(|i| i.1.as_ref()?.get(key))
             .or_else(|| self.global.get(key))
     }
 
@@ -246,22 +251,27 @@ impl Defines {
         key: &str,
         value: (Arc<Token>, Definition, DefineSource),
     ) -> Option<(Arc<Token>, Definition, DefineSource)> {
-        if let Some(stack) = self.stack.last_mut() {
-            stack.1.insert(Arc::from(key), value)
+        if let Some(scope) = self.scope_mut() {
+            scope.insert(Arc::from(key), value)
         } else {
             self.global.insert(Arc::from(key), value)
         }
     }
 
     pub fn remove(&mut self, key: &str) -> Option<(Arc<Token>, Definition, DefineSource)> {
-        if let Some(scope) = self.stack.last_mut() {
-            scope.1.remove(key)
+        if let Some(scope) = self.scope_mut() {
+            scope.remove(key)
         } else {
             self.global.remove(key)
         }
     }
 
-    pub fn push(&mut self, name: &str, args: InnerDefines) {
+    fn scope_mut(&mut self) -> Option<&mut InnerDefines> {
+        self.stack.iter_mut().rev().find_map(|i| i.1.as_mut())
+    }
+
+    /// Start expanding a macro, the arguments of the macros around it are not visible inside of it
+    pub fn push(&mut self, name: &str, args: Option<InnerDefines>) {
         self.stack.push((Arc::from(name), args));
     }
 
@@ -269,7 +279,7 @@ impl Defines {
         self.stack.pop();
     }
 
-    pub const fn stack(&self) -> &Vec<(Arc<str>, InnerDefines)> {
+    pub const fn stack(&self) -> &Vec<(Arc<str>, Option<InnerDefines>)> {
         &self.stack
     }
 
diff --git a/libs/preprocessor/src/processor/defines.rs b/libs/preprocessor/src/processor/defines.rs
index 10988b7..a06e361 100644
--- a/libs/preprocessor/src/processor/defines.rs
+++ b/libs/preprocessor/src/processor/defines.rs
@@ -266,7 +266,7 @@ impl Processor {
                         ),
                     );
                 }
-                self.defines.push(&ident_string, arg_defines);
+                self.defines.push(&ident_string, Some(arg_defines));
                 let mut layer = Vec::new();
                 self.walk(
                     Some(callsite),
@@ -289,6 +289,7 @@ impl Processor {
                 } else {
                     let mut layer = Vec::new();
                     let body = without_joins(body);
+                    self.defines.push(&ident_string, None);
                     self.walk(
                         Some(callsite),
                         Some(&ident_string),
@@ -296,6 +297,7 @@ impl Processor {
                         &mut body.into_iter().peekmore(),
                         &mut layer,
                     )?;
+                    self.defines.pop();
                     buffer.push(Output::Macro(ident.clone(), layer));
                 }
             }
-- 
2.43.0


From 4d7099aa3721ee9cd46d622f2ca8c859fdb17393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:07 +0000
Subject: [PATCH 043/110] fix: stringify macro arguments in files that are
 included more than once

---
 libs/preprocessor/src/processor/mod.rs | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/libs/preprocessor/src/processor/mod.rs b/libs/preprocessor/src/processor/mod.rs
index f92c8f6..37face7 100644
--- a/libs/preprocessor/src/processor/mod.rs
+++ b/libs/preprocessor/src/processor/mod.rs
@@ -192,13 +192,6 @@ impl Processor {
                     let token = stream.next().expect("peeked above");
                     if in_macro.is_some()
                     && stream.peek().is_some_and(|t| t.symbol().is_word() && self.defines.contains_key(&t.symbol().to_string()))
-                        // check if the # token is from another file, or defined before the callsite, ie not in the root arguments
-                        && (token.position().path() != callsite.expect(
-                            "callsite should exist if in_macro is some"
-                        ).path()
-                            || token.position().start().0 < callsite.expect(
-                            "callsite should exist if in_macro is some"
-                            ).start().0)
                     {
                         self.output(
                             Arc::new(Token::new(Symbol::DoubleQuote, token.position().clone())),
-- 
2.43.0


From b119bbd657b08a0ff8fc874124bad02932221390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:31 +0000
Subject: [PATCH 044/110] fix: keep a # at the start of a line that is not a
 directive

---
 libs/preprocessor/src/processor/directives.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/libs/preprocessor/src/processor/directives.rs b/libs/preprocessor/src/processor/directives.rs
index 6431ff9..f63cbe6 100644
--- a/libs/preprocessor/src/processor/directives.rs
+++ b/libs/preprocessor/src/processor/directives.rs
@@ -41,12 +41,14 @@ impl Processor {
     ) -> Result<bool, Error> {
         if let Some(token) = stream.peek() {
             if token.symbol().is_directive() {
-                stream.next();
-                if let Some(command) = stream.peek() {
-                    if command.symbol().is_word() {
-                        self.directive_command(pragma, stream, buffer)?;
-                        return Ok(true);
-                    }
+                let is_command = stream
+                    .peek_forward(1)
+                    .is_some_and(|command| command.symbol().is_word());
+                let _ = stream.peek_backward(1);
+                if is_command {
+                    stream.next();
+                    self.directive_command(pragma, stream, buffer)?;
+                    return Ok(true);
                 }
             }
         }
-- 
2.43.0


From 924e91b9a387f2c1de837ed7623701a79a4e8196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:41 +0000
Subject: [PATCH 045/110] fix: do not map twice the length of each token of the
 preprocessed output

---
 libs/sqf/src/analyze/lints/s04_command_case.rs |  2 +-
 libs/workspace/src/reporting/processed.rs      | 12 ++++++++----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/libs/sqf/src/analyze/lints/s04_command_case.rs b/libs/sqf/src/analyze/lints/s04_command_case.rs
index b5e6a4c..9acf745 100644
--- a/libs/sqf/src/analyze/lints/s04_command_case.rs
+++ b/libs/sqf/src/analyze/lints/s04_command_case.rs
@@ -142,7 +142,7 @@ impl CodeS04CommandCase {
     #[must_use]
     pub fn new(span: Range<usize>, used: String, wiki: String, processed: &Processed, severity: Severity) -> Self {
         Self {
-            include: processed.mappings(span.end).first().is_some_and(|mapping| {
+            include: processed.mappings(span.start).first().is_some_and(|mapping| {
                 mapping.original().path().is_include()
             }),
             severity,
diff --git a/libs/workspace/src/reporting/processed.rs b/libs/workspace/src/reporting/processed.rs
index 5494a7e..df6ecee 100644
--- a/libs/workspace/src/reporting/processed.rs
+++ b/libs/workspace/src/reporting/processed.rs
@@ -110,10 +110,7 @@ fn append_token(
                 processed.col += chars;
                 processed.total += chars;
                 processed.output.push_str(&str);
-                LineCol(
-                    processed.total + chars,
-                    (processed.line, processed.col + chars),
-                )
+                LineCol(processed.total, (processed.line, processed.col))
             }),
             source,
             original: token.position().clone(),
@@ -233,7 +230,14 @@ impl Processed {
 
     #[must_use]
     /// Get the tree mapping at a position in the stringified output
+    ///
+    /// The end of the output is mapped to the last character
     pub fn mappings(&self, offset: usize) -> Vec<&Mapping> {
+        let offset = if offset == self.total {
+            offset.saturating_sub(1)
+        } else {
+            offset
+        };
         self.mappings
             .iter()
             .filter(|map| {
-- 
2.43.0


From a755543bf948b1d01cb27643765114450586cf50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:44 +0000
Subject: [PATCH 046/110] fix: count columns after comments and quotes inside
 of strings when preprocessing

---
 libs/preprocessor/src/parse/mod.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/libs/preprocessor/src/parse/mod.rs b/libs/preprocessor/src/parse/mod.rs
index d478c3e..43fb983 100644
--- a/libs/preprocessor/src/parse/mod.rs
+++ b/libs/preprocessor/src/parse/mod.rs
@@ -67,10 +67,9 @@ pub fn parse(path: &WorkspacePath) -> Result<Vec<Arc<Token>>, Error> {
                         col = lines
                             .last()
                             .expect("exists because count is greater than 0")
-                            .len()
-                            + 1;
+                            .len();
                     } else {
-                        col = 0;
+                        col += pair.as_str().len();
                     }
                     if pair.as_str() == "//" {
                         // skip to end of line
@@ -81,14 +80,14 @@ pub fn parse(path: &WorkspacePath) -> Result<Vec<Arc<Token>>, Error> {
             Rule::single_quote => {
                 if !skipping_comment && !in_double_string {
                     in_single_string = !in_single_string;
-                    col += 1;
                 }
+                col += 1;
             }
             Rule::double_quote => {
                 if !skipping_comment && !in_single_string {
                     in_double_string = !in_double_string;
-                    col += 1;
                 }
+                col += 1;
             }
             _ => {
                 col += pair.as_str().len();
-- 
2.43.0


From f5d8e2f215f02e158a9e52e4030421fccd9f7af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:57 +0000
Subject: [PATCH 047/110] fix: do not use source offsets as processed offsets
 when reporting unexpected and missing arrays

---
 .../src/analyze/lints/c06_unexpected_array.rs | 36 +++++++++---------
 .../src/analyze/lints/c07_expected_array.rs   | 37 ++++++++++---------
 2 files changed, 37 insertions(+), 36 deletions(-)

diff --git a/libs/config/src/analyze/lints/c06_unexpected_array.rs b/libs/config/src/analyze/lints/c06_unexpected_array.rs
index 5f46cb2..161e384 100644
--- a/libs/config/src/analyze/lints/c06_unexpected_array.rs
+++ b/libs/config/src/analyze/lints/c06_unexpected_array.rs
@@ -139,28 +139,26 @@ impl Code06UnexpectedArray {
         else {
             panic!("Code06UnexpectedArray::generate_processed called on non-Code06UnexpectedArray property");
         };
-        let array_start = processed
-            .mapping(array.span.start)
-            .expect("mapping should exist");
-        let array_file = processed
-            .source(array_start.source())
-            .expect("source should exist");
-        let ident_start = processed
-            .mapping(name.span.start)
-            .expect("mapping should exist");
-        let ident_end = processed
-            .mapping(name.span.end)
-            .expect("mapping should exist");
         self.suggestion = Some(format!("{}[]", name.value));
-        self.diagnostic = Diagnostic::from_code_processed(
-            &self,
-            ident_start.original_start()..ident_end.original_start(),
-            processed,
-        );
+        self.diagnostic = Diagnostic::from_code_processed(&self, name.span.clone(), processed);
         if let Some(diag) = &mut self.diagnostic {
+            let array_start = processed
+                .mapping(array.span.start)
+                .expect("mapping should exist");
+            let array_file = processed
+                .source(array_start.source())
+                .expect("source should exist");
+            let array_end = processed
+                .mapping(array.span.end.saturating_sub(1))
+                .expect("mapping should exist");
+            let start = array_start.original_start();
+            let end = if array_end.source() == array_start.source() {
+                array_end.original_end().max(array_start.original_end())
+            } else {
+                array_start.original_end()
+            };
             diag.labels.push(
-                Label::secondary(array_file.0.clone(), array.span.clone())
-                    .with_message("unexpected array"),
+                Label::secondary(array_file.0.clone(), start..end).with_message("unexpected array"),
             );
         }
         self
diff --git a/libs/config/src/analyze/lints/c07_expected_array.rs b/libs/config/src/analyze/lints/c07_expected_array.rs
index ebdf5bf..399812c 100644
--- a/libs/config/src/analyze/lints/c07_expected_array.rs
+++ b/libs/config/src/analyze/lints/c07_expected_array.rs
@@ -157,26 +157,29 @@ impl Code07ExpectedArray {
         if let Value::Array(_) = value {
             panic!("Code07ExpectedArray::generate_processed called on non-Code07ExpectedArray property");
         }
-        let ident_start = processed
-            .mapping(name.span.start)
-            .expect("mapping should exist");
-        let ident_file = processed
-            .source(ident_start.source())
-            .expect("source should exist");
-        let ident_end = processed
-            .mapping(name.span.end)
-            .expect("mapping should exist");
-        let haystack = &processed.extract(ident_end.original_start()..value.span().start);
-        let possible_end = ident_end.original_start() + haystack.find(']').unwrap_or(1) + 1;
+        let haystack = &processed.extract(name.span.end..value.span().start);
+        let possible_end = name.span.end + haystack.find(']').unwrap_or(1) + 1;
         self.suggestion = Some(name.value.to_string());
-        self.diagnostic = Diagnostic::from_code_processed(
-            &self,
-            ident_start.original_start()..possible_end,
-            processed,
-        );
+        self.diagnostic =
+            Diagnostic::from_code_processed(&self, name.span.start..possible_end, processed);
         if let Some(diag) = &mut self.diagnostic {
+            let value_start = processed
+                .mapping(value.span().start)
+                .expect("mapping should exist");
+            let value_file = processed
+                .source(value_start.source())
+                .expect("source should exist");
+            let value_end = processed
+                .mapping(value.span().end.saturating_sub(1))
+                .expect("mapping should exist");
+            let start = value_start.original_start();
+            let end = if value_end.source() == value_start.source() {
+                value_end.original_end().max(value_start.original_end())
+            } else {
+                value_start.original_end()
+            };
             diag.labels.push(
-                Label::secondary(ident_file.0.clone(), value.span()).with_message("not an array"),
+                Label::secondary(value_file.0.clone(), start..end).with_message("not an array"),
             );
         }
         self
-- 
2.43.0


From 3199e189c1c8baf3eb093007db01cdf0549bb682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:26 +0000
Subject: [PATCH 048/110] fix: do not underflow when looking up a line of an
 empty file for a diagnostic

---
 libs/workspace/src/reporting/files.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/libs/workspace/src/reporting/files.rs b/libs/workspace/src/reporting/files.rs
index 9206d52..022a897 100644
--- a/libs/workspace/src/reporting/files.rs
+++ b/libs/workspace/src/reporting/files.rs
@@ -55,13 +55,8 @@ impl WorkspaceFiles {
             .entry(file_id.clone())
             .or_insert_with(|| {
                 let source = file_id.read_to_string().unwrap_or_default();
-                let line_starts = source
-                    .lines()
-                    .scan(0, |pos, line| {
-                        let start = *pos;
-                        *pos += line.len() + 1;
-                        Some(start)
-                    })
+                let line_starts = files::line_starts(&source)
+                    .filter(|&start| start == 0 || start < source.len())
                     .collect();
                 WorkspaceFile {
                     source: source.into(),
-- 
2.43.0


From 987ce2f6eb4abecb6f5a544183887aa2ba3d582d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:29 +0000
Subject: [PATCH 049/110] fix: compare spans with characters instead of bytes,
 and report on empty output

---
 libs/workspace/src/reporting/diagnostic/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/libs/workspace/src/reporting/diagnostic/mod.rs b/libs/workspace/src/reporting/diagnostic/mod.rs
index 1c6088e..72451c7 100644
--- a/libs/workspace/src/reporting/diagnostic/mod.rs
+++ b/libs/workspace/src/reporting/diagnostic/mod.rs
@@ -66,9 +66,10 @@ impl Diagnostic {
         let mut diag = Self::new(code.ident(), code.message()).set_severity(code.severity());
 
         // Error out out bounds, will never show, just use last char
-        if span.start == processed.as_str().len() {
-            span.start = processed.as_str().len() - 1;
-            span.end = processed.as_str().len() - 1;
+        let chars = processed.as_str().chars().count();
+        if span.start == chars {
+            span.start = chars.saturating_sub(1);
+            span.end = span.start;
         }
         let map_start = processed.mapping(span.start)?;
         let map_end = processed.mapping(span.end)?;
-- 
2.43.0


From 3278ee77f4c16da59746b0fe515d086aff0da3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:19 +0000
Subject: [PATCH 050/110] fix: keep the sign of zero in expressions, do not
 read 1-0 as 10

---
 libs/config/src/parse/number.rs | 52 ++++++++++++++++++---------------
 libs/config/src/parse/value.rs  |  2 +-
 2 files changed, 29 insertions(+), 25 deletions(-)

diff --git a/libs/config/src/parse/number.rs b/libs/config/src/parse/number.rs
index 239479c..d63dd0d 100644
--- a/libs/config/src/parse/number.rs
+++ b/libs/config/src/parse/number.rs
@@ -5,36 +5,40 @@ use crate::Number;
 pub fn number() -> impl Parser<char, Number, Error = Simple<char>> {
     just('-')
         .or_not()
-        .then(choice((
-            number_float_exponent().map_with_span(|value, span| Number::Float32 { value, span }),
-            number_float_basic().map_with_span(|value, span| Number::Float32 { value, span }),
-            number_hex().map_with_span(|value, span| {
-                if value > i64::from(i32::MAX) {
-                    Number::Int64 { value, span }
-                } else {
-                    Number::Int32 {
-                        value: value as i32,
-                        span,
-                    }
-                }
-            }),
-            number_int().map_with_span(|value, span| {
-                if value > i64::from(i32::MAX) {
-                    Number::Int64 { value, span }
-                } else {
-                    Number::Int32 {
-                        value: value as i32,
-                        span,
-                    }
-                }
-            }),
-        )))
+        .then(number_unsigned())
         .map(|(sign, value)| match sign {
             Some(_) => value.negate(),
             None => value,
         })
 }
 
+pub fn number_unsigned() -> impl Parser<char, Number, Error = Simple<char>> {
+    choice((
+        number_float_exponent().map_with_span(|value, span| Number::Float32 { value, span }),
+        number_float_basic().map_with_span(|value, span| Number::Float32 { value, span }),
+        number_hex().map_with_span(|value, span| {
+            if value > i64::from(i32::MAX) {
+                Number::Int64 { value, span }
+            } else {
+                Number::Int32 {
+                    value: value as i32,
+                    span,
+                }
+            }
+        }),
+        number_int().map_with_span(|value, span| {
+            if value > i64::from(i32::MAX) {
+                Number::Int64 { value, span }
+            } else {
+                Number::Int32 {
+                    value: value as i32,
+                    span,
+                }
+            }
+        }),
+    ))
+}
+
 fn number_hex() -> impl Parser<char, i64, Error = Simple<char>> {
     let digits = one_of("0123456789abcdefABCDEF").repeated().at_least(1);
     just("0x")
diff --git a/libs/config/src/parse/value.rs b/libs/config/src/parse/value.rs
index 3772809..6952f7d 100644
--- a/libs/config/src/parse/value.rs
+++ b/libs/config/src/parse/value.rs
@@ -16,7 +16,7 @@ pub fn value() -> impl Parser<char, Value, Error = Simple<char>> {
 
 pub fn math() -> impl Parser<char, Number, Error = Simple<char>> {
     choice((
-        super::number::number().map(|n| n.to_string()),
+        super::number::number_unsigned().map(|n| n.to_string()),
         just("-".to_string()),
         just("+".to_string()),
         just("*".to_string()),
-- 
2.43.0


From 9e866c67a568de63cc4bd98550166a05fb9dbd7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:31 +0000
Subject: [PATCH 051/110] fix: reject numbers that follow each other without an
 operator in expressions

---
 libs/common/src/math.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/libs/common/src/math.rs b/libs/common/src/math.rs
index c7a7389..29f9d11 100644
--- a/libs/common/src/math.rs
+++ b/libs/common/src/math.rs
@@ -25,10 +25,19 @@ fn shunting_yard(expression: &str) -> Option<Vec<Token>> {
 
     let tokens = tokenize(expression).ok()?;
 
+    // Numbers and operators have to alternate
+    let mut has_operand = false;
+
     for token in tokens {
         match token {
-            Token::Number(_) => output_queue.push(token),
+            Token::Number(_) | Token::LeftParenthesis if has_operand => return None,
+            Token::Operator(_) | Token::RightParenthesis if !has_operand => return None,
+            Token::Number(_) => {
+                has_operand = true;
+                output_queue.push(token);
+            }
             Token::Operator(op) => {
+                has_operand = false;
                 while let Some(Token::Operator(top_op)) = operator_stack.last() {
                     if let Some((precedence, associativity)) = operators.get(&op) {
                         if let Some((top_precedence, _top_associativity)) = operators.get(top_op) {
-- 
2.43.0


From 6170ec7b31a5830383e96c60b48a280d6c96566a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:35 +0000
Subject: [PATCH 052/110] fix: accept expressions that start with a negative
 number

---
 libs/common/src/math.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/common/src/math.rs b/libs/common/src/math.rs
index 29f9d11..f46141a 100644
--- a/libs/common/src/math.rs
+++ b/libs/common/src/math.rs
@@ -143,7 +143,7 @@ fn tokenize(expression: &str) -> Result<Vec<Token>, String> {
                     '-' => {
                         if matches!(
                             tokens.last(),
-                            Some(Token::Operator(_) | Token::LeftParenthesis)
+                            None | Some(Token::Operator(_) | Token::LeftParenthesis)
                         ) {
                             current_number.push(c);
                         } else {
-- 
2.43.0


From 19c196a0631d574a285d434f72e16adfa99bb477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:48 +0000
Subject: [PATCH 053/110] fix: read a number that is not part of an expression
 as it is written

---
 libs/config/src/parse/array.rs  | 1 +
 libs/config/src/parse/number.rs | 7 +++++++
 libs/config/src/parse/value.rs  | 1 +
 3 files changed, 9 insertions(+)

diff --git a/libs/config/src/parse/array.rs b/libs/config/src/parse/array.rs
index 5a99c70..ceb9c6e 100644
--- a/libs/config/src/parse/array.rs
+++ b/libs/config/src/parse/array.rs
@@ -30,6 +30,7 @@ pub fn array(expand: bool) -> impl Parser<char, Array, Error = Simple<char>> {
 fn array_value() -> impl Parser<char, Item, Error = Simple<char>> {
     choice((
         super::str::string('"').map(Item::Str),
+        super::number::number_only().map(Item::Number),
         math().map(Item::Number),
         super::number::number().map(Item::Number),
     ))
diff --git a/libs/config/src/parse/number.rs b/libs/config/src/parse/number.rs
index d63dd0d..08d0f62 100644
--- a/libs/config/src/parse/number.rs
+++ b/libs/config/src/parse/number.rs
@@ -12,6 +12,13 @@ pub fn number() -> impl Parser<char, Number, Error = Simple<char>> {
         })
 }
 
+/// A number that is not the start of an expression
+pub fn number_only() -> impl Parser<char, Number, Error = Simple<char>> {
+    number()
+        .then_ignore(just(' ').repeated())
+        .then_ignore(none_of("+-*/%^()0123456789.").rewind())
+}
+
 pub fn number_unsigned() -> impl Parser<char, Number, Error = Simple<char>> {
     choice((
         number_float_exponent().map_with_span(|value, span| Number::Float32 { value, span }),
diff --git a/libs/config/src/parse/value.rs b/libs/config/src/parse/value.rs
index 6952f7d..cd997a8 100644
--- a/libs/config/src/parse/value.rs
+++ b/libs/config/src/parse/value.rs
@@ -9,6 +9,7 @@ pub fn value() -> impl Parser<char, Value, Error = Simple<char>> {
         eval().map(Value::Expression),
         super::array::array(false).map(Value::UnexpectedArray),
         super::str::string('"').map(Value::Str),
+        super::number::number_only().map(Value::Number),
         math().map(Value::Number),
         super::number::number().map(Value::Number),
     ))
-- 
2.43.0


From 05bbd36a142523546888e42769b93c2e419c1544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:51 +0000
Subject: [PATCH 054/110] fix: keep a backslash before a line break between two
 parts of a string

---
 libs/config/src/parse/str.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/config/src/parse/str.rs b/libs/config/src/parse/str.rs
index 349e70b..8434c06 100644
--- a/libs/config/src/parse/str.rs
+++ b/libs/config/src/parse/str.rs
@@ -16,9 +16,9 @@ pub fn string(delimiter: char) -> impl Parser<char, Str, Error = Simple<char>> {
         .map(|(segments, span)| Str {
             value: segments
                 .into_iter()
+                .map(|segment| segment.replace("\\\n", ""))
                 .collect::<Vec<_>>()
-                .join("\n")
-                .replace("\\\n", ""),
+                .join("\n"),
             span,
         })
 }
-- 
2.43.0


From 22ab5b4f7566f17061aaac040718649e27622c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:48 +0000
Subject: [PATCH 055/110] fix: store the result of an expression that is no
 64-bit integer as a float

---
 libs/config/src/model/number.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/libs/config/src/model/number.rs b/libs/config/src/model/number.rs
index d7beec7..b9b5da5 100644
--- a/libs/config/src/model/number.rs
+++ b/libs/config/src/model/number.rs
@@ -39,10 +39,13 @@ impl Number {
                     span,
                 });
             }
-            return Some(Self::Int64 {
-                value: value as i64,
-                span,
-            });
+            // beyond the range of an integer, only a float is left
+            if value >= i64::MIN as f64 && value < i64::MAX as f64 {
+                return Some(Self::Int64 {
+                    value: value as i64,
+                    span,
+                });
+            }
         }
         Some(Self::Float32 {
             value: value as f32,
-- 
2.43.0


From e82b4286aa7a28e9482b1350e06af6977890c607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:03 +0000
Subject: [PATCH 056/110] fix: report a missing semicolon at the end of the
 property, and after text that is not ASCII

---
 libs/config/src/analyze/lints/c08_missing_semicolon.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/libs/config/src/analyze/lints/c08_missing_semicolon.rs b/libs/config/src/analyze/lints/c08_missing_semicolon.rs
index 005bdab..fdab081 100644
--- a/libs/config/src/analyze/lints/c08_missing_semicolon.rs
+++ b/libs/config/src/analyze/lints/c08_missing_semicolon.rs
@@ -141,10 +141,7 @@ impl Code08MissingSemicolon {
 
     fn generate_processed(mut self, processed: &Processed) -> Self {
         let haystack = &processed.extract(self.span.clone());
-        let possible_end = self.span.start
-            + haystack
-                .find('\n')
-                .unwrap_or_else(|| haystack.rfind(|c: char| c != ' ' && c != '}').unwrap_or(0) + 1);
+        let possible_end = self.span.start + haystack.trim_end().chars().count();
         self.diagnostic =
             Diagnostic::from_code_processed(&self, possible_end..possible_end, processed);
         self
-- 
2.43.0


From 7bb4135d004ee125482f71664213e9fe24f8354e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:55 +0000
Subject: [PATCH 057/110] fix: report an #if at the end of a file instead of
 panicking

---
 libs/preprocessor/src/processor/directives.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/libs/preprocessor/src/processor/directives.rs b/libs/preprocessor/src/processor/directives.rs
index f63cbe6..f8d1d73 100644
--- a/libs/preprocessor/src/processor/directives.rs
+++ b/libs/preprocessor/src/processor/directives.rs
@@ -335,7 +335,8 @@ impl Processor {
                     .peek()
                     .expect("peeked in the if statement, so there should be a token")
                     .clone();
-                if token.symbol().is_whitespace() || token.symbol().is_newline() {
+                let symbol = token.symbol();
+                if symbol.is_whitespace() || symbol.is_newline() || symbol.is_eoi() {
                     break;
                 }
                 tokens.push(token);
@@ -422,11 +423,7 @@ impl Processor {
             let right = read_value(stream);
             if right.is_empty() {
                 return Err(UnexpectedEOF::code(
-                    operators
-                        .last()
-                        .expect("right should exists at this point")
-                        .as_ref()
-                        .clone(),
+                    operators.last().unwrap_or(&command).as_ref().clone(),
                 ));
             }
             if right.len() == 1 {
-- 
2.43.0


From 83feef3803a1519b62a8236cddbf14f35cb5ab5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:17 +0000
Subject: [PATCH 058/110] fix: report macro calls and directives cut off by the
 end of a macro or file instead of panicking

---
 libs/preprocessor/src/definition.rs        | 14 ++++++++++++--
 libs/preprocessor/src/processor/defines.rs | 13 ++++++++-----
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/libs/preprocessor/src/definition.rs b/libs/preprocessor/src/definition.rs
index 938321a..32d8c65 100644
--- a/libs/preprocessor/src/definition.rs
+++ b/libs/preprocessor/src/definition.rs
@@ -106,12 +106,22 @@ impl FunctionDefinition {
     #[must_use]
     /// Get the body as a stream
     pub fn stream(&self) -> PeekMoreIterator<impl Iterator<Item = Arc<Token>>> {
-        without_joins(self.body.clone()).into_iter().peekmore()
+        body_stream(self.body.clone(), &self.position)
     }
 }
 
+/// The body of a macro as a stream, it ends like the stream of a file
+pub fn body_stream(
+    body: Vec<Arc<Token>>,
+    position: &Position,
+) -> PeekMoreIterator<impl Iterator<Item = Arc<Token>>> {
+    let mut body = without_joins(body);
+    body.push(Arc::new(Token::new(Symbol::Eoi, position.clone())));
+    body.into_iter().peekmore()
+}
+
 /// Remove the [`Symbol::Join`]s that are not part of a string
-pub fn without_joins(mut body: Vec<Arc<Token>>) -> Vec<Arc<Token>> {
+fn without_joins(mut body: Vec<Arc<Token>>) -> Vec<Arc<Token>> {
     let mut string: Option<Symbol> = None;
     body.retain(|token| {
         let symbol = token.symbol();
diff --git a/libs/preprocessor/src/processor/defines.rs b/libs/preprocessor/src/processor/defines.rs
index a06e361..f13e2fa 100644
--- a/libs/preprocessor/src/processor/defines.rs
+++ b/libs/preprocessor/src/processor/defines.rs
@@ -4,17 +4,18 @@ use hemtt_workspace::{
     position::Position,
     reporting::{Code, Output, Symbol, Token},
 };
-use peekmore::{PeekMore, PeekMoreIterator};
+use peekmore::PeekMoreIterator;
 
 use crate::{
     codes::{
         pe10_function_as_value::FunctionAsValue,
         pe11_expected_function_or_value::ExpectedFunctionOrValue,
-        pe1_unexpected_token::UnexpectedToken, pe5_define_multitoken_argument::DefineMissingComma,
+        pe1_unexpected_token::UnexpectedToken, pe2_unexpected_eof::UnexpectedEOF,
+        pe5_define_multitoken_argument::DefineMissingComma,
         pe9_function_call_argument_count::FunctionCallArgumentCount, pw3_padded_arg::PaddedArg,
     },
     defines::DefineSource,
-    definition::{without_joins, Definition},
+    definition::{body_stream, Definition},
     Error,
 };
 
@@ -51,6 +52,9 @@ impl Processor {
         let mut expanded = false;
         while let Some(token) = stream.peek() {
             let symbol = token.symbol();
+            if symbol.is_eoi() {
+                return Err(UnexpectedEOF::code(token.as_ref().clone()));
+            }
             if quotes {
                 if symbol.is_double_quote() {
                     quotes = false;
@@ -288,13 +292,12 @@ impl Processor {
                     ));
                 } else {
                     let mut layer = Vec::new();
-                    let body = without_joins(body);
                     self.defines.push(&ident_string, None);
                     self.walk(
                         Some(callsite),
                         Some(&ident_string),
                         pragma,
-                        &mut body.into_iter().peekmore(),
+                        &mut body_stream(body, source.position()),
                         &mut layer,
                     )?;
                     self.defines.pop();
-- 
2.43.0


From 44b9f9f5986311d4b67168973a782449fe7177dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:17 +0000
Subject: [PATCH 059/110] fix: report a source that can not be read again
 instead of panicking

---
 libs/workspace/src/reporting/processed.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libs/workspace/src/reporting/processed.rs b/libs/workspace/src/reporting/processed.rs
index df6ecee..39a26f1 100644
--- a/libs/workspace/src/reporting/processed.rs
+++ b/libs/workspace/src/reporting/processed.rs
@@ -144,12 +144,12 @@ fn append_output(
                     .position(|(s, _)| s.as_str() == path.as_str())
                     .map_or_else(
                         || {
-                            let content = path.read_to_string().expect("file should exist if used");
+                            let content = path.read_to_string()?;
                             processed.sources.push((path, content));
-                            processed.sources.len() - 1
+                            Ok::<usize, Error>(processed.sources.len() - 1)
                         },
-                        |i| i,
-                    );
+                        Ok,
+                    )?;
                 processed.mappings.push(Mapping {
                     processed: (
                         LineCol(start, (line, col)),
-- 
2.43.0


From cd6daed44864be7ed5dd08409d067c1bcaf8bc60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:17 +0000
Subject: [PATCH 060/110] fix: describe a macro redefined by the file that
 defined it without an underflow

---
 libs/preprocessor/src/codes/pw1_redefine.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/preprocessor/src/codes/pw1_redefine.rs b/libs/preprocessor/src/codes/pw1_redefine.rs
index 0509492..1c4e34a 100644
--- a/libs/preprocessor/src/codes/pw1_redefine.rs
+++ b/libs/preprocessor/src/codes/pw1_redefine.rs
@@ -45,8 +45,8 @@ impl Code for RedefineMacro {
         let last_original = original.last().unwrap_or(&"");
         let first_token = token.first().unwrap_or(&"");
         let last_token = token.last().unwrap_or(&"");
-        let original = original.iter().skip(1).take(original.len() - 2).collect::<Vec<_>>();
-        let token = token.iter().skip(1).take(token.len() - 2).collect::<Vec<_>>();
+        let original = original.iter().skip(1).take(original.len().saturating_sub(2)).collect::<Vec<_>>();
+        let token = token.iter().skip(1).take(token.len().saturating_sub(2)).collect::<Vec<_>>();
         let original = original.iter().map(|s| format!("\n ├── {s}")).collect::<Vec<_>>().join("\n");
         let token = token.iter().map(|s| format!("\n ├── {s}")).collect::<Vec<_>>().join("\n");
         Some(format!(
-- 
2.43.0


From 4a7d50cd4ad40da17864e770a588a8a30e39f610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:32 +0000
Subject: [PATCH 061/110] fix: end a file that ends with a comment like any
 other file

---
 libs/preprocessor/src/parse/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libs/preprocessor/src/parse/mod.rs b/libs/preprocessor/src/parse/mod.rs
index 43fb983..501ff8b 100644
--- a/libs/preprocessor/src/parse/mod.rs
+++ b/libs/preprocessor/src/parse/mod.rs
@@ -43,6 +43,10 @@ pub fn parse(path: &WorkspacePath) -> Result<Vec<Arc<Token>>, Error> {
                 line += 1;
                 col = 0;
             }
+            Rule::EOI => {
+                // a comment ends with the file
+                skipping_comment = false;
+            }
             Rule::COMMENT => {
                 if in_single_string || in_double_string || skipping_comment {
                     // Not the start of a comment, only the marker itself is read
-- 
2.43.0


From 313b7dcfe43067ca0bddadb6f2a2306e4238eedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:40 +0000
Subject: [PATCH 062/110] fix: report duplicate properties and classes in a
 stable order

---
 libs/config/src/analyze/lints/c02_duplicate_property.rs | 4 +++-
 libs/config/src/analyze/lints/c03_duplicate_classes.rs  | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/libs/config/src/analyze/lints/c02_duplicate_property.rs b/libs/config/src/analyze/lints/c02_duplicate_property.rs
index dc18213..2facf7d 100644
--- a/libs/config/src/analyze/lints/c02_duplicate_property.rs
+++ b/libs/config/src/analyze/lints/c02_duplicate_property.rs
@@ -75,8 +75,10 @@ impl LintRunner<SqfLintData> for Runner {
         };
         let mut seen: HashMap<String, Vec<(bool, Ident)>> = HashMap::new();
         duplicate_properties_inner("", &target.0, &mut seen);
+        let mut seen = seen.into_values().collect::<Vec<_>>();
+        seen.sort_by_key(|idents| idents.first().map(|(_, i)| i.span.start));
         let mut codes: Codes = Vec::new();
-        for (_, idents) in seen {
+        for idents in seen {
             if idents.len() > 1 && !idents.iter().all(|(class, _)| *class) {
                 codes.push(Arc::new(CodeC02DuplicateProperty::new(
                     idents.iter().map(|(_, i)| i.clone()).collect(),
diff --git a/libs/config/src/analyze/lints/c03_duplicate_classes.rs b/libs/config/src/analyze/lints/c03_duplicate_classes.rs
index 825c3d1..f1fb5bb 100644
--- a/libs/config/src/analyze/lints/c03_duplicate_classes.rs
+++ b/libs/config/src/analyze/lints/c03_duplicate_classes.rs
@@ -112,7 +112,9 @@ pub fn check(properties: &[Property], processed: &Processed) -> Codes {
             }
         }
     }
-    codes.extend(defined.into_iter().filter_map(|(_, classes)| {
+    let mut defined = defined.into_values().collect::<Vec<_>>();
+    defined.sort_by_key(|classes| classes.first().and_then(|c| c.name().map(|n| n.span.start)));
+    codes.extend(defined.into_iter().filter_map(|classes| {
         if classes.len() > 1 {
             Some(Arc::new(CodeC03DuplicateClasses::new(classes, processed)) as Arc<dyn Code>)
         } else {
-- 
2.43.0


From 8f990a29c93d73d44bf9dc888caa72b734302fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:40 +0000
Subject: [PATCH 063/110] fix: suggest the same similar macros every time

---
 libs/preprocessor/src/defines.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/preprocessor/src/defines.rs b/libs/preprocessor/src/defines.rs
index 33c8f72..fd54275 100644
--- a/libs/preprocessor/src/defines.rs
+++ b/libs/preprocessor/src/defines.rs
@@ -299,7 +299,7 @@ impl Defines {
             })
             .map(|(name, _)| (name, levenshtein(name, search)))
             .collect::<Vec<_>>();
-        similar.sort_by_key(|(_, v)| *v);
+        similar.sort_by_key(|(n, v)| (*v, (*n).clone()));
         similar.retain(|s| s.1 <= 3);
         similar.truncate(3);
         similar.into_iter().map(|(n, _)| n).collect::<Vec<_>>()
@@ -317,7 +317,7 @@ impl Defines {
             })
             .map(|(name, _)| (name, levenshtein(name, search)))
             .collect::<Vec<_>>();
-        similar.sort_by_key(|(_, v)| *v);
+        similar.sort_by_key(|(n, v)| (*v, (*n).clone()));
         similar.retain(|s| s.1 <= 3);
         similar.truncate(3);
         similar.into_iter().map(|(n, _)| n).collect::<Vec<_>>()
-- 
2.43.0


From ee117ec169365be2220e662901de17b99ee8da6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:44 +0000
Subject: [PATCH 064/110] fix: refuse includes that are nested too deep instead
 of overflowing the stack

---
 .../src/codes/pe27_include_depth.rs           | 59 +++++++++++++++++++
 libs/preprocessor/src/processor/directives.rs | 14 +++--
 2 files changed, 69 insertions(+), 4 deletions(-)
 create mode 100644 libs/preprocessor/src/codes/pe27_include_depth.rs

diff --git a/libs/preprocessor/src/codes/pe27_include_depth.rs b/libs/preprocessor/src/codes/pe27_include_depth.rs
new file mode 100644
index 0000000..e530bf5
--- /dev/null
+++ b/libs/preprocessor/src/codes/pe27_include_depth.rs
@@ -0,0 +1,59 @@
+use std::sync::Arc;
+
+use hemtt_workspace::reporting::{Code, Diagnostic, Label, Token};
+
+use crate::Error;
+
+/// Includes are nested too deep, usually because a file ends up including itself
+pub struct IncludeDepth {
+    /// The [`Token`]s of the path that was included
+    token: Vec<Token>,
+}
+
+impl Code for IncludeDepth {
+    fn ident(&self) -> &'static str {
+        "PE27"
+    }
+
+    fn message(&self) -> String {
+        "includes are nested too deep".to_string()
+    }
+
+    fn label_message(&self) -> String {
+        "nested too deep".to_string()
+    }
+
+    fn help(&self) -> Option<String> {
+        Some("check that the file does not include itself".to_string())
+    }
+
+    fn diagnostic(&self) -> Option<Diagnostic> {
+        let first = self.token.first()?;
+        let last = self.token.last()?;
+        let mut diagnostic = Diagnostic::new(self.ident(), self.message()).with_label(
+            Label::primary(
+                first.position().path().clone(),
+                first.position().span().start..last.position().span().end,
+            )
+            .with_message(self.label_message()),
+        );
+        if let Some(help) = self.help() {
+            diagnostic = diagnostic.with_help(help);
+        }
+        Some(diagnostic)
+    }
+}
+
+impl IncludeDepth {
+    #[must_use]
+    pub fn new(token: Vec<Arc<Token>>) -> Self {
+        Self {
+            token: token.into_iter().map(|t| t.as_ref().clone()).collect(),
+        }
+    }
+
+    #[must_use]
+    pub fn code(token: Vec<Arc<Token>>) -> Error {
+        Error::Code(Arc::new(Self::new(token)))
+    }
+}
diff --git a/libs/preprocessor/src/processor/directives.rs b/libs/preprocessor/src/processor/directives.rs
index f8d1d73..e91a50a 100644
--- a/libs/preprocessor/src/processor/directives.rs
+++ b/libs/preprocessor/src/processor/directives.rs
@@ -15,10 +15,10 @@ use crate::{
         pe15_if_invalid_operator::IfInvalidOperator,
         pe16_if_incompatible_types::IfIncompatibleType, pe19_pragma_unknown::PragmaUnknown,
         pe20_pragma_invalid_scope::PragmaInvalidScope, pe23_if_has_include::IfHasInclude,
-        pe2_unexpected_eof::UnexpectedEOF, pe3_expected_ident::ExpectedIdent,
-        pe4_unknown_directive::UnknownDirective, pe6_change_builtin::ChangeBuiltin,
-        pe7_if_unit_or_function::IfUnitOrFunction, pe8_if_undefined::IfUndefined,
-        pw1_redefine::RedefineMacro, pw4_include_case::IncludeCase,
+        pe27_include_depth::IncludeDepth, pe2_unexpected_eof::UnexpectedEOF,
+        pe3_expected_ident::ExpectedIdent, pe4_unknown_directive::UnknownDirective,
+        pe6_change_builtin::ChangeBuiltin, pe7_if_unit_or_function::IfUnitOrFunction,
+        pe8_if_undefined::IfUndefined, pw1_redefine::RedefineMacro, pw4_include_case::IncludeCase,
     },
     defines::{DefineSource, Defines},
     definition::{Definition, FunctionDefinition},
@@ -32,6 +32,9 @@ use super::{
     Processor,
 };
 
+/// How many files can be included within each other
+const MAX_INCLUDE_DEPTH: usize = 64;
+
 impl Processor {
     pub(crate) fn directive(
         &mut self,
@@ -201,6 +204,9 @@ impl Processor {
             return Err(Error::Code(code));
         }
 
+        if self.file_stack.len() > MAX_INCLUDE_DEPTH {
+            return Err(IncludeDepth::code(path));
+        }
         let current = self
             .file_stack
             .last()
-- 
2.43.0


From 9eede8bf730848756929830195cb887c58ab6d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:44 +0000
Subject: [PATCH 065/110] fix: report an __EVAL without brackets instead of
 panicking

---
 libs/config/src/parse/value.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/libs/config/src/parse/value.rs b/libs/config/src/parse/value.rs
index cd997a8..10ceaa7 100644
--- a/libs/config/src/parse/value.rs
+++ b/libs/config/src/parse/value.rs
@@ -58,13 +58,17 @@ pub fn eval() -> impl Parser<char, Expression, Error = Simple<char>> {
                     .at_least(1)
                     .collect::<String>())
         }))
-        .map_with_span(|expr, span| Expression {
-            value: expr
-                .strip_prefix('(')
-                .and_then(|s| s.strip_suffix(')'))
-                .expect("eval should be wrapped in brackets")
-                .to_string(),
-            span,
+        .try_map(|expr, span: Range<usize>| {
+            let Some(value) = expr.strip_prefix('(').and_then(|s| s.strip_suffix(')')) else {
+                return Err(Simple::custom(
+                    span,
+                    "__EVAL should be wrapped in brackets".to_string(),
+                ));
+            };
+            Ok(Expression {
+                value: value.to_string(),
+                span,
+            })
         })
 }
 
-- 
2.43.0


From d0d8b35aaf08ade58e7e31ad74fc1e3185d23d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:40 +0000
Subject: [PATCH 066/110] fix: count past 65535 with __COUNTER__

---
 libs/preprocessor/src/defines.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/preprocessor/src/defines.rs b/libs/preprocessor/src/defines.rs
index fd54275..685f912 100644
--- a/libs/preprocessor/src/defines.rs
+++ b/libs/preprocessor/src/defines.rs
@@ -24,7 +24,7 @@ pub struct Defines {
     global: InnerDefines,
     /// The macros being expanded, and their arguments if they have any
     stack: Vec<(Arc<str>, Option<InnerDefines>)>,
-    counter: u16,
+    counter: usize,
 }
 
 /// Built-in macros that HEMTT supports, constants
@@ -112,7 +112,7 @@ impl Defines {
                         return Some((
                             key.clone(),
                             Definition::Value(vec![Arc::new(Token::new(
-                                Symbol::Digit(counter.into()),
+                                Symbol::Digit(counter),
                                 key.position().clone(),
                             ))]),
                             DefineSource::Generated,
-- 
2.43.0


From 1933879d951ca5b565d8bd406a6036af8f485c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:39 +0000
Subject: [PATCH 067/110] fix: use the whole git hash when more of it is asked
 for than there is

---
 libs/common/src/config/project/version.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/common/src/config/project/version.rs b/libs/common/src/config/project/version.rs
index ddd6a98..20c61c8 100644
--- a/libs/common/src/config/project/version.rs
+++ b/libs/common/src/config/project/version.rs
@@ -43,7 +43,7 @@ impl VersionConfig {
             let repo = Repository::discover(".")?;
             let rev = repo.revparse_single("HEAD")?;
             let id = rev.id().to_string();
-            version.set_build(&id[0..length as usize]);
+            version.set_build(&id[..id.len().min(length as usize)]);
         };
 
         unsafe {
-- 
2.43.0


From d8dc2550090efb53121bf90bc9f844f8f580fae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:29 +0000
Subject: [PATCH 068/110] fix: describe a signature made with a different key
 when verifying

---
 bin/src/utils/verify.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bin/src/utils/verify.rs b/bin/src/utils/verify.rs
index 8e244b9..4d54a3f 100644
--- a/bin/src/utils/verify.rs
+++ b/bin/src/utils/verify.rs
@@ -71,6 +71,9 @@ pub fn execute(cmd: &Command) -> Result<(), Error> {
         Err(hemtt_signing::Error::AuthorityMismatch { .. }) => {
             error!("Verification Failed: Authority does not match");
         }
+        Err(hemtt_signing::Error::KeyMismatch) => {
+            error!("Verification Failed: Signature was made with a different key");
+        }
         Err(hemtt_signing::Error::HashMismatch { .. }) => {
             error!("Verification Failed: Signature does not match");
         }
-- 
2.43.0


From 6dd7ed1dc93b3c4ef8480270bbd1a9561e986476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:29 +0000
Subject: [PATCH 069/110] fix: keep messages from HEMTT whole however they
 arrive, and the game running without a connection

---
 arma/src/lib.rs              | 70 ++++++++++++++++++-------------
 arma/src/photoshoot.rs       | 18 +++++---
 libs/common/src/arma/link.rs | 81 ++++++++++++++++++++++++++++++++++++
 libs/common/src/arma/mod.rs  |  1 +
 4 files changed, 135 insertions(+), 35 deletions(-)
 create mode 100644 libs/common/src/arma/link.rs

diff --git a/arma/src/lib.rs b/arma/src/lib.rs
index 78e7666..c0bfcc7 100644
--- a/arma/src/lib.rs
+++ b/arma/src/lib.rs
@@ -1,9 +1,10 @@
-use std::io::{Read, Write};
-
 use arma_rs::{arma, Context, ContextState, Extension};
-use hemtt_common::arma::control::{
-    fromarma::{self, Control, Message},
-    toarma,
+use hemtt_common::arma::{
+    control::{
+        fromarma::{self, Control, Message},
+        toarma,
+    },
+    link::Link,
 };
 use interprocess::local_socket::{prelude::*, GenericNamespaced, Stream};
 
@@ -20,21 +21,29 @@ fn init() -> Extension {
     let (send, recv) = std::sync::mpsc::channel::<Message>();
     ctx.global().set(send);
     std::thread::spawn(move || {
-        let mut socket =
-            Stream::connect("hemtt_arma".to_ns_name::<GenericNamespaced>().unwrap()).unwrap();
-        socket.set_nonblocking(true).unwrap();
+        let socket = match Stream::connect("hemtt_arma".to_ns_name::<GenericNamespaced>().unwrap())
+        {
+            Ok(socket) => socket,
+            Err(e) => {
+                println!("Failed to connect to HEMTT: {e}");
+                return;
+            }
+        };
+        if let Err(e) = socket.set_nonblocking(true) {
+            println!("Failed to configure the connection to HEMTT: {e}");
+            return;
+        }
+        let mut link = Link::new(socket);
         loop {
-            let mut len_buf = [0u8; 4];
-            if socket.read_exact(&mut len_buf).is_ok()
-                && !len_buf.is_empty()
-                && len_buf != [255u8; 4]
-            {
-                let len = u32::from_le_bytes(len_buf);
-                println!("Receiving: {}", len);
-                let mut buf = vec![0u8; len as usize];
-                socket.read_exact(&mut buf).unwrap();
-                let buf = String::from_utf8(buf).unwrap();
-                let message: toarma::Message = serde_json::from_str(&buf).unwrap();
+            while let Some(message) = link.receive() {
+                println!("Receiving: {}", message.len());
+                let message: toarma::Message = match serde_json::from_slice(&message) {
+                    Ok(message) => message,
+                    Err(e) => {
+                        println!("Failed to read message: {e}");
+                        continue;
+                    }
+                };
                 match message {
                     toarma::Message::Control(control) => match control {
                         toarma::Control::Exit => {
@@ -65,8 +74,9 @@ fn init() -> Extension {
                 }
             }
             if let Ok(message) = recv.recv_timeout(std::time::Duration::from_millis(100)) {
-                crate::send(message, &mut socket);
+                crate::send(&message, &mut link);
             }
+            link.flush();
         }
     });
     ext
@@ -77,9 +87,12 @@ fn mission(ctx: Context, mission: String) {
         println!("`mission` called without a sender");
         return;
     };
-    sender
+    if sender
         .send(Message::Control(Control::Mission(mission)))
-        .unwrap();
+        .is_err()
+    {
+        println!("`mission` called without a connection");
+    }
 }
 
 fn log(ctx: Context, level: String, message: String) {
@@ -95,14 +108,11 @@ fn log(ctx: Context, level: String, message: String) {
         println!("`log` called without a sender");
         return;
     };
-    sender.send(Message::Log(level, message)).unwrap();
+    if sender.send(Message::Log(level, message)).is_err() {
+        println!("`log` called without a connection");
+    }
 }
 
-fn send(message: fromarma::Message, socket: &mut Stream) {
-    let message = serde_json::to_string(&message).unwrap();
-    socket
-        .write_all(&u32::to_le_bytes(message.len() as u32))
-        .unwrap();
-    socket.write_all(message.as_bytes()).unwrap();
-    socket.flush().unwrap();
+fn send(message: &fromarma::Message, link: &mut Link<Stream>) {
+    link.send(serde_json::to_string(message).unwrap().as_bytes());
 }
diff --git a/arma/src/photoshoot.rs b/arma/src/photoshoot.rs
index ffe3cf4..d5670c1 100644
--- a/arma/src/photoshoot.rs
+++ b/arma/src/photoshoot.rs
@@ -13,7 +13,9 @@ fn ready(ctx: Context) {
         println!("`photoshoot:ready` called without a sender");
         return;
     };
-    sender.send(Message::Photoshoot(Photoshoot::Ready)).unwrap();
+    if sender.send(Message::Photoshoot(Photoshoot::Ready)).is_err() {
+        println!("`photoshoot:ready` called without a connection");
+    }
 }
 
 fn weapon(ctx: Context, weapon: String) {
@@ -21,9 +23,12 @@ fn weapon(ctx: Context, weapon: String) {
         println!("`photoshoot:weapon` called without a sender");
         return;
     };
-    sender
+    if sender
         .send(Message::Photoshoot(Photoshoot::Weapon(weapon)))
-        .unwrap();
+        .is_err()
+    {
+        println!("`photoshoot:weapon` called without a connection");
+    }
 }
 
 fn previews(ctx: Context) {
@@ -31,7 +36,10 @@ fn previews(ctx: Context) {
         println!("`photoshoot:previews` called without a sender");
         return;
     };
-    sender
+    if sender
         .send(Message::Photoshoot(Photoshoot::Previews))
-        .unwrap();
+        .is_err()
+    {
+        println!("`photoshoot:previews` called without a connection");
+    }
 }
diff --git a/libs/common/src/arma/link.rs b/libs/common/src/arma/link.rs
new file mode 100644
index 0000000..7409df3
--- /dev/null
+++ b/libs/common/src/arma/link.rs
@@ -0,0 +1,81 @@
+//! Framing of the messages between HEMTT and Arma
+
+use std::io::{ErrorKind, Read, Write};
+
+/// One end of the connection between HEMTT and Arma
+///
+/// Every message is preceded by its length, as 4 little endian bytes.
+/// The stream is expected to be non-blocking, so a message may arrive
+/// and may be accepted in any number of pieces.
+pub struct Link<S> {
+    stream: S,
+    incoming: Vec<u8>,
+    outgoing: Vec<u8>,
+}
+
+impl<S: Read + Write> Link<S> {
+    #[must_use]
+    /// Create a new link over a non-blocking stream
+    pub const fn new(stream: S) -> Self {
+        Self {
+            stream,
+            incoming: Vec::new(),
+            outgoing: Vec::new(),
+        }
+    }
+
+    /// Send a message, or as much of it as the stream will take.
+    /// What is left is sent by following calls to [`Link::send`] or [`Link::flush`]
+    pub fn send(&mut self, message: &[u8]) {
+        let Ok(len) = u32::try_from(message.len()) else {
+            return;
+        };
+        self.outgoing.extend_from_slice(&len.to_le_bytes());
+        self.outgoing.extend_from_slice(message);
+        self.flush();
+    }
+
+    /// Send as much of the waiting messages as the stream will take
+    pub fn flush(&mut self) {
+        while !self.outgoing.is_empty() {
+            match self.stream.write(&self.outgoing) {
+                Ok(0) => break,
+                Ok(n) => {
+                    self.outgoing.drain(..n);
+                }
+                Err(e) if e.kind() == ErrorKind::Interrupted => {}
+                Err(e) if e.kind() == ErrorKind::WouldBlock => break,
+                // The other end is gone
+                Err(_) => self.outgoing.clear(),
+            }
+        }
+    }
+
+    /// Receive a message, if there is one that has arrived completely
+    pub fn receive(&mut self) -> Option<Vec<u8>> {
+        let mut buf = [0u8; 4096];
+        loop {
+            if let Some(message) = self.next_message() {
+                return Some(message);
+            }
+            match self.stream.read(&mut buf) {
+                Ok(0) => return None,
+                Ok(n) => self.incoming.extend_from_slice(&buf[..n]),
+                Err(e) if e.kind() == ErrorKind::Interrupted => {}
+                Err(_) => return None,
+            }
+        }
+    }
+
+    /// Take the first complete message from what has arrived
+    fn next_message(&mut self) -> Option<Vec<u8>> {
+        let len = u32::from_le_bytes(*self.incoming.first_chunk::<4>()?) as usize;
+        let end = len.checked_add(4)?;
+        if self.incoming.len() < end {
+            return None;
+        }
+        let message = self.incoming[4..end].to_vec();
+        self.incoming.drain(..end);
+        Some(message)
+    }
+}
diff --git a/libs/common/src/arma/mod.rs b/libs/common/src/arma/mod.rs
index 5dcb664..1eeed14 100644
--- a/libs/common/src/arma/mod.rs
+++ b/libs/common/src/arma/mod.rs
@@ -2,3 +2,4 @@
 
 pub mod control;
 pub mod dlc;
+pub mod link;
-- 
2.43.0


From 05086bdddc8d4148805a2c0f2928e5075b5bcaf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:29 +0000
Subject: [PATCH 070/110] fix: keep messages from the game whole however they
 arrive

---
 bin/src/controller/mod.rs | 39 +++++++++++++++------------------------
 1 file changed, 15 insertions(+), 24 deletions(-)

diff --git a/bin/src/controller/mod.rs b/bin/src/controller/mod.rs
index 138be9b..1206675 100644
--- a/bin/src/controller/mod.rs
+++ b/bin/src/controller/mod.rs
@@ -1,12 +1,12 @@
 #![allow(clippy::unwrap_used)] // Experimental feature
 
-use std::{
-    io::{Read, Write},
-    process::Child,
-};
+use std::process::Child;
 
 use hemtt_common::{
-    arma::control::{fromarma, toarma},
+    arma::{
+        control::{fromarma, toarma},
+        link::Link,
+    },
     config::LaunchOptions,
 };
 use interprocess::local_socket::{
@@ -47,8 +47,7 @@ impl Controller {
     /// - [`Error::Io`] if there is an issue with the local socket
     ///
     /// # Panics
-    /// - If an message is not able to be read from the local socket
-    /// - If a message is in an unexpected format
+    /// - If a mission is reported that no action has added
     pub fn run(
         self,
         ctx: &Context,
@@ -74,7 +73,7 @@ impl Controller {
         info!("Waiting for Arma...");
         let start = std::time::Instant::now();
         let mut did_warn = false;
-        let mut socket = loop {
+        let socket = loop {
             if let Ok(s) = socket.accept() {
                 break s;
             }
@@ -86,6 +85,7 @@ impl Controller {
 
         info!("Connected!");
 
+        let mut link = Link::new(socket);
         let mut current = None;
 
         loop {
@@ -99,14 +99,10 @@ impl Controller {
                 break;
             }
 
-            let mut len_buf = [0u8; 4];
-            if socket.read_exact(&mut len_buf).is_ok() && !len_buf.is_empty() {
-                let len = u32::from_le_bytes(len_buf);
-                trace!("Receiving: {}", len);
-                let mut buf = vec![0u8; len as usize];
-                socket.read_exact(&mut buf).expect("Failed to read message");
-                let buf = String::from_utf8(buf).expect("Failed to parse message");
-                let message: fromarma::Message = serde_json::from_str(&buf)?;
+            link.flush();
+            if let Some(message) = link.receive() {
+                trace!("Receiving: {}", message.len());
+                let message: fromarma::Message = serde_json::from_slice(&message)?;
                 trace!("Received: {:?}", message);
                 if let fromarma::Message::Control(control) = message {
                     match control {
@@ -135,7 +131,7 @@ impl Controller {
                         .expect("No action for mission")
                         .incoming(ctx, message)
                         .iter()
-                        .for_each(|m| send(m, &mut socket));
+                        .for_each(|m| send(m, &mut link));
                 } else {
                     warn!("Message without mission: {:?}", message);
                 }
@@ -177,17 +173,12 @@ fn launch(
     Ok((report, child))
 }
 
-#[allow(clippy::cast_possible_truncation)]
 fn send(
     message: &toarma::Message,
-    socket: &mut interprocess::local_socket::prelude::LocalSocketStream,
+    link: &mut Link<interprocess::local_socket::prelude::LocalSocketStream>,
 ) {
     let message = serde_json::to_string(message).unwrap();
     trace!("sending: {}", message);
-    socket
-        .write_all(&u32::to_le_bytes(message.len() as u32))
-        .unwrap();
-    socket.write_all(message.as_bytes()).unwrap();
-    socket.flush().unwrap();
+    link.send(message.as_bytes());
     std::thread::sleep(std::time::Duration::from_millis(100));
 }
-- 
2.43.0


From 41228bb7e430505c426f0da8873e7c708fe5e22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:04 +0000
Subject: [PATCH 071/110] fix: write rapified files after all configs have been
 read, as configs can include them

---
 bin/src/modules/rapifier.rs | 44 +++++++++++++++++++++----------------
 1 file changed, 25 insertions(+), 19 deletions(-)

diff --git a/bin/src/modules/rapifier.rs b/bin/src/modules/rapifier.rs
index a903bb4..2077bd4 100644
--- a/bin/src/modules/rapifier.rs
+++ b/bin/src/modules/rapifier.rs
@@ -1,5 +1,6 @@
 use std::{
     collections::HashMap,
+    io::Write,
     path::PathBuf,
     sync::{
         atomic::{AtomicU16, Ordering},
@@ -89,15 +90,20 @@ impl Module for Rapifier {
         let reports = entries
             .par_iter()
             .map(|(addon, entry)| {
-                let report = rapify(addon, entry, ctx)?;
+                let rapified = rapify(addon, entry, ctx)?;
                 counter.fetch_add(1, Ordering::Relaxed);
                 progress.inc(1);
-                Ok(report)
+                Ok(rapified)
             })
-            .collect::<Result<Vec<Report>, Error>>()?;
+            .collect::<Result<Vec<_>, Error>>()?;
 
-        for new_report in reports {
+        // A rapified file may replace its source, which other files can include,
+        // so nothing is written before everything has been read
+        for (new_report, output) in reports {
             report.merge(new_report);
+            if let Some((path, data)) = output {
+                path.create_file()?.write_all(&data)?;
+            }
         }
 
         progress.finish_and_clear();
@@ -106,14 +112,21 @@ impl Module for Rapifier {
     }
 }
 
+/// A file to write, and its contents
+type Output = (WorkspacePath, Vec<u8>);
+
 #[allow(clippy::too_many_lines)]
-pub fn rapify(addon: &Addon, path: &WorkspacePath, ctx: &Context) -> Result<Report, Error> {
+fn rapify(
+    addon: &Addon,
+    path: &WorkspacePath,
+    ctx: &Context,
+) -> Result<(Report, Option<Output>), Error> {
     let mut report = Report::new();
     let processed = match Processor::run(path) {
         Ok(processed) => processed,
         Err((_, hemtt_preprocessor::Error::Code(e))) => {
             report.push(e);
-            return Ok(report);
+            return Ok((report, None));
         }
         Err((_, e)) => {
             return Err(e.into());
@@ -128,7 +141,7 @@ pub fn rapify(addon: &Addon, path: &WorkspacePath, ctx: &Context) -> Result<Repo
             for e in &errors {
                 report.push(e.clone());
             }
-            return Ok(report);
+            return Ok((report, None));
         }
     };
     configreport.warnings().into_iter().for_each(|e| {
@@ -138,7 +151,7 @@ pub fn rapify(addon: &Addon, path: &WorkspacePath, ctx: &Context) -> Result<Repo
         report.push(e.clone());
     });
     if !configreport.errors().is_empty() {
-        return Ok(report);
+        return Ok((report, None));
     }
     let out = if std::path::Path::new(&path.filename())
         .extension()
@@ -176,18 +189,11 @@ pub fn rapify(addon: &Addon, path: &WorkspacePath, ctx: &Context) -> Result<Repo
             "skipping rapify for {}, as instructed by preprocessor",
             out.as_str()
         );
-        return Ok(report);
-    }
-    let mut output = match out.create_file() {
-        Ok(output) => output,
-        Err(e) => {
-            return Err(e.into());
-        }
-    };
-    if let Err(e) = configreport.config().rapify(&mut output, 0) {
-        return Err(e.into());
+        return Ok((report, None));
     }
-    Ok(report)
+    let mut output = Vec::new();
+    configreport.config().rapify(&mut output, 0)?;
+    Ok((report, Some((out, output))))
 }
 
 pub fn can_rapify(path: &str) -> bool {
-- 
2.43.0


From b48d0f2acf5a877f94b23469c002b5e6df1686ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:22 +0000
Subject: [PATCH 072/110] fix: list the files of the workspace in the same
 order every time

---
 libs/workspace/src/lib.rs  |  2 ++
 libs/workspace/src/path.rs | 19 +++++++++++--------
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/libs/workspace/src/lib.rs b/libs/workspace/src/lib.rs
index 7ddf39c..8d9fba3 100644
--- a/libs/workspace/src/lib.rs
+++ b/libs/workspace/src/lib.rs
@@ -143,6 +143,8 @@ impl Workspace {
                 }
             }
         }
+        self.addons.sort_by(|a, b| a.as_str().cmp(b.as_str()));
+        self.missions.sort_by(|a, b| a.as_str().cmp(b.as_str()));
         Ok(())
     }
 }
diff --git a/libs/workspace/src/path.rs b/libs/workspace/src/path.rs
index 5c82bbf..8ba1fef 100644
--- a/libs/workspace/src/path.rs
+++ b/libs/workspace/src/path.rs
@@ -331,18 +331,21 @@ impl WorkspacePath {
         &self.data.workspace.missions
     }
 
-    /// Walk the workspace
+    /// Walk the workspace, sorted by path
     ///
     /// # Errors
     /// [`Error::Vfs`] if the workspace could not be walked
     pub fn walk_dir(&self) -> Result<Vec<Self>, Error> {
-        Ok(self
+        let mut paths = self
             .data
             .path
             .walk_dir()?
             // dangling links and files that were removed meanwhile
             .filter(|p| !matches!(p, Err(e) if matches!(e.kind(), VfsErrorKind::FileNotFound)))
-            .collect::<Result<Vec<_>, _>>()?
+            .collect::<Result<Vec<_>, _>>()?;
+        // The order of the layers' listings is not defined
+        paths.sort_by(|a, b| a.as_str().cmp(b.as_str()));
+        Ok(paths
             .into_iter()
             .map(|path| Self {
                 data: Arc::new(WorkspacePathData {
@@ -353,15 +356,15 @@ impl WorkspacePath {
             .collect())
     }
 
-    /// Read the files in a directory
+    /// Read the files in a directory, sorted by path
     ///
     /// # Errors
     /// [`Error::Vfs`] if the directory could not be read
     pub fn read_dir(&self) -> Result<Vec<Self>, Error> {
-        Ok(self
-            .data
-            .path
-            .read_dir()?
+        let mut paths = self.data.path.read_dir()?.collect::<Vec<_>>();
+        paths.sort_by(|a, b| a.as_str().cmp(b.as_str()));
+        Ok(paths
+            .into_iter()
             .map(|p| Self {
                 data: Arc::new(WorkspacePathData {
                     path: p,
-- 
2.43.0


From e154efe3d46d3d6497dae91bbef69906cfbe7b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:38 +0000
Subject: [PATCH 073/110] fix: write the properties of an archive in the same
 order every time

---
 bin/src/modules/pbo.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/bin/src/modules/pbo.rs b/bin/src/modules/pbo.rs
index 033e3a7..f110463 100644
--- a/bin/src/modules/pbo.rs
+++ b/bin/src/modules/pbo.rs
@@ -1,4 +1,5 @@
 use std::{
+    collections::{BTreeMap, HashMap},
     fs::{create_dir_all, File},
     sync::atomic::{AtomicU16, Ordering},
 };
@@ -161,14 +162,19 @@ fn internal_build(
             pbo.add_file(file, entry.open_file()?)?;
         }
     }
-    for header in ctx.config().properties() {
+    for header in sorted(ctx.config().properties()) {
         pbo.add_property(header.0, header.1.clone());
     }
     if let Some(config) = addon.config() {
-        for header in config.properties() {
+        for header in sorted(config.properties()) {
             pbo.add_property(header.0, header.1.clone());
         }
     }
     pbo.write(&mut File::create(target_pbo)?, true)?;
     Ok(())
 }
+
+/// The properties in an order that is the same for every build
+fn sorted(properties: &HashMap<String, String>) -> BTreeMap<&String, &String> {
+    properties.iter().collect()
+}
-- 
2.43.0


From 67e89300a40721a56ead19f7748ba1d9ffbd0dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:38 +0000
Subject: [PATCH 074/110] fix: give a release its name once its archive is
 complete

---
 bin/src/modules/archive.rs | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/bin/src/modules/archive.rs b/bin/src/modules/archive.rs
index 479bc82..881046c 100644
--- a/bin/src/modules/archive.rs
+++ b/bin/src/modules/archive.rs
@@ -37,11 +37,9 @@ pub fn release(ctx: &Context) -> Result<Report, Error> {
     debug!("creating release at {:?}", output.display());
     let mut to_write = Vec::new();
     for entry in WalkDir::new(ctx.build_folder().expect("build folder exists")) {
-        let Ok(entry) = entry else {
-            continue;
-        };
+        let entry = entry.map_err(std::io::Error::from)?;
         let path = entry.path();
-        if path.is_dir() {
+        if std::fs::metadata(path)?.is_dir() {
             let path = path
                 .strip_prefix(ctx.build_folder().expect("build folder exists"))
                 .expect("We are in the HEMTT folder, the prefix should always exist")
@@ -71,7 +69,9 @@ pub fn release(ctx: &Context) -> Result<Report, Error> {
         to_write.push(Entry::File(file, path.to_owned()));
     }
     let progress = progress_bar(to_write.len() as u64).with_message("Creating release");
-    let mut zip = ZipWriter::new(File::create(&output)?);
+    // A release only gets its name once it is complete
+    let partial = output.with_extension("zip.partial");
+    let mut zip = ZipWriter::new(File::create(&partial)?);
     for entry in to_write {
         match entry {
             Entry::File(file, path) => {
@@ -86,16 +86,15 @@ pub fn release(ctx: &Context) -> Result<Report, Error> {
     }
     progress.finish_and_clear();
     zip.finish()?;
+    std::fs::rename(&partial, &output)?;
     info!("Created release: {}", output.display());
-    std::fs::copy(&output, {
-        let mut output = output.clone();
-        output.set_file_name(format!(
-            "{}-{}.zip",
-            ctx.config().prefix(),
-            ctx.config().version().get(ctx.workspace_path().vfs())?
-        ));
-        info!("Created release: {}", output.display());
-        output
-    })?;
+    let versioned = output.with_file_name(format!(
+        "{}-{}.zip",
+        ctx.config().prefix(),
+        ctx.config().version().get(ctx.workspace_path().vfs())?
+    ));
+    std::fs::copy(&output, &partial)?;
+    std::fs::rename(&partial, &versioned)?;
+    info!("Created release: {}", versioned.display());
     Ok(Report::new())
 }
-- 
2.43.0


From 098d3dcdd0c0b0d11931304ddbe9c31dd2b21aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:38 +0000
Subject: [PATCH 075/110] fix: report a failure to write the ci annotations

---
 bin/src/report.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bin/src/report.rs b/bin/src/report.rs
index e19a296..7faa5e3 100644
--- a/bin/src/report.rs
+++ b/bin/src/report.rs
@@ -44,6 +44,7 @@ impl Report {
                 }
             }
         }
+        ci_annotation.flush()?;
         trace!(
             "wrote {} ci annotations to .hemttout/ci_annotations.txt",
             self.codes.len()
-- 
2.43.0


From 4cef46581b3e41cbdbfb945ee1fc1ce4105dc948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:22 +0000
Subject: [PATCH 076/110] fix: list what a config parser expected in the same
 order every time

---
 libs/config/src/analyze/chumsky.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/libs/config/src/analyze/chumsky.rs b/libs/config/src/analyze/chumsky.rs
index 2dfca84..b202716 100644
--- a/libs/config/src/analyze/chumsky.rs
+++ b/libs/config/src/analyze/chumsky.rs
@@ -15,7 +15,27 @@ impl Code for ChumskyCode {
     }
 
     fn message(&self) -> String {
-        self.err.to_string()
+        let message = self.err.to_string();
+        if self.err.expected().len() < 2 {
+            return message;
+        }
+        // chumsky lists what it expected in a different order every time
+        let mut expected = self
+            .err
+            .expected()
+            .map(|expected| {
+                expected.map_or_else(
+                    || "end of input".to_string(),
+                    |expected| format!("{:?}", expected.to_string()),
+                )
+            })
+            .collect::<Vec<_>>();
+        expected.sort();
+        message
+            .split_once(" but expected")
+            .map_or(message.clone(), |(found, _)| {
+                format!("{found} but expected one of {}", expected.join(", "))
+            })
     }
 
     fn diagnostic(&self) -> Option<Diagnostic> {
-- 
2.43.0


From a1713d1cbef33bdb4ffc6893d207bb29be764b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:10 +0000
Subject: [PATCH 077/110] fix: report files that the BOM check can not read

---
 bin/src/modules/bom.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/bin/src/modules/bom.rs b/bin/src/modules/bom.rs
index 0264919..ce52e83 100644
--- a/bin/src/modules/bom.rs
+++ b/bin/src/modules/bom.rs
@@ -15,11 +15,13 @@ impl Module for BOMCheck {
     }
 
     fn check(&self, ctx: &Context) -> Result<Report, crate::Error> {
-        fn files_to_check(root: &PathBuf) -> Vec<PathBuf> {
+        fn files_to_check(root: &PathBuf) -> Result<Vec<PathBuf>, crate::Error> {
             const IGNORED_EXTENSIONS: [&str; 4] = ["p3d", "rtm", "bin", "paa"];
-            walkdir::WalkDir::new(root)
+            Ok(walkdir::WalkDir::new(root)
+                .into_iter()
+                .collect::<Result<Vec<_>, _>>()
+                .map_err(std::io::Error::from)?
                 .into_iter()
-                .filter_map(std::result::Result::ok)
                 .filter(|e| e.file_type().is_file())
                 .filter(|e| !e.path().display().to_string().contains(".hemttout"))
                 .filter(|e| {
@@ -28,7 +30,7 @@ impl Module for BOMCheck {
                     })
                 })
                 .map(|e| e.path().to_path_buf())
-                .collect::<Vec<_>>()
+                .collect::<Vec<_>>())
         }
         let mut report = Report::new();
         for folder in ["addons", "optionals"] {
@@ -36,12 +38,15 @@ impl Module for BOMCheck {
             if !folder.exists() {
                 continue;
             }
-            let files = files_to_check(&folder);
+            let files = files_to_check(&folder)?;
             for path in files {
                 let mut buffer = [0; 3];
                 let mut file = std::fs::File::open(&path)?;
-                if file.read_exact(&mut buffer).is_err() {
-                    continue;
+                match file.read_exact(&mut buffer) {
+                    Ok(()) => {}
+                    // too short for a marker
+                    Err(e) if e.kind() == std::io::ErrorKind::UnexpectedEof => continue,
+                    Err(e) => return Err(e.into()),
                 }
                 if buffer == [0xEF, 0xBB, 0xBF] {
                     report.push(Arc::new(BOMError {
-- 
2.43.0


From 6bfbb0690d3738349bd897fc81a4608f551efde2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:45 +0000
Subject: [PATCH 078/110] fix: compile scripts with a pair of code blocks or a
 very long array inside a constant array

---
 libs/sqf/src/compiler/mod.rs           | 2 +-
 libs/sqf/src/compiler/optimizer/mod.rs | 4 +---
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/libs/sqf/src/compiler/mod.rs b/libs/sqf/src/compiler/mod.rs
index eaa0178..e6be798 100644
--- a/libs/sqf/src/compiler/mod.rs
+++ b/libs/sqf/src/compiler/mod.rs
@@ -168,7 +168,7 @@ impl Expression {
                             push_constant(item, instructions, ctx)?;
                         }
                         instructions.push(Instruction::MakeArray(
-                            len.try_into().expect("array too long"),
+                            len.try_into().map_err(|_| CompileError::ListTooLong)?,
                             SourceInfo {
                                 offset: 0,
                                 file_index: 0,
diff --git a/libs/sqf/src/compiler/optimizer/mod.rs b/libs/sqf/src/compiler/optimizer/mod.rs
index 77c4eb1..41a5414 100644
--- a/libs/sqf/src/compiler/optimizer/mod.rs
+++ b/libs/sqf/src/compiler/optimizer/mod.rs
@@ -224,9 +224,7 @@ impl Expression {
             Self::Code(..) | Self::String(..) | Self::Number(..) | Self::Boolean(..) => true,
             Self::NularCommand(ref command, ..) => command.is_constant(),
             Self::Array(ref array, ..) => array.iter().all(Self::is_constant), // true on empty
-            Self::ConsumeableArray(..) => {
-                unreachable!("should not be reachable");
-            }
+            // Includes ConsumeableArray, an array around one is made when it is used
             _ => false,
         }
     }
-- 
2.43.0


From 14a48b7e96cf425a6f6a580bc6b787bc9a0b1ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:45 +0000
Subject: [PATCH 079/110] fix: show where a script with non-ASCII text ends
 unexpectedly

---
 libs/sqf/src/parser/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/sqf/src/parser/mod.rs b/libs/sqf/src/parser/mod.rs
index 10c0956..3750e26 100644
--- a/libs/sqf/src/parser/mod.rs
+++ b/libs/sqf/src/parser/mod.rs
@@ -58,7 +58,7 @@ pub fn run_for_tokens<I>(
 where
     I: IntoIterator<Item = (Token, Range<usize>)>,
 {
-    let len = processed.as_str().len();
+    let len = processed.as_str().chars().count();
     let statements =
         parser(database, processed).parse(Stream::from_iter(len..len + 1, input.into_iter()))?;
     Ok(statements)
-- 
2.43.0


From 3889c6cdc46a03c6c0fe23a27234bf73a5a49481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:45 +0000
Subject: [PATCH 080/110] fix: show the error for an include that is a bare
 word

---
 libs/preprocessor/src/codes/pe13_include_not_encased.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/preprocessor/src/codes/pe13_include_not_encased.rs b/libs/preprocessor/src/codes/pe13_include_not_encased.rs
index 01e6b6c..b931f9e 100644
--- a/libs/preprocessor/src/codes/pe13_include_not_encased.rs
+++ b/libs/preprocessor/src/codes/pe13_include_not_encased.rs
@@ -55,8 +55,8 @@ impl Code for IncludeNotEncased {
     }
 
     fn diagnostic(&self) -> Option<Diagnostic> {
-        let start = self.start.as_ref()?;
         let end = self.token.as_ref();
+        let start = self.start.as_ref().unwrap_or(end);
         let mut diag = Diagnostic::new(self.ident(), self.message()).with_label(
             Label::primary(
                 start.position().path().clone(),
-- 
2.43.0


From 050d3354951131bf5b09c00812db6eeddb829d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:30 +0000
Subject: [PATCH 081/110] fix: sort the containers of string tables, as
 documented

---
 libs/stringtable/src/package.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libs/stringtable/src/package.rs b/libs/stringtable/src/package.rs
index 78fb419..ec8fdfc 100644
--- a/libs/stringtable/src/package.rs
+++ b/libs/stringtable/src/package.rs
@@ -32,6 +32,7 @@ impl Package {
 
     pub fn sort(&mut self) {
         self.keys.sort_by(|a, b| a.id().cmp(b.id()));
+        self.containers.sort_by(|a, b| a.name().cmp(b.name()));
         for container in &mut self.containers {
             container.sort();
         }
-- 
2.43.0


From 58ea29978ba6e1a1ead3f59df92c5a00a3058927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:30 +0000
Subject: [PATCH 082/110] fix: sorting string tables replaces files completely
 or fails

---
 bin/src/commands/localization/sort.rs | 66 +++++++++++----------------
 bin/src/utils/mod.rs                  | 21 +++++++++
 2 files changed, 47 insertions(+), 40 deletions(-)

diff --git a/bin/src/commands/localization/sort.rs b/bin/src/commands/localization/sort.rs
index d752c33..a8889a7 100644
--- a/bin/src/commands/localization/sort.rs
+++ b/bin/src/commands/localization/sort.rs
@@ -1,4 +1,4 @@
-use std::{io::BufReader, path::PathBuf};
+use std::{fs::File, io::BufReader};
 
 use hemtt_stringtable::Project;
 
@@ -32,46 +32,32 @@ pub fn sort(cmd: &Command) -> Result<Report, Error> {
         if !ctx.project_folder().join(root).exists() {
             continue;
         }
-        let paths: Vec<PathBuf> = walkdir::WalkDir::new(ctx.project_folder().join(root))
+        let entries = walkdir::WalkDir::new(ctx.project_folder().join(root))
             .into_iter()
-            .filter_map(|p| {
-                p.map(|p| {
-                    if p.file_name() == "stringtable.xml" {
-                        Some(p.path().to_path_buf())
-                    } else {
-                        None
-                    }
-                })
-                .ok()
-                .flatten()
-            })
-            .collect::<Vec<_>>();
-        for path in paths {
-            if path.exists() {
-                let mut file = std::fs::File::open(&path)?;
-                match Project::from_reader(BufReader::new(&mut file)) {
-                    Ok(mut project) => {
-                        if !cmd.only_lang {
-                            project.sort();
-                        }
-                        let mut writer = String::new();
-                        if let Err(e) = project.to_writer(&mut writer) {
-                            error!("Failed to write stringtable for {}", path.display());
-                            error!("{:?}", e);
-                            return Ok(Report::new());
-                        }
-                        if let Err(e) = std::fs::write(&path, writer) {
-                            error!("Failed to write stringtable for {}", path.display());
-                            error!("{:?}", e);
-                            return Ok(Report::new());
-                        }
-                    }
-                    Err(e) => {
-                        error!("Failed to read stringtable for {}", path.display());
-                        error!("{:?}", e);
-                        return Ok(Report::new());
-                    }
-                };
+            .collect::<Result<Vec<_>, _>>()?;
+        for entry in entries {
+            if entry.file_name() != "stringtable.xml" {
+                continue;
+            }
+            let path = entry.path();
+            let mut project = match Project::from_reader(BufReader::new(File::open(path)?)) {
+                Ok(project) => project,
+                Err(e) => {
+                    error!("Failed to read stringtable for {}", path.display());
+                    return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, e).into());
+                }
+            };
+            if !cmd.only_lang {
+                project.sort();
+            }
+            let mut writer = String::new();
+            if let Err(e) = project.to_writer(&mut writer) {
+                error!("Failed to write stringtable for {}", path.display());
+                return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, e).into());
+            }
+            if let Err(e) = crate::utils::replace_file(path, &writer) {
+                error!("Failed to write stringtable for {}", path.display());
+                return Err(e.into());
             }
         }
     }
diff --git a/bin/src/utils/mod.rs b/bin/src/utils/mod.rs
index 58467e3..7c77e64 100644
--- a/bin/src/utils/mod.rs
+++ b/bin/src/utils/mod.rs
@@ -5,3 +5,24 @@ pub mod pbo;
 pub mod photoshoot;
 pub mod sqf;
 pub mod verify;
+
+/// Replace the content of a file
+///
+/// The file is only replaced once the new content is completely written,
+/// when that fails or is interrupted it stays as it was
+///
+/// # Errors
+/// [`std::io::Error`] if the content can not be written
+pub fn replace_file(path: &std::path::Path, content: &str) -> Result<(), std::io::Error> {
+    let path = path.canonicalize()?;
+    let mut tmp = path.clone().into_os_string();
+    tmp.push(".tmp");
+    let replace = || {
+        std::fs::write(&tmp, content)?;
+        std::fs::set_permissions(&tmp, std::fs::metadata(&path)?.permissions())?;
+        std::fs::rename(&tmp, &path)
+    };
+    replace().inspect_err(|_| {
+        let _ = std::fs::remove_file(&tmp);
+    })
+}
-- 
2.43.0


From 84e402a2bbcd170a4334f4f7cb2d58d18296bf37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:30 +0000
Subject: [PATCH 083/110] fix: correcting the case of commands leaves strings
 in single quotes alone

---
 bin/src/utils/sqf/case.rs | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/bin/src/utils/sqf/case.rs b/bin/src/utils/sqf/case.rs
index ca7a514..f75c433 100644
--- a/bin/src/utils/sqf/case.rs
+++ b/bin/src/utils/sqf/case.rs
@@ -51,7 +51,8 @@ pub fn execute(args: &SqfCaseArgs) -> Result<(), Error> {
 #[derive(Clone, Copy, Debug, PartialEq, Eq)]
 pub enum InsideQuote {
     No,
-    Yes,
+    Single,
+    Double,
 }
 
 #[derive(Clone, Copy, Debug, PartialEq, Eq)]
@@ -82,6 +83,7 @@ fn file(file: &Path) -> Result<bool, Error> {
     let mut buffer = String::new();
     let mut in_quotes = InsideQuote::No;
     let mut in_comment = InsideComment::No;
+    let mut comment_start = 0;
     let mut inside_ignored_macro = InsideIgnoredMacro::No;
     for char in content.chars() {
         match (char, in_quotes, in_comment, inside_ignored_macro) {
@@ -93,13 +95,18 @@ fn file(file: &Path) -> Result<bool, Error> {
             ) => {
                 buffer.push(char);
             }
-            ('"', _, InsideComment::No, _) => {
-                if in_quotes == InsideQuote::No {
-                    check_buffer(&mut out, &mut buffer, &wiki);
-                    in_quotes = InsideQuote::Yes;
+            ('"' | '\'', InsideQuote::No, InsideComment::No, _) => {
+                check_buffer(&mut out, &mut buffer, &wiki);
+                in_quotes = if char == '"' {
+                    InsideQuote::Double
                 } else {
-                    in_quotes = InsideQuote::No;
-                }
+                    InsideQuote::Single
+                };
+                out.push(char);
+            }
+            ('"', InsideQuote::Double, InsideComment::No, _)
+            | ('\'', InsideQuote::Single, InsideComment::No, _) => {
+                in_quotes = InsideQuote::No;
                 out.push(char);
             }
             ('/', InsideQuote::No, InsideComment::No, _) => {
@@ -120,11 +127,13 @@ fn file(file: &Path) -> Result<bool, Error> {
                 check_buffer(&mut out, &mut buffer, &wiki);
                 if out.ends_with('/') {
                     in_comment = InsideComment::Multi;
+                    comment_start = out.len() + 1;
                 }
                 out.push(char);
             }
             ('/', InsideQuote::No, InsideComment::Multi, _) => {
-                if out.ends_with('*') {
+                // the `*` that opens a comment does not close it
+                if out.ends_with('*') && out.len() > comment_start {
                     in_comment = InsideComment::No;
                 }
                 out.push(char);
@@ -152,7 +161,7 @@ fn file(file: &Path) -> Result<bool, Error> {
                 check_buffer(&mut out, &mut buffer, &wiki);
                 out.push(char);
             }
-            (_, InsideQuote::Yes, _, _)
+            (_, InsideQuote::Single | InsideQuote::Double, _, _)
             | (_, _, InsideComment::Single | InsideComment::Multi, _) => {
                 out.push(char);
             }
-- 
2.43.0


From ba80f07c0b01d00843f52c394e4c594036c30c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:30 +0000
Subject: [PATCH 084/110] fix: correcting the case of commands replaces files
 completely or fails

---
 bin/src/utils/sqf/case.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/src/utils/sqf/case.rs b/bin/src/utils/sqf/case.rs
index f75c433..202fb0e 100644
--- a/bin/src/utils/sqf/case.rs
+++ b/bin/src/utils/sqf/case.rs
@@ -172,7 +172,7 @@ fn file(file: &Path) -> Result<bool, Error> {
 
     // Write the file
     if content != out {
-        std::fs::write(file, out)?;
+        crate::utils::replace_file(file, &out)?;
         return Ok(true);
     }
     Ok(false)
-- 
2.43.0


From 59d3a1ea93b559a7fa2b030e638cfd6a19e2f998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:08 +0000
Subject: [PATCH 085/110] fix: extracting, unpacking and verifying fail when
 they did not succeed

---
 bin/src/utils/pbo/extract.rs | 14 ++++++++++----
 bin/src/utils/pbo/unpack.rs  |  7 +++++--
 bin/src/utils/verify.rs      | 30 +++++++++++++++++-------------
 3 files changed, 32 insertions(+), 19 deletions(-)

diff --git a/bin/src/utils/pbo/extract.rs b/bin/src/utils/pbo/extract.rs
index 72312c0..c0676d5 100644
--- a/bin/src/utils/pbo/extract.rs
+++ b/bin/src/utils/pbo/extract.rs
@@ -23,14 +23,20 @@ pub fn execute(args: &PboExtractArgs) -> Result<(), Error> {
     let path = PathBuf::from(&args.pbo);
     let mut pbo = ReadablePbo::from(File::open(path)?)?;
     let Some(mut file) = pbo.file(&args.file)? else {
-        error!("File `{}` not found in PBO", args.file);
-        return Ok(());
+        return Err(std::io::Error::new(
+            std::io::ErrorKind::NotFound,
+            format!("File `{}` not found in PBO", args.file),
+        )
+        .into());
     };
     let output = args.output.as_ref().map(PathBuf::from);
     if let Some(output) = output {
         if output.exists() {
-            error!("Output file already exists");
-            return Ok(());
+            return Err(std::io::Error::new(
+                std::io::ErrorKind::AlreadyExists,
+                "Output file already exists",
+            )
+            .into());
         }
         std::io::copy(&mut file, &mut File::create(output)?)?;
     } else {
diff --git a/bin/src/utils/pbo/unpack.rs b/bin/src/utils/pbo/unpack.rs
index 4c11063..f7c64ec 100644
--- a/bin/src/utils/pbo/unpack.rs
+++ b/bin/src/utils/pbo/unpack.rs
@@ -25,8 +25,11 @@ pub fn execute(args: &PboUnpackArgs) -> Result<(), Error> {
     let mut pbo = ReadablePbo::from(File::open(path)?)?;
     let output = PathBuf::from(&args.output);
     if output.exists() {
-        error!("Output directory already exists");
-        return Ok(());
+        return Err(std::io::Error::new(
+            std::io::ErrorKind::AlreadyExists,
+            "Output directory already exists",
+        )
+        .into());
     }
     std::fs::create_dir_all(&output)?;
     for (key, value) in pbo.properties() {
diff --git a/bin/src/utils/verify.rs b/bin/src/utils/verify.rs
index 4d54a3f..cb5bb65 100644
--- a/bin/src/utils/verify.rs
+++ b/bin/src/utils/verify.rs
@@ -66,36 +66,40 @@ pub fn execute(cmd: &Command) -> Result<(), Error> {
         println!("Verification Warning: PBO reports an invalid hash");
     }
 
-    match publickey.verify(&mut pbo, &signature) {
-        Ok(()) => println!("Verified!"),
-        Err(hemtt_signing::Error::AuthorityMismatch { .. }) => {
+    let Err(e) = publickey.verify(&mut pbo, &signature) else {
+        println!("Verified!");
+        return Ok(());
+    };
+
+    match &e {
+        hemtt_signing::Error::AuthorityMismatch { .. } => {
             error!("Verification Failed: Authority does not match");
         }
-        Err(hemtt_signing::Error::KeyMismatch) => {
+        hemtt_signing::Error::KeyMismatch => {
             error!("Verification Failed: Signature was made with a different key");
         }
-        Err(hemtt_signing::Error::HashMismatch { .. }) => {
+        hemtt_signing::Error::HashMismatch { .. } => {
             error!("Verification Failed: Signature does not match");
         }
-        Err(hemtt_signing::Error::UknownBISignVersion(v)) => {
+        hemtt_signing::Error::UknownBISignVersion(v) => {
             error!("Verification Failed: Unknown BI Signature Version: {v}");
         }
-        Err(hemtt_signing::Error::Io(e)) => {
+        hemtt_signing::Error::Io(e) => {
             error!("Verification Failed: Encountered IO error: {e}");
         }
-        Err(hemtt_signing::Error::Pbo(e)) => {
+        hemtt_signing::Error::Pbo(e) => {
             error!("Verification Failed: Encountered PBO error: {e}");
         }
-        Err(hemtt_signing::Error::Rsa(e)) => {
+        hemtt_signing::Error::Rsa(e) => {
             error!("Verification Failed: Encountered RSA error: {e}");
         }
-        Err(hemtt_signing::Error::InvalidLength) => {
+        hemtt_signing::Error::InvalidLength => {
             error!("Verification Failed: Invalid length");
         }
-        Err(hemtt_signing::Error::AuthorityMissing) => {
+        hemtt_signing::Error::AuthorityMissing => {
             error!("Verification Failed: Missing authority");
         }
-        Err(hemtt_signing::Error::InvalidFileSorting) => {
+        hemtt_signing::Error::InvalidFileSorting => {
             if pbo.properties().contains_key("Mikero") {
                 error!("Verification Failed: Invalid file sorting. This is a bug in Mikero tools.");
             } else {
@@ -104,5 +108,5 @@ pub fn execute(cmd: &Command) -> Result<(), Error> {
         }
     }
 
-    Ok(())
+    Err(e.into())
 }
-- 
2.43.0


From 380b37e70a2ba551f12e9a0663a0d72a2009e943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:26 +0000
Subject: [PATCH 086/110] fix: unpacking stays inside the output directory

---
 bin/src/utils/pbo/unpack.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/bin/src/utils/pbo/unpack.rs b/bin/src/utils/pbo/unpack.rs
index f7c64ec..dd99c10 100644
--- a/bin/src/utils/pbo/unpack.rs
+++ b/bin/src/utils/pbo/unpack.rs
@@ -1,7 +1,7 @@
 use std::{
     fs::{File, OpenOptions},
     io::Write,
-    path::PathBuf,
+    path::{Component, Path, PathBuf},
 };
 
 use hemtt_pbo::ReadablePbo;
@@ -31,6 +31,16 @@ pub fn execute(args: &PboUnpackArgs) -> Result<(), Error> {
         )
         .into());
     }
+    if let Some(header) = pbo.files().iter().find(|h| !is_inside(h.filename())) {
+        return Err(std::io::Error::new(
+            std::io::ErrorKind::InvalidData,
+            format!(
+                "File `{}` would be outside of the output directory",
+                header.filename()
+            ),
+        )
+        .into());
+    }
     std::fs::create_dir_all(&output)?;
     for (key, value) in pbo.properties() {
         debug!("{}: {}", key, value);
@@ -56,3 +66,10 @@ pub fn execute(args: &PboUnpackArgs) -> Result<(), Error> {
     }
     Ok(())
 }
+
+/// Does the file stay inside of the directory the PBO is unpacked to
+fn is_inside(filename: &str) -> bool {
+    Path::new(&filename.replace('\\', "/"))
+        .components()
+        .all(|c| matches!(c, Component::Normal(_) | Component::CurDir))
+}
-- 
2.43.0


From 0048f0589931525ba6cdb4a40893f9ac17f8ae88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:26 +0000
Subject: [PATCH 087/110] fix: converting a PAA fails when the image can not be
 saved

---
 bin/src/utils/paa/convert.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/bin/src/utils/paa/convert.rs b/bin/src/utils/paa/convert.rs
index 321437b..8c80d95 100644
--- a/bin/src/utils/paa/convert.rs
+++ b/bin/src/utils/paa/convert.rs
@@ -18,14 +18,22 @@ pub fn execute(args: &PaaConvertArgs) -> Result<(), Error> {
     let paa = PathBuf::from(&args.paa);
     let output = PathBuf::from(&args.output);
     if output.exists() {
-        error!("Output file already exists");
-        return Ok(());
+        return Err(std::io::Error::new(
+            std::io::ErrorKind::AlreadyExists,
+            "Output file already exists",
+        )
+        .into());
     }
     let paa = hemtt_paa::Paa::read(std::fs::File::open(paa)?)?;
-    if let Err(e) = paa.maps()[0].get_image().save(output) {
-        error!("Failed to save PNG: {}", e);
-    } else {
-        info!("PAA converted");
-    }
+    let Some(map) = paa.maps().first() else {
+        return Err(
+            std::io::Error::new(std::io::ErrorKind::InvalidData, "PAA has no mipmaps").into(),
+        );
+    };
+    let mut image = std::io::Cursor::new(Vec::new());
+    let format = image::ImageFormat::from_path(&output)?;
+    map.get_image().write_to(&mut image, format)?;
+    std::fs::write(output, image.into_inner())?;
+    info!("PAA converted");
     Ok(())
 }
-- 
2.43.0


From f357c2082255c20d4da4419c30e1718f345b67e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:24 +0000
Subject: [PATCH 088/110] fix: show the errors of hooks and scripts instead of
 panicking in debug builds

---
 bin/src/modules/hook/error/bhe3_parse_error.rs   | 2 +-
 bin/src/modules/hook/error/bhe4_runtime_error.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bin/src/modules/hook/error/bhe3_parse_error.rs b/bin/src/modules/hook/error/bhe3_parse_error.rs
index 2678095..9e0c606 100644
--- a/bin/src/modules/hook/error/bhe3_parse_error.rs
+++ b/bin/src/modules/hook/error/bhe3_parse_error.rs
@@ -31,7 +31,7 @@ impl Code for RhaiParseError {
                     self.script.clone(),
                     get_offset(&content, self.location)..get_offset(&content, self.location),
                 )
-                .with_message(format!("{}", self.error)),
+                .with_message(format!("rhai: {}", self.error)),
             ),
         )
     }
diff --git a/bin/src/modules/hook/error/bhe4_runtime_error.rs b/bin/src/modules/hook/error/bhe4_runtime_error.rs
index 7e0d52e..46c2cdc 100644
--- a/bin/src/modules/hook/error/bhe4_runtime_error.rs
+++ b/bin/src/modules/hook/error/bhe4_runtime_error.rs
@@ -31,7 +31,7 @@ impl Code for RuntimeError {
                     self.script.clone(),
                     get_offset(&content, self.location)..get_offset(&content, self.location),
                 )
-                .with_message(self.error.to_string()),
+                .with_message(format!("rhai: {}", self.error)),
             ),
         )
     }
-- 
2.43.0


From 7844eb93358568b4f0855af75aa75382cb3043b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:24 +0000
Subject: [PATCH 089/110] fix: folders next to hooks are not hooks when they
 are checked either

---
 bin/src/modules/hook/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bin/src/modules/hook/mod.rs b/bin/src/modules/hook/mod.rs
index 035b3a2..982f79c 100644
--- a/bin/src/modules/hook/mod.rs
+++ b/bin/src/modules/hook/mod.rs
@@ -204,6 +204,9 @@ impl Module for Hooks {
                 }
                 for hook in dir.read_dir().expect("hooks folder should be readable") {
                     let hook = hook?;
+                    if !hook.path().is_file() {
+                        continue;
+                    }
                     let path = ctx
                         .workspace_path()
                         .join(".hemtt")?
-- 
2.43.0


From 0d4ad0509b2926e93c8dc9613dea8abc61623182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:24 +0000
Subject: [PATCH 090/110] fix: copy and move folders to the given path on the
 real file system

---
 bin/src/modules/hook/libraries/rfs/path.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/bin/src/modules/hook/libraries/rfs/path.rs b/bin/src/modules/hook/libraries/rfs/path.rs
index c688c51..3044191 100644
--- a/bin/src/modules/hook/libraries/rfs/path.rs
+++ b/bin/src/modules/hook/libraries/rfs/path.rs
@@ -50,9 +50,13 @@ pub mod path_functions {
     #[rhai_fn(global, name = "copy", return_raw, pure)]
     pub fn copy(path: &mut PathBuf, other: PathBuf) -> Result<bool, Box<EvalAltResult>> {
         let res = if path.is_dir() {
-            fs_extra::dir::copy(path, other, &fs_extra::dir::CopyOptions::new())
-                .map_err(|e| e.to_string().into())
-                .err()
+            fs_extra::dir::copy(
+                path,
+                other,
+                &fs_extra::dir::CopyOptions::new().copy_inside(true),
+            )
+            .map_err(|e| e.to_string().into())
+            .err()
         } else {
             std::fs::copy(path, other)
                 .map_err(|e| e.to_string().into())
@@ -64,9 +68,13 @@ pub mod path_functions {
     #[rhai_fn(global, name = "move", return_raw, pure)]
     pub fn _move(path: &mut PathBuf, other: PathBuf) -> Result<bool, Box<EvalAltResult>> {
         let res = if path.is_dir() {
-            fs_extra::dir::move_dir(path, other, &fs_extra::dir::CopyOptions::new())
-                .map_err(|e| e.to_string().into())
-                .err()
+            fs_extra::dir::move_dir(
+                path,
+                other,
+                &fs_extra::dir::CopyOptions::new().copy_inside(true),
+            )
+            .map_err(|e| e.to_string().into())
+            .err()
         } else {
             std::fs::rename(path, other)
                 .map_err(|e| e.to_string().into())
-- 
2.43.0


From cd327d7f1737f7c68ed17df7af619763508678f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:24 +0000
Subject: [PATCH 091/110] fix: list the files of a folder in the same order
 every time in hooks and scripts

---
 bin/src/modules/hook/libraries/rfs/path.rs | 10 ++++++----
 bin/src/modules/hook/libraries/vfs/path.rs |  9 ++++++---
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/bin/src/modules/hook/libraries/rfs/path.rs b/bin/src/modules/hook/libraries/rfs/path.rs
index 3044191..14d6e0d 100644
--- a/bin/src/modules/hook/libraries/rfs/path.rs
+++ b/bin/src/modules/hook/libraries/rfs/path.rs
@@ -87,10 +87,12 @@ pub mod path_functions {
     pub fn list(path: &mut PathBuf) -> rhai::Array {
         let mut list = Vec::new();
         if path.is_dir() {
-            for entry in std::fs::read_dir(path).expect("can't read dir") {
-                let entry = entry.expect("entry failed");
-                list.push(Dynamic::from(entry.path()));
-            }
+            let mut entries = std::fs::read_dir(path)
+                .expect("can't read dir")
+                .map(|entry| entry.expect("entry failed").path())
+                .collect::<Vec<_>>();
+            entries.sort();
+            list.extend(entries.into_iter().map(Dynamic::from));
         }
         list
     }
diff --git a/bin/src/modules/hook/libraries/vfs/path.rs b/bin/src/modules/hook/libraries/vfs/path.rs
index e3738e6..a7994c1 100644
--- a/bin/src/modules/hook/libraries/vfs/path.rs
+++ b/bin/src/modules/hook/libraries/vfs/path.rs
@@ -77,9 +77,12 @@ pub mod path_functions {
     pub fn list(path: &mut VfsPath) -> Result<Array, Box<EvalAltResult>> {
         let mut list = Vec::new();
         if path.is_dir().map_err(|e| e.to_string())? {
-            for entry in path.read_dir().unwrap() {
-                list.push(Dynamic::from(entry));
-            }
+            let mut entries = path
+                .read_dir()
+                .map_err(|e| e.to_string())?
+                .collect::<Vec<_>>();
+            entries.sort_by_key(VfsPath::filename);
+            list.extend(entries.into_iter().map(Dynamic::from));
         }
         Ok(list)
     }
-- 
2.43.0


From 2c830ad4b689cbd7c9e9772e19ac0aa9ad3924af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:36 +0000
Subject: [PATCH 092/110] fix: a script that fails when a hook or script calls
 it is an error there

---
 bin/src/modules/hook/libraries/hemtt.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bin/src/modules/hook/libraries/hemtt.rs b/bin/src/modules/hook/libraries/hemtt.rs
index 40a2bf9..bbc667f 100644
--- a/bin/src/modules/hook/libraries/hemtt.rs
+++ b/bin/src/modules/hook/libraries/hemtt.rs
@@ -94,8 +94,10 @@ pub mod project_functions {
             }
             Hooks::run(&hemtt.ctx, path, false)
         }
-        inner_script(hemtt, name)
-            .map_err(|e| e.to_string().into())
-            .map(|(_, d)| d)
+        let (report, value) = inner_script(hemtt, name).map_err(|e| e.to_string())?;
+        if let Some(error) = report.errors().first() {
+            return Err(error.message().into());
+        }
+        Ok(value)
     }
 }
-- 
2.43.0


From 945110c344dab114f15b22fa657a252c9d46901b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:07 +0000
Subject: [PATCH 093/110] fix: what a hook writes to a virtual file is there
 for the rest of the hook

---
 bin/src/modules/hook/libraries/vfs/file.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/bin/src/modules/hook/libraries/vfs/file.rs b/bin/src/modules/hook/libraries/vfs/file.rs
index 349cbde..c6a6e04 100644
--- a/bin/src/modules/hook/libraries/vfs/file.rs
+++ b/bin/src/modules/hook/libraries/vfs/file.rs
@@ -4,13 +4,15 @@ use rhai::plugin::{
     export_module, mem, Dynamic, FnNamespace, FuncRegistration, ImmutableString, Module,
     NativeCallContext, PluginFunc, RhaiResult, TypeId,
 };
-use vfs::{SeekAndRead, SeekAndWrite};
+use vfs::{SeekAndRead, VfsPath};
 
 #[derive(Clone)]
 pub struct ReadFile(Rc<RefCell<Box<dyn SeekAndRead + Send>>>);
 
+/// A file of the virtual file system only has its new content once it is closed,
+/// so it is opened for every write, as the script might use the file in between
 #[derive(Clone)]
-pub struct WriteFile(Rc<RefCell<Box<dyn SeekAndWrite + Send>>>);
+pub struct WriteFile(VfsPath);
 
 #[allow(clippy::needless_pass_by_ref_mut)]
 #[allow(clippy::unwrap_used)] // coming from rhai codegen
@@ -31,7 +33,7 @@ pub mod file_functions {
     #[rhai_fn(global, pure, return_raw)]
     pub fn create_file(path: &mut VfsPath) -> Result<WriteFile, Box<EvalAltResult>> {
         path.create_file()
-            .map(|f| WriteFile(Rc::new(RefCell::new(f))))
+            .map(|_| WriteFile(path.clone()))
             .map_err(|e| e.to_string().into())
     }
 
@@ -53,7 +55,8 @@ pub mod file_functions {
     #[rhai_fn(global, return_raw)]
     pub fn write(file: &mut WriteFile, data: &str) -> Result<(), Box<EvalAltResult>> {
         file.0
-            .borrow_mut()
+            .append_file()
+            .map_err(|e| e.to_string())?
             .write_all(data.as_bytes())
             .map_err(|e| e.to_string().into())
     }
-- 
2.43.0


From 363b706a4880c544fe752cb82d76bdf2ce39ca55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:45 +0000
Subject: [PATCH 094/110] fix: find the project's own build when launching on
 Linux

---
 bin/src/commands/launch/launcher.rs | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/bin/src/commands/launch/launcher.rs b/bin/src/commands/launch/launcher.rs
index b05c11f..5585a67 100644
--- a/bin/src/commands/launch/launcher.rs
+++ b/bin/src/commands/launch/launcher.rs
@@ -85,11 +85,7 @@ impl Launcher {
         self.workshop.push({
             let mut path = std::env::current_dir()?;
             path.push(".hemttout/dev");
-            if cfg!(target_os = "linux") {
-                format!("Z:{}", path.display())
-            } else {
-                path.display().to_string()
-            }
+            path.display().to_string()
         });
         Ok(())
     }
@@ -319,11 +315,7 @@ impl Launcher {
     }
 
     pub fn add_external_mod(&mut self, path: String) {
-        self.workshop.push(if cfg!(target_os = "linux") {
-            format!("Z:{path}")
-        } else {
-            path
-        });
+        self.workshop.push(path);
     }
 
     pub fn add_options(&mut self, options: Vec<String>) {
-- 
2.43.0


From cab0f83f64fe43ccaf9666b4c32d9c32ea0c4724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:45 +0000
Subject: [PATCH 095/110] fix: pass -filePatching to a single instance, and do
 not panic on none

---
 bin/src/commands/launch/launcher.rs | 24 +++++++-----------------
 1 file changed, 7 insertions(+), 17 deletions(-)

diff --git a/bin/src/commands/launch/launcher.rs b/bin/src/commands/launch/launcher.rs
index 5585a67..680c4e4 100644
--- a/bin/src/commands/launch/launcher.rs
+++ b/bin/src/commands/launch/launcher.rs
@@ -237,25 +237,15 @@ impl Launcher {
             instances.push(args);
         }
 
-        if instances.len() == 1 {
-            Ok(Some(if cfg!(target_os = "windows") {
-                super::platforms::windows(&self.arma3, &self.executable, &instances[0])?
+        let mut children = Vec::new();
+        for instance in instances {
+            children.push(if cfg!(target_os = "windows") {
+                super::platforms::windows(&self.arma3, &self.executable, &instance)?
             } else {
-                super::platforms::linux(&args)?
-            }))
-        } else {
-            let mut children = Vec::new();
-            for instance in instances {
-                children.push(if cfg!(target_os = "windows") {
-                    super::platforms::windows(&self.arma3, &self.executable, &instance)?
-                } else {
-                    super::platforms::linux(&instance)?
-                });
-            }
-            Ok(Some(
-                children.into_iter().next().expect("At least one child"),
-            ))
+                super::platforms::linux(&instance)?
+            });
         }
+        Ok(children.into_iter().next())
     }
 
     #[must_use]
-- 
2.43.0


From 8e445aa222793a267ee7ceb91368bb5f497019fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:22 +0000
Subject: [PATCH 096/110] fix: report models that are too short or damaged
 instead of panicking

---
 .../binarize/error/bbe8_invalid_file.rs       | 27 +++++++++++++
 bin/src/modules/binarize/error/mod.rs         |  1 +
 bin/src/modules/binarize/mod.rs               | 40 +++++++++++--------
 3 files changed, 51 insertions(+), 17 deletions(-)
 create mode 100644 bin/src/modules/binarize/error/bbe8_invalid_file.rs

diff --git a/bin/src/modules/binarize/error/bbe8_invalid_file.rs b/bin/src/modules/binarize/error/bbe8_invalid_file.rs
new file mode 100644
index 0000000..c5f5df5
--- /dev/null
+++ b/bin/src/modules/binarize/error/bbe8_invalid_file.rs
@@ -0,0 +1,27 @@
+use std::sync::Arc;
+
+use hemtt_workspace::reporting::{Code, Diagnostic};
+
+pub struct InvalidFile {
+    file: String,
+    reason: String,
+}
+impl Code for InvalidFile {
+    fn ident(&self) -> &'static str {
+        "BBE8"
+    }
+
+    fn message(&self) -> String {
+        format!("{} could not be read: {}", self.file, self.reason)
+    }
+
+    fn diagnostic(&self) -> Option<Diagnostic> {
+        Some(Diagnostic::from_code(self))
+    }
+}
+
+impl InvalidFile {
+    pub fn code(file: String, reason: String) -> Arc<dyn Code> {
+        Arc::new(Self { file, reason })
+    }
+}
diff --git a/bin/src/modules/binarize/error/mod.rs b/bin/src/modules/binarize/error/mod.rs
index df1883c..04ad5b4 100644
--- a/bin/src/modules/binarize/error/mod.rs
+++ b/bin/src/modules/binarize/error/mod.rs
@@ -5,6 +5,7 @@ pub mod bbe4_missing_textures;
 pub mod bbe5_missing_material;
 pub mod bbe6_missing_pdrive;
 pub mod bbe7_wine_not_found;
+pub mod bbe8_invalid_file;
 
 pub mod bbw1_tools_not_found;
 pub mod bbw2_platform_not_supported;
diff --git a/bin/src/modules/binarize/mod.rs b/bin/src/modules/binarize/mod.rs
index f4b2863..a8c3400 100644
--- a/bin/src/modules/binarize/mod.rs
+++ b/bin/src/modules/binarize/mod.rs
@@ -20,7 +20,10 @@ use self::error::{
     bbe3_binarize_failed::BinarizeFailed, bbw1_tools_not_found::ToolsNotFound,
     bbw2_platform_not_supported::PlatformNotSupported,
 };
-use self::error::{bbe4_missing_textures::MissingTextures, bbe6_missing_pdrive::MissingPDrive};
+use self::error::{
+    bbe4_missing_textures::MissingTextures, bbe6_missing_pdrive::MissingPDrive,
+    bbe8_invalid_file::InvalidFile,
+};
 use super::Module;
 use crate::{
     context::Context, error::Error, link::create_link,
@@ -164,14 +167,9 @@ impl Module for Binarize {
                 .workspace_path()
                 .join(addon.folder())
                 .expect("workspace should be able to join the addon folder")
-                .walk_dir()
-                .expect("should be able to walk the vfs addon directory")
+                .walk_dir()?
             {
-                if entry
-                    .metadata()
-                    .expect("should be able to get metadata for the vfs entry")
-                    .file_type
-                    == VfsFileType::File
+                if entry.metadata()?.file_type == VfsFileType::File
                     && ["rtm", "p3d", "wrp"]
                         .contains(&entry.extension().unwrap_or_default().as_str())
                 {
@@ -198,11 +196,13 @@ impl Module for Binarize {
 
                     // skip OLOD & BMTR files as they are already binarized
                     let mut buf = [0; 4];
-                    entry
-                        .open_file()
-                        .expect("file should exist if it came from walk_dir")
-                        .read_exact(&mut buf)
-                        .expect("p3ds should be at least 4 bytes");
+                    if let Err(e) = entry.open_file()?.read_exact(&mut buf) {
+                        report.push(InvalidFile::code(
+                            entry.as_str().to_string(),
+                            e.to_string(),
+                        ));
+                        continue;
+                    }
                     if check_signature(buf) {
                         debug!(
                             "skipping binarization of already binarized {}",
@@ -214,10 +214,16 @@ impl Module for Binarize {
                     // check mlod for textures
                     if buf == [0x4D, 0x4C, 0x4F, 0x44] {
                         trace!("checking textures & materials for {}", entry.as_str());
-                        let p3d = hemtt_p3d::P3D::read(
-                            &mut entry.open_file().expect("file should exist from walk_dir"),
-                        )
-                        .expect("p3d should be able to be read if it is a valid p3d file");
+                        let p3d = match hemtt_p3d::P3D::read(&mut entry.open_file()?) {
+                            Ok(p3d) => p3d,
+                            Err(e) => {
+                                report.push(InvalidFile::code(
+                                    entry.as_str().to_string(),
+                                    e.to_string(),
+                                ));
+                                continue;
+                            }
+                        };
                         let (missing_textures, missing_materials) =
                             p3d.missing(ctx.workspace_path(), &search_cache)?;
                         if !missing_textures.is_empty() {
-- 
2.43.0


From f84e26eb04cc123113ed955556dc01abc535100d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:34 +0000
Subject: [PATCH 097/110] fix: report an error when binarize can not be run or
 fails instead of panicking

---
 bin/src/modules/binarize/mod.rs | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/bin/src/modules/binarize/mod.rs b/bin/src/modules/binarize/mod.rs
index a8c3400..e01a1f4 100644
--- a/bin/src/modules/binarize/mod.rs
+++ b/bin/src/modules/binarize/mod.rs
@@ -294,8 +294,7 @@ impl Module for Binarize {
             .par_iter()
             .map(|target| {
                 debug!("binarizing {}", target.entry);
-                create_dir_all(&target.output)
-                    .expect("should be able to create output dir for target");
+                create_dir_all(&target.output)?;
                 let exe = self
                     .command
                     .as_ref()
@@ -325,8 +324,7 @@ impl Module for Binarize {
                     let mut cmd = Command::new("wine64");
                     cmd.arg(exe);
                     cmd.env("WINEPREFIX", "/tmp/hemtt-wine");
-                    std::fs::create_dir_all("/tmp/hemtt-wine")
-                        .expect("should be able to create wine prefix");
+                    std::fs::create_dir_all("/tmp/hemtt-wine")?;
                     cmd
                 };
                 cmd.args([
@@ -350,20 +348,23 @@ impl Module for Binarize {
                 ])
                 .current_dir(ctx.tmp());
                 trace!("{:?}", cmd);
-                let output = cmd.output().expect("should be able to run binarize");
-                assert!(
-                    output.status.success(),
-                    "binarize failed with code {:?}",
-                    output.status.code().unwrap_or(-1)
-                );
+                let output = cmd.output()?;
+                if !output.status.success() {
+                    error!(
+                        "binarize failed with code {:?} for {}",
+                        output.status.code().unwrap_or(-1),
+                        target.entry
+                    );
+                    return Ok(Some(BinarizeFailed::code(target.entry.clone())));
+                }
                 if PathBuf::from(&target.output).join(&target.entry).exists() {
                     counter.fetch_add(1, Ordering::Relaxed);
-                    None
+                    Ok(None)
                 } else {
-                    Some(BinarizeFailed::code(target.entry.clone()))
+                    Ok(Some(BinarizeFailed::code(target.entry.clone())))
                 }
             })
-            .collect::<Vec<_>>()
+            .collect::<Result<Vec<_>, Error>>()?
             .into_iter()
             .flatten()
             .for_each(|error| {
-- 
2.43.0


From d370e697bbe21278607dbcbc4d920c8ca70eec90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:30 +0000
Subject: [PATCH 098/110] fix: count an addon once in the translation report,
 and fail when a string table can not be read

---
 bin/src/commands/localization/coverage.rs | 60 +++++++++++------------
 1 file changed, 30 insertions(+), 30 deletions(-)

diff --git a/bin/src/commands/localization/coverage.rs b/bin/src/commands/localization/coverage.rs
index 0585d37..49b5f39 100644
--- a/bin/src/commands/localization/coverage.rs
+++ b/bin/src/commands/localization/coverage.rs
@@ -111,38 +111,38 @@ pub fn coverage(cmd: &Command) -> Result<Report, Error> {
                 Ok(project) => project,
                 Err(e) => {
                     error!("Failed to read stringtable for {}", addon.folder());
-                    error!("{:?}", e);
-                    return Ok(Report::new());
+                    return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, e).into());
                 }
             };
-            project.packages().iter().for_each(|package| {
-                let totals = package.totals();
-                missing!(totals, missing, original, addon.folder());
-                missing!(totals, missing, english, addon.folder());
-                missing!(totals, missing, czech, addon.folder());
-                missing!(totals, missing, french, addon.folder());
-                missing!(totals, missing, spanish, addon.folder());
-                missing!(totals, missing, italian, addon.folder());
-                missing!(totals, missing, polish, addon.folder());
-                missing!(totals, missing, portuguese, addon.folder());
-                missing!(totals, missing, russian, addon.folder());
-                missing!(totals, missing, german, addon.folder());
-                missing!(totals, missing, korean, addon.folder());
-                missing!(totals, missing, japanese, addon.folder());
-                missing!(totals, missing, chinese, addon.folder());
-                missing!(totals, missing, chinesesimp, addon.folder());
-                missing!(totals, missing, turkish, addon.folder());
-                missing!(totals, missing, swedish, addon.folder());
-                missing!(totals, missing, slovak, addon.folder());
-                missing!(totals, missing, serbocroatian, addon.folder());
-                missing!(totals, missing, norwegian, addon.folder());
-                missing!(totals, missing, icelandic, addon.folder());
-                missing!(totals, missing, hungarian, addon.folder());
-                missing!(totals, missing, greek, addon.folder());
-                missing!(totals, missing, finnish, addon.folder());
-                missing!(totals, missing, dutch, addon.folder());
-                global.merge(&totals);
-            });
+            let mut totals = Totals::default();
+            for package in project.packages() {
+                totals.merge(&package.totals());
+            }
+            missing!(totals, missing, original, addon.folder());
+            missing!(totals, missing, english, addon.folder());
+            missing!(totals, missing, czech, addon.folder());
+            missing!(totals, missing, french, addon.folder());
+            missing!(totals, missing, spanish, addon.folder());
+            missing!(totals, missing, italian, addon.folder());
+            missing!(totals, missing, polish, addon.folder());
+            missing!(totals, missing, portuguese, addon.folder());
+            missing!(totals, missing, russian, addon.folder());
+            missing!(totals, missing, german, addon.folder());
+            missing!(totals, missing, korean, addon.folder());
+            missing!(totals, missing, japanese, addon.folder());
+            missing!(totals, missing, chinese, addon.folder());
+            missing!(totals, missing, chinesesimp, addon.folder());
+            missing!(totals, missing, turkish, addon.folder());
+            missing!(totals, missing, swedish, addon.folder());
+            missing!(totals, missing, slovak, addon.folder());
+            missing!(totals, missing, serbocroatian, addon.folder());
+            missing!(totals, missing, norwegian, addon.folder());
+            missing!(totals, missing, icelandic, addon.folder());
+            missing!(totals, missing, hungarian, addon.folder());
+            missing!(totals, missing, greek, addon.folder());
+            missing!(totals, missing, finnish, addon.folder());
+            missing!(totals, missing, dutch, addon.folder());
+            global.merge(&totals);
         }
     }
 
-- 
2.43.0


From 523c530c1559aa235a53a76e40e5ad69bc70d770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:30 +0000
Subject: [PATCH 099/110] fix: print project.properties in the same order every
 time

---
 bin/src/commands/value.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bin/src/commands/value.rs b/bin/src/commands/value.rs
index e70ff2a..e8124e6 100644
--- a/bin/src/commands/value.rs
+++ b/bin/src/commands/value.rs
@@ -33,7 +33,10 @@ pub fn execute(cmd: &Command) -> Result<Report, Error> {
         "project.properties" => {
             println!("{}", {
                 let mut props = String::new();
-                for (key, value) in ctx.config().properties() {
+                // the order of a HashMap is different every time
+                let mut properties = ctx.config().properties().iter().collect::<Vec<_>>();
+                properties.sort();
+                for (key, value) in properties {
                     props.push_str(&format!("{key}: {value}\n"));
                 }
                 props
-- 
2.43.0


From 2f63aca023395ac2d3f9025568d96d11c2186a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:29 +0000
Subject: [PATCH 100/110] fix: build addons with a dot in their name under
 their own name

---
 bin/src/modules/pbo.rs  | 43 +++++++++++++++++++----------------------
 bin/src/modules/sign.rs | 22 +++++++++------------
 2 files changed, 29 insertions(+), 36 deletions(-)

diff --git a/bin/src/modules/pbo.rs b/bin/src/modules/pbo.rs
index f110463..e9cbdc0 100644
--- a/bin/src/modules/pbo.rs
+++ b/bin/src/modules/pbo.rs
@@ -69,31 +69,28 @@ fn internal_build(
     let mut pbo = WritablePbo::new();
     let target = ctx.build_folder().expect("build folder exists");
 
-    let pbo_name = addon.pbo_name(ctx.config().prefix());
+    // the name of an addon can contain a `.`, so this can't be done with `set_extension`
+    let pbo_name = format!("{}.pbo", addon.pbo_name(ctx.config().prefix()));
 
-    let target_pbo = {
-        let mut path = match collapse {
-            Collapse::No => match addon.location() {
-                Location::Addons => target.join("addons").join(pbo_name),
-                Location::Optionals => {
-                    if ctx.config().hemtt().build().optional_mod_folders() {
-                        target
-                            .join("optionals")
-                            .join(format!(
-                                "@{}",
-                                addon.pbo_name(ctx.config().hemtt().release().folder())
-                            ))
-                            .join("addons")
-                            .join(pbo_name)
-                    } else {
-                        target.join(addon.location().to_string()).join(pbo_name)
-                    }
+    let target_pbo = match collapse {
+        Collapse::No => match addon.location() {
+            Location::Addons => target.join("addons").join(pbo_name),
+            Location::Optionals => {
+                if ctx.config().hemtt().build().optional_mod_folders() {
+                    target
+                        .join("optionals")
+                        .join(format!(
+                            "@{}",
+                            addon.pbo_name(ctx.config().hemtt().release().folder())
+                        ))
+                        .join("addons")
+                        .join(pbo_name)
+                } else {
+                    target.join(addon.location().to_string()).join(pbo_name)
                 }
-            },
-            Collapse::Yes => target.join("addons").join(pbo_name),
-        };
-        path.set_extension("pbo");
-        path
+            }
+        },
+        Collapse::Yes => target.join("addons").join(pbo_name),
     };
     let Some(parent) = target_pbo.parent() else {
         return Err(Error::Io(std::io::Error::new(
diff --git a/bin/src/modules/sign.rs b/bin/src/modules/sign.rs
index d90a3c2..9934cf2 100644
--- a/bin/src/modules/sign.rs
+++ b/bin/src/modules/sign.rs
@@ -79,17 +79,14 @@ impl Module for Sign {
         )?)?;
         ctx.addons().to_vec().par_iter().try_for_each(|addon| {
             let pbo_name = addon.pbo_name(ctx.config().prefix());
+            let pbo_file = format!("{pbo_name}.pbo");
             let (mut pbo, sig_location, key) = match addon.location() {
                 Location::Addons => {
-                    let target_pbo = {
-                        let mut path = ctx
-                            .build_folder()
-                            .expect("build folder exists")
-                            .join("addons")
-                            .join(pbo_name);
-                        path.set_extension("pbo");
-                        path
-                    };
+                    let target_pbo = ctx
+                        .build_folder()
+                        .expect("build folder exists")
+                        .join("addons")
+                        .join(&pbo_file);
                     (
                         ReadablePbo::from(File::open(&target_pbo)?)?,
                         target_pbo.with_extension(format!("pbo.{authority}.bisign")),
@@ -97,7 +94,7 @@ impl Module for Sign {
                     )
                 }
                 Location::Optionals => {
-                    let (mut target_pbo, key, authority) =
+                    let (target_pbo, key, authority) =
                         if ctx.config().hemtt().build().optional_mod_folders() {
                             let authority = get_authority(ctx, Some(&pbo_name))?;
                             let key = BIPrivateKey::generate(1024, &authority)?;
@@ -113,18 +110,17 @@ impl Module for Sign {
                             key.to_public_key().write(&mut File::create(
                                 mod_root.join("keys").join(format!("{authority}.bikey")),
                             )?)?;
-                            (mod_root.join("addons").join(pbo_name), key, authority)
+                            (mod_root.join("addons").join(&pbo_file), key, authority)
                         } else {
                             (
                                 ctx.build_folder()
                                     .expect("build folder exists")
                                     .join(addon.location().to_string())
-                                    .join(pbo_name),
+                                    .join(&pbo_file),
                                 addons_key.clone(),
                                 authority.clone(),
                             )
                         };
-                    target_pbo.set_extension("pbo");
                     (
                         ReadablePbo::from(File::open(&target_pbo)?)?,
                         target_pbo.with_extension(format!("pbo.{authority}.bisign")),
-- 
2.43.0


From 2faf4c40ca293b8a02510adc57256acc9f14b994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:26 +0000
Subject: [PATCH 101/110] fix: scripts were checked before the required version
 of their addon was known

The rapifier reads requiredVersion, but ran after the SQF checks, so that neither
commands nor events newer than it were ever reported. With several configs in an
addon the last one decided, whichever that was.
---
 bin/src/commands/build.rs    |  7 ++-----
 bin/src/commands/check.rs    |  5 ++---
 bin/src/commands/dev.rs      |  7 ++-----
 bin/src/commands/mod.rs      |  6 +++++-
 libs/workspace/src/addons.rs | 12 +++++++++---
 5 files changed, 20 insertions(+), 17 deletions(-)

diff --git a/bin/src/commands/build.rs b/bin/src/commands/build.rs
index 33985d5..866c552 100644
--- a/bin/src/commands/build.rs
+++ b/bin/src/commands/build.rs
@@ -2,7 +2,7 @@ use crate::{
     context::{self, Context},
     error::Error,
     executor::Executor,
-    modules::{pbo::Collapse, Binarize, Files, Rapifier},
+    modules::{pbo::Collapse, Binarize, Files},
     report::Report,
 };
 
@@ -96,13 +96,10 @@ pub fn execute(cmd: &Command) -> Result<Report, Error> {
 #[must_use]
 pub fn executor(ctx: Context, args: &BuildArgs) -> Executor {
     let mut executor = Executor::new(ctx);
-    global_modules(&mut executor);
+    global_modules(&mut executor, !args.no_rap);
 
     executor.collapse(Collapse::No);
 
-    if !args.no_rap {
-        executor.add_module(Box::<Rapifier>::default());
-    }
     if !args.no_bin {
         executor.add_module(Box::<Binarize>::default());
     }
diff --git a/bin/src/commands/check.rs b/bin/src/commands/check.rs
index a858853..40a30ca 100644
--- a/bin/src/commands/check.rs
+++ b/bin/src/commands/check.rs
@@ -3,7 +3,7 @@ use crate::{
     context::Context,
     error::Error,
     executor::Executor,
-    modules::{pbo::Collapse, Binarize, Rapifier},
+    modules::{pbo::Collapse, Binarize},
     report::Report,
 };
 
@@ -30,11 +30,10 @@ pub fn execute(_: &Command) -> Result<Report, Error> {
     )?;
 
     let mut executor = Executor::new(ctx);
-    global_modules(&mut executor);
+    global_modules(&mut executor, true);
 
     executor.collapse(Collapse::Yes);
 
-    executor.add_module(Box::<Rapifier>::default());
     executor.add_module(Box::<Binarize>::new(Binarize::new(true)));
 
     info!("Running checks");
diff --git a/bin/src/commands/dev.rs b/bin/src/commands/dev.rs
index 275f944..27fa225 100644
--- a/bin/src/commands/dev.rs
+++ b/bin/src/commands/dev.rs
@@ -5,7 +5,7 @@ use crate::{
     context::Context,
     error::Error,
     executor::Executor,
-    modules::{pbo::Collapse, Binarize, FilePatching, Files, Rapifier},
+    modules::{pbo::Collapse, Binarize, FilePatching, Files},
     report::Report,
 };
 
@@ -144,13 +144,10 @@ pub fn context(
     }
 
     let mut executor = Executor::new(ctx);
-    global_modules(&mut executor);
+    global_modules(&mut executor, rapify && !dev.no_rap);
 
     executor.collapse(Collapse::Yes);
 
-    if rapify && !dev.no_rap {
-        executor.add_module(Box::<Rapifier>::default());
-    }
     executor.add_module(Box::<Files>::default());
     executor.add_module(Box::<FilePatching>::default());
     if force_binarize || dev.binarize {
diff --git a/bin/src/commands/mod.rs b/bin/src/commands/mod.rs
index c85a061..385b112 100644
--- a/bin/src/commands/mod.rs
+++ b/bin/src/commands/mod.rs
@@ -19,10 +19,14 @@ pub mod photoshoot;
 /// - hemtt dev
 /// - hemtt build
 /// - hemtt release
-pub fn global_modules(executor: &mut crate::executor::Executor) {
+pub fn global_modules(executor: &mut crate::executor::Executor, rapify: bool) {
     executor.add_module(Box::<crate::modules::bom::BOMCheck>::default());
     executor.add_module(Box::<crate::modules::Hooks>::default());
     executor.add_module(Box::<crate::modules::Stringtables>::default());
+    if rapify {
+        // The required version of an addon is known once its config has been read
+        executor.add_module(Box::<crate::modules::Rapifier>::default());
+    }
     executor.add_module(Box::<crate::modules::SQFCompiler>::default());
 }
 
diff --git a/libs/workspace/src/addons.rs b/libs/workspace/src/addons.rs
index 54ae8b5..e163636 100644
--- a/libs/workspace/src/addons.rs
+++ b/libs/workspace/src/addons.rs
@@ -272,15 +272,21 @@ impl BuildData {
             .clone()
     }
 
-    /// Sets the required version
+    /// Sets the required version, keeping the highest
     ///
     /// # Panics
     /// Panics if the lock is poisoned
     pub fn set_required_version(&self, version: Version, file: WorkspacePath, line: Range<usize>) {
-        *self
+        let mut current = self
             .required_version
             .write()
-            .expect("the required version lock is poisoned") = Some((version, file, line));
+            .expect("the required version lock is poisoned");
+        // An addon can have several configs, which are read in any order
+        if current.as_ref().is_none_or(|(v, f, _)| {
+            (&version, std::cmp::Reverse(file.as_str())) > (v, std::cmp::Reverse(f.as_str()))
+        }) {
+            *current = Some((version, file, line));
+        }
     }
 }
 
-- 
2.43.0


From 9cf962fc7a659cd872deacb56575078275b22958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:26 +0000
Subject: [PATCH 102/110] fix: the version a script requires was lost with any
 literal or variable next to the command

---
 libs/sqf/src/lib.rs | 62 ++++++++++++++++++++++-----------------------
 1 file changed, 30 insertions(+), 32 deletions(-)

diff --git a/libs/sqf/src/lib.rs b/libs/sqf/src/lib.rs
index fb24060..71e82bf 100644
--- a/libs/sqf/src/lib.rs
+++ b/libs/sqf/src/lib.rs
@@ -42,48 +42,46 @@ impl Statements {
     }
 
     #[must_use]
-    /// Gets the highest version required by any command in this code chunk.
+    /// Gets the highest version required by any command in this code chunk,
+    /// other than those in the code blocks inside of it.
     pub fn required_version(&self, database: &Database) -> (String, Version, Range<usize>) {
         // TODO can probably replace String with Rc<str>
         fn extract_expression(
             expression: &Expression,
             database: &Database,
         ) -> Option<(String, Version, Range<usize>)> {
-            match expression {
-                Expression::NularCommand(command, span) => Some((
-                    command.as_str().to_string(),
-                    *database.command_version(command.as_str())?,
-                    span.clone(),
-                )),
-                Expression::UnaryCommand(command, children, span) => {
-                    let command_version = database.command_version(command.as_str())?;
-                    let left = extract_expression(children, database)?;
-                    let left_version = database.command_version(&left.0)?;
-                    if command_version > left_version {
-                        Some((command.as_str().to_string(), *command_version, span.clone()))
-                    } else {
-                        Some((left.0, left.1, left.2))
-                    }
+            let (command, span, children): (_, _, Vec<&Expression>) = match expression {
+                Expression::NularCommand(command, span) => (command.as_str(), span, vec![]),
+                Expression::UnaryCommand(command, child, span) => {
+                    (command.as_str(), span, vec![child])
                 }
                 Expression::BinaryCommand(command, left, right, span) => {
-                    let command_version = database.command_version(command.as_str())?;
-                    let left = extract_expression(left, database)?;
-                    let left_version = database.command_version(&left.0)?;
-                    let right = extract_expression(right, database)?;
-                    let right_version = database.command_version(&right.0)?;
-                    if command_version > left_version && command_version > right_version {
-                        Some((command.as_str().to_string(), *command_version, span.clone()))
-                    } else if left_version > right_version {
-                        Some((left.0, left.1, left.2))
-                    } else {
-                        Some((right.0, right.1, right.2))
-                    }
+                    (command.as_str(), span, vec![left, right])
                 }
-                Expression::Code(statements) => {
-                    let (command, version, span) = statements.required_version(database);
-                    Some((command.as_str().to_string(), version, span))
+                Expression::Array(items, _) => {
+                    return items
+                        .iter()
+                        .filter_map(|item| extract_expression(item, database))
+                        .fold(None, highest)
                 }
-                _ => None,
+                // Code is made of statements of its own
+                _ => return None,
+            };
+            let own = database
+                .command_version(command)
+                .map(|version| (command.to_string(), *version, span.clone()));
+            children
+                .into_iter()
+                .filter_map(|child| extract_expression(child, database))
+                .fold(own, highest)
+        }
+        fn highest(
+            current: Option<(String, Version, Range<usize>)>,
+            other: (String, Version, Range<usize>),
+        ) -> Option<(String, Version, Range<usize>)> {
+            match current {
+                Some(current) if current.1 > other.1 => Some(current),
+                _ => Some(other),
             }
         }
         let mut version = Version::new(0, 0);
-- 
2.43.0


From 739211a9d46ff78923fd6f0373a36a859d81d7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:26 +0000
Subject: [PATCH 103/110] fix: order of reports about reserved variables and
 markers depended on hashing

---
 libs/sqf/src/analyze/lints/s23_reassign_reserved_variable.rs | 2 ++
 libs/sqf/src/analyze/lints/s24_marker_spam.rs                | 4 +++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/libs/sqf/src/analyze/lints/s23_reassign_reserved_variable.rs b/libs/sqf/src/analyze/lints/s23_reassign_reserved_variable.rs
index 3d54bc4..f93cfe6 100644
--- a/libs/sqf/src/analyze/lints/s23_reassign_reserved_variable.rs
+++ b/libs/sqf/src/analyze/lints/s23_reassign_reserved_variable.rs
@@ -113,6 +113,8 @@ impl LintRunner<SqfLintData> for StatementsRunner {
             }
         }
 
+        let mut need_to_restore = need_to_restore.into_iter().collect::<Vec<_>>();
+        need_to_restore.sort_by_key(|(_, (_, span, _))| span.start);
         for (saved, (original, span, saved_span)) in need_to_restore {
             codes.push(Arc::new(CodeS23ReassignReservedVariable::new(Variant::NeverRestored((saved, span.clone()), (original, saved_span.clone())), processed, config.severity())));
         }
diff --git a/libs/sqf/src/analyze/lints/s24_marker_spam.rs b/libs/sqf/src/analyze/lints/s24_marker_spam.rs
index eb47d2b..71db0fa 100644
--- a/libs/sqf/src/analyze/lints/s24_marker_spam.rs
+++ b/libs/sqf/src/analyze/lints/s24_marker_spam.rs
@@ -96,7 +96,9 @@ impl LintRunner<SqfLintData> for Runner {
             }
         }
 
-        for (_, calls) in pending {
+        let mut pending = pending.into_values().collect::<Vec<_>>();
+        pending.sort_by_key(|calls| calls.first().map(|(_, span)| span.start));
+        for calls in pending {
             if calls.len() > 1 {
                 codes.push(Arc::new(CodeS24MarkerSpam::new(calls, processed, config.severity())));
             }
-- 
2.43.0


From 69e6d74d71a5828d0059dda949dcd092322ba090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:26 +0000
Subject: [PATCH 104/110] fix: events were reported once per level of nesting,
 and the settings of event_unknown were ignored

Also names the event in the report about its version.
---
 .../lints/s01_command_required_version.rs     |  4 +-
 .../src/analyze/lints/s02_event_handlers.rs   | 81 ++++++++-----------
 2 files changed, 37 insertions(+), 48 deletions(-)

diff --git a/libs/sqf/src/analyze/lints/s01_command_required_version.rs b/libs/sqf/src/analyze/lints/s01_command_required_version.rs
index 46a7cb9..8b879cb 100644
--- a/libs/sqf/src/analyze/lints/s01_command_required_version.rs
+++ b/libs/sqf/src/analyze/lints/s01_command_required_version.rs
@@ -177,8 +177,8 @@ impl CodeS01CommandRequiredVersion {
         self.diagnostic = Some(diag.with_label(
             Label::secondary(self.required.1.clone(), self.required.2.clone()).with_message(
                 self.required.0.map_or_else(
-                    || "CfgPatches entry doesn't specify `requiredVersion`".to_string(),
-                    |required| format!("CfgPatches entry requires version {required}"),
+                    || "entry in CfgPatches doesn't specify `requiredVersion`".to_string(),
+                    |required| format!("entry in CfgPatches requires version {required}"),
                 ),
             ),
         ));
diff --git a/libs/sqf/src/analyze/lints/s02_event_handlers.rs b/libs/sqf/src/analyze/lints/s02_event_handlers.rs
index 572b41e..b270387 100644
--- a/libs/sqf/src/analyze/lints/s02_event_handlers.rs
+++ b/libs/sqf/src/analyze/lints/s02_event_handlers.rs
@@ -6,7 +6,7 @@ use hemtt_workspace::{
     addons::Addon, lint::{AnyLintRunner, Lint, LintGroupRunner}, reporting::{Code, Codes, Diagnostic, Label, Processed, Severity}, WorkspacePath
 };
 
-use crate::{analyze::{extract_constant, SqfLintData}, parser::database::Database, BinaryCommand, Expression, Statements, UnaryCommand};
+use crate::{analyze::{extract_constant, SqfLintData}, parser::database::Database, BinaryCommand, Expression, UnaryCommand};
 
 pub struct LintS02EventInsufficientVersion;
 
@@ -160,13 +160,13 @@ _this addMPEventHandler ["MPHit", {
 
 pub struct EventHandlerRunner;
 impl LintGroupRunner<SqfLintData> for EventHandlerRunner {
-    type Target = Statements;
+    type Target = Expression;
     fn run(
         &self,
         _project: Option<&ProjectConfig>,
         config: std::collections::HashMap<String, LintConfig>,
         processed: Option<&Processed>,
-        target: &Statements,
+        target: &Expression,
         data: &SqfLintData,
     ) -> Codes {
         let Some(processed) = processed else {
@@ -174,34 +174,30 @@ impl LintGroupRunner<SqfLintData> for EventHandlerRunner {
         };
         let mut codes: Codes = Vec::new();
         let (addon, database) = data;
-        for statement in target.content() {
-            for expression in statement.walk_expressions() {
-                let Some((ns, name, id, target)) = get_namespaces(expression) else {
-                    continue;
-                };
-                if ns.is_empty() {
-                    continue;
-                }
-                if name.contains("UserAction") {
-                    // Requires arma3-wiki to parse and provide https://community.bistudio.com/wiki/inputAction/actions
-                    continue;
-                }
-                let eh = database.wiki().event_handler(&id.0);
-                codes.extend(check_unknown(
-                    &ns,
-                    &name,
-                    &id,
-                    target.map(|t| &**t),
-                    &eh,
-                    processed,
-                    database,
-                    config.get("event_unknown"),
-                ));
-                codes.extend(check_version(
-                    addon, &ns, &name, &id, &eh, processed, database,
-                ));
-            }
+        let Some((ns, name, id, target)) = get_namespaces(target) else {
+            return codes;
+        };
+        if ns.is_empty() {
+            return codes;
+        }
+        if name.contains("UserAction") {
+            // Requires arma3-wiki to parse and provide https://community.bistudio.com/wiki/inputAction/actions
+            return codes;
         }
+        let eh = database.wiki().event_handler(&id.0);
+        codes.extend(check_unknown(
+            &ns,
+            &name,
+            &id,
+            target.map(|t| &**t),
+            &eh,
+            processed,
+            database,
+            config.get("event_unknown"),
+        ));
+        codes.extend(check_version(
+            addon, &ns, &id, &eh, processed, database,
+        ));
         codes
     }
 }
@@ -217,21 +213,16 @@ fn check_unknown(
     database: &Database,
     config: Option<&LintConfig>,
 ) -> Codes {
-    if let Some(config) = config {
-        if !config.enabled() {
+    if eh.is_empty() {
+        // Only enabled lints have a config
+        let Some(config) = config else {
             return Vec::new();
-        }
-    }
-
-    if let Some(config) = config {
+        };
         if let Some(toml::Value::Array(ignore)) = config.option("ignore") {
-            if ignore.iter().any(|i| i.as_str() == Some(name)) {
+            if ignore.iter().any(|i| i.as_str() == Some(&*id.0)) {
                 return Vec::new();
             }
         }
-    }
-
-    if eh.is_empty() {
         return vec![Arc::new(CodeS02UnknownEvent::new(
             ns,
             id.1.clone(),
@@ -239,7 +230,7 @@ fn check_unknown(
             id.0.clone(),
             processed,
             database,
-            config.map_or(Severity::Warning, LintConfig::severity),
+            config.severity(),
         ))];
     }
 
@@ -260,7 +251,6 @@ fn check_unknown(
 fn check_version(
     addon: &Addon,
     ns: &[EventHandlerNamespace],
-    name: &str,
     id: &(Arc<str>, &Range<usize>),
     eh: &[(EventHandlerNamespace, &ParsedEventHandler)],
     processed: &Processed,
@@ -287,7 +277,7 @@ fn check_version(
     let required = (wiki_version, required.1, required.2);
     if wiki_version < *version {
         errors.push(Arc::new(CodeS02InsufficientVersion::new(
-            name.to_owned(),
+            id.0.to_string(),
             id.1.clone(),
             *version,
             required,
@@ -537,7 +527,6 @@ impl CodeS02IncorrectCommand {
             alternatives: {
                 let mut alternatives = Vec::new();
                 for ns in namespaces {
-                    println!("Possible alternatives: {:?}", ns.commands());
                     ns.commands()
                         .iter()
                         .filter(|c| c.contains(&prefix))
@@ -642,8 +631,8 @@ impl CodeS02InsufficientVersion {
         self.diagnostic = Some(diag.with_label(
             Label::secondary(self.required.1.clone(), self.required.2.clone()).with_message(
                 self.required.0.map_or_else(
-                    || "CfgPatches entry doesn't specify `requiredVersion`".to_string(),
-                    |required| format!("CfgPatches entry requires version {required}"),
+                    || "entry in CfgPatches doesn't specify `requiredVersion`".to_string(),
+                    |required| format!("entry in CfgPatches requires version {required}"),
                 ),
             ),
         ));
-- 
2.43.0


From cfe7ed58009f89af5678ade180b7a1dcce68ca3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:26 +0000
Subject: [PATCH 105/110] fix: the severity set for external_parent_case and
 magwell_missing_magazine was ignored

---
 .../analyze/lints/c05_external_parent_case.rs | 24 +++++++++++++++----
 .../lints/c09_magwell_missing_magazine.rs     | 16 +++++++++++--
 2 files changed, 33 insertions(+), 7 deletions(-)

diff --git a/libs/config/src/analyze/lints/c05_external_parent_case.rs b/libs/config/src/analyze/lints/c05_external_parent_case.rs
index 19fb5fc..74fbb03 100644
--- a/libs/config/src/analyze/lints/c05_external_parent_case.rs
+++ b/libs/config/src/analyze/lints/c05_external_parent_case.rs
@@ -46,7 +46,7 @@ While Arma does not care about the case of class names, HEMTT wants you to have
     }
 
     fn default_config(&self) -> LintConfig {
-        LintConfig::warning()
+        LintConfig::error()
     }
 
     fn minimum_severity(&self) -> Severity {
@@ -64,7 +64,7 @@ impl LintRunner<SqfLintData> for Runner {
     fn run(
         &self,
         _project: Option<&ProjectConfig>,
-        _config: &LintConfig,
+        config: &LintConfig,
         processed: Option<&Processed>,
         target: &Class,
         _data: &SqfLintData,
@@ -72,7 +72,12 @@ impl LintRunner<SqfLintData> for Runner {
         let Some(processed) = processed else {
             return vec![];
         };
-        check(target.properties(), &mut HashMap::new(), processed)
+        check(
+            target.properties(),
+            &mut HashMap::new(),
+            processed,
+            config.severity(),
+        )
     }
 }
 
@@ -80,6 +85,7 @@ fn check(
     properties: &[Property],
     defined: &mut HashMap<String, Class>,
     processed: &Processed,
+    severity: Severity,
 ) -> Codes {
     let mut codes: Codes = Vec::new();
     for property in properties {
@@ -108,6 +114,7 @@ fn check(
                                         c.clone(),
                                         parent_class.clone(),
                                         processed,
+                                        severity,
                                     )));
                                 }
                             }
@@ -116,11 +123,12 @@ fn check(
                                 c.clone(),
                                 c.clone(),
                                 processed,
+                                severity,
                             )));
                         }
                     }
                     defined.insert(name_lower, c.clone());
-                    codes.extend(check(properties, defined, processed));
+                    codes.extend(check(properties, defined, processed, severity));
                 }
             }
         }
@@ -131,6 +139,7 @@ fn check(
 pub struct Code05ExternalParentCase {
     class: Class,
     parent: Class,
+    severity: Severity,
     diagnostic: Option<Diagnostic>,
 }
 
@@ -143,6 +152,10 @@ impl Code for Code05ExternalParentCase {
         Some("/analysis/config.html#external_parent_case")
     }
 
+    fn severity(&self) -> Severity {
+        self.severity
+    }
+
     fn message(&self) -> String {
         "parent case does not match parent definition".to_string()
     }
@@ -172,10 +185,11 @@ impl Code for Code05ExternalParentCase {
 
 impl Code05ExternalParentCase {
     #[must_use]
-    pub fn new(class: Class, parent: Class, processed: &Processed) -> Self {
+    pub fn new(class: Class, parent: Class, processed: &Processed, severity: Severity) -> Self {
         Self {
             class,
             parent,
+            severity,
 
             diagnostic: None,
         }
diff --git a/libs/config/src/analyze/lints/c09_magwell_missing_magazine.rs b/libs/config/src/analyze/lints/c09_magwell_missing_magazine.rs
index ebd6028..0207ddd 100644
--- a/libs/config/src/analyze/lints/c09_magwell_missing_magazine.rs
+++ b/libs/config/src/analyze/lints/c09_magwell_missing_magazine.rs
@@ -85,7 +85,7 @@ impl LintRunner<SqfLintData> for Runner {
     fn run(
         &self,
         project: Option<&ProjectConfig>,
-        _config: &LintConfig,
+        config: &LintConfig,
         processed: Option<&Processed>,
         target: &Config,
         _data: &SqfLintData,
@@ -153,6 +153,7 @@ impl LintRunner<SqfLintData> for Runner {
                             name.clone(),
                             span.clone(),
                             processed,
+                            config.severity(),
                         )));
                     }
                 }
@@ -165,6 +166,7 @@ impl LintRunner<SqfLintData> for Runner {
 pub struct Code09MagwellMissingMagazine {
     array: Ident,
     span: Range<usize>,
+    severity: Severity,
 
     diagnostic: Option<Diagnostic>,
 }
@@ -180,6 +182,10 @@ impl Code for Code09MagwellMissingMagazine {
         Some("/analysis/config.html#magwell_missing_magazine")
     }
 
+    fn severity(&self) -> Severity {
+        self.severity
+    }
+
     fn message(&self) -> String {
         "magazine defined in CfgMagazineWells was not found in CfgMagazines".to_string()
     }
@@ -195,10 +201,16 @@ impl Code for Code09MagwellMissingMagazine {
 
 impl Code09MagwellMissingMagazine {
     #[must_use]
-    pub fn new(array: Ident, span: Range<usize>, processed: &Processed) -> Self {
+    pub fn new(
+        array: Ident,
+        span: Range<usize>,
+        processed: &Processed,
+        severity: Severity,
+    ) -> Self {
         Self {
             array,
             span,
+            severity,
 
             diagnostic: None,
         }
-- 
2.43.0


From 0ba7ce631bd20d38fa998ac2062b8b45ad7ee181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:26 +0000
Subject: [PATCH 106/110] fix: lints of stringtables followed the settings of
 SQF lints

---
 bin/src/modules/stringtables/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/src/modules/stringtables/mod.rs b/bin/src/modules/stringtables/mod.rs
index 6069eaf..1bc42c1 100644
--- a/bin/src/modules/stringtables/mod.rs
+++ b/bin/src/modules/stringtables/mod.rs
@@ -29,7 +29,7 @@ impl Module for Stringtables {
 
     fn check(&self, ctx: &crate::context::Context) -> Result<crate::report::Report, crate::Error> {
         let mut report = Report::new();
-        report.extend(lint_check(ctx.config().lints().sqf().clone()));
+        report.extend(lint_check(ctx.config().lints().stringtables().clone()));
         Ok(report)
     }
 
-- 
2.43.0


From b5e1477cd394d0d4b616d100671e3e8437eb0d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:26 +0000
Subject: [PATCH 107/110] fix: help and notes about configs were not reported

---
 bin/src/modules/rapifier.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/bin/src/modules/rapifier.rs b/bin/src/modules/rapifier.rs
index 2077bd4..962d9fc 100644
--- a/bin/src/modules/rapifier.rs
+++ b/bin/src/modules/rapifier.rs
@@ -144,12 +144,9 @@ fn rapify(
             return Ok((report, None));
         }
     };
-    configreport.warnings().into_iter().for_each(|e| {
-        report.push(e.clone());
-    });
-    configreport.errors().into_iter().for_each(|e| {
-        report.push(e.clone());
-    });
+    for code in configreport.codes() {
+        report.push(code.clone());
+    }
     if !configreport.errors().is_empty() {
         return Ok((report, None));
     }
-- 
2.43.0


From fc644d26ef572539287712ba1a7d9ab7f8879d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:26 +0000
Subject: [PATCH 108/110] fix: 1.0.0 in a config was read as the number 10
 instead of being reported

---
 libs/config/src/parse/number.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libs/config/src/parse/number.rs b/libs/config/src/parse/number.rs
index 08d0f62..2b618c8 100644
--- a/libs/config/src/parse/number.rs
+++ b/libs/config/src/parse/number.rs
@@ -19,6 +19,7 @@ pub fn number_only() -> impl Parser<char, Number, Error = Simple<char>> {
         .then_ignore(none_of("+-*/%^()0123456789.").rewind())
 }
 
+/// A number that does not run into another one, like in `1.0.0`
 pub fn number_unsigned() -> impl Parser<char, Number, Error = Simple<char>> {
     choice((
         number_float_exponent().map_with_span(|value, span| Number::Float32 { value, span }),
@@ -44,6 +45,7 @@ pub fn number_unsigned() -> impl Parser<char, Number, Error = Simple<char>> {
             }
         }),
     ))
+    .then_ignore(none_of("0123456789.").ignored().or(end()).rewind())
 }
 
 fn number_hex() -> impl Parser<char, i64, Error = Simple<char>> {
-- 
2.43.0


From 8b2fd56bc54090e628cf6da2df0f1c4e25188ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:26 +0000
Subject: [PATCH 109/110] fix: a report without message on its labels was left
 out of the CI annotations

---
 libs/workspace/src/reporting/diagnostic/mod.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/libs/workspace/src/reporting/diagnostic/mod.rs b/libs/workspace/src/reporting/diagnostic/mod.rs
index 72451c7..cfbf8cf 100644
--- a/libs/workspace/src/reporting/diagnostic/mod.rs
+++ b/libs/workspace/src/reporting/diagnostic/mod.rs
@@ -236,13 +236,22 @@ impl Diagnostic {
     /// # Panics
     /// Will panic if the file is not found in the workspace
     pub fn to_annotations(&self, files: &WorkspaceFiles) -> Vec<Annotation> {
+        // Without any message on the labels there is still the message of the diagnostic
+        let use_title = !self
+            .labels
+            .iter()
+            .any(|l| l.style != LabelStyle::Secondary && l.message.is_some());
         self.labels
             .iter()
             .filter_map(|l| {
                 if l.style == LabelStyle::Secondary {
                     return None;
                 }
-                l.message.as_ref()?;
+                let message = match &l.message {
+                    Some(message) => message.clone(),
+                    None if use_title => self.message.clone(),
+                    None => return None,
+                };
                 let start_line_index = files
                     .line_index(&l.file, l.span.start)
                     .expect("start line should be within file");
@@ -264,7 +273,7 @@ impl Diagnostic {
                         .column_number(&l.file, end_line_index, l.span.end)
                         .expect("end column should be within file"),
                     level: self.severity.into(),
-                    message: l.message.clone().expect("message should exist"),
+                    message,
                     title: self.message.clone(),
                 })
             })
-- 
2.43.0


From 1fdbd11d605018817221c369fcd061d97f4a6ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:44 +0000
Subject: [PATCH 110/110] fix: typeName on objNull and other null commands is
 reported whatever their case in the source

---
 libs/sqf/src/analyze/lints/s03_static_typename.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/sqf/src/analyze/lints/s03_static_typename.rs b/libs/sqf/src/analyze/lints/s03_static_typename.rs
index 79c0c27..1154447 100644
--- a/libs/sqf/src/analyze/lints/s03_static_typename.rs
+++ b/libs/sqf/src/analyze/lints/s03_static_typename.rs
@@ -84,7 +84,7 @@ impl LintRunner<SqfLintData> for Runner {
                 ("ARRAY", &target_span, span.len().max(2))
             }
             Expression::NularCommand(NularCommand { name }, span) => {
-                let (a, b) = match name.as_str() {
+                let (a, b) = match name.to_lowercase().as_str() {
                     "scriptnull" => ("SCRIPT", span),
                     "objnull" => ("OBJECT", span),
                     "grpnull" => ("GROUP", span),
-- 
2.43.0

