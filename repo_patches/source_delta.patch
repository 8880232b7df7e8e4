From 9f8e2dd4b7b084c3405d451c0eec3f5dc3bae515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:48 +0000
Subject: [PATCH 01/40] fix: name pointers beyond the message end or past
 offset 8191 are no longer a crash

---
 src/shared/buffer/buffer.rs | 5 +++++
 src/shared/dns/name.rs      | 7 +++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/shared/buffer/buffer.rs b/src/shared/buffer/buffer.rs
index a78abb0..3f11ff2 100644
--- a/src/shared/buffer/buffer.rs
+++ b/src/shared/buffer/buffer.rs
@@ -66,6 +66,11 @@ impl BitsBuf {
         self.buf
     }
 
+    /// Returns the length of the buffer (expressed in bits).
+    pub fn len(&self) -> usize {
+        self.last
+    }
+
     /// Returns the current reading position in the buffer.
     /// Note that the reading position is expressed in bits.
     pub fn read_pos(&self) -> usize {
diff --git a/src/shared/dns/name.rs b/src/shared/dns/name.rs
index 90a0cdb..5599a3d 100644
--- a/src/shared/dns/name.rs
+++ b/src/shared/dns/name.rs
@@ -55,8 +55,11 @@ impl Name {
                     }
                     let second_byte = check_end(buffer.read_u8())? as u16;
                     let jump_pos = (((len_byte as u16) << 8) | second_byte) & Self::POINTER_MASK;
-                    let jump_pos = jump_pos * 8;
-                    buffer.set_read_pos(jump_pos as usize);
+                    let jump_pos = jump_pos as usize * 8;
+                    if jump_pos >= buffer.len() {
+                        return Err(NameErr::PointerOutOfBonds);
+                    }
+                    buffer.set_read_pos(jump_pos);
                     n_jumps += 1;
                 }
                 // Normal label type. Could be found either after
-- 
2.43.0


From d2a60fe318bdae2895a2a8f0cc7eec60d81947d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:48 +0000
Subject: [PATCH 02/40] fix: encode the root name as a single zero byte

---
 src/shared/dns/name.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/shared/dns/name.rs b/src/shared/dns/name.rs
index 5599a3d..3dc634a 100644
--- a/src/shared/dns/name.rs
+++ b/src/shared/dns/name.rs
@@ -105,6 +105,9 @@ impl Name {
     /// (a series of labels, divided by a length byte).
     pub fn to_bytes(&self) -> Vec<u8> {
         debug_assert!(validate_name(&self.0).is_ok());
+        if self.0 == "." {
+            return vec![0];
+        }
         let mut vec = Vec::with_capacity(self.0.len());
         for n in self.0.split('.') {
             let n_bytes = n.as_bytes();
-- 
2.43.0


From 11b1eeab9e5d74fa496020a627cc818ada87ab05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:48 +0000
Subject: [PATCH 03/40] fix: every name belongs to the root zone

---
 src/shared/dns/name.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/shared/dns/name.rs b/src/shared/dns/name.rs
index 3dc634a..bd102cc 100644
--- a/src/shared/dns/name.rs
+++ b/src/shared/dns/name.rs
@@ -184,6 +184,9 @@ impl Name {
     /// Reports if the [`Name`] is contained in the passed zone. The zone
     /// must be a valid name to ensure a correct comparison.
     pub fn is_in_zone(&self, zone: &Self) -> bool {
+        if zone.0 == "." {
+            return true;
+        }
         let mut name_labels = self.0.rsplit('.');
         let zone_labels = zone.0.rsplit('.');
         for zl in zone_labels {
-- 
2.43.0


From 3f239a2800f23dae41b402c8ba29b5598dee3445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:48 +0000
Subject: [PATCH 04/40] fix: compare domain names ignoring the case

---
 src/shared/dns/name.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/shared/dns/name.rs b/src/shared/dns/name.rs
index bd102cc..d7adf04 100644
--- a/src/shared/dns/name.rs
+++ b/src/shared/dns/name.rs
@@ -1,15 +1,34 @@
 use crate::shared::buffer::*;
 use serde::{Deserialize, Serialize};
 use std::fmt::{self, Display, Formatter};
+use std::hash::{Hash, Hasher};
 use std::str;
 
 /// A wrapper for domain names. The [`Name`] struct is used to hold valid
 /// absolute domain names. This is the invariant that must be guaranteed
 /// in every method that creates or modifies names. [`Name`] implements
 /// `AsRef<str>`, so a reference to the inner string can be easily obtained.  
-#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
+#[derive(Debug, Clone, Serialize, Deserialize)]
 pub struct Name(String);
 
+// Domain names are compared ignoring the (ASCII) case.
+impl PartialEq for Name {
+    fn eq(&self, other: &Self) -> bool {
+        self.0.eq_ignore_ascii_case(&other.0)
+    }
+}
+
+impl Eq for Name {}
+
+impl Hash for Name {
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        for byte in self.0.bytes() {
+            state.write_u8(byte.to_ascii_lowercase());
+        }
+        state.write_u8(0xff);
+    }
+}
+
 impl AsRef<str> for Name {
     fn as_ref(&self) -> &str {
         &self.0
@@ -194,7 +213,7 @@ impl Name {
                 None => return false,
                 Some(v) => v,
             };
-            if nl != zl {
+            if !nl.eq_ignore_ascii_case(zl) {
                 return false;
             }
         }
-- 
2.43.0


From 6b4d630fa250038edb1b058754a9114ea529b7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:48 +0000
Subject: [PATCH 05/40] fix: reject labels that contain a dot byte

---
 src/shared/dns/name.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/shared/dns/name.rs b/src/shared/dns/name.rs
index d7adf04..3a72bc8 100644
--- a/src/shared/dns/name.rs
+++ b/src/shared/dns/name.rs
@@ -95,6 +95,9 @@ impl Name {
                         name_bytes.push('.' as u8);
                     }
                     let label_bytes = check_end(buffer.read_bytes_vec(len_byte as usize))?;
+                    if label_bytes.contains(&b'.') {
+                        return Err(NameErr::MalformedLabel("must not contain '.'"));
+                    }
                     name_bytes.extend(label_bytes);
                     if name_bytes.len() > 255 {
                         return Err(NameErr::LongName);
-- 
2.43.0


From 384fc90ce6a1212336539fe6d0379a9d36fade49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:48 +0000
Subject: [PATCH 06/40] fix: enforce the limits on name and label length on
 every name

---
 src/shared/dns/name.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/shared/dns/name.rs b/src/shared/dns/name.rs
index 3a72bc8..56c3f9f 100644
--- a/src/shared/dns/name.rs
+++ b/src/shared/dns/name.rs
@@ -146,7 +146,9 @@ fn validate_name(name: &str) -> Result<(), NameErr> {
     if name == "." {
         return Ok(());
     }
-    if name.len() > 255 {
+    // The encoded name takes one byte more than its textual
+    // representation, and it is limited to 255 bytes.
+    if name.len() > 254 {
         return Err(NameErr::LongName);
     }
     if !name.ends_with('.') {
@@ -174,6 +176,9 @@ fn validate_label(label: &str) -> Result<(), NameErr> {
     if label.len() == 0 {
         return Err(NameErr::MalformedLabel("empty label"));
     }
+    if label.len() > 63 {
+        return Err(NameErr::LongLabel);
+    }
     let first = label.chars().next().unwrap();
     let last = label.chars().last().unwrap();
     if !first.is_ascii_alphanumeric() {
-- 
2.43.0


From 7abfb2231fd2fcab19b954b82acad92457d4f568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:48 +0000
Subject: [PATCH 07/40] fix: let replies echo an unsupported op code

---
 src/shared/dns/header.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/shared/dns/header.rs b/src/shared/dns/header.rs
index 165c4f3..90f5eb7 100644
--- a/src/shared/dns/header.rs
+++ b/src/shared/dns/header.rs
@@ -86,9 +86,9 @@ impl Header {
 
     /// Encode a dns [`Header`] to raw bytes, writing them into the provided
     /// buffer. The function panics if some unsupported op codes are provided
-    /// (this helps maintaining invariants about supported features).
+    /// in requests, responses must echo the op code of the request (this helps maintaining invariants about supported features).
     pub fn encode_to_buf(&self, buffer: &mut BitsBuf) {
-        assert!(self.op_code.is_supported());
+        assert!(self.op_code.is_supported() || self.query_resp);
         buffer.write_u16(self.id);
         buffer.write_bits(self.query_resp as u8, 1);
         buffer.write_bits(self.op_code.to_num(), 4);
-- 
2.43.0


From 784c8de1867dcfae1c9e4a96086d252463bd4300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:48 +0000
Subject: [PATCH 08/40] fix: record data of 8192 bytes or more no longer
 overflows the length check

---
 src/shared/dns/records.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/shared/dns/records.rs b/src/shared/dns/records.rs
index fe82ccb..3f59c71 100644
--- a/src/shared/dns/records.rs
+++ b/src/shared/dns/records.rs
@@ -338,7 +338,7 @@ fn decode_ns_data(buffer: &mut BitsBuf, data_len: u16) -> Result<Name, ParsingEr
     let before = buffer.read_pos();
     let nameserver = Name::from_bytes(buffer)?;
     let after = buffer.read_pos();
-    if after - before != (data_len * 8) as usize {
+    if after - before != data_len as usize * 8 {
         Err(ParsingErr::DataLenMismatch)
     } else {
         Ok(nameserver)
@@ -357,7 +357,7 @@ fn decode_cname_data(buffer: &mut BitsBuf, data_len: u16) -> Result<Name, Parsin
     let before = buffer.read_pos();
     let alias = Name::from_bytes(buffer)?;
     let after = buffer.read_pos();
-    if after - before != (data_len * 8) as usize {
+    if after - before != data_len as usize * 8 {
         Err(ParsingErr::DataLenMismatch)
     } else {
         Ok(alias)
@@ -384,7 +384,7 @@ fn decode_soa_data(buffer: &mut BitsBuf, data_len: u16) -> Result<SoaData, Parsi
     let expire = buffer.read_u32().ok_or(ParsingErr::BytesEnd)?;
     let minimum = buffer.read_u32().ok_or(ParsingErr::BytesEnd)?;
     let after = buffer.read_pos();
-    if after - before != (data_len * 8) as usize {
+    if after - before != data_len as usize * 8 {
         Err(ParsingErr::DataLenMismatch)
     } else {
         Ok((mname, rname, serial, refresh, retry, expire, minimum))
@@ -450,7 +450,7 @@ fn decode_ptr_data(buffer: &mut BitsBuf, data_len: u16) -> Result<Name, ParsingE
     let before = buffer.read_pos();
     let name = Name::from_bytes(buffer)?;
     let after = buffer.read_pos();
-    if after - before != (data_len * 8) as usize {
+    if after - before != data_len as usize * 8 {
         Err(ParsingErr::DataLenMismatch)
     } else {
         Ok(name)
@@ -470,7 +470,7 @@ fn decode_hinfo_data(buffer: &mut BitsBuf, data_len: u16) -> Result<(String, Str
     let cpu = decode_character_string(buffer)?;
     let os = decode_character_string(buffer)?;
     let after = buffer.read_pos();
-    if after - before != (data_len * 8) as usize {
+    if after - before != data_len as usize * 8 {
         Err(ParsingErr::DataLenMismatch)
     } else {
         Ok((cpu, os))
@@ -492,7 +492,7 @@ fn decode_mx_data(buffer: &mut BitsBuf, data_len: u16) -> Result<(u16, Name), Pa
     let preference = buffer.read_u16().ok_or(ParsingErr::BytesEnd)?;
     let exchange = Name::from_bytes(buffer)?;
     let after = buffer.read_pos();
-    if after - before != (data_len * 8) as usize {
+    if after - before != data_len as usize * 8 {
         Err(ParsingErr::DataLenMismatch)
     } else {
         Ok((preference, exchange))
-- 
2.43.0


From 3303eef3b137f0e1e025548ab41bbed4dec9cf4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:48 +0000
Subject: [PATCH 09/40] fix: decode TXT record data

---
 src/shared/dns/records.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/shared/dns/records.rs b/src/shared/dns/records.rs
index 3f59c71..1647469 100644
--- a/src/shared/dns/records.rs
+++ b/src/shared/dns/records.rs
@@ -510,11 +510,12 @@ fn encode_mx_data(buffer: &mut BitsBuf, priority: u16, name: &Name) -> Result<()
 // TXT records data encoding and decoding functions.
 fn decode_txt_data(buffer: &mut BitsBuf, data_len: u16) -> Result<Vec<String>, ParsingErr> {
     let mut strings = vec![];
-    let mut read: u16 = 0;
+    let data_len = data_len as usize;
+    let mut read: usize = 0;
     loop {
         let pos = buffer.read_pos();
-        let len = buffer.read_u8().ok_or(ParsingErr::BytesEnd)? as u16;
-        buffer.set_read_pos(pos - 1);
+        let len = buffer.read_u8().ok_or(ParsingErr::BytesEnd)? as usize;
+        buffer.set_read_pos(pos);
         if read + len + 1 > data_len {
             return Err(ParsingErr::DataLenMismatch);
         }
-- 
2.43.0


From 336a4bd313597e07bc961fd05ce812140b695676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:15 +0000
Subject: [PATCH 10/40] fix: encode and decode the WKS port bit map

---
 src/shared/dns/records.rs | 37 +++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/src/shared/dns/records.rs b/src/shared/dns/records.rs
index 1647469..6b3dae5 100644
--- a/src/shared/dns/records.rs
+++ b/src/shared/dns/records.rs
@@ -409,36 +409,37 @@ fn encode_soa_data(buffer: &mut BitsBuf, data: (&Name, &Name, u32, u32, u32, u32
 type WksData = ([u8; 4], u8, Vec<u32>);
 
 fn decode_wks_data(buffer: &mut BitsBuf, data_len: u16) -> Result<WksData, ParsingErr> {
+    if data_len < 5 {
+        return Err(ParsingErr::DataLenMismatch);
+    }
     let address = buffer.read_bytes().ok_or(ParsingErr::BytesEnd)?;
     let protocol = buffer.read_u8().ok_or(ParsingErr::BytesEnd)?;
-    let ports = if data_len > 5 {
-        let ports_bytes = buffer.read_bytes_vec((data_len - 5) as usize).unwrap();
-        parse_wks_ports(&ports_bytes)
-    } else {
-        vec![]
-    };
-
-    Ok((address, protocol, ports))
+    let ports_bytes = buffer.read_bytes_vec((data_len - 5) as usize).ok_or(ParsingErr::BytesEnd)?;
+    Ok((address, protocol, parse_wks_ports(&ports_bytes)))
 }
 
 fn encode_wks_data(buffer: &mut BitsBuf, address: &[u8; 4], protocol: u8, ports: &[u32]) {
-    buffer.write_u16((5 + ports.len()) as u16);
+    // The first bit of the bit map corresponds to port 0.
+    let mut bit_map: Vec<u8> = vec![];
+    for &port in ports.iter().filter(|&&port| port <= u16::MAX as u32) {
+        let byte = port as usize / 8;
+        if bit_map.len() <= byte {
+            bit_map.resize(byte + 1, 0);
+        }
+        bit_map[byte] |= 0x80 >> (port % 8);
+    }
+    buffer.write_u16((5 + bit_map.len()) as u16);
     buffer.write_bytes(address);
     buffer.write_u8(protocol);
-    for p in ports {
-        buffer.write_u32(*p);
-    }
+    buffer.write_bytes(&bit_map);
 }
 
 fn parse_wks_ports(ports_bytes: &[u8]) -> Vec<u32> {
     let mut ports = vec![];
     for (i, &byte) in ports_bytes.iter().enumerate() {
-        if byte == 0 {
-            continue;
-        }
-        for j in 1.. {
-            if byte << j == 0 {
-                ports.push((i * 8 + j - 1) as u32);
+        for j in 0..8 {
+            if byte & (0x80 >> j) != 0 {
+                ports.push((i * 8 + j) as u32);
             };
         }
     }
-- 
2.43.0


From 21763dbf3496f0f6ffe84ec5de91a226c34a572a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:15 +0000
Subject: [PATCH 11/40] fix: an escape at the end of a zone file line is no
 longer a crash

---
 src/nameserver/zones/tokens.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/nameserver/zones/tokens.rs b/src/nameserver/zones/tokens.rs
index a308e09..dff6361 100644
--- a/src/nameserver/zones/tokens.rs
+++ b/src/nameserver/zones/tokens.rs
@@ -174,7 +174,7 @@ impl Tokenizer {
         let mut directive = String::from('$');
         self.pos += 1;
 
-        for _ in self.pos..self.line_chars.len() {
+        while self.pos < self.line_chars.len() {
             let ch = self.line_chars[self.pos];
             if ch == '\\' {
                 let ch = self.parse_escape()?;
@@ -206,7 +206,7 @@ impl Tokenizer {
         let mut string = String::with_capacity(20);
         let mut closed = false;
 
-        for _ in self.pos..self.line_chars.len() {
+        while self.pos < self.line_chars.len() {
             let ch = self.line_chars[self.pos];
             if ch == '\\' {
                 let ch = self.parse_escape()?;
@@ -257,7 +257,7 @@ impl Tokenizer {
     fn process_string_or_number(&mut self) -> Result<Token, TokenErr> {
         let mut str = String::with_capacity(20);
 
-        for _ in self.pos..self.line_chars.len() {
+        while self.pos < self.line_chars.len() {
             let ch = self.line_chars[self.pos];
             if ch == '\\' {
                 let ch = self.parse_escape()?;
-- 
2.43.0


From cb36c14f417f26bf87ce5db741e5d84f14085502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:15 +0000
Subject: [PATCH 12/40] fix: unusual whitespace in zone files no longer hangs
 the parser

---
 src/nameserver/zones/tokens.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nameserver/zones/tokens.rs b/src/nameserver/zones/tokens.rs
index dff6361..0e0ff59 100644
--- a/src/nameserver/zones/tokens.rs
+++ b/src/nameserver/zones/tokens.rs
@@ -83,7 +83,7 @@ impl Tokenizer {
         // Parse the token. Note that some branches only consume
         // some characters and invoke 'next' recursively.
         match self.line_chars[self.pos] {
-            ' ' | '\t' => Ok(self.process_whitespace()),
+            ch if ch.is_whitespace() => Ok(self.process_whitespace()),
             '$' => self.process_directive(),
             '"' => self.process_quoted_string(),
             '(' => {
-- 
2.43.0


From 8f791079cca9e9c4708b79506c30d77d3f06043e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:15 +0000
Subject: [PATCH 13/40] fix: refuse zone file strings longer than 255 bytes

---
 src/shared/dns/utils.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/shared/dns/utils.rs b/src/shared/dns/utils.rs
index 793b631..6b4bff2 100644
--- a/src/shared/dns/utils.rs
+++ b/src/shared/dns/utils.rs
@@ -30,6 +30,9 @@ pub fn encode_character_string(string: &str) -> Result<Vec<u8>, ParsingErr> {
 }
 
 pub fn is_valid_character_string(s: &str, quoted: bool) -> bool {
+    if s.len() > 255 {
+        return false;
+    }
     if quoted {
         s.chars().all(|ch| ch.is_ascii())
     } else {
-- 
2.43.0


From 8c7cfde43676be03af8f64d4fb73b18fd26d107c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:15 +0000
Subject: [PATCH 14/40] fix: refuse TXT records without strings or with more
 data than a record can hold

---
 src/nameserver/zones/parser_auth.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/nameserver/zones/parser_auth.rs b/src/nameserver/zones/parser_auth.rs
index 061e1ef..a5e4070 100644
--- a/src/nameserver/zones/parser_auth.rs
+++ b/src/nameserver/zones/parser_auth.rs
@@ -456,6 +456,13 @@ fn parse_txt_record(tokenizer: &mut Tokenizer, rec_data: RecData) -> Result<dns:
         };
     }
 
+    // At least one string must be present and all of them must fit
+    // into the record data (each one is prefixed by a length byte).
+    let data_len: usize = txts.iter().map(|txt| txt.len() + 1).sum();
+    if data_len == 0 || data_len > u16::MAX as usize {
+        return Err(ParseErr::MalformedData(format!("TXT data of {} bytes", data_len)));
+    }
+
     Ok(dns::Record::TXT {
         node: rec_data.0,
         class: rec_data.1,
-- 
2.43.0


From 90ebb95ce9e35a0308783aafe5fcfb4bde10fc46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:15 +0000
Subject: [PATCH 15/40] fix: zone files that include each other are refused
 instead of overflowing the stack

---
 src/nameserver/zones/parser_auth.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/nameserver/zones/parser_auth.rs b/src/nameserver/zones/parser_auth.rs
index a5e4070..b60bf44 100644
--- a/src/nameserver/zones/parser_auth.rs
+++ b/src/nameserver/zones/parser_auth.rs
@@ -22,8 +22,12 @@ struct AuthParsingState<'a> {
     pub current_orig: dns::Name,
     pub current_ttl: u32,
     pub min_ttl: u32,
+    pub include_depth: usize,
 }
 
+/// The maximum nesting level of included files.
+const MAX_INCLUDE_DEPTH: usize = 32;
+
 /// Parse the zone file related to the authoritative zone managed by the nameserver.
 /// A [`Zone`] object is returned, holding the zone records. The zone file could use
 /// the 'include' directive further files.
@@ -42,6 +46,7 @@ pub fn parse_auth_zone_file(conf: &ParsingParams) -> Result<Zone, ParseErrCtx> {
         current_orig: conf.zone.clone(),
         current_ttl: conf.starting_ttl,
         min_ttl: 0,
+        include_depth: 0,
     };
 
     let soa_record = parse_starting_soa_record(&mut tokenizer, &mut parsing_state);
@@ -63,6 +68,10 @@ pub fn parse_auth_zone_file(conf: &ParsingParams) -> Result<Zone, ParseErrCtx> {
 /// the parent parsing state is left untouched.
 fn parse_included_file(file_path: String, origin: dns::Name, p_state: &AuthParsingState) -> Result<Zone, ParseErrCtx> {
     log::info!("Including {:?}", file_path);
+    if p_state.include_depth >= MAX_INCLUDE_DEPTH {
+        let err_msg = format!("too many nested includes: '{}'", file_path);
+        return Err((ParseErr::MalformedData(err_msg), p_state.current_file.to_string()));
+    }
     let mut tokenizer = match Tokenizer::from_file(&file_path) {
         Err(err) => return Err((ParseErr::ReadingErr(err), p_state.current_file.to_string())),
         Ok(v) => v,
@@ -75,6 +84,7 @@ fn parse_included_file(file_path: String, origin: dns::Name, p_state: &AuthParsi
         current_orig: origin,
         current_ttl: p_state.current_ttl,
         min_ttl: p_state.min_ttl,
+        include_depth: p_state.include_depth + 1,
     };
 
     parse_entries(&mut tokenizer, &mut child_state)
-- 
2.43.0


From 919e33f249f52b2e428ff0e0114a71ccc4921ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:15 +0000
Subject: [PATCH 16/40] fix: relative names in a zone file whose origin is the
 root

---
 src/nameserver/zones/utils.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/nameserver/zones/utils.rs b/src/nameserver/zones/utils.rs
index e55c035..fcaa494 100644
--- a/src/nameserver/zones/utils.rs
+++ b/src/nameserver/zones/utils.rs
@@ -68,7 +68,9 @@ pub fn adjust_name(current_origin: &dns::Name, name: &mut String) -> Result<dns:
     }
     if !name.ends_with('.') {
         name.push('.');
-        name.push_str(current_origin.as_ref());
+        if current_origin.as_ref() != "." {
+            name.push_str(current_origin.as_ref());
+        }
     }
     match dns::Name::from_string(name) {
         Ok(name) => Ok(name),
-- 
2.43.0


From dc7ea4b564d31ff2877df9e96227a280c49784d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:31 +0000
Subject: [PATCH 17/40] fix: zone file names and strings may be numeric, and
 '@' is allowed wherever a name is

---
 src/nameserver/zones/parser_auth.rs | 52 +++++++----------------------
 src/nameserver/zones/parser_sub.rs  |  4 +--
 src/nameserver/zones/tokens.rs      |  4 +--
 src/nameserver/zones/utils.rs       | 16 +++++++--
 4 files changed, 29 insertions(+), 47 deletions(-)

diff --git a/src/nameserver/zones/parser_auth.rs b/src/nameserver/zones/parser_auth.rs
index b60bf44..01cd493 100644
--- a/src/nameserver/zones/parser_auth.rs
+++ b/src/nameserver/zones/parser_auth.rs
@@ -110,7 +110,7 @@ fn parse_entries(tokenizer: &mut Tokenizer, state: &mut AuthParsingState) -> Res
         let entry = match &next_token {
             Token::OriginDir => parse_origin(tokenizer, &state),
             Token::IncludeDir => parse_include(tokenizer, &state),
-            Token::String(_) => parse_record(tokenizer, &state),
+            Token::String(_) | Token::Number(..) => parse_record(tokenizer, &state),
             Token::At => parse_record(tokenizer, &state),
             Token::Blank => parse_record(tokenizer, &state),
             _ => Err(ParseErr::UnexpectedToken(next_token)),
@@ -166,13 +166,12 @@ fn parse_include(tokenizer: &mut Tokenizer, state: &AuthParsingState) -> Result<
 
     let file_name = tokenizer.next_after_blanks()?;
     let file_name = match file_name {
-        Token::Number(n) => n.to_string(),
-        Token::String(s) => s,
+        Token::String(s) | Token::Number(_, s) => s,
         _ => return Err(ParseErr::UnexpectedToken(file_name)),
     };
 
     let mut domain_or_newline = tokenizer.next_after_blanks()?;
-    let origin = if let Token::String(mut name) = domain_or_newline {
+    let origin = if let Token::String(mut name) | Token::Number(_, mut name) = domain_or_newline {
         domain_or_newline = tokenizer.next_after_blanks()?;
         let name = adjust_name(&state.current_orig, &mut name)?;
         ensure_name_in_auth_zone(&name, state.zone, state.sub_zones)?;
@@ -195,7 +194,7 @@ fn parse_record(tokenizer: &mut Tokenizer, state: &AuthParsingState) -> Result<Z
     let node = match tokenizer.next() {
         Ok(Token::Blank) => state.current_orig.clone(),
         Ok(Token::At) => state.current_orig.clone(),
-        Ok(Token::String(mut name)) => {
+        Ok(Token::String(mut name) | Token::Number(_, mut name)) => {
             let name = adjust_name(&state.current_orig, &mut name)?;
             ensure_name_in_auth_zone(&name, state.zone, state.sub_zones)?;
             name
@@ -277,12 +276,7 @@ pub fn parse_a_record(tokens: &mut Tokenizer, rec_data: RecData) -> Result<dns::
 
 pub fn parse_ns_record(tokens: &mut Tokenizer, origin: &dns::Name, rec_data: RecData) -> Result<dns::Record, ParseErr> {
     let name = tokens.next_after_blanks()?;
-    let name = if let Token::String(mut s) = name {
-        let s = adjust_name(origin, &mut s)?;
-        s
-    } else {
-        return Err(ParseErr::UnexpectedToken(name));
-    };
+    let name = parse_name(origin, name)?;
 
     Ok(dns::Record::NS {
         node: rec_data.0,
@@ -295,14 +289,7 @@ pub fn parse_ns_record(tokens: &mut Tokenizer, origin: &dns::Name, rec_data: Rec
 
 fn parse_cname_record(tokens: &mut Tokenizer, origin: &dns::Name, rec_data: RecData) -> Result<dns::Record, ParseErr> {
     let name = tokens.next_after_blanks()?;
-    let name = match name {
-        Token::At => origin.clone(),
-        Token::String(mut s) => {
-            let s = adjust_name(origin, &mut s)?;
-            s
-        }
-        _ => return Err(ParseErr::UnexpectedToken(name)),
-    };
+    let name = parse_name(origin, name)?;
 
     Ok(dns::Record::CNAME {
         node: rec_data.0,
@@ -315,25 +302,15 @@ fn parse_cname_record(tokens: &mut Tokenizer, origin: &dns::Name, rec_data: RecD
 
 fn parse_soa_record(tokens: &mut Tokenizer, origin: &dns::Name, rec_data: RecData) -> Result<dns::Record, ParseErr> {
     let token = tokens.next_after_blanks()?;
-    let ns_name = if let Token::String(mut name) = token {
-        let name = adjust_name(origin, &mut name)?;
-        name
-    } else {
-        return Err(ParseErr::UnexpectedToken(token));
-    };
+    let ns_name = parse_name(origin, token)?;
 
     let token = tokens.next_after_blanks()?;
-    let mail_name = if let Token::String(mut name) = token {
-        let name = adjust_name(origin, &mut name)?;
-        name
-    } else {
-        return Err(ParseErr::UnexpectedToken(token));
-    };
+    let mail_name = parse_name(origin, token)?;
 
     let mut zone_auth_params = [0_u32; 5];
     for i in 0..5 {
         let next = tokens.next_after_blanks()?;
-        if let Token::Number(n) = next {
+        if let Token::Number(n, _) = next {
             zone_auth_params[i] = n;
         } else {
             return Err(ParseErr::UnexpectedToken(next));
@@ -427,19 +404,14 @@ fn parse_hinfo_record(tokenizer: &mut Tokenizer, rec_data: RecData) -> Result<dn
 
 fn parse_mx_record(tokens: &mut Tokenizer, origin: &dns::Name, rec_data: RecData) -> Result<dns::Record, ParseErr> {
     let next = tokens.next_after_blanks()?;
-    let priority = if let Token::Number(num) = next {
+    let priority = if let Token::Number(num, _) = next {
         num.try_into().or(Err(ParseErr::MalformedData(num.to_string())))?
     } else {
         return Err(ParseErr::UnexpectedToken(next));
     };
 
     let next = tokens.next_after_blanks()?;
-    let name = if let Token::String(mut mail) = next {
-        let mail = adjust_name(origin, &mut mail)?;
-        mail
-    } else {
-        return Err(ParseErr::UnexpectedToken(next));
-    };
+    let name = parse_name(origin, next)?;
 
     Ok(dns::Record::MX {
         node: rec_data.0,
@@ -487,7 +459,7 @@ fn parse_txt_record(tokenizer: &mut Tokenizer, rec_data: RecData) -> Result<dns:
 /// in parsing parameters. The SOA must be owned by the top node of the zone.
 fn parse_starting_soa_record(tokenizer: &mut Tokenizer, state: &mut AuthParsingState) -> Result<dns::Record, ParseErr> {
     let node = match tokenizer.next()? {
-        Token::String(mut name) => adjust_name(&state.zone, &mut name)?,
+        Token::String(mut name) | Token::Number(_, mut name) => adjust_name(&state.zone, &mut name)?,
         Token::Blank => state.zone.clone(),
         Token::At => state.zone.clone(),
         v => return Err(ParseErr::UnexpectedToken(v)),
diff --git a/src/nameserver/zones/parser_sub.rs b/src/nameserver/zones/parser_sub.rs
index cd41fbc..55a9ca1 100644
--- a/src/nameserver/zones/parser_sub.rs
+++ b/src/nameserver/zones/parser_sub.rs
@@ -51,7 +51,7 @@ fn parse_entries(tokenizer: &mut Tokenizer, state: &mut SubParsingState) -> Resu
         // Analyze the first token and start the record parsing.
         let line = tokenizer.line();
         let record = match &next_token {
-            Token::String(_) => parse_record(tokenizer, &state),
+            Token::String(_) | Token::Number(..) => parse_record(tokenizer, &state),
             Token::At => parse_record(tokenizer, &state),
             Token::Blank => parse_record(tokenizer, &state),
             _ => {
@@ -79,7 +79,7 @@ fn parse_record(tokenizer: &mut Tokenizer, state: &SubParsingState) -> Result<dn
     let node = match tokenizer.next() {
         Ok(Token::Blank) => state.zone.clone(),
         Ok(Token::At) => state.zone.clone(),
-        Ok(Token::String(mut node)) => {
+        Ok(Token::String(mut node) | Token::Number(_, mut node)) => {
             let node = adjust_name(&state.zone, &mut node)?;
             ensure_name_in_zone(&node, &state.zone)?;
             node
diff --git a/src/nameserver/zones/tokens.rs b/src/nameserver/zones/tokens.rs
index 0e0ff59..8567583 100644
--- a/src/nameserver/zones/tokens.rs
+++ b/src/nameserver/zones/tokens.rs
@@ -8,7 +8,7 @@ pub enum Token {
     IncludeDir,
     QString(String),
     String(String),
-    Number(u32),
+    Number(u32, String), // value and original text
     Blank,
     NewLine,
     End,
@@ -279,7 +279,7 @@ impl Tokenizer {
         }
         match str.parse::<u32>() {
             Err(_) => Ok(Token::String(str)),
-            Ok(n) => Ok(Token::Number(n)),
+            Ok(n) => Ok(Token::Number(n, str)),
         }
     }
 
diff --git a/src/nameserver/zones/utils.rs b/src/nameserver/zones/utils.rs
index fcaa494..6f0399f 100644
--- a/src/nameserver/zones/utils.rs
+++ b/src/nameserver/zones/utils.rs
@@ -9,7 +9,7 @@ pub fn parse_ttl_class(tokenizer: &mut Tokenizer) -> Result<(Option<u32>, Option
     let next_token = tokenizer.peek_after_blanks()?;
 
     // Try the ttl [class] format.
-    if let Token::Number(n) = next_token {
+    if let Token::Number(n, _) = next_token {
         tokenizer.next().unwrap(); // discard the peeked token
         let class_or_type = tokenizer.peek_after_blanks()?;
         return if let Ok(class) = try_to_class(&class_or_type) {
@@ -43,7 +43,7 @@ pub fn parse_ttl_class(tokenizer: &mut Tokenizer) -> Result<(Option<u32>, Option
 }
 
 fn try_to_ttl(token: &Token) -> Result<u32, ()> {
-    if let Token::Number(n) = token {
+    if let Token::Number(n, _) = token {
         Ok(*n)
     } else {
         Err(())
@@ -78,10 +78,20 @@ pub fn adjust_name(current_origin: &dns::Name, name: &mut String) -> Result<dns:
     }
 }
 
+/// Parse the passed token as a domain name, relative names and "@" are
+/// resolved against the current origin.
+pub fn parse_name(current_origin: &dns::Name, token: Token) -> Result<dns::Name, ParseErr> {
+    match token {
+        Token::At => Ok(current_origin.clone()),
+        Token::String(mut name) | Token::Number(_, mut name) => adjust_name(current_origin, &mut name),
+        _ => Err(ParseErr::UnexpectedToken(token)),
+    }
+}
+
 /// Parse the passed token as a character string. Validate it before returning.
 pub fn parse_char_string(token: Token) -> Result<String, ParseErr> {
     let (is_valid, str) = match token {
-        Token::String(s) => (dns::is_valid_character_string(&s, false), s),
+        Token::String(s) | Token::Number(_, s) => (dns::is_valid_character_string(&s, false), s),
         Token::QString(s) => (dns::is_valid_character_string(&s, true), s),
         _ => return Err(ParseErr::UnexpectedToken(token)),
     };
-- 
2.43.0


From d3a016583d241a51862e6e8227d2c9287b25fe5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:29 +0000
Subject: [PATCH 18/40] fix: replies to undecodable requests declare the
 sections they carry

---
 src/nameserver/handler.rs | 6 +++++-
 src/resolver/handler.rs   | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/nameserver/handler.rs b/src/nameserver/handler.rs
index a642b17..cbd46eb 100644
--- a/src/nameserver/handler.rs
+++ b/src/nameserver/handler.rs
@@ -164,7 +164,11 @@ fn handle_decode_err<W: DnsWrite>(resp: W, req_header: dns::Header, msg_err: dns
         dns::ParsingErr::UnsupportedType(_) => dns::RespCode::NotImp,
         _ => dns::RespCode::FormErr,
     };
-    let resp_header = resp_header_from_req_header(&req_header, resp_code);
+    let mut resp_header = resp_header_from_req_header(&req_header, resp_code);
+    resp_header.questions_count = 0;
+    resp_header.answers_count = 0;
+    resp_header.authorities_count = 0;
+    resp_header.additionals_count = 0;
     let dns_response = dns::Message {
         header: resp_header,
         questions: vec![],
diff --git a/src/resolver/handler.rs b/src/resolver/handler.rs
index 5cf6baf..d309e94 100644
--- a/src/resolver/handler.rs
+++ b/src/resolver/handler.rs
@@ -93,7 +93,11 @@ fn handle_decode_err<W: DnsWrite>(resp: W, req_header: dns::Header, msg_err: dns
         dns::ParsingErr::UnsupportedType(_) => dns::RespCode::NotImp,
         _ => dns::RespCode::FormErr,
     };
-    let resp_header = resp_header_from_req_header(&req_header, resp_code);
+    let mut resp_header = resp_header_from_req_header(&req_header, resp_code);
+    resp_header.questions_count = 0;
+    resp_header.answers_count = 0;
+    resp_header.authorities_count = 0;
+    resp_header.additionals_count = 0;
     let dns_response = dns::Message {
         header: resp_header,
         questions: vec![],
-- 
2.43.0


From a04c46a7db3dd61c12bb012e032916f16291d622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:29 +0000
Subject: [PATCH 19/40] fix: requests with questions of unknown types get an
 error reply instead of crashing the worker

---
 src/nameserver/handler.rs | 5 +++++
 src/resolver/handler.rs   | 3 ++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/nameserver/handler.rs b/src/nameserver/handler.rs
index cbd46eb..6843695 100644
--- a/src/nameserver/handler.rs
+++ b/src/nameserver/handler.rs
@@ -205,6 +205,7 @@ fn handle_nx_err<W: DnsWrite>(resp: W, dns_req: &dns::Message, soa_record: dns::
 /// Questions are included. NOTE: by default the response is authoritative.
 fn handle_err<W: DnsWrite>(resp: W, dns_req: &dns::Message, resp_code: dns::RespCode) {
     let mut resp_header = resp_header_from_req_header(&dns_req.header, resp_code);
+    resp_header.questions_count = dns_req.questions.len() as u16;
     resp_header.auth_answer = true;
     resp_header.answers_count = 0;
     resp_header.authorities_count = 0;
@@ -259,6 +260,10 @@ fn validate_dns_request(dns_req: &dns::Message) -> Result<&Question, String> {
         ));
     }
 
+    if dns_req.header.questions_count != 1 {
+        return Err(format!("invalid # of questions: {:?}", dns_req.header.questions_count));
+    }
+
     match dns_req.questions.as_slice() {
         [question] => Ok(question),
         _ => Err(format!("invalid # of questions: {:?}", dns_req.header.questions_count)),
diff --git a/src/resolver/handler.rs b/src/resolver/handler.rs
index d309e94..dd5dc38 100644
--- a/src/resolver/handler.rs
+++ b/src/resolver/handler.rs
@@ -113,6 +113,7 @@ fn handle_decode_err<W: DnsWrite>(resp: W, req_header: dns::Header, msg_err: dns
 /// Questions are included in the response.
 fn handle_err<W: DnsWrite>(resp: W, dns_req: &dns::Message, resp_code: dns::RespCode) {
     let mut resp_header = resp_header_from_req_header(&dns_req.header, resp_code);
+    resp_header.questions_count = dns_req.questions.len() as u16;
     resp_header.answers_count = 0;
     resp_header.authorities_count = 0;
     resp_header.additionals_count = 0;
@@ -156,7 +157,7 @@ fn validate_dns_request(dns_req: &dns::Message) -> Result<(), String> {
     if !dns_req.header.is_request() {
         return Err(format!("resp flag set in query"));
     }
-    if dns_req.header.questions_count != 1 {
+    if dns_req.header.questions_count != 1 || dns_req.questions.len() != 1 {
         return Err(format!("invalid # of questions: {:?}", dns_req.header.questions_count));
     }
     if dns_req.header.answers_count != 0 {
-- 
2.43.0


From 578ad0f2514006b75e7cc6d932e1184fc0423aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:29 +0000
Subject: [PATCH 20/40] fix: the truncation flag of a request is not copied
 into the reply

---
 src/nameserver/handler.rs | 1 +
 src/resolver/handler.rs   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/nameserver/handler.rs b/src/nameserver/handler.rs
index 6843695..6e8c17c 100644
--- a/src/nameserver/handler.rs
+++ b/src/nameserver/handler.rs
@@ -238,6 +238,7 @@ fn resp_header_from_req_header(req_header: &dns::Header, resp_code: dns::RespCod
     dns::Header {
         query_resp: true,
         auth_answer: false,
+        truncated: false,
         recursion_available: false,
         z: 0,
         resp_code,
diff --git a/src/resolver/handler.rs b/src/resolver/handler.rs
index dd5dc38..11a8157 100644
--- a/src/resolver/handler.rs
+++ b/src/resolver/handler.rs
@@ -145,6 +145,7 @@ fn resp_header_from_req_header(req_header: &dns::Header, resp_code: dns::RespCod
     dns::Header {
         query_resp: true,
         auth_answer: false,
+        truncated: false,
         recursion_available: true,
         z: 0,
         resp_code,
-- 
2.43.0


From d6ef87c0082652200387b8169dfc1e43ada2b566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:29 +0000
Subject: [PATCH 21/40] fix: TCP replies that do not fit in 65535 bytes are cut
 and flagged

---
 src/nameserver/handler.rs    |  6 +++---
 src/resolver/handler.rs      |  6 +++---
 src/shared/dns/message.rs    | 16 ++++++++++++----
 src/shared/net/tcp_server.rs |  2 +-
 4 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/nameserver/handler.rs b/src/nameserver/handler.rs
index 6e8c17c..f849c96 100644
--- a/src/nameserver/handler.rs
+++ b/src/nameserver/handler.rs
@@ -95,7 +95,7 @@ fn handle_auth_zone<W: DnsWrite>(resp: W, request: dns::Message, auth_zone: &Zon
     let mut resp_header = resp_header_from_req_header(&request.header, dns::RespCode::NoError);
     resp_header.auth_answer = true;
     resp_header.questions_count = 1;
-    resp_header.answers_count = searched_records.len() as u16;
+    resp_header.answers_count = searched_records.len().min(u16::MAX as usize) as u16;
     resp_header.authorities_count = 0;
     resp_header.additionals_count = 0;
     let response = dns::Message {
@@ -128,8 +128,8 @@ fn handle_subzone<W: DnsWrite>(resp: W, request: dns::Message, sub_zone: &Zone,
     resp_header.auth_answer = false;
     resp_header.questions_count = 1;
     resp_header.answers_count = 0;
-    resp_header.authorities_count = authorities.len() as u16;
-    resp_header.additionals_count = additionals.len() as u16;
+    resp_header.authorities_count = authorities.len().min(u16::MAX as usize) as u16;
+    resp_header.additionals_count = additionals.len().min(u16::MAX as usize) as u16;
     let response = dns::Message {
         header: resp_header,
         questions: request.questions,
diff --git a/src/resolver/handler.rs b/src/resolver/handler.rs
index 11a8157..e1f1983 100644
--- a/src/resolver/handler.rs
+++ b/src/resolver/handler.rs
@@ -68,9 +68,9 @@ fn handle_query<W: DnsWrite>(req: dns::Message, resp: W, resolver: &Resolver) {
     // An invariant that we must maintain is that dns messages formed
     // internally must be valid, so it's fine to unwrap after encoding.
     let mut resp_header = resp_header_from_req_header(&req.header, dns::RespCode::NoError);
-    resp_header.answers_count = answers.len() as u16;
-    resp_header.authorities_count = authorities.len() as u16;
-    resp_header.additionals_count = additionals.len() as u16;
+    resp_header.answers_count = answers.len().min(u16::MAX as usize) as u16;
+    resp_header.authorities_count = authorities.len().min(u16::MAX as usize) as u16;
+    resp_header.additionals_count = additionals.len().min(u16::MAX as usize) as u16;
     let dns_response = dns::Message {
         header: resp_header,
         questions: req.questions,
diff --git a/src/shared/dns/message.rs b/src/shared/dns/message.rs
index 8dce77e..842c531 100644
--- a/src/shared/dns/message.rs
+++ b/src/shared/dns/message.rs
@@ -6,6 +6,7 @@ use crate::shared::dns::questions::*;
 use crate::shared::dns::records::*;
 
 pub const MAX_UDP_LEN_BYTES: usize = 512;
+pub const MAX_TCP_LEN_BYTES: usize = 65535;
 
 /// Represents a complete dns message. Contains the [`Header`], which fields
 /// must be concordant with the [`Question`]s and [`Record`]s carried in the other
@@ -121,6 +122,13 @@ impl Message {
     /// is truncated before reaching [`MAX_UDP_LEN`] bytes of length (512 bytes). In
     /// this case the header is modified appropriately.
     pub fn encode_to_bytes_trunc(&self) -> Result<Vec<u8>, MessageErr> {
+        self.encode_to_bytes_max(MAX_UDP_LEN_BYTES)
+    }
+
+    /// Encode a dns [`Message`] to raw bytes, returning a bytes vector. The message
+    /// is truncated before exceeding `max_len` bytes of length. In this case the
+    /// header is modified appropriately.
+    pub fn encode_to_bytes_max(&self, max_len: usize) -> Result<Vec<u8>, MessageErr> {
         let mut buffer = BitsBuf::new();
         buffer.write_bytes(&[0; 12]);
         let mut header = dns::Header {
@@ -137,7 +145,7 @@ impl Message {
                 Err(err) => return Err(MessageErr::QuestionErr(i, err)),
                 Ok(v) => v,
             };
-            if buffer.write_pos() / 8 > MAX_UDP_LEN_BYTES {
+            if buffer.write_pos() / 8 > max_len {
                 buffer.set_write_pos(0);
                 header.truncated = true;
                 header.encode_to_buf(&mut buffer);
@@ -154,7 +162,7 @@ impl Message {
                 Err(err) => return Err(MessageErr::AnswerErr(i, err)),
                 Ok(v) => v,
             };
-            if buffer.write_pos() / 8 > MAX_UDP_LEN_BYTES {
+            if buffer.write_pos() / 8 > max_len {
                 buffer.set_write_pos(0);
                 header.truncated = true;
                 header.encode_to_buf(&mut buffer);
@@ -171,7 +179,7 @@ impl Message {
                 Err(err) => return Err(MessageErr::AuthorityErr(i, err)),
                 Ok(v) => v,
             }
-            if buffer.write_pos() / 8 > MAX_UDP_LEN_BYTES {
+            if buffer.write_pos() / 8 > max_len {
                 buffer.set_write_pos(0);
                 header.truncated = true;
                 header.encode_to_buf(&mut buffer);
@@ -188,7 +196,7 @@ impl Message {
                 Err(err) => return Err(MessageErr::AdditionalErr(i, err)),
                 Ok(v) => v,
             };
-            if buffer.write_pos() / 8 > MAX_UDP_LEN_BYTES {
+            if buffer.write_pos() / 8 > max_len {
                 buffer.set_write_pos(0);
                 header.truncated = true;
                 header.encode_to_buf(&mut buffer);
diff --git a/src/shared/net/tcp_server.rs b/src/shared/net/tcp_server.rs
index de94449..0ef9fa6 100644
--- a/src/shared/net/tcp_server.rs
+++ b/src/shared/net/tcp_server.rs
@@ -41,7 +41,7 @@ pub struct TcpResponse(net::TcpStream);
 
 impl DnsWrite for TcpResponse {
     fn reply(mut self, response: dns::Message) -> io::Result<()> {
-        let resp_bytes = response.encode_to_bytes().unwrap();
+        let resp_bytes = response.encode_to_bytes_max(dns::MAX_TCP_LEN_BYTES).unwrap();
         let resp_len = resp_bytes.len() as u16;
         let buf = [(resp_len >> 8) as u8, (resp_len) as u8];
         self.0.write_all(&buf)?;
-- 
2.43.0


From 093f31ba79b52d51b6fb2a39d63a9cb22f857151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:29 +0000
Subject: [PATCH 22/40] fix: a panicking job no longer kills its thread pool
 worker

---
 src/shared/thread_pool.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/shared/thread_pool.rs b/src/shared/thread_pool.rs
index 0e83e0f..270653d 100644
--- a/src/shared/thread_pool.rs
+++ b/src/shared/thread_pool.rs
@@ -1,5 +1,5 @@
 use std::sync::{mpsc, Arc, Mutex};
-use std::thread;
+use std::{panic, thread};
 
 /// Represents and controls a pool of OS threads, which can receive jobs (`FnOnce`
 /// pointers) to be executed. Threads are spawned when the pool is created via the
@@ -78,7 +78,12 @@ impl Worker {
             drop(receiver_guard);
             match worker_message {
                 WorkerMessage::Stop => return,
-                WorkerMessage::Job(job_fn) => job_fn(),
+                WorkerMessage::Job(job_fn) => {
+                    // A failing job must not take the worker with it.
+                    if panic::catch_unwind(panic::AssertUnwindSafe(job_fn)).is_err() {
+                        log::error!("A job of the thread pool panicked.");
+                    }
+                }
             }
         });
 
-- 
2.43.0


From e777b77926fc08a5f0838882aa640afcfa5b6bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:29 +0000
Subject: [PATCH 23/40] fix: stopping the servers works also while one is
 starting or has long running requests

---
 src/shared/net/setup.rs      | 8 +++++---
 src/shared/net/tcp_server.rs | 5 +++++
 src/shared/net/udp_server.rs | 5 +++++
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/shared/net/setup.rs b/src/shared/net/setup.rs
index 2d1a8d2..01f98d6 100644
--- a/src/shared/net/setup.rs
+++ b/src/shared/net/setup.rs
@@ -20,7 +20,7 @@ pub fn start_servers<H: DnsHandler>(handler: Arc<H>, udp_params: UdpParams, tcp_
     thread::spawn(move || {
         start_udp_server(handler_clone, udp_params_clone, &stop_clone);
         log::warn!("UDP server shut down.");
-        tx_clone.send(()).unwrap();
+        let _ = tx_clone.send(());
     });
 
     // Setup tcp parameters and spawn the tcp server in a new thread.
@@ -31,7 +31,7 @@ pub fn start_servers<H: DnsHandler>(handler: Arc<H>, udp_params: UdpParams, tcp_
     thread::spawn(move || {
         start_tcp_server(handler_clone, tcp_params_clone, &stop_clone);
         log::warn!("TCP server shut down.");
-        tx_clone.send(()).unwrap();
+        let _ = tx_clone.send(());
     });
 
     // Wait for errors or teardowns. Note that in any case
@@ -39,7 +39,9 @@ pub fn start_servers<H: DnsHandler>(handler: Arc<H>, udp_params: UdpParams, tcp_
     rx.recv().unwrap();
     stop.store(true, atomic::Ordering::SeqCst);
     wake_up_servers(&udp_params, &tcp_params);
-    rx.recv_timeout(time::Duration::from_secs(4)).unwrap();
+    if rx.recv_timeout(time::Duration::from_secs(4)).is_err() {
+        log::warn!("A server is still shutting down.");
+    }
 }
 
 /// Dirty hack. The only way to interrupt the UDP 'recv' and the TCP 'accept' calls
diff --git a/src/shared/net/tcp_server.rs b/src/shared/net/tcp_server.rs
index 0ef9fa6..4180cd5 100644
--- a/src/shared/net/tcp_server.rs
+++ b/src/shared/net/tcp_server.rs
@@ -82,6 +82,11 @@ where
         }
     };
 
+    // A stop signal sent before the socket was bound could not wake up the server.
+    if stop.load(atomic::Ordering::SeqCst) {
+        return;
+    }
+
     // Loop accepting TCP connections. When a new one is accepted, read
     // it and delegate the request processing to a thread in the pool.
     loop {
diff --git a/src/shared/net/udp_server.rs b/src/shared/net/udp_server.rs
index 14f9c09..9808b76 100644
--- a/src/shared/net/udp_server.rs
+++ b/src/shared/net/udp_server.rs
@@ -72,6 +72,11 @@ where
         }
     };
 
+    // A stop signal sent before the socket was bound could not wake up the server.
+    if stop.load(atomic::Ordering::SeqCst) {
+        return;
+    }
+
     // Loop receiving UDP messages. When a new request arrives, read
     // it and delegate request handling to a thread in the pool.
     loop {
-- 
2.43.0


From 3bad383d91f87f7b4b66f79cc4fdc9df5503d81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:40 +0000
Subject: [PATCH 24/40] fix: wake up servers that listen on IPv6 addresses

---
 src/shared/net/setup.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/shared/net/setup.rs b/src/shared/net/setup.rs
index 01f98d6..55391e4 100644
--- a/src/shared/net/setup.rs
+++ b/src/shared/net/setup.rs
@@ -50,7 +50,11 @@ pub fn start_servers<H: DnsHandler>(handler: Arc<H>, udp_params: UdpParams, tcp_
 #[allow(unused_must_use)]
 fn wake_up_servers(udp_conf: &UdpParams, tcp_conf: &TcpParams) {
     let udp_server_addr: (&str, u16) = (&udp_conf.address, udp_conf.port);
-    match net::UdpSocket::bind("0.0.0.0:0") {
+    let local_addr = match udp_conf.address.contains(':') {
+        true => "[::]:0",
+        false => "0.0.0.0:0",
+    };
+    match net::UdpSocket::bind(local_addr) {
         Ok(udp_sock) => udp_sock.send_to(&[0], udp_server_addr),
         Err(_) => return,
     };
-- 
2.43.0


From 4a991e459d4095c711f5013f3b9a6b01864b613a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:40 +0000
Subject: [PATCH 25/40] fix: refuse a zero TCP read timeout

---
 src/nameserver/conf.rs | 3 +++
 src/resolver/conf.rs   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/nameserver/conf.rs b/src/nameserver/conf.rs
index 8949dbe..3e0b9bb 100644
--- a/src/nameserver/conf.rs
+++ b/src/nameserver/conf.rs
@@ -80,6 +80,9 @@ impl Conf {
         if let Err(err) = net::IpAddr::from_str(self.tcp_server.address.as_ref()) {
             return Err(format!("invalid tcp address: {}", err));
         }
+        if self.tcp_server.read_timeout == 0 {
+            return Err("invalid tcp read timeout: cannot be 0 seconds".to_string());
+        }
         if self.tcp_server.write_timeout == 0 {
             return Err("invalid tcp write timeout: cannot be 0 seconds".to_string());
         }
diff --git a/src/resolver/conf.rs b/src/resolver/conf.rs
index 88648c4..244df2f 100644
--- a/src/resolver/conf.rs
+++ b/src/resolver/conf.rs
@@ -88,6 +88,9 @@ impl Conf {
         if let Err(err) = net::IpAddr::from_str(self.tcp_server.address.as_ref()) {
             return Err(format!("invalid tcp address: {}", err));
         }
+        if self.tcp_server.read_timeout == 0 {
+            return Err("invalid tcp read timeout: cannot be 0 seconds".to_string());
+        }
         if self.tcp_server.write_timeout == 0 {
             return Err("invalid tcp write timeout: cannot be 0 seconds".to_string());
         }
-- 
2.43.0


From 50836568c4962c88108c886adde8d025654c19b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:28 +0000
Subject: [PATCH 26/40] fix: the resolver compares names label by label, not by
 their last characters

---
 src/resolver/back_end/requests.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/resolver/back_end/requests.rs b/src/resolver/back_end/requests.rs
index 21e446e..12ded5a 100644
--- a/src/resolver/back_end/requests.rs
+++ b/src/resolver/back_end/requests.rs
@@ -111,7 +111,7 @@ pub fn perform_request(ns_req: NsRequest, trace: &mut Trace) -> Result<NsRespons
     }
 
     let current_zone = ns_req.nameserver.zone();
-    let next_nss = extract_next_nss_for_subzone(&mut dns_resp, searched_node, current_zone.as_ref());
+    let next_nss = extract_next_nss_for_subzone(&mut dns_resp, searched_node, current_zone);
     if next_nss.len() > 0 {
         return Ok(NsResponse::Delegation {
             header: dns_resp.header,
@@ -129,7 +129,7 @@ fn extract_next_nss_for_cname(response: &mut dns::Message, cname: &Name) -> Vec<
     authority_records
         .into_iter()
         .filter(|rec| rec.record_type() == dns::RecordType::NS)
-        .filter(|rec| cname.as_ref().ends_with(rec.node().as_ref()))
+        .filter(|rec| cname.is_in_zone(rec.node()))
         .map(|next_record| {
             let ns_node = next_record.ns_data();
             let ns_addrs = extract_records(&mut response.additionals, dns::RecordType::A, ns_node);
@@ -143,7 +143,7 @@ fn extract_next_nss_for_cname(response: &mut dns::Message, cname: &Name) -> Vec<
 
 /// Extract from the [`dns::Message`] response all records related to a sub zone
 /// delegation. Some validation is performed so some records could be discarded.
-fn extract_next_nss_for_subzone(resp: &mut dns::Message, node: &Name, zone: &str) -> Vec<NextSubzoneNs> {
+fn extract_next_nss_for_subzone(resp: &mut dns::Message, node: &Name, zone: &Name) -> Vec<NextSubzoneNs> {
     let authority_records = mem::take(&mut resp.authorities);
     authority_records
         .into_iter()
@@ -178,7 +178,7 @@ fn extract_next_nss_for_subzone(resp: &mut dns::Message, node: &Name, zone: &str
 // are looking for. Example: if we are looking for "company.com." the ns
 // record returned here cannot be authoritative over "pizza.com.".
 fn is_nameserver_authoritative_over_node(ns_zone: &Name, searched_node: &Name) -> bool {
-    if !searched_node.as_ref().ends_with(&ns_zone.as_ref()) {
+    if !searched_node.is_in_zone(ns_zone) {
         // TODO: trace?
         return false;
     }
@@ -189,8 +189,8 @@ fn is_nameserver_authoritative_over_node(ns_zone: &Name, searched_node: &Name) -
 // node than the current zone. Example: if we are looking for "s3.company.com."
 // and the ".com." nameserver responds with a NS record, the zone must be 'more'
 // than simply ".com.".
-fn is_nameserver_authority_a_subzone(ns_zone: &Name, current_zone: &str) -> bool {
-    if ns_zone.as_ref().len() <= current_zone.len() {
+fn is_nameserver_authority_a_subzone(ns_zone: &Name, current_zone: &Name) -> bool {
+    if ns_zone == current_zone || !ns_zone.is_in_zone(current_zone) {
         // TODO: trace?
         return false;
     }
@@ -201,7 +201,7 @@ fn is_nameserver_authority_a_subzone(ns_zone: &Name, current_zone: &str) -> bool
 // nameserver and no addresses are present for it. Example: the nameserver managing
 // '.com' is 'dns.com' and without an address we enter in a loop.
 fn is_nameserver_in_subzone_without_glue(ns_node: &Name, ns_zone: &Name, no_addr: bool) -> bool {
-    if ns_node.as_ref().ends_with(ns_zone.as_ref()) && no_addr {
+    if ns_node.is_in_zone(ns_zone) && no_addr {
         // TODO: trace?
         return true;
     }
-- 
2.43.0


From cbd4e7a3227fe702064bb83e1641b3e6816973b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:28 +0000
Subject: [PATCH 27/40] fix: a name server whose name has no address is skipped
 instead of crashing the lookup

---
 src/resolver/back_end/recursive.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/resolver/back_end/recursive.rs b/src/resolver/back_end/recursive.rs
index 8714691..1cf2f16 100644
--- a/src/resolver/back_end/recursive.rs
+++ b/src/resolver/back_end/recursive.rs
@@ -193,6 +193,10 @@ impl<'a> Lookup<'a> {
                 // If no address is present start a separate lookup.
                 if next_ns.addrs().is_empty() {
                     match self.resolve_ns_subquery(next_ns.node(), next_ns.zone()) {
+                        Ok(addrs) if addrs.is_empty() => {
+                            error.get_or_insert((format!("{:?}", next_ns), LookupErr::UnexpectedEmptyResp));
+                            continue;
+                        }
                         Ok(addrs) => next_ns.a_records = addrs,
                         Err(err) => {
                             let err = LookupErr::SubLookupErr(Box::new(err));
-- 
2.43.0


From d0023efd9aef75d7c7d136cb93bf9d62a3ff2dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:28 +0000
Subject: [PATCH 28/40] fix: referrals to different zones in one reply are
 cached each under its own zone

---
 src/resolver/back_end/recursive.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/resolver/back_end/recursive.rs b/src/resolver/back_end/recursive.rs
index 1cf2f16..ac0de2c 100644
--- a/src/resolver/back_end/recursive.rs
+++ b/src/resolver/back_end/recursive.rs
@@ -4,6 +4,7 @@ use crate::resolver::back_end::requests::*;
 use crate::resolver::back_end::trace::*;
 use crate::resolver::back_end::utils::*;
 use crate::shared::dns;
+use std::collections::HashMap;
 use std::sync::Arc;
 use std::{mem, time};
 
@@ -384,14 +385,17 @@ fn save_records_in_cache(cache: &RecordsCache, mut records: Vec<dns::Record>) {
 
 // Save nameserver records in cache, both the NS record and eventual A ones.
 fn save_nss_in_cache(cache: &RecordsCache, next_nss: Vec<NextSubzoneNs>) {
-    let mut ns_records = vec![];
+    let mut ns_records: HashMap<dns::Name, Vec<dns::Record>> = HashMap::new();
     for next_ns in next_nss {
-        ns_records.push(next_ns.ns_record);
+        let zone_ns_records = ns_records.entry(next_ns.zone().clone()).or_default();
+        zone_ns_records.push(next_ns.ns_record);
         if next_ns.a_records.len() > 0 {
             save_records_in_cache(cache, next_ns.a_records);
         }
     }
-    save_records_in_cache(cache, ns_records);
+    for (_, zone_ns_records) in ns_records {
+        save_records_in_cache(cache, zone_ns_records);
+    }
 }
 
 // Generate a list of domains from the passed one, in increasing order.
-- 
2.43.0


From 59ab87b8e41d02f035826cbf64db444be9e62c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:28 +0000
Subject: [PATCH 29/40] fix: ignore what a name server says about names outside
 of its zone

---
 src/resolver/back_end/requests.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/resolver/back_end/requests.rs b/src/resolver/back_end/requests.rs
index 12ded5a..1e85422 100644
--- a/src/resolver/back_end/requests.rs
+++ b/src/resolver/back_end/requests.rs
@@ -75,6 +75,7 @@ pub fn perform_request(ns_req: NsRequest, trace: &mut Trace) -> Result<NsRespons
 
     // The upstream should only use the nx_domain code with the auth flag.
     let NsRequest { searched_node, searched_type, .. } = &ns_req;
+    let current_zone = ns_req.nameserver.zone();
     match dns_resp.header.resp_code {
         dns::RespCode::NoError => {}
         dns::RespCode::NxDomain if dns_resp.header.auth_answer => {
@@ -87,6 +88,11 @@ pub fn perform_request(ns_req: NsRequest, trace: &mut Trace) -> Result<NsRespons
         }
     }
 
+    // A server is trusted only about the zone it was queried for, don't consider
+    // what it says about other names (the addresses of the next nameservers or
+    // the additional records included in the answer).
+    dns_resp.additionals.retain(|rec| rec.node().is_in_zone(current_zone));
+
     // Analyze the response. Start looking for answers, then cnames (note: only
     // one is valid). Otherwise search for sub zones delegations. If nothing is
     // found is an error (even if it should be signaled via nx_domain flag).
@@ -102,7 +108,7 @@ pub fn perform_request(ns_req: NsRequest, trace: &mut Trace) -> Result<NsRespons
     let cname = extract_record(&mut dns_resp.answers, dns::RecordType::CNAME, searched_node);
     if let Some(cname_rec) = cname {
         let cname = cname_rec.cname_data();
-        let next_nss = extract_next_nss_for_cname(&mut dns_resp, cname);
+        let next_nss = extract_next_nss_for_cname(&mut dns_resp, cname, current_zone);
         return Ok(NsResponse::Alias {
             header: dns_resp.header,
             cname_rec,
@@ -110,7 +116,6 @@ pub fn perform_request(ns_req: NsRequest, trace: &mut Trace) -> Result<NsRespons
         });
     }
 
-    let current_zone = ns_req.nameserver.zone();
     let next_nss = extract_next_nss_for_subzone(&mut dns_resp, searched_node, current_zone);
     if next_nss.len() > 0 {
         return Ok(NsResponse::Delegation {
@@ -124,12 +129,12 @@ pub fn perform_request(ns_req: NsRequest, trace: &mut Trace) -> Result<NsRespons
 
 /// Extracts from the [`dns::Message`] response all records useful to re-start
 /// the cname resolution. Those are typically NS records and their addresses.
-fn extract_next_nss_for_cname(response: &mut dns::Message, cname: &Name) -> Vec<NextSubzoneNs> {
+fn extract_next_nss_for_cname(response: &mut dns::Message, cname: &Name, zone: &Name) -> Vec<NextSubzoneNs> {
     let authority_records = mem::take(&mut response.authorities);
     authority_records
         .into_iter()
         .filter(|rec| rec.record_type() == dns::RecordType::NS)
-        .filter(|rec| cname.is_in_zone(rec.node()))
+        .filter(|rec| cname.is_in_zone(rec.node()) && rec.node().is_in_zone(zone))
         .map(|next_record| {
             let ns_node = next_record.ns_data();
             let ns_addrs = extract_records(&mut response.additionals, dns::RecordType::A, ns_node);
-- 
2.43.0


From cd609a7859dd223f12959c4e66e1b9c9a166cf9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:28 +0000
Subject: [PATCH 30/40] fix: resolve again name server addresses that expired
 before the NS records

---
 src/resolver/back_end/recursive.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/resolver/back_end/recursive.rs b/src/resolver/back_end/recursive.rs
index ac0de2c..462c05a 100644
--- a/src/resolver/back_end/recursive.rs
+++ b/src/resolver/back_end/recursive.rs
@@ -306,6 +306,11 @@ impl<'a> Lookup<'a> {
         let domains = generate_domain_hierarchy(&self.searched_node.as_ref());
         let ns_records: Option<Vec<dns::Record>> = domains.iter().find_map(|name| {
             let name = dns::Name::from_string(name).unwrap();
+            // The nameservers of these zones are being resolved: use the ones
+            // of a parent zone, since they could provide the missing addresses.
+            if self.previous_zones.contains(&name) {
+                return None;
+            }
             let records = search_records_in_cache(&self.cache, &name, dns::RecordType::NS);
             if records.len() > 0 {
                 Some(records)
-- 
2.43.0


From 391d9093bd4fa31b101dc5c8edbeb3991046083b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:28 +0000
Subject: [PATCH 31/40] fix: bound the work a single lookup can cause

---
 src/resolver/back_end/errors.rs    |  1 +
 src/resolver/back_end/recursive.rs | 33 ++++++++++++++++++++++++++++++
 2 files changed, 34 insertions(+)

diff --git a/src/resolver/back_end/errors.rs b/src/resolver/back_end/errors.rs
index 84ba1e7..ea94563 100644
--- a/src/resolver/back_end/errors.rs
+++ b/src/resolver/back_end/errors.rs
@@ -17,6 +17,7 @@ pub enum LookupErr {
     CnamesLoop,
     UnexpectedCname,
     MaxCnameRedir,
+    MaxRequests,
 
     // Error resolving a sub-lookup,
     // usually resolving a NS name.
diff --git a/src/resolver/back_end/recursive.rs b/src/resolver/back_end/recursive.rs
index 462c05a..cff5727 100644
--- a/src/resolver/back_end/recursive.rs
+++ b/src/resolver/back_end/recursive.rs
@@ -5,6 +5,7 @@ use crate::resolver::back_end::trace::*;
 use crate::resolver::back_end::utils::*;
 use crate::shared::dns;
 use std::collections::HashMap;
+use std::sync::atomic::{AtomicUsize, Ordering};
 use std::sync::Arc;
 use std::{mem, time};
 
@@ -66,6 +67,7 @@ impl Resolver {
             previous_cnames: vec![],
             cache: &self.cache,
             next_nss: vec![],
+            requests_left: Arc::new(AtomicUsize::new(max_requests(&self.rsv_conf))),
             conf: self.rsv_conf.clone(),
             trace,
         }
@@ -81,11 +83,21 @@ pub struct Lookup<'a> {
     previous_zones: Vec<dns::Name>,
     previous_cnames: Vec<dns::Record>,
     next_nss: Vec<NextSubzoneNs>,
+    requests_left: Arc<AtomicUsize>,
     cache: &'a RecordsCache,
     trace: Trace,
     conf: ResolverParams,
 }
 
+/// How deep sub-lookups (needed to resolve nameservers names) can be nested.
+const MAX_SUB_LOOKUPS_DEPTH: usize = 8;
+
+/// The max number of nameservers involved in a lookup, including its sub-lookups.
+fn max_requests(conf: &ResolverParams) -> usize {
+    let per_cname = conf.max_ns_queried.saturating_mul(16);
+    conf.max_cname_redir.saturating_mul(per_cname).saturating_add(64)
+}
+
 /// The response returned when a lookup is performed. The last field
 /// indicates if no records of the searched type were found.
 #[derive(Debug)]
@@ -191,6 +203,13 @@ impl<'a> Lookup<'a> {
             let mut error: Option<LookupErrCtx> = None;
 
             for mut next_ns in next_nss {
+                // Misbehaving nameservers must not be able to
+                // make us perform an unbounded amount of work.
+                if let Err(err) = self.consume_request() {
+                    error.get_or_insert((format!("{:?}", next_ns), err));
+                    break;
+                }
+
                 // If no address is present start a separate lookup.
                 if next_ns.addrs().is_empty() {
                     match self.resolve_ns_subquery(next_ns.node(), next_ns.zone()) {
@@ -247,6 +266,9 @@ impl<'a> Lookup<'a> {
     /// not allowed when resolving a nameserver name.
     fn resolve_ns_subquery(&mut self, node: &dns::Name, zone: &dns::Name) -> Result<Vec<dns::Record>, LookupErrCtx> {
         detect_zones_loop(zone, &self.previous_zones)?;
+        if self.previous_zones.len() >= MAX_SUB_LOOKUPS_DEPTH {
+            return Err((node.to_string(), LookupErr::MaxRequests));
+        }
         let mut zones = self.previous_zones.clone();
         zones.push(zone.clone());
 
@@ -262,6 +284,7 @@ impl<'a> Lookup<'a> {
             cache: &self.cache,
             trace: self.trace.clone_empty(),
             next_nss: vec![],
+            requests_left: Arc::clone(&self.requests_left),
             conf,
         };
 
@@ -273,6 +296,16 @@ impl<'a> Lookup<'a> {
         }
     }
 
+    // Consume one of the requests still allowed for this lookup and its sub-lookups.
+    fn consume_request(&self) -> Result<(), LookupErr> {
+        let left = self.requests_left.load(Ordering::Relaxed);
+        if left == 0 {
+            return Err(LookupErr::MaxRequests);
+        }
+        self.requests_left.store(left - 1, Ordering::Relaxed);
+        Ok(())
+    }
+
     // Perform the request to a nameserver and trace the result.
     fn perform_request_with_trace(&mut self, ns_req: NsRequest) -> Result<NsResponse, LookupErr> {
         self.trace
-- 
2.43.0


From 2e9c7326a3533d8da4b68b0b9238bc682b892d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:28 +0000
Subject: [PATCH 32/40] fix: using a cached alias does not change its lifetime

---
 src/resolver/back_end/recursive.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/resolver/back_end/recursive.rs b/src/resolver/back_end/recursive.rs
index cff5727..7a7f6d7 100644
--- a/src/resolver/back_end/recursive.rs
+++ b/src/resolver/back_end/recursive.rs
@@ -157,7 +157,8 @@ impl<'a> Lookup<'a> {
                 }
                 // Cname found. Stash the cname, save data in cache and restart.
                 NsResponse::Alias { cname_rec, next_nss, .. } => {
-                    self.handle_cname(cname_rec, next_nss)?;
+                    self.handle_cname(cname_rec.clone(), next_nss)?;
+                    save_records_in_cache(&self.cache, vec![cname_rec]);
                     continue;
                 }
                 // Nothing found for the searched domain, a SOA record could be present.
@@ -181,11 +182,10 @@ impl<'a> Lookup<'a> {
     fn handle_cname(&mut self, cname_record: dns::Record, next_nss: Vec<NextSubzoneNs>) -> Result<(), LookupErrCtx> {
         let cname = cname_record.cname_data().clone();
         detect_cname_loops(&cname_record, &self.previous_cnames)?;
-        self.previous_cnames.push(cname_record.clone());
+        self.previous_cnames.push(cname_record);
         if self.conf.no_follow_cname {
             return Err((cname.to_string(), LookupErr::UnexpectedCname));
         }
-        save_records_in_cache(&self.cache, vec![cname_record]);
         self.next_nss = next_nss;
         self.searched_node = cname;
         Ok(())
-- 
2.43.0


From d58caa9b50c8d26a6e5d5c39f766d118458cd0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:28 +0000
Subject: [PATCH 33/40] fix: records of truncated replies are not cached

---
 src/resolver/back_end/recursive.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/resolver/back_end/recursive.rs b/src/resolver/back_end/recursive.rs
index 7a7f6d7..23f9cab 100644
--- a/src/resolver/back_end/recursive.rs
+++ b/src/resolver/back_end/recursive.rs
@@ -148,17 +148,21 @@ impl<'a> Lookup<'a> {
 
             match self.query_nameservers_iteratively()? {
                 // Some answers found. Return answers along with previous cnames.
-                NsResponse::Answer { answers, additionals, .. } => {
+                NsResponse::Answer { header, answers, additionals } => {
                     debug_assert!(answers.len() > 0);
-                    save_records_in_cache(&self.cache, answers.clone());
+                    if !header.truncated {
+                        save_records_in_cache(&self.cache, answers.clone());
+                    }
                     let mut cname_answers = mem::take(&mut self.previous_cnames);
                     cname_answers.extend(answers);
                     return Ok(LookupResponse(cname_answers, vec![], additionals, false));
                 }
                 // Cname found. Stash the cname, save data in cache and restart.
-                NsResponse::Alias { cname_rec, next_nss, .. } => {
+                NsResponse::Alias { header, cname_rec, next_nss } => {
                     self.handle_cname(cname_rec.clone(), next_nss)?;
-                    save_records_in_cache(&self.cache, vec![cname_rec]);
+                    if !header.truncated {
+                        save_records_in_cache(&self.cache, vec![cname_rec]);
+                    }
                     continue;
                 }
                 // Nothing found for the searched domain, a SOA record could be present.
@@ -249,8 +253,10 @@ impl<'a> Lookup<'a> {
                     NsResponse::NoDomain { .. } => return Ok(ns_response),
                     NsResponse::Answer { .. } => return Ok(ns_response),
                     NsResponse::Alias { .. } => return Ok(ns_response),
-                    NsResponse::Delegation { next_nss, .. } => {
-                        save_nss_in_cache(&self.cache, next_nss.clone());
+                    NsResponse::Delegation { header, next_nss } => {
+                        if !header.truncated {
+                            save_nss_in_cache(&self.cache, next_nss.clone());
+                        }
                         self.next_nss = next_nss;
                         continue 'next_zone;
                     }
-- 
2.43.0


From d748f61fa8e90790a2c97a20d21e49b92ef2c2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:32 +0000
Subject: [PATCH 34/40] fix: a name without records of the searched type is not
 a failed lookup

---
 src/resolver/back_end/recursive.rs | 11 +++++++++--
 src/resolver/back_end/requests.rs  | 13 ++++++++++++-
 src/resolver/back_end/trace.rs     |  8 ++++++++
 3 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/src/resolver/back_end/recursive.rs b/src/resolver/back_end/recursive.rs
index 23f9cab..20a349a 100644
--- a/src/resolver/back_end/recursive.rs
+++ b/src/resolver/back_end/recursive.rs
@@ -98,8 +98,8 @@ fn max_requests(conf: &ResolverParams) -> usize {
     conf.max_cname_redir.saturating_mul(per_cname).saturating_add(64)
 }
 
-/// The response returned when a lookup is performed. The last field
-/// indicates if no records of the searched type were found.
+/// The response returned when a lookup is performed. The last
+/// field indicates if the searched domain does not exist.
 #[derive(Debug)]
 pub struct LookupResponse(
     pub Vec<dns::Record>,
@@ -171,6 +171,12 @@ impl<'a> Lookup<'a> {
                     let answers = mem::take(&mut self.previous_cnames);
                     return Ok(LookupResponse(answers, authorities, vec![], true));
                 }
+                // The searched domain exists, but has no records of the searched type.
+                NsResponse::NoRecords { soa_rec, .. } => {
+                    let authorities = soa_rec.map_or(vec![], |r| vec![r]);
+                    let answers = mem::take(&mut self.previous_cnames);
+                    return Ok(LookupResponse(answers, authorities, vec![], false));
+                }
                 // Delegation to sub zones is not handled here.
                 _ => unreachable!(),
             }
@@ -251,6 +257,7 @@ impl<'a> Lookup<'a> {
                 // Iterate if a delegation is found.
                 match ns_response {
                     NsResponse::NoDomain { .. } => return Ok(ns_response),
+                    NsResponse::NoRecords { .. } => return Ok(ns_response),
                     NsResponse::Answer { .. } => return Ok(ns_response),
                     NsResponse::Alias { .. } => return Ok(ns_response),
                     NsResponse::Delegation { header, next_nss } => {
diff --git a/src/resolver/back_end/requests.rs b/src/resolver/back_end/requests.rs
index 1e85422..7cadba8 100644
--- a/src/resolver/back_end/requests.rs
+++ b/src/resolver/back_end/requests.rs
@@ -27,6 +27,10 @@ pub enum NsResponse {
         header: dns::Header,
         soa_rec: Option<dns::Record>,
     },
+    NoRecords {
+        header: dns::Header,
+        soa_rec: Option<dns::Record>,
+    },
     Answer {
         header: dns::Header,
         answers: Vec<dns::Record>,
@@ -95,7 +99,9 @@ pub fn perform_request(ns_req: NsRequest, trace: &mut Trace) -> Result<NsRespons
 
     // Analyze the response. Start looking for answers, then cnames (note: only
     // one is valid). Otherwise search for sub zones delegations. If nothing is
-    // found is an error (even if it should be signaled via nx_domain flag).
+    // found the response must come from an authoritative nameserver (the name
+    // exists, but has no records of the searched type), otherwise is an error.
+    let no_answers = dns_resp.answers.is_empty();
     let answers = extract_records(&mut dns_resp.answers, *searched_type, searched_node);
     if answers.len() > 0 {
         return Ok(NsResponse::Answer {
@@ -116,6 +122,7 @@ pub fn perform_request(ns_req: NsRequest, trace: &mut Trace) -> Result<NsRespons
         });
     }
 
+    let soa_rec = extract_record(&mut dns_resp.authorities, dns::RecordType::SOA, searched_node);
     let next_nss = extract_next_nss_for_subzone(&mut dns_resp, searched_node, current_zone);
     if next_nss.len() > 0 {
         return Ok(NsResponse::Delegation {
@@ -124,6 +131,10 @@ pub fn perform_request(ns_req: NsRequest, trace: &mut Trace) -> Result<NsRespons
         });
     }
 
+    if dns_resp.header.auth_answer && no_answers {
+        return Ok(NsResponse::NoRecords { header: dns_resp.header, soa_rec });
+    }
+
     Err(LookupErr::UnexpectedEmptyResp)
 }
 
diff --git a/src/resolver/back_end/trace.rs b/src/resolver/back_end/trace.rs
index 783019e..ee04db8 100644
--- a/src/resolver/back_end/trace.rs
+++ b/src/resolver/back_end/trace.rs
@@ -149,6 +149,14 @@ impl Trace {
                     resp_header = format!("No domain (NX code), no SOA record.");
                 };
             }
+            NsResponse::NoRecords { soa_rec, .. } => {
+                if soa_rec.is_some() {
+                    resp_header = format!("No records of this type, SOA record:");
+                    resp_lines.push(format!("{:?}", soa_rec.as_ref().unwrap()));
+                } else {
+                    resp_header = format!("No records of this type, no SOA record.");
+                };
+            }
             NsResponse::Answer { answers, additionals, .. } => {
                 resp_header = format!("{}:", "Answers found");
                 format_records(&mut resp_lines, answers);
-- 
2.43.0


From 1de2330686dd48e62e2dd93da9c7f77451f7e385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:42 +0000
Subject: [PATCH 35/40] fix: no sub traces are collected when tracing is off

---
 src/resolver/back_end/trace.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/resolver/back_end/trace.rs b/src/resolver/back_end/trace.rs
index ee04db8..1447483 100644
--- a/src/resolver/back_end/trace.rs
+++ b/src/resolver/back_end/trace.rs
@@ -221,6 +221,7 @@ impl Trace {
 
     /// Consume another trace and add to the present one as a sub trace.
     pub fn add_sub_trace(&mut self, sub_trace: Trace) {
+        skip_if_silent!(self);
         let item = TraceLine::SubResolution(sub_trace.lines);
         self.lines.push(item);
     }
-- 
2.43.0


From 344b709cf530a6cb25de51412cbe65589f3e3520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:13 +0000
Subject: [PATCH 36/40] fix: an alias that points to itself is a loop

---
 src/resolver/back_end/utils.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/resolver/back_end/utils.rs b/src/resolver/back_end/utils.rs
index 1ad1d49..3adea78 100644
--- a/src/resolver/back_end/utils.rs
+++ b/src/resolver/back_end/utils.rs
@@ -95,9 +95,9 @@ pub fn sort_nameservers(nameservers: &mut Vec<NextSubzoneNs>) {
 }
 
 /// Detect if the passed cname record points to one of the cnames already
-/// encountered. If yes, a loop is detected and a proper error is returned.
+/// encountered, or to itself. If yes, a loop is detected and a proper error is returned.
 pub fn detect_cname_loops(cname_record: &Record, previous_cnames: &Vec<Record>) -> Result<(), LookupErrCtx> {
-    for prev_cname in previous_cnames {
+    for prev_cname in previous_cnames.iter().chain([cname_record]) {
         if prev_cname.node() == cname_record.cname_data() {
             let err_msg = format!("record: {:?}, previous cnames: '{:?}'", prev_cname, previous_cnames);
             return Err((err_msg, LookupErr::CnamesLoop));
-- 
2.43.0


From f97af8eb795dbb7ae5eb572b7b534f1a2c06272d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:09 +0000
Subject: [PATCH 37/40] fix: remaining TTL of cache entries saved concurrently

---
 src/resolver/back_end/recursive.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/resolver/back_end/recursive.rs b/src/resolver/back_end/recursive.rs
index 20a349a..14aab50 100644
--- a/src/resolver/back_end/recursive.rs
+++ b/src/resolver/back_end/recursive.rs
@@ -401,16 +401,17 @@ fn search_records_in_cache(cache: &RecordsCache, node: &dns::Name, kind: dns::Re
 
     assert!(records.len() > 0);
     let rec_type = records[0].record_type();
-    let rec_ttl = records[0].ttl();
+    let rec_ttl = *records[0].ttl();
     for rec in &records {
         assert_eq!(rec.record_type(), rec_type);
-        assert_eq!(rec.ttl(), rec_ttl);
+        assert_eq!(*rec.ttl(), rec_ttl);
         assert!(exp > before_get);
     }
 
-    // Correct records TTLs.
+    // Correct records TTLs. The entry could have been saved (by another lookup) after
+    // before_get: in any case the remaining TTL doesn't exceed the TTL of the records.
     for record in &mut records {
-        let ttl = (exp - before_get).as_secs();
+        let ttl = (exp - before_get).as_secs().min(rec_ttl.into());
         let remaining_ttl = u32::try_from(ttl).unwrap();
         record.set_ttl(remaining_ttl);
     }
-- 
2.43.0


From 1491b7dd5325c9e757ad13742df82c35b2d7af65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:16 +0000
Subject: [PATCH 38/40] fix: a server that panics or cannot be spawned stops
 the other one

---
 src/shared/net/setup.rs | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/shared/net/setup.rs b/src/shared/net/setup.rs
index 55391e4..d301d0a 100644
--- a/src/shared/net/setup.rs
+++ b/src/shared/net/setup.rs
@@ -16,23 +16,29 @@ pub fn start_servers<H: DnsHandler>(handler: Arc<H>, udp_params: UdpParams, tcp_
     let udp_params_clone = udp_params.clone();
     let handler_clone = Arc::clone(&handler);
     let stop_clone = Arc::clone(&stop);
-    let tx_clone = tx.clone();
-    thread::spawn(move || {
+    let notifier = ExitNotifier(tx.clone());
+    let spawned = thread::Builder::new().spawn(move || {
+        let _notifier = notifier;
         start_udp_server(handler_clone, udp_params_clone, &stop_clone);
         log::warn!("UDP server shut down.");
-        let _ = tx_clone.send(());
     });
+    if let Err(err) = spawned {
+        log::error!("Cannot spawn the UDP server: {}", err);
+    }
 
     // Setup tcp parameters and spawn the tcp server in a new thread.
     let tcp_params_clone = tcp_params.clone();
     let handler_clone = Arc::clone(&handler);
     let stop_clone = Arc::clone(&stop);
-    let tx_clone = tx.clone();
-    thread::spawn(move || {
+    let notifier = ExitNotifier(tx.clone());
+    let spawned = thread::Builder::new().spawn(move || {
+        let _notifier = notifier;
         start_tcp_server(handler_clone, tcp_params_clone, &stop_clone);
         log::warn!("TCP server shut down.");
-        let _ = tx_clone.send(());
     });
+    if let Err(err) = spawned {
+        log::error!("Cannot spawn the TCP server: {}", err);
+    }
 
     // Wait for errors or teardowns. Note that in any case
     // we have a timeout on the second recv to avoid locks.
@@ -44,6 +50,16 @@ pub fn start_servers<H: DnsHandler>(handler: Arc<H>, udp_params: UdpParams, tcp_
     }
 }
 
+/// Notifies the end of a server when dropped: the notification is sent also
+/// when the server panics or when its thread cannot be spawned.
+struct ExitNotifier(mpsc::Sender<()>);
+
+impl Drop for ExitNotifier {
+    fn drop(&mut self) {
+        let _ = self.0.send(());
+    }
+}
+
 /// Dirty hack. The only way to interrupt the UDP 'recv' and the TCP 'accept' calls
 /// is sending them a message. Those calls are blocking and without this hack the
 /// servers cannot unblock and check the stop signal (and so exit properly).
-- 
2.43.0


From 38f7e4510ecdc1634f223dea90b6996b2011dacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:08 +0000
Subject: [PATCH 39/40] fix: do not wait for a TCP port that never accepts when
 waking up the servers

---
 src/shared/net/setup.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/shared/net/setup.rs b/src/shared/net/setup.rs
index d301d0a..d2b5cff 100644
--- a/src/shared/net/setup.rs
+++ b/src/shared/net/setup.rs
@@ -2,6 +2,7 @@ use crate::shared::net::tcp_server::*;
 use crate::shared::net::traits::*;
 use crate::shared::net::udp_server::*;
 use std::io::Write;
+use std::net::ToSocketAddrs;
 use std::sync::{atomic, mpsc, Arc};
 use std::{net, thread, time};
 
@@ -74,8 +75,13 @@ fn wake_up_servers(udp_conf: &UdpParams, tcp_conf: &TcpParams) {
         Ok(udp_sock) => udp_sock.send_to(&[0], udp_server_addr),
         Err(_) => return,
     };
+    // The port may belong to another program (or host) that never accepts: don't wait for it.
     let tcp_server_addr: (&str, u16) = (&tcp_conf.address, tcp_conf.port);
-    match net::TcpStream::connect(tcp_server_addr) {
+    let tcp_server_addr = match tcp_server_addr.to_socket_addrs().map(|mut addrs| addrs.next()) {
+        Ok(Some(addr)) => addr,
+        _ => return,
+    };
+    match net::TcpStream::connect_timeout(&tcp_server_addr, time::Duration::from_secs(1)) {
         Ok(mut tcp_sock) => tcp_sock.write_all(&[0]),
         Err(_) => return,
     };
-- 
2.43.0


From 942e7fa31cfa09cdf2a0b6b866d1416801edc6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:24 +0000
Subject: [PATCH 40/40] fix: no colours in the trace of a failing name server
 when they are off

---
 src/resolver/back_end/trace.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/resolver/back_end/trace.rs b/src/resolver/back_end/trace.rs
index 1447483..7a156bc 100644
--- a/src/resolver/back_end/trace.rs
+++ b/src/resolver/back_end/trace.rs
@@ -318,7 +318,11 @@ fn display_trace_lines(f: &mut Formatter<'_>, lines: &[TraceLine], depth: u8, co
             }
             TraceLine::NameserverErr(header) => {
                 indent(f, depth)?;
-                writeln!(f, "{}", header.bold().bright_red())?;
+                if conf.color {
+                    writeln!(f, "{}", header.bold().bright_red())?
+                } else {
+                    writeln!(f, "{}", header)?
+                }
             }
             TraceLine::SubResolution(sub_trace) => {
                 display_trace_lines(f, sub_trace, depth + 1, conf)?;
-- 
2.43.0

