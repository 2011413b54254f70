From b1bc658e86cb5956760bb5df592389ce78d1826d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:17 +0000
Subject: [PATCH 01/17] fix: count every byte of an action once when decoding

The opcode peek of Action and the end-of-input peek of Command were both
added to bits_read, so callers saw more bytes consumed than were read:
Action::try_from accepted a trailing byte, Command::try_from dropped what
followed an indirect forward and the frames that embed a command could not
be decoded from bytes.
---
 dash7/src/app/action.rs  |  3 +++
 dash7/src/app/command.rs | 10 +++++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/dash7/src/app/action.rs b/dash7/src/app/action.rs
index ca76d17..3efc12b 100644
--- a/dash7/src/app/action.rs
+++ b/dash7/src/app/action.rs
@@ -170,6 +170,9 @@ impl<'a> DekuReader<'a, ()> for Action {
         // seek back to the beginning (1 byte)
         let _ = reader.seek_relative(-1); // TODO process err
 
+        // the peeked byte will be read again, so it must not be counted twice
+        reader.bits_read -= 8;
+
         // // Read the preamble and pass it on as context values
         // let preamble = (<u8 as DekuReader<'_, _>>::from_reader_with_ctx(
         //     reader,
diff --git a/dash7/src/app/command.rs b/dash7/src/app/command.rs
index 1a9a54c..19007f5 100644
--- a/dash7/src/app/command.rs
+++ b/dash7/src/app/command.rs
@@ -50,10 +50,18 @@ impl<'a> DekuReader<'a, u32> for Command {
             })
         };
 
-        while valid_length(reader, length)? && !reader.end() {
+        while valid_length(reader, length)? {
             if let Some(Action::IndirectForward(_)) = command.actions.last() {
                 return Ok(command);
             }
+
+            // `end` counts the byte it peeks, although that byte is still to be read
+            let bits_read = reader.bits_read;
+            if reader.end() {
+                break;
+            }
+            reader.bits_read = bits_read;
+
             let action = Action::from_reader_with_ctx(reader, ())?;
             command.actions.push(action);
         }
-- 
2.43.0


From 877de0d530d12da6cbfa4d5029e17ded959d7a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:17 +0000
Subject: [PATCH 02/17] fix: do not print every decoded value to stdout

---
 dash7/src/utils.rs | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/dash7/src/utils.rs b/dash7/src/utils.rs
index f128b14..4bb7a54 100644
--- a/dash7/src/utils.rs
+++ b/dash7/src/utils.rs
@@ -73,11 +73,6 @@ where
         reader.skip_bits(input.1)?;
     }
     let value = T::from_reader_with_ctx(&mut reader, ctx)?;
-    println!(
-        "value {:?}, reader.bits_read {:?}  {:?}",
-        value, reader.bits_read, input
-    );
-
     Ok((pad_rest(input, reader.bits_read), value))
 }
 
-- 
2.43.0


From be39419236b67317695f545ab9b359936fff6650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:17 +0000
Subject: [PATCH 03/17] fix: read the mask of a string token search only when
 it is present

---
 dash7/src/app/query.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dash7/src/app/query.rs b/dash7/src/app/query.rs
index ec18d0c..7f84175 100644
--- a/dash7/src/app/query.rs
+++ b/dash7/src/app/query.rs
@@ -228,7 +228,7 @@ pub struct StringTokenSearch {
     #[deku(update = "self.value.len()")]
     pub length: Length,
 
-    #[deku(count = "length", endian = "big")]
+    #[deku(cond = "*mask_present", count = "length", endian = "big")]
     pub mask: Vec<u8>,
 
     #[deku(count = "length", endian = "big")]
-- 
2.43.0


From 5e9896bb34e66dc08d21b73409e914abfde314c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:17 +0000
Subject: [PATCH 04/17] fix: put the tx status opcode right after the status
 type

---
 dash7/src/app/interface_final.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dash7/src/app/interface_final.rs b/dash7/src/app/interface_final.rs
index 95a93d4..6c45ed1 100644
--- a/dash7/src/app/interface_final.rs
+++ b/dash7/src/app/interface_final.rs
@@ -97,7 +97,7 @@ pub enum TxStatusType {
 #[derive(DekuRead, DekuWrite, Debug, Clone, PartialEq)]
 #[deku(ctx = "_opcode: OpCode")]
 pub struct TxStatusOperation {
-    #[deku(update = "self.status.deku_id().unwrap()", pad_bits_after = "6")]
+    #[deku(update = "self.status.deku_id().unwrap()")]
     status_type: TxStatusType,
 
     #[deku(writer = "_opcode.to_writer(deku::writer, ())")]
-- 
2.43.0


From 4c3101419d31a99a1b122d4e151c89fc03e5b3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:17 +0000
Subject: [PATCH 05/17] fix: pad the transport control field to a whole byte

---
 dash7/src/transport/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dash7/src/transport/mod.rs b/dash7/src/transport/mod.rs
index e278220..950ad87 100644
--- a/dash7/src/transport/mod.rs
+++ b/dash7/src/transport/mod.rs
@@ -35,7 +35,7 @@ pub struct Control {
     pub is_ack_not_void: bool,
     #[deku(bits = 1)]
     pub is_ack_record_requested: bool,
-    #[deku(bits = 1)]
+    #[deku(bits = 1, pad_bits_after = "1")]
     pub has_agc: bool,
 }
 
-- 
2.43.0


From fc3bc87fc660852ce2d14961947c73a3bcd7602e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:17 +0000
Subject: [PATCH 06/17] fix: keep the network control field at 8 bits with a 4
 bit NLS method

---
 dash7/src/network/network.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dash7/src/network/network.rs b/dash7/src/network/network.rs
index 67a00cd..0dbab19 100644
--- a/dash7/src/network/network.rs
+++ b/dash7/src/network/network.rs
@@ -13,7 +13,7 @@ pub struct Control {
 
     origin_address_type: AddressType,
 
-    #[deku(pad_bits_before = "1")]
+    #[cfg_attr(feature = "_wizzilab", deku(pad_bits_before = "1"))]
     nls_method: NlsMethod,
 }
 
-- 
2.43.0


From b937be8fbc2254f40392d9500efd99824f09a035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:29 +0000
Subject: [PATCH 07/17] fix: keep length prefixed payloads within their
 announced length

File data and interface statuses were decoded without looking at the length
in front of them, so a length that did not match made the decoder read into
the next action, or interpret the remainder as one. Parts of a system file
are kept as raw data; a status that does not fill its length is refused.
---
 dash7/src/app/interface_final.rs | 10 +++++-----
 dash7/src/app/operation/mod.rs   | 23 ++++++++++-------------
 dash7/src/utils.rs               | 25 +++++++++++++++++++++++++
 3 files changed, 40 insertions(+), 18 deletions(-)

diff --git a/dash7/src/app/interface_final.rs b/dash7/src/app/interface_final.rs
index 6c45ed1..b4ab99a 100644
--- a/dash7/src/app/interface_final.rs
+++ b/dash7/src/app/interface_final.rs
@@ -4,15 +4,15 @@ use deku::prelude::*;
 use super::action::OpCode;
 use super::operation::{Length, Status};
 use crate::session::{InterfaceFinalStatus, InterfaceTxStatus};
+use crate::utils::{from_exact_bytes, read_length_prefixed_bytes};
 
-fn read_length_prefixed<'a, R, T, L, C>(reader: &mut Reader<R>, ctx: C) -> Result<T, DekuError>
+fn read_length_prefixed<'a, R, T, C>(reader: &mut Reader<R>, ctx: C) -> Result<T, DekuError>
 where
-    T: DekuReader<'a, (C, L)>,
-    Length: Into<L>,
+    T: DekuReader<'a, (C, u32)>,
     R: Read + Seek,
 {
-    let length = <Length as DekuReader<'_, _>>::from_reader_with_ctx(reader, ())?;
-    T::from_reader_with_ctx(reader, (ctx, length.into()))
+    let data = read_length_prefixed_bytes(reader)?;
+    from_exact_bytes(&data, (ctx, data.len() as u32))
 }
 
 fn write_length_prefixed<W, T, C>(writer: &mut Writer<W>, item: &T, ctx: C) -> Result<(), DekuError>
diff --git a/dash7/src/app/operation/mod.rs b/dash7/src/app/operation/mod.rs
index dba834a..b60ac25 100644
--- a/dash7/src/app/operation/mod.rs
+++ b/dash7/src/app/operation/mod.rs
@@ -5,7 +5,7 @@ use super::{
     action::OpCode,
     interface::{IndirectInterface, InterfaceConfiguration},
 };
-use crate::utils::write_length_prefixed;
+use crate::utils::{from_exact_bytes, read_length_prefixed_bytes, write_length_prefixed};
 use crate::{data::FileHeader, file::File, session::InterfaceStatus};
 use crate::{session::InterfaceType, utils::write_length_prefixed_ext};
 
@@ -165,9 +165,14 @@ impl FileData {
     where
         R: no_std_io::Read + no_std_io::Seek,
     {
-        let length = <Length as DekuReader<'_, _>>::from_reader_with_ctx(reader, ())?;
+        let data = read_length_prefixed_bytes(reader)?;
         let file_id = offset.file_id.try_into()?;
-        File::from_reader_with_ctx(reader, (file_id, Into::<u32>::into(length)))
+
+        // The data may also be just a part of the file, which can not be interpreted any further
+        match from_exact_bytes(&data, (file_id, data.len() as u32)) {
+            Ok(file) => Ok(file),
+            Err(_) => Ok(File::Other(data)),
+        }
     }
 
     fn write<W>(writer: &mut Writer<W>, data: &File, offset: &FileOffset) -> Result<(), DekuError>
@@ -352,16 +357,8 @@ impl InterfaceStatusOperation {
     where
         R: no_std_io::Read + no_std_io::Seek,
     {
-        // Subiot v0.0 was missing the length field
-        #[allow(unused_assignments)]
-        let mut length = Length(0);
-
-        #[cfg(not(feature = "subiot_v0_0"))]
-        {
-            length = Length::from_reader_with_ctx(reader, ())?;
-        }
-
-        InterfaceStatus::from_reader_with_ctx(reader, (interface_type, length.into()))
+        let data = read_length_prefixed_bytes(reader)?;
+        from_exact_bytes(&data, (interface_type, data.len() as u32))
     }
 
     #[cfg(not(feature = "subiot_v0_0"))]
diff --git a/dash7/src/utils.rs b/dash7/src/utils.rs
index 4bb7a54..cd7fd25 100644
--- a/dash7/src/utils.rs
+++ b/dash7/src/utils.rs
@@ -76,6 +76,31 @@ where
     Ok((pad_rest(input, reader.bits_read), value))
 }
 
+/// Read a length prefix, and then exactly as many bytes as it announces
+pub fn read_length_prefixed_bytes<R>(reader: &mut Reader<R>) -> Result<Vec<u8>, DekuError>
+where
+    R: Read + Seek,
+{
+    let length = <Length as DekuReader<'_, _>>::from_reader_with_ctx(reader, ())?;
+    Vec::<u8>::from_reader_with_ctx(reader, Limit::new_byte_size(ByteSize(length.into())))
+}
+
+/// Decode an item that has to take up all of the given bytes
+pub fn from_exact_bytes<'a, T, Ctx>(bytes: &[u8], ctx: Ctx) -> Result<T, DekuError>
+where
+    T: DekuReader<'a, Ctx>,
+{
+    let mut cursor = Cursor::new(bytes);
+    let mut reader = Reader::new(&mut cursor);
+    let value = T::from_reader_with_ctx(&mut reader, ctx)?;
+    if !reader.end() {
+        return Err(DekuError::Parse(Cow::Borrowed(
+            "Length does not match the content",
+        )));
+    }
+    Ok(value)
+}
+
 pub fn write_length_prefixed<W, T, Ctx>(
     writer: &mut Writer<W>,
     item: &T,
-- 
2.43.0


From 4fb225138b48658a75a03c77d6bb6adaad95a887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:54 +0000
Subject: [PATCH 08/17] fix: do not allocate for announced bytes before they
 are read

A count of up to 2^30 taken from a few bytes of input made the decoder
reserve that much memory up front.
---
 dash7/src/app/query.rs               | 14 +++++++-------
 dash7/src/file/mod.rs                |  2 +-
 dash7/src/session/interface_final.rs |  4 ++--
 dash7/src/session/mod.rs             |  2 +-
 4 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/dash7/src/app/query.rs b/dash7/src/app/query.rs
index 7f84175..c064ddf 100644
--- a/dash7/src/app/query.rs
+++ b/dash7/src/app/query.rs
@@ -86,7 +86,7 @@ pub struct ComparisonWithZero {
     #[deku(update = "self.mask.len()")]
     length: Length,
 
-    #[deku(cond = "*mask_present", count = "length", endian = "big")]
+    #[deku(cond = "*mask_present", bytes_read = "length", endian = "big")]
     pub mask: Vec<u8>,
     pub file: FileOffset,
 }
@@ -114,10 +114,10 @@ pub struct ComparisonWithValue {
     #[deku(update = "self.value.len()")]
     length: Length,
 
-    #[deku(cond = "*mask_present", count = "length", endian = "big")]
+    #[deku(cond = "*mask_present", bytes_read = "length", endian = "big")]
     pub mask: Vec<u8>,
 
-    #[deku(count = "length", endian = "big")]
+    #[deku(bytes_read = "length", endian = "big")]
     pub value: Vec<u8>,
 
     pub file: FileOffset,
@@ -149,7 +149,7 @@ pub struct ComparisonWithOtherFile {
     pub params: ArithmeticQueryParams,
 
     pub length: Length,
-    #[deku(cond = "*mask_present", count = "length", endian = "big")]
+    #[deku(cond = "*mask_present", bytes_read = "length", endian = "big")]
     pub mask: Vec<u8>,
 
     pub file1: FileOffset,
@@ -189,7 +189,7 @@ pub struct BitmapRangeComparison {
     pub start: Length,
     pub stop: Length,
 
-    #[deku(count = "length", endian = "big")]
+    #[deku(bytes_read = "length", endian = "big")]
     pub mask: Vec<u8>,
     pub file: FileOffset,
 }
@@ -228,10 +228,10 @@ pub struct StringTokenSearch {
     #[deku(update = "self.value.len()")]
     pub length: Length,
 
-    #[deku(cond = "*mask_present", count = "length", endian = "big")]
+    #[deku(cond = "*mask_present", bytes_read = "length", endian = "big")]
     pub mask: Vec<u8>,
 
-    #[deku(count = "length", endian = "big")]
+    #[deku(bytes_read = "length", endian = "big")]
     pub value: Vec<u8>,
 
     pub file: FileOffset,
diff --git a/dash7/src/file/mod.rs b/dash7/src/file/mod.rs
index 23bee7a..a36f0fb 100644
--- a/dash7/src/file/mod.rs
+++ b/dash7/src/file/mod.rs
@@ -202,7 +202,7 @@ pub enum File {
     NwlSecurityKey(SecurityKey),
 
     #[deku(id_pat = "_")]
-    Other(#[deku(count = "length")] Vec<u8>),
+    Other(#[deku(bytes_read = "length")] Vec<u8>),
 }
 
 impl Default for File {
diff --git a/dash7/src/session/interface_final.rs b/dash7/src/session/interface_final.rs
index fd7d57f..2d972b2 100644
--- a/dash7/src/session/interface_final.rs
+++ b/dash7/src/session/interface_final.rs
@@ -9,7 +9,7 @@ pub enum InterfaceFinalStatus {
     Dash7(InterfaceFinalStatusCode),
 
     #[deku(id_pat = "_")]
-    Other(#[deku(count = "length")] Vec<u8>),
+    Other(#[deku(bytes_read = "length")] Vec<u8>),
 }
 
 #[derive(DekuRead, DekuWrite, Debug, Clone, PartialEq)]
@@ -70,7 +70,7 @@ pub enum InterfaceTxStatus {
     Dash7(Dash7InterfaceTxStatus),
 
     #[deku(id_pat = "_")]
-    Other(#[deku(count = "length")] Vec<u8>),
+    Other(#[deku(bytes_read = "length")] Vec<u8>),
 }
 
 #[derive(DekuRead, DekuWrite, Debug, Clone, PartialEq)]
diff --git a/dash7/src/session/mod.rs b/dash7/src/session/mod.rs
index 348b6f3..f618c67 100644
--- a/dash7/src/session/mod.rs
+++ b/dash7/src/session/mod.rs
@@ -160,7 +160,7 @@ pub enum InterfaceStatus {
     Dash7(Dash7InterfaceStatus),
 
     #[deku(id = "InterfaceType::Unknown")]
-    Other(#[deku(count = "length")] Vec<u8>),
+    Other(#[deku(bytes_read = "length")] Vec<u8>),
 }
 
 #[cfg(feature = "std")]
-- 
2.43.0


From 87b3b63fbf9cbbbef65b962cdb19703ae85ee105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:54 +0000
Subject: [PATCH 09/17] fix: drop the elements that were read when reading an
 array fails

The dropper advanced its base pointer along with its count, and so dropped
uninitialised elements and others past the end of the array.
---
 dash7/src/utils.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/dash7/src/utils.rs b/dash7/src/utils.rs
index cd7fd25..08ace84 100644
--- a/dash7/src/utils.rs
+++ b/dash7/src/utils.rs
@@ -209,7 +209,6 @@ where
     for i in 0..N {
         let value = <T as DekuReader<'_, _>>::from_reader_with_ctx(reader, ())?;
         data[i].write(value);
-        unsafe { transient_dropper.base_ptr = transient_dropper.base_ptr.add(1) };
         transient_dropper.initialized_count += 1;
     }
 
-- 
2.43.0


From 05356450703b752ef8261554565bb897c59dda32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:54 +0000
Subject: [PATCH 10/17] fix: treat the unknown error status as an error

---
 dash7/src/app/operation/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dash7/src/app/operation/mod.rs b/dash7/src/app/operation/mod.rs
index b60ac25..2f36dea 100644
--- a/dash7/src/app/operation/mod.rs
+++ b/dash7/src/app/operation/mod.rs
@@ -47,7 +47,7 @@ impl StatusCode {
 
 impl StatusCode {
     pub fn is_err(&self) -> bool {
-        *self > StatusCode(0x80)
+        *self >= StatusCode(0x80)
     }
 }
 
-- 
2.43.0


From e75179cdd3e94b3e10e0f0936d8c73f2e92b9a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:54 +0000
Subject: [PATCH 11/17] fix: report a mantissa that is too large as such

---
 dash7/src/types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dash7/src/types.rs b/dash7/src/types.rs
index d46fecc..f5b6f0b 100644
--- a/dash7/src/types.rs
+++ b/dash7/src/types.rs
@@ -76,7 +76,7 @@ impl VarInt {
         }
 
         if mantissa & 0b11100000 > 0 {
-            return Err(VarIntError::ExponentTooLarge(mantissa));
+            return Err(VarIntError::MantissaTooLarge(mantissa));
         }
 
         Ok(4u32.pow(exponent as u32) * mantissa as u32)
-- 
2.43.0


From 1e46847dcb319dffc04dded5a668a3c5e0ba57ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:54 +0000
Subject: [PATCH 12/17] fix: show the content of files of an unknown format

---
 dash7-cli/src/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dash7-cli/src/parse.rs b/dash7-cli/src/parse.rs
index fbe8d8b..cd37019 100644
--- a/dash7-cli/src/parse.rs
+++ b/dash7-cli/src/parse.rs
@@ -59,7 +59,7 @@ fn parse_serial(_input: &[u8]) -> Result<(), DekuError> {
 }
 
 fn parse_file(input: &[u8], file_id: FileId) -> Result<(), DekuError> {
-    let file = File::from_bytes((input, 0), file_id, 0)?;
+    let file = File::from_bytes((input, 0), file_id, input.len() as u32)?;
     println!("{:?}", file);
     Ok(())
 }
-- 
2.43.0


From 30fcae8bc3aa1444ba49b1a9ed68af873bd0e189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:46 +0000
Subject: [PATCH 13/17] fix: strip the padding of fixed length strings and cut
 them between characters

A name shorter than its field came back with zeros appended, and one that
is longer could be cut in the middle of a character and then not be read.
---
 dash7/src/utils.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/dash7/src/utils.rs b/dash7/src/utils.rs
index 08ace84..675f75b 100644
--- a/dash7/src/utils.rs
+++ b/dash7/src/utils.rs
@@ -164,7 +164,12 @@ pub fn read_string<R, const N: usize>(reader: &mut Reader<R>) -> Result<String,
 where
     R: Read + Seek,
 {
-    let value = Vec::<u8>::from_reader_with_ctx(reader, Limit::new_byte_size(ByteSize(N)))?;
+    let mut value = Vec::<u8>::from_reader_with_ctx(reader, Limit::new_byte_size(ByteSize(N)))?;
+
+    // shorter strings are padded with zeros
+    while value.last() == Some(&0) {
+        value.pop();
+    }
 
     String::from_utf8(value).map_err(|err| {
         DekuError::Parse(Cow::Owned(
@@ -180,7 +185,10 @@ where
 {
     let mut bytes = [0u8; N];
 
-    let max_index = cmp::min(value.len(), N);
+    let mut max_index = cmp::min(value.len(), N);
+    while !value.is_char_boundary(max_index) {
+        max_index -= 1;
+    }
     bytes[0..max_index].clone_from_slice(&value.as_bytes()[0..max_index]);
 
     DekuWriter::to_writer(&bytes.as_slice(), writer, ())
-- 
2.43.0


From 9d7fb88d45daa094ae8fe11db8f239b696b4d984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:17 +0000
Subject: [PATCH 14/17] fix: refuse to encode values that do not match their
 length field

A list of more than 255 channel statuses, keys of the wrong size and query
masks or values that disagree with the length were written as they are, and
could not be read back.
---
 dash7/src/app/interface.rs   | 10 +++----
 dash7/src/app/query.rs       | 51 +++++++++++++++++++++++++++++++-----
 dash7/src/file/phy_status.rs |  5 +++-
 3 files changed, 53 insertions(+), 13 deletions(-)

diff --git a/dash7/src/app/interface.rs b/dash7/src/app/interface.rs
index def32e8..83dd0ed 100644
--- a/dash7/src/app/interface.rs
+++ b/dash7/src/app/interface.rs
@@ -49,13 +49,13 @@ pub struct LoRaWANInterfaceConfiguration {
 pub struct LoRaWANOTAAInterfaceConfiguration {
     pub base: LoRaWANInterfaceConfiguration,
 
-    #[deku(count = "8")]
+    #[deku(count = "8", assert = "device_eui.len() == 8")]
     pub device_eui: Vec<u8>,
 
-    #[deku(count = "8")]
+    #[deku(count = "8", assert = "app_eui.len() == 8")]
     pub app_eui: Vec<u8>,
 
-    #[deku(count = "16")]
+    #[deku(count = "16", assert = "app_key.len() == 16")]
     pub app_key: Vec<u8>,
 }
 
@@ -63,10 +63,10 @@ pub struct LoRaWANOTAAInterfaceConfiguration {
 pub struct LoRaWANABPInterfaceConfiguration {
     pub base: LoRaWANInterfaceConfiguration,
 
-    #[deku(count = "16")]
+    #[deku(count = "16", assert = "network_session_key.len() == 16")]
     pub network_session_key: Vec<u8>,
 
-    #[deku(count = "16")]
+    #[deku(count = "16", assert = "app_session_key.len() == 16")]
     pub app_session_key: Vec<u8>,
 
     pub device_address: u32,
diff --git a/dash7/src/app/query.rs b/dash7/src/app/query.rs
index c064ddf..eb5bab7 100644
--- a/dash7/src/app/query.rs
+++ b/dash7/src/app/query.rs
@@ -2,6 +2,11 @@ use deku::prelude::*;
 
 use super::operation::{FileOffset, Length};
 
+/// Whether the bytes that go with a length field agree with it
+fn has_length(bytes: &[u8], present: bool, length: &Length) -> bool {
+    bytes.len() == if present { (*length).into() } else { 0 }
+}
+
 #[derive(DekuRead, DekuWrite, Default, Debug, Clone, PartialEq)]
 #[deku(bits = 3, id_type = "u8")]
 pub enum ArithmeticComparisonType {
@@ -86,7 +91,12 @@ pub struct ComparisonWithZero {
     #[deku(update = "self.mask.len()")]
     length: Length,
 
-    #[deku(cond = "*mask_present", bytes_read = "length", endian = "big")]
+    #[deku(
+        cond = "*mask_present",
+        bytes_read = "length",
+        endian = "big",
+        assert = "has_length(mask, *mask_present, length)"
+    )]
     pub mask: Vec<u8>,
     pub file: FileOffset,
 }
@@ -114,10 +124,19 @@ pub struct ComparisonWithValue {
     #[deku(update = "self.value.len()")]
     length: Length,
 
-    #[deku(cond = "*mask_present", bytes_read = "length", endian = "big")]
+    #[deku(
+        cond = "*mask_present",
+        bytes_read = "length",
+        endian = "big",
+        assert = "has_length(mask, *mask_present, length)"
+    )]
     pub mask: Vec<u8>,
 
-    #[deku(bytes_read = "length", endian = "big")]
+    #[deku(
+        bytes_read = "length",
+        endian = "big",
+        assert = "has_length(value, true, length)"
+    )]
     pub value: Vec<u8>,
 
     pub file: FileOffset,
@@ -149,7 +168,12 @@ pub struct ComparisonWithOtherFile {
     pub params: ArithmeticQueryParams,
 
     pub length: Length,
-    #[deku(cond = "*mask_present", bytes_read = "length", endian = "big")]
+    #[deku(
+        cond = "*mask_present",
+        bytes_read = "length",
+        endian = "big",
+        assert = "has_length(mask, *mask_present, length)"
+    )]
     pub mask: Vec<u8>,
 
     pub file1: FileOffset,
@@ -189,7 +213,11 @@ pub struct BitmapRangeComparison {
     pub start: Length,
     pub stop: Length,
 
-    #[deku(bytes_read = "length", endian = "big")]
+    #[deku(
+        bytes_read = "length",
+        endian = "big",
+        assert = "has_length(mask, true, length)"
+    )]
     pub mask: Vec<u8>,
     pub file: FileOffset,
 }
@@ -228,10 +256,19 @@ pub struct StringTokenSearch {
     #[deku(update = "self.value.len()")]
     pub length: Length,
 
-    #[deku(cond = "*mask_present", bytes_read = "length", endian = "big")]
+    #[deku(
+        cond = "*mask_present",
+        bytes_read = "length",
+        endian = "big",
+        assert = "has_length(mask, *mask_present, length)"
+    )]
     pub mask: Vec<u8>,
 
-    #[deku(bytes_read = "length", endian = "big")]
+    #[deku(
+        bytes_read = "length",
+        endian = "big",
+        assert = "has_length(value, true, length)"
+    )]
     pub value: Vec<u8>,
 
     pub file: FileOffset,
diff --git a/dash7/src/file/phy_status.rs b/dash7/src/file/phy_status.rs
index 1609071..6410b14 100644
--- a/dash7/src/file/phy_status.rs
+++ b/dash7/src/file/phy_status.rs
@@ -16,7 +16,10 @@ pub struct PhyStatus {
     #[deku(update = "self.channel_status.len()")]
     channel_status_list_length: u8,
 
-    #[deku(count = "*channel_status_list_length")]
+    #[deku(
+        count = "*channel_status_list_length",
+        assert = "channel_status.len() == *channel_status_list_length as usize"
+    )]
     pub channel_status: Vec<ChannelStatus>,
 }
 
-- 
2.43.0


From 095fcdf6b80ed9d6e05f23f8758cb69e0a915846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:53 +0000
Subject: [PATCH 15/17] fix: do not wrap lengths that exceed 32 bits

Length::from(1usize << 32) became 0 and was encoded as such.
---
 dash7/src/app/operation/length.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dash7/src/app/operation/length.rs b/dash7/src/app/operation/length.rs
index 29ca822..dbcc31b 100644
--- a/dash7/src/app/operation/length.rs
+++ b/dash7/src/app/operation/length.rs
@@ -33,7 +33,8 @@ impl Into<usize> for Length {
 
 impl From<usize> for Length {
     fn from(value: usize) -> Self {
-        Self(value as u32)
+        // anything above 30 bits is refused when encoding, so never wrap into the valid range
+        Self(u32::try_from(value).unwrap_or(u32::MAX))
     }
 }
 
-- 
2.43.0


From 2319bbcee42f49cd96fbacde8030aff882a4a296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:53 +0000
Subject: [PATCH 16/17] fix: recognise the end of the input after a multi byte
 length

A command ending in a length or offset of more than one byte was refused:
deku keeps an empty leftover after reading bits up to a byte boundary, and
Reader::end takes that for unread input.
---
 dash7/src/app/command.rs |  7 ++-----
 dash7/src/utils.rs       | 20 +++++++++++++++++++-
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/dash7/src/app/command.rs b/dash7/src/app/command.rs
index 19007f5..e5d1877 100644
--- a/dash7/src/app/command.rs
+++ b/dash7/src/app/command.rs
@@ -12,7 +12,7 @@ use deku::{
 
 use crate::{
     session::InterfaceStatus,
-    utils::{from_bytes, from_reader},
+    utils::{at_end, from_bytes, from_reader},
 };
 
 use super::{
@@ -55,12 +55,9 @@ impl<'a> DekuReader<'a, u32> for Command {
                 return Ok(command);
             }
 
-            // `end` counts the byte it peeks, although that byte is still to be read
-            let bits_read = reader.bits_read;
-            if reader.end() {
+            if at_end(reader) {
                 break;
             }
-            reader.bits_read = bits_read;
 
             let action = Action::from_reader_with_ctx(reader, ())?;
             command.actions.push(action);
diff --git a/dash7/src/utils.rs b/dash7/src/utils.rs
index 675f75b..918caf8 100644
--- a/dash7/src/utils.rs
+++ b/dash7/src/utils.rs
@@ -85,6 +85,24 @@ where
     Vec::<u8>::from_reader_with_ctx(reader, Limit::new_byte_size(ByteSize(length.into())))
 }
 
+/// Whether everything was read
+pub fn at_end<R>(reader: &mut Reader<R>) -> bool
+where
+    R: Read + Seek,
+{
+    // reading bits up to a byte boundary may leave empty leftovers behind, which `end` takes for
+    // unread input. Seeking clears them.
+    if reader.rest().is_empty() {
+        let _ = reader.seek_relative(0);
+    }
+
+    // `end` counts the byte it peeks, although that byte is still to be read
+    let bits_read = reader.bits_read;
+    let end = reader.end();
+    reader.bits_read = bits_read;
+    end
+}
+
 /// Decode an item that has to take up all of the given bytes
 pub fn from_exact_bytes<'a, T, Ctx>(bytes: &[u8], ctx: Ctx) -> Result<T, DekuError>
 where
@@ -93,7 +111,7 @@ where
     let mut cursor = Cursor::new(bytes);
     let mut reader = Reader::new(&mut cursor);
     let value = T::from_reader_with_ctx(&mut reader, ctx)?;
-    if !reader.end() {
+    if !at_end(&mut reader) {
         return Err(DekuError::Parse(Cow::Borrowed(
             "Length does not match the content",
         )));
-- 
2.43.0


From 7a6093df1cb47375bdbb26dd33e899197d785cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:15 +0000
Subject: [PATCH 17/17] fix: report a reader that fails between or inside
 actions

---
 dash7/src/app/action.rs  |  4 +++-
 dash7/src/app/command.rs |  2 +-
 dash7/src/utils.rs       | 33 ++++++++++++++++++++++-----------
 3 files changed, 26 insertions(+), 13 deletions(-)

diff --git a/dash7/src/app/action.rs b/dash7/src/app/action.rs
index 3efc12b..b59273f 100644
--- a/dash7/src/app/action.rs
+++ b/dash7/src/app/action.rs
@@ -168,7 +168,9 @@ impl<'a> DekuReader<'a, ()> for Action {
         let code = <OpCode as DekuReader<'_, _>>::from_reader_with_ctx(reader, ())?;
 
         // seek back to the beginning (1 byte)
-        let _ = reader.seek_relative(-1); // TODO process err
+        reader
+            .seek_relative(-1)
+            .map_err(|err| DekuError::Io(err.kind()))?;
 
         // the peeked byte will be read again, so it must not be counted twice
         reader.bits_read -= 8;
diff --git a/dash7/src/app/command.rs b/dash7/src/app/command.rs
index e5d1877..736bf03 100644
--- a/dash7/src/app/command.rs
+++ b/dash7/src/app/command.rs
@@ -55,7 +55,7 @@ impl<'a> DekuReader<'a, u32> for Command {
                 return Ok(command);
             }
 
-            if at_end(reader) {
+            if at_end(reader)? {
                 break;
             }
 
diff --git a/dash7/src/utils.rs b/dash7/src/utils.rs
index 918caf8..75644c3 100644
--- a/dash7/src/utils.rs
+++ b/dash7/src/utils.rs
@@ -86,21 +86,32 @@ where
 }
 
 /// Whether everything was read
-pub fn at_end<R>(reader: &mut Reader<R>) -> bool
+pub fn at_end<R>(reader: &mut Reader<R>) -> Result<bool, DekuError>
 where
     R: Read + Seek,
 {
-    // reading bits up to a byte boundary may leave empty leftovers behind, which `end` takes for
-    // unread input. Seeking clears them.
-    if reader.rest().is_empty() {
-        let _ = reader.seek_relative(0);
+    // reading bits up to a byte boundary may leave empty leftovers behind
+    if !reader.rest().is_empty() {
+        return Ok(false);
     }
-
-    // `end` counts the byte it peeks, although that byte is still to be read
+    // `Reader::end` takes a failing reader for one that has a byte left, so have a look at the
+    // next byte here. Seeking clears the leftovers, and goes back to that byte.
+    let seek = |reader: &mut Reader<R>, offset| {
+        reader
+            .seek_relative(offset)
+            .map_err(|err| DekuError::Io(err.kind()))
+    };
+    seek(reader, 0)?;
     let bits_read = reader.bits_read;
-    let end = reader.end();
-    reader.bits_read = bits_read;
-    end
+    match reader.read_bytes(1, &mut [0]) {
+        Ok(_) => {
+            reader.bits_read = bits_read;
+            seek(reader, -1)?;
+            Ok(false)
+        }
+        Err(DekuError::Incomplete(_)) => Ok(true),
+        Err(err) => Err(err),
+    }
 }
 
 /// Decode an item that has to take up all of the given bytes
@@ -111,7 +122,7 @@ where
     let mut cursor = Cursor::new(bytes);
     let mut reader = Reader::new(&mut cursor);
     let value = T::from_reader_with_ctx(&mut reader, ctx)?;
-    if !at_end(&mut reader) {
+    if !at_end(&mut reader)? {
         return Err(DekuError::Parse(Cow::Borrowed(
             "Length does not match the content",
         )));
-- 
2.43.0

