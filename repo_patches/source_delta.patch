From 2f9fd29648da64c754fd8e83b5544cb5c10c5751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:35 +0000
Subject: [PATCH 01/29] fix: report truncated bencode as an error instead of
 panicking

Reading past the end of the input (missing terminator, string length
beyond the input, length that overflows) indexed out of bounds.
---
 src/bencode/decode.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/bencode/decode.rs b/src/bencode/decode.rs
index be59059..d030933 100644
--- a/src/bencode/decode.rs
+++ b/src/bencode/decode.rs
@@ -20,6 +20,8 @@ pub enum DecoderError {
     NoStringFound(usize),
     #[error("Bad string from bytes conversion at position: {0}")]
     BadStringFromBytes(usize),
+    #[error("Unexpected end of input at position: {0}")]
+    UnexpectedEnd(usize),
 }
 
 impl Decoder {
@@ -35,13 +37,16 @@ impl Decoder {
         self.current
     }
 
-    fn get_current_byte(&self) -> u8 {
-        self.contents[self.current]
+    fn get_current_byte(&self) -> Result<u8, DecoderError> {
+        self.contents
+            .get(self.current)
+            .copied()
+            .ok_or(DecoderError::UnexpectedEnd(self.current))
     }
 
     fn get_consecutive_digits(&mut self) -> Result<usize, DecoderError> {
         let start = self.current;
-        while self.get_current_byte().is_ascii_digit() {
+        while self.get_current_byte()?.is_ascii_digit() {
             self.advance();
         }
         let end = self.current;
@@ -85,8 +90,13 @@ impl Decoder {
         // TODO: Mettere check semicolon
         self.advance();
 
-        let b = &self.contents[self.current..self.current + integer];
-        self.current += integer;
+        let end = self
+            .current
+            .checked_add(integer)
+            .filter(|end| *end <= self.contents.len())
+            .ok_or(DecoderError::UnexpectedEnd(self.contents.len()))?;
+        let b = &self.contents[self.current..end];
+        self.current = end;
         Ok(Metainfo::String(b.to_vec()))
     }
 
@@ -94,7 +104,7 @@ impl Decoder {
         self.advance();
         let mut list: Vec<Metainfo> = Vec::new();
 
-        while self.get_current_byte() != b'e' {
+        while self.get_current_byte()? != b'e' {
             list.push(self.decode()?);
         }
 
@@ -106,7 +116,7 @@ impl Decoder {
         self.advance();
 
         let mut dictionary = HashMap::new();
-        while self.get_current_byte() != b'e' {
+        while self.get_current_byte()? != b'e' {
             let key = if let Metainfo::String(raw_key) = self.parse_string()? {
                 str::from_utf8(&raw_key)
                     .map_err(|_| DecoderError::BadStringFromBytes(self.current))?
-- 
2.43.0


From 0144b0a54e1b63a7cb1f6863063f5d47c332e9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:35 +0000
Subject: [PATCH 02/29] fix: decode empty bencode strings

"0:" was not recognised as a string: it decoded to nothing, and inside a
list or dictionary it broke the rest of the document.
---
 src/bencode/decode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bencode/decode.rs b/src/bencode/decode.rs
index d030933..227b835 100644
--- a/src/bencode/decode.rs
+++ b/src/bencode/decode.rs
@@ -138,7 +138,7 @@ impl Decoder {
             Some(b'i') => self.parse_integer()?,
             Some(b'l') => self.parse_list()?,
             Some(b'd') => self.parse_dictionary()?,
-            Some(b'1'..=b'9') => self.parse_string()?,
+            Some(b'0'..=b'9') => self.parse_string()?,
             Some(_) => Metainfo::Nothing(),
         };
 
-- 
2.43.0


From e48c65cd96367d810cef19698b5d03908378bb55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:35 +0000
Subject: [PATCH 03/29] fix: stop at bytes that start no value inside bencode
 lists

A byte that starts no value decoded to nothing without being consumed,
so a list containing one was filled with nothings until memory ran out.
---
 src/bencode/decode.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/bencode/decode.rs b/src/bencode/decode.rs
index 227b835..02d8be5 100644
--- a/src/bencode/decode.rs
+++ b/src/bencode/decode.rs
@@ -22,6 +22,8 @@ pub enum DecoderError {
     BadStringFromBytes(usize),
     #[error("Unexpected end of input at position: {0}")]
     UnexpectedEnd(usize),
+    #[error("Unexpected byte at position: {0}")]
+    UnexpectedByte(usize),
 }
 
 impl Decoder {
@@ -105,7 +107,7 @@ impl Decoder {
         let mut list: Vec<Metainfo> = Vec::new();
 
         while self.get_current_byte()? != b'e' {
-            list.push(self.decode()?);
+            list.push(self.decode_nested()?);
         }
 
         self.advance();
@@ -124,7 +126,7 @@ impl Decoder {
             } else {
                 return Err(DecoderError::NoStringFound(self.current));
             };
-            let value = self.decode()?;
+            let value = self.decode_nested()?;
             dictionary.insert(key, value);
         }
 
@@ -132,6 +134,14 @@ impl Decoder {
         Ok(Metainfo::Dictionary(dictionary))
     }
 
+    // Inside a list or a dictionary there must be a value to decode.
+    fn decode_nested(&mut self) -> Result<Metainfo, DecoderError> {
+        match self.decode()? {
+            Metainfo::Nothing() => Err(DecoderError::UnexpectedByte(self.current)),
+            value => Ok(value),
+        }
+    }
+
     pub fn decode(&mut self) -> Result<Metainfo, DecoderError> {
         let result = match self.contents.get(self.current) {
             None => Metainfo::Nothing(),
-- 
2.43.0


From 22bbadcdfd1eb6050fda67f053929e61b5a2f54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:35 +0000
Subject: [PATCH 04/29] fix: require the terminator of bencode integers and
 string lengths

Any byte was accepted in place of the 'e' after an integer and of the
':' after a string length.
---
 src/bencode/decode.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/bencode/decode.rs b/src/bencode/decode.rs
index 02d8be5..e1da233 100644
--- a/src/bencode/decode.rs
+++ b/src/bencode/decode.rs
@@ -80,17 +80,19 @@ impl Decoder {
         self.advance();
         let integer: usize = self.get_consecutive_digits()?;
 
-        match self.contents.get(self.current) {
-            Some(b'e') => self.advance(),
-            _ => self.advance(),
+        match self.get_current_byte()? {
+            b'e' => self.advance(),
+            _ => return Err(DecoderError::UnexpectedByte(self.current)),
         };
         Ok(Metainfo::Integer(integer))
     }
 
     fn parse_string(&mut self) -> Result<Metainfo, DecoderError> {
         let integer = self.get_consecutive_digits()?;
-        // TODO: Mettere check semicolon
-        self.advance();
+        match self.get_current_byte()? {
+            b':' => self.advance(),
+            _ => return Err(DecoderError::UnexpectedByte(self.current)),
+        };
 
         let end = self
             .current
-- 
2.43.0


From cc9a6fb8b4ce6f46bd996bfc25e92ab3bb478b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:35 +0000
Subject: [PATCH 05/29] fix: bound the nesting depth of decoded bencode

The decoder recursed once per nesting level of its input, so a few ten
thousand bytes from a peer or tracker could overflow the stack.
---
 src/bencode/decode.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/bencode/decode.rs b/src/bencode/decode.rs
index e1da233..4b80b1b 100644
--- a/src/bencode/decode.rs
+++ b/src/bencode/decode.rs
@@ -5,8 +5,12 @@ use log::error;
 
 use crate::bencode::metainfo::Metainfo;
 
+// Deepest nesting of lists and dictionaries that is accepted.
+const MAX_DEPTH: usize = 256;
+
 pub struct Decoder {
     current: usize,
+    depth: usize,
     contents: Vec<u8>,
 }
 
@@ -24,12 +28,15 @@ pub enum DecoderError {
     UnexpectedEnd(usize),
     #[error("Unexpected byte at position: {0}")]
     UnexpectedByte(usize),
+    #[error("Too many nested levels at position: {0}")]
+    TooDeep(usize),
 }
 
 impl Decoder {
     pub fn init(source: Vec<u8>) -> Decoder {
         Decoder {
             current: 0,
+            depth: 0,
             contents: source,
         }
     }
@@ -138,7 +145,15 @@ impl Decoder {
 
     // Inside a list or a dictionary there must be a value to decode.
     fn decode_nested(&mut self) -> Result<Metainfo, DecoderError> {
-        match self.decode()? {
+        if self.depth == MAX_DEPTH {
+            return Err(DecoderError::TooDeep(self.current));
+        }
+
+        self.depth += 1;
+        let value = self.decode();
+        self.depth -= 1;
+
+        match value? {
             Metainfo::Nothing() => Err(DecoderError::UnexpectedByte(self.current)),
             value => Ok(value),
         }
-- 
2.43.0


From 4db8a599547a13e2763726082c3b31753618e69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:41 +0000
Subject: [PATCH 06/29] fix: count bytes, not characters, in encoded bencode
 strings

---
 src/bencode/encode.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/bencode/encode.rs b/src/bencode/encode.rs
index 4ad8eb4..89e741c 100644
--- a/src/bencode/encode.rs
+++ b/src/bencode/encode.rs
@@ -6,17 +6,13 @@ pub trait Encode {
 
 impl Encode for String {
     fn encode(&self) -> Vec<u8> {
-        format!("{}:{}", self.chars().count(), self)
-            .as_bytes()
-            .to_vec()
+        format!("{}:{}", self.len(), self).as_bytes().to_vec()
     }
 }
 
 impl Encode for &str {
     fn encode(&self) -> Vec<u8> {
-        format!("{}:{}", self.chars().count(), self)
-            .as_bytes()
-            .to_vec()
+        format!("{}:{}", self.len(), self).as_bytes().to_vec()
     }
 }
 
-- 
2.43.0


From c7b13855b6dc47eb625ac4169e08d945ee6bc8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:54 +0000
Subject: [PATCH 07/29] fix: find the info hash of a magnet link wherever it
 stands and check its digits

---
 src/torrent/magnet.rs | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/torrent/magnet.rs b/src/torrent/magnet.rs
index da681f5..30bfbd8 100644
--- a/src/torrent/magnet.rs
+++ b/src/torrent/magnet.rs
@@ -15,9 +15,8 @@ impl Magnet {
     }
 }
 
-fn verify_info_hash(magnet_uri: &[u8]) -> bool {
-    magnet_uri.len() < 60 || &magnet_uri[..8] != "magnet:?".as_bytes()
-}
+const MAGNET_SCHEME: &[u8] = "magnet:?".as_bytes();
+const INFO_HASH_PREFIX: &[u8] = "xt=urn:btih:".as_bytes();
 
 // Given a string representation of an hex character we obtain the hex byte representation.
 // The hex character A is converted to ascii decimal 65 that correspond to hex decimal
@@ -48,20 +47,27 @@ fn hex_decode(info_hash_hex_encoded: &[u8]) -> Vec<u8> {
         .collect::<Vec<u8>>()
 }
 
-fn parse_info_hash(magnet_uri: &[u8]) -> Vec<u8> {
-    if magnet_uri[60] == b'&' {
-        hex_decode(&magnet_uri[20..60])
-    } else {
-        magnet_uri[20..52].to_vec()
-    }
+fn is_base32_digit(byte: &u8) -> bool {
+    byte.is_ascii_alphabetic() || (b'2'..=b'7').contains(byte)
 }
 
-pub fn parse_magnet(magnet_uri: Vec<u8>) -> Result<Magnet, MagnetError> {
-    if verify_info_hash(&magnet_uri) {
-        return Err(MagnetError::NoMagnet());
+// The info hash is either made of 40 hex digits or of 32 base32 digits.
+fn parse_info_hash(info_hash: &[u8]) -> Option<Vec<u8>> {
+    match info_hash.len() {
+        40 if info_hash.iter().all(u8::is_ascii_hexdigit) => Some(hex_decode(info_hash)),
+        32 if info_hash.iter().all(is_base32_digit) => Some(info_hash.to_vec()),
+        _ => None,
     }
+}
 
-    let info_hash = parse_info_hash(&magnet_uri);
+pub fn parse_magnet(magnet_uri: Vec<u8>) -> Result<Magnet, MagnetError> {
+    let info_hash = magnet_uri
+        .strip_prefix(MAGNET_SCHEME)
+        .ok_or(MagnetError::NoMagnet())?
+        .split(|byte| *byte == b'&')
+        .find_map(|parameter| parameter.strip_prefix(INFO_HASH_PREFIX))
+        .and_then(parse_info_hash)
+        .ok_or(MagnetError::NoMagnet())?;
 
     Ok(Magnet { info_hash })
 }
-- 
2.43.0


From 731728a427c73bca6c756fd6373a757dac42bf20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:54 +0000
Subject: [PATCH 08/29] fix: answer 400 to a request without a usable magnet
 link

---
 src/main.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 89febf3..c0f625a 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -24,7 +24,10 @@ use crate::actors::torrent::TorrentActor;
 
 #[post("/add/magnet")]
 async fn add_magnet(data: web::Data<AppState>, magnet_raw: String) -> HttpResponse {
-    let magnet = magnet::parse_magnet(magnet_raw.as_bytes().to_vec()).unwrap();
+    let magnet = match magnet::parse_magnet(magnet_raw.as_bytes().to_vec()) {
+        Ok(magnet) => magnet,
+        Err(err) => return HttpResponse::BadRequest().body(err.to_string()),
+    };
     let info_hash = magnet.get_info_hash();
 
     let addr = TorrentActor::new(info_hash.clone()).start();
-- 
2.43.0


From 81abec4fb104c36a1af9499de419e0f68fe4b27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:40 +0000
Subject: [PATCH 09/29] fix: read whole frames from a peer, however they are
 cut into segments

---
 src/peer/stream.rs | 84 ++++++++++++++++++++++++++++------------------
 1 file changed, 51 insertions(+), 33 deletions(-)

diff --git a/src/peer/stream.rs b/src/peer/stream.rs
index cf64c2d..d502012 100644
--- a/src/peer/stream.rs
+++ b/src/peer/stream.rs
@@ -2,12 +2,14 @@ use std::io;
 use std::io::prelude::*;
 use std::net::TcpStream;
 use std::time::Duration;
-use std::{thread, time, vec};
+use std::{cmp, thread, time, vec};
 
 use log::error;
 
 use crate::common::mock_stream::MockStream;
 
+const CHUNK_SIZE: usize = 16384;
+
 #[derive(Debug)]
 pub enum StreamInterface {
     #[allow(dead_code)]
@@ -96,6 +98,47 @@ fn peek_and_read(stream: &mut StreamInterface, body: &mut [u8], length: usize) -
     stream.peek(body).unwrap_or(0) == length && stream.read(body).unwrap_or(0) == length
 }
 
+// Waits until all the bytes have arrived. Memory is claimed as they do, since a peer can announce any length.
+fn read_bytes(stream: &mut StreamInterface, length: usize) -> io::Result<Vec<u8>> {
+    let mut bytes = vec![];
+    let mut retry = 1;
+
+    while bytes.len() < length {
+        let chunk_length = cmp::min(length - bytes.len(), CHUNK_SIZE);
+        let mut chunk = vec![0; chunk_length];
+
+        if peek_and_read(stream, &mut chunk, chunk_length) {
+            bytes.append(&mut chunk);
+        } else if retry < 40 {
+            thread::sleep(time::Duration::from_millis(5 * retry));
+            retry += 1;
+        } else {
+            return Err(io::ErrorKind::TimedOut.into());
+        }
+    }
+    Ok(bytes)
+}
+
+// A keep alive is a frame without a message.
+fn read_frame(stream: &mut StreamInterface) -> io::Result<Option<(Vec<u8>, u8, u32)>> {
+    let mut prefix = [0x00; 4];
+    prefix.copy_from_slice(&read_bytes(stream, 4)?);
+
+    if prefix[0] == 0x13 {
+        let handshake = [prefix.to_vec(), read_bytes(stream, 64)?].concat();
+        return Ok(Some((handshake, 19, 68)));
+    }
+
+    let length = u32::from_be_bytes(prefix);
+    if length == 0 {
+        return Ok(None);
+    }
+
+    let id = read_bytes(stream, 1)?[0];
+    let body = read_bytes(stream, length as usize - 1)?;
+    Ok(Some((body, id, length - 1)))
+}
+
 // Here we should try to return a Result to signal the presence of errors
 pub fn read_stream(stream: &mut StreamInterface) -> Option<(Vec<u8>, u8, u32)> {
     if stream
@@ -109,40 +152,15 @@ pub fn read_stream(stream: &mut StreamInterface) -> Option<(Vec<u8>, u8, u32)> {
         return None;
     }
 
-    let mut buffer: [u8; 68] = [0x00; 68];
-    if stream.peek(&mut buffer).ok() == Some(68) && buffer[0] == 0x13 {
-        if stream.read(&mut buffer).is_err() {
-            return None;
-        }
-        return Some((buffer.to_vec(), 19, 68));
-    }
-
-    let mut buffer: [u8; 4] = [0x00; 4];
-    if stream.read(&mut buffer).is_err() {
-        return None;
-    }
-    let mut length = u32::from_be_bytes(buffer);
-
-    let mut buffer: [u8; 1] = [0x00; 1];
-    if stream.read(&mut buffer).is_err() {
-        return None;
-    }
-    let id = buffer[0];
-
-    if length == 0 {
-        return Some((vec![], id, 0));
-    } else {
-        length -= 1
-    }
-
-    let mut body = vec![0; length as usize];
-    for retry in 1..40 {
-        if peek_and_read(stream, &mut body, length as usize) {
-            return Some((body, id, length));
+    match read_frame(stream) {
+        Ok(message) => message,
+        Err(err) => {
+            // What follows half of a message can't be told apart from it anymore
+            error!("Error {:?} in reading message", err);
+            *stream = StreamInterface::Nothing();
+            None
         }
-        thread::sleep(time::Duration::from_millis(5 * retry));
     }
-    None
 }
 
 pub fn write_stream(stream: &mut StreamInterface, buffer: &[u8]) {
-- 
2.43.0


From dfbcc36b51b1ae1e5ff2c4e32efcf6ba8a2f0faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:42 +0000
Subject: [PATCH 10/29] fix: refuse peer messages that are too short for their
 type

---
 src/messages/mod.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/messages/mod.rs b/src/messages/mod.rs
index 8f21009..148019e 100644
--- a/src/messages/mod.rs
+++ b/src/messages/mod.rs
@@ -34,6 +34,16 @@ impl Message {
     // TODO: Maybe we could promote body to use a ContentType as parameter type, even though this function is used
     // during the read of a message.
     pub fn new_raw(body: Vec<u8>, length: u32, id: u8) -> Result<Message, &'static str> {
+        let minimum_length = match id {
+            7 | 6 => 8,
+            20 => 1,
+            19 => 68,
+            _ => 0,
+        };
+        if body.len() < minimum_length {
+            return Err("Message body too short");
+        }
+
         let content = match id {
             2 => ContentType::Interested(InterestedMessage::from_bytes()),
             5 => ContentType::Bitfield(BitfieldMessage::from_bytes(&body)),
-- 
2.43.0


From 3ca5ba738f931435578073161c7be5b84d42c8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:10 +0000
Subject: [PATCH 11/29] fix: survive peers that do not announce ut_metadata

---
 src/peer/download/info.rs | 3 +++
 src/peer/mod.rs           | 3 ++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/peer/download/info.rs b/src/peer/download/info.rs
index 37b58bb..1d7d6a7 100644
--- a/src/peer/download/info.rs
+++ b/src/peer/download/info.rs
@@ -6,6 +6,9 @@ use crate::{
 pub fn next_piece() -> impl FnMut(&mut Peer, usize) {
     |peer: &mut Peer, piece_index| {
         let metadata_id = peer.get_extension_id_by_name("ut_metadata");
+        if metadata_id == 0 {
+            return;
+        }
         peer.send_message(new_metadata(metadata_id, piece_index))
     }
 }
diff --git a/src/peer/mod.rs b/src/peer/mod.rs
index 98a032e..18ba883 100644
--- a/src/peer/mod.rs
+++ b/src/peer/mod.rs
@@ -69,8 +69,9 @@ impl Peer {
         self.metadata_size
     }
 
+    // As in an extension handshake, the id 0 stands for an extension that is not supported.
     pub fn get_extension_id_by_name(&self, name: &str) -> u8 {
-        *self.extensions.get(name).unwrap()
+        self.extensions.get(name).copied().unwrap_or(0)
     }
 
     fn apply_message(&mut self, message: &Message) {
-- 
2.43.0


From 7cda41e857e274751c1d073174dab9dc60a42785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:50 +0000
Subject: [PATCH 12/29] fix: verify downloaded metadata against the info hash

---
 src/peer/manager.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/peer/manager.rs b/src/peer/manager.rs
index 6a251be..90248cc 100644
--- a/src/peer/manager.rs
+++ b/src/peer/manager.rs
@@ -1,4 +1,5 @@
 use log::{debug, error, info};
+use sha1::{Digest, Sha1};
 
 use crate::messages::{new_handshake, new_interested};
 use crate::peer::Peer;
@@ -19,6 +20,8 @@ pub enum PeerManagerError {
     PieceDownloadFailure(String),
     #[error("Unsuccessfull piece verification")]
     PieceVerificationFailure(),
+    #[error("Unsuccessfull info verification")]
+    InfoVerificationFailure(),
     #[error(transparent)]
     Stream(#[from] StreamError),
     #[error(transparent)]
@@ -34,6 +37,10 @@ pub fn get_info(info_hash: &[u8], endpoint: &str) -> Result<Info, PeerManagerErr
     init_peer(&mut peer)?;
     let info = Downloadable::Info.download(&mut peer)?;
 
+    if Sha1::digest(&info).as_slice() != info_hash {
+        return Err(PeerManagerError::InfoVerificationFailure());
+    }
+
     let info = Info::from_bytes(info)?;
     Ok(info)
 }
-- 
2.43.0


From 4b716171bb136e8ddf8977fc344caf65335e7e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:04 +0000
Subject: [PATCH 13/29] fix: end block requests at the end of the piece

---
 src/peer/download/block.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/peer/download/block.rs b/src/peer/download/block.rs
index ccab021..b0e87f6 100644
--- a/src/peer/download/block.rs
+++ b/src/peer/download/block.rs
@@ -15,7 +15,7 @@ pub fn next_block(
         let block_offset = block_index * block_size;
         let block_length = get_block_size(
             block_offset,
-            total_length,
+            cmp::min(total_length, (piece_index + 1) * piece_length),
             piece_index * piece_length,
             block_size,
         );
@@ -33,9 +33,9 @@ pub fn message_filter() -> fn(&Message) -> bool {
 
 fn get_block_size(
     block_offset: usize,
-    torrent_length: usize,
+    piece_end: usize,
     piece_offset: usize,
     block_size: usize,
 ) -> usize {
-    cmp::min(torrent_length - (block_offset + piece_offset), block_size)
+    cmp::min(piece_end - (block_offset + piece_offset), block_size)
 }
-- 
2.43.0


From c7822823c77a78235a8192588df5e8550699397f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:44 +0000
Subject: [PATCH 14/29] fix: identify downloads by the requested info hash

---
 src/actors/connection.rs | 7 ++++++-
 src/actors/messages.rs   | 1 +
 src/actors/torrent.rs    | 3 +++
 src/peer/manager.rs      | 3 ++-
 src/torrent/info.rs      | 1 +
 5 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/actors/connection.rs b/src/actors/connection.rs
index 23ecc05..7d2bcef 100644
--- a/src/actors/connection.rs
+++ b/src/actors/connection.rs
@@ -22,7 +22,12 @@ impl Handler<PieceRequested> for ConnectionActor {
     type Result = Result<bool, std::io::Error>;
 
     fn handle(&mut self, msg: PieceRequested, _ctx: &mut Self::Context) -> Self::Result {
-        match download(msg.endpoint.clone(), &msg.info, msg.piece_idx) {
+        match download(
+            msg.endpoint.clone(),
+            &msg.info_hash,
+            &msg.info,
+            msg.piece_idx,
+        ) {
             Ok(piece) => {
                 msg.torrent_actor.do_send(PieceDownloadSuccessfull {
                     endpoint: msg.endpoint.clone(),
diff --git a/src/actors/messages.rs b/src/actors/messages.rs
index 67f2a35..7b934dc 100644
--- a/src/actors/messages.rs
+++ b/src/actors/messages.rs
@@ -53,6 +53,7 @@ pub struct PieceReady {
 #[rtype(result = "Result<bool, std::io::Error>")]
 pub struct PieceRequested {
     pub endpoint: String,
+    pub info_hash: Vec<u8>,
     pub info: Info,
     pub piece_idx: usize,
     pub torrent_actor: Addr<TorrentActor>,
diff --git a/src/actors/torrent.rs b/src/actors/torrent.rs
index 9100ec4..902e159 100644
--- a/src/actors/torrent.rs
+++ b/src/actors/torrent.rs
@@ -70,6 +70,7 @@ impl Handler<PieceDownloadSuccessfull> for TorrentActor {
         if let Some(piece_idx) = self.piece_available_pool.as_mut().unwrap().pop() {
             let msg = PieceRequested {
                 piece_idx,
+                info_hash: self.info_hash.to_vec(),
                 info: self.info.as_ref().unwrap().clone(),
                 endpoint,
                 torrent_actor: ctx.address(),
@@ -98,6 +99,7 @@ impl Handler<PieceDownloadFailed> for TorrentActor {
         if let Some(piece_idx) = self.piece_available_pool.as_mut().unwrap().pop() {
             let msg = PieceRequested {
                 piece_idx,
+                info_hash: self.info_hash.to_vec(),
                 info: self.info.as_ref().unwrap().clone(),
                 endpoint,
                 torrent_actor: ctx.address(),
@@ -136,6 +138,7 @@ impl Handler<PeerFound> for TorrentActor {
                         if let Some(piece_idx) = self.piece_available_pool.as_mut().unwrap().pop() {
                             let msg = PieceRequested {
                                 piece_idx,
+                                info_hash: self.info_hash.to_vec(),
                                 info: info.clone(),
                                 endpoint,
                                 torrent_actor: ctx.address(),
diff --git a/src/peer/manager.rs b/src/peer/manager.rs
index 90248cc..4ebe458 100644
--- a/src/peer/manager.rs
+++ b/src/peer/manager.rs
@@ -63,11 +63,12 @@ impl Context {
 
 pub fn download(
     endpoint: String,
+    info_hash: &[u8],
     info: &Info,
     piece_idx: usize,
 ) -> Result<Vec<u8>, PeerManagerError> {
     let stream = StreamInterface::connect(&endpoint, false)?;
-    let mut peer = Peer::new(stream, &info.compute_info_hash());
+    let mut peer = Peer::new(stream, info_hash);
     init_peer(&mut peer)?;
 
     let piece_length = info.get_piece_length();
diff --git a/src/torrent/info.rs b/src/torrent/info.rs
index 9e9c3a3..704a8dc 100644
--- a/src/torrent/info.rs
+++ b/src/torrent/info.rs
@@ -122,6 +122,7 @@ impl Info {
         }
     }
 
+    #[allow(dead_code)]
     pub fn compute_info_hash(&self) -> Vec<u8> {
         Sha1::digest(self.encode()).as_slice().to_owned()
     }
-- 
2.43.0


From 0425e4e43c92d9753d27cac66eead95a2e585452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:37 +0000
Subject: [PATCH 15/29] fix: refuse metadata that does not describe a download

---
 src/torrent/info.rs | 52 ++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 44 insertions(+), 8 deletions(-)

diff --git a/src/torrent/info.rs b/src/torrent/info.rs
index 704a8dc..b4a1bac 100644
--- a/src/torrent/info.rs
+++ b/src/torrent/info.rs
@@ -8,7 +8,7 @@ use log::{error, info};
 use crate::bencode::decode::{Decoder, DecoderError};
 use crate::bencode::encode::{encode_dict_entry, Encode};
 use crate::bencode::metainfo::{Metainfo, MetainfoError};
-use crate::torrent::file::File;
+use crate::torrent::file::{File, FileError};
 
 #[derive(Clone, Debug, Deserialize, Eq, PartialEq, Serialize)]
 pub struct Info {
@@ -25,6 +25,10 @@ pub enum InfoError {
     MetainfoError(#[from] MetainfoError),
     #[error("Error during metainfo decoding")]
     DecoderError(#[from] DecoderError),
+    #[error("Error handling file")]
+    FileError(#[from] FileError),
+    #[error("Piece hashes do not match the files")]
+    BadLayout(),
     #[error("No file length specified")]
     NoFileLenght(),
     #[error("No info file found at {0}")]
@@ -41,20 +45,52 @@ impl Info {
         let pieces = a.get_bytes_from_dict("pieces")?;
         let piece_length = a.get_integer_from_dict("piece length")?;
         let name = a.get_string_from_dict("name")?;
-        let length = a.get_integer_from_dict("length").ok();
 
-        let files = a
-            .get_list_from_dict("files")
-            .ok()
-            .map(|elements| elements.iter().flat_map(File::from_metainfo).collect());
+        let length = match a.get_value_from_dict("length") {
+            Ok(length) => Some(length.get_integer_content()?),
+            Err(_) => None,
+        };
+
+        let files = match a.get_value_from_dict("files") {
+            Ok(files) => Some(
+                files
+                    .get_list_content()?
+                    .iter()
+                    .map(File::from_metainfo)
+                    .collect::<Result<Vec<File>, FileError>>()?,
+            ),
+            Err(_) => None,
+        };
 
-        Ok(Info {
+        let info = Info {
             name,
             pieces: pieces.to_vec(),
             piece_length,
             files,
             length,
-        })
+        };
+        info.verify_layout()?;
+
+        Ok(info)
+    }
+
+    // The hashes must be those of the pieces that the files are made of.
+    fn verify_layout(&self) -> Result<(), InfoError> {
+        let total_length = self
+            .get_files()?
+            .iter()
+            .try_fold(0_usize, |total, file| total.checked_add(file.get_length()))
+            .ok_or(InfoError::BadLayout())?;
+
+        match total_length.checked_next_multiple_of(self.piece_length) {
+            Some(padded_length)
+                if (padded_length / self.piece_length).checked_mul(20)
+                    == Some(self.pieces.len()) =>
+            {
+                Ok(())
+            }
+            _ => Err(InfoError::BadLayout()),
+        }
     }
 
     pub fn from_file(file_path: &str) -> Result<Info, InfoError> {
-- 
2.43.0


From 7ddf6d104849577b4ffc4f2dde6d92bd8b49a7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:39 +0000
Subject: [PATCH 16/29] fix: survive a torn or unwritable metadata cache file

---
 src/torrent/info.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/torrent/info.rs b/src/torrent/info.rs
index b4a1bac..3d6ffff 100644
--- a/src/torrent/info.rs
+++ b/src/torrent/info.rs
@@ -105,7 +105,14 @@ impl Info {
                 return Err(InfoError::NoInfoFile(file_path.to_owned()));
             }
 
-            let info: Info = serde_json::from_str(&info_buffer).unwrap();
+            let info: Info = serde_json::from_str(&info_buffer).map_err(|err| {
+                error!(
+                    "Caught error {:?} while parsing torrent info from file: {:?}",
+                    err, file_path
+                );
+                InfoError::NoInfoFile(file_path.to_owned())
+            })?;
+            info.verify_layout()?;
 
             return Ok(info);
         }
@@ -114,7 +121,11 @@ impl Info {
     }
 
     pub fn save(&self, file_path: &str) -> Result<(), InfoError> {
-        if let Err(err) = serde_json::to_writer(&std::fs::File::create(file_path).unwrap(), self) {
+        let saved = std::fs::File::create(file_path)
+            .map_err(serde_json::Error::io)
+            .and_then(|file| serde_json::to_writer(&file, self));
+
+        if let Err(err) = saved {
             error!(
                 "Caught error {:?} while saving the info to file {:?}",
                 err, file_path
-- 
2.43.0


From 5b4af044607efa8934ec989f40a15bfa9cf1d365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:43 +0000
Subject: [PATCH 17/29] fix: report files that can not be written and carry on
 with the others

---
 src/torrent/writer.rs | 49 +++++++++++++++++++++++++++----------------
 1 file changed, 31 insertions(+), 18 deletions(-)

diff --git a/src/torrent/writer.rs b/src/torrent/writer.rs
index e2201d0..3f92f97 100644
--- a/src/torrent/writer.rs
+++ b/src/torrent/writer.rs
@@ -1,5 +1,6 @@
 use std::cmp;
 use std::fs;
+use std::io;
 
 #[cfg(target_family = "unix")]
 use std::os::unix::prelude::FileExt;
@@ -10,7 +11,10 @@ use std::os::windows::prelude::FileExt;
 use crate::torrent::file::File;
 
 #[derive(thiserror::Error, Debug, Clone, PartialEq)]
-pub enum WriterError {}
+pub enum WriterError {
+    #[error("Error writing file {0}: {1}")]
+    FileWrite(String, String),
+}
 
 pub fn write(
     piece: Vec<u8>,
@@ -18,12 +22,17 @@ pub fn write(
     files: Vec<File>,
     piece_length: usize,
 ) -> Result<(), WriterError> {
-    get_file_writers(files, piece, idx, piece_length)
-        .iter()
-        .for_each(|writer| writer.write_to_filesystem());
+    let mut result = Ok(());
+
+    for writer in get_file_writers(files, piece, idx, piece_length) {
+        if let Err(err) = writer.write_to_filesystem() {
+            log::error!("Caught error {:?} while writing piece {:?}", err, idx);
+            result = Err(err);
+        }
+    }
 
     log::info!("Completed write to filesystem for piece {:?}", idx);
-    Ok(())
+    result
 }
 
 #[derive(Debug, PartialEq, Eq)]
@@ -45,23 +54,27 @@ impl FileWriter {
     }
 
     // TODO: Add optional folder where to save output
-    pub fn write_to_filesystem(&self) {
-        let path_string = &self.path.join("/");
-        let path = std::path::Path::new(path_string);
-        let prefix = path.parent().unwrap();
-        std::fs::create_dir_all(prefix).unwrap();
-
-        let file = fs::OpenOptions::new()
-            .write(true)
-            .create(true)
-            .open(path)
-            .unwrap();
+    pub fn write_to_filesystem(&self) -> Result<(), WriterError> {
+        let path_string = self.path.join("/");
+
+        self.write_to_path(std::path::Path::new(&path_string))
+            .map_err(|err| WriterError::FileWrite(path_string, err.to_string()))
+    }
+
+    fn write_to_path(&self, path: &std::path::Path) -> io::Result<()> {
+        if let Some(prefix) = path.parent() {
+            std::fs::create_dir_all(prefix)?;
+        }
+
+        let file = fs::OpenOptions::new().write(true).create(true).open(path)?;
 
         #[cfg(target_family = "unix")]
-        file.write_at(&self.piece, self.start as u64).unwrap();
+        file.write_all_at(&self.piece, self.start as u64)?;
 
         #[cfg(target_family = "windows")]
-        file.seek_write(&self.piece, self.start as u64).unwrap();
+        file.seek_write(&self.piece, self.start as u64)?;
+
+        Ok(())
     }
 }
 
-- 
2.43.0


From 5e4ab1abb4f54d59112ec3f6179e53033b378b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:45 +0000
Subject: [PATCH 18/29] fix: keep the files of a torrent inside the working
 directory

---
 src/torrent/writer.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/torrent/writer.rs b/src/torrent/writer.rs
index 3f92f97..c4ca470 100644
--- a/src/torrent/writer.rs
+++ b/src/torrent/writer.rs
@@ -1,6 +1,7 @@
 use std::cmp;
 use std::fs;
 use std::io;
+use std::path::Component;
 
 #[cfg(target_family = "unix")]
 use std::os::unix::prelude::FileExt;
@@ -62,6 +63,10 @@ impl FileWriter {
     }
 
     fn write_to_path(&self, path: &std::path::Path) -> io::Result<()> {
+        if !is_inside_working_directory(path) {
+            return Err(io::ErrorKind::InvalidInput.into());
+        }
+
         if let Some(prefix) = path.parent() {
             std::fs::create_dir_all(prefix)?;
         }
@@ -78,6 +83,12 @@ impl FileWriter {
     }
 }
 
+// The path comes from the torrent, that must not choose where on the system it is stored.
+fn is_inside_working_directory(path: &std::path::Path) -> bool {
+    path.components()
+        .all(|component| matches!(component, Component::Normal(_) | Component::CurDir))
+}
+
 struct FileParser {
     piece_length: usize,
     offset: usize,
-- 
2.43.0


From f6c3c45ad866ff63d409d7382841c53049cbf785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:47 +0000
Subject: [PATCH 19/29] fix: create the empty files of a torrent

---
 src/torrent/writer.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/torrent/writer.rs b/src/torrent/writer.rs
index c4ca470..62e8b35 100644
--- a/src/torrent/writer.rs
+++ b/src/torrent/writer.rs
@@ -141,6 +141,17 @@ impl FileParser {
         self.offset < self.right_file_boundary
     }
 
+    // An empty file belongs to the pieces it lies in or next to, being inside of none.
+    fn is_empty_file_in_piece(&self, file_length: usize) -> bool {
+        file_length == 0
+            && self.offset <= self.right_file_boundary
+            && self.right_file_boundary <= self.offset + self.piece_length
+    }
+
+    fn is_file_after_piece(&self, file_length: usize) -> bool {
+        self.right_file_boundary - file_length >= self.offset + self.piece_length
+    }
+
     fn is_piece_finished(&self) -> bool {
         self.offset + self.piece_length > self.right_file_boundary
     }
@@ -159,6 +170,15 @@ pub fn get_file_writers(
         let file_length = file.get_length();
         file_parser.update_right_file_boundary(file_length);
 
+        if file_parser.is_empty_file_in_piece(file_length) {
+            files_to_write.push(FileWriter::new(file.get_path(), 0, 0, vec![]));
+            continue;
+        }
+
+        if file_parser.is_file_after_piece(file_length) {
+            return files_to_write;
+        }
+
         if file_parser.is_piece_in_file() {
             file_parser.update_end_file_index();
 
@@ -172,8 +192,6 @@ pub fn get_file_writers(
 
             if file_parser.is_piece_finished() {
                 file_parser.update_start_file_index()
-            } else {
-                return files_to_write;
             }
         }
     }
-- 
2.43.0


From e242ad174f6ca31e17c9103e9926a3f7050e4171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:49 +0000
Subject: [PATCH 20/29] fix: time out and verify the answers of UDP trackers

---
 src/tracker/udp_tracker.rs | 52 ++++++++++++++++++++++++++++++--------
 1 file changed, 42 insertions(+), 10 deletions(-)

diff --git a/src/tracker/udp_tracker.rs b/src/tracker/udp_tracker.rs
index acdbdaf..d3d59cc 100644
--- a/src/tracker/udp_tracker.rs
+++ b/src/tracker/udp_tracker.rs
@@ -1,7 +1,14 @@
+use std::time::Duration;
+
 use tokio::net::UdpSocket;
+use tokio::time::timeout;
 
 use url::Url;
 
+const ACTION_CONNECT: u32 = 0;
+const ACTION_ANNOUNCE: u32 = 1;
+const RESPONSE_TIMEOUT: Duration = Duration::from_secs(2);
+
 #[derive(thiserror::Error, Debug, Clone, PartialEq)]
 pub enum UdpTrackerError {
     #[error("Tracker missing post")]
@@ -25,7 +32,7 @@ pub async fn call(
 ) -> Result<Vec<u8>, UdpTrackerError> {
     let socket = UdpSocket::bind("0.0.0.0:0")
         .await
-        .expect("couldn't bind to address");
+        .map_err(|_| UdpTrackerError::NoConnectionEstablished())?;
     let tracker_hostname = format!(
         "{}:{}",
         tracker_url
@@ -37,7 +44,7 @@ pub async fn call(
     socket
         .connect(tracker_hostname.clone())
         .await
-        .expect("Panico");
+        .map_err(|_| UdpTrackerError::NoConnectionEstablished())?;
 
     let transaction_id: &[u8] = &[0x00, 0x01, 0x19, 0x9e];
     let connection_id = connect_to_tracker(transaction_id, &socket).await?;
@@ -50,10 +57,9 @@ pub async fn call(
     );
     send_upd_packet(&socket, message).await?;
 
-    let mut annouce_buf: [u8; 4000] = [0x00; 4000];
-    let resp_size = read_upd_packet(&socket, &mut annouce_buf).await?;
-    if resp_size > 26 {
-        return Ok(annouce_buf[20..resp_size].to_vec());
+    let response = read_response(&socket, ACTION_ANNOUNCE, transaction_id).await?;
+    if response.len() > 26 {
+        return Ok(response[20..].to_vec());
     }
 
     Err(UdpTrackerError::WrongResponseSize())
@@ -65,21 +71,47 @@ async fn connect_to_tracker(
 ) -> Result<Vec<u8>, UdpTrackerError> {
     let message = &make_connection_message(transaction_id);
 
-    let mut buf: [u8; 16] = [0x00; 16];
-
     for retry in 1..5 {
         if send_upd_packet(socket, message).await.is_err() {
             log::error!("Send udp connect packet failed, retry number {}", retry);
         };
 
-        if read_upd_packet(socket, &mut buf).await.is_ok() {
-            return Ok(buf[8..].to_vec());
+        if let Ok(response) = read_response(socket, ACTION_CONNECT, transaction_id).await {
+            if response.len() >= 16 {
+                return Ok(response[8..16].to_vec());
+            }
         }
     }
 
     Err(UdpTrackerError::NoConnectionEstablished())
 }
 
+// Waits for the response to a request, other packets are skipped.
+async fn read_response(
+    socket: &UdpSocket,
+    action: u32,
+    transaction_id: &[u8],
+) -> Result<Vec<u8>, UdpTrackerError> {
+    let header = [&action.to_be_bytes(), transaction_id].concat();
+    let mut buffer = vec![0x00; 65536];
+
+    let response = async {
+        loop {
+            let resp_size = read_upd_packet(socket, &mut buffer).await?;
+            if buffer[..resp_size].starts_with(&header) {
+                return Ok(resp_size);
+            }
+        }
+    };
+
+    let resp_size = timeout(RESPONSE_TIMEOUT, response)
+        .await
+        .map_err(|_| UdpTrackerError::RecieveError())??;
+
+    buffer.truncate(resp_size);
+    Ok(buffer)
+}
+
 async fn read_upd_packet(socket: &UdpSocket, buffer: &mut [u8]) -> Result<usize, UdpTrackerError> {
     let (resp_size, _) = socket
         .recv_from(buffer)
-- 
2.43.0


From ed672abc3d4529738269007ae17cfe47cdaf3a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:49 +0000
Subject: [PATCH 21/29] fix: accept a UDP tracker answer with a single peer

---
 src/tracker/udp_tracker.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tracker/udp_tracker.rs b/src/tracker/udp_tracker.rs
index d3d59cc..fd5b760 100644
--- a/src/tracker/udp_tracker.rs
+++ b/src/tracker/udp_tracker.rs
@@ -58,7 +58,7 @@ pub async fn call(
     send_upd_packet(&socket, message).await?;
 
     let response = read_response(&socket, ACTION_ANNOUNCE, transaction_id).await?;
-    if response.len() > 26 {
+    if response.len() >= 26 {
         return Ok(response[20..].to_vec());
     }
 
-- 
2.43.0


From 7e4a6780025adc1ac433729f5bfdb645238a14af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:04 +0000
Subject: [PATCH 22/29] fix: keep the query of an HTTP tracker's url

---
 src/tracker/tcp_tracker.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tracker/tcp_tracker.rs b/src/tracker/tcp_tracker.rs
index a628db4..afbb43f 100644
--- a/src/tracker/tcp_tracker.rs
+++ b/src/tracker/tcp_tracker.rs
@@ -22,9 +22,11 @@ pub enum TcpTrackerError {
 pub fn call(info_hash: &[u8], peer_id: &str, tracker: &Url) -> Result<Vec<u8>, TcpTrackerError> {
     let url_encoded_info_hash = urlencoding::encode_binary(info_hash).into_owned();
 
+    let separator = if tracker.query().is_some() { '&' } else { '?' };
     let url = format!(
-        "{}?info_hash={}&peer_id={}",
+        "{}{}info_hash={}&peer_id={}",
         tracker.as_str(),
+        separator,
         url_encoded_info_hash,
         peer_id
     );
-- 
2.43.0


From 22457939ae8b96c54b442406cafef543248c3da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:05 +0000
Subject: [PATCH 23/29] fix: name the HTTP tracker as the host of its requests

---
 src/tracker/tcp_tracker.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/tracker/tcp_tracker.rs b/src/tracker/tcp_tracker.rs
index afbb43f..42d3a86 100644
--- a/src/tracker/tcp_tracker.rs
+++ b/src/tracker/tcp_tracker.rs
@@ -49,7 +49,6 @@ fn call_tracker_for_peers(url: String) -> Result<ureq::Response, TcpTrackerError
         .set("Accept", "*/*")
         .set("Connection", "keep-alive")
         .set("User-Agent", "PostmanRuntime/7.29.0")
-        .set("Host", "192.168.1.2")
         .call()
         .map_err(|_| TcpTrackerError::Connection(url))
 }
-- 
2.43.0


From 4ad986fca8207b5f4742a9409ee2841f9091bc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:06 +0000
Subject: [PATCH 24/29] fix: accept only the content encoding that is decoded

---
 src/tracker/tcp_tracker.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tracker/tcp_tracker.rs b/src/tracker/tcp_tracker.rs
index 42d3a86..3eb6d97 100644
--- a/src/tracker/tcp_tracker.rs
+++ b/src/tracker/tcp_tracker.rs
@@ -45,7 +45,7 @@ pub fn call(info_hash: &[u8], peer_id: &str, tracker: &Url) -> Result<Vec<u8>, T
 fn call_tracker_for_peers(url: String) -> Result<ureq::Response, TcpTrackerError> {
     ureq::get(&url)
         .timeout(Duration::from_millis(400))
-        .set("Accept-Encoding", "gzip, deflate, br")
+        .set("Accept-Encoding", "gzip")
         .set("Accept", "*/*")
         .set("Connection", "keep-alive")
         .set("User-Agent", "PostmanRuntime/7.29.0")
-- 
2.43.0


From e354de27c1055a1685a97fedaea60249bb63bf7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:31 +0000
Subject: [PATCH 25/29] fix: start a download whose metadata comes from the
 last peer found

---
 src/actors/torrent.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/actors/torrent.rs b/src/actors/torrent.rs
index 902e159..d363a66 100644
--- a/src/actors/torrent.rs
+++ b/src/actors/torrent.rs
@@ -117,19 +117,19 @@ impl Handler<PeerFound> for TorrentActor {
     fn handle(&mut self, msg: PeerFound, ctx: &mut Context<Self>) -> Self::Result {
         self.peers.push(Peer::new(msg.peer.endpoint()));
 
-        match &self.info {
-            None => {
-                if let Some(info) = collect_info(&self.info_hash, &msg.peer.endpoint()) {
-                    let piece_count = (0..info.get_total_length())
-                        .step_by(info.get_piece_length())
-                        .len();
-
-                    self.piece_available_pool = Some(PiecePool::new(piece_count));
-                    self.info = Some(info);
-                }
-
-                return Ok(true);
+        if self.info.is_none() {
+            if let Some(info) = collect_info(&self.info_hash, &msg.peer.endpoint()) {
+                let piece_count = (0..info.get_total_length())
+                    .step_by(info.get_piece_length())
+                    .len();
+
+                self.piece_available_pool = Some(PiecePool::new(piece_count));
+                self.info = Some(info);
             }
+        }
+
+        match &self.info {
+            None => return Ok(true),
             Some(info) => {
                 if self.peers.len() > 10 && !self.initiated {
                     for _ in 0..5 {
-- 
2.43.0


From 7f0749ed4e95680ee57456019147cb53c21a2324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:55 +0000
Subject: [PATCH 26/29] fix: take the bytes of a frame as they arrive

---
 src/peer/stream.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/peer/stream.rs b/src/peer/stream.rs
index d502012..2e7cab3 100644
--- a/src/peer/stream.rs
+++ b/src/peer/stream.rs
@@ -104,10 +104,12 @@ fn read_bytes(stream: &mut StreamInterface, length: usize) -> io::Result<Vec<u8>
     let mut retry = 1;
 
     while bytes.len() < length {
-        let chunk_length = cmp::min(length - bytes.len(), CHUNK_SIZE);
-        let mut chunk = vec![0; chunk_length];
+        let mut chunk = vec![0; cmp::min(length - bytes.len(), CHUNK_SIZE)];
+        // What is left in the receive buffer can keep the peer from sending more, so take whatever is there
+        let available = stream.peek(&mut chunk).unwrap_or(0);
+        chunk.truncate(available);
 
-        if peek_and_read(stream, &mut chunk, chunk_length) {
+        if available > 0 && peek_and_read(stream, &mut chunk, available) {
             bytes.append(&mut chunk);
         } else if retry < 40 {
             thread::sleep(time::Duration::from_millis(5 * retry));
-- 
2.43.0


From ea11ca985fc5236d42b4f2e4bb77742e54c17b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:48 +0000
Subject: [PATCH 27/29] fix: announce every torrent of a burst, whatever the
 trackers are doing

---
 src/actors/trackers_interface.rs | 2 +-
 src/main.rs                      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/actors/trackers_interface.rs b/src/actors/trackers_interface.rs
index 5d9ed75..497e7ac 100644
--- a/src/actors/trackers_interface.rs
+++ b/src/actors/trackers_interface.rs
@@ -58,7 +58,7 @@ impl Handler<TorrentRegistered> for TrackersInterfaceActor {
 
     fn handle(&mut self, msg: TorrentRegistered, _ctx: &mut Context<Self>) -> Self::Result {
         for actor in self.trackers.iter() {
-            let _ = actor.try_send(msg.clone());
+            actor.do_send(msg.clone());
         }
 
         Ok(true)
diff --git a/src/main.rs b/src/main.rs
index c0f625a..ed1bd85 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -37,7 +37,7 @@ async fn add_magnet(data: web::Data<AppState>, magnet_raw: String) -> HttpRespon
         torrent_actor_addr: addr.clone(),
     };
 
-    let _ = data.trackers_interface.try_send(msg);
+    data.trackers_interface.do_send(msg);
 
     HttpResponse::Ok().body("Test")
 }
-- 
2.43.0


From d460ddaa750389c36e575b511e90b2676ae54652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:11 +0000
Subject: [PATCH 28/29] fix: keep serving http while a torrent waits for its
 peers

---
 src/actors/torrent.rs | 4 +++-
 src/main.rs           | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/actors/torrent.rs b/src/actors/torrent.rs
index d363a66..55cabc8 100644
--- a/src/actors/torrent.rs
+++ b/src/actors/torrent.rs
@@ -48,7 +48,9 @@ impl Actor for TorrentActor {
 
     fn started(&mut self, _ctx: &mut Context<Self>) {}
 
-    fn stopped(&mut self, _ctx: &mut Context<Self>) {}
+    fn stopped(&mut self, _ctx: &mut Context<Self>) {
+        Arbiter::current().stop();
+    }
 }
 
 impl Handler<PieceDownloadSuccessfull> for TorrentActor {
diff --git a/src/main.rs b/src/main.rs
index ed1bd85..d5883bd 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -30,7 +30,9 @@ async fn add_magnet(data: web::Data<AppState>, magnet_raw: String) -> HttpRespon
     };
     let info_hash = magnet.get_info_hash();
 
-    let addr = TorrentActor::new(info_hash.clone()).start();
+    // Talking to peers blocks, so a torrent must not share a thread with the http server
+    let torrent_actor = TorrentActor::new(info_hash.clone());
+    let addr = TorrentActor::start_in_arbiter(&Arbiter::new().handle(), |_| torrent_actor);
 
     let msg = TorrentRegistered {
         info_hash,
-- 
2.43.0


From fa9ef6b5d9fd80cf77101d24cdc954d2ed71805a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:43 +0000
Subject: [PATCH 29/29] fix: keep what earlier extension handshakes of a peer
 said

A peer may send further extension handshakes, which hold only what changed
(BEP 10). Each one replaced all extensions, so that ut_metadata was lost, and
one without metadata size was skipped altogether, so that a peer that sends
its ids first and the size later was never asked for metadata.
---
 src/messages/extension.rs | 2 +-
 src/peer/mod.rs           | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/messages/extension.rs b/src/messages/extension.rs
index 995950b..88c1b0c 100644
--- a/src/messages/extension.rs
+++ b/src/messages/extension.rs
@@ -72,7 +72,7 @@ impl ExtensionMessage {
     }
 
     pub fn is_handshake(&self) -> bool {
-        self.metadata_size.is_some()
+        self.metadata_size.is_some() || !self.extensions.is_empty()
     }
 
     pub fn is_data(&self) -> bool {
diff --git a/src/peer/mod.rs b/src/peer/mod.rs
index 18ba883..90de546 100644
--- a/src/peer/mod.rs
+++ b/src/peer/mod.rs
@@ -109,8 +109,9 @@ impl Peer {
             ContentType::Bitfield(content) => self.bitfield = content.get_bitfield_as_bit_vector(),
             ContentType::Extension(content) => {
                 if content.is_handshake() {
-                    self.extensions = content.get_extensions().clone();
-                    self.metadata_size = content.get_metadata_size().unwrap_or(0);
+                    // A further handshake only holds what changes
+                    self.extensions.extend(content.get_extensions().clone());
+                    self.metadata_size = content.get_metadata_size().unwrap_or(self.metadata_size);
                 }
             }
             ContentType::Handshake(handshake) => {
-- 
2.43.0

