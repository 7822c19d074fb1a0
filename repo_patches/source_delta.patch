From 9a92adf130390e0b1a576ad5dc316e850204ab1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:08 +0000
Subject: [PATCH 01/14] fix: bencode string length prefix counts bytes, not
 characters

---
 src/bencode/encode.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bencode/encode.rs b/src/bencode/encode.rs
index 4ad8eb4..26ad7e8 100644
--- a/src/bencode/encode.rs
+++ b/src/bencode/encode.rs
@@ -6,7 +6,7 @@ pub trait Encode {
 
 impl Encode for String {
     fn encode(&self) -> Vec<u8> {
-        format!("{}:{}", self.chars().count(), self)
+        format!("{}:{}", self.len(), self)
             .as_bytes()
             .to_vec()
     }
@@ -14,7 +14,7 @@ impl Encode for String {
 
 impl Encode for &str {
     fn encode(&self) -> Vec<u8> {
-        format!("{}:{}", self.chars().count(), self)
+        format!("{}:{}", self.len(), self)
             .as_bytes()
             .to_vec()
     }
-- 
2.43.0


From a4efdb444aa14449fbccd545996df46b823b5371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:56 +0000
Subject: [PATCH 02/14] fix: bencode decoding returns an error on truncated,
 malformed or too deep input

---
 src/bencode/decode.rs | 70 +++++++++++++++++++++++++++++++++----------
 1 file changed, 54 insertions(+), 16 deletions(-)

diff --git a/src/bencode/decode.rs b/src/bencode/decode.rs
index be59059..66da3ae 100644
--- a/src/bencode/decode.rs
+++ b/src/bencode/decode.rs
@@ -5,8 +5,13 @@ use log::error;
 
 use crate::bencode::metainfo::Metainfo;
 
+// Lists and dictionaries nested deeper than this are rejected, so that a hostile
+// input cannot exhaust the stack.
+const MAX_DEPTH: usize = 64;
+
 pub struct Decoder {
     current: usize,
+    depth: usize,
     contents: Vec<u8>,
 }
 
@@ -20,12 +25,19 @@ pub enum DecoderError {
     NoStringFound(usize),
     #[error("Bad string from bytes conversion at position: {0}")]
     BadStringFromBytes(usize),
+    #[error("Unexpected end of input at position: {0}")]
+    UnexpectedEnd(usize),
+    #[error("Unexpected byte at position: {0}")]
+    UnexpectedByte(usize),
+    #[error("Lists and dictionaries nested too deep at position: {0}")]
+    TooDeep(usize),
 }
 
 impl Decoder {
     pub fn init(source: Vec<u8>) -> Decoder {
         Decoder {
             current: 0,
+            depth: 0,
             contents: source,
         }
     }
@@ -35,13 +47,24 @@ impl Decoder {
         self.current
     }
 
-    fn get_current_byte(&self) -> u8 {
-        self.contents[self.current]
+    fn get_current_byte(&self) -> Result<u8, DecoderError> {
+        self.contents
+            .get(self.current)
+            .copied()
+            .ok_or(DecoderError::UnexpectedEnd(self.current))
+    }
+
+    fn expect_byte(&mut self, expected: u8) -> Result<(), DecoderError> {
+        if self.get_current_byte()? != expected {
+            return Err(DecoderError::UnexpectedByte(self.current));
+        }
+        self.advance();
+        Ok(())
     }
 
     fn get_consecutive_digits(&mut self) -> Result<usize, DecoderError> {
         let start = self.current;
-        while self.get_current_byte().is_ascii_digit() {
+        while self.get_current_byte()?.is_ascii_digit() {
             self.advance();
         }
         let end = self.current;
@@ -73,20 +96,23 @@ impl Decoder {
         self.advance();
         let integer: usize = self.get_consecutive_digits()?;
 
-        match self.contents.get(self.current) {
-            Some(b'e') => self.advance(),
-            _ => self.advance(),
-        };
+        self.expect_byte(b'e')?;
         Ok(Metainfo::Integer(integer))
     }
 
     fn parse_string(&mut self) -> Result<Metainfo, DecoderError> {
         let integer = self.get_consecutive_digits()?;
-        // TODO: Mettere check semicolon
-        self.advance();
-
-        let b = &self.contents[self.current..self.current + integer];
-        self.current += integer;
+        self.expect_byte(b':')?;
+
+        let end = self
+            .current
+            .checked_add(integer)
+            .ok_or(DecoderError::UnexpectedEnd(self.current))?;
+        let b = self
+            .contents
+            .get(self.current..end)
+            .ok_or(DecoderError::UnexpectedEnd(self.current))?;
+        self.current = end;
         Ok(Metainfo::String(b.to_vec()))
     }
 
@@ -94,7 +120,7 @@ impl Decoder {
         self.advance();
         let mut list: Vec<Metainfo> = Vec::new();
 
-        while self.get_current_byte() != b'e' {
+        while self.get_current_byte()? != b'e' {
             list.push(self.decode()?);
         }
 
@@ -106,7 +132,7 @@ impl Decoder {
         self.advance();
 
         let mut dictionary = HashMap::new();
-        while self.get_current_byte() != b'e' {
+        while self.get_current_byte()? != b'e' {
             let key = if let Metainfo::String(raw_key) = self.parse_string()? {
                 str::from_utf8(&raw_key)
                     .map_err(|_| DecoderError::BadStringFromBytes(self.current))?
@@ -123,13 +149,25 @@ impl Decoder {
     }
 
     pub fn decode(&mut self) -> Result<Metainfo, DecoderError> {
+        if self.depth >= MAX_DEPTH {
+            return Err(DecoderError::TooDeep(self.current));
+        }
+
+        self.depth += 1;
+        let result = self.decode_value();
+        self.depth -= 1;
+
+        result
+    }
+
+    fn decode_value(&mut self) -> Result<Metainfo, DecoderError> {
         let result = match self.contents.get(self.current) {
             None => Metainfo::Nothing(),
             Some(b'i') => self.parse_integer()?,
             Some(b'l') => self.parse_list()?,
             Some(b'd') => self.parse_dictionary()?,
-            Some(b'1'..=b'9') => self.parse_string()?,
-            Some(_) => Metainfo::Nothing(),
+            Some(b'0'..=b'9') => self.parse_string()?,
+            Some(_) => return Err(DecoderError::UnexpectedByte(self.current)),
         };
 
         Ok(result)
-- 
2.43.0


From 486f8d365d3c8872c481ce7f1a3637badc5c9118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:31 +0000
Subject: [PATCH 03/14] fix: a malformed or base32 magnet no longer panics or
 yields a wrong info hash

---
 src/main.rs           | 10 +++++--
 src/torrent/magnet.rs | 67 +++++++++++++++++++++++++------------------
 2 files changed, 47 insertions(+), 30 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 89febf3..4dcab65 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -24,8 +24,14 @@ use crate::actors::torrent::TorrentActor;
 
 #[post("/add/magnet")]
 async fn add_magnet(data: web::Data<AppState>, magnet_raw: String) -> HttpResponse {
-    let magnet = magnet::parse_magnet(magnet_raw.as_bytes().to_vec()).unwrap();
-    let info_hash = magnet.get_info_hash();
+    let info_hash = match magnet::parse_magnet(magnet_raw.as_bytes().to_vec()) {
+        Ok(magnet) => magnet.get_info_hash(),
+        Err(_) => None,
+    };
+    let info_hash = match info_hash {
+        Some(info_hash) => info_hash,
+        None => return HttpResponse::BadRequest().body("Invalid magnet"),
+    };
 
     let addr = TorrentActor::new(info_hash.clone()).start();
 
diff --git a/src/torrent/magnet.rs b/src/torrent/magnet.rs
index da681f5..bfc277b 100644
--- a/src/torrent/magnet.rs
+++ b/src/torrent/magnet.rs
@@ -1,3 +1,8 @@
+const MAGNET_PREFIX: &[u8] = b"magnet:?xt=urn:btih:";
+const HASH_LENGTH: usize = 20;
+const HEX_HASH_LENGTH: usize = 40;
+const BASE32_HASH_LENGTH: usize = 32;
+
 #[derive(Debug, PartialEq, Eq)]
 pub struct Magnet {
     info_hash: Vec<u8>,
@@ -10,15 +15,15 @@ pub enum MagnetError {
 }
 
 impl Magnet {
-    pub fn get_info_hash(&self) -> Vec<u8> {
-        self.info_hash.to_vec()
+    // A base32 encoded hash is kept as it is written in the magnet, so it has still to be decoded.
+    pub fn get_info_hash(&self) -> Option<Vec<u8>> {
+        if self.info_hash.len() == BASE32_HASH_LENGTH {
+            return base32_decode(&self.info_hash);
+        }
+        Some(self.info_hash.to_vec())
     }
 }
 
-fn verify_info_hash(magnet_uri: &[u8]) -> bool {
-    magnet_uri.len() < 60 || &magnet_uri[..8] != "magnet:?".as_bytes()
-}
-
 // Given a string representation of an hex character we obtain the hex byte representation.
 // The hex character A is converted to ascii decimal 65 that correspond to hex decimal
 // 10. It's a simple subtraction in order to project the ascii decimal character to
@@ -27,41 +32,47 @@ fn verify_info_hash(magnet_uri: &[u8]) -> bool {
 // A   -> 65    -> 10
 // 9   -> 57    -> 9
 // 8   -> 56    -> 8
-fn byte_to_hex(byte: u8) -> u8 {
-    if byte.is_ascii_uppercase() {
-        byte - 55
-    } else if byte.is_ascii_lowercase() {
-        byte - 87
-    } else {
-        byte - 48
+fn byte_to_hex(byte: u8) -> Option<u8> {
+    match byte {
+        b'A'..=b'F' => Some(byte - 55),
+        b'a'..=b'f' => Some(byte - 87),
+        b'0'..=b'9' => Some(byte - 48),
+        _ => None,
     }
 }
 
-fn hex_decode(info_hash_hex_encoded: &[u8]) -> Vec<u8> {
+fn hex_decode(info_hash_hex_encoded: &[u8]) -> Option<Vec<u8>> {
     info_hash_hex_encoded
         .chunks_exact(2)
         .map(|chunk| {
-            let a = byte_to_hex(chunk[0]) << 4;
-            let b = byte_to_hex(chunk[1]);
-            a | b
+            let a = byte_to_hex(chunk[0])? << 4;
+            let b = byte_to_hex(chunk[1])?;
+            Some(a | b)
         })
-        .collect::<Vec<u8>>()
+        .collect::<Option<Vec<u8>>>()
 }
 
-fn parse_info_hash(magnet_uri: &[u8]) -> Vec<u8> {
-    if magnet_uri[60] == b'&' {
-        hex_decode(&magnet_uri[20..60])
-    } else {
-        magnet_uri[20..52].to_vec()
-    }
+fn base32_decode(info_hash_base32_encoded: &[u8]) -> Option<Vec<u8>> {
+    let encoded = std::str::from_utf8(info_hash_base32_encoded).ok()?;
+    base32::decode(base32::Alphabet::RFC4648 { padding: false }, encoded)
+        .filter(|info_hash| info_hash.len() == HASH_LENGTH)
 }
 
-pub fn parse_magnet(magnet_uri: Vec<u8>) -> Result<Magnet, MagnetError> {
-    if verify_info_hash(&magnet_uri) {
-        return Err(MagnetError::NoMagnet());
+fn parse_info_hash(magnet_uri: &[u8]) -> Option<Vec<u8>> {
+    let encoded = magnet_uri
+        .strip_prefix(MAGNET_PREFIX)?
+        .split(|byte| *byte == b'&')
+        .next()?;
+
+    match encoded.len() {
+        HEX_HASH_LENGTH => hex_decode(encoded),
+        BASE32_HASH_LENGTH => Some(encoded.to_vec()),
+        _ => None,
     }
+}
 
-    let info_hash = parse_info_hash(&magnet_uri);
+pub fn parse_magnet(magnet_uri: Vec<u8>) -> Result<Magnet, MagnetError> {
+    let info_hash = parse_info_hash(&magnet_uri).ok_or(MagnetError::NoMagnet())?;
 
     Ok(Magnet { info_hash })
 }
-- 
2.43.0


From dd92948844aac725d6208a91a14bb607dcc5ef08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:32 +0000
Subject: [PATCH 04/14] fix: report an error when the torrent could not be
 handed to the trackers

---
 src/main.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 4dcab65..4dae63c 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -40,9 +40,10 @@ async fn add_magnet(data: web::Data<AppState>, magnet_raw: String) -> HttpRespon
         torrent_actor_addr: addr.clone(),
     };
 
-    let _ = data.trackers_interface.try_send(msg);
-
-    HttpResponse::Ok().body("Test")
+    match data.trackers_interface.try_send(msg) {
+        Ok(_) => HttpResponse::Ok().body("Test"),
+        Err(_) => HttpResponse::ServiceUnavailable().body("Torrent not registered"),
+    }
 }
 
 struct AppState {
-- 
2.43.0


From 1fbb5aeb6b6309ed9bb664d59558e88ddd29cc2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:33 +0000
Subject: [PATCH 05/14] fix: inconsistent torrent info, fetched or cached, is
 rejected instead of panicking later

---
 src/torrent/info.rs | 76 +++++++++++++++++++++++++++++++++------------
 1 file changed, 57 insertions(+), 19 deletions(-)

diff --git a/src/torrent/info.rs b/src/torrent/info.rs
index 9e9c3a3..757be9b 100644
--- a/src/torrent/info.rs
+++ b/src/torrent/info.rs
@@ -8,7 +8,9 @@ use log::{error, info};
 use crate::bencode::decode::{Decoder, DecoderError};
 use crate::bencode::encode::{encode_dict_entry, Encode};
 use crate::bencode::metainfo::{Metainfo, MetainfoError};
-use crate::torrent::file::File;
+use crate::torrent::file::{File, FileError};
+
+const HASH_LENGTH: usize = 20;
 
 #[derive(Clone, Debug, Deserialize, Eq, PartialEq, Serialize)]
 pub struct Info {
@@ -29,6 +31,8 @@ pub enum InfoError {
     NoFileLenght(),
     #[error("No info file found at {0}")]
     NoInfoFile(String),
+    #[error("Inconsistent piece length, pieces or files")]
+    Inconsistent(),
 }
 
 impl Info {
@@ -43,18 +47,49 @@ impl Info {
         let name = a.get_string_from_dict("name")?;
         let length = a.get_integer_from_dict("length").ok();
 
-        let files = a
-            .get_list_from_dict("files")
-            .ok()
-            .map(|elements| elements.iter().flat_map(File::from_metainfo).collect());
+        let files = match a.get_list_from_dict("files") {
+            Ok(elements) => {
+                let files: Result<Vec<File>, FileError> =
+                    elements.iter().map(File::from_metainfo).collect();
+                Some(files.map_err(|_| InfoError::Inconsistent())?)
+            }
+            Err(_) => None,
+        };
 
-        Ok(Info {
+        let info = Info {
             name,
             pieces: pieces.to_vec(),
             piece_length,
             files,
             length,
-        })
+        };
+
+        if !info.is_consistent() {
+            return Err(InfoError::Inconsistent());
+        }
+
+        Ok(info)
+    }
+
+    // The pieces have to cover the whole content, with a hash for each one of them.
+    fn is_consistent(&self) -> bool {
+        if self.piece_length == 0 || (self.files.is_none() && self.length.is_none()) {
+            return false;
+        }
+
+        let file_lengths = self.files.iter().flatten().map(|file| file.get_length());
+        if file_lengths
+            .fold(Some(0_usize), |total, length| total?.checked_add(length))
+            .is_none()
+        {
+            return false;
+        }
+
+        let total_length = self.get_total_length();
+        let piece_count =
+            total_length / self.piece_length + usize::from(total_length % self.piece_length != 0);
+
+        self.pieces.len() % HASH_LENGTH == 0 && self.pieces.len() / HASH_LENGTH == piece_count
     }
 
     pub fn from_file(file_path: &str) -> Result<Info, InfoError> {
@@ -69,16 +104,20 @@ impl Info {
                 return Err(InfoError::NoInfoFile(file_path.to_owned()));
             }
 
-            let info: Info = serde_json::from_str(&info_buffer).unwrap();
-
-            return Ok(info);
+            return match serde_json::from_str::<Info>(&info_buffer) {
+                Ok(info) if info.is_consistent() => Ok(info),
+                _ => Err(InfoError::NoInfoFile(file_path.to_owned())),
+            };
         }
 
         Err(InfoError::NoInfoFile(file_path.to_owned()))
     }
 
     pub fn save(&self, file_path: &str) -> Result<(), InfoError> {
-        if let Err(err) = serde_json::to_writer(&std::fs::File::create(file_path).unwrap(), self) {
+        let info_file = std::fs::File::create(file_path)
+            .map_err(|_| InfoError::NoInfoFile(file_path.to_owned()))?;
+
+        if let Err(err) = serde_json::to_writer(&info_file, self) {
             error!(
                 "Caught error {:?} while saving the info to file {:?}",
                 err, file_path
@@ -89,15 +128,12 @@ impl Info {
         Ok(())
     }
 
-    pub fn get_piece(&self, index: usize) -> &[u8] {
-        self.pieces
-            .chunks_exact(20)
-            .nth(index)
-            .expect("No piece at the provided index")
+    pub fn get_piece(&self, index: usize) -> Option<&[u8]> {
+        self.pieces.chunks_exact(HASH_LENGTH).nth(index)
     }
 
     pub fn verify_piece(&self, piece: &[u8], piece_idx: usize) -> bool {
-        Sha1::digest(piece).as_slice() == self.get_piece(piece_idx)
+        self.get_piece(piece_idx) == Some(Sha1::digest(piece).as_slice())
     }
 
     pub fn get_piece_length(&self) -> usize {
@@ -106,8 +142,10 @@ impl Info {
 
     pub fn get_total_length(&self) -> usize {
         match &self.files {
-            Some(files) => files.iter().map(|file| file.get_length()).sum::<usize>(),
-            None => self.length.unwrap(),
+            Some(files) => files
+                .iter()
+                .fold(0, |total, file| total.saturating_add(file.get_length())),
+            None => self.length.unwrap_or(0),
         }
     }
 
-- 
2.43.0


From 69dbc3b877d2b2c40bdc69ca356ec84bd3a33d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:36 +0000
Subject: [PATCH 06/14] fix: torrent info is used only if its SHA-1 is the
 requested info hash

---
 src/actors/torrent.rs | 6 ++++--
 src/peer/manager.rs   | 7 +++++++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/actors/torrent.rs b/src/actors/torrent.rs
index 9100ec4..e904fef 100644
--- a/src/actors/torrent.rs
+++ b/src/actors/torrent.rs
@@ -156,10 +156,12 @@ impl Handler<PeerFound> for TorrentActor {
 fn collect_info(info_hash: &[u8], endpoint: &str) -> Option<Info> {
     let filename = urlencoding::encode_binary(info_hash).into_owned();
     let file_path = format!("./downloads/{filename}");
-    std::fs::create_dir_all("./downloads").unwrap();
+    let _ = std::fs::create_dir_all("./downloads");
 
     if let Ok(info) = Info::from_file(&file_path) {
-        return Some(info);
+        if info.compute_info_hash() == info_hash {
+            return Some(info);
+        }
     }
 
     if let Ok(info) = get_info(info_hash, endpoint) {
diff --git a/src/peer/manager.rs b/src/peer/manager.rs
index 6a251be..90248cc 100644
--- a/src/peer/manager.rs
+++ b/src/peer/manager.rs
@@ -1,4 +1,5 @@
 use log::{debug, error, info};
+use sha1::{Digest, Sha1};
 
 use crate::messages::{new_handshake, new_interested};
 use crate::peer::Peer;
@@ -19,6 +20,8 @@ pub enum PeerManagerError {
     PieceDownloadFailure(String),
     #[error("Unsuccessfull piece verification")]
     PieceVerificationFailure(),
+    #[error("Unsuccessfull info verification")]
+    InfoVerificationFailure(),
     #[error(transparent)]
     Stream(#[from] StreamError),
     #[error(transparent)]
@@ -34,6 +37,10 @@ pub fn get_info(info_hash: &[u8], endpoint: &str) -> Result<Info, PeerManagerErr
     init_peer(&mut peer)?;
     let info = Downloadable::Info.download(&mut peer)?;
 
+    if Sha1::digest(&info).as_slice() != info_hash {
+        return Err(PeerManagerError::InfoVerificationFailure());
+    }
+
     let info = Info::from_bytes(info)?;
     Ok(info)
 }
-- 
2.43.0


From 5ac0d65e3c88ffd8b123f462034d47b4f14898f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:17 +0000
Subject: [PATCH 07/14] fix: a truncated message or a peer without ut_metadata
 no longer panics the client

---
 src/messages/extension.rs | 9 +++++----
 src/messages/mod.rs       | 7 ++++---
 src/peer/download/info.rs | 4 +++-
 src/peer/download/mod.rs  | 6 ++++++
 src/peer/mod.rs           | 3 ++-
 5 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/messages/extension.rs b/src/messages/extension.rs
index 995950b..24eae6c 100644
--- a/src/messages/extension.rs
+++ b/src/messages/extension.rs
@@ -97,10 +97,11 @@ impl ExtensionMessage {
 fn build_extensions_map(metainfo_map: &HashMap<String, Metainfo>) -> HashMap<String, u8> {
     let mut extension: HashMap<String, u8> = HashMap::new();
     for (key, metainfo_value) in metainfo_map {
-        if let Ok(value) = metainfo_value.get_integer_content() {
-            extension.insert(key.to_owned(), value as u8);
-        } else {
-            info!("No extension value found from {:?}", metainfo_value);
+        match metainfo_value.get_integer_content().map(u8::try_from) {
+            Ok(Ok(value)) => {
+                extension.insert(key.to_owned(), value);
+            }
+            _ => info!("No extension value found from {:?}", metainfo_value),
         }
     }
     extension
diff --git a/src/messages/mod.rs b/src/messages/mod.rs
index 8f21009..48de3d0 100644
--- a/src/messages/mod.rs
+++ b/src/messages/mod.rs
@@ -37,9 +37,10 @@ impl Message {
         let content = match id {
             2 => ContentType::Interested(InterestedMessage::from_bytes()),
             5 => ContentType::Bitfield(BitfieldMessage::from_bytes(&body)),
-            7 | 6 => ContentType::Request(RequestMessage::from_bytes(&body)),
-            20 => ContentType::Extension(ExtensionMessage::from_bytes(&body)?),
-            19 => ContentType::Handshake(HandshakeMessage::from_bytes(&body)),
+            7 | 6 if body.len() >= 8 => ContentType::Request(RequestMessage::from_bytes(&body)),
+            20 if !body.is_empty() => ContentType::Extension(ExtensionMessage::from_bytes(&body)?),
+            19 if body.len() >= 68 => ContentType::Handshake(HandshakeMessage::from_bytes(&body)),
+            7 | 6 | 20 | 19 => return Err("Truncated message"),
             _ => ContentType::Nothing(),
         };
 
diff --git a/src/peer/download/info.rs b/src/peer/download/info.rs
index 37b58bb..52764db 100644
--- a/src/peer/download/info.rs
+++ b/src/peer/download/info.rs
@@ -3,9 +3,11 @@ use crate::{
     peer::Peer,
 };
 
+pub const METADATA_EXTENSION: &str = "ut_metadata";
+
 pub fn next_piece() -> impl FnMut(&mut Peer, usize) {
     |peer: &mut Peer, piece_index| {
-        let metadata_id = peer.get_extension_id_by_name("ut_metadata");
+        let metadata_id = peer.get_extension_id_by_name(METADATA_EXTENSION);
         peer.send_message(new_metadata(metadata_id, piece_index))
     }
 }
diff --git a/src/peer/download/mod.rs b/src/peer/download/mod.rs
index 7f0a907..07cbd06 100644
--- a/src/peer/download/mod.rs
+++ b/src/peer/download/mod.rs
@@ -18,12 +18,18 @@ pub enum DownloadableError {
     ChokedPeer(),
     #[error("Download idle for too long")]
     Idle(),
+    #[error("Peer without metadata exchange")]
+    MetadataNotSupported(),
 }
 
 impl Downloadable {
     pub fn download(&self, peer: &mut Peer) -> Result<Vec<u8>, DownloadableError> {
         match self {
             Downloadable::Info => {
+                if peer.get_extension_id_by_name(info::METADATA_EXTENSION) == 0 {
+                    return Err(DownloadableError::MetadataNotSupported());
+                }
+
                 let buffer = MessageBuffer::new(
                     info::message_filter(),
                     info::next_piece(),
diff --git a/src/peer/mod.rs b/src/peer/mod.rs
index 98a032e..c1d64fe 100644
--- a/src/peer/mod.rs
+++ b/src/peer/mod.rs
@@ -70,7 +70,8 @@ impl Peer {
     }
 
     pub fn get_extension_id_by_name(&self, name: &str) -> u8 {
-        *self.extensions.get(name).unwrap()
+        // 0 stands for an extension not supported by the peer
+        self.extensions.get(name).copied().unwrap_or(0)
     }
 
     fn apply_message(&mut self, message: &Message) {
-- 
2.43.0


From bee09f11791eef11696c3ad4168cbaa1619f0498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:24 +0000
Subject: [PATCH 08/14] fix: read peer messages whole, bounded in size and
 time, and report a bad endpoint as an error

---
 src/peer/stream.rs | 40 ++++++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/src/peer/stream.rs b/src/peer/stream.rs
index cf64c2d..686b040 100644
--- a/src/peer/stream.rs
+++ b/src/peer/stream.rs
@@ -8,6 +8,8 @@ use log::error;
 
 use crate::common::mock_stream::MockStream;
 
+const WRITE_TIMEOUT: Duration = Duration::from_secs(5);
+
 #[derive(Debug)]
 pub enum StreamInterface {
     #[allow(dead_code)]
@@ -57,11 +59,15 @@ impl StreamInterface {
             return Ok(StreamInterface::Mocked(MockStream::new()));
         }
 
-        let server: std::net::SocketAddr =
-            endpoint.parse().expect("Unable to parse socket address");
+        let server: std::net::SocketAddr = endpoint
+            .parse()
+            .map_err(|_| StreamError::EstablishConnection())?;
         let connect_timeout = Duration::from_secs(1);
         let stream = TcpStream::connect_timeout(&server, connect_timeout)
             .map_err(|_| StreamError::EstablishConnection())?;
+        stream
+            .set_write_timeout(Some(WRITE_TIMEOUT))
+            .map_err(|_| StreamError::EstablishConnection())?;
         Ok(StreamInterface::Tcp(stream))
     }
 
@@ -82,6 +88,9 @@ impl StreamInterface {
     }
 }
 
+// No message that we accept is longer: the biggest ones carry a block of 16 KiB or a bitfield.
+const MAX_MESSAGE_LENGTH: u32 = 65536;
+
 fn has_messages(stream: &mut StreamInterface) -> bool {
     let mut buffer: [u8; 1] = [0x00; 1];
 
@@ -111,34 +120,29 @@ pub fn read_stream(stream: &mut StreamInterface) -> Option<(Vec<u8>, u8, u32)> {
 
     let mut buffer: [u8; 68] = [0x00; 68];
     if stream.peek(&mut buffer).ok() == Some(68) && buffer[0] == 0x13 {
-        if stream.read(&mut buffer).is_err() {
+        if stream.read_exact(&mut buffer).is_err() {
             return None;
         }
         return Some((buffer.to_vec(), 19, 68));
     }
 
     let mut buffer: [u8; 4] = [0x00; 4];
-    if stream.read(&mut buffer).is_err() {
+    if stream.peek(&mut buffer).ok() != Some(4) {
         return None;
     }
-    let mut length = u32::from_be_bytes(buffer);
-
-    let mut buffer: [u8; 1] = [0x00; 1];
-    if stream.read(&mut buffer).is_err() {
+    let length = u32::from_be_bytes(buffer);
+    if length > MAX_MESSAGE_LENGTH {
         return None;
     }
-    let id = buffer[0];
-
-    if length == 0 {
-        return Some((vec![], id, 0));
-    } else {
-        length -= 1
-    }
 
-    let mut body = vec![0; length as usize];
+    // The message is taken from the stream only when it has been recieved as a whole, together
+    // with its length, so that the next read always starts at the beginning of a message.
+    let mut message = vec![0; 4 + length as usize];
     for retry in 1..40 {
-        if peek_and_read(stream, &mut body, length as usize) {
-            return Some((body, id, length));
+        if peek_and_read(stream, &mut message, 4 + length as usize) {
+            // A message without an id is a keep alive
+            let id = *message.get(4)?;
+            return Some((message[5..].to_vec(), id, length - 1));
         }
         thread::sleep(time::Duration::from_millis(5 * retry));
     }
-- 
2.43.0


From 40f00f73cefaaa9008dc79ebb74fbbf9968ffdd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:56 +0000
Subject: [PATCH 09/14] fix: block requests never go past the end of the piece

---
 src/peer/download/block.rs | 20 +++++---------------
 src/peer/download/mod.rs   | 26 +++++++++++++++++---------
 2 files changed, 22 insertions(+), 24 deletions(-)

diff --git a/src/peer/download/block.rs b/src/peer/download/block.rs
index ccab021..8e9f50b 100644
--- a/src/peer/download/block.rs
+++ b/src/peer/download/block.rs
@@ -8,17 +8,11 @@ use crate::{
 pub fn next_block(
     block_size: usize,
     piece_index: usize,
-    total_length: usize,
-    piece_length: usize,
+    piece_size: usize,
 ) -> impl FnMut(&mut Peer, usize) {
     move |peer: &mut Peer, block_index: usize| {
         let block_offset = block_index * block_size;
-        let block_length = get_block_size(
-            block_offset,
-            total_length,
-            piece_index * piece_length,
-            block_size,
-        );
+        let block_length = get_block_size(block_offset, piece_size, block_size);
         peer.send_message(new_request(
             piece_index as u32,
             block_offset as u32,
@@ -31,11 +25,7 @@ pub fn message_filter() -> fn(&Message) -> bool {
     Message::is_request_message
 }
 
-fn get_block_size(
-    block_offset: usize,
-    torrent_length: usize,
-    piece_offset: usize,
-    block_size: usize,
-) -> usize {
-    cmp::min(torrent_length - (block_offset + piece_offset), block_size)
+// The last block of a piece ends with the piece
+fn get_block_size(block_offset: usize, piece_size: usize, block_size: usize) -> usize {
+    cmp::min(piece_size - block_offset, block_size)
 }
diff --git a/src/peer/download/mod.rs b/src/peer/download/mod.rs
index 07cbd06..a4805b7 100644
--- a/src/peer/download/mod.rs
+++ b/src/peer/download/mod.rs
@@ -1,6 +1,8 @@
 pub mod block;
 pub mod info;
 
+use std::cmp;
+
 use crate::peer::buffer::MessageBuffer;
 use crate::peer::Peer;
 
@@ -20,6 +22,8 @@ pub enum DownloadableError {
     Idle(),
     #[error("Peer without metadata exchange")]
     MetadataNotSupported(),
+    #[error("Piece that does not fit in a request")]
+    PieceNotAddressable(),
 }
 
 impl Downloadable {
@@ -39,12 +43,17 @@ impl Downloadable {
                 execute(peer, buffer)
             }
             Downloadable::Block((piece_length, piece_index, total_length)) => {
+                let piece_size = real_piece_length(*piece_length, *piece_index, *total_length);
+
+                // Piece index, block offset and block length are 32 bits wide in a request
+                if u32::try_from(*piece_index).is_err() || u32::try_from(piece_size).is_err() {
+                    return Err(DownloadableError::PieceNotAddressable());
+                }
+
                 let buffer = MessageBuffer::new(
                     block::message_filter(),
-                    block::next_block(BLOCK_SIZE, *piece_index, *total_length, *piece_length),
-                    (0..real_piece_length(*piece_length, *piece_index, *total_length))
-                        .step_by(BLOCK_SIZE)
-                        .len(),
+                    block::next_block(BLOCK_SIZE, *piece_index, piece_size),
+                    (0..piece_size).step_by(BLOCK_SIZE).len(),
                 );
 
                 execute(peer, buffer)
@@ -54,11 +63,10 @@ impl Downloadable {
 }
 
 fn real_piece_length(piece_length: usize, piece_index: usize, total_length: usize) -> usize {
-    if piece_length * (piece_index + 1) > total_length {
-        total_length - piece_length * piece_index
-    } else {
-        piece_length
-    }
+    cmp::min(
+        piece_length,
+        total_length.saturating_sub(piece_length.saturating_mul(piece_index)),
+    )
 }
 
 fn execute<F>(peer: &mut Peer, mut buffer: MessageBuffer<F>) -> Result<Vec<u8>, DownloadableError>
-- 
2.43.0


From 3e3ebf086ac60f7ee36b5de0d1d20ade5fccd221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:24 +0000
Subject: [PATCH 10/14] fix: write pieces only inside the download folder,
 completely, and report file system errors

---
 src/actors/writer.rs  |  9 ++++--
 src/torrent/writer.rs | 67 +++++++++++++++++++++++++++++++------------
 2 files changed, 54 insertions(+), 22 deletions(-)

diff --git a/src/actors/writer.rs b/src/actors/writer.rs
index 233f060..c6ee130 100644
--- a/src/actors/writer.rs
+++ b/src/actors/writer.rs
@@ -19,8 +19,11 @@ impl Handler<PieceReady> for WriterActor {
     type Result = Result<bool, std::io::Error>;
 
     fn handle(&mut self, msg: PieceReady, _ctx: &mut Self::Context) -> Self::Result {
-        let _ = write(msg.piece, msg.piece_idx, msg.files, msg.piece_length);
-
-        Ok(true)
+        write(msg.piece, msg.piece_idx, msg.files, msg.piece_length)
+            .map(|_| true)
+            .map_err(|err| {
+                log::error!("Piece {:?} not written: {}", msg.piece_idx, err);
+                std::io::Error::new(std::io::ErrorKind::Other, err)
+            })
     }
 }
diff --git a/src/torrent/writer.rs b/src/torrent/writer.rs
index e2201d0..7076885 100644
--- a/src/torrent/writer.rs
+++ b/src/torrent/writer.rs
@@ -1,5 +1,7 @@
 use std::cmp;
 use std::fs;
+use std::io;
+use std::path::{Component, Path};
 
 #[cfg(target_family = "unix")]
 use std::os::unix::prelude::FileExt;
@@ -10,7 +12,12 @@ use std::os::windows::prelude::FileExt;
 use crate::torrent::file::File;
 
 #[derive(thiserror::Error, Debug, Clone, PartialEq)]
-pub enum WriterError {}
+pub enum WriterError {
+    #[error("Path {0:?} does not name a file inside the download folder")]
+    UnsafePath(Vec<String>),
+    #[error("File system error: {0}")]
+    FileSystem(String),
+}
 
 pub fn write(
     piece: Vec<u8>,
@@ -18,9 +25,9 @@ pub fn write(
     files: Vec<File>,
     piece_length: usize,
 ) -> Result<(), WriterError> {
-    get_file_writers(files, piece, idx, piece_length)
-        .iter()
-        .for_each(|writer| writer.write_to_filesystem());
+    for writer in get_file_writers(files, piece, idx, piece_length) {
+        writer.write_to_filesystem()?;
+    }
 
     log::info!("Completed write to filesystem for piece {:?}", idx);
     Ok(())
@@ -45,26 +52,44 @@ impl FileWriter {
     }
 
     // TODO: Add optional folder where to save output
-    pub fn write_to_filesystem(&self) {
+    pub fn write_to_filesystem(&self) -> Result<(), WriterError> {
         let path_string = &self.path.join("/");
-        let path = std::path::Path::new(path_string);
-        let prefix = path.parent().unwrap();
-        std::fs::create_dir_all(prefix).unwrap();
+        let path = Path::new(path_string);
+        if !is_inside_folder(path) {
+            return Err(WriterError::UnsafePath(self.path.to_vec()));
+        }
+
+        self.write_to_path(path)
+            .map_err(|err| WriterError::FileSystem(err.to_string()))
+    }
+
+    fn write_to_path(&self, path: &Path) -> io::Result<()> {
+        if let Some(prefix) = path.parent() {
+            fs::create_dir_all(prefix)?;
+        }
 
-        let file = fs::OpenOptions::new()
-            .write(true)
-            .create(true)
-            .open(path)
-            .unwrap();
+        let file = fs::OpenOptions::new().write(true).create(true).open(path)?;
 
         #[cfg(target_family = "unix")]
-        file.write_at(&self.piece, self.start as u64).unwrap();
+        file.write_all_at(&self.piece, self.start as u64)?;
 
         #[cfg(target_family = "windows")]
-        file.seek_write(&self.piece, self.start as u64).unwrap();
+        if file.seek_write(&self.piece, self.start as u64)? != self.piece.len() {
+            return Err(io::ErrorKind::WriteZero.into());
+        }
+
+        Ok(())
     }
 }
 
+// The path comes from the torrent: it could be empty, absolute or go up with ..
+fn is_inside_folder(path: &Path) -> bool {
+    path.file_name().is_some()
+        && path
+            .components()
+            .all(|component| matches!(component, Component::Normal(_)))
+}
+
 struct FileParser {
     piece_length: usize,
     offset: usize,
@@ -75,7 +100,7 @@ struct FileParser {
 
 impl FileParser {
     fn new(piece_length: usize, piece_index: usize, default_piece_length: usize) -> FileParser {
-        let offset = piece_index * default_piece_length;
+        let offset = piece_index.saturating_mul(default_piece_length);
         FileParser {
             piece_length,
             offset,
@@ -90,11 +115,11 @@ impl FileParser {
     }
 
     fn update_right_file_boundary(&mut self, file_length: usize) {
-        self.right_file_boundary += file_length
+        self.right_file_boundary = self.right_file_boundary.saturating_add(file_length)
     }
 
     fn update_end_file_index(&mut self) {
-        self.end_file_index = cmp::min(self.right_file_boundary, self.offset + self.piece_length)
+        self.end_file_index = cmp::min(self.right_file_boundary, self.get_right_piece_boundary())
     }
 
     fn get_start_piece_index(&self) -> usize {
@@ -118,7 +143,11 @@ impl FileParser {
     }
 
     fn is_piece_finished(&self) -> bool {
-        self.offset + self.piece_length > self.right_file_boundary
+        self.get_right_piece_boundary() > self.right_file_boundary
+    }
+
+    fn get_right_piece_boundary(&self) -> usize {
+        self.offset.saturating_add(self.piece_length)
     }
 }
 
-- 
2.43.0


From 9390f28a21ca8435da09eb87b47f48dfa6ad1c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:51 +0000
Subject: [PATCH 11/14] fix: UDP tracker exchange is bounded in time and
 accepts only the response to its request

---
 src/tracker/udp_tracker.rs | 37 ++++++++++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/src/tracker/udp_tracker.rs b/src/tracker/udp_tracker.rs
index acdbdaf..ef3c8f6 100644
--- a/src/tracker/udp_tracker.rs
+++ b/src/tracker/udp_tracker.rs
@@ -1,4 +1,7 @@
+use std::time::Duration;
+
 use tokio::net::UdpSocket;
+use tokio::time::timeout;
 
 use url::Url;
 
@@ -16,8 +19,14 @@ pub enum UdpTrackerError {
     RecieveError(),
     #[error("Error in sending packet through socket")]
     SendError(),
+    #[error("Response that does not belong to the request")]
+    UnexpectedResponse(),
 }
 
+const RECIEVE_TIMEOUT: Duration = Duration::from_secs(3);
+const CONNECT_ACTION: [u8; 4] = [0x00, 0x00, 0x00, 0x00];
+const ANNOUNCE_ACTION: [u8; 4] = [0x00, 0x00, 0x00, 0x01];
+
 pub async fn call(
     info_hash: &[u8],
     peer_id: &str,
@@ -25,7 +34,7 @@ pub async fn call(
 ) -> Result<Vec<u8>, UdpTrackerError> {
     let socket = UdpSocket::bind("0.0.0.0:0")
         .await
-        .expect("couldn't bind to address");
+        .map_err(|_| UdpTrackerError::NoConnectionEstablished())?;
     let tracker_hostname = format!(
         "{}:{}",
         tracker_url
@@ -37,7 +46,7 @@ pub async fn call(
     socket
         .connect(tracker_hostname.clone())
         .await
-        .expect("Panico");
+        .map_err(|_| UdpTrackerError::NoConnectionEstablished())?;
 
     let transaction_id: &[u8] = &[0x00, 0x01, 0x19, 0x9e];
     let connection_id = connect_to_tracker(transaction_id, &socket).await?;
@@ -52,11 +61,14 @@ pub async fn call(
 
     let mut annouce_buf: [u8; 4000] = [0x00; 4000];
     let resp_size = read_upd_packet(&socket, &mut annouce_buf).await?;
-    if resp_size > 26 {
-        return Ok(annouce_buf[20..resp_size].to_vec());
+    if resp_size < 26 {
+        return Err(UdpTrackerError::WrongResponseSize());
+    }
+    if !is_response_to(&annouce_buf, ANNOUNCE_ACTION, transaction_id) {
+        return Err(UdpTrackerError::UnexpectedResponse());
     }
 
-    Err(UdpTrackerError::WrongResponseSize())
+    Ok(annouce_buf[20..resp_size].to_vec())
 }
 
 async fn connect_to_tracker(
@@ -72,8 +84,10 @@ async fn connect_to_tracker(
             log::error!("Send udp connect packet failed, retry number {}", retry);
         };
 
-        if read_upd_packet(socket, &mut buf).await.is_ok() {
-            return Ok(buf[8..].to_vec());
+        if let Ok(resp_size) = read_upd_packet(socket, &mut buf).await {
+            if resp_size == buf.len() && is_response_to(&buf, CONNECT_ACTION, transaction_id) {
+                return Ok(buf[8..].to_vec());
+            }
         }
     }
 
@@ -81,14 +95,19 @@ async fn connect_to_tracker(
 }
 
 async fn read_upd_packet(socket: &UdpSocket, buffer: &mut [u8]) -> Result<usize, UdpTrackerError> {
-    let (resp_size, _) = socket
-        .recv_from(buffer)
+    let (resp_size, _) = timeout(RECIEVE_TIMEOUT, socket.recv_from(buffer))
         .await
+        .map_err(|_| UdpTrackerError::RecieveError())?
         .map_err(|_| UdpTrackerError::RecieveError())?;
 
     Ok(resp_size)
 }
 
+// Every response starts with its action, followed by the transaction id of the request.
+fn is_response_to(response: &[u8], action: [u8; 4], transaction_id: &[u8]) -> bool {
+    response[..4] == action && &response[4..8] == transaction_id
+}
+
 async fn send_upd_packet(socket: &UdpSocket, message: &[u8]) -> Result<(), UdpTrackerError> {
     match socket.send(message).await {
         Ok(_) => Ok(()),
-- 
2.43.0


From 666a7eb7e1b3f3534b270bff8bc752fea4514108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:14 +0000
Subject: [PATCH 12/14] fix: reachability checks and http trackers no longer
 block the event loop

---
 src/actors/tracker.rs |  7 ++++++-
 src/tracker/mod.rs    | 12 +++++++++---
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/actors/tracker.rs b/src/actors/tracker.rs
index 617a7e6..848b7b9 100644
--- a/src/actors/tracker.rs
+++ b/src/actors/tracker.rs
@@ -1,4 +1,5 @@
 use actix::prelude::*;
+use tokio::task::spawn_blocking;
 use url::Url;
 
 use crate::{
@@ -32,7 +33,11 @@ impl Handler<TorrentRegistered> for TrackerActor {
 
             if let Ok(peers) = result {
                 for peer in peers {
-                    if PeerEndpoint::is_reachable(&peer.endpoint()) {
+                    let endpoint = peer.endpoint();
+                    let is_reachable =
+                        spawn_blocking(move || PeerEndpoint::is_reachable(&endpoint)).await;
+
+                    if is_reachable.unwrap_or(false) {
                         msg.torrent_actor_addr.do_send(PeerFound { peer });
                     }
                 }
diff --git a/src/tracker/mod.rs b/src/tracker/mod.rs
index f87a4d8..ed78565 100644
--- a/src/tracker/mod.rs
+++ b/src/tracker/mod.rs
@@ -5,6 +5,7 @@ mod udp_tracker;
 use crate::common::generator::generate_peer_id;
 
 use log::info;
+use tokio::task::spawn_blocking;
 use url::Url;
 
 use self::{
@@ -28,12 +29,17 @@ pub async fn get_peers_by_tracker(
     tracker: &Url,
     info_hash: &[u8],
 ) -> Result<Vec<PeerEndpoint>, TrackerError> {
-    let peer_id = &generate_peer_id();
+    let peer_id = generate_peer_id();
 
     // A tracker response struct with a get_peers method bound to a trait could be useful here ?
     let response = match tracker.scheme() {
-        "http" => tcp_tracker::call(info_hash, peer_id, tracker)?,
-        "udp" => udp_tracker::call(info_hash, peer_id, tracker).await?,
+        "http" => {
+            let (info_hash, url) = (info_hash.to_vec(), tracker.clone());
+            spawn_blocking(move || tcp_tracker::call(&info_hash, &peer_id, &url))
+                .await
+                .map_err(|_| TcpTrackerError::Connection(tracker.to_string()))??
+        }
+        "udp" => udp_tracker::call(info_hash, &peer_id, tracker).await?,
         scheme => Err(TrackerError::ProtocolNotSupported(scheme.to_string()))?,
     };
 
-- 
2.43.0


From a3a66e27ff942f08302f4250dc3071f456d3ad07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:26 +0000
Subject: [PATCH 13/14] fix: the download handshake carries the torrent's info
 hash, also when the info has extra keys

---
 src/actors/connection.rs | 7 ++++++-
 src/actors/messages.rs   | 1 +
 src/actors/torrent.rs    | 3 +++
 src/peer/manager.rs      | 3 ++-
 4 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/actors/connection.rs b/src/actors/connection.rs
index 23ecc05..7d2bcef 100644
--- a/src/actors/connection.rs
+++ b/src/actors/connection.rs
@@ -22,7 +22,12 @@ impl Handler<PieceRequested> for ConnectionActor {
     type Result = Result<bool, std::io::Error>;
 
     fn handle(&mut self, msg: PieceRequested, _ctx: &mut Self::Context) -> Self::Result {
-        match download(msg.endpoint.clone(), &msg.info, msg.piece_idx) {
+        match download(
+            msg.endpoint.clone(),
+            &msg.info_hash,
+            &msg.info,
+            msg.piece_idx,
+        ) {
             Ok(piece) => {
                 msg.torrent_actor.do_send(PieceDownloadSuccessfull {
                     endpoint: msg.endpoint.clone(),
diff --git a/src/actors/messages.rs b/src/actors/messages.rs
index 67f2a35..727879d 100644
--- a/src/actors/messages.rs
+++ b/src/actors/messages.rs
@@ -54,6 +54,7 @@ pub struct PieceReady {
 pub struct PieceRequested {
     pub endpoint: String,
     pub info: Info,
+    pub info_hash: Vec<u8>,
     pub piece_idx: usize,
     pub torrent_actor: Addr<TorrentActor>,
 }
diff --git a/src/actors/torrent.rs b/src/actors/torrent.rs
index e904fef..79fb025 100644
--- a/src/actors/torrent.rs
+++ b/src/actors/torrent.rs
@@ -71,6 +71,7 @@ impl Handler<PieceDownloadSuccessfull> for TorrentActor {
             let msg = PieceRequested {
                 piece_idx,
                 info: self.info.as_ref().unwrap().clone(),
+                info_hash: self.info_hash.clone(),
                 endpoint,
                 torrent_actor: ctx.address(),
             };
@@ -99,6 +100,7 @@ impl Handler<PieceDownloadFailed> for TorrentActor {
             let msg = PieceRequested {
                 piece_idx,
                 info: self.info.as_ref().unwrap().clone(),
+                info_hash: self.info_hash.clone(),
                 endpoint,
                 torrent_actor: ctx.address(),
             };
@@ -137,6 +139,7 @@ impl Handler<PeerFound> for TorrentActor {
                             let msg = PieceRequested {
                                 piece_idx,
                                 info: info.clone(),
+                                info_hash: self.info_hash.clone(),
                                 endpoint,
                                 torrent_actor: ctx.address(),
                             };
diff --git a/src/peer/manager.rs b/src/peer/manager.rs
index 90248cc..4ebe458 100644
--- a/src/peer/manager.rs
+++ b/src/peer/manager.rs
@@ -63,11 +63,12 @@ impl Context {
 
 pub fn download(
     endpoint: String,
+    info_hash: &[u8],
     info: &Info,
     piece_idx: usize,
 ) -> Result<Vec<u8>, PeerManagerError> {
     let stream = StreamInterface::connect(&endpoint, false)?;
-    let mut peer = Peer::new(stream, &info.compute_info_hash());
+    let mut peer = Peer::new(stream, info_hash);
     init_peer(&mut peer)?;
 
     let piece_length = info.get_piece_length();
-- 
2.43.0


From 36bf464bf476386e592c00fdfec8c7213b7e6ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:29 +0000
Subject: [PATCH 14/14] fix: fetch the metadata of a torrent away from the
 event loop

---
 src/actors/torrent.rs | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/actors/torrent.rs b/src/actors/torrent.rs
index 79fb025..2f3a800 100644
--- a/src/actors/torrent.rs
+++ b/src/actors/torrent.rs
@@ -14,6 +14,7 @@ use super::{
 
 use rand::seq::SliceRandom;
 use rand::thread_rng;
+use tokio::task::spawn_blocking;
 
 pub struct TorrentActor {
     connections_pool: Addr<ConnectionActor>,
@@ -119,14 +120,21 @@ impl Handler<PeerFound> for TorrentActor {
 
         match &self.info {
             None => {
-                if let Some(info) = collect_info(&self.info_hash, &msg.peer.endpoint()) {
-                    let piece_count = (0..info.get_total_length())
-                        .step_by(info.get_piece_length())
-                        .len();
-
-                    self.piece_available_pool = Some(PiecePool::new(piece_count));
-                    self.info = Some(info);
-                }
+                // The disk and the peer are slow: they must not block the event loop, only this actor.
+                let (info_hash, endpoint) = (self.info_hash.clone(), msg.peer.endpoint());
+                async move { spawn_blocking(move || collect_info(&info_hash, &endpoint)).await }
+                    .into_actor(self)
+                    .map(|info, actor, _ctx| {
+                        if let Ok(Some(info)) = info {
+                            let piece_count = (0..info.get_total_length())
+                                .step_by(info.get_piece_length())
+                                .len();
+
+                            actor.piece_available_pool = Some(PiecePool::new(piece_count));
+                            actor.info = Some(info);
+                        }
+                    })
+                    .wait(ctx);
 
                 return Ok(true);
             }
-- 
2.43.0

