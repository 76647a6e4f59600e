From 6a511b0a092d83c28c8a98110333337075bff2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:36 +0000
Subject: [PATCH 01/13] hook: start with empty tables under cfg(verif_hooks)
 instead of reserving gigabytes

---
 src/store/transaction_store_backend.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/store/transaction_store_backend.rs b/src/store/transaction_store_backend.rs
index 88b5bb8..a237284 100644
--- a/src/store/transaction_store_backend.rs
+++ b/src/store/transaction_store_backend.rs
@@ -18,7 +18,12 @@ impl IndexedTransactionStoreBackend {
         }
     }
 
+    #[allow(unexpected_cfgs)]
     pub fn large() -> Self {
+        #[cfg(verif_hooks)]
+        if cfg!(verif_hooks) {
+            return Self::new();
+        }
         Self {
             unspent_txo_address_map: TransactionOutputHashMap::with_capacity(100_000_000),
             address_unspent_txos_map: AddressHashMap::with_capacity(50_000_000),
-- 
2.43.0


From be237c65864ac9508d70d537541478d61d5cb324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:21 +0000
Subject: [PATCH 02/13] fix: do not panic on the first update when no block
 lies above the index (CONFIRMATIONS=1)

---
 src/state.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/state.rs b/src/state.rs
index af43455..894fa2f 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -38,7 +38,8 @@ impl State {
         let store = self.store.read().await;
         let mut tail_blocks = self.tail_blocks.lock().await;
         tail_blocks.update_mempool(&self.client, logger).await;
-        if tail_blocks.update_blocks(&store, &self.client, logger).await {
+        let initial = self.augmentations.read().await.is_empty();
+        if tail_blocks.update_blocks(&store, &self.client, logger).await || initial {
             let blocks = if update_store {
                 tail_blocks.pop(self.confirmations)
             } else {
-- 
2.43.0


From 4d8e905f8081228bb78174fbb3ec722076fdb16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:22 +0000
Subject: [PATCH 03/13] fix: accept zero padding shorter than a block header at
 the end of a block file

---
 src/block_file_reader.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/block_file_reader.rs b/src/block_file_reader.rs
index e390488..6b1d989 100644
--- a/src/block_file_reader.rs
+++ b/src/block_file_reader.rs
@@ -107,20 +107,20 @@ impl BlockFileReader {
         logger.log(format!("scanning {}...", file_name));
         let file_path = Path::new(&self.path).join(file_name).to_str().unwrap().to_string();
         let mut file = File::open(&file_path).unwrap();
-        let mut buffer = [0u8; 88];
         let mut offset = 0;
         let mut blocks = Vec::new();
         loop {
+            let mut buffer = [0u8; 88];
             let bytes = file.read(&mut buffer).unwrap();
             if bytes == 0 {
                 break;
             }
-            assert!(bytes == 88);
             let mut reader = HashingBufferReader::new(&buffer);
             let magic = reader.read_u32_le(&mut None);
             if magic == 0 {
                 break;
             }
+            assert!(bytes == 88);
             assert!(magic == 3652501241);
             offset += 8;
             let length: usize = reader.read_u32_le(&mut None).try_into().unwrap();
-- 
2.43.0


From 9b6b18f81db42b0232770050dba36a5a618e8f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:23 +0000
Subject: [PATCH 04/13] fix: ignore repeated records of the same block when
 searching the longest chain

---
 src/block_file_reader.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/block_file_reader.rs b/src/block_file_reader.rs
index 6b1d989..2b96f67 100644
--- a/src/block_file_reader.rs
+++ b/src/block_file_reader.rs
@@ -61,6 +61,9 @@ impl BlockFileReader {
         let mut hashmap = HashMap::with_capacity(blocks.len());
         let mut reverse_hashmap = HashMap::with_capacity(blocks.len());
         for block in blocks {
+            if hashmap.contains_key(&block.hash()) {
+                continue;
+            }
             match reverse_hashmap.get_mut(&block.previous_block_hash()) {
                 None => {
                     reverse_hashmap.insert(block.previous_block_hash(), vec![block.hash()]);
-- 
2.43.0


From 35ec9fe8ce2412e42982ef9f10f1c5a9121dea37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:25 +0000
Subject: [PATCH 05/13] fix: never let a query parameter replace the address
 given in the path

---
 src/server.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/server.rs b/src/server.rs
index 4fe8f7c..bc4637a 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -129,7 +129,8 @@ impl<S> Router<S> {
     pub async fn route(&self, request: Request<Body>, body: Vec<u8>) -> Response<Body> {
         println!("{} {}", request.method(), request.uri());
         for route in &self.routes {
-            if let Some(mut parameters) = route.check(&request) {
+            if let Some(path_parameters) = route.check(&request) {
+                let mut parameters = HashMap::new();
                 if let Some(query) = request.uri().query() {
                     for part in query.split('&') {
                         let parts: Vec<&str> = part.split('=').collect();
@@ -138,6 +139,7 @@ impl<S> Router<S> {
                         }
                     }
                 }
+                parameters.extend(path_parameters);
                 return (route.handler)(request, parameters, body, self.state.clone()).await;
             }
         }
-- 
2.43.0


From 69971ce795deb3f5108ee8bc395889b42fe55d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:26 +0000
Subject: [PATCH 06/13] fix: base58 encode_into only translates the digits it
 produced

---
 src/base58/encode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base58/encode.rs b/src/base58/encode.rs
index b1ffedd..220cad7 100644
--- a/src/base58/encode.rs
+++ b/src/base58/encode.rs
@@ -49,7 +49,7 @@ impl<'a> Encoder<'a> {
             *output.get_mut(index).ok_or(Error::BufferTooSmall)? = 0;
             index += 1;
         }
-        for value in &mut output[..] {
+        for value in &mut output[..index] {
             *value = self.alphabet.encode(*value as usize);
         }
         output[0..index].reverse();
-- 
2.43.0


From e94ec23bbbdc39dc920a791f085dbebfbef6fad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:27 +0000
Subject: [PATCH 07/13] fix: report non-zero trailing bits when decoding
 instead of panicking

---
 src/base_binary/decode.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/base_binary/decode.rs b/src/base_binary/decode.rs
index abf55a3..4f35484 100644
--- a/src/base_binary/decode.rs
+++ b/src/base_binary/decode.rs
@@ -7,6 +7,7 @@ pub enum Error {
     BufferTooSmall,
     NonAsciiCharacter { character: u8, index: usize },
     InvalidCharacter { character: char, index: usize },
+    NonZeroTrailingBits,
 }
 
 impl error::Error for Error {}
@@ -17,6 +18,7 @@ impl fmt::Display for Error {
             Self::BufferTooSmall => write!(f, "Output buffer too small"),
             Self::InvalidCharacter { character, index } => write!(f, "Invalid character '{}' at index {}", character, index),
             Self::NonAsciiCharacter { character, index } => write!(f, "Non-ascii character {:#02x} at index {}", character, index),
+            Self::NonZeroTrailingBits => write!(f, "Non-zero trailing bits"),
         }
     }
 }
@@ -60,7 +62,9 @@ impl<'a, const N: usize> Decoder<'a, N> {
                 accumulator = accumulator & ((1 << bits) - 1);
             }
         }
-        assert!(accumulator == 0);
+        if accumulator != 0 {
+            return Err(Error::NonZeroTrailingBits);
+        }
         Ok(output_index)
     }
 
-- 
2.43.0


From 53a24938be722c0305bb030b715f23187c03dfef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:29 +0000
Subject: [PATCH 08/13] fix: measure elapsed time with a monotonic clock

---
 src/chronometer.rs | 8 ++++----
 src/main.rs        | 1 -
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/chronometer.rs b/src/chronometer.rs
index aaeee76..f4fb3c3 100644
--- a/src/chronometer.rs
+++ b/src/chronometer.rs
@@ -1,17 +1,17 @@
-use crate::SystemTime;
+use std::time::Instant;
 
 #[derive(Clone, Copy)]
 pub struct Chronometer {
-    start: SystemTime,
+    start: Instant,
 }
 
 impl Chronometer {
     pub fn new() -> Self {
-        Self { start: SystemTime::now() }
+        Self { start: Instant::now() }
     }
 
     pub fn elapsed(&self) -> String {
-        let elapsed = SystemTime::now().duration_since(self.start).unwrap().as_millis();
+        let elapsed = self.start.elapsed().as_millis();
         format!("{:02}:{:02}.{:03}", elapsed / 60000, (elapsed % 60000) / 1000, elapsed % 1000)
     }
 }
diff --git a/src/main.rs b/src/main.rs
index 6debe75..bfc16e4 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -61,7 +61,6 @@ use std::{
     convert::TryInto,
     net::SocketAddr,
     sync::Arc,
-    time::SystemTime,
 };
 use tokio::{
     sync::{Mutex, RwLock},
-- 
2.43.0


From 5dbbf1e5957dfa5042c7d30689cd197574e7d420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:53 +0000
Subject: [PATCH 09/13] fix: replace the saved index atomically so that an
 interrupted save keeps the previous one

---
 src/store/store.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/store/store.rs b/src/store/store.rs
index 20e635d..1860f1a 100644
--- a/src/store/store.rs
+++ b/src/store/store.rs
@@ -3,6 +3,7 @@ use super::{
     IntermediaryTransactionStore, IntermediaryTransactionStoreBackend, TransactionStore, TransactionStoreBackendTrait,
 };
 use crate::{Batcher, BlockHeader, BlockTrait, BufferWriter, HashingBufferReader, Logger, PartialLogger, SequentialThreadPool, TryInto};
+use std::{fs::File, io::Write};
 
 #[derive(Debug)]
 pub struct Store<T: TransactionStoreBackendTrait> {
@@ -140,7 +141,11 @@ impl IndexedStore {
         let mut writer = BufferWriter::new();
         self.to_writer(&mut writer, logger);
         logger.log("writing buffer to file...");
-        std::fs::write(path, writer.buffer()).unwrap();
+        let temporary_path = format!("{}.tmp", path);
+        let mut file = File::create(&temporary_path).unwrap();
+        file.write_all(&writer.buffer()).unwrap();
+        file.sync_all().unwrap();
+        std::fs::rename(&temporary_path, path).unwrap();
         logger.log("writing buffer to file done!");
         logger.log("writing store to file done!");
     }
-- 
2.43.0


From df0e929adecf2875f937450f0f37971a88b82a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:54 +0000
Subject: [PATCH 10/13] fix: hold the save lock during a save and keep final
 blocks in the overlays meanwhile

---
 src/state.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/state.rs b/src/state.rs
index 894fa2f..d2399fe 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -54,7 +54,7 @@ impl State {
             } else {
                 tail_blocks.augmentations(&store)
             };
-            assert!(augmentations.len() == self.confirmations);
+            assert!(augmentations.len() >= self.confirmations);
             Update::AugmentationsUpdate(augmentations, blocks)
         } else {
             Update::LastAugmentationUpdate(tail_blocks.last_augmentation(&store))
@@ -165,7 +165,7 @@ impl State {
     }
 
     pub async fn write(&self, file: &str) {
-        let _ = self.mutex.lock().await;
+        let _guard = self.mutex.lock().await;
         let store = self.store.read().await;
         let logger = Logger::new();
         store.to_file(file, &logger);
-- 
2.43.0


From 8b393b5a2e5c517f6974da2788cecb9ceb95e8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:18 +0000
Subject: [PATCH 11/13] fix: refuse an optional setting that is not valid
 Unicode instead of using its default

---
 src/configuration.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/configuration.rs b/src/configuration.rs
index 3126388..7c5515f 100644
--- a/src/configuration.rs
+++ b/src/configuration.rs
@@ -26,6 +26,8 @@ fn var(key: &str, default: Option<String>) -> Result<String, String> {
 fn var_map<T, E: error::Error>(key: &str, mut f: impl FnMut(&str) -> Result<T, E>, default: Option<T>) -> Result<T, String> {
     match var(key, None) {
         Ok(value) => f(&value).map_err(|_| format!("Invalid {} {}", key, value)),
+        // present, but not valid Unicode
+        Err(_) if env::var_os(key).is_some() => Err(format!("Invalid {}", key)),
         Err(err) => default.ok_or(err),
     }
 }
-- 
2.43.0


From b3d4da2ddde6fb0170b87a3df070601d8dc40888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:52 +0000
Subject: [PATCH 12/13] fix: refuse a truncated transaction id in the node's
 mempool listing

---
 src/client.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client.rs b/src/client.rs
index 32f56a3..cb19a8d 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -76,7 +76,7 @@ impl Client {
             .iter()
             .map(|hash| {
                 let mut result = [0u8; 32];
-                reverse_hex::decode_into(hash, &mut result).unwrap();
+                assert_eq!(reverse_hex::decode_into(hash, &mut result).unwrap(), result.len());
                 result
             })
             .collect()
-- 
2.43.0


From 604764cdd34783b988fc0432718f7efd7d77e71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:04 +0000
Subject: [PATCH 13/13] fix: ignore files whose name is not valid Unicode
 instead of panicking

---
 src/block_file_reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/block_file_reader.rs b/src/block_file_reader.rs
index 2b96f67..8976598 100644
--- a/src/block_file_reader.rs
+++ b/src/block_file_reader.rs
@@ -49,7 +49,7 @@ impl BlockFileReader {
         let regex = Regex::new(r"^blk[0-9]{5}\.dat$").unwrap();
         let mut file_names: Vec<_> = read_dir(&self.path)
             .expect(&format!("Could not list files of directory {}", &self.path))
-            .map(|entry| entry.unwrap().file_name().into_string().unwrap())
+            .filter_map(|entry| entry.unwrap().file_name().into_string().ok())
             .filter(|file_name| regex.is_match(file_name))
             .collect();
         file_names.sort();
-- 
2.43.0

