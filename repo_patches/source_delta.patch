From d197be35104928fdc7eca2121c0100ccee1d9f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:32 +0000
Subject: [PATCH 01/15] fix: don't underflow when decoding the recovery code of
 an empty password

---
 pfp/src/recovery_codes.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pfp/src/recovery_codes.rs b/pfp/src/recovery_codes.rs
index a518462..d011070 100644
--- a/pfp/src/recovery_codes.rs
+++ b/pfp/src/recovery_codes.rs
@@ -220,10 +220,7 @@ pub fn decode(code: &str, primary_password: &SecretString) -> Result<SecretStrin
     let decrypted = crypto::decrypt_data(&encrypted, &encryption_key)?;
     let decrypted_len = decrypted.expose_secret().len();
     let mut end_pos = decrypted_len;
-    while let Some(&byte) = decrypted.expose_secret().get(end_pos - 1) {
-        if byte != 0 {
-            break;
-        }
+    while end_pos > 0 && decrypted.expose_secret()[end_pos - 1] == 0 {
         end_pos -= 1;
     }
     let stripped = if end_pos == decrypted_len {
-- 
2.43.0


From 21762cf7479976f0fc342984d07839ca6edba57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:32 +0000
Subject: [PATCH 02/15] fix: report a ciphertext with a wrong nonce size
 instead of panicking

---
 pfp/src/crypto.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pfp/src/crypto.rs b/pfp/src/crypto.rs
index b28e5eb..3491612 100644
--- a/pfp/src/crypto.rs
+++ b/pfp/src/crypto.rs
@@ -127,6 +127,9 @@ pub fn decrypt_data(value: &str, encryption_key: &SecretVec<u8>) -> Result<Secre
         value.split_once('_').ok_or(Error::InvalidCiphertext)?;
     let nonce_data =
         base64::decode(nonce_base64).map_err(|error| Error::InvalidBase64 { error })?;
+    if nonce_data.len() != AES_NONCE_SIZE / 8 {
+        return Err(Error::InvalidCiphertext);
+    }
     let nonce = aes_gcm::Nonce::from_slice(&nonce_data);
     let ciphertext =
         base64::decode(ciphertext_base64).map_err(|error| Error::InvalidBase64 { error })?;
-- 
2.43.0


From 6990d4b7303317c4dfb1392663c1e85e4c1d3463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:23 +0000
Subject: [PATCH 03/15] fix: repoint existing aliases when their target becomes
 an alias

An alias of a site that was turned into an alias itself kept pointing to
that site, so that the two no longer referred to the same passwords.
---
 pfp/src/passwords.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pfp/src/passwords.rs b/pfp/src/passwords.rs
index dd5bc60..43136a7 100644
--- a/pfp/src/passwords.rs
+++ b/pfp/src/passwords.rs
@@ -181,6 +181,17 @@ impl<IO: storage_io::StorageIO> Passwords<IO> {
 
         self.storage
             .set_alias(&site_normalized, &alias_resolved, hmac_secret, key)?;
+
+        // Existing aliases for this site have to follow it, aliases aren't resolved recursively.
+        let followers = self
+            .storage
+            .list_sites(key)
+            .filter(|other| other.alias() == Some(site_normalized.as_str()))
+            .collect::<Vec<_>>();
+        for follower in followers {
+            self.storage
+                .set_alias(follower.name(), &alias_resolved, hmac_secret, key)?;
+        }
         self.storage.flush()
     }
 
-- 
2.43.0


From 0ba4fcce8572c062227f9f9423ccd1c85885552e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:47 +0000
Subject: [PATCH 04/15] fix: replace the storage file atomically when saving

Writing in place truncated the file first: when writing failed or was
interrupted all stored passwords were lost.
---
 pfp/src/storage_io/file.rs | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/pfp/src/storage_io/file.rs b/pfp/src/storage_io/file.rs
index 597c734..52ed3be 100644
--- a/pfp/src/storage_io/file.rs
+++ b/pfp/src/storage_io/file.rs
@@ -8,11 +8,36 @@ use crate::error::Error;
 use crate::json::{const_serializable, Deserialize, Serialize};
 use std::collections::HashMap;
 use std::fs;
+use std::io::{self, Write};
 use std::path;
 
 const_serializable!(ApplicationName: String = "pfp");
 const_serializable!(Format: u8 = 3);
 
+/// Replaces the contents of a file in a single step, so that the previous contents aren't lost if
+/// writing the new contents fails or gets interrupted.
+fn write_atomically(path: &path::Path, contents: &[u8]) -> Result<(), io::Error> {
+    // Write to the target if path is a symbolic link, don't replace the link itself.
+    let path = fs::canonicalize(path).unwrap_or_else(|_| path.to_path_buf());
+    let mut temp_path = path.clone().into_os_string();
+    temp_path.push(".tmp");
+
+    let write_temp = || {
+        let mut file = fs::File::create(&temp_path)?;
+        if let Ok(metadata) = fs::metadata(&path) {
+            file.set_permissions(metadata.permissions())?;
+        }
+        file.write_all(contents)?;
+        file.sync_all()
+    };
+    write_temp()
+        .and_then(|_| fs::rename(&temp_path, &path))
+        .map_err(|error| {
+            let _ = fs::remove_file(&temp_path);
+            error
+        })
+}
+
 #[derive(Serialize, Deserialize, Debug)]
 #[serde(deny_unknown_fields)]
 /// File-based I/O implementation
@@ -82,6 +107,7 @@ impl super::StorageIO for FileIO {
         if let Some(parent) = parent {
             fs::create_dir_all(parent).map_err(|error| Error::CreateDirFailure { error })?;
         }
-        fs::write(&self.path, &contents).map_err(|error| Error::FileWriteFailure { error })
+        write_atomically(&self.path, contents.as_bytes())
+            .map_err(|error| Error::FileWriteFailure { error })
     }
 }
-- 
2.43.0


From 1d0d8fe8e68008a38a0b5aba87df5a0110007a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:06 +0000
Subject: [PATCH 05/15] fix: don't fail listing passwords if an alias target
 isn't stored

list attempted to remove the record of every site without passwords,
including alias targets that have no record.
---
 cli/src/processor/list.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cli/src/processor/list.rs b/cli/src/processor/list.rs
index 3432f46..c89244d 100644
--- a/cli/src/processor/list.rs
+++ b/cli/src/processor/list.rs
@@ -30,6 +30,10 @@ pub fn processor<IO: storage_io::StorageIO>(
         let mut empty_sites = Vec::new();
 
         let mut sites = passwords.list_sites(domain).collect::<Vec<Site>>();
+        let known_sites = sites
+            .iter()
+            .map(|site| site.name().to_string())
+            .collect::<std::collections::HashSet<String>>();
         let mut additions = Vec::new();
         for site in sites.iter() {
             if let Some(alias) = site.alias() {
@@ -59,7 +63,8 @@ pub fn processor<IO: storage_io::StorageIO>(
         for site in sites {
             let mut list = passwords.list(site.name(), name).collect::<Vec<Password>>();
             if list.is_empty() {
-                if name == "*" {
+                // Alias targets don't necessarily exist in storage, only remove those that do.
+                if name == "*" && known_sites.contains(site.name()) {
                     empty_sites.push(site.name().to_string());
                 }
                 continue;
-- 
2.43.0


From 1efc9f712492a4eb21b1c509536ea9309367b149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:48 +0000
Subject: [PATCH 06/15] fix: ask before replacing a file that cannot be loaded

---
 cli/src/main.rs | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/cli/src/main.rs b/cli/src/main.rs
index 7177bf9..bfcf70c 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -72,23 +72,19 @@ fn main_inner(args: Args) -> Result<(), String> {
     };
 
     let io = if let Commands::SetPrimary { assume_yes } = &args.command {
-        match FileIO::load(&storage_path) {
-            Ok(io) => {
-                if !assume_yes {
-                    let allow = question::Question::new(
-                        "Changing primary password will remove all existing data. Continue?",
-                    )
-                    .default(question::Answer::NO)
-                    .show_defaults()
-                    .confirm();
-                    if allow == question::Answer::NO {
-                        return Ok(());
-                    }
-                }
-                io
+        // A file that cannot be loaded is still data that would be lost.
+        if !assume_yes && storage_path.exists() {
+            let allow = question::Question::new(
+                "Changing primary password will remove all existing data. Continue?",
+            )
+            .default(question::Answer::NO)
+            .show_defaults()
+            .confirm();
+            if allow == question::Answer::NO {
+                return Ok(());
             }
-            Err(_) => FileIO::new(&storage_path),
         }
+        FileIO::load(&storage_path).unwrap_or_else(|_| FileIO::new(&storage_path))
     } else {
         FileIO::load(&storage_path).convert_error()?
     };
-- 
2.43.0


From 19b52d380da1e396dc0395c67397e51e8d3fa986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:51 +0000
Subject: [PATCH 07/15] fix: don't leave copies of secrets behind when
 serializing entries

---
 pfp/src/json/mod.rs | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/pfp/src/json/mod.rs b/pfp/src/json/mod.rs
index f95c477..f97cb22 100644
--- a/pfp/src/json/mod.rs
+++ b/pfp/src/json/mod.rs
@@ -7,7 +7,7 @@
 pub use serde::de::Deserialize as Deserializable;
 pub use serde::ser::Serialize as Serializable;
 pub use serde::*;
-pub use serde_json::{from_slice, from_str, json, to_string, to_vec, Error, Value};
+pub use serde_json::{from_slice, from_str, json, to_string, Error, Value};
 
 mod macros;
 
@@ -16,3 +16,27 @@ mod macros;
 pub use macros::*;
 
 pub mod secret_serialization;
+
+struct ByteCounter(usize);
+
+impl std::io::Write for ByteCounter {
+    fn write(&mut self, buffer: &[u8]) -> std::io::Result<usize> {
+        self.0 += buffer.len();
+        Ok(buffer.len())
+    }
+
+    fn flush(&mut self) -> std::io::Result<()> {
+        Ok(())
+    }
+}
+
+/// Serializes a value into a buffer allocated with its final size. The value might contain
+/// secrets, growing the buffer would leave copies of these behind in memory.
+pub fn to_vec<T: Serializable + ?Sized>(value: &T) -> Result<Vec<u8>, Error> {
+    let mut counter = ByteCounter(0);
+    serde_json::to_writer(&mut counter, value)?;
+
+    let mut result = Vec::with_capacity(counter.0);
+    serde_json::to_writer(&mut result, value)?;
+    Ok(result)
+}
-- 
2.43.0


From 2deb9d99b304330357bb6d505257e9d117769a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:51 +0000
Subject: [PATCH 08/15] fix: don't leave copies of long secrets behind when
 reading them

---
 cli/src/processor/utils.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cli/src/processor/utils.rs b/cli/src/processor/utils.rs
index e8bb9ba..82d51ca 100644
--- a/cli/src/processor/utils.rs
+++ b/cli/src/processor/utils.rs
@@ -9,7 +9,7 @@ use pfp::error::Error;
 use pfp::passwords::Passwords;
 use pfp::recovery_codes;
 use pfp::storage_io;
-use secrecy::{ExposeSecret, SecretString, SecretVec};
+use secrecy::{ExposeSecret, SecretString, SecretVec, Zeroize};
 use std::io::{Read, Write};
 
 fn format_error(error: &Error) -> String {
@@ -81,6 +81,13 @@ pub fn prompt_secret_text(prompt: &str) -> SecretString {
         if byte_buffer[0] == b'\n' {
             break;
         }
+        if buffer.len() == buffer.capacity() {
+            // Letting the buffer grow on its own would leave a copy of the secret in memory.
+            let mut larger = Vec::with_capacity(buffer.capacity() * 2);
+            larger.extend_from_slice(&buffer);
+            buffer.zeroize();
+            buffer = larger;
+        }
         buffer.push(byte_buffer[0]);
     }
 
-- 
2.43.0


From 4cd9929f5974150e22b746f5c86466cdf5405d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:47 +0000
Subject: [PATCH 09/15] fix: keep the keys in line with the storage if saving a
 reset fails

With writing out the storage failing, the storage was already cleared and
given a new salt and secret, yet the old keys stayed in use. Whatever was
added then could not be decrypted by anyone.
---
 pfp/src/passwords.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pfp/src/passwords.rs b/pfp/src/passwords.rs
index 43136a7..05a8a73 100644
--- a/pfp/src/passwords.rs
+++ b/pfp/src/passwords.rs
@@ -109,12 +109,12 @@ impl<IO: storage_io::StorageIO> Passwords<IO> {
         let hmac_secret = SecretVec::new(crypto::get_rng().gen::<[u8; 32]>().to_vec());
 
         self.storage.clear(&salt, &hmac_secret, &key)?;
-        self.storage.flush()?;
 
+        // The old key is no longer valid for the storage data, even if writing it out fails.
         self.key = Some(key);
         self.hmac_secret = Some(hmac_secret);
         self.primary_password = Some(primary_password);
-        Ok(())
+        self.storage.flush()
     }
 
     /// Unlocks the passwords storage with a given primary password.
-- 
2.43.0


From 755960b58fb7312f95fae7f2fd1b4e499168a40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:47 +0000
Subject: [PATCH 10/15] fix: report generated passwords that cannot exist
 instead of panicking

Stored data can ask for a password without any characters, of length 0 or of
a length that cannot be allocated.
---
 pfp/src/passwords.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/pfp/src/passwords.rs b/pfp/src/passwords.rs
index 05a8a73..8d1bc73 100644
--- a/pfp/src/passwords.rs
+++ b/pfp/src/passwords.rs
@@ -18,6 +18,9 @@ use crate::storage_types::{
 use rand::Rng;
 use secrecy::{SecretString, SecretVec};
 
+/// Larger lengths of generated passwords don't make sense, they indicate corrupt data.
+const MAX_PASSWORD_LENGTH: usize = 1024;
+
 /// Generates the storage data encryption key.
 ///
 /// The encryption key is always derived from a particular secret primary password. Salt should be a
@@ -336,12 +339,19 @@ impl<IO: storage_io::StorageIO> Passwords<IO> {
         )?;
 
         match password {
-            Password::Generated(password) => Ok(crypto::derive_password(
-                primary_password,
-                &password.salt(),
-                password.length(),
-                password.charset(),
-            )),
+            Password::Generated(password) => {
+                if password.charset().is_empty()
+                    || !(1..=MAX_PASSWORD_LENGTH).contains(&password.length())
+                {
+                    return Err(Error::UnexpectedData);
+                }
+                Ok(crypto::derive_password(
+                    primary_password,
+                    &password.salt(),
+                    password.length(),
+                    password.charset(),
+                ))
+            }
             Password::Stored(password) => Ok(password.password().clone()),
         }
     }
-- 
2.43.0


From f0271d83e77e366ff0f68aa4976aa0104aa33dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:47 +0000
Subject: [PATCH 11/15] fix: don't underflow with recovery codes of more than
 256 lines

---
 pfp/src/recovery_codes.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pfp/src/recovery_codes.rs b/pfp/src/recovery_codes.rs
index d011070..be3c8c4 100644
--- a/pfp/src/recovery_codes.rs
+++ b/pfp/src/recovery_codes.rs
@@ -103,10 +103,10 @@ pub fn generate(
             let block_index = pos / BLOCK_SIZE;
             let final_block = block_index == blocks - 1;
             let virtual_byte = if final_block {
-                255 - block_index
+                255 - block_index as u8
             } else {
-                block_index
-            } as u8;
+                block_index as u8
+            };
             output.push(crypto::pearson_hash(
                 &output[output.len() - BLOCK_SIZE..],
                 virtual_byte,
@@ -248,7 +248,7 @@ fn validate(code: &str) -> Result<Vec<u8>, Error> {
             break;
         }
 
-        if chunk[BLOCK_SIZE] == crypto::pearson_hash(&chunk[..BLOCK_SIZE], (255 - i) as u8) {
+        if chunk[BLOCK_SIZE] == crypto::pearson_hash(&chunk[..BLOCK_SIZE], 255 - i as u8) {
             seen_last = true;
             extra_row = None;
         } else if chunk[BLOCK_SIZE] != crypto::pearson_hash(&chunk[..BLOCK_SIZE], i as u8) {
-- 
2.43.0


From a7b8f2341b396cc59faa7279dda454f859233def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:31 +0000
Subject: [PATCH 12/15] fix: end with an error if input ends or isn't text

Unlocking asked for the primary password forever once input ended, and
notes -s took the end of input for new notes.
---
 cli/src/processor/add_stored.rs  |  2 +-
 cli/src/processor/notes.rs       |  2 +-
 cli/src/processor/set_primary.rs |  4 ++--
 cli/src/processor/utils.rs       | 33 +++++++++++++++++++-------------
 4 files changed, 24 insertions(+), 17 deletions(-)

diff --git a/cli/src/processor/add_stored.rs b/cli/src/processor/add_stored.rs
index ed94cc7..1d4bf12 100644
--- a/cli/src/processor/add_stored.rs
+++ b/cli/src/processor/add_stored.rs
@@ -40,7 +40,7 @@ pub fn processor<IO: storage_io::StorageIO>(
         let password = if *recovery {
             prompt_recovery_code(passwords)?
         } else {
-            prompt_password("Password to be stored: ", args.stdin_passwords)
+            prompt_password("Password to be stored: ", args.stdin_passwords)?
         };
         passwords
             .set_stored(domain, name, revision, password)
diff --git a/cli/src/processor/notes.rs b/cli/src/processor/notes.rs
index 82d6b62..55489fb 100644
--- a/cli/src/processor/notes.rs
+++ b/cli/src/processor/notes.rs
@@ -38,7 +38,7 @@ pub fn processor<IO: storage_io::StorageIO>(
         }
 
         if *set {
-            let notes = prompt_secret_text("Please enter new notes to be stored:");
+            let notes = prompt_secret_text("Please enter new notes to be stored:")?;
             let removing = notes.expose_secret().is_empty();
             passwords
                 .set_notes(domain, name, revision, notes)
diff --git a/cli/src/processor/set_primary.rs b/cli/src/processor/set_primary.rs
index db84443..f715b2c 100644
--- a/cli/src/processor/set_primary.rs
+++ b/cli/src/processor/set_primary.rs
@@ -15,12 +15,12 @@ pub fn processor<IO: storage_io::StorageIO>(
     storage_path: &std::path::Path,
     passwords: &mut Passwords<IO>,
 ) -> Result<(), String> {
-    let primary_password = prompt_password("New primary password: ", args.stdin_passwords);
+    let primary_password = prompt_password("New primary password: ", args.stdin_passwords)?;
     if primary_password.expose_secret().len() < 6 {
         return Err("Primary password length should be at least 6 characters.".to_owned());
     }
 
-    let primary_password2 = prompt_password("Repeat primary password: ", args.stdin_passwords);
+    let primary_password2 = prompt_password("Repeat primary password: ", args.stdin_passwords)?;
     if primary_password.expose_secret() != primary_password2.expose_secret() {
         return Err("Primary passwords don't match.".to_owned());
     }
diff --git a/cli/src/processor/utils.rs b/cli/src/processor/utils.rs
index 82d51ca..f211889 100644
--- a/cli/src/processor/utils.rs
+++ b/cli/src/processor/utils.rs
@@ -68,7 +68,7 @@ impl<T> ConvertError<T> for Result<T, Error> {
     }
 }
 
-pub fn prompt_secret_text(prompt: &str) -> SecretString {
+pub fn prompt_secret_text(prompt: &str) -> Result<SecretString, String> {
     StreamWriter::stdout()
         .unwrap()
         .write_all(prompt.as_bytes())
@@ -77,8 +77,14 @@ pub fn prompt_secret_text(prompt: &str) -> SecretString {
     let mut byte_buffer = [0];
     let mut buffer = Vec::with_capacity(1024);
     let mut stdin = StreamReader::stdin().unwrap();
-    while let Ok(1) = stdin.read(&mut byte_buffer) {
-        if byte_buffer[0] == b'\n' {
+    loop {
+        if let Ok(1) = stdin.read(&mut byte_buffer) {
+            if byte_buffer[0] == b'\n' {
+                break;
+            }
+        } else if buffer.is_empty() {
+            return Err("Failed reading input.".to_owned());
+        } else {
             break;
         }
         if buffer.len() == buffer.capacity() {
@@ -92,20 +98,21 @@ pub fn prompt_secret_text(prompt: &str) -> SecretString {
     }
 
     let input = SecretVec::new(buffer);
-    SecretString::new(
-        std::str::from_utf8(input.expose_secret().as_slice())
-            .unwrap()
-            .to_owned(),
-    )
+    std::str::from_utf8(input.expose_secret().as_slice())
+        .map(|text| SecretString::new(text.to_owned()))
+        .map_err(|error| format!("Failed reading input ({}).", error))
 }
 
-pub fn prompt_password(prompt: &str, stdin_passwords: bool) -> SecretString {
+pub fn prompt_password(prompt: &str, stdin_passwords: bool) -> Result<SecretString, String> {
     let secret = if stdin_passwords {
-        prompt_secret_text(prompt)
+        prompt_secret_text(prompt)?
     } else {
-        SecretString::new(rpassword::prompt_password(prompt).unwrap())
+        SecretString::new(
+            rpassword::prompt_password(prompt)
+                .map_err(|error| format!("Failed reading input ({}).", error))?,
+        )
     };
-    SecretString::new(secret.expose_secret().trim().to_owned())
+    Ok(SecretString::new(secret.expose_secret().trim().to_owned()))
 }
 
 pub fn ensure_unlocked_passwords<IO: storage_io::StorageIO>(
@@ -117,7 +124,7 @@ pub fn ensure_unlocked_passwords<IO: storage_io::StorageIO>(
     }
 
     while !passwords.unlocked() {
-        let primary_password = prompt_password("Your primary password: ", stdin_passwords);
+        let primary_password = prompt_password("Your primary password: ", stdin_passwords)?;
         if primary_password.expose_secret().len() < 6 {
             eprintln!("Primary password length should be at least 6 characters.");
         } else {
-- 
2.43.0


From 788186be7266632491842d2b3ce1efc088a976b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:45 +0000
Subject: [PATCH 13/15] fix: start the QR code on a line of its own

With its first row behind other text the QR code could not be scanned.
---
 cli/src/processor/show.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/src/processor/show.rs b/cli/src/processor/show.rs
index 1670500..91979f2 100644
--- a/cli/src/processor/show.rs
+++ b/cli/src/processor/show.rs
@@ -27,7 +27,7 @@ pub fn processor<IO: storage_io::StorageIO>(
 
         let password = passwords.get(domain, name, revision).convert_error()?;
         let mut stdout = StreamWriter::stdout().unwrap();
-        stdout.write_all(b"Password retrieved.").unwrap();
+        stdout.write_all(b"Password retrieved.\n").unwrap();
         if *qrcode {
             const BLOCKS: [&str; 4] = [" ", "\u{2580}", "\u{2584}", "\u{2588}"];
 
-- 
2.43.0


From dbdac6d2c38dc9776186f5ad902a743656c24055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:59 +0000
Subject: [PATCH 14/15] fix: count characters, not bytes, of a new primary
 password

---
 cli/src/processor/set_primary.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/src/processor/set_primary.rs b/cli/src/processor/set_primary.rs
index f715b2c..e66eb39 100644
--- a/cli/src/processor/set_primary.rs
+++ b/cli/src/processor/set_primary.rs
@@ -16,7 +16,7 @@ pub fn processor<IO: storage_io::StorageIO>(
     passwords: &mut Passwords<IO>,
 ) -> Result<(), String> {
     let primary_password = prompt_password("New primary password: ", args.stdin_passwords)?;
-    if primary_password.expose_secret().len() < 6 {
+    if primary_password.expose_secret().chars().count() < 6 {
         return Err("Primary password length should be at least 6 characters.".to_owned());
     }
 
-- 
2.43.0


From d2553911af03eeaa4d4eef54a9f403edbab25fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:04 +0000
Subject: [PATCH 15/15] fix: don't overwrite another file while saving the
 storage

---
 pfp/src/storage_io/file.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/pfp/src/storage_io/file.rs b/pfp/src/storage_io/file.rs
index 52ed3be..9263f47 100644
--- a/pfp/src/storage_io/file.rs
+++ b/pfp/src/storage_io/file.rs
@@ -14,16 +14,32 @@ use std::path;
 const_serializable!(ApplicationName: String = "pfp");
 const_serializable!(Format: u8 = 3);
 
+/// Creates a temporary file in the same directory as the given file. Files that exist already, be
+/// it from an interrupted run or belonging to somebody else, are left alone.
+fn create_temp(path: &path::Path) -> Result<(path::PathBuf, fs::File), io::Error> {
+    let mut index = 0u32;
+    loop {
+        let temp_path = path.with_file_name(format!(".pfp-{}.tmp", index));
+        match fs::OpenOptions::new()
+            .write(true)
+            .create_new(true)
+            .open(&temp_path)
+        {
+            Ok(file) => return Ok((temp_path, file)),
+            Err(error) if error.kind() == io::ErrorKind::AlreadyExists => index += 1,
+            Err(error) => return Err(error),
+        }
+    }
+}
+
 /// Replaces the contents of a file in a single step, so that the previous contents aren't lost if
 /// writing the new contents fails or gets interrupted.
 fn write_atomically(path: &path::Path, contents: &[u8]) -> Result<(), io::Error> {
     // Write to the target if path is a symbolic link, don't replace the link itself.
     let path = fs::canonicalize(path).unwrap_or_else(|_| path.to_path_buf());
-    let mut temp_path = path.clone().into_os_string();
-    temp_path.push(".tmp");
+    let (temp_path, mut file) = create_temp(&path)?;
 
-    let write_temp = || {
-        let mut file = fs::File::create(&temp_path)?;
+    let mut write_temp = || {
         if let Ok(metadata) = fs::metadata(&path) {
             file.set_permissions(metadata.permissions())?;
         }
-- 
2.43.0

