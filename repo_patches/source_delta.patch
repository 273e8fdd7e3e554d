From 84fa18f0398e16b50f25b3cfb85149c6606e1621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:57 +0000
Subject: [PATCH 01/29] fix: refuse truncated program files instead of
 panicking

---
 src/calculator/file/from_8xp.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/calculator/file/from_8xp.rs b/src/calculator/file/from_8xp.rs
index 766852d..e7b4927 100644
--- a/src/calculator/file/from_8xp.rs
+++ b/src/calculator/file/from_8xp.rs
@@ -18,6 +18,18 @@ pub fn create_from_8xp(
         Err(err) => return Err(TiToolsError::FileRead(err)),
     };
 
+    // header, metadata and checksum must be present, only the body may be empty
+    let metadata_length = match file_type {
+        ProgramFileType::XPThree | ProgramFileType::XPTwo => 17,
+        _ => 19,
+    };
+    if bytes.len() < 55 + metadata_length + 2 {
+        return Err(TiToolsError::FileRead(format!(
+            "{} bytes are too short for a program file",
+            bytes.len()
+        )));
+    }
+
     let (header_bytes, bytes) = bytes.split_at(55);
     let (metadata_bytes, bytes) = match file_type {
         ProgramFileType::XP => bytes.split_at(19),
-- 
2.43.0


From 09824777392235d79efe44b952c939cf39142c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:59 +0000
Subject: [PATCH 02/29] fix: do not treat json files as 8xp files

---
 src/calculator/program.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calculator/program.rs b/src/calculator/program.rs
index 755ce1e..b511bd8 100644
--- a/src/calculator/program.rs
+++ b/src/calculator/program.rs
@@ -403,7 +403,7 @@ pub enum ProgramFileType {
 
 impl ProgramFileType {
     pub fn is_8xp(&self) -> bool {
-        !matches!(self, ProgramFileType::TXT)
+        !matches!(self, ProgramFileType::TXT | ProgramFileType::JSON)
     }
 
     pub fn is_txt(&self) -> bool {
-- 
2.43.0


From b6efebc6093f5116eed9b0cf63f3d48aa9320da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:01 +0000
Subject: [PATCH 03/29] fix: report a non UTF-8 file extension instead of
 panicking

---
 src/calculator/program.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calculator/program.rs b/src/calculator/program.rs
index b511bd8..5ac0dfe 100644
--- a/src/calculator/program.rs
+++ b/src/calculator/program.rs
@@ -434,7 +434,7 @@ pub fn get_file_type(path: &Path) -> Result<ProgramFileType, TiToolsError> {
             Some("txt") => Ok(ProgramFileType::TXT),
             Some("json") => Ok(ProgramFileType::JSON),
             _ => Err(TiToolsError::InvalidExtension(
-                ext.to_str().unwrap().to_string(),
+                ext.to_string_lossy().to_string(),
             )),
         },
         None => Err(TiToolsError::MissingExtension),
-- 
2.43.0


From fb44e69beb75207af6a718f0052eb1b0741a49ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:17 +0000
Subject: [PATCH 04/29] fix: write the model to json under the name it is read
 back by

---
 src/calculator/models.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/calculator/models.rs b/src/calculator/models.rs
index 49a21d4..e982665 100644
--- a/src/calculator/models.rs
+++ b/src/calculator/models.rs
@@ -81,7 +81,7 @@ impl PartialEq for ModelDetails {
     }
 }
 
-#[derive(Debug, Eq, Clone, Serialize)]
+#[derive(Debug, Eq, Clone)]
 pub enum Model {
     TI82,
     TI83,
@@ -116,6 +116,13 @@ impl PartialEq for Model {
     }
 }
 
+// written as the name that from_string reads back
+impl Serialize for Model {
+    fn serialize<S: serde::Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
+        serializer.serialize_str(&self.to_string())
+    }
+}
+
 impl Model {
     pub fn from_string(model: &str) -> Model {
         match model {
-- 
2.43.0


From 4e8872335e8329fa6a78904405e0390dec5f05e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:17 +0000
Subject: [PATCH 05/29] fix: recognise the TI-83 by its signature

---
 src/calculator/models.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/calculator/models.rs b/src/calculator/models.rs
index e982665..4537739 100644
--- a/src/calculator/models.rs
+++ b/src/calculator/models.rs
@@ -24,6 +24,7 @@ impl ModelDetails {
         match byte {
             0x00 => match signature {
                 "**TI83F*" => Ok(ModelDetails::new(Model::Latest, "**TI83F*", 0x00, "en")),
+                "**TI83**" => Ok(ModelDetails::new(Model::TI83, "**TI83**", 0x00, "en")),
                 _ => Ok(ModelDetails::new(Model::TI82, "**TI82**", 0x00, "en")),
             },
             0x04 => Ok(ModelDetails::new(Model::TI83Plus, "**TI83F*", 0x04, "en")),
-- 
2.43.0


From 5533f6d8b7c545bcffd6d1a14f58e86b6f066fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:19 +0000
Subject: [PATCH 06/29] fix: choose among equally long token matches
 deterministically

---
 src/calculator/tokens/mod.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/calculator/tokens/mod.rs b/src/calculator/tokens/mod.rs
index c4b557a..bde6681 100644
--- a/src/calculator/tokens/mod.rs
+++ b/src/calculator/tokens/mod.rs
@@ -125,7 +125,11 @@ impl Map {
                 DisplayMode::TiAscii => &translation.ti_ascii,
             };
 
-            if value.starts_with(translation) && translation.len() > longest_length {
+            // equally long matches are settled by the key, not by the order of the map
+            if value.starts_with(translation)
+                && (translation.len() > longest_length
+                    || (translation.len() == longest_length && token.as_str() < longest_key))
+            {
                 longest_key = token;
                 longest_value = translation.to_string();
                 longest_length = translation.len();
@@ -155,7 +159,10 @@ impl Map {
                 DisplayMode::TiAscii => &translation.ti_ascii,
             };
 
-            if value.starts_with(translation) && translation.len() < shortest_length {
+            if value.starts_with(translation)
+                && (translation.len() < shortest_length
+                    || (translation.len() == shortest_length && token.as_str() < shortest_key))
+            {
                 shortest_key = token;
                 shortest_value = translation.to_string();
                 shortest_length = translation.len();
-- 
2.43.0


From 0d30966c06bdb4f72409c9246755ce32d29b74f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:33 +0000
Subject: [PATCH 07/29] fix: keep the display mode of a text file when saving
 it again

---
 src/calculator/file/from_txt.rs | 12 +++++++++---
 src/calculator/program.rs       | 15 ++++++++-------
 2 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/calculator/file/from_txt.rs b/src/calculator/file/from_txt.rs
index 7987ee1..82faf24 100644
--- a/src/calculator/file/from_txt.rs
+++ b/src/calculator/file/from_txt.rs
@@ -9,7 +9,7 @@ use std::path::PathBuf;
 pub fn create_from_txt(
     path: PathBuf,
     encode_mode: &EncodeMode,
-) -> Result<(Header, Metadata, Body, Checksum, ModelDetails), TiToolsError> {
+) -> Result<(Header, Metadata, Body, Checksum, ModelDetails, DisplayMode), TiToolsError> {
     let file_string = match std::fs::read_to_string(&path) {
         Ok(file_string) => file_string,
         Err(err) => return Err(TiToolsError::FileRead(err.to_string())),
@@ -63,7 +63,13 @@ pub fn create_from_txt(
         .collect::<Vec<&str>>()
         .join("\n");
 
-    let body_bytes = encode(&body_string, &tokens, true, display_mode, encode_mode)?;
+    let body_bytes = encode(
+        &body_string,
+        &tokens,
+        true,
+        display_mode.clone(),
+        encode_mode,
+    )?;
 
     let mut header_bytes = Vec::new();
     let signature = &model_details.signature.to_string();
@@ -126,7 +132,7 @@ pub fn create_from_txt(
 
     let body = Body::new(body_bytes, body_string);
 
-    Ok((header, metadata, body, checksum, model_details))
+    Ok((header, metadata, body, checksum, model_details, display_mode))
 }
 
 fn create_comment() -> String {
diff --git a/src/calculator/program.rs b/src/calculator/program.rs
index 5ac0dfe..5c41087 100644
--- a/src/calculator/program.rs
+++ b/src/calculator/program.rs
@@ -80,19 +80,20 @@ impl Program {
             Err(err) => return Err(err),
         };
 
-        let (header, metadata, body, checksum, model) = match create_from_txt(path, encode_mode) {
-            Ok((header, metadata, body, checksum, model)) => {
-                (header, metadata, body, checksum, model)
-            }
-            Err(err) => return Err(err),
-        };
+        let (header, metadata, body, checksum, model, display_mode) =
+            match create_from_txt(path, encode_mode) {
+                Ok((header, metadata, body, checksum, model, display_mode)) => {
+                    (header, metadata, body, checksum, model, display_mode)
+                }
+                Err(err) => return Err(err),
+            };
 
         let program = Program {
             header,
             metadata,
             body,
             checksum,
-            display_mode: DisplayMode::Accessible,
+            display_mode,
             model,
         };
 
-- 
2.43.0


From 7828f3ad2e1d5dc9e307e2ee7febc472b9722e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:47 +0000
Subject: [PATCH 08/29] fix: write the checksum that belongs to the edited
 program

---
 src/calculator/program.rs | 21 ++++++++++++++++++++-
 src/commands/edit/mod.rs  |  4 +++-
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/calculator/program.rs b/src/calculator/program.rs
index 5c41087..aceb802 100644
--- a/src/calculator/program.rs
+++ b/src/calculator/program.rs
@@ -171,7 +171,7 @@ impl Program {
                 output_bytes.extend(self.header.bytes.to_vec());
                 output_bytes.extend(self.metadata.bytes.to_vec());
                 output_bytes.extend(self.body.bytes.to_vec());
-                output_bytes.extend(self.checksum.bytes.to_vec());
+                output_bytes.extend(self.calculate_checksum().to_le_bytes());
 
                 write_to_file(path, output_bytes)?
             }
@@ -203,6 +203,25 @@ impl Program {
         Ok(())
     }
 
+    /// The low 16 bits of the sum of all metadata and body bytes
+    fn calculate_checksum(&self) -> u16 {
+        let sum: u64 = self
+            .metadata
+            .bytes
+            .iter()
+            .chain(self.body.bytes.iter())
+            .map(|&byte| byte as u64)
+            .sum();
+
+        sum as u16
+    }
+
+    /// Brings the checksum in line with the metadata and body after an edit
+    pub fn update_checksum(&mut self) {
+        let checksum = self.calculate_checksum();
+        self.checksum = Checksum::new(checksum.to_le_bytes().to_vec(), checksum);
+    }
+
     pub fn to_string(&self) -> String {
         format!(
             "{}\n{}\nTotal Size: {} bytes\nBody Size: {} bytes\n----- Status -----\nmodel: {}\nlanguage: {}\nDestination: {}\nFile Type: {}\n----- Program -----\n{}",
diff --git a/src/commands/edit/mod.rs b/src/commands/edit/mod.rs
index f6e17ca..f6f496d 100644
--- a/src/commands/edit/mod.rs
+++ b/src/commands/edit/mod.rs
@@ -20,11 +20,13 @@ fn load_program(input_path: &Path) -> Program {
 }
 
 fn save_edits(
-    program: Program,
+    mut program: Program,
     input_path: &PathBuf,
     new_file_path: Option<String>,
     delete_old: bool,
 ) {
+    program.update_checksum();
+
     if new_file_path.is_none() {
         let result = program.save_to(&input_path.to_path_buf());
 
-- 
2.43.0


From 143d8e3e3f2ecf10357e7f706bf5456f10c9f8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:32 +0000
Subject: [PATCH 09/29] fix: translate 82p and 83p metadata into complete 8xp
 metadata

---
 src/calculator/file/from_8xp.rs | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/calculator/file/from_8xp.rs b/src/calculator/file/from_8xp.rs
index e7b4927..e662d35 100644
--- a/src/calculator/file/from_8xp.rs
+++ b/src/calculator/file/from_8xp.rs
@@ -73,6 +73,13 @@ pub fn create_from_8xp(
         .collect::<String>();
 
     let metadata_and_body_length = [header_bytes[53], header_bytes[54]];
+    let metadata_and_body_length = match file_type {
+        ProgramFileType::XPThree | ProgramFileType::XPTwo => {
+            ((body_bytes.len() + 19) as u16).to_le_bytes()
+        }
+        _ => metadata_and_body_length,
+    };
+    let header_bytes = [&header_bytes[..53], &metadata_and_body_length].concat();
 
     let header = Header::new(
         header_bytes.to_vec(),
@@ -120,16 +127,18 @@ pub fn create_from_8xp(
             new_metadata_bytes.push(0x00);
             let body_and_checksum_length = (body_bytes.len() + 2) as u16;
             new_metadata_bytes.extend(body_and_checksum_length.to_le_bytes());
-            new_metadata_bytes.push(0x05);
+            let file_type = FileType::from_byte(metadata_bytes[4])?;
+            new_metadata_bytes.push(file_type.to_byte());
             let name = metadata_bytes[5..13]
                 .iter()
                 .filter(|byte| **byte != 0x00)
                 .map(|byte| *byte as char)
                 .collect::<String>();
-            new_metadata_bytes.extend(name.as_bytes());
-            new_metadata_bytes.push(0x00);
+            new_metadata_bytes.extend(&metadata_bytes[5..13]);
+            new_metadata_bytes.push(0x00); // version
+            new_metadata_bytes.push(Destination::RAM.to_byte());
             new_metadata_bytes.extend(body_and_checksum_length.to_le_bytes());
-            let body_length = (body_bytes.len() + 2) as u16;
+            let body_length = body_bytes.len() as u16;
             new_metadata_bytes.extend(body_length.to_le_bytes());
 
             Metadata::new(
@@ -137,7 +146,7 @@ pub fn create_from_8xp(
                 0x0D,
                 0x00,
                 body_and_checksum_length,
-                FileType::Program,
+                file_type,
                 name,
                 0x00,
                 Destination::RAM,
@@ -163,6 +172,19 @@ pub fn create_from_8xp(
     let body = Body::new(body_bytes.to_vec(), translation);
 
     // checksum translation
+    let checksum_bytes = match file_type {
+        ProgramFileType::XPThree | ProgramFileType::XPTwo => {
+            let sum: u64 = metadata
+                .bytes
+                .iter()
+                .chain(body_bytes)
+                .map(|&byte| byte as u64)
+                .sum();
+
+            (sum as u16).to_le_bytes().to_vec()
+        }
+        _ => checksum_bytes.to_vec(),
+    };
     let checksum_value = u16::from_le_bytes([checksum_bytes[0], checksum_bytes[1]]);
 
     let checksum = Checksum::new(checksum_bytes.to_vec(), checksum_value);
-- 
2.43.0


From 31a204218bec911351d75303cd1310fc8a95deb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:34 +0000
Subject: [PATCH 10/29] fix: save 82p and 83p files in their own layout

---
 src/calculator/program.rs | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/calculator/program.rs b/src/calculator/program.rs
index aceb802..26ac2ac 100644
--- a/src/calculator/program.rs
+++ b/src/calculator/program.rs
@@ -173,6 +173,11 @@ impl Program {
                 output_bytes.extend(self.body.bytes.to_vec());
                 output_bytes.extend(self.calculate_checksum().to_le_bytes());
 
+                // 82p and 83p metadata has its own flag and neither version nor destination
+                if !matches!(file_type, ProgramFileType::XP) {
+                    output_bytes = self.to_83p_bytes()?;
+                }
+
                 write_to_file(path, output_bytes)?
             }
             ProgramFileType::TXT => {
@@ -203,6 +208,29 @@ impl Program {
         Ok(())
     }
 
+    /// The program in the 82p/83p layout, which has 17 bytes of metadata
+    fn to_83p_bytes(&self) -> Result<Vec<u8>, TiToolsError> {
+        if self.header.bytes.len() != 55 || self.metadata.bytes.len() != 19 {
+            return Err(TiToolsError::MissingProgramInfo(
+                "header or metadata bytes".to_string(),
+            ));
+        }
+
+        let mut data = vec![0x0B, 0x00];
+        data.extend(&self.metadata.bytes[2..13]);
+        data.extend(&self.metadata.bytes[15..19]);
+        data.extend(&self.body.bytes);
+
+        let checksum = data.iter().map(|&byte| byte as u64).sum::<u64>() as u16;
+
+        let mut bytes = self.header.bytes[..53].to_vec();
+        bytes.extend((data.len() as u16).to_le_bytes());
+        bytes.extend(data);
+        bytes.extend(checksum.to_le_bytes());
+
+        Ok(bytes)
+    }
+
     /// The low 16 bits of the sum of all metadata and body bytes
     fn calculate_checksum(&self) -> u16 {
         let sum: u64 = self
-- 
2.43.0


From 8cf22de3058e05be4d5c9cfb4ef605cbe424da2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:00 +0000
Subject: [PATCH 11/29] fix: refuse programs that are too large for the length
 fields

---
 src/calculator/file/from_8xp.rs | 8 ++++++++
 src/calculator/file/from_txt.rs | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/calculator/file/from_8xp.rs b/src/calculator/file/from_8xp.rs
index e662d35..bf134b6 100644
--- a/src/calculator/file/from_8xp.rs
+++ b/src/calculator/file/from_8xp.rs
@@ -121,6 +121,14 @@ pub fn create_from_8xp(
             )
         }
         ProgramFileType::XPThree | ProgramFileType::XPTwo => {
+            // the length fields have 16 bits
+            if body_bytes.len() + 19 > u16::MAX as usize {
+                return Err(TiToolsError::InvalidByteLength(format!(
+                    "a body of {} bytes does not fit into a program file",
+                    body_bytes.len()
+                )));
+            }
+
             let mut new_metadata_bytes = Vec::new();
 
             new_metadata_bytes.push(0x0D);
diff --git a/src/calculator/file/from_txt.rs b/src/calculator/file/from_txt.rs
index 82faf24..84b4467 100644
--- a/src/calculator/file/from_txt.rs
+++ b/src/calculator/file/from_txt.rs
@@ -71,6 +71,14 @@ pub fn create_from_txt(
         encode_mode,
     )?;
 
+    // the length fields have 16 bits
+    if body_bytes.len() + 19 > u16::MAX as usize {
+        return Err(TiToolsError::InvalidByteLength(format!(
+            "a body of {} bytes does not fit into a program file",
+            body_bytes.len()
+        )));
+    }
+
     let mut header_bytes = Vec::new();
     let signature = &model_details.signature.to_string();
     header_bytes.extend(signature.as_bytes());
-- 
2.43.0


From 30366846014b3a2a4113be50cc643dad7f3a00fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:02 +0000
Subject: [PATCH 12/29] fix: keep the name and comment of a text file on their
 own lines

---
 src/calculator/program.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/calculator/program.rs b/src/calculator/program.rs
index 26ac2ac..31e7bb7 100644
--- a/src/calculator/program.rs
+++ b/src/calculator/program.rs
@@ -181,10 +181,11 @@ impl Program {
                 write_to_file(path, output_bytes)?
             }
             ProgramFileType::TXT => {
+                // a line break in the name or comment would shift the lines below it
                 let output_string = format!(
                     "{}\n{}\n{}\n{}\n{}\n{}\n{}",
-                    self.metadata.name,
-                    self.header.comment,
+                    self.metadata.name.replace('\n', " "),
+                    self.header.comment.replace('\n', " "),
                     self.metadata.file_type.to_string(),
                     self.metadata.destination.to_string(),
                     self.display_mode.to_string(),
-- 
2.43.0


From efff43a9a06ada59bd0aed6b34fbbf84c4cd8e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:15 +0000
Subject: [PATCH 13/29] fix: keep empty lines at the end of a program

---
 src/calculator/file/encode.rs | 3 ++-
 src/calculator/program.rs     | 8 +++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/calculator/file/encode.rs b/src/calculator/file/encode.rs
index 02f7c17..7c14c96 100644
--- a/src/calculator/file/encode.rs
+++ b/src/calculator/file/encode.rs
@@ -55,7 +55,8 @@ pub fn encode(
     };
 
     let mut state = EncodeState::new(encode_mode);
-    for line in decoded_program.lines() {
+    // unlike lines(), this keeps the empty lines at the end of the program
+    for line in decoded_program.split('\n') {
         let mut temp_line = line.to_string();
 
         while !temp_line.is_empty() {
diff --git a/src/calculator/program.rs b/src/calculator/program.rs
index 31e7bb7..282bbe0 100644
--- a/src/calculator/program.rs
+++ b/src/calculator/program.rs
@@ -192,7 +192,13 @@ impl Program {
                     self.model.model.to_string(),
                     &self.body.translation
                 );
-                write_to_file(path, output_string)?
+                // the last line break of a text file only ends its last line
+                let end = if self.body.translation.ends_with('\n') {
+                    "\n"
+                } else {
+                    ""
+                };
+                write_to_file(path, output_string + end)?
             }
             ProgramFileType::JSON => {
                 let output_string = match serde_json::to_string_pretty(&self) {
-- 
2.43.0


From 176a0b48fa5402b7276f3d103eb3bfaa25da281f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:56 +0000
Subject: [PATCH 14/29] fix: spell program and list names with one token per
 character

---
 src/calculator/file/encode.rs | 41 +++++++++++++++++++++++++++++++----
 1 file changed, 37 insertions(+), 4 deletions(-)

diff --git a/src/calculator/file/encode.rs b/src/calculator/file/encode.rs
index 7c14c96..32d044d 100644
--- a/src/calculator/file/encode.rs
+++ b/src/calculator/file/encode.rs
@@ -61,6 +61,7 @@ pub fn encode(
 
         while !temp_line.is_empty() {
             let token: Option<(String, String)> = match state.current_mode {
+                _ if state.in_custom_name => get_name_token(&temp_line, tokens, &display_mode),
                 EncodeMode::Max => tokens.get_longest_matching_token(&temp_line, &display_mode),
                 EncodeMode::Min => tokens.get_shortest_matching_token(&temp_line, &display_mode),
                 EncodeMode::Smart => tokens.get_longest_matching_token(&temp_line, &display_mode),
@@ -71,12 +72,13 @@ pub fn encode(
                     let key_as_bytes = convert_key_to_bytes(&key);
 
                     if state.default_is_smart() {
-                        if state.last_token_key == vec![0x5F] || state.last_token_key == vec![0xEB]
-                        {
+                        if state.in_custom_name && is_name_character(&key_as_bytes) {
+                            // still inside of the name
+                        } else if key_as_bytes == vec![0x5F] || key_as_bytes == vec![0xEB] {
                             // prgm and ʟ
                             state.in_custom_name = true;
-                            state.current_mode = &EncodeMode::Max;
                         } else if key_as_bytes == vec![0x2A] {
+                            state.in_custom_name = false;
                             state.in_string = !state.in_string;
                             // Send(
                             state.in_evaluated_string =
@@ -85,7 +87,9 @@ pub fn encode(
                         } else if key_as_bytes == vec![0x04] {
                             // -> / →
                             state.reset();
-                        } else if !value.chars().all(|c| c.is_ascii_alphabetic()) {
+                        } else if state.in_custom_name
+                            || !value.chars().all(|c| c.is_ascii_alphabetic())
+                        {
                             state.reset()
                         }
                     }
@@ -108,6 +112,35 @@ pub fn encode(
     Ok(encoded_program)
 }
 
+/// The characters of program and list names: 0-9, A-Z and θ
+fn is_name_character(key_as_bytes: &[u8]) -> bool {
+    matches!(key_as_bytes, [0x30..=0x39] | [0x41..=0x5B])
+}
+
+/// A name is spelled with one token per character, until something else follows
+fn get_name_token(
+    line: &str,
+    tokens: &Map,
+    display_mode: &DisplayMode,
+) -> Option<(String, String)> {
+    for key in (0x30..=0x39).chain(0x41..=0x5B) {
+        let key = format!("${:02X} en", key);
+        if let Some(translation) = tokens.get_value(&key) {
+            let value = match display_mode {
+                DisplayMode::Pretty => &translation.display,
+                DisplayMode::Accessible => &translation.accessible,
+                DisplayMode::TiAscii => &translation.ti_ascii,
+            };
+
+            if line.starts_with(value.as_str()) {
+                return Some((key, value.to_string()));
+            }
+        }
+    }
+
+    tokens.get_longest_matching_token(line, display_mode)
+}
+
 fn normalize(string: &str) -> String { 
     string
         .replace(['\u{0398}', '\u{03F4}', '\u{1DBF}'], "θ")
-- 
2.43.0


From 221402fb3c3583b5512ec4ac37738f338058c8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:26 +0000
Subject: [PATCH 15/29] fix: print brackets that are not style directives as
 they are

---
 src/styles.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/styles.rs b/src/styles.rs
index 440ed4b..23e522d 100644
--- a/src/styles.rs
+++ b/src/styles.rs
@@ -148,8 +148,8 @@ macro_rules! prints {
         let len = styled_string.len();
 
         while i < len {
-            if &styled_string[i..i + 1] == "[" {
-                let end = styled_string[i..].find("]").unwrap() + i;
+            if styled_string[i..].starts_with("[") {
+                let end = styled_string[i..].find("]").unwrap_or(len - i) + i;
                 let directive = &styled_string[i + 1..end];
                 let parts: Vec<&str> = directive.split(':').collect();
 
@@ -170,7 +170,14 @@ macro_rules! prints {
                         _ => {}
                     }
                 }
-                i = end + 1;
+
+                if parts.len() == 2 && matches!(parts[0], "color" | "bg" | "style") {
+                    i = end + 1;
+                } else {
+                    // not a directive, so the bracket is part of the text
+                    result.push('[');
+                    i += 1;
+                }
             } else {
                 let end = styled_string[i..].find("[").unwrap_or(len - i) + i;
                 result.push_str(&styled_string[i..end]);
-- 
2.43.0


From a06bb49cb8239f89cdf151c6a414601a0b7a1abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:08 +0000
Subject: [PATCH 16/29] fix: replace an existing file only once the new one is
 complete

---
 src/calculator/program.rs | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/src/calculator/program.rs b/src/calculator/program.rs
index 282bbe0..f61efb3 100644
--- a/src/calculator/program.rs
+++ b/src/calculator/program.rs
@@ -133,6 +133,11 @@ impl Program {
     }
 
     pub fn save_to(&self, path: &PathBuf) -> Result<(), TiToolsError> {
+        let file_type = match get_file_type(path) {
+            Ok(file_type) => file_type,
+            Err(err) => return Err(err),
+        };
+
         if path.exists() {
             println!("A file already exists at the output path, would you like to delete its content and proceed? [y/N]");
             let mut input = String::new();
@@ -142,16 +147,7 @@ impl Program {
             std::io::stdin().read_line(&mut input).unwrap();
             let input = input.trim();
             if input == "y" || input == "Y" {
-                println!("Deleting existing file");
-
-                match std::fs::remove_file(path) {
-                    Ok(_) => {
-                        println!("Deleted existing file");
-                    }
-                    Err(err) => {
-                        return Err(TiToolsError::FailedToDeleteFile(err.to_string()));
-                    }
-                }
+                println!("Replacing existing file");
             } else {
                 return Err(TiToolsError::Quit(
                     "User chose not to overwrite file".to_string(),
@@ -159,11 +155,6 @@ impl Program {
             }
         }
 
-        let file_type = match get_file_type(path) {
-            Ok(file_type) => file_type,
-            Err(err) => return Err(err),
-        };
-
         match file_type {
             ProgramFileType::XP | ProgramFileType::XPThree | ProgramFileType::XPTwo => {
                 let mut output_bytes = Vec::new();
@@ -595,9 +586,13 @@ impl Destination {
 }
 
 fn write_to_file<T: AsRef<[u8]>>(path: &PathBuf, content: T) -> Result<(), TiToolsError> {
-    match std::fs::write(path, content) {
+    // the old file is replaced only once the new one is complete
+    let temp_path = path.with_file_name(format!(".ti-tools-{}.tmp", std::process::id()));
+
+    match std::fs::write(&temp_path, content).and_then(|_| std::fs::rename(&temp_path, path)) {
         Ok(_) => Ok(()),
         Err(err) => {
+            let _ = std::fs::remove_file(&temp_path);
             return Err(TiToolsError::FailedToWriteFile(
                 path.to_str().unwrap().to_string(),
                 err.to_string(),
-- 
2.43.0


From c0bca851e55c94e8c9f6ee0e0ae11cacdd382a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:09 +0000
Subject: [PATCH 17/29] fix: keep the program when --delete-old is used with
 the input as the new file

---
 src/commands/edit/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/commands/edit/mod.rs b/src/commands/edit/mod.rs
index f6f496d..734e00c 100644
--- a/src/commands/edit/mod.rs
+++ b/src/commands/edit/mod.rs
@@ -44,7 +44,13 @@ fn save_edits(
             Err(err) => err.print().exit(),
         }
 
-        if delete_old {
+        // saving over the input leaves no old file to delete
+        let is_same_file = match (input_path.canonicalize(), new_file_path.canonicalize()) {
+            (Ok(input_path), Ok(new_file_path)) => input_path == new_file_path,
+            _ => false,
+        };
+
+        if delete_old && !is_same_file {
             let result = std::fs::remove_file(input_path);
 
             match result {
-- 
2.43.0


From d41aa4df664ac6281e4ce4180f4b27d458db7676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:34 +0000
Subject: [PATCH 18/29] fix: keep mass conversion output inside of the output
 directory

---
 src/commands/convert.rs | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/commands/convert.rs b/src/commands/convert.rs
index d639c59..ec480e2 100644
--- a/src/commands/convert.rs
+++ b/src/commands/convert.rs
@@ -166,7 +166,7 @@ pub fn convert_command(
         );
 
         if output_path_string.is_some() {
-            let name = program.metadata.name.to_string();
+            let name = get_output_name(&program, &path);
 
             match file_type {
                 ProgramFileType::XP
@@ -175,12 +175,10 @@ pub fn convert_command(
                 | ProgramFileType::TXT => {
                     let output_path = if file_type.is_8xp() {
                         Path::new(&output_path_string.as_ref().unwrap())
-                            .join(&name)
-                            .with_extension("txt")
+                            .join(format!("{}.txt", name))
                     } else {
                         Path::new(&output_path_string.as_ref().unwrap())
-                            .join(&name)
-                            .with_extension("8xp")
+                            .join(format!("{}.8xp", name))
                     };
 
                     match program.save_to(&output_path) {
@@ -222,12 +220,10 @@ pub fn convert_command(
                 }
                 ProgramFileType::JSON => {
                     let txt_output_path = Path::new(&output_path_string.as_ref().unwrap())
-                        .join(&name)
-                        .with_extension("txt");
+                        .join(format!("{}.txt", name));
 
                     let xp_output_path = Path::new(&output_path_string.as_ref().unwrap())
-                        .join(&name)
-                        .with_extension("8xp");
+                        .join(format!("{}.8xp", name));
 
                     match program.save_to(&txt_output_path) {
                         Ok(_) => {
@@ -304,6 +300,20 @@ pub fn convert_command(
     }
 }
 
+/// The name of the program, unless it is not usable as a file name within the output directory
+fn get_output_name(program: &Program, input_path: &Path) -> String {
+    let name = program.metadata.name.to_string();
+
+    if name.is_empty() || name.contains(['/', '\\', '\0']) {
+        match input_path.file_stem() {
+            Some(file_stem) => file_stem.to_string_lossy().to_string(),
+            None => name,
+        }
+    } else {
+        name
+    }
+}
+
 fn convert_program(
     program_file_type: &ProgramFileType,
     input_path: &Path,
-- 
2.43.0


From e22c95f07124668be5870c26ff1f238c1d9a7b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:17 +0000
Subject: [PATCH 19/29] fix: encode text that smart splitting cannot finish but
 another split can

Calculators without lowercase letters (TI-82, TI-83) have no tokens for the
characters of a keyword, so a keyword inside of a string, which is split by
shortest match, could be decoded but not encoded again.
---
 src/calculator/file/encode.rs | 58 +++++++++++++++++++++++++++++++++--
 1 file changed, 56 insertions(+), 2 deletions(-)

diff --git a/src/calculator/file/encode.rs b/src/calculator/file/encode.rs
index 32d044d..0f5825e 100644
--- a/src/calculator/file/encode.rs
+++ b/src/calculator/file/encode.rs
@@ -58,6 +58,7 @@ pub fn encode(
     // unlike lines(), this keeps the empty lines at the end of the program
     for line in decoded_program.split('\n') {
         let mut temp_line = line.to_string();
+        let line_start = encoded_program.len();
 
         while !temp_line.is_empty() {
             let token: Option<(String, String)> = match state.current_mode {
@@ -98,9 +99,17 @@ pub fn encode(
                     state.last_token_key = key_as_bytes;
                     temp_line = temp_line[value.len()..].to_string();
                 }
-                None => {
-                    return Err(TiToolsError::TokenNotFound(temp_line));
+                None if state.default_is_smart() => {
+                    match split_line(line, tokens, &display_mode) {
+                        Some(bytes) => {
+                            encoded_program.truncate(line_start);
+                            encoded_program.extend(bytes);
+                            break;
+                        }
+                        None => return Err(TiToolsError::TokenNotFound(temp_line)),
+                    }
                 }
+                None => return Err(TiToolsError::TokenNotFound(temp_line)),
             }
         }
         state.reset();
@@ -141,6 +150,51 @@ fn get_name_token(
     tokens.get_longest_matching_token(line, display_mode)
 }
 
+/// Splits a line, as far as it can be split at all, into the longest tokens that leave a rest which
+/// can be split as well. Calculators without lowercase letters need this for the keywords in strings.
+fn split_line(line: &str, tokens: &Map, display_mode: &DisplayMode) -> Option<Vec<u8>> {
+    let mut splits: Vec<Option<(&str, usize)>> = vec![None; line.len() + 1];
+    splits[line.len()] = Some(("", line.len()));
+
+    for start in (0..line.len()).rev() {
+        if !line.is_char_boundary(start) {
+            continue;
+        }
+
+        for (key, translation) in &tokens.map {
+            let value = match display_mode {
+                DisplayMode::Pretty => &translation.display,
+                DisplayMode::Accessible => &translation.accessible,
+                DisplayMode::TiAscii => &translation.ti_ascii,
+            };
+
+            if line[start..].starts_with(value.as_str()) {
+                let end = start + value.len();
+                let is_better = match splits[start] {
+                    Some((other, other_end)) => {
+                        end > other_end || (end == other_end && key.as_str() < other)
+                    }
+                    None => end > start,
+                };
+
+                if is_better && splits[end].is_some() {
+                    splits[start] = Some((key, end));
+                }
+            }
+        }
+    }
+
+    let mut bytes = Vec::new();
+    let mut start = 0;
+    while start < line.len() {
+        let (key, end) = splits[start]?;
+        bytes.extend(convert_key_to_bytes(key));
+        start = end;
+    }
+
+    Some(bytes)
+}
+
 fn normalize(string: &str) -> String { 
     string
         .replace(['\u{0398}', '\u{03F4}', '\u{1DBF}'], "θ")
-- 
2.43.0


From 907e99fedf2475e9eeb9d7b0758bb90856bc89ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:46 +0000
Subject: [PATCH 20/29] fix: follow links and keep permissions when replacing a
 file

---
 src/calculator/program.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/calculator/program.rs b/src/calculator/program.rs
index f61efb3..5ba0be5 100644
--- a/src/calculator/program.rs
+++ b/src/calculator/program.rs
@@ -587,9 +587,19 @@ impl Destination {
 
 fn write_to_file<T: AsRef<[u8]>>(path: &PathBuf, content: T) -> Result<(), TiToolsError> {
     // the old file is replaced only once the new one is complete
-    let temp_path = path.with_file_name(format!(".ti-tools-{}.tmp", std::process::id()));
+    // links are followed and permissions kept, as if it was written in place
+    let target_path = path.canonicalize().unwrap_or(path.to_path_buf());
+    let temp_path = target_path.with_file_name(format!(".ti-tools-{}.tmp", std::process::id()));
 
-    match std::fs::write(&temp_path, content).and_then(|_| std::fs::rename(&temp_path, path)) {
+    let result = std::fs::write(&temp_path, content).and_then(|_| {
+        if let Ok(metadata) = std::fs::metadata(&target_path) {
+            std::fs::set_permissions(&temp_path, metadata.permissions())?;
+        }
+
+        std::fs::rename(&temp_path, &target_path)
+    });
+
+    match result {
         Ok(_) => Ok(()),
         Err(err) => {
             let _ = std::fs::remove_file(&temp_path);
-- 
2.43.0


From f3b32160a5c9883ea1b0b096598a1abdffbb31c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:44 +0000
Subject: [PATCH 21/29] fix: mass conversion into its own input directory
 converted its own output

---
 src/commands/convert.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/commands/convert.rs b/src/commands/convert.rs
index ec480e2..a42afc4 100644
--- a/src/commands/convert.rs
+++ b/src/commands/convert.rs
@@ -119,7 +119,12 @@ pub fn convert_command(
             .expect("Failed to create directory")
     }
 
-    for entry in fs::read_dir(input_path).expect("Failed to read directory") {
+    // read to its end first, the files saved below may go into the same directory
+    let entries: Vec<_> = fs::read_dir(input_path)
+        .expect("Failed to read directory")
+        .collect();
+
+    for entry in entries {
         let entry = match entry {
             Ok(entry) => entry,
             Err(_) => {
-- 
2.43.0


From cbd70a4fb01b11aa73154359c03750b2a4a96a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:26 +0000
Subject: [PATCH 22/29] fix: an answer that is not valid UTF-8 ended the
 program instead of counting as no

---
 src/calculator/program.rs |  3 ++-
 src/commands/convert.rs   | 12 ++++++++----
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/calculator/program.rs b/src/calculator/program.rs
index 5ba0be5..22a12e1 100644
--- a/src/calculator/program.rs
+++ b/src/calculator/program.rs
@@ -144,7 +144,8 @@ impl Program {
             print!("> ");
             input.clear();
             std::io::stdout().flush().unwrap();
-            std::io::stdin().read_line(&mut input).unwrap();
+            // what cannot be read is not a yes
+            let _ = std::io::stdin().read_line(&mut input);
             let input = input.trim();
             if input == "y" || input == "Y" {
                 println!("Replacing existing file");
diff --git a/src/commands/convert.rs b/src/commands/convert.rs
index a42afc4..a651c92 100644
--- a/src/commands/convert.rs
+++ b/src/commands/convert.rs
@@ -107,7 +107,8 @@ pub fn convert_command(
         print!("> ");
         input.clear();
         std::io::stdout().flush().unwrap();
-        std::io::stdin().read_line(&mut input).unwrap();
+        // what cannot be read is not a yes
+        let _ = std::io::stdin().read_line(&mut input);
         let input = input.trim();
         if input != "y" && input != "Y" {
             prints!("[color:bright-red]Error:[color:reset] An output directory must be created for files to be saved");
@@ -211,7 +212,8 @@ pub fn convert_command(
                             print!("> ");
                             input.clear();
                             std::io::stdout().flush().unwrap();
-                            std::io::stdin().read_line(&mut input).unwrap();
+                            // what cannot be read is not a yes
+                            let _ = std::io::stdin().read_line(&mut input);
                             let input = input.trim();
                             if input != "y" && input != "Y" {
                                 TiToolsError::Quit("User chose to quit".to_string())
@@ -253,7 +255,8 @@ pub fn convert_command(
                             print!("> ");
                             input.clear();
                             std::io::stdout().flush().unwrap();
-                            std::io::stdin().read_line(&mut input).unwrap();
+                            // what cannot be read is not a yes
+                            let _ = std::io::stdin().read_line(&mut input);
                             let input = input.trim();
                             if input != "y" && input != "Y" {
                                 TiToolsError::Quit("User chose to quit".to_string())
@@ -288,7 +291,8 @@ pub fn convert_command(
                             print!("> ");
                             input.clear();
                             std::io::stdout().flush().unwrap();
-                            std::io::stdin().read_line(&mut input).unwrap();
+                            // what cannot be read is not a yes
+                            let _ = std::io::stdin().read_line(&mut input);
                             let input = input.trim();
                             if input != "y" && input != "Y" {
                                 TiToolsError::Quit("User chose to quit".to_string())
-- 
2.43.0


From 752d89c7b914d321ed477a3171455d5c20d63d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:15 +0000
Subject: [PATCH 23/29] fix: the value of an option was taken for another
 option, so a comment of -d deleted the old file

---
 src/cli.rs | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/src/cli.rs b/src/cli.rs
index ddcdb95..693fdce 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -157,13 +157,7 @@ impl Command {
         if arg.requires.is_some() {
             for required in arg.requires.as_ref().unwrap() {
                 let required_arg = self.find_arg(required).unwrap();
-                if !env_args
-                    .iter()
-                    .any(|s| *s == format!("-{}", required_arg.short))
-                    && !env_args
-                        .iter()
-                        .any(|s| *s == format!("--{}", required_arg.long))
-                {
+                if self.find_position(env_args, required_arg).is_none() {
                     println!(
                         "The argument \"{}\" requires the argument \"{}\"",
                         arg.name, required
@@ -178,6 +172,26 @@ impl Command {
         self.args.iter().find(|&arg| arg.name == arg_name)
     }
 
+    /// Get the position of an argument, the input and the values of other arguments are not taken for it
+    fn find_position(&self, env_args: &[String], wanted: &Arg) -> Option<usize> {
+        let mut index = 2 + self.options.len();
+
+        while index < env_args.len() {
+            let arg = self.args.iter().find(|arg| {
+                env_args[index] == format!("-{}", arg.short)
+                    || env_args[index] == format!("--{}", arg.long)
+            });
+
+            match arg {
+                Some(arg) if arg.name == wanted.name => return Some(index),
+                Some(arg) if arg.value_name.is_some() => index += 2,
+                _ => index += 1,
+            }
+        }
+
+        None
+    }
+
     /// Check if a flag is present in the arguments
     pub fn has(&self, arg_name: &str) -> bool {
         self.args
@@ -185,9 +199,7 @@ impl Command {
             .find(|&arg| arg.name == arg_name)
             .map(|arg| {
                 let args: Vec<String> = env::args().collect();
-                let found = args
-                    .iter()
-                    .any(|s| *s == format!("-{}", arg.short) || *s == format!("--{}", arg.long));
+                let found = self.find_position(&args, arg).is_some();
 
                 if found {
                     self.check_if_required_args_are_present(&args, arg);
@@ -235,9 +247,7 @@ impl Command {
             .find(|&arg| arg.name == arg_name)
             .and_then(|arg| {
                 let args: Vec<String> = env::args().collect();
-                let arg_index = args.iter().position(|s| {
-                    *s == format!("-{}", arg.short) || *s == format!("--{}", arg.long)
-                });
+                let arg_index = self.find_position(&args, arg);
 
                 let value = arg_index.and_then(|index| args.get(index + 1));
                 value
-- 
2.43.0


From 0b361ac89e1461e93d8541b62a814445f871fa1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:23 +0000
Subject: [PATCH 24/29] fix: arguments that are not unicode and unusable
 directories ended the program with a panic

---
 src/calculator/program.rs |  8 ++++----
 src/cli.rs                | 20 ++++++++++++++++----
 src/commands/convert.rs   | 16 +++++++++++-----
 3 files changed, 31 insertions(+), 13 deletions(-)

diff --git a/src/calculator/program.rs b/src/calculator/program.rs
index 22a12e1..f96a363 100644
--- a/src/calculator/program.rs
+++ b/src/calculator/program.rs
@@ -24,7 +24,7 @@ impl Program {
     ) -> Result<Program, TiToolsError> {
         if !path.exists() {
             return Err(TiToolsError::FailedToFindFile(
-                path.to_str().unwrap().to_string(),
+                path.display().to_string(),
             ));
         }
 
@@ -64,7 +64,7 @@ impl Program {
     pub fn load_from_txt(path: PathBuf, encode_mode: &EncodeMode) -> Result<Program, TiToolsError> {
         if !path.exists() {
             return Err(TiToolsError::FailedToFindFile(
-                path.to_str().unwrap().to_string(),
+                path.display().to_string(),
             ));
         }
 
@@ -103,7 +103,7 @@ impl Program {
     pub fn load_from_json(path: PathBuf) -> Result<Program, TiToolsError> {
         if !path.exists() {
             return Err(TiToolsError::FailedToFindFile(
-                path.to_str().unwrap().to_string(),
+                path.display().to_string(),
             ));
         }
 
@@ -605,7 +605,7 @@ fn write_to_file<T: AsRef<[u8]>>(path: &PathBuf, content: T) -> Result<(), TiToo
         Err(err) => {
             let _ = std::fs::remove_file(&temp_path);
             return Err(TiToolsError::FailedToWriteFile(
-                path.to_str().unwrap().to_string(),
+                path.display().to_string(),
                 err.to_string(),
             ))
         }
diff --git a/src/cli.rs b/src/cli.rs
index 693fdce..a58579b 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -76,7 +76,7 @@ impl Cli {
 
     /// Match the command being passed in the arguments
     pub fn match_commands(&self) -> &Command {
-        let args: Vec<String> = env::args().collect();
+        let args: Vec<String> = get_args();
         if args.contains(&"--help".to_string()) || args.contains(&"-h".to_string()) {}
 
         if args.len() <= 1 {
@@ -198,7 +198,7 @@ impl Command {
             .iter()
             .find(|&arg| arg.name == arg_name)
             .map(|arg| {
-                let args: Vec<String> = env::args().collect();
+                let args: Vec<String> = get_args();
                 let found = self.find_position(&args, arg).is_some();
 
                 if found {
@@ -217,7 +217,7 @@ impl Command {
             .enumerate()
             .find(|(_, option)| option.name == option_name)
             .and_then(|(index, option)| {
-                let args: Vec<String> = env::args().collect();
+                let args: Vec<String> = get_args();
                 if args.len() <= 2 + (index) {
                     return Some(Value::Missing(format!(
                         "{} could not be found in its location ({})",
@@ -246,7 +246,7 @@ impl Command {
             .iter()
             .find(|&arg| arg.name == arg_name)
             .and_then(|arg| {
-                let args: Vec<String> = env::args().collect();
+                let args: Vec<String> = get_args();
                 let arg_index = self.find_position(&args, arg);
 
                 let value = arg_index.and_then(|index| args.get(index + 1));
@@ -361,6 +361,18 @@ impl Value {
     }
 }
 
+/// The arguments of the program, all of them have to be valid unicode
+fn get_args() -> Vec<String> {
+    env::args_os()
+        .map(|arg| {
+            arg.into_string().unwrap_or_else(|arg| {
+                println!("Invalid argument: {}", arg.to_string_lossy());
+                std::process::exit(1);
+            })
+        })
+        .collect()
+}
+
 fn cli_help(cli: &Cli, command_name: Option<&str>) {
     if command_name.is_none() {
         println!("{} {}", cli.name, cli.version);
diff --git a/src/commands/convert.rs b/src/commands/convert.rs
index a651c92..15d55dd 100644
--- a/src/commands/convert.rs
+++ b/src/commands/convert.rs
@@ -116,14 +116,20 @@ pub fn convert_command(
         }
 
         println!("Creating output directory");
-        fs::create_dir(Path::new(&output_path_string.as_ref().unwrap()))
-            .expect("Failed to create directory")
+        if let Err(err) = fs::create_dir(Path::new(&output_path_string.as_ref().unwrap())) {
+            prints!("[color:bright-red]Error:[color:reset] Failed to create directory: {}", err);
+            std::process::exit(1)
+        }
     }
 
     // read to its end first, the files saved below may go into the same directory
-    let entries: Vec<_> = fs::read_dir(input_path)
-        .expect("Failed to read directory")
-        .collect();
+    let entries: Vec<_> = match fs::read_dir(input_path) {
+        Ok(entries) => entries.collect(),
+        Err(err) => {
+            prints!("[color:bright-red]Error:[color:reset] Failed to read directory: {}", err);
+            std::process::exit(1)
+        }
+    };
 
     for entry in entries {
         let entry = match entry {
-- 
2.43.0


From fa07335b248bcf53ab720c5086a20484792418a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:43 +0000
Subject: [PATCH 25/29] fix: mass conversion could not save a program whose
 name is too long for a file name

---
 src/commands/convert.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/commands/convert.rs b/src/commands/convert.rs
index 15d55dd..3d7e616 100644
--- a/src/commands/convert.rs
+++ b/src/commands/convert.rs
@@ -319,7 +319,8 @@ pub fn convert_command(
 fn get_output_name(program: &Program, input_path: &Path) -> String {
     let name = program.metadata.name.to_string();
 
-    if name.is_empty() || name.contains(['/', '\\', '\0']) {
+    // file names have at most 255 bytes, the extension included
+    if name.is_empty() || name.len() > 250 || name.contains(['/', '\\', '\0']) {
         match input_path.file_stem() {
             Some(file_stem) => file_stem.to_string_lossy().to_string(),
             None => name,
-- 
2.43.0


From 7c71ce01154894085c3fb4a3f80c795cbac1bf1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:30 +0000
Subject: [PATCH 26/29] fix: mass conversion reported paths that it had not
 saved to

---
 src/commands/convert.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/commands/convert.rs b/src/commands/convert.rs
index 3d7e616..8d313bd 100644
--- a/src/commands/convert.rs
+++ b/src/commands/convert.rs
@@ -202,11 +202,9 @@ pub fn convert_command(
                             }
 
                             prints!(
-                            "[color:bright-green]Successfully saved[color:reset] [color:bright-cyan]{}[color:reset] to [color:bright-cyan]{}/{}.{}",
+                            "[color:bright-green]Successfully saved[color:reset] [color:bright-cyan]{}[color:reset] to [color:bright-cyan]{}",
                             program.metadata.name,
-                            output_path_string.as_ref().unwrap(),
-                            program.metadata.name,
-                            output_path.extension().unwrap().to_str().unwrap()
+                            output_path.display()
                         );
                         }
                         Err(err) => {
@@ -247,9 +245,9 @@ pub fn convert_command(
                             }
 
                             prints!(
-                                "[color:bright-green]Successfully saved[color:reset] [color:bright-cyan]{}[color:reset] to [color:bright-cyan]{}.txt",
+                                "[color:bright-green]Successfully saved[color:reset] [color:bright-cyan]{}[color:reset] to [color:bright-cyan]{}",
                                 program.metadata.name,
-                                output_path_string.as_ref().unwrap()
+                                txt_output_path.display()
                             );
                         }
                         Err(err) => {
@@ -283,9 +281,9 @@ pub fn convert_command(
                             }
 
                             prints!(
-                                "[color:bright-green]Successfully saved[color:reset] [color:bright-cyan]{}[color:reset] to [color:bright-cyan]{}.8xp",
+                                "[color:bright-green]Successfully saved[color:reset] [color:bright-cyan]{}[color:reset] to [color:bright-cyan]{}",
                                 program.metadata.name,
-                                output_path_string.as_ref().unwrap()
+                                xp_output_path.display()
                             );
                         }
                         Err(err) => {
-- 
2.43.0


From 9acfd999f69c05151c6637175dbbfe5261e521af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:55 +0000
Subject: [PATCH 27/29] fix: comments beyond ASCII were shown and exported as
 other characters than were set

---
 src/calculator/file/from_8xp.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/calculator/file/from_8xp.rs b/src/calculator/file/from_8xp.rs
index bf134b6..213918e 100644
--- a/src/calculator/file/from_8xp.rs
+++ b/src/calculator/file/from_8xp.rs
@@ -66,11 +66,14 @@ pub fn create_from_8xp(
 
     let tokens = load_tokens(&version)?;
 
-    let comment = header_bytes[11..53]
+    let comment_bytes: Vec<u8> = header_bytes[11..53]
         .iter()
         .filter(|byte| **byte != 0x00)
-        .map(|byte| *byte as char)
-        .collect::<String>();
+        .copied()
+        .collect();
+    // comments are written as UTF-8, but other tools may use any byte
+    let comment = String::from_utf8(comment_bytes)
+        .unwrap_or_else(|err| err.as_bytes().iter().map(|byte| *byte as char).collect());
 
     let metadata_and_body_length = [header_bytes[53], header_bytes[54]];
     let metadata_and_body_length = match file_type {
-- 
2.43.0


From 9b77535aaf97ee5f3080a8d6b91127113b0a4385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:09 +0000
Subject: [PATCH 28/29] fix: style directives in names, comments and paths were
 carried out instead of printed

---
 src/styles.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/styles.rs b/src/styles.rs
index 23e522d..5876a87 100644
--- a/src/styles.rs
+++ b/src/styles.rs
@@ -139,16 +139,20 @@ ex:
 */
 #[macro_export]
 macro_rules! prints {
-    ($($arg:tt)*) => {{
+    ($format:literal $(, $value:expr)* $(,)?) => {{
         use $crate::styles::{Color, TextStyle};
 
         let mut result = String::new();
-        let styled_string = format!($($arg)*);
+        // only the format holds directives, the values are printed as they are
+        let styled_string = format!($format $(, $value.to_string().replace('[', "[["))*);
         let mut i = 0;
         let len = styled_string.len();
 
         while i < len {
-            if styled_string[i..].starts_with("[") {
+            if styled_string[i..].starts_with("[[") {
+                result.push('[');
+                i += 2;
+            } else if styled_string[i..].starts_with("[") {
                 let end = styled_string[i..].find("]").unwrap_or(len - i) + i;
                 let directive = &styled_string[i + 1..end];
                 let parts: Vec<&str> = directive.split(':').collect();
-- 
2.43.0


From 8fc62e897b1b9d979ed98795d7dbb0ded2d4ca87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:00 +0000
Subject: [PATCH 29/29] fix: OS versions that are equal were not ordered as
 equal

---
 src/calculator/tokens/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/calculator/tokens/mod.rs b/src/calculator/tokens/mod.rs
index bde6681..adaa0a2 100644
--- a/src/calculator/tokens/mod.rs
+++ b/src/calculator/tokens/mod.rs
@@ -41,7 +41,9 @@ impl Ord for OsVersion {
         let other_order = other.model.model_order();
 
         self_order.cmp(&other_order).then_with(|| {
-            if self.version == "latest" {
+            if self.version == other.version {
+                Ordering::Equal
+            } else if self.version == "latest" {
                 Ordering::Greater
             } else if other.version == "latest" || self.version.is_empty() {
                 Ordering::Less
-- 
2.43.0

