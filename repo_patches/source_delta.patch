From a3301d2b108bdc9ac98f0f554f185cc3d9f56af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:51 +0000
Subject: [PATCH 01/14] fix: return the input text when no modifier is
 configured

ModifiedRecords::text() unwrapped the last record, so normalize_with_positions
(and normalize itself with debug logging enabled, e.g. `chanoma -d`) panicked
for a Chanoma without modifiers.
---
 src/chanoma.rs  |  5 +++--
 src/modifier.rs | 20 ++++++++++++++------
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/chanoma.rs b/src/chanoma.rs
index e0d7ddb..298f7ee 100644
--- a/src/chanoma.rs
+++ b/src/chanoma.rs
@@ -140,7 +140,8 @@ impl Chanoma {
     /// ```
     pub fn normalize_with_positions(&self, text: &str) -> ModifiedRecords {
         let mut v = Vec::new();
-        let mut text = text.to_string();
+        let source = text;
+        let mut text = source.to_string();
         for m in self.modifiers.iter() {
             let result = m.modify_with_positions(&text);
             if log_enabled!(log::Level::Debug) {
@@ -149,7 +150,7 @@ impl Chanoma {
             v.push(result.clone());
             text = result.text;
         }
-        ModifiedRecords::new(v)
+        ModifiedRecords::new(source, v)
     }
 
     /// 一文字から一文字の置換テーブルを定義した [Table] 構造体を使用するように [Chanoma] 構造体を初期化します。
diff --git a/src/modifier.rs b/src/modifier.rs
index 4ffb993..8b49d70 100644
--- a/src/modifier.rs
+++ b/src/modifier.rs
@@ -48,6 +48,7 @@ pub trait ModifierFromYamlValue {
 /// 実行された正規化処理の途中経過を保存する構造体です。
 #[derive(Debug)]
 pub struct ModifiedRecords {
+    source: String,
     records: Vec<ModifiedRecord>,
 }
 
@@ -57,22 +58,29 @@ impl ModifiedRecords {
     // ```
     // use chanoma::modifier::ModifiedRecords;
     //
-    // let modified = ModifiedRecords::new(vec![]);
+    // let modified = ModifiedRecords::new("", vec![]);
     // ```
-    pub fn new(records: Vec<ModifiedRecord>) -> Self {
-        Self { records }
+    pub fn new(source: impl Into<String>, records: Vec<ModifiedRecord>) -> Self {
+        Self {
+            source: source.into(),
+            records,
+        }
     }
 
     // [ModifiedResult] 構造体から最終結果の文字列を取得します。
+    // 実行された処理がない場合は、元の文字列を返します。
     //
     // ```
     // use chanoma::modifier::ModifiedRecords;
     //
-    // let modified = ModifiedRecords::new(vec![]);
+    // let modified = ModifiedRecords::new("", vec![]);
     // assert_eq!(modified.text(), "");
     // ```
     pub fn text(&self) -> &str {
-        &self.records.last().unwrap().text
+        match self.records.last() {
+            Some(record) => &record.text,
+            None => &self.source,
+        }
     }
 
     // [ModifiedRecords] 構造体からすべての途中経過を取得します。
@@ -80,7 +88,7 @@ impl ModifiedRecords {
     // ```
     // use chanoma::modifier::ModifiedRecords;
     //
-    // let modified = ModifiedRecords::new(vec![]);
+    // let modified = ModifiedRecords::new("", vec![]);
     // assert_eq!(modified.modified_records(), vec![]);
     // ```
     pub fn modified_records(&self) -> &Vec<ModifiedRecord> {
-- 
2.43.0


From 8d61c1cd51f174f16ccb46e269b985086b8f9b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:51 +0000
Subject: [PATCH 02/14] fix: record positions that locate the change in the
 input

CharacterConverter had index (bytes) and utf8_index (characters) swapped with
respect to length/utf8_length and to Trim, and listed positions in the random
order of its HashMap. ConsecutiveCharacterReducer recorded an offset into the
output text and the character index after the run; at the end of the text it
subtracted a character count from a byte length.
---
 src/modifier/character_converter.rs           | 13 ++++++++-----
 src/modifier/consecutive_character_reducer.rs | 10 +++++-----
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/modifier/character_converter.rs b/src/modifier/character_converter.rs
index 5c2c687..2da670d 100644
--- a/src/modifier/character_converter.rs
+++ b/src/modifier/character_converter.rs
@@ -69,7 +69,7 @@ impl Modifier for CharacterConverter {
             refs.push(c);
             map.entry(c)
                 .or_insert_with(|| CharPos::new(c.len_utf8()))
-                .push_indexes(index, i);
+                .push_indexes(i, index);
         }
 
         let mut positions = Vec::new();
@@ -77,13 +77,13 @@ impl Modifier for CharacterConverter {
             if let Some(to) = self.items_map.get(c) {
                 // 変換テーブルに該当の文字があったら、HashSetの該当の文字を変換後の文字に入れ替える
                 // mem::replace で参照先の中身を入れ替えることでrefsの参照先を変えない
-                for (i, c_index) in char_pos.indices.iter().enumerate() {
-                    let _ = mem::replace(&mut refs[*c_index], *to);
+                for (i, utf8_index) in char_pos.utf8_indices.iter().enumerate() {
+                    let _ = mem::replace(&mut refs[*utf8_index], *to);
                     positions.push(Position::new(
                         c.to_string(),
                         to.to_string(),
-                        *c_index,
-                        char_pos.utf8_indices[i],
+                        char_pos.indices[i],
+                        *utf8_index,
                         char_pos.length,
                         CharPos::UTF8_LEN,
                     ));
@@ -91,6 +91,9 @@ impl Modifier for CharacterConverter {
             }
         }
 
+        // HashMap の列挙順は不定なので、位置の順に並べる
+        positions.sort();
+
         ModifiedRecord::new(
             ModifierKind::CharacterConverter(self.clone()),
             refs.into_iter().collect::<String>(),
diff --git a/src/modifier/consecutive_character_reducer.rs b/src/modifier/consecutive_character_reducer.rs
index 0a07671..c2301b4 100644
--- a/src/modifier/consecutive_character_reducer.rs
+++ b/src/modifier/consecutive_character_reducer.rs
@@ -40,7 +40,7 @@ impl Modifier for ConsecutiveCharacterReducer {
         let mut text = String::new(); // 返却する文字列用のバッファ
         let mut positions = Vec::new(); // 変更された位置情報
         let mut buffer = [0u8; 4]; // char型から&strに変換する際に.to_string()でString型を経由するとメモリの動的確保によるオーバーヘッドがかかるので、直接&strに変換するためのバッファ
-        for (i, ch) in input.chars().enumerate() {
+        for (utf8_index, (index, ch)) in input.char_indices().enumerate() {
             if self.c == ch {
                 if counter > 0 {
                     counter += 1;
@@ -52,9 +52,9 @@ impl Modifier for ConsecutiveCharacterReducer {
                 positions.push(Position {
                     from: self.c.to_string().repeat(counter),
                     to: self.c.to_string(),
-                    index: text.len(),
+                    index: index - c_len * counter,
                     length: c_len * counter,
-                    utf8_index: i,
+                    utf8_index: utf8_index - counter,
                     utf8_length: counter,
                 });
                 counter = 0;
@@ -66,9 +66,9 @@ impl Modifier for ConsecutiveCharacterReducer {
             positions.push(Position {
                 from: self.c.to_string().repeat(counter),
                 to: self.c.to_string(),
-                index: text.len(),
+                index: input.len() - c_len * counter,
                 length: c_len * counter,
-                utf8_index: input.len() - counter,
+                utf8_index: input.chars().count() - counter,
                 utf8_length: counter,
             });
         }
-- 
2.43.0


From 792fefcad1a32f43ee32b4ea002deafabe2fb648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:51 +0000
Subject: [PATCH 03/14] fix: translate ligatures in a fixed order

The entries were applied in the random iteration order of a HashMap, so with
overlapping or chained entries (ab->x, bc->y) the same configuration gave
different results for the same text from one run to the next.
---
 src/modifier/ligature_translator.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/modifier/ligature_translator.rs b/src/modifier/ligature_translator.rs
index 2b33831..c91183b 100644
--- a/src/modifier/ligature_translator.rs
+++ b/src/modifier/ligature_translator.rs
@@ -15,7 +15,10 @@ pub struct LigatureTranslator {
 impl Modifier for LigatureTranslator {
     fn modify(&self, input: &str) -> String {
         let mut text = input.to_string();
-        for (from, to) in self.map.iter() {
+        // HashMap の列挙順は不定なので、結果が実行ごとに変わらないように長い合字から順に置換する
+        let mut entries = self.map.iter().collect::<Vec<_>>();
+        entries.sort_by(|(a, _), (b, _)| b.len().cmp(&a.len()).then_with(|| a.cmp(b)));
+        for (from, to) in entries {
             text = text.replace(from, to);
         }
         text
-- 
2.43.0


From 3bf5a565c42d5480e14e56ec9e46435b9d8fcf8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:52 +0000
Subject: [PATCH 04/14] fix: collapse long-vowel marks that become adjacent in
 neologdn

Spaces and tildes were removed after runs of the long-vowel mark had been
collapsed, so a mark, a space or tilde and another mark came out as two
adjacent marks, and normalizing the result once more changed it again.
---
 src/modifier/neologdn.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modifier/neologdn.rs b/src/modifier/neologdn.rs
index 3fcfdaf..6325e98 100644
--- a/src/modifier/neologdn.rs
+++ b/src/modifier/neologdn.rs
@@ -23,20 +23,20 @@ pub struct Neologdn {
 impl Modifier for Neologdn {
     fn modify(&self, input: &str) -> String {
         let text = self.character_converter.modify(input);
-        let text = self.consecutive.modify(&text);
         let text = self.space_eliminater.modify(&text);
         let text = self.character_eliminator.modify(&text);
+        let text = self.consecutive.modify(&text);
         let text = self.ligature_translator.modify(&text);
         self.space_eliminater.modify(&text)
     }
 
     fn modify_with_positions(&self, input: &str) -> ModifiedRecord {
         let result = self.character_converter.modify_with_positions(input);
-        let result = self.consecutive.modify_with_positions(&result.text);
         let result = self.space_eliminater.modify_with_positions(&result.text);
         let result = self
             .character_eliminator
             .modify_with_positions(&result.text);
+        let result = self.consecutive.modify_with_positions(&result.text);
         let result = self.ligature_translator.modify_with_positions(&result.text);
         ModifiedRecord::new(
             ModifierKind::Neologdn(self.clone()),
-- 
2.43.0


From 97f07013566bb88c44aac3cfe1930b54337cacb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:21 +0000
Subject: [PATCH 05/14] fix: load items written as a list of from/to pairs

---
 src/file.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/file.rs b/src/file.rs
index 85c3883..a733d49 100644
--- a/src/file.rs
+++ b/src/file.rs
@@ -4,7 +4,7 @@ use super::corr::{Corr, Correspondence, Item, Synthesized};
 use super::modifier_kind::ModifierKind;
 use super::table::{Origin, Table};
 use crate::error::Error;
-use serde::Serialize;
+use serde::{de::Error as _, Serialize};
 use std::collections::BTreeMap;
 use std::fs::File;
 use std::io::Write;
@@ -62,7 +62,15 @@ pub fn table_from_yaml_path(path: impl AsRef<Path>) -> Result<Table, Error> {
     let path = path.as_ref();
     let data: serde_yaml::Value = serde_yaml::from_reader(File::open(path)?)?;
     let mut items = Vec::new();
-    if let Some(map) = data.get("items") {
+    if let Some(pairs) = data.get("items").and_then(|value| value.as_sequence()) {
+        // from と to の組の配列で記述されている場合
+        for pair in pairs.iter() {
+            items.push(Item::new(
+                yaml_pair_value(pair, "from")?,
+                yaml_pair_value(pair, "to")?,
+            ));
+        }
+    } else if let Some(map) = data.get("items") {
         for (key, value) in map.as_mapping().unwrap().iter() {
             if value.is_sequence() {
                 for v in value.as_sequence().unwrap().iter() {
@@ -79,6 +87,18 @@ pub fn table_from_yaml_path(path: impl AsRef<Path>) -> Result<Table, Error> {
     ))
 }
 
+// from と to の組から指定したキーの文字列を取得する関数です。
+fn yaml_pair_value<'a>(pair: &'a serde_yaml::Value, key: &str) -> Result<&'a str, Error> {
+    match pair.get(key).and_then(|value| value.as_str()) {
+        Some(s) => Ok(s),
+        None => Err(serde_yaml::Error::custom(format!(
+            "items: `{}` must be specified as a string",
+            key
+        ))
+        .into()),
+    }
+}
+
 /// 設定ファイルの YAML ファイルのパスから Modifier を生成する関数です。
 ///
 /// ```
-- 
2.43.0


From 7b2874223cbe7a854bcb7ba981eedfe06450a848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:39 +0000
Subject: [PATCH 06/14] fix: reject malformed YAML values with an error instead
 of a panic

---
 src/file.rs                                   | 47 ++++++++++++-------
 src/modifier.rs                               | 22 +++++++++
 src/modifier/character_converter.rs           | 14 ++----
 src/modifier/character_eliminator.rs          | 10 ++--
 src/modifier/consecutive_character_reducer.rs |  9 ++--
 src/modifier/ligature_translator.rs           | 14 ++----
 src/modifier_kind.rs                          |  7 ++-
 7 files changed, 78 insertions(+), 45 deletions(-)

diff --git a/src/file.rs b/src/file.rs
index a733d49..1de9698 100644
--- a/src/file.rs
+++ b/src/file.rs
@@ -70,14 +70,15 @@ pub fn table_from_yaml_path(path: impl AsRef<Path>) -> Result<Table, Error> {
                 yaml_pair_value(pair, "to")?,
             ));
         }
-    } else if let Some(map) = data.get("items") {
-        for (key, value) in map.as_mapping().unwrap().iter() {
-            if value.is_sequence() {
-                for v in value.as_sequence().unwrap().iter() {
-                    items.push(Item::new(v.as_str().unwrap(), key.as_str().unwrap()));
+    } else if let Some(map) = data.get("items").filter(|value| !value.is_null()) {
+        for (key, value) in yaml_mapping(map, "items")?.iter() {
+            let key = yaml_str(key, "items")?;
+            if let Some(values) = value.as_sequence() {
+                for v in values.iter() {
+                    items.push(Item::new(yaml_str(v, "items")?, key));
                 }
             } else {
-                items.push(Item::new(value.as_str().unwrap(), key.as_str().unwrap()));
+                items.push(Item::new(yaml_str(value, "items")?, key));
             }
         }
     }
@@ -89,14 +90,28 @@ pub fn table_from_yaml_path(path: impl AsRef<Path>) -> Result<Table, Error> {
 
 // from と to の組から指定したキーの文字列を取得する関数です。
 fn yaml_pair_value<'a>(pair: &'a serde_yaml::Value, key: &str) -> Result<&'a str, Error> {
-    match pair.get(key).and_then(|value| value.as_str()) {
-        Some(s) => Ok(s),
-        None => Err(serde_yaml::Error::custom(format!(
-            "items: `{}` must be specified as a string",
-            key
-        ))
-        .into()),
-    }
+    yaml_str(pair.get(key).unwrap_or(&serde_yaml::Value::Null), "items")
+}
+
+// 文字列以外の値が記述されている場合はエラーを返す関数です。
+fn yaml_str<'a>(value: &'a serde_yaml::Value, section: &str) -> Result<&'a str, Error> {
+    value
+        .as_str()
+        .ok_or_else(|| yaml_type_error(section, "string"))
+}
+
+// マッピング以外の値が記述されている場合はエラーを返す関数です。
+fn yaml_mapping<'a>(
+    value: &'a serde_yaml::Value,
+    section: &str,
+) -> Result<&'a serde_yaml::Mapping, Error> {
+    value
+        .as_mapping()
+        .ok_or_else(|| yaml_type_error(section, "mapping"))
+}
+
+fn yaml_type_error(section: &str, expected: &str) -> Error {
+    serde_yaml::Error::custom(format!("{}: expected a {}", section, expected)).into()
 }
 
 /// 設定ファイルの YAML ファイルのパスから Modifier を生成する関数です。
@@ -110,8 +125,8 @@ pub fn modifiers_from_yaml_path(path: impl AsRef<Path>) -> Result<Vec<ModifierKi
     let path = path.as_ref();
     let data: serde_yaml::Value = serde_yaml::from_reader(File::open(path)?)?;
     let mut modifiers = Vec::new();
-    if let Some(map) = data.get("modifiers") {
-        for (key, value) in map.as_mapping().unwrap().iter() {
+    if let Some(map) = data.get("modifiers").filter(|value| !value.is_null()) {
+        for (key, value) in yaml_mapping(map, "modifiers")?.iter() {
             modifiers.push(ModifierKind::from_yaml_key_value(key, value)?);
         }
     }
diff --git a/src/modifier.rs b/src/modifier.rs
index 8b49d70..d7ad76d 100644
--- a/src/modifier.rs
+++ b/src/modifier.rs
@@ -45,6 +45,28 @@ pub trait ModifierFromYamlValue {
         Self: Sized;
 }
 
+// YAML の値から文字列を取得します。文字列でない場合はエラーを返します。
+pub(crate) fn yaml_str(value: &serde_yaml::Value) -> Result<&str, Error> {
+    value
+        .as_str()
+        .ok_or_else(|| Error::ModifierKindParseError("expected a string.".to_string()))
+}
+
+// YAML の値から先頭の一文字を取得します。文字列でない場合や空の場合はエラーを返します。
+pub(crate) fn yaml_char(value: &serde_yaml::Value) -> Result<char, Error> {
+    yaml_str(value)?
+        .chars()
+        .next()
+        .ok_or_else(|| Error::ModifierKindParseError("expected a character.".to_string()))
+}
+
+// YAML の値からマッピングを取得します。マッピングでない場合はエラーを返します。
+pub(crate) fn yaml_mapping(value: &serde_yaml::Value) -> Result<&serde_yaml::Mapping, Error> {
+    value
+        .as_mapping()
+        .ok_or_else(|| Error::ModifierKindParseError("expected a mapping.".to_string()))
+}
+
 /// 実行された正規化処理の途中経過を保存する構造体です。
 #[derive(Debug)]
 pub struct ModifiedRecords {
diff --git a/src/modifier/character_converter.rs b/src/modifier/character_converter.rs
index 2da670d..b00a080 100644
--- a/src/modifier/character_converter.rs
+++ b/src/modifier/character_converter.rs
@@ -1,6 +1,6 @@
 use super::{ModifiedRecord, Modifier};
 use crate::error::Error;
-use crate::modifier::ModifierFromYamlValue;
+use crate::modifier::{yaml_char, yaml_mapping, ModifierFromYamlValue};
 use crate::modifier_kind::ModifierKind;
 use crate::position::Position;
 use crate::table::Table;
@@ -104,16 +104,10 @@ impl Modifier for CharacterConverter {
 
 impl ModifierFromYamlValue for CharacterConverter {
     fn from_yaml_value(value: &serde_yaml::Value) -> Result<Self, Error> {
-        let map = value
-            .as_mapping()
-            .unwrap()
+        let map = yaml_mapping(value)?
             .iter()
-            .map(|(key, value)| {
-                let k = key.as_str().unwrap().chars().next().unwrap();
-                let v = value.as_str().unwrap().chars().next().unwrap();
-                (k, v)
-            })
-            .collect::<HashMap<char, char>>();
+            .map(|(key, value)| Ok((yaml_char(key)?, yaml_char(value)?)))
+            .collect::<Result<HashMap<char, char>, Error>>()?;
         Ok(Self::from_map(map))
     }
 }
diff --git a/src/modifier/character_eliminator.rs b/src/modifier/character_eliminator.rs
index 9307a40..a317b06 100644
--- a/src/modifier/character_eliminator.rs
+++ b/src/modifier/character_eliminator.rs
@@ -1,6 +1,6 @@
 use super::{ModifiedRecord, Modifier};
 use crate::error::Error;
-use crate::modifier::ModifierFromYamlValue;
+use crate::modifier::{yaml_char, ModifierFromYamlValue};
 use crate::modifier_kind::ModifierKind;
 use crate::position::Position;
 use std::collections::HashSet;
@@ -39,10 +39,12 @@ impl ModifierFromYamlValue for CharacterEliminator {
     fn from_yaml_value(value: &serde_yaml::Value) -> Result<Self, Error> {
         let map = value
             .as_sequence()
-            .unwrap()
+            .ok_or_else(|| {
+                Error::ModifierKindParseError("expected a sequence of characters.".to_string())
+            })?
             .iter()
-            .map(|v| v.as_str().unwrap().chars().next().unwrap())
-            .collect::<Vec<char>>();
+            .map(yaml_char)
+            .collect::<Result<Vec<char>, Error>>()?;
         Ok(Self::from_chars(map))
     }
 }
diff --git a/src/modifier/consecutive_character_reducer.rs b/src/modifier/consecutive_character_reducer.rs
index c2301b4..52854e2 100644
--- a/src/modifier/consecutive_character_reducer.rs
+++ b/src/modifier/consecutive_character_reducer.rs
@@ -2,7 +2,7 @@
 
 use super::{ModifiedRecord, Modifier};
 use crate::error::Error;
-use crate::modifier::ModifierFromYamlValue;
+use crate::modifier::{yaml_char, ModifierFromYamlValue};
 use crate::modifier_kind::ModifierKind;
 use crate::position::Position;
 use std::str::FromStr;
@@ -82,14 +82,17 @@ impl Modifier for ConsecutiveCharacterReducer {
 
 impl ModifierFromYamlValue for ConsecutiveCharacterReducer {
     fn from_yaml_value(value: &serde_yaml::Value) -> Result<Self, Error> {
-        Self::from_str(value.as_str().unwrap())
+        Ok(Self::new(yaml_char(value)?))
     }
 }
 
 impl FromStr for ConsecutiveCharacterReducer {
     type Err = Error;
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        let c = s.chars().next().unwrap();
+        let c = s
+            .chars()
+            .next()
+            .ok_or_else(|| Error::ModifierKindParseError("require value.".to_string()))?;
         Ok(Self::new(c))
     }
 }
diff --git a/src/modifier/ligature_translator.rs b/src/modifier/ligature_translator.rs
index c91183b..4ed0109 100644
--- a/src/modifier/ligature_translator.rs
+++ b/src/modifier/ligature_translator.rs
@@ -1,6 +1,6 @@
 use super::{ModifiedRecord, Modifier};
 use crate::error::Error;
-use crate::modifier::ModifierFromYamlValue;
+use crate::modifier::{yaml_mapping, yaml_str, ModifierFromYamlValue};
 use crate::modifier_kind::ModifierKind;
 use crate::position::Position;
 use std::collections::HashMap;
@@ -36,16 +36,10 @@ impl Modifier for LigatureTranslator {
 
 impl ModifierFromYamlValue for LigatureTranslator {
     fn from_yaml_value(value: &serde_yaml::Value) -> Result<Self, Error> {
-        let map = value
-            .as_mapping()
-            .unwrap()
+        let map = yaml_mapping(value)?
             .iter()
-            .map(|(key, value)| {
-                let k = key.as_str().unwrap().to_string();
-                let v = value.as_str().unwrap().to_string();
-                (k, v)
-            })
-            .collect::<HashMap<String, String>>();
+            .map(|(key, value)| Ok((yaml_str(key)?.to_string(), yaml_str(value)?.to_string())))
+            .collect::<Result<HashMap<String, String>, Error>>()?;
         Ok(Self::from_map(map))
     }
 }
diff --git a/src/modifier_kind.rs b/src/modifier_kind.rs
index 234bb84..5d62471 100644
--- a/src/modifier_kind.rs
+++ b/src/modifier_kind.rs
@@ -116,7 +116,10 @@ impl ModifierKind {
         key: &serde_yaml::Value,
         value: &serde_yaml::Value,
     ) -> Result<Self, Error> {
-        match key.as_str().unwrap() {
+        let key = key
+            .as_str()
+            .ok_or_else(|| Error::ModifierKindParseError("key must be a string.".to_string()))?;
+        match key {
             "character_converter" => Ok(Self::CharacterConverter(
                 CharacterConverter::from_yaml_value(value)?,
             )),
@@ -136,7 +139,7 @@ impl ModifierKind {
             "neologdn" => Ok(Self::Neologdn(Neologdn::from_yaml_value(value)?)),
             _ => Err(Error::ModifierKindParseError(format!(
                 "specified key {} does not exists.",
-                key.as_str().unwrap()
+                key
             ))),
         }
     }
-- 
2.43.0


From 3dcd2d0bbfa456fa988c939704e157032dec70c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:42 +0000
Subject: [PATCH 07/14] fix: ignore table entries with an empty source or
 target

---
 src/modifier/character_converter.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/modifier/character_converter.rs b/src/modifier/character_converter.rs
index b00a080..566bb32 100644
--- a/src/modifier/character_converter.rs
+++ b/src/modifier/character_converter.rs
@@ -154,10 +154,10 @@ impl CharacterConverter {
         let mut items_map = HashMap::new();
         for table in tables.iter() {
             for item in table.items().iter() {
-                items_map.insert(
-                    item.from.chars().next().unwrap(),
-                    item.to.chars().next().unwrap(),
-                );
+                // 置換前か置換後が空の組は無視する
+                if let (Some(from), Some(to)) = (item.from.chars().next(), item.to.chars().next()) {
+                    items_map.insert(from, to);
+                }
             }
         }
         Self { items_map }
-- 
2.43.0


From 8803d59424dabcc65f24671308340205024472f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:45 +0000
Subject: [PATCH 08/14] fix: accept every supported CHANOMARC extension and
 reject others without a panic

---
 src/configuration.rs | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/configuration.rs b/src/configuration.rs
index 4f1998c..aa12976 100644
--- a/src/configuration.rs
+++ b/src/configuration.rs
@@ -97,11 +97,8 @@ impl Configuration {
 
 /// 環境変数が指定されていたらパスを返す
 fn file_path_from_env(env_name: &str) -> Option<PathBuf> {
-    if let Ok(path) = env::var(env_name) {
-        // Configuration::ENV_NAME
-        return Some(PathBuf::from(path));
-    }
-    None
+    // Configuration::ENV_NAME
+    env::var_os(env_name).map(PathBuf::from)
 }
 
 /// 指定したファイルが設定ファイルとして使用可能であればパス情報を返す
@@ -109,10 +106,7 @@ fn valid_file_path(path: PathBuf) -> Result<Vec<PathBuf>, Error> {
     if !path.is_file() {
         return Err(crate::error::Error::RcFileLoadError(path));
     }
-    let extension = String::from(path.extension().unwrap().to_str().unwrap());
-    if FileExtension::iter().all(|ext| ext.to_string() != extension) {
-        return Err(crate::error::Error::RcFileLoadError(path));
-    }
+    FileExtension::from_path(&path)?;
     Ok(vec![path])
 }
 
-- 
2.43.0


From 2e90bbbdaae054e128a3f2b27a81247ec2239a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:13 +0000
Subject: [PATCH 09/14] fix: discover chanomarc.yml files

---
 src/configuration.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/configuration.rs b/src/configuration.rs
index aa12976..fe20805 100644
--- a/src/configuration.rs
+++ b/src/configuration.rs
@@ -58,10 +58,9 @@ impl Configuration {
             return valid_file_path(path);
         }
 
-        Ok(exists_file_paths(
-            auto_load_dirs(),
-            auto_load_paths_from_dir,
-        ))
+        Ok(exists_file_paths(auto_load_dirs(), |dir| {
+            with_yml_paths(auto_load_paths_from_dir(dir))
+        }))
     }
 
     fn load_items_to_character_converter(
@@ -143,6 +142,20 @@ fn auto_load_paths_from_dir(dir: &PathBuf) -> Vec<PathBuf> {
         .collect()
 }
 
+// 拡張子が .yaml のパスの次に、拡張子が .yml のパスを追加する
+fn with_yml_paths(paths: Vec<PathBuf>) -> Vec<PathBuf> {
+    paths
+        .into_iter()
+        .flat_map(|path| {
+            let yml = match path.extension() {
+                Some(ext) if ext == "yaml" => Some(path.with_extension("yml")),
+                _ => None,
+            };
+            std::iter::once(path).chain(yml)
+        })
+        .collect()
+}
+
 /// 存在するパスに絞り込む
 fn exists_file_paths<F>(load_dirs: Vec<PathBuf>, expand: F) -> Vec<PathBuf>
 where
-- 
2.43.0


From e23143fdc295aac63cd9913a8b695672518b163a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:31 +0000
Subject: [PATCH 10/14] fix: load each configuration file once when directories
 coincide

---
 src/configuration.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/configuration.rs b/src/configuration.rs
index fe20805..2a0c2f9 100644
--- a/src/configuration.rs
+++ b/src/configuration.rs
@@ -4,6 +4,7 @@ use super::modifier::CharacterConverter;
 use super::modifier_kind::ModifierKind;
 use crate::error::Error;
 use log::log_enabled;
+use std::collections::HashSet;
 use std::env;
 use std::path::{Path, PathBuf};
 use strum::IntoEnumIterator;
@@ -58,7 +59,7 @@ impl Configuration {
             return valid_file_path(path);
         }
 
-        Ok(exists_file_paths(auto_load_dirs(), |dir| {
+        Ok(exists_file_paths(distinct_dirs(auto_load_dirs()), |dir| {
             with_yml_paths(auto_load_paths_from_dir(dir))
         }))
     }
@@ -124,6 +125,14 @@ fn auto_load_dirs() -> Vec<PathBuf> {
     paths
 }
 
+/// 同じディレクトリを指すパスを、最初のものだけに絞り込む
+fn distinct_dirs(dirs: Vec<PathBuf>) -> Vec<PathBuf> {
+    let mut seen = HashSet::new();
+    dirs.into_iter()
+        .filter(|dir| seen.insert(dir.canonicalize().unwrap_or_else(|_| dir.clone())))
+        .collect()
+}
+
 /// ディレクトリのパスに設定ファイルとして認識可能なパスを生成する
 #[allow(clippy::ptr_arg)]
 fn auto_load_paths_from_dir(dir: &PathBuf) -> Vec<PathBuf> {
-- 
2.43.0


From ca6709a11b4f28091dd90c46ce16cc2394afd011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:34 +0000
Subject: [PATCH 11/14] fix: print a header line in the CSV dump of the preset

---
 src/bin/output.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bin/output.rs b/src/bin/output.rs
index 4fa41ec..57ba82e 100644
--- a/src/bin/output.rs
+++ b/src/bin/output.rs
@@ -22,6 +22,8 @@ impl Format {
         match self {
             Self::Csv => {
                 let wtr = to_csv_writer(&table.corr(), vec![]);
+                // 設定ファイルの先頭行はヘッダーとして読み飛ばされる
+                println!("from,to");
                 println!("{}", String::from_utf8(wtr.into_inner()?)?);
             }
             Self::Yaml => {
-- 
2.43.0


From 417c2f98ee4164d3be44c2233283f5f4ff1cb395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:44 +0000
Subject: [PATCH 12/14] fix: correct the expansions of U+339F, U+33A4 and
 U+33CD

---
 src/characters_set/cjk_compatibilities.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/characters_set/cjk_compatibilities.rs b/src/characters_set/cjk_compatibilities.rs
index a192adf..035904a 100644
--- a/src/characters_set/cjk_compatibilities.rs
+++ b/src/characters_set/cjk_compatibilities.rs
@@ -461,12 +461,12 @@ pub const SQUARE_MU_M: Correspondence<Linear> = Linear::new("\u{339B}", "µm").c
 pub const SQUARE_MM: Correspondence<Linear> = Linear::new("\u{339C}", "mm").corr(); // U+339C  ㎜  SQUARE MM   mm
 pub const SQUARE_CM: Correspondence<Linear> = Linear::new("\u{339D}", "cm").corr(); // U+339D  ㎝  SQUARE CM   cm
 pub const SQUARE_KM: Correspondence<Linear> = Linear::new("\u{339E}", "km").corr(); // U+339E  ㎞  SQUARE KM   km
-pub const SQUARE_MM_SQUARED: Correspondence<Linear> = Linear::new("\u{339F}", "mm").corr(); // U+339F  ㎟  SQUARE MM SQUARED   mm2     平方ミリメートル
+pub const SQUARE_MM_SQUARED: Correspondence<Linear> = Linear::new("\u{339F}", "mm2").corr(); // U+339F  ㎟  SQUARE MM SQUARED   mm2     平方ミリメートル
 pub const SQUARE_CM_SQUARED: Correspondence<Linear> = Linear::new("\u{33A0}", "cm2").corr(); // U+33A0  ㎠  SQUARE CM SQUARED   cm2     平方センチメートル
 pub const SQUARE_M_SQUARED: Correspondence<Linear> = Linear::new("\u{33A1}", "m2").corr(); // U+33A1  ㎡  SQUARE M SQUARED    m2  平方メートル
 pub const SQUARE_KM_SQUARED: Correspondence<Linear> = Linear::new("\u{33A2}", "km2").corr(); // U+33A2  ㎢  SQUARE KM SQUARED   km2     平方キロメートル
 pub const SQUARE_MM_CUBED: Correspondence<Linear> = Linear::new("\u{33A3}", "mm3").corr(); // U+33A3  ㎣  SQUARE MM CUBED     mm3     立方ミリメートル
-pub const SQUARE_CM_CUBED: Correspondence<Linear> = Linear::new("\u{33A3}", "cm3").corr(); // U+33A4  ㎤  SQUARE CM CUBED     cm3     立方センチメートル
+pub const SQUARE_CM_CUBED: Correspondence<Linear> = Linear::new("\u{33A4}", "cm3").corr(); // U+33A4  ㎤  SQUARE CM CUBED     cm3     立方センチメートル
 pub const SQUARE_M_CUBED: Correspondence<Linear> = Linear::new("\u{33A5}", "m3").corr(); // U+33A5  ㎥  SQUARE M CUBED  m3  立方メートル
 pub const SQUARE_KM_CUBED: Correspondence<Linear> = Linear::new("\u{33A6}", "km3").corr(); // U+33A6  ㎦  SQUARE KM CUBED     km3     立方キロメートル
 pub const SQUARE_M_OVER_S: Correspondence<Linear> = Linear::new("\u{33A7}", "m/s").corr(); // U+33A7  ㎧  SQUARE M OVER S     m/s     メートル毎
@@ -508,7 +508,7 @@ pub const SQUARE_GY: Correspondence<Linear> = Linear::new("\u{33C9}", "Gy").corr
 pub const SQUARE_HA: Correspondence<Linear> = Linear::new("\u{33CA}", "ha").corr(); // U+33CA  ㏊  SQUARE HA   ha
 pub const SQUARE_HP: Correspondence<Linear> = Linear::new("\u{33CB}", "HP").corr(); // U+33CB  ㏋  SQUARE HP   HP
 pub const SQUARE_IN: Correspondence<Linear> = Linear::new("\u{33CC}", "in").corr(); // U+33CC  ㏌  SQUARE IN   in
-pub const SQUARE_KK: Correspondence<Linear> = Linear::new("\u{33CD}", "K.").corr(); // U+33CD  ㏍  SQUARE KK   K.K.
+pub const SQUARE_KK: Correspondence<Linear> = Linear::new("\u{33CD}", "K.K.").corr(); // U+33CD  ㏍  SQUARE KK   K.K.
 pub const SQUARE_KM_CAPITAL: Correspondence<Linear> = Linear::new("\u{33CE}", "KM").corr(); // U+33CE  ㏎  SQUARE KM CAPITAL   KM
 pub const SQUARE_KT: Correspondence<Linear> = Linear::new("\u{33CF}", "kt").corr(); // U+33CF  ㏏  SQUARE KT   kt
 pub const SQUARE_LM: Correspondence<Linear> = Linear::new("\u{33D0}", "lm").corr(); // U+33D0  ㏐  SQUARE LM   lm
-- 
2.43.0


From 804c2b15d7034c8dea9ef62bf461b7c808a017ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:50 +0000
Subject: [PATCH 13/14] fix: read a YAML configuration file once per load

Its steps and its entries were read from the file separately, so a file
replaced in between gave the steps of one version and the entries of
the other.
---
 src/configuration.rs | 32 ++++++--------------------------
 src/file.rs          | 27 ++++++++++++++++++++++++---
 2 files changed, 30 insertions(+), 29 deletions(-)

diff --git a/src/configuration.rs b/src/configuration.rs
index 2a0c2f9..bee8131 100644
--- a/src/configuration.rs
+++ b/src/configuration.rs
@@ -64,33 +64,13 @@ impl Configuration {
         }))
     }
 
-    fn load_items_to_character_converter(
-        &self,
-        path: &Path,
-        ext: &FileExtension,
-    ) -> Result<CharacterConverter, Error> {
-        let table = match ext {
-            FileExtension::Csv => table_from_csv_path(path)?,
-            FileExtension::Yaml => table_from_yaml_path(path)?,
-            //FileExtension::Json => from_json_path(path),
-        };
-        Ok(CharacterConverter::from_tables(vec![table]))
-    }
-
-    fn load_modifiers(&self, path: &Path, ext: &FileExtension) -> Result<Vec<ModifierKind>, Error> {
-        let modifier_kinds = match ext {
-            FileExtension::Yaml => modifiers_from_yaml_path(path)?,
-            //FileExtension::Json => modifiers_from_json_path(path)?,
-            _ => Vec::new(),
-        };
-        Ok(modifier_kinds)
-    }
-
     fn load_file_with_ext(&self, path: &Path) -> Result<Vec<ModifierKind>, Error> {
-        let ext = FileExtension::from_path(&path)?;
-        let character_converter = self.load_items_to_character_converter(path, &ext)?;
-        let mut modifiers = self.load_modifiers(path, &ext)?;
-        modifiers.push(character_converter.into());
+        let (table, mut modifiers) = match FileExtension::from_path(&path)? {
+            FileExtension::Csv => (table_from_csv_path(path)?, Vec::new()),
+            FileExtension::Yaml => table_and_modifiers_from_yaml_path(path)?,
+            //FileExtension::Json => table_and_modifiers_from_json_path(path)?,
+        };
+        modifiers.push(CharacterConverter::from_tables(vec![table]).into());
         Ok(modifiers)
     }
 }
diff --git a/src/file.rs b/src/file.rs
index 1de9698..f0b586c 100644
--- a/src/file.rs
+++ b/src/file.rs
@@ -60,7 +60,26 @@ pub fn to_csv_writer<T: Corr, W: Write>(corr: &Correspondence<T>, writer: W) ->
 /// ```
 pub fn table_from_yaml_path(path: impl AsRef<Path>) -> Result<Table, Error> {
     let path = path.as_ref();
-    let data: serde_yaml::Value = serde_yaml::from_reader(File::open(path)?)?;
+    table_from_yaml_value(&yaml_value_from_path(path)?, path)
+}
+
+// 一度だけ読み込んだ YAML ファイルから置換テーブルと Modifier を生成する関数です。
+// 別々に読み込むと、その間に置き換えられたファイルの内容と混ざることがあります。
+pub(crate) fn table_and_modifiers_from_yaml_path(
+    path: &Path,
+) -> Result<(Table, Vec<ModifierKind>), Error> {
+    let data = yaml_value_from_path(path)?;
+    Ok((
+        table_from_yaml_value(&data, path)?,
+        modifiers_from_yaml_value(&data)?,
+    ))
+}
+
+fn yaml_value_from_path(path: &Path) -> Result<serde_yaml::Value, Error> {
+    Ok(serde_yaml::from_reader(File::open(path)?)?)
+}
+
+fn table_from_yaml_value(data: &serde_yaml::Value, path: &Path) -> Result<Table, Error> {
     let mut items = Vec::new();
     if let Some(pairs) = data.get("items").and_then(|value| value.as_sequence()) {
         // from と to の組の配列で記述されている場合
@@ -122,8 +141,10 @@ fn yaml_type_error(section: &str, expected: &str) -> Error {
 /// let result = modifiers_from_yaml_path("/path/to/foo.yaml");
 /// ```
 pub fn modifiers_from_yaml_path(path: impl AsRef<Path>) -> Result<Vec<ModifierKind>, Error> {
-    let path = path.as_ref();
-    let data: serde_yaml::Value = serde_yaml::from_reader(File::open(path)?)?;
+    modifiers_from_yaml_value(&yaml_value_from_path(path.as_ref())?)
+}
+
+fn modifiers_from_yaml_value(data: &serde_yaml::Value) -> Result<Vec<ModifierKind>, Error> {
     let mut modifiers = Vec::new();
     if let Some(map) = data.get("modifiers").filter(|value| !value.is_null()) {
         for (key, value) in yaml_mapping(map, "modifiers")?.iter() {
-- 
2.43.0


From ef3df87518703a7c34fe38a907843dbf6c94688e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:11 +0000
Subject: [PATCH 14/14] fix: ignore a byte order mark before a YAML
 configuration

---
 src/file.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/file.rs b/src/file.rs
index f0b586c..6b7ebfa 100644
--- a/src/file.rs
+++ b/src/file.rs
@@ -6,7 +6,6 @@ use super::table::{Origin, Table};
 use crate::error::Error;
 use serde::{de::Error as _, Serialize};
 use std::collections::BTreeMap;
-use std::fs::File;
 use std::io::Write;
 use std::path::Path;
 
@@ -76,7 +75,10 @@ pub(crate) fn table_and_modifiers_from_yaml_path(
 }
 
 fn yaml_value_from_path(path: &Path) -> Result<serde_yaml::Value, Error> {
-    Ok(serde_yaml::from_reader(File::open(path)?)?)
+    let bytes = std::fs::read(path)?;
+    // UTF-8 の BOM は内容に含めません。含めると先頭のキーの一部として扱われてしまいます。
+    let content = bytes.strip_prefix(b"\xef\xbb\xbf").unwrap_or(&bytes);
+    Ok(serde_yaml::from_slice(content)?)
 }
 
 fn table_from_yaml_value(data: &serde_yaml::Value, path: &Path) -> Result<Table, Error> {
-- 
2.43.0

