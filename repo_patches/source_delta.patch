From d51a2984589e76da0ea576a8664b314e7630eda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:14 +0000
Subject: [PATCH 01/32] fix: report malformed PO lines as syntax errors instead
 of panicking

Unexpected line order, strings without both quotes, plural lines without
a value, a header entry without msgstr and huge plural indexes made the
parser panic or exhaust the memory.
---
 rust/src/poparser.rs | 63 +++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 56 insertions(+), 7 deletions(-)

diff --git a/rust/src/poparser.rs b/rust/src/poparser.rs
index abd1316..01eb9f2 100644
--- a/rust/src/poparser.rs
+++ b/rust/src/poparser.rs
@@ -87,6 +87,12 @@ impl Iterator for LinesHandler<'_> {
     }
 }
 
+/// Maximum index accepted for `msgstr[index]` fields
+///
+/// The plural forms of an entry are stored contiguously, so an arbitrary
+/// index found in the file must not decide how much memory is allocated.
+const MAX_MSGSTR_PLURAL_INDEX: usize = 255;
+
 /// PO file parser
 pub(crate) struct POFileParser {
     /// Whether the content is a path to a file or the file content
@@ -154,7 +160,20 @@ impl POFileParser {
     ) -> Result<(), SyntaxError> {
         let next_transition = (*symbol, self.current_state);
         let (action, next_state) =
-            *TRANSITIONS.get(&next_transition).unwrap();
+            match TRANSITIONS.get(&next_transition) {
+                Some(transition) => *transition,
+                None => {
+                    // line not expected after the previous one
+                    return Err(SyntaxError::Generic {
+                        maybe_filename: MaybeFilename::new(
+                            &self.file.options.path_or_content,
+                            self.content_is_path,
+                        ),
+                        line: self.current_line,
+                        index: 0,
+                    });
+                }
+            };
 
         (transition_fn_factory(action)?)(self)?;
         if action != St::MC {
@@ -221,7 +240,7 @@ impl POFileParser {
             self.file.remove(&metadata_entry);
 
             for metadata_line in
-                metadata_entry.msgstr.unwrap().split('\n')
+                metadata_entry.msgstr.unwrap_or_default().split('\n')
             {
                 let (key, value) =
                     match metadata_line.split_once(": ") {
@@ -326,9 +345,23 @@ impl POFileParser {
                 .unwrap();
 
             match index.parse::<usize>() {
-                Ok(index) => {
+                Ok(index) if index <= MAX_MSGSTR_PLURAL_INDEX => {
                     self.msgstr_index = index;
                 }
+                Ok(index) => {
+                    return Err(SyntaxError::Custom {
+                        maybe_filename: MaybeFilename::new(
+                            &self.file.options.path_or_content,
+                            self.content_is_path,
+                        ),
+                        message: format!(
+                            "msgstr plural index {} is too large",
+                            index,
+                        ),
+                        line: self.current_line,
+                        index: 7,
+                    });
+                }
                 Err(_) => {
                     return Err(SyntaxError::Custom {
                         maybe_filename: MaybeFilename::new(
@@ -348,6 +381,20 @@ impl POFileParser {
                 }
             };
 
+            let value = self
+                .current_token
+                .split_once(']')
+                .map_or("", |(_, value)| value.trim_start());
+            maybe_raise_unescaped_double_quote_found_error(
+                value,
+                self.current_line,
+                self.content_is_path,
+                &self.file.options.path_or_content,
+                self.current_token.chars().count()
+                    - value.chars().count()
+                    + 1,
+            )?;
+
             self.process(&St::MX)?;
         } else if tokens[0] == "#," {
             if nb_tokens < 2 {
@@ -733,17 +780,19 @@ fn maybe_raise_unescaped_double_quote_found_error(
     path_or_content: &str,
     index_offset: usize,
 ) -> Result<(), SyntaxError> {
-    // Check if last character is not a double quote
+    // Check that the text is enclosed by double quotes
     // to prevent slicing out of bounds
-    let text_chars = text.chars();
-    if text_chars.last().unwrap_or('\0') != '"' {
+    if text.len() < 2
+        || !text.starts_with('"')
+        || !text.ends_with('"')
+    {
         return Err(SyntaxError::Custom {
             maybe_filename: MaybeFilename::new(
                 path_or_content,
                 path_or_content_is_path,
             ),
             line: linenum,
-            index: text.chars().count() - 1,
+            index: text.chars().count().saturating_sub(1),
             message: format!("unterminated string '{}'", text),
         });
     }
-- 
2.43.0


From da20b1878ec3e7f3d17265a1ad596737723985c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:41 +0000
Subject: [PATCH 02/32] fix: parse continuation lines and spacing of previous
 fields

The text of a '#| "..."' continuation line included the marker, and
additional whitespace around the keyword of a '#|' line ended up in the
value.
---
 rust/src/poparser.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/rust/src/poparser.rs b/rust/src/poparser.rs
index 01eb9f2..cd77cef 100644
--- a/rust/src/poparser.rs
+++ b/rust/src/poparser.rs
@@ -429,8 +429,18 @@ impl POFileParser {
             }
 
             // Remove the marker and any whitespace following it
+            let nb_line_chars = line.chars().count();
+            line = line[2..].trim_start();
             if tokens[1].starts_with('"') {
                 // Continuation of previous metadata
+                maybe_raise_unescaped_double_quote_found_error(
+                    line,
+                    self.current_line,
+                    self.content_is_path,
+                    &self.file.options.path_or_content,
+                    nb_line_chars - line.chars().count() + 1,
+                )?;
+                self.current_token = line.to_string();
                 self.process(&St::MC)?;
                 return Ok(());
             }
@@ -463,10 +473,15 @@ impl POFileParser {
 
             // Remove the keyword and any whitespace
             // between it and the starting quote
-            self.current_token = line
-                [tokens[1].len() + tokens[0].len() + 1..]
-                .trim_start()
-                .to_string();
+            line = line[tokens[1].len()..].trim_start();
+            maybe_raise_unescaped_double_quote_found_error(
+                line,
+                self.current_line,
+                self.content_is_path,
+                &self.file.options.path_or_content,
+                nb_line_chars - line.chars().count() + 1,
+            )?;
+            self.current_token = line.to_string();
             self.process(PREV_KEYWORDS.get(&tokens[1]).unwrap())?;
         } else {
             return Err(SyntaxError::Generic {
-- 
2.43.0


From 2d9986e5443fd2430472d28153d2d29d9ab5248c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:47 +0000
Subject: [PATCH 03/32] fix: report unreadable lines of PO files as errors

A line that is not valid UTF-8 silently ended the parsing, dropping the
rest of the file.
---
 rust/src/poparser.rs | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/rust/src/poparser.rs b/rust/src/poparser.rs
index cd77cef..f2c3e1f 100644
--- a/rust/src/poparser.rs
+++ b/rust/src/poparser.rs
@@ -76,14 +76,10 @@ impl LinesHandler<'_> {
 }
 
 impl Iterator for LinesHandler<'_> {
-    type Item = String;
+    type Item = std::io::Result<String>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        match self.lines.next() {
-            Some(Ok(line)) => Some(line),
-            Some(Err(_)) => None,
-            None => None,
-        }
+        self.lines.next()
     }
 }
 
@@ -214,10 +210,11 @@ impl POFileParser {
         &mut self,
         handler: &mut LinesHandler,
     ) -> Result<(), SyntaxError> {
-        let first_line = handler.next().unwrap_or("".to_string());
+        let first_line =
+            self.read_line(handler)?.unwrap_or("".to_string());
         self.parse_line(maybe_lstrip_utf8_bom(&first_line))?;
 
-        for line in handler.by_ref() {
+        while let Some(line) = self.read_line(handler)? {
             self.parse_line(&line)?;
         }
 
@@ -266,6 +263,25 @@ impl POFileParser {
         Ok(())
     }
 
+    fn read_line(
+        &self,
+        handler: &mut LinesHandler,
+    ) -> Result<Option<String>, SyntaxError> {
+        match handler.next() {
+            Some(Ok(line)) => Ok(Some(line)),
+            Some(Err(e)) => Err(SyntaxError::Custom {
+                maybe_filename: MaybeFilename::new(
+                    &self.file.options.path_or_content,
+                    self.content_is_path,
+                ),
+                message: e.to_string(),
+                line: self.current_line + 1,
+                index: 0,
+            }),
+            None => Ok(None),
+        }
+    }
+
     fn tokens_from_line(&self, line: &str) -> Vec<String> {
         let mut tokens: Vec<String> = Vec::with_capacity(3);
         for token in line.split_ascii_whitespace() {
-- 
2.43.0


From 9449409834b7040cba389f4ea3d92c11c3de44c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:28:02 +0000
Subject: [PATCH 04/32] fix: read PO files passed as bytes

The bytes were ignored and an empty file was returned. Options built from
a reference to other options also lost them.
---
 rust/src/file/mod.rs | 4 ++--
 rust/src/poparser.rs | 9 +++++++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/rust/src/file/mod.rs b/rust/src/file/mod.rs
index 53fce6e..3abf006 100644
--- a/rust/src/file/mod.rs
+++ b/rust/src/file/mod.rs
@@ -92,7 +92,7 @@ pub struct FileOptions {
     pub path_or_content: String,
     /// Wrap width for the PO file, used when converted as a string
     pub wrapwidth: usize,
-    /// Content as bytes, used by MO files when the content is passed as bytes
+    /// Content as bytes, used when the content is passed as bytes
     pub byte_content: Option<Vec<u8>>,
 }
 
@@ -111,7 +111,7 @@ impl From<&FileOptions> for FileOptions {
         Self {
             path_or_content: options.path_or_content.clone(),
             wrapwidth: options.wrapwidth,
-            ..Default::default()
+            byte_content: options.byte_content.clone(),
         }
     }
 }
diff --git a/rust/src/poparser.rs b/rust/src/poparser.rs
index f2c3e1f..c4405b3 100644
--- a/rust/src/poparser.rs
+++ b/rust/src/poparser.rs
@@ -199,8 +199,13 @@ impl POFileParser {
     }
 
     fn parse_content(&mut self) -> Result<(), SyntaxError> {
-        let content = self.file.options.path_or_content.clone();
-        let mut buf = BufReader::new(content.as_bytes());
+        let content = match &self.file.options.byte_content {
+            Some(byte_content) => byte_content.clone(),
+            None => {
+                self.file.options.path_or_content.clone().into_bytes()
+            }
+        };
+        let mut buf = BufReader::new(content.as_slice());
         let mut handler = LinesHandler::new(&mut buf);
         self.parse_with_handler(&mut handler)?;
         Ok(())
-- 
2.43.0


From e4c9e08a4fafe2f88a27b6a346d2e96b84c04e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:28:30 +0000
Subject: [PATCH 05/32] fix: recognise and read the metadata entry of PO files

Entries with an empty msgid and a context were taken as the metadata, any
flag made the metadata fuzzy, lines without a space after the colon were
dropped, and the last entry of a file was lost if its msgid was empty.
---
 rust/src/poparser.rs | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/rust/src/poparser.rs b/rust/src/poparser.rs
index c4405b3..eaaae83 100644
--- a/rust/src/poparser.rs
+++ b/rust/src/poparser.rs
@@ -223,29 +223,32 @@ impl POFileParser {
             self.parse_line(&line)?;
         }
 
-        if self.current_entry.msgid.is_empty() {
-            // Adding header entry
-            if let Some(msgstr) = &self.current_entry.msgstr {
-                if !msgstr.is_empty() {
-                    self.add_current_entry()?;
-                }
-            }
-        } else {
+        if !self.current_entry.msgid.is_empty()
+            || [St::MS, St::MX].contains(&self.current_state)
+        {
             self.add_current_entry()?;
         }
 
-        let metadata_entry = self.file.find_by_msgid("");
+        let metadata_entry = self
+            .file
+            .entries
+            .iter()
+            .find(|e| {
+                e.msgid.is_empty()
+                    && e.msgctxt.is_none()
+                    && !e.obsolete
+            })
+            .cloned();
         if let Some(metadata_entry) = metadata_entry {
             // Remove header from entries and store it in metadata hashmap
-            self.file.metadata_is_fuzzy =
-                !metadata_entry.flags.is_empty();
+            self.file.metadata_is_fuzzy = metadata_entry.fuzzy();
             self.file.remove(&metadata_entry);
 
             for metadata_line in
                 metadata_entry.msgstr.unwrap_or_default().split('\n')
             {
                 let (key, value) =
-                    match metadata_line.split_once(": ") {
+                    match metadata_line.split_once(':') {
                         Some((key, value)) => (key, value),
                         None => continue,
                     };
-- 
2.43.0


From 8b98067f9672c6f439e4bc8a3356629fa476c00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:28:37 +0000
Subject: [PATCH 06/32] fix: keep the comment marker when wrapping long
 comments

The lines of wrapped comments were written without marker, so that the
result could not be parsed. Blank lines at the end of comments are also
kept now, and small wrap widths do not underflow.
---
 rust/src/entry/poentry.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/rust/src/entry/poentry.rs b/rust/src/entry/poentry.rs
index a8caeb2..ba47940 100644
--- a/rust/src/entry/poentry.rs
+++ b/rust/src/entry/poentry.rs
@@ -94,14 +94,18 @@ impl POEntry {
         wrapwidth: usize,
         target: &mut String,
     ) {
-        for line in comment.lines() {
+        for line in comment.split('\n') {
             if UnicodeWidthStr::width(line) + 2 > wrapwidth {
-                target.push_str(&wrap(line, wrapwidth - 2).join("\n"))
+                for chunk in wrap(line, wrapwidth.saturating_sub(2)) {
+                    target.push_str(prefix);
+                    target.push_str(chunk.trim_end());
+                    target.push('\n');
+                }
             } else {
                 target.push_str(prefix);
                 target.push_str(line);
+                target.push('\n');
             }
-            target.push('\n');
         }
     }
 
-- 
2.43.0


From efb07ca7ef801dd372303e878f275ea6c3f53b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:28:44 +0000
Subject: [PATCH 07/32] fix: do not lose or repeat occurrences when wrapping
 them

---
 rust/src/entry/poentry.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rust/src/entry/poentry.rs b/rust/src/entry/poentry.rs
index ba47940..8cb4cbf 100644
--- a/rust/src/entry/poentry.rs
+++ b/rust/src/entry/poentry.rs
@@ -155,7 +155,8 @@ impl POEntry {
                     let curr_line =
                         format!("#: {}", current_line_occs.join(" "));
                     files_repr.push(curr_line);
-                    current_width = occ_width + 2;
+                    current_line_occs = vec![occ];
+                    current_width = 2 + occ_width + 1;
                 } else {
                     current_line_occs.push(occ);
                     current_width += occ_width + 1;
-- 
2.43.0


From 2bdb2a29934a3582a1d0f56e84a35c9e33eb2910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:28:50 +0000
Subject: [PATCH 08/32] fix: write the previous msgid_plural under its own
 keyword

---
 rust/src/entry/poentry.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rust/src/entry/poentry.rs b/rust/src/entry/poentry.rs
index 8cb4cbf..c88674e 100644
--- a/rust/src/entry/poentry.rs
+++ b/rust/src/entry/poentry.rs
@@ -214,7 +214,7 @@ impl POEntry {
         {
             ret.push_str(
                 &POStringField::new(
-                    "msgid",
+                    "msgid_plural",
                     &prefix,
                     previous_msgid_plural,
                     "",
@@ -222,7 +222,6 @@ impl POEntry {
                 )
                 .to_string(),
             );
-            ret.push('\n');
         }
 
         ret.push_str(&mo_entry_to_string(
-- 
2.43.0


From 1185512ad300a2e8317f01c43fae6b78d7694b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:29:08 +0000
Subject: [PATCH 09/32] fix: keep whitespace at the end of msgstr when writing
 entries

---
 rust/src/entry/mod.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/rust/src/entry/mod.rs b/rust/src/entry/mod.rs
index 4ccbd11..8f7e712 100644
--- a/rust/src/entry/mod.rs
+++ b/rust/src/entry/mod.rs
@@ -73,14 +73,8 @@ fn default_mo_entry_msgstr_formatter(
     delflag: &str,
     wrapwidth: usize,
 ) -> String {
-    POStringField::new(
-        "msgstr",
-        delflag,
-        msgstr.trim_end(),
-        "",
-        wrapwidth,
-    )
-    .to_string()
+    POStringField::new("msgstr", delflag, msgstr, "", wrapwidth)
+        .to_string()
 }
 
 fn mo_entry_to_string_with_msgstr_formatter(
-- 
2.43.0


From 156ede19fc799cdc401e8a8593fe469450624b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:29:36 +0000
Subject: [PATCH 10/32] fix: honour the wrap width of the file options when
 writing files

---
 rust/src/file/mofile.rs | 5 ++++-
 rust/src/file/pofile.rs | 6 ++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/rust/src/file/mofile.rs b/rust/src/file/mofile.rs
index 4d8c240..aa63090 100644
--- a/rust/src/file/mofile.rs
+++ b/rust/src/file/mofile.rs
@@ -344,7 +344,10 @@ impl fmt::Display for MOFile {
 
         ret.push('\n');
         for entry in &self.entries {
-            ret.push_str(&entry.to_string());
+            ret.push_str(
+                &entry
+                    .to_string_with_wrapwidth(self.options.wrapwidth),
+            );
             ret.push('\n');
         }
         ret.remove(ret.len() - 1);
diff --git a/rust/src/file/pofile.rs b/rust/src/file/pofile.rs
index ec8d9d5..7cdf6b4 100644
--- a/rust/src/file/pofile.rs
+++ b/rust/src/file/pofile.rs
@@ -399,11 +399,13 @@ impl fmt::Display for POFile {
         let mut entries_ret = String::new();
         let mut obsolete_entries_ret = String::new();
         for entry in &self.entries {
+            let entry_repr =
+                entry.to_string_with_wrapwidth(self.options.wrapwidth);
             if entry.obsolete {
-                obsolete_entries_ret.push_str(&entry.to_string());
+                obsolete_entries_ret.push_str(&entry_repr);
                 obsolete_entries_ret.push('\n');
             } else {
-                entries_ret.push_str(&entry.to_string());
+                entries_ret.push_str(&entry_repr);
                 entries_ret.push('\n');
             }
         }
-- 
2.43.0


From 395f1ba7b082d893a777c7ae4707c61619ff5c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:29:41 +0000
Subject: [PATCH 11/32] fix: measure non ASCII text by its width when wrapping

The position where counting resumed was a width used as a byte index, so
characters of more than one byte were counted several times and lines were
broken too early.
---
 rust/src/twrapper.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rust/src/twrapper.rs b/rust/src/twrapper.rs
index de8913a..3490fd0 100644
--- a/rust/src/twrapper.rs
+++ b/rust/src/twrapper.rs
@@ -20,9 +20,11 @@ fn get_linebreaks(
     let mut accum_char_bindex = 0;
     let mut accum_char_width = 0; // bindex, width
     let mut last_break_width = 0;
+    let mut prev_lb = 0;
 
     for (lbi, (lb, _)) in linebreaks.iter().enumerate() {
-        let range = accum_char_width..*lb;
+        let range = prev_lb..*lb;
+        prev_lb = *lb;
         for bindex in range {
             accum_char_width +=
                 char_indices_widths.get(&bindex).unwrap_or(&0);
-- 
2.43.0


From c6d2aca834afaf579346d6bfb77d58ef289f7bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:29:47 +0000
Subject: [PATCH 12/32] fix: do not break lines inside of escape sequences

Between the two characters of an escaped backslash there is a line break
opportunity. Breaking there leaves a line whose closing quote is escaped.
---
 rust/src/twrapper.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/rust/src/twrapper.rs b/rust/src/twrapper.rs
index 3490fd0..e78b6c6 100644
--- a/rust/src/twrapper.rs
+++ b/rust/src/twrapper.rs
@@ -51,13 +51,26 @@ fn get_linebreaks(
     ret
 }
 
+/// Whether the position is between a backslash and the character
+/// escaped by it
+fn splits_escape_sequence(text: &str, index: usize) -> bool {
+    let nb_backslashes = text.as_bytes()[..index]
+        .iter()
+        .rev()
+        .take_while(|&&b| b == b'\\')
+        .count();
+    index < text.len() && nb_backslashes % 2 == 1
+}
+
 /// Wrap a text in lines using Unicode Line Breaking algorithm
 ///
 /// - `text` - Text to wrap in lines
 /// - `wrapwidth` - Maximum width of a line
 pub(crate) fn wrap(text: &str, wrapwidth: usize) -> Vec<String> {
     let linebreaks = get_linebreaks(
-        &unicode_linebreaks(text).collect(),
+        &unicode_linebreaks(text)
+            .filter(|(lb, _)| !splits_escape_sequence(text, *lb))
+            .collect(),
         text,
         wrapwidth,
     );
-- 
2.43.0


From 9d5370f66df8b9f7f97e912388b859b31151aea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:29:53 +0000
Subject: [PATCH 13/32] fix: write metadata in a deterministic order

Keys that only differ in whitespace compare as equal in natural order, so
their order depended on the iteration order of the hash map.
---
 rust/src/file/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rust/src/file/mod.rs b/rust/src/file/mod.rs
index 3abf006..3acef6b 100644
--- a/rust/src/file/mod.rs
+++ b/rust/src/file/mod.rs
@@ -193,7 +193,9 @@ fn metadata_hashmap_to_ordered(
     }
 
     let mut metadata_keys = metadata.keys().collect::<Vec<&String>>();
-    metadata_keys.sort_by(|&a, &b| compare_natural_order(a, b));
+    metadata_keys.sort_by(|&a, &b| {
+        compare_natural_order(a, b).then_with(|| a.cmp(b))
+    });
 
     for key in metadata_keys {
         if !METADATA_KEYS_ORDER.contains(&key.as_str()) {
-- 
2.43.0


From 5d8962c402e98b89771e6445da32d454cf306842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:25 +0000
Subject: [PATCH 14/32] fix: write the same header after each load and save

Only one of the blank lines at the end of the header was dropped when
writing a file, so each save removed another one.
---
 rust/src/file/pofile.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rust/src/file/pofile.rs b/rust/src/file/pofile.rs
index 7cdf6b4..10b441c 100644
--- a/rust/src/file/pofile.rs
+++ b/rust/src/file/pofile.rs
@@ -369,6 +369,7 @@ impl fmt::Display for POFile {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         let mut ret: String = match self.header {
             Some(ref header) => {
+                let header = header.trim_end_matches('\n');
                 if header.is_empty() {
                     "#\n".to_string()
                 } else {
-- 
2.43.0


From 00c346c6f4b9de427832e41fb064b2d6d36d9568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:48 +0000
Subject: [PATCH 15/32] fix: do not swap msgid and msgctxt when reading MO
 files

---
 rust/src/moparser.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rust/src/moparser.rs b/rust/src/moparser.rs
index 7e83809..9c8831d 100644
--- a/rust/src/moparser.rs
+++ b/rust/src/moparser.rs
@@ -49,12 +49,12 @@ fn maybe_extract_plurals_from_msgid_msgstr<'a>(
 fn maybe_extract_msgctxt_from_msgid(
     msgid: &str,
 ) -> (Cow<'_, str>, Option<String>) {
-    let msgid_tokens = msgid.split('\x04').collect::<Vec<&str>>();
-
-    if msgid_tokens.len() == 2 {
-        (msgid_tokens[0].into(), Some(msgid_tokens[1].to_string()))
-    } else {
-        (msgid.into(), None)
+    // the context is stored before the EOT character
+    match msgid.split_once('\x04') {
+        Some((msgctxt, msgid)) => {
+            (msgid.into(), Some(msgctxt.to_string()))
+        }
+        None => (msgid.into(), None),
     }
 }
 
-- 
2.43.0


From bbb195bf6f0ef4c961fc33d50854881e9fff7fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:31:01 +0000
Subject: [PATCH 16/32] fix: reject MO files whose strings are outside of the
 file

Strings that could not be read were replaced by NUL characters, and the
length found in the file was reserved in memory before reading.
---
 rust/src/moparser.rs | 59 +++++++++++++++++++++++++++++++++-----------
 1 file changed, 45 insertions(+), 14 deletions(-)

diff --git a/rust/src/moparser.rs b/rust/src/moparser.rs
index 9c8831d..40f6d7f 100644
--- a/rust/src/moparser.rs
+++ b/rust/src/moparser.rs
@@ -1,6 +1,6 @@
 use std::borrow::Cow;
 use std::fs::File;
-use std::io::{Cursor, SeekFrom};
+use std::io::{Cursor, Read, SeekFrom};
 use std::path::Path;
 
 use crate::entry::MOEntry;
@@ -117,8 +117,7 @@ impl MOFileParser<'_> {
             number_of_strings,
             msgids_index,
             msgstrs_index,
-        );
-        Ok(())
+        )
     }
 
     fn parse_4_bytes(&mut self) -> Result<u32, std::io::Error> {
@@ -259,30 +258,61 @@ impl MOFileParser<'_> {
         Ok((msgids_index, msgstrs_index))
     }
 
+    fn parse_string(
+        &mut self,
+        length: u32,
+        offset: u32,
+        context: &str,
+        index: u32,
+    ) -> Result<Vec<u8>, IOError> {
+        let mut buffer = vec![];
+        let read = self
+            .fhandle
+            .seek(SeekFrom::Start(offset as u64))
+            .and_then(|_| {
+                // the length is not trusted to reserve memory
+                self.fhandle
+                    .by_ref()
+                    .take(length as u64)
+                    .read_to_end(&mut buffer)
+            });
+        match read {
+            Ok(nb_bytes) if nb_bytes == length as usize => Ok(buffer),
+            _ => Err(IOError::CorruptedMOData {
+                context: format!(
+                    "parsing {} at index {}",
+                    context, index
+                ),
+            }),
+        }
+    }
+
     fn parse_msgs(
         &mut self,
         number_of_strings: u32,
         msgids_index: Vec<(u32, u32)>,
         msgstrs_index: Vec<(u32, u32)>,
-    ) {
+    ) -> Result<(), IOError> {
         for i in 0..number_of_strings {
             let (msgid_length, msgid_offset) =
                 msgids_index[i as usize];
             let (msgstr_length, msgstr_offset) =
                 msgstrs_index[i as usize];
 
-            self.fhandle
-                .seek(SeekFrom::Start(msgid_offset as u64))
-                .ok();
-            let mut msgid_buffer = vec![0; msgid_length as usize];
-            self.fhandle.read_exact(&mut msgid_buffer).ok();
+            let msgid_buffer = self.parse_string(
+                msgid_length,
+                msgid_offset,
+                "msgid",
+                i,
+            )?;
             let msgid = String::from_utf8_lossy(&msgid_buffer);
 
-            self.fhandle
-                .seek(SeekFrom::Start(msgstr_offset as u64))
-                .ok();
-            let mut msgstr_buffer = vec![0; msgstr_length as usize];
-            self.fhandle.read_exact(&mut msgstr_buffer).ok();
+            let msgstr_buffer = self.parse_string(
+                msgstr_length,
+                msgstr_offset,
+                "msgstr",
+                i,
+            )?;
             let msgstr = String::from_utf8_lossy(&msgstr_buffer);
 
             if i == 0 && msgid.is_empty() {
@@ -323,6 +353,7 @@ impl MOFileParser<'_> {
             );
             self.file.entries.push(entry);
         }
+        Ok(())
     }
 }
 
-- 
2.43.0


From cfef47b36eced2a62ed82a26a4bfa2f319d9682f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:33:23 +0000
Subject: [PATCH 17/32] fix: do not panic when opening MO files that do not
 exist

Reading an MO file from a path that does not exist returns an error.
The Python MOFile class is created empty by default, as documented.
---
 python/src/pymofile.rs | 7 +++++--
 rust/src/moparser.rs   | 4 ++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/python/src/pymofile.rs b/python/src/pymofile.rs
index 723438a..63e77fd 100644
--- a/python/src/pymofile.rs
+++ b/python/src/pymofile.rs
@@ -54,8 +54,11 @@ impl PyMOFile {
         path_or_content: &str,
         wrapwidth: usize,
     ) -> PyResult<Self> {
-        let result =
-            mofile(FileOptions::from((path_or_content, wrapwidth)));
+        let options = FileOptions::from((path_or_content, wrapwidth));
+        if path_or_content.is_empty() {
+            return Ok(PyMOFile(MOFile::new(options)));
+        }
+        let result = mofile(options);
         match result {
             Ok(mofile) => Ok(PyMOFile(mofile)),
             Err(e) => Err(PyErr::new::<exceptions::IOError, _>(
diff --git a/rust/src/moparser.rs b/rust/src/moparser.rs
index 40f6d7f..3dfb255 100644
--- a/rust/src/moparser.rs
+++ b/rust/src/moparser.rs
@@ -70,7 +70,7 @@ pub(crate) struct MOFileParser<'a> {
 
 impl MOFileParser<'_> {
     pub fn new<'a>(file_options: FileOptions) -> MOFileParser<'a> {
-        let mut file = MOFile::new(file_options);
+        let file = MOFile::new(file_options);
         let fhandle: Box<dyn SeekRead> = match Path::new(
             &file.options.path_or_content,
         )
@@ -80,7 +80,7 @@ impl MOFileParser<'_> {
                 File::open(&file.options.path_or_content).unwrap(),
             ),
             false => Box::new(Cursor::new(
-                file.options.byte_content.as_mut().unwrap().clone(),
+                file.options.byte_content.clone().unwrap_or_default(),
             )),
         };
 
-- 
2.43.0


From 642b29321be0a8f4c3f80276cdafb465b004e67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:33:40 +0000
Subject: [PATCH 18/32] fix: match messages by context when merging PO files

Messages of the reference without context were lost if the file had the
same text in other context, and messages in contexts that the reference
does not have were not marked as obsolete.
---
 rust/src/file/pofile.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/rust/src/file/pofile.rs b/rust/src/file/pofile.rs
index 10b441c..f7d6ba0 100644
--- a/rust/src/file/pofile.rs
+++ b/rust/src/file/pofile.rs
@@ -451,13 +451,10 @@ impl Merge for POFile {
     /// with a PO file.
     fn merge(&mut self, other: POFile) {
         for other_entry in other.entries.as_slice() {
-            let entry: Option<POEntry> = match other_entry.msgctxt {
-                Some(ref msgctxt) => self.find_by_msgid_msgctxt(
-                    &other_entry.msgid,
-                    msgctxt,
-                ),
-                None => self.find_by_msgid(&other_entry.msgid),
-            };
+            let entry: Option<POEntry> = self.find_by_msgid_msgctxt(
+                &other_entry.msgid,
+                other_entry.msgctxt.as_deref().unwrap_or(""),
+            );
 
             if let Some(e) = entry {
                 let mut entry = e;
@@ -471,7 +468,11 @@ impl Merge for POFile {
 
         let self_entries: &mut Vec<POEntry> = self.entries.as_mut();
         for entry in self_entries {
-            if other.find_by_msgid(&entry.msgid).is_none() {
+            let other_entry = other.find_by_msgid_msgctxt(
+                &entry.msgid,
+                entry.msgctxt.as_deref().unwrap_or(""),
+            );
+            if other_entry.is_none() {
                 entry.obsolete = true;
             }
         }
-- 
2.43.0


From 15e4aded99b64e67a689f1daca509a32f256c25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:33:56 +0000
Subject: [PATCH 19/32] fix: remove only the first match when removing entries
 by msgid

The documentation says that the first entry with the same msgid, or the
same msgid and msgctxt, is removed but all of them were.
---
 rust/src/file/mofile.rs | 18 ++++++++++++------
 rust/src/file/pofile.rs | 18 ++++++++++++------
 2 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/rust/src/file/mofile.rs b/rust/src/file/mofile.rs
index aa63090..e68b62e 100644
--- a/rust/src/file/mofile.rs
+++ b/rust/src/file/mofile.rs
@@ -177,7 +177,11 @@ impl MOFile {
 
     /// Remove the first entry that has the same msgid
     pub fn remove_by_msgid(&mut self, msgid: &str) {
-        self.entries.retain(|e| e.msgid != msgid);
+        if let Some(index) =
+            self.entries.iter().position(|e| e.msgid == msgid)
+        {
+            self.entries.remove(index);
+        }
     }
 
     /// Remove the first entry that has the same msgid and msgctxt
@@ -186,11 +190,13 @@ impl MOFile {
         msgid: &str,
         msgctxt: &str,
     ) {
-        self.entries.retain(|e| {
-            e.msgid != msgid
-                || e.msgctxt.as_ref().unwrap_or(&"".to_string())
-                    != msgctxt
-        });
+        if let Some(index) = self.entries.iter().position(|e| {
+            e.msgid == msgid
+                && e.msgctxt.as_ref().unwrap_or(&"".to_string())
+                    == msgctxt
+        }) {
+            self.entries.remove(index);
+        }
     }
 
     /// Returns the entry as a bytes vector
diff --git a/rust/src/file/pofile.rs b/rust/src/file/pofile.rs
index f7d6ba0..aa94c78 100644
--- a/rust/src/file/pofile.rs
+++ b/rust/src/file/pofile.rs
@@ -177,7 +177,11 @@ impl POFile {
 
     /// Remove the first entry that has the same msgid
     pub fn remove_by_msgid(&mut self, msgid: &str) {
-        self.entries.retain(|e| e.msgid != msgid);
+        if let Some(index) =
+            self.entries.iter().position(|e| e.msgid == msgid)
+        {
+            self.entries.remove(index);
+        }
     }
 
     /// Remove the first entry that has the same msgid and msgctxt
@@ -186,11 +190,13 @@ impl POFile {
         msgid: &str,
         msgctxt: &str,
     ) {
-        self.entries.retain(|e| {
-            e.msgid != msgid
-                || e.msgctxt.as_ref().unwrap_or(&"".to_string())
-                    != msgctxt
-        });
+        if let Some(index) = self.entries.iter().position(|e| {
+            e.msgid == msgid
+                && e.msgctxt.as_ref().unwrap_or(&"".to_string())
+                    == msgctxt
+        }) {
+            self.entries.remove(index);
+        }
     }
 
     /// Find entries by a given field and value
-- 
2.43.0


From 2e87c26c4869713833b7e100cb6e75a7b098ff61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:39:11 +0000
Subject: [PATCH 20/32] fix: reject PO strings whose closing double quote is
 escaped

The next continuation line was joined to the escape character.
---
 rust/src/poparser.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/rust/src/poparser.rs b/rust/src/poparser.rs
index eaaae83..be4217e 100644
--- a/rust/src/poparser.rs
+++ b/rust/src/poparser.rs
@@ -812,6 +812,18 @@ fn find_unescaped_double_quote_index(line: &str) -> Option<usize> {
     None
 }
 
+/// Whether the double quote at the end of the line is escaped, so
+/// it does not close the string
+fn ends_with_escaped_double_quote(line: &str) -> bool {
+    let nb_backslashes = line
+        .bytes()
+        .rev()
+        .skip(1)
+        .take_while(|&b| b == b'\\')
+        .count();
+    line.ends_with('"') && nb_backslashes % 2 == 1
+}
+
 fn maybe_raise_unescaped_double_quote_found_error(
     text: &str,
     linenum: usize,
@@ -824,6 +836,7 @@ fn maybe_raise_unescaped_double_quote_found_error(
     if text.len() < 2
         || !text.starts_with('"')
         || !text.ends_with('"')
+        || ends_with_escaped_double_quote(text)
     {
         return Err(SyntaxError::Custom {
             maybe_filename: MaybeFilename::new(
-- 
2.43.0


From 48724f238a5ab83dcdfe3c0a45b78a7f06735397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:39:33 +0000
Subject: [PATCH 21/32] fix: respect the wrap width when wrapping extracted
 comments

The marker of extracted comments is one character longer than the
marker of translator comments.
---
 rust/src/entry/poentry.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rust/src/entry/poentry.rs b/rust/src/entry/poentry.rs
index c88674e..636ce94 100644
--- a/rust/src/entry/poentry.rs
+++ b/rust/src/entry/poentry.rs
@@ -94,9 +94,10 @@ impl POEntry {
         wrapwidth: usize,
         target: &mut String,
     ) {
+        let max_width = wrapwidth.saturating_sub(prefix.len());
         for line in comment.split('\n') {
-            if UnicodeWidthStr::width(line) + 2 > wrapwidth {
-                for chunk in wrap(line, wrapwidth.saturating_sub(2)) {
+            if UnicodeWidthStr::width(line) > max_width {
+                for chunk in wrap(line, max_width) {
                     target.push_str(prefix);
                     target.push_str(chunk.trim_end());
                     target.push('\n');
-- 
2.43.0


From b0ecaf0f7b3419423cdda7e609ae6286e57fea2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:39:39 +0000
Subject: [PATCH 22/32] fix: do not write blank lines when wrapping indented
 comments

The indentation before a long word was written as a blank comment line,
which is not read again if the comment is an extracted one.
---
 rust/src/entry/poentry.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rust/src/entry/poentry.rs b/rust/src/entry/poentry.rs
index 636ce94..9d4309c 100644
--- a/rust/src/entry/poentry.rs
+++ b/rust/src/entry/poentry.rs
@@ -98,8 +98,13 @@ impl POEntry {
         for line in comment.split('\n') {
             if UnicodeWidthStr::width(line) > max_width {
                 for chunk in wrap(line, max_width) {
+                    let chunk = chunk.trim_end();
+                    if chunk.is_empty() {
+                        // indentation of a word that does not fit
+                        continue;
+                    }
                     target.push_str(prefix);
-                    target.push_str(chunk.trim_end());
+                    target.push_str(chunk);
                     target.push('\n');
                 }
             } else {
-- 
2.43.0


From 57cf3d647b0bd7caa212bf2e6870db0c692c1ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:00:04 +0000
Subject: [PATCH 23/32] fix: keep the colon of occurrences without a line
 number

An occurrence like 'foo:' was read as 'foo', so saving the file again lost
the colon, and a lone ':' vanished altogether.
---
 rust/src/poparser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/src/poparser.rs b/rust/src/poparser.rs
index be4217e..bd811dd 100644
--- a/rust/src/poparser.rs
+++ b/rust/src/poparser.rs
@@ -592,7 +592,7 @@ fn handle_oc(parser: &mut POFileParser) -> Result<(), SyntaxError> {
         if !occ.is_empty() {
             let (mut fil, mut line) =
                 occ.split_once(':').unwrap_or((occ, ""));
-            let mut line_isdigit = true;
+            let mut line_isdigit = !line.is_empty();
             for c in line.chars() {
                 if !c.is_ascii_digit() {
                     line_isdigit = false;
-- 
2.43.0


From 484c444da5218d4ff4452262e994ac65e8dc0376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:46:56 +0000
Subject: [PATCH 24/32] fix: tell absent fields from NUL strings when comparing
 entries

---
 rust/src/entry/moentry.rs | 44 ++++++---------------------------------
 rust/src/entry/poentry.rs | 44 ++++++---------------------------------
 2 files changed, 12 insertions(+), 76 deletions(-)

diff --git a/rust/src/entry/moentry.rs b/rust/src/entry/moentry.rs
index 8740897..c89ba1c 100644
--- a/rust/src/entry/moentry.rs
+++ b/rust/src/entry/moentry.rs
@@ -71,40 +71,18 @@ impl MOEntry {
         other: &Self,
         options: &EntryCmpByOptions,
     ) -> Ordering {
-        let placeholder = &"\0".to_string();
-
         if options.by_msgctxt {
-            let msgctxt = self
-                .msgctxt
-                .as_ref()
-                .unwrap_or(placeholder)
-                .to_string();
-            let other_msgctxt = other
-                .msgctxt
-                .as_ref()
-                .unwrap_or(placeholder)
-                .to_string();
-            if msgctxt > other_msgctxt {
+            if self.msgctxt > other.msgctxt {
                 return Ordering::Greater;
-            } else if msgctxt < other_msgctxt {
+            } else if self.msgctxt < other.msgctxt {
                 return Ordering::Less;
             }
         }
 
         if options.by_msgid_plural {
-            let msgid_plural = self
-                .msgid_plural
-                .as_ref()
-                .unwrap_or(placeholder)
-                .to_string();
-            let other_msgid_plural = other
-                .msgid_plural
-                .as_ref()
-                .unwrap_or(placeholder)
-                .to_string();
-            if msgid_plural > other_msgid_plural {
+            if self.msgid_plural > other.msgid_plural {
                 return Ordering::Greater;
-            } else if msgid_plural < other_msgid_plural {
+            } else if self.msgid_plural < other.msgid_plural {
                 return Ordering::Less;
             }
         }
@@ -130,19 +108,9 @@ impl MOEntry {
         }
 
         if options.by_msgstr {
-            let msgstr = self
-                .msgstr
-                .as_ref()
-                .unwrap_or(placeholder)
-                .to_string();
-            let other_msgstr = other
-                .msgstr
-                .as_ref()
-                .unwrap_or(placeholder)
-                .to_string();
-            if msgstr > other_msgstr {
+            if self.msgstr > other.msgstr {
                 return Ordering::Greater;
-            } else if msgstr < other_msgstr {
+            } else if self.msgstr < other.msgstr {
                 return Ordering::Less;
             }
         }
diff --git a/rust/src/entry/poentry.rs b/rust/src/entry/poentry.rs
index 9d4309c..51274dc 100644
--- a/rust/src/entry/poentry.rs
+++ b/rust/src/entry/poentry.rs
@@ -322,40 +322,18 @@ impl POEntry {
             }
         }
 
-        let placeholder = &"\0".to_string();
-
         if options.by_msgctxt {
-            let msgctxt = self
-                .msgctxt
-                .as_ref()
-                .unwrap_or(placeholder)
-                .to_string();
-            let other_msgctxt = other
-                .msgctxt
-                .as_ref()
-                .unwrap_or(placeholder)
-                .to_string();
-            if msgctxt > other_msgctxt {
+            if self.msgctxt > other.msgctxt {
                 return Ordering::Greater;
-            } else if msgctxt < other_msgctxt {
+            } else if self.msgctxt < other.msgctxt {
                 return Ordering::Less;
             }
         }
 
         if options.by_msgid_plural {
-            let msgid_plural = self
-                .msgid_plural
-                .as_ref()
-                .unwrap_or(placeholder)
-                .to_string();
-            let other_msgid_plural = other
-                .msgid_plural
-                .as_ref()
-                .unwrap_or(placeholder)
-                .to_string();
-            if msgid_plural > other_msgid_plural {
+            if self.msgid_plural > other.msgid_plural {
                 return Ordering::Greater;
-            } else if msgid_plural < other_msgid_plural {
+            } else if self.msgid_plural < other.msgid_plural {
                 return Ordering::Less;
             }
         }
@@ -381,19 +359,9 @@ impl POEntry {
         }
 
         if options.by_msgstr {
-            let msgstr = self
-                .msgstr
-                .as_ref()
-                .unwrap_or(placeholder)
-                .to_string();
-            let other_msgstr = other
-                .msgstr
-                .as_ref()
-                .unwrap_or(placeholder)
-                .to_string();
-            if msgstr > other_msgstr {
+            if self.msgstr > other.msgstr {
                 return Ordering::Greater;
-            } else if msgstr < other_msgstr {
+            } else if self.msgstr < other.msgstr {
                 return Ordering::Less;
             }
         }
-- 
2.43.0


From ca632282f70b4fc58779b74f93228335ae97a015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:48:04 +0000
Subject: [PATCH 25/32] fix: report files that cannot be opened instead of
 panicking

---
 rust/src/moparser.rs |  8 +++++---
 rust/src/poparser.rs | 12 +++++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/rust/src/moparser.rs b/rust/src/moparser.rs
index 3dfb255..3b3a097 100644
--- a/rust/src/moparser.rs
+++ b/rust/src/moparser.rs
@@ -76,9 +76,11 @@ impl MOFileParser<'_> {
         )
         .is_file()
         {
-            true => Box::new(
-                File::open(&file.options.path_or_content).unwrap(),
-            ),
+            true => match File::open(&file.options.path_or_content) {
+                Ok(fhandle) => Box::new(fhandle),
+                // reading the magic number will fail
+                Err(_e) => Box::new(Cursor::new(vec![])),
+            },
             false => Box::new(Cursor::new(
                 file.options.byte_content.clone().unwrap_or_default(),
             )),
diff --git a/rust/src/poparser.rs b/rust/src/poparser.rs
index bd811dd..940e459 100644
--- a/rust/src/poparser.rs
+++ b/rust/src/poparser.rs
@@ -190,9 +190,15 @@ impl POFileParser {
     }
 
     fn parse_file(&mut self) -> Result<(), SyntaxError> {
-        let mut buf = BufReader::new(
-            File::open(&self.file.options.path_or_content).unwrap(),
-        );
+        let file = File::open(&self.file.options.path_or_content)
+            .map_err(|e| SyntaxError::BasicCustom {
+                maybe_filename: MaybeFilename::new(
+                    &self.file.options.path_or_content,
+                    self.content_is_path,
+                ),
+                message: e.to_string(),
+            })?;
+        let mut buf = BufReader::new(file);
         let mut handler = LinesHandler::new(&mut buf);
         self.parse_with_handler(&mut handler)?;
         Ok(())
-- 
2.43.0


From 5b07526ade95c9096def950fceb43949c5afba9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:44:17 +0000
Subject: [PATCH 26/32] fix: read messages with more than 256 plural forms

---
 rust/src/poparser.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/rust/src/poparser.rs b/rust/src/poparser.rs
index 940e459..a11fd3a 100644
--- a/rust/src/poparser.rs
+++ b/rust/src/poparser.rs
@@ -83,11 +83,11 @@ impl Iterator for LinesHandler<'_> {
     }
 }
 
-/// Maximum index accepted for `msgstr[index]` fields
+/// Maximum number of plural forms that a `msgstr[index]` field can skip
 ///
 /// The plural forms of an entry are stored contiguously, so an arbitrary
 /// index found in the file must not decide how much memory is allocated.
-const MAX_MSGSTR_PLURAL_INDEX: usize = 255;
+const MAX_MSGSTR_PLURAL_GAP: usize = 255;
 
 /// PO file parser
 pub(crate) struct POFileParser {
@@ -375,7 +375,11 @@ impl POFileParser {
                 .unwrap();
 
             match index.parse::<usize>() {
-                Ok(index) if index <= MAX_MSGSTR_PLURAL_INDEX => {
+                Ok(index)
+                    if index
+                        <= self.current_entry.msgstr_plural.len()
+                            + MAX_MSGSTR_PLURAL_GAP =>
+                {
                     self.msgstr_index = index;
                 }
                 Ok(index) => {
-- 
2.43.0


From 840c2a51aa081dffec3be8c768a36c6c7021586f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:07:51 +0000
Subject: [PATCH 27/32] fix: keep blank lines at the start of the header

---
 rust/src/poparser.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/rust/src/poparser.rs b/rust/src/poparser.rs
index a11fd3a..8e88468 100644
--- a/rust/src/poparser.rs
+++ b/rust/src/poparser.rs
@@ -533,13 +533,9 @@ impl POFileParser {
 
 fn handle_he(parser: &mut POFileParser) -> Result<(), SyntaxError> {
     let mut newheader = match parser.file.header {
-        Some(ref header) => header,
-        None => "",
-    }
-    .to_string();
-    if !newheader.is_empty() {
-        newheader.push('\n');
-    }
+        Some(ref header) => format!("{}\n", header),
+        None => String::new(),
+    };
     if parser.current_token.len() > 2 {
         newheader.push_str(&parser.current_token[2..]);
     }
-- 
2.43.0


From c275e90611c4650ce476e342d30bdaac844f183e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:36:02 +0000
Subject: [PATCH 28/32] fix: read long comments and strings in linear time

Every further line of a comment, a string or the header copied all the
lines before it.
---
 rust/src/poparser.rs | 52 +++++++++++++++-----------------------------
 1 file changed, 18 insertions(+), 34 deletions(-)

diff --git a/rust/src/poparser.rs b/rust/src/poparser.rs
index 8e88468..c9c39a6 100644
--- a/rust/src/poparser.rs
+++ b/rust/src/poparser.rs
@@ -532,29 +532,29 @@ impl POFileParser {
 }
 
 fn handle_he(parser: &mut POFileParser) -> Result<(), SyntaxError> {
-    let mut newheader = match parser.file.header {
-        Some(ref header) => format!("{}\n", header),
-        None => String::new(),
+    let newheader = match parser.file.header {
+        Some(ref mut header) => {
+            header.push('\n');
+            header
+        }
+        None => parser.file.header.insert(String::new()),
     };
     if parser.current_token.len() > 2 {
         newheader.push_str(&parser.current_token[2..]);
     }
-    parser.file.header = Some(newheader);
     Ok(())
 }
 
 fn handle_tc(parser: &mut POFileParser) -> Result<(), SyntaxError> {
     parser.maybe_add_current_entry()?;
-    let optional_tcomment = parser.current_entry.tcomment.as_mut();
-    let mut tcomment = match optional_tcomment {
+    let optional_tcomment = &mut parser.current_entry.tcomment;
+    let tcomment = match optional_tcomment {
         Some(tcomment) => {
-            let t = tcomment;
-            t.push('\n');
-            t
+            tcomment.push('\n');
+            tcomment
         }
-        None => "",
-    }
-    .to_string();
+        None => optional_tcomment.insert(String::new()),
+    };
 
     let mut toappend =
         parser.current_token.trim_start_matches('#').to_string();
@@ -563,30 +563,24 @@ fn handle_tc(parser: &mut POFileParser) -> Result<(), SyntaxError> {
     }
     tcomment.push_str(&toappend);
 
-    parser.current_entry.tcomment =
-        Some(tcomment.as_str().to_string());
-
     Ok(())
 }
 
 fn handle_gc(parser: &mut POFileParser) -> Result<(), SyntaxError> {
     parser.maybe_add_current_entry()?;
 
-    let optional_comment = parser.current_entry.comment.as_mut();
-    let mut comment = match optional_comment {
+    let optional_comment = &mut parser.current_entry.comment;
+    let comment = match optional_comment {
         Some(comment) => {
-            let t = comment;
-            t.push('\n');
-            t
+            comment.push('\n');
+            comment
         }
-        None => "",
-    }
-    .to_string();
+        None => optional_comment.insert(String::new()),
+    };
 
     if parser.current_token.len() > 3 {
         comment.push_str(&parser.current_token[3..]);
     }
-    parser.current_entry.comment = Some(comment);
 
     Ok(())
 }
@@ -722,17 +716,13 @@ fn handle_mc(parser: &mut POFileParser) -> Result<(), SyntaxError> {
     } else if parser.current_state == St::MS {
         let msgstr = parser.current_entry.msgstr.as_mut().unwrap();
         msgstr.push_str(token);
-        parser.current_entry.msgstr = Some(msgstr.to_string());
     } else if parser.current_state == St::CT {
         let msgctxt = parser.current_entry.msgctxt.as_mut().unwrap();
         msgctxt.push_str(token);
-        parser.current_entry.msgctxt = Some(msgctxt.to_string());
     } else if parser.current_state == St::MP {
         let msgid_plural =
             parser.current_entry.msgid_plural.as_mut().unwrap();
         msgid_plural.push_str(token);
-        parser.current_entry.msgid_plural =
-            Some(msgid_plural.to_string());
     } else if parser.current_state == St::MX {
         parser.current_entry.msgstr_plural[parser.msgstr_index]
             .push_str(token);
@@ -743,20 +733,14 @@ fn handle_mc(parser: &mut POFileParser) -> Result<(), SyntaxError> {
             .as_mut()
             .unwrap();
         previous_msgid_plural.push_str(token);
-        parser.current_entry.previous_msgid_plural =
-            Some(previous_msgid_plural.to_string());
     } else if parser.current_state == St::PM {
         let previous_msgid =
             parser.current_entry.previous_msgid.as_mut().unwrap();
         previous_msgid.push_str(token);
-        parser.current_entry.previous_msgid =
-            Some(previous_msgid.to_string());
     } else if parser.current_state == St::PC {
         let previous_msgctxt =
             parser.current_entry.previous_msgctxt.as_mut().unwrap();
         previous_msgctxt.push_str(token);
-        parser.current_entry.previous_msgctxt =
-            Some(previous_msgctxt.to_string());
     } else {
         return Err(SyntaxError::Custom {
             maybe_filename: MaybeFilename::new(
-- 
2.43.0


From eda418fe8152e4eeca47fad75f5b298cb509140f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:38:13 +0000
Subject: [PATCH 29/32] fix: read the MO file when making a catalog from its
 path

---
 rust/src/file/mofile.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/src/file/mofile.rs b/rust/src/file/mofile.rs
index e68b62e..586334d 100644
--- a/rust/src/file/mofile.rs
+++ b/rust/src/file/mofile.rs
@@ -421,7 +421,7 @@ impl From<Vec<&MOEntry>> for MOFile {
 
 impl From<&Path> for MOFile {
     fn from(path: &Path) -> Self {
-        MOFile::new(path.to_str().unwrap().into())
+        mofile(path).unwrap()
     }
 }
 
-- 
2.43.0


From a7f56c89d931406d406ae409e6c09deb014202cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:06:47 +0000
Subject: [PATCH 30/32] fix: tell the magic number in the error about an
 incorrect one

---
 rust/src/errors.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rust/src/errors.rs b/rust/src/errors.rs
index b89bda8..26a5825 100644
--- a/rust/src/errors.rs
+++ b/rust/src/errors.rs
@@ -135,9 +135,10 @@ pub enum IOError {
     #[snafu(display(
         concat!(
             "Invalid mo file, magic number is incorrect",
-            " ({{magic_number_le}} read as le, {{magic_number_be}}",
-            " read as be)",
-        )
+            " ({} read as le, {} read as be)",
+        ),
+        magic_number_le,
+        magic_number_be,
     ))]
     IncorrectMagicNumber {
         magic_number_le: u32,
-- 
2.43.0


From 564119df71184b07fc64e6624b6663dd6d4c8c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:07:07 +0000
Subject: [PATCH 31/32] fix: report the whole text in escaping errors

---
 rust/src/escaping.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rust/src/escaping.rs b/rust/src/escaping.rs
index 0b98609..cff95e5 100644
--- a/rust/src/escaping.rs
+++ b/rust/src/escaping.rs
@@ -21,6 +21,7 @@ pub fn escape(text: &str) -> Cow<'_, str> {
 }
 
 struct EscapedStringInterpreter<'a> {
+    text: &'a str,
     characters: std::str::Chars<'a>,
 }
 
@@ -31,7 +32,7 @@ impl<'a> Iterator for EscapedStringInterpreter<'a> {
         self.characters.next().map(|c| match c {
             '\\' => match self.characters.next() {
                 None => Err(EscapingError::EscapeAtEndOfString {
-                    text: self.characters.as_str().to_string(),
+                    text: self.text.to_string(),
                 }),
                 Some('"') => Ok('"'),
                 Some('n') => Ok('\n'),
@@ -43,7 +44,7 @@ impl<'a> Iterator for EscapedStringInterpreter<'a> {
                 Some('\\') => Ok('\\'),
                 Some(c) => {
                     Err(EscapingError::InvalidEscapedCharacter {
-                        text: self.characters.as_str().to_string(),
+                        text: self.text.to_string(),
                         character: c,
                     })
                 }
@@ -57,6 +58,7 @@ impl<'a> Iterator for EscapedStringInterpreter<'a> {
 pub fn unescape(text: &str) -> Result<Cow<'_, str>, EscapingError> {
     if text.contains('\\') {
         (EscapedStringInterpreter {
+            text,
             characters: text.chars(),
         })
         .collect()
-- 
2.43.0


From ef2236c855b96c53ec37b234ba820eb410057a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:21:22 +0000
Subject: [PATCH 32/32] fix: do not ignore errors when writing a saved file

---
 rust/src/file/mod.rs    | 2 +-
 rust/src/file/mofile.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/src/file/mod.rs b/rust/src/file/mod.rs
index 3acef6b..0c5afd8 100644
--- a/rust/src/file/mod.rs
+++ b/rust/src/file/mod.rs
@@ -32,7 +32,7 @@ pub trait SaveAsPOFile {
         Self: fmt::Display,
     {
         let mut file = File::create(path).unwrap();
-        file.write_all(self.to_string().as_bytes()).ok();
+        file.write_all(self.to_string().as_bytes()).unwrap();
     }
 }
 
diff --git a/rust/src/file/mofile.rs b/rust/src/file/mofile.rs
index 586334d..ea17448 100644
--- a/rust/src/file/mofile.rs
+++ b/rust/src/file/mofile.rs
@@ -368,7 +368,7 @@ impl Save for MOFile {
     /// Save the MOFile to a file at the given path
     fn save(&self, path: &str) {
         let mut file = File::create(path).unwrap();
-        file.write_all(&self.as_bytes()).ok();
+        file.write_all(&self.as_bytes()).unwrap();
     }
 }
 
-- 
2.43.0

