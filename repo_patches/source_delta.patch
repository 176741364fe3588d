From e98ccc69599354f5f9370470b57ea3eaa8a64b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:31:12 +0000
Subject: [PATCH 01/30] fix: set_align_class returns the parser like every
 other setter

---
 src/parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index cfb3a80..3b512c9 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -2055,8 +2055,9 @@ impl Textile {
     ///
     /// If not set, for XHTML the "align" attribute is going to be used,
     /// and for HTML5 the `align-...` class will be added instead.
-    pub fn set_align_class(mut self, value: bool) {
+    pub fn set_align_class(mut self, value: bool) -> Self {
         self.align_class_enabled = Some(value);
+        self
     }
 
     /// Enables and disables raw blocks.
-- 
2.43.0


From 1883e73b44c130861660d9500fb7b1cd429ff650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:31 +0000
Subject: [PATCH 02/30] fix: decode &amp; in restricted URLs instead of
 panicking

---
 src/htmltools.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/htmltools.rs b/src/htmltools.rs
index e9582ef..12537a5 100644
--- a/src/htmltools.rs
+++ b/src/htmltools.rs
@@ -52,6 +52,7 @@ pub(crate) fn reverse_encode_html(text: &str) -> Cow<str> {
     ENTITY_RE.replace_all(text, |cap: &Captures| {
         let entity = &cap[1];
         match entity {
+            "&amp;" => "&",
             "&lt;" => "<",
             "&gt;" => ">",
             "&quot;" => "\"",
-- 
2.43.0


From eba12624bc324a7e7ee615365ce99f879e767f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:40 +0000
Subject: [PATCH 03/30] fix: insert line breaks without slicing inside
 multi-byte characters

---
 src/parser.rs | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 3b512c9..4ac03c5 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1003,13 +1003,6 @@ impl <'t> ParserState<'t> {
     /// unless it is inappropriate (like when a <br> is already there).
     pub(crate) fn do_tag_br<'a>(&mut self, tag: &'static str, input: &'a str) -> Cow<'a, str> {
 
-        fn eq_ignore_ascii_case(a: &str, b: &str) -> bool {
-            if a.len() == b.len() {
-                a.chars().zip(b.chars()).all(|(a_c, b_c)| a_c.eq_ignore_ascii_case(&b_c))
-            } else {
-                false
-            }
-        }
         // Performs an equivalent of
         // `replace_all`with a regular expression
         // r"(?i)(.+)(?!(?<=</dd>|</dt>|</li>|<br/>)|(?<=<br>)|(?<=<br />))\n(?![\s|])"
@@ -1025,20 +1018,19 @@ impl <'t> ParserState<'t> {
             // The <br> is not appropriate to insert after the following prefixes
             const STOP_PREFIXES: [&str; 6] = ["</dd>", "</dt>", "</li>", "<br/>", "<br>", "<br />"];
             let mut output = String::with_capacity(text.len() + num_newlines * br.len());
-            let lc_text = text.to_lowercase();
             let mut next_start = 0;
-            while let Some(rel_newline_pos) = lc_text[next_start..].find('\n') {
+            while let Some(rel_newline_pos) = text[next_start..].find('\n') {
                 let abs_newline_pos = next_start + rel_newline_pos;
                 output += &text[next_start..abs_newline_pos];
                 // Make sure the following characters do not make <br> inappropriate
-                let is_next_good = !lc_text[abs_newline_pos + 1..]
+                let is_next_good = !text[abs_newline_pos + 1..]
                     .starts_with(|c| char::is_whitespace(c) || c == '|');
                 if is_next_good {
                     // The preceding sequence should also be appropriate for <br>
                     let is_prefix_good = !STOP_PREFIXES.iter().any(|p| {
                         let prefix_start = abs_newline_pos - p.len().min(abs_newline_pos);
-                        let prefix = &lc_text[prefix_start..abs_newline_pos];
-                        eq_ignore_ascii_case(prefix, *p)
+                        let prefix = &text.as_bytes()[prefix_start..abs_newline_pos];
+                        prefix.eq_ignore_ascii_case(p.as_bytes())
                     });
                     if is_prefix_good {
                         output += br;
-- 
2.43.0


From 96cc0cbda6af4b4c4d186bd4bc59f17459d996ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:50 +0000
Subject: [PATCH 04/30] fix: do not overflow when an ordered list starts at the
 largest number

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 4ac03c5..bdbc1dc 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -941,7 +941,7 @@ impl <'t> ParserState<'t> {
                     }
 
                     if show_item {
-                        *start_value += 1;
+                        *start_value = start_value.saturating_add(1);
                     }
                 }
 
-- 
2.43.0


From efd3b0f313477f43480b404331fe8f19c22678d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:36:01 +0000
Subject: [PATCH 05/30] fix: ignore leftover padding marks when looking for a
 horizontal alignment

---
 src/block.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/block.rs b/src/block.rs
index 3e4d568..d4f875a 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -221,14 +221,16 @@ impl BlockAttributes {
         }
         if let Ok(Some(m)) = ATTR_HALIGN_RE.captures(&matched) {
             let alignment = match &m[1] {
-                "<" => "left",
-                "=" => "center",
-                ">" => "right",
-                "<>" => "justify",
-                value => unreachable!(
-                    "Unexpected block horizontal alignment: {}", value),
+                "<" => Some("left"),
+                "=" => Some("center"),
+                ">" => Some("right"),
+                "<>" => Some("justify"),
+                // parentheses are paddings, not alignments
+                _ => None,
             };
-            style.push(format!("text-align:{}", alignment));
+            if let Some(alignment) = alignment {
+                style.push(format!("text-align:{}", alignment));
+            }
         }
 
         let (span, width) = if element == Some("col") {
-- 
2.43.0


From 6b627bb13eacb49af1fd623fc873d79b04207e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:36:10 +0000
Subject: [PATCH 06/30] fix: leave text without an opening quote alone when
 looking for links

---
 src/parser.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index bdbc1dc..14822d4 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -671,6 +671,7 @@ impl <'t> ParserState<'t> {
             let mut balanced = 0;
             let mut linkparts = Vec::<&str>::new();
             let mut i = 0;
+            let mut is_link = true;
 
             while balanced != 0 || i == 0 {
                 // Starting at the end, pop off the previous part of the
@@ -688,6 +689,11 @@ impl <'t> ParserState<'t> {
                     }
                     if let Some(p) = possible_start_quotes.pop() {
                         possibility = p;
+                    } else {
+                        // Out of possible starting segments, none of the
+                        // quotes opens a link
+                        is_link = false;
+                        break;
                     }
                 } else {
                     // If quotes occur next to each other, we get zero
@@ -719,6 +725,11 @@ impl <'t> ParserState<'t> {
                 }
             }
 
+            if !is_link {
+                output.push(Cow::Borrowed(s));
+                continue;
+            }
+
             // Rebuild the link's text by reversing the parts and sticking
             // them back together with quotes.
             linkparts.reverse();
-- 
2.43.0


From f53f44f30f919ae5d42f3a64d80f05b621b1c5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:36:18 +0000
Subject: [PATCH 07/30] fix: keep the definition and the id of a note defined
 before it is referenced

---
 src/parser.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 14822d4..78fa621 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1160,16 +1160,18 @@ impl <'t> ParserState<'t> {
                 num.clone()
             } else {
                 let num = self.note_index.to_string();
-                self.notes.insert(
-                    label.to_string(),
-                    NoteInfo {
-                        seq: Some(num.clone()),
+                // The note may have been defined already
+                self.notes
+                    .entry(label.to_string())
+                    .or_insert_with(|| NoteInfo {
+                        seq: None,
                         id: "".to_owned(),
                         refids: Default::default(),
                         attrs: None,
                         content: None,
                         link: None,
-                    });
+                    })
+                    .seq = Some(num.clone());
                 self.note_index += 1;
                 num
             };
@@ -1182,6 +1184,8 @@ impl <'t> ParserState<'t> {
             let new_id: Cow<str> = if is_note_id_empty {
                 let new_index = self.increment_link_index();
                 format!("{0}{1}", self.textile.link_prefix, new_index).into()
+            } else if self.notes[label].refids.is_empty() {
+                self.notes[label].id.clone().into()
             } else {
                 "".into()
             };
-- 
2.43.0


From eed3233cd767e6baf4ecb4df925f518e38070f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:36:27 +0000
Subject: [PATCH 08/30] fix: list the notes in the order of their numbers

---
 src/parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 78fa621..f9bca2e 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -313,7 +313,8 @@ impl <'t> ParserState<'t> {
                 let mut info_clone = info.clone();
                 if let Some(ref i) = info.seq {
                     info_clone.seq = Some(label.clone());
-                    o.insert(i.clone(), info_clone);
+                    // padded, to keep "10" after "2"
+                    o.insert(format!("{:0>10}", i), info_clone);
                 } else {
                     self.unreferenced_notes.insert(label.clone(), info_clone);
                 }
-- 
2.43.0


From 348940a3781a19fb8db34890f38afa7340f224df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:37:07 +0000
Subject: [PATCH 09/30] fix: accept only allowed URL schemes in the links of
 images

---
 src/parser.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index f9bca2e..65fd26e 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -550,9 +550,14 @@ impl <'t> ParserState<'t> {
         }
         let f_image = |cap: &Captures| -> String {
             let url = &cap[3];
-            if !self.is_valid_url(url) {
+            if !self.is_valid_url(&self.unrestrict_url(url)) {
                 return cap[0].to_owned();
             }
+            if let Some(href) = cap.get(5) {
+                if !self.is_valid_url(&self.unrestrict_url(href.as_str())) {
+                    return cap[0].to_owned();
+                }
+            }
             let mut atts = if let Some(attributes) = cap.get(2) {
                 BlockAttributes::parse(attributes.as_str(), None, true, self.textile.restricted).html_attrs()
             } else {
-- 
2.43.0


From a74e5fb01a7051c82db9b5fb7f37228eeb8cdb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:37:15 +0000
Subject: [PATCH 10/30] fix: accept only allowed URL schemes in link aliases

---
 src/parser.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 65fd26e..04154ef 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -518,13 +518,16 @@ impl <'t> ParserState<'t> {
         } else {
             &UNRESTRICTED_URLREF_RE
         };
-        urlref_re.replace_all(text, |cap: &Captures| -> &str {
+        urlref_re.replace_all(text, |cap: &Captures| -> String {
             let flag = &cap[1];
             let url = self.unrestrict_url(&cap[2]).into_owned();
+            if !self.is_valid_url(&url) {
+                return cap[0].to_owned();
+            }
             self.urlrefs.insert(
                 flag.to_string(),
                 url.into());
-            ""
+            String::new()
         })
     }
 
-- 
2.43.0


From 105db1f67c31625da8d21fd6b95fdd36add30713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:37:22 +0000
Subject: [PATCH 11/30] fix: apply rel to the links of images too

---
 src/parser.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 04154ef..c153b98 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -611,10 +611,12 @@ impl <'t> ParserState<'t> {
                 let shelved_href = self.shelve_url(
                     self.unrestrict_url(href.as_str()).into());
                 if !shelved_href.is_empty() {
-                    generate_tag(
-                        "a",
-                        Some(&img),
-                        &[("href".into(), shelved_href)])
+                    let mut link_atts = BlockHtmlAttributes::default();
+                    link_atts.insert("href", shelved_href);
+                    if let Some(ref rel) = self.textile.rel {
+                        link_atts.insert("rel", rel.clone());
+                    }
+                    generate_tag("a", Some(&img), &link_atts)
                 } else {
                     img
                 }
-- 
2.43.0


From a9fbf6ee1f0473f7bfb0fc9693a17802bcd3aeb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:37:30 +0000
Subject: [PATCH 12/30] fix: escape the URL shown as the text of a link

---
 src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index c153b98..caf3198 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1464,11 +1464,11 @@ impl <'t> ParserState<'t> {
 
             let text: Cow<str> = if text == "$" {
                 if scheme_in_list {
-                    make_url_readable(&url).into()
+                    encode_html(make_url_readable(&url), true, true).into()
                 } else if let Some(rurl) = self.urlrefs.get(url.as_ref()) {
                     encode_html(make_url_readable(rurl.source()), true, true).into()
                 } else {
-                    url
+                    encode_html(&url, true, true).into()
                 }
             } else {
                 text.into()
-- 
2.43.0


From 6f2de669efa2947c100d78b8fd5b5fee60b8924b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:37:37 +0000
Subject: [PATCH 13/30] fix: remove every occurrence of the internal token from
 the input

---
 src/parser.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index caf3198..8692018 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1946,8 +1946,11 @@ impl Textile {
         };
 
         let mut state = ParserState::new(self);
-        let text = normalize_newlines(&text)
-            .replace(&state.textile.uid, "");
+        let mut text = normalize_newlines(&text);
+        // The removal itself can form new tokens
+        while text.contains(&state.textile.uid) {
+            text = text.replace(&state.textile.uid, "");
+        }
 
         let text = if self.block_tags {
             let text = state.block(&text);
-- 
2.43.0


From bb66310604f0a68f4ce153eaea1c3a06c1ba793d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:37:45 +0000
Subject: [PATCH 14/30] fix: drop the regular expressions made for the previous
 uid

---
 src/parser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 8692018..c6bc5c5 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -2149,6 +2149,8 @@ impl Textile {
             // 3+ uppercase
             (DYN_3PLUS_RE.clone(), dyn_3plus_replacement),
         ];
+        // The cached expressions depend on the uid
+        self.regex_cache.borrow_mut().clear();
         self
     }
 
-- 
2.43.0


From dbf56646df7139dd9d20fc3ef650202f17763c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:37:53 +0000
Subject: [PATCH 15/30] fix: let uid contain characters special for regular
 expressions

---
 src/parser.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index c6bc5c5..d743e38 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -415,7 +415,7 @@ impl <'t> ParserState<'t> {
             .or_default()
             .entry("")
             .or_insert_with(
-                || fregex!(&format!(r"{0}(?P<token>[0-9]+):url", self.textile.uid)));
+                || fregex!(&format!(r"{0}(?P<token>[0-9]+):url", fancy_regex::escape(&self.textile.uid))));
 
         let retrieve_url = |cap: &Captures| -> String {
             let token = &cap["token"];
@@ -1299,7 +1299,7 @@ impl <'t> ParserState<'t> {
                             "\":",
                             // url upto a stopchar
                             r"(?P<urlx>[^{1}]*)"),
-                        needle, STOPCHARS)));
+                        fancy_regex::escape(&needle), STOPCHARS)));
 
         let mut f_link = |cap: &Captures| -> String {
             let in_ = &cap[0];
@@ -1627,7 +1627,7 @@ impl <'t> ParserState<'t> {
                 .or_default()
                 .entry("")
                 .or_insert_with(
-                    || fregex!(&format!("{0}(?P<token>[0-9]+):ospan ", self.textile.uid)));
+                    || fregex!(&format!("{0}(?P<token>[0-9]+):ospan ", fancy_regex::escape(&self.textile.uid))));
             open_tag_re.replace_all(text, f_retrieve_tags)
         };
         let result = {
@@ -1638,7 +1638,7 @@ impl <'t> ParserState<'t> {
                 .or_default()
                 .entry("")
                 .or_insert_with(
-                    || fregex!(&format!(" {0}(?P<token>[0-9]+):cspan", self.textile.uid)));
+                    || fregex!(&format!(" {0}(?P<token>[0-9]+):cspan", fancy_regex::escape(&self.textile.uid))));
             close_tag_re.replace_all(&result, f_retrieve_tags)
         };
         result.into_owned()
@@ -2144,7 +2144,7 @@ impl Textile {
         self.link_prefix = format!("{0}-", base_id);
         let dyn_3plus_replacement = format!(
             r#"$1<span class="caps">{0}:glyph:$2</span>$3"#,
-            &self.uid);
+            self.uid.replace('$', "$$"));
         self.dyn_glyph_replacers = [
             // 3+ uppercase
             (DYN_3PLUS_RE.clone(), dyn_3plus_replacement),
-- 
2.43.0


From 4f5cdfa87f4236ce663812a15557ab4a86f78647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:38:18 +0000
Subject: [PATCH 16/30] fix: accept only well-formed language codes

---
 src/block.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/block.rs b/src/block.rs
index d4f875a..e4ca369 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -105,6 +105,7 @@ impl BlockAttributes {
             static ref ATTR_VALIGN_RE: Regex = fregex!(&format!(r"^{}", VALIGN_RE_S));
             static ref ATTR_STYLE_RE: Regex = fregex!(r"\{([^}]*)\}");
             static ref ATTR_LANG_RE: Regex = fregex!(r"\[([^\]]+)\]");
+            static ref LANG_CODE_RE: Regex = fregex!(r"^[a-zA-Z0-9_-]+$");
             static ref ATTR_ACLASS_RE: Regex = fregex!(r"\(([^()]+)\)");
             static ref CSS_ID_RE: Regex = fregex!(r"^([-a-zA-Z0-9_\.\:]*)$");
             static ref ATTR_PADDING_LEFT_RE: Regex = fregex!(r"([(]+)");
@@ -159,7 +160,10 @@ impl BlockAttributes {
 
         let lang = match ATTR_LANG_RE.captures(&matched) {
             Ok(Some(m)) => {
-                let result = Some(m[1].to_owned());
+                let result = match LANG_CODE_RE.is_match(&m[1]) {
+                    Ok(true) => Some(m[1].to_owned()),
+                    _ => None,
+                };
                 matched = matched.replace(&m[0], "");
                 result
             }
-- 
2.43.0


From f88609c4fb5e0c32975f80984bbcfb3a3bfff56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:38:26 +0000
Subject: [PATCH 17/30] fix: keep markup from breaking out of the attributes it
 ends up in

---
 src/parser.rs | 32 ++++++++++++++++++++++++++------
 src/table.rs  |  6 ++++--
 2 files changed, 30 insertions(+), 8 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index d743e38..3c2f380 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -141,7 +141,7 @@ fn make_glyph_replacers(is_html5: bool) -> [(Regex, &'static str); 22] {
         // plus/minus
         (fregex!(r"[(\[]\+\/-[\])]"), r"&#177;"),
         // 3+ uppercase acronym
-        (fregex!(&format!(r"\b([{0}][{1}]{{2,}})\b(?:[(]([^)]*)[)])", SNIP_ABR, SNIP_ACR)),
+        (fregex!(&format!(r"\b([{0}][{1}]{{2,}})\b(?:[(]((?:(?!textileRef:)[^)])*)[)])", SNIP_ABR, SNIP_ACR)),
          if is_html5 {r#"<abbr title="$2">$1</abbr>"#} else {r#"<acronym title="$2">$1</acronym>"#}),
     ]
 }
@@ -408,6 +408,26 @@ impl <'t> ParserState<'t> {
         new_text
     }
 
+    /// Replaces all the placeholders within a text which is going to become
+    /// an HTML attribute with what they stand for. The result must be encoded,
+    /// unlike the placeholders replaced later by `Textile::parse`.
+    pub(crate) fn expand(&self, text: &str) -> String {
+        let uid = &self.textile.uid;
+        let mut result = self.retrieve(text.to_owned());
+        if result.contains(uid) {
+            for (index, fragment) in self.ref_cache.iter() {
+                result = result
+                    .replace(&format!("{0}{1}:ospan ", uid, index), fragment)
+                    .replace(&format!(" {0}{1}:cspan", uid, index), fragment)
+                    .replace(&format!("{0}{1}:url", uid, index), fragment);
+            }
+            result = result
+                .replace(&format!("{0}:glyph:", uid), "")
+                .replace(&format!("{0}linkStartMarker:", uid), "");
+        }
+        result
+    }
+
     fn retrieve_urls<'a>(&mut self, text: &'a str) -> Cow<'a, str> {
         let mut regex_cache = self.textile.regex_cache.borrow_mut();
         let pattern = regex_cache
@@ -589,8 +609,8 @@ impl <'t> ParserState<'t> {
                 }
             }
 
-            let optional_title = cap.get(4).map(|m| m.as_str());
-            atts.insert("alt", optional_title.unwrap_or_default().to_owned());
+            let optional_title = cap.get(4).map(|m| self.expand(m.as_str()));
+            atts.insert("alt", optional_title.clone().unwrap_or_default());
 
             if !UrlBits::parse(url).is_relative() && self.textile.get_sizes {
                 if let Some((width, height)) = get_image_size(url) {
@@ -603,7 +623,7 @@ impl <'t> ParserState<'t> {
             atts.insert("src", url_id);
 
             if let Some(title) = optional_title {
-                atts.insert("title", title.to_owned());
+                atts.insert("title", title);
             }
 
             let img = generate_tag("img", None, &atts);
@@ -1475,7 +1495,7 @@ impl <'t> ParserState<'t> {
             };
 
             let text = text.trim();
-            let title = encode_html(title, false, false);
+            let title = encode_html(&self.expand(title), true, false);
 
             let text = if !self.textile.noimage {
                 self.image(text)
@@ -1579,7 +1599,7 @@ impl <'t> ParserState<'t> {
             let atts = &cap[3];
             let mut html_atts = BlockAttributes::parse(atts, None, true, self.textile.restricted).html_attrs();
             if let Some(cite) = cap.get(4) {
-                html_atts.insert("cite", cite.as_str().trim().to_owned());
+                html_atts.insert("cite", self.expand(cite.as_str().trim()));
             }
             let content = &cap[5];
             let content = self.span(content);
diff --git a/src/table.rs b/src/table.rs
index abfc29f..f388670 100644
--- a/src/table.rs
+++ b/src/table.rs
@@ -6,7 +6,7 @@ use lazy_static::lazy_static;
 use crate::block::{BlockAttributes, BlockHtmlAttributes};
 use crate::regextra::{split_with_capture, fregex};
 use crate::regex_snips::{ALIGN_RE_S, CLS_RE_S, VALIGN_RE_S, SNIP_SPACE, PNCT_RE_S};
-use crate::htmltools::generate_tag;
+use crate::htmltools::{encode_html, generate_tag};
 
 
 const COLSPAN_RE_S: &str = r"(?:\\\d+)";
@@ -103,7 +103,9 @@ pub(crate) fn process_table<'t>(
 
     if let Some(s) = summary {
         if !s.is_empty() {
-            html_attrs.insert("summary", s.trim().to_owned());
+            // Shelved, to keep the text from being processed any further
+            let summary = encode_html(&parser.expand(s.trim()), true, false);
+            html_attrs.insert("summary", parser.shelve(summary));
         }
     }
     let mut caption = String::new();
-- 
2.43.0


From c2720ae631f402dbd98c501f1acf12183ff1e694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:51 +0000
Subject: [PATCH 18/30] fix: keep the quotes of a generated footnote mark away
 from link detection

---
 src/block.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/block.rs b/src/block.rs
index e4ca369..9ff9a3a 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -382,7 +382,8 @@ impl Block {
                     &[("href".to_owned(), format!("#fnrev{}", fnid))]);
                 generate_tag("sup", Some(&fnrev), &sup_html_attrs)
             };
-            new_content = format!("{} {}", sup, &new_content).into();
+            // Shelved, as the content is going to be parsed
+            new_content = format!("{} {}", ps.shelve(sup), &new_content).into();
             "p"
         } else {
             tag
-- 
2.43.0


From 4c922e6b3ee447a77fcc6250ddb3b7985ca7018b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:00 +0000
Subject: [PATCH 19/30] fix: keep the spaces around quoted quotes out of the
 placeholder

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 3c2f380..d14b3c1 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1839,7 +1839,7 @@ impl <'t> ParserState<'t> {
                     } else {
                         found.into()
                     };
-                    return self.shelve(format!(" {new_pre}{found}{new_post} "))
+                    return format!(" {} ", self.shelve(format!("{new_pre}{found}{new_post}")))
                 }
             }
             unreachable!("Should be reached, check regular expression");
-- 
2.43.0


From 7c58172bc450ce5d1d3e405ca3454ea0a8352cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:09 +0000
Subject: [PATCH 20/30] fix: keep internal tokens out of the URLs

---
 src/parser.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index d14b3c1..03e4acd 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -513,8 +513,16 @@ impl <'t> ParserState<'t> {
     /// prior to any real parsing, we need to undo the encoding in order to
     /// handle the links properly (once the normalization is done they will
     /// be html-encoded again anyway).
+    /// The same goes for the placeholders which happen to be part of the URL.
     pub(crate) fn unrestrict_url<'u>(&self, url: &'u str) -> Cow<'u, str> {
-        if self.textile.restricted {
+        if url.contains(&self.textile.uid) {
+            let expanded = self.expand(url);
+            if self.textile.restricted {
+                reverse_encode_html(&expanded).into_owned().into()
+            } else {
+                expanded.into()
+            }
+        } else if self.textile.restricted {
             reverse_encode_html(url)
         } else {
             url.into()
-- 
2.43.0


From 716dfa748cd83dfa74ce8dd7c240f29bec9a73b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:47 +0000
Subject: [PATCH 21/30] fix: stop the URL of a link where the next link starts

---
 src/parser.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 03e4acd..65dc3fe 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1333,10 +1333,14 @@ impl <'t> ParserState<'t> {
             let in_ = &cap[0];
             let mut pre = unwrap_or_empty(cap.get(1)).to_owned();
             let inner = cap[2].replace('\n', self.textile.proper_br_tag());
-            let mut url = &cap[3];
             if inner.is_empty() {
-                return format!(r#"{0}"{1}":{2}"#, pre, inner, url);
+                return format!(r#"{0}"{1}":{2}"#, pre, inner, &cap[3]);
             }
+            // The URL can't go past the start of the next link
+            let (mut url, next_link) = match cap[3].find(&needle) {
+                Some(pos) => cap[3].split_at(pos),
+                None => (&cap[3], ""),
+            };
             lazy_static! {
                 static ref BLOCK_RE: Regex = fregex!(
                     &format!(
@@ -1527,7 +1531,7 @@ impl <'t> ParserState<'t> {
             }
             let a_text = generate_tag("a", Some(&text), &attributes);
             let a_shelf_id = self.shelve(a_text);
-            let result = format!("{0}{1}{2}{3}", pre, a_shelf_id, pop, tight);
+            let result = format!("{0}{1}{2}{3}{4}", pre, a_shelf_id, pop, tight, next_link);
             result
         };
 
-- 
2.43.0


From faae40a47ad8c5c7d09d78b9ab020d0f32d405f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:51 +0000
Subject: [PATCH 22/30] fix: accept only language codes that cannot be taken
 for markup

---
 src/block.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/block.rs b/src/block.rs
index 9ff9a3a..b79c223 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -105,7 +105,7 @@ impl BlockAttributes {
             static ref ATTR_VALIGN_RE: Regex = fregex!(&format!(r"^{}", VALIGN_RE_S));
             static ref ATTR_STYLE_RE: Regex = fregex!(r"\{([^}]*)\}");
             static ref ATTR_LANG_RE: Regex = fregex!(r"\[([^\]]+)\]");
-            static ref LANG_CODE_RE: Regex = fregex!(r"^[a-zA-Z0-9_-]+$");
+            static ref LANG_CODE_RE: Regex = fregex!(r"^[a-zA-Z0-9]+(-[a-zA-Z0-9]+)*$");
             static ref ATTR_ACLASS_RE: Regex = fregex!(r"\(([^()]+)\)");
             static ref CSS_ID_RE: Regex = fregex!(r"^([-a-zA-Z0-9_\.\:]*)$");
             static ref ATTR_PADDING_LEFT_RE: Regex = fregex!(r"([(]+)");
-- 
2.43.0


From 438cdba56daf369e6620a2310f5185ccfab0e948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:01 +0000
Subject: [PATCH 23/30] fix: end the cite of a span before a tag

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 65dc3fe..7bf5d78 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -35,7 +35,7 @@ fn span_re(tag: &str) -> Regex {
                 r"(?P<tag>{tag})(?!{tag})",
                 r"(?P<atts>{cls})",
                 r"(?!{tag})",
-                r"(?::(?P<cite>\S+[^{tag}]{space}))?",
+                r"(?::(?P<cite>[^\s<]+[^{tag}<]{space}))?",
                 r"(?P<content>[^{space}{tag}]+|\S.*?[^\s{tag}\n])",
                 r"(?P<end>[{pnct}]*)",
                 r"{tag}",
-- 
2.43.0


From b23cdb4bcb2c285e0ae844942ca07a5ae1d3f298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:22 +0000
Subject: [PATCH 24/30] fix: keep internal tokens out of style attributes

---
 src/block.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/block.rs b/src/block.rs
index b79c223..5d95a78 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -103,7 +103,7 @@ impl BlockAttributes {
             static ref COLSPAN_RE: Regex = fregex!(r"\\(\d+)");
             static ref ROWSPAN_RE: Regex = fregex!(r"/(\d+)");
             static ref ATTR_VALIGN_RE: Regex = fregex!(&format!(r"^{}", VALIGN_RE_S));
-            static ref ATTR_STYLE_RE: Regex = fregex!(r"\{([^}]*)\}");
+            static ref ATTR_STYLE_RE: Regex = fregex!(r"\{((?:(?!textileRef:)[^}])*)\}");
             static ref ATTR_LANG_RE: Regex = fregex!(r"\[([^\]]+)\]");
             static ref LANG_CODE_RE: Regex = fregex!(r"^[a-zA-Z0-9]+(-[a-zA-Z0-9]+)*$");
             static ref ATTR_ACLASS_RE: Regex = fregex!(r"\(([^()]+)\)");
-- 
2.43.0


From ede59805a7e24c97445a8ff071f64446d27d390c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:24 +0000
Subject: [PATCH 25/30] fix: keep internal tokens out of the cite of a span

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 7bf5d78..a3903d0 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -35,7 +35,7 @@ fn span_re(tag: &str) -> Regex {
                 r"(?P<tag>{tag})(?!{tag})",
                 r"(?P<atts>{cls})",
                 r"(?!{tag})",
-                r"(?::(?P<cite>[^\s<]+[^{tag}<]{space}))?",
+                r"(?::(?P<cite>(?:(?!textileRef:)[^\s<])+[^{tag}<]{space}))?",
                 r"(?P<content>[^{space}{tag}]+|\S.*?[^\s{tag}\n])",
                 r"(?P<end>[{pnct}]*)",
                 r"{tag}",
-- 
2.43.0


From a7f9dbc02400a7e805abe9ab64a0c74103c0f5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:07 +0000
Subject: [PATCH 26/30] fix: keep internal tokens out of class and id
 attributes

---
 src/block.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/block.rs b/src/block.rs
index 5d95a78..e19c18e 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -106,7 +106,7 @@ impl BlockAttributes {
             static ref ATTR_STYLE_RE: Regex = fregex!(r"\{((?:(?!textileRef:)[^}])*)\}");
             static ref ATTR_LANG_RE: Regex = fregex!(r"\[([^\]]+)\]");
             static ref LANG_CODE_RE: Regex = fregex!(r"^[a-zA-Z0-9]+(-[a-zA-Z0-9]+)*$");
-            static ref ATTR_ACLASS_RE: Regex = fregex!(r"\(([^()]+)\)");
+            static ref ATTR_ACLASS_RE: Regex = fregex!(r"\(((?:(?!textileRef:)[^()])+)\)");
             static ref CSS_ID_RE: Regex = fregex!(r"^([-a-zA-Z0-9_\.\:]*)$");
             static ref ATTR_PADDING_LEFT_RE: Regex = fregex!(r"([(]+)");
             static ref ATTR_PADDING_RIGHT_RE: Regex = fregex!(r"([)]+)");
-- 
2.43.0


From 62efb950ec6e2462744444e97ca6544617130549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:33 +0000
Subject: [PATCH 27/30] fix: stop the URL of a link where a line break starts

---
 src/parser.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index a3903d0..3961c00 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1336,8 +1336,9 @@ impl <'t> ParserState<'t> {
             if inner.is_empty() {
                 return format!(r#"{0}"{1}":{2}"#, pre, inner, &cap[3]);
             }
-            // The URL can't go past the start of the next link
-            let (mut url, next_link) = match cap[3].find(&needle) {
+            // The URL can't go past the start of the next link or a line break
+            let url_end = cap[3].find(&needle).into_iter().chain(cap[3].find("<br")).min();
+            let (mut url, next_link) = match url_end {
                 Some(pos) => cap[3].split_at(pos),
                 None => (&cap[3], ""),
             };
-- 
2.43.0


From 0c3ff2b0116bfdc894258d2d089f7904c7ddab61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:12 +0000
Subject: [PATCH 28/30] fix: stop the link of an image where a line break
 starts

---
 src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 3961c00..2cf8e2b 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -574,8 +574,8 @@ impl <'t> ParserState<'t> {
                         r"\s?",                       // optional space
                         r"(?:\(([^\)]+)\))?",         // optional title
                         r"\!",                        // closing
-                        r"(?::(\S+)(?<![\]).,]))?",   // optional href
-                        r"(?:[\]}}]|(?=[.,\s)|]|$))", // lookahead: space or end of string
+                        r"(?::((?:(?!<br)\S)+)(?<![\]).,]))?", // optional href
+                        r"(?:[\]}}]|(?=[.,\s)|]|<br|$))", // lookahead: space or end of string
                     ),
                     *CLS_RE_S));
         }
-- 
2.43.0


From 52b1ff9c1b36cbf74cf6ab366b79b3303051682a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:01 +0000
Subject: [PATCH 29/30] fix: stop the URL of a link where an internal token
 starts

---
 src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 2cf8e2b..e710904 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1336,8 +1336,8 @@ impl <'t> ParserState<'t> {
             if inner.is_empty() {
                 return format!(r#"{0}"{1}":{2}"#, pre, inner, &cap[3]);
             }
-            // The URL can't go past the start of the next link or a line break
-            let url_end = cap[3].find(&needle).into_iter().chain(cap[3].find("<br")).min();
+            // The URL can't go past the start of the next link, a finished link or a line break
+            let url_end = [needle.as_str(), "textileRef:", "<br"].iter().filter_map(|s| cap[3].find(s)).min();
             let (mut url, next_link) = match url_end {
                 Some(pos) => cap[3].split_at(pos),
                 None => (&cap[3], ""),
-- 
2.43.0


From 45efd120a6209a042223d782b42d9a16469a03ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:35 +0000
Subject: [PATCH 30/30] fix: encode the back link characters of notes

---
 src/parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index e710904..7e84365 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -266,7 +266,8 @@ impl <'t> ParserState<'t> {
     fn make_back_ref_link(info: &NoteInfo, g_links: &str, i: char) -> Cow<'t, str> {
         fn char_code_to_entity(c: u32) -> String {
             let entity = format!("&#{};", c);
-            unescape(&entity).into_owned()
+            // The sequence can run into characters special to HTML
+            encode_html(&unescape(&entity), false, false)
         }
 
         let backlink_type = match info.link {
-- 
2.43.0

