From 7d7ce0814afa6151446a757d0a443e79edc1ba6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:32 +0000
Subject: [PATCH 1/5] fix: a comment whose text is a quoted string or looks
 like an entry line is a comment

---
 src/po/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/po/parser.rs b/src/po/parser.rs
index ad566c7..c1f97bc 100644
--- a/src/po/parser.rs
+++ b/src/po/parser.rs
@@ -22,7 +22,7 @@ impl PoParser {
             map_re: Regex::new(r"(\S+?)\s*=\s*(.*?)\s*;").unwrap(),
             map_check_re: Regex::new(r"^\s*(\S+?\s*=\s*.*?\s*;\s*)*$").unwrap(),
             message_re: Regex::new(
-                r#"^\s*(?:#(~?\|?))?\s*(msgctxt|msgid|msgid_plural|msgstr(?:\[(?:0|[1-9]\d*)\])?)?\s*"(.*)"\s*$"#,
+                r#"^\s*(?:#(~\|?|\|))?\s*(msgctxt|msgid|msgid_plural|msgstr(?:\[(?:0|[1-9]\d*)\])?)?\s*"(.*)"\s*$"#,
             )
             .unwrap(),
             comment_re: Regex::new(r#"^\s*#(.)?\s*(.*)$"#).unwrap(),
-- 
2.43.0


From bcbab265c194aac3de25749f7f1b45cb3c43f797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:33 +0000
Subject: [PATCH 2/5] fix: negation in a plural formula wraps instead of
 panicking on overflow

---
 src/plural/formula/node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plural/formula/node.rs b/src/plural/formula/node.rs
index 8753c08..76f62e6 100644
--- a/src/plural/formula/node.rs
+++ b/src/plural/formula/node.rs
@@ -94,7 +94,7 @@ impl Node {
             Node::Num(v) => *v,
             Node::UnOp { op, rhs } => match op {
                 UnOp::Not => bool_to_num(rhs.execute(n) == 0),
-                UnOp::Neg => -rhs.execute(n),
+                UnOp::Neg => rhs.execute(n).overflowing_neg().0,
             },
             Node::BinOp { op, lhs, rhs } => {
                 let lhs = lhs.execute(n);
-- 
2.43.0


From c5c5e94b12641ba7cc9aacd094ec0b3189b3d86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:35 +0000
Subject: [PATCH 3/5] fix: a gap in the numbering of plural translations is not
 closed up silently

---
 src/po/message_extractor.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/po/message_extractor.rs b/src/po/message_extractor.rs
index f5dd44c..6d95de3 100644
--- a/src/po/message_extractor.rs
+++ b/src/po/message_extractor.rs
@@ -80,9 +80,10 @@ impl<'r, D: Decoder> MessageExtractor<'r, D> {
                     let count = forms.as_ref().map_or(2, |f| f.get_count());
 
                     for i in 0..count {
-                        if let Some(v) = self.parse_msg(&format!("msgstr[{}]", i))? {
-                            values.push(v);
-                        };
+                        match self.parse_msg(&format!("msgstr[{}]", i))? {
+                            Some(v) => values.push(v),
+                            None => break,
+                        }
                     }
 
                     return Ok(if values.is_empty() {
-- 
2.43.0


From 41c83bc926b2948c35f2e345999252de8fe52f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:15 +0000
Subject: [PATCH 4/5] fix: a quoted string whose closing quote is escaped is
 not a complete string

---
 src/po/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/po/parser.rs b/src/po/parser.rs
index c1f97bc..76215b6 100644
--- a/src/po/parser.rs
+++ b/src/po/parser.rs
@@ -22,7 +22,7 @@ impl PoParser {
             map_re: Regex::new(r"(\S+?)\s*=\s*(.*?)\s*;").unwrap(),
             map_check_re: Regex::new(r"^\s*(\S+?\s*=\s*.*?\s*;\s*)*$").unwrap(),
             message_re: Regex::new(
-                r#"^\s*(?:#(~\|?|\|))?\s*(msgctxt|msgid|msgid_plural|msgstr(?:\[(?:0|[1-9]\d*)\])?)?\s*"(.*)"\s*$"#,
+                r#"^\s*(?:#(~\|?|\|))?\s*(msgctxt|msgid|msgid_plural|msgstr(?:\[(?:0|[1-9]\d*)\])?)?\s*"((?:[^\\]|\\.)*)"\s*$"#,
             )
             .unwrap(),
             comment_re: Regex::new(r#"^\s*#(.)?\s*(.*)$"#).unwrap(),
-- 
2.43.0


From 7ebe51a6b21a44d859e28267a38f6e97ff9a260e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:36 +0000
Subject: [PATCH 5/5] fix: a non-ASCII Language cannot crash the opening and
 gives the invariant language

---
 src/po/reader.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/po/reader.rs b/src/po/reader.rs
index 1d0ecbf..fdcb1a0 100644
--- a/src/po/reader.rs
+++ b/src/po/reader.rs
@@ -198,7 +198,14 @@ impl<'p, R: Read> PoReader<'p, R> {
             if let Some(lang) = self.header_properties.get("Language") {
                 self.target_language = LanguageRange::new(lang)
                     .map(LanguageRange::into_static)
-                    .or_else(|_| LanguageRange::from_unix(lang))
+                    .or_else(|err| {
+                        // `from_unix` takes (and may cut in the middle) some non-ASCII letters
+                        if lang.is_ascii() {
+                            LanguageRange::from_unix(lang)
+                        } else {
+                            Err(err)
+                        }
+                    })
                     .unwrap_or_else(|_| LanguageRange::invariant());
             }
 
-- 
2.43.0

