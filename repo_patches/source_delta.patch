From d54461282d143278a3a11231b06f6bf43e3f95c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:17 +0000
Subject: [PATCH 01/17] fix: a start tag cut off by the end of the document no
 longer panics

`<a` made eof() panic in strict mode, and with auto_fix_unclosed_tag it was
accepted without a tag name so that rendering panicked; a pending attribute
was dropped as well. Complete the tag (or report UnclosedTag) instead.
---
 src/parser.rs | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 80657f3..2a42e73 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -2013,8 +2013,33 @@ impl Doc {
 		Ok(())
 	}
 
+	// complete the start tag which is cut off by the end of the doc
+	fn fix_unfinished_tag(&mut self, context: &str) -> HResult {
+		let is_in_quote = self.mark_char != WS_CHAR
+			&& self
+				.current_node
+				.borrow()
+				.meta
+				.as_ref()
+				.map_or(false, |meta| meta.borrow().code_in == TagCodeIn::Value);
+		if is_in_quote {
+			let handle = self.handle;
+			handle(self, self.mark_char, context)?;
+		}
+		let handle = self.handle;
+		handle(self, TAG_END_CHAR, context)
+	}
+
 	// end of the doc
 	fn eof(&mut self, context: &str) -> HResult {
+		// the last start tag is not finished, e.g. `<a` or `<a href="b`
+		if matches!(self.code_in, CodeTypeIn::Tag) {
+			if self.parse_options.auto_fix_unclosed_tag {
+				self.fix_unfinished_tag(context)?;
+			} else if self.current_node.borrow().meta.is_none() {
+				self.set_tag_meta();
+			}
+		}
 		let cur_depth = self.chain_nodes.len();
 		// check if all tags are closed correctly.
 		if cur_depth > 1 {
-- 
2.43.0


From a1f030ae1e27af9a41894b52afb95684c4b012dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:18 +0000
Subject: [PATCH 02/17] fix: `<!DOCTYPE html/>` no longer pops the enclosing
 node

The doctype is not in chain_nodes, so popping removed the root (the next node
panicked) or closed the enclosing tag.
---
 src/parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 2a42e73..e082bd2 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1113,7 +1113,10 @@ fn parse_tag_self_closing(doc: &mut Doc, c: char, context: &str) -> HResult {
 			} else {
 				panic!("self-closing tag's meta is emtpy");
 			}
-			doc.chain_nodes.pop();
+			// a doctype is never in the chain nodes
+			if !matches!(doc.code_in, CodeTypeIn::HTMLDOCTYPE) {
+				doc.chain_nodes.pop();
+			}
 			doc.set_code_in(CodeTypeIn::Unkown);
 		}
 		END_SLASH_CHAR => {
-- 
2.43.0


From 45e70bb400f1faea4e3f57c4268c6078bb552816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:19 +0000
Subject: [PATCH 03/17] fix: leave svg/math exactly when the outermost one is
 closed

The end tag was compared case-sensitively, so `<svg></SVG>` left the parser in
svg mode (a following `<![` panicked), and the end tag of a nested svg left
the mode too early.
---
 src/parser.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index e082bd2..c935d3a 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1363,10 +1363,8 @@ fn parse_tagend(doc: &mut Doc, c: char, context: &str) -> HResult {
 				doc.set_tag_end_info();
 				// set code in
 				doc.set_code_in(Unkown);
-				// end of special tag
-				if doc.in_special.is_some()
-					&& is_equal_chars(&doc.in_special.as_ref().unwrap().1, fix_end_tag_name, &None)
-				{
+				// end of special tag, when no svg or math is open any more
+				if doc.in_special.is_some() && !doc.is_in_special_chain() {
 					doc.in_special = None;
 				}
 				// set end tag more info
@@ -2197,6 +2195,21 @@ impl Doc {
 		}
 	}
 
+	// check if any of the open tags is svg or math
+	fn is_in_special_chain(&self) -> bool {
+		self.chain_nodes.iter().any(|node| {
+			node.borrow().meta.as_ref().map_or(false, |meta| {
+				let lc_name = meta
+					.borrow()
+					.name
+					.iter()
+					.map(|ch| ch.to_ascii_lowercase())
+					.collect::<Vec<char>>();
+				SPECIAL_TAG_MAP.contains_key(&lc_name)
+			})
+		})
+	}
+
 	// check tag type
 	fn check_tag_type_do(&mut self) {
 		use CodeTypeIn::*;
-- 
2.43.0


From 241dd7672a59bea1d0216a24e69975e7086a2290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:20 +0000
Subject: [PATCH 04/17] fix: keep the leading slash of an unquoted attribute
 value

`<a href=/x>` was parsed as href="x".
---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index c935d3a..ef9feac 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1181,7 +1181,7 @@ fn parse_tag_wait(doc: &mut Doc, c: char, context: &str) -> HResult {
 				doc.check_tag_type_do();
 			}
 		}
-		END_SLASH_CHAR => {
+		END_SLASH_CHAR if !doc.is_tag_code_in(&TagCodeIn::WaitValue) => {
 			// parse self closing
 			doc.handle = parse_tag_self_closing;
 		}
-- 
2.43.0


From 44643b38cda7a36b3c87cfcdbb76c85132d32feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:21 +0000
Subject: [PATCH 05/17] fix: put the text of an unescaped '<' into the
 innermost open tag

After a void tag or a script/style/title/textarea element the text became a
child of that (already closed) element, and its parent and root were not set.
---
 src/parser.rs | 47 +++++++----------------------------------------
 1 file changed, 7 insertions(+), 40 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index ef9feac..e987f25 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1939,8 +1939,6 @@ impl Doc {
 	// fix unescaped left angle bracket
 	fn fix_unescaped_lt(&mut self, c: char, context: &str) -> HResult {
 		let mut chars = vec!['&', 'l', 't', ';'];
-		let mut parent: Option<RefNode> = None;
-		let mut need_parent = false;
 		let node_type = self.current_node.borrow().node_type;
 		let is_end_text = c == TAG_BEGIN_CHAR;
 		if !is_end_text {
@@ -1960,47 +1958,16 @@ impl Doc {
 					self.current_node.borrow_mut().node_type = NodeType::Text;
 				}
 			}
-			NodeType::Tag => {
-				// tag, check if auto fix or self closing
-				let is_closed = self
-					.current_node
-					.borrow()
-					.meta
-					.as_ref()
-					.map_or(false, |meta| {
-						let meta = &meta.borrow();
-						meta.self_closed || meta.auto_fix
-					});
-				if !is_closed {
-					parent = Some(Rc::clone(&self.current_node));
-				} else {
-					need_parent = true;
-				}
-			}
 			_ => {
-				need_parent = true;
+				// a new text node of the innermost open tag
+				self.add_new_node(Rc::new(RefCell::new(Node::new(
+					NodeType::Text,
+					self.mem_position,
+				))));
+				// set prev chars
+				self.prev_chars = chars;
 			}
 		}
-		if need_parent {
-			if !self.chain_nodes.is_empty() {
-				let index = self.chain_nodes.len() - 1;
-				parent = Some(Rc::clone(&self.chain_nodes[index]));
-			} else {
-				parent = Some(Rc::clone(&self.root));
-			}
-		}
-		if let Some(parent) = &parent {
-			let text_node = Node::new(NodeType::Text, self.mem_position);
-			let current_node = Rc::new(RefCell::new(text_node));
-			let mut parent = parent.borrow_mut();
-			let childs = parent.childs.get_or_insert(Vec::new());
-			current_node.borrow_mut().index = childs.len();
-			childs.push(Rc::clone(&current_node));
-			// set current node as text node
-			self.current_node = current_node;
-			// set prev chars
-			self.prev_chars = chars;
-		}
 		self.repeat_whitespace = false;
 		self.set_code_in(CodeTypeIn::TextNode);
 		// if is end of text<the tag left character>
-- 
2.43.0


From bef5c04871ee1589bdf3d8c928aa68ea8b73c81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:22 +0000
Subject: [PATCH 06/17] fix: recognise the empty comment `<!---->` and the
 empty CDATA section

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index e987f25..ea3042c 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1499,7 +1499,7 @@ fn parse_comment_or_cdata(doc: &mut Doc, c: char, _: &str) -> HResult {
 	if c == TAG_END_CHAR {
 		let chars = &doc.prev_chars;
 		let total = chars.len();
-		if total > 2 {
+		if total >= 2 {
 			let end_symbol = doc.mark_char;
 			let prev_char = chars[total - 1];
 			if prev_char == end_symbol && chars[total - 2] == end_symbol {
-- 
2.43.0


From d0a7e0b338c54ef78f7dcf3dc8471948d7f4700d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:23 +0000
Subject: [PATCH 07/17] fix: always_close_void closes void elements

It closed auto fixed unclosed tags (`<div /></div>`) and no void element.
---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index ea3042c..9e0f8d3 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -685,7 +685,7 @@ impl Node {
 						result.extend_from_slice(&attrs);
 					}
 					// add self closing
-					if meta.self_closed || (meta.auto_fix && options.always_close_void) {
+					if meta.self_closed || (meta.is_void && options.always_close_void) {
 						result.push(WS_CHAR);
 						result.push('/');
 					}
-- 
2.43.0


From c93b2c5187453d032491901a35a9e722031fe0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:24 +0000
Subject: [PATCH 08/17] fix: remove_attr_quote keeps the quotes that the value
 needs

The parser never sets need_quote, so `<a b="x y">` was rendered as
`<a b=x y>`.
---
 src/parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 9e0f8d3..2442215 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -298,7 +298,9 @@ impl Attr {
 				ret.push(EQUAL_CHAR);
 			}
 			if let Some(quote) = self.quote {
-				if self.need_quote || !remove_quote {
+				let need_quote =
+					self.need_quote || content.is_empty() || content.iter().any(Attr::need_quoted_char);
+				if need_quote || !remove_quote {
 					ret.push(quote);
 					ret.extend_from_slice(content);
 					ret.push(quote);
-- 
2.43.0


From 7262cf9ff26fd258b1803ff5f0ba78752b4196ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:25 +0000
Subject: [PATCH 09/17] fix: minify_spaces tracks nested and self-closed pre
 tags

The end tag of a nested pre ended the outer one too, and a self-closed pre
never ended.
---
 src/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 2442215..0150ad4 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -794,6 +794,7 @@ impl Node {
 	}
 	// build node tree
 	fn build_tree(&self, options: &RenderOptions, status: &mut RenderStatus, result: &mut Vec<char>) {
+		let is_in_pre = status.is_in_pre;
 		self.build_node(options, status, result);
 		if let Some(childs) = &self.childs {
 			if status.root {
@@ -814,6 +815,8 @@ impl Node {
 		if let Some(end_tag) = &self.end_tag {
 			end_tag.borrow().build_node(options, status, result);
 		}
+		// back to the status of the parent node
+		status.is_in_pre = is_in_pre;
 	}
 	// build
 	pub fn build(&self, options: &RenderOptions, inner_text: bool) -> Vec<char> {
-- 
2.43.0


From 583e7d58d051b1dc26f66970ce162973909c2885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:26 +0000
Subject: [PATCH 10/17] fix: minify_spaces together with decode_entity

`a &gt; b` lost the space after the entity, and after a lone '&' neither
spaces nor entities were handled. Minify the text first, then decode it.
---
 src/parser.rs | 63 ++++++++++++---------------------------------------
 1 file changed, 15 insertions(+), 48 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 0150ad4..9b0d70f 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -3,7 +3,7 @@ use crate::config::{ParseOptions, RenderOptions};
 use crate::error::{ErrorKind, ParseError};
 use crate::position::CodeRegion;
 use crate::types::{BoxDynError, GenResult, HResult};
-use htmlentity::entity::{decode_chars_to, encode_char, CharacterSet, EncodeType, Entity};
+use htmlentity::entity::{decode_chars_to, encode_char, CharacterSet, EncodeType};
 use lazy_static::lazy_static;
 use std::collections::HashMap;
 use std::fmt;
@@ -600,56 +600,23 @@ impl Node {
 				if !is_in_pre && options.minify_spaces {
 					// just keep one space
 					let mut prev_is_space = false;
-					if options.decode_entity {
-						let mut start_index: usize = 0;
-						let mut is_in_entity = false;
-						for (index, ch) in content.iter().enumerate() {
-							if !is_in_entity {
-								if ch == &'&' {
-									is_in_entity = true;
-									start_index = index;
-								} else {
-									// judge if whitespace
-									if ch.is_ascii_whitespace() {
-										if prev_is_space {
-											continue;
-										}
-										prev_is_space = true;
-									} else {
-										prev_is_space = false;
-									}
-									result.push(*ch);
-								}
-							} else if ch == &';' {
-								// entity end
-								let entity = &content[start_index + 1..index];
-								if let Ok(decoded) = Entity::decode_chars(entity) {
-									result.push(decoded);
-								} else {
-									result.push('&');
-									result.extend_from_slice(entity);
-									result.push(';');
-								}
-								is_in_entity = false;
+					let mut minified: Vec<char> = Vec::with_capacity(content.len());
+					// just add one space when meet repeated whitespaces
+					for &c in content {
+						if c.is_ascii_whitespace() {
+							if prev_is_space {
+								continue;
 							}
+							prev_is_space = true;
+						} else {
+							prev_is_space = false;
 						}
-						// has suffix wrong entity
-						if is_in_entity {
-							result.extend(&content[start_index..]);
-						}
+						minified.push(c);
+					}
+					if options.decode_entity {
+						decode_chars_to(&minified, result);
 					} else {
-						// just add one space when meet repeated whitespaces
-						for &c in content {
-							if c.is_ascii_whitespace() {
-								if prev_is_space {
-									continue;
-								}
-								prev_is_space = true;
-							} else {
-								prev_is_space = false;
-							}
-							result.push(c);
-						}
+						result.append(&mut minified);
 					}
 				} else {
 					// decode entity
-- 
2.43.0


From 3d1d7453058bb21109656c0d52e7c2413a330007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:27 +0000
Subject: [PATCH 11/17] fix: allow_insert ignores the case of title and
 textarea

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 9b0d70f..b19cdc1 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -136,7 +136,7 @@ pub fn allow_insert(name: &[char], node_type: NodeType) -> bool {
 		return false;
 	}
 	// TITLE/TEXTAREA
-	if is_plain_text_tag(name, &None) {
+	if is_plain_text_tag(&lc_name, &None) {
 		return node_type == NodeType::Text || node_type == NodeType::SpacesBetweenTag;
 	}
 	// XMLCDATA
-- 
2.43.0


From 90b0b9b19a7cfca92858bf1598782b6b9ea66e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:28 +0000
Subject: [PATCH 12/17] fix: cloning a node with an inserted child no longer
 overflows

A node made by create_text_node lies at position 0, before its new parent.
---
 src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index b19cdc1..51f80bd 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -509,8 +509,8 @@ impl Node {
 	// clone node but without childs
 	fn clone_node_without_childs(&self, reduce_code_at: usize) -> RefNode {
 		Rc::new(RefCell::new(Node {
-			begin_at: self.begin_at - reduce_code_at,
-			end_at: self.end_at - reduce_code_at,
+			begin_at: self.begin_at.saturating_sub(reduce_code_at),
+			end_at: self.end_at.saturating_sub(reduce_code_at),
 			index: 0,
 			node_type: self.node_type,
 			root: self.root.clone(),
-- 
2.43.0


From 769ff855ea3f9f48da651a6025ca9604f3b06612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:29 +0000
Subject: [PATCH 13/17] fix: keep the whitespace text of an element when a tag
 follows

`<p> </p><b></b>`: the text of p was turned into spaces between tags by <b>
and dropped by minify_spaces, but not in `<p> </p>` or `<p> </p>x`.
---
 src/parser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 51f80bd..ce370e7 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1330,6 +1330,8 @@ fn parse_tagend(doc: &mut Doc, c: char, context: &str) -> HResult {
 				};
 				if !is_only_text_child {
 					doc.set_text_spaces_between();
+				} else {
+					doc.check_textnode = None;
 				}
 				// set node end
 				doc.set_tag_end_info();
-- 
2.43.0


From d4f1a0d8da491f6630d326d568a82181919c01c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:30 +0000
Subject: [PATCH 14/17] fix: render a doctype without attributes so that it can
 be parsed again

---
 src/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index ce370e7..7736ee3 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -725,6 +725,9 @@ impl Node {
 				result.extend_from_slice(&meta.name);
 				if !meta.attrs.is_empty() {
 					result.extend_from_slice(&meta.attrs_to_string(options.remove_attr_quote));
+				} else {
+					// `<!DOCTYPE>` without any space is not allowed
+					result.push(WS_CHAR);
 				}
 				result.push('>');
 			}
-- 
2.43.0


From 39ab490debe40cc30d7e1cd2191007d8549f469f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:31 +0000
Subject: [PATCH 15/17] fix: get_element_by_id never returns the doctype

---
 src/parser.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 7736ee3..719f0e8 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -2124,12 +2124,16 @@ impl Doc {
 	// set attr value
 	fn set_tag_attr_value(&mut self, quote: Option<char>) {
 		let value = self.clean_chars_to_vec();
+		let is_tag = matches!(self.current_node.borrow().node_type, NodeType::Tag);
 		if let Some(meta) = &self.current_node.borrow_mut().meta {
 			let mut meta = meta.borrow_mut();
 			// set attribute value
 			let attr = meta.set_attr_value(value, quote);
-			// check the value if is a id value
+			// check the value if is a id value of a tag
 			// store the id nodes to cache
+			if !is_tag {
+				return;
+			}
 			if let Some(id_name) = attr.check_if_id() {
 				self
 					.id_tags
-- 
2.43.0


From c04f7a6aac2ff82317224c0446b405dd03e04440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:32 +0000
Subject: [PATCH 16/17] fix: parse_file reports I/O errors and the right line

A missing relative file and invalid UTF-8 panicked; the context of an error
had no line breaks, so every error was reported in line 1.
---
 src/parser.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 719f0e8..df6e347 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1765,7 +1765,7 @@ impl Doc {
 		let file_path = if file_path.is_absolute() {
 			file_path.to_path_buf()
 		} else {
-			env::current_dir()?.join(filename).canonicalize().unwrap()
+			env::current_dir()?.join(filename).canonicalize()?
 		};
 		let file = File::open(file_path)?;
 		let file = BufReader::new(file);
@@ -1773,8 +1773,9 @@ impl Doc {
 		let mut content = String::with_capacity(500);
 		doc.parse_options = options;
 		for line in file.lines() {
-			let line_content = line.unwrap();
+			let line_content = line?;
 			content.push_str(&line_content);
+			content.push('\n');
 			for c in line_content.chars() {
 				doc.next(c, &content)?;
 			}
-- 
2.43.0


From 97d1047cd57b47ae6d20e9d0fc19fe9a2607a212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:40 +0000
Subject: [PATCH 17/17] fix: the end tag of a raw text element lies at its own
 characters

---
 src/parser.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index df6e347..03dd495 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1445,10 +1445,11 @@ fn parse_content_tag(doc: &mut Doc, c: char, _: &str) -> HResult {
 			// set code in unkown
 			doc.set_code_in(Unkown);
 			// first remove end tag from prev_chars, and then remove '</' from end tag to get the name
-			let end_tag_name = doc.prev_chars.split_off(prev_len).split_off(2);
+			let mut end_tag_chars = doc.prev_chars.split_off(prev_len);
 			// add an end tag
-			let mut end = Node::new(NodeType::TagEnd, doc.position + 1);
-			end.content = Some(end_tag_name);
+			let mut end = Node::new(NodeType::TagEnd, doc.position - end_tag_chars.len());
+			end.end_at = doc.position + 1;
+			end.content = Some(end_tag_chars.split_off(2));
 			end.parent = Some(Rc::downgrade(&doc.current_node));
 			// set tag node's content, end_tag
 			let node = Rc::new(RefCell::new(end));
-- 
2.43.0

