From 6885151fa2a4cb39f34eebca4e8bfa537435f38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:29 +0000
Subject: [PATCH 01/23] fix: unescape continues right after each '&' instead of
 by the width of the last character

---
 src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 1649a13..437079d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -289,7 +289,6 @@ pub fn unescape(text: impl Into<String>) -> String {
 				let slice = (&buffer[i..]).to_string();
 				let mut char_size: usize = 1;
 				for (j, k) in slice.char_indices() {
-					char_size = k.len_utf8();
 					if k == ';' {
 						let end = i + j + 1;
 						let slice = &slice[..j];
@@ -324,8 +323,11 @@ pub fn unescape(text: impl Into<String>) -> String {
 								Err(_) => { /* do nothing */ }
 							}
 						}
+						// an entity ends at the first ;
+						break;
 					}
 				}
+				// continue after the & or the character it was replaced by
 				last_i = i+char_size;
 			}
 		}
-- 
2.43.0


From 3904ccc0b12094d1bc29f4cd088c3b59ef5a3a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:03 +0000
Subject: [PATCH 02/23] fix: unescape does not take a signed number for a
 character reference

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 437079d..d843fc6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -308,7 +308,7 @@ pub fn unescape(text: impl Into<String>) -> String {
 						if slice == "&quot" {
 							string_insert(&mut buffer, (start, end), "\"");
 						}
-						if slice.starts_with("&#") {
+						if slice.starts_with("&#") && !slice[2..].starts_with('+') {
 							match u32::from_str_radix(&slice[2..], 16) {
 								Ok(codepoint) => {
 									match char::from_u32(codepoint) {
-- 
2.43.0


From b59035f3b952a3985636a7905cabd0e33c5efc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:03 +0000
Subject: [PATCH 03/23] fix: abbreviate no longer panics on multi-byte text

---
 src/lib.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index d843fc6..aca7782 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -608,9 +608,14 @@ fn abbreviate(text: &str, limit: usize) -> String {
 	if limit < 4 || text.len() <= limit {
 		text.to_string()
 	} else {
-		let mut buffer = (&text[0..(limit / 2 - 1)]).to_string();
+		// never cut inside of a multi-byte character
+		let mut front = limit / 2 - 1;
+		while !text.is_char_boundary(front) {front -= 1;}
+		let mut back = text.len() - limit / 2;
+		while !text.is_char_boundary(back) {back += 1;}
+		let mut buffer = (&text[0..front]).to_string();
 		buffer.push_str("…");
-		buffer.push_str(&text[(text.len() - limit / 2)..]);
+		buffer.push_str(&text[back..]);
 		buffer
 	}
 }
-- 
2.43.0


From 2e7b490c54ff307799885bfe302c6b809856a915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:03 +0000
Subject: [PATCH 04/23] fix: a comment is closed by a '-->' that does not
 overlap its '<!--'

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index aca7782..3c0d7a8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -763,7 +763,7 @@ fn next_tag(buffer: &String, from: usize) -> (Option<usize>, Option<usize>) {
 	let sub_buffer = &buffer[start_index..];
 	if sub_buffer.starts_with("<!--") {
 		// comment
-		return (start, sub_buffer.find("-->").map(|i|i+start_index+3));
+		return (start, sub_buffer[4..].find("-->").map(|i|i+start_index+4+3));
 	} else if sub_buffer.starts_with("<?") {
 		// declaration, look for ?> but handle quoting
 		return (start, quote_aware_find(sub_buffer, "?>", 2).map(|i|i+start_index+2))
-- 
2.43.0


From 1a0525e15df30bfc4f7f7070389c7696c0442146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:03 +0000
Subject: [PATCH 05/23] fix: a DTD is written with its '<!DOCTYPE' and '>'

---
 src/dom.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dom.rs b/src/dom.rs
index 62c623d..c05c87b 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -2089,6 +2089,6 @@ impl DTD {
 
 impl std::fmt::Display for DTD {
 	fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
-		write!(f, "{}", self.dtd_str)
+		write!(f, "<!DOCTYPE{}>", self.dtd_str)
 	}
 }
-- 
2.43.0


From 2cec9e8459cab914d37ab281b6e8dc70e8aa63f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:03 +0000
Subject: [PATCH 06/23] fix: Declaration::from_str refuses '<?>' instead of
 panicking

---
 src/dom.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dom.rs b/src/dom.rs
index c05c87b..6622118 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -2036,7 +2036,7 @@ impl Declaration {
 	pub fn from_str(decl: &str) -> Result<Self, KissXmlError> {
 		// parsing XML declarations is beyond the scope of the kiss_xml crate
 		let buffer: String = decl.trim().to_string();
-		if buffer.starts_with("<?") && buffer.ends_with("?>"){
+		if buffer.len() >= 4 && buffer.starts_with("<?") && buffer.ends_with("?>"){
 			Ok(Self{decl_str: buffer.strip_prefix("<?").unwrap().strip_suffix("?>").unwrap().to_string()})
 		} else {
 			Err(ParsingError::new("Invalid XML declaration syntax").into())
-- 
2.43.0


From 36ac67c4c665af116e41daa86ba221908f00cea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:24 +0000
Subject: [PATCH 07/23] fix: text after the root element is refused

---
 src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 3c0d7a8..5f3ada4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -462,6 +462,12 @@ pub fn parse_str(xml_string: impl Into<String>) -> Result<dom::Document, errors:
 		let next_span = next_tag(&buffer, tag_span.1);
 		if next_span.0.is_none() {
 			// EoF
+			if real_text(&buffer[tag_span.1..]).is_some() {
+				let (line, col) = line_and_column(&buffer, tag_span.1);
+				return Err(errors::ParsingError::new(format!(
+					"Text outside the root element is not supported (syntax error on line {line}, column {col})"
+				)).into());
+			}
 			break
 		} else if next_span.1.is_none() {
 			// broken tag?
-- 
2.43.0


From 69f0aa87a3d18085227512865e6b2ffb55c40049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:24 +0000
Subject: [PATCH 08/23] fix: a second root element is refused instead of
 replacing the first

---
 src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 5f3ada4..0f3682f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -579,6 +579,12 @@ pub fn parse_str(xml_string: impl Into<String>) -> Result<dom::Document, errors:
 				parse_stack.pop()?;
 			} else {
 				// add new element to the stack, unless it is self-closing
+				if parse_stack.empty_stack() {
+					let (line, col) = line_and_column(&buffer, tag_span.0);
+					return Err(errors::ParsingError::new(format!(
+						"only 1 root element is allowed (syntax error on line {line}, column {col})"
+					)).into());
+				}
 				let new_element = parse_new_element(tag_def.as_str(), &buffer, &tag_span, parse_stack.top_element())?;
 				if slice.ends_with("/>") {
 					// self-closing
-- 
2.43.0


From 81130b381d33f9a3e9e68a2f867777923213b730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:24 +0000
Subject: [PATCH 09/23] fix: a second XML declaration is refused instead of
 replacing the first

---
 src/lib.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 0f3682f..43be200 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -409,8 +409,11 @@ pub fn parse_str(xml_string: impl Into<String>) -> Result<dom::Document, errors:
 			)).into());
 		}
 		let slice = &buffer[tag_start..tag_end];
-		if slice.starts_with("<?xml") {
-			if tag_span.0 != 0 {
+		if slice.starts_with("<?xml-") && decl.is_some() {
+			// processing instruction (eg <?xml-stylesheet ...?>), not to be confused with the declaration
+			eprintln!("WARNING: Ignoring {slice} (not supported outside root element)");
+		} else if slice.starts_with("<?xml") {
+			if tag_span != (0, 0) {
 				let (line, col) = line_and_column(&buffer, tag_start);
 				return Err(errors::ParsingError::new(format!(
 					"<?xml ...?> declaration must at start of XML (syntax error on line {line}, column {col})"
-- 
2.43.0


From c502588c21fa5ef6e4bfeab6369ea4c391b5bfe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:24 +0000
Subject: [PATCH 10/23] fix: check the syntax of the whole tag, not of some
 part of it

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 43be200..4db92c4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -755,7 +755,7 @@ fn check_element_tag(text: &str) -> Result<(), errors::KissXmlError> {
 		// see https://www.w3.org/TR/REC-xml/#sec-common-syn
 		let name_start_char = r#"[:A-Z_a-z\xC0-\xD6\xD8-\xF6\xF8-\x{2FF}\x{370}-\x{37D}\x{37F}-\x{1FFF}\x{200C}-\x{200D}\x{2070}-\x{218F}\x{2C00}-\x{2FEF}\x{3001}-\x{D7FF}\x{F900}-\x{FDCF}\x{FDF0}-\x{FFFD}\x{10000}-\x{EFFFF}]"#;
 		let name_char = r#"[:A-Z_a-z\xC0-\xD6\xD8-\xF6\xF8-\x{2FF}\x{370}-\x{37D}\x{37F}-\x{1FFF}\x{200C}-\x{200D}\x{2070}-\x{218F}\x{2C00}-\x{2FEF}\x{3001}-\x{D7FF}\x{F900}-\x{FDCF}\x{FDF0}-\x{FFFD}\x{10000}-\x{EFFFF}.\-0-9\xB7\x{0300}-\x{036F}\x{203F}-\x{2040}]"#;
-		let pattern = format!(r#"(?ms)</?{name_start_char}{name_char}*(:{name_start_char}{name_char}*)?(\s+{name_start_char}{name_char}*=(".*?"|'.*?'))*\s*/?>"#);
+		let pattern = format!(r#"(?ms)\A(</{name_start_char}{name_char}*\s*|<{name_start_char}{name_char}*(\s+{name_start_char}{name_char}*\s*=\s*("[^"]*"|'[^']*'))*\s*/?)>\z"#);
 		Regex::new(pattern.as_str()).unwrap()
 	});
 	match matcher.is_match(text){
-- 
2.43.0


From 1e98f3a1682e6d32376a459fcab5cebb0ed9f65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:24 +0000
Subject: [PATCH 11/23] fix: names with characters reserved in tags are refused

---
 src/dom.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dom.rs b/src/dom.rs
index 6622118..cabf77d 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -982,7 +982,7 @@ impl Element {
 	fn check_attr_name(name: &str) -> Result<(), InvalidAttributeName> {
 		let singleton = Element::ATTR_NAME_CHECKER_SINGLETON;
 		let checker = singleton.get_or_init(
-			|| Regex::new(r#"^[_a-zA-Z]\S*$"#).unwrap()
+			|| Regex::new(r#"^[_a-zA-Z][^\s<>&"'/=]*$"#).unwrap()
 		);
 		if checker.is_match(name) {
 			Ok(())
@@ -996,7 +996,7 @@ impl Element {
 	fn check_elem_name(name: &str) -> Result<(), InvalidElementName> {
 		let singleton = Element::NAME_CHECKER_SINGLETON;
 		let checker = singleton.get_or_init(
-			|| Regex::new(r#"^[_a-zA-Z]\S*$"#).unwrap()
+			|| Regex::new(r#"^[_a-zA-Z][^\s<>&"'/=]*$"#).unwrap()
 		);
 		if checker.is_match(name) {
 			Ok(())
-- 
2.43.0


From c56450ca1f5da25699c3a8e812e0252a20d424e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:24 +0000
Subject: [PATCH 12/23] fix: a namespace prefix has to be a valid name too

---
 src/dom.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dom.rs b/src/dom.rs
index cabf77d..1e63195 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -442,6 +442,10 @@ impl Element {
 		// sanity check
 		let name = name.into();
 		Element::check_elem_name(name.as_str())?;
+		match &xmlns_prefix {
+			None => {},
+			Some(prefix) => Element::check_elem_name(prefix.as_str())?
+		}
 		// first, convert attributes to <String,String> map
 		let mut attrs: HashMap<String, String> = HashMap::new();
 		match attributes {
-- 
2.43.0


From 43266a4b35e317049929865ea08480daf3158951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:24 +0000
Subject: [PATCH 13/23] fix: insert applies the namespace context to the
 inserted node

---
 src/dom.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dom.rs b/src/dom.rs
index 1e63195..112a582 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -1282,7 +1282,7 @@ impl Element {
 		self.child_nodes.insert(index, node.boxed());
 		Self::apply_xmlns_context_to_child_node(
 			self.default_namespace(), self.xmlns_context.clone(),
-			self.child_nodes.last_mut().unwrap()
+			&mut self.child_nodes[index]
 		);
 		// clean-up text nodes
 		self.cleanup_text_nodes();
-- 
2.43.0


From 6c4a791ef513a55a5ebda19007f6dc66a1fdd947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:08 +0000
Subject: [PATCH 14/23] fix: a namespace given to Element::new is declared in
 the element's attributes

---
 src/dom.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/dom.rs b/src/dom.rs
index 112a582..895382b 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -478,6 +478,17 @@ impl Element {
 				}
 			};
 		}
+		// the provided namespace overrides the attributes, and must be among them to be serialized
+		match &xmlns {
+			None => {},
+			Some(ns) => {
+				let key = match &xmlns_prefix {
+					None => "xmlns".to_string(),
+					Some(prefix) => format!("xmlns:{prefix}")
+				};
+				attrs.insert(key, ns.clone());
+			}
+		}
 		// set the XML NS from the attributes and provided args
 		let mut elem = Self {
 			name: name,
-- 
2.43.0


From 2310c1d787e325eb862050e945195ab54f646fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:35 +0000
Subject: [PATCH 15/23] fix: the default namespace is inherited through
 prefixed elements

---
 src/dom.rs | 19 +++++++++++++++----
 src/lib.rs |  2 +-
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/dom.rs b/src/dom.rs
index 895382b..eed0e0d 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -418,7 +418,9 @@ pub struct Element {
 	/// optional xmlns (if xmlns_prefix is None then the xmlns is default namespace)
 	xmlns_prefix: Option<String>,
 	/// xmlns definitions for this element, if any
-	xmlns_context: HashMap<String, String>
+	xmlns_context: HashMap<String, String>,
+	/// default namespace which the children inherit (a prefixed element passes on its parent's)
+	scope_xmlns: Option<String>
 }
 
 impl Element {
@@ -494,6 +496,7 @@ impl Element {
 			name: name,
 			child_nodes: Vec::new(),
 			xmlns_context: Element::xmlns_context_from_attributes(&attrs),
+			scope_xmlns: attrs.get("xmlns").map(String::clone),
 			attributes: attrs,
 			xmlns: xmlns.map(|s| s.to_string()),
 			xmlns_prefix: xmlns_prefix.map(|s| s.to_string())
@@ -819,6 +822,10 @@ impl Element {
 	pub(crate) fn get_namespace_context(&self) -> HashMap<String, String> {self.xmlns_context.clone()}
 	/** Sets any and all xmlns prefixes this element should inherit. This must include both those that are defined by this element as well as those defined by parent elements up the DOM tree. */
 	pub(crate) fn set_namespace_context(&mut self, parent_default_namespace: Option<String>, parent_prefixes: Option<HashMap<String, String>>) {
+		// pass the default namespace on to the children unless this element also defines one
+		if self.scope_xmlns.is_none() {
+			self.scope_xmlns = parent_default_namespace.clone();
+		}
 		// inherit default namespace unless this element also defines one
 		match self.xmlns_prefix {
 			None => {
@@ -851,6 +858,8 @@ impl Element {
 			};
 		}
 	}
+	/** The default namespace that child elements inherit, which for a prefixed element is the one it inherited (or declared) itself */
+	pub(crate) fn inheritable_namespace(&self) -> Option<String> {self.scope_xmlns.clone()}
 	/** flips the order of child nodes (non-recursive) */
 	pub(crate) fn reverse_children(&mut self) {
 		self.child_nodes.reverse();
@@ -1180,7 +1189,7 @@ impl Element {
 	}
 	/** same as [append(...)](Element::append()) but for a Box&lt;dyn Node&gt; */
 	pub fn append_boxed(&mut self, mut node: Box<dyn Node>) {
-		Self::apply_xmlns_context_to_child_node(self.default_namespace(), self.xmlns_context.clone(), &mut node);
+		Self::apply_xmlns_context_to_child_node(self.inheritable_namespace(), self.xmlns_context.clone(), &mut node);
 		self.child_nodes.push(node);
 		// clean-up text nodes
 		self.cleanup_text_nodes();
@@ -1275,7 +1284,7 @@ impl Element {
 		// then apply the xmlns context to the elements
 		for i in elem_indices {
 			Self::apply_xmlns_context_to_child_node(
-				self.default_namespace(), self.xmlns_context.clone(),
+				self.inheritable_namespace(), self.xmlns_context.clone(),
 			&mut self.child_nodes[i]
 			);
 		}
@@ -1292,7 +1301,7 @@ impl Element {
 		// Note: if this is an element, set the namespace context
 		self.child_nodes.insert(index, node.boxed());
 		Self::apply_xmlns_context_to_child_node(
-			self.default_namespace(), self.xmlns_context.clone(),
+			self.inheritable_namespace(), self.xmlns_context.clone(),
 			&mut self.child_nodes[index]
 		);
 		// clean-up text nodes
@@ -1583,6 +1592,7 @@ impl Clone for Element {
 			xmlns: self.xmlns.clone(),
 			xmlns_prefix: self.xmlns_prefix.clone(),
 			xmlns_context: self.xmlns_context.clone(),
+			scope_xmlns: self.scope_xmlns.clone(),
 		}
 	}
 }
@@ -1596,6 +1606,7 @@ impl Default for Element {
 			xmlns: None,
 			xmlns_prefix: None,
 			xmlns_context: HashMap::new(),
+			scope_xmlns: None,
 		}
 	}
 }
diff --git a/src/lib.rs b/src/lib.rs
index 4db92c4..ebe547d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -684,7 +684,7 @@ fn parse_new_element(tag_content: &str, buffer: &String, tag_span: &(usize, usiz
 	// check parent for inherited namespaces
 	let (inherited_default_namespace, inherited_xmlns_context) = match parent {
 		None => (None, None),
-		Some(parent) => (parent.default_namespace(), Some(parent.get_namespace_context()))
+		Some(parent) => (parent.inheritable_namespace(), Some(parent.get_namespace_context()))
 	};
 	if name.contains(":"){
 		let (a, b) = name.split_once(":").unwrap();
-- 
2.43.0


From c621ea3b34d1227db9eb55dc2daeeecf833389b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:48 +0000
Subject: [PATCH 16/23] fix: a namespace context reaches all descendants of an
 appended or inserted element

---
 src/dom.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/dom.rs b/src/dom.rs
index eed0e0d..3ed3d39 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -823,8 +823,10 @@ impl Element {
 	/** Sets any and all xmlns prefixes this element should inherit. This must include both those that are defined by this element as well as those defined by parent elements up the DOM tree. */
 	pub(crate) fn set_namespace_context(&mut self, parent_default_namespace: Option<String>, parent_prefixes: Option<HashMap<String, String>>) {
 		// pass the default namespace on to the children unless this element also defines one
-		if self.scope_xmlns.is_none() {
+		let mut changed = false;
+		if self.scope_xmlns.is_none() && parent_default_namespace.is_some() {
 			self.scope_xmlns = parent_default_namespace.clone();
+			changed = true;
 		}
 		// inherit default namespace unless this element also defines one
 		match self.xmlns_prefix {
@@ -843,6 +845,7 @@ impl Element {
 				for (prefix, ns) in prefixes {
 					if ! self.xmlns_context.contains_key(prefix.as_str()) {
 						let _ = &self.xmlns_context.insert(prefix, ns);
+						changed = true;
 					}
 				}
 			}
@@ -857,6 +860,14 @@ impl Element {
 				}
 			};
 		}
+		// the elements that already are below this one inherit it too
+		if changed {
+			let default_namespace = self.inheritable_namespace();
+			let prefixes = self.get_namespace_context();
+			for child in self.child_elements_mut() {
+				child.set_namespace_context(default_namespace.clone(), Some(prefixes.clone()));
+			}
+		}
 	}
 	/** The default namespace that child elements inherit, which for a prefixed element is the one it inherited (or declared) itself */
 	pub(crate) fn inheritable_namespace(&self) -> Option<String> {self.scope_xmlns.clone()}
-- 
2.43.0


From fea803dc3f8ce909d1071cd5d483add3151828b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:43 +0000
Subject: [PATCH 17/23] fix: an empty text node is dropped like any other blank
 text node

---
 src/dom.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dom.rs b/src/dom.rs
index 3ed3d39..09469b8 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -1693,7 +1693,7 @@ impl Text {
 	/// checks if this Text node contains only whitespace
 	fn is_whitespace(&self) -> bool {
 		let singleton = WSP_MATCHER_SINGLETON;
-		let wsp_matcher = singleton.get_or_init(|| Regex::new(r#"^\s+$"#).unwrap());
+		let wsp_matcher = singleton.get_or_init(|| Regex::new(r#"^\s*$"#).unwrap());
 		wsp_matcher.is_match(self.content.as_str())
 	}
 }
-- 
2.43.0


From 057e07be1cb428e2f6bc5e6c3df93a212c3f2f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:43 +0000
Subject: [PATCH 18/23] fix: text nodes that become adjacent by a removal are
 merged

---
 src/dom.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/dom.rs b/src/dom.rs
index 09469b8..14d2154 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -1327,7 +1327,10 @@ impl Element {
 		if index >= self.child_nodes.len() {
 			return Err(IndexOutOfBounds::new(index as isize, Some((0, self.child_nodes.len() as isize))));
 		}
-		Ok(self.child_nodes.remove(index))
+		let removed = self.child_nodes.remove(index);
+		// clean-up text nodes
+		self.cleanup_text_nodes();
+		Ok(removed)
 	}
 	/** Recursively removes all child nodes matching the given predicate function, returning the number of removed nodes.
 
@@ -1383,6 +1386,8 @@ impl Element {
 		for i in rm_indices {
 			self.child_nodes.remove(i);
 		}
+		// clean-up text nodes
+		self.cleanup_text_nodes();
 		return count;
 	}
 	/** Removes the Nth child element from this element, returning it as a result (or an `IndexOutOfBounds` error result if the index is out of range) */
@@ -1397,6 +1402,8 @@ impl Element {
 			return Err(IndexOutOfBounds::new(index as isize, Some((0, elems.len() as isize))));
 		}
 		let removed = self.child_nodes.remove(elems[index]);
+		// clean-up text nodes
+		self.cleanup_text_nodes();
 		Ok(removed.as_element().expect("logic error").clone())
 	}
 	/** Removes all child elements matching the given predicate function, returning the number of removed elements.
@@ -1417,6 +1424,8 @@ impl Element {
 		for i in rm_indices {
 			self.child_nodes.remove(i);
 		}
+		// clean-up text nodes
+		self.cleanup_text_nodes();
 		return count;
 	}
 
-- 
2.43.0


From e45c5bba1c4aba83cd565104d441586fff625bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:49 +0000
Subject: [PATCH 19/23] fix: names are refused when the parser would not accept
 them in a tag

---
 src/dom.rs | 4 ++--
 src/lib.rs | 7 +++++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/dom.rs b/src/dom.rs
index 14d2154..42cdfe5 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -1017,7 +1017,7 @@ impl Element {
 	fn check_attr_name(name: &str) -> Result<(), InvalidAttributeName> {
 		let singleton = Element::ATTR_NAME_CHECKER_SINGLETON;
 		let checker = singleton.get_or_init(
-			|| Regex::new(r#"^[_a-zA-Z][^\s<>&"'/=]*$"#).unwrap()
+			|| Regex::new(format!("^[_a-zA-Z]{}*$", crate::NAME_CHAR).as_str()).unwrap()
 		);
 		if checker.is_match(name) {
 			Ok(())
@@ -1031,7 +1031,7 @@ impl Element {
 	fn check_elem_name(name: &str) -> Result<(), InvalidElementName> {
 		let singleton = Element::NAME_CHECKER_SINGLETON;
 		let checker = singleton.get_or_init(
-			|| Regex::new(r#"^[_a-zA-Z][^\s<>&"'/=]*$"#).unwrap()
+			|| Regex::new(format!("^[_a-zA-Z]{}*$", crate::NAME_CHAR).as_str()).unwrap()
 		);
 		if checker.is_match(name) {
 			Ok(())
diff --git a/src/lib.rs b/src/lib.rs
index ebe547d..2260f7f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -746,6 +746,9 @@ fn strip_tag(tag: &str) -> String {
 }
 
 
+/// regex class of the characters that names consist of,
+/// see https://www.w3.org/TR/REC-xml/#sec-common-syn (but no white space: U+1680)
+pub(crate) const NAME_CHAR: &str = r#"[:A-Z_a-z\xC0-\xD6\xD8-\xF6\xF8-\x{2FF}\x{370}-\x{37D}\x{37F}-\x{167F}\x{1681}-\x{1FFF}\x{200C}-\x{200D}\x{2070}-\x{218F}\x{2C00}-\x{2FEF}\x{3001}-\x{D7FF}\x{F900}-\x{FDCF}\x{FDF0}-\x{FFFD}\x{10000}-\x{EFFFF}.\-0-9\xB7\x{0300}-\x{036F}\x{203F}-\x{2040}]"#;
 /// singleton regex matcher
 const ELEM_MATCHER_SINGLETON: OnceCell<Regex> = OnceCell::new();
 /// checks if a tag has valid syntax for an element (does not parse)
@@ -753,8 +756,8 @@ fn check_element_tag(text: &str) -> Result<(), errors::KissXmlError> {
 	let singleton = ELEM_MATCHER_SINGLETON;
 	let matcher = singleton.get_or_init(||{
 		// see https://www.w3.org/TR/REC-xml/#sec-common-syn
-		let name_start_char = r#"[:A-Z_a-z\xC0-\xD6\xD8-\xF6\xF8-\x{2FF}\x{370}-\x{37D}\x{37F}-\x{1FFF}\x{200C}-\x{200D}\x{2070}-\x{218F}\x{2C00}-\x{2FEF}\x{3001}-\x{D7FF}\x{F900}-\x{FDCF}\x{FDF0}-\x{FFFD}\x{10000}-\x{EFFFF}]"#;
-		let name_char = r#"[:A-Z_a-z\xC0-\xD6\xD8-\xF6\xF8-\x{2FF}\x{370}-\x{37D}\x{37F}-\x{1FFF}\x{200C}-\x{200D}\x{2070}-\x{218F}\x{2C00}-\x{2FEF}\x{3001}-\x{D7FF}\x{F900}-\x{FDCF}\x{FDF0}-\x{FFFD}\x{10000}-\x{EFFFF}.\-0-9\xB7\x{0300}-\x{036F}\x{203F}-\x{2040}]"#;
+		let name_start_char = r#"[:A-Z_a-z\xC0-\xD6\xD8-\xF6\xF8-\x{2FF}\x{370}-\x{37D}\x{37F}-\x{167F}\x{1681}-\x{1FFF}\x{200C}-\x{200D}\x{2070}-\x{218F}\x{2C00}-\x{2FEF}\x{3001}-\x{D7FF}\x{F900}-\x{FDCF}\x{FDF0}-\x{FFFD}\x{10000}-\x{EFFFF}]"#;
+		let name_char = NAME_CHAR;
 		let pattern = format!(r#"(?ms)\A(</{name_start_char}{name_char}*\s*|<{name_start_char}{name_char}*(\s+{name_start_char}{name_char}*\s*=\s*("[^"]*"|'[^']*'))*\s*/?)>\z"#);
 		Regex::new(pattern.as_str()).unwrap()
 	});
-- 
2.43.0


From 1c851bfc71cd64f18bf5eadd44eb78ae17a3582a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:06 +0000
Subject: [PATCH 20/23] fix: namespaces follow when an element is moved or its
 xmlns attributes change

---
 src/dom.rs | 95 ++++++++++++++++++++++--------------------------------
 1 file changed, 39 insertions(+), 56 deletions(-)

diff --git a/src/dom.rs b/src/dom.rs
index 42cdfe5..e2cd786 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -417,9 +417,9 @@ pub struct Element {
 	xmlns: Option<String>,
 	/// optional xmlns (if xmlns_prefix is None then the xmlns is default namespace)
 	xmlns_prefix: Option<String>,
-	/// xmlns definitions for this element, if any
+	/// prefixed xmlns definitions inherited from the parent elements (those of this element are in its attributes)
 	xmlns_context: HashMap<String, String>,
-	/// default namespace which the children inherit (a prefixed element passes on its parent's)
+	/// default namespace inherited from the parent elements
 	scope_xmlns: Option<String>
 }
 
@@ -495,8 +495,8 @@ impl Element {
 		let mut elem = Self {
 			name: name,
 			child_nodes: Vec::new(),
-			xmlns_context: Element::xmlns_context_from_attributes(&attrs),
-			scope_xmlns: attrs.get("xmlns").map(String::clone),
+			xmlns_context: HashMap::new(),
+			scope_xmlns: None,
 			attributes: attrs,
 			xmlns: xmlns.map(|s| s.to_string()),
 			xmlns_prefix: xmlns_prefix.map(|s| s.to_string())
@@ -819,58 +819,36 @@ impl Element {
 		}
 	}
 	/** Gets any and all xmlns prefixes relevant to this element. This includes both those that are defined by this element as well as those defined by parent elements up the DOM tree. */
-	pub(crate) fn get_namespace_context(&self) -> HashMap<String, String> {self.xmlns_context.clone()}
-	/** Sets any and all xmlns prefixes this element should inherit. This must include both those that are defined by this element as well as those defined by parent elements up the DOM tree. */
+	pub(crate) fn get_namespace_context(&self) -> HashMap<String, String> {
+		let mut context = self.xmlns_context.clone();
+		context.extend(Self::xmlns_context_from_attributes(&self.attributes));
+		context
+	}
+	/** Sets the default namespace and any and all xmlns prefixes this element inherits from the parent elements up the DOM tree (those of the element's former parent no longer apply). */
 	pub(crate) fn set_namespace_context(&mut self, parent_default_namespace: Option<String>, parent_prefixes: Option<HashMap<String, String>>) {
-		// pass the default namespace on to the children unless this element also defines one
-		let mut changed = false;
-		if self.scope_xmlns.is_none() && parent_default_namespace.is_some() {
-			self.scope_xmlns = parent_default_namespace.clone();
-			changed = true;
-		}
-		// inherit default namespace unless this element also defines one
-		match self.xmlns_prefix {
-			None => {
-				match self.default_namespace() {
-					None => self.xmlns = parent_default_namespace,
-					Some(_) => {/* do nothing */}
-				}
-			}
-			Some(_) => {/* do nothing */}
+		let parent_prefixes = parent_prefixes.unwrap_or_default();
+		if self.scope_xmlns != parent_default_namespace || self.xmlns_context != parent_prefixes {
+			self.scope_xmlns = parent_default_namespace;
+			self.xmlns_context = parent_prefixes;
+			self.update_namespaces();
 		}
-		// add prefixed namespaces (except where already defined locally)
-		match parent_prefixes {
-			None => {}
-			Some(prefixes) => {
-				for (prefix, ns) in prefixes {
-					if ! self.xmlns_context.contains_key(prefix.as_str()) {
-						let _ = &self.xmlns_context.insert(prefix, ns);
-						changed = true;
-					}
-				}
-			}
-		}
-		// set this namespace if a prefix was specified without xmlns def attribute
-		if self.xmlns.is_none() {
-			match &self.xmlns_prefix {
-				None => {}
-				Some(prefix) => {
-					// get prefix namespace from context
-					self.xmlns = self.xmlns_context.get(prefix).map(String::clone);
-				}
-			};
-		}
-		// the elements that already are below this one inherit it too
-		if changed {
-			let default_namespace = self.inheritable_namespace();
-			let prefixes = self.get_namespace_context();
-			for child in self.child_elements_mut() {
-				child.set_namespace_context(default_namespace.clone(), Some(prefixes.clone()));
-			}
+	}
+	/** Determines the namespace of this element and of the elements below it from the xmlns definitions of this element and its parents */
+	fn update_namespaces(&mut self) {
+		let default_namespace = self.inheritable_namespace();
+		let prefixes = self.get_namespace_context();
+		self.xmlns = match &self.xmlns_prefix {
+			None => default_namespace.clone(),
+			Some(prefix) => prefixes.get(prefix).map(String::clone)
+		};
+		for child in self.child_elements_mut() {
+			child.set_namespace_context(default_namespace.clone(), Some(prefixes.clone()));
 		}
 	}
 	/** The default namespace that child elements inherit, which for a prefixed element is the one it inherited (or declared) itself */
-	pub(crate) fn inheritable_namespace(&self) -> Option<String> {self.scope_xmlns.clone()}
+	pub(crate) fn inheritable_namespace(&self) -> Option<String> {
+		self.attributes.get("xmlns").or(self.scope_xmlns.as_ref()).map(String::clone)
+	}
 	/** flips the order of child nodes (non-recursive) */
 	pub(crate) fn reverse_children(&mut self) {
 		self.child_nodes.reverse();
@@ -1006,7 +984,9 @@ impl Element {
 		let n: String = attr_name.into();
 		Element::check_attr_name(n.as_str())?;
 		let v: String = value.into();
+		let is_xmlns = n.starts_with("xmlns");
 		self.attributes.insert(n, v);
+		if is_xmlns {self.update_namespaces();}
 		Ok(())
 	}
 
@@ -1042,11 +1022,14 @@ impl Element {
 	/** Deletes an attribute from this element */
 	pub fn remove_attr(&mut self, attr_name: impl Into<String>) -> Option<String> {
 		let n: String = attr_name.into();
-		self.attributes.remove(&n)
+		let removed = self.attributes.remove(&n);
+		if n.starts_with("xmlns") {self.update_namespaces();}
+		removed
 	}
 	/** Deletes all attributes from this element */
 	pub fn clear_attributes(&mut self) {
-		self.attributes.clear()
+		self.attributes.clear();
+		self.update_namespaces();
 	}
 	/**
 	Performs a recursive search of all child nodes of this element (and all children of child elements, etc), returning an iterator of all nodes matching the given predicate.
@@ -1200,7 +1183,7 @@ impl Element {
 	}
 	/** same as [append(...)](Element::append()) but for a Box&lt;dyn Node&gt; */
 	pub fn append_boxed(&mut self, mut node: Box<dyn Node>) {
-		Self::apply_xmlns_context_to_child_node(self.inheritable_namespace(), self.xmlns_context.clone(), &mut node);
+		Self::apply_xmlns_context_to_child_node(self.inheritable_namespace(), self.get_namespace_context(), &mut node);
 		self.child_nodes.push(node);
 		// clean-up text nodes
 		self.cleanup_text_nodes();
@@ -1295,7 +1278,7 @@ impl Element {
 		// then apply the xmlns context to the elements
 		for i in elem_indices {
 			Self::apply_xmlns_context_to_child_node(
-				self.inheritable_namespace(), self.xmlns_context.clone(),
+				self.inheritable_namespace(), self.get_namespace_context(),
 			&mut self.child_nodes[i]
 			);
 		}
@@ -1312,7 +1295,7 @@ impl Element {
 		// Note: if this is an element, set the namespace context
 		self.child_nodes.insert(index, node.boxed());
 		Self::apply_xmlns_context_to_child_node(
-			self.inheritable_namespace(), self.xmlns_context.clone(),
+			self.inheritable_namespace(), self.get_namespace_context(),
 			&mut self.child_nodes[index]
 		);
 		// clean-up text nodes
-- 
2.43.0


From d162a651c9a2b500c7049561596abd5a87836194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:40 +0000
Subject: [PATCH 21/23] fix: quotes and tags in comments inside a document type
 definition are not markup

---
 src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 2260f7f..a186a9a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -861,7 +861,11 @@ fn nested_quote_aware_find_close(text: &str, from: usize) -> Option<usize> {
 	let mut depth: i32 = 0;
 	let mut in_quote = false;
 	let mut quote_char = '\0';
+	let mut skip_to = from;
 	for (i, c) in text[from..].char_indices() {
+		if from+i < skip_to {
+			continue;
+		}
 		if in_quote {
 			if c == quote_char { // end of quoted field
 				in_quote = false;
@@ -873,6 +877,9 @@ fn nested_quote_aware_find_close(text: &str, from: usize) -> Option<usize> {
 			} else if c == '\'' { // start of single-quoted field
 				quote_char = '\'';
 				in_quote = true;
+			} else if text[(from + i)..].starts_with("<!--") {
+				// nested comment, its content (which may have unbalanced quotes or tags) means nothing
+				skip_to = from+i+4 + text[(from + i + 4)..].find("-->")? + 3;
 			} else if c == '<' {
 				depth += 1;
 			} else if c == '>' {
-- 
2.43.0


From 9c11231c22a5f2190684f1635445740f30bf86d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:42 +0000
Subject: [PATCH 22/23] fix: declarations and document type definitions that
 are not one construct are refused

---
 src/dom.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dom.rs b/src/dom.rs
index e2cd786..7ca4546 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -2065,7 +2065,7 @@ impl Declaration {
 	pub fn from_str(decl: &str) -> Result<Self, KissXmlError> {
 		// parsing XML declarations is beyond the scope of the kiss_xml crate
 		let buffer: String = decl.trim().to_string();
-		if buffer.len() >= 4 && buffer.starts_with("<?") && buffer.ends_with("?>"){
+		if buffer.starts_with("<?xml") && crate::quote_aware_find(buffer.as_str(), "?>", 2) == Some(buffer.len().saturating_sub(2)) {
 			Ok(Self{decl_str: buffer.strip_prefix("<?").unwrap().strip_suffix("?>").unwrap().to_string()})
 		} else {
 			Err(ParsingError::new("Invalid XML declaration syntax").into())
@@ -2108,7 +2108,7 @@ impl DTD {
 	pub fn from_string(text: impl Into<String>) -> Result<DTD, KissXmlError> {
 		// parsing DTDs is beyond the scope of the kiss_xml crate
 		let buffer: String = text.into().trim().to_string();
-		if buffer.starts_with("<!DOCTYPE") && buffer.ends_with(">"){
+		if buffer.starts_with("<!DOCTYPE") && crate::nested_quote_aware_find_close(buffer.as_str(), 2) == Some(buffer.len() - 1) {
 			Ok(Self{dtd_str: buffer.strip_prefix("<!DOCTYPE").unwrap().strip_suffix(">").unwrap().to_string()})
 		} else {
 			Err(ParsingError::new("Invalid DTD syntax").into())
-- 
2.43.0


From 5514db6c6410b09361dd93c5671ca9dfcc219821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:04 +0000
Subject: [PATCH 23/23] fix: order only xmlns declarations before the other
 attributes

---
 src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index a186a9a..2078300 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -343,9 +343,10 @@ pub(crate) fn attribute_order(kv_tup1: &(&String, &String), kv_tup2: &(&String,
 	if a == b {
 		return kv_tup1.1.cmp(&kv_tup2.1);
 	}
-	if a.starts_with("xmlns") && !b.starts_with("xmlns") {
+	let is_decl = |name: &str| name == "xmlns" || name.starts_with("xmlns:");
+	if is_decl(a) && !is_decl(b) {
 		return Ordering::Less;
-	} else if !a.starts_with("xmlns") && b.starts_with("xmlns") {
+	} else if !is_decl(a) && is_decl(b) {
 		return Ordering::Greater;
 	} else {
 		return a.cmp(&b);
-- 
2.43.0

