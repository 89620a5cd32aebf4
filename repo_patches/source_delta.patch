From aa4c62d343a1c5f5b858e5e730502eb17ea55f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:59 +0000
Subject: [PATCH 01/53] fix: parse processor begin/end timestamps with the
 seconds format (was '$S')

---
 src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index ee16ac6..2c57d92 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -487,13 +487,13 @@ impl Processor {
                     b"host" => { processor.host = value; },
                     b"user" => { processor.user = value; },
                     b"begindatetime" => {
-                        match NaiveDateTime::parse_from_str(&value, "%Y-%m-%dT%H:%M:$S") {
+                        match NaiveDateTime::parse_from_str(&value, "%Y-%m-%dT%H:%M:%S") {
                             Ok(dt) => processor.begindatetime = Some(dt),
                             Err(e) => return Err(FoliaError::ParseError(format!("Unable to parse begindatetime {} -> {}",value, e)))
                         };
                     },
                     b"enddatetime" => {
-                        match NaiveDateTime::parse_from_str(&value, "%Y-%m-%dT%H:%M:$S") {
+                        match NaiveDateTime::parse_from_str(&value, "%Y-%m-%dT%H:%M:%S") {
                             Ok(dt) => processor.enddatetime = Some(dt),
                             Err(e) => return Err(FoliaError::ParseError(format!("Unable to parse enddatetime {} -> {}",value, e)))
                         };
-- 
2.43.0


From 9f3c069200339c9c414f6b211a0e07419c2428a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:10 +0000
Subject: [PATCH 02/53] fix: a document that ends inside its body is an error,
 not a (partial) document

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 2c57d92..9de8b4b 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -439,7 +439,7 @@ impl Document {
                         }
                     },
                     (_, Event::Eof) => {
-                        break;
+                        return Err(FoliaError::ParseError("Premature end of document".to_string()));
                     }
                     (_,_) => {}
                 }
-- 
2.43.0


From 1fa5ae5c35eb338a7291364af85d3905f964ce1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:59 +0000
Subject: [PATCH 03/53] fix: report malformed attributes and undecodable names
 instead of panicking while parsing

---
 src/attrib.rs |  2 +-
 src/parser.rs | 58 +++++++++++++++++++++++++--------------------------
 2 files changed, 30 insertions(+), 30 deletions(-)

diff --git a/src/attrib.rs b/src/attrib.rs
index 1b8508d..7499a64 100644
--- a/src/attrib.rs
+++ b/src/attrib.rs
@@ -372,7 +372,7 @@ impl Attribute {
                     if attrib_key.contains(&58) { //58 is a colon, we assume alien namespaces and ignore it
                         Ok(Attribute::Ignore)
                     } else {
-                        Err(FoliaError::ParseError(format!("Unknown attribute: '{}'", std::str::from_utf8(attrib.key).expect("unable to parse attribute name"))))
+                        Err(FoliaError::ParseError(format!("Unknown attribute: '{}'", String::from_utf8_lossy(attrib.key))))
                     }
                 }
             }
diff --git a/src/parser.rs b/src/parser.rs
index 9de8b4b..21c0bb9 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -53,13 +53,13 @@ impl Document {
                     match (*ns, e.local_name())  {
                         (Some(ns), b"FoLiA") if ns == NSFOLIA => {
                             for attrib in e.attributes() {
-                                let attrib: quick_xml::events::attributes::Attribute = attrib.unwrap();
+                                let attrib: quick_xml::events::attributes::Attribute = attrib?;
                                 match attrib.key {
                                     b"xml:id" => {
-                                        doc.id = attrib.unescape_and_decode_value(&reader).expect("Parsing ID")
+                                        doc.id = attrib.unescape_and_decode_value(&reader)?
                                     }
                                     b"version" => {
-                                        doc.version = attrib.unescape_and_decode_value(&reader).expect("Parsing version")
+                                        doc.version = attrib.unescape_and_decode_value(&reader)?
                                     },
                                     b"generator" | b"form " => {},  //we can ignore these
                                     _ => {}
@@ -110,14 +110,14 @@ impl Document {
                         (Some(ns), b"annotator") if ns == NSFOLIA && parsedeclarations => {
                             let mut processor_id: Option<String> = None;
                             for attrib in e.attributes() {
-                                let attrib = attrib.expect("unwrapping annotator attribute");
+                                let attrib = attrib?;
                                 if let Ok(value) = attrib.unescape_and_decode_value(&reader) {
                                     match attrib.key {
                                         b"processor" => {
                                             processor_id = Some(value.clone());
                                         },
                                         otherwise => {
-                                            eprintln!("WARNING: Unhandled attribute annotator/@{:?}",str::from_utf8(otherwise).unwrap());
+                                            eprintln!("WARNING: Unhandled attribute annotator/@{:?}",String::from_utf8_lossy(otherwise));
                                         }
                                     }
                                 }
@@ -139,7 +139,7 @@ impl Document {
                     match (*ns, e.local_name())  {
                         (Some(ns), b"metadata") if ns == NSFOLIA => {
                             for attrib in e.attributes() {
-                                let attrib = attrib.expect("unwrapping metadata attribute");
+                                let attrib = attrib?;
                                 if let Ok(value) = attrib.unescape_and_decode_value(&reader) {
                                     match attrib.key {
                                         b"src" => {
@@ -149,7 +149,7 @@ impl Document {
                                             doc.metadata.metadatatype = Some(value);
                                         },
                                         otherwise => {
-                                            eprintln!("WARNING: Unhandled attribute metadata/@{:?}",str::from_utf8(otherwise).unwrap());
+                                            eprintln!("WARNING: Unhandled attribute metadata/@{:?}",String::from_utf8_lossy(otherwise));
                                         }
                                     }
                                 }
@@ -163,7 +163,7 @@ impl Document {
                         },
                         (Some(ns), b"submetadata") if ns == NSFOLIA => {
                             for attrib in e.attributes() {
-                                let attrib = attrib.expect("unwrapping submetadata attribute");
+                                let attrib = attrib?;
                                 if let Ok(value) = attrib.unescape_and_decode_value(&reader) {
                                     match attrib.key {
                                         b"xml:id" => {
@@ -173,7 +173,7 @@ impl Document {
                                             submetadata_type = Some(value.clone());
                                         },
                                         otherwise => {
-                                            eprintln!("WARNING: Unhandled attribute submetadata/@{:?}",str::from_utf8(otherwise).unwrap());
+                                            eprintln!("WARNING: Unhandled attribute submetadata/@{:?}",String::from_utf8_lossy(otherwise));
                                         }
                                     }
                                 }
@@ -184,14 +184,14 @@ impl Document {
                         },
                         (Some(ns), b"meta") if ns == NSFOLIA => {
                             for attrib in e.attributes() {
-                                let attrib = attrib.expect("unwrapping meta attribute");
+                                let attrib = attrib?;
                                 if let Ok(value) = attrib.unescape_and_decode_value(&reader) {
                                     match attrib.key {
                                         b"id" | b"xml:id" => {
                                             meta_id = Some(value.clone());
                                         },
                                         otherwise => {
-                                            eprintln!("WARNING: Unhandled attribute meta/@{:?}",str::from_utf8(otherwise).unwrap());
+                                            eprintln!("WARNING: Unhandled attribute meta/@{:?}",String::from_utf8_lossy(otherwise));
                                         }
                                     }
                                 }
@@ -215,13 +215,13 @@ impl Document {
                             declaration_key = Some(result);
                         },
                         (Some(ns), tag) if ns == NSFOLIA => {
-                            return Err(FoliaError::ParseError(format!("Unexpected FoLiA element: {}",  str::from_utf8(tag).expect("decoding tag from utf-8")).to_string()));
+                            return Err(FoliaError::ParseError(format!("Unexpected FoLiA element: {}",  String::from_utf8_lossy(tag)).to_string()));
                         },
                         (Some(ns),tag) if ns != NSFOLIA => {
-                            return Err(FoliaError::ParseError(format!("Expected FoLiA namespace, got namespace {} with tag {}", str::from_utf8(ns).expect("decoding namespace from utf-8"), str::from_utf8(tag).expect("decoding XML tag from utf-8")).to_string()));
+                            return Err(FoliaError::ParseError(format!("Expected FoLiA namespace, got namespace {} with tag {}", String::from_utf8_lossy(ns), String::from_utf8_lossy(tag)).to_string()));
                         }
                         (None,tag) => {
-                            return Err(FoliaError::ParseError(format!("Expected FoLiA namespace, got no namespace with tag {}",  str::from_utf8(tag).expect("decoding tag from utf-8")).to_string()));
+                            return Err(FoliaError::ParseError(format!("Expected FoLiA namespace, got no namespace with tag {}",  String::from_utf8_lossy(tag)).to_string()));
                         }
                         _ => {
                             unreachable!()
@@ -312,10 +312,10 @@ impl Document {
                             //just ignore everything else for now
                         },*/
                         (Some(ns),tag) => {
-                            return Err(FoliaError::ParseError(format!("Expected FoLiA namespace, got namespace {} with tag {}", str::from_utf8(ns).expect("decoding namespace from utf-8"), str::from_utf8(tag).expect("decoding XML tag from utf-8")).to_string()));
+                            return Err(FoliaError::ParseError(format!("Expected FoLiA namespace, got namespace {} with tag {}", String::from_utf8_lossy(ns), String::from_utf8_lossy(tag)).to_string()));
                         }
                         (None,tag) => {
-                            return Err(FoliaError::ParseError(format!("Expected FoLiA namespace, got no namespace with tag {}",  str::from_utf8(tag).expect("decoding tag from utf-8")).to_string()));
+                            return Err(FoliaError::ParseError(format!("Expected FoLiA namespace, got no namespace with tag {}",  String::from_utf8_lossy(tag)).to_string()));
                         }
                     }
                 },
@@ -347,7 +347,7 @@ impl Document {
                     (Some(ns), Event::Empty(ref e)) if ns == NSFOLIA => {
                         //EMPTY TAG FOUND (<tag/>)
                         //eprintln!("EMPTY TAG: {}", str::from_utf8(e.local_name()).expect("Tag is not valid utf-8"));
-                        let tagname = str::from_utf8(e.local_name()).expect("tag is not valid utf-8");
+                        let tagname = String::from_utf8_lossy(e.local_name());
                         let (elem, children) = ElementData::parse(reader, e)
                                                 .map_err(FoliaError::add_parseerror_string(
                                                          format!("Error parsing <{}/>", tagname))  )?;
@@ -369,7 +369,7 @@ impl Document {
                     (Some(ns), Event::Start(ref e)) if ns == NSFOLIA => {
                         //START TAG FOUND (<tag>)
                         //eprintln!("START TAG: {}", str::from_utf8(e.local_name()).expect("Tag is not valid utf-8"));
-                        let tagname = str::from_utf8(e.local_name()).expect("tag is not valid utf-8");
+                        let tagname = String::from_utf8_lossy(e.local_name());
                         let (elem, children) = ElementData::parse(reader, e)
                                                 .map_err(FoliaError::add_parseerror_string(
                                                          format!("Error parsing <{}>", tagname))  )?;
@@ -394,8 +394,8 @@ impl Document {
                         if let Some(elem) = self.get_elementdata(key) {
 
                             //verify we actually close the right thing (otherwise we have malformed XML)
-                            let elementname = str::from_utf8(e.local_name()).expect("Decoding XML tag from utf-8");
-                            let elementtype = ElementType::from_str(elementname)?;
+                            let elementname = String::from_utf8_lossy(e.local_name());
+                            let elementtype = ElementType::from_str(&elementname)?;
                             if elem.elementtype != elementtype {
                                 return Err(FoliaError::ParseError(format!("Malformed XML? Invalid element closed: {}, expected: {}", elementname, elem.elementtype.to_string() )));
                             }
@@ -476,7 +476,7 @@ impl Processor {
         let mut processor = Processor::default();
         for attrib in event.attributes()  {
             if let Ok(attrib) = attrib {
-                let value = attrib.unescape_and_decode_value(&reader).expect("Parsing attribute value for processor");
+                let value = attrib.unescape_and_decode_value(&reader)?;
                 match  attrib.key {
                     b"xml:id" => { processor.id = value; },
                     b"name" => { processor.name = value; },
@@ -511,7 +511,7 @@ impl Processor {
                         }
                     }},
                     tag => {
-                        return Err(FoliaError::ParseError(format!("Unknown attribute on processor, got: {:?}", str::from_utf8(tag).unwrap() )));
+                        return Err(FoliaError::ParseError(format!("Unknown attribute on processor, got: {:?}", String::from_utf8_lossy(tag) )));
                     }
                 }
             }
@@ -525,7 +525,7 @@ impl ElementData {
         let mut attributes: Vec<Attribute> = Vec::new();
         let mut children: Vec<ElementData> = Vec::new();
         'outerloop: for attrib in attribiter {
-            let attrib = &attrib.expect("Parsing XML attribute");
+            let attrib = &attrib?;
             match Attribute::parse(&reader, attrib) {
                 //normal behaviour
                 Ok(attrib) => { attributes.push(attrib); },
@@ -539,7 +539,7 @@ impl ElementData {
                             if let AcceptedData::AcceptElementType(acceptedtype) = accepteddata {
                                 if featuregroup.contains(*acceptedtype) {
                                     let properties = Properties::new(*acceptedtype);
-                                    if properties.subset.is_some() && str::from_utf8(attrib.key).unwrap() == properties.subset.unwrap() {
+                                    if properties.subset.is_some() && attrib.key == properties.subset.unwrap().as_bytes() {
                                         let child = ElementData::new(ElementType::Feature).
                                                                 with_attribs(vec![
                                                                     Attribute::Subset(properties.subset.unwrap().to_string()),
@@ -563,8 +563,8 @@ impl ElementData {
     ///Parse this element from XML, note that this does not handle the child elements, those are
     ///appended by the main parser in Document::parse_body()
     pub(crate) fn parse<R: BufRead>(reader: &Reader<R>, event: &quick_xml::events::BytesStart) -> Result<(ElementData,Vec<ElementData>), FoliaError> {
-        let elementname = str::from_utf8(event.local_name()).expect("utf-8 decoding");
-        let elementtype = ElementType::from_str(elementname)?;
+        let elementname = String::from_utf8_lossy(event.local_name());
+        let elementtype = ElementType::from_str(&elementname)?;
         let (attributes, children) = ElementData::parse_attributes(reader, event.attributes(), elementtype)
                                      .map_err(FoliaError::add_parseerror_string(format!("Error parsing attributes for {}", elementname)))?;
         Ok((ElementData::new(elementtype).with_attribs(attributes), children))
@@ -573,12 +573,12 @@ impl ElementData {
 
 impl Declaration {
     pub(crate) fn parse<R: BufRead>(reader: &Reader<R>, event: &quick_xml::events::BytesStart, tag: &[u8]) -> Result<Declaration, FoliaError> {
-        let declaration_type = get_declaration_type(str::from_utf8(tag).expect("utf-8 decoding"))?;
+        let declaration_type = get_declaration_type(&String::from_utf8_lossy(tag))?;
         let mut set: Option<String> = None;
         let mut alias: Option<String> = None;
         let mut format: Option<String> = None;
         for attrib in event.attributes() {
-            let attrib = attrib.expect("unwrapping declaration attribute");
+            let attrib = attrib?;
             if let Ok(value) = attrib.unescape_and_decode_value(&reader) {
                 match attrib.key {
                     b"set" => {
@@ -597,7 +597,7 @@ impl Declaration {
                         //TODO: handle old-style default
                     },
                     otherwise => {
-                        eprintln!("WARNING: Unhandled attribute on declaration: @{:?}",str::from_utf8(otherwise).unwrap());
+                        eprintln!("WARNING: Unhandled attribute on declaration: @{:?}",String::from_utf8_lossy(otherwise));
                     }
                 }
             }
-- 
2.43.0


From 9ee33f49e88b1da8d13b842c9701ea8e708f65fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:20 +0000
Subject: [PATCH 04/53] fix: refuse elements with an ID that is already in use

They silently replaced or re-parented the existing element, up to creating cycles.
---
 src/document.rs |  5 +++++
 src/store.rs    | 14 ++++++++++----
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index 066c882..9b10a38 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -779,6 +779,11 @@ impl Store<ElementData,ElementKey> for Document {
         self.elementstore.items.iter()
     }
 
+    ///Element IDs must be unique, an element never replaces or doubles for another one
+    fn existing(&self, key: ElementKey) -> Result<ElementKey, FoliaError> {
+        Err(FoliaError::ValidationError(format!("Duplicate ID: {}", self.get_elementdata(key).and_then(|e| e.id()).unwrap_or(""))))
+    }
+
     ///Actively encode element for storage, this encodes attributes that need to be encoded (such as set,class,processor), and adds them to their respective stores.
     ///It does not handle relations between elements (data/children and parent)
     ///nor does it add the element itself to the store
diff --git a/src/store.rs b/src/store.rs
index 9dfd452..425c00d 100644
--- a/src/store.rs
+++ b/src/store.rs
@@ -53,14 +53,20 @@ pub trait Store<T,Key> where T: Storable<Key>,
        Ok(item) //we assume the item does not need to be decoded by default
     }
 
+    ///Called when an item is added whose ID is already in the store, by default the existing item
+    ///is reused
+    fn existing(&self, key: Key) -> Result<Key,FoliaError> {
+        Ok(key)
+    }
+
     ///Add a new item to the store (takes ownership)
     fn add(&mut self, mut item: T, context: Option<Key>) -> Result<Key,FoliaError> {
-        if item.encodable() {
-            item = self.encode(item, context)?;
+        if let Some(key) = self.get_key(&item) {
+            return self.existing(key);
         }
 
-        if let Some(key) = self.get_key(&item) {
-            return Ok(key);
+        if item.encodable() {
+            item = self.encode(item, context)?;
         }
 
         //Get the ID fo the item (if any)
-- 
2.43.0


From 194d04b27674aaa5925a563f458733ac324f01cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:37 +0000
Subject: [PATCH 05/53] fix: refuse to attach an element under itself or its
 own descendants

---
 src/document.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/document.rs b/src/document.rs
index 9b10a38..2a1e5c3 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -271,6 +271,11 @@ impl Document {
             return Err(FoliaError::InternalError(format!("Parent element does not exist: {}", parent_key)));
         };
 
+        //ensure the tree remains a tree, an element can not end up under itself
+        if parent_key == child_key || self.ancestors_by_key(parent_key, Selector::elements()).any(|ancestor| ancestor.key() == Some(child_key)) {
+            return Err(FoliaError::ValidationError(format!("Can't attach element {} under itself (parent {})", child_key, parent_key)));
+        }
+
         let oldparent_key = if let Some(child) = self.get_mut(child_key) {
             //add the new parent and return the old parent
             let tmp = child.parent_key();
-- 
2.43.0


From 9295500f8ff695893d1d515cb0acf54f035d757e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:39 +0000
Subject: [PATCH 06/53] fix: inferring the set of a layer no longer drops its
 other attributes (xml:id)

---
 src/document.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/document.rs b/src/document.rs
index 2a1e5c3..606b334 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -371,7 +371,9 @@ impl Document {
         }
         if let Some(add_attributes) = add_attributes {
             if let Some(element) = self.get_mut_elementdata(element_key) {
-                element.set_attribs(add_attributes);
+                for attrib in add_attributes {
+                    element.set_attrib(attrib);
+                }
             }
         }
         Ok(())
-- 
2.43.0


From 783a0c5732cee6556786cf92ee55f4f849bceb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:07 +0000
Subject: [PATCH 07/53] fix: do not escape the content of XML comments on
 serialisation

Comments are read verbatim, so every save added another level of escaping.
---
 src/serialiser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serialiser.rs b/src/serialiser.rs
index 128c497..ce22ed1 100644
--- a/src/serialiser.rs
+++ b/src/serialiser.rs
@@ -289,7 +289,7 @@ impl Document {
                 },
                 DataType::Comment(comment) => {
                     //eprintln!("[DEBUG] (processing comment)");
-                    let text = BytesText::from_plain_str(comment.as_str());
+                    let text = BytesText::from_escaped_str(comment.as_str());
                     writer.write_event(Event::Comment(text)).map_err(to_serialisation_error)?;
                 }
                 DataType::SpanReference(_) | DataType::AddElement(_) => {
-- 
2.43.0


From 50dcbbd2a8bd324dd783122d81a4647264e8ea75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:09 +0000
Subject: [PATCH 08/53] fix: read and write submetadata sections

Reading never created the section and writing never opened or closed it, so its entries leaked
into the main metadata (or were lost).
---
 src/parser.rs     | 14 ++++++++------
 src/serialiser.rs |  6 +++++-
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 21c0bb9..511add4 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -86,7 +86,6 @@ impl Document {
         let mut parsedeclarations = false;
         let mut parseprovenance = false;
         let mut submetadata: Option<String> = None;
-        let mut submetadata_type: Option<String> = None;
         let mut text: Option<String> = None;
         let mut meta_id: Option<String> = None;
         let mut declaration_key: Option<DecKey> = None;
@@ -162,6 +161,7 @@ impl Document {
                             parseprovenance = true;
                         },
                         (Some(ns), b"submetadata") if ns == NSFOLIA => {
+                            let mut data = Metadata::default();
                             for attrib in e.attributes() {
                                 let attrib = attrib?;
                                 if let Ok(value) = attrib.unescape_and_decode_value(&reader) {
@@ -170,7 +170,10 @@ impl Document {
                                             submetadata = Some(value.clone());
                                         },
                                         b"type" => {
-                                            submetadata_type = Some(value.clone());
+                                            data.metadatatype = Some(value.clone());
+                                        },
+                                        b"src" => {
+                                            data.src = Some(value.clone());
                                         },
                                         otherwise => {
                                             eprintln!("WARNING: Unhandled attribute submetadata/@{:?}",String::from_utf8_lossy(otherwise));
@@ -178,7 +181,9 @@ impl Document {
                                     }
                                 }
                             }
-                            if submetadata.is_none() {
+                            if let Some(submetadata_id) = &submetadata {
+                                doc.submetadata.insert(submetadata_id.clone(), data);
+                            } else {
                                 return Err(FoliaError::ParseError("Submetadata has no ID".to_string()));
                             }
                         },
@@ -264,9 +269,6 @@ impl Document {
                                 if let Some(submetadata_id) = &submetadata {
                                     let submetadata_opt: Option<&mut Metadata> = doc.submetadata.get_mut(submetadata_id);
                                     if let Some(submetadata) = submetadata_opt {
-                                        if submetadata.metadatatype.is_none() && submetadata_type.is_some() {
-                                            submetadata.metadatatype = submetadata_type.clone();
-                                        }
                                         submetadata.data.insert(meta_id.clone(), text.clone());
                                     }
                                 } else {
diff --git a/src/serialiser.rs b/src/serialiser.rs
index ce22ed1..eab9799 100644
--- a/src/serialiser.rs
+++ b/src/serialiser.rs
@@ -81,9 +81,11 @@ impl Document {
             if let Some(metadatatype) = &submetadata.metadatatype {
                 submetadata_start.push_attribute(("type", metadatatype.as_str() ));
             }
-            if let Some(src) = &self.metadata.src {
+            if let Some(src) = &submetadata.src {
                 submetadata_start.push_attribute(("src", src.as_str() ));
             }
+            writer.write_event(Event::Start(submetadata_start)).map_err(to_serialisation_error)?;
+            writer.write_event(Event::Text(BytesText::from_plain(NL))).map_err(to_serialisation_error)?;
             for (meta_id, value) in submetadata.data.iter() {
                 let mut meta_start = BytesStart::borrowed_name(b"meta");
                 meta_start.push_attribute(("id", meta_id.as_str() ));
@@ -92,6 +94,8 @@ impl Document {
                 writer.write_event(Event::End(BytesEnd::borrowed(b"meta"))).map_err(to_serialisation_error)?;
                 writer.write_event(Event::Text(BytesText::from_plain(NL))).map_err(to_serialisation_error)?;
             }
+            writer.write_event(Event::End(BytesEnd::borrowed(b"submetadata"))).map_err(to_serialisation_error)?;
+            writer.write_event(Event::Text(BytesText::from_plain(NL))).map_err(to_serialisation_error)?;
         }
         writer.write_event(Event::End(BytesEnd::borrowed(b"metadata"))).map_err(to_serialisation_error)?;
         writer.write_event(Event::Text(BytesText::from_plain(NL))).map_err(to_serialisation_error)?;
-- 
2.43.0


From a8cb551b6d97ebc8b7635ef5bacc81f057d0400d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:43 +0000
Subject: [PATCH 09/53] fix: read declarations that are self-closing elements

These are what the serialiser writes for declarations without processors.
---
 src/parser.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 511add4..5c554fe 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -130,6 +130,11 @@ impl Document {
                                 }
                             }
                         },
+                        (Some(ns), tag) if ns == NSFOLIA && parsedeclarations => {
+                            //declaration without annotators
+                            let declaration = Declaration::parse(&reader, e, tag).map_err(FoliaError::add_parseerror("Error parsing declaration"))?;
+                            doc.add_declaration(declaration).map_err(FoliaError::add_parseerror("Error adding declaration"))?;
+                        },
                         _ => {
                         }
                     }
-- 
2.43.0


From 6cb2bb219710167683538149d8838dafeb3a7777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:44 +0000
Subject: [PATCH 10/53] fix: read metadata values that are empty or consist of
 several text/CDATA parts

---
 src/parser.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 5c554fe..20ef9f3 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -193,6 +193,7 @@ impl Document {
                             }
                         },
                         (Some(ns), b"meta") if ns == NSFOLIA => {
+                            meta_id = None;
                             for attrib in e.attributes() {
                                 let attrib = attrib?;
                                 if let Ok(value) = attrib.unescape_and_decode_value(&reader) {
@@ -240,7 +241,10 @@ impl Document {
                 },
                 (None, Event::Text(s)) => {
                     let text_s = s.unescape_and_decode(reader)?;
-                    text = Some(text_s);
+                    text.get_or_insert_with(String::new).push_str(&text_s);
+                },
+                (None, Event::CData(s)) => {
+                    text.get_or_insert_with(String::new).push_str(reader.decode(&s)?);
                 },
                 (ref ns, Event::End(ref e)) => {
                     match (*ns, e.local_name())  {
@@ -270,14 +274,15 @@ impl Document {
                             processor_stack.pop();
                         },
                         (Some(ns), b"meta") if ns == NSFOLIA => {
-                            if let (Some(text), Some(meta_id)) = (&text, &meta_id) {
+                            if let Some(meta_id) = &meta_id {
+                                let text = text.take().unwrap_or_default();
                                 if let Some(submetadata_id) = &submetadata {
                                     let submetadata_opt: Option<&mut Metadata> = doc.submetadata.get_mut(submetadata_id);
                                     if let Some(submetadata) = submetadata_opt {
-                                        submetadata.data.insert(meta_id.clone(), text.clone());
+                                        submetadata.data.insert(meta_id.clone(), text);
                                     }
                                 } else {
-                                    doc.metadata.data.insert(meta_id.clone(), text.clone());
+                                    doc.metadata.data.insert(meta_id.clone(), text);
                                 }
                             }
                         },
-- 
2.43.0


From ad37d700aaf0e50e195bdde9db0ccc39efef2288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:12 +0000
Subject: [PATCH 11/53] fix: read metadata, submetadata and meta elements that
 are self-closing

---
 src/parser.rs | 75 +++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 55 insertions(+), 20 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 20ef9f3..6ee7588 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -130,6 +130,30 @@ impl Document {
                                 }
                             }
                         },
+                        (Some(ns), b"metadata") if ns == NSFOLIA => {
+                            let (_, data) = Metadata::parse(&reader, &e)?;
+                            doc.metadata = data;
+                            break;
+                        },
+                        (Some(ns), b"submetadata") if ns == NSFOLIA => {
+                            if let (Some(submetadata_id), data) = Metadata::parse(&reader, &e)? {
+                                doc.submetadata.insert(submetadata_id, data);
+                            } else {
+                                return Err(FoliaError::ParseError("Submetadata has no ID".to_string()));
+                            }
+                        },
+                        (Some(ns), b"meta") if ns == NSFOLIA => {
+                            for attrib in e.attributes() {
+                                let attrib = attrib?;
+                                if attrib.key == b"id" || attrib.key == b"xml:id" {
+                                    let meta_id = attrib.unescape_and_decode_value(&reader)?;
+                                    match submetadata.as_ref().and_then(|id| doc.submetadata.get_mut(id)) {
+                                        Some(submetadata) => submetadata.data.insert(meta_id, String::new()),
+                                        None => doc.metadata.data.insert(meta_id, String::new()),
+                                    };
+                                }
+                            }
+                        },
                         (Some(ns), tag) if ns == NSFOLIA && parsedeclarations => {
                             //declaration without annotators
                             let declaration = Declaration::parse(&reader, e, tag).map_err(FoliaError::add_parseerror("Error parsing declaration"))?;
@@ -166,26 +190,8 @@ impl Document {
                             parseprovenance = true;
                         },
                         (Some(ns), b"submetadata") if ns == NSFOLIA => {
-                            let mut data = Metadata::default();
-                            for attrib in e.attributes() {
-                                let attrib = attrib?;
-                                if let Ok(value) = attrib.unescape_and_decode_value(&reader) {
-                                    match attrib.key {
-                                        b"xml:id" => {
-                                            submetadata = Some(value.clone());
-                                        },
-                                        b"type" => {
-                                            data.metadatatype = Some(value.clone());
-                                        },
-                                        b"src" => {
-                                            data.src = Some(value.clone());
-                                        },
-                                        otherwise => {
-                                            eprintln!("WARNING: Unhandled attribute submetadata/@{:?}",String::from_utf8_lossy(otherwise));
-                                        }
-                                    }
-                                }
-                            }
+                            let (id, data) = Metadata::parse(&reader, &e)?;
+                            submetadata = id;
                             if let Some(submetadata_id) = &submetadata {
                                 doc.submetadata.insert(submetadata_id.clone(), data);
                             } else {
@@ -480,6 +486,35 @@ fn get_declaration_type(tag: &str) -> Result<AnnotationType, FoliaError> {
     }
 }
 
+impl Metadata {
+    ///Parse the attributes of a metadata or submetadata element, returns its ID (if any) and the
+    ///(still empty) metadata
+    pub(crate) fn parse<R: BufRead>(reader: &Reader<R>, event: &quick_xml::events::BytesStart) -> Result<(Option<String>,Metadata), FoliaError> {
+        let mut id: Option<String> = None;
+        let mut metadata = Metadata::default();
+        for attrib in event.attributes() {
+            let attrib = attrib?;
+            if let Ok(value) = attrib.unescape_and_decode_value(&reader) {
+                match attrib.key {
+                    b"xml:id" => {
+                        id = Some(value);
+                    },
+                    b"type" => {
+                        metadata.metadatatype = Some(value);
+                    },
+                    b"src" => {
+                        metadata.src = Some(value);
+                    },
+                    otherwise => {
+                        eprintln!("WARNING: Unhandled attribute {}/@{:?}",String::from_utf8_lossy(event.local_name()),String::from_utf8_lossy(otherwise));
+                    }
+                }
+            }
+        }
+        Ok((id, metadata))
+    }
+}
+
 impl Processor {
 
     ///Parse this element from XML, note that this does not handle the child elements, those are
-- 
2.43.0


From ce5ff3c978e482072a1092f51818afc0afb5d9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:13 +0000
Subject: [PATCH 12/53] fix: load documents with an empty (self-closing) body

---
 src/parser.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 6ee7588..7e0c44a 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -312,6 +312,13 @@ impl Document {
         loop {
             let e = reader.read_namespaced_event(&mut buf, &mut nsbuf)?;
             match e {
+                (Some(ns), Event::Empty(ref e)) if ns == NSFOLIA && (e.local_name() == b"text" || e.local_name() == b"speech") => {
+                    //an empty body
+                    let (elem, _) = ElementData::parse(&reader, e)?;
+                    doc.add(elem,None).map_err(FoliaError::add_parseerror("Error adding body"))?;
+                    doc.apply_properties(properties).map_err(FoliaError::add_parseerror("Error applying properties"))?;
+                    return Ok(doc);
+                },
                 (ref ns, Event::Start(ref e)) => {
                     match (*ns, e.local_name())  {
                         (Some(ns), b"text") if ns == NSFOLIA => {
-- 
2.43.0


From 56c802d7df6d6f3a119494ff62dd701700a509fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:27 +0000
Subject: [PATCH 13/53] fix: apply document properties after loading the
 elements

Otherwise the default text set competes with the declared one (text content loses its set) and
the processor of the current session is credited with loaded annotations.
---
 src/parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 7e0c44a..3de378f 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -354,8 +354,9 @@ impl Document {
 
         if let Some(body) = body {
             doc.add(body,None).map_err(FoliaError::add_parseerror("Error adding body"))?;
-            doc.apply_properties(properties).map_err(FoliaError::add_parseerror("Error applying properties"))?;
             doc.parse_elements(reader, &mut buf, &mut nsbuf)?;
+            //applied only now: the declarations and active processor must not affect what is loaded
+            doc.apply_properties(properties).map_err(FoliaError::add_parseerror("Error applying properties"))?;
             Ok(doc)
         } else {
             Err(FoliaError::ParseError("No body found".to_string()))
-- 
2.43.0


From 6c3cb72508fa7516868bfc7523db3f3895001a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:29 +0000
Subject: [PATCH 14/53] fix: serialise metadata in a fixed order instead of
 hash map order

---
 src/serialiser.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/serialiser.rs b/src/serialiser.rs
index eab9799..dd66e96 100644
--- a/src/serialiser.rs
+++ b/src/serialiser.rs
@@ -4,6 +4,7 @@ use std::str;
 use std::str::FromStr;
 use std::borrow::ToOwned;
 use std::string::ToString;
+use std::collections::{BTreeMap,HashMap};
 
 use std::io::Write;
 use std::io::BufWriter;
@@ -27,6 +28,11 @@ fn to_serialisation_error(err: quick_xml::Error) -> FoliaError {
     FoliaError::SerialisationError(format!("{}",err))
 }
 
+///The entries of a map in a fixed order (by key), so the serialisation is reproducible
+fn sorted<T>(map: &HashMap<String,T>) -> BTreeMap<&String,&T> {
+    map.iter().collect()
+}
+
 impl Document {
     ///Serialises a document to XML (vector of bytes, utf-8)
     pub fn xml(&self, root_key: ElementKey, indent: usize) -> Result<Vec<u8>, FoliaError> {
@@ -66,7 +72,7 @@ impl Document {
         writer.write_event(Event::Text(BytesText::from_plain(NL))).map_err(to_serialisation_error)?;
         self.xml_declarations(writer)?;
         self.xml_provenance(writer)?;
-        for (meta_id, value) in self.metadata.data.iter() {
+        for (meta_id, value) in sorted(&self.metadata.data) {
             let mut meta_start = BytesStart::borrowed_name(b"meta");
             meta_start.push_attribute(("id", meta_id.as_str() ));
             writer.write_event(Event::Start(meta_start)).map_err(to_serialisation_error)?;
@@ -75,7 +81,7 @@ impl Document {
             writer.write_event(Event::Text(BytesText::from_plain(NL))).map_err(to_serialisation_error)?;
         }
         //there is a bit too much duplication going on here, to be solved later
-        for (submetadata_id, submetadata) in self.submetadata.iter() {
+        for (submetadata_id, submetadata) in sorted(&self.submetadata) {
             let mut submetadata_start = BytesStart::borrowed_name(b"submetadata");
             submetadata_start.push_attribute(("xml:id", submetadata_id.as_str() ));
             if let Some(metadatatype) = &submetadata.metadatatype {
@@ -86,7 +92,7 @@ impl Document {
             }
             writer.write_event(Event::Start(submetadata_start)).map_err(to_serialisation_error)?;
             writer.write_event(Event::Text(BytesText::from_plain(NL))).map_err(to_serialisation_error)?;
-            for (meta_id, value) in submetadata.data.iter() {
+            for (meta_id, value) in sorted(&submetadata.data) {
                 let mut meta_start = BytesStart::borrowed_name(b"meta");
                 meta_start.push_attribute(("id", meta_id.as_str() ));
                 writer.write_event(Event::Start(meta_start)).map_err(to_serialisation_error)?;
-- 
2.43.0


From d523aa467c997bce291143d01f52aef6d83070b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:34 +0000
Subject: [PATCH 15/53] fix: features use the declaration of the annotation
 they are part of

With multiple sets for the annotation type they ended up in another (new) declaration. Also
report a parent without annotation type instead of panicking.
---
 src/document.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index 606b334..ce6ab20 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -836,8 +836,13 @@ impl Store<ElementData,ElementKey> for Document {
                         //get the declaration key from the parent context:
                         let parent = self.get_elementdata(parent_key).ok_or( FoliaError::InternalError("Context for feature does not exist!".to_string()))?;
 
-                        let annotationtype = parent.elementtype.annotationtype().expect(format!("Unwrapping annotation type of parent {}", element.elementtype).as_str() );
-                        let deckey = self.declare(annotationtype, &element.set().unwrap().map(|s| s.to_string()),  &None, &None)?;
+                        let deckey = if let Some(deckey) = parent.declaration_key()? {
+                            //a feature belongs to the same set as the annotation it is part of
+                            deckey
+                        } else {
+                            let annotationtype = parent.elementtype.annotationtype().ok_or( FoliaError::ValidationError(format!("Parent {} of feature has no annotation type", parent.elementtype)))?;
+                            self.declare(annotationtype, &element.set()?.map(|s| s.to_string()),  &None, &None)?
+                        };
                         declaration_key  = Some(deckey);
 
                         if let Some(declaration) = self.get_mut_declaration(deckey) {
-- 
2.43.0


From b03ac9ab8366c2a536044b4325da071ffb84eb2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:35 +0000
Subject: [PATCH 16/53] fix: report it when a class or subset can't be stored,
 instead of silently dropping it

---
 src/document.rs | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index ce6ab20..11bc1f4 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -816,9 +816,7 @@ impl Store<ElementData,ElementKey> for Document {
 
             if let Ok(Some(class)) = element.class() {
                 if let Some(declaration) = self.get_mut_declaration(deckey) {
-                    if let Ok(clskey) = declaration.add_class(Cow::Borrowed(class)) {
-                        class_key = Some(clskey);
-                    }
+                    class_key = Some(declaration.add_class(Cow::Borrowed(class))?);
                 }
             }
 
@@ -846,15 +844,11 @@ impl Store<ElementData,ElementKey> for Document {
                         declaration_key  = Some(deckey);
 
                         if let Some(declaration) = self.get_mut_declaration(deckey) {
-                            if let Ok(Some(class)) = element.class() {
-                                if let Ok(clskey) = declaration.add_subclass(Cow::Borrowed(class)) {
-                                    class_key = Some(clskey);
-                                }
-                            }
                             if let Ok(Some(subset)) = element.subset() {
-                                if let Ok(subsetkey) = declaration.add_subset(Cow::Borrowed(subset)) {
-                                    subset_key = Some(subsetkey);
-                                }
+                                subset_key = Some(declaration.add_subset(Cow::Borrowed(subset))?);
+                            }
+                            if let Ok(Some(class)) = element.class() {
+                                class_key = Some(declaration.add_subclass(Cow::Borrowed(class))?);
                             }
                         }
 
-- 
2.43.0


From 62a68c8b0661aea60c2b4b32148e8676e134e6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:59 +0000
Subject: [PATCH 17/53] fix: honour autodeclare: refuse undeclared annotations
 if it is turned off

---
 src/document.rs | 11 +++++++++++
 src/parser.rs   |  2 +-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/document.rs b/src/document.rs
index 11bc1f4..830921e 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -116,6 +116,7 @@ impl Document {
     }
 
     pub fn apply_properties(&mut self, properties: DocumentProperties) -> Result<(),FoliaError> {
+        self.autodeclare = properties.autodeclare;
         if let Some(processor) = properties.processor {
             let prockey = self.add_processor(processor)?;
             self.active_processor = Some(prockey);
@@ -503,6 +504,13 @@ impl Document {
         Ok(declaration_key.expect("get_deckey"))
     }
 
+    ///Tests if there is a declaration for the annotation type and set. If no set is provided, the
+    ///default set applies (if there is one).
+    pub fn is_declared(&self, annotationtype: AnnotationType, set: Option<&str>) -> bool {
+        self.get_declaration_key_by_id(Declaration::index_id(annotationtype, &set).as_str()).is_some() ||
+            (set.is_none() && self.declarationstore.get_default_key(annotationtype).is_some())
+    }
+
     //************** High-level method for adding annotations ********************
 
     ///This is a high-level function that adds an annotation to an element, and does all necessary validation. It will simply call `add_element_to` for token annotation elements that fit within the scope and validate. For span annotation, it will create and find or create the proper annotation layer and insert the element there.
@@ -809,6 +817,9 @@ impl Store<ElementData,ElementKey> for Document {
 
         //encode the element for storage
         if let Some(annotationtype) = element.elementtype.annotationtype() {
+            if !self.autodeclare && !self.is_declared(annotationtype, element.set()?) {
+                return Err(FoliaError::EncodeError(format!("Annotation type {} with set {:?} is not declared (and autodeclare is off)", annotationtype, element.set()?)));
+            }
             //Declare the element (either declares anew or just resolves the to the right
             //declaration.
             let deckey = self.declare(annotationtype, &element.set().unwrap().map(|s| s.to_string()),  &None,&None)?;
diff --git a/src/parser.rs b/src/parser.rs
index 3de378f..f555685 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -41,7 +41,7 @@ impl Document {
                             declarationstore: DeclarationStore::default(),
                             metadata: Metadata::default(),
                             submetadata: HashMap::default(),
-                            autodeclare: properties.autodeclare,
+                            autodeclare: true, //the requested setting applies once loaded
                             active_processor: None,
         };
 
-- 
2.43.0


From 47c95ded18106aa5e240c38eeffdb9240f3f0ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:09 +0000
Subject: [PATCH 18/53] fix: add nested elements top-down

Children were encoded and post-processed before their parents existed, so features in new
annotations and references in span roles always failed, and children given by key kept their
old parent.
---
 src/document.rs | 101 ++++++++++++++++++------------------------------
 1 file changed, 38 insertions(+), 63 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index 830921e..3d72bf0 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -173,8 +173,14 @@ impl Document {
     ///Add an element to the document (but the element will be an orphan unless it is the very
     ///first one, you may want to use ``add_element_to`` or ``annotate`` instead)
     pub fn add_element(&mut self, element: ElementData) -> Result<ElementKey, FoliaError> {
-        let (element,_) = self.add_children(element)?;
-        <Self as Store<ElementData,ElementKey>>::add(self, element, None)
+        let mut added: Vec<ElementKey> = Vec::new();
+        let element_key = self.add_subtree(element, None, &mut added)?;
+        for key in added {
+            if key != element_key {
+                self.post_add(key, None)?;
+            }
+        }
+        Ok(element_key)
     }
 
     ///Add a declaration. It is strongly recommended to use ``declare()`` instead
@@ -197,71 +203,40 @@ impl Document {
     ///takes care of adding and attaching for you. You may want to use ``annotate`` instead
     ///as that is an even higher-level function.
     pub fn add_element_to(&mut self, parent_key: ElementKey, element: ElementData) -> Result<ElementKey, FoliaError> {
-        let (element,added_subelements) = self.add_children(element)?;
-        match <Self as Store<ElementData,ElementKey>>::add(self, element, Some(parent_key)) {
-            Ok(child_key) => {
-                if let Some(added_subelements) = added_subelements {
-                    for subchild_key in added_subelements.iter() {
-                        if let Some(subchilddata) = self.get_mut_elementdata(*subchild_key) {
-                            subchilddata.set_parent_key(Some(child_key));
-                        }
-                        self.post_add(*subchild_key, None)?;
+        let mut added: Vec<ElementKey> = Vec::new();
+        let child_key = self.add_subtree(element, Some(parent_key), &mut added)?;
+        for key in added {
+            self.post_add(key, None)?;
+        }
+        Ok(child_key)
+    }
+
+    ///Adds an element along with its hitherto 'unborn' children, top-down: an element is attached to its
+    ///parent before its children are added, so they can be encoded in the right context.
+    ///The keys of all added elements are appended to ``added``, those still need post-processing.
+    pub(crate) fn add_subtree(&mut self, mut element: ElementData, parent_key: Option<ElementKey>, added: &mut Vec<ElementKey>) -> Result<ElementKey,FoliaError> {
+        let data = std::mem::replace(&mut element.data, Vec::new());
+        let key = <Self as Store<ElementData,ElementKey>>::add(self, element, parent_key)?;
+        if let Some(parent_key) = parent_key {
+            self.attach_element(parent_key, key)?;
+        }
+        for item in data {
+            match item {
+                DataType::AddElement(child) => {
+                    self.add_subtree(child, Some(key), added)?;
+                },
+                DataType::Element(child_key) => {
+                    self.attach_element(key, child_key)?;
+                },
+                item => {
+                    if let Some(element) = self.get_mut_elementdata(key) {
+                        element.push(item);
                     }
                 }
-                self.attach_element(parent_key, child_key)?;
-                self.post_add(child_key, None)?;
-                Ok(child_key)
-            },
-            Err(err) => {
-                Err(FoliaError::InternalError(format!("Unable to add element to parent: {}", err)))
             }
         }
-    }
-
-    ///Before we can add an element, we need to create and add its hitherto 'unborn' children.
-    pub(crate) fn add_children(&mut self, mut element: ElementData) -> Result<(ElementData, Option<Vec<ElementKey>>),FoliaError> {
-        let mut has_unborn_children = false;
-        for child in element.data.iter() {
-            if let DataType::AddElement(_) = child {
-                has_unborn_children = true;
-            }
-        }
-        if has_unborn_children {
-            let mut added_elements: Vec<ElementKey> = Vec::new();
-            let mut new_data: Vec<DataType> = Vec::new();
-            for child in element.data {
-                if let DataType::AddElement(child_elementdata) = child {
-                    //first we do a recursion step to add the grandchildren, if any
-                    let child_key = match self.add_children(child_elementdata) {
-                        Ok((child_elementdata_new, Some(added_grandchildren))) => {
-                            let child_key = <Self as Store<ElementData,ElementKey>>::add(self, child_elementdata_new, None)?;
-                            for grandchild_key in added_grandchildren {
-                                if let Some(subchilddata) = self.get_mut_elementdata(grandchild_key) {
-                                    subchilddata.set_parent_key(Some(child_key));
-                                }
-                                self.post_add(grandchild_key, None)?;
-                            }
-                            child_key
-                        },
-                        Ok((child_elementdata_new, None)) => {
-                            let child_key = <Self as Store<ElementData,ElementKey>>::add(self, child_elementdata_new, None)?;
-                            child_key
-                        }
-                        Err(e) => {
-                            return Err(e);
-                        }
-                    };
-                    new_data.push(DataType::Element(child_key));
-                    added_elements.push(child_key);
-                } else {
-                    new_data.push(child);
-                }
-            }
-            element.data = new_data;
-            Ok((element, Some(added_elements)))
-        } else {
-            Ok((element, None))
-        }
+        added.push(key);
+        Ok(key)
     }
 
     ///Adds the child element to the parent element, automatically takes care
-- 
2.43.0


From 8c7cd09ce601ec423fa7a1ac0e02e014d163601b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:39 +0000
Subject: [PATCH 19/53] fix: check an element before adding it, so a refused
 addition changes nothing

Errors halfway (unknown parent, unresolvable or misplaced references, features without
context) left unattached elements, IDs and declarations behind.
---
 src/document.rs | 79 ++++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 75 insertions(+), 4 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index 3d72bf0..7b1bd60 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -7,7 +7,7 @@ use std::str;
 use std::str::FromStr;
 use std::borrow::Cow;
 use std::string::ToString;
-use std::collections::HashMap;
+use std::collections::{HashMap,HashSet};
 
 use quick_xml::{Reader,Writer};
 use quick_xml::events::{Event,BytesStart,BytesEnd,BytesText};
@@ -173,6 +173,7 @@ impl Document {
     ///Add an element to the document (but the element will be an orphan unless it is the very
     ///first one, you may want to use ``add_element_to`` or ``annotate`` instead)
     pub fn add_element(&mut self, element: ElementData) -> Result<ElementKey, FoliaError> {
+        self.check_subtree(&element, None)?;
         let mut added: Vec<ElementKey> = Vec::new();
         let element_key = self.add_subtree(element, None, &mut added)?;
         for key in added {
@@ -203,6 +204,7 @@ impl Document {
     ///takes care of adding and attaching for you. You may want to use ``annotate`` instead
     ///as that is an even higher-level function.
     pub fn add_element_to(&mut self, parent_key: ElementKey, element: ElementData) -> Result<ElementKey, FoliaError> {
+        self.check_subtree(&element, Some(parent_key))?;
         let mut added: Vec<ElementKey> = Vec::new();
         let child_key = self.add_subtree(element, Some(parent_key), &mut added)?;
         for key in added {
@@ -728,6 +730,77 @@ impl Document {
 
     //************** Validation methods ****************
     //
+
+    ///Checks whether an element, including all its hitherto 'unborn' children, can be added (under
+    ///the specified parent, if any), without changing anything.
+    fn check_subtree(&self, element: &ElementData, parent_key: Option<ElementKey>) -> Result<(), FoliaError> {
+        let mut ids: HashSet<&str> = HashSet::new();
+        let mut idrefs: Vec<&str> = Vec::new();
+        let mut in_span = false;
+        let mut feature_context = false;
+        if let Some(parent_key) = parent_key {
+            let parent = self.get_elementdata(parent_key).ok_or( FoliaError::InternalError(format!("Parent element does not exist: {}", parent_key)) )?;
+            in_span = ElementGroup::Span.contains(parent.elementtype) ||
+                      self.ancestors_by_key(parent_key, Selector::elements().elementgroup(Cmp::Is(ElementGroup::Span))).next().is_some();
+            feature_context = parent.elementtype.annotationtype().is_some() || parent.declaration_key()?.is_some();
+        }
+        self.check_subtree_element(element, parent_key, in_span, feature_context, &mut ids, &mut idrefs)?;
+        for idref in idrefs {
+            if !ids.contains(idref) && self.get_element_key_by_id(idref).is_none() {
+                return Err(FoliaError::ValidationError(format!("Reference to unknown element: {}", idref)));
+            }
+        }
+        Ok(())
+    }
+
+    fn check_subtree_element<'a>(&self, element: &'a ElementData, parent_key: Option<ElementKey>, in_span: bool, feature_context: bool, ids: &mut HashSet<&'a str>, idrefs: &mut Vec<&'a str>) -> Result<(), FoliaError> {
+        if let Some(id) = element.id() {
+            if self.get_element_key_by_id(id).is_some() || !ids.insert(id) {
+                return Err(FoliaError::ValidationError(format!("Duplicate ID: {}", id)));
+            }
+        }
+        let annotationtype = element.elementtype.annotationtype();
+        if element.elementtype == ElementType::WordReference {
+            if !in_span {
+                return Err(FoliaError::ValidationError("Reference (wref) is not part of a span annotation".to_string()));
+            }
+            idrefs.push(element.idref().ok_or( FoliaError::ValidationError("Wref element does not reference anything!".to_string()) )?);
+        } else if element.encodable() {
+            if let Some(annotationtype) = annotationtype {
+                self.check_declared(annotationtype, element.set()?)?;
+            } else if element.elementtype == ElementType::Feature && !feature_context {
+                return Err(FoliaError::ValidationError("Feature is not part of an annotation".to_string()));
+            }
+        }
+        let in_span = in_span || ElementGroup::Span.contains(element.elementtype);
+        for item in element.data.iter() {
+            match item {
+                DataType::AddElement(child) => {
+                    self.check_subtree_element(child, parent_key, in_span, annotationtype.is_some(), ids, idrefs)?;
+                },
+                DataType::Element(child_key) => {
+                    if self.get_elementdata(*child_key).is_none() {
+                        return Err(FoliaError::InternalError(format!("Child does not exist: {}", child_key)));
+                    } else if parent_key == Some(*child_key) || (parent_key.is_some() && self.ancestors_by_key(parent_key.unwrap(), Selector::elements()).any(|ancestor| ancestor.key() == Some(*child_key))) {
+                        return Err(FoliaError::ValidationError(format!("Can't attach element {} under itself", child_key)));
+                    }
+                },
+                _ => {}
+            }
+        }
+        Ok(())
+    }
+
+    ///Checks whether an annotation type and set may be used; they need to be declared already if automatic
+    ///declaration is turned off.
+    fn check_declared(&self, annotationtype: AnnotationType, set: Option<&str>) -> Result<(), FoliaError> {
+        if self.autodeclare || self.is_declared(annotationtype, set) {
+            Ok(())
+        } else {
+            Err(FoliaError::EncodeError(format!("Annotation type {} with set {:?} is not declared (and autodeclare is off)", annotationtype, set)))
+        }
+    }
+
     pub fn check_element_addable(&self, parent_key: ElementKey, element: &ElementData) -> Result<(), FoliaError> {
         let parent = self.get_element(parent_key).ok_or(
             FoliaError::InternalError(format!("Specified parent element key not found"))
@@ -792,9 +865,7 @@ impl Store<ElementData,ElementKey> for Document {
 
         //encode the element for storage
         if let Some(annotationtype) = element.elementtype.annotationtype() {
-            if !self.autodeclare && !self.is_declared(annotationtype, element.set()?) {
-                return Err(FoliaError::EncodeError(format!("Annotation type {} with set {:?} is not declared (and autodeclare is off)", annotationtype, element.set()?)));
-            }
+            self.check_declared(annotationtype, element.set()?)?;
             //Declare the element (either declares anew or just resolves the to the right
             //declaration.
             let deckey = self.declare(annotationtype, &element.set().unwrap().map(|s| s.to_string()),  &None,&None)?;
-- 
2.43.0


From 469be24714ca2184e9c92ee54f0df0058876c361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:03 +0000
Subject: [PATCH 20/53] fix: reuse the existing layer when annotating a span
 through one of its words

The layer was looked up under the word rather than under the element that holds it, so every
annotation got a layer of its own.
---
 src/document.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/document.rs b/src/document.rs
index 7b1bd60..d6632c3 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -539,7 +539,7 @@ impl Document {
                             suitable = props.accepted_data.contains(&AcceptedData::AcceptElementGroup(ElementGroup::Layer)) || props.accepted_data.contains(&AcceptedData::AcceptElementType(layertype));
                         };
                         if suitable {
-                            let mut layer_key: Option<ElementKey> = self.get_layer_key(parent_key, element.elementtype.annotationtype().expect("annotation type"), set.as_ref().map(|s| s.as_str()) )?;
+                            let mut layer_key: Option<ElementKey> = self.get_layer_key(*ancestor_key, element.elementtype.annotationtype().expect("annotation type"), set.as_ref().map(|s| s.as_str()) )?;
                             if layer_key.is_none() {
                                 //no layer found yet, add a new one
                                 let layerdata = match set {
-- 
2.43.0


From fa09cd570391240f184254fbcf5676abd2669ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:04 +0000
Subject: [PATCH 21/53] fix: annotate() only adds a new layer along with the
 annotation itself

If the annotation was refused, an empty layer stayed behind.
---
 src/document.rs | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index d6632c3..1e0a00f 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -539,7 +539,7 @@ impl Document {
                             suitable = props.accepted_data.contains(&AcceptedData::AcceptElementGroup(ElementGroup::Layer)) || props.accepted_data.contains(&AcceptedData::AcceptElementType(layertype));
                         };
                         if suitable {
-                            let mut layer_key: Option<ElementKey> = self.get_layer_key(*ancestor_key, element.elementtype.annotationtype().expect("annotation type"), set.as_ref().map(|s| s.as_str()) )?;
+                            let layer_key: Option<ElementKey> = self.get_layer_key(*ancestor_key, element.elementtype.annotationtype().expect("annotation type"), set.as_ref().map(|s| s.as_str()) )?;
                             if layer_key.is_none() {
                                 //no layer found yet, add a new one
                                 let layerdata = match set {
@@ -547,10 +547,7 @@ impl Document {
                                     None => ElementData::new(layertype)
                                 };
                                 self.check_element_addable(*ancestor_key, &layerdata)?;
-                                match self.add_element_to(*ancestor_key, layerdata) {
-                                    Ok(key) => layer_key = Some(key),
-                                    Err(e) => return Err(e)
-                                }
+                                return self.add_element_with_layer(*ancestor_key, layerdata, element);
                             };
                             self.check_element_addable(layer_key.unwrap() , &element)?;
                             //we only did one iteration, taking the closest common ancestor
@@ -561,7 +558,7 @@ impl Document {
                 }
             } else if addspanfromstructure {
                 //invoked from the parent structure element that holds the layer (usually a sentence)
-                let mut layer_key: Option<ElementKey> = self.get_layer_key(parent_key, element.elementtype.annotationtype().expect("annotation type"), set.as_ref().map(|s| s.as_str()) )?;
+                let layer_key: Option<ElementKey> = self.get_layer_key(parent_key, element.elementtype.annotationtype().expect("annotation type"), set.as_ref().map(|s| s.as_str()) )?;
                 if layer_key.is_none() {
                     //no layer found yet, add a new one
                     let layerdata = match set {
@@ -569,10 +566,7 @@ impl Document {
                         None => ElementData::new(layertype)
                     };
                     self.check_element_addable(parent_key, &layerdata)?;
-                    match self.add_element_to(parent_key, layerdata) {
-                        Ok(key) => layer_key = Some(key),
-                        Err(e) => return Err(e)
-                    }
+                    return self.add_element_with_layer(parent_key, layerdata, element);
                 };
                 self.check_element_addable(layer_key.unwrap(), &element)?;
                 self.add_element_to(layer_key.unwrap(), element)
@@ -588,6 +582,17 @@ impl Document {
         }
     }
 
+    ///Adds a new layer with a first element in it, returns the key of the latter. If the element
+    ///can't be added there will not be a layer either.
+    fn add_element_with_layer(&mut self, parent_key: ElementKey, layer: ElementData, element: ElementData) -> Result<ElementKey, FoliaError> {
+        self.check_type_addable(layer.elementtype, element.elementtype)?;
+        let layer_key = self.add_element_to(parent_key, layer.add_element(element))?;
+        match self.get_elementdata(layer_key).and_then(|layer| layer.get_data_at(0)) {
+            Some(DataType::Element(key)) => Ok(*key),
+            _ => Err(FoliaError::InternalError("Element in new layer went missing".to_string()))
+        }
+    }
+
     pub fn annotate_span(&mut self, element: ElementData) -> Result<ElementKey, FoliaError> {
         if !ElementGroup::Span.contains(element.elementtype) {
             return Err(FoliaError::TypeError(format!("Element passed to annotate_span is not a span element")));
@@ -805,18 +810,22 @@ impl Document {
         let parent = self.get_element(parent_key).ok_or(
             FoliaError::InternalError(format!("Specified parent element key not found"))
         )?;
-        let props = self.props(parent.elementtype());
+        self.check_type_addable(parent.elementtype(), element.elementtype)
+    }
+
+    fn check_type_addable(&self, parenttype: ElementType, elementtype: ElementType) -> Result<(), FoliaError> {
+        let props = self.props(parenttype);
         for accepted_data in props.accepted_data.iter() {
             match accepted_data {
-                AcceptedData::AcceptElementType(et) => if *et == element.elementtype {
+                AcceptedData::AcceptElementType(et) => if *et == elementtype {
                     return Ok(())
                 },
-                AcceptedData::AcceptElementGroup(g) => if g.contains(element.elementtype) {
+                AcceptedData::AcceptElementGroup(g) => if g.contains(elementtype) {
                     return Ok(())
                 }
             }
         }
-        Err(FoliaError::ValidationError(format!("Can't add element type {:?} to {:?}", element.elementtype, parent.elementtype())))
+        Err(FoliaError::ValidationError(format!("Can't add element type {:?} to {:?}", elementtype, parenttype)))
     }
 
 }
-- 
2.43.0


From caf3d3606aa50044e0b027157860d1ec98702cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:21 +0000
Subject: [PATCH 22/53] fix: common_ancestors no longer starts over once there
 are no common ancestors left

---
 src/select.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/select.rs b/src/select.rs
index c20a593..7bc3fc9 100644
--- a/src/select.rs
+++ b/src/select.rs
@@ -708,10 +708,12 @@ impl Document {
 
     pub fn common_ancestors(&self, selector: Selector, elements: &[ElementKey]) -> Vec<ElementKey> {
         let mut result: Vec<ElementKey> = Vec::new();
+        let mut first = true;
         for sibling_key in elements {
             if let Some(sibling) = self.get_element(*sibling_key) {
                 let ancestors: Vec<ElementKey> = sibling.ancestors(selector.clone()).map(|e| e.key().expect("get key")).collect();
-                if result.is_empty() {
+                if first {
+                    first = false;
                     result = ancestors.into_iter().collect();
                 } else {
                     result = result.into_iter().filter(|a| ancestors.contains(a)).collect();
-- 
2.43.0


From c37efed40a771c90d49e1dc2bba313358711661b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:22 +0000
Subject: [PATCH 23/53] fix: iterate rather than recurse over items that do not
 match a selection

Stack usage grew with the number of items to skip, large documents overflowed the stack.
---
 src/select.rs | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/select.rs b/src/select.rs
index 7bc3fc9..8cd585d 100644
--- a/src/select.rs
+++ b/src/select.rs
@@ -408,7 +408,7 @@ impl<'a> Iterator for SelectIterator<'a> {
                 }
             }
         };
-        if let Some((key,cursor)) = self.stack.pop() {
+        while let Some((key,cursor)) = self.stack.pop() {
             if let Some(parent) = self.document.get_elementdata(key) {
                 if let Some(item) = parent.get_data_at(cursor) {
                     //increment the cursor and push back to the stack
@@ -445,14 +445,12 @@ impl<'a> Iterator for SelectIterator<'a> {
                         }
                     }
                 }
-                self.next() //recurse
             } else {
                 unreachable!("selector tried to get an element which no longer exists")
             }
-        } else {
-            //stack is empty, we are done (None stops iteration)
-            None
         }
+        //stack is empty, we are done (None stops iteration)
+        None
     }
 
 }
@@ -581,21 +579,18 @@ impl<'a> Iterator for SelectElementsIterator<'a> {
     type Item = SelectElementsItem<'a>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        let selectitem = self.iterator.next();
-        if let Some(selectitem) = selectitem {
+        while let Some(selectitem) = self.iterator.next() {
             match *selectitem {
                 DataType::Element(key) | DataType::SpanReference(key) => {
                     let element = self.iterator.document.get_element(key).expect("Getting key from elementstore for SelectElementsIterator");
-                    Some(Self::Item { element: element })
+                    return Some(Self::Item { element: element });
                 },
                 _ => {
-                    //recurse
-                    self.next()
+                    //not an element, continue
                 }
             }
-        } else {
-            None
         }
+        None
     }
 
 }
-- 
2.43.0


From b14b0d8ad37b3c529cd2f98e11d92caed044abe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:55 +0000
Subject: [PATCH 24/53] fix: match on the annotator, annotatortype and
 confidence specified in a query

---
 src/select.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/select.rs b/src/select.rs
index 8cd585d..f9c3c80 100644
--- a/src/select.rs
+++ b/src/select.rs
@@ -143,6 +143,9 @@ impl Selector {
             Cmp::None => Cmp::None,
             Cmp::Unmatchable => Cmp::Unmatchable,
         };
+        selector.annotator = query.annotator.clone();
+        selector.annotatortype = query.annotatortype.clone();
+        selector.confidence = query.confidence.clone();
         Ok(selector)
     }
 
@@ -228,7 +231,8 @@ impl Selector {
                     (self.class == Cmp::Any || self.class.matches(element.class_key().as_ref())) &&
                     (self.processor == Cmp::Any || self.processor.matches(element.processor_key().as_ref())) &&
                     (self.annotator == Cmp::Any || self.annotator.matches(element.annotator().map(|s| s.to_string()).as_ref())) &&
-                    (self.annotatortype == Cmp::Any || self.annotatortype.matches(element.annotatortype().as_ref()))
+                    (self.annotatortype == Cmp::Any || self.annotatortype.matches(element.annotatortype().as_ref())) &&
+                    (self.confidence == Cmp::Any || self.confidence.matches(element.elementdata().confidence().as_ref()))
                 } else {
                     //element does not exist, can never match
                     false
-- 
2.43.0


From f4d650d0fddfd479e8ba3c9d546b24e476735944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:56 +0000
Subject: [PATCH 25/53] fix: unions of selectors keep all parts, also if one of
 them is not matchable

---
 src/select.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/select.rs b/src/select.rs
index f9c3c80..e524129 100644
--- a/src/select.rs
+++ b/src/select.rs
@@ -195,7 +195,10 @@ impl Selector {
     ///Add another selector, the resulting selection will then consist of the union
     ///of the selectors. This can be chained multiple times.
     pub fn and(mut self, selector: Selector) -> Self {
-        self.next = Some(Box::new(selector));
+        self.next = Some(Box::new(match self.next.take() {
+            Some(next) => next.and(selector),
+            None => selector,
+        }));
         self
     }
 
@@ -204,9 +207,10 @@ impl Selector {
     ///made to sets or classes that don't exist in the document, then it is unmatchable and there
     ///is no sense in actually performing any matching.
     pub fn matchable(&self) -> bool {
-        self.set != Cmp::Unmatchable &&
-        self.class != Cmp::Unmatchable &&
-        self.processor != Cmp::Unmatchable
+        (self.set != Cmp::Unmatchable &&
+         self.class != Cmp::Unmatchable &&
+         self.processor != Cmp::Unmatchable) ||
+        self.next.as_ref().map_or(false, |next| next.matchable())
     }
 
     ///Tests if the selector matches against the specified data item, given an element store.
-- 
2.43.0


From 7b1b08add1514ff24c2f561fc5cb7fe0fe6c109e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:17 +0000
Subject: [PATCH 26/53] fix: a processor has one place in the provenance chain

Adding a processor again (e.g. when resuming work on a document) duplicated it, processors could
end up under themselves, and a subprocessor with unknown parent was stored regardless.
---
 src/document.rs | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index 1e0a00f..58528f3 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -386,7 +386,10 @@ impl Document {
         let pending_subprocessors: Vec<Processor> = processor.pending_processors.replace(vec!());
         let child_key = self.add(processor, None);
         if let Ok(child_key) = child_key {
-            self.provenancestore.chain.push(child_key);
+            let is_subprocessor = self.get_processor(child_key).map_or(false, |processor| processor.parent.is_some());
+            if !is_subprocessor && !self.provenancestore.chain.contains(&child_key) {
+                self.provenancestore.chain.push(child_key);
+            }
             for subprocessor in pending_subprocessors {
                 self.add_subprocessor(child_key, subprocessor)?;
             }
@@ -397,6 +400,9 @@ impl Document {
     ///Add a processor as a subprocessor
     ///Returns the key
     pub fn add_subprocessor(&mut self, parent_key: ProcKey, processor: Processor) -> Result<ProcKey, FoliaError> {
+        if self.get_processor(parent_key).is_none() {
+            return Err(FoliaError::InternalError(format!("Parent does not exist: {}", parent_key)));
+        }
         let pending_subprocessors: Vec<Processor> = processor.pending_processors.replace(vec!());
         let child_key = self.add(processor, None);
         if let Ok(child_key) = child_key {
@@ -416,14 +422,29 @@ impl Document {
             return Err(FoliaError::InternalError(format!("Parent does not exist: {}", parent_key)));
         };
 
-        if let Some(child) = self.get_mut_processor(child_key) {
+        //ensure a processor doesn't end up under itself
+        let mut ancestor = Some(parent_key);
+        while let Some(key) = ancestor {
+            if key == child_key {
+                return Err(FoliaError::ValidationError(format!("Can't attach processor {} under itself", child_key)));
+            }
+            ancestor = self.get_processor(key).and_then(|processor| processor.parent);
+        }
+
+        let oldparent_key = if let Some(child) = self.get_mut_processor(child_key) {
             //add the new parent and return the old parent
-            child.parent = Some(parent_key);
+            std::mem::replace(&mut child.parent, Some(parent_key))
         } else {
             //child does not exist
             return Err(FoliaError::InternalError(format!("Child does not exist: {}", child_key)));
         };
 
+        //remove it from its old position (old parent or the top of the chain)
+        if let Some(oldparent) = oldparent_key.and_then(|key| self.get_mut_processor(key)) {
+            oldparent.processors.retain(|key| *key != child_key);
+        }
+        self.provenancestore.chain.retain(|key| *key != child_key);
+
         if let Some(parent) = self.get_mut_processor(parent_key) {
             parent.processors.push(child_key);
         }
-- 
2.43.0


From b8956cea815e68f74e934dad1f3ba8b1a7f13fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:36 +0000
Subject: [PATCH 27/53] fix: autofill a processor also if the command line is
 not valid unicode

---
 src/metadata.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/metadata.rs b/src/metadata.rs
index b7c345b..ef5e77d 100644
--- a/src/metadata.rs
+++ b/src/metadata.rs
@@ -509,7 +509,7 @@ impl Processor {
     pub fn autofill(self) -> Processor {
         let host: String = env::var("HOST").unwrap_or_default();
         let user: String = env::var("USER").unwrap_or_default();
-        let args: Vec<String> = env::args().collect();
+        let args: Vec<String> = env::args_os().map(|arg| arg.to_string_lossy().into_owned()).collect();
         let command: String = args.join(" ");
         let begindatetime: NaiveDateTime = NaiveDateTime::from_timestamp(
             std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).expect("Unable to get time").as_secs() as i64, 0
-- 
2.43.0


From f66a6b4f05a381cb009156708dc5ce8bd6632649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:37 +0000
Subject: [PATCH 28/53] fix: autofill a processor also if the clock is set
 before 1970

---
 src/metadata.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/metadata.rs b/src/metadata.rs
index ef5e77d..27e7546 100644
--- a/src/metadata.rs
+++ b/src/metadata.rs
@@ -511,9 +511,14 @@ impl Processor {
         let user: String = env::var("USER").unwrap_or_default();
         let args: Vec<String> = env::args_os().map(|arg| arg.to_string_lossy().into_owned()).collect();
         let command: String = args.join(" ");
-        let begindatetime: NaiveDateTime = NaiveDateTime::from_timestamp(
-            std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).expect("Unable to get time").as_secs() as i64, 0
-        );
+        let timestamp: i64 = match SystemTime::now().duration_since(UNIX_EPOCH) {
+            Ok(duration) => duration.as_secs() as i64,
+            Err(err) => { //the clock is before 1970, round down as well
+                let duration = err.duration();
+                -(duration.as_secs() as i64) - (if duration.subsec_nanos() > 0 { 1 } else { 0 })
+            }
+        };
+        let begindatetime: NaiveDateTime = NaiveDateTime::from_timestamp(timestamp, 0);
         self.with_host(host).with_begindatetime(begindatetime).with_folia_version(FOLIAVERSION.to_string()).with_user(user).with_command(command).with_new_subprocessor(Processor::this_library())
     }
 
-- 
2.43.0


From 424cba54971a46487ac06cbbc31b8372895bb1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:38 +0000
Subject: [PATCH 29/53] fix: endless recursion when displaying an attribute
 type

---
 src/attrib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/attrib.rs b/src/attrib.rs
index 7499a64..3452d07 100644
--- a/src/attrib.rs
+++ b/src/attrib.rs
@@ -64,7 +64,8 @@ impl Into<&str> for AttribType {
 
 impl fmt::Display for AttribType {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
-        write!(f, "{}", self)
+        let s: &str = (*self).into();
+        write!(f, "{}", s)
     }
 }
 
-- 
2.43.0


From 4bca0a387d31bd9de6663fddcb2350eb864e6d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:57 +0000
Subject: [PATCH 30/53] fix: resolve references to elements that come later in
 the document

---
 src/parser.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index f555685..3f183df 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -367,6 +367,7 @@ impl Document {
     pub(crate) fn parse_elements<R: BufRead>(&mut self, reader: &mut Reader<R>, mut buf: &mut Vec<u8>, mut nsbuf: &mut Vec<u8>) -> Result<(), FoliaError> {
         if !self.elementstore.items.is_empty() {
             let mut stack: Vec<ElementKey> = vec![0]; //0 is the root/body element, we always start with it
+            let mut references: Vec<ElementKey> = Vec::new(); //elements that refer to others, which may come later in the document
             loop {
                 let e = reader.read_namespaced_event(&mut buf, &mut nsbuf)?;
                 match e {
@@ -390,7 +391,11 @@ impl Document {
                             let child_key = self.add(child, Some(key))?;
                             self.attach_element(key, child_key)?;
                         }
-                        self.post_add(key, Some(&stack))?;
+                        if self.get_elementdata(key).map(|e| e.elementtype) == Some(ElementType::WordReference) {
+                            references.push(key);
+                        } else {
+                            self.post_add(key, Some(&stack))?;
+                        }
                     },
                     (Some(ns), Event::Start(ref e)) if ns == NSFOLIA => {
                         //START TAG FOUND (<tag>)
@@ -416,7 +421,11 @@ impl Document {
                             break;
                         }
                         let key = stack.pop().unwrap();
-                        self.post_add(key, Some(&stack))?;
+                        if self.get_elementdata(key).map(|e| e.elementtype) == Some(ElementType::WordReference) {
+                            references.push(key);
+                        } else {
+                            self.post_add(key, Some(&stack))?;
+                        }
                         if let Some(elem) = self.get_elementdata(key) {
 
                             //verify we actually close the right thing (otherwise we have malformed XML)
@@ -470,6 +479,9 @@ impl Document {
                     (_,_) => {}
                 }
             };
+            for key in references {
+                self.post_add(key, None)?;
+            }
             Ok(())
         } else {
             Err(FoliaError::InternalError("No root element".to_string()))
-- 
2.43.0


From 1fc13ae16e97c09162e1f7e4aa2963e9dcfab886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:18 +0000
Subject: [PATCH 31/53] fix: honour the requested text class when retrieving
 text

---
 src/text.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/text.rs b/src/text.rs
index 150e25d..824880a 100644
--- a/src/text.rs
+++ b/src/text.rs
@@ -123,7 +123,11 @@ impl<'a> Element<'a> {
                                }
                             }
                         } else if element.elementtype() == ElementType::TextContent {
-                            textcontent_element = Some(element);
+                            //only text of the requested class, text without a class is current text
+                            let requested_class = doc.get_declaration(set).and_then(|declaration| declaration.get_class(textclass));
+                            if requested_class == Some(element.class().unwrap_or("current")) {
+                                textcontent_element = Some(element);
+                            }
                         }
                     }
                 }
-- 
2.43.0


From 8d7e946423f0bf39e2e0af85ffa47007ecbd9db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:39 +0000
Subject: [PATCH 32/53] fix: do not follow circular references endlessly when
 retrieving text

---
 src/text.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/text.rs b/src/text.rs
index 824880a..34845a0 100644
--- a/src/text.rs
+++ b/src/text.rs
@@ -60,6 +60,12 @@ impl<'a> Element<'a> {
 
     ///Returns the text content of a given element
     pub fn text_by_key(&self, set: DecKey, textclass: ClassKey, strict: bool, retaintokenisation: bool, previousdelimiter: Option<String>) -> Result<String,FoliaError> {
+        self.text_following(set, textclass, strict, retaintokenisation, previousdelimiter, &mut Vec::new())
+    }
+
+    ///Implementation of ``text_by_key()``; ``following`` holds the targets of the references that are currently
+    ///being followed, to not go in circles if an element (indirectly) refers to itself
+    fn text_following(&self, set: DecKey, textclass: ClassKey, strict: bool, retaintokenisation: bool, previousdelimiter: Option<String>, following: &mut Vec<Option<ElementKey>>) -> Result<String,FoliaError> {
         let doc = self.document().ok_or(FoliaError::KeyError("Element has no associated document".to_string()))?;
 
         let properties = doc.props(self.elementtype());
@@ -81,7 +87,7 @@ impl<'a> Element<'a> {
                                         text += textdelimiter;
                                     }
                                 }
-                                let textpart = element.text_by_key(set,textclass,strict, retaintokenisation,None)?;
+                                let textpart = element.text_following(set,textclass,strict, retaintokenisation,None,following)?;
                                 text += &textpart;
                             }
                         }
@@ -104,7 +110,7 @@ impl<'a> Element<'a> {
                            element.elementtype() == ElementType::Correction ||
                            ElementGroup::Span.contains(element.elementtype()) {
 
-                           if let Ok(textpart) = element.text_by_key(set,textclass,false, retaintokenisation, Some(delimiter.clone())) {
+                           if let Ok(textpart) = element.text_following(set,textclass,false, retaintokenisation, Some(delimiter.clone()),following) {
                                //delimiter will be buffered and only printed upon next iteration
                                text += &textpart;
                                if let Ok(s) = element.get_textdelimiter(retaintokenisation) {
@@ -113,14 +119,16 @@ impl<'a> Element<'a> {
                            }
                         } else if element.elementtype() == ElementType::WordReference {
                             //follow the reference
-                            if let Some(element) = element.resolve() {
-                               if let Ok(textpart) = element.text_by_key(set,textclass,false, retaintokenisation, Some(delimiter.clone())) {
+                            if let Some(element) = element.resolve().filter(|element| !following.contains(&element.data.key())) {
+                               following.push(element.data.key());
+                               if let Ok(textpart) = element.text_following(set,textclass,false, retaintokenisation, Some(delimiter.clone()),following) {
                                    //delimiter will be buffered and only printed upon next iteration
                                    text += &textpart;
                                    if let Ok(s) = element.get_textdelimiter(retaintokenisation) {
                                        delimiter = s.to_string();
                                    }
                                }
+                               following.pop();
                             }
                         } else if element.elementtype() == ElementType::TextContent {
                             //only text of the requested class, text without a class is current text
@@ -133,7 +141,7 @@ impl<'a> Element<'a> {
                 }
             }
             if text.is_empty() && textcontent_element.is_some() {
-                if let Ok(parttext) = textcontent_element.unwrap().text_by_key(set,textclass,false,retaintokenisation, None) {
+                if let Ok(parttext) = textcontent_element.unwrap().text_following(set,textclass,false,retaintokenisation, None,following) {
                     text = parttext
                 }
             }
-- 
2.43.0


From 9d1399f659a60977f1f1fc67297c408633a461a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:36 +0000
Subject: [PATCH 33/53] fix: preserve whitespace in text content

Whitespace between markup was dropped on loading, and newlines were added inside text content
(after elements other than markup) and other elements holding text on saving.
---
 src/parser.rs     | 12 ++++++++++--
 src/serialiser.rs | 38 ++++++++++++++++++++++++++++++++------
 2 files changed, 42 insertions(+), 8 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 3f183df..17f4ef1 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -363,6 +363,14 @@ impl Document {
         }
     }
 
+    ///Is this an element in which all text is significant, including whitespace?
+    fn holds_text(&self, key: Option<&ElementKey>) -> bool {
+        key.and_then(|key| self.get_elementdata(*key)).map_or(false, |element| {
+            let props = self.props(element.elementtype);
+            props.textcontainer || props.phoncontainer
+        })
+    }
+
     ///Parses all elementsm from XML, this in turn invokes all parsers for the subelements
     pub(crate) fn parse_elements<R: BufRead>(&mut self, reader: &mut Reader<R>, mut buf: &mut Vec<u8>, mut nsbuf: &mut Vec<u8>) -> Result<(), FoliaError> {
         if !self.elementstore.items.is_empty() {
@@ -445,7 +453,7 @@ impl Document {
                     },
                     (None, Event::Text(s)) => {
                         let text = s.unescape_and_decode(reader)?;
-                        if text.trim() != "" {
+                        if text.trim() != "" || (!text.is_empty() && self.holds_text(stack.last())) {
                             if let Some(parent_key) = stack.last() {
                                 self.get_mut_elementdata(*parent_key).map( |parent| {
                                     parent.push(DataType::Text(text));
@@ -455,7 +463,7 @@ impl Document {
                     },
                     (None, Event::CData(s)) => {
                         let text = reader.decode(&s)?;
-                        if text.trim() != "" {
+                        if text.trim() != "" || (!text.is_empty() && self.holds_text(stack.last())) {
                             if let Some(parent_key) = stack.last() {
                                 self.get_mut_elementdata(*parent_key).map( |parent| {
                                     parent.push(DataType::Text(text.to_string()));
diff --git a/src/serialiser.rs b/src/serialiser.rs
index dd66e96..22a5da4 100644
--- a/src/serialiser.rs
+++ b/src/serialiser.rs
@@ -33,6 +33,16 @@ fn sorted<T>(map: &HashMap<String,T>) -> BTreeMap<&String,&T> {
     map.iter().collect()
 }
 
+///Are we inside an element that holds text?
+fn in_text(stack: &[(BytesEnd,bool,String)]) -> bool {
+    stack.last().map_or(false, |(_,holds_text,_)| *holds_text)
+}
+
+///Prevent the writer from adding a line break and indentation before the next event
+fn suppress_layout(writer: &mut Writer<Cursor<Vec<u8>>>) -> Result<(), FoliaError> {
+    writer.write_event(Event::Text(BytesText::from_plain(b""))).map_err(to_serialisation_error)
+}
+
 impl Document {
     ///Serialises a document to XML (vector of bytes, utf-8)
     pub fn xml(&self, root_key: ElementKey, indent: usize) -> Result<Vec<u8>, FoliaError> {
@@ -218,14 +228,17 @@ impl Document {
         let dec_is_default: Vec<bool> = self.declarationstore.default_mask();
 
         //Select children
-        let mut stack: Vec<(BytesEnd,ElementType,String)> = vec![];
+        let mut stack: Vec<(BytesEnd,bool,String)> = vec![]; //the boolean indicates whether the element holds text: layout matters there
         let mut previous_depth = 0;
         let mut last_start: String = "<ROOT>".to_string();
         for item in self.select_data_by_key(root_key,Selector::all_data(),Recursion::Always, true, false) {
             while item.depth < previous_depth {
-                if let Some((end,elementtype,_tagstring)) = stack.pop() {
+                if let Some((end,holds_text,_tagstring)) = stack.pop() {
+                    if holds_text {
+                        suppress_layout(writer)?;
+                    }
                     writer.write_event(Event::End(end)).map_err(to_serialisation_error)?;
-                    if !ElementGroup::TextMarkup.contains(elementtype) {
+                    if !in_text(&stack) {
                         writer.write_event(Event::Text(BytesText::from_plain(NL))).map_err(to_serialisation_error)?;
                     }
                     //eprintln!("[DEBUG] <-- Popped end tag {} ({})", tagstring.as_str(), item.depth);
@@ -278,6 +291,11 @@ impl Document {
                                 }
                             }
                         }
+                        let props = self.props(element.elementtype());
+                        let mut holds_text = in_text(&stack);
+                        if holds_text {
+                            suppress_layout(writer)?;
+                        }
                         if element.data.is_empty() {
                             writer.write_event(Event::Empty(start)).map_err(to_serialisation_error)?;
                         } else {
@@ -285,9 +303,11 @@ impl Document {
                             let end = BytesEnd::owned(tag.to_vec());
                             //eprintln!("[DEBUG] --> Pushed start tag {} ({})", tagstring.as_str(), item.depth);
                             last_start = tagstring.clone();
-                            stack.push((end,element.elementtype(),tagstring));
+                            holds_text = holds_text || props.textcontainer || props.phoncontainer ||
+                                         element.data.data.iter().any(|item| matches!(item, DataType::Text(_)));
+                            stack.push((end,holds_text,tagstring));
                         }
-                        if !ElementGroup::TextMarkup.contains(element.elementtype()) && element.elementtype() != ElementType::TextContent && element.elementtype() != ElementType::PhonContent {
+                        if !holds_text {
                             writer.write_event(Event::Text(BytesText::from_plain(NL))).map_err(to_serialisation_error)?;
                         }
                     }
@@ -299,6 +319,9 @@ impl Document {
                 },
                 DataType::Comment(comment) => {
                     //eprintln!("[DEBUG] (processing comment)");
+                    if in_text(&stack) {
+                        suppress_layout(writer)?;
+                    }
                     let text = BytesText::from_escaped_str(comment.as_str());
                     writer.write_event(Event::Comment(text)).map_err(to_serialisation_error)?;
                 }
@@ -310,7 +333,10 @@ impl Document {
         }
 
         //don't forget the final closing elements
-        while let Some((end, _elementtype, _tagstring)) = stack.pop() {
+        while let Some((end, holds_text, _tagstring)) = stack.pop() {
+            if holds_text {
+                suppress_layout(writer)?;
+            }
             writer.write_event(Event::End(end)).map_err(to_serialisation_error)?;
             //eprintln!("[DEBUG] <-- Popped final end tag {}", tagstring.as_str());
         }
-- 
2.43.0


From 9b6a8485096ab3f3990a7601ce54009691ab6180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:06 +0000
Subject: [PATCH 34/53] fix: save the set or processor of elements that carry
 nothing else

---
 src/serialiser.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/serialiser.rs b/src/serialiser.rs
index 22a5da4..d171d2a 100644
--- a/src/serialiser.rs
+++ b/src/serialiser.rs
@@ -260,18 +260,27 @@ impl Document {
                             }
                         }
                         if let Some(declaration_key) = element.declaration_key() {
+                            let mut omitted: Option<(&str,&str)> = None; //set or processor that is left out because it is the default
+                            let mut associated = false; //do we write anything that ties the element to its declaration?
                             //check if the declaration is the default, no need to serialise set then
-                            if !dec_is_default.get(declaration_key as usize).expect("checking default")  && element.elementtype() != ElementType::Feature {
+                            if element.elementtype() != ElementType::Feature {
                                 //decode encoded attributes
                                 if let Some(set) = element.set() {
-                                    start.push_attribute(("set", set) );
+                                    if *dec_is_default.get(declaration_key as usize).expect("checking default") {
+                                        omitted = Some(("set", set));
+                                    } else {
+                                        start.push_attribute(("set", set) );
+                                        associated = true;
+                                    }
                                 }
                             }
                             if let Some(subset) = element.subset() {
                                 start.push_attribute(("subset", subset) );
+                                associated = true;
                             }
                             if let Some(class) = element.class() {
                                 start.push_attribute(("class", class) );
+                                associated = true;
                             }
                             if let Some(processor) = element.processor() {
                                 //check if this processor is the default one, if so we don't need
@@ -286,10 +295,17 @@ impl Document {
                                     false
                                 };
 
-                                if !is_default {
+                                if is_default {
+                                    omitted = omitted.or(Some(("processor", processor)));
+                                } else {
                                     start.push_attribute(("processor", processor) );
+                                    associated = true;
                                 }
                             }
+                            //defaults only apply to elements that carry at least one such attribute
+                            if let (false, Some(attribute)) = (associated, omitted) {
+                                start.push_attribute(attribute);
+                            }
                         }
                         let props = self.props(element.elementtype());
                         let mut holds_text = in_text(&stack);
-- 
2.43.0


From d1a24b40c26f962e0dd28ea1e02bcbc590f926da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:19 +0000
Subject: [PATCH 35/53] fix: elements without text inside text content do not
 make it unreadable

---
 src/text.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/text.rs b/src/text.rs
index 34845a0..037abbb 100644
--- a/src/text.rs
+++ b/src/text.rs
@@ -87,8 +87,11 @@ impl<'a> Element<'a> {
                                         text += textdelimiter;
                                     }
                                 }
-                                let textpart = element.text_following(set,textclass,strict, retaintokenisation,None,following)?;
-                                text += &textpart;
+                                match element.text_following(set,textclass,strict, retaintokenisation,None,following) {
+                                    Ok(textpart) => text += &textpart,
+                                    Err(FoliaError::NoTextError(_)) => {}, //e.g. a linebreak, has no text of its own
+                                    Err(err) => return Err(err),
+                                }
                             }
                         }
                     },
-- 
2.43.0


From 6d76a825cfe9db9a32c07a7e75bf905199df0039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:37 +0000
Subject: [PATCH 36/53] fix: CDATA sections are not read as escaped text

---
 src/parser.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 17f4ef1..a3ed8ec 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -250,7 +250,8 @@ impl Document {
                     text.get_or_insert_with(String::new).push_str(&text_s);
                 },
                 (None, Event::CData(s)) => {
-                    text.get_or_insert_with(String::new).push_str(reader.decode(&s)?);
+                    let text_s = s.unescape_and_decode(reader)?; //quick-xml hands over the content in escaped form
+                    text.get_or_insert_with(String::new).push_str(&text_s);
                 },
                 (ref ns, Event::End(ref e)) => {
                     match (*ns, e.local_name())  {
@@ -462,11 +463,11 @@ impl Document {
                         }
                     },
                     (None, Event::CData(s)) => {
-                        let text = reader.decode(&s)?;
+                        let text = s.unescape_and_decode(reader)?; //quick-xml hands over the content in escaped form
                         if text.trim() != "" || (!text.is_empty() && self.holds_text(stack.last())) {
                             if let Some(parent_key) = stack.last() {
                                 self.get_mut_elementdata(*parent_key).map( |parent| {
-                                    parent.push(DataType::Text(text.to_string()));
+                                    parent.push(DataType::Text(text));
                                 });
                             }
                         }
-- 
2.43.0


From 981590e4b05ccf8dbf48351470d51a7c4b108460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:14 +0000
Subject: [PATCH 37/53] fix: refuse a processor under itself before adding
 anything

---
 src/document.rs | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/document.rs b/src/document.rs
index 58528f3..64a1593 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -383,6 +383,9 @@ impl Document {
     ///Add an element to the provenance chain
     ///Returns the key
     pub fn add_processor(&mut self, processor: Processor) -> Result<ProcKey, FoliaError> {
+        let key = self.get_processor_key_by_id(&processor.id);
+        let mut ancestors = self.processor_ancestor_ids(key.and_then(|key| self.get_processor(key)).and_then(|processor| processor.parent));
+        self.check_processor(&processor, &mut ancestors)?;
         let pending_subprocessors: Vec<Processor> = processor.pending_processors.replace(vec!());
         let child_key = self.add(processor, None);
         if let Ok(child_key) = child_key {
@@ -403,6 +406,8 @@ impl Document {
         if self.get_processor(parent_key).is_none() {
             return Err(FoliaError::InternalError(format!("Parent does not exist: {}", parent_key)));
         }
+        let mut ancestors = self.processor_ancestor_ids(Some(parent_key));
+        self.check_processor(&processor, &mut ancestors)?;
         let pending_subprocessors: Vec<Processor> = processor.pending_processors.replace(vec!());
         let child_key = self.add(processor, None);
         if let Ok(child_key) = child_key {
@@ -414,6 +419,29 @@ impl Document {
         child_key
     }
 
+    ///Returns the IDs of the specified processor and of all it is under
+    fn processor_ancestor_ids(&self, mut key: Option<ProcKey>) -> Vec<String> {
+        let mut ids = Vec::new();
+        while let Some(processor) = key.and_then(|key| self.get_processor(key)) {
+            ids.push(processor.id.clone());
+            key = processor.parent;
+        }
+        ids
+    }
+
+    ///Ensures neither the processor nor any of its pending subprocessors ends up under itself
+    fn check_processor(&self, processor: &Processor, ancestors: &mut Vec<String>) -> Result<(), FoliaError> {
+        if ancestors.contains(&processor.id) {
+            return Err(FoliaError::ValidationError(format!("Can't add processor {} under itself", processor.id)));
+        }
+        ancestors.push(processor.id.clone());
+        for subprocessor in processor.pending_processors.borrow().iter() {
+            self.check_processor(subprocessor, ancestors)?;
+        }
+        ancestors.pop();
+        Ok(())
+    }
+
     ///Adds the processor element to the parent element, automatically takes care
     ///of removing the old parent (if any).
     pub fn attach_processor(&mut self, parent_key: ProcKey, child_key: ProcKey) -> Result<(),FoliaError> {
-- 
2.43.0


From 77b8840f5d5a5586a9f2f813d5c7d103c3d8bf56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:23 +0000
Subject: [PATCH 38/53] fix: asking for a feature in an unknown set finds
 nothing, rather than failing

---
 src/select.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/select.rs b/src/select.rs
index e524129..8b78632 100644
--- a/src/select.rs
+++ b/src/select.rs
@@ -92,7 +92,7 @@ impl Selector {
                             result = Cmp::Is(subset_key);
                         }
                     }
-                } else {
+                } else if selector.set != Cmp::Unmatchable { //(a set that does not occur in the document has no subsets either)
                     return Err(FoliaError::QueryError(format!("Selector::from_query() can't match on a subset without a contexttype and a set, Add a .contextype() and .set() call. (selector.contexttype={:?}, selector.set={:?})",selector.contexttype, selector.set) ));
                 }
                 result
-- 
2.43.0


From 40b7b60b6101f9d026417b989679628bfe114378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:22 +0000
Subject: [PATCH 39/53] fix: text without set or class falls back to the
 default instead of panicking

---
 src/text.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/text.rs b/src/text.rs
index 037abbb..de658d4 100644
--- a/src/text.rs
+++ b/src/text.rs
@@ -210,11 +210,17 @@ impl<'a> Element<'a> {
     ///fallback to the default text set and "current class".
     pub fn text(&self, textparameters: &TextParameters) -> Result<String,FoliaError> {
         let doc = self.document().ok_or(FoliaError::KeyError("Element has no associated document".to_string()))?;
-        if let Some(dec_key) = doc.get_declaration_key_by_id(Declaration::index_id(AnnotationType::TEXT, &textparameters.set.as_ref().map(|s| s.as_str())).as_str()) {
-            let class_key = doc.class_key(dec_key, &textparameters.textclass.as_ref().map(|s| s.as_str()).expect("unwrapping textclass")  )?;
+        let set: Option<&str> = textparameters.set.as_ref().map(|s| s.as_str());
+        let mut dec_key = doc.get_declaration_key_by_id(Declaration::index_id(AnnotationType::TEXT, &set).as_str());
+        if dec_key.is_none() && set.is_none() {
+            //no set specified and none declared without set, fall back to the default text set
+            dec_key = doc.get_declaration_key_by_id(Declaration::index_id(AnnotationType::TEXT, &Some(DEFAULT_TEXT_SET)).as_str());
+        }
+        if let Some(dec_key) = dec_key {
+            let class_key = doc.class_key(dec_key, textparameters.textclass.as_ref().map(|s| s.as_str()).unwrap_or("current"))?;
             self.text_by_key(dec_key, class_key,textparameters.strict,textparameters.retaintokenisation, None)
         } else {
-            Err(FoliaError::EncodeError(format!("No declaration for the specified text set ({})", textparameters.set.as_ref().map(|s| s.as_str()).expect("unwrapping set"))))
+            Err(FoliaError::EncodeError(format!("No declaration for the specified text set ({})", set.unwrap_or(DEFAULT_TEXT_SET))))
         }
     }
 }
-- 
2.43.0


From 942096d580fe258b4cd48f62c7a324b6dd490699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:42 +0000
Subject: [PATCH 40/53] fix: getting text does not overflow the stack on deeply
 nested elements

---
 src/text.rs | 235 +++++++++++++++++++++++++++++-----------------------
 1 file changed, 130 insertions(+), 105 deletions(-)

diff --git a/src/text.rs b/src/text.rs
index de658d4..909cbb1 100644
--- a/src/text.rs
+++ b/src/text.rs
@@ -56,138 +56,163 @@ impl TextParameters {
 
 
 
-impl<'a> Element<'a> {
+///An element whose text is being collected
+struct TextCollector<'a> {
+    element: Element<'a>,
+    ///index of the next data item to process
+    position: usize,
+    ///is this a text container (text content, markup)?
+    container: bool,
+    printable: bool,
+    text: String,
+    ///delimiter that precedes the next part, if there is one
+    delimiter: String,
+    ///delimiter that precedes the text of the whole
+    previousdelimiter: Option<String>,
+    ///the text content of the element itself, used if there is no text from its children
+    textcontent_element: Option<Element<'a>>,
+    ///are we getting the text from textcontent_element?
+    own_text: bool,
+    ///was this element referred to?
+    followed: bool,
+}
 
-    ///Returns the text content of a given element
-    pub fn text_by_key(&self, set: DecKey, textclass: ClassKey, strict: bool, retaintokenisation: bool, previousdelimiter: Option<String>) -> Result<String,FoliaError> {
-        self.text_following(set, textclass, strict, retaintokenisation, previousdelimiter, &mut Vec::new())
+impl<'a> TextCollector<'a> {
+    fn new(element: Element<'a>, doc: &'a Document, previousdelimiter: Option<String>, followed: bool) -> Self {
+        let properties = doc.props(element.elementtype());
+        Self {
+            element: element,
+            position: 0,
+            container: properties.textcontainer,
+            printable: properties.printable && !properties.hidden,
+            text: String::new(),
+            delimiter: String::new(),
+            previousdelimiter: previousdelimiter,
+            textcontent_element: None,
+            own_text: false,
+            followed: followed,
+        }
     }
+}
 
-    ///Implementation of ``text_by_key()``; ``following`` holds the targets of the references that are currently
-    ///being followed, to not go in circles if an element (indirectly) refers to itself
-    fn text_following(&self, set: DecKey, textclass: ClassKey, strict: bool, retaintokenisation: bool, previousdelimiter: Option<String>, following: &mut Vec<Option<ElementKey>>) -> Result<String,FoliaError> {
-        let doc = self.document().ok_or(FoliaError::KeyError("Element has no associated document".to_string()))?;
-
-        let properties = doc.props(self.elementtype());
+impl<'a> Element<'a> {
 
-        if properties.textcontainer {
-            //we are a text container (<t> or markup or something)
-            let mut text: String = String::new();
-            for item in self.elementdata().data.iter()  {
+    ///Returns the text content of a given element
+    pub fn text_by_key(&self, set: DecKey, textclass: ClassKey, _strict: bool, retaintokenisation: bool, previousdelimiter: Option<String>) -> Result<String,FoliaError> {
+        let doc = self.document.ok_or(FoliaError::KeyError("Element has no associated document".to_string()))?;
+        //Elements whose text is being collected, each is a child of (or referred to by) the preceding one. Nesting may
+        //be deep, hence no recursion.
+        let mut stack: Vec<TextCollector> = vec![TextCollector::new(*self, doc, previousdelimiter, false)];
+        loop {
+            let collector = stack.last_mut().expect("getting text collector");
+            if !collector.container && (!collector.printable || collector.own_text) {
+                //nothing (more) to collect here
+                collector.position = collector.element.data.data.len();
+            }
+            if let Some(item) = collector.element.data.data.get(collector.position) {
+                collector.position += 1;
                 match item {
-                    DataType::Text(item_text) => {
-                        text += &item_text;
+                    DataType::Text(item_text) if collector.container => {
+                        collector.text += &item_text;
                     },
                     DataType::Element(element_key) => {
                         if let Some(element) = doc.get_element(*element_key) {
-                            let properties = doc.props(element.elementtype());
-                            if properties.printable {
-                                if !text.is_empty() {
-                                    if let Some(textdelimiter) = properties.textdelimiter {
-                                        text += textdelimiter;
+                            if collector.container {
+                                //we are a text container (<t> or markup or something)
+                                let properties = doc.props(element.elementtype());
+                                if properties.printable {
+                                    if !collector.text.is_empty() {
+                                        if let Some(textdelimiter) = properties.textdelimiter {
+                                            collector.text += textdelimiter;
+                                        }
                                     }
+                                    stack.push(TextCollector::new(element, doc, None, false));
                                 }
-                                match element.text_following(set,textclass,strict, retaintokenisation,None,following) {
-                                    Ok(textpart) => text += &textpart,
-                                    Err(FoliaError::NoTextError(_)) => {}, //e.g. a linebreak, has no text of its own
-                                    Err(err) => return Err(err),
+                            } else if ElementGroup::Structure.contains(element.elementtype()) ||
+                               element.elementtype() == ElementType::Correction ||
+                               ElementGroup::Span.contains(element.elementtype()) {
+                                let delimiter = collector.delimiter.clone();
+                                stack.push(TextCollector::new(element, doc, Some(delimiter), false));
+                            } else if element.elementtype() == ElementType::WordReference {
+                                //follow the reference, but don't go in circles if an element (indirectly) refers to itself
+                                let delimiter = collector.delimiter.clone();
+                                let target = element.data.attribs().iter().find_map(|attrib| match attrib {
+                                    Attribute::Idref(id) => doc.get_element_by_id(id),
+                                    _ => None
+                                });
+                                if let Some(target) = target {
+                                    if !stack.iter().any(|other| other.followed && other.element.key() == target.key()) {
+                                        stack.push(TextCollector::new(target, doc, Some(delimiter), true));
+                                    }
+                                }
+                            } else if element.elementtype() == ElementType::TextContent {
+                                //only text of the requested class, text without a class is current text
+                                let requested_class = doc.get_declaration(set).and_then(|declaration| declaration.get_class(textclass));
+                                if requested_class == Some(element.class().unwrap_or("current")) {
+                                    collector.textcontent_element = Some(element);
                                 }
                             }
                         }
                     },
                     _ => {},
                 }
+                continue;
             }
-            Ok(text)
-        } else if !properties.printable || properties.hidden {
-            Err(FoliaError::NoTextError("No such text".to_string()))
-        } else {
-            //Get text from children first
-            let mut delimiter: String = String::new();
-            let mut text: String = String::new();
-            let mut textcontent_element: Option<Element> = None;
-            for element in self.elementdata().data.iter() {
-                if let DataType::Element(element_key) = element {
-                    if let Some(element) = doc.get_element(*element_key) {
-                        if ElementGroup::Structure.contains(element.elementtype()) ||
-                           element.elementtype() == ElementType::Correction ||
-                           ElementGroup::Span.contains(element.elementtype()) {
-
-                           if let Ok(textpart) = element.text_following(set,textclass,false, retaintokenisation, Some(delimiter.clone()),following) {
-                               //delimiter will be buffered and only printed upon next iteration
-                               text += &textpart;
-                               if let Ok(s) = element.get_textdelimiter(retaintokenisation) {
-                                   delimiter = s.to_string();
-                               }
-                           }
-                        } else if element.elementtype() == ElementType::WordReference {
-                            //follow the reference
-                            if let Some(element) = element.resolve().filter(|element| !following.contains(&element.data.key())) {
-                               following.push(element.data.key());
-                               if let Ok(textpart) = element.text_following(set,textclass,false, retaintokenisation, Some(delimiter.clone()),following) {
-                                   //delimiter will be buffered and only printed upon next iteration
-                                   text += &textpart;
-                                   if let Ok(s) = element.get_textdelimiter(retaintokenisation) {
-                                       delimiter = s.to_string();
-                                   }
-                               }
-                               following.pop();
-                            }
-                        } else if element.elementtype() == ElementType::TextContent {
-                            //only text of the requested class, text without a class is current text
-                            let requested_class = doc.get_declaration(set).and_then(|declaration| declaration.get_class(textclass));
-                            if requested_class == Some(element.class().unwrap_or("current")) {
-                                textcontent_element = Some(element);
-                            }
-                        }
-                    }
+
+            //all items have been processed
+            if collector.text.is_empty() && !collector.own_text {
+                if let Some(element) = collector.textcontent_element {
+                    //no text from the children, use our own text content then
+                    collector.own_text = true;
+                    stack.push(TextCollector::new(element, doc, None, false));
+                    continue;
                 }
             }
-            if text.is_empty() && textcontent_element.is_some() {
-                if let Ok(parttext) = textcontent_element.unwrap().text_following(set,textclass,false,retaintokenisation, None,following) {
-                    text = parttext
+            let done = stack.pop().expect("popping text collector");
+            let text: Option<String> = if done.container {
+                Some(done.text)
+            } else if done.text.is_empty() {
+                None
+            } else {
+                match done.previousdelimiter {
+                    Some(previousdelimiter) => Some(previousdelimiter + done.text.as_str()),
+                    None => Some(done.text)
+                }
+            };
+            if let Some(collector) = stack.last_mut() {
+                if let Some(text) = text {
+                    collector.text += &text;
+                    if !collector.container && !collector.own_text {
+                        //delimiter will be buffered and only printed upon next iteration
+                        if let Ok(delimiter) = done.element.get_textdelimiter(retaintokenisation) {
+                            collector.delimiter = delimiter.to_string();
+                        }
+                    }
                 }
-            }
-
-            if !text.is_empty() && previousdelimiter.is_some() {
-                text = previousdelimiter.unwrap() + text.as_str();
-            }
-
-            if !text.is_empty() {
-                Ok(text)
             } else {
-                Err(FoliaError::NoTextError("No such text".to_string()))
+                return text.ok_or(FoliaError::NoTextError("No such text".to_string()));
             }
         }
     }
 
     ///Returns the text delimiter for this element
     pub fn get_textdelimiter(&self, retaintokenisation: bool) -> Result<Cow<str>,FoliaError> {
-        let doc = self.document().ok_or(FoliaError::KeyError("Element has no associated document".to_string()))?;
-        let properties =  doc.props(self.elementtype());
-        if properties.textdelimiter.is_none() {
-            //no text delimiter of itself, recurse into children to inherit delimiter
-            for item in self.elementdata().data.iter().rev() {
-                if let DataType::Element(element_key) = item {
-                    if let Some(element) = doc.get_element(*element_key) {
-                        //recurse
-                        match element.get_textdelimiter(retaintokenisation) {
-                            Ok(Cow::Borrowed(s)) => {
-                                return Ok(Cow::Owned(s.to_owned()));
-                            },
-                            Ok(Cow::Owned(s)) => {
-                                return Ok(Cow::Owned(s));
-                            },
-                            Err(e) => {
-                                return Err(e);
-                            }
-                        }
-                    }
-                }
-            }
-            Ok(Cow::Borrowed(""))
-        } else if properties.optional_attribs.contains(&AttribType::SPACE) {
-            let space: bool = retaintokenisation || match self.attrib(AttribType::SPACE) {
+        let doc = self.document.ok_or(FoliaError::KeyError("Element has no associated document".to_string()))?;
+        let mut element = *self;
+        let mut properties = doc.props(element.elementtype());
+        while properties.textdelimiter.is_none() {
+            //no text delimiter of itself, inherit the delimiter from the last child
+            element = match element.data.data.iter().rev().find_map(|item| match item {
+                DataType::Element(element_key) => doc.get_element(*element_key),
+                _ => None
+            }) {
+                Some(child) => child,
+                None => return Ok(Cow::Borrowed(""))
+            };
+            properties = doc.props(element.elementtype());
+        }
+        if properties.optional_attribs.contains(&AttribType::SPACE) {
+            let space: bool = retaintokenisation || match element.attrib(AttribType::SPACE) {
                 Some(Attribute::Space(space)) => {
                     *space
                 },
-- 
2.43.0


From ca189801af7dbcd52de95d1d620c5333e0c6d7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:37 +0000
Subject: [PATCH 41/53] fix: saving does not overflow the stack on deeply
 nested processors

---
 src/serialiser.rs | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/serialiser.rs b/src/serialiser.rs
index d171d2a..185c896 100644
--- a/src/serialiser.rs
+++ b/src/serialiser.rs
@@ -161,15 +161,27 @@ impl Document {
     fn xml_provenance(&self, writer: &mut Writer<Cursor<Vec<u8>>>) -> Result<(), FoliaError> {
         writer.write_event(Event::Start( BytesStart::borrowed_name(b"provenance"))).map_err(to_serialisation_error)?;
         writer.write_event(Event::Text(BytesText::from_plain(NL))).map_err(to_serialisation_error)?;
-        for processor_key in self.provenancestore.chain.iter() {
-            self.xml_processor(writer, *processor_key)?;
+        //processors yet to write, last one first, along with whether only the end tag remains (they may be deeply nested)
+        let mut stack: Vec<(ProcKey,bool)> = self.provenancestore.chain.iter().rev().map(|processor_key| (*processor_key, false)).collect();
+        while let Some((processor_key, end)) = stack.pop() {
+            if end {
+                writer.write_event(Event::End(BytesEnd::borrowed(b"processor"))).map_err(to_serialisation_error)?;
+                writer.write_event(Event::Text(BytesText::from_plain(NL))).map_err(to_serialisation_error)?;
+            } else if self.xml_processor(writer, processor_key)? {
+                stack.push((processor_key, true));
+                if let Some(processor) = self.get_processor(processor_key) {
+                    stack.extend(processor.processors.iter().rev().map(|subprocessor_key| (*subprocessor_key, false)));
+                }
+            }
         }
         writer.write_event(Event::End(BytesEnd::borrowed(b"provenance"))).map_err(to_serialisation_error)?;
         writer.write_event(Event::Text(BytesText::from_plain(NL))).map_err(to_serialisation_error)?;
         Ok(())
     }
 
-    fn xml_processor(&self, writer: &mut Writer<Cursor<Vec<u8>>>, processor_key: ProcKey) -> Result<(),FoliaError> {
+    ///Serialize a processor, returns a boolean indicating whether it has subprocessors, which
+    ///are to be written next, followed by the end tag
+    fn xml_processor(&self, writer: &mut Writer<Cursor<Vec<u8>>>, processor_key: ProcKey) -> Result<bool,FoliaError> {
         if let Some(processor) = self.get_processor(processor_key) {
             let mut processor_start = BytesStart::borrowed_name(b"processor");
             processor_start.push_attribute(("xml:id", processor.id.as_str() ));
@@ -212,14 +224,11 @@ impl Document {
                 writer.write_event(Event::Empty(processor_start)).map_err(to_serialisation_error)?;
             } else {
                 writer.write_event(Event::Start(processor_start)).map_err(to_serialisation_error)?;
-                for subprocessor_key in processor.processors.iter() {
-                    self.xml_processor(writer, *subprocessor_key)?;
-                }
-                writer.write_event(Event::End(BytesEnd::borrowed(b"processor"))).map_err(to_serialisation_error)?;
+                return Ok(true);
             }
             writer.write_event(Event::Text(BytesText::from_plain(NL))).map_err(to_serialisation_error)?;
         }
-        Ok(())
+        Ok(false)
     }
 
     ///Serialize elements to XML
-- 
2.43.0


From da75e222447e3c46d442518915c9f1d6bd17cda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:17 +0000
Subject: [PATCH 42/53] fix: select and save elements without a parent as
 themselves rather than as the document root

---
 src/document.rs     | 3 +++
 src/elementstore.rs | 4 ++++
 src/select.rs       | 2 +-
 3 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/document.rs b/src/document.rs
index 64a1593..f612ca7 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -176,6 +176,7 @@ impl Document {
         self.check_subtree(&element, None)?;
         let mut added: Vec<ElementKey> = Vec::new();
         let element_key = self.add_subtree(element, None, &mut added)?;
+        self.elementstore.orphans.insert(element_key, DataType::Element(element_key));
         for key in added {
             if key != element_key {
                 self.post_add(key, None)?;
@@ -276,6 +277,7 @@ impl Document {
                 }
             }
         }
+        self.elementstore.orphans.remove(&child_key);
         Ok(())
     }
 
@@ -377,6 +379,7 @@ impl Document {
                 }
             }
         }
+        self.elementstore.orphans.insert(child_key, DataType::Element(child_key));
         Ok(())
     }
 
diff --git a/src/elementstore.rs b/src/elementstore.rs
index 61f7563..4147a96 100644
--- a/src/elementstore.rs
+++ b/src/elementstore.rs
@@ -20,6 +20,9 @@ pub struct ElementStore {
     ///inside elements. Used by the select iterator.
     pub(crate) root: DataType,
 
+    ///Likewise, for elements that have no parent but are not the document root
+    pub(crate) orphans: HashMap<ElementKey,DataType>,
+
     ///An ``ElementStore`` holds a copy of the FoLiA specification. Duplicating this for each
     ///element store causes some duplication when holding multiple documents (or stores) in memory, but the specification itself contains mostly
     ///references to static strings and arrays contained within the library, and therefore only loaded once.
@@ -32,6 +35,7 @@ impl Default for ElementStore {
             items: vec![],
             index: HashMap::new(),
             root: DataType::Element(0),
+            orphans: HashMap::new(),
             specification: Specification::default()
         }
     }
diff --git a/src/select.rs b/src/select.rs
index 8b78632..c1db348 100644
--- a/src/select.rs
+++ b/src/select.rs
@@ -405,7 +405,7 @@ impl<'a> Iterator for SelectIterator<'a> {
                         *key
                     };
                     let item: &'a DataType  = if parent_key == *key {
-                        &self.document.elementstore.root
+                        self.document.elementstore.orphans.get(key).unwrap_or(&self.document.elementstore.root)
                     } else {
                         let index = self.document.get_elementdata(parent_key).expect("unwrapping parent key").index(&DataType::Element(*key)).expect("unwrapping child key");
                         self.document.get_elementdata(parent_key).expect("unwrapping parent key").get_data_at(index).expect("unwrapping child key")
-- 
2.43.0


From 1a01ceea75ebfd984e7d16a65c9c888ab2e29b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:01 +0000
Subject: [PATCH 43/53] fix: annotators of declarations were lost if they had
 an end tag or if the provenance came first

---
 src/parser.rs | 56 ++++++++++++++++++++++++++++++---------------------
 1 file changed, 33 insertions(+), 23 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index a3ed8ec..56a56a3 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -107,20 +107,7 @@ impl Document {
                             }
                         },
                         (Some(ns), b"annotator") if ns == NSFOLIA && parsedeclarations => {
-                            let mut processor_id: Option<String> = None;
-                            for attrib in e.attributes() {
-                                let attrib = attrib?;
-                                if let Ok(value) = attrib.unescape_and_decode_value(&reader) {
-                                    match attrib.key {
-                                        b"processor" => {
-                                            processor_id = Some(value.clone());
-                                        },
-                                        otherwise => {
-                                            eprintln!("WARNING: Unhandled attribute annotator/@{:?}",String::from_utf8_lossy(otherwise));
-                                        }
-                                    }
-                                }
-                            }
+                            let processor_id = parse_annotator(&reader, &e)?;
                             if let Some(processor_id) = processor_id {
                                 if let Some(declaration_key) = declaration_key {
                                     //add to a temporary structure because we don't know about the
@@ -215,6 +202,11 @@ impl Document {
                             }
                             text = None;
                         },
+                        (Some(ns), b"annotator") if ns == NSFOLIA && parsedeclarations => {
+                            if let (Some(processor_id), Some(declaration_key)) = (parse_annotator(&reader, &e)?, declaration_key) {
+                                annotators.push((declaration_key, processor_id)); //resolved later, as above
+                            }
+                        },
                         (Some(ns), b"processor") if ns == NSFOLIA && parseprovenance => {
                             let processor = Processor::parse(&reader, &e).map_err(FoliaError::add_parseerror("Error parsing processor"))?;
                             if processor_stack.is_empty() {
@@ -259,15 +251,7 @@ impl Document {
                             submetadata = None;
                         },
                         (Some(ns), b"metadata") if ns == NSFOLIA => {
-                            break;
-                        },
-                        (Some(ns), b"annotations") if ns == NSFOLIA => {
-                            parsedeclarations = false;
-                        },
-                        (Some(ns), b"provenance") if ns == NSFOLIA => {
-                            parseprovenance = false;
-
-                            //we are done with provenance, we can now assign processors to
+                            //we are done with both declarations and provenance (in whatever order), we can now assign processors to
                             //declarations using our temporary structure
                             for (dec_key, processor_id) in annotators.iter() {
                                 if let Some(processor_key) = doc.get_processor_key_by_id(processor_id) {
@@ -276,6 +260,13 @@ impl Document {
                                     }
                                 }
                             }
+                            break;
+                        },
+                        (Some(ns), b"annotations") if ns == NSFOLIA => {
+                            parsedeclarations = false;
+                        },
+                        (Some(ns), b"provenance") if ns == NSFOLIA => {
+                            parseprovenance = false;
                         },
                         (Some(ns), b"processor") if ns == NSFOLIA && parseprovenance => {
                             processor_stack.pop();
@@ -515,6 +506,25 @@ fn get_declaration_type(tag: &str) -> Result<AnnotationType, FoliaError> {
     }
 }
 
+///Parse an annotator element (in a declaration), returns the ID of the processor it refers to (if any)
+fn parse_annotator<R: BufRead>(reader: &Reader<R>, event: &quick_xml::events::BytesStart) -> Result<Option<String>, FoliaError> {
+    let mut processor_id: Option<String> = None;
+    for attrib in event.attributes() {
+        let attrib = attrib?;
+        if let Ok(value) = attrib.unescape_and_decode_value(&reader) {
+            match attrib.key {
+                b"processor" => {
+                    processor_id = Some(value);
+                },
+                otherwise => {
+                    eprintln!("WARNING: Unhandled attribute annotator/@{:?}",String::from_utf8_lossy(otherwise));
+                }
+            }
+        }
+    }
+    Ok(processor_id)
+}
+
 impl Metadata {
     ///Parse the attributes of a metadata or submetadata element, returns its ID (if any) and the
     ///(still empty) metadata
-- 
2.43.0


From f8c62230f588fe878db3b8064949c9febc4e3ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:03 +0000
Subject: [PATCH 44/53] fix: metadata of processors was added to that of the
 document and not saved

---
 src/parser.rs     | 25 ++++++++++++++-----------
 src/serialiser.rs | 12 ++++++++++--
 2 files changed, 24 insertions(+), 13 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 56a56a3..b6e9151 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -134,10 +134,9 @@ impl Document {
                                 let attrib = attrib?;
                                 if attrib.key == b"id" || attrib.key == b"xml:id" {
                                     let meta_id = attrib.unescape_and_decode_value(&reader)?;
-                                    match submetadata.as_ref().and_then(|id| doc.submetadata.get_mut(id)) {
-                                        Some(submetadata) => submetadata.data.insert(meta_id, String::new()),
-                                        None => doc.metadata.data.insert(meta_id, String::new()),
-                                    };
+                                    if let Some(metadata) = doc.metadata_in_context(processor_stack.last(), submetadata.as_ref()) {
+                                        metadata.data.insert(meta_id, String::new());
+                                    }
                                 }
                             }
                         },
@@ -274,13 +273,8 @@ impl Document {
                         (Some(ns), b"meta") if ns == NSFOLIA => {
                             if let Some(meta_id) = &meta_id {
                                 let text = text.take().unwrap_or_default();
-                                if let Some(submetadata_id) = &submetadata {
-                                    let submetadata_opt: Option<&mut Metadata> = doc.submetadata.get_mut(submetadata_id);
-                                    if let Some(submetadata) = submetadata_opt {
-                                        submetadata.data.insert(meta_id.clone(), text);
-                                    }
-                                } else {
-                                    doc.metadata.data.insert(meta_id.clone(), text);
+                                if let Some(metadata) = doc.metadata_in_context(processor_stack.last(), submetadata.as_ref()) {
+                                    metadata.data.insert(meta_id.clone(), text);
                                 }
                             }
                         },
@@ -355,6 +349,15 @@ impl Document {
         }
     }
 
+    ///Returns the metadata a meta element adds to: that of the processor or submetadata section it is in, or of the document as a whole
+    fn metadata_in_context(&mut self, processor_key: Option<&ProcKey>, submetadata_id: Option<&String>) -> Option<&mut Metadata> {
+        match (processor_key, submetadata_id) {
+            (Some(processor_key), _) => self.get_mut_processor(*processor_key).map(|processor| &mut processor.metadata),
+            (None, Some(submetadata_id)) => self.submetadata.get_mut(submetadata_id),
+            (None, None) => Some(&mut self.metadata),
+        }
+    }
+
     ///Is this an element in which all text is significant, including whitespace?
     fn holds_text(&self, key: Option<&ElementKey>) -> bool {
         key.and_then(|key| self.get_elementdata(*key)).map_or(false, |element| {
diff --git a/src/serialiser.rs b/src/serialiser.rs
index 185c896..2a9fb38 100644
--- a/src/serialiser.rs
+++ b/src/serialiser.rs
@@ -179,7 +179,7 @@ impl Document {
         Ok(())
     }
 
-    ///Serialize a processor, returns a boolean indicating whether it has subprocessors, which
+    ///Serialize a processor, returns a boolean indicating whether its subprocessors (if any)
     ///are to be written next, followed by the end tag
     fn xml_processor(&self, writer: &mut Writer<Cursor<Vec<u8>>>, processor_key: ProcKey) -> Result<bool,FoliaError> {
         if let Some(processor) = self.get_processor(processor_key) {
@@ -220,10 +220,18 @@ impl Document {
             if !processor.resourcelink.is_empty() {
                 processor_start.push_attribute(("resourcelink", processor.resourcelink.as_str() ));
             }
-            if processor.processors.is_empty() {
+            if processor.processors.is_empty() && processor.metadata.data.is_empty() {
                 writer.write_event(Event::Empty(processor_start)).map_err(to_serialisation_error)?;
             } else {
                 writer.write_event(Event::Start(processor_start)).map_err(to_serialisation_error)?;
+                for (meta_id, value) in sorted(&processor.metadata.data) {
+                    let mut meta_start = BytesStart::borrowed_name(b"meta");
+                    meta_start.push_attribute(("id", meta_id.as_str() ));
+                    writer.write_event(Event::Start(meta_start)).map_err(to_serialisation_error)?;
+                    writer.write_event(Event::Text(BytesText::from_plain_str(value))).map_err(to_serialisation_error)?;
+                    writer.write_event(Event::End(BytesEnd::borrowed(b"meta"))).map_err(to_serialisation_error)?;
+                    writer.write_event(Event::Text(BytesText::from_plain(NL))).map_err(to_serialisation_error)?;
+                }
                 return Ok(true);
             }
             writer.write_event(Event::Text(BytesText::from_plain(NL))).map_err(to_serialisation_error)?;
-- 
2.43.0


From cd5b04aaf20732fdd79c68a34258da4d2c54df8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:07 +0000
Subject: [PATCH 45/53] fix: take the words of span roles and nested spans into
 account when placing a span annotation

---
 src/document.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/document.rs b/src/document.rs
index f612ca7..6199613 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -766,6 +766,9 @@ impl Document {
                             span_keys.push(k);
                         }
                     }
+                } else {
+                    //the words of span roles (e.g. the head of a dependency) and nested spans are part of the span as well
+                    span_keys.extend(self.get_span_keys(ed));
                 }
             }
         }
-- 
2.43.0


From ee4738852a757385d6a6d3af82d120914204494d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:03 +0000
Subject: [PATCH 46/53] fix: selecting elements without following span
 references returned span annotations once per word referring to them

---
 src/select.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/select.rs b/src/select.rs
index c1db348..ba46447 100644
--- a/src/select.rs
+++ b/src/select.rs
@@ -589,6 +589,9 @@ impl<'a> Iterator for SelectElementsIterator<'a> {
     fn next(&mut self) -> Option<Self::Item> {
         while let Some(selectitem) = self.iterator.next() {
             match *selectitem {
+                DataType::SpanReference(_) if !self.iterator.spanreferences => {
+                    //references are not followed, the span annotation is returned at its own place only, continue
+                },
                 DataType::Element(key) | DataType::SpanReference(key) => {
                     let element = self.iterator.document.get_element(key).expect("Getting key from elementstore for SelectElementsIterator");
                     return Some(Self::Item { element: element });
-- 
2.43.0


From 38d27779c69e5dd1242bad21c281850bd9f1f8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:42 +0000
Subject: [PATCH 47/53] fix: an annotation layer added on its own takes the set
 of its annotations as any other

---
 src/document.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index 6199613..6f7858d 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -178,9 +178,7 @@ impl Document {
         let element_key = self.add_subtree(element, None, &mut added)?;
         self.elementstore.orphans.insert(element_key, DataType::Element(element_key));
         for key in added {
-            if key != element_key {
-                self.post_add(key, None)?;
-            }
+            self.post_add(key, None)?;
         }
         Ok(element_key)
     }
-- 
2.43.0


From 32d70617834778d9e2a6befdb60946742520565f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:52 +0000
Subject: [PATCH 48/53] fix: text without a class in another set than the
 default could not be retrieved

---
 src/document.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/document.rs b/src/document.rs
index 6f7858d..697034a 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -187,7 +187,13 @@ impl Document {
     ///because this one adds a declaration without any checks.
     ///Returns the key.
     pub fn add_declaration(&mut self, declaration: Declaration) -> Result<DecKey, FoliaError> {
-        <Self as Store<Declaration,DecKey>>::add(self, declaration, None)
+        let text = declaration.annotationtype == AnnotationType::TEXT;
+        let dec_key = <Self as Store<Declaration,DecKey>>::add(self, declaration, None)?;
+        if text {
+            //text without a class is current text, whatever its set
+            self.add_class(dec_key, &"current".to_string())?;
+        }
+        Ok(dec_key)
     }
 
     ///Add an processor the document (but the processor will be an orphan and not in the processor
-- 
2.43.0


From b8ccbd62f5f0aab4bf752a9a559a4b91ce686a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:53 +0000
Subject: [PATCH 49/53] fix: text of another set was taken for text of the
 requested set

---
 src/text.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/text.rs b/src/text.rs
index 909cbb1..cd10700 100644
--- a/src/text.rs
+++ b/src/text.rs
@@ -146,9 +146,10 @@ impl<'a> Element<'a> {
                                     }
                                 }
                             } else if element.elementtype() == ElementType::TextContent {
-                                //only text of the requested class, text without a class is current text
+                                //only text of the requested set and class, text without a class is current text
                                 let requested_class = doc.get_declaration(set).and_then(|declaration| declaration.get_class(textclass));
-                                if requested_class == Some(element.class().unwrap_or("current")) {
+                                let in_set = element.declaration_key().map_or(true, |dec_key| dec_key == set);
+                                if in_set && requested_class == Some(element.class().unwrap_or("current")) {
                                     collector.textcontent_element = Some(element);
                                 }
                             }
-- 
2.43.0


From 4bc281a7042b3fa1b63f158b1eddcc9f5feefdcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:01 +0000
Subject: [PATCH 50/53] fix: properties that could not be applied still changed
 autodeclare

---
 src/document.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/document.rs b/src/document.rs
index 697034a..68f1264 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -116,7 +116,6 @@ impl Document {
     }
 
     pub fn apply_properties(&mut self, properties: DocumentProperties) -> Result<(),FoliaError> {
-        self.autodeclare = properties.autodeclare;
         if let Some(processor) = properties.processor {
             let prockey = self.add_processor(processor)?;
             self.active_processor = Some(prockey);
@@ -129,6 +128,7 @@ impl Document {
                 }
             }
         }
+        self.autodeclare = properties.autodeclare; //last, so nothing changes if the properties can't be applied
         Ok(())
     }
 
-- 
2.43.0


From b600d6a1034a0fbc11794890352a43a8cbfdc469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:03 +0000
Subject: [PATCH 51/53] fix: an element added on its own could claim to have a
 parent

---
 src/document.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/document.rs b/src/document.rs
index 68f1264..796a3f7 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -223,6 +223,7 @@ impl Document {
     ///The keys of all added elements are appended to ``added``, those still need post-processing.
     pub(crate) fn add_subtree(&mut self, mut element: ElementData, parent_key: Option<ElementKey>, added: &mut Vec<ElementKey>) -> Result<ElementKey,FoliaError> {
         let data = std::mem::replace(&mut element.data, Vec::new());
+        element.set_parent_key(None); //not until it is actually attached
         let key = <Self as Store<ElementData,ElementKey>>::add(self, element, parent_key)?;
         if let Some(parent_key) = parent_key {
             self.attach_element(parent_key, key)?;
-- 
2.43.0


From cfa1d68d0fab24c3094441fce602b7b4492b2fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:04 +0000
Subject: [PATCH 52/53] fix: existing subprocessors were saved twice or stayed
 in the chain

---
 src/document.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index 796a3f7..56343b9 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -390,10 +390,11 @@ impl Document {
 
     ///Add an element to the provenance chain
     ///Returns the key
-    pub fn add_processor(&mut self, processor: Processor) -> Result<ProcKey, FoliaError> {
+    pub fn add_processor(&mut self, mut processor: Processor) -> Result<ProcKey, FoliaError> {
         let key = self.get_processor_key_by_id(&processor.id);
         let mut ancestors = self.processor_ancestor_ids(key.and_then(|key| self.get_processor(key)).and_then(|processor| processor.parent));
         self.check_processor(&processor, &mut ancestors)?;
+        let existing_subprocessors: Vec<ProcKey> = std::mem::replace(&mut processor.processors, vec!());
         let pending_subprocessors: Vec<Processor> = processor.pending_processors.replace(vec!());
         let child_key = self.add(processor, None);
         if let Ok(child_key) = child_key {
@@ -401,6 +402,9 @@ impl Document {
             if !is_subprocessor && !self.provenancestore.chain.contains(&child_key) {
                 self.provenancestore.chain.push(child_key);
             }
+            for subprocessor_key in existing_subprocessors {
+                self.attach_processor(child_key, subprocessor_key)?;
+            }
             for subprocessor in pending_subprocessors {
                 self.add_subprocessor(child_key, subprocessor)?;
             }
@@ -410,16 +414,20 @@ impl Document {
 
     ///Add a processor as a subprocessor
     ///Returns the key
-    pub fn add_subprocessor(&mut self, parent_key: ProcKey, processor: Processor) -> Result<ProcKey, FoliaError> {
+    pub fn add_subprocessor(&mut self, parent_key: ProcKey, mut processor: Processor) -> Result<ProcKey, FoliaError> {
         if self.get_processor(parent_key).is_none() {
             return Err(FoliaError::InternalError(format!("Parent does not exist: {}", parent_key)));
         }
         let mut ancestors = self.processor_ancestor_ids(Some(parent_key));
         self.check_processor(&processor, &mut ancestors)?;
+        let existing_subprocessors: Vec<ProcKey> = std::mem::replace(&mut processor.processors, vec!());
         let pending_subprocessors: Vec<Processor> = processor.pending_processors.replace(vec!());
         let child_key = self.add(processor, None);
         if let Ok(child_key) = child_key {
             self.attach_processor(parent_key, child_key)?;
+            for subprocessor_key in existing_subprocessors {
+                self.attach_processor(child_key, subprocessor_key)?;
+            }
             for subprocessor in pending_subprocessors {
                 self.add_subprocessor(child_key, subprocessor)?;
             }
@@ -437,12 +445,19 @@ impl Document {
         ids
     }
 
-    ///Ensures neither the processor nor any of its pending subprocessors ends up under itself
+    ///Ensures neither the processor nor any of its subprocessors (pending or existing) ends up under itself, and
+    ///that the existing ones do exist
     fn check_processor(&self, processor: &Processor, ancestors: &mut Vec<String>) -> Result<(), FoliaError> {
         if ancestors.contains(&processor.id) {
             return Err(FoliaError::ValidationError(format!("Can't add processor {} under itself", processor.id)));
         }
         ancestors.push(processor.id.clone());
+        for subprocessor_key in processor.processors.iter() {
+            let subprocessor = self.get_processor(*subprocessor_key).ok_or( FoliaError::InternalError(format!("Child does not exist: {}", subprocessor_key)) )?;
+            if ancestors.contains(&subprocessor.id) {
+                return Err(FoliaError::ValidationError(format!("Can't add processor {} under itself", subprocessor.id)));
+            }
+        }
         for subprocessor in processor.pending_processors.borrow().iter() {
             self.check_processor(subprocessor, ancestors)?;
         }
-- 
2.43.0


From 867886ae8bea42b3908795f4bb92de8f2fab9679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:05 +0000
Subject: [PATCH 53/53] fix: attributes given twice were saved as malformed XML

---
 src/element.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/element.rs b/src/element.rs
index 5a28f83..da4e35c 100644
--- a/src/element.rs
+++ b/src/element.rs
@@ -660,7 +660,11 @@ impl ElementData {
 
     ///Sets all attributes at once (takes ownership)
     pub fn set_attribs(&mut self, attribs: Vec<Attribute>) {
-        self.attribs = attribs;
+        self.attribs = Vec::with_capacity(attribs.len());
+        for attrib in attribs {
+            //ensures there are no duplicates, the last one counts
+            self.set_attrib(attrib);
+        }
     }
 
     ///Sets all attributes at once (takes ownership)
-- 
2.43.0

