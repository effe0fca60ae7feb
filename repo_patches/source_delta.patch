From acd9a23e8a0a6e255aa2cf6631eb753b473a725a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:03 +0000
Subject: [PATCH 01/47] fix: load declarations that have no annotators (empty
 declaration elements)

---
 src/parser.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index ee16ac6..018fb1a 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -131,6 +131,11 @@ impl Document {
                                 }
                             }
                         },
+                        (Some(ns), tag) if ns == NSFOLIA && parsedeclarations => {
+                            //declaration without any annotators
+                            let declaration = Declaration::parse(&reader, e, tag).map_err(FoliaError::add_parseerror("Error parsing declaration"))?;
+                            doc.add_declaration(declaration).map_err(FoliaError::add_parseerror("Error adding declaration"))?;
+                        },
                         _ => {
                         }
                     }
-- 
2.43.0


From 634d552c7006726e4dfb33ffabfaf43e30852ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:04 +0000
Subject: [PATCH 02/47] fix: parse the begin and end time of processors

---
 src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 018fb1a..3d70826 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -492,13 +492,13 @@ impl Processor {
                     b"host" => { processor.host = value; },
                     b"user" => { processor.user = value; },
                     b"begindatetime" => {
-                        match NaiveDateTime::parse_from_str(&value, "%Y-%m-%dT%H:%M:$S") {
+                        match NaiveDateTime::parse_from_str(&value, "%Y-%m-%dT%H:%M:%S") {
                             Ok(dt) => processor.begindatetime = Some(dt),
                             Err(e) => return Err(FoliaError::ParseError(format!("Unable to parse begindatetime {} -> {}",value, e)))
                         };
                     },
                     b"enddatetime" => {
-                        match NaiveDateTime::parse_from_str(&value, "%Y-%m-%dT%H:%M:$S") {
+                        match NaiveDateTime::parse_from_str(&value, "%Y-%m-%dT%H:%M:%S") {
                             Ok(dt) => processor.enddatetime = Some(dt),
                             Err(e) => return Err(FoliaError::ParseError(format!("Unable to parse enddatetime {} -> {}",value, e)))
                         };
-- 
2.43.0


From 27d9dd7e2f3f2821eb16e7961dc6ca2ed47026ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:00 +0000
Subject: [PATCH 03/47] fix: accept annotators written with an open and a close
 tag

---
 src/parser.rs | 40 +++++++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 3d70826..69f9545 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -108,21 +108,7 @@ impl Document {
                             }
                         },
                         (Some(ns), b"annotator") if ns == NSFOLIA && parsedeclarations => {
-                            let mut processor_id: Option<String> = None;
-                            for attrib in e.attributes() {
-                                let attrib = attrib.expect("unwrapping annotator attribute");
-                                if let Ok(value) = attrib.unescape_and_decode_value(&reader) {
-                                    match attrib.key {
-                                        b"processor" => {
-                                            processor_id = Some(value.clone());
-                                        },
-                                        otherwise => {
-                                            eprintln!("WARNING: Unhandled attribute annotator/@{:?}",str::from_utf8(otherwise).unwrap());
-                                        }
-                                    }
-                                }
-                            }
-                            if let Some(processor_id) = processor_id {
+                            if let Some(processor_id) = parse_annotator(&reader, e)? {
                                 if let Some(declaration_key) = declaration_key {
                                     //add to a temporary structure because we don't know about the
                                     //processors yet at this stage, provenance still has to be
@@ -214,6 +200,11 @@ impl Document {
                                 processor_stack.push(processor_key);
                             }
                         },
+                        (Some(ns), b"annotator") if ns == NSFOLIA && parsedeclarations => {
+                            if let (Some(processor_id), Some(declaration_key)) = (parse_annotator(&reader, e)?, declaration_key) {
+                                annotators.push((declaration_key, processor_id));
+                            }
+                        },
                         (Some(ns), tag) if ns == NSFOLIA && parsedeclarations => {
                             let declaration = Declaration::parse(&reader, e, tag).map_err(FoliaError::add_parseerror("Error parsing declaration"))?;
                             let result = doc.add_declaration(declaration).map_err(FoliaError::add_parseerror("Error adding declaration"))?;
@@ -473,6 +464,25 @@ fn get_declaration_type(tag: &str) -> Result<AnnotationType, FoliaError> {
     }
 }
 
+///Parses an annotator (in a declaration), returns the ID of the processor it refers to
+fn parse_annotator<R: BufRead>(reader: &Reader<R>, event: &quick_xml::events::BytesStart) -> Result<Option<String>, FoliaError> {
+    let mut processor_id: Option<String> = None;
+    for attrib in event.attributes() {
+        let attrib = attrib.expect("unwrapping annotator attribute");
+        if let Ok(value) = attrib.unescape_and_decode_value(&reader) {
+            match attrib.key {
+                b"processor" => {
+                    processor_id = Some(value.clone());
+                },
+                otherwise => {
+                    eprintln!("WARNING: Unhandled attribute annotator/@{:?}",str::from_utf8(otherwise).unwrap());
+                }
+            }
+        }
+    }
+    Ok(processor_id)
+}
+
 impl Processor {
 
     ///Parse this element from XML, note that this does not handle the child elements, those are
-- 
2.43.0


From b9b7913f3466a89e757758a37f44684b0d8b24da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:27 +0000
Subject: [PATCH 04/47] fix: keep submetadata blocks and all metadata fields
 when loading and saving

---
 src/parser.rs     | 129 +++++++++++++++++++++++++++++-----------------
 src/serialiser.rs |   6 ++-
 2 files changed, 87 insertions(+), 48 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 69f9545..215ca83 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -86,7 +86,6 @@ impl Document {
         let mut parsedeclarations = false;
         let mut parseprovenance = false;
         let mut submetadata: Option<String> = None;
-        let mut submetadata_type: Option<String> = None;
         let mut text: Option<String> = None;
         let mut meta_id: Option<String> = None;
         let mut declaration_key: Option<DecKey> = None;
@@ -117,6 +116,14 @@ impl Document {
                                 }
                             }
                         },
+                        (Some(ns), b"submetadata") if ns == NSFOLIA => {
+                            doc.parse_submetadata(&reader, e)?;
+                        },
+                        (Some(ns), b"meta") if ns == NSFOLIA => {
+                            if let Some(meta_id) = parse_meta_id(&reader, e)? {
+                                doc.add_meta(submetadata.as_ref(), meta_id, String::new());
+                            }
+                        },
                         (Some(ns), tag) if ns == NSFOLIA && parsedeclarations => {
                             //declaration without any annotators
                             let declaration = Declaration::parse(&reader, e, tag).map_err(FoliaError::add_parseerror("Error parsing declaration"))?;
@@ -153,41 +160,11 @@ impl Document {
                             parseprovenance = true;
                         },
                         (Some(ns), b"submetadata") if ns == NSFOLIA => {
-                            for attrib in e.attributes() {
-                                let attrib = attrib.expect("unwrapping submetadata attribute");
-                                if let Ok(value) = attrib.unescape_and_decode_value(&reader) {
-                                    match attrib.key {
-                                        b"xml:id" => {
-                                            submetadata = Some(value.clone());
-                                        },
-                                        b"type" => {
-                                            submetadata_type = Some(value.clone());
-                                        },
-                                        otherwise => {
-                                            eprintln!("WARNING: Unhandled attribute submetadata/@{:?}",str::from_utf8(otherwise).unwrap());
-                                        }
-                                    }
-                                }
-                            }
-                            if submetadata.is_none() {
-                                return Err(FoliaError::ParseError("Submetadata has no ID".to_string()));
-                            }
+                            submetadata = Some(doc.parse_submetadata(&reader, e)?);
                         },
                         (Some(ns), b"meta") if ns == NSFOLIA => {
-                            for attrib in e.attributes() {
-                                let attrib = attrib.expect("unwrapping meta attribute");
-                                if let Ok(value) = attrib.unescape_and_decode_value(&reader) {
-                                    match attrib.key {
-                                        b"id" | b"xml:id" => {
-                                            meta_id = Some(value.clone());
-                                        },
-                                        otherwise => {
-                                            eprintln!("WARNING: Unhandled attribute meta/@{:?}",str::from_utf8(otherwise).unwrap());
-                                        }
-                                    }
-                                }
-                            }
-                            text = None;
+                            meta_id = parse_meta_id(&reader, e)?;
+                            text = Some(String::new());
                         },
                         (Some(ns), b"processor") if ns == NSFOLIA && parseprovenance => {
                             let processor = Processor::parse(&reader, &e).map_err(FoliaError::add_parseerror("Error parsing processor"))?;
@@ -226,7 +203,15 @@ impl Document {
                 },
                 (None, Event::Text(s)) => {
                     let text_s = s.unescape_and_decode(reader)?;
-                    text = Some(text_s);
+                    if let Some(text) = text.as_mut() {
+                        text.push_str(&text_s);
+                    }
+                },
+                (None, Event::CData(s)) => {
+                    let text_s = reader.decode(&s)?;
+                    if let Some(text) = text.as_mut() {
+                        text.push_str(&text_s);
+                    }
                 },
                 (ref ns, Event::End(ref e)) => {
                     match (*ns, e.local_name())  {
@@ -256,18 +241,8 @@ impl Document {
                             processor_stack.pop();
                         },
                         (Some(ns), b"meta") if ns == NSFOLIA => {
-                            if let (Some(text), Some(meta_id)) = (&text, &meta_id) {
-                                if let Some(submetadata_id) = &submetadata {
-                                    let submetadata_opt: Option<&mut Metadata> = doc.submetadata.get_mut(submetadata_id);
-                                    if let Some(submetadata) = submetadata_opt {
-                                        if submetadata.metadatatype.is_none() && submetadata_type.is_some() {
-                                            submetadata.metadatatype = submetadata_type.clone();
-                                        }
-                                        submetadata.data.insert(meta_id.clone(), text.clone());
-                                    }
-                                } else {
-                                    doc.metadata.data.insert(meta_id.clone(), text.clone());
-                                }
+                            if let (Some(text), Some(meta_id)) = (text.take(), meta_id.take()) {
+                                doc.add_meta(submetadata.as_ref(), meta_id, text);
                             }
                         },
                         (Some(ns), b"annotator") if ns == NSFOLIA && parsedeclarations => {
@@ -333,6 +308,47 @@ impl Document {
         }
     }
 
+    ///Parses the start of a submetadata block, returns its ID
+    fn parse_submetadata<R: BufRead>(&mut self, reader: &Reader<R>, event: &quick_xml::events::BytesStart) -> Result<String, FoliaError> {
+        let mut id: Option<String> = None;
+        let mut submetadata = Metadata::default();
+        for attrib in event.attributes() {
+            let attrib = attrib.expect("unwrapping submetadata attribute");
+            if let Ok(value) = attrib.unescape_and_decode_value(&reader) {
+                match attrib.key {
+                    b"xml:id" => {
+                        id = Some(value);
+                    },
+                    b"type" => {
+                        submetadata.metadatatype = Some(value);
+                    },
+                    b"src" => {
+                        submetadata.src = Some(value);
+                    },
+                    otherwise => {
+                        eprintln!("WARNING: Unhandled attribute submetadata/@{:?}",str::from_utf8(otherwise).unwrap());
+                    }
+                }
+            }
+        }
+        let id = id.ok_or(FoliaError::ParseError("Submetadata has no ID".to_string()))?;
+        if self.submetadata.insert(id.clone(), submetadata).is_some() {
+            return Err(FoliaError::ParseError(format!("Duplicate submetadata ID: {}", id)));
+        }
+        Ok(id)
+    }
+
+    ///Adds a metadata field, either to the specified submetadata block or to the document metadata
+    fn add_meta(&mut self, submetadata: Option<&String>, meta_id: String, value: String) {
+        if let Some(submetadata) = submetadata {
+            if let Some(submetadata) = self.submetadata.get_mut(submetadata) {
+                submetadata.data.insert(meta_id, value);
+            }
+        } else {
+            self.metadata.data.insert(meta_id, value);
+        }
+    }
+
     ///Parses all elementsm from XML, this in turn invokes all parsers for the subelements
     pub(crate) fn parse_elements<R: BufRead>(&mut self, reader: &mut Reader<R>, mut buf: &mut Vec<u8>, mut nsbuf: &mut Vec<u8>) -> Result<(), FoliaError> {
         if !self.elementstore.items.is_empty() {
@@ -464,6 +480,25 @@ fn get_declaration_type(tag: &str) -> Result<AnnotationType, FoliaError> {
     }
 }
 
+///Parses the ID of a metadata field
+fn parse_meta_id<R: BufRead>(reader: &Reader<R>, event: &quick_xml::events::BytesStart) -> Result<Option<String>, FoliaError> {
+    let mut meta_id: Option<String> = None;
+    for attrib in event.attributes() {
+        let attrib = attrib.expect("unwrapping meta attribute");
+        if let Ok(value) = attrib.unescape_and_decode_value(&reader) {
+            match attrib.key {
+                b"id" | b"xml:id" => {
+                    meta_id = Some(value);
+                },
+                otherwise => {
+                    eprintln!("WARNING: Unhandled attribute meta/@{:?}",str::from_utf8(otherwise).unwrap());
+                }
+            }
+        }
+    }
+    Ok(meta_id)
+}
+
 ///Parses an annotator (in a declaration), returns the ID of the processor it refers to
 fn parse_annotator<R: BufRead>(reader: &Reader<R>, event: &quick_xml::events::BytesStart) -> Result<Option<String>, FoliaError> {
     let mut processor_id: Option<String> = None;
diff --git a/src/serialiser.rs b/src/serialiser.rs
index 128c497..684eccf 100644
--- a/src/serialiser.rs
+++ b/src/serialiser.rs
@@ -81,9 +81,11 @@ impl Document {
             if let Some(metadatatype) = &submetadata.metadatatype {
                 submetadata_start.push_attribute(("type", metadatatype.as_str() ));
             }
-            if let Some(src) = &self.metadata.src {
+            if let Some(src) = &submetadata.src {
                 submetadata_start.push_attribute(("src", src.as_str() ));
             }
+            writer.write_event(Event::Start(submetadata_start)).map_err(to_serialisation_error)?;
+            writer.write_event(Event::Text(BytesText::from_plain(NL))).map_err(to_serialisation_error)?;
             for (meta_id, value) in submetadata.data.iter() {
                 let mut meta_start = BytesStart::borrowed_name(b"meta");
                 meta_start.push_attribute(("id", meta_id.as_str() ));
@@ -92,6 +94,8 @@ impl Document {
                 writer.write_event(Event::End(BytesEnd::borrowed(b"meta"))).map_err(to_serialisation_error)?;
                 writer.write_event(Event::Text(BytesText::from_plain(NL))).map_err(to_serialisation_error)?;
             }
+            writer.write_event(Event::End(BytesEnd::borrowed(b"submetadata"))).map_err(to_serialisation_error)?;
+            writer.write_event(Event::Text(BytesText::from_plain(NL))).map_err(to_serialisation_error)?;
         }
         writer.write_event(Event::End(BytesEnd::borrowed(b"metadata"))).map_err(to_serialisation_error)?;
         writer.write_event(Event::Text(BytesText::from_plain(NL))).map_err(to_serialisation_error)?;
-- 
2.43.0


From e12a18ece55d4e743a2cd8f1eaf9bf742e31fb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:28 +0000
Subject: [PATCH 05/47] fix: accept an empty metadata element written as a
 single tag

---
 src/parser.rs | 42 ++++++++++++++++++++++++++----------------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 215ca83..62045df 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -116,6 +116,10 @@ impl Document {
                                 }
                             }
                         },
+                        (Some(ns), b"metadata") if ns == NSFOLIA => {
+                            doc.parse_metadata_attributes(&reader, e)?;
+                            break;
+                        },
                         (Some(ns), b"submetadata") if ns == NSFOLIA => {
                             doc.parse_submetadata(&reader, e)?;
                         },
@@ -136,22 +140,7 @@ impl Document {
                 (ref ns, Event::Start(ref e)) => {
                     match (*ns, e.local_name())  {
                         (Some(ns), b"metadata") if ns == NSFOLIA => {
-                            for attrib in e.attributes() {
-                                let attrib = attrib.expect("unwrapping metadata attribute");
-                                if let Ok(value) = attrib.unescape_and_decode_value(&reader) {
-                                    match attrib.key {
-                                        b"src" => {
-                                            doc.metadata.src = Some(value);
-                                        },
-                                        b"type" => {
-                                            doc.metadata.metadatatype = Some(value);
-                                        },
-                                        otherwise => {
-                                            eprintln!("WARNING: Unhandled attribute metadata/@{:?}",str::from_utf8(otherwise).unwrap());
-                                        }
-                                    }
-                                }
-                            }
+                            doc.parse_metadata_attributes(&reader, e)?;
                         },
                         (Some(ns), b"annotations") if ns == NSFOLIA => {
                             parsedeclarations = true;
@@ -308,6 +297,27 @@ impl Document {
         }
     }
 
+    ///Parses the attributes of the metadata block
+    fn parse_metadata_attributes<R: BufRead>(&mut self, reader: &Reader<R>, event: &quick_xml::events::BytesStart) -> Result<(), FoliaError> {
+        for attrib in event.attributes() {
+            let attrib = attrib.expect("unwrapping metadata attribute");
+            if let Ok(value) = attrib.unescape_and_decode_value(&reader) {
+                match attrib.key {
+                    b"src" => {
+                        self.metadata.src = Some(value);
+                    },
+                    b"type" => {
+                        self.metadata.metadatatype = Some(value);
+                    },
+                    otherwise => {
+                        eprintln!("WARNING: Unhandled attribute metadata/@{:?}",str::from_utf8(otherwise).unwrap());
+                    }
+                }
+            }
+        }
+        Ok(())
+    }
+
     ///Parses the start of a submetadata block, returns its ID
     fn parse_submetadata<R: BufRead>(&mut self, reader: &Reader<R>, event: &quick_xml::events::BytesStart) -> Result<String, FoliaError> {
         let mut id: Option<String> = None;
-- 
2.43.0


From e520c4fbc83f6679c85c96127b0d7a365ccda3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:29 +0000
Subject: [PATCH 06/47] fix: link annotators to processors regardless of the
 order of declarations and provenance

---
 src/parser.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 62045df..ad3eee1 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -215,16 +215,6 @@ impl Document {
                         },
                         (Some(ns), b"provenance") if ns == NSFOLIA => {
                             parseprovenance = false;
-
-                            //we are done with provenance, we can now assign processors to
-                            //declarations using our temporary structure
-                            for (dec_key, processor_id) in annotators.iter() {
-                                if let Some(processor_key) = doc.get_processor_key_by_id(processor_id) {
-                                    if let Some(declaration) = doc.get_mut_declaration(*dec_key) {
-                                        declaration.processors.push(processor_key);
-                                    }
-                                }
-                            }
                         },
                         (Some(ns), b"processor") if ns == NSFOLIA && parseprovenance => {
                             processor_stack.pop();
@@ -250,6 +240,18 @@ impl Document {
             }
         };
 
+        //we are done with declarations and provenance (whichever came first), we can now assign
+        //processors to declarations using our temporary structure
+        for (dec_key, processor_id) in annotators.iter() {
+            if let Some(processor_key) = doc.get_processor_key_by_id(processor_id) {
+                if let Some(declaration) = doc.get_mut_declaration(*dec_key) {
+                    if !declaration.processors.contains(&processor_key) {
+                        declaration.processors.push(processor_key);
+                    }
+                }
+            }
+        }
+
         //find body
         loop {
             let e = reader.read_namespaced_event(&mut buf, &mut nsbuf)?;
-- 
2.43.0


From dfc5682edfe2db7aa503c1ca0ea6b3390b49455b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:20 +0000
Subject: [PATCH 07/47] fix: keep metadata fields of processors with the
 processor

---
 src/parser.rs     | 14 +++++++++-----
 src/serialiser.rs | 10 +++++++++-
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index ad3eee1..c6b57f3 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -125,7 +125,7 @@ impl Document {
                         },
                         (Some(ns), b"meta") if ns == NSFOLIA => {
                             if let Some(meta_id) = parse_meta_id(&reader, e)? {
-                                doc.add_meta(submetadata.as_ref(), meta_id, String::new());
+                                doc.add_meta(processor_stack.last(), submetadata.as_ref(), meta_id, String::new());
                             }
                         },
                         (Some(ns), tag) if ns == NSFOLIA && parsedeclarations => {
@@ -221,7 +221,7 @@ impl Document {
                         },
                         (Some(ns), b"meta") if ns == NSFOLIA => {
                             if let (Some(text), Some(meta_id)) = (text.take(), meta_id.take()) {
-                                doc.add_meta(submetadata.as_ref(), meta_id, text);
+                                doc.add_meta(processor_stack.last(), submetadata.as_ref(), meta_id, text);
                             }
                         },
                         (Some(ns), b"annotator") if ns == NSFOLIA && parsedeclarations => {
@@ -350,9 +350,13 @@ impl Document {
         Ok(id)
     }
 
-    ///Adds a metadata field, either to the specified submetadata block or to the document metadata
-    fn add_meta(&mut self, submetadata: Option<&String>, meta_id: String, value: String) {
-        if let Some(submetadata) = submetadata {
+    ///Adds a metadata field, either to the specified processor, to the specified submetadata block or to the document metadata
+    fn add_meta(&mut self, processor_key: Option<&ProcKey>, submetadata: Option<&String>, meta_id: String, value: String) {
+        if let Some(processor_key) = processor_key {
+            if let Some(processor) = self.get_mut_processor(*processor_key) {
+                processor.metadata.data.insert(meta_id, value);
+            }
+        } else if let Some(submetadata) = submetadata {
             if let Some(submetadata) = self.submetadata.get_mut(submetadata) {
                 submetadata.data.insert(meta_id, value);
             }
diff --git a/src/serialiser.rs b/src/serialiser.rs
index 684eccf..86c1956 100644
--- a/src/serialiser.rs
+++ b/src/serialiser.rs
@@ -192,10 +192,18 @@ impl Document {
             if !processor.resourcelink.is_empty() {
                 processor_start.push_attribute(("resourcelink", processor.resourcelink.as_str() ));
             }
-            if processor.processors.is_empty() {
+            if processor.processors.is_empty() && processor.metadata.data.is_empty() {
                 writer.write_event(Event::Empty(processor_start)).map_err(to_serialisation_error)?;
             } else {
                 writer.write_event(Event::Start(processor_start)).map_err(to_serialisation_error)?;
+                for (meta_id, value) in processor.metadata.data.iter() {
+                    let mut meta_start = BytesStart::borrowed_name(b"meta");
+                    meta_start.push_attribute(("id", meta_id.as_str() ));
+                    writer.write_event(Event::Start(meta_start)).map_err(to_serialisation_error)?;
+                    writer.write_event(Event::Text(BytesText::from_plain_str(value))).map_err(to_serialisation_error)?;
+                    writer.write_event(Event::End(BytesEnd::borrowed(b"meta"))).map_err(to_serialisation_error)?;
+                    writer.write_event(Event::Text(BytesText::from_plain(NL))).map_err(to_serialisation_error)?;
+                }
                 for subprocessor_key in processor.processors.iter() {
                     self.xml_processor(writer, *subprocessor_key)?;
                 }
-- 
2.43.0


From 586af565d8e490067720d53049e2834a29f316d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:32 +0000
Subject: [PATCH 08/47] fix: report malformed attributes and names as errors
 instead of panicking or dropping them

---
 src/attrib.rs |  2 +-
 src/parser.rs | 81 ++++++++++++++++++++++++++++++---------------------
 2 files changed, 49 insertions(+), 34 deletions(-)

diff --git a/src/attrib.rs b/src/attrib.rs
index 1b8508d..7499a64 100644
--- a/src/attrib.rs
+++ b/src/attrib.rs
@@ -372,7 +372,7 @@ impl Attribute {
                     if attrib_key.contains(&58) { //58 is a colon, we assume alien namespaces and ignore it
                         Ok(Attribute::Ignore)
                     } else {
-                        Err(FoliaError::ParseError(format!("Unknown attribute: '{}'", std::str::from_utf8(attrib.key).expect("unable to parse attribute name"))))
+                        Err(FoliaError::ParseError(format!("Unknown attribute: '{}'", String::from_utf8_lossy(attrib.key))))
                     }
                 }
             }
diff --git a/src/parser.rs b/src/parser.rs
index c6b57f3..cc1c770 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -53,13 +53,13 @@ impl Document {
                     match (*ns, e.local_name())  {
                         (Some(ns), b"FoLiA") if ns == NSFOLIA => {
                             for attrib in e.attributes() {
-                                let attrib: quick_xml::events::attributes::Attribute = attrib.unwrap();
+                                let attrib: quick_xml::events::attributes::Attribute = attrib?;
                                 match attrib.key {
                                     b"xml:id" => {
-                                        doc.id = attrib.unescape_and_decode_value(&reader).expect("Parsing ID")
+                                        doc.id = attrib.unescape_and_decode_value(&reader)?
                                     }
                                     b"version" => {
-                                        doc.version = attrib.unescape_and_decode_value(&reader).expect("Parsing version")
+                                        doc.version = attrib.unescape_and_decode_value(&reader)?
                                     },
                                     b"generator" | b"form " => {},  //we can ignore these
                                     _ => {}
@@ -177,13 +177,13 @@ impl Document {
                             declaration_key = Some(result);
                         },
                         (Some(ns), tag) if ns == NSFOLIA => {
-                            return Err(FoliaError::ParseError(format!("Unexpected FoLiA element: {}",  str::from_utf8(tag).expect("decoding tag from utf-8")).to_string()));
+                            return Err(FoliaError::ParseError(format!("Unexpected FoLiA element: {}",  String::from_utf8_lossy(tag)).to_string()));
                         },
                         (Some(ns),tag) if ns != NSFOLIA => {
-                            return Err(FoliaError::ParseError(format!("Expected FoLiA namespace, got namespace {} with tag {}", str::from_utf8(ns).expect("decoding namespace from utf-8"), str::from_utf8(tag).expect("decoding XML tag from utf-8")).to_string()));
+                            return Err(FoliaError::ParseError(format!("Expected FoLiA namespace, got namespace {} with tag {}", String::from_utf8_lossy(ns), String::from_utf8_lossy(tag)).to_string()));
                         }
                         (None,tag) => {
-                            return Err(FoliaError::ParseError(format!("Expected FoLiA namespace, got no namespace with tag {}",  str::from_utf8(tag).expect("decoding tag from utf-8")).to_string()));
+                            return Err(FoliaError::ParseError(format!("Expected FoLiA namespace, got no namespace with tag {}",  String::from_utf8_lossy(tag)).to_string()));
                         }
                         _ => {
                             unreachable!()
@@ -259,25 +259,23 @@ impl Document {
                 (ref ns, Event::Start(ref e)) => {
                     match (*ns, e.local_name())  {
                         (Some(ns), b"text") if ns == NSFOLIA => {
-                            if let Ok((attribs,_))  =  ElementData::parse_attributes(&reader, e.attributes(), ElementType::Text) {
-                                body = Some(ElementData::new(ElementType::Text).with_attribs(attribs));
-                            }
+                            let (attribs,_) = ElementData::parse_attributes(&reader, e.attributes(), ElementType::Text)?;
+                            body = Some(ElementData::new(ElementType::Text).with_attribs(attribs));
                             break;
                         },
                         (Some(ns), b"speech") if ns == NSFOLIA => {
-                            if let Ok((attribs,_))  =  ElementData::parse_attributes(&reader, e.attributes(), ElementType::Speech) {
-                                body = Some(ElementData::new(ElementType::Speech).with_attribs(attribs));
-                            }
+                            let (attribs,_) = ElementData::parse_attributes(&reader, e.attributes(), ElementType::Speech)?;
+                            body = Some(ElementData::new(ElementType::Speech).with_attribs(attribs));
                             break;
                         },
                         /*(Some(ns), _) if ns == NSFOLIA => {
                             //just ignore everything else for now
                         },*/
                         (Some(ns),tag) => {
-                            return Err(FoliaError::ParseError(format!("Expected FoLiA namespace, got namespace {} with tag {}", str::from_utf8(ns).expect("decoding namespace from utf-8"), str::from_utf8(tag).expect("decoding XML tag from utf-8")).to_string()));
+                            return Err(FoliaError::ParseError(format!("Expected FoLiA namespace, got namespace {} with tag {}", String::from_utf8_lossy(ns), String::from_utf8_lossy(tag)).to_string()));
                         }
                         (None,tag) => {
-                            return Err(FoliaError::ParseError(format!("Expected FoLiA namespace, got no namespace with tag {}",  str::from_utf8(tag).expect("decoding tag from utf-8")).to_string()));
+                            return Err(FoliaError::ParseError(format!("Expected FoLiA namespace, got no namespace with tag {}",  String::from_utf8_lossy(tag)).to_string()));
                         }
                     }
                 },
@@ -302,7 +300,7 @@ impl Document {
     ///Parses the attributes of the metadata block
     fn parse_metadata_attributes<R: BufRead>(&mut self, reader: &Reader<R>, event: &quick_xml::events::BytesStart) -> Result<(), FoliaError> {
         for attrib in event.attributes() {
-            let attrib = attrib.expect("unwrapping metadata attribute");
+            let attrib = attrib?;
             if let Ok(value) = attrib.unescape_and_decode_value(&reader) {
                 match attrib.key {
                     b"src" => {
@@ -312,9 +310,11 @@ impl Document {
                         self.metadata.metadatatype = Some(value);
                     },
                     otherwise => {
-                        eprintln!("WARNING: Unhandled attribute metadata/@{:?}",str::from_utf8(otherwise).unwrap());
+                        eprintln!("WARNING: Unhandled attribute metadata/@{:?}",String::from_utf8_lossy(otherwise));
                     }
                 }
+            } else {
+                return Err(FoliaError::ParseError("Unable to parse attribute value (invalid utf-8?)".to_string()));
             }
         }
         Ok(())
@@ -325,7 +325,7 @@ impl Document {
         let mut id: Option<String> = None;
         let mut submetadata = Metadata::default();
         for attrib in event.attributes() {
-            let attrib = attrib.expect("unwrapping submetadata attribute");
+            let attrib = attrib?;
             if let Ok(value) = attrib.unescape_and_decode_value(&reader) {
                 match attrib.key {
                     b"xml:id" => {
@@ -338,9 +338,11 @@ impl Document {
                         submetadata.src = Some(value);
                     },
                     otherwise => {
-                        eprintln!("WARNING: Unhandled attribute submetadata/@{:?}",str::from_utf8(otherwise).unwrap());
+                        eprintln!("WARNING: Unhandled attribute submetadata/@{:?}",String::from_utf8_lossy(otherwise));
                     }
                 }
+            } else {
+                return Err(FoliaError::ParseError("Unable to parse attribute value (invalid utf-8?)".to_string()));
             }
         }
         let id = id.ok_or(FoliaError::ParseError("Submetadata has no ID".to_string()))?;
@@ -375,7 +377,7 @@ impl Document {
                     (Some(ns), Event::Empty(ref e)) if ns == NSFOLIA => {
                         //EMPTY TAG FOUND (<tag/>)
                         //eprintln!("EMPTY TAG: {}", str::from_utf8(e.local_name()).expect("Tag is not valid utf-8"));
-                        let tagname = str::from_utf8(e.local_name()).expect("tag is not valid utf-8");
+                        let tagname = decode_name(e.local_name())?;
                         let (elem, children) = ElementData::parse(reader, e)
                                                 .map_err(FoliaError::add_parseerror_string(
                                                          format!("Error parsing <{}/>", tagname))  )?;
@@ -397,7 +399,7 @@ impl Document {
                     (Some(ns), Event::Start(ref e)) if ns == NSFOLIA => {
                         //START TAG FOUND (<tag>)
                         //eprintln!("START TAG: {}", str::from_utf8(e.local_name()).expect("Tag is not valid utf-8"));
-                        let tagname = str::from_utf8(e.local_name()).expect("tag is not valid utf-8");
+                        let tagname = decode_name(e.local_name())?;
                         let (elem, children) = ElementData::parse(reader, e)
                                                 .map_err(FoliaError::add_parseerror_string(
                                                          format!("Error parsing <{}>", tagname))  )?;
@@ -422,7 +424,7 @@ impl Document {
                         if let Some(elem) = self.get_elementdata(key) {
 
                             //verify we actually close the right thing (otherwise we have malformed XML)
-                            let elementname = str::from_utf8(e.local_name()).expect("Decoding XML tag from utf-8");
+                            let elementname = decode_name(e.local_name())?;
                             let elementtype = ElementType::from_str(elementname)?;
                             if elem.elementtype != elementtype {
                                 return Err(FoliaError::ParseError(format!("Malformed XML? Invalid element closed: {}, expected: {}", elementname, elem.elementtype.to_string() )));
@@ -479,6 +481,11 @@ impl Document {
     }
 }
 
+///Decodes the name of an XML element
+fn decode_name(name: &[u8]) -> Result<&str, FoliaError> {
+    str::from_utf8(name).map_err(|_| FoliaError::ParseError(format!("Name of XML element is not valid utf-8: {}", String::from_utf8_lossy(name))))
+}
+
 fn get_declaration_type(tag: &str) -> Result<AnnotationType, FoliaError> {
     if let Some(index) = tag.find("-") {
         let (declaration_type_string, suffix) = tag.split_at(index);
@@ -500,16 +507,18 @@ fn get_declaration_type(tag: &str) -> Result<AnnotationType, FoliaError> {
 fn parse_meta_id<R: BufRead>(reader: &Reader<R>, event: &quick_xml::events::BytesStart) -> Result<Option<String>, FoliaError> {
     let mut meta_id: Option<String> = None;
     for attrib in event.attributes() {
-        let attrib = attrib.expect("unwrapping meta attribute");
+        let attrib = attrib?;
         if let Ok(value) = attrib.unescape_and_decode_value(&reader) {
             match attrib.key {
                 b"id" | b"xml:id" => {
                     meta_id = Some(value);
                 },
                 otherwise => {
-                    eprintln!("WARNING: Unhandled attribute meta/@{:?}",str::from_utf8(otherwise).unwrap());
+                    eprintln!("WARNING: Unhandled attribute meta/@{:?}",String::from_utf8_lossy(otherwise));
                 }
             }
+        } else {
+            return Err(FoliaError::ParseError("Unable to parse attribute value (invalid utf-8?)".to_string()));
         }
     }
     Ok(meta_id)
@@ -519,16 +528,18 @@ fn parse_meta_id<R: BufRead>(reader: &Reader<R>, event: &quick_xml::events::Byte
 fn parse_annotator<R: BufRead>(reader: &Reader<R>, event: &quick_xml::events::BytesStart) -> Result<Option<String>, FoliaError> {
     let mut processor_id: Option<String> = None;
     for attrib in event.attributes() {
-        let attrib = attrib.expect("unwrapping annotator attribute");
+        let attrib = attrib?;
         if let Ok(value) = attrib.unescape_and_decode_value(&reader) {
             match attrib.key {
                 b"processor" => {
                     processor_id = Some(value.clone());
                 },
                 otherwise => {
-                    eprintln!("WARNING: Unhandled attribute annotator/@{:?}",str::from_utf8(otherwise).unwrap());
+                    eprintln!("WARNING: Unhandled attribute annotator/@{:?}",String::from_utf8_lossy(otherwise));
                 }
             }
+        } else {
+            return Err(FoliaError::ParseError("Unable to parse attribute value (invalid utf-8?)".to_string()));
         }
     }
     Ok(processor_id)
@@ -542,7 +553,7 @@ impl Processor {
         let mut processor = Processor::default();
         for attrib in event.attributes()  {
             if let Ok(attrib) = attrib {
-                let value = attrib.unescape_and_decode_value(&reader).expect("Parsing attribute value for processor");
+                let value = attrib.unescape_and_decode_value(&reader)?;
                 match  attrib.key {
                     b"xml:id" => { processor.id = value; },
                     b"name" => { processor.name = value; },
@@ -577,9 +588,11 @@ impl Processor {
                         }
                     }},
                     tag => {
-                        return Err(FoliaError::ParseError(format!("Unknown attribute on processor, got: {:?}", str::from_utf8(tag).unwrap() )));
+                        return Err(FoliaError::ParseError(format!("Unknown attribute on processor, got: {:?}", String::from_utf8_lossy(tag) )));
                     }
                 }
+            } else {
+                return Err(FoliaError::ParseError("Unable to parse processor attribute".to_string()));
             }
         }
         Ok(processor)
@@ -591,7 +604,7 @@ impl ElementData {
         let mut attributes: Vec<Attribute> = Vec::new();
         let mut children: Vec<ElementData> = Vec::new();
         'outerloop: for attrib in attribiter {
-            let attrib = &attrib.expect("Parsing XML attribute");
+            let attrib = &attrib?;
             match Attribute::parse(&reader, attrib) {
                 //normal behaviour
                 Ok(attrib) => { attributes.push(attrib); },
@@ -605,7 +618,7 @@ impl ElementData {
                             if let AcceptedData::AcceptElementType(acceptedtype) = accepteddata {
                                 if featuregroup.contains(*acceptedtype) {
                                     let properties = Properties::new(*acceptedtype);
-                                    if properties.subset.is_some() && str::from_utf8(attrib.key).unwrap() == properties.subset.unwrap() {
+                                    if properties.subset.is_some() && attrib.key == properties.subset.unwrap().as_bytes() {
                                         let child = ElementData::new(ElementType::Feature).
                                                                 with_attribs(vec![
                                                                     Attribute::Subset(properties.subset.unwrap().to_string()),
@@ -629,7 +642,7 @@ impl ElementData {
     ///Parse this element from XML, note that this does not handle the child elements, those are
     ///appended by the main parser in Document::parse_body()
     pub(crate) fn parse<R: BufRead>(reader: &Reader<R>, event: &quick_xml::events::BytesStart) -> Result<(ElementData,Vec<ElementData>), FoliaError> {
-        let elementname = str::from_utf8(event.local_name()).expect("utf-8 decoding");
+        let elementname = decode_name(event.local_name())?;
         let elementtype = ElementType::from_str(elementname)?;
         let (attributes, children) = ElementData::parse_attributes(reader, event.attributes(), elementtype)
                                      .map_err(FoliaError::add_parseerror_string(format!("Error parsing attributes for {}", elementname)))?;
@@ -639,12 +652,12 @@ impl ElementData {
 
 impl Declaration {
     pub(crate) fn parse<R: BufRead>(reader: &Reader<R>, event: &quick_xml::events::BytesStart, tag: &[u8]) -> Result<Declaration, FoliaError> {
-        let declaration_type = get_declaration_type(str::from_utf8(tag).expect("utf-8 decoding"))?;
+        let declaration_type = get_declaration_type(decode_name(tag)?)?;
         let mut set: Option<String> = None;
         let mut alias: Option<String> = None;
         let mut format: Option<String> = None;
         for attrib in event.attributes() {
-            let attrib = attrib.expect("unwrapping declaration attribute");
+            let attrib = attrib?;
             if let Ok(value) = attrib.unescape_and_decode_value(&reader) {
                 match attrib.key {
                     b"set" => {
@@ -663,9 +676,11 @@ impl Declaration {
                         //TODO: handle old-style default
                     },
                     otherwise => {
-                        eprintln!("WARNING: Unhandled attribute on declaration: @{:?}",str::from_utf8(otherwise).unwrap());
+                        eprintln!("WARNING: Unhandled attribute on declaration: @{:?}",String::from_utf8_lossy(otherwise));
                     }
                 }
+            } else {
+                return Err(FoliaError::ParseError("Unable to parse attribute value (invalid utf-8?)".to_string()));
             }
         }
         Ok(Declaration::new(declaration_type, set, alias, format))
-- 
2.43.0


From a33ab737a5cbbb71d3b746d9fdcd9bb9a1dff295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:01 +0000
Subject: [PATCH 09/47] fix: accept an empty body written as a single tag

---
 src/parser.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index cc1c770..d3ba63a 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -253,9 +253,17 @@ impl Document {
         }
 
         //find body
+        let mut empty_body = false;
         loop {
             let e = reader.read_namespaced_event(&mut buf, &mut nsbuf)?;
             match e {
+                (Some(ns), Event::Empty(ref e)) if ns == NSFOLIA && (e.local_name() == b"text" || e.local_name() == b"speech") => {
+                    let bodytype = if e.local_name() == b"text" { ElementType::Text } else { ElementType::Speech };
+                    let (attribs,_) = ElementData::parse_attributes(&reader, e.attributes(), bodytype)?;
+                    body = Some(ElementData::new(bodytype).with_attribs(attribs));
+                    empty_body = true;
+                    break;
+                },
                 (ref ns, Event::Start(ref e)) => {
                     match (*ns, e.local_name())  {
                         (Some(ns), b"text") if ns == NSFOLIA => {
@@ -290,7 +298,9 @@ impl Document {
         if let Some(body) = body {
             doc.add(body,None).map_err(FoliaError::add_parseerror("Error adding body"))?;
             doc.apply_properties(properties).map_err(FoliaError::add_parseerror("Error applying properties"))?;
-            doc.parse_elements(reader, &mut buf, &mut nsbuf)?;
+            if !empty_body {
+                doc.parse_elements(reader, &mut buf, &mut nsbuf)?;
+            }
             Ok(doc)
         } else {
             Err(FoliaError::ParseError("No body found".to_string()))
-- 
2.43.0


From b56d1bac535f22f0fa151038b55be7544e3f3987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:03 +0000
Subject: [PATCH 10/47] fix: refuse documents that are truncated or have
 content after the body

---
 src/parser.rs | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index d3ba63a..bfb7aa7 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -301,12 +301,39 @@ impl Document {
             if !empty_body {
                 doc.parse_elements(reader, &mut buf, &mut nsbuf)?;
             }
+            Self::parse_end(reader, &mut buf, &mut nsbuf)?;
             Ok(doc)
         } else {
             Err(FoliaError::ParseError("No body found".to_string()))
         }
     }
 
+    ///Parses everything after the body, this verifies that the document is complete
+    fn parse_end<R: BufRead>(reader: &mut Reader<R>, mut buf: &mut Vec<u8>, mut nsbuf: &mut Vec<u8>) -> Result<(), FoliaError> {
+        let mut closed = false; //has the root element been closed?
+        loop {
+            match reader.read_namespaced_event(&mut buf, &mut nsbuf)? {
+                (_, Event::Start(ref e)) | (_, Event::Empty(ref e)) => {
+                    return Err(FoliaError::ParseError(format!("Unexpected element after the body: {}", String::from_utf8_lossy(e.name()))));
+                },
+                (_, Event::Text(ref s)) if !s.iter().all(|c| c.is_ascii_whitespace()) => {
+                    return Err(FoliaError::ParseError("Unexpected text after the body".to_string()));
+                },
+                (_, Event::End(_)) => {
+                    closed = true;
+                },
+                (_, Event::Eof) => {
+                    if closed {
+                        return Ok(());
+                    } else {
+                        return Err(FoliaError::ParseError("Premature end of document".to_string()));
+                    }
+                },
+                (_,_) => {}
+            }
+        }
+    }
+
     ///Parses the attributes of the metadata block
     fn parse_metadata_attributes<R: BufRead>(&mut self, reader: &Reader<R>, event: &quick_xml::events::BytesStart) -> Result<(), FoliaError> {
         for attrib in event.attributes() {
@@ -479,7 +506,7 @@ impl Document {
                         }
                     },
                     (_, Event::Eof) => {
-                        break;
+                        return Err(FoliaError::ParseError("Premature end of document".to_string()));
                     }
                     (_,_) => {}
                 }
-- 
2.43.0


From ba10312e1ab574cbefe3b0f5ad3ea22eac0ee186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:21 +0000
Subject: [PATCH 11/47] fix: do not exhaust the call stack when iterating over
 large or deep documents

---
 src/select.rs | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/src/select.rs b/src/select.rs
index c20a593..996feb3 100644
--- a/src/select.rs
+++ b/src/select.rs
@@ -408,7 +408,7 @@ impl<'a> Iterator for SelectIterator<'a> {
                 }
             }
         };
-        if let Some((key,cursor)) = self.stack.pop() {
+        while let Some((key,cursor)) = self.stack.pop() {
             if let Some(parent) = self.document.get_elementdata(key) {
                 if let Some(item) = parent.get_data_at(cursor) {
                     //increment the cursor and push back to the stack
@@ -445,14 +445,12 @@ impl<'a> Iterator for SelectIterator<'a> {
                         }
                     }
                 }
-                self.next() //recurse
             } else {
                 unreachable!("selector tried to get an element which no longer exists")
             }
-        } else {
-            //stack is empty, we are done (None stops iteration)
-            None
         }
+        //stack is empty, we are done (None stops iteration)
+        None
     }
 
 }
@@ -581,21 +579,18 @@ impl<'a> Iterator for SelectElementsIterator<'a> {
     type Item = SelectElementsItem<'a>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        let selectitem = self.iterator.next();
-        if let Some(selectitem) = selectitem {
+        while let Some(selectitem) = self.iterator.next() {
             match *selectitem {
                 DataType::Element(key) | DataType::SpanReference(key) => {
                     let element = self.iterator.document.get_element(key).expect("Getting key from elementstore for SelectElementsIterator");
-                    Some(Self::Item { element: element })
+                    return Some(Self::Item { element: element });
                 },
                 _ => {
-                    //recurse
-                    self.next()
+                    //not an element, try the next item
                 }
             }
-        } else {
-            None
         }
+        None
     }
 
 }
@@ -659,7 +654,7 @@ impl<'a> Iterator for AncestorIterator<'a> {
     type Item = SelectElementsItem<'a>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if let Some(element) = self.document.get_elementdata(self.key) {
+        while let Some(element) = self.document.get_elementdata(self.key) {
             if let Some(parent_key) = element.parent {
                 self.key = parent_key;
                 if self.selector.matches(&self.document, &DataType::Element(parent_key)) {
@@ -668,11 +663,12 @@ impl<'a> Iterator for AncestorIterator<'a> {
                     });
                 } else {
                     let parent_type = self.document.get_elementdata(parent_key).expect("Parent no longer exists").elementtype;
-                    if self.recursion.eval(parent_type) {
-                        //recurse
-                        return self.next();
+                    if !self.recursion.eval(parent_type) {
+                        return None;
                     }
                 }
+            } else {
+                return None;
             }
         }
         None
-- 
2.43.0


From a955a7777a1dd3155b6cbd489d24732367a00910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:37 +0000
Subject: [PATCH 12/47] fix: take all selectors into account when chaining
 selectors in a union

---
 src/select.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/select.rs b/src/select.rs
index 996feb3..20d18d6 100644
--- a/src/select.rs
+++ b/src/select.rs
@@ -192,7 +192,10 @@ impl Selector {
     ///Add another selector, the resulting selection will then consist of the union
     ///of the selectors. This can be chained multiple times.
     pub fn and(mut self, selector: Selector) -> Self {
-        self.next = Some(Box::new(selector));
+        self.next = Some(Box::new(match self.next {
+            Some(next) => next.and(selector),
+            None => selector
+        }));
         self
     }
 
@@ -201,9 +204,11 @@ impl Selector {
     ///made to sets or classes that don't exist in the document, then it is unmatchable and there
     ///is no sense in actually performing any matching.
     pub fn matchable(&self) -> bool {
-        self.set != Cmp::Unmatchable &&
+        (self.set != Cmp::Unmatchable &&
         self.class != Cmp::Unmatchable &&
-        self.processor != Cmp::Unmatchable
+        self.processor != Cmp::Unmatchable) ||
+        //(in a union, one matchable selector is enough)
+        self.next.as_ref().map_or(false, |next| next.matchable())
     }
 
     ///Tests if the selector matches against the specified data item, given an element store.
-- 
2.43.0


From dda286715fc6f69acfffa6ff2eb0e952022f2557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:39 +0000
Subject: [PATCH 13/47] fix: honour the annotator, annotatortype and confidence
 criteria of a query

---
 src/select.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/select.rs b/src/select.rs
index 20d18d6..060088d 100644
--- a/src/select.rs
+++ b/src/select.rs
@@ -45,6 +45,9 @@ impl Selector {
         selector.elementtype = query.elementtype.clone();
         selector.elementgroup = query.elementgroup.clone();
         selector.contexttype = query.contexttype.clone();
+        selector.annotator = query.annotator.clone();
+        selector.annotatortype = query.annotatortype.clone();
+        selector.confidence = query.confidence.clone();
         selector.datatypes = vec![DataTypeSelector::Elements];
         //if we have subsets, we use contexttype instead of elementtype (because elementtype will
         //always be ElementType::feature)
@@ -233,7 +236,8 @@ impl Selector {
                     (self.class == Cmp::Any || self.class.matches(element.class_key().as_ref())) &&
                     (self.processor == Cmp::Any || self.processor.matches(element.processor_key().as_ref())) &&
                     (self.annotator == Cmp::Any || self.annotator.matches(element.annotator().map(|s| s.to_string()).as_ref())) &&
-                    (self.annotatortype == Cmp::Any || self.annotatortype.matches(element.annotatortype().as_ref()))
+                    (self.annotatortype == Cmp::Any || self.annotatortype.matches(element.annotatortype().as_ref())) &&
+                    (self.confidence == Cmp::Any || self.confidence.matches(element.elementdata().confidence().as_ref()))
                 } else {
                     //element does not exist, can never match
                     false
-- 
2.43.0


From 8a5b852cf57dbaf81ca336338f318b4c99bd99a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:57 +0000
Subject: [PATCH 14/47] fix: features belong to the same set as the annotation
 they are part of

---
 src/document.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index 066c882..b477ae9 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -824,8 +824,14 @@ impl Store<ElementData,ElementKey> for Document {
                         //get the declaration key from the parent context:
                         let parent = self.get_elementdata(parent_key).ok_or( FoliaError::InternalError("Context for feature does not exist!".to_string()))?;
 
-                        let annotationtype = parent.elementtype.annotationtype().expect(format!("Unwrapping annotation type of parent {}", element.elementtype).as_str() );
-                        let deckey = self.declare(annotationtype, &element.set().unwrap().map(|s| s.to_string()),  &None, &None)?;
+                        let annotationtype = parent.elementtype.annotationtype().ok_or_else(|| FoliaError::EncodeError(format!("Features are not supported on {}, it has no annotation type", parent.elementtype)))?;
+                        let parent_deckey = parent.declaration_key()?;
+                        let set = element.set()?.map(|s| s.to_string());
+                        let deckey = match parent_deckey {
+                            //no set of its own, the feature is part of the same declaration as its parent
+                            Some(parent_deckey) if set.is_none() => parent_deckey,
+                            _ => self.declare(annotationtype, &set,  &None, &None)?
+                        };
                         declaration_key  = Some(deckey);
 
                         if let Some(declaration) = self.get_mut_declaration(deckey) {
-- 
2.43.0


From 8cac797646b9eaa181676ef254e4e794617eb9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:21 +0000
Subject: [PATCH 15/47] fix: find features regardless of how the set of the
 annotation is declared

---
 src/element.rs | 35 +++++++++++++++++++++++------------
 src/select.rs  |  8 ++++----
 2 files changed, 27 insertions(+), 16 deletions(-)

diff --git a/src/element.rs b/src/element.rs
index 5a28f83..5875e07 100644
--- a/src/element.rs
+++ b/src/element.rs
@@ -555,18 +555,29 @@ impl<'a> Element<'a> {
     ///High-level function to get a particular feature by annotation type and set, returns an
     ///iterator.
     pub fn get_features(&self, subset: Cmp<String>) -> SelectElementsIterator {
-        self.select(
-                Selector::from_query(self.document().expect("Unwrapping document on element for get_features()"),
-                    &Query::select()
-                           .element(Cmp::Is(ElementType::Feature))
-                           .contexttype(Cmp::Is(self.elementtype()))
-                           .set(match self.set() {
-                               Some(set) => Cmp::Is(set.to_string()),
-                               None => Cmp::None,
-                            })
-                           .subset(subset)
-                ).expect("Compiling query for get_features()")
-        , Recursion::No)
+        let doc = self.document().expect("Unwrapping document on element for get_features()");
+        //features carry their subset in encoded form, relative to their declaration, so we select on those
+        let mut keys: Vec<(Option<DecKey>,Option<SubsetKey>)> = Vec::new();
+        for item in self.elementdata().data.iter() {
+            if let DataType::Element(key) = item {
+                if let Some(feature) = doc.get_element(*key) {
+                    if feature.elementtype() == ElementType::Feature && subset.matches(feature.subset().map(|s| s.to_string()).as_ref()) {
+                        let pair = (feature.declaration_key(), feature.subset_key());
+                        if !keys.contains(&pair) {
+                            keys.push(pair);
+                        }
+                    }
+                }
+            }
+        }
+        let mut selector = Selector::elements().element(Cmp::Unmatchable);
+        for (declaration_key, subset_key) in keys {
+            let mut feature_selector = Selector::elements().element(Cmp::Is(ElementType::Feature));
+            feature_selector.set = declaration_key.map_or(Cmp::None, Cmp::Is);
+            feature_selector.subset = subset_key.map_or(Cmp::None, Cmp::Is);
+            selector = selector.and(feature_selector);
+        }
+        self.select(selector        , Recursion::No)
     }
 
 
diff --git a/src/select.rs b/src/select.rs
index 060088d..582acbd 100644
--- a/src/select.rs
+++ b/src/select.rs
@@ -49,10 +49,10 @@ impl Selector {
         selector.annotatortype = query.annotatortype.clone();
         selector.confidence = query.confidence.clone();
         selector.datatypes = vec![DataTypeSelector::Elements];
-        //if we have subsets, we use contexttype instead of elementtype (because elementtype will
-        //always be ElementType::feature)
-        let elementtype_source: &Cmp<ElementType> = match &query.subset {
-            Cmp::Some | Cmp::Is(_) =>  &query.contexttype,
+        //if we have subsets or an explicit context, we use contexttype instead of elementtype
+        //(because elementtype will always be ElementType::feature)
+        let elementtype_source: &Cmp<ElementType> = match (&query.subset, &query.contexttype) {
+            (Cmp::Some, _) | (Cmp::Is(_), _) | (_, Cmp::Is(_)) =>  &query.contexttype,
             _ => &query.elementtype,
         };
         selector.set = match &query.set {
-- 
2.43.0


From 86369f0662844320afc335fda5bcdd0824c79e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:37 +0000
Subject: [PATCH 16/47] fix: endless recursion when displaying an attribute
 type

---
 src/attrib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/attrib.rs b/src/attrib.rs
index 7499a64..02b8157 100644
--- a/src/attrib.rs
+++ b/src/attrib.rs
@@ -64,7 +64,8 @@ impl Into<&str> for AttribType {
 
 impl fmt::Display for AttribType {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
-        write!(f, "{}", self)
+        let name: &str = (*self).into();
+        write!(f, "{}", name)
     }
 }
 
-- 
2.43.0


From 82de921156016ca56c50c7677a228ec0c5d1fe37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:39 +0000
Subject: [PATCH 17/47] fix: keep the attributes of annotation layers that
 inherit their set

---
 src/document.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/document.rs b/src/document.rs
index b477ae9..cf79741 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -366,7 +366,9 @@ impl Document {
         }
         if let Some(add_attributes) = add_attributes {
             if let Some(element) = self.get_mut_elementdata(element_key) {
-                element.set_attribs(add_attributes);
+                for attrib in add_attributes {
+                    element.set_attrib(attrib);
+                }
             }
         }
         Ok(())
-- 
2.43.0


From 68a8573218f6674866161ed0d77093da049954a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:41 +0000
Subject: [PATCH 18/47] fix: elements that have no ancestor in common have no
 common ancestors

---
 src/select.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/select.rs b/src/select.rs
index 582acbd..5536f61 100644
--- a/src/select.rs
+++ b/src/select.rs
@@ -713,10 +713,12 @@ impl Document {
 
     pub fn common_ancestors(&self, selector: Selector, elements: &[ElementKey]) -> Vec<ElementKey> {
         let mut result: Vec<ElementKey> = Vec::new();
+        let mut first = true;
         for sibling_key in elements {
             if let Some(sibling) = self.get_element(*sibling_key) {
                 let ancestors: Vec<ElementKey> = sibling.ancestors(selector.clone()).map(|e| e.key().expect("get key")).collect();
-                if result.is_empty() {
+                if first {
+                    first = false;
                     result = ancestors.into_iter().collect();
                 } else {
                     result = result.into_iter().filter(|a| ancestors.contains(a)).collect();
-- 
2.43.0


From 2a5dfb23dded5d61ff28e6833d9ed1ee8ba72a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:55 +0000
Subject: [PATCH 19/47] fix: refuse to attach an element to itself or to its
 own descendant

---
 src/document.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/document.rs b/src/document.rs
index cf79741..c88b891 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -270,6 +270,10 @@ impl Document {
         if !self.get(parent_key).is_some() {
             return Err(FoliaError::InternalError(format!("Parent element does not exist: {}", parent_key)));
         };
+        //ensure we don't create a cycle
+        if parent_key == child_key || self.ancestors_by_key(parent_key, Selector::elements()).any(|ancestor| ancestor.key() == Some(child_key)) {
+            return Err(FoliaError::ValidationError(format!("Element {} can not be attached to itself or to one of its descendants ({})", child_key, parent_key)));
+        }
 
         let oldparent_key = if let Some(child) = self.get_mut(child_key) {
             //add the new parent and return the old parent
-- 
2.43.0


From a65b52c21a010c9fb543b904ed66b652290e70e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:20 +0000
Subject: [PATCH 20/47] fix: refuse elements with an ID that is already in use

---
 src/element.rs | 5 +++++
 src/store.rs   | 9 +++++++++
 2 files changed, 14 insertions(+)

diff --git a/src/element.rs b/src/element.rs
index 5875e07..1e18198 100644
--- a/src/element.rs
+++ b/src/element.rs
@@ -95,6 +95,11 @@ impl Storable<ElementKey> for ElementData {
         false
     }
 
+    ///Elements are not interchangeable, their IDs must be unique
+    fn reusable(&self) -> bool {
+        false
+    }
+
     ///Returns the key of the current element
     fn key(&self) -> Option<ElementKey> {
         self.key
diff --git a/src/store.rs b/src/store.rs
index 9dfd452..cee8ca2 100644
--- a/src/store.rs
+++ b/src/store.rs
@@ -23,6 +23,12 @@ pub trait Storable<Key> {
         false
     }
 
+    ///Does the ID identify the item by its contents (the default), such that adding an item which is
+    ///already in the store is the same as referring to the existing one? If not, IDs must be unique.
+    fn reusable(&self) -> bool {
+        true
+    }
+
     ///Get the key of the current item (if supported by the item)
     fn key(&self) -> Option<Key> {
         None
@@ -60,6 +66,9 @@ pub trait Store<T,Key> where T: Storable<Key>,
         }
 
         if let Some(key) = self.get_key(&item) {
+            if !item.reusable() {
+                return Err(FoliaError::ValidationError(format!("Duplicate ID: {}", item.maybe_id().unwrap_or_default())));
+            }
             return Ok(key);
         }
 
-- 
2.43.0


From dc342f779b778f67438b4805605e1f6e26dedd72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:37 +0000
Subject: [PATCH 21/47] fix: keep the provenance chain a tree when a processor
 is added or attached again

---
 src/document.rs | 27 ++++++++++++++++++++++++---
 src/parser.rs   |  6 ++++++
 2 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index c88b891..620191f 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -407,7 +407,10 @@ impl Document {
         let pending_subprocessors: Vec<Processor> = processor.pending_processors.replace(vec!());
         let child_key = self.add(processor, None);
         if let Ok(child_key) = child_key {
-            self.provenancestore.chain.push(child_key);
+            //(the processor may already be in the chain, or be a subprocessor)
+            if !self.provenancestore.chain.contains(&child_key) && self.get_processor(child_key).map_or(false, |p| p.parent.is_none()) {
+                self.provenancestore.chain.push(child_key);
+            }
             for subprocessor in pending_subprocessors {
                 self.add_subprocessor(child_key, subprocessor)?;
             }
@@ -437,14 +440,32 @@ impl Document {
             return Err(FoliaError::InternalError(format!("Parent does not exist: {}", parent_key)));
         };
 
-        if let Some(child) = self.get_mut_processor(child_key) {
+        //ensure we don't create a cycle
+        let mut ancestor_key = Some(parent_key);
+        while let Some(key) = ancestor_key {
+            if key == child_key {
+                return Err(FoliaError::ValidationError(format!("Processor {} can not be attached to itself or to one of its subprocessors ({})", child_key, parent_key)));
+            }
+            ancestor_key = self.get_processor(key).and_then(|p| p.parent);
+        }
+
+        let oldparent_key = if let Some(child) = self.get_mut_processor(child_key) {
             //add the new parent and return the old parent
-            child.parent = Some(parent_key);
+            child.parent.replace(parent_key)
         } else {
             //child does not exist
             return Err(FoliaError::InternalError(format!("Child does not exist: {}", child_key)));
         };
 
+        //detach the child from the old parent
+        if let Some(oldparent_key) = oldparent_key {
+            if let Some(oldparent) = self.get_mut_processor(oldparent_key) {
+                oldparent.processors.retain(|key| *key != child_key);
+            }
+        } else {
+            self.provenancestore.chain.retain(|key| *key != child_key);
+        }
+
         if let Some(parent) = self.get_mut_processor(parent_key) {
             parent.processors.push(child_key);
         }
diff --git a/src/parser.rs b/src/parser.rs
index bfb7aa7..079ca32 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -99,6 +99,9 @@ impl Document {
                         (Some(ns), b"processor") if ns == NSFOLIA && parseprovenance => {
                             let processor = Processor::parse(&reader, &e)
                                                       .map_err(FoliaError::add_parseerror("Error parsing processor"))?;
+                            if doc.get_processor_key_by_id(&processor.id).is_some() {
+                                return Err(FoliaError::ParseError(format!("Duplicate processor ID: {}", processor.id)));
+                            }
                             if processor_stack.is_empty() {
                                 doc.add_processor(processor).map_err(FoliaError::add_parseerror("Error adding processor"))?;
                             } else {
@@ -157,6 +160,9 @@ impl Document {
                         },
                         (Some(ns), b"processor") if ns == NSFOLIA && parseprovenance => {
                             let processor = Processor::parse(&reader, &e).map_err(FoliaError::add_parseerror("Error parsing processor"))?;
+                            if doc.get_processor_key_by_id(&processor.id).is_some() {
+                                return Err(FoliaError::ParseError(format!("Duplicate processor ID: {}", processor.id)));
+                            }
                             if processor_stack.is_empty() {
                                 let processor_key = doc.add_processor(processor).map_err(FoliaError::add_parseerror("Error adding processor"))?;
                                 processor_stack.push(processor_key);
-- 
2.43.0


From 7acaf182e3ad9bcfddcad5988acb3ff48e3940c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:35 +0000
Subject: [PATCH 22/47] fix: add nested elements from the top down, so features
 and span roles know their context, and refuse invalid ones before anything is
 added

---
 src/document.rs | 145 +++++++++++++++++++++++++++++-------------------
 1 file changed, 87 insertions(+), 58 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index 620191f..db52263 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -172,8 +172,13 @@ impl Document {
     ///Add an element to the document (but the element will be an orphan unless it is the very
     ///first one, you may want to use ``add_element_to`` or ``annotate`` instead)
     pub fn add_element(&mut self, element: ElementData) -> Result<ElementKey, FoliaError> {
-        let (element,_) = self.add_children(element)?;
-        <Self as Store<ElementData,ElementKey>>::add(self, element, None)
+        self.check_new_element(None, &element)?;
+        let mut added: Vec<ElementKey> = Vec::new();
+        let key = self.add_recursively(None, element, &mut added)?;
+        for added_key in added.into_iter().filter(|added_key| *added_key != key) {
+            self.post_add(added_key, None)?;
+        }
+        Ok(key)
     }
 
     ///Add a declaration. It is strongly recommended to use ``declare()`` instead
@@ -196,71 +201,95 @@ impl Document {
     ///takes care of adding and attaching for you. You may want to use ``annotate`` instead
     ///as that is an even higher-level function.
     pub fn add_element_to(&mut self, parent_key: ElementKey, element: ElementData) -> Result<ElementKey, FoliaError> {
-        let (element,added_subelements) = self.add_children(element)?;
-        match <Self as Store<ElementData,ElementKey>>::add(self, element, Some(parent_key)) {
-            Ok(child_key) => {
-                if let Some(added_subelements) = added_subelements {
-                    for subchild_key in added_subelements.iter() {
-                        if let Some(subchilddata) = self.get_mut_elementdata(*subchild_key) {
-                            subchilddata.set_parent_key(Some(child_key));
-                        }
-                        self.post_add(*subchild_key, None)?;
-                    }
-                }
-                self.attach_element(parent_key, child_key)?;
-                self.post_add(child_key, None)?;
-                Ok(child_key)
-            },
-            Err(err) => {
-                Err(FoliaError::InternalError(format!("Unable to add element to parent: {}", err)))
+        if self.get_elementdata(parent_key).is_none() {
+            return Err(FoliaError::InternalError(format!("Parent element does not exist: {}", parent_key)));
+        }
+        self.check_new_element(Some(parent_key), &element)?;
+        let mut added: Vec<ElementKey> = Vec::new();
+        let child_key = self.add_recursively(Some(parent_key), element, &mut added)?;
+        for added_key in added {
+            self.post_add(added_key, None)?;
+        }
+        Ok(child_key)
+    }
+
+    ///Adds an element and attaches it to its parent, then does the same for its hitherto 'unborn'
+    ///children. The keys of all elements that were added are collected in ``added``, they still need
+    ///to be postprocessed.
+    fn add_recursively(&mut self, parent_key: Option<ElementKey>, mut element: ElementData, added: &mut Vec<ElementKey>) -> Result<ElementKey,FoliaError> {
+        let data = std::mem::replace(&mut element.data, Vec::new());
+        let key = <Self as Store<ElementData,ElementKey>>::add(self, element, parent_key)?;
+        added.push(key);
+        if let Some(parent_key) = parent_key {
+            self.attach_element(parent_key, key)?;
+        }
+        for item in data {
+            if let DataType::AddElement(child) = item {
+                self.add_recursively(Some(key), child, added)?;
+            } else if let Some(element) = self.get_mut_elementdata(key) {
+                element.push(item);
             }
         }
+        Ok(key)
     }
 
-    ///Before we can add an element, we need to create and add its hitherto 'unborn' children.
-    pub(crate) fn add_children(&mut self, mut element: ElementData) -> Result<(ElementData, Option<Vec<ElementKey>>),FoliaError> {
-        let mut has_unborn_children = false;
-        for child in element.data.iter() {
-            if let DataType::AddElement(_) = child {
-                has_unborn_children = true;
+    ///Tests whether a new element, including its hitherto 'unborn' children, can be added,
+    ///returns an error otherwise. This allows to refuse an element before anything is added.
+    fn check_new_element(&self, parent_key: Option<ElementKey>, element: &ElementData) -> Result<(),FoliaError> {
+        let mut ids: Vec<&str> = Vec::new();
+        self.collect_new_ids(element, &mut ids)?;
+        let parenttype = parent_key.and_then(|key| self.get_elementdata(key)).map(|parent| parent.elementtype);
+        let in_span = if let (Some(parent_key), Some(parenttype)) = (parent_key, parenttype) {
+            ElementGroup::Span.contains(parenttype) ||
+            self.ancestors_by_key(parent_key, Selector::elements().elementgroup(Cmp::Is(ElementGroup::Span))).next().is_some()
+        } else {
+            false
+        };
+        self.check_new_references(parenttype, in_span, element, &ids)
+    }
+
+    ///Collects the IDs of a new element and its children, returns an error if they are already in use
+    fn collect_new_ids<'a>(&self, element: &'a ElementData, ids: &mut Vec<&'a str>) -> Result<(),FoliaError> {
+        if let Some(id) = element.id() {
+            if ids.contains(&id) || self.get_element_key_by_id(id).is_some() {
+                return Err(FoliaError::ValidationError(format!("Duplicate ID: {}", id)));
             }
+            ids.push(id);
         }
-        if has_unborn_children {
-            let mut added_elements: Vec<ElementKey> = Vec::new();
-            let mut new_data: Vec<DataType> = Vec::new();
-            for child in element.data {
-                if let DataType::AddElement(child_elementdata) = child {
-                    //first we do a recursion step to add the grandchildren, if any
-                    let child_key = match self.add_children(child_elementdata) {
-                        Ok((child_elementdata_new, Some(added_grandchildren))) => {
-                            let child_key = <Self as Store<ElementData,ElementKey>>::add(self, child_elementdata_new, None)?;
-                            for grandchild_key in added_grandchildren {
-                                if let Some(subchilddata) = self.get_mut_elementdata(grandchild_key) {
-                                    subchilddata.set_parent_key(Some(child_key));
-                                }
-                                self.post_add(grandchild_key, None)?;
-                            }
-                            child_key
-                        },
-                        Ok((child_elementdata_new, None)) => {
-                            let child_key = <Self as Store<ElementData,ElementKey>>::add(self, child_elementdata_new, None)?;
-                            child_key
-                        }
-                        Err(e) => {
-                            return Err(e);
-                        }
-                    };
-                    new_data.push(DataType::Element(child_key));
-                    added_elements.push(child_key);
-                } else {
-                    new_data.push(child);
+        for item in element.data.iter() {
+            if let DataType::AddElement(child) = item {
+                self.collect_new_ids(child, ids)?;
+            }
+        }
+        Ok(())
+    }
+
+    ///Tests if all references to other elements from a new element and its children can be resolved
+    fn check_new_references(&self, parenttype: Option<ElementType>, in_span: bool, element: &ElementData, ids: &Vec<&str>) -> Result<(),FoliaError> {
+        match element.elementtype {
+            ElementType::WordReference if parenttype.is_some() => {
+                let idref = element.idref().ok_or(FoliaError::ParseError("Wref element does not reference anything!".to_string()))?;
+                if !in_span {
+                    return Err(FoliaError::ParseError(format!("Wref span parent not found! (idref={})", idref)));
                 }
+                if !ids.contains(&idref) && self.get_element_key_by_id(idref).is_none() {
+                    return Err(FoliaError::ParseError(format!("Wref references an element that does not exist: {}", idref)));
+                }
+            },
+            ElementType::Feature if element.encodable() => {
+                if parenttype.and_then(|parenttype| parenttype.annotationtype()).is_none() {
+                    return Err(FoliaError::EncodeError(format!("Features are not supported on {:?}", parenttype)));
+                }
+            },
+            _ => {}
+        }
+        let in_span = in_span || ElementGroup::Span.contains(element.elementtype);
+        for item in element.data.iter() {
+            if let DataType::AddElement(child) = item {
+                self.check_new_references(Some(element.elementtype), in_span, child, ids)?;
             }
-            element.data = new_data;
-            Ok((element, Some(added_elements)))
-        } else {
-            Ok((element, None))
         }
+        Ok(())
     }
 
     ///Adds the child element to the parent element, automatically takes care
-- 
2.43.0


From 042a8a8f30e58bfb5c707241771b5b56cf8c84ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:53 +0000
Subject: [PATCH 23/47] fix: resolve word references to elements further on in
 the document

---
 src/parser.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 079ca32..ceb3889 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -414,6 +414,7 @@ impl Document {
     pub(crate) fn parse_elements<R: BufRead>(&mut self, reader: &mut Reader<R>, mut buf: &mut Vec<u8>, mut nsbuf: &mut Vec<u8>) -> Result<(), FoliaError> {
         if !self.elementstore.items.is_empty() {
             let mut stack: Vec<ElementKey> = vec![0]; //0 is the root/body element, we always start with it
+            let mut references: Vec<ElementKey> = vec![]; //references are resolved last, they may refer to elements further on in the document
             loop {
                 let e = reader.read_namespaced_event(&mut buf, &mut nsbuf)?;
                 match e {
@@ -437,7 +438,11 @@ impl Document {
                             let child_key = self.add(child, Some(key))?;
                             self.attach_element(key, child_key)?;
                         }
-                        self.post_add(key, Some(&stack))?;
+                        if self.get_elementdata(key).map_or(false, |elem| elem.elementtype == ElementType::WordReference) {
+                            references.push(key);
+                        } else {
+                            self.post_add(key, Some(&stack))?;
+                        }
                     },
                     (Some(ns), Event::Start(ref e)) if ns == NSFOLIA => {
                         //START TAG FOUND (<tag>)
@@ -463,7 +468,11 @@ impl Document {
                             break;
                         }
                         let key = stack.pop().unwrap();
-                        self.post_add(key, Some(&stack))?;
+                        if self.get_elementdata(key).map_or(false, |elem| elem.elementtype == ElementType::WordReference) {
+                            references.push(key);
+                        } else {
+                            self.post_add(key, Some(&stack))?;
+                        }
                         if let Some(elem) = self.get_elementdata(key) {
 
                             //verify we actually close the right thing (otherwise we have malformed XML)
@@ -517,6 +526,9 @@ impl Document {
                     (_,_) => {}
                 }
             };
+            for key in references {
+                self.post_add(key, None)?;
+            }
             Ok(())
         } else {
             Err(FoliaError::InternalError("No root element".to_string()))
-- 
2.43.0


From af7622b648e25dd04d11bab32b72dc90b35f83bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:16 +0000
Subject: [PATCH 24/47] fix: reuse the annotation layer of the common ancestor
 when annotating from a spanned element

---
 src/document.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/document.rs b/src/document.rs
index db52263..d5b6c91 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -603,7 +603,7 @@ impl Document {
                             suitable = props.accepted_data.contains(&AcceptedData::AcceptElementGroup(ElementGroup::Layer)) || props.accepted_data.contains(&AcceptedData::AcceptElementType(layertype));
                         };
                         if suitable {
-                            let mut layer_key: Option<ElementKey> = self.get_layer_key(parent_key, element.elementtype.annotationtype().expect("annotation type"), set.as_ref().map(|s| s.as_str()) )?;
+                            let mut layer_key: Option<ElementKey> = self.get_layer_key(*ancestor_key, element.elementtype.annotationtype().expect("annotation type"), set.as_ref().map(|s| s.as_str()) )?;
                             if layer_key.is_none() {
                                 //no layer found yet, add a new one
                                 let layerdata = match set {
-- 
2.43.0


From bdabde89df569f0eae67a0798de9c2593c435eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:18 +0000
Subject: [PATCH 25/47] fix: do not leave an empty layer behind when a span
 annotation is refused

---
 src/document.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index d5b6c91..ce0f932 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -566,6 +566,11 @@ impl Document {
                 FoliaError::InternalError(format!("No layer type found for specified span type {:?}",element.elementtype))
             )?;
             let props = self.props(parent.elementtype());
+            if props.wrefable || ElementGroup::Structure.contains(parent.elementtype()) {
+                //the element will end up in a layer, ensure it can be added before we create the layer
+                self.check_elementtype_addable(layertype, &element)?;
+                self.check_new_element(None, &element)?;
+            }
             if props.wrefable {
                 addspanfromspanned = true
             } else if ElementGroup::Structure.contains(parent.elementtype()) {
@@ -798,7 +803,12 @@ impl Document {
         let parent = self.get_element(parent_key).ok_or(
             FoliaError::InternalError(format!("Specified parent element key not found"))
         )?;
-        let props = self.props(parent.elementtype());
+        self.check_elementtype_addable(parent.elementtype(), element)
+    }
+
+    ///Tests if the element may be added to an element of the specified type (which does not need to exist yet)
+    fn check_elementtype_addable(&self, parenttype: ElementType, element: &ElementData) -> Result<(), FoliaError> {
+        let props = self.props(parenttype);
         for accepted_data in props.accepted_data.iter() {
             match accepted_data {
                 AcceptedData::AcceptElementType(et) => if *et == element.elementtype {
@@ -809,7 +819,7 @@ impl Document {
                 }
             }
         }
-        Err(FoliaError::ValidationError(format!("Can't add element type {:?} to {:?}", element.elementtype, parent.elementtype())))
+        Err(FoliaError::ValidationError(format!("Can't add element type {:?} to {:?}", element.elementtype, parenttype)))
     }
 
 }
-- 
2.43.0


From 6f4dc56e3b23f124f158638b0acd30080fae0fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:56 +0000
Subject: [PATCH 26/47] fix: do not let the document properties affect the sets
 and annotators of the annotations that are loaded

---
 src/parser.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index ceb3889..3e5dc12 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -303,11 +303,19 @@ impl Document {
 
         if let Some(body) = body {
             doc.add(body,None).map_err(FoliaError::add_parseerror("Error adding body"))?;
-            doc.apply_properties(properties).map_err(FoliaError::add_parseerror("Error applying properties"))?;
+            //only what the document does not declare by itself is declared up front, so this affects
+            //neither the default sets nor the annotators of the annotations in the document
+            let mut initial_properties = properties.clone();
+            initial_properties.processor = None;
+            initial_properties.declare.retain(|(annotationtype,_)| {
+                !doc.declarations().any(|declaration| declaration.as_ref().map_or(false, |declaration| declaration.annotationtype == *annotationtype))
+            });
+            doc.apply_properties(initial_properties).map_err(FoliaError::add_parseerror("Error applying properties"))?;
             if !empty_body {
                 doc.parse_elements(reader, &mut buf, &mut nsbuf)?;
             }
             Self::parse_end(reader, &mut buf, &mut nsbuf)?;
+            doc.apply_properties(properties).map_err(FoliaError::add_parseerror("Error applying properties"))?;
             Ok(doc)
         } else {
             Err(FoliaError::ParseError("No body found".to_string()))
-- 
2.43.0


From 04a02a24c4cb745285d479f5918cf0337bfa7c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:21 +0000
Subject: [PATCH 27/47] fix: find the text of the requested class, also through
 word references and corrections, and refuse reference cycles

---
 src/text.rs | 74 ++++++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 62 insertions(+), 12 deletions(-)

diff --git a/src/text.rs b/src/text.rs
index 150e25d..9a75fbc 100644
--- a/src/text.rs
+++ b/src/text.rs
@@ -61,6 +61,15 @@ impl<'a> Element<'a> {
     ///Returns the text content of a given element
     pub fn text_by_key(&self, set: DecKey, textclass: ClassKey, strict: bool, retaintokenisation: bool, previousdelimiter: Option<String>) -> Result<String,FoliaError> {
         let doc = self.document().ok_or(FoliaError::KeyError("Element has no associated document".to_string()))?;
+        let declaration = doc.get_declaration(set).ok_or_else(|| FoliaError::KeyError(format!("No such declaration ({})", set)))?;
+        let textclass = declaration.get_class(textclass).ok_or_else(|| FoliaError::KeyError(format!("No such class ({}) for the given declaration", textclass)))?;
+        self.text_by_class(textclass, strict, retaintokenisation, previousdelimiter, &mut Vec::new())
+    }
+
+    ///Returns the text content of a given element, ``references`` holds the targets of the references
+    ///that are being followed.
+    fn text_by_class(&self, textclass: &str, strict: bool, retaintokenisation: bool, previousdelimiter: Option<String>, references: &mut Vec<ElementKey>) -> Result<String,FoliaError> {
+        let doc = self.document().ok_or(FoliaError::KeyError("Element has no associated document".to_string()))?;
 
         let properties = doc.props(self.elementtype());
 
@@ -81,8 +90,10 @@ impl<'a> Element<'a> {
                                         text += textdelimiter;
                                     }
                                 }
-                                let textpart = element.text_by_key(set,textclass,strict, retaintokenisation,None)?;
-                                text += &textpart;
+                                //(not everything that is printable has text, a linebreak for instance does not)
+                                if let Ok(textpart) = element.text_by_class(textclass,strict, retaintokenisation,None, references) {
+                                    text += &textpart;
+                                }
                             }
                         }
                     },
@@ -102,9 +113,10 @@ impl<'a> Element<'a> {
                     if let Some(element) = doc.get_element(*element_key) {
                         if ElementGroup::Structure.contains(element.elementtype()) ||
                            element.elementtype() == ElementType::Correction ||
+                           self.corrected_part().map_or(false, |part| part.key() == element.key()) ||
                            ElementGroup::Span.contains(element.elementtype()) {
 
-                           if let Ok(textpart) = element.text_by_key(set,textclass,false, retaintokenisation, Some(delimiter.clone())) {
+                           if let Ok(textpart) = element.text_by_class(textclass,false, retaintokenisation, Some(delimiter.clone()), references) {
                                //delimiter will be buffered and only printed upon next iteration
                                text += &textpart;
                                if let Ok(s) = element.get_textdelimiter(retaintokenisation) {
@@ -113,23 +125,25 @@ impl<'a> Element<'a> {
                            }
                         } else if element.elementtype() == ElementType::WordReference {
                             //follow the reference
-                            if let Some(element) = element.resolve() {
-                               if let Ok(textpart) = element.text_by_key(set,textclass,false, retaintokenisation, Some(delimiter.clone())) {
+                            if let Some(element) = element.resolve().filter(|element| element.key().map_or(false, |key| !references.contains(&key))) {
+                               references.push(element.key().expect("unwrapping key"));
+                               if let Ok(textpart) = element.text_by_class(textclass,false, retaintokenisation, Some(delimiter.clone()), references) {
                                    //delimiter will be buffered and only printed upon next iteration
                                    text += &textpart;
                                    if let Ok(s) = element.get_textdelimiter(retaintokenisation) {
                                        delimiter = s.to_string();
                                    }
                                }
+                               references.pop();
                             }
-                        } else if element.elementtype() == ElementType::TextContent {
+                        } else if element.elementtype() == ElementType::TextContent && element.class().unwrap_or("current") == textclass {
                             textcontent_element = Some(element);
                         }
                     }
                 }
             }
             if text.is_empty() && textcontent_element.is_some() {
-                if let Ok(parttext) = textcontent_element.unwrap().text_by_key(set,textclass,false,retaintokenisation, None) {
+                if let Ok(parttext) = textcontent_element.unwrap().text_by_class(textclass,false,retaintokenisation, None, references) {
                     text = parttext
                 }
             }
@@ -146,12 +160,47 @@ impl<'a> Element<'a> {
         }
     }
 
+    ///Returns the part of a correction that provides its text: the new part if there is one, the
+    ///current part otherwise.
+    fn corrected_part(&self) -> Option<Element> {
+        let doc = self.document()?;
+        if self.elementtype() != ElementType::Correction {
+            return None;
+        }
+        for parttype in &[ElementType::New, ElementType::Current] {
+            for item in self.elementdata().data.iter() {
+                if let DataType::Element(element_key) = item {
+                    if let Some(element) = doc.get_element(*element_key) {
+                        if element.elementtype() == *parttype {
+                            return Some(element);
+                        }
+                    }
+                }
+            }
+        }
+        None
+    }
+
     ///Returns the text delimiter for this element
     pub fn get_textdelimiter(&self, retaintokenisation: bool) -> Result<Cow<str>,FoliaError> {
         let doc = self.document().ok_or(FoliaError::KeyError("Element has no associated document".to_string()))?;
         let properties =  doc.props(self.elementtype());
         if properties.textdelimiter.is_none() {
-            //no text delimiter of itself, recurse into children to inherit delimiter
+            //no text delimiter of itself
+            if self.elementtype() == ElementType::WordReference {
+                //use the delimiter of the element that is referred to
+                return match self.resolve() {
+                    Some(element) if doc.props(element.elementtype()).textdelimiter.is_some() => element.get_textdelimiter(retaintokenisation).map(|s| Cow::Owned(s.into_owned())),
+                    _ => Ok(Cow::Borrowed(""))
+                };
+            } else if self.elementtype() == ElementType::Correction {
+                //use the delimiter of the part that provides the text
+                return match self.corrected_part() {
+                    Some(element) => element.get_textdelimiter(retaintokenisation).map(|s| Cow::Owned(s.into_owned())),
+                    None => Ok(Cow::Borrowed(""))
+                };
+            }
+            //recurse into children to inherit delimiter
             for item in self.elementdata().data.iter().rev() {
                 if let DataType::Element(element_key) = item {
                     if let Some(element) = doc.get_element(*element_key) {
@@ -195,11 +244,12 @@ impl<'a> Element<'a> {
     ///fallback to the default text set and "current class".
     pub fn text(&self, textparameters: &TextParameters) -> Result<String,FoliaError> {
         let doc = self.document().ok_or(FoliaError::KeyError("Element has no associated document".to_string()))?;
-        if let Some(dec_key) = doc.get_declaration_key_by_id(Declaration::index_id(AnnotationType::TEXT, &textparameters.set.as_ref().map(|s| s.as_str())).as_str()) {
-            let class_key = doc.class_key(dec_key, &textparameters.textclass.as_ref().map(|s| s.as_str()).expect("unwrapping textclass")  )?;
-            self.text_by_key(dec_key, class_key,textparameters.strict,textparameters.retaintokenisation, None)
+        let set: &str = textparameters.set.as_ref().map(|s| s.as_str()).unwrap_or(DEFAULT_TEXT_SET);
+        let textclass: &str = textparameters.textclass.as_ref().map(|s| s.as_str()).unwrap_or("current");
+        if doc.get_declaration_key_by_id(Declaration::index_id(AnnotationType::TEXT, &Some(set)).as_str()).is_some() {
+            self.text_by_class(textclass, textparameters.strict,textparameters.retaintokenisation, None, &mut Vec::new())
         } else {
-            Err(FoliaError::EncodeError(format!("No declaration for the specified text set ({})", textparameters.set.as_ref().map(|s| s.as_str()).expect("unwrapping set"))))
+            Err(FoliaError::EncodeError(format!("No declaration for the specified text set ({})", set)))
         }
     }
 }
-- 
2.43.0


From f6e80f041c7d6e0d3cfdd38625aac73eea3224df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:19 +0000
Subject: [PATCH 28/47] fix: do not add whitespace to text when serialising

---
 src/serialiser.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/serialiser.rs b/src/serialiser.rs
index 86c1956..7a5cb10 100644
--- a/src/serialiser.rs
+++ b/src/serialiser.rs
@@ -221,13 +221,19 @@ impl Document {
 
         //Select children
         let mut stack: Vec<(BytesEnd,ElementType,String)> = vec![];
+        //whether the content of the elements on the stack is inline; i.e. contains text, in which no
+        //whitespace may be added
+        let mut inline: Vec<bool> = vec![];
         let mut previous_depth = 0;
         let mut last_start: String = "<ROOT>".to_string();
         for item in self.select_data_by_key(root_key,Selector::all_data(),Recursion::Always, true, false) {
             while item.depth < previous_depth {
                 if let Some((end,elementtype,_tagstring)) = stack.pop() {
+                    if inline.pop() == Some(true) {
+                        self.xml_noindent(writer)?;
+                    }
                     writer.write_event(Event::End(end)).map_err(to_serialisation_error)?;
-                    if !ElementGroup::TextMarkup.contains(elementtype) {
+                    if !ElementGroup::TextMarkup.contains(elementtype) && inline.last() != Some(&true) {
                         writer.write_event(Event::Text(BytesText::from_plain(NL))).map_err(to_serialisation_error)?;
                     }
                     //eprintln!("[DEBUG] <-- Popped end tag {} ({})", tagstring.as_str(), item.depth);
@@ -236,6 +242,9 @@ impl Document {
                 }
                 previous_depth -= 1;
             }
+            if inline.last() == Some(&true) {
+                self.xml_noindent(writer)?;
+            }
             match item.data {
                 DataType::Element(key) => {
                     if let Some(element) = self.get_element(*key) {
@@ -280,6 +289,8 @@ impl Document {
                                 }
                             }
                         }
+                        let parent_inline = inline.last() == Some(&true);
+                        let element_inline = parent_inline || self.props(element.elementtype()).textcontainer || element.data.data.iter().any(|data| match data { DataType::Text(_) => true, _ => false });
                         if element.data.is_empty() {
                             writer.write_event(Event::Empty(start)).map_err(to_serialisation_error)?;
                         } else {
@@ -288,8 +299,9 @@ impl Document {
                             //eprintln!("[DEBUG] --> Pushed start tag {} ({})", tagstring.as_str(), item.depth);
                             last_start = tagstring.clone();
                             stack.push((end,element.elementtype(),tagstring));
+                            inline.push(element_inline);
                         }
-                        if !ElementGroup::TextMarkup.contains(element.elementtype()) && element.elementtype() != ElementType::TextContent && element.elementtype() != ElementType::PhonContent {
+                        if !parent_inline && (element.data.is_empty() || !element_inline) && !ElementGroup::TextMarkup.contains(element.elementtype()) && element.elementtype() != ElementType::TextContent && element.elementtype() != ElementType::PhonContent {
                             writer.write_event(Event::Text(BytesText::from_plain(NL))).map_err(to_serialisation_error)?;
                         }
                     }
@@ -313,10 +325,18 @@ impl Document {
 
         //don't forget the final closing elements
         while let Some((end, _elementtype, _tagstring)) = stack.pop() {
+            if inline.pop() == Some(true) {
+                self.xml_noindent(writer)?;
+            }
             writer.write_event(Event::End(end)).map_err(to_serialisation_error)?;
             //eprintln!("[DEBUG] <-- Popped final end tag {}", tagstring.as_str());
         }
 
         Ok(())
     }
+
+    ///Prevents the writer from adding a newline and indentation before the next tag
+    fn xml_noindent(&self, writer: &mut Writer<Cursor<Vec<u8>>>) -> Result<(), FoliaError> {
+        writer.write_event(Event::Text(BytesText::from_plain(b""))).map_err(to_serialisation_error)
+    }
 }
-- 
2.43.0


From aa158f0b40f123653804c4a536a9ce7027d81017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:55 +0000
Subject: [PATCH 29/47] fix: serialise comments as they are, and elements that
 are not attached to anything

---
 src/serialiser.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/serialiser.rs b/src/serialiser.rs
index 7a5cb10..51c1e4d 100644
--- a/src/serialiser.rs
+++ b/src/serialiser.rs
@@ -247,6 +247,8 @@ impl Document {
             }
             match item.data {
                 DataType::Element(key) => {
+                    //the first item is the root, also if it is not attached to anything
+                    let key = if item.depth == 0 { &root_key } else { key };
                     if let Some(element) = self.get_element(*key) {
                         let tagstring = element.elementtype().to_string();
                         //eprintln!("[DEBUG] (processing tag {} ({}))", tagstring.as_str(), item.depth);
@@ -313,7 +315,11 @@ impl Document {
                 },
                 DataType::Comment(comment) => {
                     //eprintln!("[DEBUG] (processing comment)");
-                    let text = BytesText::from_plain_str(comment.as_str());
+                    //(there is no escaping in XML comments)
+                    if comment.contains("--") || comment.ends_with('-') {
+                        return Err(FoliaError::SerialisationError(format!("Comment can not be expressed in XML: {}", comment)));
+                    }
+                    let text = BytesText::from_escaped_str(comment.as_str());
                     writer.write_event(Event::Comment(text)).map_err(to_serialisation_error)?;
                 }
                 DataType::SpanReference(_) | DataType::AddElement(_) => {
-- 
2.43.0


From 41fac64b7f7265a2a2872b4b1a1965c805681fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:57 +0000
Subject: [PATCH 30/47] fix: serialise the set or processor of elements if
 there is nothing else that refers to their declaration

---
 src/serialiser.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/serialiser.rs b/src/serialiser.rs
index 51c1e4d..1d32bb9 100644
--- a/src/serialiser.rs
+++ b/src/serialiser.rs
@@ -260,11 +260,13 @@ impl Document {
                             }
                         }
                         if let Some(declaration_key) = element.declaration_key() {
+                            let mut explicit = element.subset().is_some() || element.class().is_some();
                             //check if the declaration is the default, no need to serialise set then
                             if !dec_is_default.get(declaration_key as usize).expect("checking default")  && element.elementtype() != ElementType::Feature {
                                 //decode encoded attributes
                                 if let Some(set) = element.set() {
                                     start.push_attribute(("set", set) );
+                                    explicit = true;
                                 }
                             }
                             if let Some(subset) = element.subset() {
@@ -288,6 +290,16 @@ impl Document {
 
                                 if !is_default {
                                     start.push_attribute(("processor", processor) );
+                                    explicit = true;
+                                }
+                            }
+                            if !explicit {
+                                //nothing was serialised from which the reference to the declaration can be
+                                //derived, so defaults must be serialised after all
+                                if let (Some(set), true) = (element.set(), element.elementtype() != ElementType::Feature) {
+                                    start.push_attribute(("set", set) );
+                                } else if let Some(processor) = element.processor() {
+                                    start.push_attribute(("processor", processor) );
                                 }
                             }
                         }
-- 
2.43.0


From 1b9dc688cd34db9af5a8b60730e2df8b25a8ed65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:17 +0000
Subject: [PATCH 31/47] fix: queries for some or no set look at the set;
 classes of features are looked up as such

---
 src/document.rs |  2 +-
 src/select.rs   | 25 +++++++++++++++++--------
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index ce0f932..66cc85a 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -380,7 +380,7 @@ impl Document {
                         //Do we have a set already?
                         if !element.has_attrib(AttribType::SET) {
                             //Find out the set from the child elements
-                            let query = Query::select().elementgroup(Cmp::Is(ElementGroup::Span)).set(Cmp::Some);
+                            let query = Query::select().elementgroup(Cmp::Is(ElementGroup::Span));
                             let selector = Selector::from_query(self, &query)?;
                             for spanelement in self.get_element(element_key).expect("getting element").select(selector, Recursion::Always) {
                                 if spanelement.elementtype().annotationtype() == elementtype.annotationtype() {
diff --git a/src/select.rs b/src/select.rs
index 5536f61..a3d2f00 100644
--- a/src/select.rs
+++ b/src/select.rs
@@ -72,9 +72,11 @@ impl Selector {
             Cmp::Any => Cmp::Any,
             Cmp::Some => Cmp::Some,
             Cmp::None => {
-                //even though set is None, we obtain the associated declaration
-                let mut result: Cmp<DecKey> = Cmp::Unmatchable; //will try to falsify this
-                if let Cmp::Is(elementtype) = elementtype_source {
+                //even though set is None, we obtain the associated declaration if there is a
+                //class or subset to encode or features are selected by their context
+                let needs_declaration = matches!(query.class, Cmp::Is(_)) || matches!(query.subset, Cmp::Is(_)) || matches!(query.contexttype, Cmp::Is(_));
+                let mut result: Cmp<DecKey> = if needs_declaration { Cmp::Unmatchable } else { Cmp::None }; //will try to falsify this
+                if let (true, Cmp::Is(elementtype)) = (needs_declaration, elementtype_source) {
                     if let Some(annotationtype) = elementtype.annotationtype() {
                         if let Some(deckey) = document.get_declaration_key_by_id(&Declaration::index_id(annotationtype,&None)) {
                             result = Cmp::Is(deckey);
@@ -95,7 +97,8 @@ impl Selector {
                             result = Cmp::Is(subset_key);
                         }
                     }
-                } else {
+                } else if !matches!((&query.set, elementtype_source), (Cmp::Is(_), Cmp::Is(_)) | (Cmp::None, Cmp::Is(_))) {
+                    //(otherwise the document has no such set, so there is nothing to match)
                     return Err(FoliaError::QueryError(format!("Selector::from_query() can't match on a subset without a contexttype and a set, Add a .contextype() and .set() call. (selector.contexttype={:?}, selector.set={:?})",selector.contexttype, selector.set) ));
                 }
                 result
@@ -110,9 +113,9 @@ impl Selector {
                 let mut result: Cmp<ClassKey> = Cmp::Unmatchable; //will try to falsify this
                 if let Cmp::Is(deckey) = selector.set {
                     if let Some(declaration) = document.get_declaration(deckey) {
-                        match selector.subset {
-                            Cmp::Is(_) | Cmp::Some =>  {
-                                //we have a subset, so we assume the class is a subclass and encode it as such
+                        match (&selector.subset, &query.elementtype) {
+                            (Cmp::Is(_), _) | (Cmp::Some, _) | (_, Cmp::Is(ElementType::Feature)) =>  {
+                                //we have a subset (or a feature), so we assume the class is a subclass and encode it as such
                                 if let Some(class_key) = declaration.subclass_key(class.as_str()) {
                                     result = Cmp::Is(class_key);
                                 }
@@ -231,7 +234,13 @@ impl Selector {
                     //we do explicit checks against Cmp::Any prior to calling matches() to speed things up
                     matches &&
                     (self.elementtype == Cmp::Any || self.elementtype.matches(Some(&element.elementtype()))) &&
-                    (self.set == Cmp::Any || self.set.matches(element.declaration_key().as_ref())) &&
+                    (match &self.set {
+                        Cmp::Any => true,
+                        //(a declaration does not necessarily have a set)
+                        Cmp::Some => element.set().is_some(),
+                        Cmp::None => element.set().is_none(),
+                        set => set.matches(element.declaration_key().as_ref()),
+                    }) &&
                     (self.subset == Cmp::Any || self.subset.matches(element.subset_key().as_ref())) &&
                     (self.class == Cmp::Any || self.class.matches(element.class_key().as_ref())) &&
                     (self.processor == Cmp::Any || self.processor.matches(element.processor_key().as_ref())) &&
-- 
2.43.0


From a217a2b550fcc8dbdf384ccb6f15d29e34f90907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:46 +0000
Subject: [PATCH 32/47] fix: the element a selection starts from is not
 selected again through a span reference

---
 src/select.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/select.rs b/src/select.rs
index a3d2f00..bfefc1c 100644
--- a/src/select.rs
+++ b/src/select.rs
@@ -421,6 +421,11 @@ impl<'a> Iterator for SelectIterator<'a> {
                         self.document.get_elementdata(parent_key).expect("unwrapping parent key").get_data_at(index).expect("unwrapping child key")
                     };
                     if self.selector.matches(self.document, item) {
+                        let key = *key;
+                        if self.spanreferences && ElementGroup::Span.contains(element.elementtype) {
+                            //the words under a span annotation may refer back to it
+                            self.already_returned(key);
+                        }
                         return Some(SelectItem { data: item, parent_key: parent_key, cursor: 0, depth: 0});
                     }
                 }
-- 
2.43.0


From 803806134c9021f68d460fb33cabdf91f3fedfe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:29 +0000
Subject: [PATCH 33/47] fix: unexpected empty elements are refused like the
 same elements with an end tag

---
 src/parser.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 3e5dc12..e4e9ccc 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -75,6 +75,9 @@ impl Document {
                         }
                     }
                 },
+                (_, Event::Empty(_)) => {
+                    return Err(FoliaError::ParseError("Encountered empty root tag".to_string()));
+                },
                 (_, Event::Eof) => {
                     return Err(FoliaError::ParseError("Premature end of document".to_string()));
                 }
@@ -136,7 +139,14 @@ impl Document {
                             let declaration = Declaration::parse(&reader, e, tag).map_err(FoliaError::add_parseerror("Error parsing declaration"))?;
                             doc.add_declaration(declaration).map_err(FoliaError::add_parseerror("Error adding declaration"))?;
                         },
-                        _ => {
+                        (Some(ns), b"annotations") | (Some(ns), b"provenance") if ns == NSFOLIA => {
+                            //nothing to declare
+                        },
+                        (Some(ns), tag) if ns == NSFOLIA => {
+                            return Err(FoliaError::ParseError(format!("Unexpected FoLiA element: {}",  String::from_utf8_lossy(tag)).to_string()));
+                        },
+                        (_, tag) => {
+                            return Err(FoliaError::ParseError(format!("Expected FoLiA namespace, got tag {}",  String::from_utf8_lossy(tag)).to_string()));
                         }
                     }
                 },
@@ -270,6 +280,9 @@ impl Document {
                     empty_body = true;
                     break;
                 },
+                (_, Event::Empty(ref e)) => {
+                    return Err(FoliaError::ParseError(format!("Expected body, got tag {}", String::from_utf8_lossy(e.local_name()))));
+                },
                 (ref ns, Event::Start(ref e)) => {
                     match (*ns, e.local_name())  {
                         (Some(ns), b"text") if ns == NSFOLIA => {
-- 
2.43.0


From 1268987519c325bc8656ce9da8d755bb5e9eb8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:24 +0000
Subject: [PATCH 34/47] fix: line breaks and tabs in attributes and carriage
 returns in text are written as character references

---
 src/serialiser.rs | 115 +++++++++++++++++++++++++++++-----------------
 1 file changed, 72 insertions(+), 43 deletions(-)

diff --git a/src/serialiser.rs b/src/serialiser.rs
index 1d32bb9..d086c42 100644
--- a/src/serialiser.rs
+++ b/src/serialiser.rs
@@ -2,12 +2,13 @@ use std::io::Cursor;
 use std::fs::File;
 use std::str;
 use std::str::FromStr;
-use std::borrow::ToOwned;
+use std::borrow::{Cow,ToOwned};
 use std::string::ToString;
 
 use std::io::Write;
 use std::io::BufWriter;
 use quick_xml::{Reader,Writer};
+use quick_xml::escape::escape;
 use quick_xml::events::{Event,BytesStart,BytesEnd,BytesText};
 
 use crate::common::*;
@@ -27,6 +28,34 @@ fn to_serialisation_error(err: quick_xml::Error) -> FoliaError {
     FoliaError::SerialisationError(format!("{}",err))
 }
 
+///An XML attribute. Line breaks and tabs are written as character references, an XML reader would take
+///them for spaces otherwise.
+fn xml_attribute<'a>(key: &'a str, value: &str) -> quick_xml::events::attributes::Attribute<'a> {
+    let mut escaped: Vec<u8> = Vec::with_capacity(value.len());
+    for byte in escape(value.as_bytes()).iter() {
+        match byte {
+            b'\t' => escaped.extend_from_slice(b"&#9;"),
+            b'\n' => escaped.extend_from_slice(b"&#10;"),
+            b'\r' => escaped.extend_from_slice(b"&#13;"),
+            _ => escaped.push(*byte)
+        }
+    }
+    quick_xml::events::attributes::Attribute { key: key.as_bytes(), value: Cow::Owned(escaped) }
+}
+
+///XML character data. Carriage returns are written as character references, an XML reader would take
+///them for (a part of) a line break otherwise.
+fn xml_text<'a>(text: &str) -> BytesText<'a> {
+    let mut escaped: Vec<u8> = Vec::with_capacity(text.len());
+    for byte in escape(text.as_bytes()).iter() {
+        match byte {
+            b'\r' => escaped.extend_from_slice(b"&#13;"),
+            _ => escaped.push(*byte)
+        }
+    }
+    BytesText::from_escaped(escaped)
+}
+
 impl Document {
     ///Serialises a document to XML (vector of bytes, utf-8)
     pub fn xml(&self, root_key: ElementKey, indent: usize) -> Result<Vec<u8>, FoliaError> {
@@ -36,11 +65,11 @@ impl Document {
         };
 
         let mut doc_start = BytesStart::borrowed_name(b"FoLiA");
-        doc_start.push_attribute(("xmlns", str::from_utf8(NSFOLIA).unwrap() ));
-        doc_start.push_attribute(("xmlns:xlink", str::from_utf8(NSXLINK).unwrap() ));
-        doc_start.push_attribute(("xml:id",self.id.as_str()));
-        doc_start.push_attribute(("version",FOLIAVERSION ));
-        doc_start.push_attribute(("generator", GENERATOR ));
+        doc_start.push_attribute(xml_attribute("xmlns", str::from_utf8(NSFOLIA).unwrap()));
+        doc_start.push_attribute(xml_attribute("xmlns:xlink", str::from_utf8(NSXLINK).unwrap()));
+        doc_start.push_attribute(xml_attribute("xml:id",self.id.as_str()));
+        doc_start.push_attribute(xml_attribute("version",FOLIAVERSION));
+        doc_start.push_attribute(xml_attribute("generator", GENERATOR));
         writer.write_event(Event::Start(doc_start)).map_err(to_serialisation_error)?;
         writer.write_event(Event::Text(BytesText::from_plain(NL))).map_err(to_serialisation_error)?;
 
@@ -57,10 +86,10 @@ impl Document {
     fn xml_metadata(&self, writer: &mut Writer<Cursor<Vec<u8>>>) -> Result<(), FoliaError> {
         let mut metadata_start = BytesStart::borrowed_name(b"metadata");
         if let Some(metadatatype) = &self.metadata.metadatatype {
-            metadata_start.push_attribute(("type", metadatatype.as_str() ));
+            metadata_start.push_attribute(xml_attribute("type", metadatatype.as_str()));
         }
         if let Some(src) = &self.metadata.src {
-            metadata_start.push_attribute(("src", src.as_str() ));
+            metadata_start.push_attribute(xml_attribute("src", src.as_str()));
         }
         writer.write_event(Event::Start(metadata_start)).map_err(to_serialisation_error)?;
         writer.write_event(Event::Text(BytesText::from_plain(NL))).map_err(to_serialisation_error)?;
@@ -68,29 +97,29 @@ impl Document {
         self.xml_provenance(writer)?;
         for (meta_id, value) in self.metadata.data.iter() {
             let mut meta_start = BytesStart::borrowed_name(b"meta");
-            meta_start.push_attribute(("id", meta_id.as_str() ));
+            meta_start.push_attribute(xml_attribute("id", meta_id.as_str()));
             writer.write_event(Event::Start(meta_start)).map_err(to_serialisation_error)?;
-            writer.write_event(Event::Text(BytesText::from_plain_str(value))).map_err(to_serialisation_error)?;
+            writer.write_event(Event::Text(xml_text(value))).map_err(to_serialisation_error)?;
             writer.write_event(Event::End(BytesEnd::borrowed(b"meta"))).map_err(to_serialisation_error)?;
             writer.write_event(Event::Text(BytesText::from_plain(NL))).map_err(to_serialisation_error)?;
         }
         //there is a bit too much duplication going on here, to be solved later
         for (submetadata_id, submetadata) in self.submetadata.iter() {
             let mut submetadata_start = BytesStart::borrowed_name(b"submetadata");
-            submetadata_start.push_attribute(("xml:id", submetadata_id.as_str() ));
+            submetadata_start.push_attribute(xml_attribute("xml:id", submetadata_id.as_str()));
             if let Some(metadatatype) = &submetadata.metadatatype {
-                submetadata_start.push_attribute(("type", metadatatype.as_str() ));
+                submetadata_start.push_attribute(xml_attribute("type", metadatatype.as_str()));
             }
             if let Some(src) = &submetadata.src {
-                submetadata_start.push_attribute(("src", src.as_str() ));
+                submetadata_start.push_attribute(xml_attribute("src", src.as_str()));
             }
             writer.write_event(Event::Start(submetadata_start)).map_err(to_serialisation_error)?;
             writer.write_event(Event::Text(BytesText::from_plain(NL))).map_err(to_serialisation_error)?;
             for (meta_id, value) in submetadata.data.iter() {
                 let mut meta_start = BytesStart::borrowed_name(b"meta");
-                meta_start.push_attribute(("id", meta_id.as_str() ));
+                meta_start.push_attribute(xml_attribute("id", meta_id.as_str()));
                 writer.write_event(Event::Start(meta_start)).map_err(to_serialisation_error)?;
-                writer.write_event(Event::Text(BytesText::from_plain_str(value))).map_err(to_serialisation_error)?;
+                writer.write_event(Event::Text(xml_text(value))).map_err(to_serialisation_error)?;
                 writer.write_event(Event::End(BytesEnd::borrowed(b"meta"))).map_err(to_serialisation_error)?;
                 writer.write_event(Event::Text(BytesText::from_plain(NL))).map_err(to_serialisation_error)?;
             }
@@ -110,13 +139,13 @@ impl Document {
                 let tagname = format!("{}-annotation", declaration.annotationtype.as_str());
                 let mut dec_start = BytesStart::owned_name(tagname.as_bytes());
                 if let Some(set) = &declaration.set {
-                    dec_start.push_attribute(("set", set.as_str() ));
+                    dec_start.push_attribute(xml_attribute("set", set.as_str()));
                 }
                 if let Some(alias) = &declaration.alias {
-                    dec_start.push_attribute(("alias", alias.as_str() ));
+                    dec_start.push_attribute(xml_attribute("alias", alias.as_str()));
                 }
                 if let Some(format) = &declaration.format {
-                    dec_start.push_attribute(("format", format.as_str() ));
+                    dec_start.push_attribute(xml_attribute("format", format.as_str()));
                 }
                 let dec_end = BytesEnd::owned(tagname.as_bytes().to_vec());
                 if declaration.processors.is_empty() {
@@ -126,7 +155,7 @@ impl Document {
                     for proc_key in declaration.processors.iter() {
                         if let Some(processor) = self.get_processor(*proc_key) {
                             let mut ann_start = BytesStart::borrowed_name(b"annotator");
-                            ann_start.push_attribute(("processor", processor.id.as_str() ));
+                            ann_start.push_attribute(xml_attribute("processor", processor.id.as_str()));
                             writer.write_event(Event::Empty(ann_start)).map_err(to_serialisation_error)?;
                         } else {
                             return Err(FoliaError::InternalError(format!("Unable to resolve referenced processor during serialisation")));
@@ -156,41 +185,41 @@ impl Document {
     fn xml_processor(&self, writer: &mut Writer<Cursor<Vec<u8>>>, processor_key: ProcKey) -> Result<(),FoliaError> {
         if let Some(processor) = self.get_processor(processor_key) {
             let mut processor_start = BytesStart::borrowed_name(b"processor");
-            processor_start.push_attribute(("xml:id", processor.id.as_str() ));
-            processor_start.push_attribute(("name", processor.name.as_str() ));
-            processor_start.push_attribute(("type", processor.processortype.as_str() ));
+            processor_start.push_attribute(xml_attribute("xml:id", processor.id.as_str()));
+            processor_start.push_attribute(xml_attribute("name", processor.name.as_str()));
+            processor_start.push_attribute(xml_attribute("type", processor.processortype.as_str()));
             if !processor.version.is_empty() {
-                processor_start.push_attribute(("version", processor.version.as_str() ));
+                processor_start.push_attribute(xml_attribute("version", processor.version.as_str()));
             }
             if !processor.folia_version.is_empty() {
-                processor_start.push_attribute(("folia_version", processor.folia_version.as_str() ));
+                processor_start.push_attribute(xml_attribute("folia_version", processor.folia_version.as_str()));
             }
             if !processor.document_version.is_empty() {
-                processor_start.push_attribute(("document_version", processor.document_version.as_str() ));
+                processor_start.push_attribute(xml_attribute("document_version", processor.document_version.as_str()));
             }
             if !processor.command.is_empty() {
-                processor_start.push_attribute(("command", processor.command.as_str() ));
+                processor_start.push_attribute(xml_attribute("command", processor.command.as_str()));
             }
             if !processor.host.is_empty() {
-                processor_start.push_attribute(("host", processor.host.as_str() ));
+                processor_start.push_attribute(xml_attribute("host", processor.host.as_str()));
             }
             if !processor.user.is_empty() {
-                processor_start.push_attribute(("user", processor.user.as_str() ));
+                processor_start.push_attribute(xml_attribute("user", processor.user.as_str()));
             }
             if let Some(dt) = processor.begindatetime {
-                processor_start.push_attribute(("begindatetime", dt.format("%Y-%m-%dT%H:%M:%S").to_string().as_str() ));
+                processor_start.push_attribute(xml_attribute("begindatetime", dt.format("%Y-%m-%dT%H:%M:%S").to_string().as_str()));
             }
             if let Some(dt) = processor.enddatetime {
-                processor_start.push_attribute(("enddatetime", dt.format("%Y-%m-%dT%H:%M:%S").to_string().as_str() ));
+                processor_start.push_attribute(xml_attribute("enddatetime", dt.format("%Y-%m-%dT%H:%M:%S").to_string().as_str()));
             }
             if !processor.src.is_empty() {
-                processor_start.push_attribute(("src", processor.src.as_str() ));
+                processor_start.push_attribute(xml_attribute("src", processor.src.as_str()));
             }
             if !processor.format.is_empty() {
-                processor_start.push_attribute(("format", processor.format.as_str() ));
+                processor_start.push_attribute(xml_attribute("format", processor.format.as_str()));
             }
             if !processor.resourcelink.is_empty() {
-                processor_start.push_attribute(("resourcelink", processor.resourcelink.as_str() ));
+                processor_start.push_attribute(xml_attribute("resourcelink", processor.resourcelink.as_str()));
             }
             if processor.processors.is_empty() && processor.metadata.data.is_empty() {
                 writer.write_event(Event::Empty(processor_start)).map_err(to_serialisation_error)?;
@@ -198,9 +227,9 @@ impl Document {
                 writer.write_event(Event::Start(processor_start)).map_err(to_serialisation_error)?;
                 for (meta_id, value) in processor.metadata.data.iter() {
                     let mut meta_start = BytesStart::borrowed_name(b"meta");
-                    meta_start.push_attribute(("id", meta_id.as_str() ));
+                    meta_start.push_attribute(xml_attribute("id", meta_id.as_str()));
                     writer.write_event(Event::Start(meta_start)).map_err(to_serialisation_error)?;
-                    writer.write_event(Event::Text(BytesText::from_plain_str(value))).map_err(to_serialisation_error)?;
+                    writer.write_event(Event::Text(xml_text(value))).map_err(to_serialisation_error)?;
                     writer.write_event(Event::End(BytesEnd::borrowed(b"meta"))).map_err(to_serialisation_error)?;
                     writer.write_event(Event::Text(BytesText::from_plain(NL))).map_err(to_serialisation_error)?;
                 }
@@ -256,7 +285,7 @@ impl Document {
                         let mut start = BytesStart::owned(tag.to_vec(), tag.len());
                         for attrib in element.attribs().iter() {
                             if *attrib != Attribute::Ignore && !attrib.decodable()  {
-                                start.push_attribute((attrib.attribtype().into(), format!("{}",attrib).as_str() ));
+                                start.push_attribute(xml_attribute(attrib.attribtype().into(), format!("{}",attrib).as_str()));
                             }
                         }
                         if let Some(declaration_key) = element.declaration_key() {
@@ -265,15 +294,15 @@ impl Document {
                             if !dec_is_default.get(declaration_key as usize).expect("checking default")  && element.elementtype() != ElementType::Feature {
                                 //decode encoded attributes
                                 if let Some(set) = element.set() {
-                                    start.push_attribute(("set", set) );
+                                    start.push_attribute(xml_attribute("set", set));
                                     explicit = true;
                                 }
                             }
                             if let Some(subset) = element.subset() {
-                                start.push_attribute(("subset", subset) );
+                                start.push_attribute(xml_attribute("subset", subset));
                             }
                             if let Some(class) = element.class() {
-                                start.push_attribute(("class", class) );
+                                start.push_attribute(xml_attribute("class", class));
                             }
                             if let Some(processor) = element.processor() {
                                 //check if this processor is the default one, if so we don't need
@@ -289,7 +318,7 @@ impl Document {
                                 };
 
                                 if !is_default {
-                                    start.push_attribute(("processor", processor) );
+                                    start.push_attribute(xml_attribute("processor", processor));
                                     explicit = true;
                                 }
                             }
@@ -297,9 +326,9 @@ impl Document {
                                 //nothing was serialised from which the reference to the declaration can be
                                 //derived, so defaults must be serialised after all
                                 if let (Some(set), true) = (element.set(), element.elementtype() != ElementType::Feature) {
-                                    start.push_attribute(("set", set) );
+                                    start.push_attribute(xml_attribute("set", set));
                                 } else if let Some(processor) = element.processor() {
-                                    start.push_attribute(("processor", processor) );
+                                    start.push_attribute(xml_attribute("processor", processor));
                                 }
                             }
                         }
@@ -322,7 +351,7 @@ impl Document {
                 },
                 DataType::Text(text) => {
                     //eprintln!("[DEBUG] (processing text)");
-                    let text = BytesText::from_plain_str(text.as_str());
+                    let text = xml_text(text.as_str());
                     writer.write_event(Event::Text(text)).map_err(to_serialisation_error)?;
                 },
                 DataType::Comment(comment) => {
-- 
2.43.0


From e8487c624ab0d45ec57e7b4bb5a2fd4c40a2f588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:47 +0000
Subject: [PATCH 35/47] fix: line breaks and white space in attributes are
 normalised when reading

---
 src/attrib.rs |  3 ++-
 src/parser.rs | 61 ++++++++++++++++++++++++++++++++++++++-------------
 2 files changed, 48 insertions(+), 16 deletions(-)

diff --git a/src/attrib.rs b/src/attrib.rs
index 02b8157..03bbd76 100644
--- a/src/attrib.rs
+++ b/src/attrib.rs
@@ -15,6 +15,7 @@ use crate::common::*;
 use crate::types::*;
 use crate::metadata::*;
 use crate::store::*;
+use crate::parser::decode_value;
 
 #[derive(Debug,Copy,Clone,PartialEq)]
 ///Attribute Type
@@ -245,7 +246,7 @@ impl Attribute {
 
     ///Parse an XML attribute into a FoLiA Attribute
     pub fn parse<R: BufRead>(reader: &Reader<R>, attrib: &quick_xml::events::attributes::Attribute) -> Result<Attribute,FoliaError> {
-        if let Ok(value) = attrib.unescape_and_decode_value(&reader) {
+        if let Ok(value) = decode_value(&reader, &attrib) {
             match attrib.key {
                 b"xml:id" => {
                     Ok(Attribute::Id(value))
diff --git a/src/parser.rs b/src/parser.rs
index e4e9ccc..880f245 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -3,7 +3,7 @@ use std::io::BufRead;
 use std::io::BufReader;
 use std::str;
 use std::str::FromStr;
-use std::borrow::ToOwned;
+use std::borrow::{Cow,ToOwned};
 use std::string::ToString;
 use std::fmt::Display;
 use std::collections::HashMap;
@@ -56,10 +56,10 @@ impl Document {
                                 let attrib: quick_xml::events::attributes::Attribute = attrib?;
                                 match attrib.key {
                                     b"xml:id" => {
-                                        doc.id = attrib.unescape_and_decode_value(&reader)?
+                                        doc.id = decode_value(&reader, &attrib)?
                                     }
                                     b"version" => {
-                                        doc.version = attrib.unescape_and_decode_value(&reader)?
+                                        doc.version = decode_value(&reader, &attrib)?
                                     },
                                     b"generator" | b"form " => {},  //we can ignore these
                                     _ => {}
@@ -207,13 +207,13 @@ impl Document {
                     }
                 },
                 (None, Event::Text(s)) => {
-                    let text_s = s.unescape_and_decode(reader)?;
+                    let text_s = decode_text(reader, s)?;
                     if let Some(text) = text.as_mut() {
                         text.push_str(&text_s);
                     }
                 },
                 (None, Event::CData(s)) => {
-                    let text_s = reader.decode(&s)?;
+                    let text_s = normalise_newlines(reader.decode(&s)?);
                     if let Some(text) = text.as_mut() {
                         text.push_str(&text_s);
                     }
@@ -365,7 +365,7 @@ impl Document {
     fn parse_metadata_attributes<R: BufRead>(&mut self, reader: &Reader<R>, event: &quick_xml::events::BytesStart) -> Result<(), FoliaError> {
         for attrib in event.attributes() {
             let attrib = attrib?;
-            if let Ok(value) = attrib.unescape_and_decode_value(&reader) {
+            if let Ok(value) = decode_value(&reader, &attrib) {
                 match attrib.key {
                     b"src" => {
                         self.metadata.src = Some(value);
@@ -390,7 +390,7 @@ impl Document {
         let mut submetadata = Metadata::default();
         for attrib in event.attributes() {
             let attrib = attrib?;
-            if let Ok(value) = attrib.unescape_and_decode_value(&reader) {
+            if let Ok(value) = decode_value(&reader, &attrib) {
                 match attrib.key {
                     b"xml:id" => {
                         id = Some(value);
@@ -512,7 +512,7 @@ impl Document {
                         }
                     },
                     (None, Event::Text(s)) => {
-                        let text = s.unescape_and_decode(reader)?;
+                        let text = decode_text(reader, s)?;
                         if text.trim() != "" {
                             if let Some(parent_key) = stack.last() {
                                 self.get_mut_elementdata(*parent_key).map( |parent| {
@@ -522,7 +522,7 @@ impl Document {
                         }
                     },
                     (None, Event::CData(s)) => {
-                        let text = reader.decode(&s)?;
+                        let text = normalise_newlines(reader.decode(&s)?);
                         if text.trim() != "" {
                             if let Some(parent_key) = stack.last() {
                                 self.get_mut_elementdata(*parent_key).map( |parent| {
@@ -532,7 +532,7 @@ impl Document {
                         }
                     },
                     (None, Event::Comment(s)) => {
-                        let comment = reader.decode(&s)?;
+                        let comment = normalise_newlines(reader.decode(&s)?);
                         if comment.trim() != "" {
                             if let Some(parent_key) = stack.last() {
                                 self.get_mut_elementdata(*parent_key).map( |parent| {
@@ -557,6 +557,37 @@ impl Document {
     }
 }
 
+///Line breaks are normalised as XML prescribes
+fn normalise_newlines(text: &str) -> Cow<str> {
+    if text.contains('\r') {
+        Cow::Owned(text.replace("\r\n","\n").replace('\r',"\n"))
+    } else {
+        Cow::Borrowed(text)
+    }
+}
+
+///Decodes character data: line breaks are normalised (except for those written as character references)
+fn decode_text<R: BufRead>(reader: &Reader<R>, text: quick_xml::events::BytesText) -> Result<String, FoliaError> {
+    if text.escaped().contains(&b'\r') {
+        let text = normalise_newlines(reader.decode(text.escaped())?).into_owned();
+        Ok(quick_xml::events::BytesText::from_escaped_str(text).unescape_and_decode(reader)?)
+    } else {
+        Ok(text.unescape_and_decode(reader)?)
+    }
+}
+
+///Decodes the value of an attribute: white space is normalised as XML prescribes (except for characters
+///written as character references)
+pub(crate) fn decode_value<R: BufRead>(reader: &Reader<R>, attrib: &quick_xml::events::attributes::Attribute) -> Result<String, FoliaError> {
+    if attrib.value.iter().any(|byte| *byte == b'\n' || *byte == b'\r' || *byte == b'\t') {
+        let value = normalise_newlines(reader.decode(&attrib.value)?).replace(|c| c == '\n' || c == '\t', " ");
+        let attrib = quick_xml::events::attributes::Attribute { key: attrib.key, value: Cow::Borrowed(value.as_bytes()) };
+        Ok(attrib.unescape_and_decode_value(reader)?)
+    } else {
+        Ok(attrib.unescape_and_decode_value(reader)?)
+    }
+}
+
 ///Decodes the name of an XML element
 fn decode_name(name: &[u8]) -> Result<&str, FoliaError> {
     str::from_utf8(name).map_err(|_| FoliaError::ParseError(format!("Name of XML element is not valid utf-8: {}", String::from_utf8_lossy(name))))
@@ -584,7 +615,7 @@ fn parse_meta_id<R: BufRead>(reader: &Reader<R>, event: &quick_xml::events::Byte
     let mut meta_id: Option<String> = None;
     for attrib in event.attributes() {
         let attrib = attrib?;
-        if let Ok(value) = attrib.unescape_and_decode_value(&reader) {
+        if let Ok(value) = decode_value(&reader, &attrib) {
             match attrib.key {
                 b"id" | b"xml:id" => {
                     meta_id = Some(value);
@@ -605,7 +636,7 @@ fn parse_annotator<R: BufRead>(reader: &Reader<R>, event: &quick_xml::events::By
     let mut processor_id: Option<String> = None;
     for attrib in event.attributes() {
         let attrib = attrib?;
-        if let Ok(value) = attrib.unescape_and_decode_value(&reader) {
+        if let Ok(value) = decode_value(&reader, &attrib) {
             match attrib.key {
                 b"processor" => {
                     processor_id = Some(value.clone());
@@ -629,7 +660,7 @@ impl Processor {
         let mut processor = Processor::default();
         for attrib in event.attributes()  {
             if let Ok(attrib) = attrib {
-                let value = attrib.unescape_and_decode_value(&reader)?;
+                let value = decode_value(&reader, &attrib)?;
                 match  attrib.key {
                     b"xml:id" => { processor.id = value; },
                     b"name" => { processor.name = value; },
@@ -687,7 +718,7 @@ impl ElementData {
                 Err(e) => {
                     //an attribute can be a shortcut for a subset and translate to a
                     //ElementType::Feature
-                    if let Ok(value) = attrib.unescape_and_decode_value(&reader) {
+                    if let Ok(value) = decode_value(&reader, &attrib) {
                         let properties = Properties::new(elementtype);
                         let featuregroup = ElementGroup::Feature;
                         for accepteddata in properties.accepted_data.iter() {
@@ -734,7 +765,7 @@ impl Declaration {
         let mut format: Option<String> = None;
         for attrib in event.attributes() {
             let attrib = attrib?;
-            if let Ok(value) = attrib.unescape_and_decode_value(&reader) {
+            if let Ok(value) = decode_value(&reader, &attrib) {
                 match attrib.key {
                     b"set" => {
                         set = Some(value.clone());
-- 
2.43.0


From 68c20389e2017cdcf83486dd2c76922dcf6c26cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:39 +0000
Subject: [PATCH 36/47] fix: markup characters in CDATA sections are read as
 they are

---
 src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 880f245..b43776b 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -213,7 +213,7 @@ impl Document {
                     }
                 },
                 (None, Event::CData(s)) => {
-                    let text_s = normalise_newlines(reader.decode(&s)?);
+                    let text_s = decode_text(reader, s)?; //(quick_xml has escaped it)
                     if let Some(text) = text.as_mut() {
                         text.push_str(&text_s);
                     }
@@ -522,7 +522,7 @@ impl Document {
                         }
                     },
                     (None, Event::CData(s)) => {
-                        let text = normalise_newlines(reader.decode(&s)?);
+                        let text = decode_text(reader, s)?; //(quick_xml has escaped it)
                         if text.trim() != "" {
                             if let Some(parent_key) = stack.last() {
                                 self.get_mut_elementdata(*parent_key).map( |parent| {
-- 
2.43.0


From 838572705c65101c5d9a92d2676c7dd760ef55be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:00 +0000
Subject: [PATCH 37/47] fix: text before the root, around the body and
 undecodable attributes of the root are refused

---
 src/parser.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index b43776b..295a46e 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -61,8 +61,8 @@ impl Document {
                                     b"version" => {
                                         doc.version = decode_value(&reader, &attrib)?
                                     },
-                                    b"generator" | b"form " => {},  //we can ignore these
-                                    _ => {}
+                                    b"generator" | b"form " => { decode_value(&reader, &attrib)?; },  //we can ignore these
+                                    _ => { decode_value(&reader, &attrib)?; }
                                 };
                             }
                             break;
@@ -78,6 +78,12 @@ impl Document {
                 (_, Event::Empty(_)) => {
                     return Err(FoliaError::ParseError("Encountered empty root tag".to_string()));
                 },
+                (_, Event::Text(ref s)) if !reader.decode(s.escaped())?.trim_start_matches('\u{feff}').trim().is_empty() => {
+                    return Err(FoliaError::ParseError("Unexpected text before the root tag".to_string()));
+                },
+                (_, Event::CData(_)) => {
+                    return Err(FoliaError::ParseError("Unexpected text before the root tag".to_string()));
+                },
                 (_, Event::Eof) => {
                     return Err(FoliaError::ParseError("Premature end of document".to_string()));
                 }
@@ -280,6 +286,12 @@ impl Document {
                     empty_body = true;
                     break;
                 },
+                (_, Event::Text(ref s)) if !reader.decode(s.escaped())?.trim().is_empty() => {
+                    return Err(FoliaError::ParseError("Unexpected text before the body".to_string()));
+                },
+                (_, Event::CData(_)) => {
+                    return Err(FoliaError::ParseError("Unexpected text before the body".to_string()));
+                },
                 (_, Event::Empty(ref e)) => {
                     return Err(FoliaError::ParseError(format!("Expected body, got tag {}", String::from_utf8_lossy(e.local_name()))));
                 },
@@ -346,6 +358,9 @@ impl Document {
                 (_, Event::Text(ref s)) if !s.iter().all(|c| c.is_ascii_whitespace()) => {
                     return Err(FoliaError::ParseError("Unexpected text after the body".to_string()));
                 },
+                (_, Event::CData(_)) => {
+                    return Err(FoliaError::ParseError("Unexpected text after the body".to_string()));
+                },
                 (_, Event::End(_)) => {
                     closed = true;
                 },
-- 
2.43.0


From 28b9c0c675ba8627849fcd772312660492884903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:52 +0000
Subject: [PATCH 38/47] fix: blank CDATA sections around the body are no text

---
 src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 295a46e..00689ce 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -289,7 +289,7 @@ impl Document {
                 (_, Event::Text(ref s)) if !reader.decode(s.escaped())?.trim().is_empty() => {
                     return Err(FoliaError::ParseError("Unexpected text before the body".to_string()));
                 },
-                (_, Event::CData(_)) => {
+                (_, Event::CData(ref s)) if !s.iter().all(|c| c.is_ascii_whitespace()) => {
                     return Err(FoliaError::ParseError("Unexpected text before the body".to_string()));
                 },
                 (_, Event::Empty(ref e)) => {
@@ -358,7 +358,7 @@ impl Document {
                 (_, Event::Text(ref s)) if !s.iter().all(|c| c.is_ascii_whitespace()) => {
                     return Err(FoliaError::ParseError("Unexpected text after the body".to_string()));
                 },
-                (_, Event::CData(_)) => {
+                (_, Event::CData(ref s)) if !s.iter().all(|c| c.is_ascii_whitespace()) => {
                     return Err(FoliaError::ParseError("Unexpected text after the body".to_string()));
                 },
                 (_, Event::End(_)) => {
-- 
2.43.0


From 7d7295d72a7ddce6ab4ab4f69f3ae1169d073529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:54 +0000
Subject: [PATCH 39/47] fix: namespace declarations on elements and processors
 are not unknown attributes

---
 src/attrib.rs | 3 +++
 src/parser.rs | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/src/attrib.rs b/src/attrib.rs
index 03bbd76..7871da4 100644
--- a/src/attrib.rs
+++ b/src/attrib.rs
@@ -370,6 +370,9 @@ impl Attribute {
                 b"typegroup" => { //used for explicit mode, does not need to be parsed
                     Ok(Attribute::Ignore)
                 },
+                b"xmlns" => { //declares a namespace
+                    Ok(Attribute::Ignore)
+                },
                 attrib_key => {
                     if attrib_key.contains(&58) { //58 is a colon, we assume alien namespaces and ignore it
                         Ok(Attribute::Ignore)
diff --git a/src/parser.rs b/src/parser.rs
index 00689ce..d64a5dc 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -709,6 +709,8 @@ impl Processor {
                             return Err(FoliaError::ParseError(format!("Invalid processor type: {:?}", value )));
                         }
                     }},
+                    b"xmlns" => {}, //declares a namespace
+                    tag if tag.starts_with(b"xmlns:") => {},
                     tag => {
                         return Err(FoliaError::ParseError(format!("Unknown attribute on processor, got: {:?}", String::from_utf8_lossy(tag) )));
                     }
-- 
2.43.0


From ef5ca1c15ced546b55c48619fcf9b4342b7475c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:58 +0000
Subject: [PATCH 40/47] fix: read and write the tag attribute

---
 src/attrib.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/attrib.rs b/src/attrib.rs
index 7871da4..31e4d9c 100644
--- a/src/attrib.rs
+++ b/src/attrib.rs
@@ -102,6 +102,7 @@ pub enum Attribute {
     PageNr(String), //used by linebreak
     NewPage(bool), //used by linebreak
     XLinkType(String),
+    Tag(String),
 
     Processor(String),
     ProcessorRef(ProcKey), //encoded form
@@ -150,7 +151,7 @@ impl Attribute {
             Attribute::Id(s) | Attribute::Set(s) | Attribute::Class(s) | Attribute::Annotator(s) |
             Attribute::N(s) | Attribute::BeginTime(s) | Attribute::EndTime(s) |
             Attribute::Src(s) | Attribute::Speaker(s) | Attribute::Textclass(s) | Attribute::Metadata(s) | Attribute::Idref(s) |
-            Attribute::Processor(s) | Attribute::Href(s) | Attribute::Format(s) | Attribute::Subset(s) | Attribute::Text(s)| Attribute::Type(s) | Attribute::Ref(s) | Attribute::Original(s) | Attribute::Auth(s) | Attribute::XLinkType(s) | Attribute::PageNr(s)
+            Attribute::Processor(s) | Attribute::Href(s) | Attribute::Format(s) | Attribute::Subset(s) | Attribute::Text(s)| Attribute::Type(s) | Attribute::Ref(s) | Attribute::Original(s) | Attribute::Auth(s) | Attribute::XLinkType(s) | Attribute::PageNr(s) | Attribute::Tag(s)
                 => Ok(&s),
             Attribute::AnnotatorType(t) => Ok(t.as_str()),
             Attribute::Space(b) => { if *b { Ok("yes") } else { Ok("no") } },
@@ -227,7 +228,8 @@ impl Attribute {
             Attribute::Original(_) => AttribType::ORIGINAL,
             Attribute::LineNr(_) => AttribType::LINENR,
             Attribute::PageNr(_) => AttribType::PAGENR,
-            Attribute::NewPage(_) => AttribType::NEWPAGE
+            Attribute::NewPage(_) => AttribType::NEWPAGE,
+            Attribute::Tag(_) => AttribType::TAG
         }
     }
 
@@ -284,6 +286,9 @@ impl Attribute {
                 b"xlink:type" => {
                     Ok(Attribute::XLinkType(value))
                 },
+                b"tag" => {
+                    Ok(Attribute::Tag(value))
+                },
                 b"speaker" => {
                     Ok(Attribute::Speaker(value))
                 },
-- 
2.43.0


From 97b528e89a098f083c7d01d511f7106261d5b50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:54 +0000
Subject: [PATCH 41/47] fix: a feature whose subset can not be stored is
 refused instead of silently losing its subset

---
 src/document.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index 66cc85a..21d61c1 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -902,14 +902,10 @@ impl Store<ElementData,ElementKey> for Document {
 
                         if let Some(declaration) = self.get_mut_declaration(deckey) {
                             if let Ok(Some(class)) = element.class() {
-                                if let Ok(clskey) = declaration.add_subclass(Cow::Borrowed(class)) {
-                                    class_key = Some(clskey);
-                                }
+                                class_key = Some(declaration.add_subclass(Cow::Borrowed(class))?);
                             }
                             if let Ok(Some(subset)) = element.subset() {
-                                if let Ok(subsetkey) = declaration.add_subset(Cow::Borrowed(subset)) {
-                                    subset_key = Some(subsetkey);
-                                }
+                                subset_key = Some(declaration.add_subset(Cow::Borrowed(subset))?);
                             }
                         }
 
-- 
2.43.0


From b2e73eb8bbaf51f59919c598be96bfa655aa97c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:06 +0000
Subject: [PATCH 42/47] fix: the linter reports a file whose name is not valid
 utf-8 instead of crashing

---
 src/bin/folialintr.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/bin/folialintr.rs b/src/bin/folialintr.rs
index 11f29c6..063f828 100644
--- a/src/bin/folialintr.rs
+++ b/src/bin/folialintr.rs
@@ -15,7 +15,14 @@ fn main() {
             .required(true)
         ).get_matches();
 
-    for filename in argmatches.values_of("file").expect("Expected one or more files") {
+    for filename in argmatches.values_of_os("file").expect("Expected one or more files") {
+        let filename = match filename.to_str() {
+            Some(filename) => filename,
+            None => {
+                eprintln!("Filename is not valid utf-8: {}", filename.to_string_lossy());
+                continue;
+            }
+        };
         match Document::from_file(filename, DocumentProperties::default()) {
             Ok(doc) => {
                 match doc.xml(0,4) {
-- 
2.43.0


From f208a999a3a85c3afc81f673da376cbd8ae00a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:18 +0000
Subject: [PATCH 43/47] fix: refuse comments that are not valid xml rather than
 load what can not be saved

---
 src/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index d64a5dc..acb86af 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -548,6 +548,9 @@ impl Document {
                     },
                     (None, Event::Comment(s)) => {
                         let comment = normalise_newlines(reader.decode(&s)?);
+                        if comment.contains("--") || comment.ends_with('-') {
+                            return Err(FoliaError::ParseError(format!("Invalid comment: {}", comment)));
+                        }
                         if comment.trim() != "" {
                             if let Some(parent_key) = stack.last() {
                                 self.get_mut_elementdata(*parent_key).map( |parent| {
-- 
2.43.0


From c0ab9f90a598c4156b01fb8e7b7deb9f0bab8457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:07 +0000
Subject: [PATCH 44/47] fix: existing subprocessors given to a new processor
 are attached to it, not just listed

---
 src/document.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index 21d61c1..25d618f 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -191,8 +191,17 @@ impl Document {
     ///Add an processor the document (but the processor will be an orphan and not in the processor
     ///chain!). You may want to use ``add_processor()`` instead to add to the provenance chain or
     ///``add_subprocessor()`` to add a processor as a subprocessor.
-    pub fn add_provenance(&mut self, processor: Processor) -> Result<ProcKey, FoliaError> {
-        <Self as Store<Processor,ProcKey>>::add(self, processor, None)
+    pub fn add_provenance(&mut self, mut processor: Processor) -> Result<ProcKey, FoliaError> {
+        //existing subprocessors are attached once the processor is there
+        let subprocessor_keys = std::mem::replace(&mut processor.processors, vec!());
+        if let Some(key) = subprocessor_keys.iter().find(|key| self.get_processor(**key).is_none()) {
+            return Err(FoliaError::InternalError(format!("Subprocessor does not exist: {}", key)));
+        }
+        let key = <Self as Store<Processor,ProcKey>>::add(self, processor, None)?;
+        for subprocessor_key in subprocessor_keys {
+            self.attach_processor(key, subprocessor_key)?;
+        }
+        Ok(key)
     }
 
     //************** Mid-level methods for adding things ********************
@@ -434,7 +443,7 @@ impl Document {
     ///Returns the key
     pub fn add_processor(&mut self, processor: Processor) -> Result<ProcKey, FoliaError> {
         let pending_subprocessors: Vec<Processor> = processor.pending_processors.replace(vec!());
-        let child_key = self.add(processor, None);
+        let child_key = self.add_provenance(processor);
         if let Ok(child_key) = child_key {
             //(the processor may already be in the chain, or be a subprocessor)
             if !self.provenancestore.chain.contains(&child_key) && self.get_processor(child_key).map_or(false, |p| p.parent.is_none()) {
@@ -451,7 +460,7 @@ impl Document {
     ///Returns the key
     pub fn add_subprocessor(&mut self, parent_key: ProcKey, processor: Processor) -> Result<ProcKey, FoliaError> {
         let pending_subprocessors: Vec<Processor> = processor.pending_processors.replace(vec!());
-        let child_key = self.add(processor, None);
+        let child_key = self.add_provenance(processor);
         if let Ok(child_key) = child_key {
             self.attach_processor(parent_key, child_key)?;
             for subprocessor in pending_subprocessors {
-- 
2.43.0


From fca637320665d8ce923fbcb2731d5b27dbbdec8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:08 +0000
Subject: [PATCH 45/47] fix: without automatic declaration, annotations that
 are not declared are refused

---
 src/document.rs | 44 ++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 44 insertions(+)

diff --git a/src/document.rs b/src/document.rs
index 25d618f..dd42802 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -248,15 +248,53 @@ impl Document {
         let mut ids: Vec<&str> = Vec::new();
         self.collect_new_ids(element, &mut ids)?;
         let parenttype = parent_key.and_then(|key| self.get_elementdata(key)).map(|parent| parent.elementtype);
+        let parent_declared = parent_key.and_then(|key| self.get_elementdata(key)).map_or(false, |parent| parent.has_attrib(AttribType::SET));
         let in_span = if let (Some(parent_key), Some(parenttype)) = (parent_key, parenttype) {
             ElementGroup::Span.contains(parenttype) ||
             self.ancestors_by_key(parent_key, Selector::elements().elementgroup(Cmp::Is(ElementGroup::Span))).next().is_some()
         } else {
             false
         };
+        if !self.autodeclare {
+            self.check_new_declarations(parenttype, parent_declared, element)?;
+        }
         self.check_new_references(parenttype, in_span, element, &ids)
     }
 
+    ///Tests if the declarations a new element and its children need are there already (needed when
+    ///there is no automatic declaration)
+    fn check_new_declarations(&self, parenttype: Option<ElementType>, parent_declared: bool, element: &ElementData) -> Result<(),FoliaError> {
+        let mut declared = element.has_attrib(AttribType::SET);
+        if element.encodable() {
+            if let Some(annotationtype) = element.elementtype.annotationtype() {
+                self.check_declared(annotationtype, element.set()?)?;
+                declared = true;
+            } else if let (ElementType::Feature, Some(annotationtype)) = (element.elementtype, parenttype.and_then(|parenttype| parenttype.annotationtype())) {
+                if !parent_declared || element.set()?.is_some() {
+                    self.check_declared(annotationtype, element.set()?)?;
+                }
+                declared = true;
+            }
+        }
+        for item in element.data.iter() {
+            if let DataType::AddElement(child) = item {
+                self.check_new_declarations(Some(element.elementtype), declared, child)?;
+            }
+        }
+        Ok(())
+    }
+
+    ///Tests if there is a declaration for the given annotation type and set, returns an error otherwise.
+    fn check_declared(&self, annotationtype: AnnotationType, set: Option<&str>) -> Result<(),FoliaError> {
+        if self.get_declaration_key_by_id(Declaration::index_id(annotationtype, &set).as_str()).is_some() {
+            Ok(())
+        } else if set.is_none() && self.declarationstore.get_default_key(annotationtype).is_some() {
+            Ok(())
+        } else {
+            Err(FoliaError::ValidationError(format!("Annotation type {} is not declared (set: {})", annotationtype, set.unwrap_or("none"))))
+        }
+    }
+
     ///Collects the IDs of a new element and its children, returns an error if they are already in use
     fn collect_new_ids<'a>(&self, element: &'a ElementData, ids: &mut Vec<&'a str>) -> Result<(),FoliaError> {
         if let Some(id) = element.id() {
@@ -874,6 +912,9 @@ impl Store<ElementData,ElementKey> for Document {
         if let Some(annotationtype) = element.elementtype.annotationtype() {
             //Declare the element (either declares anew or just resolves the to the right
             //declaration.
+            if !self.autodeclare {
+                self.check_declared(annotationtype, element.set()?)?;
+            }
             let deckey = self.declare(annotationtype, &element.set().unwrap().map(|s| s.to_string()),  &None,&None)?;
             declaration_key  = Some(deckey);
 
@@ -902,6 +943,9 @@ impl Store<ElementData,ElementKey> for Document {
                         let annotationtype = parent.elementtype.annotationtype().ok_or_else(|| FoliaError::EncodeError(format!("Features are not supported on {}, it has no annotation type", parent.elementtype)))?;
                         let parent_deckey = parent.declaration_key()?;
                         let set = element.set()?.map(|s| s.to_string());
+                        if !self.autodeclare && (parent_deckey.is_none() || set.is_some()) {
+                            self.check_declared(annotationtype, set.as_ref().map(String::as_str))?;
+                        }
                         let deckey = match parent_deckey {
                             //no set of its own, the feature is part of the same declaration as its parent
                             Some(parent_deckey) if set.is_none() => parent_deckey,
-- 
2.43.0


From fe1bbe8166db38ea1ff73c69e9bfb4cc9315281d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:28 +0000
Subject: [PATCH 46/47] fix: words kept the spans they were covered by when
 word references were moved into, out of or between span annotations

---
 src/document.rs | 79 ++++++++++++++++++++++++++++++++++++++++++++++++-
 src/parser.rs   |  8 ++---
 2 files changed, 82 insertions(+), 5 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index dd42802..f5fd489 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -230,7 +230,7 @@ impl Document {
         let key = <Self as Store<ElementData,ElementKey>>::add(self, element, parent_key)?;
         added.push(key);
         if let Some(parent_key) = parent_key {
-            self.attach_element(parent_key, key)?;
+            self.attach(parent_key, key)?;
         }
         for item in data {
             if let DataType::AddElement(child) = item {
@@ -342,6 +342,78 @@ impl Document {
     ///Adds the child element to the parent element, automatically takes care
     ///of removing the old parent (if any).
     pub fn attach_element(&mut self, parent_key: ElementKey, child_key: ElementKey) -> Result<(),FoliaError> {
+        let references = self.outer_references(child_key);
+        let oldspan_key = self.covering_span(child_key);
+        let newspan_key = match self.get_elementdata(parent_key) {
+            Some(parent) if ElementGroup::Span.contains(parent.elementtype) => Some(parent_key),
+            Some(_) => self.covering_span(parent_key),
+            None => None
+        };
+        let mut target_keys: Vec<ElementKey> = Vec::new();
+        for reference_key in references {
+            match self.get_elementdata(reference_key).and_then(|reference| reference.idref()) {
+                Some(idref) => match self.get_element_key_by_id(idref) {
+                    Some(target_key) => target_keys.push(target_key),
+                    None if newspan_key.is_some() => return Err(FoliaError::ValidationError(format!("Wref references an element that does not exist: {}", idref))),
+                    None => {}
+                },
+                None if newspan_key.is_some() => return Err(FoliaError::ValidationError("Wref element does not reference anything!".to_string())),
+                None => {}
+            }
+        }
+        self.attach(parent_key, child_key)?;
+        self.move_spanreferences(&target_keys, oldspan_key, newspan_key);
+        Ok(())
+    }
+
+    ///Finds the span annotation the element is in, if any (the nearest one)
+    fn covering_span(&self, key: ElementKey) -> Option<ElementKey> {
+        self.get_elementdata(key)?;
+        self.ancestors_by_key(key, Selector::elements().elementgroup(Cmp::Is(ElementGroup::Span))).next().and_then(|ancestor| ancestor.element.key())
+    }
+
+    ///Collects the word references in an element (which may be one itself) that do not belong to a
+    ///span annotation inside that same element
+    fn outer_references(&self, key: ElementKey) -> Vec<ElementKey> {
+        let mut references: Vec<ElementKey> = Vec::new();
+        let mut stack: Vec<ElementKey> = vec!(key);
+        while let Some(key) = stack.pop() {
+            if let Some(element) = self.get_elementdata(key) {
+                if element.elementtype == ElementType::WordReference {
+                    references.push(key);
+                }
+                if !ElementGroup::Span.contains(element.elementtype) {
+                    for item in element.data.iter().rev() {
+                        if let DataType::Element(child_key) = item {
+                            stack.push(*child_key);
+                        }
+                    }
+                }
+            }
+        }
+        references
+    }
+
+    ///Updates the backpointers in elements that are referenced by word references that moved from one span
+    ///annotation to another
+    fn move_spanreferences(&mut self, target_keys: &[ElementKey], oldspan_key: Option<ElementKey>, newspan_key: Option<ElementKey>) {
+        if oldspan_key == newspan_key {
+            return;
+        }
+        for target_key in target_keys {
+            if let Some(target) = self.get_mut_elementdata(*target_key) {
+                if let Some(index) = oldspan_key.and_then(|oldspan_key| target.index(&DataType::SpanReference(oldspan_key))) {
+                    target.remove(index);
+                }
+                if let Some(newspan_key) = newspan_key {
+                    target.push(DataType::SpanReference(newspan_key));
+                }
+            }
+        }
+    }
+
+    ///Attach the element to the parent, backpointers to span annotations are left to the caller
+    pub(crate) fn attach(&mut self, parent_key: ElementKey, child_key: ElementKey) -> Result<(),FoliaError> {
         //ensure the parent exists
         if !self.get(parent_key).is_some() {
             return Err(FoliaError::InternalError(format!("Parent element does not exist: {}", parent_key)));
@@ -456,6 +528,10 @@ impl Document {
 
     ///Removes the child from the parent, orphaning it, does NOT remove the element entirely
     pub fn detach_element(&mut self, child_key: ElementKey) -> Result<(),FoliaError> {
+        let oldspan_key = self.covering_span(child_key);
+        let target_keys: Vec<ElementKey> = self.outer_references(child_key).into_iter().filter_map(|key| {
+            self.get_elementdata(key).and_then(|reference| reference.idref()).and_then(|idref| self.get_element_key_by_id(idref))
+        }).collect();
         let oldparent_key = if let Some(child) = self.get_mut(child_key) {
             //add the new parent and return the old parent
             let tmp = child.parent_key();
@@ -474,6 +550,7 @@ impl Document {
                 }
             }
         }
+        self.move_spanreferences(&target_keys, oldspan_key, None);
         Ok(())
     }
 
diff --git a/src/parser.rs b/src/parser.rs
index acb86af..7039b5b 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -467,12 +467,12 @@ impl Document {
 
                         // Since there is no Event::End after, directly append it to the current node
                         if let Some(parent_key) = stack.last() {
-                            self.attach_element(*parent_key, key)?;
+                            self.attach(*parent_key, key)?;
                         }
                         //add immediate children (limited to those derived from XML attributes)
                         for child in children {
                             let child_key = self.add(child, Some(key))?;
-                            self.attach_element(key, child_key)?;
+                            self.attach(key, child_key)?;
                         }
                         if self.get_elementdata(key).map_or(false, |elem| elem.elementtype == ElementType::WordReference) {
                             references.push(key);
@@ -494,7 +494,7 @@ impl Document {
                         //add immediate children (limited to those derived from XML attributes)
                         for child in children {
                             let child_key = self.add(child, Some(key))?;
-                            self.attach_element(key, child_key)?;
+                            self.attach(key, child_key)?;
                         }
                     },
                     (Some(ns), Event::End(ref e)) if ns == NSFOLIA => {
@@ -523,7 +523,7 @@ impl Document {
 
                         //add element to parent (the previous one in the stack)
                         if let Some(parent_key) = stack.last() {
-                            self.attach_element(*parent_key, key)?;
+                            self.attach(*parent_key, key)?;
                         }
                     },
                     (None, Event::Text(s)) => {
-- 
2.43.0


From c884a5cd1b8597157520d19074aac2d10dea3892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:52 +0000
Subject: [PATCH 47/47] fix: text and comments of blanks other than white space
 in XML (no-break space, ideographic space) were dropped

---
 src/parser.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 7039b5b..0b12f7f 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -78,7 +78,7 @@ impl Document {
                 (_, Event::Empty(_)) => {
                     return Err(FoliaError::ParseError("Encountered empty root tag".to_string()));
                 },
-                (_, Event::Text(ref s)) if !reader.decode(s.escaped())?.trim_start_matches('\u{feff}').trim().is_empty() => {
+                (_, Event::Text(ref s)) if !reader.decode(s.escaped())?.trim_start_matches('\u{feff}').trim_matches(is_space).is_empty() => {
                     return Err(FoliaError::ParseError("Unexpected text before the root tag".to_string()));
                 },
                 (_, Event::CData(_)) => {
@@ -286,7 +286,7 @@ impl Document {
                     empty_body = true;
                     break;
                 },
-                (_, Event::Text(ref s)) if !reader.decode(s.escaped())?.trim().is_empty() => {
+                (_, Event::Text(ref s)) if !reader.decode(s.escaped())?.trim_matches(is_space).is_empty() => {
                     return Err(FoliaError::ParseError("Unexpected text before the body".to_string()));
                 },
                 (_, Event::CData(ref s)) if !s.iter().all(|c| c.is_ascii_whitespace()) => {
@@ -528,7 +528,7 @@ impl Document {
                     },
                     (None, Event::Text(s)) => {
                         let text = decode_text(reader, s)?;
-                        if text.trim() != "" {
+                        if text.trim_matches(is_space) != "" {
                             if let Some(parent_key) = stack.last() {
                                 self.get_mut_elementdata(*parent_key).map( |parent| {
                                     parent.push(DataType::Text(text));
@@ -538,7 +538,7 @@ impl Document {
                     },
                     (None, Event::CData(s)) => {
                         let text = decode_text(reader, s)?; //(quick_xml has escaped it)
-                        if text.trim() != "" {
+                        if text.trim_matches(is_space) != "" {
                             if let Some(parent_key) = stack.last() {
                                 self.get_mut_elementdata(*parent_key).map( |parent| {
                                     parent.push(DataType::Text(text.to_string()));
@@ -551,7 +551,7 @@ impl Document {
                         if comment.contains("--") || comment.ends_with('-') {
                             return Err(FoliaError::ParseError(format!("Invalid comment: {}", comment)));
                         }
-                        if comment.trim() != "" {
+                        if comment.trim_matches(is_space) != "" {
                             if let Some(parent_key) = stack.last() {
                                 self.get_mut_elementdata(*parent_key).map( |parent| {
                                     parent.push(DataType::Comment(comment.to_string()));
@@ -575,6 +575,11 @@ impl Document {
     }
 }
 
+///White space in XML (other blanks, like the no-break space, are ordinary characters)
+fn is_space(c: char) -> bool {
+    c == ' ' || c == '\t' || c == '\n' || c == '\r'
+}
+
 ///Line breaks are normalised as XML prescribes
 fn normalise_newlines(text: &str) -> Cow<str> {
     if text.contains('\r') {
-- 
2.43.0

