From a1d727528a2a3de37b035a41db6f5fedb0277ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:38:28 +0000
Subject: [PATCH 001/105] fix: write disabled complex-script bold and italic as
 off

BoldCs and ItalicCs ignored their value when written, so disabling bold or
italic turned the complex-script variant on.
---
 docx-core/src/documents/elements/bold_cs.rs   |  6 +++++-
 docx-core/src/documents/elements/italic_cs.rs |  6 +++++-
 docx-core/src/xml_builder/elements.rs         | 12 ++++++++++++
 3 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/docx-core/src/documents/elements/bold_cs.rs b/docx-core/src/documents/elements/bold_cs.rs
index 5e20da8..6a1e505 100644
--- a/docx-core/src/documents/elements/bold_cs.rs
+++ b/docx-core/src/documents/elements/bold_cs.rs
@@ -39,6 +39,10 @@ impl BuildXML for BoldCs {
         &self,
         stream: crate::xml::writer::EventWriter<W>,
     ) -> crate::xml::writer::Result<crate::xml::writer::EventWriter<W>> {
-        XMLBuilder::from(stream).b_cs()?.into_inner()
+        if self.val {
+            XMLBuilder::from(stream).b_cs()?.into_inner()
+        } else {
+            XMLBuilder::from(stream).disable_bold_cs()?.into_inner()
+        }
     }
 }
diff --git a/docx-core/src/documents/elements/italic_cs.rs b/docx-core/src/documents/elements/italic_cs.rs
index 6e8c804..fb98422 100644
--- a/docx-core/src/documents/elements/italic_cs.rs
+++ b/docx-core/src/documents/elements/italic_cs.rs
@@ -40,6 +40,10 @@ impl BuildXML for ItalicCs {
         &self,
         stream: crate::xml::writer::EventWriter<W>,
     ) -> crate::xml::writer::Result<crate::xml::writer::EventWriter<W>> {
-        XMLBuilder::from(stream).i_cs()?.into_inner()
+        if self.val {
+            XMLBuilder::from(stream).i_cs()?.into_inner()
+        } else {
+            XMLBuilder::from(stream).disable_italic_cs()?.into_inner()
+        }
     }
 }
diff --git a/docx-core/src/xml_builder/elements.rs b/docx-core/src/xml_builder/elements.rs
index f1aed6d..96eac4b 100644
--- a/docx-core/src/xml_builder/elements.rs
+++ b/docx-core/src/xml_builder/elements.rs
@@ -189,6 +189,12 @@ impl<W: Write> XMLBuilder<W> {
             .close()
     }
 
+    pub(crate) fn disable_bold_cs(self) -> Result<Self> {
+        let f = "false";
+        self.write(XmlEvent::start_element("w:bCs").attr("w:val", f))?
+            .close()
+    }
+
     closed_with_str!(caps, "w:caps");
 
     closed!(i, "w:i");
@@ -200,6 +206,12 @@ impl<W: Write> XMLBuilder<W> {
             .close()
     }
 
+    pub(crate) fn disable_italic_cs(self) -> Result<Self> {
+        let f = "false";
+        self.write(XmlEvent::start_element("w:iCs").attr("w:val", f))?
+            .close()
+    }
+
     closed!(strike, "w:strike");
 
     pub(crate) fn disable_strike(self) -> Result<Self> {
-- 
2.43.0


From af5c5c394f396b623c9a2046233cb8c890dfb3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:39:25 +0000
Subject: [PATCH 002/105] fix: collect comments and hyperlinks from every part
 of the document tree

Comments and external hyperlinks nested in sections, content controls,
tracked changes or other hyperlinks were written to the document without an
entry in the comments part or the document relationships. A comment with
several paragraphs was written several times and one without any paragraph
not at all.
---
 docx-core/src/documents/document_tree.rs |  44 +-
 docx-core/src/documents/mod.rs           | 504 +++--------------------
 2 files changed, 87 insertions(+), 461 deletions(-)

diff --git a/docx-core/src/documents/document_tree.rs b/docx-core/src/documents/document_tree.rs
index e1ac0c5..3d3e3cc 100644
--- a/docx-core/src/documents/document_tree.rs
+++ b/docx-core/src/documents/document_tree.rs
@@ -5,10 +5,11 @@
 //! dependency collectors complete when new package metadata is added.
 
 use crate::{
-    Delete, DeleteChild, Document, DocumentChild, DrawingData, Footer, FooterChild, Header,
-    HeaderChild, Hyperlink, Insert, InsertChild, MoveFrom, MoveFromChild, MoveTo, MoveToChild,
-    Paragraph, ParagraphChild, Pic, Run, RunChild, Section, SectionChild, StructuredDataTag,
-    StructuredDataTagChild, Table, TableCellContent, TableChild, TableOfContents, TableRowChild,
+    CommentRangeStart, Delete, DeleteChild, Document, DocumentChild, DrawingData, Footer,
+    FooterChild, Header, HeaderChild, Hyperlink, Insert, InsertChild, MoveFrom, MoveFromChild,
+    MoveTo, MoveToChild, Paragraph, ParagraphChild, Pic, Run, RunChild, Section, SectionChild,
+    StructuredDataTag, StructuredDataTagChild, Table, TableCellContent, TableChild,
+    TableOfContents, TableRowChild,
 };
 
 /// Receives package-relevant nodes while the document tree is traversed.
@@ -29,6 +30,12 @@ pub(crate) trait DocumentTreeVisitor {
 
     /// Visits a footnote reference stored in a run.
     fn visit_footnote_reference(&mut self, _reference: &crate::FootnoteReference) {}
+
+    /// Visits a hyperlink before its children are traversed.
+    fn visit_hyperlink(&mut self, _link: &Hyperlink) {}
+
+    /// Visits the start of a commented range.
+    fn visit_comment_start(&mut self, _start: &CommentRangeStart) {}
 }
 
 /// Traverses the main document body without crossing into header/footer parts.
@@ -70,9 +77,9 @@ fn visit_document_child(child: &mut DocumentChild, visitor: &mut impl DocumentTr
         DocumentChild::StructuredDataTag(tag) => visit_structured_data_tag(tag, visitor),
         DocumentChild::TableOfContents(toc) => visit_table_of_contents(toc, visitor),
         DocumentChild::Section(section) => visit_section(section, visitor),
+        DocumentChild::CommentStart(start) => visitor.visit_comment_start(start),
         DocumentChild::BookmarkStart(_)
         | DocumentChild::BookmarkEnd(_)
-        | DocumentChild::CommentStart(_)
         | DocumentChild::CommentEnd(_) => {}
     }
 }
@@ -84,9 +91,9 @@ fn visit_section(section: &mut Section, visitor: &mut impl DocumentTreeVisitor)
             SectionChild::Table(table) => visit_table(table, visitor),
             SectionChild::StructuredDataTag(tag) => visit_structured_data_tag(tag, visitor),
             SectionChild::TableOfContents(toc) => visit_table_of_contents(toc, visitor),
+            SectionChild::CommentStart(start) => visitor.visit_comment_start(start),
             SectionChild::BookmarkStart(_)
             | SectionChild::BookmarkEnd(_)
-            | SectionChild::CommentStart(_)
             | SectionChild::CommentEnd(_) => {}
         }
     }
@@ -131,9 +138,9 @@ fn visit_structured_data_tag(tag: &mut StructuredDataTag, visitor: &mut impl Doc
             StructuredDataTagChild::StructuredDataTag(tag) => {
                 visit_structured_data_tag(tag, visitor)
             }
+            StructuredDataTagChild::CommentStart(start) => visitor.visit_comment_start(start),
             StructuredDataTagChild::BookmarkStart(_)
             | StructuredDataTagChild::BookmarkEnd(_)
-            | StructuredDataTagChild::CommentStart(_)
             | StructuredDataTagChild::CommentEnd(_) => {}
         }
     }
@@ -157,9 +164,9 @@ fn visit_paragraph_children(
             ParagraphChild::MoveTo(moved) => visit_move_to(moved, visitor),
             ParagraphChild::Hyperlink(link) => visit_hyperlink(link, visitor),
             ParagraphChild::StructuredDataTag(tag) => visit_structured_data_tag(tag, visitor),
+            ParagraphChild::CommentStart(start) => visitor.visit_comment_start(start),
             ParagraphChild::BookmarkStart(_)
             | ParagraphChild::BookmarkEnd(_)
-            | ParagraphChild::CommentStart(_)
             | ParagraphChild::CommentEnd(_)
             | ParagraphChild::PageNum(_)
             | ParagraphChild::NumPages(_) => {}
@@ -168,6 +175,7 @@ fn visit_paragraph_children(
 }
 
 fn visit_hyperlink(link: &mut Hyperlink, visitor: &mut impl DocumentTreeVisitor) {
+    visitor.visit_hyperlink(link);
     visit_paragraph_children(&mut link.children, visitor);
 }
 
@@ -176,23 +184,28 @@ fn visit_insert(insert: &mut Insert, visitor: &mut impl DocumentTreeVisitor) {
         match child {
             InsertChild::Run(run) => visit_run(run, visitor),
             InsertChild::Delete(delete) => visit_delete(delete, visitor),
-            InsertChild::CommentStart(_) | InsertChild::CommentEnd(_) => {}
+            InsertChild::CommentStart(start) => visitor.visit_comment_start(start),
+            InsertChild::CommentEnd(_) => {}
         }
     }
 }
 
 fn visit_delete(delete: &mut Delete, visitor: &mut impl DocumentTreeVisitor) {
     for child in &mut delete.children {
-        if let DeleteChild::Run(run) = child {
-            visit_run(run, visitor);
+        match child {
+            DeleteChild::Run(run) => visit_run(run, visitor),
+            DeleteChild::CommentStart(start) => visitor.visit_comment_start(start),
+            DeleteChild::CommentEnd(_) => {}
         }
     }
 }
 
 fn visit_move_from(moved: &mut MoveFrom, visitor: &mut impl DocumentTreeVisitor) {
     for child in &mut moved.children {
-        if let MoveFromChild::Run(run) = child {
-            visit_run(run, visitor);
+        match child {
+            MoveFromChild::Run(run) => visit_run(run, visitor),
+            MoveFromChild::CommentStart(start) => visitor.visit_comment_start(start),
+            MoveFromChild::CommentEnd(_) => {}
         }
     }
 }
@@ -202,7 +215,8 @@ fn visit_move_to(moved: &mut MoveTo, visitor: &mut impl DocumentTreeVisitor) {
         match child {
             MoveToChild::Run(run) => visit_run(run, visitor),
             MoveToChild::Delete(delete) => visit_delete(delete, visitor),
-            MoveToChild::CommentStart(_) | MoveToChild::CommentEnd(_) => {}
+            MoveToChild::CommentStart(start) => visitor.visit_comment_start(start),
+            MoveToChild::CommentEnd(_) => {}
         }
     }
 }
@@ -217,6 +231,7 @@ fn visit_run(run: &mut Run, visitor: &mut impl DocumentTreeVisitor) {
                 }
             }
             RunChild::FootnoteReference(reference) => visitor.visit_footnote_reference(reference),
+            RunChild::CommentStart(start) => visitor.visit_comment_start(start),
             RunChild::Text(_)
             | RunChild::Sym(_)
             | RunChild::DeleteText(_)
@@ -225,7 +240,6 @@ fn visit_run(run: &mut Run, visitor: &mut impl DocumentTreeVisitor) {
             | RunChild::Break(_)
             | RunChild::CarriageReturn(_)
             | RunChild::Shape(_)
-            | RunChild::CommentStart(_)
             | RunChild::CommentEnd(_)
             | RunChild::FieldChar(_)
             | RunChild::InstrText(_)
diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index cdae806..1a064c4 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -85,6 +85,7 @@ pub use xml_docx::*;
 use base64::Engine;
 use serde::{ser, Serialize};
 
+use self::document_tree::{visit_document, DocumentTreeVisitor};
 use self::image_collector::{
     collect_document_footnotes, collect_document_part, collect_footer_part, collect_header_part,
     MediaRegistry,
@@ -917,235 +918,53 @@ impl Docx {
         refresh_para_ids_in_docx(self, &duplicates, &mut used, &mut seen);
     }
 
-    fn insert_comment_to_map(
-        &self,
-        comment_map: &mut HashMap<usize, String>,
-        c: &CommentRangeStart,
-    ) {
-        let comment = c.get_comment_ref();
-        let comment_id = comment.id();
-        for child in &comment.children {
-            if let CommentChild::Paragraph(child) = child {
-                let para_id = child.id.clone();
-                comment_map.insert(comment_id, para_id);
-            }
-            // TODO: Support table in comment
-        }
-    }
-
     // Traverse and clone comments from document and add to comments node.
     fn update_dependencies(&mut self) {
-        let mut comments: Vec<Comment> = vec![];
-        let mut comments_extended: Vec<CommentExtended> = vec![];
-        let mut comment_map: HashMap<usize, String> = HashMap::new();
-
-        let mut hyperlink_map: HashMap<String, String> = HashMap::new();
-
-        for child in &self.document.children {
-            match child {
-                DocumentChild::Paragraph(paragraph) => {
-                    for child in &paragraph.children {
-                        if let ParagraphChild::CommentStart(c) = child {
-                            self.insert_comment_to_map(&mut comment_map, c);
-                        }
-                        if let ParagraphChild::Hyperlink(h) = child {
-                            if let HyperlinkData::External { rid, path } = &h.link {
-                                hyperlink_map.insert(rid.clone(), path.clone());
-                            }
-                            for child in &h.children {
-                                if let ParagraphChild::CommentStart(c) = child {
-                                    self.insert_comment_to_map(&mut comment_map, c);
-                                }
-                            }
-                        }
-                    }
-                }
-                DocumentChild::Table(table) => {
-                    collect_comment_map_in_table(table, &mut comment_map, &mut hyperlink_map);
-                }
-                DocumentChild::TableOfContents(toc) => {
-                    for child in &toc.before_contents {
-                        if let TocContent::Paragraph(paragraph) = child {
-                            collect_comment_map_in_paragraph(
-                                paragraph,
-                                &mut comment_map,
-                                &mut hyperlink_map,
-                            );
-                        }
-                        if let TocContent::Table(table) = child {
-                            collect_comment_map_in_table(
-                                table,
-                                &mut comment_map,
-                                &mut hyperlink_map,
-                            );
-                        }
-                    }
-                    for child in &toc.after_contents {
-                        if let TocContent::Paragraph(paragraph) = child {
-                            collect_comment_map_in_paragraph(
-                                paragraph,
-                                &mut comment_map,
-                                &mut hyperlink_map,
-                            );
-                        }
-                        if let TocContent::Table(table) = child {
-                            collect_comment_map_in_table(
-                                table,
-                                &mut comment_map,
-                                &mut hyperlink_map,
-                            );
-                        }
-                    }
-                }
-                _ => {}
-            }
+        let mut collector = DependencyCollector::default();
+        visit_document(&mut self.document, &mut collector);
+
+        // A previous call may already have registered some of the hyperlinks.
+        self.document_rels
+            .hyperlinks
+            .retain(|(id, _, _)| !collector.hyperlink_ids.contains(id));
+        for (id, path) in collector.hyperlinks {
+            self.document_rels
+                .hyperlinks
+                .push((id, path, "External".to_owned())); // Now support external only
         }
 
-        if comment_map.is_empty() {
-            for (id, path) in hyperlink_map {
-                self.document_rels
-                    .hyperlinks
-                    .push((id, path, "External".to_owned()));
-            }
+        if collector.comments.is_empty() {
             return;
         }
 
-        for child in &self.document.children {
-            match child {
-                DocumentChild::Paragraph(paragraph) => {
-                    for child in &paragraph.children {
-                        if let ParagraphChild::CommentStart(c) = child {
-                            push_comment_and_comment_extended(
-                                &mut comments,
-                                &mut comments_extended,
-                                &comment_map,
-                                c,
-                            );
-                        }
-                        if let ParagraphChild::Hyperlink(h) = child {
-                            if let HyperlinkData::External { rid, path } = &h.link {
-                                hyperlink_map.insert(rid.clone(), path.clone());
-                            };
-                            for child in &h.children {
-                                if let ParagraphChild::CommentStart(c) = child {
-                                    push_comment_and_comment_extended(
-                                        &mut comments,
-                                        &mut comments_extended,
-                                        &comment_map,
-                                        c,
-                                    );
-                                }
-                            }
-                        }
-                    }
-                }
-                DocumentChild::Table(table) => {
-                    collect_dependencies_in_table(
-                        table,
-                        &mut comments,
-                        &mut comments_extended,
-                        &mut comment_map,
-                        &mut hyperlink_map,
-                    );
-                }
-                DocumentChild::TableOfContents(toc) => {
-                    // TODO:refine later
-                    for child in &toc.before_contents {
-                        if let TocContent::Paragraph(paragraph) = child {
-                            for child in &paragraph.children {
-                                if let ParagraphChild::CommentStart(c) = child {
-                                    push_comment_and_comment_extended(
-                                        &mut comments,
-                                        &mut comments_extended,
-                                        &comment_map,
-                                        c,
-                                    );
-                                }
-                                if let ParagraphChild::Hyperlink(h) = child {
-                                    if let HyperlinkData::External { rid, path } = &h.link {
-                                        hyperlink_map.insert(rid.clone(), path.clone());
-                                    };
-                                    for child in &h.children {
-                                        if let ParagraphChild::CommentStart(c) = child {
-                                            push_comment_and_comment_extended(
-                                                &mut comments,
-                                                &mut comments_extended,
-                                                &comment_map,
-                                                c,
-                                            );
-                                        }
-                                    }
-                                }
-                            }
-                        }
-                        if let TocContent::Table(table) = child {
-                            collect_dependencies_in_table(
-                                table,
-                                &mut comments,
-                                &mut comments_extended,
-                                &mut comment_map,
-                                &mut hyperlink_map,
-                            );
-                        }
-                    }
-                    for child in &toc.after_contents {
-                        if let TocContent::Paragraph(paragraph) = child {
-                            for child in &paragraph.children {
-                                if let ParagraphChild::CommentStart(c) = child {
-                                    push_comment_and_comment_extended(
-                                        &mut comments,
-                                        &mut comments_extended,
-                                        &comment_map,
-                                        c,
-                                    );
-                                }
-                                if let ParagraphChild::Hyperlink(h) = child {
-                                    if let HyperlinkData::External { rid, path } = &h.link {
-                                        hyperlink_map.insert(rid.clone(), path.clone());
-                                    };
-                                    for child in &h.children {
-                                        if let ParagraphChild::CommentStart(c) = child {
-                                            push_comment_and_comment_extended(
-                                                &mut comments,
-                                                &mut comments_extended,
-                                                &comment_map,
-                                                c,
-                                            );
-                                        }
-                                    }
-                                }
-                            }
-                        }
-                        if let TocContent::Table(table) = child {
-                            collect_dependencies_in_table(
-                                table,
-                                &mut comments,
-                                &mut comments_extended,
-                                &mut comment_map,
-                                &mut hyperlink_map,
-                            );
-                        }
-                    }
-                }
-                _ => {}
-            }
-        }
+        let para_ids: HashMap<usize, String> = collector
+            .comments
+            .iter()
+            .filter_map(|comment| Some((comment.id(), comment_para_id(comment)?)))
+            .collect();
+        let comments_extended = collector
+            .comments
+            .iter()
+            .filter_map(|comment| {
+                let extended = CommentExtended::new(comment_para_id(comment)?);
+                let parent = comment
+                    .parent_comment_id
+                    .and_then(|parent| para_ids.get(&parent));
+                Some(match parent {
+                    Some(para_id) => extended.parent_paragraph_id(para_id.clone()),
+                    None => extended,
+                })
+            })
+            .collect();
+
         // If this document has comments, set comments.xml to document_rels.
         // This is because comments.xml without comment cause an error on word online.
-        if !comments.is_empty() {
-            self.document_rels.has_comments = true;
-        }
+        self.document_rels.has_comments = true;
 
         self.comments_extended
             .add_comments_extended(comments_extended);
 
-        self.comments.add_comments(comments);
-
-        for (id, d) in hyperlink_map {
-            self.document_rels
-                .hyperlinks
-                .push((id, d, "External".to_string())); // Now support external only
-        }
+        self.comments.add_comments(collector.comments);
     }
 
     // Traverse and clone comments from document and add to comments node.
@@ -1265,221 +1084,39 @@ impl Docx {
     }
 }
 
-fn collect_dependencies_in_paragraph(
-    paragraph: &Paragraph,
-    comments: &mut Vec<Comment>,
-    comments_extended: &mut Vec<CommentExtended>,
-    comment_map: &mut HashMap<usize, String>,
-    hyperlink_map: &mut HashMap<String, String>,
-) {
-    for child in &paragraph.children {
-        if let ParagraphChild::CommentStart(c) = child {
-            push_comment_and_comment_extended(comments, comments_extended, comment_map, c);
-        }
-        if let ParagraphChild::Hyperlink(h) = child {
-            if let HyperlinkData::External { rid, path } = &h.link {
-                hyperlink_map.insert(rid.clone(), path.clone());
-            };
-            for child in &h.children {
-                if let ParagraphChild::CommentStart(c) = child {
-                    push_comment_and_comment_extended(comments, comments_extended, comment_map, c);
-                }
-            }
-        }
-    }
+/// Collects comments and external hyperlinks of the main document in order.
+#[derive(Default)]
+struct DependencyCollector {
+    comments: Vec<Comment>,
+    comment_ids: HashSet<usize>,
+    hyperlinks: Vec<(String, String)>,
+    hyperlink_ids: HashSet<String>,
 }
 
-fn collect_comment_map_in_paragraph(
-    paragraph: &Paragraph,
-    comment_map: &mut HashMap<usize, String>,
-    hyperlink_map: &mut HashMap<String, String>,
-) {
-    for child in &paragraph.children {
-        if let ParagraphChild::CommentStart(c) = child {
-            let comment = c.get_comment_ref();
-            let comment_id = comment.id();
-            for child in &comment.children {
-                if let CommentChild::Paragraph(child) = child {
-                    comment_map.insert(comment_id, child.id.clone());
-                }
-            }
-        }
-        if let ParagraphChild::Hyperlink(h) = child {
-            if let HyperlinkData::External { rid, path } = &h.link {
-                hyperlink_map.insert(rid.clone(), path.clone());
-            }
-            for child in &h.children {
-                if let ParagraphChild::CommentStart(c) = child {
-                    let comment = c.get_comment_ref();
-                    let comment_id = comment.id();
-                    for child in &comment.children {
-                        if let CommentChild::Paragraph(child) = child {
-                            comment_map.insert(comment_id, child.id.clone());
-                        }
-                    }
-                }
+impl DocumentTreeVisitor for DependencyCollector {
+    fn visit_hyperlink(&mut self, link: &Hyperlink) {
+        if let HyperlinkData::External { rid, path } = &link.link {
+            if self.hyperlink_ids.insert(rid.clone()) {
+                self.hyperlinks.push((rid.clone(), path.clone()));
             }
         }
     }
-}
 
-fn collect_comment_map_in_table(
-    table: &Table,
-    comment_map: &mut HashMap<usize, String>,
-    hyperlink_map: &mut HashMap<String, String>,
-) {
-    for TableChild::TableRow(row) in &table.rows {
-        for TableRowChild::TableCell(cell) in &row.cells {
-            for content in &cell.children {
-                match content {
-                    TableCellContent::Paragraph(paragraph) => {
-                        collect_comment_map_in_paragraph(paragraph, comment_map, hyperlink_map);
-                    }
-                    TableCellContent::Table(table) => {
-                        collect_comment_map_in_table(table, comment_map, hyperlink_map)
-                    }
-                    TableCellContent::StructuredDataTag(tag) => {
-                        for child in &tag.children {
-                            if let StructuredDataTagChild::Paragraph(paragraph) = child {
-                                collect_comment_map_in_paragraph(
-                                    paragraph,
-                                    comment_map,
-                                    hyperlink_map,
-                                );
-                            }
-                            if let StructuredDataTagChild::Table(table) = child {
-                                collect_comment_map_in_table(table, comment_map, hyperlink_map);
-                            }
-                        }
-                    }
-                    TableCellContent::TableOfContents(t) => {
-                        for child in &t.before_contents {
-                            if let TocContent::Paragraph(paragraph) = child {
-                                collect_comment_map_in_paragraph(
-                                    paragraph,
-                                    comment_map,
-                                    hyperlink_map,
-                                );
-                            }
-                            if let TocContent::Table(table) = child {
-                                collect_comment_map_in_table(table, comment_map, hyperlink_map);
-                            }
-                        }
-                        for child in &t.after_contents {
-                            if let TocContent::Paragraph(paragraph) = child {
-                                collect_comment_map_in_paragraph(
-                                    paragraph,
-                                    comment_map,
-                                    hyperlink_map,
-                                );
-                            }
-                            if let TocContent::Table(table) = child {
-                                collect_comment_map_in_table(table, comment_map, hyperlink_map);
-                            }
-                        }
-                    }
-                }
-            }
+    fn visit_comment_start(&mut self, start: &CommentRangeStart) {
+        let comment = start.get_comment_ref();
+        if self.comment_ids.insert(comment.id()) {
+            self.comments.push(comment.clone());
         }
     }
 }
 
-fn collect_dependencies_in_table(
-    table: &Table,
-    comments: &mut Vec<Comment>,
-    comments_extended: &mut Vec<CommentExtended>,
-    comment_map: &mut HashMap<usize, String>,
-    hyperlink_map: &mut HashMap<String, String>,
-) {
-    for TableChild::TableRow(row) in &table.rows {
-        for TableRowChild::TableCell(cell) in &row.cells {
-            for content in &cell.children {
-                match content {
-                    TableCellContent::Paragraph(paragraph) => {
-                        collect_dependencies_in_paragraph(
-                            paragraph,
-                            comments,
-                            comments_extended,
-                            comment_map,
-                            hyperlink_map,
-                        );
-                    }
-                    TableCellContent::Table(table) => collect_dependencies_in_table(
-                        table,
-                        comments,
-                        comments_extended,
-                        comment_map,
-                        hyperlink_map,
-                    ),
-                    TableCellContent::StructuredDataTag(tag) => {
-                        for child in &tag.children {
-                            if let StructuredDataTagChild::Paragraph(paragraph) = child {
-                                collect_dependencies_in_paragraph(
-                                    paragraph,
-                                    comments,
-                                    comments_extended,
-                                    comment_map,
-                                    hyperlink_map,
-                                );
-                            }
-                            if let StructuredDataTagChild::Table(table) = child {
-                                collect_dependencies_in_table(
-                                    table,
-                                    comments,
-                                    comments_extended,
-                                    comment_map,
-                                    hyperlink_map,
-                                );
-                            }
-                        }
-                    }
-                    TableCellContent::TableOfContents(t) => {
-                        for child in &t.before_contents {
-                            if let TocContent::Paragraph(paragraph) = child {
-                                collect_dependencies_in_paragraph(
-                                    paragraph,
-                                    comments,
-                                    comments_extended,
-                                    comment_map,
-                                    hyperlink_map,
-                                );
-                            }
-                            if let TocContent::Table(table) = child {
-                                collect_dependencies_in_table(
-                                    table,
-                                    comments,
-                                    comments_extended,
-                                    comment_map,
-                                    hyperlink_map,
-                                );
-                            }
-                        }
-
-                        for child in &t.after_contents {
-                            if let TocContent::Paragraph(paragraph) = child {
-                                collect_dependencies_in_paragraph(
-                                    paragraph,
-                                    comments,
-                                    comments_extended,
-                                    comment_map,
-                                    hyperlink_map,
-                                );
-                            }
-                            if let TocContent::Table(table) = child {
-                                collect_dependencies_in_table(
-                                    table,
-                                    comments,
-                                    comments_extended,
-                                    comment_map,
-                                    hyperlink_map,
-                                );
-                            }
-                        }
-                    }
-                }
-            }
-        }
-    }
+/// The paragraph which identifies a comment in comments extended: its last one.
+fn comment_para_id(comment: &Comment) -> Option<String> {
+    comment.children.iter().rev().find_map(|child| match child {
+        CommentChild::Paragraph(paragraph) => Some(paragraph.id.clone()),
+        // TODO: Support table in comment
+        _ => None,
+    })
 }
 
 fn store_comments_in_paragraph(
@@ -2264,31 +1901,6 @@ fn next_unique_paragraph_id(used: &HashSet<String>) -> String {
         .expect("the paragraph ID space should not be exhausted")
 }
 
-fn push_comment_and_comment_extended(
-    comments: &mut Vec<Comment>,
-    comments_extended: &mut Vec<CommentExtended>,
-    comment_map: &HashMap<usize, String>,
-    c: &CommentRangeStart,
-) {
-    let comment = c.get_comment_ref();
-    for child in &comment.children {
-        if let CommentChild::Paragraph(child) = child {
-            let para_id = child.id.clone();
-            comments.push(comment.clone());
-            let comment_extended = CommentExtended::new(para_id);
-            if let Some(parent_comment_id) = comment.parent_comment_id {
-                if let Some(parent_para_id) = comment_map.get(&parent_comment_id) {
-                    comments_extended
-                        .push(comment_extended.parent_paragraph_id(parent_para_id.clone()));
-                }
-            } else {
-                comments_extended.push(comment_extended);
-            }
-        }
-        // TODO: Support table in comment
-    }
-}
-
 /// Populates an automatic TOC and bookmarks matching headings in place.
 ///
 /// `document_children[toc_index]` is the temporary placeholder installed by
-- 
2.43.0


From ab833ddf2b3ba8fb0047bec0377867ed317011fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:40:35 +0000
Subject: [PATCH 003/105] fix: write character-unit hanging and first-line
 indents

Indent stored them but the writer left them out of w:ind.
---
 docx-core/src/documents/elements/indent.rs | 2 ++
 docx-core/src/xml_builder/elements.rs      | 8 ++++++++
 2 files changed, 10 insertions(+)

diff --git a/docx-core/src/documents/elements/indent.rs b/docx-core/src/documents/elements/indent.rs
index 6cf53c7..f25a278 100644
--- a/docx-core/src/documents/elements/indent.rs
+++ b/docx-core/src/documents/elements/indent.rs
@@ -62,6 +62,8 @@ impl BuildXML for Indent {
                 self.special_indent,
                 self.end.unwrap_or_default(),
                 self.start_chars,
+                self.hanging_chars,
+                self.first_line_chars,
             )?
             .into_inner()
     }
diff --git a/docx-core/src/xml_builder/elements.rs b/docx-core/src/xml_builder/elements.rs
index 96eac4b..09a4b91 100644
--- a/docx-core/src/xml_builder/elements.rs
+++ b/docx-core/src/xml_builder/elements.rs
@@ -286,6 +286,8 @@ impl<W: Write> XMLBuilder<W> {
         special_indent: Option<SpecialIndentType>,
         end: i32,
         start_chars: Option<i32>,
+        hanging_chars: Option<i32>,
+        first_line_chars: Option<i32>,
     ) -> Result<Self> {
         let mut base = XmlEvent::start_element("w:ind")
             .attr_display("w:left", start.unwrap_or(0))
@@ -294,6 +296,12 @@ impl<W: Write> XMLBuilder<W> {
         if let Some(start_chars) = start_chars {
             base = base.attr_display("w:leftChars", start_chars);
         }
+        if let Some(hanging_chars) = hanging_chars {
+            base = base.attr_display("w:hangingChars", hanging_chars);
+        }
+        if let Some(first_line_chars) = first_line_chars {
+            base = base.attr_display("w:firstLineChars", first_line_chars);
+        }
 
         match special_indent {
             Some(SpecialIndentType::FirstLine(v)) => {
-- 
2.43.0


From 70910690a96181dd884d2c4b3b3fad760e950503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:40:40 +0000
Subject: [PATCH 004/105] fix: use the schema names hSpace and vSpace for frame
 spacing

---
 docx-core/src/xml_builder/elements.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/docx-core/src/xml_builder/elements.rs b/docx-core/src/xml_builder/elements.rs
index 09a4b91..25f7b82 100644
--- a/docx-core/src/xml_builder/elements.rs
+++ b/docx-core/src/xml_builder/elements.rs
@@ -667,10 +667,10 @@ impl<W: Write> XMLBuilder<W> {
             w = w.attr_display("w:y", y);
         }
         if let Some(h_space) = prop.h_space {
-            w = w.attr_display("w:h_space", h_space);
+            w = w.attr_display("w:hSpace", h_space);
         }
         if let Some(v_space) = prop.v_space {
-            w = w.attr_display("w:v_space", v_space);
+            w = w.attr_display("w:vSpace", v_space);
         }
         if let Some(width) = prop.w {
             w = w.attr_display("w:w", width);
-- 
2.43.0


From 92cd3106979b693515cd13ce3e86e1ae281c30e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:42:08 +0000
Subject: [PATCH 005/105] fix: write the columns and widths a table row skips
 before and after

gridBefore, gridAfter, wBefore and wAfter could be set and were read, but
never written.
---
 docx-core/src/documents/elements/table_row_property.rs | 8 ++++++++
 docx-core/src/xml_builder/elements.rs                  | 4 ++++
 2 files changed, 12 insertions(+)

diff --git a/docx-core/src/documents/elements/table_row_property.rs b/docx-core/src/documents/elements/table_row_property.rs
index ee68ed8..0ebccfe 100644
--- a/docx-core/src/documents/elements/table_row_property.rs
+++ b/docx-core/src/documents/elements/table_row_property.rs
@@ -84,6 +84,14 @@ impl BuildXML for TableRowProperty {
             .open_table_row_property()?
             .add_optional_child(&self.del)?
             .add_optional_child(&self.ins)?
+            .apply_opt(self.grid_before, |v, b| b.grid_before(&v.to_string()))?
+            .apply_opt(self.grid_after, |v, b| b.grid_after(&v.to_string()))?
+            .apply_opt(self.width_before, |v, b| {
+                b.width_before(&v.to_string(), "dxa")
+            })?
+            .apply_opt(self.width_after, |v, b| {
+                b.width_after(&v.to_string(), "dxa")
+            })?
             .add_optional_child(&self.cant_split)?
             .apply_opt(self.row_height, |h, b| {
                 b.table_row_height(
diff --git a/docx-core/src/xml_builder/elements.rs b/docx-core/src/xml_builder/elements.rs
index 25f7b82..85f6248 100644
--- a/docx-core/src/xml_builder/elements.rs
+++ b/docx-core/src/xml_builder/elements.rs
@@ -399,6 +399,10 @@ impl<W: Write> XMLBuilder<W> {
     closed_w_with_type_el!(table_cell_width, "w:tcW");
 
     closed!(table_row_height, "w:trHeight", "w:val", "w:hRule");
+    closed!(grid_before, "w:gridBefore", "w:val");
+    closed!(grid_after, "w:gridAfter", "w:val");
+    closed!(width_before, "w:wBefore", "w:w", "w:type");
+    closed!(width_after, "w:wAfter", "w:w", "w:type");
 
     closed_with_usize!(grid_span, "w:gridSpan");
     closed_with_str!(vertical_merge, "w:vMerge");
-- 
2.43.0


From 87dffc9bfa7e032c1592a0cec8c56fb785375420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:43:42 +0000
Subject: [PATCH 006/105] fix: never emit malformed XML for values that were
 not escaped beforehand

Names, authors, anchors and text read from another document reached the
writer unescaped, so a markup or control character in them produced a part
that no XML parser accepts. The writer now escapes what is not already a
reference and drops characters XML does not allow.
---
 docx-core/src/xml/writer.rs | 63 ++++++++++++++++++++++++++++++++++---
 1 file changed, 58 insertions(+), 5 deletions(-)

diff --git a/docx-core/src/xml/writer.rs b/docx-core/src/xml/writer.rs
index 1575b27..d480c27 100644
--- a/docx-core/src/xml/writer.rs
+++ b/docx-core/src/xml/writer.rs
@@ -146,7 +146,7 @@ impl<W: Write> EventWriter<W> {
                 let text_event = if self.perform_escaping {
                     BytesText::new(text.as_ref())
                 } else {
-                    BytesText::from_escaped(text.as_ref())
+                    BytesText::from_escaped(escape_stray_markup(&text, false))
                 };
                 self.writer.write_event(Event::Text(text_event))?;
             }
@@ -233,12 +233,14 @@ impl From<String> for XmlEvent<'static> {
 impl<'a> StartElement<'a> {
     /// Appends an attribute with an already escaped string value.
     ///
-    /// The value is copied directly into the start tag and is not XML-escaped.
+    /// References in the value are kept as they are. Markup characters and
+    /// characters XML does not allow are not, see [`escape_stray_markup`].
     pub fn attr(mut self, name: &str, value: &str) -> Self {
         self.encoded.push(b' ');
         self.encoded.extend_from_slice(name.as_bytes());
         self.encoded.extend_from_slice(b"=\"");
-        self.encoded.extend_from_slice(value.as_bytes());
+        self.encoded
+            .extend_from_slice(escape_stray_markup(value, true).as_bytes());
         self.encoded.push(b'"');
         self
     }
@@ -246,7 +248,7 @@ impl<'a> StartElement<'a> {
     /// Appends an attribute by formatting its value directly into the start tag.
     ///
     /// This avoids allocating an intermediate `String`. The formatted value is
-    /// not XML-escaped.
+    /// treated like a value given to [`StartElement::attr`].
     pub fn attr_display(mut self, name: &str, value: impl fmt::Display) -> Self {
         self.encoded.push(b' ');
         self.encoded.extend_from_slice(name.as_bytes());
@@ -265,7 +267,58 @@ struct AttributeValueWriter<'a>(&'a mut SmallVec<[u8; 128]>);
 
 impl fmt::Write for AttributeValueWriter<'_> {
     fn write_str(&mut self, value: &str) -> fmt::Result {
-        self.0.extend_from_slice(value.as_bytes());
+        self.0
+            .extend_from_slice(escape_stray_markup(value, true).as_bytes());
         Ok(())
     }
 }
+
+/// Makes a value safe to place in character data or in an attribute.
+///
+/// Most values reach the writer already escaped, but values that were read from
+/// a document, or that come from setters which store them unchanged, do not.
+/// Existing entity and character references are kept, all other markup
+/// characters are escaped, and characters XML does not allow are dropped.
+fn escape_stray_markup(value: &str, attribute: bool) -> Cow<'_, str> {
+    let needs_work = |ch: char| match ch {
+        '&' | '<' => true,
+        '"' | '\t' | '\n' => attribute,
+        '\u{0}'..='\u{1f}' => !matches!(ch, '\t' | '\n'),
+        '\u{fffe}' | '\u{ffff}' => true,
+        _ => false,
+    };
+    if !value.contains(needs_work) {
+        return Cow::Borrowed(value);
+    }
+
+    let mut escaped = String::with_capacity(value.len() + 16);
+    for (index, ch) in value.char_indices() {
+        match ch {
+            '&' if !starts_with_reference(&value[index..]) => escaped.push_str("&amp;"),
+            '<' => escaped.push_str("&lt;"),
+            '"' if attribute => escaped.push_str("&quot;"),
+            '\t' if attribute => escaped.push_str("&#x9;"),
+            '\n' if attribute => escaped.push_str("&#xA;"),
+            '\t' | '\n' => escaped.push(ch),
+            '\u{0}'..='\u{1f}' | '\u{fffe}' | '\u{ffff}' => {}
+            _ => escaped.push(ch),
+        }
+    }
+    Cow::Owned(escaped)
+}
+
+fn starts_with_reference(text: &str) -> bool {
+    let Some(name) = text[1..].split_once(';').map(|(name, _)| name) else {
+        return false;
+    };
+    match name.strip_prefix('#') {
+        Some(number) => {
+            let (digits, radix) = match number.strip_prefix('x') {
+                Some(hex) => (hex, 16),
+                None => (number, 10),
+            };
+            !digits.is_empty() && digits.chars().all(|ch| ch.is_digit(radix))
+        }
+        None => matches!(name, "amp" | "lt" | "gt" | "quot" | "apos"),
+    }
+}
-- 
2.43.0


From 2f3101c42effe44aeba25c9b2fce4ed491aaf8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:44:27 +0000
Subject: [PATCH 007/105] fix: decode character references in text only once
 when reading

The XML parser already resolves references, so text such as '&amp;lt;' was
decoded a second time and lost its meaning.
---
 docx-core/src/escape/mod.rs | 1 +
 docx-core/src/reader/run.rs | 9 ++++-----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/docx-core/src/escape/mod.rs b/docx-core/src/escape/mod.rs
index abe5431..e29efc4 100644
--- a/docx-core/src/escape/mod.rs
+++ b/docx-core/src/escape/mod.rs
@@ -32,6 +32,7 @@ pub(crate) fn escape_owned(text: String) -> String {
     }
 }
 
+#[cfg(test)]
 pub(crate) fn replace_escaped(text: &str) -> String {
     let mut decoded = String::with_capacity(text.len());
     let mut rest = text;
diff --git a/docx-core/src/reader/run.rs b/docx-core/src/reader/run.rs
index 0ff2425..9bd555e 100644
--- a/docx-core/src/reader/run.rs
+++ b/docx-core/src/reader/run.rs
@@ -5,7 +5,6 @@ use std::str::FromStr;
 
 use super::Run;
 
-use crate::escape::replace_escaped;
 use crate::types::BreakType;
 use crate::{reader::*, FieldCharType};
 
@@ -156,19 +155,19 @@ impl ElementReader for Run {
                 }
                 Ok(XmlEvent::Characters(c)) => match text_state {
                     TextState::Delete => {
-                        run = run.add_delete_text_without_escape(replace_escaped(&c));
+                        run = run.add_delete_text_without_escape(c);
                     }
                     TextState::Text => {
-                        run = run.add_text_without_escape(replace_escaped(&c));
+                        run = run.add_text_without_escape(c);
                     }
                     _ => {}
                 },
                 Ok(XmlEvent::Whitespace(c)) => match text_state {
                     TextState::Delete => {
-                        run = run.add_delete_text_without_escape(replace_escaped(&c));
+                        run = run.add_delete_text_without_escape(c);
                     }
                     TextState::Text => {
-                        run = run.add_text_without_escape(replace_escaped(&c));
+                        run = run.add_text_without_escape(c);
                     }
                     _ => {}
                 },
-- 
2.43.0


From b6cad04a593b1aa5dacb0b5d5f6d3a3e6d81da5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:47:52 +0000
Subject: [PATCH 008/105] fix: read element values by attribute name rather
 than position

---
 docx-core/src/reader/level.rs               | 25 ++++++++++++++-------
 docx-core/src/reader/level_override.rs      |  6 +++--
 docx-core/src/reader/numbering_property.rs  |  8 +++++--
 docx-core/src/reader/numberings.rs          | 13 +++++++----
 docx-core/src/reader/paragraph_property.rs  | 16 ++++++++-----
 docx-core/src/reader/run.rs                 |  4 +++-
 docx-core/src/reader/run_property.rs        | 22 +++++++++++++-----
 docx-core/src/reader/style.rs               |  4 +++-
 docx-core/src/reader/table.rs               |  4 +++-
 docx-core/src/reader/table_cell_property.rs | 16 ++++++-------
 docx-core/src/reader/table_property.rs      |  6 +++--
 11 files changed, 85 insertions(+), 39 deletions(-)

diff --git a/docx-core/src/reader/level.rs b/docx-core/src/reader/level.rs
index 4e2fd38..88042a2 100644
--- a/docx-core/src/reader/level.rs
+++ b/docx-core/src/reader/level.rs
@@ -36,8 +36,7 @@ impl ElementReader for Level {
                     let e = XMLElement::from_str(&name.local_name).unwrap();
                     match e {
                         XMLElement::ParagraphStyle => {
-                            let id = attributes[0].value.clone();
-                            style_id = Some(id);
+                            style_id = read_val(&attributes);
                         }
                         XMLElement::ParagraphProperty => {
                             if let Ok(pr) = ParagraphProperty::read(r, attrs) {
@@ -52,27 +51,37 @@ impl ElementReader for Level {
                             continue;
                         }
                         XMLElement::Start => {
-                            start = Start::new(usize::from_str(&attributes[0].value)?);
+                            if let Some(v) = read_val(&attributes) {
+                                start = Start::new(usize::from_str(&v)?);
+                            }
                         }
                         XMLElement::NumberFormat => {
-                            num_fmt = NumberFormat::new(attributes[0].value.clone());
+                            if let Some(v) = read_val(&attributes) {
+                                num_fmt = NumberFormat::new(v);
+                            }
                         }
                         XMLElement::Suffix => {
-                            suffix = LevelSuffixType::from_str(&attributes[0].value)?;
+                            if let Some(v) = read_val(&attributes) {
+                                suffix = LevelSuffixType::from_str(&v)?;
+                            }
                         }
                         XMLElement::IsLgl => {
                             is_lgl = Some(IsLgl::new());
                         }
                         XMLElement::LevelText => {
-                            level_text = LevelText::new(attributes[0].value.clone());
+                            if let Some(v) = read_val(&attributes) {
+                                level_text = LevelText::new(v);
+                            }
                         }
                         XMLElement::LevelRestart => {
-                            if let Ok(v) = u32::from_str(&attributes[0].value) {
+                            if let Some(Ok(v)) = read_val(&attributes).map(|v| u32::from_str(&v)) {
                                 level_restart = Some(LevelRestart::new(v));
                             }
                         }
                         XMLElement::LevelJustification => {
-                            jc = LevelJc::new(attributes[0].value.clone());
+                            if let Some(v) = read_val(&attributes) {
+                                jc = LevelJc::new(v);
+                            }
                         }
                         XMLElement::Indent => {
                             let i = read_indent(&attributes)?;
diff --git a/docx-core/src/reader/level_override.rs b/docx-core/src/reader/level_override.rs
index 4cfc5eb..c29a902 100644
--- a/docx-core/src/reader/level_override.rs
+++ b/docx-core/src/reader/level_override.rs
@@ -8,7 +8,7 @@ impl ElementReader for LevelOverride {
         r: &mut EventReader<R>,
         attrs: &[OwnedAttribute],
     ) -> Result<Self, ReaderError> {
-        if let Ok(level) = usize::from_str(&attrs[0].value) {
+        if let Some(Ok(level)) = read(attrs, "ilvl").map(|v| usize::from_str(&v)) {
             let mut o = LevelOverride::new(level);
             loop {
                 let e = r.next_event();
@@ -19,7 +19,9 @@ impl ElementReader for LevelOverride {
                         let e = XMLElement::from_str(&name.local_name).unwrap();
                         match e {
                             XMLElement::StartOverride => {
-                                if let Ok(val) = usize::from_str(&attributes[0].value) {
+                                if let Some(Ok(val)) =
+                                    read_val(&attributes).map(|v| usize::from_str(&v))
+                                {
                                     o = o.start(val);
                                 }
                                 continue;
diff --git a/docx-core/src/reader/numbering_property.rs b/docx-core/src/reader/numbering_property.rs
index f1678bf..cc28d08 100644
--- a/docx-core/src/reader/numbering_property.rs
+++ b/docx-core/src/reader/numbering_property.rs
@@ -19,11 +19,15 @@ impl ElementReader for NumberingProperty {
                     let e = XMLElement::from_str(&name.local_name).unwrap();
                     match e {
                         XMLElement::IndentLevel => {
-                            level = Some(usize::from_str(&attributes[0].value)?);
+                            if let Some(v) = read_val(&attributes) {
+                                level = Some(usize::from_str(&v)?);
+                            }
                             continue;
                         }
                         XMLElement::NumberingId => {
-                            id = Some(usize::from_str(&attributes[0].value)?);
+                            if let Some(v) = read_val(&attributes) {
+                                id = Some(usize::from_str(&v)?);
+                            }
                             continue;
                         }
                         _ => {}
diff --git a/docx-core/src/reader/numberings.rs b/docx-core/src/reader/numberings.rs
index 5034add..03eeeaa 100644
--- a/docx-core/src/reader/numberings.rs
+++ b/docx-core/src/reader/numberings.rs
@@ -38,11 +38,14 @@ impl FromXML for Numberings {
                                                 abs_num = abs_num.add_level(l);
                                             }
                                             XMLElement::StyleLink => {
-                                                abs_num = abs_num.style_link(&attributes[0].value)
+                                                if let Some(v) = read_val(&attributes) {
+                                                    abs_num = abs_num.style_link(v)
+                                                }
                                             }
                                             XMLElement::NumStyleLink => {
-                                                abs_num =
-                                                    abs_num.num_style_link(&attributes[0].value)
+                                                if let Some(v) = read_val(&attributes) {
+                                                    abs_num = abs_num.num_style_link(v)
+                                                }
                                             }
                                             _ => {}
                                         }
@@ -79,7 +82,9 @@ impl FromXML for Numberings {
                                         let e = XMLElement::from_str(&name.local_name).unwrap();
                                         match e {
                                             XMLElement::AbstractNumberingId => {
-                                                abs_num_id = usize::from_str(&attributes[0].value)?
+                                                if let Some(v) = read_val(&attributes) {
+                                                    abs_num_id = usize::from_str(&v)?
+                                                }
                                             }
                                             XMLElement::LvlOverride => {
                                                 if let Ok(o) =
diff --git a/docx-core/src/reader/paragraph_property.rs b/docx-core/src/reader/paragraph_property.rs
index 361450c..1a26613 100644
--- a/docx-core/src/reader/paragraph_property.rs
+++ b/docx-core/src/reader/paragraph_property.rs
@@ -42,14 +42,18 @@ impl ElementReader for ParagraphProperty {
                             continue;
                         }
                         XMLElement::Justification => {
-                            if let Ok(v) = AlignmentType::from_str(&attributes[0].value) {
-                                p = p.align(v);
+                            if let Some(val) = read_val(&attributes) {
+                                if let Ok(v) = AlignmentType::from_str(&val) {
+                                    p = p.align(v);
+                                }
                             }
                             continue;
                         }
                         XMLElement::TextAlignment => {
-                            if let Ok(v) = TextAlignmentType::from_str(&attributes[0].value) {
-                                p = p.text_alignment(v);
+                            if let Some(val) = read_val(&attributes) {
+                                if let Ok(v) = TextAlignmentType::from_str(&val) {
+                                    p = p.text_alignment(v);
+                                }
                             }
                             continue;
                         }
@@ -62,7 +66,9 @@ impl ElementReader for ParagraphProperty {
                             continue;
                         }
                         XMLElement::ParagraphStyle => {
-                            p = p.style(&attributes[0].value);
+                            if let Some(val) = read_val(&attributes) {
+                                p = p.style(&val);
+                            }
                             continue;
                         }
                         XMLElement::RunProperty => {
diff --git a/docx-core/src/reader/run.rs b/docx-core/src/reader/run.rs
index 9bd555e..1e5487e 100644
--- a/docx-core/src/reader/run.rs
+++ b/docx-core/src/reader/run.rs
@@ -87,7 +87,9 @@ impl ElementReader for Run {
                                 XMLElement::Text => text_state = TextState::Text,
                                 XMLElement::DeleteText => text_state = TextState::Delete,
                                 XMLElement::Break => {
-                                    if let Some(a) = attributes.first() {
+                                    if let Some(a) =
+                                        attributes.iter().find(|a| a.name.local_name == "type")
+                                    {
                                         run = run.add_break(BreakType::from_str(&a.value)?)
                                     } else {
                                         run = run.add_break(BreakType::TextWrapping)
diff --git a/docx-core/src/reader/run_property.rs b/docx-core/src/reader/run_property.rs
index 187f50d..ccea390 100644
--- a/docx-core/src/reader/run_property.rs
+++ b/docx-core/src/reader/run_property.rs
@@ -107,7 +107,11 @@ impl ElementReader for RunProperty {
                                 rp = rp.ptab(v)
                             }
                         }
-                        XMLElement::Highlight => rp = rp.highlight(attributes[0].value.clone()),
+                        XMLElement::Highlight => {
+                            if let Some(v) = read_val(&attributes) {
+                                rp = rp.highlight(v);
+                            }
+                        }
                         XMLElement::Strike => {
                             if !read_bool(&attributes) {
                                 rp.strike = Some(Strike::new().disable());
@@ -123,13 +127,17 @@ impl ElementReader for RunProperty {
                             rp = rp.dstrike();
                         }
                         XMLElement::VertAlign => {
-                            if let Ok(v) = VertAlignType::from_str(&attributes[0].value) {
-                                rp = rp.vert_align(v)
+                            if let Some(v) = read_val(&attributes) {
+                                if let Ok(v) = VertAlignType::from_str(&v) {
+                                    rp = rp.vert_align(v)
+                                }
                             }
                         }
                         XMLElement::Color => rp = read_color(rp, &attributes),
                         XMLElement::Size => {
-                            rp = rp.size(f64::from_str(&attributes[0].value)? as usize)
+                            if let Some(v) = read_val(&attributes) {
+                                rp = rp.size(f64::from_str(&v)? as usize)
+                            }
                         }
                         XMLElement::Spacing => {
                             if let Some(v) = read_val(&attributes) {
@@ -152,7 +160,11 @@ impl ElementReader for RunProperty {
                                 rp = rp.fonts(f);
                             }
                         }
-                        XMLElement::Underline => rp = rp.underline(attributes[0].value.clone()),
+                        XMLElement::Underline => {
+                            if let Some(v) = read_val(&attributes) {
+                                rp = rp.underline(v);
+                            }
+                        }
                         XMLElement::Italic => {
                             if !read_bool(&attributes) {
                                 rp = rp.disable_italic();
diff --git a/docx-core/src/reader/style.rs b/docx-core/src/reader/style.rs
index 9d611ab..bb9557a 100644
--- a/docx-core/src/reader/style.rs
+++ b/docx-core/src/reader/style.rs
@@ -30,7 +30,9 @@ impl ElementReader for Style {
                     let e = XMLElement::from_str(&name.local_name).unwrap();
                     match e {
                         XMLElement::Name => {
-                            style = style.name(attributes[0].value.clone());
+                            if let Some(v) = read_val(&attributes) {
+                                style = style.name(v);
+                            }
                             continue;
                         }
                         XMLElement::BasedOn => {
diff --git a/docx-core/src/reader/table.rs b/docx-core/src/reader/table.rs
index 5c0e511..82d4211 100644
--- a/docx-core/src/reader/table.rs
+++ b/docx-core/src/reader/table.rs
@@ -35,7 +35,9 @@ impl ElementReader for Table {
                             }
                         }
                         XMLElement::Justification => {
-                            t = t.align(TableAlignmentType::from_str(&attributes[0].value)?);
+                            if let Some(v) = read_val(&attributes) {
+                                t = t.align(TableAlignmentType::from_str(&v)?);
+                            }
                         }
                         XMLElement::TableIndent => {
                             let (w, _) = read_width(&attributes)?;
diff --git a/docx-core/src/reader/table_cell_property.rs b/docx-core/src/reader/table_cell_property.rs
index 8aa7218..9579b6b 100644
--- a/docx-core/src/reader/table_cell_property.rs
+++ b/docx-core/src/reader/table_cell_property.rs
@@ -31,21 +31,21 @@ impl ElementReader for TableCellProperty {
                             property = property.width(w, width_type);
                         }
                         XMLElement::TableGridSpan => {
-                            if let Some(a) = attributes.first() {
-                                property = property.grid_span(usize::from_str(&a.value)?)
+                            if let Some(v) = read_val(&attributes) {
+                                property = property.grid_span(usize::from_str(&v)?)
                             }
                         }
                         XMLElement::TableVMerge => {
-                            if let Some(a) = attributes.first() {
-                                property = property.vertical_merge(VMergeType::from_str(&a.value)?);
+                            if let Some(v) = read_val(&attributes) {
+                                property = property.vertical_merge(VMergeType::from_str(&v)?);
                             } else {
                                 // Treat as a continue without attribute
                                 property = property.vertical_merge(VMergeType::Continue)
                             }
                         }
                         XMLElement::VAlign => {
-                            if let Some(a) = attributes.first() {
-                                property = property.vertical_align(VAlignType::from_str(&a.value)?);
+                            if let Some(v) = read_val(&attributes) {
+                                property = property.vertical_align(VAlignType::from_str(&v)?);
                             }
                         }
                         XMLElement::Shading => {
@@ -54,8 +54,8 @@ impl ElementReader for TableCellProperty {
                             }
                         }
                         XMLElement::TextDirection => {
-                            if let Some(a) = attributes.first() {
-                                if let Ok(v) = TextDirectionType::from_str(&a.value) {
+                            if let Some(v) = read_val(&attributes) {
+                                if let Ok(v) = TextDirectionType::from_str(&v) {
                                     property = property.text_direction(v);
                                 }
                             }
diff --git a/docx-core/src/reader/table_property.rs b/docx-core/src/reader/table_property.rs
index aeca707..2449f90 100644
--- a/docx-core/src/reader/table_property.rs
+++ b/docx-core/src/reader/table_property.rs
@@ -37,8 +37,10 @@ impl ElementReader for TableProperty {
                             }
                         }
                         XMLElement::Justification => {
-                            if let Ok(v) = TableAlignmentType::from_str(&attributes[0].value) {
-                                tp = tp.align(v);
+                            if let Some(v) = read_val(&attributes) {
+                                if let Ok(v) = TableAlignmentType::from_str(&v) {
+                                    tp = tp.align(v);
+                                }
                             }
                         }
                         XMLElement::TableIndent => {
-- 
2.43.0


From a2b9c7511c73990cff30096001cb780b01501d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:49:05 +0000
Subject: [PATCH 009/105] fix: report truncated parts instead of waiting for
 their end forever

---
 docx-core/src/reader/custom_properties.rs |  1 +
 docx-core/src/reader/ignore.rs            | 13 ++++++++-----
 docx-core/src/reader/numberings.rs        |  2 ++
 docx-core/src/reader/xml_parser.rs        | 10 +++++++++-
 4 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/docx-core/src/reader/custom_properties.rs b/docx-core/src/reader/custom_properties.rs
index dfc71f2..d3f1928 100644
--- a/docx-core/src/reader/custom_properties.rs
+++ b/docx-core/src/reader/custom_properties.rs
@@ -37,6 +37,7 @@ impl FromXML for CustomProps {
                                             break;
                                         }
                                     }
+                                    Err(_) => return Err(ReaderError::XMLReadError),
                                     _ => {}
                                 }
                             }
diff --git a/docx-core/src/reader/ignore.rs b/docx-core/src/reader/ignore.rs
index 727addf..12ec11a 100644
--- a/docx-core/src/reader/ignore.rs
+++ b/docx-core/src/reader/ignore.rs
@@ -6,12 +6,15 @@ use super::*;
 pub(crate) fn ignore_element<R: Read>(el: XMLElement, ignore: XMLElement, r: &mut EventReader<R>) {
     if ignore == el {
         loop {
-            let e = r.next_event();
-            if let Ok(XmlEvent::EndElement { name, .. }) = e {
-                let e = XMLElement::from_str(&name.local_name).unwrap();
-                if e == ignore {
-                    break;
+            match r.next_event() {
+                Ok(XmlEvent::EndElement { name, .. }) => {
+                    let e = XMLElement::from_str(&name.local_name).unwrap();
+                    if e == ignore {
+                        break;
+                    }
                 }
+                Err(_) => break,
+                _ => {}
             }
         }
     }
diff --git a/docx-core/src/reader/numberings.rs b/docx-core/src/reader/numberings.rs
index 03eeeaa..7bdcd33 100644
--- a/docx-core/src/reader/numberings.rs
+++ b/docx-core/src/reader/numberings.rs
@@ -57,6 +57,7 @@ impl FromXML for Numberings {
                                             break;
                                         }
                                     }
+                                    Err(_) => return Err(ReaderError::XMLReadError),
                                     _ => {}
                                 }
                             }
@@ -105,6 +106,7 @@ impl FromXML for Numberings {
                                             break;
                                         }
                                     }
+                                    Err(_) => return Err(ReaderError::XMLReadError),
                                     _ => {}
                                 }
                             }
diff --git a/docx-core/src/reader/xml_parser.rs b/docx-core/src/reader/xml_parser.rs
index 8ef0eda..f6d2336 100644
--- a/docx-core/src/reader/xml_parser.rs
+++ b/docx-core/src/reader/xml_parser.rs
@@ -82,7 +82,15 @@ impl<R: Read> EventReader<R> {
     }
 
     pub fn next_event(&mut self) -> Result<XmlEvent, quick_xml::Error> {
-        self.read_next()
+        if self.finished {
+            // There is nothing left to read, so whoever is still waiting for an end tag never gets it.
+            return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+        }
+        let event = self.read_next();
+        if matches!(event, Ok(XmlEvent::EndDocument) | Err(_)) {
+            self.finished = true;
+        }
+        event
     }
 
     fn read_next(&mut self) -> Result<XmlEvent, quick_xml::Error> {
-- 
2.43.0


From e139e422db2031b0e58d1c435247087d0287b53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:50:15 +0000
Subject: [PATCH 010/105] fix: honour off values of hidden text, title page and
 legal numbering when reading

---
 docx-core/src/reader/level.rs            |  4 +++-
 docx-core/src/reader/run_property.rs     | 12 ++++++++++--
 docx-core/src/reader/section_property.rs |  2 +-
 3 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/docx-core/src/reader/level.rs b/docx-core/src/reader/level.rs
index 88042a2..8a70d65 100644
--- a/docx-core/src/reader/level.rs
+++ b/docx-core/src/reader/level.rs
@@ -66,7 +66,9 @@ impl ElementReader for Level {
                             }
                         }
                         XMLElement::IsLgl => {
-                            is_lgl = Some(IsLgl::new());
+                            if read_bool(&attributes) {
+                                is_lgl = Some(IsLgl::new());
+                            }
                         }
                         XMLElement::LevelText => {
                             if let Some(v) = read_val(&attributes) {
diff --git a/docx-core/src/reader/run_property.rs b/docx-core/src/reader/run_property.rs
index ccea390..4f21403 100644
--- a/docx-core/src/reader/run_property.rs
+++ b/docx-core/src/reader/run_property.rs
@@ -177,8 +177,16 @@ impl ElementReader for RunProperty {
                                 rp = rp.shading(shd);
                             }
                         }
-                        XMLElement::Vanish => rp = rp.vanish(),
-                        XMLElement::SpecVanish => rp = rp.spec_vanish(),
+                        XMLElement::Vanish => {
+                            if read_bool(&attributes) {
+                                rp = rp.vanish();
+                            }
+                        }
+                        XMLElement::SpecVanish => {
+                            if read_bool(&attributes) {
+                                rp = rp.spec_vanish();
+                            }
+                        }
                         XMLElement::TextBorder => {
                             if let Ok(attr) = read_border(&attributes) {
                                 let mut border = TextBorder::new()
diff --git a/docx-core/src/reader/section_property.rs b/docx-core/src/reader/section_property.rs
index fc53e8f..f0968b1 100644
--- a/docx-core/src/reader/section_property.rs
+++ b/docx-core/src/reader/section_property.rs
@@ -157,7 +157,7 @@ impl ElementReader for SectionProperty {
                                 }
                             }
                         }
-                        XMLElement::TitlePg => sp = sp.title_pg(),
+                        XMLElement::TitlePg => sp.title_pg = read_bool(&attributes),
                         _ => {}
                     }
                 }
-- 
2.43.0


From 24164c33327616567e1abd2c6d8e1be6ed0d9b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:51:15 +0000
Subject: [PATCH 011/105] fix: read the text direction, row splitting, table
 layout, tab base and border space that are written

---
 docx-core/src/reader/paragraph_property.rs |  5 +++++
 docx-core/src/reader/positional_tab.rs     |  2 +-
 docx-core/src/reader/run_property.rs       |  3 +++
 docx-core/src/reader/table_property.rs     | 10 ++++++++--
 docx-core/src/reader/table_row.rs          |  8 ++++++++
 docx-core/src/reader/xml_element.rs        |  6 ++++++
 6 files changed, 31 insertions(+), 3 deletions(-)

diff --git a/docx-core/src/reader/paragraph_property.rs b/docx-core/src/reader/paragraph_property.rs
index 1a26613..a45509d 100644
--- a/docx-core/src/reader/paragraph_property.rs
+++ b/docx-core/src/reader/paragraph_property.rs
@@ -116,6 +116,11 @@ impl ElementReader for ParagraphProperty {
                                 p.page_break_before = Some(true);
                             }
                         }
+                        XMLElement::Bidi => {
+                            if read_bool(&attributes) {
+                                p.bidi = Some(true);
+                            }
+                        }
                         XMLElement::WidowControl => {
                             if read_bool(&attributes) {
                                 p.widow_control = Some(true);
diff --git a/docx-core/src/reader/positional_tab.rs b/docx-core/src/reader/positional_tab.rs
index 9f9cf1e..a66831e 100644
--- a/docx-core/src/reader/positional_tab.rs
+++ b/docx-core/src/reader/positional_tab.rs
@@ -36,7 +36,7 @@ fn read_alignment(
 fn read_relative_to(attributes: &[OwnedAttribute]) -> Result<PositionalTabRelativeTo, ReaderError> {
     for a in attributes {
         let local_name = &a.name.local_name;
-        if local_name == "alignment" {
+        if local_name == "relativeTo" {
             let v = a.value.to_owned();
             if let Ok(t) = PositionalTabRelativeTo::from_str(&v) {
                 return Ok(t);
diff --git a/docx-core/src/reader/run_property.rs b/docx-core/src/reader/run_property.rs
index 4f21403..1803a8e 100644
--- a/docx-core/src/reader/run_property.rs
+++ b/docx-core/src/reader/run_property.rs
@@ -195,6 +195,9 @@ impl ElementReader for RunProperty {
                                 if let Some(size) = attr.size {
                                     border = border.size(size as usize);
                                 };
+                                if let Some(space) = attr.space {
+                                    border = border.space(space as usize);
+                                };
                                 rp = rp.text_border(border);
                                 continue;
                             }
diff --git a/docx-core/src/reader/table_property.rs b/docx-core/src/reader/table_property.rs
index 2449f90..3ca3d1b 100644
--- a/docx-core/src/reader/table_property.rs
+++ b/docx-core/src/reader/table_property.rs
@@ -1,11 +1,10 @@
 use std::io::Read;
 use std::str::FromStr;
 
-use crate::TableAlignmentType;
+use crate::{TableAlignmentType, TableLayoutType};
 
 use super::*;
 
-// TODO: layout: Option<TableLayout>,
 impl ElementReader for TableProperty {
     fn read<R: Read>(
         r: &mut EventReader<R>,
@@ -50,6 +49,13 @@ impl ElementReader for TableProperty {
                                 }
                             }
                         }
+                        XMLElement::TableLayout => {
+                            if let Some(v) = read(&attributes, "type") {
+                                if let Ok(v) = TableLayoutType::from_str(&v) {
+                                    tp = tp.layout(v);
+                                }
+                            }
+                        }
                         XMLElement::TableStyle => {
                             if let Some(s) = read_val(&attributes) {
                                 tp = tp.style(s);
diff --git a/docx-core/src/reader/table_row.rs b/docx-core/src/reader/table_row.rs
index ff49f12..e3a3d33 100644
--- a/docx-core/src/reader/table_row.rs
+++ b/docx-core/src/reader/table_row.rs
@@ -17,6 +17,7 @@ impl ElementReader for TableRow {
         let mut del = None;
         let mut ins = None;
         let mut height_rule = None;
+        let mut cant_split = false;
         loop {
             let e = r.next_event();
             match e {
@@ -67,6 +68,9 @@ impl ElementReader for TableRow {
                                 }
                             }
                         }
+                        XMLElement::CantSplit => {
+                            cant_split = read_bool(&attributes);
+                        }
                         XMLElement::Delete => {
                             if let Ok(d) = Delete::read(r, &attributes) {
                                 del = Some(d);
@@ -108,6 +112,10 @@ impl ElementReader for TableRow {
                             row = row.height_rule(height_rule);
                         }
 
+                        if cant_split {
+                            row = row.cant_split();
+                        }
+
                         if let Some(del) = del {
                             row = row.delete(del);
                         }
diff --git a/docx-core/src/reader/xml_element.rs b/docx-core/src/reader/xml_element.rs
index 2f7c335..dd11555 100644
--- a/docx-core/src/reader/xml_element.rs
+++ b/docx-core/src/reader/xml_element.rs
@@ -35,6 +35,9 @@ pub enum XMLElement {
     Caps,
     RunStyle,
     BoldCs,
+    Bidi,
+    CantSplit,
+    TableLayout,
     Break,
     CarriageReturn,
     Tab,
@@ -289,6 +292,9 @@ impl FromStr for XMLElement {
             "rStyle" => Ok(XMLElement::RunStyle),
             "b" => Ok(XMLElement::Bold),
             "bCs" => Ok(XMLElement::BoldCs),
+            "bidi" => Ok(XMLElement::Bidi),
+            "cantSplit" => Ok(XMLElement::CantSplit),
+            "tblLayout" => Ok(XMLElement::TableLayout),
             "caps" => Ok(XMLElement::Caps),
             "i" => Ok(XMLElement::Italic),
             "iCs" => Ok(XMLElement::ItalicCs),
-- 
2.43.0


From 80c21903ff0c78ee3c58d43572beeb4f56304048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:53:53 +0000
Subject: [PATCH 012/105] fix: attach comments read from the comments part
 wherever their range starts

---
 docx-core/src/documents/document_tree.rs |   2 +-
 docx-core/src/documents/mod.rs           | 140 ++---------------------
 2 files changed, 9 insertions(+), 133 deletions(-)

diff --git a/docx-core/src/documents/document_tree.rs b/docx-core/src/documents/document_tree.rs
index 3d3e3cc..9e98e42 100644
--- a/docx-core/src/documents/document_tree.rs
+++ b/docx-core/src/documents/document_tree.rs
@@ -35,7 +35,7 @@ pub(crate) trait DocumentTreeVisitor {
     fn visit_hyperlink(&mut self, _link: &Hyperlink) {}
 
     /// Visits the start of a commented range.
-    fn visit_comment_start(&mut self, _start: &CommentRangeStart) {}
+    fn visit_comment_start(&mut self, _start: &mut CommentRangeStart) {}
 }
 
 /// Traverses the main document body without crossing into header/footer parts.
diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index 1a064c4..fe9b213 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -974,59 +974,7 @@ impl Docx {
             .iter()
             .map(|comment| (comment.id(), comment))
             .collect();
-        for child in &mut self.document.children {
-            match child {
-                DocumentChild::Paragraph(paragraph) => {
-                    for child in &mut paragraph.children {
-                        if let ParagraphChild::CommentStart(ref mut c) = child {
-                            let comment_id = c.get_id();
-                            if let Some(comment) = comments_by_id.get(&comment_id).copied() {
-                                let comment = Comment::clone(comment);
-                                c.as_mut().comment(comment);
-                            }
-                        }
-                        if let ParagraphChild::Insert(ref mut insert) = child {
-                            for child in &mut insert.children {
-                                if let InsertChild::CommentStart(ref mut c) = child {
-                                    let comment_id = c.get_id();
-                                    if let Some(comment) = comments_by_id.get(&comment_id).copied()
-                                    {
-                                        let comment = Comment::clone(comment);
-                                        c.as_mut().comment(comment);
-                                    }
-                                } else if let InsertChild::Delete(ref mut d) = child {
-                                    for child in &mut d.children {
-                                        if let DeleteChild::CommentStart(ref mut c) = child {
-                                            let comment_id = c.get_id();
-                                            if let Some(comment) =
-                                                comments_by_id.get(&comment_id).copied()
-                                            {
-                                                let comment = Comment::clone(comment);
-                                                c.as_mut().comment(comment);
-                                            }
-                                        }
-                                    }
-                                }
-                            }
-                        }
-                        if let ParagraphChild::Delete(ref mut delete) = child {
-                            for child in &mut delete.children {
-                                if let DeleteChild::CommentStart(ref mut c) = child {
-                                    let comment_id = c.get_id();
-                                    if let Some(comment) = comments_by_id.get(&comment_id).copied()
-                                    {
-                                        let comment = Comment::clone(comment);
-                                        c.as_mut().comment(comment);
-                                    }
-                                }
-                            }
-                        }
-                    }
-                }
-                DocumentChild::Table(table) => store_comments_in_table(table, &comments_by_id),
-                _ => {}
-            }
-        }
+        visit_document(&mut self.document, &mut CommentRestorer(comments_by_id));
 
         if !comments.is_empty() {
             self.document_rels.has_comments = true;
@@ -1102,7 +1050,7 @@ impl DocumentTreeVisitor for DependencyCollector {
         }
     }
 
-    fn visit_comment_start(&mut self, start: &CommentRangeStart) {
+    fn visit_comment_start(&mut self, start: &mut CommentRangeStart) {
         let comment = start.get_comment_ref();
         if self.comment_ids.insert(comment.id()) {
             self.comments.push(comment.clone());
@@ -1119,85 +1067,13 @@ fn comment_para_id(comment: &Comment) -> Option<String> {
     })
 }
 
-fn store_comments_in_paragraph(
-    paragraph: &mut Paragraph,
-    comments_by_id: &HashMap<usize, &Comment>,
-) {
-    for child in &mut paragraph.children {
-        if let ParagraphChild::CommentStart(ref mut c) = child {
-            let comment_id = c.get_id();
-            if let Some(comment) = comments_by_id.get(&comment_id).copied() {
-                let comment = Comment::clone(comment);
-                c.as_mut().comment(comment);
-            }
-        }
-        if let ParagraphChild::Insert(ref mut insert) = child {
-            for child in &mut insert.children {
-                if let InsertChild::CommentStart(ref mut c) = child {
-                    let comment_id = c.get_id();
-                    if let Some(comment) = comments_by_id.get(&comment_id).copied() {
-                        let comment = Comment::clone(comment);
-                        c.as_mut().comment(comment);
-                    }
-                }
-            }
-        }
-        if let ParagraphChild::Delete(ref mut delete) = child {
-            for child in &mut delete.children {
-                if let DeleteChild::CommentStart(ref mut c) = child {
-                    let comment_id = c.get_id();
-                    if let Some(comment) = comments_by_id.get(&comment_id).copied() {
-                        let comment = Comment::clone(comment);
-                        c.as_mut().comment(comment);
-                    }
-                }
-            }
-        }
-    }
-}
+/// Puts the comments of the comments part back where their ranges start.
+struct CommentRestorer<'a>(HashMap<usize, &'a Comment>);
 
-fn store_comments_in_table(table: &mut Table, comments_by_id: &HashMap<usize, &Comment>) {
-    for TableChild::TableRow(row) in &mut table.rows {
-        for TableRowChild::TableCell(cell) in &mut row.cells {
-            for content in &mut cell.children {
-                match content {
-                    TableCellContent::Paragraph(paragraph) => {
-                        store_comments_in_paragraph(paragraph, comments_by_id)
-                    }
-                    TableCellContent::Table(ref mut table) => {
-                        store_comments_in_table(table, comments_by_id);
-                    }
-                    TableCellContent::StructuredDataTag(ref mut tag) => {
-                        for child in &mut tag.children {
-                            if let StructuredDataTagChild::Paragraph(paragraph) = child {
-                                store_comments_in_paragraph(paragraph, comments_by_id);
-                            }
-                            if let StructuredDataTagChild::Table(table) = child {
-                                store_comments_in_table(table, comments_by_id);
-                            }
-                        }
-                    }
-                    TableCellContent::TableOfContents(ref mut t) => {
-                        for child in &mut t.before_contents {
-                            if let TocContent::Paragraph(paragraph) = child {
-                                store_comments_in_paragraph(paragraph, comments_by_id);
-                            }
-                            if let TocContent::Table(table) = child {
-                                store_comments_in_table(table, comments_by_id);
-                            }
-                        }
-
-                        for child in &mut t.after_contents {
-                            if let TocContent::Paragraph(paragraph) = child {
-                                store_comments_in_paragraph(paragraph, comments_by_id);
-                            }
-                            if let TocContent::Table(table) = child {
-                                store_comments_in_table(table, comments_by_id);
-                            }
-                        }
-                    }
-                }
-            }
+impl DocumentTreeVisitor for CommentRestorer<'_> {
+    fn visit_comment_start(&mut self, start: &mut CommentRangeStart) {
+        if let Some(comment) = self.0.get(&start.get_id()).copied() {
+            start.comment(comment.clone());
         }
     }
 }
-- 
2.43.0


From 5405932cdde0a1a0e3edd64a65ff1a707082d002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:56:32 +0000
Subject: [PATCH 013/105] fix: write custom properties in a stable order

---
 docx-core/src/documents/doc_props/custom.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/docx-core/src/documents/doc_props/custom.rs b/docx-core/src/documents/doc_props/custom.rs
index 41cb22f..b7d2e52 100644
--- a/docx-core/src/documents/doc_props/custom.rs
+++ b/docx-core/src/documents/doc_props/custom.rs
@@ -1,4 +1,5 @@
-use serde::Serialize;
+use serde::{Serialize, Serializer};
+use std::collections::{BTreeMap, HashMap};
 use std::io::Write;
 
 use crate::documents::BuildXML;
@@ -7,7 +8,16 @@ use crate::xml_builder::*;
 #[derive(Debug, Clone, PartialEq, Serialize, Default)]
 #[serde(rename_all = "camelCase")]
 pub struct CustomProps {
-    pub properties: std::collections::HashMap<String, String>,
+    #[serde(serialize_with = "serialize_sorted")]
+    pub properties: HashMap<String, String>,
+}
+
+// The iteration order of a hash map differs from run to run.
+fn serialize_sorted<S: Serializer>(
+    properties: &HashMap<String, String>,
+    serializer: S,
+) -> Result<S::Ok, S::Error> {
+    serializer.collect_map(properties.iter().collect::<BTreeMap<_, _>>())
 }
 
 impl CustomProps {
@@ -26,13 +36,14 @@ impl BuildXML for CustomProps {
         &self,
         stream: crate::xml::writer::EventWriter<W>,
     ) -> crate::xml::writer::Result<crate::xml::writer::EventWriter<W>> {
+        let properties: BTreeMap<_, _> = self.properties.iter().collect();
         XMLBuilder::from(stream)
             .declaration(Some(true))?
             .open_custom_properties(
                 "http://schemas.openxmlformats.org/officeDocument/2006/custom-properties",
                 "http://schemas.openxmlformats.org/officeDocument/2006/docPropsVTypes",
             )?
-            .apply_each(self.properties.iter().enumerate(), |(i, (key, item)), b| {
+            .apply_each(properties.iter().enumerate(), |(i, (key, item)), b| {
                 b.open_property(
                     "{D5CDD505-2E9C-101B-9397-08002B2CF9AE}",
                     // I can not find spec about this id.
-- 
2.43.0


From eaf425e25c84a56df8184c69419cdf9093517353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:56:58 +0000
Subject: [PATCH 014/105] fix: give every custom XML part its own content type
 and relationship id

---
 docx-core/src/documents/content_types.rs | 2 +-
 docx-core/src/documents/document_rels.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/docx-core/src/documents/content_types.rs b/docx-core/src/documents/content_types.rs
index 8bbd8bf..2cc90a1 100644
--- a/docx-core/src/documents/content_types.rs
+++ b/docx-core/src/documents/content_types.rs
@@ -106,7 +106,7 @@ impl ContentTypes {
 
     pub fn add_custom_xml(mut self) -> Self {
         self.types.insert(
-            format!("/customXml/itemProps{}.xml", self.web_extension_count),
+            format!("/customXml/itemProps{}.xml", self.custom_xml_count),
             "application/vnd.openxmlformats-officedocument.customXmlProperties+xml".to_owned(),
         );
         self.custom_xml_count += 1;
diff --git a/docx-core/src/documents/document_rels.rs b/docx-core/src/documents/document_rels.rs
index 2edfb2f..a7a6d93 100644
--- a/docx-core/src/documents/document_rels.rs
+++ b/docx-core/src/documents/document_rels.rs
@@ -110,7 +110,7 @@ impl BuildXML for DocumentRels {
             })?
             .apply_each(0..self.custom_xml_count, |i, b| {
                 b.relationship(
-                    &format!("rId{}", i + 8),
+                    &format!("rId{}", i + 9),
                     "http://schemas.openxmlformats.org/officeDocument/2006/relationships/customXml",
                     &format!("../customXml/item{}.xml", i + 1),
                 )
-- 
2.43.0


From d624fbc5820aa9ed06b5a0d528590bb68cf57c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:57:33 +0000
Subject: [PATCH 015/105] fix: relate every custom XML item to its own
 properties

---
 docx-core/src/documents/custom_item_rels.rs | 10 +++++++++-
 docx-core/src/documents/mod.rs              |  4 +++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/docx-core/src/documents/custom_item_rels.rs b/docx-core/src/documents/custom_item_rels.rs
index 2cb0c74..87b6fe5 100644
--- a/docx-core/src/documents/custom_item_rels.rs
+++ b/docx-core/src/documents/custom_item_rels.rs
@@ -8,6 +8,9 @@ use crate::xml_builder::*;
 #[serde(rename_all = "camelCase")]
 pub struct CustomItemRels {
     custom_item_count: usize,
+    /// Number of custom items in the package before the first one related here.
+    #[serde(skip)]
+    offset: usize,
 }
 
 impl CustomItemRels {
@@ -15,6 +18,11 @@ impl CustomItemRels {
         Default::default()
     }
 
+    pub(crate) fn offset(mut self, offset: usize) -> Self {
+        self.offset = offset;
+        self
+    }
+
     pub fn add_item(mut self) -> Self {
         self.custom_item_count += 1;
         self
@@ -33,7 +41,7 @@ impl BuildXML for CustomItemRels {
                 b.relationship(
           &format!("rId{}", id + 1),
           "http://schemas.openxmlformats.org/officeDocument/2006/relationships/customXmlProps",
-          &format!("itemProps{}.xml", id + 1),
+          &format!("itemProps{}.xml", self.offset + id + 1),
         )
             })?
             .close()?
diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index fe9b213..18f8687 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -685,7 +685,9 @@ impl Docx {
     pub fn add_custom_item(mut self, id: &str, xml: &str) -> Self {
         let x = CustomItem::from_str(xml).expect("should parse xml string");
         self.content_type = self.content_type.add_custom_xml();
-        let rel = CustomItemRels::new().add_item();
+        let rel = CustomItemRels::new()
+            .offset(self.custom_items.len())
+            .add_item();
         self.custom_item_props.push(CustomItemProperty::new(id));
         self.document_rels = self.document_rels.add_custom_item();
         self.custom_item_rels.push(rel);
-- 
2.43.0


From 9fcae90f7c7aa347c6be2e5933737d61fa94621a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:58:45 +0000
Subject: [PATCH 016/105] fix: bind every header and footer reference to the
 part that holds it

---
 docx-core/src/documents/content_types.rs      | 13 +++++++
 docx-core/src/documents/document.rs           | 10 ++++++
 .../documents/elements/section_property.rs    | 36 ++++++++++++++++++-
 docx-core/src/documents/mod.rs                | 17 +++++++++
 4 files changed, 75 insertions(+), 1 deletion(-)

diff --git a/docx-core/src/documents/content_types.rs b/docx-core/src/documents/content_types.rs
index 2cc90a1..eef794f 100644
--- a/docx-core/src/documents/content_types.rs
+++ b/docx-core/src/documents/content_types.rs
@@ -130,6 +130,19 @@ impl ContentTypes {
         );
         self
     }
+
+    /// Forgets headers and footers which were replaced before the package was built.
+    pub(crate) fn truncate_headers_and_footers(&mut self, headers: usize, footers: usize) {
+        for i in headers + 1..=self.header_count {
+            self.types.remove(&format!("/word/header{i}.xml"));
+        }
+        for i in footers + 1..=self.footer_count {
+            self.types.remove(&format!("/word/footer{i}.xml"));
+        }
+        self.header_count = self.header_count.min(headers);
+        self.footer_count = self.footer_count.min(footers);
+    }
+
     pub fn add_footnotes(mut self) -> Self {
         self.types.insert(
             "/word/footnotes.xml".to_owned(),
diff --git a/docx-core/src/documents/document.rs b/docx-core/src/documents/document.rs
index 3e66aa4..b074a7a 100644
--- a/docx-core/src/documents/document.rs
+++ b/docx-core/src/documents/document.rs
@@ -269,6 +269,16 @@ impl Document {
         )
     }
 
+    /// Iterates mutable section properties in the order of [`Self::headers`].
+    pub(crate) fn section_properties_mut(&mut self) -> impl Iterator<Item = &mut SectionProperty> {
+        std::iter::once(&mut self.section_property).chain(self.children.iter_mut().filter_map(
+            |child| match child {
+                DocumentChild::Section(section) => Some(&mut section.property),
+                _ => None,
+            },
+        ))
+    }
+
     /// Iterates mutable headers in the same order as [`Self::headers`].
     pub(crate) fn headers_mut(&mut self) -> impl Iterator<Item = &mut (String, Header)> {
         self.section_property.headers_mut().chain(
diff --git a/docx-core/src/documents/elements/section_property.rs b/docx-core/src/documents/elements/section_property.rs
index 74b8f9b..d00b1bd 100644
--- a/docx-core/src/documents/elements/section_property.rs
+++ b/docx-core/src/documents/elements/section_property.rs
@@ -2,7 +2,7 @@ use super::*;
 use crate::documents::BuildXML;
 use crate::types::*;
 use crate::xml_builder::*;
-use crate::{Footer, Header};
+use crate::{create_footer_rid, create_header_rid, Footer, Header};
 use std::io::Write;
 
 use serde::Serialize;
@@ -181,6 +181,40 @@ impl SectionProperty {
         .filter_map(Option::as_mut)
     }
 
+    /// Numbers the headers in the order they are written and points their references to them.
+    pub(crate) fn bind_headers(&mut self, count: &mut usize) {
+        for (part, reference) in [
+            (&mut self.header, &mut self.header_reference),
+            (&mut self.first_header, &mut self.first_header_reference),
+            (&mut self.even_header, &mut self.even_header_reference),
+        ] {
+            if let Some((id, _)) = part {
+                *count += 1;
+                *id = create_header_rid(*count);
+                if let Some(reference) = reference {
+                    reference.id.clone_from(id);
+                }
+            }
+        }
+    }
+
+    /// Numbers the footers in the order they are written and points their references to them.
+    pub(crate) fn bind_footers(&mut self, count: &mut usize) {
+        for (part, reference) in [
+            (&mut self.footer, &mut self.footer_reference),
+            (&mut self.first_footer, &mut self.first_footer_reference),
+            (&mut self.even_footer, &mut self.even_footer_reference),
+        ] {
+            if let Some((id, _)) = part {
+                *count += 1;
+                *id = create_footer_rid(*count);
+                if let Some(reference) = reference {
+                    reference.id.clone_from(id);
+                }
+            }
+        }
+    }
+
     pub fn page_num_type(mut self, h: PageNumType) -> Self {
         self.page_num_type = Some(h);
         self
diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index 18f8687..366a7fc 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -847,6 +847,7 @@ impl Docx {
     /// streaming package output.
     fn prepare_package(&mut self) -> PackageMetadata {
         let has_toc = self.prepare_for_build();
+        self.bind_headers_and_footers();
 
         let mut media = MediaRegistry::default();
         let document_part = collect_document_part(&mut self.document, &mut media);
@@ -899,6 +900,22 @@ impl Docx {
         }
     }
 
+    /// Binds header and footer references to the parts in the order those are written.
+    ///
+    /// Sections and document-wide headers and footers may have been added in
+    /// any order, and one which was set twice leaves a gap behind.
+    fn bind_headers_and_footers(&mut self) {
+        let (mut headers, mut footers) = (0, 0);
+        for property in self.document.section_properties_mut() {
+            property.bind_headers(&mut headers);
+            property.bind_footers(&mut footers);
+        }
+        self.document_rels.header_count = headers;
+        self.document_rels.footer_count = footers;
+        self.content_type
+            .truncate_headers_and_footers(headers, footers);
+    }
+
     /// Replaces empty and duplicate paragraph IDs with unique values.
     fn refresh_duplicate_para_ids(&mut self) {
         let mut counts: HashMap<&str, usize> = HashMap::new();
-- 
2.43.0


From d9528cd4d5d5c68eb1ca07478e5d6fd0b9a32b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:59:41 +0000
Subject: [PATCH 017/105] fix: register the hyperlinks of headers and footers
 as relationships of their part

---
 docx-core/src/documents/footer_rels.rs     | 13 +++++
 docx-core/src/documents/header_rels.rs     | 13 +++++
 docx-core/src/documents/image_collector.rs | 16 ++++++-
 docx-core/src/documents/mod.rs             | 56 +++++++++-------------
 4 files changed, 63 insertions(+), 35 deletions(-)

diff --git a/docx-core/src/documents/footer_rels.rs b/docx-core/src/documents/footer_rels.rs
index 27a0b51..6a37a6c 100644
--- a/docx-core/src/documents/footer_rels.rs
+++ b/docx-core/src/documents/footer_rels.rs
@@ -7,6 +7,7 @@ use std::io::Write;
 #[serde(rename_all = "camelCase")]
 pub struct FooterRels {
     pub images: Vec<(String, String)>,
+    pub hyperlinks: Vec<(String, String)>,
 }
 
 impl FooterRels {
@@ -19,6 +20,10 @@ impl FooterRels {
         self
     }
 
+    pub(crate) fn set_hyperlinks(&mut self, hyperlinks: Vec<(String, String)>) {
+        self.hyperlinks = hyperlinks;
+    }
+
     pub(crate) fn set_images(&mut self, images: Vec<ImageIdAndPath>) {
         self.images = images;
     }
@@ -39,6 +44,14 @@ impl BuildXML for FooterRels {
                     path,
                 )
             })?
+            .apply_each(&self.hyperlinks, |(id, path), b| {
+                b.relationship_with_mode(
+                    id,
+                    "http://schemas.openxmlformats.org/officeDocument/2006/relationships/hyperlink",
+                    path,
+                    "External",
+                )
+            })?
             .close()?
             .into_inner()
     }
diff --git a/docx-core/src/documents/header_rels.rs b/docx-core/src/documents/header_rels.rs
index f718643..1ed3fc4 100644
--- a/docx-core/src/documents/header_rels.rs
+++ b/docx-core/src/documents/header_rels.rs
@@ -7,6 +7,7 @@ use std::io::Write;
 #[serde(rename_all = "camelCase")]
 pub struct HeaderRels {
     pub images: Vec<(String, String)>,
+    pub hyperlinks: Vec<(String, String)>,
 }
 
 impl HeaderRels {
@@ -19,6 +20,10 @@ impl HeaderRels {
         self
     }
 
+    pub(crate) fn set_hyperlinks(&mut self, hyperlinks: Vec<(String, String)>) {
+        self.hyperlinks = hyperlinks;
+    }
+
     pub(crate) fn set_images(&mut self, images: Vec<ImageIdAndPath>) {
         self.images = images;
     }
@@ -39,6 +44,14 @@ impl BuildXML for HeaderRels {
                     path,
                 )
             })?
+            .apply_each(&self.hyperlinks, |(id, path), b| {
+                b.relationship_with_mode(
+                    id,
+                    "http://schemas.openxmlformats.org/officeDocument/2006/relationships/hyperlink",
+                    path,
+                    "External",
+                )
+            })?
             .close()?
             .into_inner()
     }
diff --git a/docx-core/src/documents/image_collector.rs b/docx-core/src/documents/image_collector.rs
index a57ca5e..a47e7d6 100644
--- a/docx-core/src/documents/image_collector.rs
+++ b/docx-core/src/documents/image_collector.rs
@@ -8,7 +8,8 @@ use std::collections::{HashMap, HashSet};
 
 use super::document_tree::{visit_document, visit_footer, visit_header, DocumentTreeVisitor};
 use crate::{
-    Document, Footer, Footnote, FootnoteReference, Header, ImageIdAndBuf, ImageIdAndPath, Pic,
+    Document, Footer, Footnote, FootnoteReference, Header, Hyperlink, HyperlinkData, ImageIdAndBuf,
+    ImageIdAndPath, Pic,
 };
 
 /// Stores physical media once for the entire OPC package.
@@ -106,6 +107,8 @@ impl MediaRegistry {
 pub(crate) struct CollectedPart {
     pub(crate) relationships: Vec<ImageIdAndPath>,
     pub(crate) footnotes: Vec<Footnote>,
+    /// External hyperlinks as relationship id and target.
+    pub(crate) hyperlinks: Vec<(String, String)>,
 }
 
 /// Collects media relationships and footnotes while visiting one XML part.
@@ -123,6 +126,7 @@ struct PackagePartCollector<'a> {
     /// Maps media to the owning relationship entry, avoiding another owned ID.
     relationships_by_media: HashMap<usize, usize>,
     footnotes: Vec<Footnote>,
+    hyperlinks: Vec<(String, String)>,
 }
 
 impl<'a> PackagePartCollector<'a> {
@@ -135,6 +139,7 @@ impl<'a> PackagePartCollector<'a> {
             next_relationship_suffix_by_id: HashMap::new(),
             relationships_by_media: HashMap::new(),
             footnotes: Vec::new(),
+            hyperlinks: Vec::new(),
         }
     }
 
@@ -142,6 +147,7 @@ impl<'a> PackagePartCollector<'a> {
         CollectedPart {
             relationships: self.relationships,
             footnotes: self.footnotes,
+            hyperlinks: self.hyperlinks,
         }
     }
 
@@ -209,6 +215,14 @@ impl DocumentTreeVisitor for PackagePartCollector<'_> {
     fn visit_footnote_reference(&mut self, reference: &FootnoteReference) {
         self.footnotes.push(reference.into());
     }
+
+    fn visit_hyperlink(&mut self, link: &Hyperlink) {
+        if let HyperlinkData::External { rid, path } = &link.link {
+            if self.relationship_ids.insert(rid.clone()) {
+                self.hyperlinks.push((rid.clone(), path.clone()));
+            }
+        }
+    }
 }
 
 /// Collects package data from the complete main document tree in one pass.
diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index 366a7fc..9a6ee41 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -851,28 +851,10 @@ impl Docx {
 
         let mut media = MediaRegistry::default();
         let document_part = collect_document_part(&mut self.document, &mut media);
-        let header_images = self.collect_header_images(&mut media);
-        let footer_images = self.collect_footer_images(&mut media);
+        let header_rels = self.collect_header_rels(&mut media);
+        let footer_rels = self.collect_footer_rels(&mut media);
         self.document_rels.images = document_part.relationships;
 
-        let header_rels = header_images
-            .into_iter()
-            .map(|(index, images)| {
-                let mut rels = HeaderRels::new();
-                rels.set_images(images);
-                (index, rels)
-            })
-            .collect();
-
-        let footer_rels = footer_images
-            .into_iter()
-            .map(|(index, images)| {
-                let mut rels = FooterRels::new();
-                rels.set_images(images);
-                (index, rels)
-            })
-            .collect();
-
         if !document_part.footnotes.is_empty() {
             self.footnotes.add(document_part.footnotes);
             self.content_type = std::mem::take(&mut self.content_type).add_footnotes();
@@ -1000,40 +982,46 @@ impl Docx {
         }
     }
 
-    /// Collects image relationships for every header in package order.
+    /// Collects image and hyperlink relationships for every header in package order.
     ///
     /// Each entry deliberately uses a separate relationship scope while all
     /// entries share the package-wide media registry. Relationship creation
     /// order matches the order used to render and write header parts.
-    fn collect_header_images(
-        &mut self,
-        media: &mut MediaRegistry,
-    ) -> Vec<(usize, Vec<ImageIdAndPath>)> {
+    fn collect_header_rels(&mut self, media: &mut MediaRegistry) -> Vec<(usize, HeaderRels)> {
         self.document
             .headers_mut()
             .enumerate()
             .filter_map(|(index, (_, header))| {
-                let relationships = collect_header_part(header, media).relationships;
-                (!relationships.is_empty()).then_some((index, relationships))
+                let part = collect_header_part(header, media);
+                if part.relationships.is_empty() && part.hyperlinks.is_empty() {
+                    return None;
+                }
+                let mut rels = HeaderRels::new();
+                rels.set_images(part.relationships);
+                rels.set_hyperlinks(part.hyperlinks);
+                Some((index, rels))
             })
             .collect()
     }
 
-    /// Collects image relationships for every footer in package order.
+    /// Collects image and hyperlink relationships for every footer in package order.
     ///
     /// Relationship creation order matches the package writer. A shared
     /// registry prevents repeated footer and body images from being emitted as
     /// separate physical media files.
-    fn collect_footer_images(
-        &mut self,
-        media: &mut MediaRegistry,
-    ) -> Vec<(usize, Vec<ImageIdAndPath>)> {
+    fn collect_footer_rels(&mut self, media: &mut MediaRegistry) -> Vec<(usize, FooterRels)> {
         self.document
             .footers_mut()
             .enumerate()
             .filter_map(|(index, (_, footer))| {
-                let relationships = collect_footer_part(footer, media).relationships;
-                (!relationships.is_empty()).then_some((index, relationships))
+                let part = collect_footer_part(footer, media);
+                if part.relationships.is_empty() && part.hyperlinks.is_empty() {
+                    return None;
+                }
+                let mut rels = FooterRels::new();
+                rels.set_images(part.relationships);
+                rels.set_hyperlinks(part.hyperlinks);
+                Some((index, rels))
             })
             .collect()
     }
-- 
2.43.0


From 25d6cb841bb27fa576db4bdad4335e8cb38b0f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:01:49 +0000
Subject: [PATCH 018/105] fix: relate the numbering part however a numbered
 paragraph was added

---
 docx-core/src/documents/mod.rs | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index 9a6ee41..5c0fa96 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -85,7 +85,7 @@ pub use xml_docx::*;
 use base64::Engine;
 use serde::{ser, Serialize};
 
-use self::document_tree::{visit_document, DocumentTreeVisitor};
+use self::document_tree::{visit_document, visit_footer, visit_header, DocumentTreeVisitor};
 use self::image_collector::{
     collect_document_footnotes, collect_document_part, collect_footer_part, collect_header_part,
     MediaRegistry,
@@ -924,6 +924,25 @@ impl Docx {
         let mut collector = DependencyCollector::default();
         visit_document(&mut self.document, &mut collector);
 
+        // However a numbered paragraph got into the document, it needs numbering.xml.
+        let mut parts = DependencyCollector::default();
+        for (_, header) in self.document.headers_mut() {
+            visit_header(header, &mut parts);
+        }
+        for (_, footer) in self.document.footers_mut() {
+            visit_footer(footer, &mut parts);
+        }
+        if collector.has_numbering
+            || parts.has_numbering
+            || self
+                .styles
+                .styles
+                .iter()
+                .any(|style| style.paragraph_property.numbering_property.is_some())
+        {
+            self.document_rels.has_numberings = true;
+        }
+
         // A previous call may already have registered some of the hyperlinks.
         self.document_rels
             .hyperlinks
@@ -1046,9 +1065,16 @@ struct DependencyCollector {
     comment_ids: HashSet<usize>,
     hyperlinks: Vec<(String, String)>,
     hyperlink_ids: HashSet<String>,
+    has_numbering: bool,
 }
 
 impl DocumentTreeVisitor for DependencyCollector {
+    fn visit_paragraph(&mut self, paragraph: &mut Paragraph) {
+        if paragraph.property.numbering_property.is_some() {
+            self.has_numbering = true;
+        }
+    }
+
     fn visit_hyperlink(&mut self, link: &Hyperlink) {
         if let HyperlinkData::External { rid, path } = &link.link {
             if self.hyperlink_ids.insert(rid.clone()) {
-- 
2.43.0


From 350754c6431edd109233f738f9f8a1f54497adc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:01:49 +0000
Subject: [PATCH 019/105] fix: turn on even and odd headers for sections that
 have even pages of their own

---
 docx-core/src/documents/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index 5c0fa96..f05a2af 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -380,6 +380,11 @@ impl Docx {
         self
     }
 
+    /// Even pages differ from odd ones only when the settings say so.
+    fn distinguish_even_pages(&mut self) {
+        self.settings = std::mem::take(&mut self.settings).even_and_odd_headers();
+    }
+
     /// Attaches one header without rebuilding the surrounding section.
     ///
     /// Mutating the property in place preserves pending first/even headers and
@@ -449,6 +454,7 @@ impl Docx {
 
         if let Some(header) = new_section.temp_even_header.take() {
             self.attach_section_header(&mut new_section, header, SectionProperty::even_header);
+            self.distinguish_even_pages();
         }
 
         if let Some(footer) = new_section.temp_footer.take() {
@@ -461,6 +467,7 @@ impl Docx {
 
         if let Some(footer) = new_section.temp_even_footer.take() {
             self.attach_section_footer(&mut new_section, footer, SectionProperty::even_footer);
+            self.distinguish_even_pages();
         }
 
         self.document = self.document.add_section(new_section);
-- 
2.43.0


From 92dc004068c1480b3846024bb7ad5cc1339c2680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:04:47 +0000
Subject: [PATCH 020/105] fix: keep the page orientation when the page size is
 set

---
 docx-core/src/documents/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index f05a2af..d0a62a4 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -641,7 +641,8 @@ impl Docx {
     }
 
     pub fn page_size(mut self, w: u32, h: u32) -> Self {
-        self.document = self.document.page_size(PageSize::new().size(w, h));
+        let size = self.document.section_property.page_size.clone().size(w, h);
+        self.document = self.document.page_size(size);
         self
     }
 
-- 
2.43.0


From 383149660221400cac769d4d8e2da4d5f4b0607c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:05:15 +0000
Subject: [PATCH 021/105] fix: do not write the default style and numbering
 next to ones of the same id

---
 docx-core/src/documents/numberings.rs | 8 ++++++--
 docx-core/src/documents/styles.rs     | 4 +++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/docx-core/src/documents/numberings.rs b/docx-core/src/documents/numberings.rs
index 0b42420..2b94cf4 100644
--- a/docx-core/src/documents/numberings.rs
+++ b/docx-core/src/documents/numberings.rs
@@ -37,9 +37,13 @@ impl BuildXML for Numberings {
         XMLBuilder::from(stream)
             .declaration(Some(true))?
             .open_numbering()?
-            .add_child(&create_default_numbering())?
+            .apply_if(self.abstract_nums.iter().all(|n| n.id != 1), |b| {
+                b.add_child(&create_default_numbering())
+            })?
             .add_children(&self.abstract_nums)?
-            .add_child(&Numbering::new(1, 1))?
+            .apply_if(self.numberings.iter().all(|n| n.id != 1), |b| {
+                b.add_child(&Numbering::new(1, 1))
+            })?
             .add_children(&self.numberings)?
             .close()?
             .into_inner()
diff --git a/docx-core/src/documents/styles.rs b/docx-core/src/documents/styles.rs
index 2eaa748..6eda3c7 100644
--- a/docx-core/src/documents/styles.rs
+++ b/docx-core/src/documents/styles.rs
@@ -85,7 +85,9 @@ impl BuildXML for Styles {
         XMLBuilder::from(stream)
             .open_styles()?
             .add_child(&self.doc_defaults)?
-            .add_child(&normal)?
+            .apply_if(self.find_style_by_id("Normal").is_none(), |b| {
+                b.add_child(&normal)
+            })?
             .add_children(&self.styles)?
             .close()?
             .into_inner()
-- 
2.43.0


From 06a4a87624fa007e8b3916f70a5374defe873787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:08:37 +0000
Subject: [PATCH 022/105] fix: write the style links of abstract numberings

---
 docx-core/src/documents/elements/abstract_numbering.rs | 7 ++++++-
 docx-core/src/xml_builder/elements.rs                  | 2 ++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/docx-core/src/documents/elements/abstract_numbering.rs b/docx-core/src/documents/elements/abstract_numbering.rs
index 9794f9c..87b5906 100644
--- a/docx-core/src/documents/elements/abstract_numbering.rs
+++ b/docx-core/src/documents/elements/abstract_numbering.rs
@@ -54,7 +54,12 @@ impl BuildXML for AbstractNumbering {
             builder = builder.multi_level_type(multi_level_type)?;
         }
 
-        builder.add_children(&self.levels)?.close()?.into_inner()
+        builder
+            .apply_opt(self.style_link.as_ref(), |v, b| b.style_link(v))?
+            .apply_opt(self.num_style_link.as_ref(), |v, b| b.num_style_link(v))?
+            .add_children(&self.levels)?
+            .close()?
+            .into_inner()
     }
 }
 
diff --git a/docx-core/src/xml_builder/elements.rs b/docx-core/src/xml_builder/elements.rs
index 85f6248..f356310 100644
--- a/docx-core/src/xml_builder/elements.rs
+++ b/docx-core/src/xml_builder/elements.rs
@@ -493,6 +493,8 @@ impl<W: Write> XMLBuilder<W> {
     );
 
     closed_with_str!(multi_level_type, "w:multiLevelType");
+    closed_with_str!(style_link, "w:styleLink");
+    closed_with_str!(num_style_link, "w:numStyleLink");
 
     open!(open_abstract_num, "w:abstractNum", "w:abstractNumId");
     open!(open_level, "w:lvl", "w:ilvl");
-- 
2.43.0


From a16b5fe9e4ddb40b0f3865cef8d89e8b590c4c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:08:58 +0000
Subject: [PATCH 023/105] fix: spell the outside margin as in the schema

---
 docx-core/src/types/relative_from_type.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/docx-core/src/types/relative_from_type.rs b/docx-core/src/types/relative_from_type.rs
index e877993..85e73b8 100644
--- a/docx-core/src/types/relative_from_type.rs
+++ b/docx-core/src/types/relative_from_type.rs
@@ -53,7 +53,7 @@ impl fmt::Display for RelativeFromHType {
             RelativeFromHType::InsideMargin => write!(f, "insideMargin"),
             RelativeFromHType::LeftMargin => write!(f, "leftMargin"),
             RelativeFromHType::Margin => write!(f, "margin"),
-            RelativeFromHType::OutsizeMargin => write!(f, "outsizeMargin"),
+            RelativeFromHType::OutsizeMargin => write!(f, "outsideMargin"),
             RelativeFromHType::Page => write!(f, "page"),
             RelativeFromHType::RightMargin => write!(f, "rightMargin"),
         }
@@ -69,7 +69,7 @@ impl FromStr for RelativeFromHType {
             "insideMargin" => Ok(RelativeFromHType::InsideMargin),
             "leftMargin" => Ok(RelativeFromHType::LeftMargin),
             "margin" => Ok(RelativeFromHType::Margin),
-            "outsizeMargin" => Ok(RelativeFromHType::OutsizeMargin),
+            "outsideMargin" => Ok(RelativeFromHType::OutsizeMargin),
             "page" => Ok(RelativeFromHType::Page),
             "rightMargin" => Ok(RelativeFromHType::RightMargin),
             _ => Ok(RelativeFromHType::Margin),
@@ -117,7 +117,7 @@ impl FromStr for RelativeFromVType {
             "insideMargin" => Ok(RelativeFromVType::InsideMargin),
             "line" => Ok(RelativeFromVType::Line),
             "margin" => Ok(RelativeFromVType::Margin),
-            "outsizeMargin" => Ok(RelativeFromVType::OutsizeMargin),
+            "outsideMargin" => Ok(RelativeFromVType::OutsizeMargin),
             "page" => Ok(RelativeFromVType::Page),
             "paragraph" => Ok(RelativeFromVType::Paragraph),
             "topMargin" => Ok(RelativeFromVType::TopMargin),
-- 
2.43.0


From e1fcd3b55b7ccd1451a4afbab7775b5a13127d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:12:10 +0000
Subject: [PATCH 024/105] fix: keep custom XML items well-formed and their
 namespaces declared

---
 docx-core/src/xml_json/mod.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/docx-core/src/xml_json/mod.rs b/docx-core/src/xml_json/mod.rs
index c7558e8..79fe69a 100644
--- a/docx-core/src/xml_json/mod.rs
+++ b/docx-core/src/xml_json/mod.rs
@@ -13,6 +13,7 @@ use std::io::prelude::*;
 use std::io::Cursor;
 use std::str::FromStr;
 
+use crate::escape::escape;
 use crate::reader::{EventReader, Namespace, OwnedAttribute, OwnedName, XmlEvent};
 
 /// An XML Document
@@ -59,13 +60,13 @@ impl XmlData {
         write!(f, "<{}", self.name)?;
 
         for (key, val) in self.attributes.iter() {
-            write!(f, r#" {key}="{val}""#)?;
+            write!(f, r#" {key}="{}""#, escape(val))?;
         }
 
         f.write_char('>')?;
 
         if let Some(ref data) = self.data {
-            write!(f, "{data}")?
+            write!(f, "{}", escape(data))?
         }
 
         for child in self.children.iter() {
@@ -156,14 +157,14 @@ fn parse(
                     children: Vec::new(),
                 };
 
-                let (inner, rest) = parse(data, Some(inner), Vec::new(), trim, namespace.clone())?;
+                let (inner, rest) = parse(data, Some(inner), Vec::new(), trim, namespace)?;
 
                 if let Some(mut crnt) = current {
                     crnt.children.extend(inner);
-                    parse(rest, Some(crnt), current_vec, trim, namespace)
+                    parse(rest, Some(crnt), current_vec, trim, current_namespace)
                 } else {
                     current_vec.extend(inner);
-                    parse(rest, None, current_vec, trim, namespace)
+                    parse(rest, None, current_vec, trim, current_namespace)
                 }
             }
             XmlEvent::Characters(chr) => {
@@ -212,7 +213,10 @@ impl XmlDocument {
         R: Read,
     {
         let parser = EventReader::new(source);
-        let mut events: Vec<XmlEvent> = parser.into_iter().map(|x| x.unwrap()).collect();
+        let mut events: Vec<XmlEvent> = parser
+            .into_iter()
+            .collect::<Result<_, _>>()
+            .map_err(|e| ParseXmlError(e.to_string()))?;
         events.reverse();
 
         parse(events, None, Vec::new(), trim, Namespace::empty())
-- 
2.43.0


From 4baa6072dd67419c2d8eb8709bd54d97ada08667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:19:47 +0000
Subject: [PATCH 025/105] fix: escape the end of a character data section and
 references to characters XML does not allow

---
 docx-core/src/xml/writer.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/docx-core/src/xml/writer.rs b/docx-core/src/xml/writer.rs
index d480c27..fcad194 100644
--- a/docx-core/src/xml/writer.rs
+++ b/docx-core/src/xml/writer.rs
@@ -283,6 +283,7 @@ fn escape_stray_markup(value: &str, attribute: bool) -> Cow<'_, str> {
     let needs_work = |ch: char| match ch {
         '&' | '<' => true,
         '"' | '\t' | '\n' => attribute,
+        '>' => !attribute,
         '\u{0}'..='\u{1f}' => !matches!(ch, '\t' | '\n'),
         '\u{fffe}' | '\u{ffff}' => true,
         _ => false,
@@ -296,6 +297,7 @@ fn escape_stray_markup(value: &str, attribute: bool) -> Cow<'_, str> {
         match ch {
             '&' if !starts_with_reference(&value[index..]) => escaped.push_str("&amp;"),
             '<' => escaped.push_str("&lt;"),
+            '>' if !attribute && value[..index].ends_with("]]") => escaped.push_str("&gt;"),
             '"' if attribute => escaped.push_str("&quot;"),
             '\t' if attribute => escaped.push_str("&#x9;"),
             '\n' if attribute => escaped.push_str("&#xA;"),
@@ -317,7 +319,14 @@ fn starts_with_reference(text: &str) -> bool {
                 Some(hex) => (hex, 16),
                 None => (number, 10),
             };
-            !digits.is_empty() && digits.chars().all(|ch| ch.is_digit(radix))
+            digits.chars().all(|ch| ch.is_digit(radix))
+                && u32::from_str_radix(digits, radix)
+                    .ok()
+                    .and_then(char::from_u32)
+                    .is_some_and(|ch| {
+                        matches!(ch, '\t' | '\n' | '\r')
+                            || (ch >= ' ' && !matches!(ch, '\u{fffe}' | '\u{ffff}'))
+                    })
         }
         None => matches!(name, "amp" | "lt" | "gt" | "quot" | "apos"),
     }
-- 
2.43.0


From cc8caeac6d5b085170e9bd1006a648c645a64463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:25:22 +0000
Subject: [PATCH 026/105] fix: relate the numbering part when only a tracked
 formatting change refers to it

---
 docx-core/src/documents/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index d0a62a4..c7e681a 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -1078,7 +1078,12 @@ struct DependencyCollector {
 
 impl DocumentTreeVisitor for DependencyCollector {
     fn visit_paragraph(&mut self, paragraph: &mut Paragraph) {
-        if paragraph.property.numbering_property.is_some() {
+        let previous = &paragraph.property.paragraph_property_change;
+        if paragraph.property.numbering_property.is_some()
+            || previous
+                .as_ref()
+                .is_some_and(|change| change.property.numbering_property.is_some())
+        {
             self.has_numbering = true;
         }
     }
-- 
2.43.0


From 280b0c3447e0b7c6b3072620ad9889304388eb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:17:20 +0000
Subject: [PATCH 027/105] fix: write the headers and footers of sections ended
 by a paragraph

---
 docx-core/src/documents/content_types.rs | 10 ++-
 docx-core/src/documents/document.rs      | 99 +++++++++++++-----------
 docx-core/src/documents/mod.rs           |  3 +-
 3 files changed, 62 insertions(+), 50 deletions(-)

diff --git a/docx-core/src/documents/content_types.rs b/docx-core/src/documents/content_types.rs
index eef794f..68c13a0 100644
--- a/docx-core/src/documents/content_types.rs
+++ b/docx-core/src/documents/content_types.rs
@@ -131,8 +131,8 @@ impl ContentTypes {
         self
     }
 
-    /// Forgets headers and footers which were replaced before the package was built.
-    pub(crate) fn truncate_headers_and_footers(&mut self, headers: usize, footers: usize) {
+    /// Declares as many headers and footers as the package has when it is built.
+    pub(crate) fn set_headers_and_footers(&mut self, headers: usize, footers: usize) {
         for i in headers + 1..=self.header_count {
             self.types.remove(&format!("/word/header{i}.xml"));
         }
@@ -141,6 +141,12 @@ impl ContentTypes {
         }
         self.header_count = self.header_count.min(headers);
         self.footer_count = self.footer_count.min(footers);
+        while self.header_count < headers {
+            *self = std::mem::take(self).add_header();
+        }
+        while self.footer_count < footers {
+            *self = std::mem::take(self).add_footer();
+        }
     }
 
     pub fn add_footnotes(mut self) -> Self {
diff --git a/docx-core/src/documents/document.rs b/docx-core/src/documents/document.rs
index b074a7a..1d97622 100644
--- a/docx-core/src/documents/document.rs
+++ b/docx-core/src/documents/document.rs
@@ -252,70 +252,77 @@ impl Document {
         self
     }
 
-    /// Iterates headers in relationship creation order.
+    /// Iterates section properties in relationship creation order.
     ///
     /// Relationship IDs are assigned to the document property first and then
-    /// to section children in insertion order. Preserving that order avoids a
-    /// sort and keeps double-digit IDs aligned with numbered package parts.
-    pub(crate) fn headers(&self) -> impl Iterator<Item = &(String, Header)> {
-        self.section_property.headers().chain(
-            self.children
-                .iter()
-                .filter_map(|child| match child {
-                    DocumentChild::Section(section) => Some(section),
-                    _ => None,
-                })
-                .flat_map(|section| section.property.headers()),
-        )
+    /// to sections, and paragraphs that end a section, in insertion order.
+    /// Preserving that order avoids a sort and keeps double-digit IDs aligned
+    /// with numbered package parts.
+    fn section_properties(&self) -> impl Iterator<Item = &SectionProperty> {
+        let mut properties = vec![&self.section_property];
+        for child in &self.children {
+            match child {
+                DocumentChild::Paragraph(paragraph) => {
+                    properties.extend(&paragraph.property.section_property)
+                }
+                DocumentChild::Section(section) => {
+                    for child in &section.children {
+                        if let SectionChild::Paragraph(paragraph) = child {
+                            properties.extend(&paragraph.property.section_property);
+                        }
+                    }
+                    properties.push(&section.property);
+                }
+                _ => {}
+            }
+        }
+        properties.into_iter()
     }
 
     /// Iterates mutable section properties in the order of [`Self::headers`].
     pub(crate) fn section_properties_mut(&mut self) -> impl Iterator<Item = &mut SectionProperty> {
-        std::iter::once(&mut self.section_property).chain(self.children.iter_mut().filter_map(
-            |child| match child {
-                DocumentChild::Section(section) => Some(&mut section.property),
-                _ => None,
-            },
-        ))
+        let mut properties = vec![&mut self.section_property];
+        for child in &mut self.children {
+            match child {
+                DocumentChild::Paragraph(paragraph) => {
+                    properties.extend(&mut paragraph.property.section_property)
+                }
+                DocumentChild::Section(section) => {
+                    for child in &mut section.children {
+                        if let SectionChild::Paragraph(paragraph) = child {
+                            properties.extend(&mut paragraph.property.section_property);
+                        }
+                    }
+                    properties.push(&mut section.property);
+                }
+                _ => {}
+            }
+        }
+        properties.into_iter()
+    }
+
+    /// Iterates headers in relationship creation order.
+    pub(crate) fn headers(&self) -> impl Iterator<Item = &(String, Header)> {
+        self.section_properties()
+            .flat_map(|property| property.headers())
     }
 
     /// Iterates mutable headers in the same order as [`Self::headers`].
     pub(crate) fn headers_mut(&mut self) -> impl Iterator<Item = &mut (String, Header)> {
-        self.section_property.headers_mut().chain(
-            self.children
-                .iter_mut()
-                .filter_map(|child| match child {
-                    DocumentChild::Section(section) => Some(section),
-                    _ => None,
-                })
-                .flat_map(|section| section.property.headers_mut()),
-        )
+        self.section_properties_mut()
+            .flat_map(|property| property.headers_mut())
     }
 
     /// Iterates footers in relationship creation order.
     pub(crate) fn footers(&self) -> impl Iterator<Item = &(String, Footer)> {
-        self.section_property.footers().chain(
-            self.children
-                .iter()
-                .filter_map(|child| match child {
-                    DocumentChild::Section(section) => Some(section),
-                    _ => None,
-                })
-                .flat_map(|section| section.property.footers()),
-        )
+        self.section_properties()
+            .flat_map(|property| property.footers())
     }
 
     /// Iterates mutable footers in the same order as [`Self::footers`].
     pub(crate) fn footers_mut(&mut self) -> impl Iterator<Item = &mut (String, Footer)> {
-        self.section_property.footers_mut().chain(
-            self.children
-                .iter_mut()
-                .filter_map(|child| match child {
-                    DocumentChild::Section(section) => Some(section),
-                    _ => None,
-                })
-                .flat_map(|section| section.property.footers_mut()),
-        )
+        self.section_properties_mut()
+            .flat_map(|property| property.footers_mut())
     }
 }
 
diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index c7e681a..20a6c80 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -902,8 +902,7 @@ impl Docx {
         }
         self.document_rels.header_count = headers;
         self.document_rels.footer_count = footers;
-        self.content_type
-            .truncate_headers_and_footers(headers, footers);
+        self.content_type.set_headers_and_footers(headers, footers);
     }
 
     /// Replaces empty and duplicate paragraph IDs with unique values.
-- 
2.43.0


From cd8e7bec4ac3853800903cf393dd513106becf04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:44:10 +0000
Subject: [PATCH 028/105] fix: do not read namespace declarations as attributes
 of the element they stand on

---
 docx-core/src/reader/xml_parser.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/docx-core/src/reader/xml_parser.rs b/docx-core/src/reader/xml_parser.rs
index f6d2336..b4b8957 100644
--- a/docx-core/src/reader/xml_parser.rs
+++ b/docx-core/src/reader/xml_parser.rs
@@ -86,7 +86,14 @@ impl<R: Read> EventReader<R> {
             // There is nothing left to read, so whoever is still waiting for an end tag never gets it.
             return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
         }
-        let event = self.read_next();
+        let mut event = self.read_next();
+        if let Ok(XmlEvent::StartElement { attributes, .. }) = &mut event {
+            // A namespace declaration says nothing about the element it stands on
+            attributes.retain(|a| match &a.name.prefix {
+                Some(prefix) => prefix != "xmlns",
+                None => a.name.local_name != "xmlns",
+            });
+        }
         if matches!(event, Ok(XmlEvent::EndDocument) | Err(_)) {
             self.finished = true;
         }
-- 
2.43.0


From 1d293413cf79cc321d91386baa97d4a90c58d56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:44:10 +0000
Subject: [PATCH 029/105] fix: read text interrupted by comments or character
 data sections as one piece

---
 docx-core/src/reader/xml_parser.rs | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/docx-core/src/reader/xml_parser.rs b/docx-core/src/reader/xml_parser.rs
index b4b8957..1fccbc4 100644
--- a/docx-core/src/reader/xml_parser.rs
+++ b/docx-core/src/reader/xml_parser.rs
@@ -128,15 +128,15 @@ impl<R: Read> EventReader<R> {
                 }
                 Event::Text(text) => {
                     let text = decode_text(text)?;
-                    return self.read_text_event(text);
+                    return self.read_text_event(text, false);
                 }
                 Event::GeneralRef(reference) => {
                     let text = decode_reference(reference)?;
-                    return self.read_text_event(text);
+                    return self.read_text_event(text, false);
                 }
                 Event::CData(text) => {
                     let decoded = self.reader.decoder().decode(text.as_ref())?.into_owned();
-                    return Ok(XmlEvent::Characters(decoded));
+                    return self.read_text_event(decoded, true);
                 }
                 Event::Eof => {
                     self.finished = true;
@@ -149,7 +149,11 @@ impl<R: Read> EventReader<R> {
         }
     }
 
-    fn read_text_event(&mut self, mut text: String) -> Result<XmlEvent, quick_xml::Error> {
+    fn read_text_event(
+        &mut self,
+        mut text: String,
+        mut has_cdata: bool,
+    ) -> Result<XmlEvent, quick_xml::Error> {
         loop {
             self.buf.clear();
             match self.reader.read_event_into(&mut self.buf)? {
@@ -184,25 +188,25 @@ impl<R: Read> EventReader<R> {
                     self.pending.push_back(XmlEvent::EndElement { name });
                     break;
                 }
-                Event::CData(text) => {
-                    let decoded = self.reader.decoder().decode(text.as_ref())?.into_owned();
-                    self.pending.push_back(XmlEvent::Characters(decoded));
-                    break;
+                Event::CData(next_text) => {
+                    text.push_str(&self.reader.decoder().decode(next_text.as_ref())?);
+                    has_cdata = true;
                 }
                 Event::Eof => {
                     self.pending.push_back(XmlEvent::EndDocument);
                     break;
                 }
                 Event::Decl(_) | Event::PI(_) | Event::Comment(_) | Event::DocType(_) => {
-                    break;
+                    // The text continues after them
                 }
             }
         }
 
-        if text
-            .as_bytes()
-            .iter()
-            .all(|byte| matches!(byte, b' ' | b'\t' | b'\n' | b'\r'))
+        if !has_cdata
+            && text
+                .as_bytes()
+                .iter()
+                .all(|byte| matches!(byte, b' ' | b'\t' | b'\n' | b'\r'))
         {
             Ok(XmlEvent::Whitespace(text))
         } else {
-- 
2.43.0


From 81cae8c35e6dd233c52551f9b239fe4b5e47ec5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:50:11 +0000
Subject: [PATCH 030/105] fix: keep an explicit end of one strikethrough when
 the other one is read

---
 docx-core/src/reader/run_property.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/docx-core/src/reader/run_property.rs b/docx-core/src/reader/run_property.rs
index 1803a8e..6e13c9d 100644
--- a/docx-core/src/reader/run_property.rs
+++ b/docx-core/src/reader/run_property.rs
@@ -117,14 +117,14 @@ impl ElementReader for RunProperty {
                                 rp.strike = Some(Strike::new().disable());
                                 continue;
                             }
-                            rp = rp.strike();
+                            rp.strike = Some(Strike::new());
                         }
                         XMLElement::Dstrike => {
                             if !read_bool(&attributes) {
                                 rp.dstrike = Some(Dstrike::new().disable());
                                 continue;
                             }
-                            rp = rp.dstrike();
+                            rp.dstrike = Some(Dstrike::new());
                         }
                         XMLElement::VertAlign => {
                             if let Some(v) = read_val(&attributes) {
-- 
2.43.0


From 675e3fd4e9c1d5aff61e7389e6928cb0ff32b29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:50:38 +0000
Subject: [PATCH 031/105] fix: read content types by the names of their
 attributes

---
 docx-core/src/documents/content_types.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/docx-core/src/documents/content_types.rs b/docx-core/src/documents/content_types.rs
index 68c13a0..bd9831e 100644
--- a/docx-core/src/documents/content_types.rs
+++ b/docx-core/src/documents/content_types.rs
@@ -204,9 +204,17 @@ impl FromXML for ContentTypes {
             match e {
                 Ok(XmlEvent::StartElement { attributes, .. }) => {
                     if depth == 1 {
-                        let namespace = attributes[0].value.clone();
-                        let path = attributes[1].value.clone();
-                        s = s.add_content(path, namespace);
+                        let read = |name: &str| {
+                            attributes
+                                .iter()
+                                .find(|a| a.name.local_name == name)
+                                .map(|a| a.value.clone())
+                        };
+                        if let (Some(namespace), Some(path)) =
+                            (read("ContentType"), read("PartName"))
+                        {
+                            s = s.add_content(path, namespace);
+                        }
                     }
                     depth += 1;
                 }
-- 
2.43.0


From aaafec2a1b809afdb66f44f06aa3b73d626914ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:50:39 +0000
Subject: [PATCH 032/105] fix: report a width that is not a number instead of
 panicking

---
 docx-core/src/reader/attributes/width.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/docx-core/src/reader/attributes/width.rs b/docx-core/src/reader/attributes/width.rs
index 2a01be5..b33f87f 100644
--- a/docx-core/src/reader/attributes/width.rs
+++ b/docx-core/src/reader/attributes/width.rs
@@ -15,7 +15,7 @@ pub fn read_width(attrs: &[OwnedAttribute]) -> Result<(isize, WidthType), Reader
             width_type = WidthType::from_str(&a.value)?;
         } else if local_name == "w" {
             let v = a.value.replace('%', "");
-            w = f64::from_str(&v).expect("should read width.") as isize;
+            w = f64::from_str(&v)? as isize;
         }
     }
     Ok((w, width_type))
-- 
2.43.0


From 7e788b0881673a463a767b46f8aede467933e7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:50:39 +0000
Subject: [PATCH 033/105] fix: read fractions of points and lengths beyond the
 integer range

---
 docx-core/src/reader/attributes/val.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/docx-core/src/reader/attributes/val.rs b/docx-core/src/reader/attributes/val.rs
index 0f8dc21..8753661 100644
--- a/docx-core/src/reader/attributes/val.rs
+++ b/docx-core/src/reader/attributes/val.rs
@@ -16,8 +16,8 @@ pub fn read_val(attrs: &[OwnedAttribute]) -> Option<String> {
 
 pub fn value_to_dax(v: &str) -> Result<i32, ReaderError> {
     if v.ends_with("pt") {
-        let v = f64::from_str(&v.replace("pt", ""))? as i32;
-        Ok(v * 20)
+        let v = f64::from_str(&v.replace("pt", ""))?;
+        Ok((v * 20.0) as i32)
     } else {
         Ok(f64::from_str(v)? as i32)
     }
-- 
2.43.0


From 859f48154cee4314e774a2480a82964681bae03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:50:40 +0000
Subject: [PATCH 034/105] fix: report comments without an identifier instead of
 panicking

---
 docx-core/src/reader/comment.rs          | 2 +-
 docx-core/src/reader/comment_extended.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/docx-core/src/reader/comment.rs b/docx-core/src/reader/comment.rs
index e42ef42..df47f15 100644
--- a/docx-core/src/reader/comment.rs
+++ b/docx-core/src/reader/comment.rs
@@ -9,7 +9,7 @@ impl ElementReader for Comment {
         r: &mut EventReader<R>,
         attrs: &[OwnedAttribute],
     ) -> Result<Self, ReaderError> {
-        let id = usize::from_str(&read(attrs, "id").expect("should comment id exists."))?;
+        let id = usize::from_str(&read(attrs, "id").ok_or(ReaderError::XMLReadError)?)?;
         let mut comment = Comment::new(id);
         if let Some(author) = read(attrs, "author") {
             comment = comment.author(escape::escape(author.as_str()));
diff --git a/docx-core/src/reader/comment_extended.rs b/docx-core/src/reader/comment_extended.rs
index 02a2ceb..6c81721 100644
--- a/docx-core/src/reader/comment_extended.rs
+++ b/docx-core/src/reader/comment_extended.rs
@@ -7,7 +7,7 @@ impl ElementReader for CommentExtended {
         _r: &mut EventReader<R>,
         attrs: &[OwnedAttribute],
     ) -> Result<Self, ReaderError> {
-        let para_id = read(attrs, "paraId").expect("should comment id exists.");
+        let para_id = read(attrs, "paraId").ok_or(ReaderError::XMLReadError)?;
         let mut comment_extended = CommentExtended::new(para_id);
         if let Some(done) = read(attrs, "done") {
             if !is_false(&done) {
-- 
2.43.0


From 6ace59dc914db16b095af8b23b0462d77cc22878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:50:40 +0000
Subject: [PATCH 035/105] fix: report parts that cannot be unpacked instead of
 panicking

---
 docx-core/src/reader/read_zip.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/docx-core/src/reader/read_zip.rs b/docx-core/src/reader/read_zip.rs
index df37556..bca7847 100644
--- a/docx-core/src/reader/read_zip.rs
+++ b/docx-core/src/reader/read_zip.rs
@@ -17,7 +17,8 @@ pub fn read_zip(
     let mut xml = archive.by_name(path)?;
     let capacity = usize::try_from(xml.size()).unwrap_or(0);
     let mut data = Vec::with_capacity(capacity);
-    xml.read_to_end(&mut data).unwrap();
+    xml.read_to_end(&mut data)
+        .map_err(zip::result::ZipError::Io)?;
     // Remove BOM
     if data.starts_with(&[0xef, 0xbb, 0xbf]) {
         data.copy_within(3.., 0);
-- 
2.43.0


From 3cd10a0d7acbb52fdd677f1a719aaad4551278b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:53:04 +0000
Subject: [PATCH 036/105] fix: do not allocate whatever size an archive claims
 for a part

---
 docx-core/src/reader/read_zip.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/docx-core/src/reader/read_zip.rs b/docx-core/src/reader/read_zip.rs
index bca7847..d18a952 100644
--- a/docx-core/src/reader/read_zip.rs
+++ b/docx-core/src/reader/read_zip.rs
@@ -15,7 +15,8 @@ pub fn read_zip(
         name.trim_start_matches('/')
     };
     let mut xml = archive.by_name(path)?;
-    let capacity = usize::try_from(xml.size()).unwrap_or(0);
+    // The archive may claim any size, so do not take more than a usual part needs on its word.
+    let capacity = xml.size().min(1024 * 1024) as usize;
     let mut data = Vec::with_capacity(capacity);
     xml.read_to_end(&mut data)
         .map_err(zip::result::ZipError::Io)?;
-- 
2.43.0


From ce7d3a978017e5ebdcd2c12f5a9372b2fbbb1589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:02:17 +0000
Subject: [PATCH 037/105] fix: do not panic on images no preview can be made of

---
 docx-core/src/documents/mod.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index 20a6c80..6203784 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -339,11 +339,10 @@ impl Docx {
         if let Ok(dimg) = image::load_from_memory(&buf) {
             let mut png = std::io::Cursor::new(vec![]);
             // For now only png supported
-            dimg.write_to(&mut png, image::ImageFormat::Png)
-                .expect("Unable to write dynamic image");
-
-            self.images
-                .push((id.into(), path, Image(buf), Png(png.into_inner())));
+            if dimg.write_to(&mut png, image::ImageFormat::Png).is_ok() {
+                self.images
+                    .push((id.into(), path, Image(buf), Png(png.into_inner())));
+            }
         }
         self
     }
-- 
2.43.0


From c7765cb7fdad1c31b2aaf26394dad0c527fc1fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:02:41 +0000
Subject: [PATCH 038/105] fix: keep images whose preview cannot be made when
 reading

---
 docx-core/src/documents/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index 6203784..a531632 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -342,8 +342,13 @@ impl Docx {
             if dimg.write_to(&mut png, image::ImageFormat::Png).is_ok() {
                 self.images
                     .push((id.into(), path, Image(buf), Png(png.into_inner())));
+                return self;
             }
         }
+
+        // Without a preview the image itself is still part of the document
+        self.images
+            .push((id.into(), path, Image(buf), Png(Vec::new())));
         self
     }
 
-- 
2.43.0


From ce2959481b6651cc4cfd1534702fdc7137c0c35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:19:10 +0000
Subject: [PATCH 039/105] fix: find headers, footers, comments, settings and
 custom properties of flat packages

---
 docx-core/src/reader/read_xml.rs | 48 +++++++++++++++++---------------
 1 file changed, 25 insertions(+), 23 deletions(-)

diff --git a/docx-core/src/reader/read_xml.rs b/docx-core/src/reader/read_xml.rs
index 8bb9871..10a9207 100644
--- a/docx-core/src/reader/read_xml.rs
+++ b/docx-core/src/reader/read_xml.rs
@@ -2,6 +2,24 @@ use super::header_or_footer_rels::ReadHeaderOrFooterRels;
 use super::namespace::*;
 use super::*;
 
+// Find the part a relationship leads to. Flat packages name parts with a leading slash.
+fn find_part<'a>(
+    part_map: &'a HashMap<String, String>,
+    source_path: &str,
+    target: &str,
+) -> Option<&'a String> {
+    let path = match source_path.rfind('/') {
+        Some(index) if !target.starts_with('/') => {
+            format!("{}/{}", &source_path[..index], target)
+        }
+        _ => target.to_string(),
+    };
+    let path = path.trim_start_matches('/');
+    part_map
+        .get(path)
+        .or_else(|| part_map.get(&format!("/{path}")))
+}
+
 fn read_headers_from_xml(
     rels: &Rels,
     part_map: &HashMap<String, String>,
@@ -12,9 +30,7 @@ fn read_headers_from_xml(
     // Find all header relationships by looking for header types in rels
     for (rel_type, id, target) in &rels.rels {
         if rel_type == HEADER_TYPE {
-            let header_path = format!("{}/{}", document_path.replace("document.xml", ""), target);
-
-            if let Some(header_data) = part_map.get(&header_path) {
+            if let Some(header_data) = find_part(part_map, document_path, target) {
                 if let Ok(header) = Header::from_xml(header_data.as_bytes()) {
                     // For simplicity, use default ReadHeaderOrFooterRels
                     // In a full implementation, we would read the header's _rels file
@@ -38,9 +54,7 @@ fn read_footers_from_xml(
     // Find all footer relationships by looking for footer types in rels
     for (rel_type, id, target) in &rels.rels {
         if rel_type == FOOTER_TYPE {
-            let footer_path = format!("{}/{}", document_path.replace("document.xml", ""), target);
-
-            if let Some(footer_data) = part_map.get(&footer_path) {
+            if let Some(footer_data) = find_part(part_map, document_path, target) {
                 if let Ok(footer) = Footer::from_xml(footer_data.as_bytes()) {
                     // For simplicity, use default ReadHeaderOrFooterRels
                     // In a full implementation, we would read the footer's _rels file
@@ -61,8 +75,7 @@ fn read_comments_from_xml(
 ) -> (Comments, CommentsExtended) {
     // Simplified implementation for XML packages - try to read comments if available
     let comments_extended = if let Some((_, _, target)) = rels.find_target(COMMENTS_EXTENDED_TYPE) {
-        let ext_path = format!("{}/{}", document_path.replace("document.xml", ""), target);
-        if let Some(comments_ext_data) = part_map.get(&ext_path) {
+        if let Some(comments_ext_data) = find_part(part_map, document_path, target) {
             CommentsExtended::from_xml(comments_ext_data.as_bytes()).unwrap_or_default()
         } else {
             CommentsExtended::default()
@@ -73,8 +86,7 @@ fn read_comments_from_xml(
 
     // Read comments
     let comments = if let Some((_, _, target)) = rels.find_target(COMMENTS_TYPE) {
-        let comm_path = format!("{}/{}", document_path.replace("document.xml", ""), target);
-        if let Some(comments_data) = part_map.get(&comm_path) {
+        if let Some(comments_data) = find_part(part_map, document_path, target) {
             if let Ok(comments) = Comments::from_xml(comments_data.as_bytes()) {
                 // Process extended comments relationships
                 let mut comments_inner = comments.into_inner();
@@ -365,7 +377,7 @@ pub fn read_xml(xml_content: &str) -> Result<Docx, ReaderError> {
 
     // Read custom properties if available
     if let Some(custom_props) = rels.find_target(CUSTOM_PROPERTIES_TYPE) {
-        if let Some(data) = part_map.get(&custom_props.2) {
+        if let Some(data) = find_part(&part_map, "", &custom_props.2) {
             if let Ok(custom) = CustomProps::from_xml(data.as_bytes()) {
                 docx.doc_props.custom = custom;
             }
@@ -500,12 +512,7 @@ pub fn read_xml(xml_content: &str) -> Result<Docx, ReaderError> {
 
     // Read settings if available (basic implementation)
     if let Some(settings_rel) = document_rels.find_target(SETTINGS_TYPE) {
-        let base_path = document_path
-            .replace("document.xml", "")
-            .trim_end_matches('/')
-            .to_string();
-        let settings_path_str = format!("{}/{}", base_path, settings_rel.2);
-        if let Some(settings_data) = part_map.get(&settings_path_str) {
+        if let Some(settings_data) = find_part(&part_map, &document_path, &settings_rel.2) {
             if let Ok(settings) = Settings::from_xml(settings_data.as_bytes()) {
                 docx.settings = settings;
             }
@@ -514,12 +521,7 @@ pub fn read_xml(xml_content: &str) -> Result<Docx, ReaderError> {
 
     // Read web settings if available (basic implementation)
     if let Some(web_settings_rel) = document_rels.find_target(WEB_SETTINGS_TYPE) {
-        let base_path = document_path
-            .replace("document.xml", "")
-            .trim_end_matches('/')
-            .to_string();
-        let web_settings_path_str = format!("{}/{}", base_path, web_settings_rel.2);
-        if let Some(web_settings_data) = part_map.get(&web_settings_path_str) {
+        if let Some(web_settings_data) = find_part(&part_map, &document_path, &web_settings_rel.2) {
             if let Ok(web_settings) = WebSettings::from_xml(web_settings_data.as_bytes()) {
                 docx.web_settings = web_settings;
             }
-- 
2.43.0


From b0f14fd963f562095fe1c80ef977b079e00ce7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:19:11 +0000
Subject: [PATCH 040/105] fix: read every hyperlink of a flat package under its
 own relationship id

---
 docx-core/src/reader/read_xml.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/docx-core/src/reader/read_xml.rs b/docx-core/src/reader/read_xml.rs
index 10a9207..7dc3578 100644
--- a/docx-core/src/reader/read_xml.rs
+++ b/docx-core/src/reader/read_xml.rs
@@ -632,7 +632,11 @@ pub fn read_xml(xml_content: &str) -> Result<Docx, ReaderError> {
     }
 
     // Read and add hyperlinks - simplified for XML packages
-    if let Some((id, _, target)) = document_rels.find_target(HYPERLINK_TYPE) {
+    for (_, id, target) in document_rels
+        .rels
+        .iter()
+        .filter(|(rel_type, ..)| rel_type == HYPERLINK_TYPE)
+    {
         // For XML packages, we'll add the hyperlink with a default mode
         docx = docx.add_hyperlink(id, target, "External".to_string());
     }
-- 
2.43.0


From a4e28486f85b29461ec4a4f11d5506464426b579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:34:02 +0000
Subject: [PATCH 041/105] fix: keep the targets of hyperlinks when a document
 is read and written again

---
 docx-core/src/documents/document_tree.rs   |  2 +-
 docx-core/src/documents/image_collector.rs |  2 +-
 docx-core/src/documents/mod.rs             | 27 ++++++++++++++++++++--
 docx-core/src/reader/hyperlink.rs          |  2 +-
 docx-core/src/reader/read_docx.rs          | 19 +++++++++++++--
 docx-core/src/reader/read_xml.rs           |  1 +
 6 files changed, 46 insertions(+), 7 deletions(-)

diff --git a/docx-core/src/documents/document_tree.rs b/docx-core/src/documents/document_tree.rs
index 9e98e42..218be01 100644
--- a/docx-core/src/documents/document_tree.rs
+++ b/docx-core/src/documents/document_tree.rs
@@ -32,7 +32,7 @@ pub(crate) trait DocumentTreeVisitor {
     fn visit_footnote_reference(&mut self, _reference: &crate::FootnoteReference) {}
 
     /// Visits a hyperlink before its children are traversed.
-    fn visit_hyperlink(&mut self, _link: &Hyperlink) {}
+    fn visit_hyperlink(&mut self, _link: &mut Hyperlink) {}
 
     /// Visits the start of a commented range.
     fn visit_comment_start(&mut self, _start: &mut CommentRangeStart) {}
diff --git a/docx-core/src/documents/image_collector.rs b/docx-core/src/documents/image_collector.rs
index a47e7d6..e1f6272 100644
--- a/docx-core/src/documents/image_collector.rs
+++ b/docx-core/src/documents/image_collector.rs
@@ -216,7 +216,7 @@ impl DocumentTreeVisitor for PackagePartCollector<'_> {
         self.footnotes.push(reference.into());
     }
 
-    fn visit_hyperlink(&mut self, link: &Hyperlink) {
+    fn visit_hyperlink(&mut self, link: &mut Hyperlink) {
         if let HyperlinkData::External { rid, path } = &link.link {
             if self.relationship_ids.insert(rid.clone()) {
                 self.hyperlinks.push((rid.clone(), path.clone()));
diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index a531632..96298d4 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -14,7 +14,7 @@ mod custom_item_rels;
 mod doc_props;
 mod document;
 mod document_rels;
-mod document_tree;
+pub(crate) mod document_tree;
 mod elements;
 mod font_table;
 mod footer;
@@ -364,6 +364,16 @@ impl Docx {
         self
     }
 
+    // reader only
+    pub(crate) fn store_hyperlink_targets(&mut self) {
+        let targets = self
+            .hyperlinks
+            .iter()
+            .map(|(id, path, _)| (id.as_str(), path.as_str()))
+            .collect();
+        visit_document(&mut self.document, &mut HyperlinkRestorer(targets));
+    }
+
     pub fn comments(mut self, c: Comments) -> Self {
         self.comments = c;
         self
@@ -1091,7 +1101,7 @@ impl DocumentTreeVisitor for DependencyCollector {
         }
     }
 
-    fn visit_hyperlink(&mut self, link: &Hyperlink) {
+    fn visit_hyperlink(&mut self, link: &mut Hyperlink) {
         if let HyperlinkData::External { rid, path } = &link.link {
             if self.hyperlink_ids.insert(rid.clone()) {
                 self.hyperlinks.push((rid.clone(), path.clone()));
@@ -1127,6 +1137,19 @@ impl DocumentTreeVisitor for CommentRestorer<'_> {
     }
 }
 
+/// Gives the external hyperlinks of one part the targets of its relationships.
+pub(crate) struct HyperlinkRestorer<'a>(pub(crate) HashMap<&'a str, &'a str>);
+
+impl DocumentTreeVisitor for HyperlinkRestorer<'_> {
+    fn visit_hyperlink(&mut self, link: &mut Hyperlink) {
+        if let HyperlinkData::External { rid, path } = &mut link.link {
+            if let Some(target) = self.0.get(rid.as_str()) {
+                *path = (*target).to_owned();
+            }
+        }
+    }
+}
+
 fn collect_para_ids_in_docx<'a>(docx: &'a Docx, counts: &mut HashMap<&'a str, usize>) {
     for child in &docx.document.children {
         collect_para_ids_in_document_child(child, counts);
diff --git a/docx-core/src/reader/hyperlink.rs b/docx-core/src/reader/hyperlink.rs
index 800745b..9dfbdbc 100644
--- a/docx-core/src/reader/hyperlink.rs
+++ b/docx-core/src/reader/hyperlink.rs
@@ -21,7 +21,7 @@ impl ElementReader for Hyperlink {
             } else {
                 HyperlinkData::External {
                     rid: rid.take().unwrap_or_default(),
-                    path: String::default(), // not used
+                    path: String::default(), // set from the relationships of the part
                 }
             },
             history: history.map(|h| usize::from_str(&h).unwrap_or(1)),
diff --git a/docx-core/src/reader/read_docx.rs b/docx-core/src/reader/read_docx.rs
index 24ef048..8660f85 100644
--- a/docx-core/src/reader/read_docx.rs
+++ b/docx-core/src/reader/read_docx.rs
@@ -1,9 +1,21 @@
 use super::header_or_footer_rels::{read_header_or_footer_rels, ReadHeaderOrFooterRels};
 use super::namespace::*;
 use super::*;
+use crate::documents::document_tree::{visit_footer, visit_header};
 
 use zip::ZipArchive;
 
+fn hyperlink_restorer(rels: &ReadHeaderOrFooterRels) -> HyperlinkRestorer<'_> {
+    HyperlinkRestorer(
+        rels.target_paths(HYPERLINK_TYPE)
+            .into_iter()
+            .flatten()
+            .filter(|(_, _, mode)| mode.is_some())
+            .filter_map(|(id, target, _)| Some((id.as_str(), target.to_str()?)))
+            .collect(),
+    )
+}
+
 fn read_headers(
     rels: &ReadDocumentRels,
     archive: &mut ZipArchive<Cursor<&[u8]>>,
@@ -15,8 +27,9 @@ fn read_headers(
         .filter_map(|(rid, path, ..)| {
             let data = read_zip(archive, path.to_str().expect("should have header path."));
             if let Ok(d) = data {
-                if let Ok(h) = Header::from_xml(&d[..]) {
+                if let Ok(mut h) = Header::from_xml(&d[..]) {
                     let rels = read_header_or_footer_rels(archive, path).unwrap_or_default();
+                    visit_header(&mut h, &mut hyperlink_restorer(&rels));
                     return Some((rid.clone(), (h, rels)));
                 }
             }
@@ -37,8 +50,9 @@ fn read_footers(
         .filter_map(|(rid, path, ..)| {
             let data = read_zip(archive, path.to_str().expect("should have footer path."));
             if let Ok(d) = data {
-                if let Ok(h) = Footer::from_xml(&d[..]) {
+                if let Ok(mut h) = Footer::from_xml(&d[..]) {
                     let rels = read_header_or_footer_rels(archive, path).unwrap_or_default();
+                    visit_footer(&mut h, &mut hyperlink_restorer(&rels));
                     return Some((rid.clone(), (h, rels)));
                 }
             }
@@ -396,6 +410,7 @@ pub fn read_docx_with_options(buf: &[u8], options: ReadDocxOptions) -> Result<Do
             }
         }
     }
+    docx.store_hyperlink_targets();
 
     Ok(docx)
 }
diff --git a/docx-core/src/reader/read_xml.rs b/docx-core/src/reader/read_xml.rs
index 7dc3578..9049e10 100644
--- a/docx-core/src/reader/read_xml.rs
+++ b/docx-core/src/reader/read_xml.rs
@@ -640,6 +640,7 @@ pub fn read_xml(xml_content: &str) -> Result<Docx, ReaderError> {
         // For XML packages, we'll add the hyperlink with a default mode
         docx = docx.add_hyperlink(id, target, "External".to_string());
     }
+    docx.store_hyperlink_targets();
 
     Ok(docx)
 }
-- 
2.43.0


From 1c53ed8d62959b08974e6a3816304357ed323a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:35:05 +0000
Subject: [PATCH 042/105] fix: keep images when a document is read and written
 again

---
 docx-core/src/documents/image_collector.rs | 28 +++++++++++++++++-----
 docx-core/src/documents/mod.rs             |  2 +-
 2 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/docx-core/src/documents/image_collector.rs b/docx-core/src/documents/image_collector.rs
index e1f6272..46bfaf0 100644
--- a/docx-core/src/documents/image_collector.rs
+++ b/docx-core/src/documents/image_collector.rs
@@ -8,8 +8,8 @@ use std::collections::{HashMap, HashSet};
 
 use super::document_tree::{visit_document, visit_footer, visit_header, DocumentTreeVisitor};
 use crate::{
-    Document, Footer, Footnote, FootnoteReference, Header, Hyperlink, HyperlinkData, ImageIdAndBuf,
-    ImageIdAndPath, Pic,
+    Document, Footer, Footnote, FootnoteReference, Header, Hyperlink, HyperlinkData, Image,
+    ImageIdAndBuf, ImageIdAndPath, Pic, Png,
 };
 
 /// Stores physical media once for the entire OPC package.
@@ -24,9 +24,22 @@ pub(crate) struct MediaRegistry {
     media_by_id: HashMap<String, usize>,
     by_fingerprint: HashMap<(usize, u32), Vec<usize>>,
     next_suffix_by_id: HashMap<String, usize>,
+    /// Bytes of pictures which were read, by the id those refer to them.
+    originals: HashMap<String, Vec<u8>>,
 }
 
 impl MediaRegistry {
+    /// Creates a registry which knows the images a document was read with.
+    pub(crate) fn with_originals(images: Vec<(String, String, Image, Png)>) -> Self {
+        Self {
+            originals: images
+                .into_iter()
+                .map(|(id, _, image, _)| (id, image.0))
+                .collect(),
+            ..Self::default()
+        }
+    }
+
     /// Registers physical bytes and returns their stable registry index.
     ///
     /// Part collectors use the numeric index as their deduplication key. This
@@ -190,10 +203,13 @@ impl<'a> PackagePartCollector<'a> {
 impl DocumentTreeVisitor for PackagePartCollector<'_> {
     fn visit_picture(&mut self, picture: &mut Pic) {
         let preferred_relationship_id = self.relationship_id(&picture.id);
-        let media_index = self.registry.register(
-            &preferred_relationship_id,
-            std::mem::take(&mut picture.image),
-        );
+        let mut image = std::mem::take(&mut picture.image);
+        if image.is_empty() {
+            if let Some(original) = self.registry.originals.get(&picture.id) {
+                image.clone_from(original);
+            }
+        }
+        let media_index = self.registry.register(&preferred_relationship_id, image);
 
         if let Some(relationship_index) = self.relationships_by_media.get(&media_index) {
             picture
diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index 96298d4..c436027 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -871,7 +871,7 @@ impl Docx {
         let has_toc = self.prepare_for_build();
         self.bind_headers_and_footers();
 
-        let mut media = MediaRegistry::default();
+        let mut media = MediaRegistry::with_originals(std::mem::take(&mut self.images));
         let document_part = collect_document_part(&mut self.document, &mut media);
         let header_rels = self.collect_header_rels(&mut media);
         let footer_rels = self.collect_footer_rels(&mut media);
-- 
2.43.0


From 043dedbc92d3fa5c2873d9bd716eb32818bd49c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:36:37 +0000
Subject: [PATCH 043/105] fix: read the landscape orientation and the text
 direction of sections

---
 docx-core/src/reader/section_property.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/docx-core/src/reader/section_property.rs b/docx-core/src/reader/section_property.rs
index f0968b1..2cedac8 100644
--- a/docx-core/src/reader/section_property.rs
+++ b/docx-core/src/reader/section_property.rs
@@ -1,7 +1,7 @@
 use std::io::Read;
 use std::str::FromStr;
 
-use crate::SectionType;
+use crate::{PageOrientationType, SectionType};
 
 use super::*;
 
@@ -16,6 +16,10 @@ fn read_page_size(attributes: &[OwnedAttribute]) -> Result<PageSize, ReaderError
             "h" => {
                 size = size.height(value_to_dax(&a.value)? as u32);
             }
+            // A page without an orientation is in portrait
+            "orient" if a.value == "landscape" => {
+                size = size.orient(PageOrientationType::Landscape);
+            }
             _ => {}
         }
     }
@@ -157,6 +161,11 @@ impl ElementReader for SectionProperty {
                                 }
                             }
                         }
+                        XMLElement::TextDirection => {
+                            if let Some(val) = read_val(&attributes) {
+                                sp = sp.text_direction(val);
+                            }
+                        }
                         XMLElement::TitlePg => sp.title_pg = read_bool(&attributes),
                         _ => {}
                     }
-- 
2.43.0


From 3e1fd609e80fe087f47c6e2f9f0959e08a3fffac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:36:38 +0000
Subject: [PATCH 044/105] fix: read the number of columns of sections

---
 docx-core/src/reader/section_property.rs | 7 +++++++
 docx-core/src/reader/xml_element.rs      | 2 ++
 2 files changed, 9 insertions(+)

diff --git a/docx-core/src/reader/section_property.rs b/docx-core/src/reader/section_property.rs
index 2cedac8..88a26f2 100644
--- a/docx-core/src/reader/section_property.rs
+++ b/docx-core/src/reader/section_property.rs
@@ -161,6 +161,13 @@ impl ElementReader for SectionProperty {
                                 }
                             }
                         }
+                        XMLElement::Columns => {
+                            if let Some(num) = read(&attributes, "num") {
+                                if let Ok(num) = usize::from_str(&num) {
+                                    sp.columns = num;
+                                }
+                            }
+                        }
                         XMLElement::TextDirection => {
                             if let Some(val) = read_val(&attributes) {
                                 sp = sp.text_direction(val);
diff --git a/docx-core/src/reader/xml_element.rs b/docx-core/src/reader/xml_element.rs
index dd11555..4ddc7ba 100644
--- a/docx-core/src/reader/xml_element.rs
+++ b/docx-core/src/reader/xml_element.rs
@@ -173,6 +173,7 @@ pub enum XMLElement {
     StructuredDataTag,
     Type,
     PageNumType,
+    Columns,
     FrameProperty,
     TextAlignment,
     AdjustRightInd,
@@ -434,6 +435,7 @@ impl FromStr for XMLElement {
             "titlePg" => Ok(XMLElement::TitlePg),
             "evenAndOddHeaders" => Ok(XMLElement::EvenAndOddHeaders),
             "sdt" => Ok(XMLElement::StructuredDataTag),
+            "cols" => Ok(XMLElement::Columns),
             "pgNumType" => Ok(XMLElement::PageNumType),
             "framePr" => Ok(XMLElement::FrameProperty),
             "textAlignment" => Ok(XMLElement::TextAlignment),
-- 
2.43.0


From 064ca1bd4dd12866da20186463744f40ca3adeb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:42:45 +0000
Subject: [PATCH 045/105] fix: read the headers and footers of every section,
 not only of the last one

---
 .../documents/elements/section_property.rs    |  6 +++
 docx-core/src/documents/mod.rs                | 38 +++++++++++++++++++
 docx-core/src/reader/read_docx.rs             | 13 +++++++
 docx-core/src/reader/read_xml.rs              |  2 +
 4 files changed, 59 insertions(+)

diff --git a/docx-core/src/documents/elements/section_property.rs b/docx-core/src/documents/elements/section_property.rs
index d00b1bd..ae270b3 100644
--- a/docx-core/src/documents/elements/section_property.rs
+++ b/docx-core/src/documents/elements/section_property.rs
@@ -133,6 +133,12 @@ impl SectionProperty {
         self
     }
 
+    /// Relationship ids of the headers and footers that are present.
+    pub(crate) fn part_ids(&self) -> impl Iterator<Item = String> + '_ {
+        let headers = self.headers().map(|(id, _)| id.clone());
+        headers.chain(self.footers().map(|(id, _)| id.clone()))
+    }
+
     /// Returns the default, first, and even headers that are present.
     pub fn get_headers(&self) -> Vec<&(String, Header)> {
         self.headers().collect()
diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index c436027..2ddea98 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -364,6 +364,44 @@ impl Docx {
         self
     }
 
+    // reader only
+    /// Gives the sections before the last one their headers and footers.
+    ///
+    /// Returns the relationship ids of those parts.
+    pub(crate) fn store_section_parts<R>(
+        &mut self,
+        headers: &HashMap<String, (Header, R)>,
+        footers: &HashMap<String, (Footer, R)>,
+    ) -> Vec<String> {
+        let mut ids = vec![];
+        // The first one belongs to the last section
+        for property in self.document.section_properties_mut().skip(1) {
+            for (reference, header) in [
+                (&property.header_reference, &mut property.header),
+                (&property.first_header_reference, &mut property.first_header),
+                (&property.even_header_reference, &mut property.even_header),
+            ] {
+                let id = reference.as_ref().map(|reference| reference.id.clone());
+                if let Some((id, (part, _))) = id.and_then(|id| headers.get(&id).map(|h| (id, h))) {
+                    *header = Some((id.clone(), part.clone()));
+                    ids.push(id);
+                }
+            }
+            for (reference, footer) in [
+                (&property.footer_reference, &mut property.footer),
+                (&property.first_footer_reference, &mut property.first_footer),
+                (&property.even_footer_reference, &mut property.even_footer),
+            ] {
+                let id = reference.as_ref().map(|reference| reference.id.clone());
+                if let Some((id, (part, _))) = id.and_then(|id| footers.get(&id).map(|f| (id, f))) {
+                    *footer = Some((id.clone(), part.clone()));
+                    ids.push(id);
+                }
+            }
+        }
+        ids
+    }
+
     // reader only
     pub(crate) fn store_hyperlink_targets(&mut self) {
         let targets = self
diff --git a/docx-core/src/reader/read_docx.rs b/docx-core/src/reader/read_docx.rs
index 8660f85..e5e1f07 100644
--- a/docx-core/src/reader/read_docx.rs
+++ b/docx-core/src/reader/read_docx.rs
@@ -3,6 +3,7 @@ use super::namespace::*;
 use super::*;
 use crate::documents::document_tree::{visit_footer, visit_header};
 
+use std::collections::HashSet;
 use zip::ZipArchive;
 
 fn hyperlink_restorer(rels: &ReadHeaderOrFooterRels) -> HyperlinkRestorer<'_> {
@@ -332,6 +333,18 @@ pub fn read_docx_with_options(buf: &[u8], options: ReadDocxOptions) -> Result<Do
         }
     }
 
+    // assign headers and footers of the other sections
+    let mut read: HashSet<String> = docx.document.section_property.part_ids().collect();
+    for id in docx.store_section_parts(&headers, &footers) {
+        let part_rels = headers.get(&id).map(|(_, rels)| rels);
+        let part_rels = part_rels.or_else(|| footers.get(&id).map(|(_, rels)| rels));
+        if let (Some(part_rels), true) = (part_rels, read.insert(id)) {
+            // Read media
+            let media = part_rels.target_paths(IMAGE_TYPE);
+            docx = add_images(docx, media, &mut archive, options.generate_image_previews);
+        }
+    }
+
     // store comments to paragraphs.
     if !comments.inner().is_empty() {
         docx.store_comments(comments.inner());
diff --git a/docx-core/src/reader/read_xml.rs b/docx-core/src/reader/read_xml.rs
index 9049e10..822ab42 100644
--- a/docx-core/src/reader/read_xml.rs
+++ b/docx-core/src/reader/read_xml.rs
@@ -612,6 +612,8 @@ pub fn read_xml(xml_content: &str) -> Result<Docx, ReaderError> {
         }
     }
 
+    docx.store_section_parts(&headers, &footers);
+
     // Store comments to paragraphs
     if !comments.inner().is_empty() {
         docx.store_comments(comments.inner());
-- 
2.43.0


From 8698b250a92414bd8b2440b2fe7bd8356e00b4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:46:41 +0000
Subject: [PATCH 046/105] fix: read the targets of hyperlinks in headers and
 footers of flat packages

---
 docx-core/src/reader/read_xml.rs | 33 ++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/docx-core/src/reader/read_xml.rs b/docx-core/src/reader/read_xml.rs
index 822ab42..fe3ce1b 100644
--- a/docx-core/src/reader/read_xml.rs
+++ b/docx-core/src/reader/read_xml.rs
@@ -1,6 +1,7 @@
 use super::header_or_footer_rels::ReadHeaderOrFooterRels;
 use super::namespace::*;
 use super::*;
+use crate::documents::document_tree::{visit_footer, visit_header};
 
 // Find the part a relationship leads to. Flat packages name parts with a leading slash.
 fn find_part<'a>(
@@ -20,6 +21,30 @@ fn find_part<'a>(
         .or_else(|| part_map.get(&format!("/{path}")))
 }
 
+fn read_hyperlinks_of_part(
+    part_map: &HashMap<String, String>,
+    document_path: &str,
+    target: &str,
+) -> Vec<(String, String, String)> {
+    let rels_path = match target.rsplit_once('/') {
+        Some((dir, name)) => format!("{dir}/_rels/{name}.rels"),
+        None => format!("_rels/{target}.rels"),
+    };
+    find_part(part_map, document_path, &rels_path)
+        .and_then(|data| Rels::from_xml(data.as_bytes()).ok())
+        .map(|rels| rels.rels)
+        .unwrap_or_default()
+}
+
+fn hyperlink_restorer(rels: &[(String, String, String)]) -> HyperlinkRestorer<'_> {
+    HyperlinkRestorer(
+        rels.iter()
+            .filter(|(rel_type, ..)| rel_type == HYPERLINK_TYPE)
+            .map(|(_, id, target)| (id.as_str(), target.as_str()))
+            .collect(),
+    )
+}
+
 fn read_headers_from_xml(
     rels: &Rels,
     part_map: &HashMap<String, String>,
@@ -31,7 +56,9 @@ fn read_headers_from_xml(
     for (rel_type, id, target) in &rels.rels {
         if rel_type == HEADER_TYPE {
             if let Some(header_data) = find_part(part_map, document_path, target) {
-                if let Ok(header) = Header::from_xml(header_data.as_bytes()) {
+                if let Ok(mut header) = Header::from_xml(header_data.as_bytes()) {
+                    let links = read_hyperlinks_of_part(part_map, document_path, target);
+                    visit_header(&mut header, &mut hyperlink_restorer(&links));
                     // For simplicity, use default ReadHeaderOrFooterRels
                     // In a full implementation, we would read the header's _rels file
                     let header_rels = ReadHeaderOrFooterRels::default();
@@ -55,7 +82,9 @@ fn read_footers_from_xml(
     for (rel_type, id, target) in &rels.rels {
         if rel_type == FOOTER_TYPE {
             if let Some(footer_data) = find_part(part_map, document_path, target) {
-                if let Ok(footer) = Footer::from_xml(footer_data.as_bytes()) {
+                if let Ok(mut footer) = Footer::from_xml(footer_data.as_bytes()) {
+                    let links = read_hyperlinks_of_part(part_map, document_path, target);
+                    visit_footer(&mut footer, &mut hyperlink_restorer(&links));
                     // For simplicity, use default ReadHeaderOrFooterRels
                     // In a full implementation, we would read the footer's _rels file
                     let footer_rels = ReadHeaderOrFooterRels::default();
-- 
2.43.0


From c5cf0a619c126ad32c7f8ef084e909c5ca9c9436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:47:18 +0000
Subject: [PATCH 047/105] fix: read custom properties with an empty or blank
 value

---
 docx-core/src/reader/custom_properties.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/docx-core/src/reader/custom_properties.rs b/docx-core/src/reader/custom_properties.rs
index d3f1928..ac4db83 100644
--- a/docx-core/src/reader/custom_properties.rs
+++ b/docx-core/src/reader/custom_properties.rs
@@ -24,9 +24,16 @@ impl FromXML for CustomProps {
                                         if let Ok(VtXMLElement::Lpwstr) =
                                             VtXMLElement::from_str(&name.local_name)
                                         {
-                                            let e = r.next_event();
-                                            if let Ok(XmlEvent::Characters(c)) = e {
-                                                props = props.add_custom_property(&key, c)
+                                            match r.next_event() {
+                                                Ok(XmlEvent::Characters(c))
+                                                | Ok(XmlEvent::Whitespace(c)) => {
+                                                    props = props.add_custom_property(&key, c)
+                                                }
+                                                Ok(XmlEvent::EndElement { .. }) => {
+                                                    props = props.add_custom_property(&key, "")
+                                                }
+                                                Err(_) => return Err(ReaderError::XMLReadError),
+                                                _ => {}
                                             }
                                         }
                                     }
-- 
2.43.0


From 7a6435c8fbc55741046cc748ba2d182d91bbcffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 20:58:10 +0000
Subject: [PATCH 048/105] fix: do not give links and images that were read
 relationship ids taken by the package

---
 docx-core/src/documents/document_rels.rs   | 10 ++++++++++
 docx-core/src/documents/image_collector.rs |  3 ++-
 docx-core/src/documents/mod.rs             | 18 ++++++++++++++----
 3 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/docx-core/src/documents/document_rels.rs b/docx-core/src/documents/document_rels.rs
index a7a6d93..ae695ec 100644
--- a/docx-core/src/documents/document_rels.rs
+++ b/docx-core/src/documents/document_rels.rs
@@ -18,6 +18,16 @@ pub struct DocumentRels {
     pub footer_count: usize,
 }
 
+/// Whether a relationship id is one the parts of the package itself get.
+pub(crate) fn is_reserved_id(id: &str) -> bool {
+    let Some(rest) = id.strip_prefix("rId") else {
+        return false;
+    };
+    let rest = rest.strip_prefix("Header").unwrap_or(rest);
+    let rest = rest.strip_prefix("Footer").unwrap_or(rest);
+    !rest.is_empty() && rest.bytes().all(|b| b.is_ascii_digit())
+}
+
 impl DocumentRels {
     pub fn new() -> DocumentRels {
         Default::default()
diff --git a/docx-core/src/documents/image_collector.rs b/docx-core/src/documents/image_collector.rs
index 46bfaf0..8bf1f88 100644
--- a/docx-core/src/documents/image_collector.rs
+++ b/docx-core/src/documents/image_collector.rs
@@ -6,6 +6,7 @@
 
 use std::collections::{HashMap, HashSet};
 
+use super::document_rels::is_reserved_id;
 use super::document_tree::{visit_document, visit_footer, visit_header, DocumentTreeVisitor};
 use crate::{
     Document, Footer, Footnote, FootnoteReference, Header, Hyperlink, HyperlinkData, Image,
@@ -176,7 +177,7 @@ impl<'a> PackagePartCollector<'a> {
     /// Repeated preferred IDs use the next unchecked suffix instead of
     /// restarting at `_2`, while explicit suffixed IDs are still skipped.
     fn unique_relationship_id(&mut self, preferred_id: &str) -> String {
-        if !self.relationship_ids.contains(preferred_id) {
+        if !self.relationship_ids.contains(preferred_id) && !is_reserved_id(preferred_id) {
             return preferred_id.to_owned();
         }
 
diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index 2ddea98..45521bd 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -1005,7 +1005,7 @@ impl Docx {
         // A previous call may already have registered some of the hyperlinks.
         self.document_rels
             .hyperlinks
-            .retain(|(id, _, _)| !collector.hyperlink_ids.contains(id));
+            .retain(|(id, _, _)| !collector.hyperlink_ids.contains_key(id));
         for (id, path) in collector.hyperlinks {
             self.document_rels
                 .hyperlinks
@@ -1123,7 +1123,7 @@ struct DependencyCollector {
     comments: Vec<Comment>,
     comment_ids: HashSet<usize>,
     hyperlinks: Vec<(String, String)>,
-    hyperlink_ids: HashSet<String>,
+    hyperlink_ids: HashMap<String, String>,
     has_numbering: bool,
 }
 
@@ -1140,8 +1140,18 @@ impl DocumentTreeVisitor for DependencyCollector {
     }
 
     fn visit_hyperlink(&mut self, link: &mut Hyperlink) {
-        if let HyperlinkData::External { rid, path } = &link.link {
-            if self.hyperlink_ids.insert(rid.clone()) {
+        if let HyperlinkData::External { rid, path } = &mut link.link {
+            // A link which was read may have an id that is taken in the package to be written.
+            let (preferred, mut suffix) = (rid.clone(), 1);
+            while is_reserved_id(rid) || self.hyperlink_ids.get(rid).is_some_and(|p| p != path) {
+                suffix += 1;
+                *rid = format!("{preferred}_{suffix}");
+            }
+            if self
+                .hyperlink_ids
+                .insert(rid.clone(), path.clone())
+                .is_none()
+            {
                 self.hyperlinks.push((rid.clone(), path.clone()));
             }
         }
-- 
2.43.0


From cd4f3ca7342460f867b2dae22c5498f8560ae29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:03:25 +0000
Subject: [PATCH 049/105] fix: do not let images and links of one document
 share a relationship id

---
 docx-core/src/documents/image_collector.rs | 13 +++++++++++--
 docx-core/src/documents/mod.rs             |  5 ++++-
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/docx-core/src/documents/image_collector.rs b/docx-core/src/documents/image_collector.rs
index 8bf1f88..a7de9ea 100644
--- a/docx-core/src/documents/image_collector.rs
+++ b/docx-core/src/documents/image_collector.rs
@@ -27,12 +27,18 @@ pub(crate) struct MediaRegistry {
     next_suffix_by_id: HashMap<String, usize>,
     /// Bytes of pictures which were read, by the id those refer to them.
     originals: HashMap<String, Vec<u8>>,
+    /// Relationship ids the links of the document have.
+    link_ids: HashSet<String>,
 }
 
 impl MediaRegistry {
     /// Creates a registry which knows the images a document was read with.
-    pub(crate) fn with_originals(images: Vec<(String, String, Image, Png)>) -> Self {
+    pub(crate) fn with_originals(
+        images: Vec<(String, String, Image, Png)>,
+        links: &[(String, String, String)],
+    ) -> Self {
         Self {
+            link_ids: links.iter().map(|link| link.0.clone()).collect(),
             originals: images
                 .into_iter()
                 .map(|(id, _, image, _)| (id, image.0))
@@ -177,7 +183,10 @@ impl<'a> PackagePartCollector<'a> {
     /// Repeated preferred IDs use the next unchecked suffix instead of
     /// restarting at `_2`, while explicit suffixed IDs are still skipped.
     fn unique_relationship_id(&mut self, preferred_id: &str) -> String {
-        if !self.relationship_ids.contains(preferred_id) && !is_reserved_id(preferred_id) {
+        if !self.relationship_ids.contains(preferred_id)
+            && !self.registry.link_ids.contains(preferred_id)
+            && !is_reserved_id(preferred_id)
+        {
             return preferred_id.to_owned();
         }
 
diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index 45521bd..e8fa9d7 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -909,7 +909,10 @@ impl Docx {
         let has_toc = self.prepare_for_build();
         self.bind_headers_and_footers();
 
-        let mut media = MediaRegistry::with_originals(std::mem::take(&mut self.images));
+        let mut media = MediaRegistry::with_originals(
+            std::mem::take(&mut self.images),
+            &self.document_rels.hyperlinks,
+        );
         let document_part = collect_document_part(&mut self.document, &mut media);
         let header_rels = self.collect_header_rels(&mut media);
         let footer_rels = self.collect_footer_rels(&mut media);
-- 
2.43.0


From 770fa301bcc50e18a02ac2d3c1a65649c35761ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:10:23 +0000
Subject: [PATCH 050/105] fix: escape the texts in instructions of tables of
 contents and their entries

---
 docx-core/src/documents/elements/instr_tc.rs  |  4 ++--
 docx-core/src/documents/elements/instr_toc.rs | 17 +++++++++--------
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/docx-core/src/documents/elements/instr_tc.rs b/docx-core/src/documents/elements/instr_tc.rs
index d0465e0..2c423b5 100644
--- a/docx-core/src/documents/elements/instr_tc.rs
+++ b/docx-core/src/documents/elements/instr_tc.rs
@@ -2,7 +2,7 @@ use serde::Serialize;
 use std::io::Write;
 
 use crate::documents::*;
-use crate::escape::escape_owned;
+use crate::escape::{escape, escape_owned};
 use crate::xml_builder::XMLBuilder;
 
 // https://c-rex.net/projects/samples/ooxml/e1/Part4/OOXML_P4_DOCX_TCTC_topic_ID0EU2N1.html
@@ -52,7 +52,7 @@ impl BuildXML for InstrTC {
         write!(raw, "TC \"{}\"", self.text)?;
 
         if let Some(ref t) = self.item_type_identifier {
-            write!(raw, " \\f {t}")?;
+            write!(raw, " \\f {}", escape(t))?;
         }
 
         if let Some(level) = self.level {
diff --git a/docx-core/src/documents/elements/instr_toc.rs b/docx-core/src/documents/elements/instr_toc.rs
index a73951f..b2850fa 100644
--- a/docx-core/src/documents/elements/instr_toc.rs
+++ b/docx-core/src/documents/elements/instr_toc.rs
@@ -2,6 +2,7 @@ use serde::Serialize;
 use std::io::Write;
 
 use crate::documents::*;
+use crate::escape::escape;
 use crate::xml_builder::XMLBuilder;
 
 #[derive(Serialize, Debug, Clone, PartialEq, Default)]
@@ -172,28 +173,28 @@ impl BuildXML for InstrToC {
 
         // \a
         if let Some(ref t) = self.caption_label {
-            write!(raw, " \\a &quot;{t}&quot;")?;
+            write!(raw, " \\a &quot;{}&quot;", escape(t))?;
         }
 
         // \b
         if let Some(ref t) = self.entry_bookmark_name {
-            write!(raw, " \\b &quot;{t}&quot;")?;
+            write!(raw, " \\b &quot;{}&quot;", escape(t))?;
         }
 
         // \c
         if let Some(ref t) = self.caption_label_including_numbers {
-            write!(raw, " \\c &quot;{t}&quot;")?;
+            write!(raw, " \\c &quot;{}&quot;", escape(t))?;
         }
 
         // \d
         if let Some(ref t) = self.sequence_and_page_numbers_separator {
-            write!(raw, " \\d &quot;{t}&quot;")?;
+            write!(raw, " \\d &quot;{}&quot;", escape(t))?;
         }
 
         // \f
         if let Some(ref t) = self.tc_field_identifier {
             if let Some(ref t) = t {
-                write!(raw, " \\f &quot;{t}&quot;")?;
+                write!(raw, " \\f &quot;{}&quot;", escape(t))?;
             } else {
                 write!(raw, " \\f")?;
             }
@@ -216,12 +217,12 @@ impl BuildXML for InstrToC {
 
         // \p
         if let Some(ref t) = self.entry_and_page_number_separator {
-            write!(raw, " \\p &quot;{t}&quot;")?;
+            write!(raw, " \\p &quot;{}&quot;", escape(t))?;
         }
 
         // \s
         if let Some(ref t) = self.seq_field_identifier_for_prefix {
-            write!(raw, " \\s &quot;{t}&quot;")?;
+            write!(raw, " \\s &quot;{}&quot;", escape(t))?;
         }
 
         // \t
@@ -232,7 +233,7 @@ impl BuildXML for InstrToC {
                 .map(|s| format!("{},{}", (s.0).0, (s.0).1))
                 .collect::<Vec<String>>()
                 .join(",");
-            write!(raw, " \\t &quot;{s}&quot;")?;
+            write!(raw, " \\t &quot;{}&quot;", escape(&s))?;
         }
 
         // \h
-- 
2.43.0


From ed85faf7e34926e8e2273fa6dea0a323160924a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:10:24 +0000
Subject: [PATCH 051/105] fix: escape the author of a deleted table of contents
 only once

---
 docx-core/src/documents/elements/table_of_contents.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/docx-core/src/documents/elements/table_of_contents.rs b/docx-core/src/documents/elements/table_of_contents.rs
index b821801..e1b514c 100644
--- a/docx-core/src/documents/elements/table_of_contents.rs
+++ b/docx-core/src/documents/elements/table_of_contents.rs
@@ -2,9 +2,9 @@ use serde::ser::{SerializeStruct, Serializer};
 use serde::Serialize;
 use std::io::Write;
 
+use crate::documents::*;
 use crate::types::*;
 use crate::xml_builder::*;
-use crate::{documents::*, escape};
 
 #[derive(Debug, Clone, PartialEq)]
 pub enum TocContent {
@@ -105,7 +105,7 @@ impl TableOfContents {
 
     pub fn delete(mut self, author: impl Into<String>, date: impl Into<String>) -> Self {
         self.delete = Some(TableOfContentsReviewData {
-            author: escape::escape_owned(author.into()),
+            author: author.into(),
             date: date.into(),
         });
         self
-- 
2.43.0


From f1bb621aef2db2cad088b6bb6613bc5c3bdd53a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:10:24 +0000
Subject: [PATCH 052/105] fix: end the field of a table of contents which is
 followed by a table

---
 docx-core/src/documents/elements/table_of_contents.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/docx-core/src/documents/elements/table_of_contents.rs b/docx-core/src/documents/elements/table_of_contents.rs
index e1b514c..aac96f7 100644
--- a/docx-core/src/documents/elements/table_of_contents.rs
+++ b/docx-core/src/documents/elements/table_of_contents.rs
@@ -244,9 +244,7 @@ impl BuildXML for TableOfContents {
                             // insert empty line for table
                             // because it causes docx error if table is added after TOC
                             if i == 0 {
-                                b = b.add_child(
-                                    &Paragraph::new().add_run(Run::new().add_text("")),
-                                )?;
+                                b = b.add_child(&p2)?;
                             }
                             b = b.add_child(&t)?;
                         }
-- 
2.43.0


From e8a98c900a4137bce32bac5fd5ba072d2a1fd20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:10:25 +0000
Subject: [PATCH 053/105] fix: escape the texts of headings in automatic tables
 of contents only once

---
 docx-core/src/documents/mod.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index e8fa9d7..94107fb 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -1900,6 +1900,15 @@ fn next_unique_paragraph_id(used: &HashSet<String>) -> String {
         .expect("the paragraph ID space should not be exhausted")
 }
 
+/// Returns the text of a heading as an item has it, which is escaped when written.
+fn toc_item_text(paragraph: &Paragraph) -> String {
+    let text = paragraph.raw_text();
+    match quick_xml::escape::unescape(&text) {
+        Ok(unescaped) => unescaped.into_owned(),
+        Err(_) => text,
+    }
+}
+
 /// Populates an automatic TOC and bookmarks matching headings in place.
 ///
 /// `document_children[toc_index]` is the temporary placeholder installed by
@@ -1946,7 +1955,7 @@ fn update_document_by_toc(
                         let toc_key = TocKey::generate();
                         items.push(
                             TableOfContentsItem::new()
-                                .text(paragraph.raw_text())
+                                .text(toc_item_text(paragraph))
                                 .toc_key(&toc_key)
                                 .level(heading_level),
                         );
@@ -1970,7 +1979,7 @@ fn update_document_by_toc(
                         let toc_key = TocKey::generate();
                         items.push(
                             TableOfContentsItem::new()
-                                .text(paragraph.raw_text())
+                                .text(toc_item_text(paragraph))
                                 .toc_key(&toc_key)
                                 .level(level),
                         );
-- 
2.43.0


From f730d9d8604981f037a4b48b5ada544b212ec31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:10:26 +0000
Subject: [PATCH 054/105] fix: do not add a style for entries of tables of
 contents under an id already taken

---
 docx-core/src/documents/mod.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index 94107fb..3df32af 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -926,12 +926,10 @@ impl Docx {
 
         if has_toc {
             for level in 1..=9 {
-                if !self
-                    .styles
-                    .styles
-                    .iter()
-                    .any(|style| style.name == Name::new(format!("toc {level}")))
-                {
+                if !self.styles.styles.iter().any(|style| {
+                    style.name == Name::new(format!("toc {level}"))
+                        || style.style_id == format!("ToC{level}")
+                }) {
                     self.styles = std::mem::take(&mut self.styles)
                         .add_style(crate::documents::preset_styles::toc(level));
                 }
-- 
2.43.0


From b937b6e9e7e87f5f3b3b174d87645591072e3cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:10:56 +0000
Subject: [PATCH 055/105] fix: do not give bookmarks of automatic tables of
 contents ids and names already taken

---
 docx-core/src/documents/document_tree.rs | 30 ++++++++--------
 docx-core/src/documents/mod.rs           | 46 +++++++++++++++++++++---
 2 files changed, 56 insertions(+), 20 deletions(-)

diff --git a/docx-core/src/documents/document_tree.rs b/docx-core/src/documents/document_tree.rs
index 218be01..026ce7f 100644
--- a/docx-core/src/documents/document_tree.rs
+++ b/docx-core/src/documents/document_tree.rs
@@ -5,10 +5,10 @@
 //! dependency collectors complete when new package metadata is added.
 
 use crate::{
-    CommentRangeStart, Delete, DeleteChild, Document, DocumentChild, DrawingData, Footer,
-    FooterChild, Header, HeaderChild, Hyperlink, Insert, InsertChild, MoveFrom, MoveFromChild,
-    MoveTo, MoveToChild, Paragraph, ParagraphChild, Pic, Run, RunChild, Section, SectionChild,
-    StructuredDataTag, StructuredDataTagChild, Table, TableCellContent, TableChild,
+    BookmarkStart, CommentRangeStart, Delete, DeleteChild, Document, DocumentChild, DrawingData,
+    Footer, FooterChild, Header, HeaderChild, Hyperlink, Insert, InsertChild, MoveFrom,
+    MoveFromChild, MoveTo, MoveToChild, Paragraph, ParagraphChild, Pic, Run, RunChild, Section,
+    SectionChild, StructuredDataTag, StructuredDataTagChild, Table, TableCellContent, TableChild,
     TableOfContents, TableRowChild,
 };
 
@@ -34,6 +34,9 @@ pub(crate) trait DocumentTreeVisitor {
     /// Visits a hyperlink before its children are traversed.
     fn visit_hyperlink(&mut self, _link: &mut Hyperlink) {}
 
+    /// Visits the start of a bookmark.
+    fn visit_bookmark_start(&mut self, _start: &BookmarkStart) {}
+
     /// Visits the start of a commented range.
     fn visit_comment_start(&mut self, _start: &mut CommentRangeStart) {}
 }
@@ -78,9 +81,8 @@ fn visit_document_child(child: &mut DocumentChild, visitor: &mut impl DocumentTr
         DocumentChild::TableOfContents(toc) => visit_table_of_contents(toc, visitor),
         DocumentChild::Section(section) => visit_section(section, visitor),
         DocumentChild::CommentStart(start) => visitor.visit_comment_start(start),
-        DocumentChild::BookmarkStart(_)
-        | DocumentChild::BookmarkEnd(_)
-        | DocumentChild::CommentEnd(_) => {}
+        DocumentChild::BookmarkStart(start) => visitor.visit_bookmark_start(start),
+        DocumentChild::BookmarkEnd(_) | DocumentChild::CommentEnd(_) => {}
     }
 }
 
@@ -92,9 +94,8 @@ fn visit_section(section: &mut Section, visitor: &mut impl DocumentTreeVisitor)
             SectionChild::StructuredDataTag(tag) => visit_structured_data_tag(tag, visitor),
             SectionChild::TableOfContents(toc) => visit_table_of_contents(toc, visitor),
             SectionChild::CommentStart(start) => visitor.visit_comment_start(start),
-            SectionChild::BookmarkStart(_)
-            | SectionChild::BookmarkEnd(_)
-            | SectionChild::CommentEnd(_) => {}
+            SectionChild::BookmarkStart(start) => visitor.visit_bookmark_start(start),
+            SectionChild::BookmarkEnd(_) | SectionChild::CommentEnd(_) => {}
         }
     }
 }
@@ -139,9 +140,8 @@ fn visit_structured_data_tag(tag: &mut StructuredDataTag, visitor: &mut impl Doc
                 visit_structured_data_tag(tag, visitor)
             }
             StructuredDataTagChild::CommentStart(start) => visitor.visit_comment_start(start),
-            StructuredDataTagChild::BookmarkStart(_)
-            | StructuredDataTagChild::BookmarkEnd(_)
-            | StructuredDataTagChild::CommentEnd(_) => {}
+            StructuredDataTagChild::BookmarkStart(start) => visitor.visit_bookmark_start(start),
+            StructuredDataTagChild::BookmarkEnd(_) | StructuredDataTagChild::CommentEnd(_) => {}
         }
     }
 }
@@ -165,8 +165,8 @@ fn visit_paragraph_children(
             ParagraphChild::Hyperlink(link) => visit_hyperlink(link, visitor),
             ParagraphChild::StructuredDataTag(tag) => visit_structured_data_tag(tag, visitor),
             ParagraphChild::CommentStart(start) => visitor.visit_comment_start(start),
-            ParagraphChild::BookmarkStart(_)
-            | ParagraphChild::BookmarkEnd(_)
+            ParagraphChild::BookmarkStart(start) => visitor.visit_bookmark_start(start),
+            ParagraphChild::BookmarkEnd(_)
             | ParagraphChild::CommentEnd(_)
             | ParagraphChild::PageNum(_)
             | ParagraphChild::NumPages(_) => {}
diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index 3df32af..7fabf90 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -879,6 +879,11 @@ impl Docx {
             })
             .collect();
 
+        let mut bookmarks = BookmarkCollector::default();
+        if !auto_toc_indexes.is_empty() {
+            visit_document(&mut self.document, &mut bookmarks);
+        }
+
         for index in auto_toc_indexes {
             let mut children = std::mem::take(&mut self.document.children);
             let toc = match std::mem::replace(
@@ -888,7 +893,8 @@ impl Docx {
                 DocumentChild::TableOfContents(toc) => *toc,
                 _ => unreachable!("collected index must still contain a table of contents"),
             };
-            self.document.children = update_document_by_toc(children, &self.styles, toc, index);
+            self.document.children =
+                update_document_by_toc(children, &self.styles, toc, index, &bookmarks);
         }
 
         has_toc
@@ -1898,6 +1904,35 @@ fn next_unique_paragraph_id(used: &HashSet<String>) -> String {
         .expect("the paragraph ID space should not be exhausted")
 }
 
+/// Collects the bookmarks generated ones must not be confused with.
+#[derive(Default)]
+struct BookmarkCollector {
+    names: HashSet<String>,
+    max_id: usize,
+}
+
+impl DocumentTreeVisitor for BookmarkCollector {
+    fn visit_bookmark_start(&mut self, start: &BookmarkStart) {
+        self.names.insert(start.name.clone());
+        self.max_id = self.max_id.max(start.id);
+    }
+}
+
+impl BookmarkCollector {
+    fn generate_key(&self) -> String {
+        loop {
+            let key = TocKey::generate();
+            if !self.names.contains(&key) {
+                return key;
+            }
+        }
+    }
+
+    fn generate_id(&self) -> usize {
+        self.max_id.wrapping_add(generate_bookmark_id())
+    }
+}
+
 /// Returns the text of a heading as an item has it, which is escaped when written.
 fn toc_item_text(paragraph: &Paragraph) -> String {
     let text = paragraph.raw_text();
@@ -1917,6 +1952,7 @@ fn update_document_by_toc(
     styles: &Styles,
     mut toc: TableOfContents,
     toc_index: usize,
+    bookmarks: &BookmarkCollector,
 ) -> Vec<DocumentChild> {
     let heading_map = styles.create_heading_style_map();
     let mut items = vec![];
@@ -1950,14 +1986,14 @@ fn update_document_by_toc(
                     .copied();
                 if let Some(heading_level) = heading_level {
                     if min <= heading_level && max >= heading_level {
-                        let toc_key = TocKey::generate();
+                        let toc_key = bookmarks.generate_key();
                         items.push(
                             TableOfContentsItem::new()
                                 .text(toc_item_text(paragraph))
                                 .toc_key(&toc_key)
                                 .level(heading_level),
                         );
-                        paragraph.wrap_by_bookmark(generate_bookmark_id(), &toc_key);
+                        paragraph.wrap_by_bookmark(bookmarks.generate_id(), &toc_key);
                     }
 
                     if let Some((_min, _max)) = toc.instr.tc_field_level_range {
@@ -1974,14 +2010,14 @@ fn update_document_by_toc(
                     .copied();
                 if let Some(level) = custom_level {
                     if min <= level && max >= level {
-                        let toc_key = TocKey::generate();
+                        let toc_key = bookmarks.generate_key();
                         items.push(
                             TableOfContentsItem::new()
                                 .text(toc_item_text(paragraph))
                                 .toc_key(&toc_key)
                                 .level(level),
                         );
-                        paragraph.wrap_by_bookmark(generate_bookmark_id(), &toc_key);
+                        paragraph.wrap_by_bookmark(bookmarks.generate_id(), &toc_key);
                     }
                 }
             }
-- 
2.43.0


From 92742a791c3e561dc6f936018fd74acd1ade208f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:11:51 +0000
Subject: [PATCH 056/105] fix: keep tabs and breaks of moved runs in the text
 of a paragraph

---
 docx-core/src/documents/elements/paragraph.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/docx-core/src/documents/elements/paragraph.rs b/docx-core/src/documents/elements/paragraph.rs
index b45637e..ab3cce8 100644
--- a/docx-core/src/documents/elements/paragraph.rs
+++ b/docx-core/src/documents/elements/paragraph.rs
@@ -451,8 +451,17 @@ impl Paragraph {
                     for c in mt.children.iter() {
                         if let MoveToChild::Run(r) = c {
                             for c in r.children.iter() {
-                                if let RunChild::Text(t) = c {
-                                    s.push_str(&t.text);
+                                match c {
+                                    RunChild::Text(t) => {
+                                        s.push_str(&t.text);
+                                    }
+                                    RunChild::Tab(_) | RunChild::PTab(_) => {
+                                        s.push('\t');
+                                    }
+                                    RunChild::Break(_) | RunChild::CarriageReturn(_) => {
+                                        s.push('\n');
+                                    }
+                                    _ => {}
                                 }
                             }
                         }
-- 
2.43.0


From ec087f328e4ad1ea20fcf90a6f76082167ce05ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:21:03 +0000
Subject: [PATCH 057/105] fix: read content controls inside content controls

---
 docx-core/src/reader/structured_data_tag.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/docx-core/src/reader/structured_data_tag.rs b/docx-core/src/reader/structured_data_tag.rs
index b97e008..4999bdb 100644
--- a/docx-core/src/reader/structured_data_tag.rs
+++ b/docx-core/src/reader/structured_data_tag.rs
@@ -34,6 +34,13 @@ impl ElementReader for StructuredDataTag {
                             }
                             continue;
                         }
+                        XMLElement::StructuredDataTag => {
+                            if let Ok(tag) = StructuredDataTag::read(r, &attributes) {
+                                sdt.children
+                                    .push(StructuredDataTagChild::StructuredDataTag(Box::new(tag)));
+                            }
+                            continue;
+                        }
                         XMLElement::BookmarkStart => {
                             if let Ok(s) = BookmarkStart::read(r, &attributes) {
                                 sdt.children.push(StructuredDataTagChild::BookmarkStart(s));
-- 
2.43.0


From 1243db3671456f11d06718bf9aed576407ada1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:21:03 +0000
Subject: [PATCH 058/105] fix: do not take the text after an empty field
 instruction for the instruction

---
 docx-core/src/reader/run.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/docx-core/src/reader/run.rs b/docx-core/src/reader/run.rs
index 1e5487e..c4a82f0 100644
--- a/docx-core/src/reader/run.rs
+++ b/docx-core/src/reader/run.rs
@@ -121,6 +121,7 @@ impl ElementReader for Run {
                                                 XMLElement::Run => {
                                                     return Ok(run);
                                                 }
+                                                XMLElement::InstrText => break,
                                                 _ => {}
                                             }
                                         }
-- 
2.43.0


From ee936df3cf49708ae2faa61b020547a6e50a74ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:26:21 +0000
Subject: [PATCH 059/105] fix: write the instruction of hyperlink fields
 instead of panicking

---
 .../documents/elements/delete_instr_text.rs   |  2 +-
 .../src/documents/elements/instr_hyperlink.rs | 29 +++++++++++++++----
 .../src/documents/elements/instr_text.rs      |  2 +-
 3 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/docx-core/src/documents/elements/delete_instr_text.rs b/docx-core/src/documents/elements/delete_instr_text.rs
index 33e20da..873b20f 100644
--- a/docx-core/src/documents/elements/delete_instr_text.rs
+++ b/docx-core/src/documents/elements/delete_instr_text.rs
@@ -25,7 +25,7 @@ impl BuildXML for DeleteInstrText {
                 DeleteInstrText::TOC(toc) => b.add_child(toc),
                 DeleteInstrText::TC(tc) => b.add_child(tc),
                 DeleteInstrText::PAGEREF(page_ref) => b.add_child(page_ref),
-                DeleteInstrText::HYPERLINK(_link) => todo!(),
+                DeleteInstrText::HYPERLINK(link) => b.add_child(link),
                 DeleteInstrText::Unsupported(s) => b.plain_text(s),
             })?
             .close()?
diff --git a/docx-core/src/documents/elements/instr_hyperlink.rs b/docx-core/src/documents/elements/instr_hyperlink.rs
index 9faf170..8ffa6b6 100644
--- a/docx-core/src/documents/elements/instr_hyperlink.rs
+++ b/docx-core/src/documents/elements/instr_hyperlink.rs
@@ -1,4 +1,9 @@
 use serde::Serialize;
+use std::io::Write;
+
+use crate::documents::*;
+use crate::escape::escape;
+use crate::xml_builder::XMLBuilder;
 
 // https://c-rex.net/projects/samples/ooxml/e1/Part4/OOXML_P4_DOCX_HYPERLINKHYPERLINK_topic_ID0EFYG1.html
 #[derive(Serialize, Debug, Clone, PartialEq, Default)]
@@ -20,11 +25,25 @@ impl InstrHyperlink {
     }
 }
 
-// impl BuildXML for instrHyperlink {
-//     fn build(&self) -> Vec<u8> {
-// TODO:
-//     }
-// }
+impl BuildXML for InstrHyperlink {
+    fn build_to<W: Write>(
+        &self,
+        stream: crate::xml::writer::EventWriter<W>,
+    ) -> crate::xml::writer::Result<crate::xml::writer::EventWriter<W>> {
+        let mut b = XMLBuilder::from(stream);
+        let raw = b.inner_mut()?;
+
+        write!(raw, "HYPERLINK")?;
+
+        if self.anchor {
+            write!(raw, " \\l")?;
+        }
+
+        write!(raw, " &quot;{}&quot;", escape(&self.target))?;
+
+        b.into_inner()
+    }
+}
 
 impl std::str::FromStr for InstrHyperlink {
     type Err = ();
diff --git a/docx-core/src/documents/elements/instr_text.rs b/docx-core/src/documents/elements/instr_text.rs
index e063933..84ac94c 100644
--- a/docx-core/src/documents/elements/instr_text.rs
+++ b/docx-core/src/documents/elements/instr_text.rs
@@ -29,7 +29,7 @@ impl BuildXML for Box<InstrText> {
                 InstrText::PAGEREF(page_ref) => b.add_child(page_ref),
                 InstrText::PAGE(page) => b.add_child(page),
                 InstrText::NUMPAGES(page) => b.add_child(page),
-                InstrText::HYPERLINK(_link) => todo!(),
+                InstrText::HYPERLINK(link) => b.add_child(link),
                 InstrText::Unsupported(s) => b.plain_text(s),
             })?
             .close()?
-- 
2.43.0


From 6bad29c373366a1a25ea019da8f1a85534d446ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:36:19 +0000
Subject: [PATCH 060/105] fix: keep quoted texts of several words together in
 field instructions

---
 .../src/documents/elements/instr_hyperlink.rs |  3 ++-
 docx-core/src/documents/elements/instr_toc.rs | 26 ++++++++++++++++++-
 2 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/docx-core/src/documents/elements/instr_hyperlink.rs b/docx-core/src/documents/elements/instr_hyperlink.rs
index 8ffa6b6..86f1ece 100644
--- a/docx-core/src/documents/elements/instr_hyperlink.rs
+++ b/docx-core/src/documents/elements/instr_hyperlink.rs
@@ -49,7 +49,8 @@ impl std::str::FromStr for InstrHyperlink {
     type Err = ();
 
     fn from_str(instr: &str) -> Result<Self, Self::Err> {
-        let mut s = instr.split(' ');
+        let tokens = split_instr(instr);
+        let mut s = tokens.iter().map(String::as_str);
         let mut target = "".to_string();
         let mut anchor = false;
         loop {
diff --git a/docx-core/src/documents/elements/instr_toc.rs b/docx-core/src/documents/elements/instr_toc.rs
index b2850fa..2475cbd 100644
--- a/docx-core/src/documents/elements/instr_toc.rs
+++ b/docx-core/src/documents/elements/instr_toc.rs
@@ -265,6 +265,29 @@ impl BuildXML for InstrToC {
     }
 }
 
+/// Splits an instruction at blanks, except within quotes.
+pub(crate) fn split_instr(instr: &str) -> Vec<String> {
+    let mut tokens = vec![];
+    let mut token = String::new();
+    let mut quoted = false;
+    for c in instr.replace("&quot;", "\"").chars() {
+        if c == '"' {
+            quoted = !quoted;
+        }
+        if c == ' ' && !quoted {
+            if !token.is_empty() {
+                tokens.push(std::mem::take(&mut token));
+            }
+        } else {
+            token.push(c);
+        }
+    }
+    if !token.is_empty() {
+        tokens.push(token);
+    }
+    tokens
+}
+
 fn parse_level_range(i: &str) -> Option<(usize, usize)> {
     let r = i.replace("&quot;", "").replace('\"', "");
     let r: Vec<&str> = r.split('-').collect();
@@ -284,7 +307,8 @@ impl std::str::FromStr for InstrToC {
     type Err = ();
 
     fn from_str(instr: &str) -> Result<Self, Self::Err> {
-        let mut s = instr.split(' ').peekable();
+        let tokens = split_instr(instr);
+        let mut s = tokens.iter().map(String::as_str).peekable();
         let mut toc = InstrToC::new();
         loop {
             if let Some(i) = s.next() {
-- 
2.43.0


From 55e33f560789ac3224f6f671939bc6fe6b6d8896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:36:19 +0000
Subject: [PATCH 061/105] fix: read switches of a table of contents which have
 no argument

---
 docx-core/src/documents/elements/instr_toc.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/docx-core/src/documents/elements/instr_toc.rs b/docx-core/src/documents/elements/instr_toc.rs
index 2475cbd..e5437c5 100644
--- a/docx-core/src/documents/elements/instr_toc.rs
+++ b/docx-core/src/documents/elements/instr_toc.rs
@@ -351,25 +351,27 @@ impl std::str::FromStr for InstrToC {
                             } else {
                                 toc = toc.tc_field_identifier(None);
                             }
+                        } else {
+                            toc = toc.tc_field_identifier(None);
                         }
                     }
                     "\\h" => toc = toc.hyperlink(),
                     "\\l" => {
-                        if let Some(r) = s.next() {
+                        if let Some(r) = s.next_if(|n| !n.starts_with('\\')) {
                             if let Some((s, e)) = parse_level_range(r) {
                                 toc = toc.tc_field_level_range(s, e);
                             }
                         }
                     }
                     "\\n" => {
-                        if let Some(r) = s.next() {
+                        if let Some(r) = s.next_if(|n| !n.starts_with('\\')) {
                             if let Some((s, e)) = parse_level_range(r) {
                                 toc = toc.omit_page_numbers_level_range(s, e);
                             }
                         }
                     }
                     "\\o" => {
-                        if let Some(r) = s.next() {
+                        if let Some(r) = s.next_if(|n| !n.starts_with('\\')) {
                             if let Some((s, e)) = parse_level_range(r) {
                                 toc = toc.heading_styles_range(s, e);
                             }
-- 
2.43.0


From 3794a92983b953e6c3d78b716c7302f87aa31a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:48:49 +0000
Subject: [PATCH 062/105] fix: do not give paragraphs made while writing ids of
 other paragraphs

---
 docx-core/src/documents/mod.rs          | 18 ++++++++++++++++++
 docx-core/src/documents/paragraph_id.rs | 11 +++++++++++
 2 files changed, 29 insertions(+)

diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index 7fabf90..a0085e4 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -906,9 +906,27 @@ impl Docx {
         let has_toc = self.expand_auto_tocs();
         self.refresh_duplicate_para_ids();
         self.update_dependencies();
+        self.reserve_para_ids();
         has_toc
     }
 
+    /// Keeps paragraphs which only come into being while writing from getting ids in use.
+    fn reserve_para_ids(&self) {
+        const END: u32 = 0x8000_0000;
+        let mut counts: HashMap<&str, usize> = HashMap::new();
+        collect_para_ids_in_docx(self, &mut counts);
+        let mut used: Vec<u32> = counts
+            .keys()
+            .filter_map(|id| u32::from_str_radix(id, 16).ok())
+            .filter(|id| *id < END)
+            .chain([0, END])
+            .collect();
+        used.sort_unstable();
+        // The first one of the widest range of unused ids.
+        let widest = used.windows(2).rev().max_by_key(|ids| ids[1] - ids[0]);
+        start_para_ids(widest.map_or(1, |ids| ids[0] + 1));
+    }
+
     /// Normalizes the document and collects metadata shared by buffered and
     /// streaming package output.
     fn prepare_package(&mut self) -> PackageMetadata {
diff --git a/docx-core/src/documents/paragraph_id.rs b/docx-core/src/documents/paragraph_id.rs
index 051e311..a815fd0 100644
--- a/docx-core/src/documents/paragraph_id.rs
+++ b/docx-core/src/documents/paragraph_id.rs
@@ -23,6 +23,17 @@ pub fn reset_para_id() {
     PARA_ID.set(1);
 }
 
+/// Makes the following ids start with the given one.
+#[cfg(not(test))]
+pub(crate) fn start_para_ids(first: u32) {
+    PARA_ID.set(first);
+}
+
+#[cfg(test)]
+pub(crate) fn start_para_ids(_first: u32) {
+    // NOP
+}
+
 #[cfg(test)]
 pub fn generate_para_id() -> String {
     "12345678".to_owned()
-- 
2.43.0


From e86994f8fe23f0dc7b38a654e8f8afb62a4be12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:48:50 +0000
Subject: [PATCH 063/105] fix: give paragraphs in headers and footers of
 sections ended by a paragraph ids of their own

---
 docx-core/src/documents/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index a0085e4..f5cc5a1 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -1361,6 +1361,9 @@ fn collect_para_ids_in_paragraph<'a>(
 ) {
     *counts.entry(paragraph.id.as_str()).or_insert(0) += 1;
 
+    if let Some(property) = &paragraph.property.section_property {
+        collect_para_ids_in_section_property(property, counts);
+    }
     for child in &paragraph.children {
         match child {
             ParagraphChild::Run(run) => collect_para_ids_in_run(run, counts),
@@ -1687,6 +1690,9 @@ fn refresh_para_ids_in_paragraph(
 ) {
     ensure_unique_paragraph_id(paragraph, duplicates, used, seen);
 
+    if let Some(property) = &mut paragraph.property.section_property {
+        refresh_para_ids_in_section_property(property, duplicates, used, seen);
+    }
     for child in &mut paragraph.children {
         match child {
             ParagraphChild::Run(run) => refresh_para_ids_in_run(run, duplicates, used, seen),
-- 
2.43.0


From cbad82e5b8a177a2e7a493756dd5126ebc226f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:48:51 +0000
Subject: [PATCH 064/105] fix: give paragraphs of footnotes ids of their own

---
 docx-core/src/documents/mod.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index f5cc5a1..fb27765 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -1450,8 +1450,14 @@ fn collect_para_ids_in_move_to<'a>(moved: &'a MoveTo, counts: &mut HashMap<&'a s
 
 fn collect_para_ids_in_run<'a>(run: &'a Run, counts: &mut HashMap<&'a str, usize>) {
     for child in &run.children {
-        if let RunChild::CommentStart(c) = child {
-            collect_para_ids_in_comment(&c.comment, counts);
+        match child {
+            RunChild::CommentStart(c) => collect_para_ids_in_comment(&c.comment, counts),
+            RunChild::FootnoteReference(reference) => {
+                for paragraph in &reference.content {
+                    collect_para_ids_in_paragraph(paragraph, counts);
+                }
+            }
+            _ => {}
         }
     }
 }
@@ -1838,8 +1844,16 @@ fn refresh_para_ids_in_run(
     seen: &mut HashSet<String>,
 ) {
     for child in &mut run.children {
-        if let RunChild::CommentStart(c) = child {
-            refresh_para_ids_in_comment(&mut c.comment, duplicates, used, seen);
+        match child {
+            RunChild::CommentStart(c) => {
+                refresh_para_ids_in_comment(&mut c.comment, duplicates, used, seen)
+            }
+            RunChild::FootnoteReference(reference) => {
+                for paragraph in &mut reference.content {
+                    refresh_para_ids_in_paragraph(paragraph, duplicates, used, seen);
+                }
+            }
+            _ => {}
         }
     }
 }
-- 
2.43.0


From c57c96dabfbff007fb91bf1a51bac18dd3f9cc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:50:21 +0000
Subject: [PATCH 065/105] fix: tell paragraph ids apart by their value, not
 their spelling

---
 docx-core/src/documents/mod.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/docx-core/src/documents/mod.rs b/docx-core/src/documents/mod.rs
index fb27765..6c670cf 100644
--- a/docx-core/src/documents/mod.rs
+++ b/docx-core/src/documents/mod.rs
@@ -984,20 +984,26 @@ impl Docx {
 
     /// Replaces empty and duplicate paragraph IDs with unique values.
     fn refresh_duplicate_para_ids(&mut self) {
-        let mut counts: HashMap<&str, usize> = HashMap::new();
-        collect_para_ids_in_docx(self, &mut counts);
+        let mut spellings: HashMap<&str, usize> = HashMap::new();
+        collect_para_ids_in_docx(self, &mut spellings);
+
+        // Ids are hexadecimal numbers, so case does not tell them apart.
+        let mut counts: HashMap<String, usize> = HashMap::new();
+        for (id, count) in spellings {
+            *counts.entry(id.to_ascii_lowercase()).or_insert(0) += count;
+        }
 
         let duplicates: HashSet<String> = counts
             .iter()
             .filter(|(_, count)| **count > 1)
-            .map(|(id, _)| (*id).to_owned())
+            .map(|(id, _)| id.clone())
             .collect();
         let has_empty_id = counts.contains_key("");
         if duplicates.is_empty() && !has_empty_id {
             return;
         }
 
-        let mut used: HashSet<String> = counts.into_keys().map(str::to_owned).collect();
+        let mut used: HashSet<String> = counts.into_keys().collect();
         let mut seen: HashSet<String> = HashSet::new();
 
         refresh_para_ids_in_docx(self, &duplicates, &mut used, &mut seen);
@@ -1908,10 +1914,11 @@ fn ensure_unique_paragraph_id(
     used: &mut HashSet<String>,
     seen: &mut HashSet<String>,
 ) {
-    if !paragraph.id.is_empty() && !duplicates.contains(&paragraph.id) {
+    let id = paragraph.id.to_ascii_lowercase();
+    if !id.is_empty() && !duplicates.contains(&id) {
         return;
     }
-    if !paragraph.id.is_empty() && seen.insert(paragraph.id.clone()) {
+    if !id.is_empty() && seen.insert(id) {
         return;
     }
 
-- 
2.43.0


From 544d25c32d00cbacab58ba7ca4a0b32501bbf9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:58:40 +0000
Subject: [PATCH 066/105] fix: do not overflow when converting large pixel
 sizes

---
 docx-core/src/types/emu.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/docx-core/src/types/emu.rs b/docx-core/src/types/emu.rs
index c45f48f..b22ec7c 100644
--- a/docx-core/src/types/emu.rs
+++ b/docx-core/src/types/emu.rs
@@ -7,5 +7,5 @@ pub fn to_px(v: Emu) -> u32 {
 }
 
 pub fn from_px(v: Emu) -> u32 {
-    v * 9525
+    v.saturating_mul(9525)
 }
-- 
2.43.0


From 737c8b4103b35ee134ba72a4f479075e8fea0cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:58:40 +0000
Subject: [PATCH 067/105] fix: write the simple position and overlap settings
 of floating images

---
 docx-core/src/documents/elements/drawing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/docx-core/src/documents/elements/drawing.rs b/docx-core/src/documents/elements/drawing.rs
index c207d77..aca62a7 100644
--- a/docx-core/src/documents/elements/drawing.rs
+++ b/docx-core/src/documents/elements/drawing.rs
@@ -80,8 +80,8 @@ impl BuildXML for Drawing {
                             &format!("{}", p.dist_b),
                             &format!("{}", p.dist_l),
                             &format!("{}", p.dist_r),
-                            "0",
                             if p.simple_pos { "1" } else { "0" },
+                            if p.allow_overlap { "1" } else { "0" },
                             "0",
                             "0",
                             if p.layout_in_cell { "1" } else { "0" },
-- 
2.43.0


From 66a136ced27d58d91f38cb00fd23cd4b1bc97863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:58:40 +0000
Subject: [PATCH 068/105] fix: write negative offsets of floating images

---
 docx-core/src/documents/elements/drawing.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/docx-core/src/documents/elements/drawing.rs b/docx-core/src/documents/elements/drawing.rs
index aca62a7..580037b 100644
--- a/docx-core/src/documents/elements/drawing.rs
+++ b/docx-core/src/documents/elements/drawing.rs
@@ -95,7 +95,7 @@ impl BuildXML for Drawing {
 
                     match p.position_h {
                         DrawingPosition::Offset(x) => {
-                            let x = format!("{}", x as u32);
+                            let x = format!("{}", x);
                             b = b.pos_offset(&x)?.close()?;
                         }
                         DrawingPosition::Align(x) => {
@@ -107,7 +107,7 @@ impl BuildXML for Drawing {
 
                     match p.position_v {
                         DrawingPosition::Offset(y) => {
-                            let y = format!("{}", y as u32);
+                            let y = format!("{}", y);
                             b = b.pos_offset(&y)?.close()?;
                         }
                         DrawingPosition::Align(a) => {
-- 
2.43.0


From ce2ec722c69789f147dadf26997dfb308e691a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:58:40 +0000
Subject: [PATCH 069/105] fix: do not take an extension of an image for its
 size

---
 docx-core/src/reader/pic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/docx-core/src/reader/pic.rs b/docx-core/src/reader/pic.rs
index 0cbfba8..a946935 100644
--- a/docx-core/src/reader/pic.rs
+++ b/docx-core/src/reader/pic.rs
@@ -39,7 +39,7 @@ impl ElementReader for Pic {
                                 }
                                 pic = pic.offset_x(offset_x).offset_y(offset_y);
                             }
-                            AXMLElement::Ext => {
+                            AXMLElement::Ext if read(&attributes, "cx").is_some() => {
                                 let mut w: u32 = 0;
                                 let mut h: u32 = 0;
                                 if let Some(x) = read(&attributes, "cx") {
-- 
2.43.0


From c15baf8154d7a3070bf2a7e50a0d0d54bb25d183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:58:54 +0000
Subject: [PATCH 070/105] fix: read the rotation of images

---
 docx-core/src/reader/pic.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/docx-core/src/reader/pic.rs b/docx-core/src/reader/pic.rs
index a946935..1570ca1 100644
--- a/docx-core/src/reader/pic.rs
+++ b/docx-core/src/reader/pic.rs
@@ -24,6 +24,15 @@ impl ElementReader for Pic {
                                     pic = pic.id(id)
                                 }
                             }
+                            AXMLElement::Xfrm => {
+                                if let Some(rot) = read(&attributes, "rot") {
+                                    if let Ok(rot) = i64::from_str(&rot) {
+                                        // 60000ths of a degree
+                                        let rot = (rot as f64 / 60000.0).round() as i64;
+                                        pic = pic.rotate(rot.rem_euclid(360) as u16);
+                                    }
+                                }
+                            }
                             AXMLElement::Off => {
                                 let mut offset_x: i32 = 0;
                                 let mut offset_y: i32 = 0;
-- 
2.43.0


From 7b6ad20a9b7a52576a35d58dc884e6df9b59eba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:00:03 +0000
Subject: [PATCH 071/105] fix: read aligned positions of floating drawings

---
 docx-core/src/reader/drawing.rs | 43 ++++++++++++++++++++++-----------
 1 file changed, 29 insertions(+), 14 deletions(-)

diff --git a/docx-core/src/reader/drawing.rs b/docx-core/src/reader/drawing.rs
index 86beca6..f205515 100644
--- a/docx-core/src/reader/drawing.rs
+++ b/docx-core/src/reader/drawing.rs
@@ -8,11 +8,22 @@ use crate::{DrawingPositionType, RelativeFromHType, RelativeFromVType};
 
 use super::*;
 
+fn read_align(s: &str) -> Option<PicAlign> {
+    match s.trim() {
+        "left" => Some(PicAlign::Left),
+        "right" => Some(PicAlign::Right),
+        "center" => Some(PicAlign::Center),
+        "bottom" => Some(PicAlign::Bottom),
+        "top" => Some(PicAlign::Top),
+        _ => None,
+    }
+}
+
 fn read_position_h<R: Read>(
     r: &mut EventReader<R>,
     attrs: &[OwnedAttribute],
-) -> Result<(RelativeFromHType, i32), ReaderError> {
-    let mut offset: i32 = 0;
+) -> Result<(RelativeFromHType, DrawingPosition), ReaderError> {
+    let mut position = DrawingPosition::Offset(0);
     let mut relative_from_h = RelativeFromHType::default();
 
     loop {
@@ -25,13 +36,15 @@ fn read_position_h<R: Read>(
         match e {
             Ok(XmlEvent::Characters(c)) => {
                 if let Ok(p) = f64::from_str(&c) {
-                    offset = p as i32;
+                    position = DrawingPosition::Offset(p as i32);
+                } else if let Some(a) = read_align(&c) {
+                    position = DrawingPosition::Align(a);
                 }
             }
             Ok(XmlEvent::EndElement { name, .. }) => {
                 let e = WpXMLElement::from_str(&name.local_name).unwrap();
                 if e == WpXMLElement::PositionH {
-                    return Ok((relative_from_h, offset));
+                    return Ok((relative_from_h, position));
                 }
             }
             Err(_) => return Err(ReaderError::XMLReadError),
@@ -43,8 +56,8 @@ fn read_position_h<R: Read>(
 fn read_position_v<R: Read>(
     r: &mut EventReader<R>,
     attrs: &[OwnedAttribute],
-) -> Result<(RelativeFromVType, i32), ReaderError> {
-    let mut offset: i32 = 0;
+) -> Result<(RelativeFromVType, DrawingPosition), ReaderError> {
+    let mut position = DrawingPosition::Offset(0);
     let mut relative_from_v = RelativeFromVType::default();
     loop {
         if let Some(v) = read(attrs, "relativeFrom") {
@@ -57,13 +70,15 @@ fn read_position_v<R: Read>(
         match e {
             Ok(XmlEvent::Characters(c)) => {
                 if let Ok(p) = f64::from_str(&c) {
-                    offset = p as i32;
+                    position = DrawingPosition::Offset(p as i32);
+                } else if let Some(a) = read_align(&c) {
+                    position = DrawingPosition::Align(a);
                 }
             }
             Ok(XmlEvent::EndElement { name, .. }) => {
                 let e = WpXMLElement::from_str(&name.local_name).unwrap();
                 if e == WpXMLElement::PositionV {
-                    return Ok((relative_from_v, offset));
+                    return Ok((relative_from_v, position));
                 }
             }
             Err(_) => return Err(ReaderError::XMLReadError),
@@ -123,8 +138,8 @@ impl ElementReader for Drawing {
         let mut simple_pos_y = 0;
         let mut layout_in_cell = true;
         let mut relative_height = 0;
-        let mut position_h = 0;
-        let mut position_v = 0;
+        let mut position_h = DrawingPosition::Offset(0);
+        let mut position_v = DrawingPosition::Offset(0);
         let mut relative_from_h = RelativeFromHType::default();
         let mut relative_from_v = RelativeFromVType::default();
         let mut allow_overlap = true;
@@ -252,8 +267,8 @@ impl ElementReader for Drawing {
                             pic.dist_r = dist_r;
                             pic.relative_from_h = relative_from_h;
                             pic.relative_from_v = relative_from_v;
-                            pic.position_v = DrawingPosition::Offset(position_v);
-                            pic.position_h = DrawingPosition::Offset(position_h);
+                            pic.position_v = position_v;
+                            pic.position_h = position_h;
                             drawing = drawing.pic(pic);
                         }
                     }
@@ -276,8 +291,8 @@ impl ElementReader for Drawing {
                             text_box.dist_r = dist_r;
                             text_box.relative_from_h = relative_from_h;
                             text_box.relative_from_v = relative_from_v;
-                            text_box.position_v = DrawingPosition::Offset(position_v);
-                            text_box.position_h = DrawingPosition::Offset(position_h);
+                            text_box.position_v = position_v;
+                            text_box.position_h = position_h;
                             text_box.children = children;
                             drawing = drawing.text_box(text_box);
                         }
-- 
2.43.0


From 4ec2682b6638c77df38192bd8ae94735e34bf17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:44:10 +0000
Subject: [PATCH 072/105] fix: do not generate the same id twice in several
 threads

---
 docx-core/src/documents/bookmark_id.rs                  | 4 +---
 docx-core/src/documents/footnote_id.rs                  | 4 +---
 docx-core/src/documents/history_id.rs                   | 3 +--
 docx-core/src/documents/hyperlink_id.rs                 | 4 +---
 docx-core/src/documents/paragraph_property_change_id.rs | 3 +--
 docx-core/src/documents/pic_id.rs                       | 4 +---
 docx-core/src/documents/toc_key.rs                      | 3 +--
 7 files changed, 7 insertions(+), 18 deletions(-)

diff --git a/docx-core/src/documents/bookmark_id.rs b/docx-core/src/documents/bookmark_id.rs
index d418935..900eb06 100644
--- a/docx-core/src/documents/bookmark_id.rs
+++ b/docx-core/src/documents/bookmark_id.rs
@@ -7,9 +7,7 @@ static BOOKMARK_ID: AtomicUsize = AtomicUsize::new(1);
 pub fn generate_bookmark_id() -> usize {
     use std::sync::atomic::Ordering;
 
-    let id = BOOKMARK_ID.load(Ordering::Relaxed);
-    BOOKMARK_ID.store(id.wrapping_add(1), Ordering::Relaxed);
-    id
+    BOOKMARK_ID.fetch_add(1, Ordering::Relaxed)
 }
 
 #[cfg(not(test))]
diff --git a/docx-core/src/documents/footnote_id.rs b/docx-core/src/documents/footnote_id.rs
index f947529..f9ae56a 100644
--- a/docx-core/src/documents/footnote_id.rs
+++ b/docx-core/src/documents/footnote_id.rs
@@ -7,9 +7,7 @@ static FOOTNOTE_ID: AtomicUsize = AtomicUsize::new(1);
 pub fn generate_footnote_id() -> usize {
     use std::sync::atomic::Ordering;
 
-    let id = FOOTNOTE_ID.load(Ordering::Relaxed);
-    FOOTNOTE_ID.store(id.wrapping_add(1), Ordering::Relaxed);
-    id
+    FOOTNOTE_ID.fetch_add(1, Ordering::Relaxed)
 }
 
 #[cfg(test)]
diff --git a/docx-core/src/documents/history_id.rs b/docx-core/src/documents/history_id.rs
index 77f1be4..8b6ab2f 100644
--- a/docx-core/src/documents/history_id.rs
+++ b/docx-core/src/documents/history_id.rs
@@ -8,8 +8,7 @@ pub trait HistoryId {
     fn generate(&self) -> String {
         use std::sync::atomic::Ordering;
 
-        let id = HISTORY_ID.load(Ordering::Relaxed);
-        HISTORY_ID.store(id + 1, Ordering::Relaxed);
+        let id = HISTORY_ID.fetch_add(1, Ordering::Relaxed);
         format!("{id}")
     }
 }
diff --git a/docx-core/src/documents/hyperlink_id.rs b/docx-core/src/documents/hyperlink_id.rs
index d972142..4a7184a 100644
--- a/docx-core/src/documents/hyperlink_id.rs
+++ b/docx-core/src/documents/hyperlink_id.rs
@@ -7,9 +7,7 @@ static HYPERLINK_ID: AtomicUsize = AtomicUsize::new(1);
 pub fn generate_hyperlink_id() -> usize {
     use std::sync::atomic::Ordering;
 
-    let id = HYPERLINK_ID.load(Ordering::Relaxed);
-    HYPERLINK_ID.store(id.wrapping_add(1), Ordering::Relaxed);
-    id
+    HYPERLINK_ID.fetch_add(1, Ordering::Relaxed)
 }
 
 #[cfg(test)]
diff --git a/docx-core/src/documents/paragraph_property_change_id.rs b/docx-core/src/documents/paragraph_property_change_id.rs
index bb35284..7624bc6 100644
--- a/docx-core/src/documents/paragraph_property_change_id.rs
+++ b/docx-core/src/documents/paragraph_property_change_id.rs
@@ -8,8 +8,7 @@ pub trait ParagraphPropertyChangeId {
     fn generate(&self) -> String {
         use std::sync::atomic::Ordering;
 
-        let id = HISTORY_ID.load(Ordering::Relaxed);
-        HISTORY_ID.store(id + 1, Ordering::Relaxed);
+        let id = HISTORY_ID.fetch_add(1, Ordering::Relaxed);
         format!("{id}")
     }
 }
diff --git a/docx-core/src/documents/pic_id.rs b/docx-core/src/documents/pic_id.rs
index b9939aa..3fd5f91 100644
--- a/docx-core/src/documents/pic_id.rs
+++ b/docx-core/src/documents/pic_id.rs
@@ -7,9 +7,7 @@ static PIC_ID: AtomicUsize = AtomicUsize::new(1);
 pub fn generate_pic_id() -> usize {
     use std::sync::atomic::Ordering;
 
-    let id = PIC_ID.load(Ordering::Relaxed);
-    PIC_ID.store(id.wrapping_add(1), Ordering::Relaxed);
-    id
+    PIC_ID.fetch_add(1, Ordering::Relaxed)
 }
 
 #[cfg(test)]
diff --git a/docx-core/src/documents/toc_key.rs b/docx-core/src/documents/toc_key.rs
index 6de125f..27d62a5 100644
--- a/docx-core/src/documents/toc_key.rs
+++ b/docx-core/src/documents/toc_key.rs
@@ -8,8 +8,7 @@ pub trait TocKeyGenerator {
     fn generate() -> String {
         use std::sync::atomic::Ordering;
 
-        let id = TOC_KEY.load(Ordering::Relaxed);
-        TOC_KEY.store(id + 1, Ordering::Relaxed);
+        let id = TOC_KEY.fetch_add(1, Ordering::Relaxed);
         format!("_Toc{id:08}")
     }
 }
-- 
2.43.0


From 0de1afd40410fbcc8acd7d3374b43eef708ad9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:50:32 +0000
Subject: [PATCH 073/105] fix: drop characters XML does not allow when escaping
 texts

Field instructions are written without going through the XML writer, so a
control character in the text of an entry or the target of a link made the
part malformed.
---
 docx-core/src/escape/mod.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/docx-core/src/escape/mod.rs b/docx-core/src/escape/mod.rs
index e29efc4..c22d4c3 100644
--- a/docx-core/src/escape/mod.rs
+++ b/docx-core/src/escape/mod.rs
@@ -10,6 +10,8 @@ pub(crate) fn escape(text: &str) -> String {
             '\n' => escaped.push_str("&#xA;"),
             // Escaping carriage returns causes errors in LibreOffice.
             '\r' => {}
+            // XML does not allow these characters.
+            '\u{0}'..='\u{8}' | '\u{b}'..='\u{1f}' | '\u{fffe}' | '\u{ffff}' => {}
             _ => escaped.push(ch),
         }
     }
@@ -21,11 +23,10 @@ pub(crate) fn escape(text: &str) -> String {
 /// The original `String` is returned unchanged when it contains no character
 /// that needs escaping or removal.
 pub(crate) fn escape_owned(text: String) -> String {
-    if text
-        .as_bytes()
-        .iter()
-        .any(|byte| matches!(byte, b'&' | b'<' | b'>' | b'"' | b'\'' | b'\n' | b'\r'))
-    {
+    if text.contains(|ch| {
+        matches!(ch, '&' | '<' | '>' | '"' | '\'' | '\n' | '\r')
+            || matches!(ch, '\u{0}'..='\u{8}' | '\u{b}'..='\u{1f}' | '\u{fffe}' | '\u{ffff}')
+    }) {
         escape(&text)
     } else {
         text
-- 
2.43.0


From bb43d7de626c0dce617ee86d539b2fde5733d74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:16:13 +0000
Subject: [PATCH 074/105] fix: read widths without a type as measured in
 twentieths of a point

---
 docx-core/src/reader/attributes/width.rs    | 2 +-
 docx-core/src/reader/table_cell_property.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/docx-core/src/reader/attributes/width.rs b/docx-core/src/reader/attributes/width.rs
index b33f87f..3a51f78 100644
--- a/docx-core/src/reader/attributes/width.rs
+++ b/docx-core/src/reader/attributes/width.rs
@@ -8,7 +8,7 @@ use super::super::errors::*;
 
 pub fn read_width(attrs: &[OwnedAttribute]) -> Result<(isize, WidthType), ReaderError> {
     let mut w = 0;
-    let mut width_type = WidthType::Auto;
+    let mut width_type = WidthType::Dxa;
     for a in attrs {
         let local_name = &a.name.local_name;
         if local_name == "type" {
diff --git a/docx-core/src/reader/table_cell_property.rs b/docx-core/src/reader/table_cell_property.rs
index 9579b6b..f377a14 100644
--- a/docx-core/src/reader/table_cell_property.rs
+++ b/docx-core/src/reader/table_cell_property.rs
@@ -19,7 +19,7 @@ impl ElementReader for TableCellProperty {
                     match e {
                         XMLElement::TableCellWidth => {
                             let mut w = 0;
-                            let mut width_type = WidthType::Auto;
+                            let mut width_type = WidthType::Dxa;
                             for a in attributes {
                                 let local_name = &a.name.local_name;
                                 if local_name == "type" {
-- 
2.43.0


From a0d4d4dc892b606a538dcb8acd5315852d83098f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:34:21 +0000
Subject: [PATCH 075/105] fix: keep conditional table formatting out of a
 style's own properties

The style reader went into w:tblStylePr and took the formatting of the
first row, last column and so on for the formatting of the whole style.
---
 docx-core/src/reader/style.rs       | 3 +++
 docx-core/src/reader/xml_element.rs | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/docx-core/src/reader/style.rs b/docx-core/src/reader/style.rs
index bb9557a..985b72e 100644
--- a/docx-core/src/reader/style.rs
+++ b/docx-core/src/reader/style.rs
@@ -28,6 +28,9 @@ impl ElementReader for Style {
                     attributes, name, ..
                 }) => {
                     let e = XMLElement::from_str(&name.local_name).unwrap();
+                    // Formatting of parts of a table (first row etc.) is not the style's own.
+                    ignore::ignore_element(e.clone(), XMLElement::TableStyleProperty, r);
+
                     match e {
                         XMLElement::Name => {
                             if let Some(v) = read_val(&attributes) {
diff --git a/docx-core/src/reader/xml_element.rs b/docx-core/src/reader/xml_element.rs
index 4ddc7ba..7062247 100644
--- a/docx-core/src/reader/xml_element.rs
+++ b/docx-core/src/reader/xml_element.rs
@@ -109,6 +109,7 @@ pub enum XMLElement {
     TableGridChange,
     TablePropertyChange,
     TableRowPropertyChange,
+    TableStyleProperty,
     TableCellPropertyChange,
     CellMargins,
     Top,
@@ -365,6 +366,7 @@ impl FromStr for XMLElement {
             "tblGrid" => Ok(XMLElement::TableGrid),
             "tblPrChange" => Ok(XMLElement::TablePropertyChange),
             "trPrChange" => Ok(XMLElement::TableRowPropertyChange),
+            "tblStylePr" => Ok(XMLElement::TableStyleProperty),
             "tcPrChange" => Ok(XMLElement::TableCellPropertyChange),
             "tcMar" => Ok(XMLElement::CellMargins),
             "tblGridChange" => Ok(XMLElement::TableGridChange),
-- 
2.43.0


From c5ce07b9e540c06c42f686dd2b7880ac2dde5a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:34:21 +0000
Subject: [PATCH 076/105] fix: read adjustLineHeightInTable when it is switched
 off

---
 docx-core/src/reader/settings.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/docx-core/src/reader/settings.rs b/docx-core/src/reader/settings.rs
index 0606d1d..0cb2e1f 100644
--- a/docx-core/src/reader/settings.rs
+++ b/docx-core/src/reader/settings.rs
@@ -53,7 +53,10 @@ impl FromXML for Settings {
                             }
                         }
                         XMLElement::AdjustLineHeightInTable => {
-                            settings = settings.adjust_line_height_in_table();
+                            let val = attributes::read_bool(&attributes);
+                            if val {
+                                settings = settings.adjust_line_height_in_table();
+                            }
                         }
                         XMLElement::CharacterSpacingControl => {
                             let val = read_val(&attributes);
-- 
2.43.0


From d6b09aebb336327bd2e76c3be8b750f92c8064a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:45:40 +0000
Subject: [PATCH 077/105] fix: write documents with drawings that were not
 understood

A chart or other unsupported drawing is read as a drawing without data.
Writing such a document panicked; now the drawing is left out.
---
 docx-core/src/documents/elements/drawing.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/docx-core/src/documents/elements/drawing.rs b/docx-core/src/documents/elements/drawing.rs
index 580037b..94ec255 100644
--- a/docx-core/src/documents/elements/drawing.rs
+++ b/docx-core/src/documents/elements/drawing.rs
@@ -61,11 +61,16 @@ impl BuildXML for Drawing {
         &self,
         stream: crate::xml::writer::EventWriter<W>,
     ) -> crate::xml::writer::Result<crate::xml::writer::EventWriter<W>> {
+        // Drawings the reader does not support (charts etc.) have no data.
+        let data = match &self.data {
+            Some(data) => data,
+            None => return Ok(stream),
+        };
         let b = XMLBuilder::from(stream);
         let mut b = b.open_drawing()?;
 
-        match &self.data {
-            Some(DrawingData::Pic(p)) => {
+        match data {
+            DrawingData::Pic(p) => {
                 if let DrawingPositionType::Inline = p.position_type {
                     b = b.open_wp_inline(
                         &format!("{}", p.dist_t),
@@ -144,10 +149,7 @@ impl BuildXML for Drawing {
                     .close()?
                     .close()?;
             }
-            Some(DrawingData::TextBox(_t)) => unimplemented!("TODO: Support textBox writer"),
-            None => {
-                unimplemented!()
-            }
+            DrawingData::TextBox(_t) => unimplemented!("TODO: Support textBox writer"),
         }
         b.close()?.close()?.into_inner()
     }
-- 
2.43.0


From 77b16b12ae7ac6aa703935723f0dc1d7f1b836ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:13:08 +0000
Subject: [PATCH 078/105] fix: read elements by namespace whatever prefix a
 document gives it

---
 docx-core/src/reader/xml_parser.rs | 88 ++++++++++++++++++++++++++++--
 1 file changed, 82 insertions(+), 6 deletions(-)

diff --git a/docx-core/src/reader/xml_parser.rs b/docx-core/src/reader/xml_parser.rs
index 1fccbc4..5d381f8 100644
--- a/docx-core/src/reader/xml_parser.rs
+++ b/docx-core/src/reader/xml_parser.rs
@@ -57,11 +57,42 @@ pub enum XmlEvent {
     EndDocument,
 }
 
+/// Namespaces whose elements are recognized by the prefix that documents usually give them.
+const USUAL_PREFIXES: [(&str, &str); 6] = [
+    (
+        "http://schemas.openxmlformats.org/wordprocessingml/2006/main",
+        "w",
+    ),
+    ("http://schemas.openxmlformats.org/drawingml/2006/main", "a"),
+    (
+        "http://schemas.openxmlformats.org/markup-compatibility/2006",
+        "mc",
+    ),
+    ("urn:schemas-microsoft-com:vml", "v"),
+    (
+        "http://schemas.microsoft.com/office/word/2010/wordml",
+        "w14",
+    ),
+    (
+        "http://schemas.microsoft.com/office/word/2012/wordml",
+        "w15",
+    ),
+];
+
+/// A prefix (none for the default namespace) declared at some depth and the usual one instead of it.
+struct Declaration {
+    depth: usize,
+    prefix: Option<String>,
+    usual: Option<&'static str>,
+}
+
 pub struct EventReader<R: Read> {
     reader: Reader<BufReader<R>>,
     buf: Vec<u8>,
     pending: VecDeque<XmlEvent>,
     finished: bool,
+    depth: usize,
+    declarations: Vec<Declaration>,
 }
 
 impl<R: Read> EventReader<R> {
@@ -78,6 +109,8 @@ impl<R: Read> EventReader<R> {
             buf: Vec::new(),
             pending: VecDeque::new(),
             finished: false,
+            depth: 0,
+            declarations: Vec::new(),
         }
     }
 
@@ -87,12 +120,41 @@ impl<R: Read> EventReader<R> {
             return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
         }
         let mut event = self.read_next();
-        if let Ok(XmlEvent::StartElement { attributes, .. }) = &mut event {
-            // A namespace declaration says nothing about the element it stands on
-            attributes.retain(|a| match &a.name.prefix {
-                Some(prefix) => prefix != "xmlns",
-                None => a.name.local_name != "xmlns",
-            });
+        match &mut event {
+            Ok(XmlEvent::StartElement {
+                name, attributes, ..
+            }) => {
+                self.depth += 1;
+                // A namespace declaration says nothing about the element it stands on
+                attributes.retain(|a| {
+                    let prefix = match a.name.prefix.as_deref() {
+                        Some("xmlns") => Some(a.name.local_name.clone()),
+                        None if a.name.local_name == "xmlns" => None,
+                        _ => return true,
+                    };
+                    self.declarations.push(Declaration {
+                        depth: self.depth,
+                        prefix,
+                        usual: USUAL_PREFIXES
+                            .iter()
+                            .find(|(namespace, _)| *namespace == a.value)
+                            .map(|(_, prefix)| *prefix),
+                    });
+                    false
+                });
+                self.use_usual_prefix(name);
+                for a in attributes.iter_mut().filter(|a| a.name.prefix.is_some()) {
+                    self.use_usual_prefix(&mut a.name);
+                }
+            }
+            Ok(XmlEvent::EndElement { name }) => {
+                self.use_usual_prefix(name);
+                while matches!(self.declarations.last(), Some(d) if d.depth >= self.depth) {
+                    self.declarations.pop();
+                }
+                self.depth = self.depth.saturating_sub(1);
+            }
+            _ => {}
         }
         if matches!(event, Ok(XmlEvent::EndDocument) | Err(_)) {
             self.finished = true;
@@ -100,6 +162,20 @@ impl<R: Read> EventReader<R> {
         event
     }
 
+    /// Which prefix a document declares for a namespace is up to the document.
+    fn use_usual_prefix(&self, name: &mut OwnedName) {
+        let declaration = self
+            .declarations
+            .iter()
+            .rev()
+            .find(|d| d.prefix == name.prefix);
+        if let Some(usual) = declaration.and_then(|d| d.usual) {
+            if name.prefix.as_deref() != Some(usual) {
+                name.prefix = Some(usual.to_owned());
+            }
+        }
+    }
+
     fn read_next(&mut self) -> Result<XmlEvent, quick_xml::Error> {
         if let Some(event) = self.pending.pop_front() {
             return Ok(event);
-- 
2.43.0


From 20e269fefa4f4598cb5deb94347d34ebf7c43e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:31:55 +0000
Subject: [PATCH 079/105] fix: keep earlier table properties of a tracked
 change out of the table

---
 docx-core/src/reader/table_property.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/docx-core/src/reader/table_property.rs b/docx-core/src/reader/table_property.rs
index 3ca3d1b..55280b1 100644
--- a/docx-core/src/reader/table_property.rs
+++ b/docx-core/src/reader/table_property.rs
@@ -19,6 +19,9 @@ impl ElementReader for TableProperty {
                     attributes, name, ..
                 }) => {
                     let e = XMLElement::from_str(&name.local_name).unwrap();
+
+                    ignore::ignore_element(e.clone(), XMLElement::TablePropertyChange, r);
+
                     match e {
                         XMLElement::TableBorders => {
                             if let Ok(borders) = TableBorders::read(r, &attributes) {
-- 
2.43.0


From 53f740af4f3db988aa6ceafadaedace2e19cdf90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:31:55 +0000
Subject: [PATCH 080/105] fix: read what follows a VML shape with text in a run

---
 docx-core/src/reader/run.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/docx-core/src/reader/run.rs b/docx-core/src/reader/run.rs
index c4a82f0..30ba350 100644
--- a/docx-core/src/reader/run.rs
+++ b/docx-core/src/reader/run.rs
@@ -103,6 +103,10 @@ impl ElementReader for Run {
                                         run = run.add_drawing(drawing);
                                     }
                                 }
+                                // The text of a VML shape is not part of the run's own
+                                XMLElement::TxbxContent => {
+                                    let _ = TextBoxContent::read(r, &attributes)?;
+                                }
                                 XMLElement::FieldChar => {
                                     if let Ok(f) = read_field_char(&attributes) {
                                         run.children.push(RunChild::FieldChar(f));
-- 
2.43.0


From 790d506c9636867179659a5298716205dbf1c9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:31:55 +0000
Subject: [PATCH 081/105] fix: keep earlier section properties of a tracked
 change out of the section

---
 docx-core/src/reader/section_property.rs | 3 +++
 docx-core/src/reader/xml_element.rs      | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/docx-core/src/reader/section_property.rs b/docx-core/src/reader/section_property.rs
index 88a26f2..f24e73f 100644
--- a/docx-core/src/reader/section_property.rs
+++ b/docx-core/src/reader/section_property.rs
@@ -93,6 +93,9 @@ impl ElementReader for SectionProperty {
                     attributes, name, ..
                 }) => {
                     let e = XMLElement::from_str(&name.local_name).unwrap();
+
+                    ignore::ignore_element(e.clone(), XMLElement::SectionPropertyChange, r);
+
                     match e {
                         XMLElement::PageMargin => {
                             let margin = read_page_margin(&attributes)?;
diff --git a/docx-core/src/reader/xml_element.rs b/docx-core/src/reader/xml_element.rs
index 7062247..f7de896 100644
--- a/docx-core/src/reader/xml_element.rs
+++ b/docx-core/src/reader/xml_element.rs
@@ -164,6 +164,7 @@ pub enum XMLElement {
     AdjustLineHeightInTable,
     CharacterSpacingControl,
     SectionProperty,
+    SectionPropertyChange,
     PageSize,
     PageMargin,
     WebSettings,
@@ -409,6 +410,7 @@ impl FromStr for XMLElement {
             "docVar" => Ok(XMLElement::DocVar),
             "docVars" => Ok(XMLElement::DocVars),
             "sectPr" => Ok(XMLElement::SectionProperty),
+            "sectPrChange" => Ok(XMLElement::SectionPropertyChange),
             "pgSz" => Ok(XMLElement::PageSize),
             "rFonts" => Ok(XMLElement::RunFonts),
             "pgMar" => Ok(XMLElement::PageMargin),
-- 
2.43.0


From d862ab61d8f91b5a95abfbe609337ad05decf493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:38:05 +0000
Subject: [PATCH 082/105] fix: read what follows ruby text in a run

---
 docx-core/src/reader/run.rs         | 8 ++++++++
 docx-core/src/reader/xml_element.rs | 2 ++
 2 files changed, 10 insertions(+)

diff --git a/docx-core/src/reader/run.rs b/docx-core/src/reader/run.rs
index 30ba350..efec997 100644
--- a/docx-core/src/reader/run.rs
+++ b/docx-core/src/reader/run.rs
@@ -51,6 +51,7 @@ impl ElementReader for Run {
     ) -> Result<Self, ReaderError> {
         let mut run = Run::new();
         let mut text_state = TextState::Idle;
+        let mut in_ruby = false;
         loop {
             let e = r.next_event();
             match e {
@@ -107,6 +108,12 @@ impl ElementReader for Run {
                                 XMLElement::TxbxContent => {
                                     let _ = TextBoxContent::read(r, &attributes)?;
                                 }
+                                // Ruby text and its base are runs within the run
+                                XMLElement::Ruby => in_ruby = true,
+                                XMLElement::Run if in_ruby => {
+                                    let inner = Run::read(r, &attributes)?;
+                                    run.children.extend(inner.children);
+                                }
                                 XMLElement::FieldChar => {
                                     if let Ok(f) = read_field_char(&attributes) {
                                         run.children.push(RunChild::FieldChar(f));
@@ -184,6 +191,7 @@ impl ElementReader for Run {
                         XMLElement::Run => {
                             return Ok(run);
                         }
+                        XMLElement::Ruby => in_ruby = false,
                         XMLElement::DeleteText | XMLElement::Text => text_state = TextState::Idle,
                         _ => {}
                     }
diff --git a/docx-core/src/reader/xml_element.rs b/docx-core/src/reader/xml_element.rs
index f7de896..133187d 100644
--- a/docx-core/src/reader/xml_element.rs
+++ b/docx-core/src/reader/xml_element.rs
@@ -74,6 +74,7 @@ pub enum XMLElement {
     MarginBottom,
     Delete,
     DeleteText,
+    Ruby,
     BookmarkStart,
     BookmarkEnd,
     Comment,
@@ -319,6 +320,7 @@ impl FromStr for XMLElement {
             "moveFrom" => Ok(XMLElement::MoveFrom),
             "moveTo" => Ok(XMLElement::MoveTo),
             "del" => Ok(XMLElement::Delete),
+            "ruby" => Ok(XMLElement::Ruby),
             "delText" => Ok(XMLElement::DeleteText),
             "bookmarkStart" => Ok(XMLElement::BookmarkStart),
             "bookmarkEnd" => Ok(XMLElement::BookmarkEnd),
-- 
2.43.0


From eddb714cf30605645bf8efdcfd60a5d812f9fd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:04:20 +0000
Subject: [PATCH 083/105] fix: read tables in comments

---
 docx-core/src/reader/comment.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/docx-core/src/reader/comment.rs b/docx-core/src/reader/comment.rs
index df47f15..192acea 100644
--- a/docx-core/src/reader/comment.rs
+++ b/docx-core/src/reader/comment.rs
@@ -25,9 +25,16 @@ impl ElementReader for Comment {
                 }) => {
                     let e = XMLElement::from_str(&name.local_name)
                         .expect("should convert to XMLElement");
-                    if let XMLElement::Paragraph = e {
-                        let p = Paragraph::read(r, &attributes)?;
-                        comment = comment.add_paragraph(p);
+                    match e {
+                        XMLElement::Paragraph => {
+                            let p = Paragraph::read(r, &attributes)?;
+                            comment = comment.add_paragraph(p);
+                        }
+                        XMLElement::Table => {
+                            let t = Table::read(r, &attributes)?;
+                            comment = comment.add_table(t);
+                        }
+                        _ => {}
                     }
                 }
                 Ok(XmlEvent::EndElement { name, .. }) => {
-- 
2.43.0


From fbd82eef2228e5921fc42175bd65c800b6031ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:09 +0000
Subject: [PATCH 084/105] fix: keep the underscore leader of tabs set from
 JavaScript

---
 docx-wasm/js/paragraph-property.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/docx-wasm/js/paragraph-property.ts b/docx-wasm/js/paragraph-property.ts
index 0e9d319..a0067d2 100644
--- a/docx-wasm/js/paragraph-property.ts
+++ b/docx-wasm/js/paragraph-property.ts
@@ -454,7 +454,7 @@ export const setParagraphProperty = <T extends wasm.Paragraph | wasm.Style>(
           leader = wasm.TabLeaderType.None;
           break;
         case "underscore":
-          leader = wasm.TabLeaderType.None;
+          leader = wasm.TabLeaderType.Underscore;
           break;
       }
       target = target.add_tab(val, leader, tab.pos ?? undefined) as T;
@@ -669,7 +669,7 @@ export const createParagraphProperty = (
           leader = wasm.TabLeaderType.None;
           break;
         case "underscore":
-          leader = wasm.TabLeaderType.None;
+          leader = wasm.TabLeaderType.Underscore;
           break;
       }
       p = p.add_tab(val, leader, tab.pos ?? undefined);
-- 
2.43.0


From 9b1bdfa855ecbfa5a41b0d0d82f3bfdb81b96962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:09 +0000
Subject: [PATCH 085/105] fix: keep the alignment start set from JavaScript

---
 docx-wasm/js/paragraph-property.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/docx-wasm/js/paragraph-property.ts b/docx-wasm/js/paragraph-property.ts
index a0067d2..5a69ddf 100644
--- a/docx-wasm/js/paragraph-property.ts
+++ b/docx-wasm/js/paragraph-property.ts
@@ -160,6 +160,9 @@ export const createParagraphAlignment = (
     case "both": {
       return wasm.AlignmentType.Both;
     }
+    case "start": {
+      return wasm.AlignmentType.Start;
+    }
     case "end": {
       return wasm.AlignmentType.End;
     }
-- 
2.43.0


From 86c1cac1a8aec391b5c07530e232f5804aeaf7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:10 +0000
Subject: [PATCH 086/105] fix: keep theme fonts and hints of paragraphs, levels
 and defaults set from JavaScript

---
 docx-wasm/js/index.ts              | 29 ++---------------------------
 docx-wasm/js/paragraph-property.ts | 28 ++--------------------------
 2 files changed, 4 insertions(+), 53 deletions(-)

diff --git a/docx-wasm/js/index.ts b/docx-wasm/js/index.ts
index fa08b56..9070bf2 100644
--- a/docx-wasm/js/index.ts
+++ b/docx-wasm/js/index.ts
@@ -223,20 +223,7 @@ export class Docx {
   }
 
   buildRunFonts = (fonts: RunFonts | undefined) => {
-    let f = wasm.createRunFonts();
-    if (fonts?._ascii) {
-      f = f.ascii(fonts._ascii);
-    }
-    if (fonts?._hiAnsi) {
-      f = f.hi_ansi(fonts._hiAnsi);
-    }
-    if (fonts?._cs) {
-      f = f.cs(fonts._cs);
-    }
-    if (fonts?._eastAsia) {
-      f = f.east_asia(fonts._eastAsia);
-    }
-    return f;
+    return fonts ? fonts.buildWasmObject() : wasm.createRunFonts();
   };
 
   buildLineSpacing(p: ParagraphProperty): wasm.LineSpacing | null {
@@ -336,19 +323,7 @@ export class Docx {
     }
 
     if (l.runProperty._fonts) {
-      let f = wasm.createRunFonts();
-      if (l.runProperty._fonts._ascii) {
-        f = f.ascii(l.runProperty._fonts._ascii);
-      }
-      if (l.runProperty._fonts._hiAnsi) {
-        f = f.hi_ansi(l.runProperty._fonts._hiAnsi);
-      }
-      if (l.runProperty._fonts._cs) {
-        f = f.cs(l.runProperty._fonts._cs);
-      }
-      if (l.runProperty._fonts._eastAsia) {
-        f = f.east_asia(l.runProperty._fonts._eastAsia);
-      }
+      const f = l.runProperty._fonts.buildWasmObject();
       level = level.fonts(f);
     }
 
diff --git a/docx-wasm/js/paragraph-property.ts b/docx-wasm/js/paragraph-property.ts
index 5a69ddf..76fbab6 100644
--- a/docx-wasm/js/paragraph-property.ts
+++ b/docx-wasm/js/paragraph-property.ts
@@ -363,19 +363,7 @@ export const setParagraphProperty = <T extends wasm.Paragraph | wasm.Style>(
   }
 
   if (property.runProperty._fonts) {
-    let f = wasm.createRunFonts();
-    if (property.runProperty._fonts._ascii) {
-      f = f.ascii(property.runProperty._fonts._ascii);
-    }
-    if (property.runProperty._fonts._hiAnsi) {
-      f = f.hi_ansi(property.runProperty._fonts._hiAnsi);
-    }
-    if (property.runProperty._fonts._cs) {
-      f = f.cs(property.runProperty._fonts._cs);
-    }
-    if (property.runProperty._fonts._eastAsia) {
-      f = f.east_asia(property.runProperty._fonts._eastAsia);
-    }
+    const f = property.runProperty._fonts.buildWasmObject();
     target = target.fonts(f) as T;
   }
 
@@ -570,19 +558,7 @@ export const createParagraphProperty = (
   }
 
   if (property.runProperty._fonts) {
-    let f = wasm.createRunFonts();
-    if (property.runProperty._fonts._ascii) {
-      f = f.ascii(property.runProperty._fonts._ascii);
-    }
-    if (property.runProperty._fonts._hiAnsi) {
-      f = f.hi_ansi(property.runProperty._fonts._hiAnsi);
-    }
-    if (property.runProperty._fonts._cs) {
-      f = f.cs(property.runProperty._fonts._cs);
-    }
-    if (property.runProperty._fonts._eastAsia) {
-      f = f.east_asia(property.runProperty._fonts._eastAsia);
-    }
+    const f = property.runProperty._fonts.buildWasmObject();
     runProperty = runProperty.fonts(f);
   }
 
-- 
2.43.0


From b0c5033dd9f22f10ae037d182b6808f340a90f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:10 +0000
Subject: [PATCH 087/105] fix: set the East Asian theme font from JavaScript,
 not the font

---
 docx-wasm/js/run-property.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/docx-wasm/js/run-property.ts b/docx-wasm/js/run-property.ts
index 09b59aa..fe6ff25 100644
--- a/docx-wasm/js/run-property.ts
+++ b/docx-wasm/js/run-property.ts
@@ -251,7 +251,7 @@ export class RunFonts {
   }
 
   eastAsiaTheme(f: string) {
-    this._eastAsia = f;
+    this._eastAsiaTheme = f;
     return this;
   }
 
-- 
2.43.0


From 28ce60cd93127d1c33a39da0c71c5dc8828dcbda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:10 +0000
Subject: [PATCH 088/105] fix: keep the vertical alignment baseline set from
 JavaScript

---
 docx-wasm/js/run-property.ts | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/docx-wasm/js/run-property.ts b/docx-wasm/js/run-property.ts
index fe6ff25..89b2785 100644
--- a/docx-wasm/js/run-property.ts
+++ b/docx-wasm/js/run-property.ts
@@ -322,6 +322,8 @@ export const setRunProperty = <T extends wasm.Run | wasm.Style>(
       target = target.vert_align(wasm.VertAlignType.SuperScript) as T;
     } else if (property._vertAlign === "subscript") {
       target = target.vert_align(wasm.VertAlignType.SubScript) as T;
+    } else if (property._vertAlign === "baseline") {
+      target = target.vert_align(wasm.VertAlignType.Baseline) as T;
     }
   }
 
@@ -411,6 +413,8 @@ export const createRunProperty = (property: RunProperty): wasm.RunProperty => {
       target = target.vert_align(wasm.VertAlignType.SuperScript);
     } else if (property._vertAlign === "subscript") {
       target = target.vert_align(wasm.VertAlignType.SubScript);
+    } else if (property._vertAlign === "baseline") {
+      target = target.vert_align(wasm.VertAlignType.Baseline);
     }
   }
 
-- 
2.43.0


From 4ca9622d7f54672963dbc9edfb429b62e9e3845d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:10 +0000
Subject: [PATCH 089/105] fix: keep every type of border set from JavaScript

---
 docx-wasm/js/run-property.ts | 42 ++++++++++++++++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/docx-wasm/js/run-property.ts b/docx-wasm/js/run-property.ts
index 89b2785..f834d91 100644
--- a/docx-wasm/js/run-property.ts
+++ b/docx-wasm/js/run-property.ts
@@ -195,6 +195,48 @@ export const convertBorderType = (t: BorderType) => {
       return wasm.BorderType.DotDotDash;
     case "triple":
       return wasm.BorderType.Triple;
+    case "thinThickSmallGap":
+      return wasm.BorderType.ThinThickSmallGap;
+    case "thickThinSmallGap":
+      return wasm.BorderType.ThickThinSmallGap;
+    case "thinThickThinSmallGap":
+      return wasm.BorderType.ThinThickThinSmallGap;
+    case "thinThickMediumGap":
+      return wasm.BorderType.ThinThickMediumGap;
+    case "thickThinMediumGap":
+      return wasm.BorderType.ThickThinMediumGap;
+    case "thinThickThinMediumGap":
+      return wasm.BorderType.ThinThickThinMediumGap;
+    case "thinThickLargeGap":
+      return wasm.BorderType.ThinThickLargeGap;
+    case "thickThinLargeGap":
+      return wasm.BorderType.ThickThinLargeGap;
+    case "thinThickThinLargeGap":
+      return wasm.BorderType.ThinThickThinLargeGap;
+    case "wave":
+      return wasm.BorderType.Wave;
+    case "doubleWave":
+      return wasm.BorderType.DoubleWave;
+    case "dashSmallGap":
+      return wasm.BorderType.DashSmallGap;
+    case "dashDotStroked":
+      return wasm.BorderType.DashDotStroked;
+    case "threeDEmboss":
+      return wasm.BorderType.ThreeDEmboss;
+    case "threeDEngrave":
+      return wasm.BorderType.ThreeDEngrave;
+    case "outset":
+      return wasm.BorderType.Outset;
+    case "inset":
+      return wasm.BorderType.Inset;
+    case "apples":
+      return wasm.BorderType.Apples;
+    case "archedScallops":
+      return wasm.BorderType.ArchedScallops;
+    case "babyPacifier":
+      return wasm.BorderType.BabyPacifier;
+    case "babyRattle":
+      return wasm.BorderType.BabyRattle;
     default:
       return wasm.BorderType.Single;
   }
-- 
2.43.0


From 4de76eccf9d67bed687dd76ba882743d9071621b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:10 +0000
Subject: [PATCH 090/105] fix: keep deletions and insertions of runs set from
 JavaScript

---
 docx-wasm/js/run-property.ts |  8 ++++++++
 docx-wasm/js/run.ts          |  2 +-
 docx-wasm/src/run.rs         | 16 ++++++++++++++++
 3 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/docx-wasm/js/run-property.ts b/docx-wasm/js/run-property.ts
index f834d91..88637a3 100644
--- a/docx-wasm/js/run-property.ts
+++ b/docx-wasm/js/run-property.ts
@@ -428,6 +428,14 @@ export const setRunProperty = <T extends wasm.Run | wasm.Style>(
     ) as T;
   }
 
+  if (property._del && target instanceof wasm.Run) {
+    target = target.delete(property._del.author, property._del.date) as T;
+  }
+
+  if (property._ins && target instanceof wasm.Run) {
+    target = target.insert(property._ins.author, property._ins.date) as T;
+  }
+
   return target;
 };
 
diff --git a/docx-wasm/js/run.ts b/docx-wasm/js/run.ts
index a22bfe9..15ebd47 100644
--- a/docx-wasm/js/run.ts
+++ b/docx-wasm/js/run.ts
@@ -169,7 +169,7 @@ export class Run {
 
   insert(author: string, date: string) {
     this.property ??= createDefaultRunProperty();
-    this.property.delete(author, date);
+    this.property.insert(author, date);
     return this;
   }
 
diff --git a/docx-wasm/src/run.rs b/docx-wasm/src/run.rs
index 7eee7f0..67dc953 100644
--- a/docx-wasm/src/run.rs
+++ b/docx-wasm/src/run.rs
@@ -153,6 +153,22 @@ impl Run {
         self
     }
 
+    pub fn delete(mut self, author: &str, date: &str) -> Run {
+        self.0.run_property = self
+            .0
+            .run_property
+            .delete(docx_rs::Delete::new().author(author).date(date));
+        self
+    }
+
+    pub fn insert(mut self, author: &str, date: &str) -> Run {
+        self.0.run_property = self
+            .0
+            .run_property
+            .insert(docx_rs::Insert::new_with_empty().author(author).date(date));
+        self
+    }
+
     pub fn shading(mut self, t: &str, color: &str, fill: &str) -> Self {
         let mut s = Shading::new().color(color).fill(fill);
         if let Ok(t) = docx_rs::ShdType::from_str(t) {
-- 
2.43.0


From 47cdb1a059b10e3aaf83a22f8da4a90896b2bd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:10 +0000
Subject: [PATCH 091/105] fix: keep the vertical offset of images set from
 JavaScript

---
 docx-wasm/js/run.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/docx-wasm/js/run.ts b/docx-wasm/js/run.ts
index 15ebd47..37fd121 100644
--- a/docx-wasm/js/run.ts
+++ b/docx-wasm/js/run.ts
@@ -218,7 +218,7 @@ export class Run {
           pic = pic.offset_x(child._offsetX);
         }
         if (child._offsetY != null) {
-          pic = pic.offset_x(child._offsetY);
+          pic = pic.offset_y(child._offsetY);
         }
         if (child.rot != null) {
           pic = pic.rotate(child.rot);
-- 
2.43.0


From 19fdf011aa5cb9d05fec7b0836e3ec04497134ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:10 +0000
Subject: [PATCH 092/105] fix: keep all run properties of styles set from
 JavaScript

---
 docx-wasm/js/run-property.ts  | 12 ++++++++++++
 docx-wasm/js/style.ts         |  4 ++--
 docx-wasm/src/run_property.rs |  5 +++++
 3 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/docx-wasm/js/run-property.ts b/docx-wasm/js/run-property.ts
index 88637a3..d6757c9 100644
--- a/docx-wasm/js/run-property.ts
+++ b/docx-wasm/js/run-property.ts
@@ -500,6 +500,10 @@ export const createRunProperty = (property: RunProperty): wasm.RunProperty => {
     }
   }
 
+  if (property._caps) {
+    target = target.caps();
+  }
+
   if (property._underline) {
     target = target.underline(property._underline);
   }
@@ -539,5 +543,13 @@ export const createRunProperty = (property: RunProperty): wasm.RunProperty => {
     );
   }
 
+  if (property._del) {
+    target = target.delete(property._del.author, property._del.date);
+  }
+
+  if (property._ins) {
+    target = target.insert(property._ins.author, property._ins.date);
+  }
+
   return target;
 };
diff --git a/docx-wasm/js/style.ts b/docx-wasm/js/style.ts
index 981b30e..0a35f6e 100644
--- a/docx-wasm/js/style.ts
+++ b/docx-wasm/js/style.ts
@@ -12,7 +12,7 @@ import {
   createDefaultRunProperty,
   VertAlignType,
   RunFonts,
-  setRunProperty,
+  createRunProperty,
 } from "./run-property";
 import {
   AlignmentType,
@@ -348,7 +348,7 @@ export class Style {
     }
 
     if (this._runProperty) {
-      s = setRunProperty(s, this._runProperty);
+      s = s.run_property(createRunProperty(this._runProperty));
     }
 
     if (this._paragraphProperty) {
diff --git a/docx-wasm/src/run_property.rs b/docx-wasm/src/run_property.rs
index 13f4b04..4ba819c 100644
--- a/docx-wasm/src/run_property.rs
+++ b/docx-wasm/src/run_property.rs
@@ -72,6 +72,11 @@ impl RunProperty {
         self
     }
 
+    pub fn caps(mut self) -> Self {
+        self.0 = self.0.caps();
+        self
+    }
+
     pub fn vanish(mut self) -> Self {
         self.0 = self.0.vanish();
         self
-- 
2.43.0


From 9bed83070725cc53ae5c85a7b515a395b19854b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:10 +0000
Subject: [PATCH 093/105] fix: keep the distance right of a placed table set
 from JavaScript

---
 docx-wasm/js/table.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/docx-wasm/js/table.ts b/docx-wasm/js/table.ts
index 6690330..2d4ee84 100644
--- a/docx-wasm/js/table.ts
+++ b/docx-wasm/js/table.ts
@@ -59,7 +59,7 @@ export class TablePosition {
       p = p.left_from_text(this.property.leftFromText);
     }
     if (this.property.rightFromText != null) {
-      p = p.left_from_text(this.property.rightFromText);
+      p = p.right_from_text(this.property.rightFromText);
     }
     if (this.property.verticalAnchor != null) {
       p = p.vertical_anchor(this.property.verticalAnchor);
-- 
2.43.0


From afe4b2eed04e43ce91f6fbee38b09ba66908608c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:10 +0000
Subject: [PATCH 094/105] fix: keep the width of tables set from JavaScript

---
 docx-wasm/js/table.ts  | 8 ++++++++
 docx-wasm/src/style.rs | 5 +++++
 2 files changed, 13 insertions(+)

diff --git a/docx-wasm/js/table.ts b/docx-wasm/js/table.ts
index 2d4ee84..912d52a 100644
--- a/docx-wasm/js/table.ts
+++ b/docx-wasm/js/table.ts
@@ -282,6 +282,14 @@ export const setTableProperty = <T extends wasm.Table | wasm.Style>(
       .cell_margin_left(left.val, convertWidthType(left.type)) as T;
   }
 
+  if (property.width != null) {
+    if (target instanceof wasm.Table) {
+      target = target.width(property.width) as T;
+    } else if (target instanceof wasm.Style) {
+      target = target.table_width(property.width) as T;
+    }
+  }
+
   const align = ((): wasm.TableAlignmentType | null => {
     switch (property.align) {
       case "center": {
diff --git a/docx-wasm/src/style.rs b/docx-wasm/src/style.rs
index 4c36680..dcbb325 100644
--- a/docx-wasm/src/style.rs
+++ b/docx-wasm/src/style.rs
@@ -254,6 +254,11 @@ impl Style {
         self
     }
 
+    pub fn table_width(mut self, w: usize) -> Self {
+        self.0.table_property = self.0.table_property.width(w, WidthType::Dxa);
+        self
+    }
+
     pub fn table_align(mut self, v: docx_rs::TableAlignmentType) -> Self {
         self.0.table_property = self.0.table_property.align(v);
         self
-- 
2.43.0


From de8c150e76295897ae8d97fef6bfed3646d1d723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:10 +0000
Subject: [PATCH 095/105] fix: keep the inner borders of cells set from
 JavaScript

---
 docx-wasm/js/table-cell.ts | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/docx-wasm/js/table-cell.ts b/docx-wasm/js/table-cell.ts
index 061dbcc..d4eaf13 100644
--- a/docx-wasm/js/table-cell.ts
+++ b/docx-wasm/js/table-cell.ts
@@ -133,13 +133,12 @@ export class TableCell {
   }
 
   setBorder(border: TableCellBorder) {
-    this.property.borders[border.position.toLowerCase() as PositionKeys] =
-      border;
+    this.property.borders[border.position as PositionKeys] = border;
     return this;
   }
 
   clearBorder(position: TableCellBorderPosition) {
-    this.property.borders[position.toLowerCase() as PositionKeys] =
+    this.property.borders[position as PositionKeys] =
       new TableCellBorder(position).border_type("nil");
     return this;
   }
-- 
2.43.0


From e8dcc79e1888555ebcd73c8f93b6966e24305fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:10 +0000
Subject: [PATCH 096/105] fix: set or clear only the named border of a cell
 from JavaScript

---
 docx-wasm/js/table-cell-borders.ts | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/docx-wasm/js/table-cell-borders.ts b/docx-wasm/js/table-cell-borders.ts
index 54092ba..cdfeac7 100644
--- a/docx-wasm/js/table-cell-borders.ts
+++ b/docx-wasm/js/table-cell-borders.ts
@@ -24,20 +24,28 @@ export class TableCellBorders {
     switch (border.position) {
       case "top":
         this.top = border;
+        break;
       case "left":
         this.left = border;
+        break;
       case "bottom":
         this.bottom = border;
+        break;
       case "right":
         this.right = border;
+        break;
       case "insideH":
         this.insideH = border;
+        break;
       case "insideV":
         this.insideV = border;
+        break;
       case "tl2br":
         this.tl2br = border;
+        break;
       case "tr2bl":
         this.tr2bl = border;
+        break;
     }
     return this;
   }
@@ -47,20 +55,28 @@ export class TableCellBorders {
     switch (position) {
       case "top":
         this.top = nil;
+        break;
       case "left":
         this.left = nil;
+        break;
       case "bottom":
         this.bottom = nil;
+        break;
       case "right":
         this.right = nil;
+        break;
       case "insideH":
         this.insideH = nil;
+        break;
       case "insideV":
         this.insideV = nil;
+        break;
       case "tl2br":
         this.tl2br = nil;
+        break;
       case "tr2bl":
         this.tr2bl = nil;
+        break;
     }
     return this;
   }
-- 
2.43.0


From 17ff8890efa48795396b4856af02104eb3e0c950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:10 +0000
Subject: [PATCH 097/105] fix: keep replies to the comment with id 0 set from
 JavaScript

---
 docx-wasm/js/builder.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/docx-wasm/js/builder.ts b/docx-wasm/js/builder.ts
index cbd2f2f..bc7bd1b 100644
--- a/docx-wasm/js/builder.ts
+++ b/docx-wasm/js/builder.ts
@@ -133,7 +133,7 @@ function buildComment(child: Comment) {
   if (child._date) {
     comment = comment.date(child._date);
   }
-  if (child._parentCommentId) {
+  if (child._parentCommentId != null) {
     comment = comment.parent_comment_id(child._parentCommentId);
   }
   return comment;
-- 
2.43.0


From d29bf4539edfa2f574cdd795012cbe0951b58bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:10 +0000
Subject: [PATCH 098/105] fix: keep the style, alignment and indent of
 paragraph changes set from JavaScript

---
 docx-wasm/js/builder.ts | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/docx-wasm/js/builder.ts b/docx-wasm/js/builder.ts
index bc7bd1b..c899f44 100644
--- a/docx-wasm/js/builder.ts
+++ b/docx-wasm/js/builder.ts
@@ -8,7 +8,7 @@ import { Delete } from "./delete";
 import { BookmarkStart } from "./bookmark-start";
 import { BookmarkEnd } from "./bookmark-end";
 import { Hyperlink, convertHyperlinkType } from "./hyperlink";
-import { setParagraphProperty } from "./paragraph-property";
+import { createParagraphAlignment, setParagraphProperty } from "./paragraph-property";
 
 import * as wasm from "./pkg";
 import { PageNum } from "./page-num";
@@ -111,7 +111,36 @@ function buildParagraph(child: Paragraph) {
         child.property.paragraphPropertyChange._property.numbering.level
       );
     }
-    // TODO: add style, indent, alignment
+
+    const property = child.property.paragraphPropertyChange._property;
+    if (property.styleId) {
+      change = change.style(property.styleId);
+    }
+
+    const alignment = createParagraphAlignment(property._align);
+    if (alignment != null) {
+      change = change.align(alignment);
+    }
+
+    if (property.indent) {
+      let kind;
+      switch (property.indent.specialIndentKind) {
+        case "firstLine": {
+          kind = wasm.SpecialIndentKind.FirstLine;
+          break;
+        }
+        case "hanging": {
+          kind = wasm.SpecialIndentKind.Hanging;
+          break;
+        }
+      }
+      change = change.indent(
+        property.indent.left,
+        kind,
+        property.indent.specialIndentSize
+      );
+    }
+
     paragraph = paragraph.paragraph_property_change(change);
   }
 
-- 
2.43.0


From 32790f97f428125f87b323f877d495b7f53538d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:10 +0000
Subject: [PATCH 099/105] fix: keep paragraph settings switched off from
 JavaScript

---
 docx-wasm/js/paragraph-property.ts | 36 +++++++++++++-----------------
 1 file changed, 16 insertions(+), 20 deletions(-)

diff --git a/docx-wasm/js/paragraph-property.ts b/docx-wasm/js/paragraph-property.ts
index 76fbab6..97d673d 100644
--- a/docx-wasm/js/paragraph-property.ts
+++ b/docx-wasm/js/paragraph-property.ts
@@ -131,10 +131,6 @@ export class ParagraphProperty {
 export const createDefaultParagraphProperty = (): ParagraphProperty => {
   let p = new ParagraphProperty();
   p.runProperty = createDefaultRunProperty();
-  p.keepNext = false;
-  p.keepLines = false;
-  p.pageBreakBefore = false;
-  p.widowControl = false;
   return p;
 };
 
@@ -367,24 +363,24 @@ export const setParagraphProperty = <T extends wasm.Paragraph | wasm.Style>(
     target = target.fonts(f) as T;
   }
 
-  if (property.keepLines) {
-    target = target.keep_lines(true) as T;
+  if (property.keepLines != null) {
+    target = target.keep_lines(property.keepLines) as T;
   }
 
   if (property._snapToGrid != null) {
     target = target.snap_to_grid(!!property._snapToGrid) as T;
   }
 
-  if (property.keepNext) {
-    target = target.keep_next(true) as T;
+  if (property.keepNext != null) {
+    target = target.keep_next(property.keepNext) as T;
   }
 
-  if (property.pageBreakBefore) {
-    target = target.page_break_before(true) as T;
+  if (property.pageBreakBefore != null) {
+    target = target.page_break_before(property.pageBreakBefore) as T;
   }
 
-  if (property.widowControl) {
-    target = target.widow_control(true) as T;
+  if (property.widowControl != null) {
+    target = target.widow_control(property.widowControl) as T;
   }
 
   if (property.outlineLvl != null) {
@@ -566,24 +562,24 @@ export const createParagraphProperty = (
     p = p.run_property(runProperty);
   }
 
-  if (property.keepLines) {
-    p = p.keep_lines(true);
+  if (property.keepLines != null) {
+    p = p.keep_lines(property.keepLines);
   }
 
   if (property._snapToGrid != null) {
     p = p.snap_to_grid(!!property._snapToGrid);
   }
 
-  if (property.keepNext) {
-    p = p.keep_next(true);
+  if (property.keepNext != null) {
+    p = p.keep_next(property.keepNext);
   }
 
-  if (property.pageBreakBefore) {
-    p = p.page_break_before(true);
+  if (property.pageBreakBefore != null) {
+    p = p.page_break_before(property.pageBreakBefore);
   }
 
-  if (property.widowControl) {
-    p = p.widow_control(true);
+  if (property.widowControl != null) {
+    p = p.widow_control(property.widowControl);
   }
 
   if (property.outlineLvl != null) {
-- 
2.43.0


From c23bc6f4fda2823e302a5d38219e9bf05c833e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:10 +0000
Subject: [PATCH 100/105] fix: keep the highlight, underline and vanishing of
 levels set from JavaScript

---
 docx-wasm/js/index.ts | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/docx-wasm/js/index.ts b/docx-wasm/js/index.ts
index 9070bf2..cff4f2c 100644
--- a/docx-wasm/js/index.ts
+++ b/docx-wasm/js/index.ts
@@ -314,6 +314,18 @@ export class Docx {
       }
     }
 
+    if (l.runProperty._highlight) {
+      level = level.highlight(l.runProperty._highlight);
+    }
+
+    if (l.runProperty._underline) {
+      level = level.underline(l.runProperty._underline);
+    }
+
+    if (l.runProperty._vanish) {
+      level = level.vanish();
+    }
+
     if (l.runProperty._size) {
       level = level.size(l.runProperty._size);
     }
-- 
2.43.0


From 3e957032a95c3d25265c25a05c4b11dae04e2f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:51:36 +0000
Subject: [PATCH 101/105] fix: declare the package relations of the JSON as
 they are

---
 docx-wasm/js/json/index.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/docx-wasm/js/json/index.ts b/docx-wasm/js/json/index.ts
index e2b8239..0be1700 100644
--- a/docx-wasm/js/json/index.ts
+++ b/docx-wasm/js/json/index.ts
@@ -13,7 +13,9 @@ export type DocxJSON = {
       [k: string]: string;
     };
   };
-  rels: [string, string, string][];
+  rels: {
+    rels: [string, string, string][];
+  };
   documentRels: {
     hasComments: boolean;
     hasNumberings: boolean;
-- 
2.43.0


From c001d83583fda42693668c1454db4c0265d28235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:51:36 +0000
Subject: [PATCH 102/105] fix: declare the margins of a cell as optional, as
 the JSON leaves them out

---
 docx-wasm/js/json/table.ts | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/docx-wasm/js/json/table.ts b/docx-wasm/js/json/table.ts
index 612a501..3da73b8 100644
--- a/docx-wasm/js/json/table.ts
+++ b/docx-wasm/js/json/table.ts
@@ -73,10 +73,10 @@ export type TableCellMarginsJSON = {
 };
 
 export type CellMarginsJSON = {
-  top: TableCellMarginJSON;
-  left: TableCellMarginJSON;
-  bottom: TableCellMarginJSON;
-  right: TableCellMarginJSON;
+  top?: TableCellMarginJSON;
+  left?: TableCellMarginJSON;
+  bottom?: TableCellMarginJSON;
+  right?: TableCellMarginJSON;
 };
 
 export type TablePropertyJSON = {
-- 
2.43.0


From b1fbee6977e3daa06e2a2e7019c83b88b979c7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:01:25 +0000
Subject: [PATCH 103/105] fix: declare the image of a picture as the JSON shows
 it

---
 docx-wasm/js/json/drawing.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/docx-wasm/js/json/drawing.ts b/docx-wasm/js/json/drawing.ts
index 035a1d5..d4ecab3 100644
--- a/docx-wasm/js/json/drawing.ts
+++ b/docx-wasm/js/json/drawing.ts
@@ -3,7 +3,7 @@ import { Pic as InnerPic } from "./bindings/Pic";
 import { ParagraphJSON, TableJSON } from "..";
 
 export interface Pic extends Omit<InnerPic, "image"> {
-  image: string;
+  image?: number[];
 }
 
 export type DrawingJSON = {
-- 
2.43.0


From d1e8de05d05dd215e637029802bafe057f77fc6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:02:02 +0000
Subject: [PATCH 104/105] fix: declare moved text among the children of
 paragraphs in the JSON

---
 docx-wasm/js/json/paragraph.ts | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/docx-wasm/js/json/paragraph.ts b/docx-wasm/js/json/paragraph.ts
index dfb4e58..eb2dc70 100644
--- a/docx-wasm/js/json/paragraph.ts
+++ b/docx-wasm/js/json/paragraph.ts
@@ -16,6 +16,8 @@ export type ParagraphChildJSON =
   | RunJSON
   | InsertJSON
   | DeleteJSON
+  | MoveFromJSON
+  | MoveToJSON
   | HyperlinkJSON
   | CommentRangeStartJSON
   | CommentRangeEndJSON
@@ -115,6 +117,20 @@ export type DeleteJSON = {
   data: DeleteJSONData;
 };
 
+export type MoveFromJSON = {
+  type: "moveFrom";
+  data: {
+    children: (RunJSON | CommentRangeStartJSON | CommentRangeEndJSON)[];
+    author: string;
+    date: string;
+  };
+};
+
+export type MoveToJSON = {
+  type: "moveTo";
+  data: InsertJSONData;
+};
+
 export type HyperlinkJSON = {
   type: "hyperlink";
   data:
-- 
2.43.0


From 0bc0b3cdd4ef08e2d40aa7d2b35cf38243cdd217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:05:04 +0000
Subject: [PATCH 105/105] fix: declare content controls inside content controls
 in the JSON

---
 docx-wasm/js/json/structured-data-tag.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/docx-wasm/js/json/structured-data-tag.ts b/docx-wasm/js/json/structured-data-tag.ts
index 52e8f98..ca6e099 100644
--- a/docx-wasm/js/json/structured-data-tag.ts
+++ b/docx-wasm/js/json/structured-data-tag.ts
@@ -17,6 +17,7 @@ export type StructuredTagJSON = {
 export type StructuredDataTagChildJSON =
   | ParagraphJSON
   | TableJSON
+  | StructuredTagJSON
   | CommentRangeStartJSON
   | CommentRangeEndJSON
   | BookmarkStartJSON
-- 
2.43.0

