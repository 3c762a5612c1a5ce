From 7622cf510502876d5b4ca7dd94d7d681e76e39d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:13 +0000
Subject: [PATCH] fix: discard a removed document's field lengths

DocumentStore::remove_doc left the removed document's docInfo entry behind, so a
document added later under the same reference reported the old field lengths
(and the index JSON kept them forever). elasticlunr.js deletes docInfo too.
---
 src/document_store.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/document_store.rs b/src/document_store.rs
index 8adc722..fe8598d 100644
--- a/src/document_store.rs
+++ b/src/document_store.rs
@@ -58,6 +58,7 @@ impl DocumentStore {
     pub fn remove_doc(&mut self, doc_ref: &str) {
         if self.has_doc(doc_ref) {
             self.length -= 1;
+            self.doc_info.remove(doc_ref);
         }
 
         self.docs.remove(doc_ref);
-- 
2.43.0

