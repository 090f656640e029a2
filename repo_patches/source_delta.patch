From 3de494ef4e95d36187a5b47ed8f1f3b526110395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:10 +0000
Subject: [PATCH 001/106] fix: pretransfer: treat escaped characters in lexical
 units as data

An escaped character after the first tag (in a joined part or a lemma
queue) could end the word, split it, or start a queue.
---
 apertium/pretransfer.cc | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/apertium/pretransfer.cc b/apertium/pretransfer.cc
index deb1be7..b9fb3f2 100644
--- a/apertium/pretransfer.cc
+++ b/apertium/pretransfer.cc
@@ -91,6 +91,29 @@ void procWord(InputFile& input, UFILE* output, bool surface_forms, bool compound
       exit(EXIT_FAILURE);
     }
 
+    if(mychar == '\\')
+    {
+      // an escaped character is data: it neither ends the word nor marks
+      // a tag, a queue or a join
+      int const escaped = input.get();
+      if(input.eof())
+      {
+        std::cerr << "ERROR: Unexpected EOF" << std::endl;
+        exit(EXIT_FAILURE);
+      }
+      if(buffer_mode)
+      {
+        buffer += mychar;
+        buffer += escaped;
+      }
+      else
+      {
+        u_fputc(mychar, output);
+        u_fputc(escaped, output);
+      }
+      continue;
+    }
+
     switch(mychar)
     {
     case '<':
-- 
2.43.0


From 233a241ea80e82edab5dbe5874b528bc7daaeec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:39 +0000
Subject: [PATCH 002/106] fix: cleanstream: read word-bound blanks to their
 closing ]]

With -b the second ] of a word-bound blank was dropped.
---
 apertium/apertium_cleanstream.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/apertium/apertium_cleanstream.cc b/apertium/apertium_cleanstream.cc
index 444bfb8..07a4d72 100644
--- a/apertium/apertium_cleanstream.cc
+++ b/apertium/apertium_cleanstream.cc
@@ -87,7 +87,12 @@ main (int argc, char** argv)
       buf += c;
     } else if(!intoken && c == '[') {
       u_fputc(ws, output);
-      blanktmp = input.readBlock('[', ']');
+      if (input.peek() == '[') {
+        input.get();
+        blanktmp = input.finishWBlank();
+      } else {
+        blanktmp = input.readBlock('[', ']');
+      }
       if(keepblank) {
         write(blanktmp, output);
       }
-- 
2.43.0


From 1c014231cb7e492990221d97db59ec0ea2887fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:39 +0000
Subject: [PATCH 003/106] fix: wblank-attach: forget open spans at null flush

The list of open word-bound blanks was cleared without the stack of span
sizes, so that a later [[/]] removed elements from an empty vector.
---
 apertium/wblank-attach.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apertium/wblank-attach.cc b/apertium/wblank-attach.cc
index e379ad9..e0d5afa 100644
--- a/apertium/wblank-attach.cc
+++ b/apertium/wblank-attach.cc
@@ -78,7 +78,8 @@ int main(int argc, char* argv[]) {
 		}
 
 		if (c == '\0') {
-			in_token = in_blank = false;
+			in_token = in_blank = in_wblank = false;
+			wb_stack.clear();
 			if (!wbs.empty()) {
 				std::cerr << "tf-apertium-spread warning: Null-flush found, but had open word-bound blanks on line " << line << ":";
 				for (auto& wb : wbs) {
-- 
2.43.0


From 4fef496f3254a1aad03108922df876b390677b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:29 +0000
Subject: [PATCH 004/106] fix: wblank-attach: keep escapes in word-bound blanks

Contents were written back unescaped, so that an escaped ] ended the
word-bound blank early.
---
 apertium/wblank-attach.cc | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/apertium/wblank-attach.cc b/apertium/wblank-attach.cc
index e0d5afa..fccca0c 100644
--- a/apertium/wblank-attach.cc
+++ b/apertium/wblank-attach.cc
@@ -23,7 +23,7 @@
 #include <array>
 
 void trim_wb(std::string& wb) {
-	while (!wb.empty() && (wb.back() == ';' || wb.back() == ' ')) {
+	while (!wb.empty() && (wb.back() == ';' || wb.back() == ' ') && (wb.size() < 2 || wb[wb.size() - 2] != '\\')) {
 		wb.pop_back();
 	}
 	size_t h = 0;
@@ -50,7 +50,7 @@ int main(int argc, char* argv[]) {
 	std::vector<std::string> wbs;
 	std::vector<size_t> wb_stack;
 	std::string blank;
-	std::string unesc;
+	std::string entry;
 
 	bool in_token = false;
 	bool in_blank = false;
@@ -68,7 +68,6 @@ int main(int argc, char* argv[]) {
 			if (in_blank) {
 				blank += c;
 				blank += n;
-				unesc += n;
 			}
 			else {
 				std::cout.put(c);
@@ -92,7 +91,6 @@ int main(int argc, char* argv[]) {
 				std::cerr << "tf-apertium-spread warning: Null-flush found, but had an open blank on line " << line << std::endl;
 				std::cout << blank;
 				blank.clear();
-				unesc.clear();
 			}
 			std::cout.put(c);
 			std::cout.flush();
@@ -130,7 +128,6 @@ int main(int argc, char* argv[]) {
 
 		if (in_blank) {
 			blank += c;
-			unesc += c;
 		}
 		else {
 			std::cout.put(c);
@@ -153,19 +150,25 @@ int main(int argc, char* argv[]) {
 				}
 			}
 			else if (blank[0] == '[' && blank[1] == '[') {
-				blank.assign(unesc.begin() + 2, unesc.end() - 2);
+				// Escapes are kept, since the content is written back into a blank
+				blank.pop_back();
+				blank.pop_back();
+				blank.erase(0, 2);
 				wb_stack.push_back(0);
 				size_t b = 0;
 				while (b < blank.size()) {
-					size_t e = blank.find(';', b);
-					unesc.assign(blank, b, e - b);
-					trim_wb(unesc);
+					size_t e = b;
+					while (e < blank.size() && blank[e] != ';') {
+						e += (blank[e] == '\\') ? 2 : 1;
+					}
+					entry.assign(blank, b, e - b);
+					trim_wb(entry);
 					// Deduplicate
-					if (!unesc.empty() && std::find(wbs.begin(), wbs.end(), unesc) == wbs.end()) {
+					if (!entry.empty() && std::find(wbs.begin(), wbs.end(), entry) == wbs.end()) {
 						++wb_stack.back();
-						wbs.push_back(unesc);
+						wbs.push_back(entry);
 					}
-					b = std::max(e, e + 1);
+					b = e + 1;
 				}
 			}
 			else {
@@ -173,7 +176,6 @@ int main(int argc, char* argv[]) {
 				std::cout << blank;
 			}
 			blank.clear();
-			unesc.clear();
 		}
 	}
 
-- 
2.43.0


From 0648d011995eb3eb3d21273c0cfc3763acf878f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:41 +0000
Subject: [PATCH 005/106] fix: adapt-docx: initialise the walker's current node

An empty text element made it follow an uninitialised pointer.
---
 apertium/adapt_docx.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apertium/adapt_docx.cc b/apertium/adapt_docx.cc
index 7e54d22..ea479de 100644
--- a/apertium/adapt_docx.cc
+++ b/apertium/adapt_docx.cc
@@ -75,6 +75,7 @@ private:
 Walker::Walker(xmlNode *_root, string _name, bool _goDown, xmlElementType _type)
 {
 	root = _root;
+	current = NULL;
 	name = _name;
 	type = _type;
 	goDown = _goDown;
-- 
2.43.0


From c3d2a01784185474789708cca42e75be80fa711b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:06 +0000
Subject: [PATCH 006/106] fix: adapt-docx: do not move text across breaks,
 tabs, links and other runs

Runs that hold more than a text, and other content between text runs, were
ignored: text moved to the other side of them, and a run that became empty
was removed together with its breaks or tabs.
---
 apertium/adapt_docx.cc | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/apertium/adapt_docx.cc b/apertium/adapt_docx.cc
index ea479de..cd0a17e 100644
--- a/apertium/adapt_docx.cc
+++ b/apertium/adapt_docx.cc
@@ -149,6 +149,7 @@ public:
 	string getText() { return text; }
 	void setText(string _text);
 	bool hasText() { return containsText; }
+	bool hasOtherContent();
 	void setLast(bool _is) { last = _is; }
 	bool isLast() { return last; }
 	void remove();
@@ -199,6 +200,17 @@ void TextRun::setText(string _text)
 	xmlNodeSetSpacePreserve(text_0, _text.front() == ' ' || _text.back() == ' ' ? 1 : 0);
 }
 
+// Whether the run has anything but its properties and a text fragment
+bool TextRun::hasOtherContent()
+{
+	for (xmlNode *node = root->children; node; node = node->next) {
+		if (node != text_0 && node->type == xmlElementType::XML_ELEMENT_NODE &&
+			xmlStrcmp(node->name, (const xmlChar*)"rPr") != 0)
+			return true;
+	}
+	return false;
+}
+
 void TextRun::remove()
 {
 	xmlUnlinkNode(root);
@@ -218,13 +230,22 @@ private:
 Paragraph::Paragraph(xmlNode *_root)
 {
 	root = _root;
-	vector<xmlNode*> nodes = Walker::findAll(root->children, "r", false);
-	for (auto it = nodes.begin(); it != nodes.end(); it++) {
-		TextRun *r = new TextRun(*it);
-		if (r->hasText())
-			runs.push_back(r);
-		else
+	for (xmlNode *node = root->children; node; node = node->next) {
+		if (node->type != xmlElementType::XML_ELEMENT_NODE)
+			continue;
+		if (xmlStrcmp(node->name, (const xmlChar*)"r") == 0) {
+			TextRun *r = new TextRun(node);
+			if (r->hasText() && !r->hasOtherContent()) {
+				runs.push_back(r);
+				continue;
+			}
 			delete r;
+		}
+		else if (Walker::findAll(node->children, "r", true).empty())
+			continue;
+		// Text cannot be moved across other content (breaks, tabs, links...)
+		if (!runs.empty())
+			runs.back()->setLast(true);
 	}
 	if (!runs.empty())
 		runs.back()->setLast(true);
-- 
2.43.0


From e217b2d23a2a7b34ac34bc53cd6daf6efbdd4987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:29 +0000
Subject: [PATCH 007/106] fix: restore-caps: do not apply the last rule match a
 second time to trailing blanks

---
 apertium/caps_restorer.cc | 7 ++++---
 apertium/caps_restorer.h  | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/apertium/caps_restorer.cc b/apertium/caps_restorer.cc
index 4b0508f..c671e9e 100644
--- a/apertium/caps_restorer.cc
+++ b/apertium/caps_restorer.cc
@@ -49,7 +49,7 @@ CapsRestorer::process(InputFile& input, UFILE* output)
       u_fflush(output);
       continue;
     }
-    read_word(input);
+    if (!read_word(input)) continue;
     current_state.step_optional(word_boundary);
     if (current_state.isFinal(finals)) {
       auto path_set = current_state.filterFinalsLRX(finals, alpha, escaped_chars, false, false, 0);
@@ -144,7 +144,7 @@ CapsRestorer::step(int32_t sym)
   }
 }
 
-void
+bool
 CapsRestorer::read_word(InputFile& input)
 {
   LU cur;
@@ -156,7 +156,7 @@ CapsRestorer::read_word(InputFile& input)
   }
   if (input.peek() != '^') {
     words.push_back(std::move(cur));
-    return;
+    return false;
   }
   input.get();
   read_seg(input, cur.form);
@@ -213,4 +213,5 @@ CapsRestorer::read_word(InputFile& input)
   current_state.step(word_boundary);
 
   words.push_back(std::move(cur));
+  return true;
 }
diff --git a/apertium/caps_restorer.h b/apertium/caps_restorer.h
index 857288f..b3421af 100644
--- a/apertium/caps_restorer.h
+++ b/apertium/caps_restorer.h
@@ -54,7 +54,7 @@ private:
 
   std::vector<LU> words;
 
-  void read_word(InputFile& input);
+  bool read_word(InputFile& input);
   void output_all(UFILE* output);
   void step(int32_t sym);
   void read_seg(InputFile& input, UString& str);
-- 
2.43.0


From 0c38d66e3b96cada46bc26c06deeb6856206b186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:38 +0000
Subject: [PATCH 008/106] fix: restore-caps: keep the word-bound blanks that
 follow a capitalisation mark

---
 apertium/caps_restorer.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/apertium/caps_restorer.cc b/apertium/caps_restorer.cc
index c671e9e..5ab184e 100644
--- a/apertium/caps_restorer.cc
+++ b/apertium/caps_restorer.cc
@@ -173,13 +173,14 @@ CapsRestorer::read_word(InputFile& input)
   }
 
   UString src_caps = "aa/aa"_u;
+  bool has_caps = false;
   if (!cur.wblank.empty()) {
     std::vector<UString> new_pieces;
     auto pieces = StringUtils::split(cur.wblank.substr(2, cur.wblank.size()-4), "; "_u);
     for (auto& it : pieces) {
       if (StringUtils::startswith(it, "c:"_u)) {
-        src_caps = it.substr(2);
-        break;
+        if (!has_caps) src_caps = it.substr(2);
+        has_caps = true;
       } else if (delete_wblanks) {
         new_pieces.push_back(it);
       }
-- 
2.43.0


From b6e3dcf410c19cfd5ccc8621ae97f402e8276a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:52 +0000
Subject: [PATCH 009/106] fix: extract-caps: escaped '<' or '>' in a lemma is
 not the start or end of a tag

---
 apertium/apertium_extract_caps.cc | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/apertium/apertium_extract_caps.cc b/apertium/apertium_extract_caps.cc
index 4a026e8..7962a4f 100644
--- a/apertium/apertium_extract_caps.cc
+++ b/apertium/apertium_extract_caps.cc
@@ -64,9 +64,17 @@ std::pair<UString, UString> read_lu(InputFile& input)
 
 UString lemma_case(UStringView lu)
 {
-  auto last_lem = lu.rfind(">+"_u);
-  if (last_lem == UStringView::npos) last_lem = 0;
-  auto lem_end = lu.find('<', last_lem);
+  // end of the last part's lemma: the first '<' after the last ">+", skipping escapes
+  size_t lem_end = UStringView::npos;
+  for (size_t i = 0; i < lu.size(); i++) {
+    if (lu[i] == '\\') {
+      i++;
+    } else if (lu[i] == '>' && i + 1 < lu.size() && lu[i+1] == '+') {
+      lem_end = UStringView::npos;
+    } else if (lu[i] == '<' && lem_end == UStringView::npos) {
+      lem_end = i;
+    }
+  }
   return StringUtils::getcase(lu.substr(0, lem_end));
 }
 
-- 
2.43.0


From 726ef384805fef4ae799986283db90ca19f77885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:32 +0000
Subject: [PATCH 010/106] fix: preprocess-transfer: treat every character of an
 attr-item as data in its regex

Only + * ? . were escaped, so an item such as '-' could form a range with
its siblings, and items with brackets, '|' or '^' gave an invalid or
different regular expression.
---
 apertium/transfer_regex.cc | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/apertium/transfer_regex.cc b/apertium/transfer_regex.cc
index 6698254..a11f68a 100644
--- a/apertium/transfer_regex.cc
+++ b/apertium/transfer_regex.cc
@@ -43,6 +43,17 @@ add_entry(TrieNode* root, const std::vector<int32_t>& vec)
   cur->end = true;
 }
 
+// append a character of a tag, which is never a regex operator,
+// neither on its own nor in a [...] group
+void
+append_literal(UString& ret, UChar32 c)
+{
+  if (UString("\\^$.|?*+()[]{}-&"_u).find(c) != UString::npos) {
+    ret += '\\';
+  }
+  ret += c;
+}
+
 UString
 unbuildTrie(TrieNode* root)
 {
@@ -52,10 +63,7 @@ unbuildTrie(TrieNode* root)
   int single_count = 0;
   for (auto it : root->next) {
     if (it->end && it->next.empty()) {
-      if (it->c == '+' || it->c == '*' || it->c == '?' || it->c == '.') {
-        single += '\\';
-      }
-      single += it->c;
+      append_literal(single, it->c);
       single_count++;
     } else {
       groups.push_back(unbuildTrie(it));
@@ -70,10 +78,7 @@ unbuildTrie(TrieNode* root)
     }
   }
   UString ret;
-  if (root->c == '+' || root->c == '*' || root->c == '?' || root->c == '.') {
-    ret += '\\';
-  }
-  ret += root->c;
+  append_literal(ret, root->c);
   if (groups.empty()) {
     return ret;
   } else if (groups.size() == 1) {
-- 
2.43.0


From 8c907441a5831bed33f15fe8e4bc4c2d3a212390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:54 +0000
Subject: [PATCH 011/106] fix: transfer stages: a rejected rule does not output
 the blanks that are read again

The blanks between the words of a rule that ends in reject-current-rule
were written and then, as the words were matched again, written a second
time.
---
 apertium/postchunk.cc     |  2 +-
 apertium/transfer_base.cc | 19 ++++++++++++++++---
 apertium/transfer_base.h  |  3 ++-
 3 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/apertium/postchunk.cc b/apertium/postchunk.cc
index 5189c7b..4baaec3 100644
--- a/apertium/postchunk.cc
+++ b/apertium/postchunk.cc
@@ -698,7 +698,7 @@ Postchunk::applyRule()
     word[i] = new InterchunkWord(*tmpword[i-1]);
   }
 
-  int words_to_consume = processRule(lastrule);
+  int words_to_consume = processRule(lastrule, true);
   lastrule = NULL;
 
   if(word)
diff --git a/apertium/transfer_base.cc b/apertium/transfer_base.cc
index a5403ef..4db42aa 100644
--- a/apertium/transfer_base.cc
+++ b/apertium/transfer_base.cc
@@ -250,9 +250,10 @@ TransferBase::evalString(xmlNode* element)
 }
 
 int
-TransferBase::processRule(xmlNode* localroot)
+TransferBase::processRule(xmlNode* localroot, bool single_token)
 {
   int words_to_consume = -1;
+  size_t blanks = blank_queue.size();
   // iterating over the <action> tag
   for (auto i : children(localroot)) {
     words_to_consume = processInstruction(i);
@@ -262,10 +263,22 @@ TransferBase::processRule(xmlNode* localroot)
       break;
     }
   }
+  if (words_to_consume == 0) {
+    // everything will be read again
+    blanks = 0;
+  } else if (words_to_consume > 0 && !single_token) {
+    // what follows the consumed words will be read again
+    size_t used = blanks - blank_queue.size();
+    size_t consumed = words_to_consume - 1;
+    blanks = (consumed > used ? consumed - used : 0);
+  }
   // flush remaining non-space blanks
   while (!blank_queue.empty()) {
-    if (blank_queue.front() != " "_u) {
-      write(blank_queue.front(), output);
+    if (blanks > 0) {
+      if (blank_queue.front() != " "_u) {
+        write(blank_queue.front(), output);
+      }
+      blanks--;
     }
     blank_queue.pop();
   }
diff --git a/apertium/transfer_base.h b/apertium/transfer_base.h
index d0a55a9..53be7a5 100644
--- a/apertium/transfer_base.h
+++ b/apertium/transfer_base.h
@@ -80,7 +80,8 @@ protected:
   virtual UString processMlu(xmlNode* element) = 0;
   virtual UString processChunk(xmlNode* element) = 0;
 
-  int processRule(xmlNode* localroot);
+  // single_token: the blanks are all inside the token that the rule matches
+  int processRule(xmlNode* localroot, bool single_token = false);
   int processInstruction(xmlNode* localroot);
   int processRejectCurrentRule(xmlNode* localroot);
   int processChoose(xmlNode* localroot);
-- 
2.43.0


From 0538349bbe30fbb96acaa9b89cf90090135721c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:41 +0000
Subject: [PATCH 012/106] fix: transfer stages: keep the position right after
 reject-current-rule consumes words

The position of the last match stayed where the rejected rule had ended, so
a further rejection skipped words that no rule had seen.
---
 apertium/interchunk.cc | 1 +
 apertium/postchunk.cc  | 1 +
 apertium/transfer.cc   | 1 +
 3 files changed, 3 insertions(+)

diff --git a/apertium/interchunk.cc b/apertium/interchunk.cc
index dcc1bba..4a918a6 100644
--- a/apertium/interchunk.cc
+++ b/apertium/interchunk.cc
@@ -501,6 +501,7 @@ Interchunk::interchunk(InputFile& in, UFILE* out)
               num_consumed_words++;
             }
           }
+          last = input_buffer.getPos();
         }
         else
         {
diff --git a/apertium/postchunk.cc b/apertium/postchunk.cc
index 4baaec3..60ef0df 100644
--- a/apertium/postchunk.cc
+++ b/apertium/postchunk.cc
@@ -596,6 +596,7 @@ Postchunk::postchunk(InputFile& in, UFILE* out)
               num_consumed_words++;
             }
           }
+          last = input_buffer.getPos();
         }
         else
         {
diff --git a/apertium/transfer.cc b/apertium/transfer.cc
index 3b8a585..c730bfc 100644
--- a/apertium/transfer.cc
+++ b/apertium/transfer.cc
@@ -1022,6 +1022,7 @@ Transfer::transfer(InputFile& in, UFILE* out)
               num_consumed_words++;
             }
           }
+          last = input_buffer.getPos();
         }
         else
         {
-- 
2.43.0


From 2a22c077d65991a7c0ebf5f977dd8a74edf32083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:59 +0000
Subject: [PATCH 013/106] fix: transfer: an mlu in a macro without parameters
 crashed

---
 apertium/transfer.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apertium/transfer.cc b/apertium/transfer.cc
index c730bfc..577da70 100644
--- a/apertium/transfer.cc
+++ b/apertium/transfer.cc
@@ -362,7 +362,8 @@ Transfer::processMlu(xmlNode* element)
 	value.append(myword);
   }
 
-  if(last_lword == 1) {
+  // see processLu()
+  if(last_lword == 1 && word != nullptr) {
     out_wblank = word[0]->getWblank();
   }
 
-- 
2.43.0


From 2aeff5426fcdc19ec1a56535e838c3c07c821074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:59 +0000
Subject: [PATCH 014/106] fix: transfer: a let after an mlu kept the word-bound
 blank out of the variable

---
 apertium/transfer.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/apertium/transfer.cc b/apertium/transfer.cc
index 577da70..9186dba 100644
--- a/apertium/transfer.cc
+++ b/apertium/transfer.cc
@@ -362,6 +362,8 @@ Transfer::processMlu(xmlNode* element)
 	value.append(myword);
   }
 
+  in_lu = false;
+
   // see processLu()
   if(last_lword == 1 && word != nullptr) {
     out_wblank = word[0]->getWblank();
-- 
2.43.0


From 93a1415cde2df3f56a4b79f64fc6ce31d4626f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:57 +0000
Subject: [PATCH 015/106] fix: transfer: escaped characters in a word are data
 in lem, lemh, lemq and tags

---
 apertium/transfer_data.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/apertium/transfer_data.cc b/apertium/transfer_data.cc
index bcf8649..9617bf3 100644
--- a/apertium/transfer_data.cc
+++ b/apertium/transfer_data.cc
@@ -44,11 +44,12 @@ TransferData::destroy()
 TransferData::TransferData()
 {
   // adding fixed attr_items
-  attr_items["lem"_u] = "^(([^<]|\"\\<\")+)"_u;
-  attr_items["lemq"_u] = "\\#[- _][^<]+"_u;
-  attr_items["lemh"_u] = "^(([^<#]|\"\\<\"|\"\\#\")+)"_u;
+  // escaped characters are part of the lemma
+  attr_items["lem"_u] = "^(([^<\\\\]|\\\\.)+)"_u;
+  attr_items["lemq"_u] = "(?<!(?<!\\\\)(\\\\\\\\){0,16}\\\\)\\#[- _]([^<\\\\]|\\\\.)+"_u;
+  attr_items["lemh"_u] = "^(([^<#\\\\]|\\\\.)+)"_u;
   attr_items["whole"_u] = "(.+)"_u;
-  attr_items["tags"_u] = "((<[^>]+>)+)"_u;
+  attr_items["tags"_u] = "(?<!(?<!\\\\)(\\\\\\\\){0,16}\\\\)((<[^>]+>)+)"_u;
   attr_items["chname"_u] = "(\\{([^/]+)\\/)"_u; // includes delimiters { and / !!!
   attr_items["chcontent"_u] = "(\\{.+)"_u;
   attr_items["content"_u] = "(\\{.+)"_u;
-- 
2.43.0


From ecf0acc68bf839dbbe2e95f712b514c8b6b1e97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:33 +0000
Subject: [PATCH 016/106] fix: postchunk: a word-bound blank may end in an
 escaped bracket

---
 apertium/postchunk.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/apertium/postchunk.cc b/apertium/postchunk.cc
index 60ef0df..c0798aa 100644
--- a/apertium/postchunk.cc
+++ b/apertium/postchunk.cc
@@ -1066,10 +1066,10 @@ Postchunk::splitWordsAndBlanks(UString const &chunk, vector<UString *> &words,
             ref += '\\';
             ref += chunk[++i];
           }
-          else if(chunk[i] == ']' && chunk[i-1] == ']')
+          else if(chunk[i] == ']' && chunk[i+1] == ']')
           {
-            ref += chunk[i];
-            i++; //i->"^"_u
+            ref.append("]]"_u);
+            i += 2; //i->"^"_u
             break;
           }
           else
-- 
2.43.0


From 4eeaa3deec9adbeceaf0c42e23699bdbda725d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:33 +0000
Subject: [PATCH 017/106] fix: postchunk: honour dictionary case in chunks that
 match a rule

---
 apertium/postchunk.cc | 4 ++--
 apertium/postchunk.h  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/apertium/postchunk.cc b/apertium/postchunk.cc
index c0798aa..bf7ee4e 100644
--- a/apertium/postchunk.cc
+++ b/apertium/postchunk.cc
@@ -970,11 +970,11 @@ Postchunk::splitWordsAndBlanks(UString const &chunk, vector<UString *> &words,
   bool uppercase_first = false;
   bool lastblank = true;
 
-  if(case_info == "AA"_u)
+  if(!dictionary_case && case_info == "AA"_u)
   {
     uppercase_all = true;
   }
-  else if(case_info == "Aa"_u)
+  else if(!dictionary_case && case_info == "Aa"_u)
   {
     uppercase_first = true;
   }
diff --git a/apertium/postchunk.h b/apertium/postchunk.h
index 3dda423..01ae8ad 100644
--- a/apertium/postchunk.h
+++ b/apertium/postchunk.h
@@ -62,7 +62,7 @@ private:
   static vector<UString> getVecTags(UString const &chunk);
   static int beginChunk(UString const &chunk);
   static int endChunk(UString const &chunk);
-  static void splitWordsAndBlanks(UString const &chunk,
+  void splitWordsAndBlanks(UString const &chunk,
 				  vector<UString *> &words,
 				  vector<UString *> &blanks);
   static UString pseudolemma(UString const &chunk);
-- 
2.43.0


From 1df8917d3c5dd7933b7c8e1aaa7f0e9514d675a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:27 +0000
Subject: [PATCH 018/106] fix: postchunk: do not drop the last character of a
 chunk's content

---
 apertium/postchunk.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apertium/postchunk.cc b/apertium/postchunk.cc
index bf7ee4e..8c83f76 100644
--- a/apertium/postchunk.cc
+++ b/apertium/postchunk.cc
@@ -821,7 +821,7 @@ Postchunk::beginChunk(UString const &chunk)
 int
 Postchunk::endChunk(UString const &chunk)
 {
-  return chunk.size()-2;
+  return chunk.size()-1;
 }
 
 UString
-- 
2.43.0


From da817ae52bcda84ebf48116942b051af484a9c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:29 +0000
Subject: [PATCH 019/106] fix: postchunk: keep the blanks before and after the
 words of a chunk that matches a rule

---
 apertium/postchunk.cc     | 30 ++++++++++++++++++++----------
 apertium/transfer_base.cc |  4 ++++
 apertium/transfer_base.h  |  1 +
 3 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/apertium/postchunk.cc b/apertium/postchunk.cc
index 8c83f76..d5c3147 100644
--- a/apertium/postchunk.cc
+++ b/apertium/postchunk.cc
@@ -232,6 +232,8 @@ Postchunk::processChunk(xmlNode* element)
 void
 Postchunk::processOut(xmlNode *localroot)
 {
+  write(leading_blank, output);
+  leading_blank.clear();
   in_out = true;
 
   for (auto i : children(localroot)) {
@@ -684,7 +686,9 @@ Postchunk::applyRule()
 {
   UString const chunk = *tmpword[0];
   tmpword.clear();
-  splitWordsAndBlanks(chunk, tmpword, tmpblank);
+  // the blanks before, between and after the words of the chunk
+  vector<UString *> blanks;
+  splitWordsAndBlanks(chunk, tmpword, blanks);
 
   word = new InterchunkWord *[tmpword.size()+1];
   lword = tmpword.size();
@@ -693,13 +697,17 @@ Postchunk::applyRule()
   for(unsigned int i = 1, limit = tmpword.size()+1; i != limit; i++)
   {
     if(i != 1) {
-      blank_queue.push(*tmpblank[i-1]);
+      blank_queue.push(*blanks[i-1]);
     }
 
     word[i] = new InterchunkWord(*tmpword[i-1]);
   }
 
+  leading_blank = *blanks.front();
   int words_to_consume = processRule(lastrule, true);
+  if (words_to_consume != 0 && blanks.size() > 1) {
+    write(*blanks.back(), output);
+  }
   lastrule = NULL;
 
   if(word)
@@ -712,13 +720,11 @@ Postchunk::applyRule()
   }
   word = NULL;
 
-  for(unsigned int i = 0, limit = tmpword.size(); i != limit; i++)
-  {
-    if(i != 0)
-    {
-      delete tmpblank[i];
-    }
-    delete tmpword[i];
+  for (auto& it : blanks) {
+    delete it;
+  }
+  for (auto& it : tmpword) {
+    delete it;
   }
   tmpword.clear();
   tmpblank.clear();
@@ -969,6 +975,7 @@ Postchunk::splitWordsAndBlanks(UString const &chunk, vector<UString *> &words,
   bool uppercase_all = false;
   bool uppercase_first = false;
   bool lastblank = true;
+  blanks.push_back(new UString());
 
   if(!dictionary_case && case_info == "AA"_u)
   {
@@ -1137,7 +1144,7 @@ Postchunk::splitWordsAndBlanks(UString const &chunk, vector<UString *> &words,
       }
       else
       {
-        if (!(lastblank && blanks.back()))
+        if (!lastblank)
         {
           blanks.push_back(new UString());
         }
@@ -1180,4 +1187,7 @@ Postchunk::splitWordsAndBlanks(UString const &chunk, vector<UString *> &words,
       lastblank = true;
     }
   }
+  if (!lastblank) {
+    blanks.push_back(new UString());
+  }
 }
diff --git a/apertium/transfer_base.cc b/apertium/transfer_base.cc
index 4db42aa..7c80649 100644
--- a/apertium/transfer_base.cc
+++ b/apertium/transfer_base.cc
@@ -272,6 +272,10 @@ TransferBase::processRule(xmlNode* localroot, bool single_token)
     size_t consumed = words_to_consume - 1;
     blanks = (consumed > used ? consumed - used : 0);
   }
+  if (words_to_consume != 0) {
+    write(leading_blank, output);
+  }
+  leading_blank.clear();
   // flush remaining non-space blanks
   while (!blank_queue.empty()) {
     if (blanks > 0) {
diff --git a/apertium/transfer_base.h b/apertium/transfer_base.h
index 53be7a5..1352d3d 100644
--- a/apertium/transfer_base.h
+++ b/apertium/transfer_base.h
@@ -54,6 +54,7 @@ protected:
 
   bool in_let_var = false;
   bool in_out = false;
+  UString leading_blank; // not yet written blank before the words of a chunk
   UString var_val;
   map<xmlNode *, TransferInstr> evalStringCache;
 
-- 
2.43.0


From 0208682ef53ebcc7aedc73eb5ac8eff132d77cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:28 +0000
Subject: [PATCH 020/106] fix: transfer: an escaped brace in a chunk's name is
 not the start of its content

---
 apertium/transfer_data.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apertium/transfer_data.cc b/apertium/transfer_data.cc
index 9617bf3..e6d6eb0 100644
--- a/apertium/transfer_data.cc
+++ b/apertium/transfer_data.cc
@@ -51,8 +51,8 @@ TransferData::TransferData()
   attr_items["whole"_u] = "(.+)"_u;
   attr_items["tags"_u] = "(?<!(?<!\\\\)(\\\\\\\\){0,16}\\\\)((<[^>]+>)+)"_u;
   attr_items["chname"_u] = "(\\{([^/]+)\\/)"_u; // includes delimiters { and / !!!
-  attr_items["chcontent"_u] = "(\\{.+)"_u;
-  attr_items["content"_u] = "(\\{.+)"_u;
+  attr_items["chcontent"_u] = "(?<!(?<!\\\\)(\\\\\\\\){0,16}\\\\)(\\{.+)"_u;
+  attr_items["content"_u] = "(?<!(?<!\\\\)(\\\\\\\\){0,16}\\\\)(\\{.+)"_u;
 }
 
 TransferData::~TransferData()
-- 
2.43.0


From b30cbc902376572cbc0f9a6cc7f9e107da511fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:30 +0000
Subject: [PATCH 021/106] fix: no extra empty message after the last one in the
 null-flush mode of the transfer stages

---
 apertium/interchunk.cc | 2 +-
 apertium/postchunk.cc  | 2 +-
 apertium/transfer.cc   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/apertium/interchunk.cc b/apertium/interchunk.cc
index 4a918a6..eca7d46 100644
--- a/apertium/interchunk.cc
+++ b/apertium/interchunk.cc
@@ -439,7 +439,7 @@ Interchunk::interchunk_wrapper_null_flush(InputFile& in, UFILE* out)
   null_flush = false;
   internal_null_flush = true;
 
-  while(!in.eof()) {
+  while (!in.eof() && in.peek() != U_EOF) {
     interchunk(in, out);
     u_fputc('\0', out);
     u_fflush(out);
diff --git a/apertium/postchunk.cc b/apertium/postchunk.cc
index d5c3147..fcc2b50 100644
--- a/apertium/postchunk.cc
+++ b/apertium/postchunk.cc
@@ -535,7 +535,7 @@ Postchunk::postchunk_wrapper_null_flush(InputFile& in, UFILE* out)
   null_flush = false;
   internal_null_flush = true;
 
-  while(!in.eof())
+  while (!in.eof() && in.peek() != U_EOF)
   {
     postchunk(in, out);
     u_fputc('\0', out);
diff --git a/apertium/transfer.cc b/apertium/transfer.cc
index 9186dba..46db3df 100644
--- a/apertium/transfer.cc
+++ b/apertium/transfer.cc
@@ -919,7 +919,7 @@ Transfer::transfer_wrapper_null_flush(InputFile& in, UFILE* out)
   null_flush = false;
   internal_null_flush = true;
 
-  while(!in.eof())
+  while (!in.eof() && in.peek() != U_EOF)
   {
     tmp_clear();
     transfer(in, out);
-- 
2.43.0


From 49ab69500c75a65ef38cae0fd926a5ed4a0d581f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:30 +0000
Subject: [PATCH 022/106] fix: forget the word-bound blanks of variables
 between null-flushed messages

---
 apertium/postchunk.cc | 1 +
 apertium/transfer.cc  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/apertium/postchunk.cc b/apertium/postchunk.cc
index fcc2b50..f858ffb 100644
--- a/apertium/postchunk.cc
+++ b/apertium/postchunk.cc
@@ -541,6 +541,7 @@ Postchunk::postchunk_wrapper_null_flush(InputFile& in, UFILE* out)
     u_fputc('\0', out);
     u_fflush(out);
     variables = variable_defaults;
+    var_out_wblank.clear();
   }
 
   internal_null_flush = false;
diff --git a/apertium/transfer.cc b/apertium/transfer.cc
index 46db3df..2854fb9 100644
--- a/apertium/transfer.cc
+++ b/apertium/transfer.cc
@@ -911,6 +911,7 @@ Transfer::tmp_clear()
   tmpblank.clear();
   tmpword.clear();
   variables = variable_defaults;
+  var_out_wblank.clear();
 }
 
 void
-- 
2.43.0


From ed13e9b9ba67c9c42b6050771a529df150bb6b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:30 +0000
Subject: [PATCH 023/106] fix: postchunk keeps the first blank of a message
 after a message that ends in a rejected rule

---
 apertium/postchunk.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apertium/postchunk.cc b/apertium/postchunk.cc
index f858ffb..3d058ce 100644
--- a/apertium/postchunk.cc
+++ b/apertium/postchunk.cc
@@ -671,6 +671,7 @@ Postchunk::postchunk(InputFile& in, UFILE* out)
       }
       else {
         write(current.getContent(), output);
+        tmpblank.clear();
         return;
       }
       break;
-- 
2.43.0


From cde481e5dc48b87f73646ea58e4a4dc7ea87bdfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:16 +0000
Subject: [PATCH 024/106] fix: tagger: an escaped character of a lexical form
 is neither a '+' nor the start of a tag

---
 apertium/file_morpho_stream.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/apertium/file_morpho_stream.cc b/apertium/file_morpho_stream.cc
index b823688..b4e611a 100644
--- a/apertium/file_morpho_stream.cc
+++ b/apertium/file_morpho_stream.cc
@@ -171,6 +171,12 @@ FileMorphoStream::lrlmClassify(UString const &str, int &ivwords)
         }
       }
       ms.step(u_tolower(str[i]), ca_any_char);
+      if(str[i] == '\\' && i + 1 != limit)
+      {
+        // an escaped character is never a '+' or the beginning of a tag
+        i++;
+        ms.step(u_tolower(str[i]), ca_any_char);
+      }
     }
     else
     {
-- 
2.43.0


From e8d69b937fcdb7ed6c5b31e4d884c0fc823c65c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:16 +0000
Subject: [PATCH 025/106] fix: tagger: looking for a similar ambiguity class no
 longer overwrites the open class

---
 apertium/tagger_utils.cc | 16 ++++++++--------
 apertium/tagger_utils.h  |  6 +++---
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/apertium/tagger_utils.cc b/apertium/tagger_utils.cc
index 3da0415..695018d 100644
--- a/apertium/tagger_utils.cc
+++ b/apertium/tagger_utils.cc
@@ -145,22 +145,22 @@ tagger_utils::add_neccesary_ambg_classes(TaggerData &td) {
   }
 }
 
-set<TTag> &
+set<TTag> const &
 tagger_utils::find_similar_ambiguity_class(TaggerData &td, set<TTag> &c) {
-  set<TTag> &ret = td.getOpenClass();
+  set<TTag> const *ret = &td.getOpenClass();
   Collection &output = td.getOutput();
 
   for (int k=0; k<output.size(); k++) {
     const set<TTag> &ambg_class = output[k];
-    if (ambg_class.size() > ret.size() ||
-        (ambg_class.size() == ret.size())) {
+    if (ambg_class.size() > ret->size() ||
+        (ambg_class.size() == ret->size())) {
       continue;
     }
     if (includes(ambg_class.begin(), ambg_class.end(), c.begin(), c.end())) {
-      ret = ambg_class;
+      ret = &ambg_class;
     }
   }
-  return ret;
+  return *ret;
 }
 
 void
@@ -192,7 +192,7 @@ static void _warn_absent_ambiguity_class(TaggerWord &word) {
   cerr << "New ambiguity class: " << word.get_string_tags() << "\n";
 }
 
-set<TTag> &
+set<TTag> const &
 tagger_utils::require_similar_ambiguity_class(TaggerData &td, set<TTag> &tags, TaggerWord &word, bool warn) {
   if (td.getOutput().has_not(tags)) {
     if (warn) {
@@ -203,7 +203,7 @@ tagger_utils::require_similar_ambiguity_class(TaggerData &td, set<TTag> &tags, T
   return tags;
 }
 
-set<TTag> &
+set<TTag> const &
 tagger_utils::require_similar_ambiguity_class(TaggerData &td, set<TTag> &tags) {
   if (td.getOutput().has_not(tags)) {
     return find_similar_ambiguity_class(td, tags);
diff --git a/apertium/tagger_utils.h b/apertium/tagger_utils.h
index 31b6458..5abc53f 100644
--- a/apertium/tagger_utils.h
+++ b/apertium/tagger_utils.h
@@ -92,15 +92,15 @@ void count_ambg_class_freq(Collection &output, vector<unsigned int> &acc,
 *  @param c set of tags (ambiguity class)
 *  @return a known ambiguity class
 */
-set<TTag> & find_similar_ambiguity_class(TaggerData &td, set<TTag> &c);
+set<TTag> const & find_similar_ambiguity_class(TaggerData &td, set<TTag> &c);
 
 /** Dies with an error message if the tags aren't in the tagger data */
 void require_ambiguity_class(TaggerData &td, set<TTag> &tags, TaggerWord &word, int nw);
 
 /** As with find_similar_ambiguity_class, but returns tags if it's already fine
  * & prints a warning if warn */
-set<TTag> & require_similar_ambiguity_class(TaggerData &td, set<TTag> &tags, TaggerWord &word, bool warn);
-set<TTag> & require_similar_ambiguity_class(TaggerData &td, set<TTag> &tags);
+set<TTag> const & require_similar_ambiguity_class(TaggerData &td, set<TTag> &tags, TaggerWord &word, bool warn);
+set<TTag> const & require_similar_ambiguity_class(TaggerData &td, set<TTag> &tags);
 
 /** Just prints a warning if warn */
 void warn_absent_ambiguity_class(TaggerData &td, set<TTag> &tags, TaggerWord &word, bool warn);
-- 
2.43.0


From 8efb298ff3f879b0fbbb9f86ee790f471c204746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:16 +0000
Subject: [PATCH 026/106] fix: retraining a tagger keeps its ambiguity classes
 instead of reading a dictionary from stdin

---
 apertium/tagger.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/apertium/tagger.cc b/apertium/tagger.cc
index 8022c0f..a1b601c 100644
--- a/apertium/tagger.cc
+++ b/apertium/tagger.cc
@@ -559,7 +559,10 @@ MorphoStream* apertium_tagger::setup_untagged_morpho_stream(
     UFILE* *UntaggedCorpus) {
   *UntaggedCorpus = try_open_file_utf8("UNTAGGED_CORPUS", UntaggedFn, "r");
 
-  FILE_Tagger_.read_dictionary(DicFn);
+  // without a dictionary (retraining) the ambiguity classes and probabilities of the tagger are kept
+  if (DicFn != NULL) {
+    FILE_Tagger_.read_dictionary(DicFn);
+  }
 
   return new FileMorphoStream(UntaggedFn, true, &FILE_Tagger_.get_tagger_data());
 }
-- 
2.43.0


From 99bed64886f8bcc885ae1eb95dfe115af80dec7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:16 +0000
Subject: [PATCH 027/106] fix: tagger: no extra empty message at the end of
 null-flushed input

---
 apertium/file_morpho_stream.cc | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/apertium/file_morpho_stream.cc b/apertium/file_morpho_stream.cc
index b4e611a..565c0ae 100644
--- a/apertium/file_morpho_stream.cc
+++ b/apertium/file_morpho_stream.cc
@@ -78,10 +78,11 @@ FileMorphoStream::get_next_word()
     return word;
   }
 
-  if(input.eof())
+  if(input.eof() || (null_flush && foundEOF && input.peek() == U_EOF))
   {
     return NULL;
   }
+  foundEOF = false;
 
   int ivwords = 0;
   vwords.push_back(new TaggerWord());
@@ -91,7 +92,7 @@ FileMorphoStream::get_next_word()
     UChar32 symbol = input.get();
     if(input.eof() || (null_flush && symbol == '\0'))
     {
-      end_of_file = true;
+      end_of_file = foundEOF = true;
       vwords[ivwords]->add_tag(ca_tag_keof, ""_u, td->getPreferRules());
       return get_next_word();
     }
@@ -119,7 +120,7 @@ FileMorphoStream::get_next_word()
       {
         symbol = input.get();
         if(input.eof() || (null_flush && symbol == '\0')) {
-          end_of_file = true;
+          end_of_file = foundEOF = true;
           vwords[ivwords]->add_ignored_string(str);
           vwords[ivwords]->add_tag(ca_tag_keof, ""_u, td->getPreferRules());
           return get_next_word();
@@ -127,7 +128,7 @@ FileMorphoStream::get_next_word()
           str += '\\';
           symbol = input.get();
           if(input.eof() || (null_flush && symbol == '\0')) {
-            end_of_file = true;
+            end_of_file = foundEOF = true;
             vwords[ivwords]->add_ignored_string(str);
             vwords[ivwords]->add_tag(ca_tag_keof, ""_u, td->getPreferRules());
             return get_next_word();
@@ -307,7 +308,7 @@ FileMorphoStream::readRestOfWord(int &ivwords)
     UChar32 symbol = input.get();
     if(input.eof() || (null_flush && symbol == '\0'))
     {
-      end_of_file = true;
+      end_of_file = foundEOF = true;
       if(str.size() > 0)
       {
         vwords[ivwords]->add_ignored_string(str);
@@ -349,7 +350,7 @@ FileMorphoStream::readRestOfWord(int &ivwords)
     UChar32 symbol = input.get();
     if(input.eof() || (null_flush && symbol == '\0'))
     {
-      end_of_file = true;
+      end_of_file = foundEOF = true;
       if(str.size() > 0)
       {
         vwords[ivwords]->add_ignored_string(str);
-- 
2.43.0


From 72c018bd6f4b03601c71bfcb0236b9e0a2ed867a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:16 +0000
Subject: [PATCH 028/106] fix: sliding-window tagger keeps the end of the text,
 empties its window at a flush, and takes unknown words as the open class

---
 apertium/lswpost.cc | 84 ++++++++++++++++++++++-----------------------
 1 file changed, 42 insertions(+), 42 deletions(-)

diff --git a/apertium/lswpost.cc b/apertium/lswpost.cc
index d93c9bd..d7ead97 100644
--- a/apertium/lswpost.cc
+++ b/apertium/lswpost.cc
@@ -333,41 +333,53 @@ LSWPoST::print_para_matrix() {
 
 void
 LSWPoST::tagger(MorphoStream &morpho_stream, UFILE* Output) {
-  TaggerWord *word_left = NULL, *word_mid = NULL, *word_right = NULL;
+  TaggerWord *word_mid = NULL, *word_right = NULL;
   set<TTag> tags_left, tags_mid, tags_right;
   set<TTag>::iterator iter_left, iter_mid, iter_right;
+  int const TAG_kEOF = (tdlsw.getTagIndex())["TAG_kEOF"_u];
   morpho_stream.setNullFlush(TheFlags.getNullFlush());
 
-  word_left = new TaggerWord();          // word left
-  word_left->add_tag(eos, "sent"_u, tdlsw.getPreferRules());
-  word_left->set_show_sf(TheFlags.getShowSuperficial());
-  tags_left = word_left->get_tags();          // tags left
-
-  warn_absent_ambiguity_class(tdlsw, tags_left, *word_left, TheFlags.getDebug());
+  tags_left.insert(eos);
   word_mid = morpho_stream.get_next_word(); // word mid
-  word_mid->set_show_sf(TheFlags.getShowSuperficial());
-  tags_mid = word_mid->get_tags();          // tags mid
 
-  warn_absent_ambiguity_class(tdlsw, tags_mid, *word_mid, TheFlags.getDebug());
-  if (morpho_stream.getEndOfFile()) {
-    delete word_left;
-    delete word_mid;
-    return;
-  }
-  word_right = morpho_stream.get_next_word(); // word_right
-  word_right->set_show_sf(TheFlags.getShowSuperficial());
+  while (word_mid) {
+    warn_absent_ambiguity_class(tdlsw, word_mid->get_tags(), *word_mid, TheFlags.getDebug());
+    word_mid->set_show_sf(TheFlags.getShowSuperficial());
+
+    if (morpho_stream.getEndOfFile()) {
+      // the last word of the text or message only holds the blank at its end
+      TTag tag = TAG_kEOF;
+      write(word_mid->get_lexical_form(tag, TAG_kEOF), Output);
+      if (TheFlags.getNullFlush()) {
+        u_fputc('\0', Output);
+      }
+      u_fflush(Output);
+      morpho_stream.setEndOfFile(false);
+
+      tags_left.clear();
+      tags_left.insert(eos);
+      delete word_mid;
+      word_mid = morpho_stream.get_next_word();
+      continue;
+    }
 
-  UString micad;
+    tags_mid = word_mid->get_tags();
+    if (tags_mid.size()==0) { //This is an unknown word
+      tags_mid = tdlsw.getOpenClass();
+    }
 
-  while (word_right) {
-    tags_right = word_right->get_tags();
-    warn_absent_ambiguity_class(tdlsw, tags_right, *word_right, TheFlags.getDebug());
+    word_right = morpho_stream.get_next_word(); // word right
+    tags_right.clear();
+    if (word_right != NULL) {
+      tags_right = word_right->get_tags();
+      if (tags_right.size()==0) { //This is an unknown word
+        tags_right = tdlsw.getOpenClass();
+      }
+    }
 
-    set<TTag> *tags_avail;
-    tags_avail = &tags_mid;
     double max = -1;
-    TTag tag_max = *tags_avail->begin();
-    for (iter_mid = tags_avail->begin(); iter_mid != tags_avail->end(); ++iter_mid) {
+    TTag tag_max = *tags_mid.begin();
+    for (iter_mid = tags_mid.begin(); iter_mid != tags_mid.end(); ++iter_mid) {
       double n = 0;
       for (iter_left = tags_left.begin(); iter_left != tags_left.end(); ++iter_left) {
         for (iter_right = tags_right.begin(); iter_right != tags_right.end(); ++iter_right) {
@@ -380,26 +392,14 @@ LSWPoST::tagger(MorphoStream &morpho_stream, UFILE* Output) {
       }
     }
 
-    micad = word_mid->get_lexical_form(tag_max, (tdlsw.getTagIndex())["TAG_kEOF"_u]);
-    write(micad, Output);
-    if (morpho_stream.getEndOfFile()) {
-      if (TheFlags.getNullFlush()) {
-        u_fputc('\0', Output);
-      }
-      u_fflush(Output);
-      morpho_stream.setEndOfFile(false);
+    if (TheFlags.getFirst()) {
+      write(word_mid->get_all_chosen_tag_first(tag_max, TAG_kEOF), Output);
+    } else {
+      write(word_mid->get_lexical_form(tag_max, TAG_kEOF), Output);
     }
 
-    delete word_left;
-    word_left = word_mid;
+    delete word_mid;
     tags_left = tags_mid;
     word_mid = word_right;
-    tags_mid = tags_right;
-    word_right = morpho_stream.get_next_word();
-    if (word_right != NULL) {
-      word_right->set_show_sf(TheFlags.getShowSuperficial());
-    }
   }
-  delete word_left;
-  delete word_mid;
 }
-- 
2.43.0


From d48ee8dd5acf1f48d5b72776eb082348ae455c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:16 +0000
Subject: [PATCH 029/106] fix: unigram tagger writes the NUL of a flush

---
 apertium/unigram_tagger.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apertium/unigram_tagger.cc b/apertium/unigram_tagger.cc
index 8fb543b..7b9bb2c 100644
--- a/apertium/unigram_tagger.cc
+++ b/apertium/unigram_tagger.cc
@@ -250,7 +250,7 @@ UnigramTagger::tag(Stream &Input, std::ostream &Output)
       if (!Input.flush_())
         break;
 
-      Output << std::flush;
+      Output << '\0' << std::flush;
       continue;
     }
     if(TheFlags.getDebug())
@@ -261,7 +261,7 @@ UnigramTagger::tag(Stream &Input, std::ostream &Output)
     tag(*StreamedType_.TheLexicalUnit, Output);
 
     if (Input.flush_())
-      Output << std::flush;
+      Output << '\0' << std::flush;
   }
 }
 
-- 
2.43.0


From 20c4dae22d57e6d31cd80e6c8ee4dd0e00f046b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:16 +0000
Subject: [PATCH 030/106] fix: perceptron tagger: a NUL right after a word ends
 the sentence and is written

---
 apertium/sentence_stream.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/apertium/sentence_stream.cc b/apertium/sentence_stream.cc
index 79b2798..9dcc2de 100644
--- a/apertium/sentence_stream.cc
+++ b/apertium/sentence_stream.cc
@@ -43,7 +43,11 @@ void SentenceTagger::tag(Stream &in, std::ostream &out, bool sent_seg) {
 
     if (token.TheLexicalUnit) {
       lexical_sent.push_back(token);
-      if (isSentenceEnd(token, in, sent_seg)) {
+      if (in.flush_()) {
+        tagAndPutSentence(out);
+        out << '\0';
+        out.flush();
+      } else if (isSentenceEnd(token, in, sent_seg)) {
         tagAndPutSentence(out);
       }
     } else {
-- 
2.43.0


From 1feb45fa9b0393ea1bed2ace1369bcadd0e041bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:33 +0000
Subject: [PATCH 031/106] fix: saved unigram models keep characters beyond
 ASCII

---
 apertium/deserialiser.h | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/apertium/deserialiser.h b/apertium/deserialiser.h
index e0a4136..61918d1 100644
--- a/apertium/deserialiser.h
+++ b/apertium/deserialiser.h
@@ -36,6 +36,12 @@
 
 using namespace Apertium;
 
+// the Deserialiser<UChar> of lttoolbox only yields a char
+template <> class Deserialiser<UString> {
+public:
+  inline static UString deserialise(std::istream &Stream_);
+};
+
 template <> class Deserialiser<a> {
 public:
   inline static a deserialise(std::istream &Stream_);
@@ -61,6 +67,14 @@ public:
   inline static Morpheme deserialise(std::istream &Stream_);
 };
 
+UString Deserialiser<UString>::deserialise(std::istream &Stream_) {
+  UString SerialisedType_;
+  for (uint64_t n = Deserialiser<uint64_t>::deserialise(Stream_); n != 0; --n) {
+    SerialisedType_.push_back(int_deserialise<uint16_t>(Stream_));
+  }
+  return SerialisedType_;
+}
+
 a Deserialiser<a>::deserialise(std::istream &Stream_) {
   a StreamedType_;
   StreamedType_.TheTags = Deserialiser<std::vector<UString> >::deserialise(Stream_);
-- 
2.43.0


From c4dafda07c486a774dbcdca0a4eb8826197e8b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:32 +0000
Subject: [PATCH 032/106] fix: sliding-window tagger: training on an empty
 corpus writes no uninitialised weights

---
 apertium/tagger_data_lsw.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apertium/tagger_data_lsw.cc b/apertium/tagger_data_lsw.cc
index d8a521f..5c78601 100644
--- a/apertium/tagger_data_lsw.cc
+++ b/apertium/tagger_data_lsw.cc
@@ -86,7 +86,7 @@ TaggerDataLSW::setProbabilities(int const myN, double ***myD) {
      for (int i = 0; i < N; ++i) {
        d[i] = new double * [N];
        for (int j = 0; j < N; ++j) {
-           d[i][j] = new double [N];
+           d[i][j] = new double [N]();
            if (myD != NULL) {
               for (int k = 0; k < N; ++k) {
                 d[i][j][k] = myD[i][j][k];
-- 
2.43.0


From 316927f403e0c8cb29dba963bfb7e29ca8b57fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:24 +0000
Subject: [PATCH 033/106] fix: sliding-window tagger: enforce rules hold for
 both pairs of a window

---
 apertium/lswpost.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apertium/lswpost.cc b/apertium/lswpost.cc
index d7ead97..b7b8b1e 100644
--- a/apertium/lswpost.cc
+++ b/apertium/lswpost.cc
@@ -211,7 +211,8 @@ bool LSWPoST::is_valid_seq(TTag left, TTag mid, TTag right) {
       if (!found) {
         return false;
       }
-    } else if (mid == enforce_rules[r].tagi) {
+    }
+    if (mid == enforce_rules[r].tagi) {
       bool found = false;
       for (size_t j = 0; j < enforce_rules[r].tagsj.size(); ++j) {
         if (enforce_rules[r].tagsj[j] == right) {
-- 
2.43.0


From 014d7ed3b3e5149c251c1fe1c7a749d2343b5c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:45 +0000
Subject: [PATCH 034/106] fix: perceptron training does not use erased weights
 while averaging

---
 apertium/feature_vec_averager.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/apertium/feature_vec_averager.cc b/apertium/feature_vec_averager.cc
index a45025d..8a9c7a4 100644
--- a/apertium/feature_vec_averager.cc
+++ b/apertium/feature_vec_averager.cc
@@ -40,13 +40,14 @@ void
 FeatureVecAverager::average() {
   FeatureVec::Map::iterator weights_it;
   for (weights_it = weights.data.begin();
-       weights_it != weights.data.end(); weights_it++) {
+       weights_it != weights.data.end();) {
     const FeatureKey &fk = weights_it->first;
     updateTotal(fk);
     if (totals[fk] == 0) {
-      weights.data.erase(weights_it);
+      weights_it = weights.data.erase(weights_it);
     } else {
       weights_it->second = totals[fk] / iterations;
+      ++weights_it;
     }
   }
 }
-- 
2.43.0


From 27930f9935fa92aa81b59d0cd525e85a2eed024e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:45 +0000
Subject: [PATCH 035/106] fix: beam-width can be given in a metatag file

---
 apertium/mtx_reader.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apertium/mtx_reader.cc b/apertium/mtx_reader.cc
index ea7e597..97ec055 100644
--- a/apertium/mtx_reader.cc
+++ b/apertium/mtx_reader.cc
@@ -1163,6 +1163,7 @@ MTXReader::parse()
     std::istringstream val_ss(attrib_str("val"_u));
     val_ss >> val;
     spec.beam_width = val;
+    stepPastSelfClosingTag("beam-width"_u);
   } else {
     spec.beam_width = 4;
   }
-- 
2.43.0


From 910ce8a604c4c87e111191acd29c8d4947a31fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:45 +0000
Subject: [PATCH 036/106] fix: sets can be defined in a metatag file

---
 apertium/mtx_reader.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/apertium/mtx_reader.cc b/apertium/mtx_reader.cc
index 97ec055..7abcbf6 100644
--- a/apertium/mtx_reader.cc
+++ b/apertium/mtx_reader.cc
@@ -101,13 +101,13 @@ void MTXReader::procCoarseTags()
 
 void MTXReader::procSetDef()
 {
-  std::string name = attrib_str("name"_u);
+  std::string set_name = attrib_str("name"_u);
   stepToNextTag();
   size_t set_idx = spec.set_consts.size();
   spec.set_consts.push_back(VMSet());
   VMSet &vm_set = spec.set_consts.back();
   while (type != XML_READER_TYPE_END_ELEMENT) {
-    if (name == "set-member") {
+    if (name == "set-member"_u) {
       std::string tag = attrib_str("tag"_u);
       std::string str = attrib_str("str"_u);
       vm_set.insert(tag.empty() ? str : tag);
@@ -116,8 +116,8 @@ void MTXReader::procSetDef()
     }
     stepToNextTag();
   }
-  set_names[name] = set_idx;
-  assert(name == "def-set");
+  set_names[set_name] = set_idx;
+  assert(name == "def-set"_u);
   stepToNextTag();
 }
 
-- 
2.43.0


From deec52d811c0d9a18a0a0eb7840219d53142cd0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:45 +0000
Subject: [PATCH 037/106] fix: perceptron and/or take both operands off the
 stack

---
 apertium/perceptron_spec.cc | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/apertium/perceptron_spec.cc b/apertium/perceptron_spec.cc
index 5fdd303..5bf650b 100644
--- a/apertium/perceptron_spec.cc
+++ b/apertium/perceptron_spec.cc
@@ -306,12 +306,16 @@ PerceptronSpec::Machine::execCommonOp(Opcode op)
 {
   //traceMachineState();
   switch (op) {
-    case OR:
-      stack.push(stack.pop_off().boolVal() || stack.pop_off().boolVal());
-      break;
-    case AND:
-      stack.push(stack.pop_off().boolVal() && stack.pop_off().boolVal());
-      break;
+    case OR: {
+      bool b = stack.pop_off().boolVal();
+      bool a = stack.pop_off().boolVal();
+      stack.push(a || b);
+    } break;
+    case AND: {
+      bool b = stack.pop_off().boolVal();
+      bool a = stack.pop_off().boolVal();
+      stack.push(a && b);
+    } break;
     case NOT:
       stack.push(!stack.pop_off().boolVal());
       break;
-- 
2.43.0


From de79adb0a66d23faa5115a3096c63eed7544f141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:45 +0000
Subject: [PATCH 038/106] fix: toklen, strlen and arrlen can be used in a
 metatag file

---
 apertium/mtx_reader.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/apertium/mtx_reader.cc b/apertium/mtx_reader.cc
index 7abcbf6..1e40506 100644
--- a/apertium/mtx_reader.cc
+++ b/apertium/mtx_reader.cc
@@ -227,19 +227,22 @@ MTXReader::procIntExpr(bool allow_fail)
       emitOpcode(VM::ADD);
       stepToNextTag();
     } else if (name == "toklen"_u) {
+      stepToNextTag();
       procIntExpr();
       assert(name == "toklen"_u && type == XML_READER_TYPE_END_ELEMENT);
       emitOpcode(VM::TOKLENWRD);
       stepToNextTag();
     } else if (name == "strlen"_u) {
+      stepToNextTag();
       procStrExpr();
       assert(name == "strlen"_u && type == XML_READER_TYPE_END_ELEMENT);
       emitOpcode(VM::STRLEN);
       stepToNextTag();
     } else if (name == "arrlen"_u) {
+      stepToNextTag();
       procStrArrExpr();
       assert(name == "arrlen"_u && type == XML_READER_TYPE_END_ELEMENT);
-      procBinCompareOp(VM::ARRLEN);
+      emitOpcode(VM::ARRLEN);
       stepToNextTag();
     } else {
       if (allow_fail) {
-- 
2.43.0


From 041c0b00ac4a1c979396174caf2a99ed17f80bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:45 +0000
Subject: [PATCH 039/106] fix: metatag loop variables belong to their own
 feature

---
 apertium/mtx_reader.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/apertium/mtx_reader.cc b/apertium/mtx_reader.cc
index 1e40506..8f4c77b 100644
--- a/apertium/mtx_reader.cc
+++ b/apertium/mtx_reader.cc
@@ -1048,6 +1048,8 @@ MTXReader::procDefMacro()
 {
   in_global_defn = true;
   slot_counter = 0;
+  slot_names.clear();
+  slot_types.clear();
   template_defns.push_back(make_pair(VM::FeatureDefn(), TemplateReplacements()));
   cur_feat = &template_defns.back().first;
   cur_replacements = &template_defns.back().second;
@@ -1111,6 +1113,8 @@ void
 MTXReader::procFeat()
 {
   slot_counter = 0;
+  slot_names.clear();
+  slot_types.clear();
   spec.features.push_back(VM::FeatureDefn());
   cur_feat = &spec.features.back();
   stepToNextTag();
-- 
2.43.0


From 2c33cd8741cb64c47131109fd3266df0beafc5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:05 +0000
Subject: [PATCH 040/106] fix: perceptron coarse tags do not ignore fine tags
 the tagset does not name

---
 apertium/tagger_data_percep_coarse_tags.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/apertium/tagger_data_percep_coarse_tags.cc b/apertium/tagger_data_percep_coarse_tags.cc
index 95da0a6..e6a6707 100644
--- a/apertium/tagger_data_percep_coarse_tags.cc
+++ b/apertium/tagger_data_percep_coarse_tags.cc
@@ -68,6 +68,8 @@ const UString& TaggerDataPercepCoarseTags::coarsen(const Apertium::Morpheme &wrd
     int symbol = alphabet(tag);
     if (symbol) {
       ms.step(symbol, ca_any_tag);
+    } else {
+      ms.step(ca_any_tag);
     }
   }
   // Output result
-- 
2.43.0


From ed88296bc520c1e640ddecd81c83c43f2fdf8f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:05 +0000
Subject: [PATCH 041/106] fix: skipping a sentence at its first word leaves the
 other training sentences alone

---
 apertium/sentence_stream.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/apertium/sentence_stream.cc b/apertium/sentence_stream.cc
index 9dcc2de..8036df4 100644
--- a/apertium/sentence_stream.cc
+++ b/apertium/sentence_stream.cc
@@ -94,7 +94,7 @@ TrainingCorpus::TrainingCorpus(Stream &tagged, Stream &untagged,
   std::random_device rd;
   rnd.seed(rd());
 
-  TrainingSentence *training_sentence;
+  TrainingSentence *training_sentence = NULL;
   bool was_sentence_end = true;
   unsigned int tagged_line = 0;
   unsigned int untagged_line = 0;
@@ -126,8 +126,10 @@ TrainingCorpus::TrainingCorpus(Stream &tagged, Stream &untagged,
       }
 
       skipped++;
-      training_sentence->first.clear();
-      training_sentence->second.clear();
+      if (!was_sentence_end) {
+        training_sentence->first.clear();
+        training_sentence->second.clear();
+      }
 
       std::cerr << "fast forward\n";
       bool tagged_ended = contToEndOfSent(tagged, tagged_token, tagged_line);
-- 
2.43.0


From 7ef895b793daa702734a2ddd9cd5171865b4d5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:05 +0000
Subject: [PATCH 042/106] fix: perceptron training with no iterations reads no
 uninitialised count

---
 apertium/perceptron_tagger.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apertium/perceptron_tagger.cc b/apertium/perceptron_tagger.cc
index 01f800a..8b57ec5 100644
--- a/apertium/perceptron_tagger.cc
+++ b/apertium/perceptron_tagger.cc
@@ -246,7 +246,7 @@ void PerceptronTagger::train(
     int iterations) {
   FeatureVecAverager avg_weights(weights);
   TrainingCorpus tc(tagged, untagged, TheFlags.getSkipErrors(), TheFlags.getSentSeg());
-  size_t avail_skipped;
+  size_t avail_skipped = 0;
   for (int i = 0; i < iterations; i++) {
     std::cerr << "Iteration " << i + 1 << " of " << iterations << "\n";
     avail_skipped = 0;
-- 
2.43.0


From a46cbe7a34f844ce711b638f646a56f3d423b36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:06 +0000
Subject: [PATCH 043/106] fix: metatag macros put each argument where its
 variable stands

---
 apertium/mtx_reader.cc | 37 +++++++++++++++++++------------------
 apertium/mtx_reader.h  |  3 ++-
 2 files changed, 21 insertions(+), 19 deletions(-)

diff --git a/apertium/mtx_reader.cc b/apertium/mtx_reader.cc
index 8f4c77b..afcc57b 100644
--- a/apertium/mtx_reader.cc
+++ b/apertium/mtx_reader.cc
@@ -331,7 +331,7 @@ bool MTXReader::tryProcArg(ExprType expr_type, bool allow_fail)
     if (in_global_defn) {
       VarNVMap::const_iterator arg_name_it = template_arg_names.find(var_name);
       if (arg_name_it != template_arg_names.end()) {
-        cur_replacements->push_back(make_pair(arg_name_it->second, expr_type));
+        cur_replacements->push_back(make_pair(cur_feat->size(), make_pair(arg_name_it->second, expr_type)));
         stepPastSelfClosingTag("var"_u);
         return true;
       }
@@ -376,11 +376,19 @@ bool MTXReader::tryProcVar(VM::StackValueType svt)
     stepToNextTag();
     std::vector<VM::FeatureDefn> arg_values;
     VM::FeatureDefn *saved_feat = cur_feat;
+    std::map<size_t, ExprType> arg_types;
     TemplateReplacements::const_iterator templ_repl_it = templ_defn.second.begin();
     for (; templ_repl_it != templ_defn.second.end(); templ_repl_it++) {
-      arg_values.push_back(VM::FeatureDefn());
-      cur_feat = &arg_values.back();
-      procTypeExpr(templ_repl_it->second);
+      arg_types.insert(templ_repl_it->second);
+    }
+    std::map<size_t, size_t> arg_value_idxs;
+    for (std::map<size_t, ExprType>::const_iterator arg_it = arg_types.begin();
+         arg_it != arg_types.end(); arg_it++) {
+      arg_value_idxs[arg_it->first] = arg_values.size();
+      VM::FeatureDefn arg_value;
+      cur_feat = &arg_value;
+      procTypeExpr(arg_it->second);
+      arg_values.push_back(arg_value);
     }
     cur_feat = saved_feat;
     // Check for previous instanciation...
@@ -388,25 +396,18 @@ bool MTXReader::tryProcVar(VM::StackValueType svt)
         template_instanciations.find(make_pair(templ_idx, arg_values));
     if (templ_instcia_it == template_instanciations.end()) {
       // and instanciate if doesn't exist...
-      // by ordering argument defns correctly
-      vector<unsigned int> indices(templ_defn.second.size(), 0);
-      for (size_t i = 0; i < templ_defn.second.size(); i++) {
-        indices[i] = i;
-      }
-      SortByComparer<std::pair<size_t, ExprType>, int> sbc(templ_defn.second);
-      std::sort(indices.begin(), indices.end(), sbc);
-      // And then copying the template defn bits and the argument defn bits into the global defn
+      // by copying the template defn bits and the argument defn bits into the global defn
       VM::FeatureDefn::const_iterator src_start_it = templ_defn.first.begin();
       VM::FeatureDefn::const_iterator src_end_it = templ_defn.first.end();
       VM::FeatureDefn::const_iterator src_cur_it = src_start_it;
       spec.global_defns.push_back(VM::FeatureDefn());
       VM::FeatureDefn &global_defn = spec.global_defns.back();
       std::back_insert_iterator<VM::FeatureDefn> dest_it(global_defn);
-      for (size_t i = 0; i < indices.size(); i++) {
-        size_t repl_i = indices[i];
-        size_t offset = templ_defn.second[repl_i].first;
-        VM::FeatureDefn &arg_src = arg_values[repl_i];
-        std::copy(src_cur_it, src_cur_it + offset, dest_it);
+      for (templ_repl_it = templ_defn.second.begin();
+           templ_repl_it != templ_defn.second.end(); templ_repl_it++) {
+        size_t offset = templ_repl_it->first;
+        VM::FeatureDefn &arg_src = arg_values[arg_value_idxs[templ_repl_it->second.first]];
+        std::copy(src_cur_it, src_start_it + offset, dest_it);
         src_cur_it = src_start_it + offset;
         std::copy(arg_src.begin(), arg_src.end(), dest_it);
       }
@@ -866,7 +867,7 @@ MTXReader::printTmplDefn(const TemplateDefn &tmpl_defn)
     TemplateReplacements::const_iterator it = tmpl_defn.second.begin();
     for (; it != tmpl_defn.second.end(); it++) {
       std::cerr << "Index: "_u << it->first << " "_u;
-      printTypeExpr(it->second);
+      printTypeExpr(it->second.second);
       std::cerr << "\n"_u;
     }
   }
diff --git a/apertium/mtx_reader.h b/apertium/mtx_reader.h
index c500a26..55390dc 100644
--- a/apertium/mtx_reader.h
+++ b/apertium/mtx_reader.h
@@ -44,7 +44,8 @@ class MTXReader : public XMLReader
 
   typedef PerceptronSpec VM;
   typedef std::map<std::string, size_t> VarNVMap;
-  typedef std::vector<std::pair<size_t, ExprType> > TemplateReplacements;
+  // Where the code of an argument goes: (offset in the template, (argument index, type))
+  typedef std::vector<std::pair<size_t, std::pair<size_t, ExprType> > > TemplateReplacements;
   typedef std::map<std::pair<size_t, std::vector<VM::FeatureDefn> >, size_t> InstanciationMap;
   typedef std::pair<VM::FeatureDefn, TemplateReplacements> TemplateDefn;
 public:
-- 
2.43.0


From c6a21aac1aca357b4943d5e5269611e6eba5b3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:19 +0000
Subject: [PATCH 044/106] fix: tagger flags for skipping errors and sentence
 segmentation start out off

---
 apertium/tagger_flags.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apertium/tagger_flags.cc b/apertium/tagger_flags.cc
index 3ef4fa5..fd48515 100644
--- a/apertium/tagger_flags.cc
+++ b/apertium/tagger_flags.cc
@@ -18,7 +18,7 @@
 namespace Apertium {
 TaggerFlags::TaggerFlags()
     : Debug(false), First(false), Mark(false), ShowSuperficial(false),
-      NullFlush(false) {}
+      NullFlush(false), SkipErrors(false), SentSeg(false) {}
 
 bool TaggerFlags::getDebug() { return Debug; }
 
-- 
2.43.0


From 5d65b241c56f800e12eee60342ab3e398adadd7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:27 +0000
Subject: [PATCH 045/106] fix: sentence segmentation does not lose the text at
 the end of the file

---
 apertium/stream.cc | 19 +++++++++----------
 apertium/stream.h  |  1 +
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/apertium/stream.cc b/apertium/stream.cc
index 07e3652..3ac79f1 100644
--- a/apertium/stream.cc
+++ b/apertium/stream.cc
@@ -33,7 +33,9 @@ StreamedType Stream::get() {
   StreamedType TheStreamedType;
   private_flush_ = false;
 
-  TheStreamedType.TheString = TheCharacterStream.readBlank(true);
+  TheStreamedType.TheString = peeked_blank;
+  TheStreamedType.TheString += TheCharacterStream.readBlank(true);
+  peeked_blank.clear();
 
   if (!TheCharacterStream.eof() && TheCharacterStream.peek() == '^') {
     TheCharacterStream.get();
@@ -79,15 +81,12 @@ StreamedType Stream::get() {
 }
 
 bool Stream::peekIsBlank() {
-  const UChar32 newline1 = TheCharacterStream.get();
-  const UChar32 newline2 = TheCharacterStream.get();
-
-  // somewhat dangerous to unget twice
-  // but InputFile does have a 3 char buffer
-  TheCharacterStream.unget(newline2);
-  TheCharacterStream.unget(newline1);
-
-  return newline1 == '\n' && newline2 == '\n';
+  // Characters put back after the end of the file has been seen are lost, so
+  // a first newline is kept here for the next get() instead.
+  if (peeked_blank.empty() && TheCharacterStream.peek() == '\n') {
+    peeked_blank += TheCharacterStream.get();
+  }
+  return !peeked_blank.empty() && TheCharacterStream.peek() == '\n';
 }
 
 bool Stream::flush_() const { return private_flush_; }
diff --git a/apertium/stream.h b/apertium/stream.h
index 07c2a65..99426ed 100644
--- a/apertium/stream.h
+++ b/apertium/stream.h
@@ -40,6 +40,7 @@ public:
     std::ostream &output, TaggerFlags &flags);
 private:
   bool private_flush_ = false;
+  UString peeked_blank;
   InputFile TheCharacterStream;
   TaggerFlags &TheFlags;
 };
-- 
2.43.0


From b728fd020ff8e690f1e7c061eeb4521992f031eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:57 +0000
Subject: [PATCH 046/106] fix: a metatag macro without arguments can be called
 with an empty element

---
 apertium/mtx_reader.cc | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/apertium/mtx_reader.cc b/apertium/mtx_reader.cc
index afcc57b..221e572 100644
--- a/apertium/mtx_reader.cc
+++ b/apertium/mtx_reader.cc
@@ -373,7 +373,10 @@ bool MTXReader::tryProcVar(VM::StackValueType svt)
     }
     std::pair<VM::FeatureDefn, TemplateReplacements> &templ_defn = template_defns[templ_idx];
     // Get arg values
-    stepToNextTag();
+    bool has_args = !templ_defn.second.empty();
+    if (has_args) {
+      stepToNextTag();
+    }
     std::vector<VM::FeatureDefn> arg_values;
     VM::FeatureDefn *saved_feat = cur_feat;
     std::map<size_t, ExprType> arg_types;
@@ -421,8 +424,12 @@ bool MTXReader::tryProcVar(VM::StackValueType svt)
     emitOpcode(VM::GETGVAR);
     emitUInt(templ_instcia_it->second);
     // Step past end
-    assert(name == "macro"_u && type == XML_READER_TYPE_END_ELEMENT);
-    stepToNextTag();
+    if (has_args) {
+      assert(name == "macro"_u && type == XML_READER_TYPE_END_ELEMENT);
+      stepToNextTag();
+    } else {
+      stepPastSelfClosingTag("macro"_u);
+    }
     return true;
   }
   return false;
-- 
2.43.0


From db1f8395f54f11d5b6f2fbb54c0a493c653626ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:58 +0000
Subject: [PATCH 047/106] fix: unset perceptron loop variables are initialised

---
 apertium/perceptron_spec.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apertium/perceptron_spec.h b/apertium/perceptron_spec.h
index 89347ee..83a6a9b 100644
--- a/apertium/perceptron_spec.h
+++ b/apertium/perceptron_spec.h
@@ -219,7 +219,7 @@ public:
       swap(a.type, b.type);
     }
     // Smart pointer + tagged union safe to store in STL types
-    StackValue() {}
+    StackValue() : payload(), type(INTVAL) {}
     StackValue(const StackValue &other) {
       // C++11: Probably reference counting with shared_ptr would be better
       // than all this copying if it were available
-- 
2.43.0


From 3627bfbb2d2793401339687b134bf1c929cb657c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:45 +0000
Subject: [PATCH 048/106] fix: metatag macros can be used in the global
 predicate

---
 apertium/perceptron_spec.cc | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/apertium/perceptron_spec.cc b/apertium/perceptron_spec.cc
index 5bf650b..4b70076 100644
--- a/apertium/perceptron_spec.cc
+++ b/apertium/perceptron_spec.cc
@@ -116,6 +116,13 @@ PerceptronSpec::get_features(
 {
   size_t i;
   global_results.clear();
+  // The global predicate may use these too
+  for (i = 0; i < global_defns.size(); i++) {
+    Machine machine(
+      *this, global_defns[i], i, false,
+      tagged, untagged, token_idx, wordoid_idx);
+    global_results.push_back(machine.getValue());
+  }
   if (global_pred.size() > 0)
   {
     Machine machine(
@@ -133,12 +140,6 @@ PerceptronSpec::get_features(
       return;
     }
   }
-  for (i = 0; i < global_defns.size(); i++) {
-    Machine machine(
-      *this, global_defns[i], i, false,
-      tagged, untagged, token_idx, wordoid_idx);
-    global_results.push_back(machine.getValue());
-  }
   std::vector<FeatureDefn>::const_iterator feat_it;
   UnaryFeatureVec feat_vec_delta;
   for (i = 0; i < features.size(); i++) {
-- 
2.43.0


From 61ffb81a6f052ce8e66d68c3a0c755cd98cebc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:09 +0000
Subject: [PATCH 049/106] fix: metatag macro calls without arguments can be
 arguments themselves

---
 apertium/mtx_reader.cc | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/apertium/mtx_reader.cc b/apertium/mtx_reader.cc
index 221e572..dcfae9b 100644
--- a/apertium/mtx_reader.cc
+++ b/apertium/mtx_reader.cc
@@ -373,10 +373,8 @@ bool MTXReader::tryProcVar(VM::StackValueType svt)
     }
     std::pair<VM::FeatureDefn, TemplateReplacements> &templ_defn = template_defns[templ_idx];
     // Get arg values
-    bool has_args = !templ_defn.second.empty();
-    if (has_args) {
-      stepToNextTag();
-    }
+    bool has_end = !xmlTextReaderIsEmptyElement(reader);
+    stepToNextTag();
     std::vector<VM::FeatureDefn> arg_values;
     VM::FeatureDefn *saved_feat = cur_feat;
     std::map<size_t, ExprType> arg_types;
@@ -424,11 +422,9 @@ bool MTXReader::tryProcVar(VM::StackValueType svt)
     emitOpcode(VM::GETGVAR);
     emitUInt(templ_instcia_it->second);
     // Step past end
-    if (has_args) {
+    if (has_end) {
       assert(name == "macro"_u && type == XML_READER_TYPE_END_ELEMENT);
       stepToNextTag();
-    } else {
-      stepPastSelfClosingTag("macro"_u);
     }
     return true;
   }
-- 
2.43.0


From b52bd0b31e518733121b72bb6a321649bb3ef39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:09 +0000
Subject: [PATCH 050/106] fix: the global predicate of a metatag file can have
 loop variables

---
 apertium/mtx_reader.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/apertium/mtx_reader.cc b/apertium/mtx_reader.cc
index dcfae9b..59ecde6 100644
--- a/apertium/mtx_reader.cc
+++ b/apertium/mtx_reader.cc
@@ -154,6 +154,9 @@ MTXReader::procDefns()
 void
 MTXReader::procGlobalPred()
 {
+  slot_counter = 0;
+  slot_names.clear();
+  slot_types.clear();
   cur_feat = &spec.global_pred;
   stepToNextTag();
   procBoolExpr();
-- 
2.43.0


From 7d726965e63f457750f774e00513b02d3d233946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:11 +0000
Subject: [PATCH 051/106] Revert "fix: metatag macros can be used in the global
 predicate"

This reverts commit 3627bfbb2d2793401339687b134bf1c929cb657c.
---
 apertium/perceptron_spec.cc | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/apertium/perceptron_spec.cc b/apertium/perceptron_spec.cc
index 4b70076..5bf650b 100644
--- a/apertium/perceptron_spec.cc
+++ b/apertium/perceptron_spec.cc
@@ -116,13 +116,6 @@ PerceptronSpec::get_features(
 {
   size_t i;
   global_results.clear();
-  // The global predicate may use these too
-  for (i = 0; i < global_defns.size(); i++) {
-    Machine machine(
-      *this, global_defns[i], i, false,
-      tagged, untagged, token_idx, wordoid_idx);
-    global_results.push_back(machine.getValue());
-  }
   if (global_pred.size() > 0)
   {
     Machine machine(
@@ -140,6 +133,12 @@ PerceptronSpec::get_features(
       return;
     }
   }
+  for (i = 0; i < global_defns.size(); i++) {
+    Machine machine(
+      *this, global_defns[i], i, false,
+      tagged, untagged, token_idx, wordoid_idx);
+    global_results.push_back(machine.getValue());
+  }
   std::vector<FeatureDefn>::const_iterator feat_it;
   UnaryFeatureVec feat_vec_delta;
   for (i = 0; i < features.size(); i++) {
-- 
2.43.0


From a9f76bff44f39ef1809e3c3ccecfa6ea4be3423f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:11 +0000
Subject: [PATCH 052/106] Revert "fix: unset perceptron loop variables are
 initialised"

This reverts commit db1f8395f54f11d5b6f2fbb54c0a493c653626ba.
---
 apertium/perceptron_spec.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apertium/perceptron_spec.h b/apertium/perceptron_spec.h
index 83a6a9b..89347ee 100644
--- a/apertium/perceptron_spec.h
+++ b/apertium/perceptron_spec.h
@@ -219,7 +219,7 @@ public:
       swap(a.type, b.type);
     }
     // Smart pointer + tagged union safe to store in STL types
-    StackValue() : payload(), type(INTVAL) {}
+    StackValue() {}
     StackValue(const StackValue &other) {
       // C++11: Probably reference counting with shared_ptr would be better
       // than all this copying if it were available
-- 
2.43.0


From 547dfe12ded7b61da3817db620920e2a557e444e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:11 +0000
Subject: [PATCH 053/106] Revert "fix: perceptron and/or take both operands off
 the stack"

This reverts commit deec52d811c0d9a18a0a0eb7840219d53142cd0a.
---
 apertium/perceptron_spec.cc | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/apertium/perceptron_spec.cc b/apertium/perceptron_spec.cc
index 5bf650b..5fdd303 100644
--- a/apertium/perceptron_spec.cc
+++ b/apertium/perceptron_spec.cc
@@ -306,16 +306,12 @@ PerceptronSpec::Machine::execCommonOp(Opcode op)
 {
   //traceMachineState();
   switch (op) {
-    case OR: {
-      bool b = stack.pop_off().boolVal();
-      bool a = stack.pop_off().boolVal();
-      stack.push(a || b);
-    } break;
-    case AND: {
-      bool b = stack.pop_off().boolVal();
-      bool a = stack.pop_off().boolVal();
-      stack.push(a && b);
-    } break;
+    case OR:
+      stack.push(stack.pop_off().boolVal() || stack.pop_off().boolVal());
+      break;
+    case AND:
+      stack.push(stack.pop_off().boolVal() && stack.pop_off().boolVal());
+      break;
     case NOT:
       stack.push(!stack.pop_off().boolVal());
       break;
-- 
2.43.0


From 28d15e3fb2f9dd1b1ead1ae4860175c150902fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:37 +0000
Subject: [PATCH 054/106] fix: stream taggers keep a lemma queue after the tags

---
 apertium/morpheme.cc | 10 ++++++++--
 apertium/morpheme.h  |  2 ++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/apertium/morpheme.cc b/apertium/morpheme.cc
index 7a78c36..48156e4 100644
--- a/apertium/morpheme.cc
+++ b/apertium/morpheme.cc
@@ -30,12 +30,14 @@ bool operator<(const Morpheme &a, const Morpheme &b) {
 }
 
 std::ostream& operator<<(std::ostream& out, const Morpheme &morph) {
-  ::operator<<(out, morph.TheLemma);
+  size_t queue = morph.TheLemma.size() - morph.TheQueueSize;
+  ::operator<<(out, morph.TheLemma.substr(0, queue));
   for (auto& it : morph.TheTags) {
     out << '<';
     ::operator<<(out, it);
     out << '>';
   }
+  ::operator<<(out, morph.TheLemma.substr(queue));
   // namespace issue
   return out;
 }
@@ -51,13 +53,15 @@ Morpheme::operator UString() const {
                                               "comprising empty TheLemma "
                                               "UString to UString");
 
-  UString ustring_ = TheLemma;
+  size_t queue = TheLemma.size() - TheQueueSize;
+  UString ustring_ = TheLemma.substr(0, queue);
 
   for (auto& Tag_ : TheTags) {
     ustring_ += '<';
     ustring_ += Tag_;
     ustring_ += '>';
   }
+  ustring_ += TheLemma.substr(queue);
 
   return ustring_;
 }
@@ -91,6 +95,7 @@ Morpheme::read(InputFile& in)
     throw Exception::Morpheme::TheTags_empty("morpheme has no tags");
   }
   if (c == '#') {
+    size_t queue = TheLemma.size();
     while (c != '<' && c != '$' && c != '/' && c != '\0' && c != '+') {
       TheLemma += c;
       if (c == '\\') {
@@ -104,6 +109,7 @@ Morpheme::read(InputFile& in)
     if (c == '<') {
       throw Exception::Stream::UnexpectedCharacter("unexpected < after lemma queue");
     }
+    TheQueueSize = TheLemma.size() - queue;
   }
   in.unget(c);
 }
diff --git a/apertium/morpheme.h b/apertium/morpheme.h
index 22bdc13..e1e5f0b 100644
--- a/apertium/morpheme.h
+++ b/apertium/morpheme.h
@@ -31,6 +31,8 @@ public:
   void read(InputFile& in);
   UString TheLemma;
   std::vector<UString> TheTags;
+  // how much of the end of TheLemma is a lemma queue read after the tags
+  size_t TheQueueSize = 0;
 };
 }
 
-- 
2.43.0


From 692c009fe35c064f3e0064c9683671f05a1604b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:37 +0000
Subject: [PATCH 055/106] fix: tagger -f writes the surface form of a split
 word once

---
 apertium/tagger_word.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/apertium/tagger_word.cc b/apertium/tagger_word.cc
index cb86bdc..39f1963 100644
--- a/apertium/tagger_word.cc
+++ b/apertium/tagger_word.cc
@@ -222,15 +222,15 @@ TaggerWord::get_all_chosen_tag_first(TTag &t, int const TAG_kEOF) {
     } else {
       ret += '^';
     }
-  }
 
-  ret.append(superficial_form);
+    ret.append(superficial_form);
+    ret += '/';
+  }
 
   if (lexical_forms.size()==0) { // This is an UNKNOWN WORD
-    ret += "/*"_u;
+    ret += '*';
     ret.append(superficial_form);
   } else {
-    ret+="/"_u;
     ret.append(lexical_forms[t]);
     if (lexical_forms.size()>1) {
       for (auto& it : tags) {
-- 
2.43.0


From 9a73930985cda9bca6fe4ec755231ce1b30106c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:37 +0000
Subject: [PATCH 056/106] fix: a reading split into morphemes whose end is
 undefined is written whole

---
 apertium/file_morpho_stream.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apertium/file_morpho_stream.cc b/apertium/file_morpho_stream.cc
index 565c0ae..6293a76 100644
--- a/apertium/file_morpho_stream.cc
+++ b/apertium/file_morpho_stream.cc
@@ -249,7 +249,7 @@ FileMorphoStream::lrlmClassify(UString const &str, int &ivwords)
           if(str[last_pos+1] == '+' && last_pos+1 < limit )
           {
             floor = last_pos + 1;
-	    last_pos = floor;
+	    last_pos = floor + 1;
             vwords[ivwords]->set_plus_cut(true);
             if (((int)vwords.size())<=((int)(ivwords+1)))
               vwords.push_back(new TaggerWord(true));
-- 
2.43.0


From 5e39a802138e52c2555bf996cf2c63f7ec61a9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:37 +0000
Subject: [PATCH 057/106] fix: multiple-translations puts a default second
 translation first

---
 apertium/transfer_mult.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apertium/transfer_mult.cc b/apertium/transfer_mult.cc
index b28c4f0..66a65e2 100644
--- a/apertium/transfer_mult.cc
+++ b/apertium/transfer_mult.cc
@@ -330,7 +330,7 @@ TransferMult::acceptions(UString str)
      {
        UString new_word = str.substr(low, i-low);
 
-       if(result.size() > 1 && isDefaultWord(new_word))
+       if(result.size() > 0 && isDefaultWord(new_word))
        {
 	 result.push_back(result[0]);
 	 result[0] = new_word;
-- 
2.43.0


From 85959f3e577ea6cd378e88f9fb2a7a310607cfd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:37 +0000
Subject: [PATCH 058/106] fix: apertium reads zipped formats from a pipe

---
 apertium/apertium-header.sh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/apertium/apertium-header.sh b/apertium/apertium-header.sh
index 78c31f3..bd3a90d 100644
--- a/apertium/apertium-header.sh
+++ b/apertium/apertium-header.sh
@@ -230,7 +230,7 @@ translate_odt () {
 
   test_zip
 
-  if [[ -z "$INFILE" ]]; then
+  if [[ -z "$INFILE" || "$INFILE" = /dev/stdin ]]; then
     INFILE=$(mktemp "$TMPDIR/apertium.XXXXXXXX")
     cat > "$INFILE"
     BORRAFICHERO="true"
@@ -274,7 +274,7 @@ translate_docx () {
 
   test_zip
 
-  if [[ -z "$INFILE" ]]; then
+  if [[ -z "$INFILE" || "$INFILE" = /dev/stdin ]]; then
     INFILE=$(mktemp "$TMPDIR/apertium.XXXXXXXX")
     cat > "$INFILE"
     BORRAFICHERO="true"
@@ -331,7 +331,7 @@ translate_pptx () {
 
   test_zip
 
-  if [[ -z "$INFILE" ]]; then
+  if [[ -z "$INFILE" || "$INFILE" = /dev/stdin ]]; then
     INFILE=$(mktemp "$TMPDIR/apertium.XXXXXXXX")
     cat > "$INFILE"
     BORRAFICHERO="true"
@@ -382,7 +382,7 @@ translate_xlsx () {
 
   test_zip
 
-  if [[ -z "$INFILE" ]]; then
+  if [[ -z "$INFILE" || "$INFILE" = /dev/stdin ]]; then
     INFILE=$(mktemp "$TMPDIR/apertium.XXXXXXXX")
     cat > "$INFILE"
     BORRAFICHERO="true"
-- 
2.43.0


From 5bc426bb7ce32d0475ecdccaacf2ee816ab2d11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:37 +0000
Subject: [PATCH 059/106] fix: apertium passes no empty argument when
 translating embedded spreadsheets

---
 apertium/apertium-header.sh | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/apertium/apertium-header.sh b/apertium/apertium-header.sh
index bd3a90d..51a0868 100644
--- a/apertium/apertium-header.sh
+++ b/apertium/apertium-header.sh
@@ -282,15 +282,15 @@ translate_docx () {
   TMP_OUT_FILE=$(mktemp "$TMPDIR/apertium.XXXXXXXX")
 
   if [[ "$UWORDS" = "no" ]]; then
-    OPCIONU="-u";
-  else OPCIONU="";
+    OPCIONU=(-u);
+  else OPCIONU=();
   fi
 
   unzip -q -o -d "$INPUT_TMPDIR" "$INFILE"
 
   find "$INPUT_TMPDIR" -name "*.xlsx" -print0 | while read -r -d '' i; do
     LOCALTEMP=$(mktemp "$TMPDIR/apertium.XXXXXXXX");
-    apertium -f xlsx -d "$DATADIR" "$OPCIONU" "$PAIR" <"$i" >"$LOCALTEMP";
+    apertium -f xlsx -d "$DATADIR" "${OPCIONU[@]}" "$PAIR" <"$i" >"$LOCALTEMP";
     cp "$LOCALTEMP" "$i";
     rm "$LOCALTEMP";
   done;
@@ -339,15 +339,15 @@ translate_pptx () {
   TMP_OUT_FILE=$(mktemp "$TMPDIR/apertium.XXXXXXXX")
 
   if [[ "$UWORDS" = "no" ]]; then
-    OPCIONU="-u";
-  else OPCIONU="";
+    OPCIONU=(-u);
+  else OPCIONU=();
   fi
 
   unzip -q -o -d "$INPUT_TMPDIR" "$INFILE"
 
   find "$INPUT_TMPDIR" -name "*.xlsx" -print0 | while read -r -d '' i; do
     LOCALTEMP=$(mktemp "$TMPDIR/apertium.XXXXXXXX")
-    apertium -f xlsx -d "$DATADIR" "$OPCIONU" "$PAIR" <"$i" >"$LOCALTEMP";
+    apertium -f xlsx -d "$DATADIR" "${OPCIONU[@]}" "$PAIR" <"$i" >"$LOCALTEMP";
     cp "$LOCALTEMP" "$i"
     rm "$LOCALTEMP"
   done;
-- 
2.43.0


From 59744258bf448b5bec0cb6411a6107cef5729dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:37 +0000
Subject: [PATCH 060/106] fix: apertium -m uses the direction of the
 translation unless -o gives another

---
 apertium/apertium-header.sh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apertium/apertium-header.sh b/apertium/apertium-header.sh
index 51a0868..6f9e63e 100644
--- a/apertium/apertium-header.sh
+++ b/apertium/apertium-header.sh
@@ -490,7 +490,7 @@ PAIR=""
 INFILE="/dev/stdin"
 FORMAT="txt"
 DATADIR=$APERTIUM_DATADIR
-TRANSLATION_MEMORY_DIRECTION=$PAIR
+TRANSLATION_MEMORY_DIRECTION=""
 LIST_MODES_AND_EXIT=false
 TMXPROC_OPTIONS=()
 FORMAT_OPTIONS=()
@@ -564,6 +564,7 @@ elif [[ ! -r "$INFILE" ]]; then
 fi
 
 if [[ -n $TRANSLATION_MEMORY_FILE ]]; then
+  [[ -z $TRANSLATION_MEMORY_DIRECTION ]] && TRANSLATION_MEMORY_DIRECTION=$PAIR
   if ! lt-tmxcomp "$TRANSLATION_MEMORY_DIRECTION" "$TRANSLATION_MEMORY_FILE" "$TMCOMPFILE" >/dev/null; then
     echo "Error: Cannot compile TM '$TRANSLATION_MEMORY_FILE'" >&2
     echo "   hint: use -o parameter to specify translation memory source/target languages" >&2
-- 
2.43.0


From 7a9a87538c4d1d6b039c2b79948c5434b93b88e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:57 +0000
Subject: [PATCH 061/106] fix: the format wxmlu of apertium uses the wxml
 filters

---
 apertium/apertium-header.sh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apertium/apertium-header.sh b/apertium/apertium-header.sh
index 6f9e63e..8605dbd 100644
--- a/apertium/apertium-header.sh
+++ b/apertium/apertium-header.sh
@@ -732,6 +732,7 @@ case "$FORMAT" in
     ;;
 
   wxmlu)
+    FORMAT="wxml";
     OPTION="-n";
     ;;
 
-- 
2.43.0


From 9c8fa436a94fdf74fc0100daa3a900ccd86af810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:57 +0000
Subject: [PATCH 062/106] fix: apertium judges the members of a docx by their
 names, not by the temporary directory

---
 apertium/apertium-header.sh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apertium/apertium-header.sh b/apertium/apertium-header.sh
index 8605dbd..1e4c09c 100644
--- a/apertium/apertium-header.sh
+++ b/apertium/apertium-header.sh
@@ -295,8 +295,9 @@ translate_docx () {
     rm "$LOCALTEMP";
   done;
 
-  find "$INPUT_TMPDIR" -name "*.xml" |\
+  ( cd "$INPUT_TMPDIR" && find . -name "*.xml" ) |\
   grep -E -v -i '(settings|theme|styles|font|rels|docProps|Content_Types|customXml)' |\
+  while read -r i; do echo "$INPUT_TMPDIR/${i#./}"; done |\
   apertium-adapt-docx -n |\
   apertium-deswxml "${FORMAT_OPTIONS[@]}" |\
   if [[ -z "$TRANSLATION_MEMORY_FILE" ]];
-- 
2.43.0


From 5ca180190f00540bf685e7d2c92892365eacfeba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:58 +0000
Subject: [PATCH 063/106] fix: apertium honours -u for unknown formats, treated
 as txt

---
 apertium/apertium-header.sh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/apertium/apertium-header.sh b/apertium/apertium-header.sh
index 1e4c09c..ab43c9d 100644
--- a/apertium/apertium-header.sh
+++ b/apertium/apertium-header.sh
@@ -742,7 +742,9 @@ case "$FORMAT" in
   *) # Por defecto asumimos txt
     echo "$0 WARNING: Unknown format ${FORMAT}, treating as 'txt'" >&2
     FORMAT="txt"
-    OPTION="-g"
+    if [[ "$UWORDS" = "no" ]]; then OPTION="-n";
+    else OPTION="-g";
+    fi;
     ;;
 esac
 
-- 
2.43.0


From a35da177ad922200bd6268e8801db5b05fa2399d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:58 +0000
Subject: [PATCH 064/106] fix: apertium-unformat reads the slides of the pptx
 it unpacked

---
 apertium/apertium-unformat-header.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apertium/apertium-unformat-header.sh b/apertium/apertium-unformat-header.sh
index d9408b8..bac9380 100644
--- a/apertium/apertium-unformat-header.sh
+++ b/apertium/apertium-unformat-header.sh
@@ -120,7 +120,7 @@ unformat_pptx ()
      rm "$LOCALTEMP"
   done;
 
-  find . -path '**/slides/slide*.xml' |\
+  find "$INPUT_TMPDIR" -path '**/slides/slide*.xml' |\
   awk '{printf "<file name=\"" $0 "\"/>"; PART = $0; while(getline < PART) printf(" %s", $0); printf("\n");}' |\
   apertium-despptx >"$SALIDA"
   rm -Rf "$INPUT_TMPDIR"
-- 
2.43.0


From 58440b1583b94e43b78027424f8912fe5cac9d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:58 +0000
Subject: [PATCH 065/106] fix: adapt-docx reads file names with spaces from its
 input

---
 apertium/adapt_docx.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apertium/adapt_docx.cc b/apertium/adapt_docx.cc
index cd0a17e..c5eb691 100644
--- a/apertium/adapt_docx.cc
+++ b/apertium/adapt_docx.cc
@@ -502,7 +502,7 @@ int main(int argc, char *argv[])
 		process(name, outputsName, pretty);
 	}
 	else {
-		while (cin >> name) {
+		while (getline(cin, name)) {
 			// cerr << "out: " << outputsName << ", name: " << name << ", pretty: " << pretty << endl;
 			process(name, outputsName, pretty);
 		}
-- 
2.43.0


From 727d43596ebf99bcd2e883794223beb484570727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:58 +0000
Subject: [PATCH 066/106] fix: pretransfer -n ends on a lexical unit cut in its
 surface form

---
 apertium/pretransfer.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/apertium/pretransfer.cc b/apertium/pretransfer.cc
index b9fb3f2..a9a9ab5 100644
--- a/apertium/pretransfer.cc
+++ b/apertium/pretransfer.cc
@@ -79,6 +79,11 @@ void procWord(InputFile& input, UFILE* output, bool surface_forms, bool compound
   if(surface_forms)
   {
     while((mychar = input.get()) != '/') {
+      if(input.eof())
+      {
+        std::cerr << "ERROR: Unexpected EOF" << std::endl;
+        exit(EXIT_FAILURE);
+      }
       if (mychar == '\\') input.get();
     }
   }
-- 
2.43.0


From d77643874b9027df0b55a70fda716fd0a6d3dff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:52 +0000
Subject: [PATCH 067/106] fix: interchunk and postchunk end on a superblank or
 chunk cut by the end of the input

---
 apertium/interchunk.cc | 4 ++++
 apertium/postchunk.cc  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/apertium/interchunk.cc b/apertium/interchunk.cc
index eca7d46..249f7ff 100644
--- a/apertium/interchunk.cc
+++ b/apertium/interchunk.cc
@@ -392,6 +392,8 @@ Interchunk::readToken(InputFile& in)
         } else if(val2 == ']') {
           content += ']';
           break;
+        } else if(in.eof()) {
+          break;
         } else {
           content += val2;
         }
@@ -411,6 +413,8 @@ Interchunk::readToken(InputFile& in)
           if(val3 == '$') {
             break;
           }
+        } else if(in.eof()) {
+          break;
         } else {
           content += val2;
         }
diff --git a/apertium/postchunk.cc b/apertium/postchunk.cc
index 3d058ce..ac033c6 100644
--- a/apertium/postchunk.cc
+++ b/apertium/postchunk.cc
@@ -488,6 +488,8 @@ Postchunk::readToken(InputFile& in)
         } else if(val2 == ']') {
           content += ']';
           break;
+        } else if(in.eof()) {
+          break;
         } else {
           content += val2;
         }
@@ -507,6 +509,8 @@ Postchunk::readToken(InputFile& in)
           if(val3 == '$') {
             break;
           }
+        } else if(in.eof()) {
+          break;
         } else {
           content += val2;
         }
-- 
2.43.0


From 1462e48b533c0ff72ea6a9cc36cbd8d56f5f6a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:52 +0000
Subject: [PATCH 068/106] fix: multiple translations end on a superblank cut by
 the end of the input

---
 apertium/transfer_mult.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/apertium/transfer_mult.cc b/apertium/transfer_mult.cc
index 66a65e2..9c7a89e 100644
--- a/apertium/transfer_mult.cc
+++ b/apertium/transfer_mult.cc
@@ -181,6 +181,10 @@ TransferMult::readToken(InputFile& in)
 	  content += ']';
 	  break;
 	}
+	else if(in.eof())
+	{
+	  break;
+	}
 	else
 	{
 	  content += val2;
-- 
2.43.0


From 60d4fa09c070704fe182aaa89bfc62464cea38ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:52 +0000
Subject: [PATCH 069/106] fix: transfer ends on a lexical unit with a
 word-bound blank cut by the end of the input

---
 apertium/transfer.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/apertium/transfer.cc b/apertium/transfer.cc
index 2854fb9..700455d 100644
--- a/apertium/transfer.cc
+++ b/apertium/transfer.cc
@@ -830,6 +830,11 @@ Transfer::readToken(InputFile& in)
           in_wblank = false;
           u_fflush(output);
         }
+        else if(in.eof())
+        {
+          in_wblank = false;
+          return input_buffer.add(TransferToken(content, tt_eof));
+        }
         else
         {
           content += val3;
-- 
2.43.0


From 907994f465a8716b3c9e0b0efa1d6758279a3ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:52 +0000
Subject: [PATCH 070/106] fix: restore-caps does not stop advancing at the
 noncharacter U+FFFF

---
 apertium/caps_restorer.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/apertium/caps_restorer.cc b/apertium/caps_restorer.cc
index 5ab184e..0786f57 100644
--- a/apertium/caps_restorer.cc
+++ b/apertium/caps_restorer.cc
@@ -155,6 +155,13 @@ CapsRestorer::read_word(InputFile& input)
     cur.wblank = input.finishWBlank();
   }
   if (input.peek() != '^') {
+    if (cur.blank.empty() && cur.wblank.empty()) {
+      // readBlank() stops at the noncharacter that stands for the end of the input
+      UChar32 c = input.get();
+      if (!input.eof()) {
+        cur.blank += c;
+      }
+    }
     words.push_back(std::move(cur));
     return false;
   }
-- 
2.43.0


From f833d91766e22571a1450addebdf0b87b336c00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:26 +0000
Subject: [PATCH 071/106] fix: transfer does not read past the end of a
 malformed lexical unit

---
 apertium/transfer.cc | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/apertium/transfer.cc b/apertium/transfer.cc
index 700455d..e915436 100644
--- a/apertium/transfer.cc
+++ b/apertium/transfer.cc
@@ -1091,7 +1091,7 @@ Transfer::transfer(InputFile& in, UFILE* out)
               {
                 if(*(it+1) == '[') //wordbound blank
                 {
-                  while(true)
+                  while(it != tmpword[0]->end())
                   {
                     if(*it == '\\')
                     {
@@ -1110,6 +1110,10 @@ Transfer::transfer(InputFile& in, UFILE* out)
 
                     it++;
                   }
+                  if(it == tmpword[0]->end())
+                  {
+                    break;
+                  }
                 }
                 else
                 {
@@ -1129,7 +1133,7 @@ Transfer::transfer(InputFile& in, UFILE* out)
                 continue;
               }
               else if (*it == '<') {
-                while (*it != '>') {
+                while (it != tmpword[0]->end() && *it != '>') {
                   cur.push_back(*it);
                   if (*it == '\\') {
                     it++;
@@ -1137,6 +1141,9 @@ Transfer::transfer(InputFile& in, UFILE* out)
                   }
                   it++;
                 }
+                if (it == tmpword[0]->end()) {
+                  break;
+                }
               }
               cur.push_back(*it);
             }
@@ -1309,7 +1316,7 @@ Transfer::applyRule()
         {
           if(*(it+1) == '[') //wordbound blank
           {
-            while(true) {
+            while(it != tmpword[i]->end()) {
               if(*it == '\\') {
                 wblank.push_back(*it);
                 it++;
@@ -1324,6 +1331,9 @@ Transfer::applyRule()
 
               it++;
             }
+            if(it == tmpword[i]->end()) {
+              break;
+            }
           }
           else {
             if(seenSlash == 0)      sl.push_back(*it);
@@ -1396,7 +1406,7 @@ Transfer::applyWord(UString const &word_str)
       case '[':
         if(word_str[i+1] == '[')
         {
-          while(true)
+          while(i < limit)
           {
             if(word_str[i] == '\\')
             {
-- 
2.43.0


From 88807f9d9c23f81ffc15ccf93e52796ac64b6a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:26 +0000
Subject: [PATCH 072/106] fix: transfer takes $ for the end of a lexical unit
 only inside one

---
 apertium/transfer.cc      | 6 +++++-
 apertium/transfer.h       | 1 +
 apertium/transfer_mult.cc | 4 +++-
 apertium/transfer_mult.h  | 1 +
 4 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/apertium/transfer.cc b/apertium/transfer.cc
index e915436..361bc82 100644
--- a/apertium/transfer.cc
+++ b/apertium/transfer.cc
@@ -823,6 +823,7 @@ Transfer::readToken(InputFile& in)
         else if(val3 == '$') //[[..]]^..$ is the LU
         {
           in_wblank = false;
+          inword = false;
           return input_buffer.add(TransferToken(content, tt_word));
         }
         else if(val3 == '\0' && null_flush)
@@ -884,12 +885,14 @@ Transfer::readToken(InputFile& in)
         }
       }
     }
-    else if(val == '$')
+    else if(inword && val == '$')
     {
+      inword = false;
       return input_buffer.add(TransferToken(content, tt_word));
     }
     else if(val == '^')
     {
+      inword = true;
       return input_buffer.add(TransferToken(content, tt_blank));
     }
     else if(val == '\0' && null_flush)
@@ -950,6 +953,7 @@ Transfer::transfer(InputFile& in, UFILE* out)
   int lastrule_id = -1;
   set<int> banned_rules;
   in_wblank = false;
+  inword = false;
 
   output = out;
   ms.init(me->getInitial());
diff --git a/apertium/transfer.h b/apertium/transfer.h
index 7cc90d8..0107ac3 100644
--- a/apertium/transfer.h
+++ b/apertium/transfer.h
@@ -33,6 +33,7 @@ private:
   int last_lword = 0;
   bool in_lu = false;
   bool in_wblank = false;
+  bool inword = false;
   UString out_wblank;
   map <UString, UString> var_out_wblank;
 
diff --git a/apertium/transfer_mult.cc b/apertium/transfer_mult.cc
index 9c7a89e..c7189d2 100644
--- a/apertium/transfer_mult.cc
+++ b/apertium/transfer_mult.cc
@@ -191,12 +191,14 @@ TransferMult::readToken(InputFile& in)
 	}
       }
     }
-    else if(val == '$')
+    else if(inword && val == '$')
     {
+      inword = false;
       return input_buffer.add(TransferToken(content, tt_word));
     }
     else if(val == '^')
     {
+      inword = true;
       return input_buffer.add(TransferToken(content, tt_blank));
     }
     else
diff --git a/apertium/transfer_mult.h b/apertium/transfer_mult.h
index 02d2963..d5d57a6 100644
--- a/apertium/transfer_mult.h
+++ b/apertium/transfer_mult.h
@@ -48,6 +48,7 @@ private:
   TransferWord **word;
   UString **blank;
   Buffer<TransferToken> input_buffer;
+  bool inword = false;
   vector<UString *> tmpword;
   vector<UString *> tmpblank;
   UString output_string;
-- 
2.43.0


From 9b07843e4a0157284f8e57b12098c316a5f9c073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:57 +0000
Subject: [PATCH 073/106] fix: postchunk does not read past the end of a
 malformed chunk

---
 apertium/postchunk.cc | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/apertium/postchunk.cc b/apertium/postchunk.cc
index ac033c6..a4b24d5 100644
--- a/apertium/postchunk.cc
+++ b/apertium/postchunk.cc
@@ -788,7 +788,7 @@ Postchunk::getVecTags(UString const &chunk)
 {
   vector<UString> vectags;
 
-  for(int i = 0, limit = chunk.size(); i != limit; i++)
+  for(int i = 0, limit = chunk.size(); i < limit; i++)
   {
     if(chunk[i] == '\\')
     {
@@ -801,7 +801,7 @@ Postchunk::getVecTags(UString const &chunk)
       {
         mytag += chunk[i++];
       }
-      while(chunk[i] != '>');
+      while(i < limit && chunk[i] != '>');
       mytag += '>';
       vectags.push_back(mytag);
     }
@@ -896,7 +896,7 @@ Postchunk::unchunk(UString const &chunk, UFILE* output)
       u_fputc(chunk[++i], output);
     } else if(chunk[i] == '^') {
       u_fputc('^', output);
-      while(chunk[++i] != '$')
+      while(++i < int(chunk.size()) && chunk[i] != '$')
       {
         if(chunk[i] == '\\')
         {
@@ -908,7 +908,7 @@ Postchunk::unchunk(UString const &chunk, UFILE* output)
           if(u_isdigit(chunk[i+1]))
           {
             int j = ++i;
-            while (chunk[++i] != '>');
+            while (++i < int(chunk.size()) && chunk[i] != '>');
             unsigned long value = StringUtils::stoi(chunk.substr(j, i-j)) - 1;
             if(vectags.size() > value)
             {
@@ -918,7 +918,7 @@ Postchunk::unchunk(UString const &chunk, UFILE* output)
           else
           {
             u_fputc('<', output);
-            while(chunk[++i] != '>') u_fputc(chunk[i], output);
+            while(++i < int(chunk.size()) && chunk[i] != '>') u_fputc(chunk[i], output);
             u_fputc('>', output);
           }
         }
@@ -950,7 +950,7 @@ Postchunk::unchunk(UString const &chunk, UFILE* output)
     else if(chunk[i] == '[')
     {
       u_fputc('[', output);
-      while(chunk[++i] != ']')
+      while(++i < int(chunk.size()) && chunk[i] != ']')
       {
         if(chunk[i] == '\\')
         {
@@ -1004,7 +1004,7 @@ Postchunk::splitWordsAndBlanks(UString const &chunk, vector<UString *> &words,
       UString *myword = new UString();
       UString &ref = *myword;
 
-      while(chunk[++i] != '$')
+      while(++i < int(chunk.size()) && chunk[i] != '$')
       {
         if(chunk[i] == '\\')
         {
@@ -1017,7 +1017,7 @@ Postchunk::splitWordsAndBlanks(UString const &chunk, vector<UString *> &words,
           {
             // replace tag
             int j = ++i;
-            while (chunk[++i] != '>');
+            while (++i < int(chunk.size()) && chunk[i] != '>');
             unsigned long value = StringUtils::stoi(chunk.substr(j, i-j)) - 1;
             if(vectags.size() > value)
             {
@@ -1027,7 +1027,7 @@ Postchunk::splitWordsAndBlanks(UString const &chunk, vector<UString *> &words,
           else
           {
             ref += '<';
-            while(chunk[++i] != '>') ref += chunk[i];
+            while(++i < int(chunk.size()) && chunk[i] != '>') ref += chunk[i];
             ref += '>';
           }
         }
@@ -1072,7 +1072,7 @@ Postchunk::splitWordsAndBlanks(UString const &chunk, vector<UString *> &words,
         UString *myword = new UString();
         UString &ref = *myword;
 
-        while(true)
+        while(i < int(chunk.size()))
         {
           if(chunk[i] == '\\')
           {
@@ -1093,7 +1093,7 @@ Postchunk::splitWordsAndBlanks(UString const &chunk, vector<UString *> &words,
           i++;
         }
 
-        while(chunk[++i] != '$')
+        while(++i < int(chunk.size()) && chunk[i] != '$')
         {
           if(chunk[i] == '\\')
           {
@@ -1106,7 +1106,7 @@ Postchunk::splitWordsAndBlanks(UString const &chunk, vector<UString *> &words,
             {
               // replace tag
               int j = ++i;
-              while (chunk[++i] != '>');
+              while (++i < int(chunk.size()) && chunk[i] != '>');
               unsigned long value = StringUtils::stoi(chunk.substr(j, i-j)) - 1;
               if(vectags.size() > value)
               {
@@ -1116,7 +1116,7 @@ Postchunk::splitWordsAndBlanks(UString const &chunk, vector<UString *> &words,
             else
             {
               ref += '<';
-              while(chunk[++i] != '>') ref += chunk[i];
+              while(++i < int(chunk.size()) && chunk[i] != '>') ref += chunk[i];
               ref += '>';
             }
           }
@@ -1156,7 +1156,7 @@ Postchunk::splitWordsAndBlanks(UString const &chunk, vector<UString *> &words,
         }
         UString &ref = *(blanks.back());
         ref += '[';
-        while(chunk[++i] != ']')
+        while(++i < int(chunk.size()) && chunk[i] != ']')
         {
           if(chunk[i] == '\\')
           {
@@ -1168,7 +1168,10 @@ Postchunk::splitWordsAndBlanks(UString const &chunk, vector<UString *> &words,
             ref += chunk[i];
           }
         }
-        ref += chunk[i];
+        if(i < int(chunk.size()))
+        {
+          ref += chunk[i];
+        }
 
         lastblank = true;
       }
-- 
2.43.0


From f422409fce2e891fb197b0dfd0e49558d70ba557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:57 +0000
Subject: [PATCH 074/106] fix: interchunk does not read before the start of a
 chunk

---
 apertium/interchunk_word.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apertium/interchunk_word.cc b/apertium/interchunk_word.cc
index 14a27b3..8b16f7a 100644
--- a/apertium/interchunk_word.cc
+++ b/apertium/interchunk_word.cc
@@ -78,7 +78,7 @@ InterchunkWord::init(UString const &chunk)
     }
     else if(chunk[i] == ']')
     {
-      if(chunk[i-1] == ']')
+      if(i > 0 && chunk[i-1] == ']')
       {
         b_end = i+1;
       }
-- 
2.43.0


From ee1d9f866bf2a2969502a8892f1bc5afe0ba0df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:51 +0000
Subject: [PATCH 075/106] fix: postchunk does not read past the words of a
 chunk with fewer words than a macro's parameters

---
 apertium/postchunk.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apertium/postchunk.cc b/apertium/postchunk.cc
index a4b24d5..ec1f25d 100644
--- a/apertium/postchunk.cc
+++ b/apertium/postchunk.cc
@@ -431,7 +431,7 @@ Postchunk::processCallMacro(xmlNode *localroot)
     int pos = atoi((const char *) i->properties->children->content);
     if(!checkIndex(localroot, pos, lword)) {
       indexesOK = false;      // avoid segfaulting on empty chunks, e.g. ^x<x>{}$
-      pos = 1;
+      pos = 0;
     }
     myword[idx] = word[pos];
     idx++;
-- 
2.43.0


From 5662723ccb5e85d6a22a8da819fbcf02a6c3a453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:25 +0000
Subject: [PATCH 076/106] fix: postchunk does not crash on <let> and
 <modify-case> of a word the chunk does not have

---
 apertium/postchunk.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/apertium/postchunk.cc b/apertium/postchunk.cc
index ec1f25d..415ae11 100644
--- a/apertium/postchunk.cc
+++ b/apertium/postchunk.cc
@@ -336,6 +336,11 @@ Postchunk::processLet(xmlNode *localroot)
       }
     }
 
+    // avoid segfaulting on empty chunks, as in processCallMacro()
+    if(!checkIndex(leftSide, pos, lword))
+    {
+      return;
+    }
 
     bool match = word[pos]->setChunkPart(attr_items[part],
 					 evalString(rightSide));
@@ -379,6 +384,11 @@ Postchunk::processModifyCase(xmlNode *localroot)
       }
     }
 
+    if(!checkIndex(leftSide, pos, lword))
+    {
+      return;
+    }
+
     UString const result = StringUtils::copycase(evalString(rightSide),
 				   word[pos]->chunkPart(attr_items[part]));
     bool match = word[pos]->setChunkPart(attr_items[part], result);
-- 
2.43.0


From 320998e98773e2186fe1fdb2548921d6ac8102e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:44 +0000
Subject: [PATCH 077/106] fix: the stream taggers end on a lexical unit cut by
 the end of the input

---
 apertium/morpheme.cc | 6 ++++++
 apertium/stream.cc   | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/apertium/morpheme.cc b/apertium/morpheme.cc
index 48156e4..1acaee0 100644
--- a/apertium/morpheme.cc
+++ b/apertium/morpheme.cc
@@ -71,6 +71,9 @@ Morpheme::read(InputFile& in)
 {
   UChar32 c = in.get();
   while (c != '<' && c != '$' && c != '/' && c != '\0') {
+    if (in.eof()) {
+      throw Exception::Stream::UnexpectedEndOfFile("unterminated lexical unit");
+    }
     TheLemma += c;
     if (c == '\\') {
       if (in.eof() || in.peek() == '\0') {
@@ -97,6 +100,9 @@ Morpheme::read(InputFile& in)
   if (c == '#') {
     size_t queue = TheLemma.size();
     while (c != '<' && c != '$' && c != '/' && c != '\0' && c != '+') {
+      if (in.eof()) {
+        throw Exception::Stream::UnexpectedEndOfFile("unterminated lexical unit");
+      }
       TheLemma += c;
       if (c == '\\') {
         if (in.eof() || in.peek() == '\0') {
diff --git a/apertium/stream.cc b/apertium/stream.cc
index 3ac79f1..e1ddbb6 100644
--- a/apertium/stream.cc
+++ b/apertium/stream.cc
@@ -42,6 +42,9 @@ StreamedType Stream::get() {
     TheStreamedType.TheLexicalUnit = LexicalUnit();
     UChar32 c = TheCharacterStream.get();
     while (c != '/' && c != '$') {
+      if (TheCharacterStream.eof()) {
+        throw Exception::Stream::UnexpectedEndOfFile("unterminated lexical unit");
+      }
       TheStreamedType.TheLexicalUnit->TheSurfaceForm += c;
       if (c == '\\') {
         c = TheCharacterStream.get();
-- 
2.43.0


From 8f7eef2f6b903bc89f24b42069a5ae2b15d03b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:50 +0000
Subject: [PATCH 078/106] fix: apertium-tmxbuild writes its translation units
 (those of two non-empty sides)

---
 apertium/tmx_builder.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apertium/tmx_builder.cc b/apertium/tmx_builder.cc
index c62204d..4b74285 100644
--- a/apertium/tmx_builder.cc
+++ b/apertium/tmx_builder.cc
@@ -759,7 +759,7 @@ TMXBuilder::printTU(UFILE* output, UString const &tu1, UString const &tu2) const
   UString tu1_filtered = filter(tu1);
   UString tu2_filtered = filter(tu2);
 
-  if (tu1_filtered.empty() && !tu2_filtered.empty()) {
+  if (!tu1_filtered.empty() && !tu2_filtered.empty()) {
     u_fprintf(output, "<tu>\n  <tuv xml:lang=\"%S\"><seg>%S</seg></tuv>\n",
               lang1.c_str(), tu1_filtered.c_str());
 
-- 
2.43.0


From 1610b483cc98b8013b37438caaf4a782118ed1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:50 +0000
Subject: [PATCH 079/106] fix: apertium-tmxbuild keeps the symbols and markup a
 segment begins or ends with

---
 apertium/tmx_builder.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apertium/tmx_builder.cc b/apertium/tmx_builder.cc
index 4b74285..baf8eea 100644
--- a/apertium/tmx_builder.cc
+++ b/apertium/tmx_builder.cc
@@ -273,7 +273,7 @@ TMXBuilder::xmlize(UString const &str)
       result = result.substr(5);
       cambio = true;
     }
-    while(result.size() > 0 && !u_isalnum(result[0]) && !u_ispunct(result[0]))
+    while(result.size() > 0 && !u_isgraph(result[0]) && !U16_IS_SURROGATE(result[0]))
     {
       result = result.substr(1);
       cambio = true;
@@ -290,7 +290,7 @@ TMXBuilder::xmlize(UString const &str)
       result = result.substr(0, result.size()-5);
       cambio = true;
     }
-    while(result.size() > 0 && !u_isalnum(result[result.size()-1]) && !u_ispunct(result[result.size()-1]))
+    while(result.size() > 0 && !u_isgraph(result[result.size()-1]) && !U16_IS_SURROGATE(result[result.size()-1]))
     {
       result = result.substr(0, result.size()-1);
       cambio = true;
-- 
2.43.0


From e1788c34e29880d314c528fa2fe96dd5a3d2708f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:50 +0000
Subject: [PATCH 080/106] fix: apertium-prelatex reads \} as an escaped brace,
 not as the end of a group

---
 apertium/apertium-prelatex.l | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apertium/apertium-prelatex.l b/apertium/apertium-prelatex.l
index 13faec1..e1ed954 100644
--- a/apertium/apertium-prelatex.l
+++ b/apertium/apertium-prelatex.l
@@ -266,7 +266,7 @@ bool ngermanbabel = false;
         fputs("<LEFTESCAPEDBRACE/>", yyout);
         }
 
-\\\{	{
+\\\}	{
         fputs("<RIGHTESCAPEDBRACE/>", yyout);
         }
 
-- 
2.43.0


From e6d81bc62ea2f3c35423adf72c75104dd7ae5db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:50 +0000
Subject: [PATCH 081/106] fix: an escaped dollar sign does not begin
 mathematics in LaTeX documents

---
 apertium/apertium-postlatex-raw.l | 4 ++++
 apertium/apertium-postlatex.l     | 4 ++++
 apertium/apertium-prelatex.l      | 8 ++++++++
 3 files changed, 16 insertions(+)

diff --git a/apertium/apertium-postlatex-raw.l b/apertium/apertium-postlatex-raw.l
index 05a4094..a3e124b 100644
--- a/apertium/apertium-postlatex-raw.l
+++ b/apertium/apertium-postlatex-raw.l
@@ -64,6 +64,10 @@ using namespace std;
         fputs_unlocked("\\}", yyout);
 }
 
+\<ESCAPEDDOLLAR\/\>	{
+        fputs_unlocked("\\$", yyout);
+}
+
 \<ESCAPEDPERCENT\/\>	{
         fputs_unlocked("\\%", yyout);
 }
diff --git a/apertium/apertium-postlatex.l b/apertium/apertium-postlatex.l
index 9a8b565..52af9cc 100644
--- a/apertium/apertium-postlatex.l
+++ b/apertium/apertium-postlatex.l
@@ -75,6 +75,10 @@ string symbuf;
         fputs("\\}", yyout);
 }
 
+\<ESCAPEDDOLLAR\/\>	{
+        fputs("\\$", yyout);
+}
+
 \<ESCAPEDPERCENT\/\>	{
         fputs("\\%", yyout);
 }
diff --git a/apertium/apertium-prelatex.l b/apertium/apertium-prelatex.l
index e1ed954..265c0b6 100644
--- a/apertium/apertium-prelatex.l
+++ b/apertium/apertium-prelatex.l
@@ -274,6 +274,14 @@ bool ngermanbabel = false;
         fputs("<ESCAPEDPERCENT/>", yyout);
         }
 
+\\\$	{
+        fputs("<ESCAPEDDOLLAR/>", yyout);
+        }
+
+<mathenv>\\\$	{
+        fputs("\\$", yyout);
+        }
+
 \{	{
 	fputs("<CONTENTS>",yyout);
 }
-- 
2.43.0


From 5691a4146cbbb481900ab54377f0e10c67e5a6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:50 +0000
Subject: [PATCH 082/106] fix: apertium-prelatex reads the accented \i and \j
 without braces as those letters

---
 apertium/apertium-prelatex.l | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/apertium/apertium-prelatex.l b/apertium/apertium-prelatex.l
index 265c0b6..f9dfa4f 100644
--- a/apertium/apertium-prelatex.l
+++ b/apertium/apertium-prelatex.l
@@ -82,30 +82,31 @@ bool ngermanbabel = false;
 
 
 \\[\^\"\'`]((\{\\[ij]\})|(\\[ij]))	{
+	char letter = (yytext[2] == '{') ? yytext[4] : yytext[3];
 	switch(yytext[1]){
 	case '^':
-		if(yytext[4]=='i')
+		if(letter=='i')
 			fputs("î", yyout);
 		else
 			fputs("ĵ",yyout);
 		break;
 	case '\"':
-		if(yytext[4]=='i')
+		if(letter=='i')
 			fputs("ï",yyout);
 		else
-			fputs("j",yyout); //should actually be j with umlaut
+			fputs("j̈",yyout); // there is no single character for it
 		break;
 	case '\'':
-		if(yytext[4]=='i')
+		if(letter=='i')
 			fputs("í",yyout);
 		else
-			fputs("j",yyout); //should actually be j with accent
+			fputs("j́",yyout);
 		break;
 	case '`':
-		if(yytext[4]=='i')
+		if(letter=='i')
 			fputs("ì",yyout);
 		else
-			fputs("k",yyout); //should actually be j with accent
+			fputs("j̀",yyout);
 		break;
 	}
 }
-- 
2.43.0


From 7f96aed90f4bd64393a58ad00f4b7c5fc2265dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:50 +0000
Subject: [PATCH 083/106] fix: LaTeX accents with no character of their own
 come back as they were

---
 apertium/apertium-prelatex.l | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/apertium/apertium-prelatex.l b/apertium/apertium-prelatex.l
index f9dfa4f..bde6287 100644
--- a/apertium/apertium-prelatex.l
+++ b/apertium/apertium-prelatex.l
@@ -164,10 +164,25 @@ bool ngermanbabel = false;
     key += (yyleng == 3) ? ws[2] : ws[3];
 
 	UString result = accentsMap.get(key);
-    if (result.empty()) {
+    if (isalpha((unsigned char)yytext[1]) && isalpha((unsigned char)yytext[2])) {
+      // a command with a name of two letters
       fputc('<', yyout);
       fwrite(yytext+1, 1, yyleng-1, yyout);
       fputs("/>", yyout);
+    } else if (result.empty() && isalpha((unsigned char)yytext[1])) {
+      yyless(2);
+      fputc('<', yyout);
+      fputc(yytext[1], yyout);
+      fputs("/>", yyout);
+    } else if (result.empty()) {
+      yyless(2);
+      fputc('\\', yyout);
+      switch (yytext[1]) {
+        case '\"': fputs("&quot;", yyout); break;
+        case '\'': fputs("&apos;", yyout); break;
+        case '~': fputs("&NBSP;", yyout); break;
+        default: fputc(yytext[1], yyout); break;
+      }
     } else {
       fputus(result, yyout);
     }
-- 
2.43.0


From c2104590719dd8ad68982a1d4cd1929f039de8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:50 +0000
Subject: [PATCH 084/106] fix: apertium-postlatex-raw gives \# back

---
 apertium/apertium-postlatex-raw.l | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/apertium/apertium-postlatex-raw.l b/apertium/apertium-postlatex-raw.l
index a3e124b..0a56c20 100644
--- a/apertium/apertium-postlatex-raw.l
+++ b/apertium/apertium-postlatex-raw.l
@@ -172,6 +172,15 @@ using namespace std;
 	fputs_unlocked("}", yyout);
 }
 
+\<HASH_[0-9]+\/\>	{
+	fputs_unlocked("\\#", yyout);
+	fwrite(yytext+6, 1, yyleng-8, yyout);
+}
+
+\<HASH\/\>	{
+	fputs_unlocked("\\#", yyout);
+}
+
 \<[a-zA-Z0-9]+_STAR\>	{
 	fputs_unlocked("\\begin{", yyout);
 	fwrite(yytext+1, 1, yyleng-7, yyout);
-- 
2.43.0


From 414ce702c33b5aa31af7e87912bae4d425301fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:04 +0000
Subject: [PATCH 085/106] fix: LaTeX comments, options and verbatim text come
 back as they were, whatever they contain

---
 apertium/apertium-postlatex-raw.l | 32 +++++++++++++++-------------
 apertium/apertium-postlatex.l     | 35 ++++++++++++++++---------------
 2 files changed, 35 insertions(+), 32 deletions(-)

diff --git a/apertium/apertium-postlatex-raw.l b/apertium/apertium-postlatex-raw.l
index 0a56c20..3fbfd1b 100644
--- a/apertium/apertium-postlatex-raw.l
+++ b/apertium/apertium-postlatex-raw.l
@@ -32,6 +32,9 @@ using namespace std;
 
 %x mathenv
 %x readbrackets
+%x comment
+%x param
+%x verb
 
 %%
 
@@ -140,32 +143,31 @@ using namespace std;
 	fputs_unlocked("\\\\",yyout);
 }
 
-\<COMMENT\>[^\<]*	{
-	fputs_unlocked("\%", yyout);
-	fwrite(yytext+9, 1, yyleng-9, yyout);
+\<COMMENT\>	{
+	BEGIN(comment);
+	fputs_unlocked("%", yyout);
 }
-
-\<\/COMMENT\>	{
+<comment>\<\/COMMENT\>	{
+	BEGIN(0);
 }
 
-
-\<PARAM\>[^\<]*	{
+\<PARAM\>	{
+	BEGIN(param);
 	fputs_unlocked("[", yyout);
-	fwrite(yytext+7, 1, yyleng-7, yyout);
 }
-\<\/PARAM\>	{
+<param>\<\/PARAM\>	{
 	fputs_unlocked("]", yyout);
+	BEGIN(0);
 }
 
 \<VERB\>	{
-        fputs_unlocked("\\verb", yyout);
+	BEGIN(verb);
+	fputs_unlocked("\\verb", yyout);
 }
-
-\<\/VERB\>	{
-        ;
+<verb>\<\/VERB\>	{
+	BEGIN(0);
 }
 
-
 \<[a-zA-Z0-9]+\>	{
 	fputs_unlocked("\\begin{", yyout);
 	fwrite(yytext+1, 1, yyleng-2, yyout);
@@ -219,7 +221,7 @@ using namespace std;
 	fwrite(yytext, 1, yyleng, yyout);
 }
 
-<mathenv>(.|\n)	{
+<mathenv,comment,param,verb>(.|\n)	{
 	fwrite(yytext, 1, yyleng, yyout);
 }
 
diff --git a/apertium/apertium-postlatex.l b/apertium/apertium-postlatex.l
index 52af9cc..7554447 100644
--- a/apertium/apertium-postlatex.l
+++ b/apertium/apertium-postlatex.l
@@ -43,6 +43,9 @@ string symbuf;
 
 %x mathenv
 %x readbrackets
+%x comment
+%x param
+%x verb
 
 %%
 
@@ -149,33 +152,31 @@ string symbuf;
 	fputs("\\\\",yyout);
 }
 
-\<COMMENT\>[^\<]*	{
-    fputs("\%", yyout);
-    fwrite(yytext+9, 1, yyleng-9, yyout);
+\<COMMENT\>	{
+	BEGIN(comment);
+	fputs("%", yyout);
 }
-
-\<\/COMMENT\>	{
+<comment>\<\/COMMENT\>	{
+	BEGIN(0);
 }
 
-
-\<PARAM\>[^\<]*	{
-    fputc('[', yyout);
-    fwrite(yytext+7, 1, yyleng-7, yyout);
+\<PARAM\>	{
+	BEGIN(param);
+	fputs("[", yyout);
 }
-\<\/PARAM\>	{
+<param>\<\/PARAM\>	{
 	fputs("]", yyout);
+	BEGIN(0);
 }
 
 \<VERB\>	{
-        fputs("\\verb", yyout);
+	BEGIN(verb);
+	fputs("\\verb", yyout);
 }
-
-\<\/VERB\>	{
-        ;
+<verb>\<\/VERB\>	{
+	BEGIN(0);
 }
 
-
-
 ł	{
 	fputs("\\l", yyout);
 }
@@ -294,7 +295,7 @@ string symbuf;
 	fputs(yytext, yyout);
 }
 
-<mathenv>(.|\n)	{
+<mathenv,comment,param,verb>(.|\n)	{
 	fputs(yytext, yyout);
 }
 
-- 
2.43.0


From 44ffd857a3cc3b0b0a91b4908ac3cc22bf3b99fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:04 +0000
Subject: [PATCH 086/106] fix: apertium-deslatex does not offer the mathematics
 of \( \) and \[ \] for translation

---
 apertium/latex-format.xml | 54 +++++++++------------------------------
 1 file changed, 12 insertions(+), 42 deletions(-)

diff --git a/apertium/latex-format.xml b/apertium/latex-format.xml
index 135e2d0..64a8e1f 100644
--- a/apertium/latex-format.xml
+++ b/apertium/latex-format.xml
@@ -54,11 +54,11 @@
     </format-rule>
 
     <format-rule type="open" eos="yes" priority="2">
-      <tag regexp='"&lt;section"(_STAR)?"/&gt;"[ \t\n\r]*"&lt;CONTENTS&gt;"'/>
+      <tag regexp='"&lt;"("sub")*"section"(_STAR)?"/&gt;"[ \t\n\r]*"&lt;CONTENTS&gt;"'/>
     </format-rule>
 
     <format-rule type="open" eos="yes" priority="2">
-      <tag regexp='"&lt;section"(_STAR)?"/&gt;"[ \t\n\r]*"&lt;PARAM&gt;"'/>
+      <tag regexp='"&lt;"("sub")*"section"(_STAR)?"/&gt;"[ \t\n\r]*"&lt;PARAM&gt;"'/>
     </format-rule>
 
     <format-rule type="open" eos="yes" priority="2">
@@ -77,50 +77,10 @@
       <tag regexp='"&lt;thanks"(_STAR)?"/&gt;"[ \t\n\r]*"&lt;CONTENTS&gt;"'/>
     </format-rule>
 
-    <format-rule type="open" eos="yes" priority="2">
-      <tag regexp='"&lt;subsection"(_STAR)?"/&gt;"[ \t\n\r]*"&lt;CONTENTS&gt;"'/>
-    </format-rule>
-
     <format-rule type="open" eos="yes" priority="2">
       <tag regexp='"&lt;paragraph"(_STAR)?"/&gt;"[ \t\n\r]*"&lt;CONTENTS&gt;"'/>
     </format-rule>
 
-    <format-rule type="open" eos="yes" priority="2">
-      <tag regexp='"&lt;subsection"(_STAR)?"/&gt;"[ \t\n\r]*"&lt;PARAM&gt;"'/>
-    </format-rule>
-
-    <format-rule type="open" eos="yes" priority="2">
-      <tag regexp='"&lt;subsubsection"(_STAR)?"/&gt;"[ \t\n\r]*"&lt;CONTENTS&gt;"'/>
-    </format-rule>
-
-    <format-rule type="open" eos="yes" priority="2">
-      <tag regexp='"&lt;subsubsection"(_STAR)?"/&gt;"[ \t\n\r]*"&lt;PARAM&gt;"'/>
-    </format-rule>
-
-    <format-rule type="open" eos="yes" priority="2">
-      <tag regexp='"&lt;subsubsubsection"(_STAR)?"/&gt;"[ \t\n\r]*"&lt;CONTENTS&gt;"'/>
-    </format-rule>
-
-    <format-rule type="open" eos="yes" priority="2">
-      <tag regexp='"&lt;subsubsubsection"(_STAR)?"/&gt;"[ \t\n\r]*"&lt;PARAM&gt;"'/>
-    </format-rule>
-
-    <format-rule type="open" eos="yes" priority="2">
-      <tag regexp='"&lt;subsubsubsubsection"(_STAR)?"/&gt;"[ \t\n\r]*"&lt;CONTENTS&gt;"'/>
-    </format-rule>
-
-    <format-rule type="open" eos="yes" priority="2">
-      <tag regexp='"&lt;subsubsubsubsection"(_STAR)?"/&gt;"[ \t\n\r]*"&lt;PARAM&gt;"'/>
-    </format-rule>
-
-    <format-rule type="open" eos="yes" priority="2">
-      <tag regexp='"&lt;subsubsubsubsubsection"(_STAR)?"/&gt;"[ \t\n\r]*"&lt;CONTENTS&gt;"'/>
-    </format-rule>
-
-    <format-rule type="open" eos="yes" priority="2">
-      <tag regexp='"&lt;subsubsubsubsubsection"(_STAR)?"/&gt;"[ \t\n\r]*"&lt;PARAM&gt;"'/>
-    </format-rule>
-
     <format-rule type="open" eos="yes" priority="2">
       <tag regexp='"&lt;frametitle"(_STAR)?"/&gt;"[ \t\n\r]*"&lt;CONTENTS&gt;"'/>
     </format-rule>
@@ -209,11 +169,21 @@
       <end regexp='"&lt;/MATH_DOLLAR&gt;"'/>
     </format-rule>
 
+    <format-rule type="comment" eos="no" priority="4">
+      <begin regexp='"&lt;MATH_PAR&gt;"'/>
+      <end regexp='"&lt;/MATH_PAR&gt;"'/>
+    </format-rule>
+
     <format-rule type="comment" eos="yes" priority="4">
       <begin regexp='"&lt;MATH_DOLLARS&gt;"'/>
       <end regexp='"&lt;/MATH_DOLLARS&gt;"'/>
     </format-rule>
 
+    <format-rule type="comment" eos="yes" priority="4">
+      <begin regexp='"&lt;MATH_BRA&gt;"'/>
+      <end regexp='"&lt;/MATH_BRA&gt;"'/>
+    </format-rule>
+
     <format-rule type="comment" eos="yes" priority="4">
       <begin regexp='"&lt;equation"(_STAR)?"&gt;"'/>
       <end regexp='"&lt;/equation"(_STAR)?"&gt;"'/>
-- 
2.43.0


From d737149a12436868d4c4e7969dabcbefc0b84a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:04 +0000
Subject: [PATCH 087/106] fix: apertium-utils-fixlatex keeps a closing brace at
 the very end of the document

---
 apertium/utils-fixlatex-header.sh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apertium/utils-fixlatex-header.sh b/apertium/utils-fixlatex-header.sh
index f18409d..e766eb8 100644
--- a/apertium/utils-fixlatex-header.sh
+++ b/apertium/utils-fixlatex-header.sh
@@ -26,6 +26,7 @@ BEGIN{
 }
 {
   MYRECORD[++nline] = $0;
+  terminator = RT;
 }
 END{
   for(i=1; i < nline; i++)
@@ -47,6 +48,6 @@ END{
     }
   }
 
-  printf("%s", MYRECORD[nline]);
+  printf("%s%s", MYRECORD[nline], terminator);
 }' > $OUTPUT_FILE
 
-- 
2.43.0


From 81db47b8a6f9f01890c52a070f78b04bb22a7cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:12 +0000
Subject: [PATCH 088/106] =?UTF-8?q?fix:=20apertium-postlatex=20writes=20?=
 =?UTF-8?q?=C5=82=20and=20characters=20outside=20the=20basic=20plane=20cor?=
 =?UTF-8?q?rectly?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 apertium/apertium-postlatex.l | 7 +++----
 apertium/apertium-prelatex.l  | 4 ++++
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/apertium/apertium-postlatex.l b/apertium/apertium-postlatex.l
index 7554447..5b9b1b6 100644
--- a/apertium/apertium-postlatex.l
+++ b/apertium/apertium-postlatex.l
@@ -178,7 +178,7 @@ string symbuf;
 }
 
 ł	{
-	fputs("\\l", yyout);
+	fputs("{\\l}", yyout);
 }
 
 
@@ -270,9 +270,8 @@ string symbuf;
 [^A-Za-z\n]	{
     symbuf += yytext;
 	if (utf8::is_valid(symbuf.begin(), symbuf.end())) {
-      const char *mb = symbuf.c_str();
-      UChar32 symbol = utf8::next(mb, mb+4);
-      UString wt = UString(1, symbol);
+      UString wt;
+      utf8::utf8to16(symbuf.begin(), symbuf.end(), std::back_inserter(wt));
       symbuf.clear();
       UString wa = accentsMap.get(wt);
       if (wa.empty()) {
diff --git a/apertium/apertium-prelatex.l b/apertium/apertium-prelatex.l
index bde6287..ab86544 100644
--- a/apertium/apertium-prelatex.l
+++ b/apertium/apertium-prelatex.l
@@ -111,6 +111,10 @@ bool ngermanbabel = false;
 	}
 }
 
+\{\\l\}	{
+	fputs("ł",yyout);
+}
+
 \{\\oe\}	{
 	fputs("œ",yyout);
 }
-- 
2.43.0


From 57fe006c2ccf720cd9c287b15b9540113ff4b119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:13 +0000
Subject: [PATCH 089/106] fix: apertium-prelatex copies non-ASCII package
 options without an extra bracket

---
 apertium/apertium-prelatex.l | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/apertium/apertium-prelatex.l b/apertium/apertium-prelatex.l
index ab86544..d5f78cf 100644
--- a/apertium/apertium-prelatex.l
+++ b/apertium/apertium-prelatex.l
@@ -209,9 +209,8 @@ bool ngermanbabel = false;
 
 \\usepackage\[[^\]]*\]	{
   fputs("<usepackage/><PARAM>", yyout);
-  // this is maybe wrong, but hopefully no one puts non-ASCII
-  // characters in their package names
-  UString ws = to_ustring(yytext).substr(12, yyleng-13);
+  UString ws = to_ustring(yytext);
+  ws = ws.substr(12, ws.size()-13);
   fputus(ws, yyout);
   fputs("</PARAM>", yyout);
   if(ws.find("ngerman"_u) != UString::npos)
-- 
2.43.0


From 010555df989572b978da1e72228986d3918d5b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:13 +0000
Subject: [PATCH 090/106] fix: apertium-prelatex keeps the braces of a command
 whose argument is a single \oe, \ss and the like

---
 apertium/apertium-prelatex.l | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/apertium/apertium-prelatex.l b/apertium/apertium-prelatex.l
index d5f78cf..a34db83 100644
--- a/apertium/apertium-prelatex.l
+++ b/apertium/apertium-prelatex.l
@@ -48,6 +48,7 @@ bool ngermanbabel = false;
 
 %x mathenv
 %x readbrackets
+%x letterarg
 
 %%
 
@@ -111,6 +112,33 @@ bool ngermanbabel = false;
 	}
 }
 
+\\[A-Za-z]+\{\\(l|oe|OE|ae|AE|aa|AA|o|O|ss)\}	{
+  // the braces are those of the command's argument
+  yyless(strchr(yytext, '{') - yytext);
+  fputc('<', yyout);
+  fwrite(yytext+1, 1, yyleng-1, yyout);
+  fputs("/>", yyout);
+  BEGIN(letterarg);
+}
+
+<letterarg>\{	{
+  fputs("<CONTENTS>", yyout);
+}
+<letterarg>\}	{
+  fputs("</CONTENTS>", yyout);
+  BEGIN(0);
+}
+<letterarg>\\l	fputs("ł", yyout);
+<letterarg>\\oe	fputs("œ", yyout);
+<letterarg>\\OE	fputs("Œ", yyout);
+<letterarg>\\ae	fputs("æ", yyout);
+<letterarg>\\AE	fputs("Æ", yyout);
+<letterarg>\\aa	fputs("å", yyout);
+<letterarg>\\AA	fputs("Å", yyout);
+<letterarg>\\o	fputs("ø", yyout);
+<letterarg>\\O	fputs("Ø", yyout);
+<letterarg>\\ss	fputs("ß", yyout);
+
 \{\\l\}	{
 	fputs("ł",yyout);
 }
-- 
2.43.0


From dfca9560ee8b97c853619034f123a4ea694d814d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:18 +0000
Subject: [PATCH 091/106] fix: apertium-filter-dix left drops right-to-left
 entries of other variants instead of turning them round

---
 scripts/filter-dix.xslt | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/scripts/filter-dix.xslt b/scripts/filter-dix.xslt
index 5b699bb..342c6ce 100644
--- a/scripts/filter-dix.xslt
+++ b/scripts/filter-dix.xslt
@@ -67,9 +67,11 @@
     <xsl:when test="not(count(./@v)=0) and not(./@v=$lang)">
       <xsl:choose>
 	<xsl:when test="$side=string('left')">
-	  <e r="LR">
-	    <xsl:apply-templates/>
-	  </e>
+	  <xsl:if test="not(./@r=string('RL'))">
+	    <e r="LR">
+	      <xsl:apply-templates/>
+	    </e>
+	  </xsl:if>
 	</xsl:when>
 	<xsl:otherwise>
   	  <xsl:if test="not(./@r=string('LR'))">
-- 
2.43.0


From 994682cdec35850a508d676313d0c145a6dfc305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:18 +0000
Subject: [PATCH 092/106] fix: apertium-filter-dix keeps the weights, ignore
 marks and other attributes of entries, and identity groups

---
 scripts/filter-dix.xslt | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/scripts/filter-dix.xslt b/scripts/filter-dix.xslt
index 342c6ce..78c0a69 100644
--- a/scripts/filter-dix.xslt
+++ b/scripts/filter-dix.xslt
@@ -54,11 +54,13 @@
       <xsl:choose>
         <xsl:when test="count(./@r)=0">
           <e>
+            <xsl:copy-of select="@*[not(name()='v' or name()='r')]"/>
   	    <xsl:apply-templates/>
           </e>
         </xsl:when>
         <xsl:otherwise>
           <e r="{./@r}">
+            <xsl:copy-of select="@*[not(name()='v' or name()='r')]"/>
   	    <xsl:apply-templates/>
           </e>
         </xsl:otherwise>
@@ -69,6 +71,7 @@
 	<xsl:when test="$side=string('left')">
 	  <xsl:if test="not(./@r=string('RL'))">
 	    <e r="LR">
+	      <xsl:copy-of select="@*[not(name()='v' or name()='r')]"/>
 	      <xsl:apply-templates/>
 	    </e>
 	  </xsl:if>
@@ -76,6 +79,7 @@
 	<xsl:otherwise>
   	  <xsl:if test="not(./@r=string('LR'))">
             <e r="RL">
+	      <xsl:copy-of select="@*[not(name()='v' or name()='r')]"/>
  	      <xsl:apply-templates/>
 	    </e>
           </xsl:if>
@@ -86,11 +90,13 @@
       <xsl:choose>
 	<xsl:when test="not(count(./@r))=0">
 	  <e r="{./@r}">
+	    <xsl:copy-of select="@*[not(name()='v' or name()='r')]"/>
 	    <xsl:apply-templates/>
 	  </e>
 	</xsl:when>
 	<xsl:otherwise>
 	  <e>
+	    <xsl:copy-of select="@*[not(name()='v' or name()='r')]"/>
 	    <xsl:apply-templates/>
 	  </e>
 	</xsl:otherwise>
@@ -129,6 +135,12 @@
   <a/>
 </xsl:template>
 
+<xsl:template match="m|t|d|w">
+  <xsl:copy-of select="."/>
+</xsl:template>
+
+<xsl:template match="ig"><ig><xsl:apply-templates/></ig></xsl:template>
+
 <xsl:template match="re">
   <re><xsl:apply-templates/></re>
 </xsl:template>
-- 
2.43.0


From 3901227d276632d6dd85513c9e6063e53ff7b1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:18 +0000
Subject: [PATCH 093/106] fix: apertium-genvdix, -genvldix and -genvrdix escape
 quotes in attributes

---
 scripts/apertium-genvdix  | 2 +-
 scripts/apertium-genvldix | 2 +-
 scripts/apertium-genvrdix | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/apertium-genvdix b/scripts/apertium-genvdix
index 683356d..ed3444a 100755
--- a/scripts/apertium-genvdix
+++ b/scripts/apertium-genvdix
@@ -34,7 +34,7 @@ def printAttrs(attrsmap):
   for (i,j) in list(attrsmap.items()):
     output.append(i)
     output.append("=\"")
-    output.append(saxutils.escape(j))
+    output.append(saxutils.escape(j, {'"': "&quot;"}))
     output.append("\" ")
 
   return " " + "".join(output).strip()
diff --git a/scripts/apertium-genvldix b/scripts/apertium-genvldix
index b91cb28..efd9cdc 100755
--- a/scripts/apertium-genvldix
+++ b/scripts/apertium-genvldix
@@ -34,7 +34,7 @@ def printAttrs(attrsmap):
   for (i,j) in list(attrsmap.items()):
     output.append(i)
     output.append("=\"")
-    output.append(saxutils.escape(j))
+    output.append(saxutils.escape(j, {'"': "&quot;"}))
     output.append("\" ")
 
   return " " + "".join(output).strip()
diff --git a/scripts/apertium-genvrdix b/scripts/apertium-genvrdix
index e6e2403..507730b 100755
--- a/scripts/apertium-genvrdix
+++ b/scripts/apertium-genvrdix
@@ -34,7 +34,7 @@ def printAttrs(attrsmap):
   for (i,j) in list(attrsmap.items()):
     output.append(i)
     output.append("=\"")
-    output.append(saxutils.escape(j))
+    output.append(saxutils.escape(j, {'"': "&quot;"}))
     output.append("\" ")
 
   return " " + "".join(output).strip()
-- 
2.43.0


From 9632b42f5393c2d0872568bb716322beda9a0ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:18 +0000
Subject: [PATCH 094/106] fix: apertium-metalrx escapes macro arguments with
 reserved XML characters

---
 scripts/apertium-metalrx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/apertium-metalrx b/scripts/apertium-metalrx
index dec433b..8d664f3 100755
--- a/scripts/apertium-metalrx
+++ b/scripts/apertium-metalrx
@@ -18,6 +18,7 @@
 
 import sys
 import xml.etree.ElementTree as ET
+from xml.sax.saxutils import escape
 
 source = sys.argv[1]
 target = sys.argv[2]
@@ -37,7 +38,7 @@ for macro in tree.iter(tag='macro'):
 	for k,v in macro.attrib.items():
 		if k.startswith('p'):
 			kstr = '{{' + k + '}}'
-			macrostr = macrostr.replace(kstr, v)
+			macrostr = macrostr.replace(kstr, escape(v, {'"': '&quot;'}))
 
 	newtree = ET.fromstring('<root>' + macrostr + '</root>')
 
-- 
2.43.0


From 846d858f0a486f1eb08e008dd184652c8207f943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:18 +0000
Subject: [PATCH 095/106] fix: apertium-metalrx-to-lrx writes no fewer
 repetitions than from asks for

---
 scripts/metalrx-to-lrx.xslt | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/metalrx-to-lrx.xslt b/scripts/metalrx-to-lrx.xslt
index 2e728f7..adf15f7 100644
--- a/scripts/metalrx-to-lrx.xslt
+++ b/scripts/metalrx-to-lrx.xslt
@@ -68,7 +68,7 @@ along with this program; if not, see <https://www.gnu.org/licenses/>.
   <xsl:template name="repeat1">
     <xsl:param name="upto" />
     <xsl:param name="from" select="1" />
-    <xsl:choose><xsl:when test="$upto &gt; 0">
+    <xsl:choose><xsl:when test="$upto &gt; 0 and not($upto &lt; $from)">
       <rule>
         <xsl:copy-of select="./../@*"/>
         <xsl:apply-templates select="./preceding-sibling::*"/>
-- 
2.43.0


From f409b699e73b372bc2113a8909e58eba4e665673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:18 +0000
Subject: [PATCH 096/106] fix: apertium-editdist adds to a substitution the
 costs of its own two symbols only

---
 scripts/apertium-editdist | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/apertium-editdist b/scripts/apertium-editdist
index 678d869..d180a1c 100755
--- a/scripts/apertium-editdist
+++ b/scripts/apertium-editdist
@@ -156,11 +156,11 @@ class Transducer:
             self.substitutions.setdefault((symbol, self.epsilon), w)
             for symbol2 in self.alphabet:
                 if symbol == symbol2: continue
-                w += self.alphabet[symbol2]
+                w12 = w + self.alphabet[symbol2]
                 p12 = (symbol, symbol2)
                 p21 = (symbol2, symbol)
-                self.swaps.setdefault((p12, p21), self.swaps.get((p21, p12), w))
-                self.substitutions.setdefault(p12, self.substitutions.get(p21, w))
+                self.swaps.setdefault((p12, p21), self.swaps.get((p21, p12), w12))
+                self.substitutions.setdefault(p12, self.substitutions.get(p21, w12))
 
     def next_special(self, state):
         if state == "swap":
-- 
2.43.0


From d2986f882f8acde23e3fb8ec16a10f10360635e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:18 +0000
Subject: [PATCH 097/106] fix: apertium-editdist accepts words that end in a
 deletion or insertion at distance 3 and more

---
 scripts/apertium-editdist | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scripts/apertium-editdist b/scripts/apertium-editdist
index d180a1c..4106014 100755
--- a/scripts/apertium-editdist
+++ b/scripts/apertium-editdist
@@ -205,6 +205,7 @@ class Transducer:
                 ret.append(maketrans(state, nextstate, sub[0], sub[1], self.substitutions[sub]))
             elif sub[1] is self.epsilon: # deletion
                 ret.append(maketrans(state, self.skipstate, sub[0], sub[1], self.substitutions[sub]))
+                ret.append(str(self.skipstate) + "\t0.0") # final state, too
                 ret += self.make_identities(self.skipstate, nextstate)
                 ret += self.make_swaps(self.skipstate, nextstate + 1)
                 for sub2 in self.substitutions:
@@ -214,6 +215,7 @@ class Transducer:
                 self.next_special("skip")
             elif sub[0] is self.epsilon: # insertion
                 ret.append(maketrans(state, self.skipstate, sub[0], sub[1], self.substitutions[sub]))
+                ret.append(str(self.skipstate) + "\t0.0") # final state, too
                 ret += self.make_identities(self.skipstate, nextstate)
                 ret += self.make_swaps(self.skipstate, nextstate + 1)
                 for sub2 in self.substitutions:
-- 
2.43.0


From 003f863335b8c5d84646c73994f057580325277a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:18 +0000
Subject: [PATCH 098/106] fix: apertium-editdist does not share states between
 swaps and skips

---
 scripts/apertium-editdist | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/scripts/apertium-editdist b/scripts/apertium-editdist
index 4106014..4fd5db3 100755
--- a/scripts/apertium-editdist
+++ b/scripts/apertium-editdist
@@ -164,13 +164,10 @@ class Transducer:
 
     def next_special(self, state):
         if state == "swap":
-            self.swapstate += 1
-            while self.swapstate == self.skipstate:
-                self.swapstate += 1
+            # a state that was not used for a skip, either
+            self.swapstate = max(self.swapstate, self.skipstate) + 1
         elif state == "skip":
-            self.skipstate += 1
-            while self.skipstate == self.swapstate:
-                self.skipstate += 1
+            self.skipstate = max(self.swapstate, self.skipstate) + 1
         else:
             raise Exception
 
-- 
2.43.0


From c043dff07b30406bc3900a389eab928c935af8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:31 +0000
Subject: [PATCH 099/106] fix: apertium-restore-caps copies word-bound blanks
 that no word follows

---
 apertium/caps_restorer.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/apertium/caps_restorer.cc b/apertium/caps_restorer.cc
index 0786f57..c7c5936 100644
--- a/apertium/caps_restorer.cc
+++ b/apertium/caps_restorer.cc
@@ -155,7 +155,10 @@ CapsRestorer::read_word(InputFile& input)
     cur.wblank = input.finishWBlank();
   }
   if (input.peek() != '^') {
-    if (cur.blank.empty() && cur.wblank.empty()) {
+    // a word-bound blank that no word follows is copied
+    cur.blank += cur.wblank;
+    cur.wblank.clear();
+    if (cur.blank.empty()) {
       // readBlank() stops at the noncharacter that stands for the end of the input
       UChar32 c = input.get();
       if (!input.eof()) {
-- 
2.43.0


From 3d915b3d0d759ec6aaf1348c34024dcba964d62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:06 +0000
Subject: [PATCH 100/106] fix: apertium-gen-deformat handles format definitions
 with a single comment rule

---
 apertium/deformat.xsl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apertium/deformat.xsl b/apertium/deformat.xsl
index 864ead8..597196d 100644
--- a/apertium/deformat.xsl
+++ b/apertium/deformat.xsl
@@ -527,7 +527,7 @@ void printBuffer()
 </xsl:choose>
 %}
 
-<xsl:if test="count(./rules/format-rule[@type='comment']) &gt; 1">
+<xsl:if test="count(./rules/format-rule[@type='comment']) &gt; 0">
 <xsl:value-of select="string('%x')"/>
 <xsl:for-each select="./rules/format-rule[@type='comment']">
   <xsl:value-of select="string(' C')"/>
-- 
2.43.0


From 8df763132b4b5d7bda8aec5ff2b1ad00b0f246ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:15 +0000
Subject: [PATCH 101/106] fix: the grammar of format definitions knows eoh, and
 rtf-format.xml the name of prefer

---
 apertium/format.dtd     |  1 +
 apertium/format.rnc     |  1 +
 apertium/format.rng     | 10 ++++++++++
 apertium/rtf-format.xml |  2 +-
 4 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/apertium/format.dtd b/apertium/format.dtd
index 330f2d0..79672e0 100644
--- a/apertium/format.dtd
+++ b/apertium/format.dtd
@@ -94,6 +94,7 @@
 <!ELEMENT format-rule (tag|(begin,end))>
 <!ATTLIST format-rule type (comment|empty|open|close) #IMPLIED>
 <!ATTLIST format-rule eos (yes|no) #IMPLIED>
+<!ATTLIST format-rule eoh (yes|no) #IMPLIED>
 <!ATTLIST format-rule priority CDATA #REQUIRED>
 <!--
       Format rule parent element.  It may include a 'tag' element or
diff --git a/apertium/format.rnc b/apertium/format.rnc
index ec3fc54..67f7320 100644
--- a/apertium/format.rnc
+++ b/apertium/format.rnc
@@ -75,6 +75,7 @@ format-rule =
 attlist.format-rule &=
   attribute type { "comment" | "empty" | "open" | "close" }?
 attlist.format-rule &= attribute eos { "yes" | "no" }?
+attlist.format-rule &= attribute eoh { "yes" | "no" }?
 attlist.format-rule &= attribute priority { text }
 # Format rule parent element.  It may include a 'tag' element or
 # a couple of elements 'begin', 'end'.  In the first case, this element is
diff --git a/apertium/format.rng b/apertium/format.rng
index 2823f10..1315e67 100644
--- a/apertium/format.rng
+++ b/apertium/format.rng
@@ -201,6 +201,16 @@
       </attribute>
     </optional>
   </define>
+  <define name="attlist.format-rule" combine="interleave">
+    <optional>
+      <attribute name="eoh">
+        <choice>
+          <value>yes</value>
+          <value>no</value>
+        </choice>
+      </attribute>
+    </optional>
+  </define>
   <define name="attlist.format-rule" combine="interleave">
     <attribute name="priority"/>
   </define>
diff --git a/apertium/rtf-format.xml b/apertium/rtf-format.xml
index 5f02055..51df059 100644
--- a/apertium/rtf-format.xml
+++ b/apertium/rtf-format.xml
@@ -209,7 +209,7 @@
 
     <replacement-rule regexp="&quot;\\rquote &quot;">
       <replace source="\\rquote " target="'"/>
-      <replace source="'" target="'" preferred="yes"/>
+      <replace source="'" target="'" prefer="yes"/>
     </replacement-rule>
 
     <replacement-rule regexp="&quot;\\'&quot;[0-9a-fA-F][0-9a-fA-F](\r|\n|&quot;\r\n&quot;)?">
-- 
2.43.0


From ceea813c2b8181ed74e9f1e288c9c0a522fa98ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:47 +0000
Subject: [PATCH 102/106] fix: modify-case with queue="no" leaves the
 untranslated tags in place

---
 apertium/transfer.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/apertium/transfer.cc b/apertium/transfer.cc
index 361bc82..31b5b55 100644
--- a/apertium/transfer.cc
+++ b/apertium/transfer.cc
@@ -706,7 +706,7 @@ Transfer::processModifyCase(xmlNode *localroot)
     {
       UString const result = StringUtils::copycase(evalString(rightSide),
 				      word[pos]->source(attr_items[part], queue));
-      bool match = word[pos]->setSource(attr_items[part], result);
+      bool match = word[pos]->setSource(attr_items[part], result, queue);
       if(!match && trace)
       {
         cerr << "apertium-transfer warning: <modify-case> on line " << localroot->line << " sometimes discards its value." << endl;
@@ -716,7 +716,7 @@ Transfer::processModifyCase(xmlNode *localroot)
     {
       UString const result = StringUtils::copycase(evalString(rightSide),
               word[pos]->reference(attr_items[part], queue));
-      bool match = word[pos]->setReference(attr_items[part], result);
+      bool match = word[pos]->setReference(attr_items[part], result, queue);
       if(!match && trace)
       {
         cerr << "apertium-transfer warning: <modify-case> on line " << localroot->line << " sometimes discards its value." << endl;
@@ -726,7 +726,7 @@ Transfer::processModifyCase(xmlNode *localroot)
     {
       UString const result = StringUtils::copycase(evalString(rightSide),
 				     word[pos]->target(attr_items[part], queue));
-      bool match = word[pos]->setTarget(attr_items[part], result);
+      bool match = word[pos]->setTarget(attr_items[part], result, queue);
       if(!match && trace)
       {
         cerr << "apertium-transfer warning: <modify-case> on line " << localroot->line << " sometimes discards its value." << endl;
-- 
2.43.0


From 6c44d4e69878684f9625acb0a8854591e3147091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:27 +0000
Subject: [PATCH 103/106] fix: postchunk checks every <let> for words the chunk
 does not have, not only the first

---
 apertium/postchunk.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apertium/postchunk.cc b/apertium/postchunk.cc
index 415ae11..d3b80a1 100644
--- a/apertium/postchunk.cc
+++ b/apertium/postchunk.cc
@@ -292,6 +292,7 @@ Postchunk::processLet(xmlNode *localroot)
         return;
 
       case ti_clip_tl:
+      if(checkIndex(leftSide, ti.getPos(), lword))
       {
         bool match = word[ti.getPos()]->setChunkPart(attr_items[ti.getContent()], evalString(rightSide));
         if(!match && trace)
-- 
2.43.0


From 56ad8b6f740856fc613e55edddf7dbf24a832a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:27 +0000
Subject: [PATCH 104/106] fix: discard-on-ambiguity rules of a tag set are kept
 and drop every matching analysis

---
 apertium/tagger_data.cc |  1 +
 apertium/tagger_word.cc | 31 ++++++++-----------------------
 2 files changed, 9 insertions(+), 23 deletions(-)

diff --git a/apertium/tagger_data.cc b/apertium/tagger_data.cc
index 0eb93ec..ec83d9b 100644
--- a/apertium/tagger_data.cc
+++ b/apertium/tagger_data.cc
@@ -31,6 +31,7 @@ TaggerData::copy(TaggerData const &o)
   constants = o.constants;
   output = o.output;
   plist = o.plist;
+  discard = o.discard;
 }
 
 TaggerData::TaggerData()
diff --git a/apertium/tagger_word.cc b/apertium/tagger_word.cc
index 39f1963..055b183 100644
--- a/apertium/tagger_word.cc
+++ b/apertium/tagger_word.cc
@@ -342,33 +342,18 @@ TaggerWord::outputOriginal(UFILE *output) {
 void
 TaggerWord::discardOnAmbiguity(UString const &tags)
 {
-  if(isAmbiguous())
+  map<TTag, UString>::iterator it = lexical_forms.begin();
+  // one lexical form always remains
+  while(it != lexical_forms.end() && lexical_forms.size() > 1)
   {
-    map<TTag, UString>::iterator it = lexical_forms.begin(),
-                              limit = lexical_forms.end();
-    set<TTag> newsettag;
-    while(it != limit)
+    if(match(it->second, tags))
     {
-      if(match(it->second, tags))
-      {
-        lexical_forms.erase(it);
-        it = lexical_forms.begin();
-      }
-      else
-      {
-        newsettag.insert(it->first);
-      }
-
-      if(lexical_forms.size() == 1)
-      {
-        newsettag.insert(lexical_forms.begin()->first);
-        break;
-      }
-      it++;
+      this->tags.erase(it->first);
+      it = lexical_forms.erase(it);
     }
-    if(tags.size() != newsettag.size())
+    else
     {
-      this->tags = newsettag;
+      it++;
     }
   }
 }
-- 
2.43.0


From 28f06e81db0cba84d5644daac5fc34d0ba3f855d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:26 +0000
Subject: [PATCH 105/106] fix: wblank-attach: trim after an escaped backslash

---
 apertium/wblank-attach.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/apertium/wblank-attach.cc b/apertium/wblank-attach.cc
index fccca0c..901c06e 100644
--- a/apertium/wblank-attach.cc
+++ b/apertium/wblank-attach.cc
@@ -23,9 +23,17 @@
 #include <array>
 
 void trim_wb(std::string& wb) {
-	while (!wb.empty() && (wb.back() == ';' || wb.back() == ' ') && (wb.size() < 2 || wb[wb.size() - 2] != '\\')) {
-		wb.pop_back();
+	size_t end = 0;
+	for (size_t i = 0; i < wb.size(); ++i) {
+		if (wb[i] == '\\') {
+			++i; // what is escaped is kept
+			end = i + 1;
+		}
+		else if (wb[i] != ';' && wb[i] != ' ') {
+			end = i + 1;
+		}
 	}
+	wb.erase(std::min(end, wb.size()));
 	size_t h = 0;
 	for (; h < wb.size() && (wb[h] == ';' || wb[h] == ' '); ++h) {
 	}
-- 
2.43.0


From e7d32b556d71d218d036928efb5e3eda366f9acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:43 +0000
Subject: [PATCH 106/106] fix: coarse taggers report an input file they cannot
 open

---
 apertium/file_morpho_stream.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apertium/file_morpho_stream.cc b/apertium/file_morpho_stream.cc
index 6293a76..1684009 100644
--- a/apertium/file_morpho_stream.cc
+++ b/apertium/file_morpho_stream.cc
@@ -32,7 +32,7 @@ FileMorphoStream::FileMorphoStream(const char* ftxt, bool d, TaggerData *t) :
   td = t;
   me = td->getPatternList().newMatchExe();
   alphabet = td->getPatternList().getAlphabet();
-  input.open(ftxt);
+  input.open_or_exit(ftxt);
   ca_any_char = alphabet(PatternList::ANY_CHAR);
   ca_any_tag = alphabet(PatternList::ANY_TAG);
 
-- 
2.43.0

