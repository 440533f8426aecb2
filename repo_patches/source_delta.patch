From b828d85eaf65016e95eefba8c016d8c20ecfcdfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:19 +0000
Subject: [PATCH 01/44] fix: ignore JSON-LD values of unexpected type instead
 of panicking

---
 readability.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/readability.go b/readability.go
index 1045860..625fd93 100644
--- a/readability.go
+++ b/readability.go
@@ -1329,7 +1329,8 @@ func (r *Readability) getJSONLD(doc *Node) *metadata {
 			}
 
 			ctx, ctxFound := parsed["@context"]
-			if !ctxFound || !schemaUrl.MatchString(ctx.(string)) {
+			ctxStr, ctxIsStr := ctx.(string)
+			if !ctxFound || !ctxIsStr || !schemaUrl.MatchString(ctxStr) {
 				continue
 			}
 
@@ -1354,7 +1355,8 @@ func (r *Readability) getJSONLD(doc *Node) *metadata {
 				}
 			}
 
-			if parsed == nil || parsed["@type"] == nil || !jsonLdArticleTypes.MatchString(parsed["@type"].(string)) {
+			typeStr, typeIsStr := parsed["@type"].(string)
+			if !typeIsStr || !jsonLdArticleTypes.MatchString(typeStr) {
 				continue
 			}
 
@@ -1402,8 +1404,10 @@ func (r *Readability) getJSONLD(doc *Node) *metadata {
 								if _, isStr := authorName.(string); isStr {
 									var authorNames []string
 									for _, a := range authors {
-										n := a.(map[string]interface{})["name"].(string)
-										authorNames = append(authorNames, strings.TrimSpace(n))
+										obj, _ := a.(map[string]interface{})
+										if n, isStr := obj["name"].(string); isStr {
+											authorNames = append(authorNames, strings.TrimSpace(n))
+										}
 									}
 									meta.byline = strings.Join(authorNames, ", ")
 								}
-- 
2.43.0


From ca160bf1637d2bee58a115920226b7b4e4c77d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:26 +0000
Subject: [PATCH 02/44] fix: do not panic on a style declaration without a
 value

---
 domparser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/domparser.go b/domparser.go
index b1e5d88..a503681 100644
--- a/domparser.go
+++ b/domparser.go
@@ -807,7 +807,7 @@ func (s *style) getStyle(jsName string) string {
 	for i := 0; i < len(styles); i++ {
 		var style = strings.Split(styles[i], ":")
 		var name = strings.TrimSpace(style[0])
-		if name == cssName {
+		if name == cssName && len(style) > 1 {
 			return strings.TrimSpace(style[1])
 		}
 	}
-- 
2.43.0


From a48bfa351c39807274a3f1538b316e6f2c2c2de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:32 +0000
Subject: [PATCH 03/44] fix: do not panic on a blank URL attribute

---
 readability.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/readability.go b/readability.go
index 625fd93..dee7386 100644
--- a/readability.go
+++ b/readability.go
@@ -269,7 +269,7 @@ func (r *Readability) fixRelativeUris(articleContent *Node) {
 	var toAbsoluteURI = func(uri string) string {
 		uri = strings.TrimSpace(uri)
 		// Leave hash links alone if the base URI matches the document URI:
-		if baseURI == documentURI && []rune(uri)[0] == '#' {
+		if baseURI == documentURI && strings.HasPrefix(uri, "#") {
 			return uri
 		}
 		base, err := url.Parse(baseURI)
-- 
2.43.0


From 957d916e6754dc83ee63bdcc00acbdf89209706a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:39 +0000
Subject: [PATCH 04/44] fix: do not panic when retrying after the root element
 was dropped

---
 readability.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/readability.go b/readability.go
index dee7386..5681598 100644
--- a/readability.go
+++ b/readability.go
@@ -720,8 +720,11 @@ func (r *Readability) initializeNode(n *Node) {
 
 func (r *Readability) removeAndGetNext(n *Node) *Node {
 	var nextNode = r.getNextNode(n, true)
-	if _, err := n.ParentNode.RemoveChild(n); err != nil {
-		slog.Error("cannot remove child", slog.String("err", err.Error()))
+	// The node may already be detached, e.g. a root element dropped by a previous attempt.
+	if n.ParentNode != nil {
+		if _, err := n.ParentNode.RemoveChild(n); err != nil {
+			slog.Error("cannot remove child", slog.String("err", err.Error()))
+		}
 	}
 	return nextNode
 }
-- 
2.43.0


From c1703d8a3626899564307e4d59fa23b8017eea95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:46 +0000
Subject: [PATCH 05/44] fix: do not panic when no allowed video pattern is
 configured

---
 readability.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/readability.go b/readability.go
index 5681598..4c24ea5 100644
--- a/readability.go
+++ b/readability.go
@@ -1782,13 +1782,13 @@ func (r *Readability) clean(e *Node, tag string) {
 		if isEmbed {
 			// First, check the elements attributes to see if any of them contain youtube or vimeo
 			for i := 0; i < len(element.Attributes); i++ {
-				if r.options.allowedVideoRegex.MatchString(element.Attributes[i].getValue()) {
+				if r.options.allowedVideoRegex != nil && r.options.allowedVideoRegex.MatchString(element.Attributes[i].getValue()) {
 					return false
 				}
 			}
 
 			// For embed with <object> tag, check inner HTML as well.
-			if element.TagName == "object" && r.options.allowedVideoRegex.MatchString(element.GetInnerHTML()) {
+			if element.TagName == "object" && r.options.allowedVideoRegex != nil && r.options.allowedVideoRegex.MatchString(element.GetInnerHTML()) {
 				return false
 			}
 		}
-- 
2.43.0


From 14b0fcce4c8dc52b9e5605adbc3b287e0b56552d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:52 +0000
Subject: [PATCH 06/44] fix: do not panic on a data URL with an upper case
 base64 marker

---
 regexps.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regexps.go b/regexps.go
index 34c0b95..1a2112e 100644
--- a/regexps.go
+++ b/regexps.go
@@ -48,7 +48,7 @@ var (
 	// name is a single value
 	namePattern                   = regexp.MustCompile(`(?i)^\s*(?:(dc|dcterm|og|twitter|weibo:(article|webpage))\s*[\.:]\s*)?(author|creator|description|title|site_name)\s*$`)
 	imgExtensions                 = regexp.MustCompile(`\.(jpg|jpeg|png|webp)`)
-	base64Starts                  = regexp.MustCompile(`base64\s*`)
+	base64Starts                  = regexp.MustCompile(`(?i)base64\s*`)
 	imgExtensionsWithSpacesAndNum = regexp.MustCompile(`\.(jpg|jpeg|png|webp)\s+\d`)
 	imgExtensionsAmongText        = regexp.MustCompile(`^\s*\S+\.(jpg|jpeg|png|webp)\S*\s*$`)
 )
-- 
2.43.0


From 9829aaa446d1143fc914f5a254c50b64809e3d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:22 +0000
Subject: [PATCH 07/44] fix: do not panic when the best candidate lies outside
 the body

---
 readability.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/readability.go b/readability.go
index 4c24ea5..f1b9c9c 100644
--- a/readability.go
+++ b/readability.go
@@ -1075,7 +1075,7 @@ func (r *Readability) grabArticle(page *Node) *Node {
 			var MINIMUM_TOPCANDIDATES = 3
 			if len(alternativeCandidateAncestors) >= MINIMUM_TOPCANDIDATES {
 				parentOfTopCandidate = topCandidate.ParentNode
-				for parentOfTopCandidate.TagName != "BODY" {
+				for !isOutermost(parentOfTopCandidate) {
 					var listsContainingThisAncestor = 0
 					for ancestorIndex := 0; ancestorIndex < len(alternativeCandidateAncestors) && listsContainingThisAncestor < MINIMUM_TOPCANDIDATES; ancestorIndex++ {
 						includes := slices.ContainsFunc(alternativeCandidateAncestors[ancestorIndex], func(n *Node) bool {
@@ -1107,7 +1107,7 @@ func (r *Readability) grabArticle(page *Node) *Node {
 			var lastScore = topCandidate.ReadabilityNode.ContentScore
 			// The scores shouldn't get too low.
 			var scoreThreshold = lastScore / 3
-			for parentOfTopCandidate.TagName != "BODY" {
+			for !isOutermost(parentOfTopCandidate) {
 				if parentOfTopCandidate.ReadabilityNode == nil {
 					parentOfTopCandidate = parentOfTopCandidate.ParentNode
 					continue
@@ -1129,7 +1129,7 @@ func (r *Readability) grabArticle(page *Node) *Node {
 			// If the top candidate is the only child, use parent instead. This will help sibling
 			// joining logic when adjacent content is actually located in parent's sibling node.
 			parentOfTopCandidate = topCandidate.ParentNode
-			for parentOfTopCandidate.TagName != "BODY" && len(parentOfTopCandidate.Children) == 1 {
+			for !isOutermost(parentOfTopCandidate) && len(parentOfTopCandidate.Children) == 1 {
 				topCandidate = parentOfTopCandidate
 				parentOfTopCandidate = topCandidate.ParentNode
 			}
@@ -1284,6 +1284,12 @@ func (r *Readability) grabArticle(page *Node) *Node {
 	}
 }
 
+// Tells whether there is no point in looking for candidates above the given node,
+// which happens at the body or, for content placed outside of it, at the root of the tree.
+func isOutermost(n *Node) bool {
+	return n.TagName == "BODY" || n.TagName == "HTML" || n.ParentNode == nil
+}
+
 // Check whether the input string could be a byline.
 // This verifies that the input is a string, and that the length
 // is less than 100 chars.
-- 
2.43.0


From d165cf78ab6b9ec6f23264abbb27c88e46a7d2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:29 +0000
Subject: [PATCH 08/44] fix: resolve relative and non-http URLs without
 breaking percent-encoded or host parts

---
 readability.go | 23 ++++++++---------------
 regexps.go     |  1 -
 2 files changed, 8 insertions(+), 16 deletions(-)

diff --git a/readability.go b/readability.go
index f1b9c9c..76cbb39 100644
--- a/readability.go
+++ b/readability.go
@@ -286,7 +286,7 @@ func (r *Readability) fixRelativeUris(articleContent *Node) {
 		var abs string
 		if u.Scheme != "" {
 			abs += u.Scheme
-			if strings.HasPrefix(u.Scheme, "http") {
+			if strings.HasPrefix(u.Scheme, "http") || u.Host != "" {
 				abs += "://"
 			} else {
 				abs += ":"
@@ -294,26 +294,23 @@ func (r *Readability) fixRelativeUris(articleContent *Node) {
 		}
 		abs += strings.ToLower(u.Host)
 
-		var b, a string
+		var b string
 		if strings.Contains(uri, "?") {
 			before, _, _ := strings.Cut(uri, "?")
 			b = before
 		} else if strings.Contains(uri, "#") {
-			before, after, _ := strings.Cut(uri, "#")
+			before, _, _ := strings.Cut(uri, "#")
 			b = before
-			a = after
 		} else {
 			b = uri
 		}
 
 		if u.Path != "" {
 			p := u.Path
-			if strings.Contains(uri, "%") {
-				if strings.HasPrefix(uri, "//") {
-					p = doubleForwardSlashes.ReplaceAllString(b, "")
-				} else {
-					p = strings.ReplaceAll(b, abs, "")
-				}
+			if u.Host != "" {
+				p = u.EscapedPath()
+			} else if strings.Contains(uri, "%") {
+				p = strings.ReplaceAll(b, abs, "")
 			}
 			abs += strings.ReplaceAll(p, "/C|/", "/C:/")
 		} else if u.Opaque != "" {
@@ -325,11 +322,7 @@ func (r *Readability) fixRelativeUris(articleContent *Node) {
 			abs += "?" + u.RawQuery
 		}
 		if u.Fragment != "" {
-			if strings.Contains(a, "%") {
-				abs += "#" + a
-			} else {
-				abs += "#" + u.Fragment
-			}
+			abs += "#" + u.EscapedFragment()
 		}
 		if strings.HasSuffix(uri, "#") && !strings.HasSuffix(abs, "#") {
 			abs += "#"
diff --git a/regexps.go b/regexps.go
index 1a2112e..938c8ae 100644
--- a/regexps.go
+++ b/regexps.go
@@ -38,7 +38,6 @@ var (
 	// https://www.dcs.bbk.ac.uk/~ptw/teaching/DBM/XML/slide17.html
 	entityReferencesRgx  = regexp.MustCompile(`&(quot|amp|apos|lt|gt);`)
 	htmlCharCodesRgx     = regexp.MustCompile(`(?i)&#(?:x([0-9a-fA-F]{1,4})|([0-9]{1,5}));`)
-	doubleForwardSlashes = regexp.MustCompile(`//[^/]+`)
 	separators           = regexp.MustCompile(`[\|\-\\\/>»]+`)
 	dotSpaceOrDollar     = regexp.MustCompile(`\.( |$)`)
 	cdata                = regexp.MustCompile(`^\s*<!\[CDATA\[|\]\]>\s*$`)
-- 
2.43.0


From a59025187888c62022d6eb66493513c6de7c0d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:36 +0000
Subject: [PATCH 09/44] fix: recognise javascript: links the way browsers do

---
 readability.go |  2 +-
 regexps.go     | 13 +++++++------
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/readability.go b/readability.go
index 76cbb39..5dfbdb6 100644
--- a/readability.go
+++ b/readability.go
@@ -339,7 +339,7 @@ func (r *Readability) fixRelativeUris(articleContent *Node) {
 		if href != "" {
 			// Remove links with javascript: URIs, since
 			// they won't work after scripts have been removed from the page.
-			if strings.HasPrefix(href, "javascript:") {
+			if javascriptUri.MatchString(href) {
 				// if the link only contains simple text content, it can be converted to a text node
 				if len(link.ChildNodes) == 1 && link.ChildNodes[0].NodeType == textNode {
 					var text = r.doc.createTextNode(link.GetTextContent())
diff --git a/regexps.go b/regexps.go
index 938c8ae..4b120e9 100644
--- a/regexps.go
+++ b/regexps.go
@@ -36,12 +36,13 @@ var (
 	singleWhitespace     = regexp.MustCompile(`\s`)
 	singleDot            = regexp.MustCompile(`\.`)
 	// https://www.dcs.bbk.ac.uk/~ptw/teaching/DBM/XML/slide17.html
-	entityReferencesRgx  = regexp.MustCompile(`&(quot|amp|apos|lt|gt);`)
-	htmlCharCodesRgx     = regexp.MustCompile(`(?i)&#(?:x([0-9a-fA-F]{1,4})|([0-9]{1,5}));`)
-	separators           = regexp.MustCompile(`[\|\-\\\/>»]+`)
-	dotSpaceOrDollar     = regexp.MustCompile(`\.( |$)`)
-	cdata                = regexp.MustCompile(`^\s*<!\[CDATA\[|\]\]>\s*$`)
-	schemaUrl            = regexp.MustCompile(`^https?\:\/\/schema\.org\/?$`)
+	entityReferencesRgx = regexp.MustCompile(`&(quot|amp|apos|lt|gt);`)
+	htmlCharCodesRgx    = regexp.MustCompile(`(?i)&#(?:x([0-9a-fA-F]{1,4})|([0-9]{1,5}));`)
+	separators          = regexp.MustCompile(`[\|\-\\\/>»]+`)
+	dotSpaceOrDollar    = regexp.MustCompile(`\.( |$)`)
+	cdata               = regexp.MustCompile(`^\s*<!\[CDATA\[|\]\]>\s*$`)
+	javascriptUri       = regexp.MustCompile(`(?i)^[\x00-\x20]*j[\t\n\r]*a[\t\n\r]*v[\t\n\r]*a[\t\n\r]*s[\t\n\r]*c[\t\n\r]*r[\t\n\r]*i[\t\n\r]*p[\t\n\r]*t[\t\n\r]*:`)
+	schemaUrl           = regexp.MustCompile(`^https?\:\/\/schema\.org\/?$`)
 	// property is a space-separated list of values
 	propertyPattern = regexp.MustCompile(`(?i)\s*(article|dc|dcterm|og|twitter)\s*:\s*(author|creator|description|published_time|title|site_name)\s*`)
 	// name is a single value
-- 
2.43.0


From d490a6c14a18b6395cec7c7c8c08558a9e70b798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:59 +0000
Subject: [PATCH 10/44] fix: keep text starting with '<' and never let text
 turn into markup

---
 domparser.go | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/domparser.go b/domparser.go
index a503681..4fe4d06 100644
--- a/domparser.go
+++ b/domparser.go
@@ -34,7 +34,6 @@ import (
 	"slices"
 	"strconv"
 	"strings"
-	"unicode/utf8"
 
 	"golang.org/x/net/html"
 )
@@ -1069,22 +1068,20 @@ loop:
 			{
 				textNode := newText()
 
-				data := p.z.Raw()
-				c, _ := utf8.DecodeRune(data)
-				txt := string(data)
+				txt := string(p.z.Raw())
 
-				if c != '<' {
-					textNode.SetInnerHTML(txt)
+				if !strings.HasPrefix(txt, "<![CDATA[") {
+					// A literal '<' is text here (e.g. in "a < b" or within a raw text
+					// element), it must not turn into markup once serialized.
+					textNode.SetInnerHTML(strings.ReplaceAll(txt, "<", "&lt;"))
 					n.AppendChild(textNode)
-				} else if strings.HasPrefix(txt, "<![CDATA[") {
+				} else {
 					s := strings.Index(txt, "<![CDATA[")
 					e := strings.Index(txt, "]]>")
 					if s != -1 && e != -1 {
 						textNode.SetTextContent(txt[s+len("<![CDATA[") : e])
 						n.AppendChild(textNode)
 					}
-				} else {
-					slog.Debug("unhandled text", slog.String("txt", txt))
 				}
 			}
 
-- 
2.43.0


From 1254aed7a54579d9d24c6df57c32f879fbfbf786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:06 +0000
Subject: [PATCH 11/44] fix: close elements whose tag name carries a namespace
 prefix

---
 domparser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/domparser.go b/domparser.go
index 4fe4d06..d2db859 100644
--- a/domparser.go
+++ b/domparser.go
@@ -1119,7 +1119,7 @@ loop:
 			}
 
 		case html.EndTagToken:
-			if n.LocalName == p.z.Token().Data {
+			if n.matchingTag == p.z.Token().Data {
 				break loop
 			}
 		}
-- 
2.43.0


From 264dc6224896daae17702613bab9ca20222d5863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:12 +0000
Subject: [PATCH 12/44] fix: drop the first part of a title whose remainder is
 too short

---
 readability.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/readability.go b/readability.go
index 5dfbdb6..e95c3d3 100644
--- a/readability.go
+++ b/readability.go
@@ -446,9 +446,7 @@ func (r *Readability) getArticleTitle() string {
 		// If the resulting title is too short (3 words or fewer), remove
 		// the first part instead:
 		if wordCount(curTitle) < 3 {
-			curTitle = titleFirstPart.ReplaceAllStringFunc(origTitle, func(s string) string {
-				return s
-			})
+			curTitle = titleFirstPart.ReplaceAllString(origTitle, "$1")
 		}
 	} else if strings.Contains(curTitle, ": ") {
 		// Check if we have an heading containing this exact string, so we
-- 
2.43.0


From f7afce4d1273c8f937b9d596091faf69f4f5f731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:19 +0000
Subject: [PATCH 13/44] fix: compare the char threshold with characters, not
 bytes

---
 readability.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/readability.go b/readability.go
index e95c3d3..4534d5a 100644
--- a/readability.go
+++ b/readability.go
@@ -1226,7 +1226,7 @@ func (r *Readability) grabArticle(page *Node) *Node {
 		// grabArticle with different flags set. This gives us a higher likelihood of
 		// finding the content, and the sieve approach gives us a higher likelihood of
 		// finding the -right- content.
-		var textLength = len(r.getInnerText(articleContent, true))
+		var textLength = len([]rune(r.getInnerText(articleContent, true)))
 		if textLength < r.options.charThreshold {
 			parseSuccessful = false
 			page.SetInnerHTML(pageCacheHtml)
-- 
2.43.0


From 1a4d0e8543f90fc817348ca77357505139486939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:26 +0000
Subject: [PATCH 14/44] fix: ignore whitespace between all the <br> elements of
 a chain

---
 readability.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/readability.go b/readability.go
index 4534d5a..1d25805 100644
--- a/readability.go
+++ b/readability.go
@@ -540,7 +540,7 @@ func (r *Readability) replaceBrs(n *Node) {
 		// If we find a <br> chain, remove the <br>s until we hit another node
 		// or non-whitespace. This leaves behind the first <br> in the chain
 		// (which will be replaced with a <p> later).
-		for next = r.nextNode(next); next != nil && next.TagName == "BR"; {
+		for next = r.nextNode(next); next != nil && next.TagName == "BR"; next = r.nextNode(next) {
 			replaced = true
 			var brSibling = next.NextSibling
 			if _, err := next.ParentNode.RemoveChild(next); err != nil {
-- 
2.43.0


From 15b7c1d42512dac43f8245e18549ad80aa97e4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:33 +0000
Subject: [PATCH 15/44] fix: look for allowed videos inside <object> elements

---
 readability.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/readability.go b/readability.go
index 1d25805..bcf02a4 100644
--- a/readability.go
+++ b/readability.go
@@ -1785,7 +1785,7 @@ func (r *Readability) clean(e *Node, tag string) {
 			}
 
 			// For embed with <object> tag, check inner HTML as well.
-			if element.TagName == "object" && r.options.allowedVideoRegex != nil && r.options.allowedVideoRegex.MatchString(element.GetInnerHTML()) {
+			if element.TagName == "OBJECT" && r.options.allowedVideoRegex != nil && r.options.allowedVideoRegex.MatchString(element.GetInnerHTML()) {
 				return false
 			}
 		}
@@ -2077,7 +2077,7 @@ func (r *Readability) cleanConditionally(e *Node, tag string) {
 				}
 
 				// For embed with <object> tag, check inner HTML as well.
-				if embeds[i].TagName == "object" && r.options.allowedVideoRegex != nil && r.options.allowedVideoRegex.MatchString(embeds[i].GetInnerHTML()) {
+				if embeds[i].TagName == "OBJECT" && r.options.allowedVideoRegex != nil && r.options.allowedVideoRegex.MatchString(embeds[i].GetInnerHTML()) {
 					return false
 				}
 
-- 
2.43.0


From 449cbbc0af9c31bfa5e939fa75b05c51faec264c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:59 +0000
Subject: [PATCH 16/44] fix: leave hidden nodes out when deciding if a document
 is readerable

---
 readerable.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/readerable.go b/readerable.go
index 0b80443..381c7b7 100644
--- a/readerable.go
+++ b/readerable.go
@@ -32,13 +32,22 @@ import (
 
 func isNodeVisible(node *html.Node) bool {
 	// Have to null-check node.style and node.className.indexOf to deal with SVG and MathML nodes.
-	style := attr(node, "style")
-	return (style == "" || !slices.Contains(strings.Split(";", style), "display=none")) &&
-		(style == "" || !slices.Contains(strings.Split(";", style), "visibility=hidden")) &&
-		attr(node, "hidden") == "" &&
+	return styleOf(node, "display") != "none" &&
+		styleOf(node, "visibility") != "hidden" &&
+		!slices.ContainsFunc(node.Attr, func(a html.Attribute) bool { return a.Key == "hidden" }) &&
 		(attr(node, "aria-hidden") == "" || attr(node, "aria-hidden") != "true" || (attr(node, "class") != "" && strings.Contains(attr(node, "class"), "fallback-image")))
 }
 
+// Returns the value of the given CSS property in the inline style of the node, if any.
+func styleOf(node *html.Node, property string) string {
+	for _, declaration := range strings.Split(attr(node, "style"), ";") {
+		if name, value, _ := strings.Cut(declaration, ":"); strings.TrimSpace(name) == property {
+			return strings.TrimSpace(value)
+		}
+	}
+	return ""
+}
+
 // Decides whether or not the document is reader-able without parsing the whole thing.
 // Options:
 //   - options.minContentLength (default 140), the minimum node content length used to decide if the document is readerable
-- 
2.43.0


From 1038f1faa67f5ec165a52ef09cd8b9ae309f8f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:05 +0000
Subject: [PATCH 17/44] fix: leave list items out when deciding if a document
 is readerable

---
 util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util.go b/util.go
index 4e0cbe5..e45e1fa 100644
--- a/util.go
+++ b/util.go
@@ -48,7 +48,7 @@ func matches(n *html.Node, query string) bool {
 	if err != nil {
 		return false
 	}
-	return cascadia.Query(n, sel) != nil
+	return sel.Match(n)
 }
 
 func attr(n *html.Node, attrName string) string {
-- 
2.43.0


From 65915b0a39eeb963be27d64f9937240f9ad85ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:12 +0000
Subject: [PATCH 18/44] fix: count a <div> with several <br> once when deciding
 if a document is readerable

---
 readerable.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/readerable.go b/readerable.go
index 381c7b7..663a09c 100644
--- a/readerable.go
+++ b/readerable.go
@@ -77,7 +77,9 @@ func IsProbablyReaderable(htmlSource string, opts ...Option) bool {
 	if len(brNodes) != 0 {
 		var set []*html.Node
 		for _, n := range brNodes {
-			set = append(set, n.Parent)
+			if !slices.Contains(set, n.Parent) {
+				set = append(set, n.Parent)
+			}
 		}
 		nodes = append(nodes, set...)
 	}
-- 
2.43.0


From fd17ec54edf790eb0f3a948a5e907f02998c5553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:18 +0000
Subject: [PATCH 19/44] fix: measure the content length in characters when
 deciding if a document is readerable

---
 readerable.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/readerable.go b/readerable.go
index 663a09c..676af97 100644
--- a/readerable.go
+++ b/readerable.go
@@ -102,7 +102,7 @@ func IsProbablyReaderable(htmlSource string, opts ...Option) bool {
 			return false
 		}
 
-		var textContentLength = len(strings.TrimSpace(textContent(n)))
+		var textContentLength = len([]rune(strings.TrimSpace(textContent(n))))
 		if textContentLength < options.minContentLength {
 			return false
 		}
-- 
2.43.0


From b6901899170b7fc35710dd696da3cdfae469fc38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:25 +0000
Subject: [PATCH 20/44] fix: keep the separators between the candidates of a
 srcset

---
 readability.go | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/readability.go b/readability.go
index bcf02a4..ab65a5c 100644
--- a/readability.go
+++ b/readability.go
@@ -381,16 +381,10 @@ func (r *Readability) fixRelativeUris(articleContent *Node) {
 		}
 		var srcset = media.GetAttribute("srcset")
 		if srcset != "" {
-			submatches := srcsetUrl.FindAllStringSubmatch(srcset, -1)
-			var newSrcset []string
-			for _, submatch := range submatches {
-				newSrcset = append(newSrcset, toAbsoluteURI(submatch[1])+submatch[2]+submatch[3])
-			}
-			if !strings.Contains(srcset, ", ") {
-				media.SetAttribute("srcset", strings.Join(newSrcset, ""))
-			} else {
-				media.SetAttribute("srcset", strings.Join(newSrcset, " "))
-			}
+			media.SetAttribute("srcset", srcsetUrl.ReplaceAllStringFunc(srcset, func(candidate string) string {
+				submatch := srcsetUrl.FindStringSubmatch(candidate)
+				return toAbsoluteURI(submatch[1]) + submatch[2] + submatch[3]
+			}))
 		}
 	}
 }
-- 
2.43.0


From ddd64f5fa36abfba10741bd16815d2c2acb6a957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:54 +0000
Subject: [PATCH 21/44] fix: do not decode character references twice

---
 domparser.go | 38 +++++++++++++++++---------------------
 regexps.go   |  1 +
 2 files changed, 18 insertions(+), 21 deletions(-)

diff --git a/domparser.go b/domparser.go
index d2db859..eaac2bf 100644
--- a/domparser.go
+++ b/domparser.go
@@ -72,28 +72,24 @@ func encodeHTML(text string) string {
 
 func decodeHTML(s string) (string, error) {
 
-	s = entityReferencesRgx.ReplaceAllStringFunc(s, func(s string) string {
-		return string([]rune(entityReplacer.Replace(s))[1])
-	})
-
-	submatches := htmlCharCodesRgx.FindAllStringSubmatch(s, -1)
-	for _, submatch := range submatches {
-		if len(submatch) == 3 {
-			hex, dec := submatch[1], submatch[2]
-			if hex != "" {
-				codePoint, err := strconv.ParseInt(hex, 16, 64)
-				if err != nil {
-					return "", err
-				}
-				s = strings.ReplaceAll(s, submatch[0], string(rune(codePoint)))
-			} else if dec != "" {
-				codePoint, err := strconv.ParseInt(dec, 10, 64)
-				if err != nil {
-					return "", err
-				}
-				s = strings.ReplaceAll(s, submatch[0], string(rune(codePoint)))
-			}
+	var err error
+	// Decode everything in one pass, so that the outcome of a reference is never taken for another one.
+	s = referencesRgx.ReplaceAllStringFunc(s, func(ref string) string {
+		submatch := referencesRgx.FindStringSubmatch(ref)
+		digits, base := submatch[3], 10
+		if submatch[1] != "" {
+			return string([]rune(entityReplacer.Replace(ref))[1])
+		} else if submatch[2] != "" {
+			digits, base = submatch[2], 16
 		}
+		codePoint, parseErr := strconv.ParseInt(digits, base, 64)
+		if parseErr != nil {
+			err = parseErr
+		}
+		return string(rune(codePoint))
+	})
+	if err != nil {
+		return "", err
 	}
 	return s, nil
 }
diff --git a/regexps.go b/regexps.go
index 4b120e9..5eca073 100644
--- a/regexps.go
+++ b/regexps.go
@@ -42,6 +42,7 @@ var (
 	dotSpaceOrDollar    = regexp.MustCompile(`\.( |$)`)
 	cdata               = regexp.MustCompile(`^\s*<!\[CDATA\[|\]\]>\s*$`)
 	javascriptUri       = regexp.MustCompile(`(?i)^[\x00-\x20]*j[\t\n\r]*a[\t\n\r]*v[\t\n\r]*a[\t\n\r]*s[\t\n\r]*c[\t\n\r]*r[\t\n\r]*i[\t\n\r]*p[\t\n\r]*t[\t\n\r]*:`)
+	referencesRgx       = regexp.MustCompile(entityReferencesRgx.String() + "|" + htmlCharCodesRgx.String())
 	schemaUrl           = regexp.MustCompile(`^https?\:\/\/schema\.org\/?$`)
 	// property is a space-separated list of values
 	propertyPattern = regexp.MustCompile(`(?i)\s*(article|dc|dcterm|og|twitter)\s*:\s*(author|creator|description|published_time|title|site_name)\s*`)
-- 
2.43.0


From 120791b5cfe73fc5c1eb5fb0ca66d5f332f49e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:01 +0000
Subject: [PATCH 22/44] fix: keep the tree consistent when a node is replaced
 with one of its siblings

---
 domparser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/domparser.go b/domparser.go
index eaac2bf..89f2a28 100644
--- a/domparser.go
+++ b/domparser.go
@@ -481,6 +481,8 @@ func (n *Node) ReplaceChild(newNode, oldNode *Node) *Node {
 	childIndex := indexOf(oldNode, childNodes)
 	if childIndex == -1 {
 		panic("removeChild: node not found")
+	} else if newNode == oldNode {
+		return oldNode
 	} else {
 		// This will take care of updating the new node if it was somewhere else before:
 		if newNode.ParentNode != nil {
@@ -488,6 +490,9 @@ func (n *Node) ReplaceChild(newNode, oldNode *Node) *Node {
 				slog.Error("cannot remove child", slog.String("err", err.Error()))
 			}
 		}
+		// The new node may have been a sibling of the old one:
+		childNodes = n.ChildNodes
+		childIndex = indexOf(oldNode, childNodes)
 		childNodes[childIndex] = newNode
 
 		// update the new node's sibling properties, and its new siblings' sibling properties
-- 
2.43.0


From 5238379dc64c2bdf9c0ae0c8620f0a49ac6c6b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:46 +0000
Subject: [PATCH 23/44] fix: do not recurse endlessly on an empty text node

---
 domparser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/domparser.go b/domparser.go
index 89f2a28..b0a917b 100644
--- a/domparser.go
+++ b/domparser.go
@@ -628,7 +628,7 @@ func newText() *Node {
 
 func (t *Node) getTextContentFromTextNode() string {
 	if t.textContent == "" {
-		decoded, err := decodeHTML(t.GetInnerHTML())
+		decoded, err := decodeHTML(t.innerHTML)
 		if err != nil {
 			slog.Error("cannot decode inner html", "err", err)
 			return ""
@@ -640,7 +640,7 @@ func (t *Node) getTextContentFromTextNode() string {
 
 func (t *Node) getInnerHTMLFromTextNode() string {
 	if t.innerHTML == "" {
-		t.innerHTML = encodeTextContentHTML(t.GetTextContent())
+		t.innerHTML = encodeTextContentHTML(t.textContent)
 	}
 	return t.innerHTML
 }
-- 
2.43.0


From f6f8b84ab054f43d5488d98a0f587bcd35026449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:53 +0000
Subject: [PATCH 24/44] fix: clear the sibling relations of children dropped by
 SetInnerHTML and SetTextContent

---
 domparser.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/domparser.go b/domparser.go
index b0a917b..86fc2c6 100644
--- a/domparser.go
+++ b/domparser.go
@@ -476,6 +476,13 @@ func (n *Node) RemoveChild(child *Node) (*Node, error) {
 	}
 }
 
+// Clears the relations of a node which is not in the tree anymore.
+func (n *Node) detach() {
+	n.ParentNode = nil
+	n.PreviousSibling, n.NextSibling = nil, nil
+	n.PreviousElementSibling, n.NextElementSibling = nil, nil
+}
+
 func (n *Node) ReplaceChild(newNode, oldNode *Node) *Node {
 	childNodes := n.ChildNodes
 	childIndex := indexOf(oldNode, childNodes)
@@ -943,7 +950,7 @@ func (n *Node) SetInnerHTML(html string) {
 		var parser = newDOMParser()
 		var node = parser.parse(html, "")
 		for i := len(n.ChildNodes) - 1; i >= 0; i-- {
-			n.ChildNodes[i].ParentNode = nil
+			n.ChildNodes[i].detach()
 		}
 		n.ChildNodes = node.ChildNodes
 		n.Children = node.Children
@@ -963,7 +970,7 @@ func (n *Node) SetTextContent(text string) {
 	} else if n.NodeType == elementNode {
 		// clear parentNodes for existing children
 		for i := len(n.ChildNodes) - 1; i >= 0; i-- {
-			n.ChildNodes[i].ParentNode = nil
+			n.ChildNodes[i].detach()
 		}
 
 		var t = newText()
-- 
2.43.0


From 8034d00cdbdc9eeef1f074838d109597927fe037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:50 +0000
Subject: [PATCH 25/44] fix: keep a hierarchical title which lost only one word

---
 readability.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/readability.go b/readability.go
index ab65a5c..4d0ec9f 100644
--- a/readability.go
+++ b/readability.go
@@ -481,7 +481,7 @@ func (r *Readability) getArticleTitle() string {
 	// the original title.
 	var curTitleWordCount = wordCount(curTitle)
 	if curTitleWordCount <= 4 &&
-		(!titleHadHierarchicalSeparators || curTitleWordCount != wordCount(separators.ReplaceAllString(origTitle, ""))) {
+		(!titleHadHierarchicalSeparators || curTitleWordCount != wordCount(separators.ReplaceAllString(origTitle, ""))-1) {
 		curTitle = origTitle
 	}
 	return curTitle
-- 
2.43.0


From 1563830ea51c3097837913ed9f0288fdedbf4a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:56 +0000
Subject: [PATCH 26/44] fix: do not reconsider by size tables with a caption or
 a nested table

---
 readability.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/readability.go b/readability.go
index 4d0ec9f..94c3bfc 100644
--- a/readability.go
+++ b/readability.go
@@ -1878,6 +1878,7 @@ func (r *Readability) markDataTables(root *Node) {
 
 		if captions := table.getElementsByTagName("caption"); len(captions) > 0 && captions[0] != nil && len(captions[0].ChildNodes) > 0 {
 			table.ReadabilityDataTable = &readabilityDataTable{value: true}
+			continue
 		}
 
 		// If the table has a descendant with any of these tags, consider a data table:
@@ -1896,6 +1897,7 @@ func (r *Readability) markDataTables(root *Node) {
 		// Nested tables indicate a layout table:
 		if tables := table.getElementsByTagName("table"); len(tables) > 0 && tables[0] != nil {
 			table.ReadabilityDataTable = &readabilityDataTable{value: false}
+			continue
 		}
 
 		var rows, columns = r.getRowAndColumnCount(table)
-- 
2.43.0


From ee71fdf9f4cbdbe9eb3e62e2e795c461e64c24b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:02 +0000
Subject: [PATCH 27/44] fix: recognise image file extensions in any case

---
 regexps.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regexps.go b/regexps.go
index 5eca073..ffeaeda 100644
--- a/regexps.go
+++ b/regexps.go
@@ -48,7 +48,7 @@ var (
 	propertyPattern = regexp.MustCompile(`(?i)\s*(article|dc|dcterm|og|twitter)\s*:\s*(author|creator|description|published_time|title|site_name)\s*`)
 	// name is a single value
 	namePattern                   = regexp.MustCompile(`(?i)^\s*(?:(dc|dcterm|og|twitter|weibo:(article|webpage))\s*[\.:]\s*)?(author|creator|description|title|site_name)\s*$`)
-	imgExtensions                 = regexp.MustCompile(`\.(jpg|jpeg|png|webp)`)
+	imgExtensions                 = regexp.MustCompile(`(?i)\.(jpg|jpeg|png|webp)`)
 	base64Starts                  = regexp.MustCompile(`(?i)base64\s*`)
 	imgExtensionsWithSpacesAndNum = regexp.MustCompile(`\.(jpg|jpeg|png|webp)\s+\d`)
 	imgExtensionsAmongText        = regexp.MustCompile(`^\s*\S+\.(jpg|jpeg|png|webp)\S*\s*$`)
-- 
2.43.0


From 3319e1094d9264351665ef83bf2023dd293a49f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:31 +0000
Subject: [PATCH 28/44] fix: examine paragraphs unwrapped from a <div> like any
 other node

---
 readability.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/readability.go b/readability.go
index 94c3bfc..f6e2af1 100644
--- a/readability.go
+++ b/readability.go
@@ -924,8 +924,9 @@ func (r *Readability) grabArticle(page *Node) *Node {
 				if r.hasSingleTagInsideElement(n, "P") && r.getLinkDensity(n) < 0.25 {
 					var newNode = n.Children[0]
 					n.ParentNode.ReplaceChild(newNode, n)
+					// The paragraph has not been looked at yet, it might have to be removed.
 					n = newNode
-					elementsToScore = append(elementsToScore, n)
+					continue
 				} else if !r.hasChildBlockElement(n) {
 					n = r.setNodeTag(n, "P")
 					elementsToScore = append(elementsToScore, n)
-- 
2.43.0


From 9051b5729a979d0266b345ef985f45f00e2e8018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:03 +0000
Subject: [PATCH 29/44] fix: keep all nodes when setting inner HTML with a
 nested <html> element

---
 domparser.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/domparser.go b/domparser.go
index 86fc2c6..c4f348b 100644
--- a/domparser.go
+++ b/domparser.go
@@ -948,7 +948,7 @@ func (n *Node) SetInnerHTML(html string) {
 		n.setInnerHTMLFromTextNode(html)
 	} else if n.NodeType == elementNode {
 		var parser = newDOMParser()
-		var node = parser.parse(html, "")
+		var node = parser.parseFragment(html, "")
 		for i := len(n.ChildNodes) - 1; i >= 0; i-- {
 			n.ChildNodes[i].detach()
 		}
@@ -1134,13 +1134,19 @@ loop:
 	}
 }
 
-// Parses an HTML string and returns a JS implementation of the Document.
-func (p *domParser) parse(htmlSrc, url string) *Node {
+// Parses an HTML string and returns a document with all the nodes found in it.
+func (p *domParser) parseFragment(htmlSrc, url string) *Node {
 	p.html = htmlSrc
 	p.z = html.NewTokenizer(strings.NewReader(htmlSrc))
 	p.doc = newDocument(url)
 	p.z.AllowCDATA(true)
 	p.readNode(p.doc)
+	return p.doc
+}
+
+// Parses an HTML string and returns a JS implementation of the Document.
+func (p *domParser) parse(htmlSrc, url string) *Node {
+	p.parseFragment(htmlSrc, url)
 
 	// If this is an HTML document, remove root-level children except for the
 	// <html> node
-- 
2.43.0


From a385f404072545e2f85bcca2a4ce0cc8044836c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:27 +0000
Subject: [PATCH 30/44] fix: keep the root element and the body in the document
 wherever they were found

---
 domparser.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/domparser.go b/domparser.go
index c4f348b..5deb98e 100644
--- a/domparser.go
+++ b/domparser.go
@@ -1151,6 +1151,15 @@ func (p *domParser) parse(htmlSrc, url string) *Node {
 	// If this is an HTML document, remove root-level children except for the
 	// <html> node
 	if p.doc.DocumentElement != nil {
+		// A <html> found within the body is not the root element.
+		for n := p.doc.DocumentElement; n != nil && n != p.doc; n = n.ParentNode {
+			if n == p.doc.Body {
+				for n.ParentNode != p.doc {
+					n = n.ParentNode
+				}
+				p.doc.DocumentElement = n
+			}
+		}
 		var i = len(p.doc.ChildNodes) - 1
 		for i >= 0 {
 			var child = p.doc.ChildNodes[i]
@@ -1161,6 +1170,14 @@ func (p *domParser) parse(htmlSrc, url string) *Node {
 			}
 			i--
 		}
+		// The root element and the body belong to the document, whatever unclosed or misplaced
+		// element they were found in.
+		if p.doc.DocumentElement.ParentNode != p.doc {
+			p.doc.AppendChild(p.doc.DocumentElement)
+		}
+		if p.doc.Body != nil && p.doc.Body != p.doc.DocumentElement && p.doc.Body.ParentNode != p.doc.DocumentElement {
+			p.doc.DocumentElement.AppendChild(p.doc.Body)
+		}
 	}
 	return p.doc
 }
-- 
2.43.0


From 0eb110a356746dd614a93056b512766e2fd5c5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:27 +0000
Subject: [PATCH 31/44] fix: do not move the page itself into the article when
 joining siblings

---
 readability.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/readability.go b/readability.go
index f6e2af1..b88e658 100644
--- a/readability.go
+++ b/readability.go
@@ -1140,6 +1140,11 @@ func (r *Readability) grabArticle(page *Node) *Node {
 			var sibling = siblings[s]
 			var append = false
 
+			// The page itself must stay in the document, it is needed to try again.
+			if sibling == page {
+				continue
+			}
+
 			slog.Debug("Looking at sibling node:", "sibling", sibling.GetTextContent(), "score", sibling.ReadabilityNode)
 
 			if sibling == topCandidate {
-- 
2.43.0


From 1e862b5797d38a3edc13f30547f2b044bbf7e23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:44 +0000
Subject: [PATCH 32/44] fix: ignore a base element with a javascript: or data:
 address

---
 domparser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/domparser.go b/domparser.go
index 5deb98e..1f2e416 100644
--- a/domparser.go
+++ b/domparser.go
@@ -719,6 +719,10 @@ func (d *Node) getBaseURI() string {
 					return d.DocumentURI
 				}
 				u := base.ResolveReference(ref)
+				if u.Scheme == "javascript" || u.Scheme == "data" {
+					// not a valid base, browsers ignore it
+					return d.DocumentURI
+				}
 				d.baseURI = u.String()
 			}
 		}
-- 
2.43.0


From 9bf9123f07918f138502fe8818ca759cdbd6ea19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:20 +0000
Subject: [PATCH 33/44] fix: do not take any heading in a non-Latin script for
 the title

Splitting a text without ASCII word characters yields empty strings only,
which made any such heading look like a copy of the title.
---
 readability.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/readability.go b/readability.go
index b88e658..3933a86 100644
--- a/readability.go
+++ b/readability.go
@@ -745,14 +745,15 @@ func (r *Readability) getNextNode(n *Node, ignoreSelfAndKids bool) *Node {
 // Works the way that it splits both texts into words and then finds words that are unique in second text
 // the result is given by the lower length of unique parts.
 func (r *Readability) textSimilarity(textA, textB string) float64 {
-	var tokensA = tokenize.Split(strings.ToLower(textA), -1)
-	var tokensB = tokenize.Split(strings.ToLower(textB), -1)
+	var isEmpty = func(s string) bool { return s == "" }
+	var tokensA = slices.DeleteFunc(tokenize.Split(strings.ToLower(textA), -1), isEmpty)
+	var tokensB = slices.DeleteFunc(tokenize.Split(strings.ToLower(textB), -1), isEmpty)
 	if len(tokensA) == 0 || len(tokensB) == 0 {
 		return 0
 	}
 	var uniqTokensB []string
 	for _, t := range tokensB {
-		if !slices.Contains(tokensA, t) && t != "" {
+		if !slices.Contains(tokensA, t) {
 			uniqTokensB = append(uniqTokensB, t)
 		}
 	}
-- 
2.43.0


From 421822469d9e4a9ebc039bfcc0c9b77a9c42c1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:15 +0000
Subject: [PATCH 34/44] fix: keep the user info, the host separator and the
 path of resolved URLs

The path of a URL without host was cut out of the raw reference, which
mangled it when the scheme was in upper case or the fragment contained
a question mark.
---
 readability.go | 26 +++++++-------------------
 1 file changed, 7 insertions(+), 19 deletions(-)

diff --git a/readability.go b/readability.go
index 3933a86..a9c1512 100644
--- a/readability.go
+++ b/readability.go
@@ -286,33 +286,21 @@ func (r *Readability) fixRelativeUris(articleContent *Node) {
 		var abs string
 		if u.Scheme != "" {
 			abs += u.Scheme
-			if strings.HasPrefix(u.Scheme, "http") || u.Host != "" {
+			if strings.HasPrefix(u.Scheme, "http") || (u.Opaque == "" && !u.OmitHost) {
 				abs += "://"
 			} else {
 				abs += ":"
 			}
+		} else if u.Host != "" {
+			abs += "//"
 		}
-		abs += strings.ToLower(u.Host)
-
-		var b string
-		if strings.Contains(uri, "?") {
-			before, _, _ := strings.Cut(uri, "?")
-			b = before
-		} else if strings.Contains(uri, "#") {
-			before, _, _ := strings.Cut(uri, "#")
-			b = before
-		} else {
-			b = uri
+		if u.User != nil {
+			abs += u.User.String() + "@"
 		}
+		abs += strings.ToLower(u.Host)
 
 		if u.Path != "" {
-			p := u.Path
-			if u.Host != "" {
-				p = u.EscapedPath()
-			} else if strings.Contains(uri, "%") {
-				p = strings.ReplaceAll(b, abs, "")
-			}
-			abs += strings.ReplaceAll(p, "/C|/", "/C:/")
+			abs += strings.Replace(u.EscapedPath(), "/C%7C/", "/C:/", 1)
 		} else if u.Opaque != "" {
 			abs += u.Opaque
 		} else {
-- 
2.43.0


From e0adb54acc3ce97f2334d4ecaf5e97e136d59000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:55 +0000
Subject: [PATCH 35/44] fix: do not take the separator for a part of the URL of
 a srcset candidate

---
 readability.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/readability.go b/readability.go
index a9c1512..0f18ac6 100644
--- a/readability.go
+++ b/readability.go
@@ -369,10 +369,15 @@ func (r *Readability) fixRelativeUris(articleContent *Node) {
 		}
 		var srcset = media.GetAttribute("srcset")
 		if srcset != "" {
-			media.SetAttribute("srcset", srcsetUrl.ReplaceAllStringFunc(srcset, func(candidate string) string {
-				submatch := srcsetUrl.FindStringSubmatch(candidate)
-				return toAbsoluteURI(submatch[1]) + submatch[2] + submatch[3]
-			}))
+			var newSrcset strings.Builder
+			var last = 0
+			for _, m := range srcsetUrl.FindAllStringSubmatchIndex(srcset, -1) {
+				newSrcset.WriteString(srcset[last:m[2]])
+				newSrcset.WriteString(toAbsoluteURI(srcset[m[2]:m[3]]))
+				last = m[3]
+			}
+			newSrcset.WriteString(srcset[last:])
+			media.SetAttribute("srcset", newSrcset.String())
 		}
 	}
 }
-- 
2.43.0


From 635e3a14bf7e9fdf0316a77edbd5a1372cda4c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:04 +0000
Subject: [PATCH 36/44] fix: trim the JSON-LD title also when name and headline
 differ

---
 readability.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/readability.go b/readability.go
index 0f18ac6..29af0b3 100644
--- a/readability.go
+++ b/readability.go
@@ -1368,9 +1368,9 @@ func (r *Readability) getJSONLD(doc *Node) *metadata {
 				var headlineMatchs = r.textSimilarity(headline.(string), title) > 0.75
 
 				if headlineMatchs && !nameMatches {
-					meta.title = headline.(string)
+					meta.title = strings.TrimSpace(headline.(string))
 				} else {
-					meta.title = name.(string)
+					meta.title = strings.TrimSpace(name.(string))
 				}
 			} else if _, ok := name.(string); ok {
 				meta.title = strings.TrimSpace(name.(string))
-- 
2.43.0


From 845f0af2dbb12a62c755d236d887d72e1e4aff77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:23 +0000
Subject: [PATCH 37/44] fix: do not take text with trailing white space for no
 content

---
 regexps.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regexps.go b/regexps.go
index ffeaeda..52010f9 100644
--- a/regexps.go
+++ b/regexps.go
@@ -19,7 +19,7 @@ var (
 	//prevLink             = regexp.MustCompile(`(prev|earl|old|new|<|«)`)
 	tokenize   = regexp.MustCompile(`\W+`)
 	whitespace = regexp.MustCompile(`^\s*$`)
-	hasContent = regexp.MustCompile(`\S$`)
+	hasContent = regexp.MustCompile(`\S`)
 	hashUrl    = regexp.MustCompile(`^#.+`)
 	srcsetUrl  = regexp.MustCompile(`(\S+)(\s+[\d.]+[xw])?(\s*(?:,|$))`)
 	b64DataUrl = regexp.MustCompile(`(?i)^data:\s*([^\s;,]+)\s*;\s*base64\s*,`)
-- 
2.43.0


From b401f5469f66d3d605982094774ed3459d009d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:54:12 +0000
Subject: [PATCH 38/44] fix: simplify also elements which are left with a
 single child or none

---
 readability.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/readability.go b/readability.go
index 29af0b3..cc4d592 100644
--- a/readability.go
+++ b/readability.go
@@ -387,7 +387,12 @@ func (r *Readability) simplifyNestedElements(articleContent *Node) {
 	for node != nil {
 		if node.ParentNode != nil && slices.Contains([]string{"DIV", "SECTION"}, node.TagName) && !strings.HasPrefix(node.GetId(), "readability") {
 			if r.isElementWithoutContent(node) {
+				var parent = node.ParentNode
 				node = r.removeAndGetNext(node)
+				// What is left of the parent might be nothing or a single child.
+				if len(parent.Children) <= 1 {
+					node = parent
+				}
 				continue
 			} else if r.hasSingleTagInsideElement(node, "DIV") || r.hasSingleTagInsideElement(node, "SECTION") {
 				var child = node.Children[0]
-- 
2.43.0


From 7b0fb64ca19a3f91f2eec27e40d9f2dfe8b21afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:45 +0000
Subject: [PATCH 39/44] fix: do not leave an empty paragraph behind when
 unwrapping an empty table

---
 readability.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/readability.go b/readability.go
index cc4d592..76728ba 100644
--- a/readability.go
+++ b/readability.go
@@ -636,7 +636,7 @@ func (r *Readability) prepArticle(articleContent *Node) {
 	r.replaceNodeTags(r.getAllNodesWithTag(articleContent, "h1"), "h2")
 
 	// Remove extra paragraphs
-	r.removeNodes(r.getAllNodesWithTag(articleContent, "p"), func(paragraph *Node) bool {
+	var isExtraParagraph = func(paragraph *Node) bool {
 		var imgCount = len(paragraph.getElementsByTagName("img"))
 		var embedCount = len(paragraph.getElementsByTagName("embed"))
 		var objectCount = len(paragraph.getElementsByTagName("object"))
@@ -644,7 +644,8 @@ func (r *Readability) prepArticle(articleContent *Node) {
 		var iframeCount = len(paragraph.getElementsByTagName("iframe"))
 		var totalCount = imgCount + embedCount + objectCount + iframeCount
 		return totalCount == 0 && r.getInnerText(paragraph, false) == ""
-	})
+	}
+	r.removeNodes(r.getAllNodesWithTag(articleContent, "p"), isExtraParagraph)
 
 	for _, br := range r.getAllNodesWithTag(articleContent, "br") {
 		var next = r.nextNode(br.NextSibling)
@@ -671,6 +672,9 @@ func (r *Readability) prepArticle(articleContent *Node) {
 				}
 				cell = r.setNodeTag(cell, tag)
 				table.ParentNode.ReplaceChild(cell, table)
+				if tag == "P" {
+					r.removeNodes([]*Node{cell}, isExtraParagraph)
+				}
 			}
 		}
 	}
-- 
2.43.0


From 8e6e0c1fa45d20db854bb9884def783fd5d2381a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:47 +0000
Subject: [PATCH 40/44] fix: resolve a link with a comma and an escaped space
 as one reference

---
 readability.go | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/readability.go b/readability.go
index 76728ba..754e6a5 100644
--- a/readability.go
+++ b/readability.go
@@ -341,15 +341,7 @@ func (r *Readability) fixRelativeUris(articleContent *Node) {
 					link.ParentNode.ReplaceChild(container, link)
 				}
 			} else {
-				if strings.Contains(href, ",%20") {
-					var hrefs []string
-					for _, link := range strings.Split(href, ",%20") {
-						hrefs = append(hrefs, toAbsoluteURI(link))
-					}
-					link.SetAttribute("href", strings.Join(hrefs, ",%20"))
-				} else {
-					link.SetAttribute("href", toAbsoluteURI(href))
-				}
+				link.SetAttribute("href", toAbsoluteURI(href))
 			}
 		}
 	}
-- 
2.43.0


From f13b05ea8784fcc318f73762949ff2b7f5eb3ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:30 +0000
Subject: [PATCH 41/44] fix: do not take a block for empty because of line
 breaks beside its pictures

---
 readability.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/readability.go b/readability.go
index 754e6a5..4fba4af 100644
--- a/readability.go
+++ b/readability.go
@@ -1645,7 +1645,7 @@ func (r *Readability) hasSingleTagInsideElement(element *Node, tag string) bool
 func (r *Readability) isElementWithoutContent(n *Node) bool {
 	return n.NodeType == elementNode &&
 		len([]rune(strings.TrimSpace(n.GetTextContent()))) == 0 &&
-		(len(n.Children) == 0 || len(n.Children) == len(n.getElementsByTagName("br"))+len(n.getElementsByTagName("hr")))
+		!slices.ContainsFunc(n.Children, func(child *Node) bool { return child.TagName != "BR" && child.TagName != "HR" })
 }
 
 // Determine whether element has any children block level elements.
-- 
2.43.0


From 26db3814b6355a76d120862df8bc8ea52e771c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:40 +0000
Subject: [PATCH 42/44] fix: find the address of lazily loaded pictures with
 capital letters in the extension

---
 regexps.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/regexps.go b/regexps.go
index 52010f9..22a05da 100644
--- a/regexps.go
+++ b/regexps.go
@@ -50,6 +50,6 @@ var (
 	namePattern                   = regexp.MustCompile(`(?i)^\s*(?:(dc|dcterm|og|twitter|weibo:(article|webpage))\s*[\.:]\s*)?(author|creator|description|title|site_name)\s*$`)
 	imgExtensions                 = regexp.MustCompile(`(?i)\.(jpg|jpeg|png|webp)`)
 	base64Starts                  = regexp.MustCompile(`(?i)base64\s*`)
-	imgExtensionsWithSpacesAndNum = regexp.MustCompile(`\.(jpg|jpeg|png|webp)\s+\d`)
-	imgExtensionsAmongText        = regexp.MustCompile(`^\s*\S+\.(jpg|jpeg|png|webp)\S*\s*$`)
+	imgExtensionsWithSpacesAndNum = regexp.MustCompile(`(?i)\.(jpg|jpeg|png|webp)\s+\d`)
+	imgExtensionsAmongText        = regexp.MustCompile(`(?i)^\s*\S+\.(jpg|jpeg|png|webp)\S*\s*$`)
 )
-- 
2.43.0


From 9f9bb773c15e45a9b7edad47bc112207b1a01253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:56 +0000
Subject: [PATCH 43/44] fix: do not lose lines of a title when cutting off the
 site name

---
 regexps.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/regexps.go b/regexps.go
index 22a05da..642e3fc 100644
--- a/regexps.go
+++ b/regexps.go
@@ -30,8 +30,8 @@ var (
 	jsonLdArticleTypes   = regexp.MustCompile(`^Article|AdvertiserContentArticle|NewsArticle|AnalysisNewsArticle|AskPublicNewsArticle|BackgroundNewsArticle|OpinionNewsArticle|ReportageNewsArticle|ReviewNewsArticle|Report|SatiricalArticle|ScholarlyArticle|MedicalScholarlyArticle|SocialMediaPosting|BlogPosting|LiveBlogPosting|DiscussionForumPosting|TechArticle|APIReference$`)
 	titleFinalPart       = regexp.MustCompile(` [\|\-\\\/>»] `)
 	titleSeparators      = regexp.MustCompile(` [\\\/>»] `)
-	otherTitleSeparators = regexp.MustCompile(`(?i)(.*)[\|\-\\\/>»] .*`)
-	titleFirstPart       = regexp.MustCompile(`(?i)[^\|\-\\\/>»]*[\|\-\\\/>»](.*)`)
+	otherTitleSeparators = regexp.MustCompile(`(?s)(.*)[\|\-\\\/>»] .*`)
+	titleFirstPart       = regexp.MustCompile(`(?s)[^\|\-\\\/>»]*[\|\-\\\/>»](.*)`)
 	multipleWhitespaces  = regexp.MustCompile(`\s+`)
 	singleWhitespace     = regexp.MustCompile(`\s`)
 	singleDot            = regexp.MustCompile(`\.`)
-- 
2.43.0


From 62e6b7e79367ffe1a42be87d411c61169a1f3ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:12 +0000
Subject: [PATCH 44/44] fix: take the text direction from the attempt whose
 article is returned

The direction was looked up after the page had been restored: with a short
article, the ancestors of the top candidate were no longer connected with the
body, and a dir attribute there was lost. It was also that of the last attempt,
even if an earlier one gave the longest text.
---
 readability.go | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/readability.go b/readability.go
index 4fba4af..be01a98 100644
--- a/readability.go
+++ b/readability.go
@@ -91,6 +91,7 @@ type Readability struct {
 type attempt struct {
 	articleContent *Node
 	textLength     int
+	articleDir     string
 }
 
 // New is the public constructor of Readability and it supports the following options:
@@ -1214,6 +1215,15 @@ func (r *Readability) grabArticle(page *Node) *Node {
 
 		slog.Debug("Article content after paging", "innerHTML", articleContent.GetInnerHTML())
 
+		// Find out text direction from ancestors of top candidate, as long as they are in place.
+		var articleDir string
+		var ancestors = []*Node{parentOfTopCandidate, topCandidate}
+		ancestors = append(ancestors, r.getNodeAncestors(parentOfTopCandidate, 0)...)
+		r.someNode(ancestors, func(ancestor *Node) bool {
+			articleDir = ancestor.GetAttribute("dir")
+			return articleDir != ""
+		})
+
 		var parseSuccessful = true
 
 		// Now that we've gone through the full algorithm, check to see if
@@ -1228,15 +1238,15 @@ func (r *Readability) grabArticle(page *Node) *Node {
 
 			if r.flagIsActive(flagStripUnlikelys) {
 				r.removeFlag(flagStripUnlikelys)
-				r.attempts = append(r.attempts, &attempt{articleContent: articleContent, textLength: textLength})
+				r.attempts = append(r.attempts, &attempt{articleContent: articleContent, textLength: textLength, articleDir: articleDir})
 			} else if r.flagIsActive(flagWeightClasses) {
 				r.removeFlag(flagWeightClasses)
-				r.attempts = append(r.attempts, &attempt{articleContent: articleContent, textLength: textLength})
+				r.attempts = append(r.attempts, &attempt{articleContent: articleContent, textLength: textLength, articleDir: articleDir})
 			} else if r.flagIsActive(flagCleanConditionally) {
 				r.removeFlag(flagCleanConditionally)
-				r.attempts = append(r.attempts, &attempt{articleContent: articleContent, textLength: textLength})
+				r.attempts = append(r.attempts, &attempt{articleContent: articleContent, textLength: textLength, articleDir: articleDir})
 			} else {
-				r.attempts = append(r.attempts, &attempt{articleContent: articleContent, textLength: textLength})
+				r.attempts = append(r.attempts, &attempt{articleContent: articleContent, textLength: textLength, articleDir: articleDir})
 				// No luck after removing flags, just return the longest text we found during the different loops
 				slices.SortFunc(r.attempts, func(a, b *attempt) int {
 					return b.textLength - a.textLength
@@ -1246,25 +1256,13 @@ func (r *Readability) grabArticle(page *Node) *Node {
 					return nil
 				}
 				articleContent = r.attempts[0].articleContent
+				articleDir = r.attempts[0].articleDir
 				parseSuccessful = true
 			}
 		}
 
 		if parseSuccessful {
-			// Find out text direction from ancestors of final top candidate.
-			var ancestors = []*Node{parentOfTopCandidate, topCandidate}
-			ancestors = append(ancestors, r.getNodeAncestors(parentOfTopCandidate, 0)...)
-			r.someNode(ancestors, func(ancestor *Node) bool {
-				if ancestor.TagName == "" {
-					return false
-				}
-				var articleDir = ancestor.GetAttribute("dir")
-				if articleDir != "" {
-					r.articleDir = articleDir
-					return true
-				}
-				return false
-			})
+			r.articleDir = articleDir
 			return articleContent
 		}
 	}
-- 
2.43.0

