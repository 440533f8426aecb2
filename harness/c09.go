package main

import (
	"fmt"
	"strings"

	readability "github.com/giulianopz/go-readability"
)

func init() {
	register(&Prop{ID: "C09", Quick: 9000, Thorough: 135000, Run: runC09,
		Rule: "articles, wild pages, tag soup and mutated fixtures with every combination of serializer and text converter, thresholds that force retries, and repeated parsing; oracle: call counts and arguments recorded by the callbacks, and the fields recomputed from them; non-trivial: an article came back; distinct by (page kind, option combination, retries, text length class)",
		Min:  map[string]int{"serializer_calls": 1500, "converter_calls": 700, "default_serializer": 500, "non_ascii_text": 300}})
}

func runC09(c *Case) {
	c.W.Mode = pick(c, 0, 0, 1, 2)
	var src, kind string
	switch x := c.R.IntN(10); {
	case x < 4:
		p := c.Article(c.Int(1, 8))
		src, kind = p.HTML.Fuzzy(c), "article"
	case x < 8:
		src, kind = c.wildPage().HTML.Fuzzy(c), "wild"
	case x < 9:
		src, kind = soup(c, c.Int(20, 200)), "soup"
	default:
		_, srcs := fixtures()
		src, kind = mutate(c, pick(c, srcs...)), "fixture"
	}
	c.Input("page", src)
	thr := pick(c, 0, 1, 500, 500, 3000, 1<<30)
	var base []readability.Option
	base = append(base, readability.CharThreshold(thr))
	keep := c.P(0.3)
	if keep {
		base = append(base, readability.KeepClasses(true))
	}
	useS, useT := c.P(0.7), c.P(0.45)
	var opts []readability.Option
	nS, nT := 0, 0
	var root *readability.Node
	var inner, text, shape, given, made, conv string
	marker := pick(c, "", "é", "\x00", "<b>", "  ", "日本", "\n", "𝔘")
	if useS {
		opts = append(opts, readability.Serializer(func(n *readability.Node) string {
			nS++
			root = n
			inner, text = n.GetInnerHTML(), n.GetTextContent()
			shape = wrapperShape(n)
			made = fmt.Sprintf("%s%d:%s", marker, nS, inner)
			return made
		}))
	}
	if useT {
		opts = append(opts, readability.Html2Text(func(s string) string {
			nT++
			given = s
			conv = fmt.Sprintf("%s/%d/%d %s", marker, nT, len(s), c.W.Words(3))
			return conv
		}))
	}
	r, err := readability.New(src, pageURI, append(append([]readability.Option(nil), base...), opts...)...)
	if err != nil {
		return
	}
	res, err := r.Parse()
	if err != nil {
		c.Count("no_article", 1)
		return
	}
	c.Input("html", res.HTMLContent)
	c.Count("extractions", 1)
	if useS {
		if nS != 1 {
			c.Fail("serializer-calls", "the serializer was called %d times", nS)
			return
		}
		c.Count("serializer_calls", 1)
		if res.HTMLContent != made {
			c.Fail("html", "HTMLContent is not what the serializer returned: %s", firstDiff(res.HTMLContent, made))
			return
		}
		if shape != "" {
			c.Fail("wrapper", "%s", shape)
			return
		}
		if root.GetInnerHTML() != inner || root.GetTextContent() != text {
			c.Fail("changed-later", "the article was changed after it had been serialized")
			return
		}
		if !useT && res.TextContent != text {
			c.Fail("text", "TextContent is not the text of the article: %s", firstDiff(res.TextContent, text))
			return
		}
	} else {
		c.Count("default_serializer", 1)
		// another run with a recording serializer tells what the article was
		var in2, tx2 string
		res2, err := Try(src, pageURI, append(append([]readability.Option(nil), base...), readability.Serializer(func(n *readability.Node) string {
			in2, tx2 = n.GetInnerHTML(), n.GetTextContent()
			return in2
		}))...)
		if err != nil || res2 == nil || res.HTMLContent != in2 {
			c.Fail("html", "HTMLContent of the default serializer is not the article's inner HTML: %s (%v)", firstDiff(res.HTMLContent, in2), err)
			return
		}
		if !useT && res.TextContent != tx2 {
			c.Fail("text", "TextContent is not the text of the article: %s", firstDiff(res.TextContent, tx2))
			return
		}
		if kind == "article" || kind == "wild" {
			if t, err := readStrict(res.HTMLContent); err == nil {
				if t.Inner() != tx2 {
					c.Fail("text", "text of HTMLContent and TextContent differ: %s", firstDiff(t.Inner(), tx2))
					return
				}
			}
		}
	}
	if useT {
		if nT != 1 {
			c.Fail("converter-calls", "the text converter was called %d times", nT)
			return
		}
		c.Count("converter_calls", 1)
		if given != res.HTMLContent {
			c.Fail("converter-argument", "the text converter was not given HTMLContent: %s", firstDiff(given, res.HTMLContent))
			return
		}
		if res.TextContent != conv {
			c.Fail("text", "TextContent is not what the converter returned: %s", firstDiff(res.TextContent, conv))
			return
		}
	}
	if res.Length != runes(res.TextContent) {
		c.Fail("length", "Length is %d, TextContent has %d characters (%d bytes)", res.Length, runes(res.TextContent), len(res.TextContent))
		return
	}
	if runes(res.TextContent) != len(res.TextContent) {
		c.Count("non_ascii_text", 1)
	}
	cls := 0
	for l := res.Length; l > 0; l /= 4 {
		cls++
	}
	c.Distinct(kind, useS, useT, thr, keep, marker, cls)
	c.Sample("%s serializer=%v converter=%v threshold=%d: length %d, html %d bytes", kind, useS, useT, thr, res.Length, len(res.HTMLContent))
}

// wrapperShape describes what is wrong with the outer structure of the article, if anything.
func wrapperShape(n *readability.Node) string {
	if !strings.EqualFold(n.TagName, "div") {
		return "the article is a " + n.TagName
	}
	if len(n.ChildNodes) == 0 {
		return "" // nothing was found
	}
	if len(n.ChildNodes) != 1 {
		return fmt.Sprintf("the article has %d children, not one page wrapper: %s", len(n.ChildNodes), clip(n.GetInnerHTML(), 300))
	}
	w := n.ChildNodes[0]
	if !strings.EqualFold(w.TagName, "div") || w.GetAttribute("id") != "readability-page-1" || w.GetAttribute("class") != "page" {
		return "the page wrapper is " + clip(n.GetInnerHTML(), 200)
	}
	return ""
}
