package main

import (
	"fmt"
	"regexp"
	"strings"

	readability "github.com/giulianopz/go-readability"
	"golang.org/x/net/html"
)

func init() {
	register(&Prop{ID: "C10", Quick: 12000, Thorough: 180000, Run: runC10,
		Rule: "articles whose text, attribute values, comments, CDATA sections and raw-text elements carry canary markup in every escaping, under thresholds that force reparsing; oracle: the token stream of HTMLContent equals the article tree node by node, no canary element or attribute exists, and identified attributes and texts still have their original value; non-trivial: canaries reached the article; distinct by (canary, place, threshold)",
		Min:  map[string]int{"canaries": 10000, "values_compared": 4000, "nodes_compared": 100000, "retried": 800}})
}

var canaries = []string{
	`<zinj onzap="1">`, `</div><zinj onzap=1>x</zinj>`, `"><zinj onzap='1'>`, `' onzap='1`, `" onzap="1`, `&lt;zinj onzap="1"&gt;`, `&#60;zinj&#62;`, `&#x3c;zinj&#x3E;`,
	`<!--<zinj>-->`, `]]><zinj>`, `<![CDATA[<zinj>]]>`, `</p><zinj/>`, `&amp;lt;zinj&amp;gt;`, `<zinj`, `</textarea><zinj>`, `<script>zinj</script>`, `-->"'<zinj>`, `&quot; onzap=&quot;1`,
	`&amp;quot; onzap=&amp;quot;1`, `&amp;amp;#60;zinj&amp;amp;#62;`, `<img src=x onzap=1>`, "<\tzinj>", `<?zinj?>`, `<!zinj>`, `&`, `&&lt;`, `&lt`, `a<b>c`, `&lt;zinj&gt`, `&#0060;zinj>`,
}

var openRefRe = regexp.MustCompile(`&(lt|gt|amp|quot)([^;]|$)`)

func runC10(c *Case) {
	var p *Page
	wild := c.P(0.3)
	if wild {
		p = c.wildPage()
	} else {
		p = c.Article(c.Int(2, 7))
		p.Main.Add(c.blocks(c.Int(0, 4)))
	}
	host := func() *El {
		if wild {
			es := append(p.Body.All("div", "p", "section", "span", "li", "td", "b"), p.Body)
			return pick(c, es...)
		}
		return pick(c, p.Paras...)
	}
	can := func() string {
		s := pick(c, canaries...)
		if c.P(0.2) {
			s += pick(c, canaries...)
		}
		return s
	}
	uid := 0
	type val struct{ uid, attr, want, how string }
	var vals []val
	type txt struct{ text, how string }
	var txts []txt
	newUID := func(e *El) string {
		uid++
		u := fmt.Sprintf("u%d", uid)
		e.Set("data-uid", u)
		return u
	}
	places := ""
	for i := c.Int(2, 7); i > 0; i-- {
		s := can()
		c.Count("canaries", 1)
		switch k := c.R.IntN(13); k {
		case 0, 1, 2: // text
			t := c.W.Tok() + s + c.W.Tok()
			e := E(pick(c, "b", "span", "em", "code", "font"), t)
			if c.P(0.3) {
				e = E("p", c.W.Prose(40, 0), E("i", t))
			}
			host().Add(e)
			if !wild {
				txts = append(txts, txt{t, "text"})
			}
			places += "text "
		case 3, 4, 5: // attribute
			e := E(pick(c, "span", "b", "a", "img"), c.W.Tok())
			if e.Tag == "img" {
				e = E("img", A("src", "/i.jpg"))
			}
			a := pick(c, "title", "alt", "data-x", "id", "aria-label", "lang", "name", "data-uid2")
			e.Set(a, s)
			u := newUID(e)
			host().Add(" ", e)
			vals = append(vals, val{u, a, s, "attribute"})
			places += a + " "
		case 6: // link target: must stay one attribute, whatever it is resolved to
			e := E("a", A("href", pick(c, "/x?q=", "http://h.example/", "#", "mailto:x?", "")+s), c.W.Tok())
			newUID(e)
			host().Add(" ", e)
			places += "href "
		case 7: // comment
			if strings.Contains(s, "-->") || strings.Contains(s, "--!>") {
				s = "<zinj onzap=1>"
			}
			host().Add(Raw("<!--"+" "+s+" -->", ""))
			places += "comment "
		case 8: // CDATA
			s = strings.ReplaceAll(s, "]]>", "]]")
			t := c.W.Tok() + s
			e := E("span", Raw("<![CDATA["+t+"]]>", t))
			host().Add(e)
			if !wild {
				txts = append(txts, txt{t, "cdata"})
			}
			places += "cdata "
		case 9: // raw text elements
			tag := pick(c, "textarea", "xmp", "noembed", "noframes", "style", "title", "iframe")
			s = strings.ReplaceAll(s, "</"+tag, "")
			if openRefRe.MatchString(s + " ") {
				s = "<zinj onzap=1>" // references without semicolon are outside of what the library reads
			}
			raw := "<" + tag + ">" + c.W.Tok() + s + "</" + tag + ">"
			host().Add(Raw(raw, ""))
			places += tag + " "
		case 10: // a link that is turned into text
			t := c.W.Tok() + s + c.W.Tok()
			a := E("a", A("href", "javascript:x()", "title", s), t)
			if c.P(0.4) {
				a.Add(E("b", c.W.Tok()))
			}
			host().Add(" ", a)
			if !wild {
				txts = append(txts, txt{t, "javascript link"})
			}
			places += "jslink "
		case 11: // attributes that are copied by the picture rules
			e := E("img", A("class", "lazy", "data-src", "/a.jpg?"+strings.ReplaceAll(s, " ", "_"), "alt", s))
			u := newUID(e)
			host().Add(" ", e)
			vals = append(vals, val{u, "alt", s, "lazy picture"})
			places += "lazy "
		default: // noscript copy
			q := E("p", c.W.Words(3), E("span", E("img", A("src", "/ph.gif", "data-old", s))),
				E("noscript", E("img", A("src", "/real.jpg", "alt", s))))
			c.Slip2(p, q)
			places += "noscript "
		}
	}
	for i := c.R.IntN(4); i > 0; i-- { // elements without content
		v := "//www.youtube.com/embed/" + c.W.Tok()
		host().Add(" ", pick(c, E("br"), E("wbr"), E("img", A("src", "/v.jpg")), E("embed", A("src", v)), E("object", A("data", v), E("param", A("name", "x", "value", "y"))),
			E("picture", E("source", A("srcset", "/a.webp")), E("img", A("src", "/a.jpg"))), E("video", A("src", "/v.mp4"), E("source", A("src", "/v.webm"))),
			E("map", E("area", A("href", "/area", "alt", "x")))))
	}
	if c.P(0.2) {
		c.Slip2(p, pick(c, E("hr"), E("table", A("summary", "s"), E("colgroup", E("col"), E("col", A("span", "2"))), E("tr", E("td", c.W.Tok()), E("td", c.W.Tok())))))
	}
	if c.P(0.15) { // a void element that takes what follows as its content, until it is closed
		tag := pick(c, "img", "wbr", "embed", "area", "col", "source", "hr", "br")
		t := c.W.Tok()
		raw := "<" + tag + " data-v=1>" + t + "</" + tag + ">"
		if c.P(0.3) {
			raw = "<" + tag + " data-v=1>" + t + "<b>" + c.W.Tok() + "</b></" + tag + ">"
		}
		host().Add(" ", Raw(raw, ""))
		c.Count("full_voids", 1)
	}
	src := ""
	if c.P(0.6) {
		src = p.HTML.Fuzzy(c)
	} else {
		src = p.Src()
	}
	thr := pick(c, 0, 500, 500, 1<<30, 1<<30)
	opts := []readability.Option{readability.CharThreshold(thr)}
	if c.P(0.4) {
		opts = append(opts, readability.KeepClasses(true))
	}
	if thr > 500 {
		c.Count("retried", 1)
	}
	c.Input("page", src)
	c.Input("threshold", fmt.Sprint(thr))
	var root *readability.Node
	res, err := Try(src, pageURI, append(opts, readability.Serializer(func(n *readability.Node) string {
		root = n
		return n.GetInnerHTML()
	}))...)
	if err != nil {
		if !wild {
			c.Fail("unexpected-error", "%v", err)
		}
		return
	}
	c.Input("html", res.HTMLContent)
	tree, err := readStrict(res.HTMLContent)
	if err != nil {
		c.Fail("malformed", "HTMLContent is not well formed: %v", err)
		return
	}
	if t := closedVoid(res.HTMLContent); t != "" {
		c.Fail("void-closed", "HTMLContent has a closing tag for the void element %s: a standard parser takes it for another element or an error", t)
		return
	}
	std, err := readStandard(res.HTMLContent)
	if err != nil {
		c.Fail("malformed", "the standard parser rejects HTMLContent: %v", err)
		return
	}
	for _, t := range []*El{tree, std} {
		if e := t.Find(func(e *El) bool {
			if strings.HasPrefix(e.Tag, "zinj") || e.Tag == "script" {
				return true
			}
			for _, a := range e.Attrs {
				if strings.Contains(a.K, "onzap") || strings.Contains(a.K, "zinj") || strings.ContainsAny(a.K, `"'<>`) {
					return true
				}
			}
			return false
		}); e != nil {
			c.Fail("injection", "text or an attribute value became markup: %s", show(e))
			return
		}
	}
	if why := sameTree(c, root, tree); why != "" {
		c.Fail("unfaithful", "%s", why)
		return
	}
	if tree.Inner() != res.TextContent {
		c.Fail("unfaithful", "the text of HTMLContent is not TextContent: %s", firstDiff(tree.Inner(), res.TextContent))
		return
	}
	for _, v := range vals {
		e := tree.ByAttr("data-uid", v.uid)
		if e == nil {
			if !wild {
				c.Fail("lost", "element %s of the article is lost", v.uid)
			}
			continue
		}
		if e.Get(v.attr) != v.want {
			c.Fail("value-changed", "%s %s=%q became %q", v.how, v.attr, v.want, e.Get(v.attr))
			return
		}
		c.Count("values_compared", 1)
	}
	for _, t := range txts {
		if !strings.Contains(res.TextContent, t.text) {
			c.Fail("text-changed", "%s %q is not in the result as it is in the page", t.how, t.text)
			return
		}
		c.Count("values_compared", 1)
	}
	c.Distinct(places, thr)
	c.Sample("%s threshold %d: %s", places, thr, clip(res.HTMLContent, 250))
}

// closedVoid finds a void element which is empty, but written with a closing tag.
func closedVoid(src string) string {
	z := html.NewTokenizer(strings.NewReader(src))
	last := ""
	for {
		switch z.Next() {
		case html.ErrorToken:
			return ""
		case html.StartTagToken:
			z.NextIsNotRawText()
			b, _ := z.TagName()
			last = string(b)
		case html.EndTagToken:
			b, _ := z.TagName()
			if string(b) == last && voidTags[last] {
				return last
			}
			last = ""
		default:
			last = ""
		}
	}
}

// Slip2 puts a block into the article of the page.
func (c *Case) Slip2(p *Page, q *El) {
	if p.Main != nil {
		c.Slip(p.Main, q)
		return
	}
	p.Body.InsertKid(c.R.IntN(len(p.Body.Kids)+1), q)
}

// sameTree compares the node tree of the library with the tree read from its markup.
func sameTree(c *Case, n *readability.Node, e *El) string {
	var kids []*readability.Node
	for _, k := range n.ChildNodes {
		if k.TagName != "" || k.GetTextContent() != "" {
			kids = append(kids, k)
		}
	}
	i := 0
	for _, x := range e.Kids {
		if x.Tag == "" {
			t := ""
			for i < len(kids) && kids[i].TagName == "" {
				t += kids[i].GetTextContent()
				i++
			}
			if t != x.Text {
				return fmt.Sprintf("text %q in the tree, %q in the markup", clip(t, 200), clip(x.Text, 200))
			}
			c.Count("nodes_compared", 1)
			continue
		}
		if i == len(kids) || !strings.EqualFold(kids[i].TagName, x.Tag) {
			return fmt.Sprintf("the markup has <%s>, the tree does not (under <%s>)", x.Tag, e.Tag)
		}
		k := kids[i]
		i++
		c.Count("nodes_compared", 1)
		if k.GetAttributeLen() != len(x.Attrs) {
			return fmt.Sprintf("<%s> has %d attributes in the tree, %d in the markup: %s", x.Tag, k.GetAttributeLen(), len(x.Attrs), show(x))
		}
		for _, a := range x.Attrs {
			if !k.HasAttribute(a.K) || k.GetAttribute(a.K) != a.V {
				return fmt.Sprintf("<%s> %s is %q in the tree, %q in the markup", x.Tag, a.K, k.GetAttribute(a.K), a.V)
			}
		}
		if why := sameTree(c, k, x); why != "" {
			return why
		}
	}
	if i != len(kids) {
		return fmt.Sprintf("the tree has a node more than the markup under <%s>: %q", e.Tag, clip(kids[i].GetTextContent(), 100))
	}
	return ""
}
