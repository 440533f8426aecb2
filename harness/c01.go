package main

import (
	"fmt"
	"strings"

	readability "github.com/giulianopz/go-readability"
	"golang.org/x/net/html"
)

func init() {
	register(&Prop{ID: "C01", Quick: 5000, Thorough: 120000, Run: runC01, MaxCPU: 200,
		Rule: "arbitrary pages (tag soup, damaged corpus pages, deep nesting, random JSON-LD, hostile attributes) x option sets x page URIs, each given to New, Parse (twice) and IsProbablyReaderable; non-trivial: New accepted the page; distinct by page content and options",
		Min:  map[string]int{"accepted": 1500, "rejected": 100, "parsed": 800, "kind_special": 300}})
}

// bodyOracle scans the tokens of a page for a body element; ok is false when the page is one on which
// tokenizers may differ.
func bodyOracle(src string) (found, ok bool) {
	ok = true
	z := html.NewTokenizer(strings.NewReader(src))
	z.AllowCDATA(true)
	for {
		switch z.Next() {
		case html.ErrorToken:
			return found, ok
		case html.StartTagToken, html.SelfClosingTagToken:
			t := z.Token()
			name := t.Data
			if i := strings.LastIndex(name, ":"); i >= 0 {
				name = name[i+1:]
			}
			switch name {
			case "body":
				found = true
			case "script", "noscript":
				if t.Type == html.SelfClosingTagToken {
					ok = false
				}
				z.NextIsNotRawText()
			case "title", "textarea", "style", "iframe", "xmp", "noembed", "noframes", "plaintext", "svg", "math":
				if t.Type == html.SelfClosingTagToken || name == "plaintext" {
					ok = false
				}
			}
		}
	}
}

var oddURIs = []string{"", " ", "http://fakehost/test/page.html", "https://h", "h", "/x", "//", "#", "http://[::1", "%zz", "file:///a/b", "mailto:x@y", "javascript:x", "data:,x", "http://h/é?x#y", "\x00", "C:\\x", "http://h:99999/", "http://user:pw@h/p"}

func runC01(c *Case) {
	var src, kind string
	names, srcs := fixtures()
	switch x := c.R.IntN(100); {
	case x < 25:
		kind, src = "special", c.specialPage()
	case x < 45:
		kind, src = "soup", soup(c, c.Int(0, 250))
	case x < 60 && len(srcs) > 0:
		i := c.R.IntN(len(srcs))
		kind, src = "fixture "+names[i], mutate(c, srcs[i])
	case x < 68: // deep nesting, closed or not
		d := c.Int(50, 1200)
		t := pick(c, "div", "span", "p", "section", "ul", "table", "b", "font", "a", "svg", "noscript", "x:y")
		kind = "deep"
		src = "<html><body>" + strings.Repeat("<"+t+soupAttrs(c)+">", d) + c.W.Prose(300, 5)
		if c.P(0.7) {
			src += strings.Repeat("</"+t+">", d)
		}
	case x < 76: // wide
		kind = "wide"
		el := pick(c, "<br/>", "<p>x</p>", "<div></div>", "<a href='#x'>y</a>", "<img/>", "<td>1</td>", "a<br/>", "<li><br/></li>", "<h2></h2>")
		src = "<html><body><div>" + strings.Repeat(el, c.Int(100, 3000)) + "</div>" + c.W.Prose(200, 3) + "</body></html>"
	case x < 86: // JSON-LD in an otherwise good page
		kind = "jsonld"
		p := c.Article(4)
		for i := c.Int(1, 3); i > 0; i-- {
			j := soupJSON(c, 0)
			p.Head.Add(E("script", A("type", "application/ld+json"), Raw(escText.Replace(j), j)))
		}
		src = p.Src()
	case x < 96: // a good page with odd parts
		kind = "odd-article"
		p := c.Article(c.Int(1, 6))
		for i := c.Int(1, 5); i > 0; i-- {
			p.Main.InsertKid(c.R.IntN(len(p.Main.Kids)+1), Raw(soupBit(c), ""))
		}
		src = p.Src()
	default:
		kind = "bytes"
		b := make([]byte, c.R.IntN(300))
		for i := range b {
			b[i] = pick(c, byte(c.R.IntN(256)), '<', '>', '/', '"', '=', ' ', 'a', 'p', '&', '!')
		}
		src = string(b)
		if c.P(0.5) {
			src = "<html><body>" + src
		}
	}
	uri := pick(c, oddURIs...)
	os := randOpts(c)
	c.Input("page", src)
	c.Input("uri", uri)
	c.Input("options", os.String())
	c.Count("kind_"+strings.Fields(kind)[0], 1)
	r, err := readability.New(src, uri, os.Options()...)
	if (r == nil) == (err == nil) {
		c.Fail("new-contract", "New returned r=%v err=%v", r != nil, err)
		return
	}
	if found, ok := bodyOracle(src); ok || src == "" {
		if want := src != "" && found; want != (err == nil) {
			c.Fail("new-verdict", "New err=%v, but the page has a body: %v", err, want)
			return
		}
		c.Count("new_verdicts", 1)
	}
	if err != nil {
		c.Count("rejected", 1)
	} else {
		c.Count("accepted", 1)
		c.Distinct(src, os.String())
		for i := 0; i < 2; i++ {
			res, err := r.Parse()
			if (res == nil) == (err == nil) {
				c.Fail("parse-contract", "Parse returned res=%v err=%v", res != nil, err)
				return
			}
			if res != nil {
				c.Count("parsed", 1)
			} else {
				c.Count("not_parsed", 1)
			}
		}
	}
	if readability.IsProbablyReaderable(src, os.Options()...) {
		c.Count("readerable", 1)
	}
	c.Sample("%s, %d bytes, %s", kind, len(src), clip(src, 200))
}

func soupBit(c *Case) string {
	s := soup(c, c.Int(1, 40))
	if i := strings.Index(s, "<body"); i >= 0 {
		s = s[i:]
		if j := strings.Index(s, ">"); j >= 0 {
			s = s[j+1:]
		}
	}
	return strings.TrimSuffix(s, "</body></html>")
}

var oddNumbers = []string{"", "0", "1", "2", "-1", "-9", "+3", " 4 ", "3.7", "1e9", "x", "12x", "0x10", "٣", "4", "10", "2147483647", "4294967296", "9223372036854775807", "-9223372036854775808", "99999999999999999999999"}

// specialPage is a good page with one or more of the constructs the pipeline treats specially, with extreme contents.
func (c *Case) specialPage() string {
	num := func() string { return pick(c, oddNumbers...) }
	ws := func() string { return pick(c, "", "", " ", "\n", "\u00a0", "<!---->", "<!-- x -->") }
	special := func() string {
		switch c.R.IntN(14) {
		case 0: // tables
			var b strings.Builder
			fmt.Fprintf(&b, `<table%s>`, pick(c, "", "", ` role="presentation"`, ` datatable="0"`, ` summary=""`, ` width="`+num()+`"`))
			cell := func() string { return "td" }
			if c.P(0.15) {
				cell = func() string { return pick(c, "td", "th") }
			}
			if c.P(0.15) {
				b.WriteString(pick(c, "<caption></caption>", "<caption>x</caption>", "<tbody></tbody>", "<tr></tr>", "<colgroup></colgroup>", "<thead/>", "<td>x</td>"))
			}
			for i := c.R.IntN(5); i > 0; i-- {
				fmt.Fprintf(&b, `<tr rowspan="%s">`, num())
				for j := c.R.IntN(6); j > 0; j-- {
					fmt.Fprintf(&b, `<%[1]s colspan="%[2]s" rowspan="%[3]s">%[4]s</%[1]s>`, cell(), num(), num(), pick(c, "", "x", "x", "x", "<p>y</p>", "<br/><br/>", "<table></table>"))
				}
				b.WriteString("</tr>")
			}
			return b.String() + "</table>"
		case 1: // pictures
			src := pick(c, "data:image/png;base64,AA", "DATA:image/gif; BASE64 ,x", "data:;base64,", "data: image/x ; base64 , ", "data:image/svg+xml;base64,QQ", "data:image/png;base64", "data:,", "base64", "", " ", "data:image/png;charset=x;base64,AA", "data:image/png;base64,"+strings.Repeat("A", c.Int(100, 140)))
			return fmt.Sprintf(`<%s src="%s" %s="%s" class="%s"></%[1]s>`, pick(c, "img", "picture", "figure", "source", "IMG"), src, pick(c, "srcset", "data-src", "data-srcset", "alt", "data-x"), pick(c, "", "null", "a.jpg", "a.jpg 1x", " , ", "a.png 1x,", ",", "a.webp 2w, b.webp 3w", ".jpg", "x.jpg\n y.png 7", "é.png"), pick(c, "", "lazy", "LAZY"))
		case 2: // pictures in noscript
			return pick(c, "", "<img/>", `<img src="a.jpg"/>`, "<div></div>", "<div> </div>", `<p><span><img src="b.png"/></span></p>`, "<picture></picture>", "x") + ws() +
				"<noscript>" + pick(c, "", " ", "x", "<div></div>", "<img/>", `<img src="c.jpg">`, `<img src="c.jpg"/><img/>`, `<div><img alt="c.jpg"/></div>`, "<picture></picture>", "<noscript></noscript>", "<!-- -->", "<a><img/></a>x") + "</noscript>"
		case 3: // links
			return fmt.Sprintf(`<a href="%s">%s</a>`, pick(c, "javascript:", " javascript:x", "JaVaScRiPt:%zz", "java&#9;script:1", ",%20", "a,%20b", "%20", "%", "#", "?", "//", "http://", "http://[", "http://a b/", ":", "\x7f", "data:,", "tel:1"),
				pick(c, "", "x", "<b>x</b>y", "<a href='javascript:y'>z</a>", "<br/>", "<img src='a.jpg'/>", " ", "<!-- -->", "<p>x</p>", "x<br/><br/>y"))
		case 4: // styles
			return fmt.Sprintf(`<p style="%s">%s</p>`, pick(c, ";", ";;", ":", "::", "display", "display:", ":none", "display:none:x", "visibility;", " ; : ; ", "display:;visibility", strings.Repeat("x:y;", 500)), c.W.Words(3))
		case 5: // names
			return fmt.Sprintf(`<%s class="%s" id="%s" rel="%s" itemprop="%s">%s</%[1]s>`, pick(c, "div", "p", "h1", "h2", "span", "section"), pick(c, " ", "\t", "\n x \n", "", "byline", "share", "page"), pick(c, "", "readability", "readability-page-1", " ", "title"), pick(c, "", "author", " "), pick(c, "", "author", "name author"), pick(c, "", " ", "x", c.W.Words(30), "<br/>"))
		case 6, 7: // line breaks
			s := ""
			for i := c.Int(1, 9); i > 0; i-- {
				s += pick(c, "<br/>", "<br/>", "<br/>", "<br></br>", "<br>", "</br>") + ws() + pick(c, "", "", "", "x", "<b>y</b>", "<p>z</p>", "<img src='a.jpg'/>", "<br/>", "<a><br/><br/></a>", "<table></table>")
			}
			t := pick(c, "p", "div", "a", "span", "td", "li", "h2", "pre", "blockquote", "b")
			return "<" + t + ">" + s + "</" + t + ">"
		case 8: // empty and single wrappers
			s := pick(c, "", " ", "x", "<br/>", "<hr/>", "<img src='a.jpg'/>", "<p></p>", "<p>x</p>", "<!-- -->", "<iframe></iframe>")
			for i := c.Int(1, 12); i > 0; i-- {
				t := pick(c, "div", "section", "p", "h2", "header", "article", "td", "center", "font", "span", "form", "ul", "li")
				s = "<" + t + ">" + ws() + s + ws() + "</" + t + ">"
			}
			return s
		case 9: // embeds
			t := pick(c, "iframe", "embed", "object", "video", "audio")
			return fmt.Sprintf(`<%s src="%s" data="x">%s</%[1]s>`, t, pick(c, "//youtube.com/x", "", "x", "http://player.vimeo.com/1"), pick(c, "", "<param name='x' value='//www.youtube.com/'/>", "<embed src='//archive.org'/>", "<object></object>", "text"))
		case 10: // lists and forms
			return pick(c, "<ul></ul>", "<ul><li></li></ul>", "<form></form>", "<form><input/><input/></form>", "<fieldset><legend>x</legend></fieldset>", "<ul>"+strings.Repeat("<li><img src='a.jpg'/></li>", c.Int(1, 200))+"</ul>", "<ul><a></a></ul>", "<div><ul></ul></div>", "<select><option>x</option></select>")
		case 11: // headings
			t := pick(c, "h1", "h2", "h3", "h6")
			return "<" + t + ">" + pick(c, "", " ", ":", "é", "日本", "x: y", "!!!", "<br/>", "&amp;", "1") + "</" + t + ">"
		case 12: // references and text
			return pick(c, "&", "&#", "&#;", "&#x;", "&#0;", "&#xD800;", "&#xFFFF;", "&#99999;", "&#x10FFFF;", "&amp", "&lt;p&gt;", "<![CDATA[", "<![CDATA[]]>", "<![CDATA[x]]>y", "<", "</", "< p", "<!", "<?x?>", "\x00", "\xff\xfe", "]]>")
		default:
			return fmt.Sprintf(`<%s dir="%s" lang="%[2]s" hidden="" aria-hidden="%[2]s">%[3]s</%[1]s>`, pick(c, "div", "html", "body", "head", "title", "base", "meta"), pick(c, "", "rtl", "true"), pick(c, "x", "", "<p>x</p>"))
		}
	}
	n := c.R.IntN(5)
	if c.P(0.2) {
		n = 0
	}
	p := c.Article(n)
	for i := c.Int(1, 8); i > 0; i-- {
		k := special()
		if c.P(0.3) || len(p.Main.Kids) == 0 {
			p.Body.InsertKid(c.R.IntN(len(p.Body.Kids)+1), Raw(k, ""))
		} else {
			p.Main.InsertKid(c.R.IntN(len(p.Main.Kids)+1), Raw(k, ""))
		}
	}
	for _, e := range []*El{p.HTML, p.Head, p.Body, p.Main} {
		if c.P(0.03) {
			e.Set(pick(c, "hidden", "style", "role", "class", "aria-hidden", "aria-modal", "dir", "id"), pick(c, "", "display:none", "dialog", "menu", "byline", "true", "comment"))
		}
	}
	if c.P(0.4) {
		p.Head.Add(E("title", pick(c, "", " ", ":", ": ", " : ", "a: ", ": b", " | ", "|", " - ", "a - ", " » b", "::", "a:b: c", strings.Repeat("x ", 100), "x", "é»è", " \\ ", "/ ")))
	}
	if c.P(0.3) {
		p.Head.Add(E("meta", A(pick(c, "name", "property"), pick(c, "", " ", "og:title", "dc.creator", ":title", "article:", "og:title og:title", "description"), "content", pick(c, "", " ", "&", "&#99999999;", "&#xD800;", "x"))))
	}
	if c.P(0.2) {
		p.Head.Add(E("base", A("href", pick(c, "", " ", "%zz", "//", "http://[::1", "javascript:x", "/a", "http://h:b/"))))
	}
	return p.Src()
}
