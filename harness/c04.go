package main

import (
	"fmt"
	"strings"

	readability "github.com/giulianopz/go-readability"
)

func init() {
	register(&Prop{ID: "C04", Quick: 15000, Thorough: 225000, Run: runC04,
		Rule: "pages with one dominant block of prose: container, depth, sectioning, paragraph style, inline markup, lists, quotes, preformatted text, pictures, surrounding page furniture and text script vary; every piece of the block must be in the result; non-trivial: all cases; distinct by structure (tags, classes)",
		Min:  map[string]int{"pieces": 30000, "images": 1000, "long_articles": 50, "huge_paragraphs": 50}})
}

// richPara is a paragraph with inline markup.
func (c *Case) richPara() *El {
	p := E("p")
	n := c.Int(1, 4)
	for i := 0; i < n; i++ {
		p.Add(c.W.Prose(c.Int(70, 160), c.Int(1, 3)) + " ")
		if c.P(0.6) {
			t := c.W.Words(c.Int(1, 3))
			e := E(pick(c, "b", "i", "em", "strong", "span", "code", "mark", "sub", "sup", "q", "cite", "small", "abbr", "font", "u", "del", "ins", "time", "kbd"), t)
			if c.P(0.2) {
				e = E(pick(c, "em", "strong", "span"), e)
			}
			p.Add(e, " ")
		}
		if c.P(0.15) {
			p.Add(E("a", A("href", pick(c, "/a/b", "http://other.example/", "#note", "?q=1")), c.W.Tok()), " ")
		}
		if c.P(0.08) {
			p.Add(E("br"))
		}
		if c.P(0.05) {
			p.Add(E("img", A("src", c.pic()+".jpg", "data-k", "k"+fmt.Sprint(i))))
		}
	}
	return p
}

// pic is a fresh image address without extension.
func (c *Case) pic() string {
	m := c.W.Mode
	c.W.Mode = 0
	t := c.W.Tok()
	c.W.Mode = m
	return "http://fakehost.example/i/" + t
}

// picture is an image in one of the ways to write one.
func (c *Case) picture() *El {
	i := E("img", A("src", c.pic()+pick(c, ".jpg", ".png", "", ".gif", "?w=1")))
	switch c.R.IntN(4) {
	case 0:
		return E("picture", E("source", A("srcset", c.pic()+".webp", "type", "image/webp")), i)
	case 1:
		i.Set(pick(c, "alt", "title"), c.W.Words(2))
	}
	return i
}

// blocks are the pieces of a story.
func (c *Case) blocks(n int) []*El {
	var r []*El
	style := c.R.IntN(5)
	for i := 0; i < n; i++ {
		p := c.richPara()
		switch style {
		case 1: // text directly in divs
			p.Tag = "div"
		case 2: // each paragraph wrapped
			p = E("div", p)
		case 3: // mixed
			if c.P(0.4) {
				p = E("div", "\n", p, "\n")
			}
		}
		r = append(r, p)
		switch c.R.IntN(16) {
		case 11: // a picture in wrappers, with line breaks or rules around it
			b := c.picture()
			for d := c.Int(0, 3); d > 0; d-- {
				b = E(pick(c, "div", "p", "section", "span", "a", "figure", "b"), b)
				if b.Tag == "a" {
					b.Set("href", "/a/b")
				}
				for k := c.R.IntN(3); k > 0; k-- {
					x := E("br")
					if (b.Tag == "div" || b.Tag == "section") && c.P(0.4) {
						x = E("hr")
					}
					b.InsertKid(c.R.IntN(len(b.Kids)+1), x)
				}
				if c.P(0.2) {
					b.Add(" ")
				}
			}
			r = append(r, b)
		case 9: // text beside a single element
			inner := E(pick(c, "div", "section", "p", "div", "blockquote"), c.richPara(), c.richPara())
			b := E(pick(c, "section", "section", "article", "blockquote", "div"))
			if c.P(0.6) {
				b.Add(pick(c, "", " ", "\n") + c.W.Words(c.Int(1, 8)) + pick(c, "", " ", "\n "))
			}
			b.Add(inner)
			if len(b.Kids) == 1 || c.P(0.4) {
				b.Add(pick(c, "", " ", "\n") + c.W.Words(c.Int(1, 8)) + pick(c, "", " ", "\n "))
			}
			if c.P(0.2) {
				b = E("section", b)
			}
			if c.P(0.4) { // text in several pieces, with comments between them
				b.Add(pick(c, " ", "\n", ""), Raw("<!-- "+c.W.Tok()+" -->", ""), c.W.Words(c.Int(1, 8)))
				if c.P(0.3) {
					b.Add(Raw("<!---->", ""), "\n")
				}
			}
			if c.P(0.2) {
				b.InsertKid(0, &El{Text: c.W.Words(c.Int(1, 5))})
				b.InsertKid(1, Raw("<!--x-->", ""))
				b.InsertKid(2, &El{Text: " "})
			}
			r = append(r, b)
		case 0:
			r = append(r, E(pick(c, "h2", "h3", "h4", "h5"), c.W.Words(c.Int(2, 6))))
		case 1:
			l := E(pick(c, "ul", "ol"))
			for k := c.Int(1, 6); k > 0; k-- {
				li := E("li", c.W.Words(c.Int(1, 12)))
				if c.P(0.3) {
					li.Add(" ", E("b", c.W.Tok()))
				}
				l.Add(li)
			}
			r = append(r, l)
		case 10: // a long list, with or without a few words of its own
			if c.longList {
				break
			}
			c.longList = true
			l := E(pick(c, "ul", "ol"))
			for k := c.Int(7, 40); k > 0; k-- {
				l.Add(E("li", c.W.Words(c.Int(1, 6))), pick(c, "", "\n"))
			}
			switch c.R.IntN(3) {
			case 0:
				r = append(r, l)
			case 1:
				r = append(r, E("div", E(pick(c, "h3", "p", "b"), c.W.Words(c.Int(2, 5))), l))
			default: // with text that is not in the list, short of the paragraphs it would take
				for k := c.Int(0, 60) - len(l.Kids)/2; k > 0; k-- {
					l.Add(E("li", c.W.Words(c.Int(1, 3))))
				}
				b := E("div", c.W.Prose(c.Int(100, 400), 1), l)
				for k := c.Int(0, 3); k > 0; k-- {
					b.Add(E("p", c.W.Prose(c.Int(100, 400), 1)))
				}
				r = append(r, b)
			}
		case 2:
			r = append(r, E("blockquote", E("p", c.W.Prose(c.Int(40, 200), 2))))
		case 3:
			r = append(r, E("pre", c.W.Words(3)+"\n  "+c.W.Words(4)+"\n"))
		case 4:
			f := E("figure", E("img", A("src", c.pic()+pick(c, ".jpg", ".png", "", ".gif"), "alt", c.W.Tok())))
			if c.P(0.6) {
				f.Add(E("figcaption", c.W.Words(c.Int(2, 8))))
			}
			r = append(r, f)
		case 5:
			r = append(r, E("hr"))
		case 6:
			r = append(r, E("p", E("img", A("src", c.pic()+".jpg"))))
		case 7:
			r = append(r, E("p", c.W.Words(c.Int(1, 3))))
		case 8:
			r = append(r, E("dl", E("dt", c.W.Words(2)), E("dd", c.W.Words(5))))
		}
	}
	return r
}

// furniture is something around the article that is not it.
func (c *Case) furniture() *El {
	links := func(n int) *El {
		u := E("ul")
		for i := 0; i < n; i++ {
			u.Add(E("li", E("a", A("href", "/l"), c.W.Words(c.Int(1, 3)))))
		}
		return u
	}
	switch c.R.IntN(7) {
	case 0:
		return E("nav", links(c.Int(3, 10)))
	case 1:
		return E("div", A("class", pick(c, "sidebar", "menu", "footer", "social", "related")), links(c.Int(2, 6)), E("p", c.W.Words(5)))
	case 2:
		return E("footer", E("p", c.W.Words(4)), links(3))
	case 3:
		return E("aside", E("h3", c.W.Words(2)), E("p", c.W.Prose(90, 1)))
	case 4:
		return E("div", E("a", A("href", "/"), c.W.Words(2)))
	case 5:
		return E("header", E("h3", c.W.Words(2)), links(2))
	default:
		return E("form", E("input", A("name", "q")), E("button", c.W.Tok()))
	}
}

func runC04(c *Case) {
	c.W.Mode = pick(c, 0, 0, 0, 1, 2)
	p := c.NewPage()
	main := E(pick(c, "div", "div", "article", "section", "main", "td"))
	if main.Tag != "td" {
		switch c.R.IntN(3) {
		case 0:
			main.Set("class", pick(c, "article", "content", "entry", "post", "story-body", "x1", "wrapper", "col-8"))
		case 1:
			main.Set("id", pick(c, "article", "content", "post", "story", "x2", "q"))
		}
	}
	switch c.R.IntN(4) {
	case 0: // sectioned
		for i := c.Int(2, 5); i > 0; i-- {
			s := E(pick(c, "div", "section"))
			s.Add(c.blocks(c.Int(3, 6)))
			main.Add(s)
		}
		most := 0
		for _, s := range main.Kids {
			most = max(most, commaCount(s.Inner()))
		}
		for _, s := range main.Kids { // no section is small beside another one
			for commaCount(s.Inner()) < max(16, most/2) {
				s.Add(E("p", c.W.Prose(250, 4)))
			}
		}
	case 1: // continuous text separated by line breaks
		for i := c.Int(6, 12); i > 0; i-- {
			main.Add(c.W.Prose(c.Int(150, 300), c.Int(2, 5)), E("br"), pick(c, "", " ", "\n"), E("br"))
			if c.P(0.3) {
				main.Add(E("b", c.W.Words(2)))
			}
		}
	default:
		n := c.Int(8, 16)
		if c.P(0.02) {
			n = pick(c, 60, 150, 300)
			c.Count("long_articles", 1)
		}
		main.Add(c.blocks(n))
		if c.P(0.02) {
			main.InsertKid(c.R.IntN(len(main.Kids)+1), E("p", c.W.Prose(pick(c, 5000, 20000, 40000, 70000), c.Int(5, 100))))
			c.Count("huge_paragraphs", 1)
		}
	}
	if c.P(0.5) { // white space as people write it
		var ks []*El
		for _, k := range main.Kids {
			ks = append(ks, k)
			if k.Tag != "" && !strings.Contains("br b", k.Tag) {
				ks = append(ks, &El{Text: "\n", Up: main})
			}
		}
		main.Kids = ks
	}
	top := main
	if main.Tag == "td" {
		top = E("table", E("tbody", E("tr", main)))
	}
	for d := c.R.IntN(4); d > 0; d-- {
		top = E(pick(c, "div", "div", "section", "main"), top)
		if c.P(0.3) {
			top.InsertKid(c.R.IntN(2), c.furniture())
		}
	}
	for i := c.R.IntN(3); i > 0; i-- {
		p.Body.Add(c.furniture())
	}
	p.Body.Add(top)
	for i := c.R.IntN(3); i > 0; i-- {
		p.Body.Add(c.furniture())
	}
	src := "<!DOCTYPE html>" + p.HTML.Fuzzy(c)
	var opts []readability.Option
	if c.P(0.3) {
		opts = append(opts, readability.NTopCandidates(pick(c, 1, 2, 5, 20)))
	}
	o := c.Extract(src, pageURI, opts...)
	if o == nil {
		return
	}
	sig := ""
	pieces := 0
	main.Walk(func(n *El) bool {
		sig += n.Tag + " "
		switch {
		case n.Tag == "" && !isWS(n.Text):
			pieces++
			if !strings.Contains(o.Res.TextContent, n.Text) {
				c.Fail("piece-lost", "not in the result: %q in <%s>", n.Text, n.Up.Tag)
			}
		case n.Tag == "img":
			pieces++
			c.Count("images", 1)
			if o.Tree.Find(func(m *El) bool { return m.Tag == "img" && m.Get("src") == n.Get("src") }) == nil {
				c.Fail("image-lost", "not in the result: %s in %s", show(n), show(n.Up))
			}
		}
		return true
	})
	// inline and block structure survives too
	for _, t := range []string{"b", "i", "em", "strong", "code", "mark", "sub", "sup", "q", "li", "blockquote", "pre", "h3", "h4", "h5", "figcaption", "figure", "dt", "dd", "hr", "a"} {
		want, got := len(main.All(t)), len(o.Tree.All(t))
		if got < want {
			c.Fail("element-lost", "%d of %d <%s> elements of the article are in the result", got, want, t)
		}
		pieces += want
	}
	c.Count("pieces", pieces)
	c.Distinct(sig, top.Tag)
	c.Sample("%d pieces: %s", pieces, clip(src, 300))
}
