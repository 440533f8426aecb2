package main

// wild builds a well-formed subtree out of everything the pipeline treats specially.

var wildBlocks = []string{"div", "div", "div", "p", "p", "p", "section", "article", "ul", "ol", "table", "blockquote", "pre", "h1", "h2", "h3", "h4", "header", "footer", "aside",
	"nav", "form", "fieldset", "figure", "main", "center", "dl", "address", "details", "svg", "x-foo", "td", "li"}
var wildInlines = []string{"a", "a", "b", "i", "em", "strong", "span", "span", "font", "code", "small", "sub", "del", "ins", "q", "cite", "label", "time", "mark", "o:p", "button", "kbd", "abbr"}

func (c *Case) wildText() string {
	s := ""
	if c.P(0.2) {
		s = pick(c, " ", "\n", "  ", "\n\t")
	}
	switch c.R.IntN(6) {
	case 0:
		s += c.W.Tok()
	case 1, 2:
		s += c.W.Words(c.Int(1, 6))
	case 3:
		s += c.W.Tok() + pick(c, " & ", " < ", " > ", `"`, "'", "&amp;", "&lt;b&gt;", "&#60;", "\u00a0", "  ", "\n", " a<b ", "<p>", "</div>", "<!-- x -->", "<br/>", "; ", "]]>", "\u200b", "日本，", "é", "\u00ad", "\u2060", "\ufeff", "\u200d", "\u2028", "\u0301", "\U0001F468\u200D\U0001F469", "\t", "\f", "\u3000", "\ufffd", "\u202e", "\ue000", "\u2026", "\u2014", "%", "\\n", "${x}") + c.W.Tok()
	case 4:
		s += c.W.Prose(c.Int(20, 120), c.R.IntN(4))
	default:
		s += c.W.Prose(c.Int(80, 400), c.R.IntN(12))
	}
	if c.P(0.2) {
		s += pick(c, " ", "\n", "  ", "\n\t")
	}
	return s
}

func (c *Case) wildAttrs() []Attr {
	var r []Attr
	if c.P(0.15) {
		r = append(r, Attr{"class", pick(c, soupClasses...)})
	}
	if c.P(0.1) {
		r = append(r, Attr{"id", pick(c, soupClasses...)})
	}
	if c.P(0.03) {
		r = append(r, Attr{"style", pick(c, "display:none", "color:red", "visibility:hidden", "display:block")})
	}
	if c.P(0.02) {
		r = append(r, Attr{pick(c, "hidden", "align", "data-x", "rel", "itemprop", "title", "dir"), pick(c, "author", "x", "true", "")})
	}
	if c.P(0.02) {
		r = append(r, Attr{"role", pick(c, "dialog", "menu", "presentation", "main", "button")})
	}
	return r
}

func (c *Case) wild(depth int) *El {
	if depth <= 0 || c.P(0.25) {
		return &El{Text: c.wildText()}
	}
	if c.P(0.12) {
		return c.wildBit()
	}
	tag := ""
	if c.P(0.55) {
		tag = pick(c, wildBlocks...)
	} else {
		tag = pick(c, wildInlines...)
	}
	e := E(tag, c.wildAttrs())
	switch tag {
	case "a":
		e.Set("href", pick(c, "#x", "/y", "http://h/z", "javascript:void(0)", "", " JAVASCRIPT:x"))
	case "ul", "ol":
		for i := c.Int(1, 4); i > 0; i-- {
			e.Add(E("li", c.wildAttrs(), c.wildKids(depth-2)))
			if c.P(0.5) {
				e.Add("\n")
			}
		}
		return e
	case "table":
		body := E("tbody")
		for i := c.Int(1, 3); i > 0; i-- {
			tr := E("tr")
			for j := c.Int(1, 3); j > 0; j-- {
				tr.Add(E(pick(c, "td", "td", "td", "th"), c.wildKids(depth-2)))
			}
			body.Add(tr)
		}
		return e.Add(body)
	}
	return e.Add(c.wildKids(depth - 1))
}

func (c *Case) wildKids(depth int) []*El {
	var r []*El
	for i := c.R.IntN(4) + c.R.IntN(3); i >= 0; i-- {
		r = append(r, c.wild(depth))
		if c.P(0.06) {
			r = append(r, c.breaks(depth)...)
		}
		if c.P(0.15) {
			r = append(r, &El{Text: pick(c, " ", "\n", "\n  ")})
		}
	}
	return r
}

// breaks is text separated by runs of line breaks, with all kinds of neighbours.
func (c *Case) breaks(depth int) []*El {
	var r []*El
	ws := func() {
		if c.P(0.4) {
			r = append(r, &El{Text: pick(c, " ", "\n", "  \n ", "\t")})
		}
	}
	for i := c.Int(1, 3); i > 0; i-- {
		for k := c.Int(1, 3); k > 0; k-- {
			r = append(r, E("br"))
			ws()
			if c.P(0.1) {
				r = append(r, Raw("<!-- "+c.W.Tok()+" -->", ""))
			}
		}
		for k := c.Int(0, 3); k > 0; k-- {
			switch c.R.IntN(8) {
			case 0, 1, 2:
				r = append(r, &El{Text: pick(c, "", " ", "\n") + c.W.Words(c.Int(1, 5)) + pick(c, "", "", " ", "  ", "\n ")})
			case 3:
				r = append(r, E(pick(c, "b", "i", "a", "span", "code", "label"), c.W.Words(c.Int(1, 3))))
			case 4:
				r = append(r, E(pick(c, "video", "audio", "iframe", "object", "svg", "x-y", "canvas", "button"), c.W.Words(c.Int(1, 3))))
			case 5:
				r = append(r, E(pick(c, "div", "p", "ul", "table", "h3", "blockquote", "pre"), c.W.Words(c.Int(1, 6))))
			case 6:
				r = append(r, E("img", A("src", "a.jpg")))
			default:
				r = append(r, c.wild(depth-2))
			}
			ws()
		}
	}
	return r
}

// wildBit is something small and special.
func (c *Case) wildBit() *El {
	switch c.R.IntN(9) {
	case 0, 1:
		return E("br")
	case 2:
		e := E("span")
		for i := c.Int(2, 4); i > 0; i-- {
			e.Add(E("br"))
			if c.P(0.4) {
				e.Add(pick(c, " ", "\n"))
			}
		}
		e.Tag = pick(c, "div", "p", "span", "td")
		return e.Add(c.wildText())
	case 3:
		return E("img", A(pick(c, "src", "data-src", "alt"), pick(c, "a.jpg", "data:image/gif;base64,AA", "b")))
	case 4:
		return E("hr")
	case 5:
		return E("noscript", E("img", A("src", "x.jpg")))
	case 6:
		return E(pick(c, "script", "style", "textarea", "select", "input", "iframe", "link"), A("src", "x"))
	case 7:
		return Raw("<!-- "+c.W.Tok()+" -->", "")
	default:
		t := c.W.Words(2) + pick(c, "", " a < b & c", " <i>", "&amp;")
		return Raw("<![CDATA["+t+"]]>", t)
	}
}

// wildPage is a page of wild content, from a few words to a long text.
func (c *Case) wildPage() *Page {
	p := c.NewPage()
	if c.P(0.2) {
		p.Body.Attrs = c.wildAttrs()
		if p.Body.Has("hidden") || p.Body.Has("style") || p.Body.Has("role") {
			p.Body.Attrs = nil
		}
	}
	for i := c.Int(1, 8); i > 0; i-- {
		if c.P(0.3) {
			p.Body.Add(c.Para())
		}
		p.Body.Add(c.wild(c.Int(1, 6)))
	}
	return p
}

// texts lists the text nodes of the page body in document order.
func (p *Page) texts() []string {
	var r []string
	p.Body.Walk(func(n *El) bool {
		if n.Tag == "" && n.Text != "" {
			r = append(r, n.Text)
		}
		return true
	})
	return r
}
