package main

import (
	"fmt"
	"strings"

	readability "github.com/giulianopz/go-readability"
)

func init() {
	register(&Prop{ID: "C06", Quick: 50000, Thorough: 750000, Run: runC06,
		Rule: "an article or a short page with hidden elements: every way of hiding x spelling x element x position x number of retries, with visible look-alikes that must stay; non-trivial: all cases; distinct by (way, element, position, threshold)",
		Min:  map[string]int{"hidden": 4000, "with_retries": 1000, "look_alikes": 2000, "hidden_images": 300}})
}

// hide returns attributes that hide an element.
func (c *Case) hide() ([]Attr, string) {
	sp := func() string { return pick(c, "", "", " ", "  ", "\n") }
	decl := pick(c, "display", "display", "visibility")
	val := "none"
	if decl == "visibility" {
		val = "hidden"
	}
	d := sp() + decl + sp() + ":" + sp() + val + sp()
	switch c.R.IntN(14) {
	case 12: // many plain declarations, some before and some after
		pre, post := "", ""
		for k := pick(c, 5, 13, 35, 70); k > 0; k-- {
			pre += pick(c, "color:red", "margin:0", "font: 12px serif", "z-index:1", "top:0", "left : 1px") + ";"
		}
		for k := c.R.IntN(4); k > 0; k-- {
			post += pick(c, ";color:red", ";margin:0", ";", "; top:0;")
		}
		return A("style", pre+d+post), decl + " after very many"
	case 13: // many attributes, the hiding one at the end
		var as []Attr
		for k := pick(c, 4, 12, 35); k > 0; k-- {
			as = append(as, A(fmt.Sprintf("data-k%d", k), pick(c, "", "x", "hidden", "true"))...)
		}
		if c.P(0.5) {
			return append(as, A(pick(c, "hidden"), "")...), "hidden after many attributes"
		}
		return append(as, A("style", decl+":"+val)...), decl + " after many attributes"
	case 9: // empty and broken declarations
		pre := ""
		for k := c.Int(1, 4); k > 0; k-- {
			pre += pick(c, ";", "; ;", " ;", "color:red;", "color:red;;", "color;", "margin : 0 ;", "color:;", ":;", ":none;", "width:1px:2px;", "--x-y:none;", "\n;", "float:LEFT;", "*zoom:1;")
		}
		return A("style", pre+d+pick(c, "", ";", ";;", ";color:red")), decl + " after odd declarations"
	case 10: // many declarations
		pre := ""
		for k := c.Int(3, 20); k > 0; k-- {
			pre += pick(c, "color", "margin", "-webkit-x", "background-image", "font", "z-index", "overflow", "opacity", "display-x", "xdisplay", "visibility-x") + sp() + ":" + sp() + pick(c, "red", "0", "10px 20px", "url('a:b')", "none", "hidden", "auto !important") + sp() + ";"
		}
		return A("style", pre+d), decl + " after many"
	case 11:
		if c.P(0.5) {
			return A("style", "visibility:visible;display:none"), "display after visible"
		}
		return A("style", "display:block;"+sp()+"visibility:hidden"), "visibility after block"
	case 0:
		return A("style", decl+":"+val), decl
	case 1:
		return A("style", d+pick(c, "", ";", ";;")), decl + " spaced"
	case 2:
		return A("style", "color: red;"+d+";width:1px"), decl + " among others"
	case 3:
		return A("style", "background: url(http://x.example/a.png); "+d), decl + " after url"
	case 4:
		return A("hidden", pick(c, "", "hidden", "true", "false", "until-found")), "hidden"
	case 5:
		return A("aria-hidden", "true"), "aria-hidden"
	case 6:
		return A("aria-hidden", "true", "class", pick(c, "article", "content", "fallback", "image-fallback x")), "aria-hidden with class"
	case 7:
		return A("aria-modal", "true", "role", "dialog"), "modal"
	default:
		return A("role", "dialog", "class", "content", "aria-modal", "true"), "modal with class"
	}
}

func (c *Case) lookAlike() []Attr {
	return pick(c,
		A("aria-hidden", "false"), A("aria-hidden", ""), A("style", "display:block"), A("style", "display:inline; visibility:visible"),
		A("style", "visibility:collapse"), A("style", "x-display:none"), A("style", "color:none"), A("style", "display:hidden"), A("style", "visibility:none"),
		A("aria-modal", "true"), A("aria-modal", "false"), A("data-hidden", "hidden"), A("title", "hidden"), A("class", "hidden"), A("class", "display-none"),
		A("aria-hidden", "true", "class", "fallback-image"), A("aria-hidden", "true", "class", "x fallback-image y"), A("style", ""), A("style", "display"), A("style", ";"), A("style", "display:"), A("style", ":none"), A("style", "color:red;;width:0"), A("style", "display:nonesuch"), A("style", "display:none-x"), A("style", "background:url(x;y)"), A("aria-hidden", "TRUE"), A("aria-hidden", "1"), A("role", "Dialog", "aria-modal", "true"), A("role", "dialogue", "aria-modal", "true"), A("style", "display:table"), A("style", "visibility:hidden-x"))
}

func runC06(c *Case) {
	short := c.P(0.35)
	var p *Page
	if short {
		p = c.Article(c.Int(1, 2))
	} else {
		p = c.Article(c.Int(6, 12))
	}
	thr := pick(c, 500, 500, 0, 5000, 1<<30)
	type mark struct {
		el   *El
		desc string
	}
	var hidden, seen []mark
	for i := c.Int(1, 4); i > 0; i-- {
		at, way := c.hide()
		var e *El
		leaf := false
		switch c.R.IntN(10) {
		case 0:
			e = E("span", c.W.Words(3))
			leaf = true
		case 1:
			e = E(pick(c, "b", "em", "a", "font", "label", "button", pick(c, inlineTags...)), c.W.Words(2))
			leaf = true
		case 2:
			e = E("img", A("src", "http://fakehost.example/"+c.W.Tok()+".jpg"))
			leaf = true
		case 3:
			e = E(pick(c, "ul", "ol"), E("li", c.W.Words(5)), E("li", c.W.Words(5)))
		case 4:
			e = E("p", c.W.Prose(c.Int(20, 300), 2))
		case 5:
			e = E(pick(c, "h1", "h2", "h3", "h4", "pre", "blockquote", "address", "dl", "details"), c.W.Words(6))
		case 6:
			e = E("table", A("summary", "x"), E("tbody", E("tr", E("td", c.W.Words(4)), E("td", c.W.Words(4)))))
		case 7:
			e = E("figure", E("img", A("src", "http://fakehost.example/"+c.W.Tok()+".png")), E("figcaption", c.W.Words(3)))
		default:
			e = E(pick(c, "div", "section", "article", "main", "header", "form", "center", "nav", "x-block"), c.bulk())
		}
		if c.P(0.1) { // also marked as the byline
			e.Attrs = append(e.Attrs, pick(c, A("rel", "author"), A("itemprop", "author"), A("id", "byline"))...)
		}
		e.Attrs = append(e.Attrs, at...)
		pos := ""
		switch x := c.R.IntN(7); {
		case leaf:
			pick(c, p.Paras...).InsertKid(0, e)
			pos = "inline"
		case x == 0:
			p.Body.InsertKid(c.R.IntN(len(p.Body.Kids)+1), e)
			pos = "beside"
		case x == 1: // only child of a div
			p.Main.InsertKid(c.R.IntN(len(p.Main.Kids)+1), E("div", pick(c, "", "\n "), e))
			pos = "wrapped"
		case x == 2:
			p.Main.InsertKid(c.R.IntN(len(p.Main.Kids)+1), E("div", c.Para(), e))
			pos = "nested"
		case x == 3: // hidden wrapper with more structure inside
			e = E("div", at, E("div", E("p", c.W.Prose(120, 2))), E("span", c.W.Tok()))
			p.Main.InsertKid(c.R.IntN(len(p.Main.Kids)+1), e)
			pos = "deep"
		case x == 4: // in a cell or list item
			p.Main.InsertKid(c.R.IntN(len(p.Main.Kids)+1), E("ul", E("li", c.W.Words(5)), E("li", e, c.W.Words(4))))
			pos = "in a list"
		default:
			p.Main.InsertKid(c.R.IntN(len(p.Main.Kids)+1), e)
			pos = "inside"
		}
		hidden = append(hidden, mark{e, way + "/" + e.Tag + "/" + pos})
	}
	for i := c.Int(0, 3); i > 0; i-- {
		e := E("p", c.lookAlike(), c.W.Prose(60, 1))
		p.Main.InsertKid(c.R.IntN(len(p.Main.Kids)+1), e)
		seen = append(seen, mark{e, fmt.Sprint(e.Attrs)})
	}
	src := p.HTML.Fuzzy(c)
	o := c.Extract(src, pageURI, readability.CharThreshold(thr))
	if o == nil {
		return
	}
	if thr > 500 || short {
		c.Count("with_retries", 1)
	}
	for _, m := range hidden {
		for _, t := range tokens(m.el.Inner()) {
			if o.Has(t) {
				c.Fail("hidden-extracted", "%q of an element hidden by %s is in the article: %s", t, m.desc, show(m.el))
				return
			}
		}
		m.el.Walk(func(n *El) bool {
			if n.Tag == "img" {
				c.Count("hidden_images", 1)
				if strings.Contains(o.Res.HTMLContent, n.Get("src")) {
					c.Fail("hidden-picture", "the picture of an element hidden by %s is in the article: %s", m.desc, show(m.el))
				}
			}
			return true
		})
		c.Count("hidden", 1)
		c.Distinct(m.desc, thr)
	}
	if !short {
		if !c.checkMain(o, p) {
			return
		}
		for _, m := range seen {
			for _, t := range tokens(m.el.Inner()) {
				if !o.Has(t) {
					c.Fail("visible-dropped", "%q of the visible %s is missing: %s", t, m.desc, show(m.el))
					return
				}
			}
			c.Count("look_alikes", 1)
		}
	}
	c.Sample("hidden by %s, threshold %d", hidden[0].desc, thr)
}
