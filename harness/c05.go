package main

import (
	"strings"

	readability "github.com/giulianopz/go-readability"
)

func init() {
	register(&Prop{ID: "C05", Quick: 30000, Thorough: 450000, Run: runC05,
		Rule: "a clear article with marked blocks in it and around it: every keyword x class/id x letter case x surrounding name x element x position, with look-alike controls that must stay; non-trivial: all cases; distinct by (mark, attribute, element, position)",
		Min:  map[string]int{"marked_blocks": 3000, "controls": 2000, "roles": 400, "roles_with_retries": 100}})
}

var furnitureWords = []string{"-ad-", "ai2html", "banner", "breadcrumbs", "combx", "comment", "community", "cover-wrap", "disqus", "extra", "footer", "gdpr", "header", "legends", "menu", "related", "remark", "replies", "rss", "shoutbox", "sidebar", "skyscraper", "social", "sponsor", "supplemental", "ad-break", "agegate", "pagination", "pager", "popup", "yom-remote"}
var contentWords = []string{"and", "article", "body", "column", "content", "main", "shadow"}
var leftOutRoles = []string{"menu", "menubar", "complementary", "navigation", "alert", "alertdialog", "dialog"}

var inlineTags = []string{"span", "b", "i", "em", "strong", "cite", "abbr", "q", "small", "label", "time", "code", "kbd", "samp", "var", "sub", "sup", "mark", "u", "s", "del", "ins", "dfn", "bdi", "bdo", "font", "big", "tt", "data", "output", "ruby", "x-tag"}

// no furniture word and no content word is part of these
var nearWords = []string{"foot", "head", "headline", "heading", "reply", "remar", "pages", "relation", "society", "communal", "ad", "advert", "adbreak", "promo", "widget", "rs", "sponge", "sideba", "side-bar", "bread-crumbs", "breadcrumb", "men", "tags", "media", "nav", "navbar", "combo", "com", "ai2htm", "ban", "ext", "gdp", "shout", "sky", "supplement", "age-gate", "paging", "pop-up", "yom", "covers", "disq", "legend", "hero", "masthead", "sponso", "repl-ies"}

func (c *Case) letterCase(s string) string {
	switch c.R.IntN(4) {
	case 0:
		return strings.ToUpper(s)
	case 1:
		return strings.ToUpper(s[:1]) + s[1:]
	case 2:
		b := []byte(s)
		i := c.R.IntN(len(b))
		b[i] = strings.ToUpper(string(b[i]))[0]
		return string(b)
	}
	return s
}

func (c *Case) furnitureName() (name, word string) {
	word = pick(c, furnitureWords...)
	w := c.letterCase(word)
	name = w
	switch c.R.IntN(5) {
	case 0:
		name = pick(c, "x", "foo-", "site_", "zz ", "t1 ") + w
	case 1:
		name = w + pick(c, "s", "-x", "_2", " zz", "Box")
	case 2:
		name = pick(c, "k-", "q ") + w + pick(c, "-y", " u")
	}
	return
}

// bulk is content that would be kept if it were not marked.
func (c *Case) bulk() []*El {
	r := []*El{c.Para()}
	for i := c.R.IntN(3); i > 0; i-- {
		r = append(r, c.Para())
	}
	return r
}

func runC05(c *Case) {
	n := c.Int(10, 14)
	thr := 500
	if c.P(0.25) {
		n, thr = c.Int(3, 5), 0
	}
	p := c.Article(n)
	type mark struct {
		el   *El
		desc string
	}
	var out []mark
	var keep []mark
	used := map[*El]bool{}
	place := func(e *El, leaf bool) string {
		switch c.R.IntN(6) {
		case 0:
			p.Body.InsertKid(c.R.IntN(len(p.Body.Kids)+1), e)
			return "beside"
		case 1:
			w := E(pick(c, "div", "section"), c.Para(), e, c.Para())
			c.Slip(p.Main, w)
			return "nested"
		case 2:
			if leaf {
				q := pick(c, p.Paras...)
				if !used[q] {
					used[q] = true
					q.Add(" ", e)
					return "inline"
				}
			}
		case 3:
			// the only child of a div
			c.Slip(p.Main, E("div", pick(c, "", "\n"), e))
			return "wrapped"
		}
		c.Slip(p.Main, e)
		return "inside"
	}
	for i := c.Int(1, 3); i > 0; i-- {
		name, word := c.furnitureName()
		attr := pick(c, "class", "id")
		var e *El
		leaf := false
		switch c.R.IntN(6) {
		case 0:
			e = E("p", c.W.Prose(c.Int(30, 300), 2))
		case 1:
			e = E(pick(c, "span", pick(c, inlineTags...)), c.W.Words(c.Int(2, 8)))
			leaf = true
		case 2:
			e = E(pick(c, "h1", "h2", "h3", "h4", "h5", "h6", "blockquote", "pre", "address", "hgroup", "figcaption", "details", "summary", "dl", "center"), c.W.Words(c.Int(3, 12)))
		case 3:
			e = E(pick(c, "ul", "ol"), E("li", c.W.Words(9)), E("li", c.W.Words(7)))
		default:
			e = E(pick(c, "div", "div", "section", "article", "header", "main", "figure", "form", "fieldset", "nav", "center", "x-block"), c.bulk())
		}
		e.Set(attr, name)
		if c.P(0.2) {
			e.Set(pick(c, "class", "id"), name)
		}
		pos := place(e, leaf)
		out = append(out, mark{e, word + "/" + attr + "/" + e.Tag + "/" + pos})
	}
	var roles []mark
	if c.P(0.4) {
		r := pick(c, leftOutRoles...)
		e := E(pick(c, "div", "section", "ul", "ol", "p", "span", "aside", "article", "nav", "form", "h2", "blockquote", "table", "figure", "b", "cite", "a"), A("role", r))
		e.Add(c.W.Prose(c.Int(30, 300), 3))
		pos := place(e, strings.Contains(" span b cite a ", " "+e.Tag+" "))
		roles = append(roles, mark{e, "role " + r + "/" + e.Tag + "/" + pos})
		c.Count("roles", 1)
	}
	// look-alikes that have to stay
	for i := c.Int(1, 3); i > 0; i-- {
		name, word := c.furnitureName()
		var e *El
		switch c.R.IntN(8) {
		case 6, 7: // names that only resemble the words
			w := c.letterCase(pick(c, nearWords...))
			e = E(pick(c, "p", "p", "h3", "blockquote", "span"), A(pick(c, "class", "id"), pick(c, w, "x-"+w, w+" y")), c.W.Prose(60, 1))
			word = "near " + w
			c.Slip(p.Main, e)
		case 0, 1: // content is named as well
			w := c.letterCase(pick(c, contentWords...))
			e = E("p", A(pick(c, "class", "id"), pick(c, name+" "+w, w+"-"+name)), c.W.Prose(60, 1))
			word += "+" + w
			c.Slip(p.Main, e)
		case 2: // one in the class, the other in the id
			w := pick(c, contentWords...)
			e = E("p", A("class", name, "id", w), c.W.Prose(60, 1))
			word += "/" + w
			c.Slip(p.Main, e)
		case 3: // links
			e = E("a", A("href", "/x", "class", name), c.W.Words(2))
			pick(c, p.Paras...).Add(" ", e)
			word += " link"
		case 4: // in a table
			e = E(pick(c, "p", "span"), A(pick(c, "class", "id"), name), c.W.Words(4))
			row := E("tr", E("th", c.W.Tok()), E("td", e))
			switch c.R.IntN(4) {
			case 0:
				c.Slip(p.Main, E("table", A("summary", c.W.Tok()), row))
			case 1:
				row.Kids[1].Kids = []*El{E("i", e)}
				c.Slip(p.Main, E("table", A("summary", c.W.Tok()), row))
			default:
				c.Slip(p.Main, E("table", A("summary", c.W.Tok()), E("tbody", row)))
			}
			word += " in a table"
		default: // in code
			e = E("span", A("class", name), c.W.Words(2))
			in := e
			for j := pick(c, 0, 0, 1, 2, 3); j > 0; j-- {
				in = E(pick(c, "span", "b", "i", "samp"), c.W.Tok()+" ", in)
			}
			c.Slip(p.Main, E("pre", E("code", c.W.Words(3), in)))
			word += " in code"
		}
		keep = append(keep, mark{e, word})
	}
	if c.P(0.2) {
		r := pick(c, "main", "article", "presentation", "note", "region", "button", "Menu", "navigation2", "")
		e := E("p", A("role", r), c.W.Prose(60, 1))
		c.Slip(p.Main, e)
		keep = append(keep, mark{e, "role " + r})
	}
	if c.P(0.15) { // the body is never furniture
		name, _ := c.furnitureName()
		p.Body.Set(pick(c, "class", "id"), name)
	}
	src := p.Src()
	o := c.Extract(src, pageURI, readability.CharThreshold(thr))
	if o == nil || !c.checkMain(o, p) {
		return
	}
	for _, m := range append(out, roles...) {
		for _, t := range tokens(m.el.Inner()) {
			if o.Has(t) {
				c.Fail("furniture-extracted", "%q of the block marked %s is in the article: %s", t, m.desc, show(m.el))
				return
			}
		}
		c.Distinct(m.desc)
		c.Count("marked_blocks", 1)
	}
	for _, m := range keep {
		for _, t := range tokens(m.el.Inner()) {
			if !o.Has(t) {
				c.Fail("content-dropped", "%q of %s is missing: %s", t, m.desc, show(m.el))
				return
			}
		}
		c.Count("controls", 1)
	}
	if len(roles) > 0 { // in every attempt
		if res, err := Try(src, pageURI, readability.CharThreshold(1<<30)); err == nil {
			for _, t := range tokens(roles[0].el.Inner()) {
				if strings.Contains(res.TextContent, t) {
					c.Fail("role-extracted", "%q of %s is in the article after retries: %s", t, roles[0].desc, show(roles[0].el))
					return
				}
			}
			c.Count("roles_with_retries", 1)
		} else {
			c.Fail("unexpected-error", "%v", err)
		}
	}
	c.Sample("left out: %s", out[0].desc)
}
