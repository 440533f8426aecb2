package main

import (
	"fmt"
	"strings"

	readability "github.com/giulianopz/go-readability"
)

func init() {
	register(&Prop{ID: "C22", Quick: 50000, Thorough: 750000, Run: runC22,
		Rule: "an article with 0-5 elements marked (or nearly marked) as author in every way, with texts of 0 to 300 characters around the limits, before, in and after the article, nested, hidden or within furniture, with and without metadata byline; lang and dir attributes on any of root, body, outer block, parent, main block and elements below or beside; oracle: document-order model of the statement; distinct by (markers, lengths, positions, dir placements)",
		Min: map[string]int{"bylines": 3000, "no_byline": 800, "skipped_by_length": 800, "skipped_hidden": 300, "from_metadata": 800, "boundary": 800, "later_kept": 500, "nested": 200, "lang": 3000, "dir": 3000, "dir_elsewhere": 500, "body_article": 500, "retried": 500, "dir_of_attempt": 500}})
}

func (c *Case) authorMark() ([]Attr, string) {
	switch c.R.IntN(5) {
	case 0:
		return A("rel", "author"), "rel"
	case 1:
		return A("itemprop", pick(c, "author", "author", "author creator", "co-author", "name author")), "itemprop"
	default:
		w := c.letterCase(pick(c, "byline", "author", "dateline", "writtenby", "p-author"))
		n := pick(c, w, w, "x-"+w, w+"-name", "t "+w, w+" z", "my"+w)
		return A(pick(c, "class", "class", "id"), n), "name"
	}
}

func (c *Case) notAuthor() []Attr {
	return pick(c, A("rel", "nofollow"), A("rel", "me"), A("itemprop", "name"), A("itemprop", "publisher"), A("class", "by-line"), A("class", "auth"), A("id", "writer"), A("class", "credit"), A("data-author", "x"), A("title", "author"), A("href", "/author"), nil)
}

func runC22(c *Case) {
	if c.P(0.1) {
		c.dirOfAttempt()
		return
	}
	c.W.Mode = pick(c, 0, 0, 0, 1)
	p := c.Article(c.Int(8, 10))
	p.Main.Attrs = nil
	p.Main.Tag = pick(c, "div", "div", "article") // a section would count as a paragraph of its parent
	sig := ""
	type cand struct {
		el   *El
		text string
		ok   bool // counts if it is the first
		in   bool // a plain part of the article otherwise
	}
	var first *cand
	var cands []*cand
	before, after := []*El{}, []*El{}
	n := pick(c, 0, 1, 1, 2, 3, 5)
	for i := 0; i < n; i++ {
		at, how := c.authorMark()
		ok := true
		if c.P(0.2) {
			at, how, ok = c.notAuthor(), "not", false
		}
		l := pick(c, 0, 1, 20, 50, 98, 99, 99, 100, 100, 101, 300, c.Int(5, 60))
		text := ""
		switch {
		case l == 0:
		case l < 6:
			text = "xyzuv"[:l]
		default:
			text = c.W.Exactly(l)
		}
		if l >= 98 && l <= 101 {
			c.Count("boundary", 1)
		}
		if ok && (l == 0 || l > 99) {
			ok = false
			c.Count("skipped_by_length", 1)
		}
		raw := text
		if c.P(0.3) {
			raw = pick(c, " ", "\n ", "", "\u00a0", "\r\n\t") + text + pick(c, " ", "\n\t", "", "\u00a0\u00a0", "\r\n")
		}
		tag := pick(c, "p", "p", "span", "div", "a", "address", "h4", "em", "section", "li")
		e := E(tag, at, raw)
		if l > 12 && c.P(0.3) {
			r := []rune(raw)
			k := len(r) / 2
			e.Kids = nil
			e.Add(string(r[:k]), E(pick(c, "b", "a", "span"), string(r[k:])))
		}
		outer := e
		if tag == "li" {
			outer = E("ul", e)
		}
		cd := &cand{el: e, text: text, ok: ok}
		switch c.R.IntN(9) {
		case 0: // hidden: as if it were not there
			h, _ := c.hide()
			if c.P(0.5) {
				outer = E(pick(c, "div", "p"), h, outer)
			} else {
				for _, a := range h { // itself
					if !e.Has(a.K) {
						e.Set(a.K, a.V)
					}
				}
				if !e.Has(h[0].K) || e.Get(h[0].K) != h[0].V { // not hidden after all
					outer = E("div", A("style", "display:none"), outer)
				}
			}
			cd.ok = false
			c.Count("skipped_hidden", 1)
			how += " hidden"
		case 1:
			outer = E("div", A("class", pick(c, neutralUnlikely...)), outer)
			if strings.Contains(outer.Get("class"), "and") || strings.Contains(outer.Get("class"), "author") {
				outer.Set("class", "menu")
			}
			cd.ok = false
			how += " furniture"
		case 2: // in a marked container that is too long itself
			if ok {
				m, _ := c.authorMark()
				outer = E("div", m, outer, E("p", c.W.Prose(150, 2)))
				how += " nested"
				c.Count("nested", 1)
			}
		}
		where := pick(c, "before", "in", "after")
		sig += fmt.Sprint(tag, how, l, where, " ")
		switch where {
		case "before":
			before = append(before, outer)
		case "after":
			after = append(after, outer)
		default:
			if outer == e && !strings.HasSuffix(how, " hidden") && (tag == "p" || tag == "em" || tag == "h4") && l > 0 {
				cd.in = true
			}
			c.Slip(p.Main, outer)
		}
		cands = append(cands, cd)
	}
	// where the main block stands
	dirs := map[string]string{}
	dir := func(e *El, where string, prob float64) {
		if c.P(prob) {
			v := pick(c, "rtl", "ltr", "rtl", "ltr", "rtl", "auto", "RTL", "Ltr", "rtl ", "x")
			e.Set("dir", v)
			dirs[where] = v
			c.Count("dir", 1)
			sig += "dir:" + where + " "
		}
	}
	p.Body.Kids = nil
	order := []string{"parent", "self", "outer", "body", "html"}
	if c.P(0.15) {
		// paragraphs right in the body
		p.Body.Add(before, p.Main.Kids, after)
		order = []string{"body", "html"}
		c.Count("body_article", 1)
	} else {
		filler := func() *El { return E("hr") }
		parent := E(pick(c, "div", "article", "main"), filler(), p.Main, filler())
		outer := E("div", filler(), parent, E("p", c.W.Tok()))
		p.Body.Add(before, outer, after)
		dir(parent, "parent", 0.25)
		dir(p.Main, "self", 0.3)
		dir(outer, "outer", 0.3)
	}
	dir(p.Body, "body", 0.2)
	dir(p.HTML, "html", 0.3)
	if c.P(0.3) { // below or beside the block: of no account
		p.Paras[c.R.IntN(len(p.Paras))].Set("dir", "ltr")
		p.Body.Add(E("p", A("dir", "rtl"), c.W.Tok()))
		c.Count("dir_elsewhere", 1)
	}
	wantDir := ""
	for _, w := range order {
		if wantDir == "" {
			wantDir = dirs[w]
		}
	}
	lang := ""
	if c.P(0.6) {
		lang = pick(c, "en", "de-CH", "zh-Hans", "x", "fr ", "EN", "\u00e9t", "en-US-x-"+strings.Repeat("a1-", 120)+"z")
		p.HTML.Set("lang", lang)
		c.Count("lang", 1)
	}
	if c.P(0.3) {
		p.Body.Set("lang", "xx")
		p.Main.Set("lang", "yy")
	}
	metaBy := ""
	if c.P(0.2) {
		metaBy = c.W.Words(2)
		p.Head.Add(E("meta", A("name", "author", "content", metaBy)))
		c.Count("from_metadata", 1)
	}
	byEl := map[*El]*cand{}
	for _, cd := range cands {
		byEl[cd.el] = cd
	}
	p.HTML.Walk(func(e *El) bool {
		if cd := byEl[e]; cd != nil && cd.ok && first == nil {
			first = cd
		}
		return true
	})
	src := p.Src()
	if c.P(0.2) {
		src = p.HTML.Fuzzy(c)
	}
	c.Input("marks", sig)
	limit := pick(c, 500, 500, 0, 1000)
	if n == 0 && c.P(0.5) { // all attempts give the same
		limit = 1 << 30
		c.Count("retried", 1)
	}
	o := c.Extract(src, pageURI, readability.CharThreshold(limit))
	if o == nil || !c.checkMain(o, p) {
		return
	}
	want := ""
	if first != nil {
		want = first.text
		c.Count("bylines", 1)
	} else {
		c.Count("no_byline", 1)
	}
	if metaBy != "" {
		want = metaBy
	}
	if o.Res.Byline != want {
		c.Fail("byline", "Byline is %q, want %q (%s)", o.Res.Byline, want, sig)
		return
	}
	if first != nil && runes(first.text) > 6 {
		for _, t := range tokens(first.text) {
			if o.Has(t) {
				c.Fail("byline-in-article", "the byline %q is a part of the article (%s)", first.text, sig)
				return
			}
		}
	}
	for _, cd := range cands {
		if cd.in && cd != first {
			c.Count("later_kept", 1)
			for _, t := range tokens(cd.text) {
				if runes(t) >= 6 && !o.Has(t) {
					c.Fail("not-byline-lost", "%q is not the byline, but its element was removed from the article (%s)", cd.text, sig)
					return
				}
			}
		}
	}
	if o.Res.Lang != lang {
		c.Fail("lang", "Lang is %q, want %q", o.Res.Lang, lang)
		return
	}
	if o.Res.Dir != wantDir {
		c.Fail("dir", "Dir is %q, want %q (%v)", o.Res.Dir, wantDir, dirs)
		return
	}
	c.Distinct(sig, lang)
	c.Sample("%s lang %q dir %v → byline %q", sig, lang, dirs, o.Res.Byline)
}

// dirOfAttempt has several blocks, each with a direction of its own, of which different attempts may choose different
// ones: the direction is that of the block which is in the result.
func (c *Case) dirOfAttempt() {
	p := c.NewPage()
	type block struct {
		toks []string
		dir  string
	}
	var blocks []block
	sig := ""
	for i := c.Int(2, 3); i > 0; i-- {
		in := E("div")
		var toks []string
		for j := c.Int(1, 5); j > 0; j-- {
			para := E("p", c.W.Prose(c.Int(30, 400), c.R.IntN(12)))
			toks = append(toks, tokens(para.Inner())...)
			in.Add(para)
		}
		name := func(e *El) {
			if c.P(0.5) {
				e.Set(pick(c, "class", "id"), pick(c, pick(c, positiveWords...), pick(c, positiveWords...), "supplemental", "menu", "x"))
				sig += e.Get("class") + e.Get("id")
			}
		}
		name(in)
		for j := c.Int(1, 4); j > 0; j-- {
			in = E(pick(c, "section", "div", "section"), in)
			name(in)
			if c.P(0.3) {
				in.Add(E("hr"))
			}
			sig += ">" + in.Tag
		}
		b := block{toks: toks}
		if i > 1 || c.P(0.7) {
			b.dir = pick(c, "rtl", "ltr", "auto")
			in.Set("dir", b.dir)
		}
		sig += " " + b.dir + " "
		p.Body.Add(in)
		blocks = append(blocks, b)
	}
	all := ""
	if c.P(0.3) {
		all = pick(c, "rtl", "ltr", "auto")
		pick(c, p.HTML, p.Body).Set("dir", all)
	}
	limit := pick(c, 1<<30, 1<<30, 1000, 500)
	o := c.Extract(p.Src(), pageURI, readability.CharThreshold(limit))
	if o == nil {
		return
	}
	var got []block
	for _, b := range blocks {
		for _, t := range b.toks {
			if o.Has(t) {
				got = append(got, b)
				break
			}
		}
	}
	if len(got) != 1 {
		return
	}
	want := got[0].dir
	if want == "" {
		want = all
	}
	for _, b := range blocks {
		if b.dir != want && b.dir != all {
			c.Count("dir_of_attempt", 1)
			break
		}
	}
	if o.Res.Dir != want && o.Res.Dir != all { // the extracted block may also be the body, or a child of it, of which the parent comes first
		c.Fail("dir", "Dir is %q, but the article is the block with the direction %q (%s; all %q)", o.Res.Dir, want, sig, all)
		return
	}
	c.Distinct("attempts", sig)
}
