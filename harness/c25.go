package main

import (
	"fmt"
	"math"
	"strings"

	readability "github.com/giulianopz/go-readability"
)

func init() {
	register(&Prop{ID: "C25", Quick: 25000, Thorough: 375000, Run: runC25,
		Rule: "articles with headings h1-h6 (0-3 of them repeating the title with changed case, punctuation, order or extra words), font elements, empty paragraphs and blocks, chains of wrappers, and texts separated by runs of 1-5 line breaks with white space, comments, scripts and styles between them in every kind of container; plus fixtures, mutated fixtures and random pages for the shape of the result; oracle: scan of the result for forbidden shapes, and the place of every text relative to its neighbours; distinct by structure",
		Min:  map[string]int{"pages_scanned": 4000, "break_runs": 4000, "single_breaks": 2500, "segments": 6000, "title_copies_removed": 1200, "second_copies_kept": 300, "near_copies_kept": 500, "h1": 2500, "fonts": 1500, "wrappers": 2000, "wrapper_attributes": 1000, "empties": 3000, "divs_seen": 10000}})
}

// The elements which belong to running text.
var runningTags = []string{"abbr", "audio", "b", "bdo", "cite", "code", "data", "dfn", "em", "i", "kbd", "label", "mark", "math", "meter", "output", "progress", "q", "ruby", "samp", "small", "span", "strong", "sub", "sup", "time", "var", "del", "ins"}

// scanShape looks for what the result must not contain.
func (c *Case) scanShape(o *Out) bool {
	c.Count("pages_scanned", 1)
	if x := o.Tree.All("h1", "font"); len(x) > 0 {
		c.Fail("tag-left", "the article contains %s", show(x[0]))
		return false
	}
	for _, p := range o.Tree.All("p") {
		if isWS(p.Inner()) && len(p.All("img", "embed", "object", "iframe")) == 0 {
			c.Fail("empty-paragraph", "the article contains the empty paragraph %s in %s", show(p), show(p.Up))
			return false
		}
	}
	for _, d := range o.Tree.All("div", "section") {
		if strings.HasPrefix(d.Get("id"), "readability") {
			continue
		}
		c.Count("divs_seen", 1)
		ks := d.Elems()
		if isWS(d.Inner()) {
			only := true
			for _, k := range ks {
				only = only && (k.Tag == "br" || k.Tag == "hr") && len(k.Elems()) == 0
			}
			if only {
				c.Fail("empty-block", "the article contains the empty block %s in %s", show(d), show(d.Up))
				return false
			}
		}
		if len(ks) == 1 && (ks[0].Tag == "div" || ks[0].Tag == "section") {
			own := ""
			for _, k := range d.Kids {
				if k.Tag == "" {
					own += k.Text
				}
			}
			if isWS(own) {
				c.Fail("mere-wrapper", "the article contains a mere wrapper: %s", show(d))
				return false
			}
		}
	}
	return true
}

func (e *El) path(tag string) *El {
	for u := e; u != nil; u = u.Up {
		if u.Tag == tag {
			return u
		}
	}
	return nil
}

// where finds the text node of the tree that holds the token.
func (e *El) where(tok string) *El {
	var r *El
	e.Walk(func(x *El) bool {
		if r == nil && x.Tag == "" && strings.Contains(x.Text, tok) {
			r = x
		}
		return r == nil
	})
	return r
}

func runC25(c *Case) {
	if c.P(0.12) {
		c.shapeOfAny()
		return
	}
	c.W.Mode = 0
	p := c.Article(c.Int(4, 7))
	sig := p.Main.Tag
	// headings
	type heading struct {
		el   *El
		dup  bool
		near float64
		text string
	}
	var heads []*heading
	words := strings.Fields(p.Title)
	for i := c.some(0, 1, 2, 3, 4); i > 0; i-- {
		h := &heading{}
		ws := append([]string{}, words...)
		how := pick(c, "same", "case", "order", "punctuation", "more", "part", "other", "other", "half", "repeat", "repeat", "times")
		switch how {
		case "case":
			for j := range ws {
				ws[j] = c.letterCase(ws[j])
			}
		case "order":
			ws = shuffle(c, ws)
		case "punctuation":
			ws[len(ws)/2] += pick(c, ",", ":", " –", "!")
		case "more":
			ws = append(ws, strings.Fields(c.W.Words(c.Int(1, 4)))...)
		case "part":
			ws = ws[:c.Int(1, len(ws))]
		case "other":
			ws = strings.Fields(c.W.Words(c.Int(2, 6)))
		case "repeat": // words of the title or other words, several times
			for j, x := 0, c.W.Tok(); j < c.Int(1, 6); j++ {
				switch c.R.IntN(3) {
				case 0:
					ws = append(ws, pick(c, words...))
				case 1:
					ws = append(ws, x)
				default:
					ws = append(ws, c.letterCase(x))
				}
			}
			if c.P(0.3) {
				ws = shuffle(c, ws)
			}
		case "times":
			for j := c.Int(1, 4); j > 0; j-- {
				ws = append(ws, words...)
			}
		case "half":
			for j := range ws {
				if c.P(0.3) {
					ws[j] = c.W.Tok()
				}
			}
		}
		h.text = strings.Join(ws, " ")
		l := likeness(p.Title, h.text)
		if math.Abs(l-0.75) < 1e-9 {
			continue
		}
		h.near = l
		h.el = E(pick(c, "h1", "h2", "h1", "h2", "h3", "h5"), A("data-h", fmt.Sprint("h", i)), h.text)
		if c.P(0.2) && len(ws) > 2 {
			k := strings.LastIndex(h.text, " ")
			h.el.Kids = nil
			h.el.Add(h.text[:k]+" ", E("em", h.text[k+1:]))
		}
		h.dup = l > 0.75 && (h.el.Tag == "h1" || h.el.Tag == "h2")
		if h.el.Tag == "h1" {
			c.Count("h1", 1)
		}
		heads = append(heads, h)
		sig += fmt.Sprint(" ", h.el.Tag, how)
		c.Slip(p.Main, h.el)
	}
	if c.P(0.004) { // very many headings
		for i := c.Int(31, 60); i > 0; i-- {
			c.Slip(p.Main, E("h1", c.W.Words(c.Int(2, 4))))
		}
		c.Count("very_many", 1)
	}
	// headings which hold only a picture
	var pics []*El
	for i := pick(c, 0, 0, 0, 1, 2); i > 0; i-- {
		h := E(pick(c, "h1", "h1", "h2", "h4"), A("data-h", fmt.Sprint("i", i)), E("img", A("src", "/"+c.W.Tok()+".jpg")))
		if h.Tag == "h1" {
			c.Count("h1", 1)
		}
		pics = append(pics, h)
		sig += " pic" + h.Tag
		c.Slip(p.Main, h)
	}
	// font
	var fonts []*El
	for i := c.some(0, 0, 1, 2); i > 0; i-- {
		f := E("font", A("data-f", c.W.Tok(), "color", "red"), c.W.Words(3), E("b", c.W.Tok()), c.W.Tok())
		if c.P(0.3) {
			f.Add(E("font", A("data-f", c.W.Tok()), c.W.Words(2)))
		}
		c.Slip(p.Main, E("p", c.W.Words(3), f, c.W.Words(2)))
		fonts = append(fonts, f.All("font")...)
		if len(fonts) == 0 || fonts[len(fonts)-1] != f {
			fonts = append(fonts, f)
		}
		c.Count("fonts", 1)
		sig += " font"
	}
	// empties
	for i := c.some(0, 0, 1, 3); i > 0; i-- {
		ws := func() string { return pick(c, "", " ", "\n\t", "\u00a0", "", strings.Repeat(" ", c.Int(1, 3000))) }
		var e *El
		switch c.R.IntN(10) {
		case 8: // a table with nothing in its only cell
			e = E("table", E("tr", E("td", ws())))
			if c.P(0.5) {
				e.Kids[0].Kids[0].Add(E(pick(c, "span", "p", "div", "br"), ws()))
			}
		case 9: // nothing is left of it
			e = E(pick(c, "div", "section"), E(pick(c, "script", "style", "aside", "footer", "input", "button"), ""), ws())
		case 0:
			e = E("p", ws())
		case 1:
			e = E(pick(c, "div", "section"), ws())
		case 2:
			e = E("p", ws(), E(pick(c, "span", "b", "a"), ws()), ws())
		case 3:
			e = E(pick(c, "div", "section"), E("br"), ws(), E("hr"))
		case 4:
			e = E(pick(c, "div", "section"), E("p", ws()), ws(), E("section", E("p"), ws()))
		case 5:
			e = E("section", E("section", E("p", ws())), E("div", c.Para(), c.Para()))
		case 6:
			e = E(pick(c, "h1", "h2", "h3", "h4", "h5", "h6"), A("data-none", "1"), ws())
		default:
			e = E("section", E("section", E("section", E("p"))), E("section", E("div", ws()), E("p", E("br"))))
		}
		c.Count("empties", 1)
		sig += " empty"
		c.Slip(p.Main, e)
	}
	// chains of wrappers
	type chain struct {
		first string
		attrs map[string]string
		text  []string
	}
	var chains []*chain
	for i := c.some(0, 1, 2); i > 0; i-- {
		ch := &chain{first: "", attrs: map[string]string{}}
		in := E(pick(c, "div", "section"), c.Para(), c.Para())
		ch.first = tokens(in.Inner())[0]
		ch.text = tokens(in.Inner())
		sig += " " + in.Tag
		put := func(e *El) {
			if c.P(0.6) {
				k, v := pick(c, "data-a", "data-b", "lang", "title", "data-c", "id"), c.W.Tok()
				if k == "id" {
					v = fmt.Sprint("w", c.Int(1, 9999), pick(c, "", "-readability", "readabilityx"))
				}
				e.Set(k, v)
				ch.attrs[k] = v // the outer one counts
			}
		}
		put(in)
		for d := c.Int(0, 4); d > 0; d-- {
			in = E(pick(c, "div", "section"), pick(c, "", " ", "\n"), in, pick(c, "", "\n"))
			put(in)
			sig += ">" + in.Tag
			c.Count("wrappers", 1)
		}
		c.Slip(p.Main, in)
		chains = append(chains, ch)
	}
	// line breaks
	type seg struct {
		toks   []string // one of each piece
		extra  int      // of these follow no line break
		after  bool     // stands after a run
		before string   // a text before the run
		block  string   // a text in a block that ends the segment
	}
	var segs []*seg
	for i := c.some(0, 1, 1, 2); i > 0; i-- {
		tag := pick(c, "div", "div", "p", "section", "blockquote", "li", "td", "span", "pre")
		b := E(tag)
		sig += " br:" + tag
		prev, run := "", 0
		var cur *seg
		for k := c.Int(2, 6); k > 0; k-- {
			t := c.W.Prose(c.Int(60, 120), 1)
			tk := tokens(t)[0]
			switch {
			case run >= 2 || cur == nil:
				cur = &seg{after: run >= 2, before: prev}
				segs = append(segs, cur)
				c.Count("segments", 1)
			}
			cur.toks = append(cur.toks, tk)
			ws := pick(c, "", " ", "\n")
			if c.P(0.02) {
				ws = strings.Repeat(pick(c, " ", "\n"), c.Int(1000, 3000))
			}
			if c.P(0.3) {
				in := pick(c, "b", "em", "span", "a", "code", "ins", pick(c, runningTags...), pick(c, runningTags...))
				if in == "a" && (tag == "div" || tag == "p" || tag == "li" || tag == "span") { // it would be a block of links
					in = "i"
				}
				b.Add(ws, E(in, t), ws)
			} else {
				b.Add(ws + t + ws)
			}
			if c.P(0.1) {
				b.Add(pick(c, E("wbr"), E("img", A("src", "/"+c.W.Tok()+".jpg")), E("sup", c.W.Tok())), " "+c.W.Words(2))
			} else if c.P(0.04) { // an inline element which is left out of the article does not part its surroundings
				u := tokens(c.W.Words(2))
				cur.toks = append(cur.toks, u[0])
				cur.extra++
				b.Add(pick(c, E("input"), E("input", A("type", "hidden")), E("button"), E("select", E("option", "1")), E("textarea"), E("object"), E("datalist", E("option"))), " "+strings.Join(u, " "))
				c.Count("left_out_inline", 1)
			}
			prev = tokens(t)[len(tokens(t))-1]
			if k > 1 && c.P(0.1) && tag != "p" && tag != "span" && tag != "pre" { // a block instead of line breaks
				q := E(pick(c, "ul", "blockquote", "div"), "")
				q.Kids = nil
				qt := c.W.Words(9)
				switch q.Tag {
				case "ul":
					q.Add(E("li", qt))
				default:
					q.Add(E("p", qt))
				}
				cur.block = tokens(qt)[0]
				b.Add(q)
				cur, run, prev = nil, 0, ""
				sig += "b"
				continue
			}
			run = pick(c, 1, 2, 2, 2, 3, 5)
			sig += fmt.Sprint(run)
			if run >= 2 {
				c.Count("break_runs", 1)
			} else if k > 1 {
				c.Count("single_breaks", 1)
			}
			for j := 0; j < run; j++ {
				if j > 0 {
					b.Add(pick(c, "", "", " ", "\n", "\t \n"))
					switch c.R.IntN(12) {
					case 0:
						b.Add(Raw("<!-- "+c.W.Tok()+" -->", ""))
					case 1:
						b.Add(E("script", Raw("var x", "")))
					case 2:
						b.Add(E("style", Raw("p{}", "")))
					}
				}
				b.Add(E("br"))
			}
		}
		switch tag {
		case "li":
			b = E("ul", E("li", c.W.Prose(80, 2)), b, E("li", c.W.Prose(90, 2)))
		case "td":
			b = E("table", A("summary", "s"), E("tr", E("th", c.W.Tok()), E("th", c.W.Tok())), E("tr", b, E("td", c.W.Tok())))
		case "span":
			b = E("p", b)
		}
		c.Slip(p.Main, b)
	}
	src := p.Src()
	if c.P(0.2) {
		src = p.HTML.Fuzzy(c)
	}
	var opts []readability.Option
	if c.P(0.1) {
		opts = append(opts, readability.CharThreshold(1_000_000))
		sig += " retried"
	}
	o := c.Extract(src, pageURI, opts...)
	if o == nil || !c.checkMain(o, p) || !c.scanShape(o) {
		return
	}
	if e := o.Tree.ByAttr("data-none", "1"); e != nil {
		c.Fail("empty-heading", "the article contains the empty heading %s (%s)", show(e), sig)
		return
	}
	// headings
	gone := false
	byEl := map[*El]*heading{}
	for _, h := range heads {
		byEl[h.el] = h
	}
	p.HTML.Walk(func(e *El) bool {
		h := byEl[e]
		if h == nil || c.failed {
			return true
		}
		g := o.Tree.ByAttr("data-h", e.Get("data-h"))
		if h.dup && !gone {
			gone = true
			c.Count("title_copies_removed", 1)
			if g != nil {
				c.Fail("title-copy", "the article repeats its title %q: %s (likeness %.3f)", p.Title, show(e), h.near)
			}
			return true
		}
		if h.dup {
			c.Count("second_copies_kept", 1)
		} else if h.near > 0.3 {
			c.Count("near_copies_kept", 1)
		}
		want := e.Tag
		if want == "h1" {
			want = "h2"
		}
		if g == nil || g.Tag != want || squeeze(strings.TrimSpace(g.Inner())) != squeeze(h.text) || len(g.Elems()) != len(e.Elems()) {
			c.Fail("heading", "the heading %s (likeness to the title %q %.3f) should be in the article as %s, found %v", show(e), p.Title, h.near, want, g != nil)
		}
		return true
	})
	if c.failed {
		return
	}
	for _, h := range pics {
		want := strings.Replace(h.Tag, "h1", "h2", 1)
		if g := o.Tree.ByAttr("data-h", h.Get("data-h")); g == nil || g.Tag != want || len(g.All("img")) != 1 {
			c.Fail("heading", "the heading %s should be in the article as %s, found %v", show(h), want, g != nil)
			return
		}
	}
	for _, f := range fonts {
		g := o.Tree.ByAttr("data-f", f.Get("data-f"))
		if g == nil || g.Tag != "span" || g.Inner() != f.Inner() || len(g.All("b")) != len(f.All("b")) || g.Get("color") != f.Get("color") {
			c.Fail("font", "%s is not in the article as a span with the same content", show(f))
			return
		}
	}
	for _, ch := range chains {
		n := o.Tree.where(ch.first)
		if n == nil {
			c.Fail("text-lost", "%q, wrapped in blocks, is not in the article (%s)", ch.first, sig)
			return
		}
		blk := n.Up
		for blk != nil && blk.Tag != "div" && blk.Tag != "section" {
			blk = blk.Up
		}
		for _, t := range ch.text {
			if blk == nil || !strings.Contains(blk.Inner(), t) {
				c.Fail("text-lost", "%q, wrapped in blocks, is not with its neighbours (%s)", t, sig)
				return
			}
		}
		for k, v := range ch.attrs {
			c.Count("wrapper_attributes", 1)
			if blk.Get(k) != v {
				c.Fail("wrapper-attribute", "%s of a wrapper should be %q on the element it wraps: %s (%s)", k, v, show(blk), sig)
				return
			}
		}
	}
	for _, s := range segs {
		var home *El
		for i, t := range s.toks {
			n := o.Tree.where(t)
			if n == nil {
				c.Fail("text-lost", "%q, separated by line breaks, is not in the article (%s)", t, sig)
				return
			}
			if i == 0 {
				home = n.path("p")
			}
			if !s.after {
				continue
			}
			if home == nil {
				c.Fail("no-paragraph", "%q stands after a run of line breaks, but is not in a paragraph: %s (%s)", t, show(n.Up), sig)
				return
			}
			if n.path("p") != home {
				c.Fail("torn", "%q is separated from %q by one line break, but is in another paragraph (%s)", t, s.toks[0], sig)
				return
			}
		}
		if s.after {
			if s.before != "" && strings.Contains(home.Inner(), s.before) {
				c.Fail("not-separated", "%q and %q are separated by a run of line breaks, but are in one paragraph (%s)", s.before, s.toks[0], sig)
				return
			}
			if s.block != "" && strings.Contains(home.Inner(), s.block) {
				c.Fail("block-swallowed", "%q is in a block after %q, but is in its paragraph (%s)", s.block, s.toks[0], sig)
				return
			}
			n := 0
			for _, br := range home.All("br") {
				_ = br
				n++
			}
			if n != len(s.toks)-1-s.extra {
				c.Fail("break-lost", "the paragraph of %q has %d line breaks, want %d: %s (%s)", s.toks[0], n, len(s.toks)-1-s.extra, show(home), sig)
				return
			}
		}
	}
	// no run remains
	for _, br := range o.Tree.All("br") {
		ks, at := br.Up.Kids, -1
		for i, k := range ks {
			if k == br {
				at = i
			}
		}
		for at++; at < len(ks) && ks[at].Tag == "" && isWS(ks[at].Text); at++ {
		}
		if at < len(ks) && ks[at].Tag == "br" {
			c.Fail("run-left", "a run of line breaks remains in %s (%s)", show(br.Up), sig)
			return
		}
	}
	c.Distinct(sig)
	c.Sample("%s", sig)
}

// shapeOfAny scans the result of any page.
func (c *Case) shapeOfAny() {
	var src, what string
	switch c.R.IntN(3) {
	case 0:
		names, srcs := fixtures()
		i := c.R.IntN(len(srcs))
		src, what = srcs[i], names[i]
		if c.P(0.3) {
			src, what = mutate(c, src), "mutated"
		}
	case 1:
		src, what = c.wildPage().Src(), "wild"
	default:
		p := c.Article(4)
		for i := c.Int(1, 8); i > 0; i-- {
			c.Slip(p.Main, c.wild(3))
		}
		src, what = p.Src(), "article"
	}
	c.Input("page", src)
	res, err := Try(src, pageURI)
	if err != nil {
		return
	}
	t, err := readStrict(res.HTMLContent)
	if err != nil {
		return
	}
	c.Input("html", res.HTMLContent)
	c.scanShape(&Out{Res: res, Tree: t})
	c.Distinct(what)
}
