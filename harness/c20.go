package main

import (
	"fmt"
	"math"
	"strings"

	readability "github.com/giulianopz/go-readability"
)

func init() {
	register(&Prop{ID: "C20", Quick: 40000, Thorough: 600000, Run: runC20,
		Rule: "an article with 1-4 probe blocks (div, form, fieldset, table, ul and controls) made of paragraphs, headings, pictures, list items, inputs, links, embeds and commas in numbers around each limit, weighted by class and id, alone or in a figure, data table or code, plus share-marked elements around 500 characters and h1/h2 with weighted class; oracle: a reference model of the rules over the built block; distinct by (block, counts, weight, context, rule applied)",
		Min: map[string]int{"kept": 4000, "dropped": 4000, "rule_weight": 800, "rule_images": 300, "rule_list": 30, "rule_input": 300, "rule_short": 100, "rule_links": 700, "rule_links_weighted": 50, "rule_embeds": 100, "very_many": 300, "lists": 400, "several_headings": 40, "several_links": 100,
			"many_commas": 150, "nine_or_ten_commas": 300, "short_boundary": 200, "link_boundary": 50, "in_figure": 300, "in_data_table": 300, "in_code": 300, "in_layout_table": 300, "deeper": 300, "video": 100, "image_list": 30,
			"share_dropped": 400, "share_kept": 400, "headers": 400}})
}

var positiveWords = []string{"article", "body", "content", "entry", "hentry", "h-entry", "main", "page", "post", "text", "blog", "story"}
var neutralWords = []string{"box", "x1", "hide", "note", "left", "fig", "wide", "sharing-x"}
var negativeWords = []string{"hidden", "hid", "contact", "foot", "masthead", "media", "meta", "outbrain", "promo", "scroll", "shopping", "tags", "tool", "widget"}

// nameWeight is the weight of a class or id.
func nameWeight(s string) int {
	if s == "" {
		return 0
	}
	l := strings.ToLower(s)
	w := 0
	for _, x := range []string{"-ad-", "hidden", "banner", "combx", "comment", "com-", "contact", "foot", "footer", "footnote", "gdpr", "masthead", "media", "meta", "outbrain", "promo", "related", "scroll", "share", "shoutbox", "sidebar", "skyscraper", "sponsor", "shopping", "tags", "tool", "widget"} {
		if strings.Contains(l, x) {
			w = -25
		}
	}
	if l == "hid" || strings.HasSuffix(l, " hid") || strings.HasPrefix(l, "hid ") || strings.Contains(l, " hid ") {
		w = -25
	}
	for _, x := range positiveWords {
		if strings.Contains(l, x) {
			return w + 25
		}
	}
	return w
}

func (e *El) weight() int { return nameWeight(e.Get("class")) + nameWeight(e.Get("id")) }

func (c *Case) weighName() string {
	w := ""
	for i := pick(c, 1, 1, 1, 2); i > 0; i-- {
		if w != "" {
			w += pick(c, " ", " ", "-")
		}
		switch c.R.IntN(4) {
		case 0:
			w += pick(c, positiveWords...)
		case 1:
			w += pick(c, neutralWords...)
		default:
			w += pick(c, negativeWords...)
		}
	}
	if c.P(0.2) && !strings.Contains(w, "hid") {
		w = pick(c, "z-", "q") + w
	}
	if c.P(0.2) && !strings.Contains(w, "hid") {
		w += pick(c, "-z", "s", "_2")
	}
	if c.P(0.3) {
		w = c.letterCase(w)
	}
	if c.P(0.05) && !strings.Contains(strings.ToLower(w), "hid") {
		w = strings.Repeat(pick(c, "x1 ", "box ", "x1-"), pick(c, 12, 40, 110)) + w
	}
	return w
}

func isVideo(e *El) bool { return strings.Contains(e.HTML(), "//www.youtube.com") }

// junk tells whether the block has to go, and by which rule.
func (c *Case) junk(e *El, ctx string) (bool, string) {
	switch ctx {
	case "data":
		return false, "in_data_table"
	case "code":
		return false, "in_code"
	}
	w := e.weight()
	if w < 0 {
		return true, "rule_weight"
	}
	text := squeeze(e.Inner())
	n := strings.Count(text, ",")
	if n == 9 || n == 10 {
		c.Count("nine_or_ten_commas", 1)
	}
	if n >= 10 {
		return false, "many_commas"
	}
	p, img, li, input := len(e.All("p")), len(e.All("img")), len(e.All("li")), len(e.All("input"))
	total := runes(text)
	heads := 0
	for _, h := range e.All("h1", "h2", "h3", "h4", "h5", "h6") {
		heads += runes(squeeze(h.Inner()))
	}
	lists := 0
	for _, l := range e.All("ul", "ol") {
		lists += runes(squeeze(l.Inner()))
	}
	isList := e.Tag == "ul" || total > 0 && float64(lists)/float64(total) > 0.9
	if total > 0 { // the same in bytes: where it makes a difference, nothing is claimed
		bl := 0
		for _, l := range e.All("ul", "ol") {
			bl += len(squeeze(l.Inner()))
		}
		if e.Tag != "ul" && (float64(bl)/float64(len(text)) > 0.9) != isList {
			return false, "unclear"
		}
		bh := 0
		for _, h := range e.All("h1", "h2", "h3", "h4", "h5", "h6") {
			bh += len(squeeze(h.Inner()))
		}
		if (float64(bh)/float64(len(text)) < 0.9) != (float64(heads)/float64(total) < 0.9) {
			return false, "unclear"
		}
	}
	embeds := 0
	for _, m := range e.All("object", "embed", "iframe") {
		if isVideo(m) {
			return false, "video"
		}
		embeds++
	}
	link, hash := 0.0, false
	for _, a := range e.All("a") {
		k := 1.0
		if h := a.Get("href"); len(h) > 1 && h[0] == '#' {
			k, hash = 0.3, true
		}
		link += k * float64(runes(squeeze(a.Inner())))
	}
	density := 0.0
	if total > 0 {
		density = link / float64(total)
	}
	for _, lim := range []float64{0.2, 0.5} {
		if hash && math.Abs(density-lim) < 1e-9 {
			return false, "unclear"
		}
		if math.Abs(density-lim) < 0.021 {
			c.Count("link_boundary", 1)
		}
	}
	hd := 0.0
	if total > 0 {
		hd = float64(heads) / float64(total)
	}
	if total >= 23 && total <= 26 {
		c.Count("short_boundary", 1)
	}
	fig := ctx == "figure"
	rule := ""
	switch {
	case img > 1 && float64(p)/float64(img) < 0.5 && !fig:
		rule = "rule_images"
	case !isList && li-100 > p:
		rule = "rule_list"
	case input > p/3:
		rule = "rule_input"
	case !isList && hd < 0.9 && total < 25 && (img == 0 || img > 2) && !fig:
		rule = "rule_short"
	case !isList && w < 25 && density > 0.2:
		rule = "rule_links"
	case w >= 25 && density > 0.5:
		rule = "rule_links_weighted"
	case embeds == 1 && total < 75 || embeds > 1:
		rule = "rule_embeds"
	default:
		return false, "good"
	}
	if isList {
		single := true
		for _, k := range e.Elems() {
			if len(k.Elems()) > 1 {
				single = false
			}
		}
		if single && img == li {
			return false, "image_list"
		}
	}
	return true, rule
}

func (e *El) detach() {
	u := e.Up
	for i, k := range u.Kids {
		if k == e {
			u.Kids = append(u.Kids[:i:i], u.Kids[i+1:]...)
			return
		}
	}
}

func fixUp(e *El) *El {
	for _, k := range e.Kids {
		k.Up = e
		fixUp(k)
	}
	return e
}

// junkBit is a piece of a block; plain tells that text may stand on its own in it.
func (c *Case) junkBit(tag string) []*El {
	wrap := func(e *El) *El {
		if tag == "div" {
			return E("section", e)
		}
		return e
	}
	link := func(n int) *El { return E("a", A("href", pick(c, "/a", "http://x.example/", "/b", "#top", "#")), c.W.Exactly(n)) }
	switch c.R.IntN(16) {
	case 0, 1, 2:
		return []*El{E("p", c.W.Exactly(pick(c, 10, 20, 24, 25, 40, 74, 75, 90, 120)))}
	case 3:
		return []*El{E("p", c.W.Prose(c.Int(30, 80), pick(c, 0, 1, 3, 5, 9, 10)))}
	case 4, 5:
		a := c.Int(8, 40)
		return []*El{E("p", c.W.Exactly(c.Int(8, 120))+" ", link(a))}
	case 6:
		return []*El{E("p", link(c.Int(8, 40)))}
	case 7:
		return []*El{E(pick(c, "h3", "h4", "h5", "h6"), c.W.Exactly(c.Int(8, 40)))}
	case 8, 9, 10:
		var r []*El
		for i := c.Int(1, 4); i > 0; i-- {
			r = append(r, wrap(E("img", A("src", c.pic()+".jpg"))))
		}
		return r
	case 11:
		l := E(pick(c, "ul", "ol"))
		for i := c.Int(1, 4); i > 0; i-- {
			l.Add(E("li", c.W.Exactly(c.Int(8, 60))))
		}
		return []*El{l}
	case 12, 13:
		if tag == "div" {
			return []*El{E("p", c.W.Words(3))}
		}
		var r []*El
		for i := c.Int(1, 3); i > 0; i-- {
			r = append(r, E("input", A("name", "n")))
		}
		return r
	case 14:
		v := "https://evil.example/embed/x"
		if c.P(0.4) {
			v = "https://www.youtube.com/embed/x"
		}
		switch c.R.IntN(3) {
		case 0:
			return []*El{E("iframe", A("src", v))}
		case 1:
			return []*El{wrap(E("embed", A("src", v)))}
		default:
			return []*El{wrap(E("object", A("data", v)))}
		}
	default:
		return []*El{E("p", c.W.Exactly(c.Int(60, 200)))}
	}
}

// themed is a block close to the limit of one rule and on the safe side of the others.
func (c *Case) themed() *El {
	tag := pick(c, "div", "form", "fieldset")
	e := E(tag)
	para := func(n int) { e.Add(E("p", c.W.Exactly(n))) }
	at := func(n int) { // n paragraphs, long enough
		for i := 0; i < n; i++ {
			if n > 12 {
				para(c.Int(10, 24)) // too short to count as prose of its own
			} else {
				para(c.Int(30, 60))
			}
		}
		if n == 0 {
			e.Add(E("h4", c.W.Exactly(40)), E("blockquote", c.W.Exactly(60)))
		}
	}
	many := c.P(0.06) // far more than a handful of everything
	if many {
		c.many = true
		c.Count("very_many", 1)
	}
	switch pick(c, "images", "items", "inputs", "short", "links", "embeds", "commas", "lists") {
	case "lists": // most of the text in lists, of links
		n := c.Int(1, 4)
		if many {
			n = c.Int(13, 40)
		}
		in := 0
		for i := 0; i < n; i++ {
			l := E(pick(c, "ul", "ol"))
			for j := c.Int(1, 3); j > 0; j-- {
				k := c.Int(8, 30)
				in += k
				if c.P(0.6) {
					l.Add(E("li", E("a", A("href", "/x"), c.W.Exactly(k))))
				} else {
					l.Add(E("li", c.W.Exactly(k)))
				}
			}
			e.Add(l)
		}
		if out := in/9 + pick(c, -3, -1, 0, 1, 3, 10); out >= 8 && c.P(0.8) {
			para(out)
		}
		c.Count("lists", 1)
	case "images":
		n := c.Int(1, 6)
		if many {
			n = c.Int(13, 70)
		}
		at(pick(c, n/2-1, n/2, n/2+1, (n+1)/2))
		s := E("section")
		for i := 0; i < n; i++ {
			s.Add(E("img", A("src", c.pic()+".jpg")))
		}
		e.Add(s)
	case "items":
		n := c.Int(0, 4)
		at(n)
		l := E("dir")
		for i := n + pick(c, 99, 100, 101); i > 0; i-- {
			l.Add(E("li", c.W.Tok()[:4]))
		}
		e.Add(l)
	case "inputs":
		if tag == "div" {
			e.Tag = "form"
		}
		n := c.Int(0, 7)
		if many {
			n = c.Int(13, 120)
		}
		at(n)
		for i := n/3 + pick(c, -1, 0, 0, 1, 1); i > 0; i-- {
			e.Add(E("input", A("name", "x")))
		}
	case "short":
		n := pick(c, 23, 24, 24, 25, 25, 26)
		h := pick(c, 0, 0, 0, 8)
		if h > 0 {
			e.Add(E("h3", c.W.Exactly(h)))
		}
		para(n - h)
		s := E("section")
		for i := pick(c, 0, 0, 0, 1, 2, 3); i > 0; i-- {
			s.Add(E("img", A("src", c.pic()+".jpg")))
			if i < 3 && c.P(0.7) {
				e.Add(E("p"))
			}
		}
		if len(s.Kids) > 0 {
			e.Add(s)
		}
		if c.P(0.15) { // all of it a heading
			e.Kids = nil
			e.Add(E("h3", c.W.Exactly(n)), E("blockquote", E("span")))
			if c.P(0.5) { // or several headings
				e.Kids = nil
				k := c.Int(8, n-8)
				e.Add(E(pick(c, "h3", "h4"), c.W.Exactly(k)), E(pick(c, "h3", "h5", "h6"), c.W.Exactly(n-k)), E("blockquote", E("span")))
				c.Count("several_headings", 1)
			}
		}
	case "links":
		tot := pick(c, 100, 100, 200, 150)
		d := float64(tot) * pick(c, 0.2, 0.2, 0.5)
		l := int(d) + pick(c, -2, -1, 0, 0, 1, 2)
		href := "/x"
		if c.P(0.25) && l*10/3 < tot-10 {
			l = l * 10 / 3
			href = "#note"
		}
		if parts := c.Int(2, 5); many || l > 50 && c.P(0.4) { // in several links
			if many {
				parts = c.Int(13, 50)
				l, tot = parts*l/4, parts*tot/4
			}
			pa := E("p")
			for rest := l; rest > 0; parts-- {
				k := max(rest/max(parts, 1), 8)
				if rest-k < 8 {
					k = rest
				}
				pa.Add(E("a", A("href", href), c.W.Exactly(k)))
				rest -= k
			}
			e.Add(pa, E("p", c.W.Exactly(tot-l)))
			c.Count("several_links", 1)
		} else {
			e.Add(E("p", E("a", A("href", href), c.W.Exactly(l))), E("p", c.W.Exactly(tot-l)))
		}
		if c.P(0.5) {
			e.Set(pick(c, "class", "id"), pick(c, positiveWords...))
		}
	case "embeds":
		if tag == "div" {
			e.Tag = "fieldset"
		}
		para(pick(c, 73, 74, 74, 75, 75, 76, 120))
		v := "https://evil.example/embed/x"
		if c.P(0.15) {
			v = "https://www.youtube.com/embed/x"
		}
		embeds := pick(c, 1, 1, 1, 2)
		if many {
			for i := c.Int(13, 40); i > 0; i-- {
				e.Add(E("iframe", A("src", "https://evil.example/embed/y")))
			}
		}
		for i := embeds; i > 0; i-- {
			e.Add(pick(c, E("iframe", A("src", v)), E("embed", A("src", v)), E("object", A("data", v)), E("object", E("param", A("name", "movie", "value", v)))))
		}
	case "commas":
		n := pick(c, 8, 9, 9, 10, 10, 11)
		var ws []string
		for i := 0; i <= n; i++ {
			ws = append(ws, c.W.Tok())
		}
		e.Add(E("p", E("a", A("href", "/x"), strings.Join(ws, pick(c, ", ", ",")))), E("p", c.W.Tok()))
	}
	if e.Tag == "div" {
		if len(e.Elems()) == 1 {
			e.Add(E("hr"))
		}
		if len(e.All("p", "img", "ul", "ol", "blockquote")) == 0 {
			e.Add(E("p", c.W.Words(2)))
		}
	}
	return e
}

func (c *Case) junkBlock() *El {
	if c.P(0.5) {
		return c.themed()
	}
	tag := pick(c, "div", "div", "div", "form", "fieldset", "table", "ul", "section", "ol", "blockquote")
	e := E(tag)
	switch tag {
	case "table":
		rows, cols := c.Int(1, 3), c.Int(1, 3)
		if rows*cols == 1 {
			cols = 2
		}
		body := E("tbody")
		for i := 0; i < rows; i++ {
			tr := E("tr")
			for j := 0; j < cols; j++ {
				td := E("td")
				switch c.R.IntN(5) {
				case 0:
					td.Add(E("a", A("href", "/x"), c.W.Words(c.Int(1, 4))))
				case 1:
					td.Add(E("img", A("src", c.pic()+".png")))
				case 2:
					td.Add(E("p", c.W.Words(c.Int(1, 6))))
				default:
					td.Add(c.W.Words(c.Int(1, 8)))
				}
				tr.Add(td)
			}
			body.Add(tr)
		}
		e.Add(body)
	case "ul", "ol":
		style := c.R.IntN(5)
		for i := c.some(1, 2, 3, 4, 5, 6); i > 0; i-- {
			li := E("li")
			switch style {
			case 0:
				li.Add(E("img", A("src", c.pic()+".png")))
			case 1:
				li.Add(E("a", A("href", "/x"), E("img", A("src", c.pic()+".png"))))
			case 2:
				li.Add(E("img", A("src", c.pic()+".png")), E("span", c.W.Tok()))
			case 3:
				li.Add(E("a", A("href", "/x"), c.W.Words(2)))
			default:
				li.Add(c.W.Words(c.Int(1, 10)))
				if c.P(0.3) {
					li.Add(E("img", A("src", c.pic()+".png")))
				}
			}
			e.Add(li)
		}
	default:
		if c.P(0.04) { // very many list items, hardly any text of the block in lists
			n := c.Int(99, 106)
			l := E("dir")
			for i := 0; i < n; i++ {
				l.Add(E("li", c.W.Tok()[:4]))
			}
			e.Add(l)
		}
		for i := c.Int(1, 5); i > 0; i-- {
			e.Add(c.junkBit(tag))
		}
		if tag == "div" {
			if len(e.Elems()) == 1 {
				e.Add(E("hr"))
			}
			if len(e.All("p", "img", "ul", "ol")) == 0 {
				e.Add(E("p", c.W.Words(2)))
			}
		}
	}
	if c.P(0.5) {
		e.Set(pick(c, "class", "id"), c.weighName())
		if c.P(0.3) {
			e.Set(pick(c, "class", "id"), c.weighName())
		}
	}
	return e
}

func runC20(c *Case) {
	p := c.Article(14)
	p.Main.Tag = "div"
	sig := ""
	type probe struct {
		key  string
		el   *El // as built, to know its tokens
		keep bool
		rule string
		left *El
	}
	var probes []probe
	key := 0
	for i := c.Int(1, 4); i > 0; i-- {
		key++
		k := fmt.Sprint(key)
		switch c.R.IntN(8) {
		case 0: // share marks
			n := pick(c, 20, 100, 498, 499, 500, 501, 700)
			mode := c.W.Mode
			c.W.Mode = pick(c, 0, 0, 1)
			e := E(pick(c, "p", "section", "blockquote"), A("data-k", k), c.W.Exactly(n))
			c.W.Mode = mode
			name := pick(c, "share", "share-tools", "x-share", "sharedaddy", "a share b", "SHARE", "my_share_x", "Sharedaddy x", "top.share")
			is := true
			if c.P(0.35) {
				name = pick(c, "shares", "shareholder", "xshare", "share2", "sharing", "shared")
				is = false
			}
			e.Set(pick(c, "class", "id"), name)
			keep := !is || n >= 500
			probes = append(probes, probe{k, e, keep, "share", e})
			c.Slip(p.Main, e)
			if keep {
				c.Count("share_kept", 1)
			} else {
				c.Count("share_dropped", 1)
			}
			sig += fmt.Sprint("share:", name, n, " ")
			continue
		case 1: // headings
			if c.P(0.02) {
				for j := c.Int(13, 40); j > 0; j-- {
					c.Slip(p.Main, E(pick(c, "h1", "h2"), c.W.Words(c.Int(2, 4))))
				}
				c.many = true
			}
			e := E(pick(c, "h1", "h2", "h2", "h3", "h4"), A("data-k", k), c.W.Words(c.Int(2, 5)))
			e.Set(pick(c, "class", "id"), c.weighName())
			keep := !(e.weight() < 0 && (e.Tag == "h1" || e.Tag == "h2"))
			if strings.Contains(strings.ToLower(e.Get("class")+" "+e.Get("id")), "share") {
				continue
			}
			probes = append(probes, probe{k, e, keep, "header", e})
			c.Slip(p.Main, e)
			c.Count("headers", 1)
			sig += e.Tag + " "
			continue
		}
		e := c.junkBlock()
		e.Set("data-k", k)
		ctx := pick(c, "", "", "", "", "figure", "data", "code", "layout")
		fixUp(e)
		// the rules, in the order they apply
		root := fixUp(E("#r", e.Clone()))
		rule := "not_cleaned"
		gone := false
		phase := func(tags ...string) {
			for _, t := range tags {
				all := root.All(t)
				for j := len(all) - 1; j >= 0; j-- {
					b := all[j]
					drop, r := c.junk(b, ctx)
					if r == "unclear" {
						rule = r
					}
					if drop {
						b.detach()
					}
					if b.Get("data-k") == k {
						if rule != "unclear" {
							rule = r
						}
						gone = drop
					}
				}
			}
		}
		phase("form", "fieldset")
		for _, x := range root.All("object", "embed", "iframe") {
			if !isVideo(x) {
				x.detach()
			}
		}
		for _, x := range root.All("input") {
			x.detach()
		}
		if !gone {
			phase("table", "ul", "div")
		}
		if rule == "unclear" {
			continue
		}
		left := root
		pr := probe{k, e, !gone, rule, left}
		if !gone && squeeze(left.Inner()) == "" && len(left.All("img", "iframe", "object", "embed")) == 0 {
			pr.rule = "empty" // nothing to see
		}
		probes = append(probes, pr)
		c.Count(rule, 1)
		if ctx == "figure" {
			c.Count("in_figure", 1)
		}
		if gone {
			c.Count("dropped", 1)
		} else {
			c.Count("kept", 1)
		}
		sig += fmt.Sprintf("%s/%s/%s/%d/%d/%d/%d ", e.Tag, ctx, rule, e.weight(), len(e.All("p")), len(e.All("img")), len(e.All("input")))
		in := e
		if ctx == "figure" || ctx == "code" || ctx == "data" { // not necessarily as its child
			room := 3
			if ctx == "data" {
				room = 8
			}
			e.Walk(func(x *El) bool {
				switch x.Tag {
				case "form", "fieldset", "table", "ul", "div":
					d := 0
					for u := x; u != e; u = u.Up {
						d++
					}
					if ctx != "data" {
						room = min(room, 3-d)
					}
				}
				return true
			})
			if room > 0 && c.P(0.4) {
				for j := c.Int(1, room); j > 0; j-- {
					in = E(pick(c, "span", "section", "em", "article"), in)
				}
				c.Count("deeper", 1)
			}
		}
		switch ctx {
		case "figure":
			c.Slip(p.Main, E("figure", in))
		case "data":
			c.Slip(p.Main, E("table", A("summary", "x"), E("tbody", E("tr", E("td", in), E("td", c.W.Words(2))))))
		case "code":
			c.Slip(p.Main, E("code", in))
		case "layout": // a table which is kept for its commas, but not a data table
			c.Slip(p.Main, E("table", E("tr", E("td", E("p", c.W.Prose(300, 12))), E("td", E("span", c.W.Words(2)), in))))
			c.Count("in_layout_table", 1)
		default:
			if c.P(0.2) {
				c.Slip(p.Main, E("section", E("h5", c.W.Words(2)), e))
			} else {
				c.Slip(p.Main, e)
			}
		}
	}
	if len(probes) == 0 {
		return
	}
	if c.many { // the article stays the dominant block
		for i := 0; i < 20; i++ {
			p.Main.Add(E("p", c.W.Prose(1500, 30)))
		}
	}
	c.Input("probes", sig)
	var opts []readability.Option
	if c.P(0.4) { // the first attempt is accepted all the same
		opts = append(opts, readability.CharThreshold(pick(c, 0, 1, 20, 100, 300, 499, 501, 700, 900)))
	}
	o := c.Extract(p.Src(), pageURI, opts...)
	if o == nil || !c.checkMain(o, p) {
		return
	}
	for _, pr := range probes {
		got := o.Tree.ByAttr("data-k", pr.key)
		if pr.rule == "empty" {
			continue
		}
		if pr.keep && got == nil {
			c.Fail("dropped", "block %s was dropped, it has to be kept (%s): %s", pr.key, pr.rule, show(pr.el))
			return
		}
		if !pr.keep && got != nil {
			c.Fail("kept", "block %s was kept, it has to be dropped (%s): %s", pr.key, pr.rule, show(pr.el))
			return
		}
		in := map[string]bool{}
		if pr.keep {
			for _, t := range tokens(pr.left.Inner()) {
				in[t] = true
			}
		}
		for _, t := range tokens(pr.el.Inner()) {
			if runes(t) >= 6 && in[t] != o.Has(t) {
				c.Fail("part", "block %s (kept %v, %s): its word %s is in the article: %v, want %v: %s", pr.key, pr.keep, pr.rule, t, o.Has(t), in[t], show(pr.el))
				return
			}
		}
	}
	c.Distinct(sig)
	c.Sample("%s", sig)
}
