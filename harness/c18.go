package main

import (
	"fmt"
	"math"
	"strings"

	readability "github.com/giulianopz/go-readability"
)

func init() {
	register(&Prop{ID: "C18", Quick: 4000, Thorough: 50000, Run: runC18,
		Rule: "four families: layered articles whose text in each of the four attempts is known, judged at every attempt's length -1/0/+1 and far off; pages whose longest attempt is the first; wild, soup and fixture pages swept over thresholds (step function with at most four steps, monotone, first attempt kept up to its length, longest returned when out of reach); tiny pages with one visible or no visible text in every kind of element and mark; distinct by (family, layers, attempt returned)",
		Min: map[string]int{"layered": 800, "padded": 200, "layered_results": 8000, "attempt1": 1500, "attempt2": 800, "attempt3": 500, "attempt4": 800, "at_length": 1500, "over_length": 1500, "first_longest": 150,
			"swept": 400, "steps": 500, "tiny_found": 250, "tiny_nothing": 60}})
}

var neutralUnlikely = []string{"ai2html", "breadcrumbs", "community", "cover-wrap", "disqus", "extra", "header", "legends", "menu", "remark", "replies", "rss", "social", "supplemental", "ad-break", "agegate", "pager", "popup", "yom-remote"}
var negativeUnlikely = []string{"banner", "combx", "comment", "footer", "gdpr", "related", "shoutbox", "sidebar", "skyscraper", "sponsor"}
var negativeOnly = []string{"hidden", "hid", "contact", "foot", "masthead", "media", "meta", "outbrain", "promo", "scroll", "shopping", "tags", "tool", "widget", "com-x"}

func runC18(c *Case) {
	switch x := c.R.IntN(10); {
	case x < 5:
		c.layered()
	case x < 6:
		c.firstLongest()
	case x < 8:
		c.sweep()
	default:
		c.tiny()
	}
}

func (c *Case) layered() {
	c.W.Mode = pick(c, 0, 0, 0, 1, 2) // also text with more bytes than characters
	p := c.NewPage()
	p.Main = E("div")
	if c.P(0.5) {
		p.Main.Set(pick(c, "class", "id"), pick(c, "content", "article", "main", "story"))
	}
	p.Body.Add(p.Main)
	if c.P(0.2) {
		p.Main.Tag = pick(c, "article", "section", "main")
	}
	from := map[*El]int{} // the first attempt in which the block is part of the article
	sig := ""
	good := 0
	for i := c.Int(5, 9); i > 0; i-- {
		q := c.Para()
		if c.P(0.3) {
			q = E("div", q)
		}
		from[q] = 1
		p.Main.Add(q)
		good++
	}
	two := func() []*El {
		return []*El{E("p", c.W.Prose(c.Int(100, 300), 6)), E("p", c.W.Prose(c.Int(100, 300), 6))}
	}
	for i := c.Int(1, 4); i > 0; i-- {
		var b *El
		at := 0
		kind := pick(c, "unlikely", "unlikely", "negative", "negative", "both", "links", "inputs", "table", "never")
		switch kind {
		case "unlikely":
			b = E(pick(c, "div", "div", "section", "blockquote"), A(pick(c, "class", "id"), c.letterCase(pick(c, neutralUnlikely...))), two())
			at = 2
		case "negative":
			b = E(pick(c, "div", "div", "fieldset", "form"), A(pick(c, "class", "id"), c.letterCase(pick(c, negativeOnly...))), two())
			if c.P(0.2) {
				b = E("ul", A("class", pick(c, negativeOnly...)), E("li", c.W.Prose(200, 6)), E("li", c.W.Prose(100, 6)))
			}
			at = 3
		case "both":
			b = E("div", A(pick(c, "class", "id"), c.letterCase(pick(c, negativeUnlikely...))), two())
			at = 3
		case "links":
			b = E("div", E("p", c.W.Words(3)+" ", E("a", A("href", "/a"), c.W.Words(6))), E("p", c.W.Words(4)))
			at = 4
		case "inputs":
			b = E(pick(c, "fieldset", "form"), E("p", c.W.Words(9)), E("input", A("name", "a")), E("p", c.W.Words(3)), E("input", A("name", "b")))
			at = 4
		case "table":
			b = E("table", E("tbody", E("tr", E("td", c.W.Words(4)), E("td", E("a", A("href", "/b"), c.W.Words(5))))))
			at = 4
		case "never":
			at = 9
			h, _ := c.hide()
			b = E("div", two())
			if c.P(0.6) {
				b.Add(h)
			} else {
				b.Set("role", pick(c, leftOutRoles...))
			}
		}
		from[b] = at
		p.Main.InsertKid(c.Int(1, len(p.Main.Kids)-1), b)
		sig += kind + " "
	}
	if c.P(0.3) { // white space that does not count
		p.Main.Walk(func(e *El) bool {
			if e.Tag == "" && c.P(0.5) {
				fs := strings.Split(e.Text, " ")
				for i := range fs[:len(fs)-1] {
					fs[i] += pick(c, " ", " ", "  ", "\n", "     ", " \n\t ", strings.Repeat(" ", c.Int(1, 200)))
				}
				e.Text = strings.Join(fs, "")
			}
			return true
		})
		c.Count("padded", 1)
	}
	var text [5]string
	var length [5]int
	for a := 1; a <= 4; a++ {
		for _, k := range p.Main.Kids {
			if from[k] <= a {
				text[a] += k.Inner()
			}
		}
		length[a] = normLen(text[a])
	}
	src := p.Src()
	if c.P(0.2) {
		src = p.HTML.Fuzzy(c)
	}
	c.Input("layers", sig)
	c.Count("layered", 1)
	ts := []int{0, 1, math.MaxInt, length[4] + c.Int(2, 500), c.Int(1, length[4]), -1}
	for a := 1; a <= 4; a++ {
		ts = append(ts, length[a]-1, length[a], length[a]+1)
		c.Count("at_length", 1)
		c.Count("over_length", 1)
	}
	if c.P(0.5) {
		ts = append(ts, 500)
	}
	for _, t := range ts {
		want := 4
		for a := 4; a >= 1; a-- {
			if length[a] >= t {
				want = a
			}
		}
		if length[4] < t { // out of reach: the longest
			want = 4
		}
		opts := []readability.Option{readability.CharThreshold(t)}
		if t == 500 && c.P(0.5) {
			opts = nil // the default
		}
		o := c.Extract(src, pageURI, opts...)
		if o == nil {
			return
		}
		c.Count("layered_results", 1)
		c.Count(fmt.Sprint("attempt", want), 1)
		if o.Res.TextContent != text[want] {
			c.Input("threshold", fmt.Sprint(t))
			got := "no attempt's"
			for a := 4; a >= 1; a-- {
				if o.Res.TextContent == text[a] {
					got = fmt.Sprint("that of attempt ", a)
				}
			}
			c.Fail("attempt", "threshold %d (attempt lengths %v; layers %s): the text is %s, want that of attempt %d\n%s", t, length[1:], sig, got, want, firstDiff(o.Res.TextContent, text[want]))
			return
		}
	}
	c.Distinct("layers", sig, p.Main.Tag)
	c.Sample("layers %swith attempt lengths %v", sig, length[1:])
}

// firstLongest is a page whose relaxed attempts find another, shorter block.
func (c *Case) firstLongest() {
	p := c.NewPage()
	main := E("div")
	for i := c.Int(8, 12); i > 0; i-- {
		q := E("p", c.W.Exactly(c.Int(320, 420)))
		p.Paras = append(p.Paras, q)
		main.Add(q)
	}
	other := E("div", A("class", pick(c, "comment", "menu", "extra", "sidebar")))
	n := c.Int(12, 16)
	for i := 0; i < n; i++ {
		var ws []string
		for len(strings.Join(ws, ", ")) < 120 {
			ws = append(ws, c.W.Tok()[:4])
		}
		other.Add(E("p", strings.Join(ws, ", ")))
	}
	side := func(e *El) *El { return E("section", E("h3", c.W.Words(2)), e, E("hr")) }
	p.Body.Add(side(main), side(other))
	if c.P(0.5) {
		p.Body.Kids[0], p.Body.Kids[1] = p.Body.Kids[1], p.Body.Kids[0]
	}
	c.Count("first_longest", 1)
	src := p.Src()
	l := runes(main.Inner())
	for _, t := range []int{0, 500, l, l + 50, 10 * l, math.MaxInt} {
		o := c.Extract(src, pageURI, readability.CharThreshold(t))
		if o == nil {
			return
		}
		if !strings.Contains(o.Res.TextContent, main.Inner()) {
			c.Fail("not-longest", "threshold %d: the longest attempt (the first, %d characters) is not returned, but %d characters: %q", t, l, o.Res.Length, clip(o.Res.TextContent, 200))
			return
		}
	}
	c.Distinct("longest", l)
}

func normLen(s string) int { return runes(squeeze(s)) }

// sweep looks at the result as a function of the threshold.
func (c *Case) sweep() {
	var src string
	var kind string
	switch x := c.R.IntN(10); {
	case x == 0:
		_, srcs := fixtures()
		if len(srcs) == 0 {
			return
		}
		src, kind = pick(c, srcs...), "fixture"
		if len(src) > 60000 {
			return
		}
	case x <= 2:
		src, kind = soup(c, c.Int(20, 150)), "soup"
	case x <= 5:
		p := c.Article(c.Int(1, 3))
		for i := c.Int(1, 4); i > 0; i-- {
			p.Body.Add(c.furniture())
		}
		src, kind = p.Src(), "article"
	default:
		src, kind = c.wildPage().Src(), "wild"
	}
	c.Input("page", src)
	low := strings.ToLower(src)
	slack := strings.Count(low, "<div") + strings.Count(low, "<section")
	type step struct {
		t   int
		res *readability.Result
		l   int
	}
	run := func(t int) (step, bool) {
		r, err := Try(src, pageURI, readability.CharThreshold(t))
		if err != nil {
			return step{t: t}, false
		}
		return step{t, r, normLen(r.TextContent)}, true
	}
	inf, ok := run(math.MaxInt)
	if !ok {
		// no attempt found any text: nothing can be found with another threshold either
		if s, ok := run(c.Int(1, 1000)); ok {
			c.Fail("failure", "extraction fails with an unlimited threshold, but threshold %d finds %q", s.t, clip(s.res.TextContent, 100))
		}
		return
	}
	c.Count("swept", 1)
	first, ok := run(0)
	if !ok {
		c.Fail("failure", "extraction succeeds with an unlimited threshold but fails with threshold 0")
		return
	}
	steps := []step{first}
	for len(steps) < 8 {
		last := steps[len(steps)-1]
		s, ok := run(last.l + slack + 1)
		if !ok {
			c.Fail("failure", "extraction succeeds with an unlimited threshold but fails with threshold %d", last.l+slack+1)
			return
		}
		if *s.res == *last.res {
			break
		}
		steps = append(steps, s)
	}
	c.Count("steps", len(steps))
	for i, s := range steps {
		if i > 0 && s.l+slack < steps[i-1].l {
			c.Fail("order", "threshold %d finds %d characters, threshold %d only %d", steps[i-1].t, steps[i-1].l, s.t, s.l)
			return
		}
		if s.l < s.t-slack && s.l < inf.l-slack {
			c.Fail("too-short", "threshold %d: %d characters are returned although an attempt has %d", s.t, s.l, inf.l)
			return
		}
	}
	if len(steps) > 4 {
		c.Fail("attempts", "%d different results for different thresholds, there are only four attempts", len(steps))
		return
	}
	for _, t := range []int{c.Int(0, inf.l+10), c.Int(0, first.l), 500, first.l - slack, inf.l + slack + 1} {
		s, ok := run(t)
		if !ok {
			c.Fail("failure", "extraction succeeds with an unlimited threshold but fails with threshold %d", t)
			return
		}
		if t <= first.l && *s.res != *first.res {
			c.Fail("first", "the first attempt has %d characters, but threshold %d gives another result", first.l, t)
			return
		}
		if s.l < t-slack && s.l < inf.l-slack {
			c.Fail("too-short", "threshold %d: %d characters are returned although an attempt has %d", t, s.l, inf.l)
			return
		}
		if t > inf.l+slack && s.res.TextContent != inf.res.TextContent {
			c.Fail("longest", "thresholds %d and unlimited are out of reach (%d) but give different results", t, inf.l)
			return
		}
	}
	c.Distinct("sweep", kind, len(steps), first.l/50, inf.l/50)
}

// tiny pages have hardly any text.
func (c *Case) tiny() {
	p := c.NewPage()
	visible := c.P(0.8)
	txt := pick(c, c.W.Tok(), c.W.Words(3), c.W.Prose(60, 1), "7", "x")
	e := &El{Text: txt}
	tags := ""
	for i := c.Int(0, 3); i > 0; i-- {
		t := pick(c, "p", "div", "span", "section", "article", "blockquote", "pre", "h3", "li", "ul", "td", "b", "em", "form", "fieldset", "figure", "main", "header", "nav", "code", "dd", "label", "center", "x-y")
		switch t {
		case "td":
			e = E("table", E("tbody", E("tr", E("td", e))))
		case "li":
			e = E("ul", E("li", e))
		default:
			e = E(t, e)
		}
		tags += t + " "
		if c.P(0.4) {
			e.Set(pick(c, "class", "id"), pick(c, pick(c, furnitureWords...), pick(c, negativeOnly...), pick(c, contentWords...)))
		}
	}
	if !visible {
		h, _ := c.hide()
		e = E(pick(c, "div", "p", "section", "ul"), h, e)
	}
	p.Body.Add(e)
	for i := c.R.IntN(3); i > 0; i-- {
		h, _ := c.hide()
		k := pick(c, E("div", h, c.W.Words(5)), E("script", "var x = 1"), E("style", "p {}"), E("footer", c.W.Words(2)), E("aside", c.W.Words(3)), E("hr"), E("div"), E("p"), E("div", A("role", "navigation"), c.W.Words(2)), E("input"))
		p.Body.InsertKid(c.R.IntN(len(p.Body.Kids)+1), k)
	}
	src := p.Src()
	c.Input("page", src)
	t := pick(c, 1, 10, 500, 500, 5000)
	res, err := Try(src, pageURI, readability.CharThreshold(t))
	if !visible {
		c.Count("tiny_nothing", 1)
		if err == nil {
			c.Fail("no-failure", "a page without text that is not hidden gives a result: %q", res.HTMLContent)
		}
		return
	}
	c.Count("tiny_found", 1)
	if err != nil || !strings.Contains(res.TextContent, txt) {
		c.Fail("not-found", "the only visible text %q (in %s) is not found: %v", txt, tags, err)
	}
	c.Distinct("tiny", tags, t)
}
