package main

import (
	"fmt"
	"math"
	"slices"
	"sort"
	"strings"

	readability "github.com/giulianopz/go-readability"
)

func init() {
	register(&Prop{ID: "C26", Quick: 30000, Thorough: 240000, Run: runC26,
		Rule: "pages with a block of prose, sibling paragraphs around 80 characters and link densities around 0.25, with and without sentences, sibling blocks with scores around the threshold, with equal or other class names, wrappers that are only children, competing blocks elsewhere, prose with all kinds of commas; oracle: reference model of the content score, of the choice of the block and of the joining of its siblings, near ties left out; distinct by (structure, choice, joined siblings)",
		Min: map[string]int{"judged": 8000, "joined_paragraphs": 1600, "left_paragraphs": 2200, "length_boundary": 3000, "density_boundary": 1000, "joined_blocks": 2300, "left_blocks": 5000, "score_boundary": 600, "same_class": 350, "only_child": 1500, "went_up": 500, "united": 100, "competitors": 6000, "whole_pages": 800, "huge_paragraphs": 100, "large_pages": 30, "many_siblings": 30}})
}

const allCommas = ",،﹐︐︑⹁⸴⸲，"

func commaCount(s string) int {
	n := 0
	for _, r := range s {
		if strings.ContainsRune(allCommas, r) {
			n++
		}
	}
	return n
}

func normText(e *El) string { return squeeze(strings.TrimSpace(e.Inner())) }

func (e *El) linkShare() float64 {
	t := runes(normText(e))
	if t == 0 {
		return 0
	}
	l := 0.0
	for _, a := range e.All("a") {
		k := 1.0
		if h := a.Get("href"); len(h) > 1 && h[0] == '#' {
			k = 0.3
		}
		l += k * float64(runes(normText(a)))
	}
	return l / float64(t)
}

// plainDivs turns blocks that are in fact paragraphs into paragraphs.
func plainDivs(e *El) {
	for i, k := range e.Kids {
		if es := k.Elems(); k.Tag == "div" && len(es) > 0 && len(es) == len(k.Kids) && !slices.ContainsFunc(es, func(x *El) bool { return !slices.Contains(unlisted26, x.Tag) }) {
			k.Tag = "p" // nothing in it is a block or running text
		}
		if k.Tag == "div" {
			if len(k.All("blockquote", "dl", "div", "img", "ol", "p", "pre", "table", "ul", "section", "article", "main")) == 0 {
				q := &El{Tag: "p", Kids: k.Kids, Up: k}
				for _, x := range q.Kids {
					x.Up = q
				}
				k.Kids = []*El{q}
			}
			es := k.Elems()
			if len(es) == 1 && es[0].Tag == "p" && k.linkShare() < 0.25 {
				es[0].Up = e
				for _, a := range k.Attrs {
					if a.K == "data-s" {
						es[0].Set("data-s", a.V)
					}
				}
				e.Kids[i] = es[0]
				k = es[0]
			}
		}
		plainDivs(k)
	}
}

// choice26 is what the reference model decides.
type choice26 struct {
	top    *El
	joined []*El
	unsure string
	how    string
	bound  bool
	bonus  int
	up     bool
	only   bool
	alike  bool
	united bool
}

// elements that are neither blocks nor listed as running text
var unlisted26 = []string{"u", "s", "big", "tt", "x-note", "bdi", "acronym"}

func scored26(tag string) bool {
	switch tag {
	case "section", "h2", "h3", "h4", "h5", "h6", "p", "td", "pre":
		return true
	}
	return false
}

func close26(a, b float64) bool { return math.Abs(a-b) < 1e-6*(1+math.Abs(a)+math.Abs(b)) }

func choose26(body *El, nTop int) (r choice26) {
	score := map[*El]float64{}
	var order []*El
	start := func(e *El) {
		s := float64(e.weight())
		switch e.Tag {
		case "div":
			s += 5
		case "pre", "td", "blockquote":
			s += 3
		case "address", "ol", "ul", "dl", "dd", "dt", "li", "form":
			s -= 3
		case "h1", "h2", "h3", "h4", "h5", "h6", "th":
			s -= 5
		}
		score[e] = s
	}
	body.Walk(func(e *El) bool {
		switch e.Tag {
		default:
			if !scored26(e.Tag) {
				return true
			}
			t := normText(e)
			if runes(t) < 25 {
				return true
			}
			s := 1 + float64(commaCount(t)+1) + math.Min(math.Floor(float64(runes(t))/100), 3)
			level := 0
			for u := e.Up; u != nil && level < 5 && u.Tag != "html"; u = u.Up {
				if _, ok := score[u]; !ok {
					start(u)
					order = append(order, u)
				}
				d := 1.0
				if level == 1 {
					d = 2
				} else if level > 1 {
					d = float64(3 * level)
				}
				score[u] += s / d
				level++
			}
		}
		return true
	})
	for _, e := range order {
		score[e] *= 1 - e.linkShare()
		if r.top == nil || score[e] > score[r.top] {
			r.top = e
		}
	}
	if r.top == nil {
		r.unsure = "no candidate"
		return
	}
	for _, e := range order {
		if e != r.top && close26(score[e], score[r.top]) {
			r.unsure = "tie"
			return
		}
	}
	if r.top.Tag == "body" {
		r.how = "body"
		return
	}
	// blocks of the same weight: what holds them together
	ranked := append([]*El{}, order...)
	sort.SliceStable(ranked, func(i, j int) bool { return score[ranked[i]] > score[ranked[j]] })
	if len(ranked) > nTop && close26(score[ranked[nTop]], score[ranked[nTop-1]]) {
		if score[ranked[nTop]] > 0.7*score[r.top] {
			r.unsure = "tie"
			return
		}
	}
	var alike []*El
	for i := 1; i < len(ranked) && i < nTop; i++ {
		x := score[ranked[i]] / score[r.top]
		if close26(x, 0.75) {
			r.unsure = "tie"
			return
		}
		if x > 0.75 {
			alike = append(alike, ranked[i])
		}
	}
	if len(alike) >= 3 {
		r.alike = true
		for u := r.top.Up; u.Tag != "body"; u = u.Up {
			n := 0
			for _, e := range alike {
				for x := e.Up; x != nil; x = x.Up {
					if x == u {
						n++
					}
				}
			}
			if n >= 3 {
				r.top, r.united = u, true
				if _, ok := score[u]; !ok {
					start(u)
				}
				break
			}
		}
	}
	first := r.top
	last := score[r.top]
	limit := last / 3
	for u := r.top.Up; u.Tag != "body"; u = u.Up {
		s, ok := score[u]
		if !ok {
			continue
		}
		if close26(s, limit) || close26(s, last) {
			r.unsure = "tie"
			return
		}
		if s < limit {
			break
		}
		if s > last {
			r.top, r.up = u, true
			break
		}
		last = s
	}
	for u := r.top.Up; u.Tag != "body" && len(u.Elems()) == 1; u = r.top.Up {
		r.top, r.only = u, true
	}
	if _, ok := score[r.top]; !ok {
		start(r.top)
	}
	r.how = fmt.Sprint(first.Tag, ">", r.top.Tag, r.up, r.only)
	limit = math.Max(10, 0.2*score[r.top])
	for _, e := range r.top.Up.Elems() {
		if e == r.top {
			r.joined = append(r.joined, e)
			continue
		}
		bonus := 0.0
		if e.Get("class") != "" && e.Get("class") == r.top.Get("class") {
			bonus = 0.2 * score[r.top]
			r.bonus++
		}
		s, ok := score[e]
		if ok && close26(s+bonus, limit) && bonus == 0 && limit != 10 {
			r.unsure = "tie"
			return
		}
		if ok && math.Abs(s+bonus-limit) < 4 {
			r.bound = true
		}
		if ok && (s+bonus >= limit || bonus > 0 && close26(s+bonus, limit)) {
			if bonus > 0 && close26(s+bonus, limit) {
				r.unsure = "tie"
				return
			}
			r.joined = append(r.joined, e)
			continue
		}
		if e.Tag == "p" {
			t, l := normText(e), e.linkShare()
			n := runes(t)
			if n > 80 && l < 0.25 || n < 80 && l == 0 && (strings.Contains(t, ". ") || strings.HasSuffix(t, ".")) {
				r.joined = append(r.joined, e)
			}
		}
	}
	return
}

func (c *Case) otherCommas(s string) string {
	if c.P(0.8) {
		return s
	}
	k := []rune(allCommas)
	return strings.Map(func(r rune) rune {
		if r == ',' {
			return k[c.R.IntN(len(k))]
		}
		return r
	}, s)
}

func runC26(c *Case) {
	c.W.Mode = pick(c, 0, 0, 0, 1, 2)
	p := c.NewPage()
	sig := ""
	id := 0
	marks := map[string]string{} // data-s → a word of the element
	mark := func(e *El) *El {
		id++
		k := fmt.Sprint("s", id)
		e.Set("data-s", k)
		marks[k] = tokens(e.Inner())[0]
		return e
	}
	odd := pick(c, 0, 0, 0.1, 0.4) // how often prose is something else than a paragraph
	prose := func() *El {
		n, commas := c.Int(100, 420), c.Int(0, 6)
		if c.P(0.002) {
			n, commas = pick(c, 1500, 6000, 20000, 50000), pick(c, 0, 5, 40, 150)
			c.Count("huge_paragraphs", 1)
		}
		e := E("p", c.otherCommas(c.W.Prose(n, commas)))
		if c.P(odd) {
			e.Tag = pick(c, "pre", "pre", "h3", "h4", "h5", "h6", "h2", "blockquote", "address", "dd", "li")
			if !scored26(e.Tag) && c.P(0.7) {
				e = E(e.Tag, &El{Tag: "p", Kids: e.Kids})
				if e.Tag == "li" {
					e = E("ol", e)
				}
			}
			if c.P(0.15) {
				e = E("div", &El{Tag: pick(c, unlisted26...), Kids: E("p", c.otherCommas(c.W.Prose(c.Int(100, 420), c.Int(0, 6)))).Kids})
				c.Count("unlisted_prose", 1)
			}
			c.Count("odd_prose", 1)
			sig += "~" + e.Tag
		}
		return e
	}
	class := pick(c, "", "x7", "x7", "col wide", "entry", "content-x", "a b c", "k")
	alike := func() string { // the class of the main block, or one that resembles it
		fs := strings.Fields(class)
		return pick(c, class, class, class, class+" y", "y "+class, class+"2", class[:len(class)-1], class[1:], strings.ToUpper(class), fs[len(fs)-1], fs[0], class+" ", " "+class, fs[len(fs)-1]+" "+fs[0])
	}
	main := E(pick(c, "div", "div", "div", "article", "section", pick(c, "blockquote", "address", "ol", "dl", "dd", "main", "center", "pre")))
	if class != "" {
		main.Set("class", class)
	}
	grand, most := 1, 3 // the size of the blocks, the number of siblings
	if c.P(0.006) {
		grand = c.Int(10, 40)
		c.Count("large_pages", 1)
		if c.P(0.5) {
			grand, most = 40, pick(c, 30, 150, 300)
			c.Count("many_siblings", 1)
		}
	}
	for i := c.Int(4, 12) * grand; i > 0; i-- {
		main.Add(prose())
	}
	if grand == 1 && c.P(0.3) { // in parts of about the same weight
		n := c.Int(4, 6)
		whole := E("div", main)
		lengths, commas := c.Int(150, 300), c.Int(2, 5)
		k, apart := c.Int(2, 5), pick(c, 0.2, 1, 1)
		if apart == 1 {
			whole = E("div", E("div", E("hr"), main))
		}
		main.Kids = nil
		main.Set("data-part", "1")
		for i := 0; i < n; i++ {
			part := main
			if i > 0 {
				part = E(pick(c, "div", "div", "article"))
				at := whole
				if c.P(apart) {
					at = E("div", E("hr"))
					whole.Add(at)
				}
				at.Add(part)
			}
			for j := 0; j < k; j++ {
				part.Add(E("p", c.W.Prose(lengths+c.Int(0, 20), commas)))
			}
			mark(part)
		}
		main = whole
		sig += fmt.Sprint("parts", n)
	} else {
		mark(main)
	}
	sibling := func() *El {
		switch k := c.R.IntN(10); {
		case k < 5: // a paragraph
			n := pick(c, 30, 60, 78, 79, 79, 80, 80, 81, 81, 82, 120, 200, 24, 25)
			if n >= 79 && n <= 81 {
				c.Count("length_boundary", 1)
			}
			stop := pick(c, "end", "in", "none", "none", "odd")
			t := c.W.Exactly(n)
			rs := []rune(t)
			switch stop {
			case "end":
				rs[len(rs)-1] = '.'
			case "in":
				for i := 15; i < len(rs); i++ {
					if rs[i] == ' ' {
						rs[i-1] = '.'
						break
					}
				}
			case "odd": // no sentence ends here
				for i := 15; i < len(rs); i++ {
					if rs[i] != ' ' && rs[i-1] != ' ' && i+1 < len(rs) && rs[i+1] != ' ' {
						rs[i] = '.'
						break
					}
				}
			}
			t = string(rs)
			e := E("p", t)
			sig += fmt.Sprint("p", n, stop)
			if c.P(0.35) { // with a link
				share := pick(c, 0.2, 0.24, 0.25, 0.25, 0.26, 0.3, 0.6, 0.02)
				l := int(math.Round(share * float64(n)))
				if l > 0 && rs[l-1] != ' ' && rs[l] != ' ' {
					e = E("p", E("a", A("href", pick(c, "/x", "/x", "http://e.example/", "#n", "#")), string(rs[:l])), string(rs[l:]))
					if math.Abs(share-0.25) < 0.02 {
						c.Count("density_boundary", 1)
					}
					sig += fmt.Sprint("a", share)
				}
			}
			switch c.R.IntN(8) {
			case 0:
				e.Tag = "div"
			case 1:
				e = E("div", e)
			case 2:
				if class != "" {
					e.Set("class", alike())
				}
			}
			return e
		case k < 9: // a block
			b := E(pick(c, "div", "div", "div", "section", "article", pick(c, "blockquote", "main", "address", "ol", "dl", "dd", "dt", "center")))
			sig += b.Tag
			switch c.R.IntN(4) {
			case 0: // many words, no candidate
				for i := 0; i < 4; i++ {
					b.Add(E("p", c.W.Exactly(c.Int(10, 22))))
				}
				sig += "s"
			case 1:
				b.Add(E("p", c.W.Prose(c.Int(30, 90), c.Int(0, 2))), E("p", c.W.Exactly(20)))
				sig += "1"
			default:
				n := c.Int(1, 4) * (1 + c.R.IntN(1+grand*3/most/3))
				for i := 0; i < n; i++ {
					b.Add(prose())
				}
				b.Add(E("p", c.W.Exactly(20)))
				sig += fmt.Sprint(n)
			}
			if c.P(0.5) && class != "" {
				b.Set("class", alike())
				sig += "c"
			} else if c.P(0.2) {
				b.Set(pick(c, "class", "id"), pick(c, "z9", "post-z", "x7 ", "text"))
				sig += "o"
			}
			return b
		default:
			e := pick(c, E("h3", c.W.Words(4)), E("ul", E("li", c.W.Words(3)), E("li", c.W.Words(5))), E("blockquote", c.W.Words(5)), E("pre", c.W.Words(5)), E("h4", c.W.Exactly(20)), E("address", c.W.Words(4)))
			sig += e.Tag
			return e
		}
	}
	wraps := []string{"div", "section"}
	if main.Get("data-s") == "" { // a section counts as a paragraph of what is around it
		wraps = []string{"div", "article"}
	}
	around := func(e *El, most int) *El {
		u := E(pick(c, append(wraps, "main", "div")...))
		for i := c.R.IntN(most + 1); i > 0; i-- {
			u.Add(mark(sibling()))
			sig += " "
		}
		u.Add(e)
		sig += "[M]"
		for i := c.R.IntN(most + 1); i > 0; i-- {
			sig += " "
			u.Add(mark(sibling()))
		}
		return u
	}
	in := main
	for i := c.R.IntN(3); i > 0; i-- {
		in = E(pick(c, append(wraps, "div")...), in)
		sig += "w"
	}
	in = around(in, most)
	for i := c.R.IntN(3); i > 0; i-- {
		in = E(pick(c, wraps...), in, E("hr"))
	}
	p.Body.Add(in)
	for i := c.R.IntN(4); i > 0; i-- { // competitors
		b := E(pick(c, "div", "div", "article", "blockquote", "address", "td", "dl", "ol", "th"))
		for k := c.Int(1, 5); k > 0; k-- {
			b.Add(prose())
		}
		b.Add(E("p", c.W.Exactly(20)))
		mark(b)
		if b.Tag == "td" || b.Tag == "th" {
			b = E("table", E("tr", b, E("td", c.W.Tok())))
		}
		q := E(pick(c, "div", "section"), E("hr"), b)
		p.Body.InsertKid(c.R.IntN(len(p.Body.Kids)+1), q)
		c.Count("competitors", 1)
		sig += " +"
	}
	nTop := pick(c, 5, 5, 5, 3, 4, 6, 20)
	var opts []readability.Option
	if nTop != 5 {
		opts = append(opts, readability.NTopCandidates(nTop))
	}
	m := p.Body.Clone()
	m.Up = E("html")
	plainDivs(m)
	ch := choose26(m, nTop)
	if ch.unsure != "" {
		c.Count("left_out_"+strings.ReplaceAll(ch.unsure, " ", "_"), 1)
		return
	}
	in26 := map[string]bool{}
	total := 0
	if ch.how == "body" {
		c.Count("whole_pages", 1)
		for k := range marks {
			in26[k] = true
		}
		total = 1000
	}
	loose := map[string]bool{} // might be dropped as a block of links
	m.Walk(func(e *El) bool {
		if e.Tag == "div" && e.linkShare() > 0.18 {
			e.Walk(func(x *El) bool { loose[x.Get("data-s")] = true; return true })
		}
		return true
	})
	var order []string
	for _, e := range ch.joined {
		total += runes(normText(e)) + 1
		e.Walk(func(x *El) bool {
			if k := x.Get("data-s"); k != "" {
				in26[k] = true
				order = append(order, k)
			}
			return true
		})
	}
	if total < 700 {
		c.Count("left_out_short", 1)
		return // would be retried
	}
	src := p.Src()
	if c.P(0.2) {
		src = p.HTML.Fuzzy(c)
	}
	c.Input("structure", sig+" → "+ch.how)
	o := c.Extract(src, pageURI, opts...)
	if o == nil {
		return
	}
	c.Count("judged", 1)
	if ch.bound {
		c.Count("score_boundary", 1)
	}
	c.Count("same_class", ch.bonus)
	if ch.up {
		c.Count("went_up", 1)
	}
	if ch.alike {
		c.Count("alike", 1)
	}
	if ch.united {
		c.Count("united", 1)
	}
	if ch.only {
		c.Count("only_child", 1)
	}
	isTop := map[string]bool{}
	if ch.how != "body" {
		ch.top.Walk(func(x *El) bool { isTop[x.Get("data-s")] = true; return true })
	}
	outside := map[string]bool{} // what is around the chosen block is there in part
	for u := ch.top.Up; u != nil; u = u.Up {
		outside[u.Get("data-s")] = true
	}
	p.Body.Walk(func(e *El) bool {
		k := e.Get("data-s")
		if k == "" || c.failed {
			return true
		}
		kind := "blocks"
		if e.Tag == "p" {
			kind = "paragraphs"
		}
		got := o.Has(marks[k])
		switch {
		case outside[k] && !in26[k]:
		case got && !in26[k]:
			c.Fail("stranger", "%s is no part of the article, but in the result (%s → %s)", show(e), sig, ch.how)
		case loose[k] && in26[k]:
		case !got && in26[k]:
			c.Fail("not-joined", "%s belongs to the article, but is not in the result (%s → %s)", show(e), sig, ch.how)
		case isTop[k] || ch.how == "body":
		case got:
			c.Count("joined_"+kind, 1)
		default:
			c.Count("left_"+kind, 1)
		}
		return true
	})
	if c.failed {
		return
	}
	at := -1
	for _, k := range order {
		i := strings.Index(o.Res.TextContent, marks[k])
		if loose[k] {
			continue
		}
		if i < at {
			c.Fail("order", "%q is not in page order in the result (%s)", marks[k], sig)
			return
		}
		at = i
	}
	c.Distinct(sig, ch.how)
	c.Sample("%s → %s, joined %d", sig, ch.how, len(ch.joined)-1)
}
