package main

import (
	"strings"
	"unicode"

	readability "github.com/giulianopz/go-readability"
)

func init() {
	register(&Prop{ID: "C03", Quick: 4000, Thorough: 80000, Run: runC03,
		Rule: "well-formed pages of arbitrary structure in which every text run carries unique words, in random spellings, with 0 to 3 retries; the extracted text is matched against the text runs of the page; non-trivial: at least two runs extracted; distinct by page",
		Min:  map[string]int{"runs_extracted": 20000, "runs_left_out": 5000, "with_retries": 500, "kept_apart": 500}})
}

func isWS(s string) bool { return strings.TrimSpace(s) == "" }

func runC03(c *Case) {
	var p *Page
	if c.P(0.3) {
		p = c.Article(c.Int(1, 8))
		for i := c.Int(1, 6); i > 0; i-- {
			host := pick(c, p.Main, p.Main, p.Body, pick(c, p.Paras...))
			host.InsertKid(c.R.IntN(len(host.Kids)+1), c.wild(4))
		}
	} else {
		c.W.Mode = pick(c, 0, 0, 0, 1, 2)
		p = c.wildPage()
	}
	thr := pick(c, 0, 500, 500, 3000, 1<<30)
	src := p.HTML.Fuzzy(c)
	c.Input("page", src)
	res, err := Try(src, pageURI, readability.CharThreshold(thr))
	if err != nil {
		c.Count("no_article", 1)
		return
	}
	c.Input("html", res.HTMLContent)
	c.Input("text", res.TextContent)
	if thr > 500 {
		c.Count("with_retries", 1)
	}
	n, skipped, why := matchRuns(p.texts(), res.TextContent)
	if why != "" {
		c.Fail("text-altered", "%s", why)
		return
	}
	for _, pr := range apart(p.Body) {
		i, j := strings.Index(res.TextContent, pr[0]), strings.Index(res.TextContent, pr[1])
		if i < 0 || j < 0 {
			continue
		}
		if i+len(pr[0]) >= j {
			c.Fail("words-glued", "%q and %q are apart in the page, but glued together in the result", pr[0], pr[1])
			return
		}
		c.Count("kept_apart", 1)
	}
	// and what the reader of HTMLContent sees is the same
	t, err := readStrict(res.HTMLContent)
	if err != nil {
		c.Fail("malformed", "%v", err)
		return
	}
	if t.Inner() != res.TextContent {
		c.Fail("html-text", "the text of HTMLContent differs from TextContent:\n%q\n%q", t.Inner(), res.TextContent)
		return
	}
	c.Count("runs_extracted", n)
	c.Count("runs_left_out", skipped)
	if n >= 2 {
		c.Distinct(src, thr)
	}
	c.Sample("%d runs extracted, %d left out, threshold %d: %s", n, skipped, thr, clip(src, 250))
}

var plainInline = map[string]bool{"b": true, "i": true, "em": true, "strong": true, "span": true, "code": true, "small": true, "sub": true, "sup": true, "q": true, "cite": true, "mark": true, "kbd": true, "abbr": true, "time": true}

// apart lists the consecutive runs which nothing but the ends of inline elements and white space beside them separate.
func apart(body *El) (r [][2]string) {
	var texts []*El
	plain := map[*El]bool{} // inline elements with nothing but inline elements in them
	var walk func(e *El) bool
	walk = func(e *El) bool {
		if e.Tag == "" {
			texts = append(texts, e)
			return true
		}
		if e.Tag != "br" && len(e.Kids) == 0 {
			texts = append(texts, e) // whatever it is, runs around it are not considered
		}
		ok := plainInline[e.Tag]
		for _, k := range e.Kids {
			if !walk(k) {
				ok = false
			}
		}
		if e.Tag == "br" {
			texts = append(texts, e)
		}
		plain[e] = ok
		return ok
	}
	walk(body)
	above := func(a, e *El) bool {
		for ; e != nil; e = e.Up {
			if e == a {
				return true
			}
		}
		return false
	}
	for i := 0; i+2 < len(texts); i++ {
		x, s, y := texts[i], texts[i+1], texts[i+2]
		if x.Tag+s.Tag+y.Tag != "" || isWS(x.Text) || isWS(y.Text) || s.Text == "" || strings.Trim(s.Text, " \n\t") != "" {
			continue
		}
		ok := true
		for e := s.Up; e != nil && !(above(e, x) && above(e, y)); e = e.Up {
			ok = ok && (above(e, x) || above(e, y))
		}
		for e := x.Up; e != nil && !above(e, y); e = e.Up {
			ok = ok && plain[e]
		}
		for e := y.Up; e != nil && !above(e, x); e = e.Up {
			ok = ok && plain[e]
		}
		if ok {
			r = append(r, [2]string{strings.TrimSpace(x.Text), strings.TrimSpace(y.Text)})
		}
	}
	return r
}

// matchRuns checks that text is made of whole runs in order, with nothing but the page's own white space in between.
func matchRuns(runs []string, text string) (n, skipped int, why string) {
	pos := 0
	trail := "" // white space that has to follow
	gap := func(upTo int, lead string) string {
		g := text[pos:upTo]
		if !isWS(g) {
			return "text that is not in the page, or not there: " + strconvQ(clip(g, 200))
		}
		// g may begin or end with trail/lead, which were not consumed
		if !strings.HasPrefix(g, trail) || !strings.HasSuffix(g, lead) || len(g) < len(trail)+len(lead) {
			return "white space altered: " + strconvQ(trail) + " " + strconvQ(g) + " " + strconvQ(lead)
		}
		return ""
	}
	for _, r := range runs {
		core := strings.TrimSpace(r)
		if core == "" {
			continue
		}
		toks := tokens(core)
		at := strings.Index(text[pos:], core)
		if at < 0 {
			for _, t := range toks {
				if strings.Contains(text, t) {
					return n, skipped, "the run " + strconvQ(core) + " is not extracted whole, in order and once, but part of it is: " + t
				}
			}
			skipped++
			continue
		}
		lead := r[:strings.IndexFunc(r, func(x rune) bool { return !unicode.IsSpace(x) })]
		tail := r[strings.LastIndexFunc(r, func(x rune) bool { return !unicode.IsSpace(x) }):]
		tail = strings.TrimLeftFunc(tail, func(x rune) bool { return !unicode.IsSpace(x) })
		if w := gap(pos+at, lead); w != "" {
			return n, skipped, w
		}
		trail = tail
		pos += at + len(core)
		n++
	}
	if w := gap(len(text), ""); w != "" {
		return n, skipped, w
	}
	for _, t := range tokens(text) {
		if strings.Count(text, t) > 1 {
			return n, skipped, "repeated: " + t
		}
	}
	return n, skipped, ""
}

func strconvQ(s string) string { return "\"" + strings.ReplaceAll(s, "\n", "\\n") + "\"" }
