package main

import (
	"strings"
	"unicode"
)

func init() {
	register(&Prop{ID: "C15", Quick: 100000, Thorough: 1500000, Run: runC15,
		Rule: "an article without metadata title whose title element is made of 1-4 parts of 0-8 words in three scripts joined by every separator, colon and spacing, or of exact length around 15 and 150, with headings that repeat the title, differ or are missing; oracle: a reference implementation of the statement over the words of the title; distinct by (separators, words per part, headings, rule applied)",
		Min: map[string]int{"cut_last": 2000, "cut_first": 200, "colon_last": 300, "colon_first": 20, "heading_repeats": 300, "h1_used": 300, "original": 4000, "untouched": 3000, "hierarchical_kept_short": 200, "long_lead": 400, "no_title": 200, "more_headings": 5000}})
}

const titleSeps = `|-\/>»`

func isSep(r rune) bool { return strings.ContainsRune(titleSeps, r) }

// pieces splits at white space the way the statement counts words: text with white space at an end counts one more.
func pieces(s string) int {
	n := len(strings.Fields(s))
	if n == 0 {
		if s == "" {
			return 1
		}
		return 2
	}
	rs := []rune(s)
	if unicode.IsSpace(rs[0]) {
		n++
	}
	if unicode.IsSpace(rs[len(rs)-1]) {
		n++
	}
	return n
}

func squeeze(s string) string { // two or more white space characters become one space
	rs := []rune(strings.TrimSpace(s))
	var b strings.Builder
	for i := 0; i < len(rs); {
		j := i
		for j < len(rs) && unicode.IsSpace(rs[j]) {
			j++
		}
		switch {
		case j-i >= 2:
			b.WriteByte(' ')
			i = j
		default:
			b.WriteRune(rs[i])
			i++
		}
	}
	return b.String()
}

// titleModel derives the title; the second result names the rule.
func titleModel(title string, h1s, h2s []string) (string, string) {
	orig := strings.TrimSpace(title)
	cur := orig
	rs := []rune(orig)
	spaced, hier := false, false
	for i := 1; i+1 < len(rs); i++ {
		if isSep(rs[i]) && rs[i-1] == ' ' && rs[i+1] == ' ' {
			spaced = true
			if rs[i] != '|' && rs[i] != '-' {
				hier = true
			}
		}
	}
	rule := "untouched"
	switch {
	case spaced:
		last := 0
		for i := 0; i+1 < len(rs); i++ {
			if isSep(rs[i]) && rs[i+1] == ' ' {
				last = i
			}
		}
		cur = string(rs[:last])
		rule = "cut_last"
		if pieces(cur) < 3 {
			first := 0
			for !isSep(rs[first]) {
				first++
			}
			cur = string(rs[first+1:])
			rule = "cut_first"
		}
	case strings.Contains(orig, ": "):
		repeated := false
		for _, h := range append(append([]string{}, h1s...), h2s...) {
			repeated = repeated || strings.TrimSpace(h) == orig
		}
		rule = "colon_last"
		if repeated {
			rule = "heading_repeats"
		} else {
			cur = orig[strings.LastIndex(orig, ":")+1:]
		}
		first := strings.Index(orig, ":")
		if pieces(cur) < 3 {
			cur = orig[first+1:]
			rule = "colon_first"
		} else if pieces(orig[:first]) > 5 {
			cur = orig
			rule = "long_lead"
		}
	case len(rs) > 150 || len(rs) < 15:
		if len(h1s) == 1 {
			cur = squeeze(h1s[0])
			rule = "h1_used"
		}
	}
	cur = squeeze(cur)
	if n := len(strings.Fields(cur)); n <= 4 {
		bare := strings.Map(func(r rune) rune {
			if isSep(r) {
				return -1
			}
			return r
		}, orig)
		if !hier || pieces(cur) != pieces(bare)-1 {
			return orig, "original"
		}
		return cur, "hierarchical_kept_short"
	}
	return cur, rule
}

func (c *Case) titleText() (string, string) {
	if c.P(0.2) {
		n := pick(c, 13, 14, 15, 16, 149, 150, 151, 152, c.Int(1, 14), c.Int(15, 150), c.Int(151, 300), pick(c, c.Int(151, 300), c.Int(1400, 5000)))
		if n >= 6 {
			return c.W.Exactly(n), "len"
		}
		return c.W.Tok(), "len"
	}
	var b strings.Builder
	sig := ""
	if c.P(0.03) {
		b.WriteString(pick(c, "| ", "-", "> ", "/ ", "» "))
		sig = "lead"
	}
	n := pick(c, 1, 2, 2, 2, 3, 4)
	for i := 0; i < n; i++ {
		if i > 0 {
			s := pick(c, " | ", " - ", " \\ ", " / ", " > ", " » ", " - ", ": ", ": ", ": ", ":", "|", "-", " -", "- ", "/", " :: ", " – ", " · ", "  |  ", " : ", "\n| ", " -\n", "\n - \n")
			if c.P(0.5) && i > 1 && strings.Contains(sig, " » ") {
				s = " » "
			}
			b.WriteString(s)
			sig += s
		}
		k := pick(c, 1, 1, 2, 2, 3, 3, 4, 5, 6, 8)
		if c.P(0.003) {
			k = c.Int(100, 500)
		}
		sig += string(rune('0' + k))
		for j := 0; j < k; j++ {
			if j > 0 {
				b.WriteString(pick(c, " ", " ", " ", " ", " ", " ", " ", "  ", pick(c, "\n", "\n   ", "\t", " \r\n ")))
			}
			t := c.W.Tok()
			if c.P(0.05) {
				t += pick(c, "-", "/", "'", "|", "’") + strings.ToLower(c.W.Tok())
			}
			b.WriteString(t)
		}
	}
	return b.String(), sig
}

func runC15(c *Case) {
	c.W.Mode = pick(c, 0, 0, 0, 1, 2)
	p := c.Article(c.Int(4, 6))
	title, sig := c.titleText()
	p.Head.Kids[0].Kids[0].Text = title
	if c.P(0.15) {
		p.Head.Kids[0].Kids[0].Text = pick(c, " ", "\n ", "", "\r\n", "\u00a0", "\f") + title + pick(c, " ", "\n", "", "\r\n", " \u00a0", "\u3000")
	}
	var h1s, h2s []string
	put := func(tag, text string) {
		h := E(tag, text)
		if c.P(0.2) {
			h = E(tag, E(pick(c, "span", "a", "em"), text))
		}
		if tag == "h1" {
			h1s = append(h1s, text)
		} else {
			h2s = append(h2s, text)
		}
		switch c.R.IntN(3) {
		case 0:
			p.Body.InsertKid(0, h)
		case 1:
			p.Body.Add(h)
		default:
			p.Main.InsertKid(c.R.IntN(len(p.Main.Kids)+1), h)
		}
	}
	heads := pick(c, "none", "same1", "same2", "h1", "h1", "h1h1", "h2", "part", "pad")
	switch heads {
	case "same1":
		put("h1", title)
	case "same2":
		put("h2", title)
		if c.P(0.5) {
			put("h1", c.W.Words(c.Int(1, 6)))
		}
	case "h1":
		n := c.Int(1, 8)
		if c.P(0.02) {
			n = c.Int(150, 500)
		}
		put("h1", c.W.Words(n))
	case "h1h1":
		put("h1", c.W.Words(c.Int(3, 8)))
		put("h1", c.W.Words(c.Int(3, 8)))
	case "h2":
		put("h2", c.W.Words(c.Int(1, 8)))
	case "part":
		ws := strings.Fields(title)
		put(pick(c, "h1", "h2"), strings.Join(ws[c.R.IntN(len(ws)):], " "))
	case "pad":
		put(pick(c, "h1", "h2"), pick(c, " ", "", "\r\n", "\u00a0")+title+pick(c, "\n  ", "", "\r\n", "\u3000"))
	}
	if c.P(0.25) { // other headings
		n := c.Int(1, 3)
		if c.P(0.06) {
			n = c.Int(13, 60)
		}
		tag := pick(c, "h1", "h2", "h2")
		for ; n > 0; n-- {
			put(tag, c.W.Words(c.Int(1, 6)))
		}
		heads += "+" + tag
		c.Count("more_headings", 1)
	}
	if c.P(0.03) {
		title, sig = "", "none"
		c.Count("no_title", 1)
		if c.P(0.5) {
			p.Head.Kids[0].Kids = nil
		} else {
			p.Head.Kids = nil
		}
	} else if c.P(0.1) { // not the page's title
		p.Body.InsertKid(0, E("svg", E("title", c.W.Words(6))))
	}
	src := p.Src()
	if c.P(0.2) {
		src = p.HTML.Fuzzy(c)
	}
	c.Input("title", title)
	o := c.Extract(src, pageURI)
	if o == nil {
		return
	}
	want, rule := titleModel(title, h1s, h2s)
	c.Count(rule, 1)
	if o.Res.Title != want {
		c.Fail("title", "title %q with h1 %q h2 %q gives %q, want %q (%s)", title, h1s, h2s, o.Res.Title, want, rule)
	}
	c.Distinct(sig, heads, rule)
	c.Sample("%q → %q (%s, headings %s)", title, want, rule, heads)
}
