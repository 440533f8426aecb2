package main

import (
	"cmp"
	"fmt"
	"math"
	"strings"

	readability "github.com/giulianopz/go-readability"
	"golang.org/x/net/html"
)

func init() {
	register(&Prop{ID: "C16", Quick: 60000, Thorough: 900000, Run: runC16,
		Rule: "built pages with blocks of exact lengths around the minimum in every kind of element, hidden, marked, listed or nested, plus tag soup and the repository's fixture pages; each judged with default options, at minimum scores just below, at and just above the sum, with other minimum lengths and with recording visibility tests; oracle: an independent sum over the standard parser's tree; distinct by (elements counted, options, verdict)",
		Min: map[string]int{"verdicts": 30000, "true": 8000, "false": 8000, "at_the_sum": 1500, "boundary_lengths": 3000, "hidden_blocks": 1000, "marked_blocks": 1000, "list_paragraphs": 500,
			"custom_visibility": 1000, "checker_calls": 3000, "br_divs": 500, "fixtures": 200, "many_blocks": 200, "long_blocks": 200, "soups": 500}})
}

// own is the visibility of an element by its own attributes; ambiguous styles are not judged.
func ownVisible(n *html.Node) (visible, clear bool) {
	visible, clear = true, true
	cls := ""
	for _, a := range n.Attr {
		if a.Key == "class" && cls == "" {
			cls = a.Val
		}
	}
	seen := map[string]bool{}
	for _, a := range n.Attr {
		if seen[a.Key] {
			clear = false
		}
		seen[a.Key] = true
		switch a.Key {
		case "hidden":
			visible = false
		case "aria-hidden":
			if a.Val == "true" && !strings.Contains(cls, "fallback-image") {
				visible = false
			}
		case "style":
			l := strings.ToLower(a.Val)
			if l != a.Val && (strings.Contains(l, "display") || strings.Contains(l, "visibility")) || strings.Contains(l, "!important") || strings.Contains(l, "/*") ||
				strings.Count(l, "display") > 1 || strings.Count(l, "visibility") > 1 || strings.ContainsAny(l, `"'\`) {
				clear = false
			}
			for _, d := range strings.Split(a.Val, ";") {
				k, v, _ := strings.Cut(d, ":")
				k, v = strings.TrimSpace(k), strings.TrimSpace(v)
				if k == "display" && v == "none" || k == "visibility" && v == "hidden" {
					visible = false
				}
			}
		}
	}
	return
}

func attrOf(n *html.Node, k string) string {
	for _, a := range n.Attr {
		if a.Key == k {
			return a.Val
		}
	}
	return ""
}

func marked(n *html.Node) bool {
	s := strings.ToLower(attrOf(n, "class") + " " + attrOf(n, "id"))
	f := false
	for _, w := range furnitureWords {
		f = f || strings.Contains(s, w)
	}
	for _, w := range contentWords {
		if strings.Contains(s, w) {
			return false
		}
	}
	return f
}

func stdText(n *html.Node) string {
	var b strings.Builder
	var rec func(*html.Node)
	rec = func(n *html.Node) {
		if n.Type == html.TextNode {
			b.WriteString(n.Data)
		}
		for k := n.FirstChild; k != nil; k = k.NextSibling {
			rec(k)
		}
	}
	rec(n)
	return b.String()
}

// readerBlocks are the elements whose text counts, with the length of their text.
func readerBlocks(root *html.Node) (els []*html.Node) {
	var rec func(n *html.Node)
	rec = func(n *html.Node) {
		if n.Type == html.ElementNode {
			use := n.Data == "p" || n.Data == "pre" || n.Data == "article"
			if n.Data == "div" {
				for k := n.FirstChild; k != nil; k = k.NextSibling {
					use = use || k.Type == html.ElementNode && k.Data == "br"
				}
			}
			if n.Data == "p" {
				for a := n.Parent; a != nil; a = a.Parent {
					if a.Type == html.ElementNode && a.Data == "li" {
						use = false
					}
				}
			}
			if use && !marked(n) {
				els = append(els, n)
			}
		}
		for k := n.FirstChild; k != nil; k = k.NextSibling {
			rec(k)
		}
	}
	rec(root)
	return
}

func (c *Case) readerPage() string {
	p := c.NewPage()
	kinds := ""
	min := 140
	if c.P(0.012) { // many blocks before those that decide
		for i := pick(c, 60, 130, 300, 600, 1100, 2500); i > 0; i-- {
			n := pick(c, 1, 20, 60, 139)
			if c.P(0.02) {
				n = c.Int(139, 150)
			}
			p.Body.Add(pick(c, E("p", c.W.Exactly(n)), E("p", c.W.Exactly(n)), E("pre", c.W.Exactly(n)), E("div", c.W.Exactly(n), E("br")), E("article", c.W.Exactly(n))))
		}
		c.Count("many_blocks", 1)
	}
	if c.P(0.01) {
		p.Body.Add(E(pick(c, "p", "pre", "article"), c.W.Prose(pick(c, 3000, 20000, 70000), 9)))
		c.Count("long_blocks", 1)
	}
	for i := c.Int(1, 9); i > 0; i-- {
		n := pick(c, min-1, min, min+1, min+1, min+4, min+9, min+100, min+400, c.Int(1, 600), c.Int(141, 300))
		if n >= min-1 && n <= min+1 {
			c.Count("boundary_lengths", 1)
		}
		txt := c.W.Exactly(n)
		if c.P(0.2) {
			txt = pick(c, " ", "\n\t ", "") + txt + pick(c, "  ", "\n", "")
		}
		tag := pick(c, "p", "p", "p", "p", "pre", "article", "div", "brdiv", "brdiv", "section", "li", "lip", "lip", "blockquote", "ppre", "nestbr", "mixbr", "mixbr")
		var e *El
		outer := (*El)(nil)
		switch tag {
		case "brdiv":
			e = E("div", txt, E("br"), c.W.Words(3))
			if c.P(0.4) {
				e.Add(E("br"), E("br"))
			}
			c.Count("br_divs", 1)
		case "mixbr": // divs with line breaks within each other
			var mix func(d int) *El
			mix = func(d int) *El {
				m := E(pick(c, "div", "div", "div", "div", "section", "article", "pre"))
				if c.P(0.2) {
					m.Set("class", pick(c, "sidebar", "x", "menu", "content"))
				}
				for k := c.Int(2, 6); k > 0; k-- {
					switch c.R.IntN(5) {
					case 0, 1:
						m.Add(E("br"))
					case 2:
						m.Add(c.W.Exactly(c.Int(1, 250)))
					default:
						if d > 0 {
							m.Add(mix(d - 1))
						}
					}
				}
				return m
			}
			e = E("div", txt, mix(3), E("br"))
			if c.P(0.3) {
				e = E("div", E("br"), mix(2), mix(2), txt)
			}
			c.Count("br_divs", 1)
		case "nestbr":
			e = E("div", E("span", txt, E("br")), c.W.Words(2))
		case "lip":
			e = E(pick(c, "p", "p", "pre", "article"), txt)
			in := e
			for c.P(0.3) {
				in = E(pick(c, "div", "blockquote", "section"), in)
			}
			outer = E(pick(c, "ul", "ol"), E("li", in))
			c.Count("list_paragraphs", 1)
		case "ppre":
			e = E("article", E("p", txt), E("pre", c.W.Exactly(c.Int(120, 200))))
		default:
			e = E(tag, txt)
		}
		if outer == nil {
			outer = e
		}
		switch c.R.IntN(8) {
		case 0:
			at, _ := c.hide()
			e.Add(at)
			c.Count("hidden_blocks", 1)
		case 1:
			e.Add(c.lookAlike())
		case 2:
			name, _ := c.furnitureName()
			e.Set(pick(c, "class", "id"), name)
			if c.P(0.3) {
				e.Set(pick(c, "class", "id"), c.letterCase(pick(c, contentWords...)))
			}
			c.Count("marked_blocks", 1)
		case 3:
			at, _ := c.hide()
			outer = E("div", at, outer) // hidden by an ancestor only
		case 4:
			name, _ := c.furnitureName()
			outer = E(pick(c, "div", "section"), A("class", name), outer)
		}
		if c.P(0.2) && tag != "mixbr" {
			e.Kids[0] = E(pick(c, "b", "span", "em"), e.Kids[0])
		}
		if c.P(0.15) {
			outer = E(pick(c, "article", "div"), outer)
		}
		kinds += tag + " "
		p.Body.Add(outer)
	}
	c.Input("kinds", kinds)
	if c.P(0.5) {
		return p.HTML.Fuzzy(c)
	}
	return p.Src()
}

func runC16(c *Case) {
	c.W.Mode = pick(c, 0, 0, 0, 1, 2)
	names, srcs := fixtures()
	var src, kind string
	switch x := c.R.IntN(20); {
	case x == 0 && len(srcs) > 0:
		i := c.R.IntN(len(srcs))
		src, kind = srcs[i], "fixture "+names[i]
		if c.P(0.3) {
			src = mutate(c, src)
			kind += " mutated"
		}
		c.Count("fixtures", 1)
	case x <= 4:
		src, kind = soup(c, c.Int(20, 200)), "soup"
		c.Count("soups", 1)
	default:
		src, kind = c.readerPage(), "built"
	}
	c.Input("page", src)
	root, err := html.Parse(strings.NewReader(src))
	if err != nil {
		return
	}
	type block struct {
		n   *html.Node
		len int
		vis bool
	}
	var bs []block
	clear := true
	sig := ""
	for _, n := range readerBlocks(root) {
		v, ok := ownVisible(n)
		l := runes(strings.TrimSpace(stdText(n)))
		if len(n.Attr) > 0 && l > 0 && !ok {
			clear = false
		}
		bs = append(bs, block{n, l, v})
		sig += n.Data[:1] + map[bool]string{true: "", false: "h"}[v] + map[int]string{-1: "<", 0: "=", 1: ">"}[cmp.Compare(l, 140)]
	}
	sum := func(min int, vis func(block) bool) (s float64, used int) {
		for _, b := range bs {
			if vis(b) && b.len >= min {
				s += math.Sqrt(float64(b.len - min))
				used++
			}
		}
		return
	}
	judge := func(why string, want bool, opts ...readability.Option) bool {
		got := readability.IsProbablyReaderable(src, opts...)
		c.Count("verdicts", 1)
		c.Count(fmt.Sprint(want), 1)
		if got != want {
			c.Fail("verdict", "%s: verdict %v, want %v (%s; blocks %v)", why, got, want, kind, sig)
			return false
		}
		return true
	}
	around := func(why string, s float64, opts ...readability.Option) {
		if s <= 0 {
			judge(why+", nothing counts", false, opts...)
			judge(why+", nothing counts, score 0", false, append(opts, readability.MinScore(0))...)
			return
		}
		exact := s == math.Floor(s) || len(bs) == 1
		judge(fmt.Sprintf("%s, score just below the sum %v", why, s), true, append(opts, readability.MinScore(s*(1-1e-9)))...)
		judge(fmt.Sprintf("%s, score just above the sum %v", why, s), false, append(opts, readability.MinScore(s*(1+1e-9)))...)
		if exact {
			c.Count("at_the_sum", 1)
			judge(fmt.Sprintf("%s, score at the sum %v", why, s), false, append(opts, readability.MinScore(s))...)
		}
		judge(why+", score 0", true, append(opts, readability.MinScore(0))...)
	}
	own := func(b block) bool { return b.vis }
	if clear {
		s, _ := sum(140, own)
		if math.Abs(s-20) > 1e-6 || s == 20 {
			judge(fmt.Sprintf("default options, sum %v", s), s > 20)
		}
		around("default length", s)
		min := pick(c, 0, 1, 50, 139, 141, 200, 1000, c.Int(0, 700))
		if len(bs) > 0 && c.P(0.5) {
			min = bs[c.R.IntN(len(bs))].len + pick(c, -1, 0, 0, 1)
			if min < 0 {
				min = 0
			}
		}
		s, _ = sum(min, own)
		around(fmt.Sprintf("length %d", min), s, readability.MinContentLength(min))
	} else {
		c.Count("unclear_styles", 1)
	}
	if c.P(0.5) {
		// a visibility test of the caller's: by name, by order, or everything
		c.Count("custom_visibility", 1)
		way := c.R.IntN(4)
		salt := fmt.Sprint(c.R.IntN(1000))
		f := func(n *html.Node) bool {
			switch way {
			case 0:
				return true
			case 1:
				return false
			case 2:
				return n.Data != "p"
			default:
				return hash64(salt+stdText(n))%2 == 0
			}
		}
		calls := 0
		opt := readability.VisibilityChecker(func(n *html.Node) bool {
			calls++
			return f(n)
		})
		min := pick(c, 140, 0, 30)
		s, _ := sum(min, func(b block) bool { return f(b.n) })
		around(fmt.Sprintf("visibility test %d, length %d", way, min), s, opt, readability.MinContentLength(min))
		c.Count("checker_calls", calls)
	}
	c.Distinct(kind, sig)
	c.Sample("%s: blocks %s", kind, sig)
}
