package main

import (
	"fmt"
	"slices"
	"strings"

	readability "github.com/giulianopz/go-readability"
)

func init() {
	register(&Prop{ID: "C08", Quick: 8000, Thorough: 120000, Run: runC08,
		Rule: "articles and wild pages whose elements carry unique ids, classes, presentational and ordinary attributes; extracted plainly, with preserved classes and with KeepClasses; oracle: attribute rules per surviving element, and equality of the KeepClasses result with the plain one up to class attributes; non-trivial: elements with attributes survive; distinct by (tag, attribute, class outcome)",
		Min:  map[string]int{"elements_checked": 10000, "presentational_removed": 5000, "attributes_kept": 10000, "classes_removed": 2000, "classes_preserved": 200, "classes_kept": 2000, "svg_styles": 100}})
}

var presentational = []string{"align", "background", "bgcolor", "border", "cellpadding", "cellspacing", "frame", "hspace", "rules", "style", "valign", "vspace"}
var sizeTags = []string{"table", "th", "td", "hr", "pre"}
var urlAttrs = []string{"href", "src", "srcset", "poster"}

var neutralClasses = []string{"alpha", "kx-1", "caption", "wp-block", "col-2", "is-style", "zeta", "x", "q_1", "uppercase", "Page", "PAGE", "pagex", "figure-x", "lazyx"}

func inSVG(e *El) bool {
	for ; e != nil; e = e.Up {
		if e.Tag == "svg" {
			return true
		}
	}
	return false
}

// decorate gives every element of the subtree an id and random attributes.
func (c *Case) decorate(root *El, n *int, keep []string, classes bool) {
	root.Walk(func(e *El) bool {
		if e.Tag == "" {
			return true
		}
		*n++
		e.Set("data-uid", fmt.Sprintf("u%d", *n))
		for i := c.R.IntN(3); i > 0; i-- {
			switch c.R.IntN(4) {
			case 0, 1:
				a := pick(c, presentational...)
				v := pick(c, "1", "left", "red", "0", "")
				if a == "style" {
					v = pick(c, "color:red", "width:10px;height:3px", "float:left;", "display:block", "")
				}
				if !e.Has(a) {
					e.Set(a, v)
				}
			case 2:
				e.Set(pick(c, "width", "height"), pick(c, "10", "100%"))
			default:
				a := pick(c, "title", "lang", "data-x", "aria-label", "tabindex", "xml:lang", "data-Style", "data-border", "start", "cite", "datetime", "itemprop", "data-class", "name", "target", "styles", "colspan2")
				e.Set(strings.ToLower(a), pick(c, c.W.Tok(), "1", "", "a b", `q"q`, "a&b", "<x>", "it's", " sp ", "a=b;c", "é"))
			}
		}
		if classes && c.P(0.5) {
			var cl []string
			for i := c.some(1, 2, 3, 4); i > 0; i-- {
				if len(keep) > 0 && c.P(0.3) {
					cl = append(cl, pick(c, keep...))
				} else if c.P(0.1) {
					cl = append(cl, "page")
				} else {
					cl = append(cl, pick(c, neutralClasses...))
				}
			}
			v := cl[0]
			for _, x := range cl[1:] {
				v += pick(c, " ", " ", "  ", "\n", "\t") + x
			}
			if c.P(0.1) {
				v = " " + v + " "
			}
			e.Set("class", v)
		}
		return true
	})
}

func runC08(c *Case) {
	var p *Page
	kind := c.R.IntN(10)
	var keep []string
	if c.P(0.5) {
		keep = pick(c, []string{"caption"}, []string{"zeta", "kx-1"}, []string{"x"}, []string{"wp-block", "caption", "nope"})
	}
	uid := 0
	var root *El
	switch {
	case kind < 6:
		p = c.NewPage()
		p.Main = E("div", c.blocks(c.Int(6, 12)))
		for i := c.R.IntN(3); i > 0; i-- {
			s := E("svg", E("g", E("path", A("d", "M0 0"))), E("text", c.W.Tok()))
			c.Slip(p.Main, E("p", c.W.Prose(60, 1), s))
		}
		for i := c.R.IntN(3); i > 0; i-- { // elements of all kinds
			tag := pick(c, "math", "ruby", "figure", "video", "audio", "details", "dl", "bdo", "q", "time", "abbr", "kbd", "mark", "cite", "ins", "del", "sub", "var", "hr2", "x-y", "caption", "center", "main", "address", "noscriptx", "picture", "label", "meter", "svgx")
			c.Slip(p.Main, E("p", c.W.Prose(60, 1), E(tag, c.W.Words(3), E(pick(c, "mi", "rt", "i", "b", "mrow"), c.W.Tok()))))
		}
		if c.P(0.4) {
			c.Slip(p.Main, E("table", A("summary", "x"), E("tbody", E("tr", E("th", c.W.Tok()), E("td", c.W.Tok())), E("tr", E("td", c.W.Tok()), E("td", c.W.Tok())))))
		}
		if c.P(0.3) {
			c.Slip(p.Main, E("h1", c.W.Words(4)))
		}
		p.Body.Add(p.Main)
		root = p.Main
		c.decorate(p.Main, &uid, keep, true)
		p.Main.Attrs = nil
	case kind < 9:
		p = c.wildPage()
		root = p.Body
		c.decorate(p.Body, &uid, keep, c.P(0.5))
	default:
		_, srcs := fixtures()
		src := mutate(c, pick(c, srcs...))
		c.classPair(src, pageURI, keep, nil, false)
		return
	}
	var src string
	if c.P(0.5) {
		src = p.Src()
	} else {
		src = p.HTML.Fuzzy(c)
	}
	c.classPair(src, pageURI, keep, root, kind < 6)
}

func (c *Case) classPair(src, uri string, keep []string, root *El, must bool) {
	var opts []readability.Option
	if c.P(0.3) {
		opts = append(opts, readability.CharThreshold(pick(c, 0, 5000, 1<<30)))
	}
	c.Input("page", src)
	var plainOpts []readability.Option
	if len(keep) > 0 {
		switch c.R.IntN(3) {
		case 0:
			for _, k := range keep {
				plainOpts = append(plainOpts, readability.ClassesToPreserve(k))
			}
		default:
			plainOpts = append(plainOpts, readability.ClassesToPreserve(keep...))
		}
	}
	if c.P(0.2) {
		plainOpts = append(plainOpts, readability.KeepClasses(false))
	}
	res, err := Try(src, uri, append(slices.Clone(opts), plainOpts...)...)
	kept, err2 := Try(src, uri, append(slices.Clone(opts), readability.KeepClasses(true))...)
	if (err == nil) != (err2 == nil) {
		c.Fail("keepclasses-differs", "without KeepClasses: %v, with it: %v", err, err2)
		return
	}
	if err != nil {
		if must {
			c.Fail("unexpected-error", "%v", err)
		}
		return
	}
	c.Count("extractions", 2)
	c.Input("html", res.HTMLContent)
	t, e1 := readStrict(res.HTMLContent)
	k, e2 := readStrict(kept.HTMLContent)
	if e1 != nil || e2 != nil {
		if root != nil {
			c.Fail("malformed", "HTMLContent is not well formed: %v %v", e1, e2)
		}
		return
	}
	allowed := append([]string{"page"}, keep...)
	src2 := map[string]*El{}
	if root != nil {
		root.Walk(func(e *El) bool {
			if e.Has("data-uid") {
				src2[e.Get("data-uid")] = e
			}
			return true
		})
	}
	check := func(t *El, plain bool) bool {
		for _, e := range t.All("*") {
			svg := inSVG(e)
			for _, a := range e.Attrs {
				if !svg && slices.Contains(presentational, a.K) {
					c.Fail("presentational-attribute", "%s=%q on %s", a.K, a.V, show(e))
					return false
				}
				if !svg && slices.Contains(sizeTags, e.Tag) && (a.K == "width" || a.K == "height") {
					c.Fail("size-attribute", "%s=%q on %s", a.K, a.V, show(e))
					return false
				}
				if plain && a.K == "class" {
					for _, x := range strings.Fields(a.V) {
						if !slices.Contains(allowed, x) {
							c.Fail("class-survived", "class %q on %s", x, show(e))
							return false
						}
					}
				}
			}
			o := src2[e.Get("data-uid")]
			if o == nil {
				continue
			}
			c.Count("elements_checked", 1)
			for _, a := range o.Attrs {
				want := true
				switch {
				case slices.Contains(urlAttrs, a.K):
					continue
				case a.K == "class":
					if !plain {
						if e.Get("class") != a.V || !e.Has("class") {
							c.Fail("class-lost", "KeepClasses: class %q became %q on %s", a.V, e.Get("class"), show(e))
							return false
						}
						c.Count("classes_kept", 1)
						continue
					}
					var w []string
					for _, x := range strings.Fields(a.V) {
						if slices.Contains(allowed, x) {
							w = append(w, x)
							c.Count("classes_preserved", 1)
						} else {
							c.Count("classes_removed", 1)
						}
					}
					if strings.Join(w, " ") != e.Get("class") || (len(w) == 0) == e.Has("class") {
						c.Fail("class-wrong", "class %q became %q with preserved classes %v", a.V, e.Get("class"), allowed)
						return false
					}
					continue
				case slices.Contains(presentational, a.K):
					want = svg
					if want {
						c.Count("svg_styles", 1)
					} else {
						c.Count("presentational_removed", 1)
					}
				case a.K == "width" || a.K == "height":
					want = !slices.Contains(sizeTags, o.Tag) || svg
					if o.Tag != e.Tag { // a cell that became a paragraph
						continue
					}
				}
				if want && (!e.Has(a.K) || e.Get(a.K) != a.V) {
					c.Fail("attribute-lost", "%s=%q of %s became %q (present: %v)", a.K, a.V, show(o), e.Get(a.K), e.Has(a.K))
					return false
				}
				if want {
					c.Count("attributes_kept", 1)
					c.Distinct(e.Tag, a.K, plain, len(keep))
				}
			}
		}
		return true
	}
	if !check(t, true) || !check(k, false) {
		return
	}
	strip := func(t *El) string {
		t.Walk(func(e *El) bool {
			e.Attrs = slices.DeleteFunc(e.Attrs, func(a Attr) bool { return a.K == "class" })
			return true
		})
		return t.HTML()
	}
	if a, b := strip(t), strip(k); a != b {
		c.Fail("keepclasses-differs", "apart from classes the results differ: %s", firstDiff(a, b))
		return
	}
	if res.TextContent != kept.TextContent || res.Title != kept.Title || res.Byline != kept.Byline || res.Excerpt != kept.Excerpt {
		c.Fail("keepclasses-differs", "KeepClasses changes other fields")
	}
	c.Sample("preserve %v: %s", keep, clip(res.HTMLContent, 300))
}

// firstDiff shows where two strings start to differ.
func firstDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	s := max(0, i-60)
	return fmt.Sprintf("at %d: %q vs %q", i, clip(a[s:], 200), clip(b[s:], 200))
}
