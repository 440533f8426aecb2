package main

import (
	"fmt"
	"strings"

	readability "github.com/giulianopz/go-readability"
)

func init() {
	register(&Prop{ID: "C19", Quick: 50000, Thorough: 750000, Run: runC19,
		Rule: "an article with 1-5 pictures: plain, lazy by missing source or by class, with addresses, candidate lists or other values under any attribute name, base64 sources around the size limit, svg data, figures with an address, pictures followed by noscript copies (wrapped, relative, with differing addresses) and by noscripts that are no copy; also with retries; oracle: a model of the statement giving the complete attributes of each picture in HTMLContent; distinct by (kinds of pictures, attributes)",
		Min: map[string]int{"plain": 1500, "lazy": 1500, "lazy_class": 500, "base64_small": 500, "base64_large": 300, "base64_only": 200, "svg_data": 200, "figures": 500, "noscript_copies": 800,
			"noscript_old_address": 300, "no_copies": 500, "candidate_lists": 800, "with_retries": 500, "boundary": 200, "picture_elements": 500, "figures_with_picture_elements": 50}})
}

type picWant struct {
	key   string
	attrs map[string]string
	gone  string // an address that must not be in the article
}

func abs(u string) string {
	switch {
	case strings.HasPrefix(u, "http:"), strings.HasPrefix(u, "data:"):
		return u
	case strings.HasPrefix(u, "/"):
		return "http://fakehost.example" + u
	}
	return "http://fakehost.example/test/" + u
}

func (c *Case) picURL() string {
	t := c.W.Tok()
	return pick(c, "http://cdn.example/"+t, "http://cdn.example/p/"+t, "/i/"+t, t) + pick(c, ".jpg", ".jpg", ".png", ".webp", ".jpeg", ".jpg", ".png", ".JPG", ".Png") + pick(c, "", "", "", "?w=10", "?a=1&b=2", "#x", "2", "/2x")
}

func (c *Case) picSet() string {
	t := "http://cdn.example/" + c.W.Tok()
	e := pick(c, ".jpg", ".png", ".webp", ".jpeg", ".jpg", ".png", ".JPG", ".WebP")
	return pick(c, t+e+" 1x, "+t+"-b"+e+" 2x", t+e+" 320w, "+t+"-b"+e+" 640w", t+e+" 1.5x", t+e+" 2x")
}

func (c *Case) picName() string {
	return pick(c, "data-src", "data-src", "data-original", "data-lazy-src", "data-hi-res", "longdesc", "data-srcset", "data-image", "data-lazy", "file", "data-x")
}

// dull gives many attributes that name no picture.
func (c *Case) dull() []Attr {
	var a []Attr
	for i := c.Int(5, 40); i > 0; i-- {
		a = append(a, Attr{fmt.Sprint("data-d", i), pick(c, "1", "true", c.W.Tok())})
	}
	return a
}

func (c *Case) b64(n int) string {
	var b strings.Builder
	if n > 4 && c.P(0.3) { // padded
		k := c.Int(1, 2)
		return c.b64(n-k) + "=="[:k]
	}
	for i := 0; i < n; i++ {
		b.WriteByte("ABCDEFGHabcdefgh0123+/"[c.R.IntN(22)])
	}
	return b.String()
}

// lazyModel gives the attributes of an img once it is loadable.
func lazyModel(e *El) map[string]string {
	m := map[string]string{}
	for _, a := range e.Attrs {
		m[a.K] = a.V
	}
	lazyClass := strings.Contains(strings.ToLower(m["class"]), "lazy")
	names := func(v string) string { // what a value names: "src", "srcset" or nothing
		ext := ""
		for _, x := range []string{".jpg", ".jpeg", ".png", ".webp"} {
			if strings.Contains(strings.ToLower(v), x) {
				ext = x
			}
		}
		if ext == "" {
			return ""
		}
		fs := strings.Fields(v)
		if len(fs) > 1 {
			if d := fs[1][0]; d >= '0' && d <= '9' {
				return "srcset"
			}
			return ""
		}
		return "src"
	}
	other := false
	for _, a := range e.Attrs {
		if a.K != "src" && names(a.V) != "" {
			other = true
		}
	}
	if s := strings.ToLower(m["src"]); strings.HasPrefix(s, "data:") {
		if strings.HasPrefix(s, "data:image/svg+xml") {
			delete(m, "class")
			return m
		}
		if i := strings.Index(s, "base64,"); i > 0 && len(s)-i-len("base64,") < 133 && other {
			delete(m, "src")
		}
	}
	if m["src"] == "" && (m["srcset"] == "" || m["srcset"] == "null") || lazyClass {
		for _, a := range e.Attrs {
			if a.K == "src" || a.K == "srcset" || a.K == "alt" {
				continue
			}
			if n := names(a.V); n != "" {
				m[n] = a.V
			}
		}
	}
	delete(m, "class")
	if s, ok := m["src"]; ok && s != "" {
		if strings.HasPrefix(s, "DATA:") {
			s = "data:" + s[len("data:"):]
		}
		m["src"] = abs(s)
	}
	return m
}

func runC19(c *Case) {
	p := c.Article(c.Int(8, 11))
	var wants []picWant
	sig := ""
	key := 0
	img := func(attrs ...Attr) *El {
		key++
		e := E("img", Attr{"data-k", fmt.Sprint(key)})
		if c.P(0.5) {
			e.Add(A("alt", c.W.Words(2)))
		}
		if c.P(0.2) {
			e.Add(A("width", "10", "height", "20"))
		}
		e.Attrs = append(e.Attrs, attrs...)
		if c.P(0.1) {
			e.Attrs = append(e.Attrs, c.dull()...)
		}
		shuffle(c, e.Attrs)
		return e
	}
	place := func(els ...*El) {
		w := E(pick(c, "p", "p", "figure", "div"), els)
		if w.Tag == "div" && (len(els) > 1 || els[0].Tag != "img") {
			w.Tag = "figure"
		}
		if w.Tag == "figure" && c.P(0.5) {
			w.Add(E("figcaption", c.W.Words(4)))
		}
		c.Slip(p.Main, w)
	}
	only := ""
	if c.P(0.3) { // all of a kind
		only = pick(c, "noscript", "lazy", "b64", "figure", "plain", "nocopy")
	}
	for i := c.some(1, 2, 3, 4, 5); i > 0; i-- {
		kind := pick(c, "plain", "plain", "lazy", "lazy", "lazyclass", "b64", "b64", "b64only", "svg", "figure", "noscript", "noscript", "noscript", "nocopy", "nocopy", "set", "nullset", "picture", "picture")
		if c.many && only != "" {
			kind = only
		}
		sig += kind + " "
		switch kind {
		case "plain":
			a := A("src", pick(c, c.picURL(), "http://cdn.example/"+c.W.Tok()+".gif", "http://cdn.example/"+c.W.Tok()))
			if c.P(0.3) {
				a = append(a, Attr{"srcset", c.picSet()})
			}
			if c.P(0.4) {
				a = append(a, Attr{c.picName(), pick(c, c.picURL(), c.picSet())})
			}
			if c.P(0.2) {
				a = append(a, Attr{"class", pick(c, "photo", "big x", "lay-zy")})
			}
			e := img(a...)
			wants = append(wants, picWant{key: fmt.Sprint(key), attrs: lazyModel(e)})
			place(e)
			c.Count("plain", 1)
		case "set":
			e := img(A("srcset", c.picSet(), c.picName(), c.picURL())...)
			if c.P(0.2) { // nothing to load
				e = img(A(pick(c, "src", "srcset"), "", "data-id", pick(c, "7", "x"))...)
			}
			wants = append(wants, picWant{key: fmt.Sprint(key), attrs: lazyModel(e)})
			place(e)
			c.Count("plain", 1)
		case "nullset":
			e := img(A("srcset", "null", "data-srcset", c.picSet())...)
			wants = append(wants, picWant{key: fmt.Sprint(key), attrs: lazyModel(e)})
			place(e)
			c.Count("candidate_lists", 1)
		case "lazy", "lazyclass":
			var a []Attr
			for j := c.Int(1, 3); j > 0; j-- {
				v := c.picURL()
				if c.P(0.4) {
					v = c.picSet()
					c.Count("candidate_lists", 1)
				}
				n := c.picName()
				if !(&El{Attrs: a}).Has(n) {
					a = append(a, Attr{n, v})
				}
			}
			if c.P(0.3) {
				a = append(a, Attr{"data-id", pick(c, "42", "true", "lazyload", "see this", "photo.gif", "see photo.jpg", "photo.jpg by Ann")})
			}
			if kind == "lazyclass" {
				a = append(a, Attr{"class", pick(c, "lazy", "x-lazyload", "Lazy", "img LAZY", "lazyloaded")}, Attr{"src", pick(c, "/blank.gif", "http://cdn.example/spacer.png", "http://cdn.example/spacer")})
				c.Count("lazy_class", 1)
			} else if c.P(0.2) {
				a = append(a, Attr{"src", ""})
			}
			e := img(a...)
			wants = append(wants, picWant{key: fmt.Sprint(key), attrs: lazyModel(e)})
			place(e)
			c.Count("lazy", 1)
		case "b64":
			n := pick(c, 20, 60, 131, 132, 132, 133, 133, 134, 400)
			if n >= 131 && n <= 134 {
				c.Count("boundary", 1)
			}
			if n < 133 {
				c.Count("base64_small", 1)
			} else {
				c.Count("base64_large", 1)
			}
			e := img(Attr{"src", pick(c, "data", "data", "data", "DATA") + ":image/" + pick(c, "gif", "png", "jpeg") + pick(c, ";base64,", ";base64,", ";base64,", ";BASE64,", ";Base64,") + c.b64(n)}, Attr{c.picName(), pick(c, c.picURL(), c.picURL(), c.picSet())})
			wants = append(wants, picWant{key: fmt.Sprint(key), attrs: lazyModel(e)})
			place(e)
		case "b64only":
			e := img(Attr{"src", "data:image/gif;base64," + c.b64(c.Int(10, 200))}, Attr{"data-id", pick(c, "7", "true", "x.gif")})
			wants = append(wants, picWant{key: fmt.Sprint(key), attrs: lazyModel(e)})
			place(e)
			c.Count("base64_only", 1)
		case "svg":
			e := img(Attr{"src", "data:image/svg+xml;base64," + c.b64(c.Int(10, 120))}, Attr{c.picName(), c.picURL()})
			wants = append(wants, picWant{key: fmt.Sprint(key), attrs: lazyModel(e)})
			place(e)
			c.Count("svg_data", 1)
		case "figure":
			key++
			f := E("figure", Attr{"data-k", fmt.Sprint(key)})
			v := c.picURL()
			n := "src"
			if c.P(0.3) {
				v, n = c.picSet(), "srcset"
			}
			f.Add(Attr{pick(c, "data-src", "data-original", "itemid", "data-image"), v})
			shuffle(c, f.Attrs)
			if c.P(0.6) {
				f.Add(E("figcaption", c.W.Words(3)))
			}
			want := map[string]string{n: abs(v)}
			switch u := "http://cdn.example/" + c.W.Tok(); c.R.IntN(8) { // has a picture already
			case 0, 1:
				f.Add(E("img", A("src", u)))
				want = map[string]string{"src": u}
			case 2:
				f.Add(E("picture", E("source", A("srcset", u+".webp 2x"))))
				want = nil
			case 3:
				f.Add(E(pick(c, "div", "a", "span"), E("picture", E("source", A("srcset", u+".webp 1x, "+u+"-2.webp 2x")), E("img", A("src", u)))))
				want = map[string]string{"src": u}
			}
			wants = append(wants, picWant{key: fmt.Sprint(key), attrs: want})
			c.Slip(p.Main, f)
			c.Count("figures", 1)
		case "picture":
			src := E("source", A("srcset", c.picSet(), "media", "(min-width: 1px)"))
			in := img(Attr{pick(c, "src", "src", "data-src"), c.picURL()})
			wants = append(wants, picWant{key: fmt.Sprint(key), attrs: lazyModel(in)})
			key++
			e := E("picture", Attr{"data-k", fmt.Sprint(key)}, src, in)
			for k := c.Int(0, 2); k > 0; k-- {
				e.Set(pick(c, "data-src", "data-srcset", "data-id", "title", "srcset"), pick(c, c.picURL(), c.picSet(), c.W.Tok()))
			}
			if c.P(0.3) {
				e.Set("class", pick(c, "lazy", "x"))
			}
			if e.Has("srcset") {
				e.Set("srcset", c.picSet())
			}
			wants = append(wants, picWant{key: fmt.Sprint(key), attrs: lazyModel(e)})
			place(e)
			c.Count("picture_elements", 1)
		case "noscript":
			// the picture, what it is replaced by
			old := E("img")
			noAddr := ""
			switch c.R.IntN(8) {
			case 5: // a picture by the name of the attribute only
				noAddr = pick(c, "data-src", "data-srcset")
				old.Add(A(noAddr, "http://cdn.example/"+c.W.Tok()))
			case 6:
				old.Add(A("srcset", "http://cdn.example/"+c.W.Tok()+pick(c, "", " 2x", " 640w")))
			case 0:
				old.Add(A("src", "data:image/gif;base64,R0lGODlhAQAB", "class", "lazy"))
			case 1:
				old.Add(A("data-src", c.picURL()))
			case 2:
				old.Add(A("src", c.picURL(), "alt", c.W.Tok()))
			case 3:
				old.Add(A("src", "http://cdn.example/"+c.W.Tok(), "data-big", c.picURL(), "srcset", c.picSet()))
			default:
				old.Add(A("src", "/ph.gif", "title", "x", "data-n", ""))
			}
			var dull []Attr
			if c.P(0.1) {
				dull = c.dull()
				old.Attrs = append(dull, old.Attrs...)
			}
			repl := img(Attr{"src", c.picURL()})
			switch c.R.IntN(5) {
			case 0:
				repl.Set("src", old.Get("src"))
				if repl.Get("src") == "" || strings.HasPrefix(repl.Get("src"), "data:") {
					repl.Set("src", c.picURL())
				}
			case 1:
				repl.Set("srcset", c.picSet())
			}
			want := map[string]string{}
			for _, a := range repl.Attrs {
				want[a.K] = a.V
			}
			for _, a := range old.Attrs {
				if strings.HasPrefix(a.K, "data-d") && len(dull) > 0 && !strings.Contains(a.V, ".") {
					continue
				}
				if a.V == "" || a.K == noAddr || a.K == "alt" || a.K == "title" || a.K == "class" || repl.Get(a.K) == a.V {
					continue
				}
				n := a.K
				if repl.Has(n) {
					n = "data-old-" + n
				}
				want[n] = a.V
				c.Count("noscript_old_address", 1)
			}
			want["src"] = abs(want["src"])
			wrap := func(e *El) *El {
				for c.P(0.25) {
					e = E(pick(c, "span", "span", "a"), e)
				}
				return e
			}
			els := []*El{wrap(old)}
			if c.P(0.3) {
				els = append(els, &El{Text: pick(c, " ", "\n  ")})
			}
			ns := E("noscript", wrap(repl))
			if c.P(0.2) {
				ns.Kids = append([]*El{{Text: "\n "}}, ns.Kids...)
			}
			els = append(els, ns)
			place(els...)
			wants = append(wants, picWant{key: fmt.Sprint(key), attrs: want})
			c.Count("noscript_copies", 1)
		case "nocopy":
			e := img(Attr{"src", c.picURL()})
			w := picWant{key: fmt.Sprint(key), attrs: lazyModel(e)}
			w.gone = "http://cdn.example/" + c.W.Tok() + ".jpg"
			cp := E("img", A("src", w.gone))
			switch c.R.IntN(4) {
			case 0: // not only a picture
				place(e, E("noscript", cp, c.W.Tok()))
			case 1:
				place(e, E("noscript", cp, E("img", A("src", w.gone))))
			case 2: // the picture before it has text
				place(E("span", e, " "+c.W.Tok()), E("noscript", cp))
			default: // nothing before it
				place(E("noscript", cp), e)
			}
			wants = append(wants, w)
			c.Count("no_copies", 1)
		}
	}
	var opts []readability.Option
	if c.P(0.25) {
		opts = append(opts, readability.CharThreshold(1<<30))
		c.Count("with_retries", 1)
	}
	src := p.Src()
	if c.P(0.3) {
		src = p.HTML.Fuzzy(c)
	}
	c.Input("kinds", sig)
	o := c.Extract(src, pageURI, opts...)
	if o == nil || !c.checkMain(o, p) {
		return
	}
	for _, w := range wants {
		e := o.Tree.ByAttr("data-k", w.key)
		if e == nil {
			c.Fail("lost", "picture %s (want %v) is not in the article (%s)", w.key, w.attrs, sig)
			return
		}
		if e.Tag == "figure" {
			is := e.All("img")
			if w.attrs == nil {
				if len(is) != 0 {
					c.Fail("figure", "figure %s has a picture element, and still gets an img: %s", w.key, show(e))
					return
				}
				c.Count("figures_with_picture_elements", 1)
				continue
			}
			if len(is) != 1 {
				c.Fail("figure", "figure %s has %d pictures: %s", w.key, len(is), show(e))
				return
			}
			e = is[0]
		}
		got := map[string]string{}
		for _, a := range e.Attrs {
			got[a.K] = a.V
		}
		if fmt.Sprint(got) != fmt.Sprint(w.attrs) {
			c.Fail("attributes", "picture %s has attributes\n%v, want\n%v", w.key, got, w.attrs)
			return
		}
		if w.gone != "" && strings.Contains(o.Res.HTMLContent, w.gone) {
			c.Fail("copy", "the picture of a noscript that is no copy is in the article: %s", w.gone)
			return
		}
	}
	c.Distinct(sig, len(opts))
	c.Sample("%s", sig)
}
