package main

import (
	"fmt"
	"net/url"
	"strings"

	readability "github.com/giulianopz/go-readability"
)

func init() {
	register(&Prop{ID: "C07", Quick: 40000, Thorough: 600000, Run: runC07,
		Rule: "an article whose links, pictures, media, posters and srcsets carry generated references (relative, root-relative, scheme-relative, absolute, opaque, percent-encoded, with query/fragment, unparsable) under generated page addresses and base elements; oracle: net/url resolution, compared component by component; non-trivial: the reference changes by resolution; distinct by (base kind, reference shape, place)",
		Min:  map[string]int{"references": 15000, "resolved": 8000, "srcset_candidates": 5000, "with_base": 800, "fragment_only_kept": 200, "unparsable_kept": 400, "near_twins": 1000}})
}

var pageURIs = []string{
	"http://fakehost.example/test/page.html", "https://www.site.example/", "http://site.example", "https://site.example:8443/a/b/c.php?id=3",
	"http://site.example/dir/", "https://site.example/a%20b/c%2Fd/e", "http://UPPER.example/X/Y", "http://site.example/p#part", "http://127.0.0.1:9/x/y",
	"http://[::1]:80/x/y", "https://user:pw@site.example/a/", "http://site.example/a/b;c=1/d", "ftp://files.example/pub/x", "http://xn--bcher-kva.example/a/", "file:///home/u/x.html",
}

func (c *Case) pathPart() string {
	seg := func() string {
		s := pick(c, "a", "img", "x-y", "a_b", "1", "foo.html", "p.png", "..", ".", "a%20b", "c%2Fd", "a%7Cb", "a%3Ab", "C%7Cx", "%E4%BD%A0", "q(1)", "t~", "k;v=1", "@u", "a+b", "b*c", "x!y", "a=b", "é", "a b", "w_200,h_100", "Paris,%20France", "a,b", "x, y")
		return s
	}
	var ss []string
	for i := c.Int(1, 3); i > 0; i-- {
		ss = append(ss, seg())
	}
	return strings.Join(ss, "/") + pick(c, "", "", "/")
}

func (c *Case) tail() string {
	q := pick(c, "", "", "?a=1", "?a=1&b=%20c", "?u=http://x.example/y", "?x", "?a=b;c=d", "?redirect=%2Fa%3Fb", "?s=a b", "?q=/../x")
	if c.P(0.03) {
		q = "?l=" + strings.Repeat(pick(c, "abc", "a%20", "x/"), pick(c, 30, 120, 400)) + "&end=1"
	}
	f := pick(c, "", "", "", "#top", "#a%20b", "#x/y?z", "#é", "#!/route", "#")
	return q + f
}

// ref makes a reference and names its shape.
func (c *Case) ref() (string, string) {
	switch c.R.IntN(15) {
	case 0, 1, 2:
		p := c.pathPart()
		if i := strings.IndexAny(p, ":"); i >= 0 {
			p = "./" + p
		}
		return p + c.tail(), "relative"
	case 3:
		return pick(c, "./", "../", "../../", "../../../../") + c.pathPart() + c.tail(), "dots"
	case 4, 5:
		return "/" + c.pathPart() + c.tail(), "root"
	case 6:
		return "//" + pick(c, "cdn.example", "CDN.Example", "cdn.example:81") + pick(c, "", "/"+c.pathPart()) + c.tail(), "scheme-relative"
	case 7, 8:
		return pick(c, "http", "https", "HTTP", "Https", "ftp", "ws") + "://" + pick(c, "o.example", "O.Example:8080", "u:p@o.example", "[2001:db8::1]", "o.example.") + pick(c, "", "/", "/"+c.pathPart()) + c.tail(), "absolute"
	case 9:
		return pick(c, "mailto:a@b.example", "mailto:a%20b@c.example?subject=x%20y", "tel:+123", "urn:isbn:0451450523", "about:blank", "data:text/plain,hi%20there", "sms:1?body=x", "magnet:?xt=urn:x", "MAILTO:x@y.example", "custom:foo/bar"), "opaque"
	case 10:
		return pick(c, "file:///a/b%20c", "file:///x/y?z#w", "FILE:///a%20b", "file:///a%20b#x?y", "foo:/x/y"), "hostless"
	case 11:
		return "?" + pick(c, "a=1", "x&y=2", "p=%20", "z") + pick(c, "", "#f"), "query"
	case 12, 13:
		return "#" + pick(c, "top", "a%20b", "é", "!x", "s:1", "p?q", "fn:3"), "fragment"
	default:
		return pick(c, "http://[bad", ":foo", "%zz", "a%2", "http://h.example:port/", "http://a b.example/", "/x%", "://x", "http://h.example/%gg?x=1", "#%zz"), "unparsable"
	}
}

// expectURL is what ref must have become under base.
type expectURL struct {
	ref, raw string   // raw: must be exactly this
	want     *url.URL // otherwise: must equal this component by component
}

func expectFor(ref string, pageURI string, base *url.URL, otherBase bool) expectURL {
	if strings.HasPrefix(ref, "#") && !otherBase {
		return expectURL{ref: ref, raw: ref}
	}
	u, err := url.Parse(ref)
	if err != nil || base == nil {
		return expectURL{ref: ref, raw: ref}
	}
	return expectURL{ref: ref, want: base.ResolveReference(u)}
}

func normPath(u *url.URL) string {
	p := u.EscapedPath()
	if p == "" && u.Opaque == "" {
		p = "/"
	}
	return p
}

func (x expectURL) check(got string) string {
	if x.want == nil {
		if got != x.raw {
			return fmt.Sprintf("must stay %q", x.raw)
		}
		return ""
	}
	g, err := url.Parse(got)
	if err != nil {
		return "is not a URL: " + err.Error()
	}
	w := x.want
	switch {
	case g.Scheme != w.Scheme:
		return fmt.Sprintf("scheme %q, want %q", g.Scheme, w.Scheme)
	case !strings.EqualFold(g.Host, w.Host):
		return fmt.Sprintf("host %q, want %q", g.Host, w.Host)
	case g.User.String() != w.User.String():
		return fmt.Sprintf("user info %q, want %q", g.User, w.User)
	case normPath(g) != normPath(w):
		return fmt.Sprintf("path %q, want %q", normPath(g), normPath(w))
	case g.Opaque != w.Opaque:
		return fmt.Sprintf("content %q, want %q", g.Opaque, w.Opaque)
	case g.RawQuery != w.RawQuery:
		return fmt.Sprintf("query %q, want %q", g.RawQuery, w.RawQuery)
	case strings.HasSuffix(got, "#") != strings.HasSuffix(x.ref, "#") || strings.HasSuffix(got, "?") != strings.HasSuffix(x.ref, "?"):
		return "ends unlike the reference"
	case g.EscapedFragment() != w.EscapedFragment():
		return fmt.Sprintf("fragment %q, want %q", g.EscapedFragment(), w.EscapedFragment())
	}
	return ""
}

func runC07(c *Case) {
	uri := pick(c, pageURIs...)
	if c.P(0.3) {
		uri = "http://" + c.W.Tok() + ".example/" + c.pathPart()
		if _, err := url.Parse(uri); err != nil || strings.Contains(uri, " ") {
			uri = pageURIs[0]
		}
	}
	base, _ := url.Parse(uri)
	p := c.Article(c.Int(5, 9))
	other, baseKind := false, "none"
	if c.P(0.45) {
		h := pick(c, "/", "/root/", "sub/", "sub/dir/x", "//cdn.example/y/", "https://other.example/a/b", "https://other.example/a/b/?q=1", "..", "", ".", "http://h.example/z%20z/", "?x=1", "https://Other.example", uri, "javascript:void(0)", "data:text/plain,x/y", "http://h.example:bad/x/")
		b, err := url.Parse(h)
		if err == nil && h != "" && b.Scheme != "javascript" && b.Scheme != "data" { // browsers ignore these
			nb := base.ResolveReference(b)
			if nb.String() != uri {
				other = true
				baseKind = h
				if h == uri {
					baseKind = "same"
				}
			}
			base = nb
		}
		be := E("base", A("href", h))
		if c.P(0.3) {
			be.Set("target", "_blank")
		}
		p.Head.InsertKid(c.R.IntN(2), be)
		if c.P(0.2) {
			if h != "" {
				p.Head.Add(E("base", A("href", "https://second.example/")))
			}
		}
		c.Count("with_base", 1)
		if err != nil || b.Scheme == "javascript" || b.Scheme == "data" {
			c.Count("useless_base", 1)
		}
	}
	type want struct {
		k, attr string
		x       expectURL
		shape   string
	}
	var wants []want
	type wantSet struct {
		k     string
		cands []expectURL
		descs []string
		seps  []string
	}
	var sets []wantSet
	var used []string
	ref := func() (string, string) { // often one that differs little from another one of the page
		if len(used) > 0 && c.P(0.25) {
			r := pick(c, used...)
			switch c.R.IntN(7) {
			case 0:
				r = strings.ToUpper(r)
			case 1:
				r = strings.ToLower(r)
			case 2:
				r, _, _ = strings.Cut(r, "#")
				r += pick(c, "#", "#other", "#é")
			case 3:
				r, _, _ = strings.Cut(r, "#")
			case 4:
				r, _, _ = strings.Cut(r, "?")
				r += pick(c, "?", "?other=1", "")
			case 5:
				r += "/"
			}
			lower := strings.ToLower(strings.TrimSpace(r))
			if r != "" && !strings.HasPrefix(lower, "data:") && !strings.HasPrefix(lower, "javascript:") {
				if _, err := url.Parse(r); err == nil {
					c.Count("near_twins", 1)
					shape := "twin"
					if strings.HasPrefix(r, "#") {
						shape = "fragment"
					}
					return r, shape
				}
			}
		}
		r, shape := c.ref()
		if shape != "unparsable" {
			used = append(used, r)
		}
		return r, shape
	}
	nk := 0
	key := func() string { nk++; return fmt.Sprintf("k%d", nk) }
	add := func(e *El, attr string) {
		r, shape := ref()
		v := r
		if c.P(0.06) && !strings.HasPrefix(shape, "unp") {
			v = pick(c, " ", "\n") + r + pick(c, "", " ", "\t")
		}
		e.Set(attr, v)
		wants = append(wants, want{e.Get("data-k"), attr, expectFor(r, uri, base, other), shape})
	}
	srcset := func(e *El) {
		ws := wantSet{k: e.Get("data-k")}
		v := pick(c, "", "", " ")
		for i, n := 0, c.some(1, 2, 3, 4); i < n; i++ {
			r, shape := ref()
			for shape == "unparsable" || strings.ContainsAny(r, " ") || strings.HasPrefix(r, "data:") {
				r, shape = ref()
			}
			d := pick(c, "", " 1x", " 2x", " 640w", " 1.5x", "  200w")
			s := ""
			if i < n-1 {
				s = pick(c, ", ", ", ", " , ", ",\n ")
				if d != "" && c.P(0.3) {
					s = ","
				}
			}
			v += r + d + s
			ws.cands = append(ws.cands, expectFor(r, uri, base, other))
			ws.descs = append(ws.descs, strings.TrimSpace(d))
			ws.seps = append(ws.seps, s)
		}
		e.Set("srcset", v)
		sets = append(sets, ws)
	}
	for i := c.Int(4, 9); i > 0; i-- {
		q := pick(c, p.Paras...)
		switch c.R.IntN(7) {
		case 0, 1, 2:
			a := E("a", A("data-k", key()), c.W.Tok())
			add(a, "href")
			if c.P(0.2) {
				a.Add(E("b", c.W.Tok()))
			}
			q.Add(" ", a)
		case 3:
			im := E("img", A("data-k", key()))
			add(im, "src")
			if c.P(0.6) {
				srcset(im)
			}
			c.Slip(p.Main, E(pick(c, "p", "figure"), im))
		case 4:
			v := E(pick(c, "video", "audio"), A("data-k", key()))
			if v.Tag == "video" {
				add(v, "poster")
			}
			if c.P(0.6) {
				add(v, "src")
			}
			for j := c.R.IntN(3); j > 0; j-- {
				s := E("source", A("data-k", key()))
				add(s, "src")
				v.Add(s)
			}
			c.Slip(p.Main, E("p", c.W.Words(4), v))
		case 5:
			pc := E("picture", A("data-k", key()))
			for j := c.Int(1, 2); j > 0; j-- {
				s := E("source", A("data-k", key()))
				srcset(s)
				pc.Add(s)
			}
			im := E("img", A("data-k", key()))
			add(im, "src")
			pc.Add(im)
			c.Slip(p.Main, E("figure", pc, E("figcaption", c.W.Words(3))))
		default:
			im := E("img", A("data-k", key()))
			srcset(im)
			q.Add(" ", im)
		}
	}
	var src string
	if c.P(0.5) {
		src = p.Src()
	} else {
		src = p.HTML.Fuzzy(c)
	}
	var opts []readability.Option
	if c.P(0.15) {
		opts = append(opts, readability.CharThreshold(1<<30))
	}
	o := c.Extract(src, uri, opts...)
	if o == nil {
		return
	}
	for _, w := range wants {
		e := o.Tree.ByAttr("data-k", w.k)
		if e == nil {
			c.Fail("lost", "the element with data-k=%s is not in the result", w.k)
			return
		}
		if why := w.x.check(e.Get(w.attr)); why != "" {
			c.Fail("wrong-url", "%s of <%s>: reference %q under page %s (base element %q) became %q: %s", w.attr, e.Tag, w.x.ref, uri, baseKind, e.Get(w.attr), why)
			return
		}
		c.Count("references", 1)
		switch {
		case w.x.want == nil && w.shape == "fragment":
			c.Count("fragment_only_kept", 1)
		case w.x.want == nil:
			c.Count("unparsable_kept", 1)
		case w.x.ref != e.Get(w.attr):
			c.Count("resolved", 1)
			c.Distinct(baseKind, w.shape, e.Tag, w.attr, w.x.ref)
		}
	}
	for _, w := range sets {
		e := o.Tree.ByAttr("data-k", w.k)
		if e == nil {
			c.Fail("lost", "the element with data-k=%s is not in the result", w.k)
			return
		}
		got, ok := splitSrcset(e.Get("srcset"))
		if !ok || len(got) != len(w.cands) {
			c.Fail("wrong-srcset", "srcset %q has %d candidates, want %d", e.Get("srcset"), len(got), len(w.cands))
			return
		}
		for i, g := range got {
			if g.desc != w.descs[i] {
				c.Fail("wrong-srcset", "srcset %q: descriptor %d is %q, want %q", e.Get("srcset"), i, g.desc, w.descs[i])
				return
			}
			if why := w.cands[i].check(g.url); why != "" {
				c.Fail("wrong-url", "srcset candidate %q under page %s (base element %q) became %q: %s", w.cands[i].ref, uri, baseKind, g.url, why)
				return
			}
			c.Count("srcset_candidates", 1)
		}
	}
	if len(wants) > 0 {
		c.Sample("page %s base %s: %q -> %q", uri, baseKind, wants[0].x.ref, o.Tree.ByAttr("data-k", wants[0].k).Get(wants[0].attr))
	}
}

type cand struct{ url, desc string }

// splitSrcset reads a srcset the way the HTML standard does.
func splitSrcset(s string) ([]cand, bool) {
	var r []cand
	ws := " \t\n\r\f"
	for {
		s = strings.TrimLeft(s, ws+",")
		if s == "" {
			return r, true
		}
		i := strings.IndexAny(s, ws)
		if i < 0 {
			i = len(s)
		}
		u := s[:i]
		s = s[i:]
		d := ""
		if strings.HasSuffix(u, ",") {
			u = strings.TrimRight(u, ",")
		} else {
			s = strings.TrimLeft(s, ws)
			j := strings.IndexByte(s, ',')
			if j < 0 {
				j = len(s)
			}
			d = strings.TrimSpace(s[:j])
			s = s[j:]
		}
		r = append(r, cand{u, d})
	}
}
