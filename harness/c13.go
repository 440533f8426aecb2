package main

import (
	"encoding/json"
	"fmt"
	"html"
	"strings"

	readability "github.com/giulianopz/go-readability"
)

func init() {
	register(&Prop{ID: "C13", Quick: 60000, Thorough: 900000, Run: runC13,
		Rule: "an article with a random set of meta elements (known and unknown names, name/property, case, spaces, dots/colons, duplicates, missing content, escaped and padded values), sometimes JSON-LD; oracle: a precedence model of the statement over the declared values, and the first paragraph of HTMLContent for the excerpt; non-trivial: at least one field declared; distinct by (set of declared keys, sources chosen)",
		Min:  map[string]int{"from_meta": 5000, "from_jsonld": 500, "fallback": 2000, "excerpt_from_article": 500, "duplicates": 500, "unknown_names": 1000, "long_first_paragraphs": 50, "long_values": 50}})
}

type metaWant struct{ title, byline, excerpt, site, time string }

var metaPrec = map[string][]string{
	"title":   {"dc:title", "dcterm:title", "og:title", "weibo:article:title", "weibo:webpage:title", "title", "twitter:title"},
	"byline":  {"dc:creator", "dcterm:creator", "author"},
	"excerpt": {"dc:description", "dcterm:description", "og:description", "weibo:article:description", "weibo:webpage:description", "description", "twitter:description"},
	"site":    {"og:site_name"},
	"time":    {"article:published_time"},
}

func onlyProperty(k string) bool { return strings.HasPrefix(k, "article:") }
func onlyName(k string) bool     { return strings.HasPrefix(k, "weibo:") || !strings.Contains(k, ":") }

// mixCase changes the case of letters.
func (c *Case) mixCase(s string) string {
	if !c.P(0.3) {
		return s
	}
	b := []byte(s)
	for i := range b {
		if c.P(0.4) {
			b[i] = strings.ToUpper(string(b[i]))[0]
		}
	}
	return string(b)
}

// metaName writes a known name in one of its spellings.
func (c *Case) metaName(k string, prop bool) string {
	sp := func() string {
		if c.P(0.15) {
			return pick(c, " ", "  ")
		}
		return ""
	}
	i := strings.LastIndex(k, ":")
	if i < 0 {
		return sp() + c.mixCase(k) + sp()
	}
	sep := ":"
	if !prop && c.P(0.3) {
		sep = "."
	}
	return sp() + c.mixCase(k[:i]) + sp() + sep + sp() + c.mixCase(k[i+1:]) + sp()
}

// metaValue makes a declared value; the second result is what a reader must get.
func (c *Case) metaValue() (string, string) {
	v := c.W.Words(c.Int(1, 7))
	if c.P(0.15) {
		v += pick(c, " &amp; ", " &lt;b&gt; ", "&#39;", "&quot;x&quot;", " &#x27;", " & ", " < ", " é", " 日本", "&apos;", "&#8217;") + c.W.Tok()
	}
	if c.P(0.02) {
		v += " " + c.W.Prose(pick(c, 150, 300, 600, 1200, 5000), 2)
		c.Count("long_values", 1)
	}
	want := html.UnescapeString(v)
	if c.P(0.15) {
		v = pick(c, " ", "\n", "  ", "\r\n", "\u00a0", "\t") + v + pick(c, "", " ", "\n", "\r\n", "\u00a0 ", "\f")
	}
	return v, want
}

var strangeMeta = []string{"og:titles", "keywords", "dc.subject", "dcterms.title", "ogtitle", "og-title", "viewport", "twitter:card", "dc:titlex", "x:title", "description2", "og:site-name", "generator", "authors", "weibo:title", "og:creator", "twitter:creator", "twitter:author", "og:author", "dc:author", "creator", "site_name", "twitter:site_name", "article:author", "article:title", "subtitle", "shortdescription", "x-og:title", "my:dc:title", "weibo:articles:title", "dc:title:short", "title2"}

func runC13(c *Case) {
	p := c.Article(c.Int(4, 7))
	if c.P(0.3) {
		p.Main.InsertKid(0, E(pick(c, "h3", "blockquote", "ul"), E("li", c.W.Words(4))))
	}
	if c.P(0.2) {
		for _, q := range p.Paras {
			q.Kids[0].Text = pick(c, " ", "\n ") + q.Kids[0].Text + pick(c, "", "\n")
		}
	}
	if c.P(0.04) {
		p.Paras[0].Add(" ", c.W.Prose(pick(c, 500, 2500, 9000, 40000), 5), E("i", c.W.Words(2)), c.W.Words(2))
		c.Count("long_first_paragraphs", 1)
	}
	vals := map[string]string{}
	var known []string
	for _, ks := range metaPrec {
		known = append(known, ks...)
	}
	sortStrings(known)
	dens := pick(c, 0.05, 0.15, 0.4)
	var els []*El
	keys := ""
	for _, k := range known {
		for c.P(dens) {
			v, w := c.metaValue()
			attr := "name"
			if onlyProperty(k) || (!onlyName(k) && c.P(0.5)) {
				attr = "property"
			}
			e := E("meta")
			a := A(attr, c.metaName(k, attr == "property"))
			if c.P(0.04) { // no content: as if absent
				if c.P(0.5) {
					a = append(a, Attr{"content", ""})
				}
				e.Attrs = a
				els = append(els, e)
				continue
			}
			a = append(a, Attr{"content", v})
			if attr == "property" && c.P(0.1) {
				a = append(a, Attr{"name", pick(c, "viewport", "title", "description")}) // the property decides
			}
			e.Attrs = shuffle(c, a)
			e.Text = "" // markers used below
			els = append(els, e.Add(Attr{"data-key", k}, Attr{"data-want", w}))
			keys += k + " "
		}
	}
	for i := c.R.IntN(4); i > 0; i-- {
		v, _ := c.metaValue()
		els = append(els, E("meta", A(pick(c, "name", "name", "http-equiv", "itemprop"), pick(c, strangeMeta...), "content", v)))
		c.Count("unknown_names", 1)
	}
	shuffle(c, els)
	for _, e := range els {
		if k := e.Get("data-key"); k != "" {
			if _, dup := vals[k]; dup {
				c.Count("duplicates", 1)
			}
			vals[k] = e.Get("data-want")
		}
		if c.P(0.9) {
			p.Head.Add(e)
		}
	}
	// those left over go to the body, after the head in document order
	vals = map[string]string{}
	put := map[*El]bool{}
	for _, e := range p.Head.Kids {
		put[e] = true
	}
	var order []*El
	for _, e := range els {
		if put[e] {
			order = append(order, e)
		}
	}
	for i := len(els) - 1; i >= 0; i-- {
		if !put[els[i]] {
			p.Body.InsertKid(0, els[i])
		}
	}
	for _, e := range els {
		if !put[e] {
			order = append(order, e)
		}
	}
	for _, e := range order {
		if k := e.Get("data-key"); k != "" {
			vals[k] = e.Get("data-want")
		}
		var as []Attr
		for _, a := range e.Attrs {
			if !strings.HasPrefix(a.K, "data-") {
				as = append(as, a)
			}
		}
		e.Attrs = as
	}
	ld := metaWant{}
	var opts []readability.Option
	if c.P(0.3) {
		m := map[string]any{"@context": "https://schema.org", "@type": "Article"}
		set := func(f *string, k string, v any, w string) {
			if c.P(0.5) {
				m[k] = v
				*f = w
			}
		}
		v, w := c.metaValue()
		set(&ld.title, "headline", v, w)
		v, w = c.metaValue()
		set(&ld.byline, "author", map[string]any{"name": v}, w)
		v, w = c.metaValue()
		set(&ld.excerpt, "description", v, w)
		v, w = c.metaValue()
		set(&ld.site, "publisher", map[string]any{"name": v}, w)
		v, w = c.metaValue()
		set(&ld.time, "datePublished", v, w)
		p.Head.InsertKid(c.R.IntN(len(p.Head.Kids)+1), ldScript(m))
		keys += "ld:" + fmt.Sprint(len(m))
		if c.P(0.3) {
			opts = append(opts, readability.DisableJSONLD(true))
			ld = metaWant{}
		}
	}
	src := p.Src()
	if c.P(0.4) {
		src = p.HTML.Fuzzy(c)
	}
	o := c.Extract(src, pageURI, opts...)
	if o == nil {
		return
	}
	choose := func(field, fromLD string) string {
		if fromLD != "" {
			c.Count("from_jsonld", 1)
			return fromLD
		}
		for _, k := range metaPrec[field] {
			if v := vals[k]; v != "" {
				c.Count("from_meta", 1)
				return v
			}
		}
		c.Count("fallback", 1)
		return ""
	}
	w := metaWant{choose("title", ld.title), choose("byline", ld.byline), choose("excerpt", ld.excerpt), choose("site", ld.site), choose("time", ld.time)}
	if w.title == "" {
		w.title = p.Title
	}
	if w.excerpt == "" {
		if ps := o.Tree.All("p"); len(ps) > 0 {
			w.excerpt = strings.TrimSpace(ps[0].Inner())
		}
		c.Count("excerpt_from_article", 1)
	}
	c.compareMeta(o.Res, w)
	if keys != "" {
		c.Distinct(keys)
	}
	c.Sample("declared %s: %+v", keys, w)
}

func (c *Case) compareMeta(res *readability.Result, w metaWant) {
	for _, f := range []struct{ name, got, want string }{
		{"Title", res.Title, w.title}, {"Byline", res.Byline, w.byline}, {"Excerpt", res.Excerpt, w.excerpt}, {"SiteName", res.SiteName, w.site}, {"PublishedTime", res.PublishedTime, w.time},
	} {
		if f.got != f.want {
			c.Fail("metadata", "%s is %q, want %q", f.name, f.got, f.want)
			return
		}
	}
}

// ldScript writes JSON-LD into a script element, in the syntax the library reads.
func ldScript(v any) *El {
	b, err := json.Marshal(v) // escapes <, > and & as \u003c ...
	if err != nil {
		panic(err)
	}
	return E("script", A("type", "application/ld+json"), Raw(string(b), ""))
}
