package main

import (
	"encoding/json"
	"fmt"
	"html"
	"regexp"
	"strings"

	readability "github.com/giulianopz/go-readability"
)

func init() {
	register(&Prop{ID: "C14", Quick: 60000, Thorough: 900000, Run: runC14,
		Rule: "an article with 1-4 JSON-LD scripts (articles of every type, directly or in @graph; other types, contexts, script types, broken JSON, arbitrary JSON shapes and field types) and fallback meta elements; oracle: a model of the statement for the five fields, and equality of the whole result with the page without the scripts when none is to be used or JSON-LD is disabled; distinct by (kinds of scripts, fields declared, title choice)",
		Min: map[string]int{"article_scripts": 2000, "ignored_scripts": 2000, "in_graph": 500, "long_graphs": 100, "many_scripts": 200, "author_lists": 300, "title_choice": 400, "headline_chosen": 100,
			"odd_fields": 500, "disabled": 200, "same_as_absent": 1000, "not_first": 500}})
}

var ldTypes = []string{"Article", "AdvertiserContentArticle", "NewsArticle", "AnalysisNewsArticle", "AskPublicNewsArticle", "BackgroundNewsArticle", "OpinionNewsArticle",
	"ReportageNewsArticle", "ReviewNewsArticle", "Report", "SatiricalArticle", "ScholarlyArticle", "MedicalScholarlyArticle", "SocialMediaPosting", "BlogPosting",
	"LiveBlogPosting", "DiscussionForumPosting", "TechArticle", "APIReference"}
var ldOtherTypes = []string{"WebPage", "WebSite", "Organization", "Person", "BreadcrumbList", "ImageObject", "VideoObject", "Product", "Recipe", "Event", "FAQPage", "Movie", "", "Thing", "NoArticle", "APIReferences", "WebArticles", "article", "Newsarticle"}
var ldContexts = []string{"https://schema.org", "http://schema.org", "https://schema.org/", "http://schema.org/"}
var ldOtherContexts = []any{"https://example.org", "https://schema.org.evil.example/", "https://schema.com", "schema", "", 7.0, true, nil, "http://www.w3.org/ns/anno.jsonld", "ftp://schema.org", "https://schema.org/x", "see https://schema.org", "https://example.org/?u=http://schema.org/", "https://schema_org", "https://schemaxorg/"}

type ldWant struct {
	title, byline, excerpt, site, time string
	name, headline                     string // both, when they differ
}

// oddJSON is a JSON value that is not a string; ok tells what must not be in it.
func (c *Case) oddJSON(depth int) any {
	switch c.R.IntN(7) {
	case 0:
		return nil
	case 1:
		return c.P(0.5)
	case 2:
		return pick(c, 0.0, 1.0, -3.5, 1e300)
	case 3:
		return []any{}
	case 4:
		return map[string]any{}
	case 5:
		if depth > 3 {
			return nil
		}
		var l []any
		for i := c.Int(1, 3); i > 0; i-- {
			l = append(l, c.oddJSON(depth+1))
		}
		return l
	default:
		if depth > 3 {
			return 1.0
		}
		m := map[string]any{}
		for i := c.Int(1, 3); i > 0; i-- {
			m[pick(c, "name", "@type", "url", "@id", "x", "@value")] = c.oddJSON(depth + 1)
		}
		return m
	}
}

// ldArticle makes a description of an article and what to take from it.
func (c *Case) ldArticle(title string) (map[string]any, ldWant) {
	m := map[string]any{}
	w := ldWant{}
	val := func() (string, string) {
		v, x := c.metaValue()
		return v, x
	}
	resembling := func() (string, string) {
		if c.P(0.4) {
			return val()
		}
		ws := strings.Fields(title)
		keep := shuffle(c, append([]string(nil), ws...))[:c.Int(1, len(ws))]
		if c.P(0.4) {
			keep = ws
		}
		for i := c.R.IntN(4); i > 0; i-- {
			keep = append(keep, c.W.Tok())
		}
		v := strings.Join(keep, pick(c, " ", " ", ", ", " - "))
		if c.P(0.2) {
			v = strings.ToUpper(v)
		}
		if c.P(0.15) {
			return pick(c, " ", "\n") + v + " ", v
		}
		return v, v
	}
	switch c.R.IntN(7) {
	case 0: // none
	case 1:
		m["name"], w.title = val()
	case 2:
		m["headline"], w.title = val()
	case 3:
		v, x := val()
		m["name"], m["headline"], w.title = v, v, x
	case 4:
		m["name"] = c.oddJSON(0)
		m["headline"], w.title = val()
		c.Count("odd_fields", 1)
	case 5:
		m["headline"] = c.oddJSON(0)
		m["name"], w.title = val()
		c.Count("odd_fields", 1)
	default:
		for w.name == w.headline {
			m["name"], w.name = resembling()
			m["headline"], w.headline = resembling()
		}
	}
	person := func(v string) map[string]any {
		p := map[string]any{"name": v, "@type": pick(c, "Person", "Organization")}
		if c.P(0.3) {
			p["url"] = c.oddJSON(0)
		}
		return p
	}
	switch c.R.IntN(6) {
	case 0:
	case 1, 2:
		v, x := val()
		m["author"], w.byline = person(v), x
	case 3, 4:
		var l []any
		var xs []string
		for i := c.some(1, 2, 3, 4, 5, 5, 12, 30); i > 0; i-- {
			if len(l) > 0 && c.P(0.2) {
				l = append(l, pick[any](c, nil, 3.0, []any{}, map[string]any{}, map[string]any{"name": 5.0}))
				continue
			}
			v, x := val()
			if len(xs) > 0 && c.P(0.1) {
				x = pick(c, xs...)
				v = x
				if strings.Contains(v, "&") {
					v, x = val()
				}
			}
			l = append(l, person(v))
			xs = append(xs, x)
		}
		m["author"], w.byline = l, strings.Join(xs, ", ")
		c.Count("author_lists", 1)
	default:
		v := c.oddJSON(0)
		if c.P(0.4) {
			v = c.W.Words(2)
		}
		m["author"] = v
		c.Count("odd_fields", 1)
	}
	str := func(k string, f *string) {
		switch c.R.IntN(4) {
		case 0, 1:
			m[k], *f = val()
		case 2:
			m[k] = c.oddJSON(0)
			c.Count("odd_fields", 1)
		}
	}
	str("description", &w.excerpt)
	str("datePublished", &w.time)
	switch c.R.IntN(5) {
	case 0, 1, 2:
		v, x := val()
		m["publisher"], w.site = person(v), x
	case 3:
		m["publisher"] = pick[any](c, c.W.Words(2), c.oddJSON(0), []any{person(c.W.Tok())})
		c.Count("odd_fields", 1)
	}
	for i := c.R.IntN(3); i > 0; i-- {
		m[pick(c, "image", "url", "dateModified", "mainEntityOfPage", "articleBody", "isPartOf", "keywords")] = c.oddJSON(0)
	}
	return m, w
}

var wordRe = regexp.MustCompile(`[0-9A-Za-z_]+`)

// likeness is the share of the title, by length, whose words are among those of s.
func likeness(s, title string) float64 {
	has := map[string]bool{}
	for _, t := range wordRe.FindAllString(strings.ToLower(s), -1) {
		has[t] = true
	}
	all, miss := 0, 0
	nm := 0
	ts := wordRe.FindAllString(strings.ToLower(title), -1)
	for _, t := range ts {
		all += len(t)
		if !has[t] {
			miss += len(t)
			nm++
		}
	}
	if len(has) == 0 || len(ts) == 0 {
		return 0
	}
	all += len(ts) - 1
	if nm > 0 {
		miss += nm - 1
	}
	return 1 - float64(miss)/float64(all)
}

func runC14(c *Case) {
	p := c.Article(c.Int(4, 6))
	fallback := metaWant{title: p.Title}
	meta := func(k string, f *string) {
		if c.P(0.5) {
			v, x := c.metaValue()
			*f = x
			p.Head.Add(E("meta", A(pick(c, "name", "name"), k, "content", v)))
		}
	}
	meta("og:title", &fallback.title)
	meta("author", &fallback.byline)
	meta("og:site_name", &fallback.site)
	meta("description", &fallback.excerpt)
	if c.P(0.3) {
		v, x := c.metaValue()
		fallback.time = x
		p.Head.Add(E("meta", A("property", "article:published_time", "content", v)))
	}
	bare := p.Src()

	var used *ldWant
	kinds := ""
	n := c.Int(1, 4)
	var scripts []*El
	for i := 0; i < n; i++ {
		m, w := c.ldArticle(p.Title)
		m["@context"] = pick(c, ldContexts...)
		m["@type"] = pick(c, ldTypes...)
		typ := "application/ld+json"
		var v any = m
		raw := ""
		good := true
		kind := pick(c, "ok", "ok", "ok", "graph", "graph", "type", "type", "context", "context", "broken", "shape", "script", "graphless", "odd")
		switch kind {
		case "ok":
			if c.P(0.1) {
				m["@graph"] = pick[any](c, nil, []any{}, "x", 3.0, map[string]any{}, []any{map[string]any{"@type": "WebSite", "name": c.W.Tok()}})
			}
		case "graph":
			g := []any{m}
			others, front := c.R.IntN(4), pick(c, 0.6, 0.6, 1)
			if c.P(0.05) {
				others = c.Int(13, 60)
				c.Count("long_graphs", 1)
			}
			for j := others; j > 0; j-- {
				k := pick[any](c, nil, 3.0, "Article", []any{}, map[string]any{"@type": pick(c, ldOtherTypes...), "name": c.W.Words(3), "headline": c.W.Words(4)},
					map[string]any{"name": c.W.Tok()}, map[string]any{"@type": c.oddJSON(0)})
				if c.P(front) {
					g = append([]any{k}, g...)
				} else {
					g = append(g, k)
				}
			}
			if c.P(0.2) { // a second article after the first
				g = append(g, map[string]any{"@type": "Article", "name": c.W.Words(3)})
			}
			out := map[string]any{"@context": m["@context"], "@graph": g}
			if c.P(0.3) {
				out["@type"] = pick(c, "WebPage", "WebSite")
				out["name"] = c.W.Words(3)
			}
			if c.P(0.5) {
				for k := range m {
					if k == "@context" {
						delete(m, k)
					}
				}
			}
			v = out
			c.Count("in_graph", 1)
		case "type":
			good = false
			if c.P(0.5) {
				m["@type"] = pick(c, ldOtherTypes...)
			} else if c.P(0.5) {
				m["@type"] = c.oddJSON(0)
			} else {
				delete(m, "@type")
			}
		case "context":
			good = false
			m["@context"] = pick(c, ldOtherContexts...)
			if c.P(0.3) {
				delete(m, "@context")
			}
		case "broken":
			good = false
			b, _ := json.Marshal(m)
			s := string(b)
			switch c.R.IntN(5) {
			case 0:
				s = s[:c.Int(0, len(s)-1)]
			case 1:
				s += pick(c, "}", ",", "x", ";", "{}")
			case 2:
				s = strings.Replace(s, ":", "=", 1)
			case 3:
				s = strings.Replace(s, `"`, "'", 2)
			default:
				s = pick(c, "", " ", "window.x = 1", "// comment", "undefined", "{", "[")
			}
			raw = s
			if s == "" {
				raw = " "
			}
		case "shape":
			good = false
			v = pick[any](c, nil, 3.0, true, "Article", []any{}, []any{1.0}, map[string]any{}, []any{nil}, c.oddJSON(0))
		case "script":
			good = false
			typ = pick(c, "application/json", "text/javascript", "", "application/ld", "module")
		case "graphless":
			good = false
			delete(m, "@type")
			m["@graph"] = pick[any](c, nil, []any{}, "Article", 3.0, []any{map[string]any{"@type": "WebSite"}}, []any{map[string]any{"name": "Article"}}, map[string]any{"@type": "Article"}, []any{[]any{map[string]any{"@type": "Article"}}})
		case "odd":
			good = false
			m["@context"] = c.oddJSON(0)
			m["@type"] = c.oddJSON(0)
			m["@graph"] = c.oddJSON(0)
		}
		var s *El
		if raw != "" {
			s = E("script", A("type", typ), Raw(raw, ""))
		} else {
			s = ldScript(v)
			s.Attrs = A("type", typ)
			if typ == "" {
				s.Attrs = nil
			}
			if typ == "application/ld+json" && c.P(0.08) {
				s.Kids[0].Raw = pick(c, "", "\n ") + "<![CDATA[" + s.Kids[0].Raw + "]]>" + pick(c, "", " \n")
			} else if c.P(0.15) {
				s.Kids[0].Raw = pick(c, "\n  ", " ") + s.Kids[0].Raw + pick(c, "\n", "", " ")
			}
		}
		scripts = append(scripts, s)
		kinds += kind + " "
		if good {
			c.Count("article_scripts", 1)
			if used == nil {
				w := w
				used = &w
				if i > 0 {
					c.Count("not_first", 1)
				}
			}
		} else {
			c.Count("ignored_scripts", 1)
		}
	}
	// all in the head in order, or the last ones in the body
	k := len(scripts)
	if c.P(0.3) {
		k = c.R.IntN(len(scripts) + 1)
	}
	at := c.R.IntN(len(p.Head.Kids) + 1)
	if c.P(0.04) { // many other scripts before
		for i := c.Int(13, 60); i > 0; i-- {
			p.Head.InsertKid(0, E("script", A("type", pick(c, "text/javascript", "module", "application/json")), Raw(pick(c, "var a = 1;", "{}", `{"@context":"https://schema.org","@type":"Article","name":"no"}`), "")))
			at++
		}
		c.Count("many_scripts", 1)
	}
	for i := k - 1; i >= 0; i-- {
		p.Head.InsertKid(at, scripts[i])
	}
	for _, s := range scripts[k:] {
		if c.P(0.5) {
			p.Body.Add(s)
		} else {
			p.Body.Add(s)
		}
	}
	var opts []readability.Option
	if c.P(0.12) {
		opts = append(opts, readability.DisableJSONLD(true))
		used = nil
		c.Count("disabled", 1)
	} else if c.P(0.05) {
		opts = append(opts, readability.DisableJSONLD(false))
	}
	src := p.Src()
	fuzzy := used != nil && c.P(0.3)
	if fuzzy {
		src = p.HTML.Fuzzy(c)
	}
	c.Input("scripts", kinds)
	o := c.Extract(src, pageURI, opts...)
	if o == nil {
		return
	}
	w := fallback
	chosen := "-"
	if used != nil {
		if used.name != used.headline {
			ln, lh := likeness(used.name, p.Title), likeness(used.headline, p.Title)
			if near := func(x float64) bool { return x > 0.72 && x < 0.78 }; near(ln) || near(lh) {
				return // not clear-cut
			}
			used.title, chosen = used.name, "name"
			if lh > 0.75 && ln <= 0.75 {
				used.title, chosen = used.headline, "headline"
				c.Count("headline_chosen", 1)
			}
			used.title = html.UnescapeString(used.title)
			c.Count("title_choice", 1)
		}
		over := func(f *string, v string) {
			if v != "" {
				*f = v
			}
		}
		over(&w.title, used.title)
		over(&w.byline, used.byline)
		over(&w.excerpt, used.excerpt)
		over(&w.site, used.site)
		over(&w.time, used.time)
	}
	if w.excerpt == "" {
		if ps := o.Tree.All("p"); len(ps) > 0 {
			w.excerpt = strings.TrimSpace(ps[0].Inner())
		}
	}
	c.compareMeta(o.Res, w)
	if used == nil {
		c.Count("same_as_absent", 1)
		res, err := Try(bare, pageURI, opts...)
		if err != nil || *res != *o.Res {
			c.Fail("not-ignored", "the page with the JSON-LD to be ignored gives another result than without it: %v\nwith:    %+v\nwithout: %+v", err, o.Res, res)
		}
	}
	c.Distinct(kinds, chosen, used != nil, fmt.Sprint(used != nil && used.byline != ""), used != nil && used.site != "")
	c.Sample("scripts %s→ %+v", kinds, w)
}
