package main

import (
	"fmt"
	"regexp"
	"strings"

	readability "github.com/giulianopz/go-readability"
)

func init() {
	register(&Prop{ID: "C02", Quick: 15000, Thorough: 225000, Run: runC02,
		Rule: "pages with scripts, styles, form controls, embeds and javascript: links in random positions (built articles, wild trees, tag soup, damaged corpus pages), with and without retries; non-trivial: an article was extracted from a page containing such elements; distinct by page",
		Min:  map[string]int{"extractions": 1500, "forbidden_in_page": 3000, "js_links_kept": 300, "very_many": 100, "long_js_links": 40}})
}

var forbiddenTags = []string{"script", "noscript", "style", "link", "footer", "aside", "input", "textarea", "select", "button"}
var embedTags = []string{"object", "embed", "iframe"}

const defaultVideos = `(?i)//(www\.)?((dailymotion|youtube|youtube-nocookie|player\.vimeo|v\.qq)\.com|(archive|upload\.wikimedia)\.org|player\.twitch\.tv)`

var defaultVideosRe = regexp.MustCompile(defaultVideos)

// isJS tells whether a browser runs a script when the link is followed.
func isJS(href string) bool {
	href = strings.TrimLeftFunc(href, func(r rune) bool { return r <= 0x20 })
	href = strings.NewReplacer("\t", "", "\n", "", "\r", "").Replace(href)
	return len(href) >= 11 && strings.EqualFold(href[:11], "javascript:")
}

func (c *Case) checkInert(res *readability.Result, video *regexp.Regexp, objects bool) {
	t, err := readStandard(res.HTMLContent)
	if err != nil {
		c.Fail("unreadable", "HTMLContent cannot be read: %v", err)
		return
	}
	if n := t.All(forbiddenTags...); len(n) > 0 {
		c.Fail("active-content", "the article contains %s", show(n[0]))
		return
	}
	for _, a := range t.All("a") {
		if isJS(a.Get("href")) {
			c.Fail("javascript-link", "the article contains the link %s", show(a))
			return
		}
	}
	for _, e := range t.All(embedTags...) {
		ok := false
		for _, a := range e.Attrs {
			ok = ok || (video != nil && video.MatchString(a.V))
		}
		if e.Tag == "object" {
			var b strings.Builder
			for _, k := range e.Kids {
				b.WriteString(k.HTML())
			}
			ok = ok || !objects || (video != nil && video.MatchString(b.String()))
		}
		if !ok {
			c.Fail("foreign-embed", "the article contains %s", show(e))
			return
		}
		c.Count("allowed_embeds", 1)
	}
}

// nasty is an element that must not reach the article.
func (c *Case) nasty(depth int) *El {
	t := c.W.Words(2)
	switch c.R.IntN(12) {
	case 0:
		return E("script", A("src", "http://evil/x.js"), Raw(t, t))
	case 1:
		return E("style", Raw("p { color: red }", ""))
	case 2:
		return E("noscript", E("p", t), E("script", Raw(t, t)))
	case 3:
		return E("link", A("rel", "stylesheet", "href", "x.css"))
	case 4:
		return E(pick(c, "footer", "aside"), c.Para())
	case 5:
		return E("input", A("type", "text", "value", t))
	case 6:
		return E("textarea", t)
	case 7:
		return E("select", E("option", t), E("option", c.W.Tok()))
	case 8:
		return E("button", A("onclick", "x()"), t)
	case 9:
		return E("iframe", A("src", pick(c, "http://evil.example/x", "//evil.example/youtube.com", "/x")))
	case 10:
		return E("object", A("data", "http://evil.example/x.swf"), E("param", A("name", "movie", "value", "http://evil.example/y")), E("embed", A("src", "http://evil.example/z")))
	default:
		if depth > 0 {
			return E(pick(c, "div", "span", "p", "section", "figure", "svg", "blockquote", "li"), c.nasty(depth-1), t, c.nasty(depth-1))
		}
		return E(pick(c, "x:script", "svg:style", "o:link", "a:button", "b:iframe"), A("src", "x"), t)
	}
}

func runC02(c *Case) {
	uri := pageURI
	var src string
	var opts []readability.Option
	video, objects := defaultVideosRe, true
	if c.P(0.2) {
		s := pick(c, `youtube`, `//allowed\.example/`, `^$`)
		video = regexp.MustCompile(s)
		opts = append(opts, readability.AllowedVideoRegex(video))
		c.Input("videos", s)
	}
	if c.P(0.5) {
		thr := pick(c, 0, 1000, 5000, 1<<30)
		c.Input("threshold", fmt.Sprint(thr))
		opts = append(opts, readability.CharThreshold(thr))
	}
	var js []string
	switch x := c.R.IntN(10); {
	case x < 5:
		p := c.Article(c.Int(2, 8))
		for i := c.Int(1, 6); i > 0; i-- {
			n := c.nasty(2)
			host := p.Main
			switch c.R.IntN(5) {
			case 0:
				host = p.Body
			case 1:
				host = pick(c, p.Paras...)
			case 2:
				host = E(pick(c, "div", "section", "ul", "table", "blockquote", "figure", "pre", "code", "noscript"))
				p.Main.InsertKid(c.R.IntN(len(p.Main.Kids)+1), host)
			case 3:
				host = p.Head
			}
			host.InsertKid(c.R.IntN(len(host.Kids)+1), n)
			c.Count("forbidden_in_page", 1)
		}
		if c.P(0.06) { // very many of one kind
			tag := pick(c, "style", "style", "script", "noscript", "link", "footer", "aside", "input", "textarea", "select", "button", "iframe", "object", "embed", "a")
			for i := c.Int(13, 70); i > 0; i-- {
				host := pick(c, append(p.Paras, p.Main)...)
				switch tag {
				case "a":
					t := c.W.Tok()
					js = append(js, t)
					p.Main.Add(E("p", c.W.Prose(60, 4), " ", E("a", A("href", "javascript:go()"), t), " "))
				case "style", "script":
					host.Add(E(tag, Raw("x{}", "")))
				default:
					host.Add(E(tag, A("name", "x"+fmt.Sprint(i))))
				}
			}
			c.Count("very_many", 1)
		}
		for i := c.Int(0, 3); i > 0; i-- {
			href := pick(c, "javascript:void(0)", "javascript:;", "JavaScript:x()", " javascript:x", "\tjavascript:x", "java\nscript:x", "\x01javascript:alert(1)", "javascript:%61")
			a := E("a", A("href", href))
			t := c.W.Words(2)
			host := pick(c, p.Paras...)
			if c.P(0.03) {
				t = c.W.Words(c.Int(100, 300))
				host = E("p", c.W.Prose(8*300, 100), " ")
				p.Main.Add(host)
				c.Count("long_js_links", 1)
			}
			js = append(js, tokens(t)...)
			switch c.R.IntN(4) {
			case 0:
				a.Add(t)
			case 1:
				a.Add(E("b", t))
			case 2:
				u := c.W.Tok()
				js = append(js, u)
				a.Add(t, E("i", u), " ")
			case 3:
				u := c.W.Tok()
				js = append(js, u)
				a.Add(E("span", t), E("em", E("strong", u)))
			}
			host.Add(a, " ")
		}
		if c.P(0.3) {
			p.Head.Add(E("base", A("href", pick(c, "http://other.example/b/", "/c/", "sub/", "javascript:alert(1)//", "JavaScript:x", " javascript:x"))))
			for _, h := range []string{"?x", "#y", "rel/z", ""} {
				pick(c, p.Paras...).Add(E("a", A("href", h), c.W.Tok()))
			}
		}
		src = p.Src()
	case x < 7:
		p := c.wildPage()
		for i := c.Int(1, 4); i > 0; i-- {
			p.Body.InsertKid(c.R.IntN(len(p.Body.Kids)+1), c.nasty(2))
			c.Count("forbidden_in_page", 1)
		}
		src = p.HTML.Fuzzy(c)
	case x < 9:
		src = soup(c, c.Int(20, 250))
		objects = false
	default:
		_, srcs := fixtures()
		src = mutate(c, pick(c, srcs...))
		objects = false
	}
	c.Input("page", src)
	c.Input("uri", uri)
	res, err := Try(src, uri, opts...)
	if err != nil {
		c.Count("no_article", 1)
		if len(js) > 0 {
			c.Fail("unexpected-error", "extraction of a page with an article failed: %v", err)
		}
		return
	}
	c.Input("html", res.HTMLContent)
	c.Count("extractions", 1)
	c.Distinct(src)
	c.checkInert(res, video, objects)
	for _, t := range js {
		if !strings.Contains(res.TextContent, t) {
			c.Fail("javascript-link-text", "the text %q of a javascript: link is lost", t)
		}
		c.Count("js_links_kept", 1)
	}
	c.Sample("%s", clip(src, 300))
}
