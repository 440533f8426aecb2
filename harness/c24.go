package main

import (
	"fmt"
	"regexp"
	"strings"

	readability "github.com/giulianopz/go-readability"
)

func init() {
	register(&Prop{ID: "C24", Quick: 50000, Thorough: 750000, Run: runC24,
		Rule: "an article with 1-6 iframes, embeds and objects (plain, with parameters, with nested embeds, with fallback text) with addresses of all allowed sites and near misses in any attribute, in places of every kind, among them blocks that would be dropped as junk; default, custom, match-all, match-empty and nil patterns, also in retried extractions; oracle: the pattern on the attribute values and, for objects, on what they contain; distinct by (element, attribute, address, place, pattern)",
		Min: map[string]int{"kept": 5000, "dropped": 5000, "iframe": 2500, "embed": 2500, "object": 2500, "by_inner": 700, "other_attribute": 1500, "junk_protected": 1500, "negative_dropped": 100, "custom_pattern": 1500, "nil_pattern": 300, "nested_embeds": 300, "retried": 400}})
}

var videoAddrs = []string{
	"//www.youtube.com/embed/x1", "https://youtube.com/embed/x", "http://WWW.YouTube.COM/v/a_b", "https://www.youtube-nocookie.com/embed/q", "https://player.vimeo.com/video/1",
	"//www.player.vimeo.com/1", "//dailymotion.com/embed/video/z", "https://www.dailymotion.com/x", "https://v.qq.com/iframe/p?vid=1", "https://archive.org/embed/y", "//www.archive.org/e",
	"https://upload.wikimedia.org/a.webm", "https://player.twitch.tv/?channel=c", "//PLAYER.TWITCH.TV/x", "x //youtube.com", "http://youtube.company/x", "http://e.example/?u=https://youtube.com/x"}

var otherAddrs = []string{
	"//m.youtube.com/embed/x", "https://youtu.be/x", "youtube.com/embed/x", "/youtube.com/x", "www.youtube.com/x", "https://vimeo.com/1", "https://player.vimeo.org/1", "https://web.archive.org/x",
	"https://archive.com/x", "https://commons.wikimedia.org/x", "https://upload.wikimedia.com/x", "https://clips.twitch.tv/x", "https://twitch.tv/x", "https://qq.com/x", "https://v.qq.org/x", "https://evil.example/youtube.com",
	"https://youtubeXcom.example/", "https://youtube.org/", "https://www2.youtube.com/x", "https://notyoutube.com/x", "https://dailymotion.fr/x", "https://allowed.example/v/7", "https://media.example/123", "https://media.example/12a", "", "about:blank", "/v/1", "x"}

type embed24 struct {
	el   *El
	key  string
	up   *embed24 // the object around it
	note string
}

func (c *Case) embed24(deep bool) []*embed24 {
	addr := pick(c, videoAddrs...)
	if c.P(0.5) {
		addr = pick(c, otherAddrs...)
	}
	key := c.W.Tok()
	tag := pick(c, "iframe", "embed", "object")
	c.Count(tag, 1)
	main := map[string]string{"iframe": "src", "embed": "src", "object": "data"}[tag]
	attr := main
	var at []Attr
	e := &embed24{key: key}
	inner := tag == "object" && c.P(0.5)
	if inner {
		addr2 := pick(c, otherAddrs...)
		at = A("data-k", key, main, addr2)
		if c.P(0.4) {
			at = A("data-k", key)
		}
		e.note = "object inner " + addr
		e.el = E(tag, at)
		if c.P(0.05) {
			e.el.Add(E("param", A("name", "x", "value", c.W.Prose(pick(c, 500, 2000, 6000), 3))))
		}
		r := []*embed24{e}
		switch c.R.IntN(4) {
		case 0:
			e.el.Add(E("param", A("name", "movie", "value", addr)), E("param", A("name", "x", "value", "y")))
		case 1:
			e.el.Add(E("param", A("name", "x", "value", "1")), c.W.Words(2)+" "+addr)
			e.note += " spelled out"
		case 2:
			e.el.Add(E("p", E("a", A("href", addr), c.W.Words(2))))
		default:
			k := c.W.Tok()
			m := &embed24{key: k, up: e, el: E("embed", A("data-k", k, "src", addr)), note: "in object"}
			e.el.Add(m.el)
			r = append(r, m)
			c.Count("nested_embeds", 1)
		}
		return r
	}
	if c.P(0.35) {
		attr = pick(c, "data-src", "title", "name", "data", "srcdoc", "class", "id", "data-url", "value", "x", "src", "flashvars", "allow")
		c.Count("other_attribute", 1)
	}
	at = A("data-k", key)
	if attr != main && c.P(0.6) {
		at = append(at, A(main, pick(c, otherAddrs...))...)
	}
	if c.P(0.4) {
		at = append(at, A("width", "560", "height", "315")...)
	}
	at = append(at, A(attr, addr)...)
	if c.P(0.3) {
		at = append(at, A("frameborder", "0", "allowfullscreen", "")...)
	}
	e.el = E(tag, at)
	e.note = tag + " " + attr + " " + addr
	if tag == "object" && c.P(0.5) {
		e.el.Add(c.W.Words(3))
	}
	if tag == "iframe" && c.P(0.15) { // what an iframe contains is of no account
		e.el.Add(Raw(pick(c, videoAddrs...), ""))
		e.note += " inner"
	}
	return []*embed24{e}
}

func runC24(c *Case) {
	c.W.Mode = pick(c, 0, 0, 0, 1)
	var opts []readability.Option
	video, pat := defaultVideosRe, "default"
	if c.P(0.35) {
		pat = pick(c, `youtube`, `//allowed\.example/`, `^$`, `.`, `(?i)//MEDIA\.example/[0-9]+`, `(qq|vimeo)\.`, `twitch|archive`, `nothing matches this`, "nil", "nil")
		if pat == "nil" {
			video = nil
			c.Count("nil_pattern", 1)
		} else {
			video = regexp.MustCompile(pat)
			c.Count("custom_pattern", 1)
		}
		opts = append(opts, readability.AllowedVideoRegex(video))
		c.Input("videos", pat)
	}
	retried := c.P(0.1)
	if retried {
		opts = append(opts, readability.CharThreshold(1_000_000))
		c.Count("retried", 1)
	}
	match := func(e *embed24) bool {
		if video == nil {
			return false
		}
		for _, a := range e.el.Attrs {
			if video.MatchString(a.V) {
				return true
			}
		}
		if e.el.Tag == "object" {
			var b strings.Builder
			for _, k := range e.el.Kids {
				b.WriteString(k.HTML())
			}
			return video.MatchString(b.String())
		}
		return false
	}
	p := c.Article(c.Int(5, 7))
	type placed struct {
		*embed24
		kept  bool
		place string
	}
	var all []placed
	var mustStay []string // texts of blocks that an allowed video protects
	var mustGo []string
	sig := pat + " "
	short := func() *El { return E("p", c.W.Words(2)) }
	for i := c.Int(1, 6); i > 0; i-- {
		es := c.embed24(true)
		kept := match(es[0])
		v := es[0].el
		texts := []string{}
		txt := func() string { t := c.W.Words(2); texts = append(texts, t); return t }
		place := pick(c, "main", "p", "p-empty", "p-media", "figure", "quote", "section", "span", "junk-text", "junk-links", "junk-images", "junk-list", "junk-table", "junk-form", "junk-fieldset", "junk-nested", "negative", "cell")
		var b *El
		switch place {
		case "main":
			b = v
		case "p":
			b = E("p", c.W.Words(6), v, c.W.Words(3))
		case "p-empty":
			b = E("p", v)
			if c.P(0.4) {
				b = E("p", E(pick(c, "span", "b", "i", "em", "small"), v))
			}
		case "p-media":
			b = E("p", v, E("img", A("src", "/m.jpg")))
			if c.P(0.3) {
				b.Add(E("iframe", A("src", "//evil.example/x")))
			}
			b.Kids = shuffle(c, b.Kids)
		case "figure":
			b = E("figure", v, E("figcaption", txt()))
		case "quote":
			b = E("blockquote", E("p", txt()), v)
		case "section":
			b = E("section", E("p", txt()), v)
		case "span":
			b = E("p", txt(), E("span", E("b", v)), txt())
		case "junk-text":
			b = E("div", v, E("p", txt()))
		case "junk-links":
			b = E("div", E("p", E("a", A("href", "/a"), txt())), v, E("p", E("a", A("href", "/b"), txt()), " ", E("a", A("href", "/c"), txt())))
		case "junk-images":
			b = E("div", E("img", A("src", "a.png")), E("img", A("src", "b.png")), v, E("img", A("src", "c.png")), E("h4", txt()))
		case "junk-list":
			b = E("ul", E("li", E("a", A("href", "/a"), txt()), " ", E("b", txt())), E("li", v), E("li", E("a", A("href", "/b"), txt())))
		case "junk-table":
			b = E("table", E("tbody", E("tr", E("td", v), E("td", E("a", A("href", "/a"), txt()))), E("tr", E("td", txt()), E("td", ""))))
		case "junk-form":
			b = E("form", E("input", A("name", "q")), E("p", txt()), v, E("button", c.W.Tok()))
		case "junk-fieldset":
			b = E("fieldset", E("p", txt()), v, E("input", A("name", "q")))
		case "junk-nested":
			b = E("div", E("h5", txt()), E("div", E("p", txt()), E("div", v, E("ul", E("li", E("a", A("href", "/q"), txt()))))))
		case "negative":
			b = E("div", A("class", pick(c, negativeOnly...)), E("p", txt()), v, E("p", txt()))
		case "cell":
			b = E("table", A("summary", "s"), E("tr", E("th", txt()), E("th", txt())), E("tr", E("td", v), E("td", txt())))
		}
		if strings.HasPrefix(place, "junk") && c.P(0.3) {
			b.Set(pick(c, "class", "id"), pick(c, "x1", "post-video", "entry", "main-x", "text"))
		}
		if evil := "//evil.example/x"; c.P(0.2) && (b.Tag == "div" || b.Tag == "form" || b.Tag == "fieldset") && strings.HasPrefix(place, "junk") && (video == nil || !video.MatchString(evil)) {
			for k := c.some(1, 2, 3, 4, 6, 8, 12); k > 0; k-- { // among others
				f := pick(c, E("iframe", A("src", evil)), E("embed", A("src", evil)), E("object", A("data", evil)))
				if c.P(0.7) {
					b.InsertKid(0, f)
				} else {
					b.Add(f)
				}
			}
			c.Count("among_others", 1)
		}
		if c.P(0.1) && place != "negative" {
			b = E("div", short(), b, c.Para())
		}
		judged := place != "negative" || retried
		if !judged {
			kept = false
			if !retried {
				mustGo = append(mustGo, texts...)
				c.Count("negative_dropped", 1)
			}
		} else if place == "negative" && retried {
			// the pattern decides alone
		}
		if kept && strings.HasPrefix(place, "junk") {
			mustStay = append(mustStay, texts...)
			c.Count("junk_protected", 1)
		}
		if !strings.HasPrefix(place, "junk") && place != "negative" {
			mustStay = append(mustStay, texts...)
		}
		if kept && es[0].el.Tag == "object" && strings.HasPrefix(es[0].note, "object inner") {
			c.Count("by_inner", 1)
		}
		for _, e := range es {
			k := kept
			if e.up != nil {
				k = kept && match(e)
			}
			all = append(all, placed{e, k, place})
			sig += fmt.Sprint(e.note, " ", place, " ", k, "; ")
		}
		c.Slip(p.Main, b)
	}
	src := p.Src()
	if c.P(0.2) && !strings.Contains(sig, "spelled out") { // references in texts stay as they are
		src = p.HTML.Fuzzy(c)
	}
	c.Input("embeds", sig)
	o := c.Extract(src, pageURI, opts...)
	if o == nil || !c.checkMain(o, p) {
		return
	}
	for _, x := range all {
		g := o.Tree.ByAttr("data-k", x.key)
		if x.kept {
			c.Count("kept", 1)
			if g == nil {
				c.Fail("video-lost", "pattern %s: %s in %s is an allowed video, but is not in the article", pat, show(x.el), x.place)
				return
			}
			if g.Tag != x.el.Tag {
				c.Fail("video-changed", "%s became a %s", show(x.el), g.Tag)
				return
			}
			for _, a := range x.el.Attrs {
				if a.K != "class" && a.K != "id" && g.Get(a.K) != a.V {
					c.Fail("video-changed", "attribute %s of %s is %q in the article", a.K, show(x.el), g.Get(a.K))
					return
				}
			}
		} else {
			c.Count("dropped", 1)
			if g != nil {
				c.Fail("foreign-embed", "pattern %s: %s in %s is not an allowed video, but is in the article", pat, show(x.el), x.place)
				return
			}
		}
	}
	for _, t := range mustStay {
		if !o.Has(t) {
			c.Fail("block-lost", "pattern %s: the text %q of a block with an allowed video (or of a plain part of the article) is not in the article (%s)", pat, t, sig)
			return
		}
	}
	for _, t := range mustGo {
		if o.Has(t) {
			c.Fail("negative-kept", "the text %q of a block named as junk is in the article (%s)", t, sig)
			return
		}
	}
	c.Distinct(sig, retried)
	c.Sample("%s", sig)
}
