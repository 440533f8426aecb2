package main

import (
	"fmt"
	"regexp"
	"strings"

	readability "github.com/giulianopz/go-readability"
)

var soupTags = []string{"div", "p", "span", "a", "b", "i", "em", "strong", "section", "article", "main", "header", "footer", "aside", "nav",
	"h1", "h2", "h3", "h4", "h5", "h6", "ul", "ol", "li", "dl", "dt", "dd", "table", "tbody", "thead", "tfoot", "tr", "td", "th", "caption", "col", "colgroup",
	"pre", "code", "blockquote", "font", "center", "form", "fieldset", "label", "button", "select", "option", "textarea", "iframe", "object",
	"figure", "figcaption", "picture", "video", "audio", "svg", "math", "title", "script", "noscript", "style", "del", "ins", "small", "sub", "sup", "q", "cite",
	"address", "details", "summary", "template", "x-custom", "svg:path", "o:p", "canvas", "map", "ruby", "time", "body", "html", "head", "xmp", "noembed", "noframes"}
var soupVoids = []string{"br", "hr", "img", "input", "embed", "link", "meta", "source", "param", "wbr", "area", "base", "col"}

var soupClasses = []string{"article", "content", "comment", "sidebar", "byline", "author", "page", "footer", "ad-break", "share", "hidden", "hid", "lazy", "fallback-image",
	"entry-content", "related", "post", "caption", "sharedaddy", "-ad-", "menu main", "readability-page-1", "readability", "p-author", "comment content"}

var soupURLs = []string{"", " ", "#", "#a", "?", "?q=1", "/", "//", "//h", "a", "../x", "./y?z#w", "http://", "http://h/p%20q?r=s#t", "https://h:99/é", "javascript:", "javascript:alert(1)", " JaVaScRiPt:x",
	"mailto:a@b", "data:image/gif;base64,R0lGOD", "data:image/gif;BASE64,R0lG", "data:image/svg+xml;base64,AAAA", "data:;base64,", "data:", "data:text/html,<p>", "%", "%zz", "http://[::1", "http://[::1]/", ":", "::", "a:b:c", "http://a b/", "\\\\x", "x.jpg", "x.png 2x", "x.webp 100w, y.jpg 200w",
	"https://www.youtube.com/embed/x", "//player.vimeo.com/video/1", "C|/x", "file:///C|/x", "blob:x", "tel:1", "http://h/?a=1,%20http://h/b", "\x00", "\u2028", "ftp://u:p@h/x"}

var soupStyles = []string{"", ";", ":", "display", "display:", "display:none", "visibility:hidden", "display: none;", ";;:;display:none", "background:url(http://x/y;z)", "a:b:c:d", "display:block;", "  ", "width:1px;display : none"}

var soupTexts = []string{" ", "\n", "\t \n", "x", "a, b, c, d", "&amp;", "&lt;b&gt;", "&#60;script&#62;", "&nbsp;", "&#x1F600;", "&#0;", "&#xFFFF;", "&", "&;", "&#;", "&#99999;", "&bogus;", "<", "< ", "a < b", ">", "]]>", "--", "<!--", "<!-- c -->", "-->",
	"<![CDATA[", "<![CDATA[]]>", "<![CDATA[x<y]]>", "<?php x ?>", "<!DOCTYPE html>", "</", "</p>", "</div>", "</body>", "</html>", "</table>", "</x>", "<>", "</>", "<p", "<p a", "<p a=", `<p a="`, "\x00", "\xff\xfe", "\u200b", "\u00a0", "é", "日本語、日本語，日本語。", "🙂", "\r\n"}

// soup is an arbitrary page: mostly tags, text and attributes the code looks at, in no particular order.
func soup(c *Case, n int) string {
	var b strings.Builder
	var open []string
	if c.P(0.9) {
		b.WriteString("<html" + soupAttrs(c) + ">")
		if c.P(0.7) {
			b.WriteString("<head>" + soupHead(c) + "</head>")
		}
	}
	if c.P(0.95) {
		b.WriteString("<body" + soupAttrs(c) + ">")
	}
	big := c.P(0.5)
	for i := 0; i < n; i++ {
		switch x := c.R.IntN(100); {
		case x < 30:
			t := pick(c, soupTags...)
			if len(open) > 150 {
				continue
			}
			b.WriteString("<" + t + soupAttrs(c) + ">")
			open = append(open, t)
		case x < 42:
			t := pick(c, soupVoids...)
			b.WriteString("<" + t + soupAttrs(c) + pick(c, "/>", "/>", "/>", " />", ">"))
		case x < 65 && len(open) > 0:
			b.WriteString("</" + open[len(open)-1] + ">")
			open = open[:len(open)-1]
		case x < 68 && len(open) > 0:
			b.WriteString("</" + pick(c, open...) + ">")
		case x < 72:
			b.WriteString(strings.Repeat("<br/>"+pick(c, "", " ", "\n"), c.Int(1, 5)))
		case x < 84:
			b.WriteString(pick(c, soupTexts...))
		case x < 92 || !big:
			b.WriteString(c.W.Words(c.Int(1, 12)))
		default:
			b.WriteString(c.W.Prose(c.Int(60, 500), c.Int(0, 12)))
		}
	}
	if c.P(0.8) {
		for len(open) > 0 {
			b.WriteString("</" + open[len(open)-1] + ">")
			open = open[:len(open)-1]
		}
		b.WriteString("</body></html>")
	}
	return b.String()
}

func soupHead(c *Case) string {
	var b strings.Builder
	for i := c.R.IntN(6); i > 0; i-- {
		switch c.R.IntN(6) {
		case 0:
			b.WriteString("<title>" + pick(c, soupTexts...) + c.W.Words(c.R.IntN(5)) + pick(c, " | ", " - ", ": ", " » ", "", ":", " |") + c.W.Words(c.R.IntN(4)) + "</title>")
		case 1:
			fmt.Fprintf(&b, `<meta name="%s" property="%s" content="%s"/>`, pick(c, "author", "dc.title", "og:title", " ", "description", "twitter:title"), pick(c, "", "og:title", "article:author og:description", "og : title"), pick(c, soupTexts[:18]...))
		case 2:
			b.WriteString(`<script type="application/ld+json">` + soupJSON(c, 0) + `</script>`)
		case 3:
			b.WriteString(`<base href="` + escAttr.Replace(pick(c, soupURLs...)) + `"/>`)
		case 4:
			b.WriteString("<style>p { x }</style>")
		default:
			b.WriteString(pick(c, soupTexts...))
		}
	}
	return b.String()
}

// soupJSON is a random JSON value around what JSON-LD uses, sometimes broken.
func soupJSON(c *Case, d int) string {
	if d == 0 {
		if c.P(0.1) {
			return pick(c, "", "{", "[", "null", "3", `"x"`, "[]", "{}", "<![CDATA[{}]]>", `{"@context":"http://schema.org"}`, "{\"@context\":\"https://schema.org\",\"@type\":\"Article\",}", strings.Repeat("[", 50))
		}
		var fs []string
		fs = append(fs, `"@context":`+pick(c, `"http://schema.org"`, `"https://schema.org/"`, `"http://schema.org"`, `"x"`, "null", "[]", `{"@vocab":"x"}`, "1"))
		if c.P(0.8) {
			fs = append(fs, `"@type":`+pick(c, `"Article"`, `"NewsArticle"`, `"Thing"`, `["Article"]`, "null", "7", "{}"))
		}
		if c.P(0.3) {
			fs = append(fs, `"@graph":`+pick(c, "[]", "null", `[{"@type":"Article","name":"x"}]`, `[null,1,"s",{"@type":3},{"@type":"Article","author":[]}]`, `{"@type":"Article"}`))
		}
		for _, k := range []string{"name", "headline", "author", "description", "publisher", "datePublished"} {
			if c.P(0.7) {
				fs = append(fs, `"`+k+`":`+soupJSON(c, 1))
			}
		}
		return "{" + strings.Join(shuffle(c, fs), ",") + "}"
	}
	switch x := c.R.IntN(10); {
	case d > 3 || x < 3:
		return pick(c, "null", "true", "0", "-1.5e3", `""`, `"Text"`, `" \u003cb\u003e "`, `"\ud83d\ude00"`)
	case x < 6:
		var fs []string
		for i := c.R.IntN(4); i > 0; i-- {
			fs = append(fs, `"`+pick(c, "name", "@type", "url", "x")+`":`+soupJSON(c, d+1))
		}
		return "{" + strings.Join(fs, ",") + "}"
	default:
		var fs []string
		for i := c.R.IntN(4); i > 0; i-- {
			fs = append(fs, soupJSON(c, d+1))
		}
		return "[" + strings.Join(fs, ",") + "]"
	}
}

func soupAttrs(c *Case) string {
	var b strings.Builder
	for i := c.R.IntN(4) * c.R.IntN(2); i > 0; i-- {
		k, v := "", ""
		switch c.R.IntN(9) {
		case 0, 1:
			k, v = pick(c, "class", "id", "rel", "itemprop"), pick(c, soupClasses...)
		case 2, 3:
			k, v = pick(c, "src", "href", "srcset", "poster", "data-src", "data-srcset", "data"), pick(c, soupURLs...)
		case 4:
			k, v = "style", pick(c, soupStyles...)
		case 5:
			k, v = pick(c, "hidden", "aria-hidden", "aria-modal", "role"), pick(c, "", "true", "false", "dialog", "presentation", "menu", "navigation")
		case 6:
			k, v = pick(c, "rowspan", "colspan", "width", "height", "summary", "datatable", "dir", "lang"), pick(c, "", "0", "3", "-2", "999999999999999999999", "9223372036854775807", "x", "rtl", "1.5")
		case 7:
			k, v = pick(c, "data-x", "alt", "title", "name", "content", "type", "a:b", "xml:lang", "onclick", "'", "<"), pick(c, soupTexts...)
		default:
			k, v = pick(c, "src", "data-original", "data-lazy"), pick(c, "x.jpg", "y.PNG 1x, z.png 2x", "data:image/gif;base64,AA", " a.webp ")
		}
		q := pick(c, `"`, `"`, `"`, "'", "")
		if q == "" {
			v = strings.Map(func(r rune) rune {
				if strings.ContainsRune(" \t\r\n\"'<>=`", r) {
					return -1
				}
				return r
			}, v)
		} else {
			v = strings.ReplaceAll(v, q, "&quot;")
		}
		b.WriteString(" " + k + "=" + q + v + q)
	}
	return b.String()
}

var mutRe = regexp.MustCompile(`<[^<>]*>`)

// mutate damages a page: cuts, repeats, swaps and inserts bytes, tags and attributes.
func mutate(c *Case, s string) string {
	if len(s) > 70_000 {
		i := c.R.IntN(len(s) - 70_000)
		s = s[:15_000] + s[15_000+i*8/10:]
		if len(s) > 70_000 {
			s = s[:70_000]
		}
	}
	for k := c.Int(1, 12); k > 0; k-- {
		if len(s) < 20 {
			break
		}
		i := c.R.IntN(len(s))
		j := min(len(s), i+c.R.IntN(300))
		switch c.R.IntN(8) {
		case 0: // cut
			s = s[:i] + s[j:]
		case 1: // repeat
			s = s[:j] + s[i:j] + s[j:]
		case 2: // drop a tag
			if m := mutRe.FindStringIndex(s[i:]); m != nil {
				s = s[:i+m[0]] + s[i+m[1]:]
			}
		case 3: // repeat a tag many times
			if m := mutRe.FindStringIndex(s[i:]); m != nil {
				s = s[:i+m[0]] + strings.Repeat(s[i+m[0]:i+m[1]], c.Int(2, 20)) + s[i+m[0]:]
			}
		case 4: // insert
			s = s[:i] + pick(c, soupTexts...) + s[i:]
		case 5: // change all of one tag
			a, b := pick(c, soupTags...), pick(c, soupTags...)
			if a != "html" && a != "body" {
				s = strings.ReplaceAll(s, "<"+a+" ", "<"+b+" ")
			}
		case 6: // new attributes
			if m := mutRe.FindStringIndex(s[i:]); m != nil {
				s = s[:i+m[1]-1] + soupAttrs(c) + s[i+m[1]-1:]
			}
		case 7: // truncate
			if c.P(0.3) {
				s = s[:i]
			}
		}
	}
	return s
}

// OptSet is a set of option values, kept in a form that can be reported and given again.
type OptSet struct {
	Max, Top, Thr      *int
	Classes            []string
	Keep, NoLD         *bool
	Video              *string // "" is nil
	MinLen             *int
	MinScore           *float64
	Html2Text, Serial  bool
}

func ptr[T any](x T) *T { return &x }

func (o *OptSet) Options() []readability.Option {
	var r []readability.Option
	if o.Max != nil {
		r = append(r, readability.MaxElemsToParse(*o.Max))
	}
	if o.Top != nil {
		r = append(r, readability.NTopCandidates(*o.Top))
	}
	if o.Thr != nil {
		r = append(r, readability.CharThreshold(*o.Thr))
	}
	if o.Classes != nil {
		r = append(r, readability.ClassesToPreserve(o.Classes...))
	}
	if o.Keep != nil {
		r = append(r, readability.KeepClasses(*o.Keep))
	}
	if o.NoLD != nil {
		r = append(r, readability.DisableJSONLD(*o.NoLD))
	}
	if o.Video != nil {
		if *o.Video == "" {
			r = append(r, readability.AllowedVideoRegex(nil))
		} else {
			r = append(r, readability.AllowedVideoRegex(regexp.MustCompile(*o.Video)))
		}
	}
	if o.MinLen != nil {
		r = append(r, readability.MinContentLength(*o.MinLen))
	}
	if o.MinScore != nil {
		r = append(r, readability.MinScore(*o.MinScore))
	}
	if o.Html2Text {
		r = append(r, readability.Html2Text(func(s string) string { return "T:" + s }))
	}
	if o.Serial {
		r = append(r, readability.Serializer(func(n *readability.Node) string { return n.GetTextContent() }))
	}
	return r
}

func (o *OptSet) String() string {
	s := ""
	add := func(k string, v any) { s += fmt.Sprintf("%s=%v ", k, v) }
	if o.Max != nil {
		add("max", *o.Max)
	}
	if o.Top != nil {
		add("top", *o.Top)
	}
	if o.Thr != nil {
		add("thr", *o.Thr)
	}
	if o.Classes != nil {
		add("classes", o.Classes)
	}
	if o.Keep != nil {
		add("keep", *o.Keep)
	}
	if o.NoLD != nil {
		add("nold", *o.NoLD)
	}
	if o.Video != nil {
		add("video", *o.Video)
	}
	if o.MinLen != nil {
		add("minlen", *o.MinLen)
	}
	if o.MinScore != nil {
		add("minscore", *o.MinScore)
	}
	if o.Html2Text {
		add("html2text", true)
	}
	if o.Serial {
		add("serializer", true)
	}
	return s
}

func randOpts(c *Case) *OptSet {
	o := &OptSet{}
	if c.P(0.2) {
		o.Max = ptr(pick(c, -1, 0, 1, 50, 100000))
	}
	if c.P(0.3) {
		o.Top = ptr(pick(c, -1, 0, 1, 2, 5, 50))
	}
	if c.P(0.6) {
		o.Thr = ptr(pick(c, -5, 0, 1, 50, 500, 2000, 1<<30))
	}
	if c.P(0.3) {
		o.Classes = pick(c, []string{}, []string{""}, []string{"caption", "lazy"}, []string{"page", " "})
	}
	if c.P(0.3) {
		o.Keep = ptr(c.P(0.6))
	}
	if c.P(0.2) {
		o.NoLD = ptr(c.P(0.7))
	}
	if c.P(0.3) {
		o.Video = ptr(pick(c, "", ".", "youtube", "^$", "x"))
	}
	if c.P(0.3) {
		o.MinLen = ptr(pick(c, -10, 0, 1, 140, 100000))
	}
	if c.P(0.3) {
		o.MinScore = ptr(pick(c, -1.0, 0, 0.5, 20, 1e18))
	}
	o.Html2Text = c.P(0.1)
	o.Serial = c.P(0.1)
	return o
}
