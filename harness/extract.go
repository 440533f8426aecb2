package main

import (
	"fmt"
	"strings"

	readability "github.com/giulianopz/go-readability"
)

const pageURI = "http://fakehost.example/test/page.html"

// Out is an observed extraction.
type Out struct {
	Res  *readability.Result
	Root *readability.Node // the article handed to the serializer
	Tree *El               // HTMLContent as read by the standard tokenizer
}

// Try runs an extraction and returns its outcome.
func Try(src, uri string, opts ...readability.Option) (*readability.Result, error) {
	r, err := readability.New(src, uri, opts...)
	if err != nil {
		return nil, err
	}
	return r.Parse()
}

// Extract runs an extraction that has to succeed and reads its result back.
func (c *Case) Extract(src, uri string, opts ...readability.Option) *Out {
	c.Input("page", src)
	c.Input("uri", uri)
	o := &Out{}
	all := append([]readability.Option{readability.Serializer(func(n *readability.Node) string {
		o.Root = n
		return n.GetInnerHTML()
	})}, opts...)
	res, err := Try(src, uri, all...)
	if err != nil || res == nil {
		c.Fail("unexpected-error", "extraction of a page with an article failed: %v", err)
		return nil
	}
	o.Res = res
	c.Input("html", res.HTMLContent)
	t, err := readStrict(res.HTMLContent)
	if err != nil {
		c.Fail("malformed", "HTMLContent is not well formed: %v", err)
		return nil
	}
	o.Tree = t
	c.Count("extractions", 1)
	return o
}

// Has tells whether the extracted text contains the token.
func (o *Out) Has(tok string) bool { return strings.Contains(o.Res.TextContent, tok) }

// Page is a page under construction.
type Page struct {
	HTML, Head, Body, Main *El
	Title                  string
	Paras                  []*El
}

// Src writes the page.
func (p *Page) Src() string { return "<!DOCTYPE html>" + p.HTML.HTML() }

// Para is a paragraph that looks like prose.
func (c *Case) Para() *El { return E("p", c.W.Prose(c.Int(180, 420), c.Int(2, 6))) }

// NewPage is a page without content.
func (c *Case) NewPage() *Page {
	p := &Page{}
	p.Title = c.W.Words(c.Int(6, 9))
	p.Head = E("head", E("title", p.Title))
	p.Body = E("body")
	p.HTML = E("html", p.Head, p.Body)
	return p
}

// Article is a page whose body holds one clearly dominant block, Main, of n paragraphs of prose.
func (c *Case) Article(n int) *Page {
	p := c.NewPage()
	for i := 0; i < n; i++ {
		p.Paras = append(p.Paras, c.Para())
	}
	p.Main = E(pick(c, "div", "div", "article", "section"))
	switch c.R.IntN(4) {
	case 0:
		p.Main.Set("class", pick(c, "article", "content", "entry", "post", "story", "text", "hentry", "main"))
	case 1:
		p.Main.Set("id", pick(c, "article", "content", "entry", "post", "story", "text", "main"))
	}
	p.Main.Add(p.Paras)
	p.Body.Add(p.Main)
	return p
}

// InsertKid puts k among the children of e at position i.
func (e *El) InsertKid(i int, k *El) {
	k.Up = e
	e.Kids = append(e.Kids, nil)
	copy(e.Kids[i+1:], e.Kids[i:])
	e.Kids[i] = k
}

// Slip puts k at a random place between the children of e, not before the first nor after the last.
func (c *Case) Slip(e *El, k *El) { e.InsertKid(c.Int(1, len(e.Kids)-1), k) }

// checkMain verifies that all paragraphs of the main block are in the result, so that the article was found
// as the workload intends.
func (c *Case) checkMain(o *Out, p *Page) bool {
	for i, q := range p.Paras {
		for _, k := range q.Kids {
			if k.Tag == "" && !isWS(k.Text) && !strings.Contains(o.Res.TextContent, k.Text) {
				c.Fail("article-lost", "paragraph %d of the main block is not in the result: %q", i, clip(k.Text, 80))
				return false
			}
		}
	}
	return true
}

func show(e *El) string { return clip(e.HTML(), 600) }

var _ = fmt.Sprint
