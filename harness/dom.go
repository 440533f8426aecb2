package main

import (
	"fmt"
	"strings"

	"golang.org/x/net/html"
	"golang.org/x/net/html/atom"
)

// El is an element, or a text node when Tag is "", of a page the workload builds or a result it reads.
type El struct {
	Tag   string
	Attrs []Attr
	Kids  []*El
	Text  string
	Raw   string // markup to write instead of the escaped text
	Up    *El
}

type Attr struct{ K, V string }

// E builds an element from attributes, children and strings.
func E(tag string, args ...any) *El {
	e := &El{Tag: tag}
	e.Add(args...)
	return e
}

func (e *El) Add(args ...any) *El {
	for _, a := range args {
		switch x := a.(type) {
		case nil:
		case string:
			e.Kids = append(e.Kids, &El{Text: x, Up: e})
		case *El:
			if x != nil {
				x.Up = e
				e.Kids = append(e.Kids, x)
			}
		case []*El:
			for _, k := range x {
				k.Up = e
			}
			e.Kids = append(e.Kids, x...)
		case Attr:
			e.Attrs = append(e.Attrs, x)
		case []Attr:
			e.Attrs = append(e.Attrs, x...)
		default:
			panic(fmt.Sprintf("E: %T", a))
		}
	}
	return e
}

// A builds attributes from name/value pairs.
func A(kv ...string) []Attr {
	var r []Attr
	for i := 0; i+1 < len(kv); i += 2 {
		r = append(r, Attr{kv[i], kv[i+1]})
	}
	return r
}

// Raw is a text node written as the given markup.
func Raw(markup, text string) *El { return &El{Raw: markup, Text: text} }

func (e *El) Get(k string) string {
	for _, a := range e.Attrs {
		if a.K == k {
			return a.V
		}
	}
	return ""
}

func (e *El) Has(k string) bool {
	for _, a := range e.Attrs {
		if a.K == k {
			return true
		}
	}
	return false
}

func (e *El) Set(k, v string) *El {
	for i, a := range e.Attrs {
		if a.K == k {
			e.Attrs[i].V = v
			return e
		}
	}
	e.Attrs = append(e.Attrs, Attr{k, v})
	return e
}

// Inner is the text of the subtree.
func (e *El) Inner() string {
	if e.Tag == "" {
		return e.Text
	}
	var b strings.Builder
	e.Walk(func(n *El) bool {
		if n.Tag == "" {
			b.WriteString(n.Text)
		}
		return true
	})
	return b.String()
}

// Walk visits the subtree in document order, descending where f returns true.
func (e *El) Walk(f func(*El) bool) {
	if !f(e) {
		return
	}
	for _, k := range e.Kids {
		k.Walk(f)
	}
}

func (e *El) All(tags ...string) []*El {
	var r []*El
	e.Walk(func(n *El) bool {
		if n != e && n.Tag != "" {
			for _, t := range tags {
				if t == "*" || n.Tag == t {
					r = append(r, n)
				}
			}
		}
		return true
	})
	return r
}

func (e *El) Find(f func(*El) bool) *El {
	var r *El
	e.Walk(func(n *El) bool {
		if r == nil && n.Tag != "" && f(n) {
			r = n
		}
		return r == nil
	})
	return r
}

// ByAttr finds the first element with attribute k = v.
func (e *El) ByAttr(k, v string) *El {
	return e.Find(func(n *El) bool { return n.Has(k) && n.Get(k) == v })
}

// Elems returns the element children.
func (e *El) Elems() []*El {
	var r []*El
	for _, k := range e.Kids {
		if k.Tag != "" {
			r = append(r, k)
		}
	}
	return r
}

func (e *El) Clone() *El {
	n := &El{Tag: e.Tag, Text: e.Text, Raw: e.Raw, Attrs: append([]Attr(nil), e.Attrs...)}
	for _, k := range e.Kids {
		k2 := k.Clone()
		k2.Up = n
		n.Kids = append(n.Kids, k2)
	}
	return n
}

var voidTags = map[string]bool{"area": true, "base": true, "br": true, "col": true, "embed": true, "hr": true, "img": true,
	"input": true, "link": true, "meta": true, "param": true, "source": true, "wbr": true}

var escText = strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;")
var escAttr = strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;", `"`, "&quot;")

// HTML writes the element in the well-formed syntax the library asks for.
func (e *El) HTML() string {
	var b strings.Builder
	e.write(&b, nil)
	return b.String()
}

// Fuzzy writes it in a random one of the equivalent spellings (quotes, case, references, spaces).
func (e *El) Fuzzy(c *Case) string {
	var b strings.Builder
	e.write(&b, c)
	return b.String()
}

func (e *El) write(b *strings.Builder, c *Case) {
	if e.Tag == "" {
		switch {
		case e.Raw != "":
			b.WriteString(e.Raw)
		case c != nil:
			b.WriteString(fuzzyRefs(c, e.Text, false, 0))
		default:
			b.WriteString(escText.Replace(e.Text))
		}
		return
	}
	tag := e.Tag
	if c != nil && c.P(0.1) {
		tag = strings.ToUpper(tag)
	}
	b.WriteString("<" + tag)
	for _, a := range e.Attrs {
		k := a.K
		if c != nil && c.P(0.1) {
			k = strings.ToUpper(k)
		}
		b.WriteString(" " + k)
		switch {
		case c != nil && c.P(0.2):
			b.WriteString(pick(c, "=", " = ", "= ") + `'` + fuzzyRefs(c, a.V, true, '\'') + `'`)
		case c != nil:
			b.WriteString(`="` + fuzzyRefs(c, a.V, true, '"') + `"`)
		default:
			b.WriteString(`="` + escAttr.Replace(a.V) + `"`)
		}
	}
	if voidTags[e.Tag] && len(e.Kids) == 0 {
		b.WriteString("/>")
		return
	}
	if c != nil && c.P(0.05) {
		b.WriteString(" ")
	}
	b.WriteString(">")
	for _, k := range e.Kids {
		k.write(b, c)
	}
	b.WriteString("</" + tag + ">")
}

// fuzzyRefs escapes s, sometimes writing characters as references the library documents to understand.
func fuzzyRefs(c *Case, s string, attr bool, quote rune) string {
	var b strings.Builder
	rs := []rune(s)
	for i, r := range rs {
		must := r == '&' || r == '<' || r == '>' || (attr && r == quote)
		if must && r != quote && c.P(0.3) { // where it cannot be mistaken for markup, it may stand as it is
			next := 'x'
			if i+1 < len(rs) {
				next = rs[i+1]
			}
			if r == '>' || next == ' ' || next == '\n' {
				b.WriteRune(r)
				continue
			}
		}
		if !must && (r > 0xffff || r < 0x20 || c.R.IntN(60) != 0) {
			b.WriteRune(r)
			continue
		}
		switch c.R.IntN(4) {
		case 0:
			if r <= 99999 {
				fmt.Fprintf(&b, "&#%d;", r)
				continue
			}
			fallthrough
		case 1:
			if r <= 0xffff {
				fmt.Fprintf(&b, pick(c, "&#x%x;", "&#x%X;", "&#X%x;"), r)
				continue
			}
			fallthrough
		default:
			switch r {
			case '&':
				b.WriteString("&amp;")
			case '<':
				b.WriteString("&lt;")
			case '>':
				b.WriteString("&gt;")
			case '"':
				b.WriteString("&quot;")
			case '\'':
				b.WriteString("&apos;")
			default:
				b.WriteRune(r)
			}
		}
	}
	return b.String()
}

// readStrict reads well-formed markup with the standard tokenizer into a tree. It reports markup that is
// not well formed.
func readStrict(src string) (*El, error) {
	root := &El{Tag: "#root"}
	cur := root
	z := html.NewTokenizer(strings.NewReader(src))
	for {
		switch z.Next() {
		case html.ErrorToken:
			if cur != root {
				return root, fmt.Errorf("element %s is not closed", cur.Tag)
			}
			return root, nil
		case html.TextToken:
			t := z.Token()
			if n := len(cur.Kids); n > 0 && cur.Kids[n-1].Tag == "" {
				cur.Kids[n-1].Text += t.Data
			} else {
				cur.Kids = append(cur.Kids, &El{Text: t.Data, Up: cur})
			}
		case html.StartTagToken:
			z.NextIsNotRawText()
			t := z.Token()
			e := &El{Tag: t.Data, Up: cur}
			for _, a := range t.Attr {
				e.Attrs = append(e.Attrs, Attr{a.Key, a.Val})
			}
			cur.Kids = append(cur.Kids, e)
			cur = e
		case html.SelfClosingTagToken:
			z.NextIsNotRawText()
			t := z.Token()
			e := &El{Tag: t.Data, Up: cur}
			for _, a := range t.Attr {
				e.Attrs = append(e.Attrs, Attr{a.Key, a.Val})
			}
			cur.Kids = append(cur.Kids, e)
		case html.EndTagToken:
			t := z.Token()
			if cur == root || cur.Tag != t.Data {
				return root, fmt.Errorf("closing tag %s within %s", t.Data, cur.Tag)
			}
			cur = cur.Up
		}
	}
}

// readStandard reads a fragment with the standard HTML5 parser.
func readStandard(src string) (*El, error) {
	nodes, err := html.ParseFragment(strings.NewReader(src), &html.Node{Type: html.ElementNode, Data: "body", DataAtom: atom.Body})
	if err != nil {
		return nil, err
	}
	root := &El{Tag: "#root"}
	for _, n := range nodes {
		fromStd(n, root)
	}
	return root, nil
}

func fromStd(n *html.Node, up *El) {
	switch n.Type {
	case html.TextNode:
		up.Kids = append(up.Kids, &El{Text: n.Data, Up: up})
	case html.ElementNode:
		e := &El{Tag: n.Data, Up: up}
		for _, a := range n.Attr {
			e.Attrs = append(e.Attrs, Attr{a.Key, a.Val})
		}
		up.Kids = append(up.Kids, e)
		for k := n.FirstChild; k != nil; k = k.NextSibling {
			fromStd(k, e)
		}
	}
}
