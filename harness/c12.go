package main

import (
	"fmt"
	"slices"
	"strings"

	readability "github.com/giulianopz/go-readability"
)

func init() {
	register(&Prop{ID: "C12", Quick: 30000, Thorough: 450000, Run: runC12,
		Rule: "sequences of 20-120 random edits (append, move, remove, replace with detached/sibling/other nodes, SetInnerHTML, SetTextContent, attribute edits, invalid removals) on the nodes of an extracted article; oracle: a model tree edited alongside; after every edit all child lists, element lists, parent, sibling and element sibling links, attributes, text and HTML of every known node are compared with it; non-trivial: all; distinct by sequence of (operation, relation of the nodes)",
		Min:  map[string]int{"edits": 60000, "nodes_compared": 1000000, "replace": 5000, "replace_sibling": 500, "remove_invalid": 1000, "set_html": 1000, "move": 3000}})
}

type mnode struct {
	n     *readability.Node
	tag   string
	text  string
	attrs []Attr
	kids  []*mnode
	up    *mnode
}

func (m *mnode) isAncestorOf(x *mnode) bool {
	for ; x != nil; x = x.up {
		if x == m {
			return true
		}
	}
	return false
}

func (m *mnode) el() *El {
	e := &El{Tag: m.tag, Text: m.text, Attrs: m.attrs}
	for _, k := range m.kids {
		if k.tag == "" {
			if k.text == "" {
				continue
			}
			if n := len(e.Kids); n > 0 && e.Kids[n-1].Tag == "" {
				e.Kids[n-1].Text += k.text
				continue
			}
		}
		ke := k.el()
		ke.Up = e
		e.Kids = append(e.Kids, ke)
	}
	return e
}

type edits struct {
	c   *Case
	all []*mnode
}

// learn pairs a node of the library with what it must contain.
func (x *edits) learn(n *readability.Node, e *El, up *mnode) (*mnode, string) {
	m := &mnode{n: n, tag: e.Tag, text: e.Text, attrs: slices.Clone(e.Attrs), up: up}
	if e.Tag != "" {
		m.text = ""
	}
	x.all = append(x.all, m)
	if len(n.ChildNodes) != len(e.Kids) {
		return m, fmt.Sprintf("<%s> has %d children, want %d", e.Tag, len(n.ChildNodes), len(e.Kids))
	}
	for i, k := range e.Kids {
		km, why := x.learn(n.ChildNodes[i], k, m)
		if why != "" {
			return m, why
		}
		m.kids = append(m.kids, km)
	}
	return m, ""
}

// check compares every known node with the model.
func (x *edits) check() string {
	for _, m := range x.all {
		n := m.n
		name := fmt.Sprintf("<%s %s>", m.tag, clip(m.text, 20))
		if (n.TagName == "") != (m.tag == "") || !strings.EqualFold(n.TagName, m.tag) {
			return name + " is now " + n.TagName
		}
		if m.up == nil {
			if n.ParentNode != nil || n.NextSibling != nil || n.PreviousSibling != nil || n.NextElementSibling != nil || n.PreviousElementSibling != nil {
				return name + " is in no tree but has links to one"
			}
		} else if n.ParentNode != m.up.n {
			return name + " has a wrong parent link"
		}
		if len(n.ChildNodes) != len(m.kids) {
			return fmt.Sprintf("%s has %d children, want %d", name, len(n.ChildNodes), len(m.kids))
		}
		var els []*readability.Node
		for i, k := range m.kids {
			if n.ChildNodes[i] != k.n {
				return fmt.Sprintf("child %d of %s is another node", i, name)
			}
			if k.tag != "" {
				els = append(els, k.n)
			}
		}
		if !slices.Equal(n.Children, els) {
			return fmt.Sprintf("the element list of %s has %d entries and is not the elements among its children (%d)", name, len(n.Children), len(els))
		}
		var prev, prevEl *readability.Node
		for i, k := range m.kids {
			var next, nextEl *readability.Node
			if i+1 < len(m.kids) {
				next = m.kids[i+1].n
			}
			for _, s := range m.kids[i+1:] {
				if s.tag != "" {
					nextEl = s.n
					break
				}
			}
			if k.n.PreviousSibling != prev || k.n.NextSibling != next {
				return fmt.Sprintf("sibling links of child %d of %s are wrong", i, name)
			}
			if pe, ne := k.n.PreviousElementSibling, k.n.NextElementSibling; k.tag != "" {
				if pe != prevEl || ne != nextEl {
					return fmt.Sprintf("element sibling links of child %d of %s are wrong", i, name)
				}
			} else if (pe != nil && pe != prevEl) || (ne != nil && ne != nextEl) {
				return fmt.Sprintf("element sibling links of text %d of %s are wrong", i, name)
			}
			prev = k.n
			if k.tag != "" {
				prevEl = k.n
			}
		}
		var first, last, firstEl *readability.Node
		if len(m.kids) > 0 {
			first, last = m.kids[0].n, m.kids[len(m.kids)-1].n
		}
		if len(els) > 0 {
			firstEl = els[0]
		}
		if n.FirstChild() != first || n.LastChild() != last || n.FirstElementChild() != firstEl {
			return "first/last child of " + name + " is wrong"
		}
		if m.tag != "" {
			if n.GetAttributeLen() != len(m.attrs) {
				return fmt.Sprintf("%s has %d attributes, want %v", name, n.GetAttributeLen(), m.attrs)
			}
			for _, a := range m.attrs {
				if !n.HasAttribute(a.K) || n.GetAttribute(a.K) != a.V {
					return fmt.Sprintf("%s: attribute %s is %q, want %q", name, a.K, n.GetAttribute(a.K), a.V)
				}
			}
			for _, k := range []string{"id", "class", "src", "srcset", "title"} {
				if has := slices.ContainsFunc(m.attrs, func(a Attr) bool { return a.K == k }); has != n.HasAttribute(k) {
					return fmt.Sprintf("%s: presence of attribute %s is %v, want %v", name, k, n.HasAttribute(k), has)
				}
			}
		} else if n.GetTextContent() != m.text {
			return fmt.Sprintf("text node reads %q, want %q", n.GetTextContent(), m.text)
		}
	}
	x.c.Count("nodes_compared", len(x.all))
	return ""
}

// checkReads compares text, HTML and lookups of one tree.
func (x *edits) checkReads(m *mnode) string {
	e := m.el()
	if t := m.n.GetTextContent(); t != e.Inner() {
		return fmt.Sprintf("text reads %s", firstDiff(t, e.Inner()))
	}
	got, err := readStrict(m.n.GetInnerHTML())
	if err != nil {
		return "inner HTML is not well formed: " + err.Error()
	}
	if m.tag == "" {
		if got.Inner() != m.text {
			return fmt.Sprintf("inner HTML of a text reads %q, want %q", got.Inner(), m.text)
		}
		return ""
	}
	want := &El{Tag: "#root", Kids: e.Kids}
	if a, b := got.HTML(), want.HTML(); a != b {
		return "inner HTML differs: " + firstDiff(a, b)
	}
	if m.tag != "" {
		id := pick(x.c, "i1", "i2", "i3", "i4")
		var w *mnode
		var find func(k *mnode)
		find = func(k *mnode) {
			if w != nil || k.tag == "" {
				return
			}
			for _, a := range k.attrs {
				if a.K == "id" && a.V == id {
					w = k
					return
				}
			}
			for _, y := range k.kids {
				find(y)
			}
		}
		find(m)
		g := m.n.GetElementById(id)
		if (w == nil) != (g == nil) || (w != nil && w.n != g) {
			return "GetElementById(" + id + ") found another node"
		}
	}
	return ""
}

func (c *Case) smallEl(d int) *El {
	e := E(pick(c, "div", "p", "span", "b", "ul", "li", "a", "section", "img", "br"))
	if c.P(0.4) {
		e.Set("id", pick(c, "i1", "i2", "i3"))
	}
	if c.P(0.3) {
		e.Set(pick(c, "class", "title", "src"), pick(c, "x", `a"b`, "a'b", "<", "&amp;", "", `"'`))
	}
	if voidTags[e.Tag] {
		return e
	}
	if d > 0 {
		last := ""
		for i := c.R.IntN(5); i > 0; i-- {
			if last != "text" && c.P(0.5) {
				e.Add(c.W.Tok() + pick(c, "", " ", " & ", "<", "&lt;", `"`))
				last = "text"
			} else {
				e.Add(c.smallEl(d - 1))
				last = "el"
			}
		}
	}
	return e
}

func runC12(c *Case) {
	var root *readability.Node
	p := c.Article(c.Int(1, 3))
	for i := c.R.IntN(4); i > 0; i-- {
		p.Paras[0].Add(c.smallEl(1))
	}
	if _, err := Try(p.Src(), pageURI, readability.Serializer(func(n *readability.Node) string { root = n; return "x" })); err != nil || root == nil {
		c.Fail("unexpected-error", "%v", err)
		return
	}
	x := &edits{c: c}
	// start from a tree the model knows
	start := E("div")
	for i := c.Int(1, 6); i > 0; i-- {
		if n := len(start.Kids); c.P(0.5) && (n == 0 || start.Kids[n-1].Tag != "") {
			start.Add(c.W.Tok())
		} else {
			start.Add(c.smallEl(3))
		}
	}
	c.Input("start", start.HTML())
	trace := ""
	inner := ""
	for _, k := range start.Kids {
		inner += k.HTML()
	}
	root.SetInnerHTML(inner)
	rm, why := x.learn(root, &El{Tag: "div", Kids: start.Kids}, nil)
	rm.attrs = nil
	for i := 0; i < root.GetAttributeLen(); i++ { // the article element has no attributes of its own
		why = "the article element has attributes"
	}
	if why != "" {
		c.Fail("parse", "SetInnerHTML: %s", why)
		return
	}
	if why := x.check(); why != "" {
		c.Fail("parse", "after SetInnerHTML: %s", why)
		return
	}
	elems := func(f func(m *mnode) bool) []*mnode {
		var r []*mnode
		for _, m := range x.all {
			if m.tag != "" && !voidTags[m.tag] && f(m) {
				r = append(r, m)
			}
		}
		return r
	}
	unlink := func(m *mnode) {
		if m.up != nil {
			m.up.kids = slices.DeleteFunc(m.up.kids, func(k *mnode) bool { return k == m })
			m.up = nil
		}
	}
	dropKids := func(m *mnode) {
		for _, k := range m.kids {
			k.up = nil
		}
		m.kids = nil
	}
	sig := ""
	for step, n := 0, c.Int(20, 120); step < n; step++ {
		if len(x.all) > 250 { // forget detached trees
			x.all = slices.DeleteFunc(x.all, func(m *mnode) bool { return !rm.isAncestorOf(m) })
		}
		op := c.R.IntN(12)
		parent := pick(c, elems(func(*mnode) bool { return true })...)
		desc := ""
		switch {
		case op < 3: // append: new position, same parent, other tree
			child := pick(c, x.all...)
			if child.isAncestorOf(parent) || child == rm {
				continue
			}
			desc = "append"
			if child.up == parent {
				desc = "append own child"
			}
			c.Count("move", 1)
			parent.n.AppendChild(child.n)
			unlink(child)
			parent.kids = append(parent.kids, child)
			child.up = parent
		case op < 5: // remove
			if len(parent.kids) == 0 || c.P(0.15) {
				other := pick(c, x.all...)
				if other.up == parent {
					continue
				}
				desc = "remove stranger"
				c.Count("remove_invalid", 1)
				if r, err := parent.n.RemoveChild(other.n); err == nil || r != nil {
					c.Fail("remove-stranger", "removing a node that is not a child reported no error; trace: %s", trace)
					return
				}
				break
			}
			child := pick(c, parent.kids...)
			desc = "remove"
			r, err := parent.n.RemoveChild(child.n)
			if err != nil || r != child.n {
				c.Fail("remove", "removing a child failed: %v; trace: %s", err, trace)
				return
			}
			unlink(child)
		case op < 8: // replace
			if len(parent.kids) == 0 {
				continue
			}
			old := pick(c, parent.kids...)
			nw := pick(c, x.all...)
			if c.P(0.3) {
				nw = pick(c, parent.kids...)
			}
			if nw.isAncestorOf(parent) || nw == rm {
				continue
			}
			desc = "replace"
			c.Count("replace", 1)
			switch {
			case nw == old:
				desc += " itself"
			case nw.up == parent:
				desc += " by sibling"
				c.Count("replace_sibling", 1)
			case old.isAncestorOf(nw):
				desc += " by descendant"
			case nw.up == nil:
				desc += " by detached"
			}
			desc += fmt.Sprintf(" %v>%v", old.tag != "", nw.tag != "")
			r := parent.n.ReplaceChild(nw.n, old.n)
			if r != old.n {
				c.Fail("replace", "ReplaceChild did not return the old node; trace: %s", trace)
				return
			}
			if nw != old {
				unlink(nw)
				i := slices.Index(parent.kids, old)
				parent.kids[i] = nw
				nw.up = parent
				old.up = nil
			}
		case op == 8: // inner HTML
			var e *El
			h := ""
			e = E(parent.tag)
			for i := c.R.IntN(4); i > 0; i-- {
				k := c.smallEl(2)
				e.Add(k)
				h += k.HTML()
				if c.P(0.4) {
					t := c.W.Tok() + pick(c, "", " & ", "<b>", "&amp;")
					e.Add(t)
					h += escText.Replace(t)
				}
			}
			desc = "set html"
			c.Count("set_html", 1)
			parent.n.SetInnerHTML(h)
			dropKids(parent)
			if len(parent.n.ChildNodes) != len(e.Kids) {
				c.Fail("set-html", "SetInnerHTML(%q) gives %d children, want %d; trace: %s", h, len(parent.n.ChildNodes), len(e.Kids), trace)
				return
			}
			for i, k := range e.Kids {
				km, why := x.learn(parent.n.ChildNodes[i], k, parent)
				if why != "" {
					c.Fail("set-html", "SetInnerHTML(%q): %s; trace: %s", h, why, trace)
					return
				}
				parent.kids = append(parent.kids, km)
			}
		case op == 9: // text
			t := pick(c, c.W.Tok(), "", "a <b> &amp; c", "&lt;", "é", " ", "<script>")
			if txt := slices.IndexFunc(x.all, func(m *mnode) bool { return m.tag == "" }); txt >= 0 && c.P(0.5) {
				var ts []*mnode
				for _, m := range x.all {
					if m.tag == "" {
						ts = append(ts, m)
					}
				}
				m := pick(c, ts...)
				desc = "set text of text"
				if c.P(0.3) {
					m.n.SetInnerHTML(escText.Replace(t))
				} else {
					m.n.SetTextContent(t)
				}
				m.text = t
			} else {
				desc = "set text"
				parent.n.SetTextContent(t)
				dropKids(parent)
				if len(parent.n.ChildNodes) > 1 || (t != "" && len(parent.n.ChildNodes) != 1) {
					c.Fail("set-text", "SetTextContent gives %d children; trace: %s", len(parent.n.ChildNodes), trace)
					return
				}
				if len(parent.n.ChildNodes) == 1 {
					m := &mnode{n: parent.n.ChildNodes[0], text: t, up: parent}
					x.all = append(x.all, m)
					parent.kids = []*mnode{m}
				}
			}
		default: // attributes
			k, v := pick(c, "id", "class", "title", "src", "srcset", "data-x", "style"), pick(c, "i1", "i2", "i3", "", `a"b'c`, "<&>", "é")
			switch c.R.IntN(4) {
			case 0:
				desc = "remove attribute"
				parent.n.RemoveAttribute(k)
				parent.attrs = slices.DeleteFunc(parent.attrs, func(a Attr) bool { return a.K == k })
			case 1:
				desc = "set id/class"
				if c.P(0.5) {
					k = "id"
					parent.n.SetId(v)
				} else {
					k = "class"
					parent.n.SetClassName(v)
				}
				e := &El{Attrs: parent.attrs}
				e.Set(k, v)
				parent.attrs = e.Attrs
			default:
				desc = "set attribute"
				parent.n.SetAttribute(k, v)
				e := &El{Attrs: parent.attrs}
				e.Set(k, v)
				parent.attrs = e.Attrs
			}
			get := func(k string) string { return (&El{Attrs: parent.attrs}).Get(k) }
			if parent.n.GetId() != get("id") || parent.n.GetClassName() != get("class") || parent.n.GetSrc() != get("src") || parent.n.GetSrcset() != get("srcset") {
				c.Fail("attributes", "id, class, src or srcset reads wrong after %s %s; trace: %s", desc, k, trace)
				return
			}
		}
		c.Count("edits", 1)
		trace = clip(desc+"; "+trace, 400)
		sig += desc + ";"
		if why := x.check(); why != "" {
			c.Fail("inconsistent", "%s; last edits first: %s", why, trace)
			return
		}
		if step%4 == 0 {
			for _, m := range []*mnode{rm, parent, pick(c, x.all...)} {
				if why := x.checkReads(m); why != "" {
					c.Fail("reading", "%s; last edits first: %s", why, trace)
					return
				}
			}
		}
	}
	c.Distinct(sig)
	c.Sample("%s", clip(sig, 300))
}
