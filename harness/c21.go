package main

import (
	"fmt"
	"strings"

	readability "github.com/giulianopz/go-readability"
)

func init() {
	register(&Prop{ID: "C21", Quick: 30000, Thorough: 450000, Run: runC21,
		Rule: "an article with 1-3 tables: shapes around 10 rows, 4 columns and 10 cells with row and column spans, each data mark and counter-mark, nested tables, with junk-like content (links, pictures, negative class) that makes any other table go, and single-cell tables with inline, block, mixed or padded content; also with retries; oracle: the statement's definition of a data table over the built table, cell by cell comparison, and the expected shape of unwrapped cells; distinct by (marks, shape, kind)",
		Min: map[string]int{"data_tables": 3000, "layout_tables_dropped": 1500, "by_size": 500, "not_by_size": 500, "by_mark": 1500, "counter_marks": 500, "single_cells": 1500, "nested": 300, "spans": 500, "junk_inside_kept": 500, "with_retries": 200}})
}

// table21 is a table that would be dropped as junk unless it is a data table.
func (c *Case) table21() (t *El, data bool, sig string) {
	shape := pick(c, [2]int{9, 1}, [2]int{10, 1}, [2]int{11, 1}, [2]int{1, 4}, [2]int{1, 5}, [2]int{2, 5}, [2]int{2, 4}, [2]int{3, 4}, [2]int{3, 3}, [2]int{5, 2}, [2]int{6, 2}, [2]int{4, 3}, [2]int{2, 2}, [2]int{1, 2}, [2]int{10, 2}, [2]int{9, 2},
		[2]int{c.Int(1, 12), c.Int(1, 6)})
	rows, cols := shape[0], shape[1]
	if rows*cols == 1 {
		cols = 2
	}
	t = E("table")
	body := E("tbody")
	nrows, ncols := 0, 0
	cell := func() *El {
		td := E("td")
		switch c.R.IntN(6) {
		case 0, 1, 2, 3:
			td.Add(E("a", A("href", "/x"), c.W.Words(c.Int(1, 3))))
		case 4:
			td.Add(c.W.Words(1))
		default:
			td.Add(E("a", A("href", "/y"), E("img", A("src", c.pic()+".jpg"))), E("a", A("href", "/y"), c.W.Words(2)))
		}
		return td
	}
	for i := 0; i < rows; i++ {
		tr := E("tr")
		if c.P(0.04) {
			n := c.Int(1, 5)
			tr.Set("rowspan", fmt.Sprint(n))
			nrows += n
			c.Count("spans", 1)
		} else {
			nrows++
		}
		k := 0
		for j := 0; j < cols; j++ {
			td := cell()
			if c.P(0.05) {
				n := c.Int(1, 3)
				td.Set("colspan", fmt.Sprint(n))
				k += n
				c.Count("spans", 1)
			} else {
				k++
			}
			tr.Add(td)
		}
		if j := k; j > ncols {
			ncols = j
		}
		body.Add(tr)
	}
	if c.P(0.1) && rows > 1 { // rows of different lengths
		tr := body.Kids[c.R.IntN(len(body.Kids))]
		tr.Add(cell())
		k := 0
		for _, td := range tr.Kids {
			n := 1
			fmt.Sscan(td.Get("colspan"), &n)
			k += n
		}
		if k > ncols {
			ncols = k
		}
	}
	t.Add(body)
	// at least one long link, so that it is junk unless it is data
	body.Kids[0].Kids[0].Add(E("a", A("href", "/z"), c.W.Words(20)))
	size := nrows >= 10 || ncols > 4 || nrows*ncols > 10
	mark, counter := "", ""
	if c.P(0.45) {
		mark = pick(c, "summary", "caption", "emptycaption", "col", "colgroup", "tfoot", "thead", "th", "emptysummary")
		switch mark {
		case "summary":
			t.Set("summary", pick(c, "x", " ", "0"))
		case "emptysummary":
			t.Set("summary", "")
		case "caption":
			t.InsertKid(0, E("caption", pick(c, c.W.Words(2), c.W.Tok())))
		case "emptycaption":
			t.InsertKid(0, E("caption"))
		case "col":
			t.InsertKid(0, E("col"))
		case "colgroup":
			t.InsertKid(0, E("colgroup"))
		case "tfoot":
			t.Add(E("tfoot", E("tr", E("td", c.W.Words(1)))))
		case "thead":
			t.InsertKid(0, E("thead", E("tr", E("td", c.W.Words(1)))))
		case "th":
			body.Kids[c.R.IntN(len(body.Kids))].Kids[0].Tag = "th"
		}
	}
	marked := mark != "" && !strings.HasPrefix(mark, "empty")
	if c.P(0.2) {
		counter = pick(c, "presentation", "datatable", "nested", "otherrole", "datatable1")
		switch counter {
		case "presentation":
			t.Set("role", "presentation")
		case "otherrole":
			t.Set("role", pick(c, "grid", "table", "main"))
		case "datatable":
			t.Set("datatable", "0")
		case "datatable1":
			t.Set("datatable", pick(c, "1", "", "00"))
		case "nested":
			in := E("table", E("tbody", E("tr", E("td", E("a", A("href", "/n"), c.W.Words(3))), E("td", E("a", A("href", "/n"), c.W.Words(3))))))
			body.Kids[0].Kids[len(body.Kids[0].Kids)-1].Add(in)
			c.Count("nested", 1)
		}
		c.Count("counter_marks", 1)
	}
	switch {
	case counter == "presentation" || counter == "datatable":
		data = false
	case marked:
		data = true
		c.Count("by_mark", 1)
	case counter == "nested":
		data = false
	default:
		data = size
		if size {
			c.Count("by_size", 1)
		} else {
			c.Count("not_by_size", 1)
		}
	}
	return t, data, fmt.Sprintf("%dx%d %s %s", nrows, ncols, mark, counter)
}

// gist is the structure of a table: its rows and cells with their words.
func gist(t *El) string {
	var b strings.Builder
	t.Walk(func(e *El) bool {
		switch e.Tag {
		case "":
			b.WriteString(strings.Join(tokens(e.Text), " "))
		case "tr", "td", "th", "caption", "img", "a", "table", "ul", "li", "div", "form", "thead", "tfoot", "tbody":
			b.WriteString("<" + e.Tag + ">")
		}
		return true
	})
	return b.String()
}

func runC21(c *Case) {
	p := c.Article(14)
	p.Main.Tag = "div"
	type want struct {
		key, sig string
		kind     string
		el       *El
	}
	var wants []want
	sig := ""
	retry := c.P(0.15)
	for i := c.some(1, 2, 3); i > 0; i-- {
		key := fmt.Sprint(i)
		if c.P(0.3) {
			// a single cell
			var kids []*El
			inline := true
			switch c.R.IntN(6) {
			case 0:
				kids = []*El{{Text: c.W.Prose(80, 2)}}
			case 1:
				kids = []*El{{Text: c.W.Prose(60, 2)}, E("b", c.W.Words(2)), E("a", A("href", "/q"), c.W.Tok())}
			case 2:
				kids, inline = []*El{E("p", c.W.Prose(90, 2)), E("p", c.W.Prose(90, 2))}, false
			case 3:
				kids, inline = []*El{{Text: c.W.Prose(60, 2)}, E("p", c.W.Prose(60, 1))}, false
			case 4:
				kids, inline = []*El{E("ul", E("li", c.W.Prose(40, 1)), E("li", c.W.Prose(40, 1)))}, false
			default:
				kids = []*El{E("img", A("src", c.pic()+".jpg")), {Text: " " + c.W.Prose(50, 1)}}
			}
			td := E("td", A("data-k", key), kids)
			if c.P(0.2) {
				td.Set("colspan", "2")
			}
			tr := E("tr", td)
			t := E("table", tr)
			if c.P(0.6) {
				t = E("table", E("tbody", tr))
			}
			if c.P(0.3) {
				ws := func(e *El) {
					e.Kids = append([]*El{{Text: "\n "}}, append(e.Kids, &El{Text: " \n"})...)
				}
				ws(t)
				ws(tr)
			}
			k := "unwrap p"
			if !inline {
				k = "unwrap div"
			}
			if c.P(0.15) { // a header cell makes it a data table
				td.Tag = "th"
				t.Set("data-k", key)
				td.Set("data-k", "")
				wants = append(wants, want{key, "single th", "keep", t.Clone()})
				c.Slip(p.Main, t)
				c.Count("single_headers", 1)
				sig += "th; "
				continue
			}
			wants = append(wants, want{key, "single", k, td.Clone()})
			c.Slip(p.Main, t)
			c.Count("single_cells", 1)
			sig += k + fmt.Sprint(len(kids)) + "; "
			continue
		}
		t, data, s := c.table21()
		t.Set("data-k", key)
		if c.P(0.25) {
			t.Set(pick(c, "class", "id"), pick(c, negativeWords...))
		}
		if data && c.P(0.3) {
			// junk inside of a data table stays
			in := pick(c, E("ul", A("class", "widget"), E("li", c.W.Words(2))), E("div", A("class", "promo"), E("p", c.W.Tok()), E("p", c.W.Tok())), E("form", E("p", c.W.Words(2))))
			for _, td := range t.All("td") {
				td.Add(in)
				break
			}
			c.Count("junk_inside_kept", 1)
		}
		kind := "keep"
		if !data {
			kind = "drop"
			if retry {
				kind = "any"
			}
		}
		wants = append(wants, want{key, s, kind, t.Clone()})
		c.Slip(p.Main, t)
		if data {
			c.Count("data_tables", 1)
		} else {
			c.Count("layout_tables_dropped", 1)
		}
		sig += s + "; "
	}
	var opts []readability.Option
	if retry {
		opts = append(opts, readability.CharThreshold(1<<30))
		c.Count("with_retries", 1)
	}
	src := p.Src()
	if c.P(0.2) {
		src = p.HTML.Fuzzy(c)
	}
	c.Input("tables", sig)
	o := c.Extract(src, pageURI, opts...)
	if o == nil || !c.checkMain(o, p) {
		return
	}
	for _, w := range wants {
		e := o.Tree.ByAttr("data-k", w.key)
		switch w.kind {
		case "keep":
			if e == nil || e.Tag != "table" {
				c.Fail("lost", "data table %s (%s) is not in the article: %s", w.key, w.sig, show(w.el))
				return
			}
			if a, b := gist(e), gist(w.el); a != b {
				c.Fail("changed", "data table %s (%s) lost something:\n%s\nwas\n%s", w.key, w.sig, a, b)
				return
			}
		case "drop":
			if e != nil {
				c.Fail("kept", "table %s (%s) is not a data table, it has to be dropped: %s", w.key, w.sig, show(w.el))
				return
			}
		case "any":
		default:
			tag := strings.TrimPrefix(w.kind, "unwrap ")
			if e == nil || squeeze(e.Inner()) != squeeze(w.el.Inner()) {
				c.Fail("cell-lost", "the content of the single cell %s is not in the article: %s", w.key, show(w.el))
				return
			}
			if e.Tag != tag || e.Up.Tag == "tr" {
				c.Fail("not-unwrapped", "the single cell %s is a %s in a %s, want %s: %s", w.key, e.Tag, e.Up.Tag, tag, show(e.Up))
				return
			}
			for _, u := 0, e.Up; u != nil; u = u.Up {
				if u.Tag == "table" {
					c.Fail("not-unwrapped", "the single cell %s is still in a table: %s", w.key, show(u))
					return
				}
			}
			if a, b := len(e.All("*")), len(w.el.All("*")); a != b {
				c.Fail("cell-changed", "the single cell %s has %d elements, had %d: %s", w.key, a, b, show(e))
				return
			}
		}
	}
	c.Distinct(sig, retry)
	c.Sample("%s", sig)
}
