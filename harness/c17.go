package main

import (
	"math"
	"sort"

	readability "github.com/giulianopz/go-readability"
)

func init() {
	register(&Prop{ID: "C17", Quick: 3000, Thorough: 60000, Run: runC17,
		Rule: "generated articles and wild pages (in all spellings) with a known number of elements N, tag soup and fixture pages with a boundary found by search; limits N-1, N, N+1, far off, zero and negative, combined with other options; oracle: failure exactly above the limit, else equality with the unlimited result; distinct by (N, limit relation, kind)",
		Min:  map[string]int{"at_limit": 1500, "one_over": 1500, "one_under": 1500, "no_limit": 1500, "searched": 150, "other_options": 800}})
}

func runC17(c *Case) {
	var src, kind string
	n := -1
	switch x := c.R.IntN(20); {
	case x < 2:
		src, kind = soup(c, c.Int(20, 150)), "soup"
	case x == 2:
		_, srcs := fixtures()
		if len(srcs) == 0 {
			return
		}
		src, kind = pick(c, srcs...), "fixture"
		if len(src) > 60000 {
			return
		}
	default:
		var p *Page
		if c.P(0.5) {
			p, kind = c.wildPage(), "wild"
		} else {
			p, kind = c.Article(c.Int(1, 8)), "article"
			p.Main.Add(c.blocks(c.R.IntN(4)))
			if c.P(0.5) {
				p.Body.Add(c.furniture())
			}
		}
		n = 1 + len(p.HTML.All("*"))
		src = p.Src()
		if c.P(0.3) {
			src = p.HTML.Fuzzy(c)
		}
		if c.P(0.2) {
			src = "<!-- <p>not an element</p> -->" + src + "<!-- end -->"
		}
	}
	var opts []readability.Option
	if c.P(0.4) {
		o := randOpts(c)
		o.Max = nil
		opts = o.Options()
		c.Input("options", o.String())
		c.Count("other_options", 1)
	}
	c.Input("page", src)
	type outcome struct {
		res *readability.Result
		err error
	}
	run := func(limit int, first bool) outcome {
		l := readability.MaxElemsToParse(limit)
		all := append(append([]readability.Option{}, opts...), l)
		if first {
			all = append([]readability.Option{l}, opts...)
		}
		r, err := Try(src, pageURI, all...)
		return outcome{r, err}
	}
	r0, err0 := Try(src, pageURI, opts...)
	base := outcome{r0, err0}
	same := func(o outcome) bool {
		if (o.err == nil) != (base.err == nil) {
			return false
		}
		return o.err != nil || *o.res == *base.res
	}
	if err0 != nil {
		// without a limit it fails as well: every limit has to
		o := run(pick(c, 1, 5, 1000, 0, -1), false)
		if o.err == nil {
			c.Fail("limit", "extraction fails without limit (%v) but not with it", err0)
		}
		return
	}
	if n < 0 {
		// search for the boundary: extraction fails below it, and is not affected from there on
		hi := len(src)
		n = sort.Search(hi, func(k int) bool { return k > 0 && run(k, false).err == nil })
		c.Count("searched", 1)
	}
	check := func(limit int, rel string) bool {
		o := run(limit, c.P(0.5))
		c.Count(rel, 1)
		if limit > 0 && n > limit {
			if o.err == nil || o.res != nil {
				c.Fail("limit", "%d elements, limit %d: no failure", n, limit)
				return false
			}
			return true
		}
		if o.err != nil {
			c.Fail("limit", "%d elements, limit %d: %v", n, limit, o.err)
			return false
		}
		if !same(o) {
			c.Fail("limit", "%d elements, limit %d: the result differs from the one without a limit\n%+v\n%+v", n, limit, o.res, base.res)
			return false
		}
		return true
	}
	rels := []struct {
		l int
		r string
	}{{n, "at_limit"}, {n + 1, "one_over"}, {n - 1, "one_under"}, {pick(c, 0, -1, -n, math.MinInt), "no_limit"}, {pick(c, math.MaxInt, n*2, c.Int(n, n+50)), "far_over"}, {c.Int(1, n), "under"}}
	for _, x := range rels {
		if !check(x.l, x.r) {
			return
		}
	}
	c.Distinct(kind, n)
	c.Sample("%s page with %d elements", kind, n)
}
