package main

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"math/rand/v2"
	"os"
	"os/exec"
	"regexp"
	"strings"
	"sync"

	readability "github.com/giulianopz/go-readability"
	"golang.org/x/net/html"
)

func init() {
	register(&Prop{ID: "C11", Quick: 90, Thorough: 400, Run: runC11, Race: true, MaxCPU: 400,
		Rule: "batches of extractions and readerability checks (articles with metadata, wild pages, tag soup, fixtures; option values shared between tasks) run alone first and then again by 4-12 goroutines in random orders under the race detector, mixed with unrelated work; fresh processes start with a burst of concurrent extractions; fixed probes are compared with their outcome at process start and in a fresh process; oracle: equal outcomes, no race report; non-trivial: task with at least two concurrent repetitions; distinct by (page, options)",
		Min:  map[string]int{"concurrent_outcomes": 3000, "sequential_repetitions": 500, "probe_repetitions": 200, "fresh_process_probes": 8, "with_article": 500, "overlapping_starts": 1000, "cold_start_outcomes": 2000}})
}

// metaPage is an article with every kind of metadata.
func (c *Case) metaPage() *Page {
	p := c.Article(c.Int(2, 6))
	for _, k := range shuffle(c, []string{"dc.title", "dcterm:title", "og:title", "twitter:title", "title", "dc:creator", "author", "og:description", "description", "twitter:description", "og:site_name", "article:published_time", "weibo:article:title"}) {
		if c.P(0.5) {
			p.Head.Add(E("meta", A(pick(c, "name", "property"), k, "content", c.W.Words(3))))
		}
	}
	if c.P(0.6) {
		p.Head.Add(Raw(`<script type="application/ld+json">{"@context":"https://schema.org","@graph":[{"@type":"WebSite","name":"`+c.W.Words(2)+`"},{"@type":"NewsArticle","name":"`+c.W.Words(4)+`","headline":"`+c.W.Words(5)+`","author":[{"name":"`+c.W.Words(2)+`"},{"name":"`+c.W.Words(2)+`"}],"publisher":{"name":"`+c.W.Tok()+`"},"datePublished":"2020-01-01"}]}</script>`, ""))
	}
	p.Main.Add(c.blocks(c.Int(0, 4)))
	if c.P(0.3) {
		p.Main.InsertKid(0, E("p", A("class", "byline"), c.W.Words(2)))
	}
	if c.P(0.3) {
		p.Main.Add(E("p", A("class", "caption keepme"), c.W.Prose(50, 1)))
	}
	return p
}

type task struct {
	src   string
	check bool // readerability
	opts  []readability.Option
	desc  string
}

func (t *task) run() string {
	if t.check {
		return fmt.Sprint("readerable ", readability.IsProbablyReaderable(t.src, t.opts...))
	}
	res, err := Try(t.src, pageURI, t.opts...)
	if err != nil {
		return "error " + err.Error()
	}
	return fmt.Sprintf("%+v", *res)
}

func (c *Case) c11page() (string, string) {
	switch x := c.R.IntN(20); {
	case x < 9:
		return c.metaPage().HTML.Fuzzy(c), "meta"
	case x < 15:
		return c.wildPage().HTML.Fuzzy(c), "wild"
	case x < 18:
		return soup(c, c.Int(10, 120)), "soup"
	default:
		_, srcs := fixtures()
		s := pick(c, srcs...)
		for i := 0; len(s) > 25_000 && i < 20; i++ {
			s = pick(c, srcs...)
		}
		if len(s) > 25_000 {
			s = s[:25_000]
		}
		return s, "fixture"
	}
}

var c11probes []*task
var c11base []string
var c11once sync.Once

// probes are the same in every process of a run; they use default options, so anything another extraction
// leaves behind would show in them.
func probes(seed uint64) []*task {
	c := &Case{R: rand.New(rand.NewPCG(seed, 4711)), inputs: map[string]string{}}
	c.W = newWords(c.R)
	var r []*task
	for i := 0; i < 8; i++ {
		p := c.metaPage()
		p.Main.Add(E("p", A("class", "caption keepme page lazy x"), c.W.Prose(50, 1), E("iframe", A("src", "//allowed.example/v"), " ")))
		if i%2 == 0 {
			r = append(r, &task{src: p.HTML.HTML(), desc: "probe"})
		} else {
			r = append(r, &task{src: p.HTML.HTML(), desc: "probe", check: i%4 == 1})
		}
	}
	r = append(r, &task{src: c.wildPage().HTML.HTML(), desc: "probe"}, &task{src: soup(c, 80), desc: "probe"})
	return r
}

// digest prints the outcomes of the probes in a fresh process, in reverse order.
func digest(seed uint64) {
	ps := probes(seed)
	out := make([]string, len(ps))
	for i := len(ps) - 1; i >= 0; i-- {
		out[i] = fmt.Sprintf("%x", sha256.Sum256([]byte(ps[i].run())))
	}
	fmt.Println(strings.Join(out, " "))
}

// coldTasks are pages and checks that between them use every feature; they are the same in every process.
func coldTasks(seed uint64) []*task {
	c := &Case{R: rand.New(rand.NewPCG(seed, 815)), inputs: map[string]string{}}
	c.W = newWords(c.R)
	var r []*task
	for i := 0; i < 4; i++ {
		p := c.metaPage()
		if c.P(0.5) {
			p = c.wildPage()
		}
		src := p.HTML.Fuzzy(c)
		if i == 3 {
			src, _ = c.c11page()
		}
		r = append(r, &task{src: src, desc: "cold"}, &task{src: src, check: true, desc: "cold"})
		if c.P(0.5) {
			r = append(r, &task{src: src, desc: "cold", opts: []readability.Option{readability.CharThreshold(1 << 30), readability.ClassesToPreserve("x")}})
		}
	}
	for i := c.Int(0, len(r)); i > 0; i-- { // which call comes first differs from process to process
		r = append(r[1:], r[0])
	}
	return r
}

// cold runs the tasks concurrently as the very first thing this process does with the library, so that
// whatever is set up on first use is set up under contention; it prints the outcomes.
func cold(seed uint64) {
	ts := coldTasks(seed)
	const copies = 3
	out := make([]string, len(ts)*copies)
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i := range out {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			out[i] = ts[i/copies].run()
		}()
	}
	close(start)
	wg.Wait()
	for i, o := range out {
		out[i] = fmt.Sprintf("%x", sha256.Sum256([]byte(o)))
	}
	fmt.Println(strings.Join(out, " "))
}

func (c *Case) coldStart() {
	self, err := os.Executable()
	if err != nil {
		return
	}
	seed := c.R.Uint64() >> 1
	cmd := exec.Command(self, "cold", fmt.Sprint(seed))
	var b, eb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &b, &eb
	err = cmd.Run() // race reports go to the log the supervisor reads
	ts := coldTasks(seed)
	got := strings.Fields(b.String())
	if err != nil || len(got)%len(ts) != 0 || len(got) == 0 {
		if strings.Contains(eb.String(), "go-readability") {
			c.Fail("cold-start", "a process whose first extractions are concurrent ended with %v: %s", err, clip(eb.String(), 3000))
		}
		return
	}
	for i, t := range ts {
		want := fmt.Sprintf("%x", sha256.Sum256([]byte(t.run())))
		for _, g := range got[i*len(got)/len(ts) : (i+1)*len(got)/len(ts)] {
			if g != want {
				c.Input("page", t.src)
				c.Fail("cold-start", "an extraction (check=%v) that ran concurrently with others at process start came out differently", t.check)
				return
			}
			c.Count("cold_start_outcomes", 1)
		}
	}
}

func runC11(c *Case) {
	c.coldStart()
	c11once.Do(func() {
		c11probes = probes(c.Seed)
		for _, p := range c11probes {
			c11base = append(c11base, p.run())
		}
		self, err := os.Executable()
		if err != nil {
			return
		}
		cmd := exec.Command(self, "digest", fmt.Sprint(c.Seed))
		var b bytes.Buffer
		cmd.Stdout = &b
		if err := cmd.Run(); err != nil {
			return
		}
		for i, h := range strings.Fields(b.String()) {
			if h != fmt.Sprintf("%x", sha256.Sum256([]byte(c11base[i]))) {
				c.Input("page", c11probes[i].src)
				c.Fail("other-process", "a fresh process extracts something else from probe %d; here: %s", i, clip(c11base[i], 400))
				return
			}
			c.Count("fresh_process_probes", 1)
		}
	})
	if c.failed {
		return
	}
	// option values shared by the tasks of the batch
	sharedClasses := make([]string, 2, 8)
	sharedClasses[0], sharedClasses[1] = "caption", "keepme"
	shared := []readability.Option{
		readability.ClassesToPreserve(sharedClasses...), readability.AllowedVideoRegex(regexp.MustCompile(`//allowed\.example/`)),
		readability.CharThreshold(1 << 30), readability.NTopCandidates(3), readability.KeepClasses(true), readability.DisableJSONLD(true),
		readability.MinContentLength(30), readability.MinScore(5), readability.MaxElemsToParse(60), readability.Html2Text(strings.ToUpper),
		readability.Serializer(func(n *readability.Node) string { return n.GetInnerHTML() + "." }),
		readability.VisibilityChecker(func(n *html.Node) bool { return len(n.Attr) == 0 }),
		readability.ClassesToPreserve("x"),
	}
	var tasks []*task
	for i := c.Int(4, 7); i > 0; i-- {
		src, kind := c.c11page()
		for k := c.Int(1, 3); k > 0; k-- { // the same page under different options
			t := &task{src: src, desc: kind}
			opts := make([]readability.Option, 0, 16) // spare capacity, shared with the library
			for j, o := range shared {
				if c.P(0.2) {
					opts = append(opts, o)
					t.desc += fmt.Sprintf(" o%d", j)
				}
			}
			t.opts = opts
			t.check = c.P(0.25)
			tasks = append(tasks, t)
		}
	}
	want := make([]string, len(tasks))
	for i, t := range tasks {
		want[i] = t.run()
		if !strings.HasPrefix(want[i], "error") {
			c.Count("with_article", 1)
		}
		c.Distinct(t.src, t.desc, t.check)
	}
	// again, in another order, with unrelated work in between
	for _, i := range c.R.Perm(len(tasks)) {
		if c.P(0.5) {
			s, _ := c.c11page()
			(&task{src: s, opts: []readability.Option{pick(c, shared...), pick(c, shared...)}}).run()
		}
		if got := tasks[i].run(); got != want[i] {
			c.Input("page", tasks[i].src)
			c.Fail("not-deterministic", "repetition of %q differs: %s", tasks[i].desc, firstDiff(want[i], got))
			return
		}
		c.Count("sequential_repetitions", 1)
	}
	g := c.Int(4, 12)
	var wg sync.WaitGroup
	start := make(chan struct{})
	perms := make([][]int, g)
	same := c.P(0.5)
	for w := range perms {
		perms[w] = c.R.Perm(len(tasks))
		if same && w > 0 { // all goroutines start with the same task
			perms[w] = perms[0]
		}
	}
	var mu sync.Mutex
	bad := ""
	var badTask *task
	running := map[int]int{}
	overlap := 0
	for w := 0; w < g; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					mu.Lock()
					bad = fmt.Sprint("panic: ", e)
					mu.Unlock()
				}
			}()
			<-start
			for _, i := range perms[w] {
				mu.Lock()
				if len(running) > 0 {
					overlap++
				}
				running[w] = i
				mu.Unlock()
				got := tasks[i].run()
				mu.Lock()
				delete(running, w)
				if got != want[i] && bad == "" {
					bad, badTask = firstDiff(want[i], got), tasks[i]
				}
				mu.Unlock()
			}
		}()
	}
	close(start)
	wg.Wait()
	c.Count("concurrent_outcomes", g*len(tasks))
	c.Count("overlapping_starts", overlap)
	if bad != "" {
		if badTask != nil {
			c.Input("page", badTask.src)
			bad = badTask.desc + ": " + bad
		}
		c.Fail("concurrent-differs", "%s", bad)
		return
	}
	for k := 0; k < 3; k++ {
		i := c.R.IntN(len(c11probes))
		if got := c11probes[i].run(); got != c11base[i] {
			c.Input("page", c11probes[i].src)
			c.Fail("history-dependent", "probe %d differs from its outcome at process start: %s", i, firstDiff(c11base[i], got))
			return
		}
		c.Count("probe_repetitions", 1)
	}
	c.Sample("%d tasks by %d goroutines, %d starts overlapping a running extraction", len(tasks), g, overlap)
}
