package main

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"context"
	"errors"
	"fmt"
	"net"
	"os"
	"os/exec"
	"strings"
	"sync"
	"time"
)

func init() {
	register(&Prop{ID: "C23", Quick: 1600, Thorough: 20000, Run: runC23,
		Rule: "the command, built from the tree, runs as a process against a scripted server on the loopback interface: pages (articles, fixtures, mutated fixtures, tag soup, empty and hopeless ones), flags in every spelling and order, transports (length, chunked in odd pieces with pauses, until close, gzip, redirects also to other servers, any status, servers that pause for up to half a minute, pages of up to 17 MB), and faults (refused, reset, cut off in the head, in the body or in a chunk, garbage, redirect loops, unusable URLs, no URL); oracle: the library run on the same bytes and URL in the monitor, byte for byte; distinct by (page kind, flags, transport, fault)",
		Min: map[string]int{"runs": 1200, "articles": 500, "html_output": 200, "text_output": 200, "verbose": 150, "no_article": 60, "fetch_faults": 200, "redirected": 60, "chunked": 80, "gzipped": 60, "odd_status": 60, "no_url": 15, "large_pages": 30, "slow_servers": 6, "verbose_failures": 40}})
}

// served is a scripted answer to requests on a loopback port.
type served struct {
	l     net.Listener
	mu    sync.Mutex
	seen  []string
	after func(conn net.Conn, target string)
}

func serve(f func(conn net.Conn, target string)) (*served, error) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return nil, err
	}
	s := &served{l: l, after: f}
	go func() {
		for {
			conn, err := l.Accept()
			if err != nil {
				return
			}
			go func() {
				defer conn.Close()
				conn.SetDeadline(time.Now().Add(100 * time.Second))
				r := bufio.NewReader(conn)
				first, err := r.ReadString('\n')
				if err != nil {
					return
				}
				for {
					line, err := r.ReadString('\n')
					if err != nil {
						return
					}
					if strings.TrimSpace(line) == "" {
						break
					}
				}
				target := ""
				if f := strings.Fields(first); len(f) > 1 {
					target = f[1]
				}
				s.mu.Lock()
				s.seen = append(s.seen, strings.TrimSpace(first))
				s.mu.Unlock()
				s.after(conn, target)
			}()
		}
	}()
	return s, nil
}

func (s *served) requests() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return len(s.seen)
}

func (c *Case) cmdPage() (string, string) {
	switch c.R.IntN(10) {
	case 0, 1:
		names, srcs := fixtures()
		if len(srcs) == 0 {
			break
		}
		i := c.R.IntN(len(srcs))
		if len(srcs[i]) > 400_000 {
			break
		}
		if c.P(0.4) {
			return mutate(c, srcs[i]), "mutated"
		}
		return srcs[i], "fixture:" + names[i]
	case 2:
		return soup(c, c.Int(5, 60)), "soup"
	case 3:
		return pick(c, "", " ", "plain text", "<html><head><title>T</title></head><body></body></html>", "<html><body><script>1</script></body></html>", "{}", "\x00\x01\x02", "<html>", "<body></body>", "<!-- only -->"), "hopeless"
	case 4:
		return c.wildPage().Src(), "wild"
	}
	c.W.Mode = pick(c, 0, 0, 1)
	p := c.Article(c.Int(4, 8))
	for i := 0; i < c.Int(1, 4); i++ {
		c.Slip(p.Main, E("p", c.W.Words(8), E("a", A("href", pick(c, "other.html", "/root", "?q=1", "#frag", "//host.example/x", "../up")), c.W.Words(3)), E("img", A("src", "pic.png"))))
	}
	if c.P(0.2) {
		p.Paras[0].Add("%d %s %! \\n\x1b[0m é 中 \u00a0")
	}
	if c.P(0.1) {
		p.Head.Add(E("base", A("href", "http://base.example/dir/")))
	}
	return p.Src(), "article"
}

func runC23(c *Case) {
	bin := os.Getenv("VERIF_CMD")
	if bin == "" {
		panic("VERIF_CMD is not set: run the check with run.sh")
	}
	body, kind := c.cmdPage()
	if c.P(0.04) { // large pages, with the article in front, in the middle or at the end
		n := pick(c, 70<<10, 600<<10, 1<<20+5000, 1<<20+5000, 2<<20+17, 5<<20, 11<<20, 17<<20)
		p := c.Article(c.Int(4, 8))
		pad := func(n int) *El {
			return Raw("<!--"+strings.Repeat("x y z ", n/6)+"-->", "")
		}
		if c.P(0.3) {
			pad = func(n int) *El {
				return E("div", A("style", "display:none"), strings.Repeat(c.W.Tok()+" ", n/8))
			}
		}
		k := n * c.R.IntN(3) / 2
		p.Body.InsertKid(0, pad(k))
		p.Body.Add(pad(n - k))
		body, kind = p.Src(), "large"
		c.Count("large_pages", 1)
	} else if c.P(0.06) { // bytes that are no text
		i := c.R.IntN(len(body) + 1)
		body = body[:i] + pick(c, "\xff", "\xc3", "\xe9t\xe9", "\xf0\x9f", "\x00", "\u2028", "\ufffd", "\r\n", "\r") + body[i:]
		kind += "+bytes"
	} else if c.P(0.04) {
		body, kind = "\ufeff"+body, kind+"+bom"
	}
	pause := 0
	switch c.Idx { // slow servers
	case 8, 9:
		pause = 7
	case 18, 19:
		pause = 12
	case 28, 29:
		pause = 32
	case 30, 31:
		if c.Tier == "thorough" {
			pause = 65
		}
	}
	c.Input("page", body)
	// flags
	var args []string
	html, verbose := false, false
	flags := ""
	for i := pick(c, 0, 1, 1, 2, 3); i > 0; i-- {
		switch c.R.IntN(3) {
		case 0:
			verbose = true
			args = append(args, pick(c, "-v", "--v", "-verbose", "--verbose", "-v=true"))
			flags += "v"
		default:
			f := pick(c, "html", "html", "html", "text", "text", pick(c, "HTML", "h", "htm", "html5", "xhtml", " html", "json", "0"))
			html = f == "html"
			n := pick(c, "-o", "--o", "-output", "--output")
			if c.P(0.5) {
				args = append(args, n, f)
			} else {
				args = append(args, n+"="+f)
			}
			flags += f[:1]
			if f != "html" && f != "text" {
				c.Count("other_formats", 1)
			}
		}
	}
	if c.P(0.1) {
		args = append(args, "--")
	}
	// transport
	fault, transport := "", "length"
	respond := func(conn net.Conn, target string) {
		fmt.Fprintf(conn, "HTTP/1.1 200 OK\r\nContent-Type: text/html\r\nContent-Length: %d\r\nConnection: close\r\n\r\n%s", len(body), body)
	}
	status := "200 OK"
	if c.P(0.12) {
		status = pick(c, "404 Not Found", "500 Oops", "403 Forbidden", "503 Busy", "201 Created", "299 Odd")
		c.Count("odd_status", 1)
	}
	ctype := pick(c, "text/html", "text/html; charset=utf-8", "text/html; charset=ISO-8859-1", "text/plain", "application/octet-stream", "")
	head := func(conn net.Conn, more string) {
		fmt.Fprintf(conn, "HTTP/1.1 %s\r\n", status)
		if ctype != "" {
			fmt.Fprintf(conn, "Content-Type: %s\r\n", ctype)
		}
		fmt.Fprintf(conn, "Connection: close\r\n%s\r\n", more)
	}
	if pause > 0 {
		h := head
		head = func(conn net.Conn, more string) {
			if c.Idx%2 == 0 {
				time.Sleep(time.Duration(pause) * time.Second)
			}
			h(conn, more)
			if c.Idx%2 == 1 {
				time.Sleep(time.Duration(pause) * time.Second)
			}
		}
		c.Count("slow_servers", 1)
	}
	if c.P(0.05) {
		h := head
		head = func(conn net.Conn, more string) {
			fmt.Fprint(conn, "HTTP/1.1 103 Early Hints\r\nLink: </x>\r\n\r\n")
			h(conn, more+"Set-Cookie: a=b\r\nX-Odd: 1\r\n")
		}
	}
	pieces := func(send func(s string), s string) {
		r := newCase(c.prop, newRecorder(), c.Seed, c.Tier, c.Idx+1_000_000_007).R // the server runs beside the case
		pauses := 0
		for len(s) > 0 {
			n := min(len(s), 1+r.IntN(1+len(body)/3))
			send(s[:n])
			s = s[n:]
			if pauses < 8 && r.IntN(3) == 0 {
				pauses++
				time.Sleep(time.Duration(r.IntN(5)) * time.Millisecond)
			}
		}
	}
	chunk := func(conn net.Conn, s string) { fmt.Fprintf(conn, "%x\r\n%s\r\n", len(s), s) }
	gz := func() string {
		var b bytes.Buffer
		w := gzip.NewWriter(&b)
		w.Write([]byte(body))
		w.Close()
		return b.String()
	}
	extraPath := ""
	how := c.R.IntN(8)
	if pause > 0 {
		how %= 6
	}
	switch how {
	case 0, 1:
		respond = func(conn net.Conn, _ string) {
			head(conn, fmt.Sprintf("Content-Length: %d\r\n", len(body)))
			pieces(func(s string) { conn.Write([]byte(s)) }, body)
		}
	case 2, 3:
		transport = "chunked"
		respond = func(conn net.Conn, _ string) {
			head(conn, "Transfer-Encoding: chunked\r\n")
			pieces(func(s string) { chunk(conn, s) }, body)
			fmt.Fprint(conn, "0\r\n\r\n")
		}
	case 4:
		transport = "close"
		respond = func(conn net.Conn, _ string) {
			head(conn, "")
			pieces(func(s string) { conn.Write([]byte(s)) }, body)
		}
	case 5:
		transport = "gzipped"
		respond = func(conn net.Conn, _ string) {
			z := gz()
			head(conn, fmt.Sprintf("Content-Encoding: gzip\r\nContent-Length: %d\r\n", len(z)))
			pieces(func(s string) { conn.Write([]byte(s)) }, z)
		}
	case 6:
		transport = "redirected"
		final := respond
		hops := pick(c, 1, 2, 3, 5, 9)
		other, err := serve(func(conn net.Conn, target string) { respond(conn, target) })
		if err != nil {
			panic(err)
		}
		defer other.l.Close()
		away := ""
		if c.P(0.5) { // on to another server
			away = "http://" + other.l.Addr().String()
		}
		code := pick(c, "301 Moved", "302 Found", "303 See", "307 Temp", "308 Perm")
		respond = func(conn net.Conn, target string) {
			if i := strings.Index(target, "hop"); i >= 0 {
				var k int
				fmt.Sscanf(target[i:], "hop%d", &k)
				if k > 0 {
					fmt.Fprintf(conn, "HTTP/1.1 %s\r\nLocation: %s/elsewhere/hop%d\r\nContent-Length: 20\r\nConnection: close\r\n\r\n<html>moved</html>\r\n", code, away, k-1)
					return
				}
			}
			final(conn, target)
		}
		extraPath = fmt.Sprintf("hop%d", hops)
	}
	urlOf := func(host string) string {
		return "http://" + host + "/" + pick(c, "", "a/b/page.html", "dir/", "päth/ü.html", "x.html?q=1&r=%20", "page.html#frag", "a%2Fb/c") + extraPath
	}
	if extraPath != "" {
		urlOf = func(host string) string { return "http://" + host + "/first/" + extraPath }
	}
	if c.P(0.25) && pause == 0 {
		fault = pick(c, "refused", "closed", "reset", "cut-head", "cut-length", "cut-length", "cut-chunk", "cut-chunks", "cut-gzip", "bad-gzip", "garbage", "loop", "bad-location", "tls", "scheme", "malformed", "malformed", "no-url")
		c.Count("fetch_faults", 1)
		transport = "-"
		cut := c.R.IntN(len(body) + 1)
		if len(body) == 0 {
			body, cut = "<html><body><p>some text here to be cut</p></body></html>", 10
		}
		if cut == len(body) {
			cut--
		}
		switch fault {
		case "closed":
			respond = func(conn net.Conn, _ string) {}
		case "reset":
			respond = func(conn net.Conn, _ string) {
				head(conn, fmt.Sprintf("Content-Length: %d\r\n", len(body)))
				conn.Write([]byte(body[:cut]))
				conn.(*net.TCPConn).SetLinger(0)
			}
		case "cut-head":
			respond = func(conn net.Conn, _ string) { fmt.Fprint(conn, "HTTP/1.1 200 OK\r\nContent-Ty") }
		case "cut-length":
			respond = func(conn net.Conn, _ string) {
				head(conn, fmt.Sprintf("Content-Length: %d\r\n", len(body)))
				conn.Write([]byte(body[:cut]))
			}
		case "cut-chunk":
			respond = func(conn net.Conn, _ string) {
				head(conn, "Transfer-Encoding: chunked\r\n")
				fmt.Fprintf(conn, "%x\r\n%s", len(body), body[:cut])
			}
		case "cut-chunks": // all chunks but the last, empty one
			respond = func(conn net.Conn, _ string) {
				head(conn, "Transfer-Encoding: chunked\r\n")
				chunk(conn, body)
			}
		case "cut-gzip":
			respond = func(conn net.Conn, _ string) {
				z := gz()
				head(conn, "Content-Encoding: gzip\r\n")
				conn.Write([]byte(z[:len(z)*cut/len(body)]))
			}
		case "bad-gzip":
			respond = func(conn net.Conn, _ string) {
				z := []byte(gz())
				z[len(z)-6] ^= 0x55 // the checksum
				head(conn, "Content-Encoding: gzip\r\n")
				conn.Write(z)
			}
		case "garbage":
			g := pick(c, "<html>no http</html>", "HTTP/1.1 abc\r\n\r\n", "HTTP/9\r\n\r\n", "HTTP/1.1 200 OK\r\nContent-Length: -5\r\n\r\n", "HTTP/1.1 200 OK\r\nContent-Length: 1\r\nContent-Length: 2\r\n\r\nab")
			respond = func(conn net.Conn, _ string) { fmt.Fprint(conn, g) }
		case "loop":
			respond = func(conn net.Conn, _ string) {
				fmt.Fprint(conn, "HTTP/1.1 302 Found\r\nLocation: /again\r\nContent-Length: 0\r\nConnection: close\r\n\r\n")
			}
		case "bad-location":
			respond = func(conn net.Conn, _ string) {
				fmt.Fprint(conn, "HTTP/1.1 302 Found\r\nLocation: http://[::bad\r\nContent-Length: 0\r\nConnection: close\r\n\r\n")
			}
		}
	}
	s, err := serve(respond)
	if err != nil {
		panic("cannot listen on the loopback interface: " + err.Error())
	}
	defer s.l.Close()
	host := s.l.Addr().String()
	u := urlOf(host)
	switch fault {
	case "refused":
		s.l.Close()
	case "tls":
		u = "https://" + host + "/"
	case "scheme":
		u = pick(c, "ftp", "file", "gopher", "data") + "://" + host + "/page.html"
	case "malformed":
		u = pick(c, "http://[::1", "://x", "http://a b/", "http://"+host+"/%zz", "http://", "page.html", "/etc/hostname", "http://127.0.0.1:notaport/")
	}
	if fault != "no-url" {
		args = append(args, u)
	} else {
		c.Count("no_url", 1)
		if c.P(0.3) {
			args = append(args, "")
		}
	}
	c.Input("args", strings.Join(args, "\n"))
	ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Env = []string{"HOME=/nonexistent", "PATH=/usr/bin:/bin"}
	cmd.Dir = os.TempDir()
	var stdout, stderr bytes.Buffer
	cmd.Stdout, cmd.Stderr = &stdout, &stderr
	err = cmd.Run()
	c.Count("runs", 1)
	c.Input("stdout", stdout.String())
	c.Input("stderr", clip(stderr.String(), 20000))
	what := fmt.Sprintf("%s page, flags %q, %s transport, status %s, fault %q, url %s", kind, flags, transport, status, fault, u)
	if ctx.Err() != nil {
		c.Fail("hang", "the command did not end (%s)", what)
		return
	}
	code := 0
	var ee *exec.ExitError
	if errors.As(err, &ee) {
		code = ee.ExitCode()
	} else if err != nil {
		panic(err)
	}
	if strings.Contains(stderr.String(), "panic:") || strings.Contains(stderr.String(), "fatal error:") {
		c.Fail("crash", "the command crashed: %s (%s)", clip(stderr.String(), 400), what)
		return
	}
	if !verbose && code == 0 && stderr.Len() != 0 {
		c.Fail("noise", "the command wrote on standard error without -v: %s (%s)", clip(stderr.String(), 400), what)
		return
	}
	if code != 0 && (fault == "" || fault == "no-url" || fault == "malformed" || fault == "scheme") && c.P(0.4) {
		// the same with logging: nothing changes but standard error
		again := exec.CommandContext(ctx, bin, append([]string{pick(c, "-v", "-verbose")}, args...)...)
		again.Env, again.Dir = cmd.Env, cmd.Dir
		var o2 bytes.Buffer
		again.Stdout = &o2
		_ = again.Run()
		if again.ProcessState != nil && again.ProcessState.ExitCode() != code || o2.String() != stdout.String() {
			c.Fail("verbose", "with -v the command exits with %d instead of %d and prints %q instead of %q (%s)", again.ProcessState.ExitCode(), code, clip(o2.String(), 200), clip(stdout.String(), 200), what)
			return
		}
		c.Count("verbose_failures", 1)
	}
	if fault != "" {
		if code == 0 {
			c.Fail("fault-unnoticed", "the page could not be fetched, but the command exits with 0 and prints %q (%s)", clip(stdout.String(), 200), what)
			return
		}
		if stdout.Len()+stderr.Len() == 0 {
			c.Fail("silent-failure", "the command failed without a message (%s)", what)
			return
		}
		c.Distinct("fault", fault, flags)
		return
	}
	if s.requests() == 0 {
		c.Fail("not-fetched", "the command did not fetch the page: exit %d, %q (%s)", code, clip(stdout.String(), 200), what)
		return
	}
	res, lerr := Try(body, u)
	if lerr != nil || res == nil {
		c.Count("no_article", 1)
		if code == 0 {
			c.Fail("failure-unnoticed", "the library fails (%v), but the command exits with 0 and prints %q (%s)", lerr, clip(stdout.String(), 200), what)
		} else if stdout.Len()+stderr.Len() == 0 {
			c.Fail("silent-failure", "the command failed without a message (%s)", what)
		}
		c.Distinct("none", kind, flags, transport)
		return
	}
	c.Count("articles", 1)
	want := res.TextContent
	if html {
		want = res.HTMLContent
		c.Count("html_output", 1)
	} else {
		c.Count("text_output", 1)
	}
	if verbose {
		c.Count("verbose", 1)
	}
	if transport != "length" && transport != "close" {
		c.Count(transport, 1)
	}
	if code != 0 {
		c.Fail("failed", "the library extracts an article, but the command exits with %d: %q (%s)", code, clip(stdout.String()+stderr.String(), 300), what)
		return
	}
	if got := stdout.String(); got != want {
		c.Fail("output", "the output differs from the extracted article (%d and %d bytes): %s (%s)", len(got), len(want), firstDiff(got, want), what)
		return
	}
	c.Distinct(kind, flags, transport, status)
	c.Sample("%s → %d bytes, exit 0", what, stdout.Len())
}
