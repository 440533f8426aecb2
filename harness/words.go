package main

import (
	"math/rand/v2"
	"regexp"
	"sort"
	"strings"
	"unicode/utf8"
)

// Words makes text out of tokens that are unique within a case: an upper case letter followed by lower case
// ones. A token seen in a result therefore names the one place of the page it came from, even when texts
// were glued together.
type Words struct {
	r    *rand.Rand
	n    int
	base int
	Mode int // 0 latin, 1 cyrillic, 2 greek
}

var tokenRe = regexp.MustCompile(`\p{Lu}\p{Ll}+`)

var alphabets = [][2][]rune{
	{[]rune("bdfgklmnprstvz"), []rune("aeiou")},
	{[]rune("бвгджзклмнпрст"), []rune("аеиоу")},
	{[]rune("βγδζθκλμνπρστφ"), []rune("αειου")},
}
var uppers = [][]rune{[]rune("BDFGKLMNPRSTVZ"), []rune("БВГДЖЗКЛМНПРСТ"), []rune("ΒΓΔΖΘΚΛΜΝΠΡΣΤΦ")}

func newWords(r *rand.Rand) *Words {
	return &Words{r: r, base: r.IntN(70 * 70 * 70)}
}

// Tok returns a token not returned before in this case.
func (w *Words) Tok() string {
	al := alphabets[w.Mode]
	k := (w.base + w.n*7919) % (70 * 70 * 70) // 7919 is prime to 70^3: all prefixes are distinct
	w.n++
	var b []rune
	for i := 0; i < 3; i++ {
		d := k % 70
		k /= 70
		cons := al[0][d/5]
		if i == 0 {
			cons = uppers[w.Mode][d/5]
		}
		b = append(b, cons, al[1][d%5])
	}
	for i := w.r.IntN(3); i > 0; i-- {
		b = append(b, al[0][w.r.IntN(14)], al[1][w.r.IntN(5)])
	}
	return string(b)
}

// Words returns n tokens separated by single spaces.
func (w *Words) Words(n int) string {
	t := make([]string, n)
	for i := range t {
		t[i] = w.Tok()
	}
	return strings.Join(t, " ")
}

// Exactly returns a text of exactly n runes without commas and full stops.
func (w *Words) Exactly(n int) string {
	var b strings.Builder
	l := 0
	for {
		t := w.Tok()
		k := utf8.RuneCountInString(t)
		if l > 0 {
			k++
		}
		if l+k > n || (n-l-k > 0 && n-l-k < 14) {
			// the last word: fill up to n
			if l > 0 {
				b.WriteByte(' ')
				l++
			}
			rs := []rune(t)
			for len(rs) < n-l {
				rs = append(rs, alphabets[w.Mode][1][w.r.IntN(5)])
			}
			b.WriteString(string(rs[:n-l]))
			return b.String()
		}
		if l > 0 {
			b.WriteByte(' ')
		}
		b.WriteString(t)
		l += k
		if l == n {
			return b.String()
		}
	}
}

// Prose returns sentences of at least n runes in total with at least the given number of commas.
func (w *Words) Prose(n, commas int) string {
	var b strings.Builder
	l, cs, sent := 0, 0, 0
	for l < n || cs < commas {
		t := w.Tok()
		if l > 0 {
			b.WriteByte(' ')
			l++
		}
		b.WriteString(t)
		l += utf8.RuneCountInString(t)
		sent++
		switch {
		case cs < commas && w.r.IntN(3) == 0 || (l >= n && cs < commas):
			b.WriteByte(',')
			l++
			cs++
		case sent > 8 && w.r.IntN(3) == 0:
			b.WriteByte('.')
			l++
			sent = 0
		}
	}
	s := b.String()
	if !strings.HasSuffix(s, ".") {
		s = strings.TrimSuffix(s, ",")
		if strings.Count(s, ",") < commas {
			s += ", " + w.Tok()
		}
		s += "."
	}
	return s
}

func tokens(s string) []string { return tokenRe.FindAllString(s, -1) }

func runes(s string) int { return utf8.RuneCountInString(s) }

func sortStrings(s []string) { sort.Strings(s) }
