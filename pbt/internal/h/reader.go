package h

import (
	"io"
	"strings"

	"pgregory.net/rapid"
)

// Odd is a reader of s that gives its pieces as only some readers do: in
// generated sizes, now and then nothing at all, the end along with the last
// piece or alone.
func Odd(t *rapid.T, s string) io.Reader {
	if Pct(t, 25, "read before") {
		// somebody has looked at what comes first already
		r := strings.NewReader("before|" + s)
		if _, err := r.Seek(7, io.SeekStart); err != nil {
			panic(err)
		}
		return r
	}
	return &odd{s: s,
		most: Pick(t, "reads of", 1<<30, 1<<30, 7, 1000, 4096, 32*1024+1),
		gaps: Pick(t, "empty reads every", 0, 0, 2, 3),
		with: rapid.Bool().Draw(t, "end along")}
}

type odd struct {
	s    string
	most int
	gaps int
	with bool
	n    int
}

func (o *odd) Read(p []byte) (int, error) {
	o.n++
	if len(o.s) == 0 {
		return 0, io.EOF
	}
	if o.gaps > 0 && o.n%o.gaps == 0 {
		return 0, nil
	}
	k := min(len(o.s), len(p), o.most)
	copy(p, o.s[:k])
	o.s = o.s[k:]
	if len(o.s) == 0 && o.with {
		return k, io.EOF
	}
	return k, nil
}

// Size draws a size, most often a small one, now and then one around the
// usual sizes of buffers and limits up to max.
func Size(t *rapid.T, label string, max int) int {
	var at []int
	for n := 64; n <= max; n *= 4 {
		at = append(at, n)
	}
	if len(at) == 0 || Pct(t, 70, label+" small") {
		return rapid.IntRange(0, min(max, 40)).Draw(t, label)
	}
	return min(max, rapid.SampledFrom(at).Draw(t, label+" near")+rapid.IntRange(-1, 40).Draw(t, label+" off"))
}

// Text repeats some letters to a text of n bytes whose parts differ.
func Text(n int) string {
	var b strings.Builder
	for i := 0; b.Len() < n; i++ {
		b.WriteString("part ")
		for k := i; ; k /= 26 {
			b.WriteByte(byte('a' + k%26))
			if k < 26 {
				break
			}
		}
		b.WriteByte(' ')
	}
	return b.String()[:n]
}
