package utilx

import (
	"bytes"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"regexp"
	"strings"
	"sync"
	"testing"

	"github.com/wujiu2020/strip/sessions"
	"github.com/wujiu2020/strip/utils"
	"pgregory.net/rapid"

	"verif/pbt/internal/h"
)

// genAlphabet draws an alphabet of distinct characters.
func genAlphabet(t *rapid.T, min int) []byte {
	switch rapid.IntRange(0, 5).Draw(t, "alphabet") {
	case 0:
		return append([]byte(nil), h.Pick(t, "std", utils.HexAlphabets, utils.LowercaseAlphabets, utils.DefaultAlphabets)...)
	case 1:
		n := h.Pick(t, "size", min, 2, 3, 16, 127, 128, 129, 255, 256)
		return perm(t, n)
	}
	return perm(t, rapid.IntRange(min, 256).Draw(t, "size"))
}

func perm(t *rapid.T, n int) []byte {
	all := make([]byte, 256)
	mul := byte(rapid.IntRange(0, 127).Draw(t, "mul")*2 + 1)
	add := rapid.Byte().Draw(t, "add")
	for i := range all {
		all[i] = byte(i)*mul + add
	}
	return all[:n]
}

var (
	seenMu sync.Mutex
	seen   = map[string]bool{}
)

func unseen(kind, tok string) bool {
	seenMu.Lock()
	defer seenMu.Unlock()
	k := kind + " " + tok
	if seen[k] {
		return false
	}
	seen[k] = true
	return true
}

func TestU04_Token(t *testing.T) {
	h.Check(t, h.Spec{ID: "U04", Quick: 3000, Thorough: 100000,
		Rule: "a length, an alphabet of up to 256 distinct characters (or the default) and one of four constructors; occasionally a text so long that a character of the alphabet that does not occur cannot occur; non-trivial: at least 8 characters from at least 2",
	}, func(c *h.C) {
		var alpha []byte
		use := utils.DefaultAlphabets
		if !h.Pct(c.T, 20, "default") {
			alpha = genAlphabet(c.T, 1)
			use = append([]byte(nil), alpha...)
		}
		long := h.Pct(c.T, 10, "long")
		n := rapid.IntRange(0, 70).Draw(c.T, "n")
		if h.Pct(c.T, 20, "longer") {
			n = rapid.IntRange(71, 600).Draw(c.T, "n")
		}
		if long {
			n = 45 * 256
		}
		def := string(utils.DefaultAlphabets)
		var got []byte
		form := rapid.IntRange(0, 3).Draw(c.T, "form")
		if e := h.Try(func() {
			var err error
			switch form {
			case 0:
				got, err = utils.RandomCreateBytes(n, alpha...)
			case 1:
				var s string
				s, err = utils.RandomCreateString(n, alpha...)
				got = []byte(s)
			case 2:
				got = utils.MustRandomCreateBytes(n, alpha...)
			case 3:
				got = []byte(utils.MustRandomCreateString(n, alpha...))
			}
			if err != nil {
				c.Fatalf("token of %d characters of %q: %v", n, alpha, err)
			}
		}); e != nil {
			c.Fatalf("token of %d from an alphabet of %d panics: %v", n, len(alpha), e)
		}
		if len(got) != n {
			c.Fatalf("token of %d characters has %d", n, len(got))
		}
		if alpha != nil && !bytes.Equal(alpha, use) || string(utils.DefaultAlphabets) != def {
			c.Fatalf("the alphabet was changed")
		}
		has := [256]bool{}
		for _, b := range use {
			has[b] = true
		}
		occ := [256]bool{}
		for _, b := range got {
			if !has[b] {
				c.Fatalf("token %q has %q, which is not of the alphabet %q", got, b, use)
			}
			occ[b] = true
		}
		if long {
			c.Label("long")
			for _, b := range use {
				if !occ[b] {
					c.Fatalf("%q of the alphabet %q (%d characters) never occurs in %d random characters", b, use, len(use), n)
				}
			}
		}
		if n >= 8 && len(use) > 1 {
			c.NonTrivial(fmt.Sprintf("form %d n %d alphabet %q", form, n, use))
		}
		// enough bits that a repetition is not chance
		bits := float64(n) * float64(bitLen(len(use)))
		if bits >= 120 && !unseen("token", string(got)) {
			c.Fatalf("token %q came twice", got)
		}
		// nor does a part of it
		if k := 120/max(1, bitLen(len(use))) + 1; !long && len(use) > 1 && n >= 2*k {
			for i := n; i >= k; i -= k {
				if !unseen("part", string(got[i-k:i])) {
					c.Fatalf("%q, a part of token %q, came before", got[i-k:i], got)
				}
			}
			c.Label("parts")
		}
	})
}

func bitLen(k int) int {
	n := 0
	for k > 1 {
		k >>= 1
		n++
	}
	return n
}

func TestU04_Number(t *testing.T) {
	h.Check(t, h.Spec{ID: "U04", Quick: 10000, Thorough: 500000,
		Rule: "two numbers of up to 400 bits and an alphabet of 2-256 distinct characters; non-trivial: a number with at least 2 digits in it",
	}, func(c *h.C) {
		alpha := genAlphabet(c.T, 2)
		def := h.Pct(c.T, 15, "default")
		if def {
			alpha = utils.DefaultAlphabets
		}
		num := func(l string) string {
			switch rapid.IntRange(0, 3).Draw(c.T, l) {
			case 0:
				return fmt.Sprint(rapid.Uint64().Draw(c.T, l+"64"))
			case 1: // powers of the base and their neighbours
				x := new(big.Int).Exp(big.NewInt(int64(len(alpha))), big.NewInt(int64(rapid.IntRange(0, 30).Draw(c.T, l+"exp"))), nil)
				x.Add(x, big.NewInt(int64(rapid.IntRange(-1, 1).Draw(c.T, l+"off"))))
				return x.String()
			case 2:
				return fmt.Sprint(rapid.IntRange(0, 300).Draw(c.T, l+"small"))
			}
			return new(big.Int).SetBytes(rapid.SliceOfN(rapid.Byte(), 0, 50).Draw(c.T, l+"big")).String()
		}
		a, b := num("a"), num("b")
		enc := func(s string) string {
			if def {
				return utils.DefaultNumberEncode(s)
			}
			return utils.NumberEncode(s, alpha)
		}
		ea, eb := enc(a), enc(b)
		if len(ea) > 1 {
			c.NonTrivial(a + " in " + fmt.Sprintf("%q", alpha))
		}
		for _, ch := range []byte(ea) {
			if bytes.IndexByte(alpha, ch) < 0 {
				c.Fatalf("%s encodes as %q, not of the alphabet %q", a, ea, alpha)
			}
		}
		if d := utils.NumberDecode(ea, alpha); d != a {
			c.Fatalf("%s encodes as %q in %q, which decodes as %s", a, ea, alpha, d)
		}
		if (a == b) != (ea == eb) {
			c.Fatalf("%s and %s encode as %q and %q in %q", a, b, ea, eb, alpha)
		}
	})
}

var sidForm = regexp.MustCompile(`\A[0-9A-Z]{20}\z`)

func TestU04_Sid(t *testing.T) {
	h.Check(t, h.Spec{ID: "U04", Quick: 100, Thorough: 3000,
		Rule: "session ids made by several goroutines at once; non-trivial: at least 2 goroutines",
	}, func(c *h.C) {
		workers := rapid.IntRange(1, 8).Draw(c.T, "workers")
		each := rapid.IntRange(1, 60).Draw(c.T, "each")
		if workers > 1 {
			c.NonTrivial(fmt.Sprintf("%d x %d", workers, each))
		}
		out := make([][]string, workers)
		var wg sync.WaitGroup
		for w := range out {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				for i := 0; i < each; i++ {
					out[w] = append(out[w], sessions.CreateSid())
				}
			}(w)
		}
		wg.Wait()
		for _, l := range out {
			for _, s := range l {
				if !sidForm.MatchString(s) {
					c.Fatalf("session id %q", s)
				}
				if !unseen("sid", s) {
					c.Fatalf("session id %q was given twice", s)
				}
			}
		}
	})
}

// TestU04_Processes: processes started alike must not give the same tokens.
func TestU04_Processes(t *testing.T) {
	if os.Getenv("VERIF_CHILD") != "" {
		for i := 0; i < 3; i++ {
			fmt.Println("TOKEN", utils.MustRandomCreateString(24), sessions.CreateSid())
		}
		return
	}
	h.Example(t, "U04", "processes", func(t *testing.T) {
		all := map[string]bool{}
		for p := 0; p < 4; p++ {
			cmd := exec.Command(os.Args[0], "-test.run=^TestU04_Processes$")
			cmd.Env = append(os.Environ(), "VERIF_CHILD=1", "VERIF_EV_DIR=")
			b, err := cmd.CombinedOutput()
			h.Env(err)
			n := 0
			for _, l := range strings.Split(string(b), "\n") {
				f := strings.Fields(l)
				if len(f) == 3 && f[0] == "TOKEN" {
					n++
					for _, tok := range f[1:] {
						if all[tok] {
							t.Fatalf("two processes gave the token %s", tok)
						}
						all[tok] = true
					}
				}
			}
			if n != 3 {
				t.Fatalf("a process gave %d of 3 tokens: %s", n, b)
			}
		}
	})
}
