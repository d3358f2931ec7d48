package sess

import (
	"crypto/hmac"
	"crypto/sha1"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"math"
	"net/url"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/wujiu2020/strip/sessions"
	"pgregory.net/rapid"

	"verif/pbt/internal/h"
)

// content draws what is signed: ids, numbers, separators, spaces, bytes.
func content() *rapid.Generator[string] {
	return rapid.OneOf(
		rapid.StringMatching(`[A-Z0-9]{20}`),
		rapid.StringMatching(`user[0-9]{1,4}`),
		rapid.StringMatching(`[0-9]{1,22}`),
		rapid.StringMatching(`[ ,|+%=a1é]{1,12}`),
		rapid.StringN(1, 10, 40),
		rapid.Map(rapid.SliceOfN(rapid.Byte(), 1, 60), func(b []byte) string { return string(b) }),
		rapid.Custom(func(t *rapid.T) string { return h.Text(1 + h.Size(t, "long content", 20000)) }),
	)
}

// secret draws keys which HMAC keeps apart (it pads short keys with zeros and
// hashes long ones).
func secret() *rapid.Generator[string] {
	return rapid.OneOf(
		rapid.StringMatching(`[a-zA-Z0-9]{1,4}`),
		rapid.StringMatching(`[a-zA-Z0-9]{16,64}`),
		rapid.StringMatching(`[ -~]{1,64}`),
		rapid.StringMatching(`[ -~]{65,90}`),
		rapid.StringMatching(`[ -~]{100,200}`),
		rapid.Custom(func(t *rapid.T) string { return h.Text(200 + h.Size(t, "long secret", 5000)) }),
	)
}

// near draws a text which is almost s, never s itself.
func near(s string) *rapid.Generator[string] {
	return rapid.Custom(func(t *rapid.T) string {
		r := s
		at := rapid.IntRange(0, len(s)-1).Draw(t, "at")
		switch rapid.IntRange(0, 7).Draw(t, "near") {
		case 0:
			r = s + string(rapid.SampledFrom([]byte("x0 ,|")).Draw(t, "more"))
		case 1:
			r = s[:len(s)-1]
		case 2:
			r = s[1:]
		case 3:
			r = s[:at] + string([]byte{s[at] ^ 1}) + s[at+1:]
		case 4:
			r = s[:len(s)-1] + string([]byte{s[len(s)-1] ^ 2})
		case 5:
			r = strings.ToUpper(s)
		case 6:
			r = strings.ToLower(s)
		case 7:
			r = " " + s
		}
		if r == s {
			r = s + "x"
		}
		return r
	})
}

func moment() *rapid.Generator[int64] {
	now := int64(1_790_000_000_000_000_000)
	return rapid.OneOf(
		rapid.Int64Range(now-int64(100*24*time.Hour), now),
		rapid.Int64Range(1, math.MaxInt64),
		rapid.Int64Range(1, 1_000_000),
		rapid.SampledFrom([]int64{1, math.MaxInt64, 999999999999999999, 1000000000000000000, 100000000000000000}),
	)
}

type signed struct {
	raw, key string
	ns       int64
	text     string
}

func (s signed) String() string { return fmt.Sprintf("%q at %d under %q", s.raw, s.ns, s.key) }

func sign(c *h.C, raw, key string, ns int64) signed {
	text, ok := sessions.EncodeSecureValue(raw, key, time.Unix(0, ns))
	if !ok || text == "" {
		c.Fatalf("signing %q at %d under %q: refused", raw, ns, key)
	}
	return signed{raw, key, ns, text}
}

func tryDecode(c *h.C, text, key string) (raw string, at time.Time, ok bool) {
	if p := h.Try(func() { raw, at, ok = sessions.DecodeSecureValue(text, key) }); p != nil {
		c.Fatalf("decoding %q under %q panicked: %v", text, key, p)
	}
	return
}

func accepted(c *h.C, s signed) {
	raw, at, ok := tryDecode(c, s.text, s.key)
	if !ok || raw != s.raw || at.UnixNano() != s.ns {
		c.Fatalf("a signed value is not read back: %v gave %q, which reads as %q at %d, ok=%v", s, s.text, raw, at.UnixNano(), ok)
	}
}

func rejected(c *h.C, how, text, key string, from ...signed) {
	raw, at, ok := tryDecode(c, text, key)
	if ok {
		c.Fatalf("%s is accepted: %q under %q reads as %q at %d; only these were signed: %v", how, text, key, raw, at.UnixNano(), from)
	}
	if raw != "" || !at.IsZero() {
		c.Fatalf("%s is rejected, but content comes back: %q, %v", how, raw, at)
	}
}

const b64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"

// TestX01 signs values and mutates the signed text.
func TestX01(t *testing.T) {
	h.Check(t, h.Spec{ID: "X01", Quick: 12000, Thorough: 400000,
		Rule: "A content, a secret and a time are signed and read back; then the signed text is altered in a generated way, on the outside (characters changed, dropped, added, padding bits, line breaks) or on the inside (separators and digits moved between content and time, times and escapes written differently, hashes exchanged with another signed value, other secrets). Non-trivial: the altered text differs from every signed one."},
		func(c *h.C) {
			key := secret().Draw(c.T, "secret")
			s := sign(c, content().Draw(c.T, "content"), key, moment().Draw(c.T, "time"))
			accepted(c, s)
			if g := sessions.GetRawFromSecureValue(s.text); g != s.raw {
				c.Fatalf("GetRawFromSecureValue of %v gives %q", s, g)
			}
			o := sign(c, content().Draw(c.T, "other content"), key, moment().Draw(c.T, "other time"))
			accepted(c, o)

			in := func() []string { // the parts of the signed text, when it has the usual form
				b, err := base64.URLEncoding.DecodeString(s.text)
				if err != nil {
					c.Skip()
				}
				p := strings.Split(string(b), sessions.COOKIE_VALUE_SPLIT)
				if len(p) != 3 {
					c.Skip()
				}
				return p
			}
			join := func(p ...string) string {
				return base64.URLEncoding.EncodeToString([]byte(strings.Join(p, sessions.COOKIE_VALUE_SPLIT)))
			}
			kind := rapid.SampledFrom([]string{"character", "drop", "cut", "append", "insert", "swap-case", "pad-bits", "alphabet",
				"time", "move-right", "move-left", "hash", "mix", "escape", "blank", "time-form", "hash-case", "secret", "no-secret", "garbage", "split-part", "twice"}).Draw(c.T, "how")
			text, use, how := s.text, key, kind
			switch kind {
			case "character":
				i := rapid.IntRange(0, len(text)-1).Draw(c.T, "at")
				text = text[:i] + string(b64[rapid.IntRange(0, 63).Draw(c.T, "to")]) + text[i+1:]
			case "drop":
				i := rapid.IntRange(0, len(text)-1).Draw(c.T, "at")
				text = text[:i] + text[i+1:]
			case "cut":
				text = text[:rapid.IntRange(0, len(text)-1).Draw(c.T, "at")]
			case "append":
				text += rapid.SampledFrom([]string{"A", "AA", "AAA", "AAAA", "=", "==", "====", "!", "\n", "\r\n", " ", "%", "IA=="}).Draw(c.T, "what")
			case "insert":
				i := rapid.IntRange(0, len(text)).Draw(c.T, "at")
				text = text[:i] + rapid.SampledFrom([]string{"\n", "\r", "\r\n", "=", "A", " ", "\x00"}).Draw(c.T, "what") + text[i:]
			case "swap-case":
				i := rapid.IntRange(0, len(text)-1).Draw(c.T, "at")
				x := text[i : i+1]
				if y := strings.ToUpper(x); y != x {
					x = y
				} else {
					x = strings.ToLower(x)
				}
				text = text[:i] + x + text[i+1:]
			case "pad-bits":
				// the unused bits before the padding
				n := len(strings.TrimRight(text, "="))
				if n == len(text) {
					c.Skip()
				}
				v := strings.IndexByte(b64, text[n-1])
				if v < 0 {
					c.Skip()
				}
				text = text[:n-1] + string(b64[v^1]) + text[n:]
			case "alphabet":
				text = strings.NewReplacer("-", "+", "_", "/").Replace(strings.TrimRight(text, "="))
			case "time":
				p := in()
				ns := rapid.SampledFrom([]string{"9223372036854775807", strconv.FormatInt(s.ns+1, 10), strconv.FormatInt(s.ns-1, 10), strconv.FormatInt(time.Now().UnixNano(), 10), "99999999999999999999", "0", "-1", "1"}).Draw(c.T, "new time")
				text = join(p[0], ns, p[2])
			case "move-right": // the last digits of the content become the first of the time
				p := in()
				n := rapid.IntRange(1, 4).Draw(c.T, "digits")
				if n >= len(p[0]) {
					c.Skip()
				}
				text = join(p[0][:len(p[0])-n], p[0][len(p[0])-n:]+p[1], p[2])
			case "move-left":
				p := in()
				n := rapid.IntRange(1, 8).Draw(c.T, "digits")
				if n >= len(p[1]) {
					c.Skip()
				}
				text = join(p[0]+p[1][:n], p[1][n:], p[2])
			case "hash":
				p := in()
				i := rapid.IntRange(0, len(p[2])-1).Draw(c.T, "at")
				text = join(p[0], p[1], p[2][:i]+string("0123456789abcdef"[rapid.IntRange(0, 15).Draw(c.T, "to")])+p[2][i+1:])
			case "mix":
				p := in()
				b, _ := base64.URLEncoding.DecodeString(o.text)
				q := strings.Split(string(b), sessions.COOKIE_VALUE_SPLIT)
				if len(q) != 3 {
					c.Skip()
				}
				for i := range p {
					if rapid.Bool().Draw(c.T, "from the other") {
						p[i] = q[i]
					}
				}
				text = join(p...)
			case "escape":
				p := in()
				i := rapid.IntRange(0, len(s.raw)-1).Draw(c.T, "at")
				esc := fmt.Sprintf(rapid.SampledFrom([]string{"%%%02X", "%%%02x"}).Draw(c.T, "form"), s.raw[i])
				p[0] = url.QueryEscape(s.raw[:i]) + esc + url.QueryEscape(s.raw[i+1:])
				text = join(p...)
			case "blank":
				p := in()
				i := rapid.IntRange(0, 2).Draw(c.T, "part")
				sp := rapid.SampledFrom([]string{" ", "\t", "\n", "\u00a0"}).Draw(c.T, "blank")
				if rapid.Bool().Draw(c.T, "before") {
					p[i] = sp + p[i]
				} else {
					p[i] += sp
				}
				text = join(p...)
			case "time-form":
				p := in()
				p[1] = rapid.SampledFrom([]string{"+", "0", "00", "-", "0x"}).Draw(c.T, "lead") + p[1]
				text = join(p...)
			case "hash-case":
				p := in()
				p[2] = strings.ToUpper(p[2])
				text = join(p...)
			case "secret":
				use = rapid.OneOf(secret(), near(key), near(key)).Draw(c.T, "wrong secret")
				if use == key || use == "" || trimNul(use) == key {
					use = key + "x"
				}
				if len(key) > 64 || len(use) > 64 {
					c.Label("long secret")
				}
			case "no-secret":
				// anybody can sign with no secret
				use = ""
				m := hmac.New(sha1.New, nil)
				ns := strconv.FormatInt(s.ns, 10)
				sep := rapid.SampledFrom([]string{"", ",", "|"}).Draw(c.T, "separator")
				m.Write([]byte(s.raw + sep + ns))
				text = join(url.QueryEscape(s.raw), ns, hex.EncodeToString(m.Sum(nil)))
				if _, ok := sessions.EncodeSecureValue(s.raw, "", time.Unix(0, s.ns)); ok {
					c.Fatalf("signing with an empty secret is not refused")
				}
			case "garbage":
				text = rapid.OneOf(rapid.String(), rapid.StringMatching(`[A-Za-z0-9_=-]{0,80}`),
					rapid.Map(rapid.StringMatching(`[a-z0-9]{0,3},[0-9+-]{0,3},[0-9a-f]{0,3}`), func(s string) string { return base64.URLEncoding.EncodeToString([]byte(s)) })).Draw(c.T, "text")
			case "split-part":
				p := in()
				text = join(append(p, rapid.SampledFrom([]string{"", "x", p[2]}).Draw(c.T, "fourth"))...)
			case "twice":
				text += o.text
			}
			if use == key && (text == s.text || text == o.text) {
				c.Label("unchanged")
				return
			}
			c.Label("%s", kind)
			c.NonTrivial(kind + " " + s.String() + " -> " + text)
			rejected(c, how, text, use, s, o)
		})
}
