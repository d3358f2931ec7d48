package sess

import (
	"encoding/base64"
	"fmt"
	"net/http"
	"net/http/httptest"
	"net/url"
	"strings"
	"testing"
	"time"

	"github.com/wujiu2020/strip/sessions"
	"pgregory.net/rapid"

	"verif/pbt/internal/h"
)

// issued is one remember-me cookie given out.
type issued struct {
	psk, salt string
	value     string
	name      string
	secret    string
}

// TestX03 gives out remember-me cookies and presents them, each other's parts
// and altered ones.
func TestX03(t *testing.T) {
	h.Check(t, h.Spec{ID: "X03", Quick: 12000, Thorough: 400000,
		Rule: "Several remember-me cookies are given out for generated users, salts, secrets and cookie names; then one is presented: untouched, aged, to another manager, under another name, altered, mixed with another user's, with a session cookie in its place, or after clearing. Presence must be reported exactly for what verifies, and the salt hash must verify for the same user and salt only. Non-trivial: a cookie was presented.",
	}, func(c *h.C) {
		key := secret().Draw(c.T, "secret")
		expire := rapid.SampledFrom([]int{1, 60, 3600, 30 * 86400, 365 * 86400}).Draw(c.T, "lifetime")
		m := sessions.NewSessionManager(nowhere{sessions.Config{SecretKey: key, SessionExpire: 3600}})
		cfg := &sessions.CookieConfig{
			CookieName: "sid", CookieRememberName: rapid.SampledFrom([]string{"remember", "r", "sid2", "RememberMe"}).Draw(c.T, "name"),
			CookieSecure: rapid.Bool().Draw(c.T, "secure"), CookieDomain: rapid.SampledFrom([]string{"", "example.com"}).Draw(c.T, "domain"),
			CookieExpire: 3600, RememberExpire: expire + 60,
		}
		who := rapid.OneOf(rapid.StringMatching(`[a-z0-9@.]{1,10}`), rapid.StringMatching(`[a|,%+ é]{1,6}`), content())
		give := func(m *sessions.SessionManager, key, psk, salt string) issued {
			w := httptest.NewRecorder()
			if !m.WriteRemember(cfg, w, psk, salt) {
				c.Fatalf("WriteRemember(%q, %q) is refused", psk, salt)
			}
			cs := cookies(w)
			if len(cs) != 1 {
				c.Fatalf("WriteRemember(%q, %q) sets %d cookies: %v", psk, salt, len(cs), w.Header())
			}
			k := cs[0]
			if k.Name != cfg.CookieRememberName || k.Path != "/" || !k.HttpOnly || k.Secure != cfg.CookieSecure || k.MaxAge != cfg.RememberExpire {
				c.Fatalf("WriteRemember with %+v sets %v", *cfg, k)
			}
			return issued{psk, salt, k.Value, k.Name, key}
		}
		a := give(m, key, who.Draw(c.T, "user"), who.Draw(c.T, "salt"))
		b := give(m, key, who.Draw(c.T, "other user"), who.Draw(c.T, "other salt"))
		desc := fmt.Sprintf("user %q salt %q secret %q", a.psk, a.salt, key)

		has := func(m *sessions.SessionManager, cfg *sessions.CookieConfig, r *http.Request) (psk, hash string, ok bool) {
			if p := h.Try(func() { psk, hash, ok = m.HasRemember(cfg, r) }); p != nil {
				c.Fatalf("HasRemember panicked: %v (%s)", p, desc)
			}
			if !ok && (psk != "" || hash != "") {
				c.Fatalf("HasRemember fails but returns %q, %q (%s)", psk, hash, desc)
			}
			return
		}
		valid := func(m *sessions.SessionManager, cfg *sessions.CookieConfig, psk, salt, hash string) (ok bool) {
			if p := h.Try(func() { ok = m.ValidRemember(cfg, psk, salt, hash) }); p != nil {
				c.Fatalf("ValidRemember panicked: %v (%s)", p, desc)
			}
			return
		}
		cookie := func(v string) *http.Cookie { return &http.Cookie{Name: cfg.CookieRememberName, Value: v} }
		never := func(how string, m *sessions.SessionManager, cfg *sessions.CookieConfig, r *http.Request) {
			if psk, hash, ok := has(m, cfg, r); ok {
				c.Fatalf("%s: reported as present for user %q with %q (%s)", how, psk, hash, desc)
			}
		}
		// a cookie as given out is found and verifies for its user and salt only
		good := func(x issued) string {
			psk, hash, ok := has(m, cfg, request(&http.Cookie{Name: "x", Value: "y"}, cookie(x.value)))
			if !ok || psk != x.psk || hash == "" {
				c.Fatalf("the cookie of user %q (salt %q, secret %q) is found as %q, %q, %v", x.psk, x.salt, x.secret, psk, hash, ok)
			}
			if !valid(m, cfg, psk, x.salt, hash) {
				c.Fatalf("the cookie of user %q (salt %q, secret %q) does not verify", x.psk, x.salt, x.secret)
			}
			return hash
		}
		ha, hb := good(a), good(b)
		retime := func(v string, at time.Time) string {
			raw, _, ok := sessions.DecodeSecureValue(v, key)
			if !ok {
				c.Skip()
			}
			v, ok = sessions.EncodeSecureValue(raw, key, at)
			if !ok {
				c.Skip()
			}
			return v
		}
		kind := rapid.SampledFrom([]string{"wrong-user", "wrong-salt", "empty", "swap-hash", "other-secret", "other-name", "age", "age-inner", "short-life",
			"session-cookie", "signed-something", "alter", "alter-hash", "cleared", "last-wins", "refuse", "none", "forge-user"}).Draw(c.T, "how")
		c.Label("%s", kind)
		c.NonTrivial(kind + " " + desc + fmt.Sprintf(" and user %q salt %q", b.psk, b.salt))
		switch kind {
		case "wrong-user":
			u := rapid.OneOf(who, near(a.psk), near(a.psk)).Draw(c.T, "wrong user")
			if u != a.psk && valid(m, cfg, u, a.salt, ha) {
				c.Fatalf("the cookie of user %q verifies for user %q", a.psk, u)
			}
			if b.psk != a.psk && valid(m, cfg, b.psk, a.salt, ha) {
				c.Fatalf("the cookie of user %q verifies for user %q", a.psk, b.psk)
			}
		case "wrong-salt":
			s := rapid.OneOf(who, rapid.Just(a.salt+"x"), rapid.Just(a.salt[:len(a.salt)-1]), rapid.Just(a.salt+a.salt), near(a.salt), near(a.salt)).Draw(c.T, "wrong salt")
			// keys that differ only in trailing zero bytes, or are each other's hash, are one key to HMAC
			if s != a.salt && trimNul(key+s) != trimNul(key+a.salt) && valid(m, cfg, a.psk, s, ha) {
				c.Fatalf("the cookie of user %q with salt %q verifies with salt %q", a.psk, a.salt, s)
			}
		case "empty":
			for _, x := range [][3]string{{"", a.salt, ha}, {a.psk, "", ha}, {a.psk, a.salt, ""}, {"", "", ""}} {
				if valid(m, cfg, x[0], x[1], x[2]) {
					c.Fatalf("ValidRemember(%q, %q, %q) is true", x[0], x[1], x[2])
				}
			}
			// a text signed with the secret alone, such as a session cookie, is no one's proof
			if text, ok := sessions.EncodeSecureValue(a.psk, key, time.Now()); ok && valid(m, cfg, a.psk, "", text) {
				c.Fatalf("a text signed with the secret of the sessions verifies for user %q without salt", a.psk)
			}
		case "swap-hash":
			if ha != hb && (a.psk != b.psk || a.salt != b.salt) && trimNul(key+a.salt) != trimNul(key+b.salt) {
				if valid(m, cfg, a.psk, a.salt, hb) {
					c.Fatalf("the salt hash of %v verifies for user %q salt %q", b, a.psk, a.salt)
				}
			}
		case "other-secret":
			k2 := rapid.OneOf(secret(), near(key)).Draw(c.T, "other secret")
			if k2 == "" || trimNul(k2) == trimNul(key) {
				k2 = key + "x"
			}
			m2 := sessions.NewSessionManager(nowhere{sessions.Config{SecretKey: k2, SessionExpire: 3600}})
			never("a cookie signed with another secret", m2, cfg, request(cookie(a.value)))
			if k2+a.salt != key+a.salt && trimNul(k2+a.salt) != trimNul(key+a.salt) && valid(m2, cfg, a.psk, a.salt, ha) {
				c.Fatalf("the salt hash signed under %q verifies under %q", key, k2)
			}
		case "other-name":
			c2 := *cfg
			c2.CookieRememberName = "else"
			never("a cookie of another name", m, &c2, request(cookie(a.value)))
			never("a cookie of another name", m, cfg, request(&http.Cookie{Name: "else", Value: a.value}))
			for _, name := range []string{strings.ToUpper(cfg.CookieRememberName), strings.ToLower(cfg.CookieRememberName), cfg.CookieRememberName + "x", "x" + cfg.CookieRememberName} {
				if name != cfg.CookieRememberName {
					never("a cookie of a similar name", m, cfg, request(&http.Cookie{Name: name, Value: a.value}))
				}
			}
		case "age":
			age := rapid.IntRange(1, 2*expire+200).Draw(c.T, "age")
			v := retime(a.value, time.Now().Add(-time.Duration(age)*time.Second))
			_, _, ok := has(m, cfg, request(cookie(v)))
			if age >= cfg.RememberExpire && ok {
				c.Fatalf("a cookie %d s old is accepted, its lifetime is %d s", age, cfg.RememberExpire)
			}
			if age <= cfg.RememberExpire-60 && !ok {
				c.Fatalf("a cookie %d s old is rejected, its lifetime is %d s", age, cfg.RememberExpire)
			}
		case "age-inner":
			age := rapid.IntRange(1, 2*expire+200).Draw(c.T, "age")
			raw, _, ok := sessions.DecodeSecureValue(ha, key+a.salt)
			if !ok || raw != a.psk {
				c.Skip()
			}
			old, _ := sessions.EncodeSecureValue(raw, key+a.salt, time.Now().Add(-time.Duration(age)*time.Second))
			ok = valid(m, cfg, a.psk, a.salt, old)
			if age >= cfg.RememberExpire && ok {
				c.Fatalf("a salt hash %d s old verifies, its lifetime is %d s", age, cfg.RememberExpire)
			}
			if age <= cfg.RememberExpire-60 && !ok {
				c.Fatalf("a salt hash %d s old does not verify, its lifetime is %d s", age, cfg.RememberExpire)
			}
		case "short-life":
			c2 := *cfg
			c2.RememberExpire = -rapid.IntRange(1, 1000).Draw(c.T, "over since")
			never("a cookie past its lifetime", m, &c2, request(cookie(a.value)))
			if valid(m, &c2, a.psk, a.salt, ha) {
				c.Fatalf("a salt hash past its lifetime verifies")
			}
		case "session-cookie":
			w := httptest.NewRecorder()
			m.WriteSessionCookie(cfg, request(), w, sessions.CreateSid(), time.Now())
			cs := cookies(w)
			if len(cs) != 1 {
				c.Fatalf("WriteSessionCookie sets %v", w.Header())
			}
			never("a session cookie in place of a remember-me cookie", m, cfg, request(cookie(cs[0].Value)))
		case "signed-something":
			bad := rapid.SampledFrom([]string{"%zz|a", "a|%zz", "%|a", "a|%"})
			s := rapid.OneOf(rapid.StringMatching(`[a-z%|]{1,8}`), content(), bad).Draw(c.T, "signed text")
			v, ok := sessions.EncodeSecureValue(s, key, time.Now())
			if !ok {
				c.Skip()
			}
			psk, hash, ok := has(m, cfg, request(cookie(v)))
			if ok && !strings.Contains(s, "|") {
				c.Fatalf("HasRemember reports a signed %q as present, with user %q and hash %q", s, psk, hash)
			}
			if x := strings.SplitN(s, "|", 2); ok && len(x) == 2 {
				_, e0 := url.QueryUnescape(x[0])
				_, e1 := url.QueryUnescape(x[1])
				if e0 != nil || e1 != nil {
					c.Fatalf("HasRemember reports a signed %q as present, with user %q and hash %q", s, psk, hash)
				}
			}
			// it may look like a remember-me cookie, but verifies for nobody
			if ok && (valid(m, cfg, psk, a.salt, hash) || valid(m, cfg, a.psk, a.salt, hash)) {
				c.Fatalf("a signed %q verifies as a remember-me cookie of user %q", s, psk)
			}
		case "alter":
			i := rapid.IntRange(0, len(a.value)-1).Draw(c.T, "at")
			v := a.value[:i] + rapid.SampledFrom([]string{"", "A", "b", "=", "-", "9"}).Draw(c.T, "to") + a.value[i+1:]
			if v != a.value {
				never("an altered cookie", m, cfg, request(cookie(v)))
			}
		case "alter-hash":
			i := rapid.IntRange(0, len(ha)-1).Draw(c.T, "at")
			v := ha[:i] + rapid.SampledFrom([]string{"", "A", "b", "=", "-", "9"}).Draw(c.T, "to") + ha[i+1:]
			if v != ha && valid(m, cfg, a.psk, a.salt, v) {
				c.Fatalf("an altered salt hash verifies: %q", v)
			}
		case "cleared":
			w := httptest.NewRecorder()
			m.DestroyRemember(cfg, w)
			cs := cookies(w)
			if len(cs) != 1 || cs[0].Name != cfg.CookieRememberName || cs[0].Path != "/" || cs[0].MaxAge >= 0 || cs[0].Value != "" || cs[0].Domain != "" || !cs[0].HttpOnly || cs[0].Secure != cfg.CookieSecure {
				c.Fatalf("DestroyRemember does not clear the cookie: %v", w.Header())
			}
			never("a cleared cookie", m, cfg, request(cookie(cs[0].Value)))
		case "last-wins":
			psk, _, ok := has(m, cfg, request(cookie(a.value), cookie(b.value)))
			if ok && psk != b.psk {
				c.Fatalf("of two cookies the first is used (user %q, not %q)", psk, b.psk)
			}
			if !ok {
				c.Fatalf("of two cookies none is used")
			}
		case "refuse":
			for _, x := range [][2]string{{"", a.salt}, {a.psk, ""}} {
				w := httptest.NewRecorder()
				if m.WriteRemember(cfg, w, x[0], x[1]) {
					c.Fatalf("WriteRemember(%q, %q) succeeds", x[0], x[1])
				}
				if len(cookies(w)) != 0 {
					c.Fatalf("WriteRemember(%q, %q) fails but sets %v", x[0], x[1], w.Header())
				}
			}
			// without a secret there is no manager
			if h.Try(func() { sessions.NewSessionManager(nowhere{sessions.Config{SessionExpire: 3600}}) }) == nil {
				c.Fatalf("a manager without a secret is made")
			}
		case "none":
			never("no cookie", m, cfg, request())
			never("an empty cookie", m, cfg, request(cookie("")))
			never("garbage", m, cfg, request(cookie(rapid.StringMatching(`[A-Za-z0-9_=-]{0,60}`).Draw(c.T, "garbage"))))
		case "forge-user":
			// the content of one's own cookie with another user's name in it
			raw, at, ok := sessions.DecodeSecureValue(a.value, key)
			if !ok {
				c.Skip()
			}
			forged := base64.URLEncoding.EncodeToString([]byte(url.QueryEscape(raw) + "," + fmt.Sprint(at.UnixNano()) + ",0000000000000000000000000000000000000000"))
			never("a forged cookie", m, cfg, request(cookie(forged)))
		}
	})
}

func trimNul(s string) string {
	for len(s) > 0 && s[len(s)-1] == 0 {
		s = s[:len(s)-1]
	}
	return s
}
