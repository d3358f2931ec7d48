package paramsx

import (
	"bufio"
	"crypto/tls"
	"fmt"
	"net/http"
	"net/http/httptest"
	"net/url"
	"strings"
	"testing"

	"github.com/wujiu2020/strip/params"
	"pgregory.net/rapid"
	"verif/pbt/internal/h"
)

func genIP(t *rapid.T) (ip string, v6 bool) {
	if rapid.Bool().Draw(t, "v6") {
		return h.Pick(t, "v6", "2001:db8::1", "fe80::1", "::ffff:10.0.0.1", "2001:0db8:85a3::8a2e:0370:7334", "::2", "fe80::1%eth0", "::ffff:127.0.0.1", "2001:DB8::A", "::1:2", "::12ab", "1::1", "::"), true
	}
	return fmt.Sprintf("%d.%d.%d.%d", rapid.IntRange(0, 255).Draw(t, "a"), rapid.IntRange(0, 255).Draw(t, "b"), rapid.IntRange(0, 255).Draw(t, "c"), rapid.IntRange(0, 255).Draw(t, "d")), false
}

// spellIP writes an address with or without port.
func spellIP(t *rapid.T, ip string, v6 bool, mustPort bool) string {
	port := fmt.Sprint(rapid.IntRange(0, 65535).Draw(t, "port"))
	if mustPort || h.Pct(t, 40, "with port") {
		if v6 {
			return "[" + ip + "]:" + port
		}
		return ip + ":" + port
	}
	if v6 && h.Pct(t, 50, "brackets") {
		return "[" + ip + "]"
	}
	return ip
}

func TestP05(t *testing.T) {
	h.Check(t, h.Spec{ID: "P05", Quick: 15000, Thorough: 300000,
		Rule: "requests (in origin and absolute form) with generated remote addresses, hosts, URIs and any subset of the forwarding headers (IPv4 and IPv6, with and without ports, lists with blanks, unrelated headers); the reported values are compared with the parts the request was made from. Non-trivial: a forwarding header is present."},
		func(c *h.C) {
			path := h.Pick(c.T, "path", "/", "/a/b", "/a%2Fb", "/%C3%A9", "/a%20b")
			query := h.Pick(c.T, "query", "", "x=1&y=2", "u=http://a/b?c", "%41")
			uri := path
			if query != "" {
				uri += "?" + query
			}
			req := httptest.NewRequest("GET", uri, nil)
			var desc []string
			if h.Pct(c.T, 25, "absolute form") {
				// as a proxy sends it
				var err error
				if req, err = http.ReadRequest(bufio.NewReader(strings.NewReader("GET http://other.org" + uri + " HTTP/1.1\r\nHost: other.org\r\n\r\n"))); err != nil {
					c.Fatalf("%v", err)
				}
				desc = append(desc, "absolute form")
			}
			// connection
			ip, v6 := genIP(c.T)
			req.RemoteAddr = spellIP(c.T, ip, v6, true)
			if h.Pct(c.T, 10, "loopback") {
				ip, req.RemoteAddr = "127.0.0.1", "[::1]:55"
			}
			wantIP := ip
			desc = append(desc, "remote "+req.RemoteAddr)
			fwd := false
			// each proxy on the way can add a line of its own, the first counts
			again := func(name, text string) {
				if h.Pct(c.T, 15, "second line") {
					req.Header.Add(name, text)
					desc = append(desc, "again "+name)
				}
			}
			if h.Pct(c.T, 50, "X-Forwarded-For") {
				fwd = true
				wantIP, v6 = genIP(c.T)
				list := h.Pick(c.T, "lead", "", " ") + spellIP(c.T, wantIP, v6, false)
				for n := rapid.IntRange(0, 2).Draw(c.T, "more"); n > 0; n-- {
					ip, v6 := genIP(c.T)
					list += h.Pick(c.T, "sep", ",", ", ", " , ") + spellIP(c.T, ip, v6, false)
				}
				req.Header.Set("X-Forwarded-For", list)
				again("X-Forwarded-For", "10.9.8.7")
				desc = append(desc, "for "+list)
			}
			if h.Pct(c.T, 30, "X-Real-Ip") {
				fwd = true
				wantIP, _ = genIP(c.T)
				req.Header.Set("X-Real-Ip", wantIP)
				desc = append(desc, "real "+wantIP)
			}
			genHost := func() (string, string) {
				port := ""
				if rapid.Bool().Draw(c.T, "host port") {
					port = fmt.Sprintf(":%d", rapid.IntRange(1, 65535).Draw(c.T, "port"))
				}
				host := h.Pick(c.T, "host", "example.com", "localhost", "10.0.0.1", "[2001:db8::1]", "[::1]", "[::]", "xn--e.org", "Example.COM", "[2001:DB8::A]")
				return host, host + port
			}
			wantHost, hh := genHost()
			req.Host = hh
			desc = append(desc, "host "+hh)
			if h.Pct(c.T, 50, "X-Forwarded-Host") {
				fwd = true
				wantHost, hh = genHost()
				req.Header.Set("X-Forwarded-Host", hh)
				again("X-Forwarded-Host", "proxy.example:99")
				desc = append(desc, "fwd host "+hh)
			}
			wantProto := "http"
			if h.Pct(c.T, 20, "scheme") {
				wantProto = "https"
				req.URL.Scheme = wantProto
			} else {
				req.URL.Scheme = ""
			}
			if h.Pct(c.T, 20, "TLS") {
				wantProto = "https"
				req.TLS = &tls.ConnectionState{}
				desc = append(desc, "over TLS")
			}
			if h.Pct(c.T, 50, "X-Forwarded-Proto") {
				fwd = true
				wantProto = h.Pick(c.T, "proto", "http", "https", "wss")
				req.Header.Set("X-Forwarded-Proto", wantProto)
				again("X-Forwarded-Proto", "ws")
			}
			wantURI := uri
			// the request as the server received it
			req.URL.Host = ""
			if h.Pct(c.T, 40, "X-Original-URI") {
				fwd = true
				switch h.Pick(c.T, "original", "other", "prefixed", "cut", "longer", "query only") {
				case "prefixed":
					wantURI = "/app" + uri
				case "cut":
					// the server's own URI goes on before or behind it
					if i := strings.LastIndex(path, "/"); i > 0 {
						wantURI = uri[i:]
					} else {
						wantURI = path
					}
				case "longer":
					wantURI = uri + "x"
				case "query only":
					wantURI = path + "?z=9"
				default:
					wantURI = h.Pick(c.T, "orig path", "/", "/o/p", "/o%2Fp", "/%C3%A8", "/o%20p")
					if query := h.Pick(c.T, "orig query", "", "z=9", "%42=%43"); query != "" {
						wantURI += "?" + query
					}
				}
				req.Header.Set("X-Original-URI", wantURI)
				desc = append(desc, "orig "+wantURI)
			}
			// what must not matter
			for n := rapid.IntRange(0, 2).Draw(c.T, "unrelated"); n > 0; n-- {
				req.Header.Set(h.Pick(c.T, "unrelated", "Forwarded", "Via", "X-Forwarded", "X-Client-Ip", "Referer", "Origin", "X-Forwarded-Port"), "8.8.8.8")
			}
			all := strings.Join(desc, ", ")
			before := req.URL.String()
			if got := params.RealIp(req); got != wantIP {
				c.Fatalf("%s: RealIp %q, want %q", all, got, wantIP)
			}
			if got := params.RealHost(req); got != wantHost {
				c.Fatalf("%s: RealHost %q, want %q", all, got, wantHost)
			}
			if got := params.RealProto(req); got != wantProto {
				c.Fatalf("%s: RealProto %q, want %q", all, got, wantProto)
			}
			if got := params.RealURI(req); got != wantURI {
				c.Fatalf("%s: RealURI %q, want %q", all, got, wantURI)
			}
			u, err := params.RealURL(req)
			if want := wantProto + "://" + wantHost + wantURI; err != nil || u.String() != want {
				c.Fatalf("%s: RealURL %v (%v), want %s", all, u, err, want)
			}
			if req.URL.String() != before {
				c.Fatalf("%s: the request's URL became %s", all, req.URL)
			}
			c.Label("forwarded %v", fwd)
			if fwd {
				c.NonTrivial(all + " " + uri)
			}
		})
}

func TestP05_malformed(t *testing.T) {
	h.Check(t, h.Spec{ID: "P05", Quick: 8000, Thorough: 100000,
		Rule: "requests whose forwarding headers and addresses are fragments of addresses, brackets, separators or arbitrary text; nothing may panic and asking twice gives the same. Non-trivial: always."},
		func(c *h.C) {
			text := func(l string) string {
				if h.Pct(c.T, 30, l+" any") {
					return rapid.String().Draw(c.T, l)
				}
				s := ""
				for n := rapid.IntRange(0, 6).Draw(c.T, l+" n"); n > 0; n-- {
					s += h.Pick(c.T, l, "[", "]", ":", "::", ",", " ", "1.2.3.4", "80", "a", "%", "/", "@", "?", "#", "*")
				}
				return s
			}
			req := &http.Request{Method: h.Pick(c.T, "method", "GET", "CONNECT", "OPTIONS"), Header: http.Header{}, Host: text("host"), RemoteAddr: text("remote"),
				URL: &url.URL{Path: text("path"), RawQuery: text("query"), Host: text("url host"), Opaque: h.Pick(c.T, "opaque", "", "", "x:y", "*")}}
			for _, k := range []string{"X-Real-Ip", "X-Forwarded-For", "X-Forwarded-Host", "X-Forwarded-Proto", "X-Original-URI"} {
				if rapid.Bool().Draw(c.T, k) {
					req.Header.Set(k, text(k))
				}
			}
			get := func() (s string) {
				if p := h.Try(func() {
					u, err := params.RealURL(req)
					s = fmt.Sprint(params.RealIp(req), "|", params.RealHost(req), "|", params.RealProto(req), "|", params.RealURI(req), "|", u, err)
				}); p != nil {
					c.Fatalf("%+v: panic %v", req, p)
				}
				return
			}
			if a, b := get(), get(); a != b {
				c.Fatalf("%+v: %s then %s", req, a, b)
			}
			c.Label("malformed")
			c.NonTrivial(fmt.Sprint(req.Header, req.RemoteAddr, req.Host, req.URL))
		})
}
