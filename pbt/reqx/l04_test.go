package reqx

import (
	"encoding/base64"
	"encoding/binary"
	"fmt"
	"regexp"
	"strings"
	"sync"
	"testing"
	"time"

	reqlogger "github.com/wujiu2020/strip/request-logger"
	"pgregory.net/rapid"

	"verif/pbt/internal/h"
)

var (
	idForm = regexp.MustCompile(`\A[A-Za-z0-9_-]{16}\z`)
	mark   uint
	markMu sync.Mutex
	allIDs = map[string]bool{}
)

// TestL04 makes ids in many goroutines.
func TestL04(t *testing.T) {
	h.Check(t, h.Spec{ID: "L04", Quick: 1500, Thorough: 60000,
		Rule: "1-12 goroutines each make 1-200 request ids at once: all differ from every id made before, have the 16 letters an id needs to stand in a header or a URL and to be taken back from a client, rise in time for each goroutine, and decode to the mark of this process and a time within the making. Non-trivial: at least two goroutines making at least ten ids each.",
	}, func(c *h.C) {
		g := rapid.IntRange(1, 12).Draw(c.T, "goroutines")
		counts := make([]int, g)
		busy := 0
		for i := range counts {
			counts[i] = rapid.IntRange(1, 200).Draw(c.T, "ids")
			if counts[i] >= 10 {
				busy++
			}
		}
		ids := make([][]string, g)
		start := make(chan struct{})
		var wg sync.WaitGroup
		for i := range ids {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				<-start
				for len(ids[i]) < counts[i] {
					ids[i] = append(ids[i], reqlogger.NewReqId())
				}
			}(i)
		}
		beg := time.Now().UnixNano()
		close(start)
		wg.Wait()
		end := time.Now().UnixNano()
		total := int64(0)
		for _, n := range counts {
			total += int64(n)
		}
		markMu.Lock()
		defer markMu.Unlock()
		for i := range ids {
			last := int64(0)
			for j, id := range ids[i] {
				if !idForm.MatchString(id) {
					c.Fatalf("goroutine %d id %d is %q", i, j, id)
				}
				if allIDs[id] {
					c.Fatalf("goroutine %d id %d: %q was given before", i, j, id)
				}
				allIDs[id] = true
				m, nano := reqlogger.DecodeReqId(id)
				if len(allIDs) == 1 {
					mark = m
				}
				if m != mark {
					c.Fatalf("id %q has the mark %d, others have %d", id, m, mark)
				}
				// simultaneous ids are told apart by pushing later ones a little ahead
				if nano < beg || nano > end+total+int64(time.Millisecond) {
					c.Fatalf("id %q says it was made at %d, it was between %d and %d", id, nano, beg, end)
				}
				if nano <= last {
					c.Fatalf("goroutine %d: id %d is not later than the one before", i, j)
				}
				last = nano
			}
		}
		c.Label("%d goroutines", g)
		if busy >= 2 {
			c.NonTrivial(fmt.Sprintf("%d goroutines %v", g, counts))
		}
	})
}

// TestL04_texts decodes ids and other texts.
func TestL04_texts(t *testing.T) {
	h.Check(t, h.Spec{ID: "L04", Quick: 20000, Thorough: 400000,
		Rule: "Ids of other processes (any mark and time), shortened, lengthened, altered and arbitrary texts: an id decodes to its mark and time, a text that is none decodes to zeros, and nothing panics. Non-trivial: an id whose mark and time are not zero, or an altered one.",
	}, func(c *h.C) {
		var b [12]byte
		m := rapid.Uint32().Draw(c.T, "mark")
		nano := rapid.Int64().Draw(c.T, "time")
		if h.Pct(c.T, 50, "now") {
			nano = time.Date(2000+rapid.IntRange(0, 200).Draw(c.T, "year"), 1, 1, 0, 0, 0, rapid.IntRange(0, 999999999).Draw(c.T, "nano"), time.UTC).UnixNano()
		}
		binary.LittleEndian.PutUint32(b[:4], m)
		binary.LittleEndian.PutUint64(b[4:], uint64(nano))
		id := base64.URLEncoding.EncodeToString(b[:])
		valid := true
		switch alter := h.Pick(c.T, "alter", "", "", "cut", "cut", "bad letter", "std", "text", "more"); alter {
		case "cut":
			id, valid = id[:rapid.IntRange(0, 15).Draw(c.T, "length")], false
		case "bad letter":
			i := rapid.IntRange(0, 15).Draw(c.T, "at")
			id, valid = id[:i]+h.Pick(c.T, "letter", "+", "/", "=", " ", ".", "é", "\x00", "%")+id[i+1:], false
		case "std":
			id = base64.StdEncoding.EncodeToString(b[:])
			valid = !strings.ContainsAny(id, "+/")
		case "text":
			id = rapid.String().Draw(c.T, "text")
			raw, err := base64.URLEncoding.DecodeString(id)
			if err == nil && len(raw) >= 12 {
				id = "text"
			}
			valid = false
		case "more": // what a longer id means is not judged
			id += h.Pick(c.T, "rest", "AAAA", "____", "AA==", "_-A=")
			if p := h.Try(func() { reqlogger.DecodeReqId(id) }); p != nil {
				c.Fatalf("decoding %q panics: %v", id, p)
			}
			return
		}
		var gm uint
		var gn int64
		if p := h.Try(func() { gm, gn = reqlogger.DecodeReqId(id) }); p != nil {
			c.Fatalf("decoding %q panics: %v", id, p)
		}
		wm, wn := uint(0), int64(0)
		if valid {
			wm, wn = uint(m), nano
		}
		if gm != wm || gn != wn {
			c.Fatalf("%q decodes to %d and %d, want %d and %d", id, gm, gn, wm, wn)
		}
		c.Label("valid %v", valid)
		if id != "" && (valid && m != 0 && nano != 0 || !valid) {
			c.NonTrivial(id)
		}
	})
}
