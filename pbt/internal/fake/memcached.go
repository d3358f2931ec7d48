package fake

import (
	"bufio"
	"fmt"
	"io"
	"net"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Memcached answers the text protocol.
type Memcached struct {
	conns  int32
	Addr   string
	Clock  *Clock
	Faults Faults

	mu      sync.Mutex
	data    map[string]*mval
	cas     uint64
	Between func()
	// Hold is called before every command with the address of its client.
	Hold func(client string)
}

type mval struct {
	s     string
	flags uint64
	exp   time.Time
	cas   uint64
}

// NewMemcached starts a server.
func NewMemcached(c *Clock) (*Memcached, error) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return nil, err
	}
	m := &Memcached{Addr: l.Addr().String(), Clock: c, data: map[string]*mval{}}
	go func() {
		for {
			conn, err := l.Accept()
			if err != nil {
				return
			}
			go m.serve(conn)
		}
	}()
	return m, nil
}

// Conns is the number of open connections.
func (m *Memcached) Conns() int { return int(atomic.LoadInt32(&m.conns)) }

// Reset forgets everything.
func (m *Memcached) Reset() {
	m.mu.Lock()
	m.data = map[string]*mval{}
	m.mu.Unlock()
	m.Faults.Plan(nil)
}

// Keys lists the live keys with their values.
func (m *Memcached) Keys() map[string]string {
	m.mu.Lock()
	defer m.mu.Unlock()
	out := map[string]string{}
	for k := range m.data {
		if v := m.get(k); v != nil {
			out[k] = v.s
		}
	}
	return out
}

func (m *Memcached) get(k string) *mval {
	v := m.data[k]
	if v != nil && !v.exp.IsZero() && !m.Clock.Now().Before(v.exp) {
		delete(m.data, k)
		return nil
	}
	return v
}

const month = 60 * 60 * 24 * 30

// exptime is memcached's rule: 0 is never, up to thirty days a period, beyond
// a time of day (of the client's clock, which is this process's: the harness
// moves both clocks alike), below 0 already over.
func (m *Memcached) exptime(s string) (time.Time, bool) {
	n, err := strconv.ParseInt(s, 10, 32)
	if err != nil {
		return time.Time{}, false
	}
	switch {
	case n == 0:
		return time.Time{}, true
	case n < 0:
		return m.Clock.Now().Add(-time.Second), true
	case n <= month:
		return m.Clock.Now().Add(time.Duration(n) * time.Second), true
	}
	return m.Clock.Now().Add(time.Until(time.Unix(n, 0))), true
}

func (m *Memcached) serve(c net.Conn) {
	atomic.AddInt32(&m.conns, 1)
	defer atomic.AddInt32(&m.conns, -1)
	defer c.Close()
	b := bufio.NewReader(c)
	for {
		line, err := b.ReadString('\n')
		if err != nil {
			return
		}
		line = strings.TrimRight(line, "\r\n")
		args := strings.Fields(line)
		if len(args) == 0 {
			continue
		}
		var body string
		switch args[0] {
		case "set", "add", "replace", "append", "prepend", "cas":
			if len(args) < 5 {
				io.WriteString(c, "ERROR\r\n")
				return
			}
			n, err := strconv.Atoi(args[4])
			if err != nil || n < 0 || n > 1<<26 {
				io.WriteString(c, "CLIENT_ERROR bad data chunk\r\n")
				return
			}
			buf := make([]byte, n+2)
			if _, err := io.ReadFull(b, buf); err != nil {
				return
			}
			if string(buf[n:]) != "\r\n" {
				io.WriteString(c, "CLIENT_ERROR bad data chunk\r\n")
				return
			}
			body = string(buf[:n])
		}
		f := m.Faults.next(line)
		if m.Hold != nil {
			m.Hold(c.RemoteAddr().String())
		}
		if m.Between != nil {
			m.Between()
		}
		var out string
		switch f {
		case CutBefore:
			return
		case ErrBefore:
			out = "SERVER_ERROR injected fault\r\n"
		default:
			out = m.command(args, body)
		}
		switch f {
		case CutAfter:
			return
		case ErrAfter:
			out = "SERVER_ERROR injected fault\r\n"
		}
		if _, err := io.WriteString(c, out); err != nil {
			return
		}
	}
}

func (m *Memcached) command(args []string, body string) string {
	m.mu.Lock()
	defer m.mu.Unlock()
	for i, a := range args {
		if i > 0 && len(a) > 250 {
			return "CLIENT_ERROR bad command line format\r\n"
		}
	}
	switch args[0] {
	case "get", "gets", "gat", "gats":
		keys := args[1:]
		touch := strings.HasPrefix(args[0], "gat")
		var exp time.Time
		if touch {
			var ok bool
			if exp, ok = m.exptime(args[1]); !ok {
				return "CLIENT_ERROR invalid exptime argument\r\n"
			}
			keys = args[2:]
		}
		out := ""
		for _, k := range keys {
			v := m.get(k)
			if v == nil {
				continue
			}
			if touch {
				v.exp = exp
			}
			if strings.HasSuffix(args[0], "s") {
				out += fmt.Sprintf("VALUE %s %d %d %d\r\n%s\r\n", k, v.flags, len(v.s), v.cas, v.s)
			} else {
				out += fmt.Sprintf("VALUE %s %d %d\r\n%s\r\n", k, v.flags, len(v.s), v.s)
			}
		}
		return out + "END\r\n"
	case "set", "add", "replace", "append", "prepend", "cas":
		k := args[1]
		fl, err := strconv.ParseUint(args[2], 10, 32)
		if err != nil {
			return "CLIENT_ERROR bad command line format\r\n"
		}
		exp, ok := m.exptime(args[3])
		if !ok {
			return "CLIENT_ERROR bad command line format\r\n"
		}
		old := m.get(k)
		m.cas++
		switch args[0] {
		case "add":
			if old != nil {
				return "NOT_STORED\r\n"
			}
		case "replace":
			if old == nil {
				return "NOT_STORED\r\n"
			}
		case "append", "prepend":
			if old == nil {
				return "NOT_STORED\r\n"
			}
			if args[0] == "append" {
				old.s += body
			} else {
				old.s = body + old.s
			}
			old.cas = m.cas
			return "STORED\r\n"
		case "cas":
			if old == nil {
				return "NOT_FOUND\r\n"
			}
			if strconv.FormatUint(old.cas, 10) != args[5] {
				return "EXISTS\r\n"
			}
		}
		m.data[k] = &mval{s: body, flags: fl, exp: exp, cas: m.cas}
		return "STORED\r\n"
	case "delete":
		if m.get(args[1]) == nil {
			return "NOT_FOUND\r\n"
		}
		delete(m.data, args[1])
		return "DELETED\r\n"
	case "touch":
		exp, ok := m.exptime(args[2])
		if !ok {
			return "CLIENT_ERROR invalid exptime argument\r\n"
		}
		v := m.get(args[1])
		if v == nil {
			return "NOT_FOUND\r\n"
		}
		v.exp = exp
		return "TOUCHED\r\n"
	case "incr", "decr":
		d, err := strconv.ParseUint(args[2], 10, 64)
		if err != nil {
			return "CLIENT_ERROR invalid numeric delta argument\r\n"
		}
		v := m.get(args[1])
		if v == nil {
			return "NOT_FOUND\r\n"
		}
		// memcached pads a number that got shorter with spaces, in place, and
		// reads padded numbers
		n, err := strconv.ParseUint(strings.TrimRight(v.s, " "), 10, 64)
		if err != nil {
			return "CLIENT_ERROR cannot increment or decrement non-numeric value\r\n"
		}
		if args[0] == "incr" {
			n += d
		} else if d > n {
			n = 0
		} else {
			n -= d
		}
		s := strconv.FormatUint(n, 10)
		out := s + "\r\n"
		for len(s) < len(v.s) {
			s += " "
		}
		v.s = s
		m.cas++
		v.cas = m.cas
		return out
	case "flush_all":
		m.data = map[string]*mval{}
		return "OK\r\n"
	case "version":
		return "VERSION 1.6.0\r\n"
	}
	return "ERROR\r\n"
}
