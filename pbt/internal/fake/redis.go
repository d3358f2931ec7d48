package fake

import (
	"bufio"
	"errors"
	"fmt"
	"io"
	"math"
	"net"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Redis answers RESP commands.
type Redis struct {
	conns  int32
	Addr   string
	Clock  *Clock
	Faults Faults

	mu   sync.Mutex
	data map[string]*rval
	// touched counts the changes of every key, for WATCH
	touched map[string]int
	// Between is called between the commands of clients (not holding any lock).
	Between func()
	// Hold is called before every command with the address of its client.
	Hold func(client string)
}

type rval struct {
	s   string
	exp time.Time // zero: never
}

// NewRedis starts a server.
func NewRedis(c *Clock) (*Redis, error) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return nil, err
	}
	r := &Redis{Addr: l.Addr().String(), Clock: c, data: map[string]*rval{}, touched: map[string]int{}}
	go func() {
		for {
			conn, err := l.Accept()
			if err != nil {
				return
			}
			go r.serve(conn)
		}
	}()
	return r, nil
}

// Conns is the number of open connections.
func (r *Redis) Conns() int { return int(atomic.LoadInt32(&r.conns)) }

// Reset forgets everything.
func (r *Redis) Reset() {
	r.mu.Lock()
	r.data = map[string]*rval{}
	r.mu.Unlock()
	r.Faults.Plan(nil)
}

// Keys lists the live keys with their values.
func (r *Redis) Keys() map[string]string {
	r.mu.Lock()
	defer r.mu.Unlock()
	m := map[string]string{}
	for k := range r.data {
		if v := r.get(k); v != nil {
			m[k] = v.s
		}
	}
	return m
}

var errCut = errors.New("cut")

func readCommand(b *bufio.Reader) ([]string, error) {
	line, err := b.ReadString('\n')
	if err != nil {
		return nil, err
	}
	line = strings.TrimRight(line, "\r\n")
	if !strings.HasPrefix(line, "*") {
		return strings.Fields(line), nil
	}
	n, err := strconv.Atoi(line[1:])
	if err != nil || n < 0 || n > 1000 {
		return nil, errors.New("bad array")
	}
	var args []string
	for i := 0; i < n; i++ {
		line, err := b.ReadString('\n')
		if err != nil {
			return nil, err
		}
		line = strings.TrimRight(line, "\r\n")
		if !strings.HasPrefix(line, "$") {
			return nil, errors.New("bad bulk")
		}
		k, err := strconv.Atoi(line[1:])
		if err != nil || k < 0 || k > 1<<26 {
			return nil, errors.New("bad bulk length")
		}
		buf := make([]byte, k+2)
		if _, err := io.ReadFull(b, buf); err != nil {
			return nil, err
		}
		args = append(args, string(buf[:k]))
	}
	return args, nil
}

type rconn struct {
	watch map[string]int
	multi bool
	bad   bool
	queue [][]string
}

func (r *Redis) serve(c net.Conn) {
	defer c.Close()
	b := bufio.NewReader(c)
	st := &rconn{}
	atomic.AddInt32(&r.conns, 1)
	defer atomic.AddInt32(&r.conns, -1)
	for {
		args, err := readCommand(b)
		if err != nil {
			return
		}
		if len(args) == 0 {
			continue
		}
		name := strings.ToUpper(args[0])
		f := None
		if name != "PING" {
			f = r.Faults.next(strings.Join(args, " "))
			if f == ErrAfter && (name == "MULTI" || st.multi && name != "EXEC") {
				f = ErrBefore // nothing that could not be queued is done
			}
			if r.Hold != nil {
				r.Hold(c.RemoteAddr().String())
			}
			if r.Between != nil {
				r.Between()
			}
		}
		var out string
		switch f {
		case ErrBefore:
			out = "-ERR injected fault\r\n"
			if st.multi && name != "EXEC" && name != "DISCARD" {
				st.bad = true // a command that could not be queued
			} else if name == "EXEC" || name == "DISCARD" {
				st.multi, st.queue, st.bad, st.watch = false, nil, false, nil
			}
		case CutBefore:
			return
		default:
			out = r.command(st, args)
		}
		switch f {
		case ErrAfter:
			out = "-ERR injected fault\r\n"
		case CutAfter:
			return
		}
		if _, err := io.WriteString(c, out); err != nil {
			return
		}
	}
}

func (r *Redis) get(k string) *rval {
	v := r.data[k]
	if v != nil && !v.exp.IsZero() && !r.Clock.Now().Before(v.exp) {
		delete(r.data, k)
		r.touched[k]++
		return nil
	}
	return v
}

const (
	rOK     = "+OK\r\n"
	rNil    = "$-1\r\n"
	rSyntax = "-ERR syntax error\r\n"
	rNotInt = "-ERR value is not an integer or out of range\r\n"
)

func rInt(n int64) string   { return fmt.Sprintf(":%d\r\n", n) }
func rBulk(s string) string { return fmt.Sprintf("$%d\r\n%s\r\n", len(s), s) }

func (r *Redis) command(st *rconn, args []string) string {
	name := strings.ToUpper(args[0])
	r.mu.Lock()
	defer r.mu.Unlock()
	switch name {
	case "MULTI":
		if st.multi {
			return "-ERR MULTI calls can not be nested\r\n"
		}
		st.multi = true
		return rOK
	case "DISCARD":
		if !st.multi {
			return "-ERR DISCARD without MULTI\r\n"
		}
		st.multi, st.queue, st.bad, st.watch = false, nil, false, nil
		return rOK
	case "EXEC":
		if !st.multi {
			return "-ERR EXEC without MULTI\r\n"
		}
		q, bad, w := st.queue, st.bad, st.watch
		st.multi, st.queue, st.bad, st.watch = false, nil, false, nil
		if bad {
			return "-EXECABORT Transaction discarded because of previous errors.\r\n"
		}
		for k, n := range w {
			r.get(k)
			if r.touched[k] != n {
				return "*-1\r\n"
			}
		}
		out := fmt.Sprintf("*%d\r\n", len(q))
		for _, a := range q {
			out += r.plain(a)
		}
		return out
	case "WATCH":
		if st.multi {
			return "-ERR WATCH inside MULTI is not allowed\r\n"
		}
		if st.watch == nil {
			st.watch = map[string]int{}
		}
		for _, k := range args[1:] {
			r.get(k)
			if _, ok := st.watch[k]; !ok {
				st.watch[k] = r.touched[k]
			}
		}
		return rOK
	case "UNWATCH":
		st.watch = nil
		return rOK
	}
	if st.multi {
		st.queue = append(st.queue, args)
		return "+QUEUED\r\n"
	}
	return r.plain(args)
}

// seconds reads a whole number the way Redis does.
func seconds(s string) (int64, bool) {
	n, err := strconv.ParseInt(s, 10, 64)
	return n, err == nil
}

func (r *Redis) expireIn(n int64, unit time.Duration) time.Time {
	max := int64(math.MaxInt64 / int64(unit))
	now := r.Clock.Now()
	for n > max { // beyond what a Duration can hold
		now = now.Add(time.Duration(max) * unit)
		n -= max
		if now.Year() > 100000 {
			break
		}
	}
	return now.Add(time.Duration(n) * unit)
}

func (r *Redis) plain(args []string) string {
	name := strings.ToUpper(args[0])
	arity := func(n int) bool { return len(args) == n }
	bad := "-ERR wrong number of arguments for '" + strings.ToLower(name) + "' command\r\n"
	const maxSecs = math.MaxInt64 / 1000 // Redis keeps milliseconds
	switch name {
	case "PING":
		return "+PONG\r\n"
	case "GET":
		if !arity(2) {
			return bad
		}
		v := r.get(args[1])
		if v == nil {
			return rNil
		}
		return rBulk(v.s)
	case "SET", "SETEX", "PSETEX", "SETNX":
		if len(args) < 3 {
			return bad
		}
		k := args[1]
		if name == "SETNX" {
			if r.get(k) != nil {
				return rInt(0)
			}
			r.data[k] = &rval{s: args[2]}
			r.touched[k]++
			return rInt(1)
		}
		if name != "SET" {
			if !arity(4) {
				return bad
			}
			n, ok := seconds(args[2])
			if !ok {
				return rNotInt
			}
			unit := time.Second
			if name == "PSETEX" {
				unit = time.Millisecond
			}
			if n <= 0 || (name == "SETEX" && n > maxSecs) {
				return "-ERR invalid expire time in '" + strings.ToLower(name) + "' command\r\n"
			}
			r.data[k] = &rval{s: args[3], exp: r.expireIn(n, unit)}
			r.touched[k]++
			return rOK
		}
		v := &rval{s: args[2]}
		old := r.get(k)
		for i := 3; i < len(args); i++ {
			switch o := strings.ToUpper(args[i]); o {
			case "EX", "PX":
				i++
				if i >= len(args) {
					return rSyntax
				}
				n, ok := seconds(args[i])
				if !ok {
					return rNotInt
				}
				unit := time.Second
				if o == "PX" {
					unit = time.Millisecond
				}
				if n <= 0 || (o == "EX" && n > maxSecs) {
					return "-ERR invalid expire time in 'set' command\r\n"
				}
				v.exp = r.expireIn(n, unit)
			case "KEEPTTL":
				if old != nil {
					v.exp = old.exp
				}
			case "NX":
				if old != nil {
					return rNil
				}
			case "XX":
				if old == nil {
					return rNil
				}
			default:
				return rSyntax
			}
		}
		r.data[k] = v
		r.touched[k]++
		return rOK
	case "EXPIRE", "PEXPIRE":
		if !arity(3) {
			return bad
		}
		n, ok := seconds(args[2])
		if !ok {
			return rNotInt
		}
		unit := time.Second
		if name == "PEXPIRE" {
			unit = time.Millisecond
		}
		if name == "EXPIRE" && n > maxSecs {
			return "-ERR invalid expire time in 'expire' command\r\n"
		}
		v := r.get(args[1])
		if v == nil {
			return rInt(0)
		}
		r.touched[args[1]]++
		if n <= 0 {
			delete(r.data, args[1])
			return rInt(1)
		}
		v.exp = r.expireIn(n, unit)
		return rInt(1)
	case "PERSIST":
		if !arity(2) {
			return bad
		}
		v := r.get(args[1])
		if v == nil || v.exp.IsZero() {
			return rInt(0)
		}
		v.exp = time.Time{}
		r.touched[args[1]]++
		return rInt(1)
	case "TTL", "PTTL":
		if !arity(2) {
			return bad
		}
		v := r.get(args[1])
		if v == nil {
			return rInt(-2)
		}
		if v.exp.IsZero() {
			return rInt(-1)
		}
		d := v.exp.Sub(r.Clock.Now())
		if name == "PTTL" {
			return rInt(int64(d / time.Millisecond))
		}
		return rInt(int64((d + time.Second/2) / time.Second))
	case "DEL", "UNLINK":
		if len(args) < 2 {
			return bad
		}
		var n int64
		for _, k := range args[1:] {
			if r.get(k) != nil {
				delete(r.data, k)
				r.touched[k]++
				n++
			}
		}
		return rInt(n)
	case "EXISTS":
		if len(args) < 2 {
			return bad
		}
		var n int64
		for _, k := range args[1:] {
			if r.get(k) != nil {
				n++
			}
		}
		return rInt(n)
	case "INCR", "DECR", "INCRBY", "DECRBY":
		by := int64(1)
		if strings.HasSuffix(name, "BY") {
			if !arity(3) {
				return bad
			}
			n, ok := seconds(args[2])
			if !ok {
				return rNotInt
			}
			by = n
		} else if !arity(2) {
			return bad
		}
		if strings.HasPrefix(name, "DECR") {
			if by == math.MinInt64 {
				return "-ERR decrement would overflow\r\n"
			}
			by = -by
		}
		v := r.get(args[1])
		if v == nil {
			v = &rval{s: "0"}
		}
		n, err := strconv.ParseInt(v.s, 10, 64)
		if err != nil || strconv.FormatInt(n, 10) != v.s {
			return rNotInt
		}
		if (by > 0 && n > math.MaxInt64-by) || (by < 0 && n < math.MinInt64-by) {
			return "-ERR increment or decrement would overflow\r\n"
		}
		v.s = strconv.FormatInt(n+by, 10)
		r.data[args[1]] = v
		r.touched[args[1]]++
		return rInt(n + by)
	case "FLUSHDB", "FLUSHALL":
		for k := range r.data {
			r.touched[k]++
		}
		r.data = map[string]*rval{}
		return rOK
	case "GETSET", "GETDEL":
		if n := map[string]int{"GETSET": 3, "GETDEL": 2}[name]; !arity(n) {
			return bad
		}
		k := args[1]
		old := r.get(k)
		if name == "GETSET" {
			r.data[k] = &rval{s: args[2]}
		} else {
			delete(r.data, k)
		}
		if name == "GETSET" || old != nil {
			r.touched[k]++
		}
		if old == nil {
			return rNil
		}
		return rBulk(old.s)
	case "MGET":
		if len(args) < 2 {
			return bad
		}
		out := fmt.Sprintf("*%d\r\n", len(args)-1)
		for _, k := range args[1:] {
			if v := r.get(k); v != nil {
				out += rBulk(v.s)
			} else {
				out += rNil
			}
		}
		return out
	case "STRLEN":
		if !arity(2) {
			return bad
		}
		if v := r.get(args[1]); v != nil {
			return rInt(int64(len(v.s)))
		}
		return rInt(0)
	case "EXPIREAT", "PEXPIREAT":
		if !arity(3) {
			return bad
		}
		n, ok := seconds(args[2])
		if !ok {
			return rNotInt
		}
		v := r.get(args[1])
		if v == nil {
			return rInt(0)
		}
		r.touched[args[1]]++
		v.exp = time.Unix(n, 0)
		if name == "PEXPIREAT" {
			v.exp = time.UnixMilli(n)
		}
		if !v.exp.After(r.Clock.Now()) {
			delete(r.data, args[1])
		}
		return rInt(1)
	case "ECHO":
		if !arity(2) {
			return bad
		}
		return rBulk(args[1])
	case "SELECT":
		return rOK
	case "KEYS", "SCAN", "EVAL", "EVALSHA":
		return "-ERR not supported by the harness\r\n"
	}
	return "-ERR unknown command '" + args[0] + "'\r\n"
}
