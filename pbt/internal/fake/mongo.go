package fake

import (
	"bufio"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/globalsign/mgo/bson"
)

// Mongo answers the MongoDB wire protocol of 2.6 (OP_QUERY and commands).
// Its clock is the real one: Advance shifts every stored time into the past
// instead, because the client computes and compares with its own clock.
type Mongo struct {
	conns  int32
	Addr   string
	Faults Faults

	mu    sync.Mutex
	colls map[string]*coll
	// Between is called between the commands of clients (not holding any lock).
	Between func()
	// Hold is called before every command with the address of its client.
	Hold func(client string)
}

type coll struct {
	docs   []bson.M
	ttl    map[string]time.Duration
	unique map[string]bool
}

// NewMongo starts a server.
func NewMongo() (*Mongo, error) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return nil, err
	}
	m := &Mongo{Addr: l.Addr().String(), colls: map[string]*coll{}}
	go func() {
		for {
			conn, err := l.Accept()
			if err != nil {
				return
			}
			go m.serve(conn)
		}
	}()
	return m, nil
}

// Conns is the number of open connections.
func (m *Mongo) Conns() int { return int(atomic.LoadInt32(&m.conns)) }

// Reset forgets everything.
func (m *Mongo) Reset() {
	m.mu.Lock()
	m.colls = map[string]*coll{}
	m.mu.Unlock()
	m.Faults.Plan(nil)
}

// Advance makes everything stored d older.
func (m *Mongo) Advance(d time.Duration) {
	m.mu.Lock()
	defer m.mu.Unlock()
	for _, c := range m.colls {
		for _, doc := range c.docs {
			for k, v := range doc {
				if t, ok := v.(time.Time); ok {
					doc[k] = t.Add(-d)
				}
			}
		}
	}
}

// Sweep does what the monitor of TTL indexes does once a minute.
func (m *Mongo) Sweep() {
	m.mu.Lock()
	defer m.mu.Unlock()
	for _, c := range m.colls {
		for f, d := range c.ttl {
			var keep []bson.M
			for _, doc := range c.docs {
				if t, ok := doc[f].(time.Time); ok && !time.Now().Before(t.Add(d)) {
					continue
				}
				keep = append(keep, doc)
			}
			c.docs = keep
		}
	}
}

// Len is the number of documents of a collection.
func (m *Mongo) Len(name string) int {
	m.mu.Lock()
	defer m.mu.Unlock()
	return len(m.coll(name).docs)
}

func (m *Mongo) coll(name string) *coll {
	c := m.colls[name]
	if c == nil {
		c = &coll{ttl: map[string]time.Duration{}, unique: map[string]bool{}}
		m.colls[name] = c
	}
	return c
}

func cstr(b []byte) (string, []byte, error) {
	for i, x := range b {
		if x == 0 {
			return string(b[:i]), b[i+1:], nil
		}
	}
	return "", nil, errors.New("bad cstring")
}

func (m *Mongo) serve(c net.Conn) {
	atomic.AddInt32(&m.conns, 1)
	defer atomic.AddInt32(&m.conns, -1)
	defer c.Close()
	b := bufio.NewReader(c)
	for {
		head := make([]byte, 16)
		if _, err := io.ReadFull(b, head); err != nil {
			return
		}
		n := int(binary.LittleEndian.Uint32(head))
		id := binary.LittleEndian.Uint32(head[4:])
		op := binary.LittleEndian.Uint32(head[12:])
		if n < 16 || n > 1<<26 {
			return
		}
		body := make([]byte, n-16)
		if _, err := io.ReadFull(b, body); err != nil {
			return
		}
		if op == 2007 { // kill cursors
			continue
		}
		if op != 2004 || len(body) < 4 {
			return
		}
		name, rest, err := cstr(body[4:])
		if err != nil || len(rest) < 12 {
			return
		}
		skip, limit := int(int32(binary.LittleEndian.Uint32(rest))), int(int32(binary.LittleEndian.Uint32(rest[4:])))
		rest = rest[8:]
		dl := int(binary.LittleEndian.Uint32(rest))
		if dl < 5 || dl > len(rest) {
			return
		}
		var q bson.D
		if err := bson.Unmarshal(rest[:dl], &q); err != nil {
			return
		}
		if len(q) > 0 && q[0].Name == "$query" {
			q = toD(q[0].Value)
		}
		f := None
		what := ""
		if strings.HasSuffix(name, ".$cmd") && len(q) > 0 {
			what = q[0].Name
		} else {
			what = "find"
		}
		switch strings.ToLower(what) {
		case "ismaster", "ping", "endsessions", "buildinfo", "hello", "getnonce":
		default:
			f = m.Faults.next(fmt.Sprintf("%s %v", what, q))
			if m.Hold != nil {
				m.Hold(c.RemoteAddr().String())
			}
			if m.Between != nil {
				m.Between()
			}
		}
		var docs []interface{}
		var flags uint32
		switch f {
		case CutBefore:
			return
		case ErrBefore:
		default:
			if what == "find" && !strings.HasSuffix(name, ".$cmd") {
				docs = m.find(name, q, skip, limit)
			} else {
				docs = []interface{}{m.command(strings.TrimSuffix(name, ".$cmd"), q, func() {
					time.Sleep(100 * time.Microsecond)
					if m.Hold != nil {
						m.Hold(c.RemoteAddr().String())
					}
				})}
			}
		}
		switch f {
		case CutAfter:
			return
		case ErrBefore, ErrAfter:
			if what == "find" {
				flags = 2 // query failure
				docs = []interface{}{bson.D{{Name: "$err", Value: "injected fault"}, {Name: "code", Value: 9001}}}
			} else {
				docs = []interface{}{bson.M{"ok": 0, "errmsg": "injected fault", "code": 9001}}
			}
		}
		var out []byte
		for _, d := range docs {
			x, err := bson.Marshal(d)
			if err != nil {
				return
			}
			out = append(out, x...)
		}
		h := make([]byte, 36)
		binary.LittleEndian.PutUint32(h, uint32(36+len(out)))
		binary.LittleEndian.PutUint32(h[4:], id+1)
		binary.LittleEndian.PutUint32(h[8:], id)
		binary.LittleEndian.PutUint32(h[12:], 1)
		binary.LittleEndian.PutUint32(h[16:], flags)
		binary.LittleEndian.PutUint32(h[32:], uint32(len(docs)))
		if _, err := c.Write(append(h, out...)); err != nil {
			return
		}
	}
}

func toD(v interface{}) bson.D {
	switch x := v.(type) {
	case bson.D:
		return x
	case bson.M:
		var d bson.D
		for k, v := range x {
			d = append(d, bson.DocElem{Name: k, Value: v})
		}
		return d
	}
	return nil
}

func get(d bson.D, name string) interface{} {
	for _, e := range d {
		if e.Name == name {
			return e.Value
		}
	}
	return nil
}

func toInt(v interface{}) (int64, bool) {
	switch x := v.(type) {
	case int:
		return int64(x), true
	case int32:
		return int64(x), true
	case int64:
		return x, true
	}
	return 0, false
}

func equal(a, b interface{}) bool {
	if x, ok := toInt(a); ok {
		if y, ok := toInt(b); ok {
			return x == y
		}
	}
	if x, ok := a.(time.Time); ok {
		y, ok := b.(time.Time)
		return ok && x.Equal(y)
	}
	return reflect.DeepEqual(a, b)
}

// less compares values of one type; ok is false for different types, which
// never match a comparison.
func less(a, b interface{}) (l, ok bool) {
	if x, ok := a.(time.Time); ok {
		if y, ok := b.(time.Time); ok {
			return x.Before(y), true
		}
		return false, false
	}
	if x, ok := toInt(a); ok {
		if y, ok := toInt(b); ok {
			return x < y, true
		}
		return false, false
	}
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x < y, true
		}
	}
	return false, false
}

func matches(doc bson.M, q bson.D) bool {
	for _, e := range q {
		switch e.Name {
		case "$and", "$or", "$nor":
			list, _ := e.Value.([]interface{})
			n := 0
			for _, x := range list {
				if matches(doc, toD(x)) {
					n++
				}
			}
			if (e.Name == "$and" && n < len(list)) || (e.Name == "$or" && n == 0) || (e.Name == "$nor" && n > 0) {
				return false
			}
			continue
		}
		v, has := doc[e.Name]
		if ops := toD(e.Value); ops != nil && len(ops) > 0 && strings.HasPrefix(ops[0].Name, "$") {
			for _, o := range ops {
				l, ok := less(v, o.Value)
				eq := equal(v, o.Value) // a missing field is a null
				pass := false
				switch o.Name {
				case "$eq":
					pass = eq
				case "$ne":
					pass = !eq
				case "$lt":
					pass = ok && l
				case "$lte":
					pass = ok && (l || eq)
				case "$gt":
					pass = ok && !l && !eq
				case "$gte":
					pass = ok && !l
				case "$exists":
					want, _ := o.Value.(bool)
					pass = has == want
				case "$in", "$nin":
					list, _ := o.Value.([]interface{})
					for _, x := range list {
						pass = pass || equal(v, x)
					}
					pass = pass == (o.Name == "$in")
				case "$not":
					pass = !matches(doc, bson.D{{Name: e.Name, Value: o.Value}})
				default:
					panic("fake mongo: operator " + o.Name)
				}
				if !pass {
					return false
				}
			}
			continue
		}
		if !equal(v, e.Value) {
			return false
		}
	}
	return true
}

func clone(d bson.D) bson.M {
	m := bson.M{}
	for _, e := range d {
		m[e.Name] = e.Value
	}
	return m
}

func (m *Mongo) find(name string, q bson.D, skip, limit int) []interface{} {
	m.mu.Lock()
	defer m.mu.Unlock()
	var out []interface{}
	for _, d := range m.coll(name).docs {
		if matches(d, q) {
			if skip > 0 {
				skip--
				continue
			}
			x := bson.M{}
			for k, v := range d {
				x[k] = v
			}
			out = append(out, x)
			if len(out) == limit || len(out) == -limit {
				break
			}
		}
	}
	return out
}

// command does a command; it calls pause where other commands may come between.
func (m *Mongo) command(db string, q bson.D, pause func()) bson.M {
	m.mu.Lock()
	defer m.mu.Unlock()
	if len(q) == 0 {
		return bson.M{"ok": 0, "errmsg": "empty command"}
	}
	target, _ := q[0].Value.(string)
	c := m.coll(db + "." + target)
	switch q[0].Name {
	case "isMaster", "ismaster":
		return bson.M{"ok": 1, "ismaster": true, "maxWireVersion": 3, "minWireVersion": 0, "maxBsonObjectSize": 16 << 20}
	case "ping", "endSessions":
		return bson.M{"ok": 1}
	case "getnonce":
		return bson.M{"ok": 1, "nonce": "2375531c32080ae8"}
	case "getLastError", "getlasterror":
		return bson.M{"ok": 1, "n": 0}
	case "createIndexes":
		list, _ := get(q, "indexes").([]interface{})
		for _, x := range list {
			d := toD(x)
			if u, _ := get(d, "unique").(bool); u {
				if keys := toD(get(d, "key")); len(keys) == 1 {
					c.unique[keys[0].Name] = true
				}
			}
			if s, ok := toInt(get(d, "expireAfterSeconds")); ok {
				for _, k := range toD(get(d, "key")) {
					c.ttl[k.Name] = time.Duration(s) * time.Second
				}
			}
		}
		return bson.M{"ok": 1}
	case "insert":
		list, _ := get(q, "documents").([]interface{})
		for _, x := range list {
			d := clone(toD(x))
			if _, ok := d["_id"]; !ok {
				d["_id"] = bson.NewObjectId()
			}
			for _, o := range c.docs {
				if c.duplicate(o, d) {
					return bson.M{"ok": 1, "n": 0, "writeErrors": []bson.M{{"index": 0, "code": 11000, "errmsg": "E11000 duplicate key error"}}}
				}
			}
			c.docs = append(c.docs, d)
		}
		return bson.M{"ok": 1, "n": len(list)}
	case "update":
		list, _ := get(q, "updates").([]interface{})
		n, mod := 0, 0
		var ups []bson.M
		for i, x := range list {
			d := toD(x)
			sel, u := toD(get(d, "q")), toD(get(d, "u"))
			upsert, _ := get(d, "upsert").(bool)
			multi, _ := get(d, "multi").(bool)
			hit := false
			for j, doc := range c.docs {
				if !matches(doc, sel) {
					continue
				}
				hit = true
				n++
				nd, ch, msg := apply(doc, u)
				if msg != "" {
					return bson.M{"ok": 1, "n": 0, "nModified": 0, "writeErrors": []bson.M{{"index": i, "code": 14, "errmsg": msg}}}
				}
				if ch {
					mod++
				}
				c.docs[j] = nd
				if !multi {
					break
				}
			}
			if !hit && upsert {
				base := bson.M{}
				guarded := false
				for _, e := range sel {
					if ops := toD(e.Value); ops != nil {
						continue
					}
					base[e.Name] = e.Value
					guarded = guarded || e.Name == "_id" || c.unique[e.Name]
				}
				if !guarded {
					// nothing keeps another client from inserting the same before this one does
					m.mu.Unlock()
					pause()
					m.mu.Lock()
				}
				nd, _, msg := apply(base, u)
				if msg != "" {
					return bson.M{"ok": 1, "n": 0, "writeErrors": []bson.M{{"index": i, "code": 14, "errmsg": msg}}}
				}
				if _, ok := nd["_id"]; !ok {
					if id, ok := base["_id"]; ok {
						nd["_id"] = id
					} else {
						nd["_id"] = bson.NewObjectId()
					}
				}
				for _, o := range c.docs {
					if c.duplicate(o, nd) {
						return bson.M{"ok": 1, "n": 0, "writeErrors": []bson.M{{"index": i, "code": 11000, "errmsg": "E11000 duplicate key error"}}}
					}
				}
				c.docs = append(c.docs, nd)
				n++
				ups = append(ups, bson.M{"index": i, "_id": nd["_id"]})
			}
		}
		r := bson.M{"ok": 1, "n": n, "nModified": mod}
		if ups != nil {
			r["upserted"] = ups
		}
		return r
	case "delete":
		list, _ := get(q, "deletes").([]interface{})
		n := 0
		for _, x := range list {
			d := toD(x)
			sel := toD(get(d, "q"))
			limit, _ := toInt(get(d, "limit"))
			var keep []bson.M
			for _, doc := range c.docs {
				if matches(doc, sel) && (limit == 0 || n == 0) {
					n++
					continue
				}
				keep = append(keep, doc)
			}
			c.docs = keep
		}
		return bson.M{"ok": 1, "n": n}
	case "drop":
		c.docs = nil
		return bson.M{"ok": 1}
	case "count":
		n, sel := 0, toD(get(q, "query"))
		for _, doc := range c.docs {
			if matches(doc, sel) {
				n++
			}
		}
		return bson.M{"ok": 1, "n": n}
	case "findAndModify", "findandmodify":
		return m.findAndModify(db, target, q, pause)
	}
	return bson.M{"ok": 0, "errmsg": "no such command: " + q[0].Name, "code": 59}
}

// duplicate tells whether two documents can not be in the collection together.
func (c *coll) duplicate(a, b bson.M) bool {
	if equal(a["_id"], b["_id"]) {
		return true
	}
	for f := range c.unique {
		if equal(a[f], b[f]) {
			return true
		}
	}
	return false
}

// apply does one update.
func apply(doc bson.M, u bson.D) (bson.M, bool, string) {
	if len(u) == 0 || !strings.HasPrefix(u[0].Name, "$") {
		nd := clone(u)
		if id, ok := doc["_id"]; ok {
			if x, has := nd["_id"]; has && !equal(x, id) {
				return nil, false, "the (immutable) field '_id' was found to have been altered"
			}
			nd["_id"] = id
		}
		return nd, true, ""
	}
	nd := bson.M{}
	for k, v := range doc {
		nd[k] = v
	}
	for _, op := range u {
		for _, e := range toD(op.Value) {
			switch op.Name {
			case "$set":
				nd[e.Name] = e.Value
			case "$setOnInsert":
			case "$unset":
				delete(nd, e.Name)
			case "$max", "$min":
				if v, has := nd[e.Name]; has {
					a, b := v, e.Value
					if op.Name == "$min" {
						a, b = b, a
					}
					if l, ok := less(a, b); ok && !l {
						continue
					}
				}
				nd[e.Name] = e.Value
			case "$rename":
				if v, has := nd[e.Name]; has {
					delete(nd, e.Name)
					nd[fmt.Sprint(e.Value)] = v
				}
			case "$inc":
				by, ok := toInt(e.Value)
				if f, isf := e.Value.(float64); isf {
					by, ok = int64(f), true
				}
				if !ok {
					return nil, false, "Cannot increment with non-numeric argument"
				}
				v, has := nd[e.Name]
				if !has {
					nd[e.Name] = by
					continue
				}
				switch x := v.(type) {
				case float64:
					nd[e.Name] = x + float64(by)
				default:
					n, ok := toInt(v)
					if !ok {
						return nil, false, "Cannot apply $inc to a value of non-numeric type"
					}
					if (by > 0 && n+by < n) || (by < 0 && n+by > n) {
						return nil, false, "Failed to apply $inc operations to current value"
					}
					nd[e.Name] = n + by
				}
			default:
				return nil, false, "Unknown modifier: " + op.Name
			}
		}
	}
	return nd, true, ""
}

func (m *Mongo) findAndModify(db, target string, q bson.D, pause func()) bson.M {
	c := m.coll(db + "." + target)
	sel := toD(get(q, "query"))
	remove, _ := get(q, "remove").(bool)
	isNew, _ := get(q, "new").(bool)
	upsert, _ := get(q, "upsert").(bool)
	for i, doc := range c.docs {
		if !matches(doc, sel) {
			continue
		}
		if remove {
			c.docs = append(append([]bson.M{}, c.docs[:i]...), c.docs[i+1:]...)
			return bson.M{"ok": 1, "value": doc, "lastErrorObject": bson.M{"n": 1}}
		}
		nd, _, msg := apply(doc, toD(get(q, "update")))
		if msg != "" {
			return bson.M{"ok": 0, "errmsg": msg, "code": 14}
		}
		c.docs[i] = nd
		if isNew {
			doc = nd
		}
		return bson.M{"ok": 1, "value": doc, "lastErrorObject": bson.M{"n": 1, "updatedExisting": true}}
	}
	if remove || !upsert {
		return bson.M{"ok": 1, "value": nil, "lastErrorObject": bson.M{"n": 0, "updatedExisting": false}}
	}
	m.mu.Unlock()
	up := m.command(db, bson.D{{Name: "update", Value: target}, {Name: "updates", Value: []interface{}{
		bson.D{{Name: "q", Value: sel}, {Name: "u", Value: toD(get(q, "update"))}, {Name: "upsert", Value: true}}}}}, pause)
	m.mu.Lock()
	if errs, ok := up["writeErrors"].([]bson.M); ok {
		return bson.M{"ok": 0, "errmsg": errs[0]["errmsg"], "code": errs[0]["code"]}
	}
	var doc interface{}
	if ups, ok := up["upserted"].([]bson.M); ok && isNew {
		for _, d := range c.docs {
			if equal(d["_id"], ups[0]["_id"]) {
				doc = d
			}
		}
	}
	return bson.M{"ok": 1, "value": doc, "lastErrorObject": bson.M{"n": 1, "updatedExisting": false}}
}
