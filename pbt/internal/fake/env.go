package fake

import (
	"errors"
	"fmt"
	"sync"
	"time"

	"github.com/bradfitz/gomemcache/memcache"
	"github.com/globalsign/mgo"
	"github.com/mediocregopher/radix.v2/pool"
	"github.com/mediocregopher/radix.v2/redis"
	"github.com/wujiu2020/strip/caches"
)

// Env has one server of every kind and clients for them.
type Env struct {
	Clock *Clock
	Redis *Redis
	Mem   *Memcached
	Mongo *Mongo

	Pool   *pool.Pool
	Client *memcache.Client
	Sess   *mgo.Session

	downMu  sync.Mutex
	down    bool
	refused int
}

// Kinds are the kinds of servers.
var Kinds = []string{"redis", "memcached", "mongo"}

var (
	envOnce sync.Once
	env     *Env
	envErr  error
)

// Start starts the servers, once.
func Start() (*Env, error) {
	envOnce.Do(func() {
		e := &Env{Clock: &Clock{}}
		if e.Redis, envErr = NewRedis(e.Clock); envErr != nil {
			return
		}
		if e.Mem, envErr = NewMemcached(e.Clock); envErr != nil {
			return
		}
		if e.Mongo, envErr = NewMongo(); envErr != nil {
			return
		}
		if e.Pool, envErr = pool.NewCustom("tcp", e.Redis.Addr, 2, e.dial, pool.PingInterval(0)); envErr != nil {
			return
		}
		for e.Pool.Avail() < 2 { // it connects in the background
			time.Sleep(time.Millisecond)
		}
		e.Client = memcache.New(e.Mem.Addr)
		e.Client.Timeout = 20 * time.Second
		if e.Sess, envErr = mgo.DialWithTimeout("mongodb://"+e.Mongo.Addr, 20*time.Second); envErr != nil {
			return
		}
		env = e
	})
	return env, envErr
}

func (e *Env) dial(network, addr string) (*redis.Client, error) {
	e.downMu.Lock()
	defer e.downMu.Unlock()
	if e.down {
		e.refused++
		return nil, errors.New("injected failure: connection refused")
	}
	return redis.Dial(network, addr)
}

// Down closes the connections to Redis and refuses new ones.
func (e *Env) Down() {
	e.downMu.Lock()
	e.down = true
	e.downMu.Unlock()
	for {
		conn, err := e.Pool.Get()
		if err != nil {
			break
		}
		conn.Close()
	}
	e.downMu.Lock()
	e.refused = 0
	e.downMu.Unlock()
}

// Up accepts connections again; it tells how many were refused.
func (e *Env) Up() int {
	e.downMu.Lock()
	defer e.downMu.Unlock()
	n := e.refused
	e.down, e.refused = false, 0
	return n
}

// Reset forgets everything stored, the faults and the time.
func (e *Env) Reset() {
	e.Redis.Reset()
	e.Mem.Reset()
	e.Mongo.Reset()
	e.Clock.Reset()
	e.Up()
	e.Between(nil)
}

// Between sets what is called between commands.
func (e *Env) Between(f func()) {
	e.Redis.Between, e.Mem.Between, e.Mongo.Between = f, f, f
}

// Advance moves the time of all servers.
func (e *Env) Advance(d time.Duration) {
	e.Clock.Advance(d)
	e.Mongo.Advance(d)
}

// Now is the servers' time.
func (e *Env) Now() time.Time { return e.Clock.Now() }

// Faults is the fault plan of one kind of server.
func (e *Env) Faults(kind string) *Faults {
	switch kind {
	case "redis":
		return &e.Redis.Faults
	case "memcached":
		return &e.Mem.Faults
	}
	return &e.Mongo.Faults
}

// Conns is the number of open connections to one kind of server.
func (e *Env) Conns(kind string) int {
	switch kind {
	case "redis":
		return e.Redis.Conns()
	case "memcached":
		return e.Mem.Conns()
	}
	return e.Mongo.Conns()
}

// Connect is the connection function MongoDB caches get.
func (e *Env) Connect(coll string) func(func(c *mgo.Collection) error) error {
	return func(f func(c *mgo.Collection) error) error {
		s := e.Sess.Copy()
		defer s.Close()
		return f(s.DB("db").C(coll))
	}
}

// Cache makes a cache; for MongoDB the prefix names the collection.
func (e *Env) Cache(kind, prefix string, autoExpire bool) (caches.CacheProvider, error) {
	switch kind {
	case "redis":
		return caches.NewRedisProvider(caches.RedisConfig{KeyPrefix: prefix, Client: e.Pool})
	case "memcached":
		return caches.NewMcProvider(caches.McConfig{KeyPrefix: prefix, Client: e.Client})
	case "mongo":
		e.Sess.ResetIndexCache()
		return caches.NewMgoProvider(caches.MgoConfig{KeyField: "_id", ValueField: "value", ExpiredAtField: "expiredAt", AutoExpire: autoExpire, Connect: e.Connect("c" + prefix)})
	case "mongo-key":
		e.Sess.ResetIndexCache()
		return caches.NewMgoProvider(caches.MgoConfig{KeyField: "key", ValueField: "v", ExpiredAtField: "exp", AutoExpire: autoExpire, Connect: e.Connect("c" + prefix)})
	}
	return nil, fmt.Errorf("kind %s", kind)
}
