package fake

import (
	"fmt"
	"time"

	"github.com/bradfitz/gomemcache/memcache"
	"github.com/globalsign/mgo"
	"github.com/mediocregopher/radix.v2/pool"
	"github.com/wujiu2020/strip/caches"
)

// Hold sets what is called before every command with the client's address.
func (e *Env) Hold(f func(client string)) {
	e.Redis.Hold, e.Mem.Hold, e.Mongo.Hold = f, f, f
}

// Client is one user of a server with a connection of its own.
type Client struct {
	pool *pool.Pool
	mem  *memcache.Client
	sess *mgo.Session
}

// NewClient connects.
func (e *Env) NewClient() (c *Client, err error) {
	c = new(Client)
	if c.pool, err = pool.New("tcp", e.Redis.Addr, 1); err != nil {
		return
	}
	c.mem = memcache.New(e.Mem.Addr)
	c.mem.Timeout = 60 * time.Second
	c.mem.MaxIdleConns = 1
	c.sess = e.Sess.Copy()
	c.sess.SetSocketTimeout(60 * time.Second)
	return
}

// Cache is like Env.Cache over the client's own connection.
func (c *Client) Cache(kind, prefix string, autoExpire bool) (caches.CacheProvider, error) {
	connect := func(f func(c *mgo.Collection) error) error { return f(c.sess.DB("db").C("c" + prefix)) }
	switch kind {
	case "redis":
		return caches.NewRedisProvider(caches.RedisConfig{KeyPrefix: prefix, Client: c.pool})
	case "memcached":
		return caches.NewMcProvider(caches.McConfig{KeyPrefix: prefix, Client: c.mem})
	case "mongo":
		return caches.NewMgoProvider(caches.MgoConfig{KeyField: "_id", ValueField: "value", ExpiredAtField: "expiredAt", AutoExpire: autoExpire, Connect: connect})
	case "mongo-key":
		return caches.NewMgoProvider(caches.MgoConfig{KeyField: "key", ValueField: "v", ExpiredAtField: "exp", AutoExpire: autoExpire, Connect: connect})
	}
	return nil, fmt.Errorf("kind %s", kind)
}
