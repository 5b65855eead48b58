package main

import (
	"bufio"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"regexp"
	"runtime"
	"strconv"
	"strings"
	"time"

	"github.com/redis/go-redis/v9"
	"github.com/vmihailenco/msgpack/v5"

	"github.com/go-oidfed/lib/cache"
)

type centry struct {
	val []byte
	exp time.Duration // 0 never
}

var errCache = errors.New("simulated cache failure")

// simCache is a cache backend of the simulation with faults.
type simCache struct {
	w    *World
	m    map[string]centry
	occ  map[string]int
	none bool
}

func newSimCache(w *World) *simCache {
	return &simCache{w: w, m: map[string]centry{}, occ: map[string]int{}, none: w.plan.Cache.Kind == "none"}
}

// cacheFault decides what happens to a cache operation.
func (w *World) cacheFault(op, key string, occ map[string]int) string {
	c := &w.plan.Cache
	if c.FaultUntil == 0 || now() >= msec(c.FaultUntil) {
		return ""
	}
	occ[op+key]++
	r := newRng(mix(w.plan.Seed, hashStr(0, op+key), uint64(occ[op+key]), 99))
	x := r.n(100)
	lim := 0
	try := func(p int) bool { lim += p; return x < lim }
	k := ""
	switch {
	case try(c.Stall):
		k = "stall"
	case try(c.Lose):
		k = "lose"
	case try(c.Damage):
		k = "damage"
	case op == "get" && try(c.GetErr):
		k = "err"
	case op == "set" && try(c.SetErr):
		k = "err"
	case try(c.Down):
		k = "down"
	}
	if k != "" {
		w.faults["cache:"+op+"-"+k]++
		w.cacheFaults = append(w.cacheFaults, now())
	}
	return k
}

func (c *simCache) Get(key string, target any) (bool, error) {
	runtime.DetYield()
	w := c.w
	w.stats.cacheGets++
	f := w.cacheFault("get", key, c.occ)
	if f == "stall" {
		w.stallTime(5 * time.Second)
	}
	if c.none {
		return false, nil
	}
	e, ok := c.m[key]
	if ok && e.exp != 0 && e.exp <= now() {
		ok = false
	}
	e.val = detachBytes(e.val)
	switch f {
	case "err", "down":
		return false, errCache
	case "lose":
		delete(c.m, key)
		return false, nil
	}
	if !ok {
		return false, nil
	}
	w.stats.cacheHits++
	if f == "damage" {
		err := msgpack.Unmarshal(e.val[:len(e.val)*2/3], target)
		if err == nil {
			err = errCache
		}
		return true, err
	}
	return true, msgpack.Unmarshal(e.val, target)
}

func (c *simCache) Set(key string, value any, expiration time.Duration) error {
	runtime.DetYield()
	w := c.w
	f := w.cacheFault("set", key, c.occ)
	if f == "stall" {
		w.stallTime(5 * time.Second)
	}
	key = detach(key)
	data, err := msgpack.Marshal(value)
	if err != nil {
		return err
	}
	data = detachBytes(data)
	switch f {
	case "err", "down":
		return errCache
	case "lose":
		return nil
	}
	if expiration < 0 {
		delete(c.m, key)
		return nil
	}
	if c.none {
		return nil
	}
	exp := time.Duration(0)
	if expiration > 0 {
		exp = now() + expiration
	}
	if f == "damage" {
		data = data[:len(data)*2/3]
	}
	w.checkStored(key, data, exp)
	w.checkDerived(key, data, exp)
	c.m[key] = centry{data, exp}
	return nil
}

func (w *World) stallTime(d time.Duration) {
	w.stalls = append(w.stalls, stall{now(), now() + d})
	time.Sleep(d)
}

var jwtRE = regexp.MustCompile(`eyJ[A-Za-z0-9_-]+\.[A-Za-z0-9_-]+\.[A-Za-z0-9_-]*`)

// checkStored checks that an entry does not outlive what it was made from.
func (w *World) checkStored(key string, data []byte, exp time.Duration) {
	for _, j := range jwtRE.FindAllString(string(data), -1) {
		s := w.ledger[j]
		if s == nil || (s.kind != "ec" && s.kind != "sub") {
			continue
		}
		if exp == 0 || exp > s.exp+time.Second {
			till := "for ever"
			if exp != 0 {
				till = "until " + exp.String()
			}
			w.fail("C06", "cache entry %.60q is kept %s although it contains the %s of %s about %s, which expires at %v", key, till, s.kind, s.by, s.sub, s.exp)
			return
		}
	}
}

// deriveFrom notes that the current task makes something from these statements until
// the returned function is called: what it stores must not outlive them.
func (w *World) deriveFrom(raws []string) func() {
	exp := time.Duration(-1)
	for _, raw := range raws {
		s := w.ledger[raw]
		if s == nil || (s.kind != "ec" && s.kind != "sub") {
			exp = -1
			break
		}
		if exp < 0 || s.exp < exp {
			exp = s.exp
		}
	}
	raceMu.Lock()
	defer raceMu.Unlock()
	tag := runtime.DetTag()
	if _, busy := w.deriving[tag]; busy || exp < 0 {
		// several at once with the same tag: not known which of them stores something
		if busy {
			w.deriving[tag] = -1
		}
		return func() {}
	}
	if w.deriving == nil {
		w.deriving = map[uint64]time.Duration{}
	}
	w.deriving[tag] = exp
	return func() {
		raceMu.Lock()
		delete(w.deriving, tag)
		raceMu.Unlock()
	}
}

// checkDerived checks that an entry which does not hold the statements it was made
// from does not outlive them either. Others may be stored by a refresh in the
// background.
func (w *World) checkDerived(key string, data []byte, exp time.Duration) {
	if jwtRE.Match(data) {
		return
	}
	raceMu.Lock()
	d, ok := w.deriving[runtime.DetTag()]
	raceMu.Unlock()
	if !ok || d < 0 {
		return
	}
	w.probe("entries derived from a chain checked")
	if exp == 0 || exp > d+time.Second {
		till := "for ever"
		if exp != 0 {
			till = "until " + exp.String()
		}
		w.fail("C06", "cache entry %.60q is kept %s although it was made from a chain that expires at %v", key, till, d)
	}
}

// ---- a redis server ----

type fakeRedis struct {
	w    *World
	m    map[string]centry
	occ  map[string]int
	dial int
	ok   bool // no faults (during start-up)
}

func newFakeRedis(w *World) *fakeRedis {
	return &fakeRedis{w: w, m: map[string]centry{}, occ: map[string]int{}, ok: true}
}

func (f *fakeRedis) options() *redis.Options {
	return &redis.Options{
		Addr: "redis.sim:6379", MaxRetries: -1, DisableIdentity: true, Protocol: 2,
		PoolSize: 1024, // waiting for a connection would use timers of other runs
		Dialer: func(ctx context.Context, network, addr string) (net.Conn, error) {
			runtime.DetYield()
			f.dial++
			if !f.ok && f.w.cacheFault("dial", fmt.Sprint(f.dial%7), f.occ) != "" {
				return nil, errors.New("redis: connection refused")
			}
			a, b := net.Pipe()
			go f.serve(b)
			return a, nil
		},
	}
}

func (f *fakeRedis) serve(c net.Conn) {
	runtime.DetSetTag(0)
	defer c.Close()
	br := bufio.NewReader(c)
	for {
		args, err := readCmd(br)
		if err != nil {
			return
		}
		out := "+OK\r\n"
		switch strings.ToUpper(args[0]) {
		case "HELLO":
			out = "-ERR unknown command\r\n"
		case "PING":
			out = "+PONG\r\n"
		case "GET":
			out = f.get(args[1])
		case "SET":
			out = f.set(args)
		}
		switch out {
		case "":
			return // connection breaks
		case "stall":
			f.w.stallTime(4 * time.Second)
			return
		}
		if _, err := io.WriteString(c, out); err != nil {
			return
		}
	}
}

func (f *fakeRedis) fault(op, key string) string {
	if f.ok {
		return ""
	}
	return f.w.cacheFault(op, key, f.occ)
}

func (f *fakeRedis) get(key string) string {
	f.w.stats.cacheGets++
	e, ok := f.m[key]
	if ok && e.exp != 0 && e.exp <= now() {
		ok = false
	}
	switch f.fault("get", key) {
	case "stall":
		return "stall"
	case "down":
		return ""
	case "err":
		return "-LOADING Redis is loading the dataset in memory\r\n"
	case "lose":
		delete(f.m, key)
		ok = false
	case "damage":
		if ok {
			e.val = e.val[:len(e.val)*2/3]
		}
	}
	if !ok {
		return "$-1\r\n"
	}
	f.w.stats.cacheHits++
	return fmt.Sprintf("$%d\r\n%s\r\n", len(e.val), e.val)
}

func (f *fakeRedis) set(args []string) string {
	key, val := args[1], []byte(args[2])
	exp := time.Duration(0)
	for i := 3; i+1 < len(args); i++ {
		n, _ := strconv.Atoi(args[i+1])
		switch strings.ToUpper(args[i]) {
		case "EX":
			exp = now() + sec(n)
		case "PX":
			exp = now() + msec(n)
		}
	}
	switch f.fault("set", key) {
	case "stall":
		return "stall"
	case "down":
		return ""
	case "err":
		return "-OOM command not allowed when used memory > 'maxmemory'\r\n"
	case "lose":
		return "+OK\r\n"
	case "damage":
		val = val[:len(val)*2/3]
	}
	f.w.checkStored(key, val, exp)
	f.m[key] = centry{val, exp}
	return "+OK\r\n"
}

func readCmd(br *bufio.Reader) ([]string, error) {
	l, err := br.ReadString('\n')
	if err != nil {
		return nil, err
	}
	n, err := strconv.Atoi(strings.TrimSpace(l[1:]))
	if err != nil {
		return nil, err
	}
	var out []string
	for i := 0; i < n; i++ {
		if l, err = br.ReadString('\n'); err != nil {
			return nil, err
		}
		k, err := strconv.Atoi(strings.TrimSpace(l[1:]))
		if err != nil {
			return nil, err
		}
		b := make([]byte, k+2)
		if _, err := io.ReadFull(br, b); err != nil {
			return nil, err
		}
		out = append(out, string(b[:k]))
	}
	return out, nil
}

// installCache sets the cache backend up, at the start and after a restart.
func (w *World) installCache() {
	switch w.plan.Cache.Kind {
	case "mem":
	case "redis":
		if w.redis == nil {
			w.redis = newFakeRedis(w)
		}
		w.redis.ok = true
		if err := cache.UseRedisCache(w.redis.options()); err != nil {
			panic("harness: redis: " + err.Error())
		}
		w.redis.ok = false
	default:
		// entries of this backend do not survive a restart unless asked for
		if w.cache == nil || w.plan.Params["cache_survives"] == 0 {
			w.cache = newSimCache(w)
		}
		cache.SetCache(w.cache)
	}
}
