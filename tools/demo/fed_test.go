// A small federation in memory for demonstrations.
package zzdemo

import (
	"crypto"
	"crypto/ed25519"
	"crypto/sha256"
	"encoding/base64"
	"encoding/json"
	"errors"
	"io"
	"net/http"
	"net/url"
	"strings"
	"sync"
	"time"

	ihttp "github.com/go-oidfed/lib/internal/http"
)

type J = map[string]any

type sub struct {
	life  time.Duration
	claim J // additional or replaced claims
}

type ent struct {
	id    string
	keyNo string
	hints []string
	meta  J
	subs  map[string]*sub
	life  time.Duration
	claim J
	// serve may answer a request itself
	serve func(what string, r *http.Request) (int, string, string, bool)
}

type fed struct {
	mu   sync.Mutex
	ents map[string]*ent
	log  []string
	down map[string]bool
	lat  time.Duration
}

func keyOf(name string) ed25519.PrivateKey {
	s := sha256.Sum256([]byte(name))
	return ed25519.NewKeyFromSeed(s[:])
}

func b64(b []byte) string { return base64.RawURLEncoding.EncodeToString(b) }

func jwksOf(names ...string) J {
	l := []any{}
	for _, n := range names {
		l = append(l, J{"kty": "OKP", "crv": "Ed25519", "alg": "EdDSA", "use": "sig", "kid": "k-" + n, "x": b64(keyOf(n).Public().(ed25519.PublicKey))})
	}
	return J{"keys": l}
}

func sign(key, typ string, claims J) string {
	h, _ := json.Marshal(J{"alg": "EdDSA", "kid": "k-" + key, "typ": typ})
	c, err := json.Marshal(claims)
	if err != nil {
		panic(err)
	}
	in := b64(h) + "." + b64(c)
	s, _ := keyOf(key).Sign(nil, []byte(in), crypto.Hash(0))
	return in + "." + b64(s)
}

func newFed() *fed {
	f := &fed{ents: map[string]*ent{}, down: map[string]bool{}}
	ihttp.Do().SetTransport(f)
	http.DefaultTransport = f
	return f
}

func (f *fed) add(id string, hints ...string) *ent {
	e := &ent{id: id, keyNo: "0", hints: hints, meta: J{}, subs: map[string]*sub{}, life: time.Hour, claim: J{}}
	f.ents[id] = e
	for _, h := range hints {
		if a := f.ents[h]; a != nil {
			a.subs[id] = &sub{life: time.Hour, claim: J{}}
		}
	}
	return e
}

// authority adds an entity with fetch and list endpoints.
func (f *fed) authority(id string, hints ...string) *ent {
	e := f.add(id, hints...)
	e.meta["federation_entity"] = J{"federation_fetch_endpoint": id + "/fetch", "federation_list_endpoint": id + "/list"}
	return e
}

func (e *ent) key() string { return e.id + "#" + e.keyNo }

func (e *ent) config() string {
	n := time.Now()
	c := J{"iss": e.id, "sub": e.id, "iat": n.Unix(), "exp": n.Add(e.life).Unix(), "jwks": jwksOf(e.key()), "metadata": e.meta}
	if len(e.hints) > 0 {
		c["authority_hints"] = e.hints
	}
	for k, v := range e.claim {
		c[k] = v
	}
	return sign(e.key(), "entity-statement+jwt", c)
}

func (f *fed) statement(e *ent, id string) string {
	n := time.Now()
	s := e.subs[id]
	c := J{"iss": e.id, "sub": id, "iat": n.Unix(), "exp": n.Add(s.life).Unix()}
	if x := f.ents[id]; x != nil {
		c["jwks"] = jwksOf(x.key())
	} else {
		c["jwks"] = jwksOf(id + "#0")
	}
	for k, v := range s.claim {
		c[k] = v
	}
	return sign(e.key(), "entity-statement+jwt", c)
}

func (f *fed) requests(prefix string) int {
	f.mu.Lock()
	defer f.mu.Unlock()
	n := 0
	for _, l := range f.log {
		if strings.HasPrefix(l, prefix) {
			n++
		}
	}
	return n
}

func (f *fed) RoundTrip(r *http.Request) (*http.Response, error) {
	u := *r.URL
	u.RawQuery, u.Fragment = "", ""
	f.mu.Lock()
	f.log = append(f.log, u.String()+"?"+r.URL.RawQuery)
	f.mu.Unlock()
	if f.lat > 0 {
		time.Sleep(f.lat)
	}
	f.mu.Lock()
	defer f.mu.Unlock()
	var e *ent
	what := ""
	for id, x := range f.ents {
		if strings.HasPrefix(u.String(), id+"/") && (e == nil || len(id) > len(e.id)) {
			e, what = x, strings.TrimPrefix(u.String(), id+"/")
		}
	}
	if e == nil || f.down[e.id] {
		return nil, errors.New("connection refused")
	}
	status, ctype, body := 404, "application/json", `{"error":"not_found"}`
	done := false
	if e.serve != nil {
		var s int
		var ct, b string
		if s, ct, b, done = e.serve(what, r); done {
			status, ctype, body = s, ct, b
		}
	}
	if !done {
		switch what {
		case ".well-known/openid-federation":
			status, ctype, body = 200, "application/entity-statement+jwt", e.config()
		case "fetch":
			if id := r.URL.Query().Get("sub"); e.subs[id] != nil {
				status, ctype, body = 200, "application/entity-statement+jwt", f.statement(e, id)
			}
		case "list":
			l := []string{}
			for id := range e.subs {
				l = append(l, id)
			}
			b, _ := json.Marshal(l)
			status, ctype, body = 200, "application/json", string(b)
		}
	}
	h := http.Header{}
	h.Set("Content-Type", ctype)
	return &http.Response{StatusCode: status, Status: http.StatusText(status), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: h, Body: io.NopCloser(strings.NewReader(body)), ContentLength: -1, Request: r}, nil
}

var _ = url.Values{}
