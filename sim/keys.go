package main

import (
	"crypto"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/sha256"
	"encoding/base64"
	"encoding/json"
	"maps"
	"math/big"
	"strings"
)

// Keys are a pure function of their name, so that every run and every process
// works with the same ones.
type simKey struct {
	name string
	alg  string
	kid  string
	ed   ed25519.PrivateKey
	ec   *ecdsa.PrivateKey
	jwk  J
}

var keyCache = map[string]*simKey{}

func b64(b []byte) string { return base64.RawURLEncoding.EncodeToString(b) }
func unb64(s string) ([]byte, error) {
	return base64.RawURLEncoding.DecodeString(s)
}

// getKey returns the key of that name. Names ending in "!es" are P-256 keys.
func getKey(name string) *simKey {
	if k := keyCache[name]; k != nil {
		return k
	}
	seed := sha256.Sum256([]byte("vsim key " + name))
	k := &simKey{name: name, alg: "EdDSA"}
	if strings.HasSuffix(name, "!es") {
		k.alg = "ES256"
		d := new(big.Int).SetBytes(seed[:])
		n := new(big.Int).Sub(elliptic.P256().Params().N, big.NewInt(1))
		d.Mod(d, n).Add(d, big.NewInt(1))
		p := &ecdsa.PrivateKey{D: d}
		p.Curve = elliptic.P256()
		p.X, p.Y = p.Curve.ScalarBaseMult(d.Bytes())
		k.ec = p
		pad := func(b *big.Int) []byte { x := make([]byte, 32); b.FillBytes(x); return x }
		k.jwk = J{"kty": "EC", "crv": "P-256", "x": b64(pad(p.X)), "y": b64(pad(p.Y))}
	} else {
		k.ed = ed25519.NewKeyFromSeed(seed[:])
		k.jwk = J{"kty": "OKP", "crv": "Ed25519", "x": b64(k.ed.Public().(ed25519.PublicKey))}
	}
	// a name of the form x@kid:y has the key id of y: an attacker may choose any key id
	if i := strings.Index(name, "@kid:"); i >= 0 {
		k.kid = name[i+5:]
	} else if i := strings.Index(name, "@kidof:"); i >= 0 {
		k.kid = getKey(name[i+7:]).kid
	} else { // as the code under test does
		h := sha256.Sum256(mustJSON(k.jwk)) // sorted members
		k.kid = b64(h[:])
	}
	k.jwk["kid"], k.jwk["alg"], k.jwk["use"] = k.kid, k.alg, "sig"
	keyCache[name] = k
	return k
}

func (k *simKey) signer() crypto.Signer {
	if k.ec != nil {
		return k.ec
	}
	return k.ed
}

func (k *simKey) sign(data []byte) []byte {
	if k.ed != nil {
		return ed25519.Sign(k.ed, data)
	}
	h := sha256.Sum256(data)
	der, err := k.ec.Sign(nil, h[:], crypto.SHA256)
	if err != nil {
		panic(err)
	}
	// DER to r||s
	rs := make([]byte, 64)
	i := 2
	for j := 0; j < 2; j++ {
		l := int(der[i+1])
		v := der[i+2 : i+2+l]
		for len(v) > 32 {
			v = v[1:]
		}
		copy(rs[j*32+32-len(v):(j+1)*32], v)
		i += 2 + l
	}
	return rs
}

func jwksOf(keys ...*simKey) J {
	l := []any{}
	for _, k := range keys {
		l = append(l, maps.Clone(k.jwk))
	}
	return J{"keys": l}
}

func mustJSON(v any) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return b
}

var signCache = map[string]string{}

// signJWT signs claims with k under the given type ("" none).
func signJWT(k *simKey, typ string, claims any) string {
	hdr := J{"alg": k.alg, "kid": k.kid}
	if typ != "" {
		hdr["typ"] = typ
	}
	in := b64(mustJSON(hdr)) + "." + b64(mustJSON(claims))
	ck := k.name + "\x00" + in
	if s, ok := signCache[ck]; ok {
		return s
	}
	s := in + "." + b64(k.sign([]byte(in)))
	if len(signCache) > 20000 {
		signCache = map[string]string{}
	}
	signCache[ck] = s
	return s
}

func unsignedJWT(typ string, claims any) string {
	return b64(mustJSON(J{"alg": "none", "typ": typ})) + "." + b64(mustJSON(claims)) + "."
}

// rawJWT is a token decoded without the code under test.
type rawJWT struct {
	raw     string
	hdr     J
	claims  J
	payload []byte
	signed  string
	sig     []byte
}

func decodeJWT(raw string) *rawJWT {
	p := strings.Split(raw, ".")
	if len(p) != 3 {
		return nil
	}
	h, err1 := unb64(p[0])
	c, err2 := unb64(p[1])
	s, err3 := unb64(p[2])
	if err1 != nil || err2 != nil || err3 != nil {
		return nil
	}
	r := &rawJWT{raw: raw, payload: c, signed: p[0] + "." + p[1], sig: s}
	if json.Unmarshal(h, &r.hdr) != nil || json.Unmarshal(c, &r.claims) != nil {
		return nil
	}
	return r
}

func (r *rawJWT) str(c string) string { s, _ := r.claims[c].(string); return s }
func (r *rawJWT) num(c string) float64 {
	f, _ := r.claims[c].(float64)
	return f
}
func (r *rawJWT) typ() string { s, _ := r.hdr["typ"].(string); return s }

var verifyCache = map[string]bool{}

// verifiedBy tells whether one of the keys in the jwks made the signature.
func (r *rawJWT) verifiedBy(jwks any) bool {
	m, _ := jwks.(map[string]any)
	l, _ := m["keys"].([]any)
	for _, e := range l {
		k, _ := e.(map[string]any)
		if k == nil {
			continue
		}
		x, _ := k["x"].(string)
		y, _ := k["y"].(string)
		ck := x + "|" + y + "|" + r.raw
		ok, known := verifyCache[ck]
		if !known {
			ok = verifySig(r, k)
			if len(verifyCache) > 20000 {
				verifyCache = map[string]bool{}
			}
			verifyCache[ck] = ok
		}
		if ok {
			return true
		}
	}
	return false
}

// keyState is may if several keys of the set have the identifier of the signing key,
// which leaves open which one is used.
func (r *rawJWT) keyState(jwks any) certainty {
	m, _ := jwks.(map[string]any)
	l, _ := m["keys"].([]any)
	n := 0
	for _, e := range l {
		if k, _ := e.(map[string]any); k != nil && k["kid"] == r.hdr["kid"] {
			n++
		}
	}
	if n > 1 {
		return may
	}
	return must
}

func verifySig(r *rawJWT, k map[string]any) bool {
	alg, _ := r.hdr["alg"].(string)
	xs, _ := k["x"].(string)
	x, err := unb64(xs)
	if err != nil {
		return false
	}
	switch k["kty"] {
	case "OKP":
		return alg == "EdDSA" && len(x) == ed25519.PublicKeySize && ed25519.Verify(x, []byte(r.signed), r.sig)
	case "EC":
		ys, _ := k["y"].(string)
		y, err := unb64(ys)
		if err != nil || alg != "ES256" || len(r.sig) != 64 {
			return false
		}
		pub := &ecdsa.PublicKey{Curve: elliptic.P256(), X: new(big.Int).SetBytes(x), Y: new(big.Int).SetBytes(y)}
		h := sha256.Sum256([]byte(r.signed))
		return ecdsa.Verify(pub, h[:], new(big.Int).SetBytes(r.sig[:32]), new(big.Int).SetBytes(r.sig[32:]))
	}
	return false
}
