package main

import "encoding/json"

// A Plan is one complete scenario: federation, operations over time, faults and
// scheduling parameters. Executing a plan is deterministic; the plan is the
// replay file.
type Plan struct {
	Prop   string      `json:"prop"`
	Seed   uint64      `json:"seed"`
	Sched  SchedSpec   `json:"sched"`
	Cache  CacheSpec   `json:"cache"`
	Nodes  []*NodeSpec `json:"nodes"`
	Own    []OwnSpec   `json:"own,omitempty"`
	Ops    []Op        `json:"ops"`
	Faults []FaultRule `json:"faults,omitempty"`
	// LatencyMS bounds the ordinary latency of every request leg.
	LatencyMS int            `json:"latency_ms"`
	Params    map[string]int `json:"params,omitempty"`
	// what the original run reported (filled into replay files)
	Violation string `json:"violation,omitempty"`
}

type SchedSpec struct {
	Mode     int    `json:"mode"` // 0 fifo 1 random 2 priorities
	YieldThr uint32 `json:"yield_thr"`
	Cutoff   uint64 `json:"cutoff"`
}

// CacheSpec selects the cache backend and its faults.
type CacheSpec struct {
	Kind string `json:"kind"` // mem, redis, sim, none
	// faults of the sim and redis backends, in percent of operations, until FaultUntil (ms)
	GetErr     int `json:"get_err,omitempty"`
	SetErr     int `json:"set_err,omitempty"`
	Lose       int `json:"lose,omitempty"`
	Damage     int `json:"damage,omitempty"`
	Stall      int `json:"stall,omitempty"`
	Down       int `json:"down,omitempty"`
	FaultUntil int `json:"fault_until,omitempty"`
}

// NodeSpec is one entity of the simulated federation.
type NodeSpec struct {
	ID       string              `json:"id"`
	Hints    []string            `json:"hints,omitempty"`
	Meta     map[string]J        `json:"meta,omitempty"`
	Subs     []*SubSpec          `json:"subs,omitempty"`
	Life     int                 `json:"life"`             // lifetime of the entity configuration in seconds
	Tenant   string              `json:"tenant,omitempty"` // the endpoints have this query and only work with it
	Reissue  int                 `json:"reissue"`          // a statement is re-signed after this many seconds
	Skew     int                 `json:"skew,omitempty"`
	Alg      string              `json:"alg,omitempty"`  // "" Ed25519, ES256
	Key2     string              `json:"key2,omitempty"` // statements about others are signed by a second key ("same", "mixed" algorithm)
	Auth     bool                `json:"auth,omitempty"` // has fetch and list endpoints
	NoFetch  bool                `json:"no_fetch,omitempty"`
	NoList   bool                `json:"no_list,omitempty"`
	Byz      string              `json:"byz,omitempty"` // how its entity configuration is falsified
	NoMeta   bool                `json:"no_meta,omitempty"`
	Marks    []MarkSpec          `json:"marks,omitempty"` // trust marks it shows
	TMIss    map[string][]string `json:"tm_iss,omitempty"`
	TMOwn    map[string]string   `json:"tm_own,omitempty"` // type -> owner node
	Resolve  string              `json:"resolve,omitempty"`
	Collect  string              `json:"collect,omitempty"`
	TMEnd    bool                `json:"tm_end,omitempty"`
	Token    string              `json:"token,omitempty"`
	TMMode   string              `json:"tm_mode,omitempty"`
	TMLife   int                 `json:"tm_life,omitempty"`
	Extra    J                   `json:"extra,omitempty"`
	Hostile  map[string]int      `json:"hostile,omitempty"`   // endpoint -> seed of what it does; Byz is set as well
	ListMore []string            `json:"list_more,omitempty"` // listed although there is no such subordinate
}

// J is a JSON object.
type J = map[string]any

// SubSpec is a subordinate of a node.
type SubSpec struct {
	ID     string `json:"id"`
	Life   int    `json:"life"`
	Constr J      `json:"constr,omitempty"`
	Policy J      `json:"policy,omitempty"`
	Keys   string `json:"keys,omitempty"` // "" current keys, "other" a key the subordinate does not use, "ec", "st" only one of two
	Byz    string `json:"byz,omitempty"`  // how the statement about it is falsified
	Unlist bool   `json:"unlist,omitempty"`
	Extra  J      `json:"extra,omitempty"`
}

// MarkSpec describes a trust mark shown by an entity.
type MarkSpec struct {
	Type    string `json:"type"`
	Issuer  string `json:"issuer"`
	Sub     string `json:"sub"`
	Gen     int    `json:"gen,omitempty"` // generation of the issuer's key
	Iat     int    `json:"iat"`           // seconds after the start
	Exp     int    `json:"exp,omitempty"` // seconds after the start, 0 none
	Deleg   string `json:"deleg,omitempty"`
	DelIat  int    `json:"del_iat,omitempty"`
	DelExp  int    `json:"del_exp,omitempty"`
	DelSub  string `json:"del_sub,omitempty"`
	DelType string `json:"del_type,omitempty"`
	Forge   string `json:"forge,omitempty"`
	InfoTyp string `json:"info_typ,omitempty"`
}

// Op is one operation of a client, or a change of the federation.
type Op struct {
	T       int       `json:"t"` // milliseconds after the start
	Kind    string    `json:"kind"`
	Sub     string    `json:"sub,omitempty"`
	Anchors []AnchorQ `json:"anchors,omitempty"`
	Types   []string  `json:"types,omitempty"`
	A       string    `json:"a,omitempty"`
	B       string    `json:"b,omitempty"`
	N       int       `json:"n,omitempty"`
	S       []string  `json:"s,omitempty"`
	J       J         `json:"j,omitempty"`
	Claims  []string  `json:"claims,omitempty"`
	Slot    int       `json:"slot,omitempty"`
}

// AnchorQ is a trust anchor as given to a resolution.
type AnchorQ struct {
	ID  string `json:"id"`
	Pin string `json:"pin,omitempty"` // "" unpinned, "real", or a made-up key name
}

// FaultRule makes requests fail.
type FaultRule struct {
	From int    `json:"from"` // ms
	To   int    `json:"to"`
	Host string `json:"host,omitempty"` // entity id, "" all
	Kind string `json:"kind"`
	Pct  int    `json:"pct"`
	What string `json:"what,omitempty"` // "", ec, fetch, list, ...
	Arg  int    `json:"arg,omitempty"`
}

func clonePlan(p *Plan) *Plan {
	b, _ := json.Marshal(p)
	var q Plan
	if err := json.Unmarshal(b, &q); err != nil {
		panic(err)
	}
	return &q
}
