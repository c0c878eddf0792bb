package main

import (
	"fmt"
	"sort"
	"time"

	"codeberg.org/emersion/soju"
)

// Plan is everything that decides one simulated run.
type Plan struct {
	Profile   string   `json:"profile"`
	Seed      uint64   `json:"seed"`
	Sched     uint64   `json:"sched"`      // scheduler seed
	YieldProb uint32   `json:"yield_prob"` // preemption probability, out of 65536
	Cfg       Cfg      `json:"cfg"`
	Ops       []Op     `json:"ops"`
	NoFaults  bool     `json:"no_faults,omitempty"`
	Notes     []string `json:"notes,omitempty"`
	qn        int
}

// Op is one step of the workload or of the fault schedule.  Steps that make
// no sense in the state they meet do nothing, so any subsequence of a plan is
// again a plan.
type Op struct {
	K string   `json:"k"`
	S []string `json:"s,omitempty"`
	N []int    `json:"n,omitempty"`
	D int      `json:"d,omitempty"` // simulated milliseconds to wait afterwards
}

func (o *Op) s(i int) string {
	if i < len(o.S) {
		return o.S[i]
	}
	return ""
}

func (o *Op) n(i int) int {
	if i < len(o.N) {
		return o.N[i]
	}
	return 0
}

// Cfg is the initial deployment.
type Cfg struct {
	Users        []UserCfg      `json:"users"`
	Servers      []SrvCfg       `json:"servers"`
	Clients      []ClientCfg    `json:"clients,omitempty"`
	Store        string         `json:"store,omitempty"`
	LatMS        int            `json:"lat_ms,omitempty"`
	Chunk        bool           `json:"chunk,omitempty"`
	MaxNetworks  *int           `json:"max_networks,omitempty"`
	InactiveH    int            `json:"inactive_h,omitempty"`
	EnableOnAuth bool           `json:"enable_on_auth,omitempty"`
	MOTD         string         `json:"motd,omitempty"`
	UserIPs      []string       `json:"user_ips,omitempty"`
	Identd       bool           `json:"identd,omitempty"`
	SQLErrPct    int            `json:"sql_err_pct,omitempty"`
	SQLDelayMS   int            `json:"sql_delay_ms,omitempty"`
	X            map[string]int `json:"x,omitempty"`
}

type UserCfg struct {
	Name        string   `json:"name"`
	Pass        string   `json:"pass,omitempty"`
	Admin       bool     `json:"admin,omitempty"`
	Disabled    bool     `json:"disabled,omitempty"`
	Nick        string   `json:"nick,omitempty"`
	Real        string   `json:"real,omitempty"`
	MaxNetworks *int     `json:"max_networks,omitempty"`
	Nets        []NetCfg `json:"nets,omitempty"`
}

func (u *UserCfg) password() string {
	if u.Pass != "" {
		return u.Pass
	}
	return "pw-" + u.Name
}

type NetCfg struct {
	Name       string   `json:"name"`
	Server     string   `json:"server"`
	Nick       string   `json:"nick,omitempty"`
	Real       string   `json:"real,omitempty"`
	Pass       string   `json:"pass,omitempty"`
	Cmds       []string `json:"cmds,omitempty"`
	Chans      []string `json:"chans,omitempty"` // leading "-": detached
	NoAutoAway bool     `json:"no_auto_away,omitempty"`
	Disabled   bool     `json:"disabled,omitempty"`
	SASLUser   string   `json:"sasl_user,omitempty"`
	SASLPass   string   `json:"sasl_pass,omitempty"`
	Addr       string   `json:"addr,omitempty"`     // instead of irc+insecure://SERVER.test:6667
	CertFP     string   `json:"certfp,omitempty"`   // pinned certificate
	External   bool     `json:"external,omitempty"` // log in with a client certificate
	id         int64
}

type SrvCfg struct {
	Name         string   `json:"name"`
	Caps         []string `json:"caps,omitempty"`
	Isupport     []string `json:"isupport,omitempty"`
	Casemap      string   `json:"casemap,omitempty"`
	Ghosts       []string `json:"ghosts,omitempty"`
	Chans        []string `json:"chans,omitempty"` // "#chan:op,member,member"
	SASLUser     string   `json:"sasl_user,omitempty"`
	SASLPass     string   `json:"sasl_pass,omitempty"`
	Pass         string   `json:"pass,omitempty"`
	MOTD         bool     `json:"motd,omitempty"`
	SplitNames   bool     `json:"split_names,omitempty"`
	NamesDelayMS int      `json:"names_delay_ms,omitempty"`
	SlowMS       int      `json:"slow_ms,omitempty"`
	CapMultiline bool     `json:"cap_multiline,omitempty"`
	CapLate      bool     `json:"cap_late,omitempty"`
	SASLMode     string   `json:"sasl_mode,omitempty"`
	TLS          string   `json:"tls,omitempty"` // identity presented on the TLS port
	TLS12        bool     `json:",omitempty"`
}

func (c *Cfg) passwordOf(user string) string {
	for i := range c.Users {
		if c.Users[i].Name == user {
			return c.Users[i].password()
		}
	}
	return "pw-" + user
}

func (c *Cfg) client(key string) *ClientCfg {
	for i := range c.Clients {
		if c.Clients[i].Key == key {
			return &c.Clients[i]
		}
	}
	return nil
}

func (c *Cfg) user(name string) *UserCfg {
	for i := range c.Users {
		if c.Users[i].Name == name {
			return &c.Users[i]
		}
	}
	return nil
}

func (u *UserCfg) net(name string) *NetCfg {
	for i := range u.Nets {
		if u.Nets[i].Name == name {
			return &u.Nets[i]
		}
	}
	return nil
}

// profile is a workload family together with its oracles.
type profile struct {
	name   string
	prop   string
	gen    func(r *rng, p *Plan)
	setup  func(w *World) // before boot, once servers are there
	init   func(w *World) // after boot
	op     func(w *World, o *Op) bool
	final  func(w *World)
	config func(w *World, cfg *soju.Config)
	booted func(w *World, inst *instance)
	weight int
	exotic int // how often (percent) peers and channels have unusual names
	// SQL errors only once users have loaded their networks
	started bool
}

var profiles = map[string]*profile{}

func register(p *profile) *profile {
	if p.weight == 0 {
		p.weight = 1
	}
	profiles[p.name] = p
	return p
}

func (p *Plan) profile() *profile {
	pr := profiles[p.Profile]
	if pr == nil {
		panic("unknown profile " + p.Profile)
	}
	return pr
}

// profilesOf lists the profiles deciding a property.
func profilesOf(prop string) []*profile {
	var l []*profile
	for _, p := range profiles {
		if p.prop == prop {
			l = append(l, p)
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i].name < l[j].name })
	return l
}

func makePlan(name string, seed uint64) *Plan {
	r := newRng(newRng(seed^0x736f6a75).next() ^ newRng(uint64(len(name))*31+uint64(name[0])).next())
	p := &Plan{Profile: name, Seed: seed, Sched: r.next()}
	switch r.intn(4) {
	case 0:
		p.YieldProb = 0
	case 1:
		p.YieldProb = 600
	case 2:
		p.YieldProb = 6000
	case 3:
		p.YieldProb = 24000
	}
	p.profile().gen(r, p)
	if p.profile().exotic > 0 {
		p.exotic(r, p.profile().exotic)
	}
	return p
}

// run executes the plan's steps, then the final checks.
func (w *World) run() error {
	pr := w.plan.profile()
	w.sqlDelay = time.Duration(w.cfg.SQLDelayMS) * time.Millisecond
	w.sqlErrPct = w.cfg.SQLErrPct
	if err := w.setup(); err != nil {
		return fmt.Errorf("set-up failed: %v", err)
	}
	if pr.init != nil {
		pr.init(w)
	}
	w.faults = true
	for i := range w.plan.Ops {
		o := &w.plan.Ops[i]
		w.opIdx = i
		w.tracef("op %d %s %v %v", i, o.K, o.S, o.N)
		if pr.op == nil || !pr.op(w, o) {
			if !w.commonOp(o) {
				return fmt.Errorf("unknown op %q", o.K)
			}
		}
		if o.D > 0 {
			time.Sleep(time.Duration(o.D) * time.Millisecond)
		}
	}
	w.opIdx = len(w.plan.Ops)
	w.faults = false
	w.sqlHook = nil
	w.fsHook = nil
	w.tracef("final")
	if pr.final != nil {
		pr.final(w)
	}
	return nil
}
