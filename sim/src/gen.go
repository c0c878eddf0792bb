package main

import (
	"fmt"
	"regexp"
	"runtime"
	"strings"
	"time"
)

// Capabilities the model server may offer.
var upCaps = []string{"account-notify", "account-tag", "away-notify", "batch", "cap-notify", "chghost", "extended-join", "extended-monitor", "invite-notify", "message-tags", "multi-prefix", "server-time", "setname"}

// Capabilities the model clients may ask for.
var downCaps = []string{"account-notify", "account-tag", "away-notify", "batch", "cap-notify", "chghost", "echo-message", "extended-join", "extended-monitor", "invite-notify", "message-tags", "multi-prefix", "server-time", "setname", "draft/read-marker"}

func subset(r *rng, l []string, pct int) []string {
	var out []string
	for _, c := range l {
		if r.chance(pct) {
			out = append(out, c)
		}
	}
	return out
}

func genUpCaps(r *rng) []string {
	switch r.intn(4) {
	case 0:
		return nil
	case 1:
		return append(append([]string{}, upCaps...), "labeled-response", "echo-message")
	}
	l := subset(r, upCaps, 60)
	if r.chance(45) {
		switch r.intn(8) {
		case 0:
			l = append(l, "labeled-response")
		case 1:
			l = append(l, "echo-message")
		default:
			l = append(l, "labeled-response", "echo-message")
		}
		for _, need := range []string{"batch", "message-tags"} {
			if !has(l, need) {
				l = append(l, need)
			}
		}
	}
	return l
}

func genDownCaps(r *rng) []string {
	switch r.intn(4) {
	case 0:
		return nil
	case 1:
		return append([]string{}, downCaps...)
	}
	return subset(r, downCaps, 50)
}

// genOpt steers genBase.
type genOpt struct {
	servers  int
	users    int
	netsPer  int // at most
	clients  int // per network, at most
	stores   []string
	named    bool // clients have client names
	chans    []string
	noSASL   bool
	upCaps   func(r *rng) []string
	downCaps func(r *rng) []string
	srvMod   func(r *rng, s *SrvCfg)
	noWS     bool // no clients over WebSockets
}

// genBase fills in a deployment.
func genBase(r *rng, p *Plan, o genOpt) {
	c := &p.Cfg
	if o.upCaps == nil {
		o.upCaps = genUpCaps
	}
	if o.downCaps == nil {
		o.downCaps = genDownCaps
	}
	if len(o.stores) > 0 {
		c.Store = r.pick(o.stores...)
	} else {
		c.Store = "memory"
	}
	if r.chance(70) {
		c.LatMS = 1 + r.intn(60)
	}
	c.Chunk = r.chance(30)
	names := []string{"alpha", "beta", "gamma"}
	for i := 0; i < o.servers; i++ {
		s := SrvCfg{Name: names[i], Caps: o.upCaps(r), Ghosts: []string{"g1", "g2", "g3", "bot1"}, Chans: []string{"#a:g1,g2,g3", "#b:g2,g1,g3"}}
		s.MOTD = r.chance(50)
		s.SplitNames = r.chance(50)
		if r.chance(25) {
			s.NamesDelayMS = 1 + r.intn(400)
		}
		if r.chance(20) {
			s.SlowMS = 1 + r.intn(30)
		}
		if r.chance(50) {
			s.Casemap = r.pick("ascii", "rfc1459", "rfc1459-strict")
		}
		s.CapMultiline, s.CapLate = r.chance(30), r.chance(20)
		if o.srvMod != nil {
			o.srvMod(r, &s)
		}
		c.Servers = append(c.Servers, s)
	}
	users := []string{"ann", "bob", "cat", "dan"}
	for i := 0; i < o.users; i++ {
		u := UserCfg{Name: users[i]}
		n := 1 + r.intn(o.netsPer)
		for j := 0; j < n; j++ {
			srv := names[r.intn(o.servers)]
			name := srv
			if u.net(name) != nil {
				name = fmt.Sprintf("%s%d", srv, j)
			}
			nc := NetCfg{Name: name, Server: srv, Nick: fmt.Sprintf("%s%d", u.Name, j), Real: fmt.Sprintf("R %s/%s", u.Name, name)}
			chans := o.chans
			if chans == nil {
				chans = []string{"#a", "#b"}
			}
			nc.Chans = append(nc.Chans, chans...)
			u.Nets = append(u.Nets, nc)
			m := 1 + r.intn(o.clients)
			for k := 0; k < m; k++ {
				cc := ClientCfg{Key: fmt.Sprintf("%s%d%c", u.Name, j, 'A'+k), User: u.Name, Net: name, Caps: o.downCaps(r), SASL: !o.noSASL && r.chance(40)}
				if o.named {
					cc.Client = fmt.Sprintf("dev%d", k)
				}
				c.Clients = append(c.Clients, cc)
			}
		}
		c.Users = append(c.Users, u)
	}
	if !o.noWS {
		genWS(p)
	}
}

func (p *Plan) op(d int, k string, s []string, n ...int) {
	p.Ops = append(p.Ops, Op{K: k, S: s, N: n, D: d})
}

func (p *Plan) anyClient(r *rng) *ClientCfg { return &p.Cfg.Clients[r.intn(len(p.Cfg.Clients))] }

func (p *Plan) anyServer(r *rng) string { return p.Cfg.Servers[r.intn(len(p.Cfg.Servers))].Name }

// anyNet picks a user/network.
func (p *Plan) anyNet(r *rng) (*UserCfg, *NetCfg) {
	u := &p.Cfg.Users[r.intn(len(p.Cfg.Users))]
	return u, &u.Nets[r.intn(len(u.Nets))]
}

// gap draws a pause between steps: mostly short, so that steps overlap.
func gap(r *rng) int {
	switch r.intn(6) {
	case 0, 1:
		return 0
	case 2, 3:
		return r.intn(40)
	case 4:
		return r.intn(500)
	}
	return r.intn(5000)
}

// settleBoot waits until every enabled network had time to connect.
func (w *World) settleBoot() { w.settle(5 * time.Second) }

func (w *World) jumpClock(sec int) {
	w.fault("clock-jump")
	w.wallOff += int64(sec) * int64(time.Second)
	runtime.SimWallOffset(w.wallOff)
}

// netOf names the user/network a session is bound to ("" for none).
func (s *sess) netKey() string {
	if s.cfg.Net == "" {
		return s.cfg.User
	}
	return s.cfg.User + "/" + s.cfg.Net
}

// alive: the session reached readiness and still works.
func (s *sess) aliveNow() bool { return s.live() && s.inst == s.w.inst && !s.inst.dead }

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// genWS lets some clients use WebSockets. It draws from a stream of its own,
// so that it does not alter the rest of the plan.
func genWS(p *Plan) {
	r := newRng(p.Seed ^ 0x7773)
	if !r.chance(15) {
		return
	}
	c := &p.Cfg
	for i := range c.Clients {
		if r.chance(50) {
			c.Clients[i].WS = 1 + r.intn(2)
		}
	}
}

// exotic gives a peer and a channel names with characters that some case
// mappings fold, and spells them in several ways.
func (p *Plan) exotic(r *rng, pct int) {
	if !r.chance(pct) {
		return
	}
	ascii := true
	for i := range p.Cfg.Servers {
		ascii = ascii && p.Cfg.Servers[i].Casemap == "ascii"
	}
	nicks, chans := []string{"g[1]", "G[1]"}, []string{"#b[x]", "#B[X]", "#b[X]"}
	if !ascii || r.chance(20) {
		nicks, chans = append(nicks, "g{1}", "G{1]"), append(chans, "#b{x}", "#B[x}")
	}
	re := regexp.MustCompile(`(^|[ ,:@+])(g1|G1|#b|#B)($|[ ,:!])`)
	sub := func(s string, any bool) string {
		return re.ReplaceAllStringFunc(s, func(t string) string {
			l := nicks
			if strings.Contains(t, "#") {
				l = chans
			}
			v := l[0]
			if any {
				v = l[r.intn(len(l))]
			}
			return re.ReplaceAllString(t, "${1}"+v+"${3}")
		})
	}
	all := func(l []string, any bool) {
		for i := range l {
			l[i] = sub(l[i], any)
			l[i] = sub(l[i], any) // (neighbouring names share a separator)
		}
	}
	for i := range p.Cfg.Servers {
		all(p.Cfg.Servers[i].Ghosts, false)
		all(p.Cfg.Servers[i].Chans, false)
	}
	for i := range p.Cfg.Users {
		for j := range p.Cfg.Users[i].Nets {
			all(p.Cfg.Users[i].Nets[j].Chans, false)
		}
	}
	for i := range p.Ops {
		all(p.Ops[i].S, r.chance(50))
	}
}
