package main

import (
	"fmt"
	"strings"
	"time"
)

// Property C16: a network sees the user as away exactly while no client that
// is present is connected to it.
func init() {
	register(&profile{name: "away", prop: "C16", gen: genAway, op: opAway, final: finalAway, exotic: 20})
}

func opAway(w *World, o *Op) bool {
	switch o.K {
	case "acheck":
		if w.inst.dead {
			return true
		}
		w.settle(3 * time.Minute) // a full queue is sent in 128 s
		w.checkAway()
	default:
		return false
	}
	return true
}

// says returns the last AWAY a client sent, and how many.
func (s *sess) awaySaid() (away bool, n int) {
	for i := range s.sent {
		if m := s.sent[i].msg; m.Command == "AWAY" {
			away = len(m.Params) > 0
			n++
		}
	}
	return away, n
}

func (w *World) checkAway() {
	for i := range w.cfg.Users {
		u := &w.cfg.Users[i]
		for j := range u.Nets {
			key := u.Name + "/" + u.Nets[j].Name
			c := w.connOf(key)
			if c == nil || c.instance != w.inst.id || c.u == nil || time.Since(c.openedAt) < 2*time.Minute {
				continue
			}
			if c.conn.stuck() {
				continue
			}
			net := w.dbNetwork(key)
			if net == nil {
				continue
			}
			present, unclear, n := false, false, 0
			for _, s := range w.sess {
				if s.netKey() != key || s.inst != w.inst || s.closed || s.hungUp {
					continue
				}
				if !s.ready || s.conn.stuck() {
					unclear = true
					continue
				}
				n++
				if away, _ := s.awaySaid(); !away {
					present = true
				}
			}
			if unclear {
				continue
			}
			w.probe("away-checked")
			if n > 0 && !present {
				w.probe("all-clients-away")
			}
			got := c.u.away != ""
			if !net.AutoAway {
				w.probe("away-disabled")
				if got {
					w.fail("C16", "marked", "%s: auto-away is turned off but the user is away on the network (%q)", key, c.u.away)
				}
				continue
			}
			if got != !present {
				w.fail("C16", "away-state", "%s: away on the network: %v (%q), but %d clients are connected to it and one of them present: %v", key, got, c.u.away, n, present)
			}
			for k := range c.sent {
				if m := c.sent[k].msg; m.Command == "AWAY" && len(m.Params) > 0 && m.Params[0] != "Auto away" && m.Params[0] != "*" {
					w.probe("away-reason")
				}
			}
		}
	}
	// every AWAY of a client is answered, in order
	for _, s := range w.sess {
		if !s.aliveNow() || s.faulty {
			continue
		}
		var want, got []string
		for i := range s.sent {
			if m := s.sent[i].msg; m.Command == "AWAY" {
				if len(m.Params) > 0 {
					want = append(want, "306")
				} else {
					want = append(want, "305")
				}
			}
		}
		for i := range s.lines {
			if c := s.lines[i].msg.Command; c == "305" || c == "306" {
				got = append(got, c)
			}
		}
		if strings.Join(got, " ") != strings.Join(want, " ") {
			w.fail("C16", "away-reply", "client %s set its away state as %v and was told %v", s.label(), want, got)
		}
	}
}

func finalAway(w *World) {
	w.calm()
	if w.inst.dead {
		return
	}
	w.settle(15 * time.Minute)
	w.checkAway()
}

func genAway(r *rng, p *Plan) {
	genBase(r, p, genOpt{servers: 1 + r.intn(2), users: 1 + r.intn(2), netsPer: 2, clients: 3, named: r.chance(50), upCaps: func(r *rng) []string {
		l := genUpCaps(r)
		if r.chance(30) {
			l = append(l, "draft/pre-away")
		}
		return l
	}})
	c := &p.Cfg
	for i := range c.Clients {
		cc := &c.Clients[i]
		if r.chance(25) {
			cc.Away = r.pick("*", "brb")
			cc.Caps = uniq(append(cc.Caps, "draft/pre-away"))
		}
		if r.chance(60) {
			p.op(gap(r), "open", []string{cc.Key})
		}
	}
	if r.chance(70) {
		p.op(3000, "sleep", nil)
	}
	for i := 0; i < 15+r.intn(40); i++ {
		cc := p.anyClient(r)
		k := cc.Key
		switch x := r.intn(100); {
		case x < 22:
			p.op(gap(r), "send", []string{k, r.pick("AWAY :gone", "AWAY", "AWAY", "AWAY *", "AWAY :lunch", "away :x", "away")})
		case x < 40:
			p.op(gap(r), "open", []string{k})
		case x < 52:
			p.op(gap(r), "hangup", []string{k}, r.intn(2))
		case x < 57:
			p.op(gap(r), "quit", []string{k})
		case x < 63:
			p.op(gap(r), "drop", []string{p.anyServer(r)}, r.intn(2))
		case x < 66:
			p.op(gap(r), "serv", []string{k, "network update " + cc.Net + r.pick(" -auto-away false", " -auto-away true", " -auto-away true", fmt.Sprintf(" -username u%d", i), " -enabled false", " -enabled true")})
		case x < 69:
			p.op(gap(r), r.pick("crash", "restart"), nil)
		case x < 71:
			p.op(gap(r), "cstall", []string{k}, r.intn(4000))
			p.op(gap(r), "cunstall", []string{k})
		case x < 73:
			s := p.anyServer(r)
			p.op(gap(r), "stall", []string{s}, r.intn(2))
			p.op(r.intn(60000), "unstall", []string{s})
		case x < 75:
			s := p.anyServer(r)
			p.op(gap(r), "down", []string{s})
			p.op(r.intn(60000), "up", []string{s})
		case x < 84:
			p.op(gap(r), "msg", []string{k, r.pick("#a", "#b", "g1")}, 1+r.intn(12))
		case x < 90:
			p.op(gap(r), "acheck", nil)
		case x < 93:
			p.op(gap(r), "sleep", nil)
		case x < 95:
			for _, o := range c.Clients {
				if o.Net == cc.Net && o.User == cc.User {
					p.op(r.intn(3), "hangup", []string{o.Key}, r.intn(2))
				}
			}
		default:
			p.op(gap(r), "dialfault", []string{p.anyServer(r)}, r.intn(60), r.intn(20000))
		}
	}
}

func (c *simConn) stuck() bool { return c.in.stalled || c.out.stalled }
