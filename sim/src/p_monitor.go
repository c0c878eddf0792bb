package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Property C17: every client is told the state of the nicknames it monitors,
// and only of those.
func init() {
	register(&profile{name: "monitor", prop: "C17", gen: genMonitor, init: initMonitor, op: opMonitor, final: finalMonitor, exotic: 20})
}

type monReq struct {
	s       *sess
	sub     string
	targets []string
	seq     int
	id      string
}

type monState struct{ reqs []*monReq }

func (w *World) mon() *monState {
	if w.x["mon"] == nil {
		w.x["mon"] = &monState{}
	}
	return w.x["mon"].(*monState)
}

func initMonitor(w *World) {
	for i := range w.cfg.Servers {
		for _, t := range w.cfg.Servers[i].Isupport {
			if v, ok := strings.CutPrefix(t, "MONITOR="); ok {
				w.ircds[w.cfg.Servers[i].Name].monitorLimit, _ = strconv.Atoi(v)
			}
		}
	}
}

func opMonitor(w *World, o *Op) bool {
	switch o.K {
	case "mon": // client, "+", "-" or "C", targets
		s := w.cur[o.s(0)]
		if s == nil || !s.live() || s.cfg.Net == "" {
			return true
		}
		w.monitor(s, o.s(1), o.s(2))
	case "mcheck":
		if w.inst.dead {
			return true
		}
		w.settle(3 * time.Minute)
		w.checkMonitor()
	default:
		return false
	}
	return true
}

func (w *World) monitor(s *sess, sub, targets string) *monReq {
	st := w.mon()
	r := &monReq{s: s, sub: sub, id: fmt.Sprintf("mon%d", len(st.reqs)), seq: w.nextSeq()}
	if targets != "" {
		r.targets = strings.Split(targets, ",")
	}
	st.reqs = append(st.reqs, r)
	if targets != "" {
		s.send("MONITOR " + sub + " " + targets)
	} else {
		s.send("MONITOR " + sub)
	}
	s.send("PING :" + r.id)
	return r
}

// done tells when a request was dealt with (0: not yet) and if it was refused.
func (r *monReq) done() (seq int, refused bool) {
	for i := range r.s.lines {
		l := &r.s.lines[i]
		if l.seq < r.seq {
			continue
		}
		if l.msg.Command == "PONG" {
			if par(l.msg, 1) == r.id {
				return l.seq, refused
			}
			refused = false // an earlier request's answers end here
		}
		if l.msg.Command == "421" && par(l.msg, 1) == "MONITOR" {
			refused = true
		}
	}
	return 0, refused
}

// watched returns the nicknames a session monitors for sure, by folded name,
// with the sequence number of the request; unsure ones have 0.
func (w *World) watched(s *sess, fold func(string) string) map[string]int {
	m := map[string]int{}
	for _, r := range w.mon().reqs {
		if r.s != s {
			continue
		}
		d, refused := r.done()
		if refused {
			continue
		}
		for _, t := range r.targets {
			if r.sub == "+" {
				m[fold(t)] = r.seq
				if d == 0 {
					m[fold(t)] = 0
				}
			} else if r.sub == "-" {
				if d == 0 {
					m[fold(t)] = 0
				} else {
					delete(m, fold(t))
				}
			}
		}
		if r.sub == "C" {
			for t := range m {
				if d == 0 {
					m[t] = 0
				} else {
					delete(m, t)
				}
			}
		}
	}
	return m
}

func nickOf(t string) string {
	n, _, _ := strings.Cut(t, "!")
	return n
}

// checkMonitorServer: what soju monitors at the server is what its clients
// monitor (and the nickname it waits for), so that no entry stays behind when
// the client that asked for it leaves: the server's list is limited.
func (w *World) checkMonitorServer(key string) {
	c := w.connOf(key)
	if c == nil || c.instance != w.inst.id || c.conn.stuck() || time.Since(c.regAt) < 2*time.Minute {
		return
	}
	fold := c.srv.fold
	may := map[string]bool{}
	for _, s := range w.sess {
		if s.inst != w.inst || s.netKey() != key || s.conn.peer.closed {
			continue
		}
		if !s.aliveNow() || s.conn.stuck() {
			return
		}
		for t := range w.watched(s, fold) {
			may[t] = true
		}
	}
	u := w.dbUser(strings.SplitN(key, "/", 2)[0])
	n := w.dbNetwork(key)
	if u == nil || n == nil {
		return
	}
	may[fold(u.Username)] = true
	may[fold(u.Nick)] = true
	may[fold(n.Nick)] = true
	for _, t := range sortedKeys(c.monitor) {
		if !may[t] {
			w.fail("C17", "left-behind", "soju still monitors %s on server %s for %s, though none of the clients connected to that network asks for it", t, c.srv.name, key)
		}
	}
	if len(c.monitor) > 0 {
		w.probe("server-list-checked")
	}
}

func (w *World) checkMonitor() {
	for i := range w.cfg.Users {
		u := &w.cfg.Users[i]
		for j := range u.Nets {
			w.checkMonitorServer(u.Name + "/" + u.Nets[j].Name)
		}
	}
	for _, s := range w.sess {
		key := s.netKey()
		c := w.connOf(key)
		if s.cfg.Net == "" || !s.aliveNow() || s.faulty || s.conn.stuck() || c == nil || c.instance != w.inst.id || c.conn.stuck() || time.Since(c.regAt) < 2*time.Minute {
			continue
		}
		srv := c.srv
		m := w.watched(s, srv.fold)
		// what the client was last told
		told, full := map[string]string{}, map[string]bool{}
		tell := func(l *cline) {
			switch l.msg.Command {
			case "730", "731":
				for _, t := range strings.Split(par(l.msg, 1), ",") {
					if q := m[srv.fold(nickOf(t))]; q > 0 && q < l.seq {
						told[srv.fold(nickOf(t))] = l.msg.Command
					}
				}
			case "734":
				for _, t := range strings.Split(par(l.msg, 2), ",") {
					full[srv.fold(t)] = true
				}
			}
		}
		for i := range s.lines {
			tell(&s.lines[i])
		}
		truth := func(t string) string {
			if srv.users[t] != nil || t == srv.fold("BouncerServ") {
				return "730"
			}
			return "731"
		}
		for _, t := range sortedKeys(m) {
			if m[t] == 0 || full[t] {
				continue
			}
			w.probe("watched-" + truth(t))
			switch {
			case told[t] == "":
				w.fail("C17", "never-told", "client %s monitors %s and was never told whether it is online", s.label(), t)
			case told[t] != truth(t):
				w.fail("C17", "stale", "client %s monitors %s and was last told %s, but %s is right (730: online)", s.label(), t, told[t], truth(t))
			}
		}
		if len(full) > 0 && len(m) > 0 {
			w.probe("list-full")
		}
		// what it is told when asking
		ask := func(sub string) []*cline {
			from := len(s.lines)
			r := w.monitor(s, sub, "")
			w.settle(5 * time.Second)
			if d, refused := r.done(); d == 0 || refused || w.connOf(key) != c {
				return nil
			}
			var out []*cline
			for i := from; i < len(s.lines); i++ {
				out = append(out, &s.lines[i])
			}
			return out
		}
		var got []string
		n := 0
		ok := false
		for _, l := range ask("L") {
			switch l.msg.Command {
			case "732":
				for _, t := range strings.Split(par(l.msg, 1), ",") {
					if !full[srv.fold(t)] {
						got = append(got, srv.fold(t))
					}
					n++
				}
			case "733":
				ok = true
			}
		}
		var want []string
		unsure := false
		for t := range m {
			if m[t] == 0 {
				unsure = true
			}
			if !full[t] {
				want = append(want, t)
			}
		}
		sort.Strings(got)
		sort.Strings(want)
		if ok && !unsure && strings.Join(got, ",") != strings.Join(want, ",") {
			w.fail("C17", "list", "client %s monitors %v but is told that it monitors %v", s.label(), want, got)
		}
		st := map[string]string{}
		for _, l := range ask("S") {
			if l.msg.Command == "730" || l.msg.Command == "731" {
				for _, t := range strings.Split(par(l.msg, 1), ",") {
					st[srv.fold(nickOf(t))] = l.msg.Command
				}
				ok = true
			}
		}
		if ok && !unsure && len(st) > 0 {
			for _, t := range want {
				if st[t] != truth(t) {
					w.fail("C17", "status", "client %s asked for the state of the nicknames it monitors: %s is reported as %q, but %q is right", s.label(), t, st[t], truth(t))
				}
			}
		}
		w.probe("monitor-checked")
	}
}

// checkMonitorHistory: nobody is told about nicknames it does not monitor.
func (w *World) checkMonitorHistory() {
	type req struct {
		*monReq
		d       int
		refused bool
	}
	by := map[*sess][]req{}
	for _, r := range w.mon().reqs {
		d, refused := r.done()
		by[r.s] = append(by[r.s], req{r, d, refused})
	}
	for _, s := range w.sess {
		if s.cfg.Net == "" {
			continue
		}
		srv := w.ircds[w.cfg.user(s.cfg.User).net(s.cfg.Net).Server]
		for i := range s.lines {
			l := &s.lines[i]
			if l.msg.Command != "730" && l.msg.Command != "731" {
				continue
			}
			for _, t := range strings.Split(par(l.msg, 1), ",") {
				n := srv.fold(nickOf(t))
				may := false
				for _, r := range by[s] {
					if r.seq > l.seq || r.refused {
						continue
					}
					for _, x := range r.targets {
						if srv.fold(x) != n {
							continue
						}
						if r.sub == "+" {
							may = true
						} else if r.sub == "-" && r.d != 0 && r.d < l.seq {
							may = false
						}
					}
					if r.sub == "C" && r.d != 0 && r.d < l.seq {
						may = false
					}
				}
				if !may {
					w.fail("C17", "unasked", "client %s received %q but does not monitor %s", s.label(), l.raw, n)
				}
			}
		}
	}
}

func finalMonitor(w *World) {
	w.calm()
	if !w.inst.dead {
		w.settle(15 * time.Minute)
		w.checkMonitor()
	}
	w.checkMonitorHistory()
}

func genMonitor(r *rng, p *Plan) {
	small := r.chance(20)
	genBase(r, p, genOpt{servers: 1 + r.intn(2), users: 1 + r.intn(2), netsPer: 2, clients: 3, named: r.chance(50), srvMod: func(r *rng, s *SrvCfg) {
		switch {
		case small:
			s.Isupport = append(s.Isupport, "MONITOR="+strconv.Itoa(1+r.intn(3)))
		case r.chance(90):
			s.Isupport = append(s.Isupport, "MONITOR=100")
		}
		s.Ghosts = append(s.Ghosts, "br[x]")
	}})
	c := &p.Cfg
	for i := range c.Clients {
		p.op(r.intn(300), "open", []string{c.Clients[i].Key})
	}
	p.op(3000, "sleep", nil)
	names := []string{"g1", "g2", "g3", "G1", "Bot1", "nobody", "br[x]", "BR[X]", "ann0", "bob0", "BouncerServ"}
	few := []string{"g1", "g2", "G2"}
	if r.chance(50) {
		names = few
	}
	pick := func() string {
		var l []string
		for i := 0; i <= r.intn(3); i++ {
			l = append(l, names[r.intn(len(names))])
		}
		return strings.Join(uniq(l), ",")
	}
	for i := 0; i < 20+r.intn(50); i++ {
		cc := p.anyClient(r)
		k := cc.Key
		switch x := r.intn(100); {
		case x < 26:
			p.op(gap(r), "mon", []string{k, "+", pick()})
		case x < 38:
			p.op(gap(r), "mon", []string{k, "-", pick()})
		case x < 41:
			p.op(gap(r), "mon", []string{k, "C", ""})
		case x < 50:
			p.op(gap(r), "pquit", []string{p.anyServer(r), names[r.intn(len(names))]})
		case x < 59:
			p.op(gap(r), "pjoin", []string{p.anyServer(r), r.pick("g1", "g2", "g3", "bot1", "br[x]"), "#a"})
		case x < 63:
			p.op(gap(r), "pnick", []string{p.anyServer(r), r.pick("g1", "g2", "g3", "nobody"), r.pick("g1", "g2", "G2", "nobody", "other")})
		case x < 70:
			p.op(gap(r), "open", []string{k})
		case x < 76:
			p.op(gap(r), "hangup", []string{k}, r.intn(2))
		case x < 79:
			p.op(gap(r), "drop", []string{p.anyServer(r)}, r.intn(2))
		case x < 81:
			p.op(gap(r), "serv", []string{k, "network update " + cc.Net + fmt.Sprintf(" -username u%d", i)})
		case x < 83:
			p.op(gap(r), r.pick("crash", "restart"), nil)
		case x < 85:
			p.op(gap(r), "cstall", []string{k}, r.intn(4000))
			p.op(gap(r), "cunstall", []string{k})
		case x < 87:
			s := p.anyServer(r)
			p.op(gap(r), "stall", []string{s}, r.intn(2))
			p.op(r.intn(60000), "unstall", []string{s})
		case x < 93:
			p.op(gap(r), "msg", []string{k, r.pick("#a", "#b", "g1")}, 1+r.intn(12))
		default:
			p.op(gap(r), "mcheck", nil)
		}
	}
}
