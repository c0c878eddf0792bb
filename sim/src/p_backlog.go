package main

import (
	"fmt"
	"strings"
	"time"
)

// Property C04: what a client missed while away is delivered when it returns,
// once, in order.
func init() {
	register(&profile{name: "backlog", prop: "C04", gen: genBacklog, final: finalBacklog, weight: 3, exotic: 20})
	register(&profile{name: "backlog-relay", prop: "C04", gen: genRelay, op: opSupport, final: finalBacklog, exotic: 20})
}

func genBacklog(r *rng, p *Plan) {
	genBase(r, p, genOpt{servers: 1, users: 1 + r.intn(2), netsPer: 1 + r.intn(2), clients: 3, stores: []string{"memory", "db", "fs"}, named: true, upCaps: func(r *rng) []string {
		l := genUpCaps(r)
		return l
	}})
	for i := range p.Cfg.Clients {
		c := &p.Cfg.Clients[i]
		if r.chance(10) {
			c.Client = "" // the unnamed client
		}
		if r.chance(15) {
			c.Caps = append(c.Caps, "draft/chathistory")
		}
	}
	calm := func() { p.op(r.intn(20000), "settle", nil, 8+r.intn(20)) }
	for _, c := range p.Cfg.Clients {
		if r.chance(85) {
			p.op(gap(r), "open", []string{c.Key}, 10)
		}
	}
	calm()
	chat := func() {
		for i := 1 + r.intn(4); i > 0; i-- {
			u, nc := p.anyNet(r)
			if r.chance(65) {
				reps := 1 + r.intn(4)
				if r.chance(5) {
					reps = 30 + r.intn(100)
				}
				p.op(gap(r), "say", []string{nc.Server, r.pick("g1", "g2", "g3"), r.pick("#a", "#b", "#A", "@"+u.Name+"/"+nc.Name), r.pick("PRIVMSG", "PRIVMSG", "NOTICE")}, reps)
			} else {
				p.op(gap(r), "msg", []string{p.anyClient(r).Key, r.pick("#a", "#b", "g1", "g3", "bot1"), r.pick("PRIVMSG", "NOTICE")}, 1+r.intn(3))
			}
		}
	}
	for n := 2 + r.intn(6); n > 0; n-- {
		chat()
		if r.chance(60) {
			calm()
		}
		for i := r.intn(4); i > 0; i-- {
			p.op(gap(r), r.pick("hangup", "hangup", "quit"), []string{p.anyClient(r).Key}, r.intn(2))
		}
		if r.chance(70) {
			calm()
		}
		switch r.intn(10) {
		case 0:
			p.op(gap(r), "restart", nil)
			calm()
		case 1:
			p.op(gap(r), "crash", nil)
			calm()
		case 2:
			p.op(70000+r.intn(60000), "drop", []string{p.anyServer(r)}, r.intn(2))
		case 4:
			// clients leave while the network is gone
			calm()
			srv := p.anyServer(r)
			p.op(1000, "down", []string{srv})
			p.op(9000, "drop", []string{srv}, r.intn(2))
			for _, c := range p.Cfg.Clients {
				if r.chance(60) {
					p.op(gap(r), r.pick("hangup", "quit"), []string{c.Key}, r.intn(2))
				}
			}
			calm()
			p.op(gap(r), r.pick("crash", "crash", "restart"), nil)
			p.op(gap(r), "up", []string{srv})
			calm()
		case 3:
			u, nc := p.anyNet(r)
			for _, c := range p.Cfg.Clients {
				if c.User == u.Name && c.Net == nc.Name {
					p.op(20000, "send", []string{c.Key, "PRIVMSG BouncerServ :network update " + nc.Name + " -auto-away " + r.pick("true", "false")})
					break
				}
			}
		}
		chat()
		if r.chance(50) {
			calm()
		}
		for i := 1 + r.intn(4); i > 0; i-- {
			p.op(gap(r), "open", []string{p.anyClient(r).Key}, r.intn(2)*10)
		}
		if r.chance(60) {
			calm()
		}
	}
}

// bufferOf names the conversation a message belongs to.
func bufferOf(m *wmsg, fold func(string) string) string {
	if isChan(m.target) {
		return fold(strings.TrimLeft(m.target, "@+"))
	}
	if m.dir == "up" {
		return fold(m.from)
	}
	return fold(m.target)
}

// clientID identifies a client across its sessions.
func (s *sess) clientID() string { return s.netKey() + "@" + s.cfg.Client }

// span of a session as far as soju is concerned.
func (s *sess) endAt() time.Time {
	switch {
	case s.hungUp:
		return s.hungAt
	case s.closed:
		return s.closedAt
	}
	return time.Now()
}

// sojuGot: soju certainly processed message m of network key, by instance inst.
func (w *World) sojuGot(m *wmsg, key string) (*instance, bool) {
	const slack = 8 * time.Second
	if m.dir == "up" {
		for _, c := range m.conns {
			if w.ownerOf(c) != key {
				continue
			}
			inst := w.insts[c.instance-1]
			if (c.gone && c.goneAt.Before(m.at.Add(slack))) || !inst.deadAt.IsZero() && inst.deadAt.Before(m.at.Add(slack)) {
				return nil, false
			}
			// bytes held up on a stalled link are lost with it
			if !c.stallFrom.IsZero() && m.at.After(c.stallFrom.Add(-slack)) {
				for _, end := range []time.Time{c.goneAt, inst.deadAt} {
					if !end.IsZero() && (c.stallTo.IsZero() || end.Before(c.stallTo.Add(slack))) {
						return nil, false
					}
				}
			}
			return inst, true
		}
		return nil, false
	}
	if m.sess.netKey() != key || !w.accepted[m.text] || strings.Contains(m.target, ",") {
		return nil, false
	}
	c := w.connOf(key)
	inst := m.sess.inst
	if c == nil || c.instance != inst.id || c.regAt.After(m.at) {
		return nil, false // the network reconnected since
	}
	if !inst.deadAt.IsZero() && inst.deadAt.Before(m.at.Add(slack)) {
		return nil, false
	}
	return inst, true
}

func finalBacklog(w *World) {
	for _, srv := range w.ircdList() {
		srv.ln.closed = false
		w.commonOp(&Op{K: "unstall", S: []string{srv.name}})
	}
	for _, s := range w.sess {
		if !s.hungUp && !s.closed {
			s.conn.in.capacity = 0
			s.conn.Stall(true, false)
		}
	}
	w.settle(15 * time.Minute)
	// every client identity comes back once more
	done := map[string]bool{}
	for i := range w.cfg.Clients {
		cc := w.cfg.Clients[i]
		if s := w.cur[cc.Key]; s != nil && s.live() {
			continue
		}
		id := cc.User + "/" + cc.Net + "@" + cc.Client
		if done[id] || cc.Net == "" {
			continue
		}
		done[id] = true
		if s := w.open(cc); s != nil {
			s.waitReady(30 * time.Second)
		}
	}
	w.settle(3 * time.Minute)
	w.checkBacklog("C04")
}

type ident struct {
	id   string
	key  string
	ss   []*sess
	fold func(string) string
}

func (w *World) checkBacklog(prop string) {
	ids := map[string]*ident{}
	var order []string
	for _, s := range w.sess {
		if s.cfg.Net == "" || !s.ready {
			continue
		}
		id := s.clientID()
		if ids[id] == nil {
			ids[id] = &ident{id: id, key: s.netKey(), fold: s.fold}
			order = append(order, id)
		}
		ids[id].ss = append(ids[id].ss, s)
	}
	for _, id := range order {
		w.checkIdent(prop, ids[id])
	}
}

func (w *World) checkIdent(prop string, x *ident) {
	const calm = 8 * time.Second
	uc := w.cfg.user(strings.SplitN(x.key, "/", 2)[0])
	nc := uc.net(strings.SplitN(x.key, "/", 2)[1])
	srv := w.ircds[nc.Server]
	fold := srv.fold
	// acknowledgements may wait until a client which doesn't read is given up
	heard := calm
	for i := range w.plan.Ops {
		if w.plan.Ops[i].K == "cstall" {
			heard = 40 * time.Second
		}
	}
	type rcv struct {
		s  *sess
		at time.Time
	}
	got := map[string][]rcv{}
	for _, s := range x.ss {
		lastSeq := map[string]int{}
		lastTxt := map[string]string{}
		for i := range s.lines {
			l := &s.lines[i]
			m := w.byText[lineText(l)]
			if m == nil {
				continue
			}
			got[m.text] = append(got[m.text], rcv{s, l.at})
			b := bufferOf(m, fold)
			if m.dir == "up" && !m.loose {
				// own messages may be echoed later than peers see them
				if m.seq < lastSeq[b] {
					w.fail(prop, "reordered", "client %s received %s in %s after %s, which was sent later", s.label(), m.text, b, lastTxt[b])
				}
				lastSeq[b], lastTxt[b] = m.seq, m.text
			}
		}
	}
	// acked: when the client first certainly acknowledged something per buffer
	acked := map[string]time.Time{}
	ackedIn := map[string]*sess{}
	for _, m := range w.msgs {
		for _, r := range got[m.text] {
			if r.s.caps["draft/chathistory"] || r.s.cfg.NoPong || r.s.faulty {
				continue
			}
			if r.s.endAt().Sub(r.at) >= calm && r.s.inst.aliveAt(r.at.Add(calm)) {
				b := bufferOf(m, fold)
				if w.cfg.Store == "memory" {
					b = fmt.Sprintf("%d %s", r.s.inst.id, b)
				}
				if acked[b].IsZero() || r.at.Before(acked[b]) {
					acked[b] = r.at
					ackedIn[b] = r.s
				}
				n := "net"
				if w.cfg.Store == "memory" {
					n = fmt.Sprintf("net %d", r.s.inst.id)
				}
				if acked[n].IsZero() || r.at.Before(acked[n]) {
					acked[n] = r.at
					ackedIn[n] = r.s
				}
			}
		}
	}
	// since: when a conversation saw its first message ever
	since := map[string]time.Time{}
	for _, m := range w.msgs {
		if m.dir == "down" && m.sess.netKey() != x.key {
			continue
		}
		touch := func(b string) {
			if since[b].IsZero() || m.at.Before(since[b]) {
				since[b] = m.at
			}
		}
		if m.dir == "down" {
			for _, t := range strings.Split(m.target, ",") {
				touch(fold(strings.TrimLeft(t, "@+")))
			}
			continue
		}
		touch(bufferOf(m, fold))
	}
	for _, m := range w.msgs {
		if m.dir == "down" && m.sess.netKey() != x.key {
			continue
		}
		if m.dir == "down" && m.sess.clientID() == x.id && !m.sess.caps["echo-message"] {
			continue // the origin is not sent its own message
		}
		if m.dir == "down" {
			// a message on its way while the server changes its capabilities
			// may not be echoed, which nobody sees then
			changed := false
			for _, t := range srv.capAt {
				changed = changed || t.After(m.at.Add(-10*time.Second)) && t.Before(m.at.Add(5*time.Minute))
			}
			if changed {
				continue
			}
		}
		inst, ok := w.sojuGot(m, x.key)
		if !ok {
			continue
		}
		b := bufferOf(m, fold)
		// at most once after an acknowledged delivery
		rs := got[m.text]
		for i := 1; i < len(rs); i++ {
			p, q := rs[i-1], rs[i]
			if p.s == q.s {
				w.fail(prop, "duplicate", "client %s received %s twice in one session", q.s.label(), m.text)
				continue
			}
			if q.s.cfg.NoPong || p.s.caps["draft/chathistory"] || p.s.faulty || p.s.endAt().Sub(p.at) < heard || q.s.openedAt.Sub(p.s.endAt()) < calm {
				continue
			}
			// a crash forgets what was acknowledged since the last hang-up
			if crash := w.crashBetween(p.at, q.at); !crash.IsZero() && (crash.Sub(p.s.endAt()) < calm || w.cfg.Store == "memory") {
				continue
			}
			// other sessions of the same client in between may move receipts
			w.probe("backlog-once")
			w.fail(prop, "backlog-duplicate", "client %s received %s again although it had acknowledged it in session %s", q.s.label(), m.text, p.s.label())
		}
		if len(rs) > 0 {
			w.probe("backlog-got")
			if rs[0].at.Sub(m.at) > calm {
				w.probe("backlog-late")
			}
			continue
		}
		// nobody of this identity got it: was somebody bound to?
		ab := b
		if w.cfg.Store == "memory" {
			ab = fmt.Sprintf("%d %s", inst.id, b)
		}
		if !acked[ab].IsZero() && acked[ab].Add(calm).Before(m.at) {
			w.missing(prop, x, m, b, inst, ackedIn[ab], false)
			continue
		}
		// a private conversation that began when the client was already known
		// (channels also begin with joins and the like)
		n := "net"
		if w.cfg.Store == "memory" {
			n = fmt.Sprintf("net %d", inst.id)
		}
		if !isChan(b) && !acked[n].IsZero() && acked[n].Add(calm).Before(since[b]) {
			w.missing(prop, x, m, b, inst, ackedIn[n], true)
		}
	}
}

func (i *instance) aliveAt(t time.Time) bool { return i.deadAt.IsZero() || i.deadAt.After(t) }

// crashBetween returns the time of the first crash in (a, b).
func (w *World) crashBetween(a, b time.Time) time.Time {
	for _, i := range w.insts {
		if i.crashed && i.deadAt.After(a) && i.deadAt.Before(b) {
			return i.deadAt
		}
	}
	return time.Time{}
}

// missing decides whether a message that reached no session of the client is
// a violation.
func (w *World) missing(prop string, x *ident, m *wmsg, b string, inst *instance, first *sess, fresh bool) {
	const calm = 8 * time.Second
	// all sessions were over well before, or start well after
	var next *sess
	for _, s := range x.ss {
		switch {
		case s.endAt().Add(calm).Before(m.at):
		case s.openedAt.After(m.at.Add(calm)):
			if next == nil {
				next = s
			}
		default:
			return // overlaps: live delivery, decided elsewhere
		}
	}
	// sessions of the identity that never became ready matter as well
	for _, s := range w.sess {
		if s.clientID() == x.id && !s.ready && s.openedAt.After(m.at.Add(-calm)) && (next == nil || s.openedAt.Before(next.openedAt.Add(calm))) {
			return
		}
	}
	if next == nil || next.caps["draft/chathistory"] || next.faulty {
		return
	}
	if next.endAt().Sub(next.readyAt) < 30*time.Second || !next.inst.aliveAt(next.readyAt.Add(30*time.Second)) {
		return
	}
	if w.cfg.Store == "memory" {
		if next.inst != inst || first.inst != inst {
			return
		}
	} else if crash := w.crashBetween(first.openedAt, next.openedAt); !crash.IsZero() && (fresh || crash.Sub(first.endAt()) < calm) {
		// receipts are saved when a client leaves: the acknowledging session
		// must have been over by then
		return
	}
	// a client with the same name elsewhere on the network (same identity) is
	// covered above; chathistory sessions advance nothing
	w.probe("backlog-owed")
	w.fail(prop, "backlog-lost", "client %s never received %s (%s in %s, sent %s): it was away then and had acknowledged earlier messages there (session %s); its next session was %s, opened %s", x.id, m.text, m.cmd, b, m.at.Sub(w.start).Round(time.Millisecond), first.label(), next.label(), next.openedAt.Sub(w.start).Round(time.Millisecond))
}
