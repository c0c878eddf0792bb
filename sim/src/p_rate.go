package main

import (
	"fmt"
	"strings"
	"time"
)

// Property C30: servers are never sent more than they are known to put up
// with, and nothing is held back for longer than that takes.
func init() {
	register(&profile{name: "rate", prop: "C30", gen: genRate, init: initRate, op: opRate, final: finalRate, weight: 3, exotic: 20})
	register(&profile{name: "rate-relay", prop: "C30", gen: genRelay, op: opSupport, final: finalRateOnly, exotic: 20})
	register(&profile{name: "rate-account", prop: "C30", gen: genAccount, init: initAccount, op: opAccount, final: finalRateOnly})
}

const (
	rateBurst = 10
	rateEvery = 2 * time.Second
	rateSlack = 5 * time.Second
)

// safeEv is a server declaring that it doesn't mind floods, or withdrawing it.
type safeEv struct {
	at time.Time
	on bool
}

type rateLine struct {
	at   time.Time
	s    *sess
	c    *iconn
	text string
}

type rateState struct {
	lines []*rateLine
	n     int
}

func initRate(w *World) { w.x["rate"] = &rateState{} }

// noteSafe remembers what a server declares.
func (c *iconn) noteSafe(params []string) {
	for _, p := range params {
		k, _, _ := strings.Cut(strings.ToUpper(p), "=")
		switch k {
		case "SOJU.IM/SAFERATE":
			c.safe = append(c.safe, safeEv{time.Now(), true})
		case "-SOJU.IM/SAFERATE":
			c.safe = append(c.safe, safeEv{time.Now(), false})
		}
	}
}

// mayFlood tells whether soju might believe, at a given time, that the server
// doesn't mind floods.
func (c *iconn) mayFlood(t time.Time) bool {
	on := false
	for _, e := range c.safe {
		if e.at.After(t) {
			break
		}
		if e.on {
			on = true
		} else if t.Sub(e.at) > rateSlack && (c.stallFrom.IsZero() || t.Before(c.stallFrom)) {
			on = false
		}
	}
	return on
}

// checkRate judges what was sent on every connection to a server. The
// connection may have been blocked while a message was being written, so one
// more than the burst is let through.
func (w *World) checkRate() {
	for _, srv := range w.ircdList() {
		for _, c := range srv.conns {
			if c.tls != nil {
				continue
			}
			tokens := float64(rateBurst + 1)
			var last time.Time
			for i, t := range c.conn.peer.lineAt {
				if i > 0 {
					tokens += t.Sub(last).Seconds() / rateEvery.Seconds()
				}
				if tokens > rateBurst+1 {
					tokens = rateBurst + 1
				}
				last = t
				if c.mayFlood(t) {
					w.probe("sent-unlimited")
					continue
				}
				if tokens--; tokens < -0.01 {
					w.fail("C30", "flooded", "server %s was sent %d lines on connection #%d by %s, more than a burst of %d and one every %v allow; last: %s", srv.name, i+1, c.idx, clockOf(w, t), rateBurst, rateEvery, recvTail(c, i))
					return
				}
				if tokens < 1.5 {
					w.probe("at-the-limit")
				}
			}
		}
	}
}

func recvTail(c *iconn, i int) string {
	if i < len(c.recv) {
		return c.recv[i].raw
	}
	return "(not read)"
}

func finalRateOnly(w *World) { w.checkRate() }

// tokensAt is how many messages could have been sent at once at a time, at
// least.
func (c *iconn) tokensAt(s time.Time) float64 {
	if len(c.safe) > 0 {
		return 0
	}
	tokens := float64(rateBurst)
	var last time.Time
	for i, t := range append(append([]time.Time(nil), c.conn.peer.lineAt...), s) {
		final := i == len(c.conn.peer.lineAt)
		if !final && !t.Before(s) {
			continue
		}
		if !last.IsZero() {
			tokens += t.Sub(last).Seconds() / rateEvery.Seconds()
		}
		if tokens > rateBurst {
			tokens = rateBurst
		}
		last = t
		if !final {
			tokens--
		}
	}
	if tokens < 0 {
		tokens = 0
	}
	return tokens
}

// writtenAt is when soju sent a message, and how many lines it had sent since
// another moment.
func (l *rateLine) writtenAt() (t time.Time, n int, ok bool) {
	for i, x := range l.c.recv {
		if x.msg != nil && par(x.msg, 1) == l.text && i < len(l.c.conn.peer.lineAt) {
			t, ok = l.c.conn.peer.lineAt[i], true
			break
		}
	}
	for _, x := range l.c.conn.peer.lineAt {
		if !x.Before(l.at) && (!ok || !x.After(t)) {
			n++
		}
	}
	return t, n, ok
}

// disturbed tells that a message might have been lost or delayed for another
// reason.
func (l *rateLine) disturbed(w *World, until time.Time) bool {
	c, s := l.c, l.s
	before := func(t time.Time) bool { return !t.IsZero() && t.Before(until) }
	return c.gone && before(c.goneAt) || c.conn.peer.closed || !c.stallFrom.IsZero() && before(c.stallFrom) ||
		s.hungUp && before(s.hungAt.Add(-time.Second)) || s.closed && before(s.closedAt) ||
		(s.inst.dead || s.inst.stopped) && before(s.inst.deadAt) || s.faulty
}

func (w *World) checkDelays() {
	st := w.x["rate"].(*rateState)
	for _, l := range st.lines {
		t, n, ok := l.writtenAt()
		if !ok {
			t = time.Now()
		}
		if l.disturbed(w, t) {
			continue
		}
		limit := rateSlack
		safe := false
		for _, e := range l.c.safe {
			if e.at.Before(t) {
				safe = e.on && e.at.Before(l.at.Add(-2*rateSlack))
			}
		}
		if !safe {
			wait := float64(n) - l.c.tokensAt(l.at)
			if wait > 0 {
				limit += time.Duration(wait * float64(rateEvery))
			}
		}
		if t.Sub(l.at) > limit {
			what := "was sent only"
			if !ok {
				what = "hasn't been sent"
			}
			w.fail("C30", "held-back", "message %q of %s to %s %s %v later, with %d lines in between (limit: %v)", l.text, l.s.cfg.Key, l.c.srv.name, what, t.Sub(l.at), n, limit)
			return
		}
		w.probe("timely")
		if safe {
			w.probe("timely-unlimited")
		}
		if n > rateBurst {
			w.probe("timely-after-burst")
		}
	}
}

func (w *World) upConn(key string) *iconn {
	for _, srv := range w.ircdList() {
		for _, c := range srv.live() {
			if c.instance == w.inst.id && w.ownerOf(c) == key && !c.conn.peer.closed {
				return c
			}
		}
	}
	return nil
}

func opRate(w *World, o *Op) bool {
	switch o.K {
	case "rsay": // client, target, number of messages
		st := w.x["rate"].(*rateState)
		s := w.cur[o.s(0)]
		if s == nil || !s.live() || s.cfg.Net == "" {
			return true
		}
		c := w.upConn(s.cfg.User + "/" + s.cfg.Net)
		if c == nil || time.Since(c.regAt) < 10*time.Second {
			return true
		}
		n := o.n(0)
		for _, l := range st.lines {
			if l.c == c {
				if _, _, ok := l.writtenAt(); !ok {
					n++
				}
			}
		}
		if n > 40 { // would fill soju's queue
			w.probe("queue-long")
			return true
		}
		for i := 0; i < o.n(0); i++ {
			st.n++
			l := &rateLine{at: time.Now(), s: s, c: c, text: fmt.Sprintf("rate-%d", st.n)}
			st.lines = append(st.lines, l)
			cmd := "PRIVMSG"
			if o.n(1) > 0 && i%2 == 1 {
				cmd = "NOTICE"
			}
			s.send(cmd + " " + o.s(1) + " " + l.text)
		}
	case "safe": // server; on
		t := "soju.im/SAFERATE"
		if o.n(0) == 0 {
			t = "-" + t
		}
		w.fault("saferate-change")
		w.ircds[o.s(0)].setISupport([]string{"AWAYLEN=100", t})
	default:
		return false
	}
	return true
}

func finalRate(w *World) {
	w.settle(2 * time.Minute)
	w.checkRate()
	w.checkDelays()
}

func genRate(r *rng, p *Plan) {
	genBase(r, p, genOpt{servers: 1 + r.intn(2), users: 1 + r.intn(2), netsPer: 1 + r.intn(2), clients: 3, stores: []string{"memory"}, named: r.chance(60)})
	c := &p.Cfg
	for i := range c.Clients {
		p.op(r.intn(300), "open", []string{c.Clients[i].Key})
	}
	p.op(20000, "sleep", nil)
	safe := r.chance(50)
	for n := 8 + r.intn(25); n > 0; n-- {
		cl := p.anyClient(r).Key
		_, nc := p.anyNet(r)
		switch x := r.intn(100); {
		case x < 40:
			p.op(gap(r)*r.intn(8), "rsay", []string{cl, r.pick("#a", "#b", "g1", "g2")}, []int{1, 2, 5, 10, 11, 12, 20, 25}[r.intn(8)], r.intn(2))
		case x < 50:
			p.op(gap(r), "send", []string{cl, r.pick("MODE #a", "WHO #a", "WHOIS g1", "LIST", "TOPIC #a", "NAMES #b", "JOIN #r1,#r2,#r3", "PART #r1", "AWAY :x", "AWAY", "MODE #b +b", "PING x", "NICK nn")})
		case x < 56:
			p.op(gap(r), "open", []string{cl})
		case x < 60:
			p.op(gap(r), "hangup", []string{cl}, r.intn(2))
		case x < 65:
			p.op(gap(r), "drop", []string{nc.Server}, r.intn(2))
			if r.chance(50) {
				p.op(70000+r.intn(80000), "sleep", nil)
			}
		case x < 67:
			p.op(gap(r), "stall", []string{nc.Server}, 0)
			p.op(r.intn(15000), "rsay", []string{cl, "#a"}, 1+r.intn(20), 0)
			p.op(gap(r), "unstall", []string{nc.Server})
		case x < 69:
			p.op(gap(r), "restart", nil)
			p.op(20000, "sleep", nil)
		case x < 80:
			if safe {
				p.op(gap(r)*4, "safe", []string{p.anyServer(r)}, r.intn(2))
				p.op(r.intn(20000), "sleep", nil)
				if r.chance(50) { // declared, then withdrawn while connected
					p.op(r.intn(15000), "safe", []string{nc.Server}, 1)
					p.op(6000+r.intn(6000), "safe", []string{nc.Server}, 0)
					p.op(gap(r), "rsay", []string{cl, "#a"}, 12+r.intn(14), 0)
					p.op(gap(r), "rsay", []string{p.anyClient(r).Key, "#b"}, 12+r.intn(14), 0)
				}
			}
		case x < 83:
			p.op(gap(r), "say", []string{nc.Server, "g1", "#a", "PRIVMSG"}, 1+r.intn(3))
		case x < 84:
			p.op(gap(r), "clock", nil, []int{-3600, 600, 3600}[r.intn(3)])
		default:
			p.op(r.intn(60000), "sleep", nil)
		}
	}
}
