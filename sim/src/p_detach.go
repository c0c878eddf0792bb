package main

import (
	"fmt"
	"strings"
	"time"

	"gopkg.in/irc.v4"
)

// Property C14: a detached channel is quiet but loses nothing.
func init() {
	register(&profile{name: "detach", prop: "C14", gen: genDetach, op: opDetach, final: finalDetach, exotic: 20})
}

// dchan is the reference model of one saved channel.
type dchan struct {
	user, net, name string
	detached        bool
	sure            bool // whether the model knows
	after           time.Duration
	detachOn        string
	relay           string
	reattach        string
	conn            *iconn
	lo, hi          time.Time // when the timer was last reset, zero: not running
	msgs            []*dmsg
}

// dmsg is one message in a channel.
type dmsg struct {
	token   string
	seq     int
	at      time.Time
	sess    *sess // nil if from a peer
	notice  int   // number of service notices expected: 0, 1 or -1 (unknown)
	hl      bool
	from    string
	inst    *instance
	waiting bool // arrived while detached
}

type detachState struct {
	chans map[string]*dchan
}

func (w *World) dstate() *detachState {
	if w.x["detach"] == nil {
		st := &detachState{chans: map[string]*dchan{}}
		for i := range w.cfg.Users {
			u := &w.cfg.Users[i]
			for j := range u.Nets {
				for _, c := range u.Nets[j].Chans {
					st.chans[u.Name+"/"+u.Nets[j].Name+" "+c] = &dchan{user: u.Name, net: u.Nets[j].Name, name: c, sure: true, detachOn: "message", relay: "highlight", reattach: "none"}
				}
			}
		}
		w.x["detach"] = st
	}
	return w.x["detach"].(*detachState)
}

func (d *dchan) key() string { return d.user + "/" + d.net }

// hear watches one connection: nothing about a channel may be seen by a
// client that is not in it.
func (s *sess) hear(msg *irc.Message) {
	t := strings.TrimLeft(par(msg, 0), "@+")
	switch msg.Command {
	case "PRIVMSG", "NOTICE", "TOPIC", "MODE", "KICK", "TAGMSG", "JOIN", "PART":
	case "324", "329", "331", "332", "333", "366":
		t = par(msg, 1) // (no client of this profile asks)
	case "353":
		t = par(msg, 2)
	default:
		return
	}
	if !isChan(t) {
		return
	}
	// what was missed is told even when the server can't be reached
	if d := s.w.dstate().chans[s.netKey()+" "+t]; msg.Tags["batch"] != "" || !s.ready || d != nil && !s.w.joinedUp(d) {
		if d == nil || !d.sure || !d.detached || s.usedCH {
			return
		}
	}
	if msg.Prefix != nil && s.fold(msg.Prefix.Name) == s.fold(s.nick) {
		if msg.Command == "JOIN" || msg.Command == "PART" {
			return
		}
	}
	if s.chans[s.fold(t)] == nil && !(msg.Command == "KICK" && par(msg, 1) == s.nick) {
		s.w.fail("C14", "leak", "client %s is not in %s but received %q", s.label(), t, msg.String())
	}
}

// joined tells whether the user's upstream connection is in the channel.
func (w *World) joinedUp(d *dchan) bool {
	c := w.connOf(d.key())
	if c == nil || c.instance != w.inst.id || c.u == nil {
		return false
	}
	ch := c.srv.chans[c.srv.fold(d.name)]
	if ch == nil {
		return false
	}
	_, ok := ch.members[c.u]
	return ok
}

// sleepSure waits until no timer of the channel may fire soon.
func (w *World) sleepSure(d *dchan) {
	for i := 0; i < 10; i++ {
		if c := w.connOf(d.key()); c != d.conn {
			// joining starts the timer
			d.conn, d.lo, d.hi = c, time.Time{}, time.Time{}
			if c != nil && !d.detached {
				d.lo, d.hi = c.openedAt, c.openedAt.Add(5*time.Second)
			}
		}
		if d.lo.IsZero() || d.after == 0 || d.detached {
			return
		}
		lo, hi := d.lo.Add(d.after), d.hi.Add(d.after)
		now := time.Now()
		if now.Before(lo.Add(-3 * time.Second)) {
			return
		}
		if now.Before(hi.Add(3 * time.Second)) {
			time.Sleep(hi.Add(3 * time.Second).Sub(now))
		}
		w.expire(d, lo, hi)
	}
}

// expire: the channel must have been detached by its timer.
func (w *World) expire(d *dchan, lo, hi time.Time) {
	w.probe("auto-detach")
	d.detached, d.lo = true, time.Time{}
	for _, s := range w.sess {
		if s.netKey() != d.key() || !s.aliveNow() || !s.readyAt.Before(lo.Add(-time.Second)) || s.faulty {
			continue
		}
		n := 0
		for i := range s.lines {
			l := &s.lines[i]
			if l.msg.Command == "PART" && strings.EqualFold(par(l.msg, 0), d.name) && par(l.msg, 1) == "Detach" && !l.at.Before(d.lo) && l.at.After(lo.Add(-200*time.Millisecond)) && l.at.Before(hi.Add(3*time.Second)) {
				n++
			}
		}
		if n != 1 && d.sure {
			w.fail("C14", "auto-detach", "client %s: %s should have been detached between %s and %s, it was told so %d times", s.label(), d.name, lo.Format("15:04:05"), hi.Format("15:04:05"), n)
		}
	}
	if !d.sure {
		w.resync(d)
	}
}

func (w *World) resync(d *dchan) {
	l := w.dbChannels(d.key(), strings.ToLower)
	if ch, ok := l[strings.ToLower(d.name)]; ok {
		d.detached, d.sure = ch.Detached, true
	}
}

// settled compares the world with the model.
func (w *World) settled(d *dchan) {
	if !d.sure || w.inst.dead {
		return
	}
	w.probe("state-compared")
	if ch, ok := w.dbChannels(d.key(), strings.ToLower)[strings.ToLower(d.name)]; !ok || ch.Detached != d.detached {
		w.fail("C14", "not-saved", "%s of %s: detached should be %v, saved is %v (saved at all: %v)", d.name, d.key(), d.detached, ch.Detached, ok)
	}
	joined := w.joinedUp(d)
	for _, s := range w.sess {
		if s.netKey() != d.key() || !s.aliveNow() || s.readyAt.IsZero() || time.Since(s.readyAt) < 2*time.Second || s.faulty {
			continue
		}
		if !joined {
			continue
		}
		in := s.chans[s.fold(d.name)] != nil
		if in == d.detached {
			w.fail("C14", "visible", "client %s: being in %s is %v, but it is detached: %v", s.label(), d.name, in, d.detached)
		}
		w.conserved(s, d)
	}
}

// conserved: what was said while the client was connected reaches it once.
func (w *World) conserved(s *sess, d *dchan) {
	byTok := map[string]*dmsg{}
	for _, m := range d.msgs {
		byTok[m.token] = m
	}
	direct := map[string]int{}
	notices := map[string]int{}
	for i := range s.lines {
		l := &s.lines[i]
		if l.msg.Command != "PRIVMSG" && l.msg.Command != "NOTICE" {
			continue
		}
		f := strings.Fields(strings.ReplaceAll(par(l.msg, 1), "~", " "))
		for _, x := range f {
			m := byTok[x]
			if m == nil {
				continue
			}
			if strings.EqualFold(strings.TrimPrefix(par(l.msg, 0), "@"), d.name) {
				direct[x]++
			} else if l.msg.Prefix != nil && l.msg.Prefix.Name == "BouncerServ" {
				notices[x]++
				kind := "message in "
				if m.hl {
					kind = "highlight in "
				}
				if m.seq > s.readySeq && !strings.HasPrefix(par(l.msg, 1), kind) || !strings.Contains(par(l.msg, 1), "<"+m.from+"> ") {
					w.fail("C14", "wrong-notice", "client %s: %s was relayed as %q", s.label(), m.token, l.raw)
				}
			}
		}
	}
	for _, m := range d.msgs {
		if m.seq < s.readySeq || time.Since(m.at) < 2*time.Second || m.at.Before(s.readyAt.Add(2*time.Second)) {
			continue
		}
		if direct[m.token] > 1 {
			w.fail("C14", "twice", "client %s received %s in %s %d times", s.label(), m.token, d.name, direct[m.token])
		}
		if direct[m.token] == 0 && !d.detached && m.sess != s && !(m.waiting && s.caps["draft/chathistory"]) {
			w.fail("C14", "lost", "client %s never received %s, said in %s, which is attached now", s.label(), m.token, d.name)
		}
		if m.notice >= 0 && notices[m.token] != m.notice {
			w.fail("C14", "relay", "client %s: %s (mentions the user: %v) was relayed %d times by the service, expected %d", s.label(), m.token, m.hl, notices[m.token], m.notice)
		}
		if notices[m.token] > 1 {
			w.fail("C14", "relay", "client %s: %s was relayed %d times by the service", s.label(), m.token, notices[m.token])
		}
	}
}

func (w *World) anyOn(key string) *sess {
	for _, k := range sortedKeys(w.cur) {
		if s := w.cur[k]; s.netKey() == key && s.aliveNow() {
			return s
		}
	}
	return nil
}

// dsay has a peer say something in a channel.
func (w *World) dsay(d *dchan, from string, form int, cmd string, race bool) {
	// the file store's times are full seconds: a message never is as old as
	// "now" outside of a simulation
	if time.Now().Nanosecond() < int(time.Millisecond) {
		time.Sleep(time.Millisecond)
	}
	c := w.connOf(d.key())
	nick := c.nick()
	w.mcount++
	tok := fmt.Sprintf("tok%d", w.mcount)
	var text string
	switch form {
	case 0:
		text = "hello " + tok
	case 1:
		text = nick + ": " + tok
	case 2:
		text = tok + " ask " + nick
	case 3:
		text = tok + " x" + nick + "x"
	case 4:
		text = tok + " https://" + nick + "/"
	}
	w.tracef("dsay %s in %s detached=%v/%v form=%d", tok, d.name, d.detached, d.sure, form)
	w.reach(d, nil, from, tok, nick, form == 1 || form == 2, race)
	sigil := ""
	if w.mcount%6 == 0 {
		// for those with a status only, which includes us
		c.srv.chans[c.srv.fold(d.name)].members[c.u] = "o"
		sigil = "@"
	}
	c.srv.say(c.srv.ghost(from), cmd, sigil+d.name, text, nil)
}

// reach applies a message to every model of the same channel of the server.
func (w *World) reach(d *dchan, s *sess, from, tok, nick string, mention, race bool) {
	srv := w.cfg.user(d.user).net(d.net).Server
	if s == nil {
		from = w.ircds[srv].ghost(from).nick
	}
	t0 := time.Now()
	for _, k := range sortedKeys(w.dstate().chans) {
		x := w.dstate().chans[k]
		if x.name != d.name || w.cfg.user(x.user).net(x.net).Server != srv || !w.joinedUp(x) {
			continue
		}
		m := &dmsg{token: tok, at: t0, seq: w.nextSeq(), from: from, inst: w.inst}
		x.msgs = append(x.msgs, m)
		if x == d && s != nil {
			m.sess, m.waiting = s, d.detached
			continue
		}
		m.hl = mention && w.connOf(x.key()).nick() == nick
		if x == d && race {
			m.notice, m.waiting = -1, true
			continue
		}
		x.heard(m, t0, t0.Add(2500*time.Millisecond))
	}
}

// heard applies a peer's message to the model.
func (d *dchan) heard(m *dmsg, t0, t1 time.Time) {
	if d.detached {
		m.waiting = true
		if d.relay == "message" || d.relay == "highlight" && m.hl {
			m.notice = 1
		}
		if d.reattach == "message" || d.reattach == "highlight" && m.hl {
			d.detached = false
			m.waiting = false
			d.lo, d.hi = t0, t1
		}
	}
	if !d.detached && (d.detachOn == "message" || d.detachOn == "highlight" && m.hl) {
		d.lo, d.hi = t0, t1
	}
}

func opDetach(w *World, o *Op) bool {
	st := w.dstate()
	pause := func() { w.settle(2500 * time.Millisecond) }
	sure := func() {
		for i := 0; i < 3; i++ {
			for _, k := range sortedKeys(st.chans) {
				w.sleepSure(st.chans[k])
			}
		}
	}
	switch o.K {
	case "dt": // kind, client or peer, channel key
		d := st.chans[o.s(2)]
		if w.inst.dead || d == nil {
			return true
		}
		sure()
		s := w.cur[o.s(1)]
		if s == nil || !s.aliveNow() || s.netKey() != d.key() {
			s = w.anyOn(d.key())
		}
		if !w.joinedUp(d) || !d.sure {
			return true
		}
		conn := w.connOf(d.key())
		t0 := time.Now()
		switch o.s(0) {
		case "say":
			for i := 0; i < 1+o.n(1); i++ {
				w.dsay(d, o.s(1), o.n(0), o.s(3), false)
			}
			pause()
		case "msg":
			if s == nil {
				return true
			}
			w.mcount++
			tok := fmt.Sprintf("tok%d", w.mcount)
			w.reach(d, s, conn.nick(), tok, "", false, false)
			s.send("PRIVMSG " + d.name + " :" + tok)
			pause()
			if !d.detached {
				d.lo, d.hi = t0, time.Now()
			}
		case "detach":
			if s == nil || d.detached {
				return true
			}
			s.send(r0(o.n(0), "PART "+d.name+" :detach", "PRIVMSG BouncerServ :channel update "+d.name+" -detached true", "PART "+d.name+" :Detach"))
			d.detached, d.lo = true, time.Time{}
			pause()
		case "attach":
			if s == nil || !d.detached {
				return true
			}
			s.send(r0(o.n(0), "JOIN "+d.name, "PRIVMSG BouncerServ :channel update "+d.name+" -detached false"))
			if o.n(1) == 1 {
				time.Sleep(time.Duration(o.n(2)) * time.Millisecond)
				s.hangup(o.n(2)%2 == 0)
				w.settle(time.Second)
				w.resync(d)
				if d.detached {
					break // went away too soon
				}
			}
			pause()
			d.detached, d.lo, d.hi = false, t0, time.Now()
		case "create": // a channel that is detached from the start
			if s == nil {
				return true
			}
			w.mcount++
			x := &dchan{user: d.user, net: d.net, name: fmt.Sprintf("#new%d", w.mcount), detached: true, sure: true, detachOn: "message", relay: "highlight", reattach: "none", conn: conn}
			st.chans[x.key()+" "+x.name] = x
			s.send("PRIVMSG BouncerServ :channel create " + x.name + " -detached true")
			pause()
			for i := 0; i < o.n(0); i++ {
				conn.srv.join(conn.srv.ghost("g1"), x.name, "")
				w.dsay(x, "g1", i%3, "PRIVMSG", false)
			}
			pause()
			s.send("JOIN " + x.name)
			pause()
			x.detached = false
		case "kick": // and rejoin, some time later
			if s == nil || d.detached {
				return true
			}
			ch := conn.srv.chans[conn.srv.fold(d.name)]
			if ch == nil {
				return true
			}
			conn.srv.kick(conn.srv.ghost("g1").prefix(), ch, conn.u, "out", nil)
			w.settle(time.Duration(1+o.n(0)) * time.Second)
			t0 = time.Now()
			s.send("JOIN " + d.name)
			pause()
			d.lo, d.hi = t0, time.Now()
		case "nick": // the server gives the user another nick
			w.mcount++
			conn.srv.rename(conn.u, fmt.Sprintf("forced%d", w.mcount))
			pause()
		case "opt": // ..., option, value
			if s == nil {
				return true
			}
			s.send("PRIVMSG BouncerServ :channel update " + d.name + " " + o.s(3) + " " + o.s(4))
			v := o.s(4)
			switch o.s(3) {
			case "-detach-after":
				d.after, _ = time.ParseDuration(v)
			case "-detach-on":
				d.detachOn = r1(v, "message")
			case "-relay-detached":
				d.relay = r1(v, "highlight")
			case "-reattach-on":
				d.reattach = r1(v, "none")
			}
			pause()
			if !d.detached {
				d.lo, d.hi = t0, time.Now()
			}
		case "race":
			// everything at once: only what holds in any order is judged
			if s == nil {
				return true
			}
			for i := 0; i < 1+o.n(1); i++ {
				w.dsay(d, r0(i, "g1", "g2"), (o.n(0)+i)%3, "PRIVMSG", true)
				if (o.n(0)+i)%2 == 0 {
					s.send(r0(o.n(0)+i/2, "PART "+d.name+" :detach", "JOIN "+d.name, "PRIVMSG BouncerServ :channel update "+d.name+" -detached true", "JOIN "+d.name))
				}
				if o.n(2) > 0 {
					time.Sleep(time.Duration(o.n(2)) * time.Millisecond)
				}
			}
			if o.s(3) == "crash" {
				w.commonOp(&Op{K: "crash"})
				w.settle(75 * time.Second)
				// what never made it into the store is gone
				for _, k := range sortedKeys(st.chans) {
					x := st.chans[k]
					for _, m := range x.msgs {
						if !m.at.Before(t0) {
							m.seq = -1
						}
					}
					w.resync(x)
				}
			}
			pause()
			w.resync(d)
			if o.s(3) == "crash" {
				break
			}
			// restart the timer, if there is one
			t0 = time.Now()
			s.send("PRIVMSG BouncerServ :channel update " + d.name + " -detach-on " + d.detachOn)
			pause()
			w.resync(d)
			d.lo, d.hi = time.Time{}, time.Time{}
			if !d.detached {
				d.lo, d.hi = t0, time.Now()
			}
		case "after": // sleep until shortly before or after the timer
			if d.lo.IsZero() || d.after == 0 {
				return true
			}
			t := d.lo.Add(d.after + time.Duration(o.n(0))*time.Second)
			if t.After(time.Now()) {
				time.Sleep(time.Until(t))
			}
			sure()
		}
		w.tracef("model %s %s detached=%v after=%v", d.key(), d.name, d.detached, d.after)
		if c := w.connOf(d.key()); c == conn && !w.joinedUp(d) {
			w.fail("C14", "left", "the connection of %s left %s", d.key(), d.name)
		}
		sure()
		for _, k := range sortedKeys(st.chans) {
			w.settled(st.chans[k])
		}
	case "open":
		w.commonOp(o)
		pause()
		sure()
		for _, k := range sortedKeys(st.chans) {
			w.settled(st.chans[k])
		}
	case "drop", "restart", "crash":
		sure()
		w.commonOp(o)
		for i := 0; i < 30; i++ {
			w.settle(3 * time.Second)
			all := true
			for _, k := range sortedKeys(st.chans) {
				all = all && w.joinedUp(st.chans[k])
			}
			if all {
				break
			}
		}
		pause()
		sure()
		for _, k := range sortedKeys(st.chans) {
			w.settled(st.chans[k])
		}
	default:
		return false
	}
	return true
}

func r0(n int, l ...string) string { return l[n%len(l)] }

func r1(v, def string) string {
	if v == "default" {
		return def
	}
	return v
}

func finalDetach(w *World) {
	w.calm()
	if w.inst.dead {
		return
	}
	st := w.dstate()
	w.settle(time.Minute)
	for _, k := range sortedKeys(st.chans) {
		d := st.chans[k]
		w.sleepSure(d)
		w.settled(d)
		if !d.detached || !d.sure || !w.joinedUp(d) {
			continue
		}
		s := w.anyOn(d.key())
		if s == nil {
			continue
		}
		s.send("JOIN " + d.name)
		w.settle(5 * time.Second)
		d.detached, d.lo, d.hi = false, time.Now(), time.Now()
		if d.after > 0 && d.after < 20*time.Second {
			continue
		}
		w.settled(d)
	}
}

func genDetach(r *rng, p *Plan) {
	genBase(r, p, genOpt{servers: 1 + r.intn(2), users: 1 + r.intn(2), netsPer: 2, clients: 3, stores: []string{"memory", "db", "fs"}, named: r.chance(60), downCaps: func(r *rng) []string {
		l := genDownCaps(r)
		if r.chance(20) {
			l = append(l, "draft/chathistory", "batch", "server-time", "message-tags")
		}
		return uniq(l)
	}})
	c := &p.Cfg
	if r.chance(25) {
		c.SQLDelayMS = 1 + r.intn(30)
	}
	for i := range c.Clients {
		p.op(r.intn(300), "open", []string{c.Clients[i].Key})
	}
	p.op(3000, "sleep", nil)
	var keys []string
	for i := range c.Users {
		for j := range c.Users[i].Nets {
			for _, ch := range c.Users[i].Nets[j].Chans {
				keys = append(keys, c.Users[i].Name+"/"+c.Users[i].Nets[j].Name+" "+ch)
			}
		}
	}
	focus := keys[r.intn(len(keys))]
	key := func() string {
		if r.chance(60) {
			return focus
		}
		return keys[r.intn(len(keys))]
	}
	opt := func(k string) {
		switch r.intn(4) {
		case 0:
			p.op(gap(r), "dt", []string{"opt", p.anyClient(r).Key, k, "-detach-after", r.pick("20s", "30s", "2m", "1h", "0s")})
		case 1:
			p.op(gap(r), "dt", []string{"opt", p.anyClient(r).Key, k, "-detach-on", r.pick("message", "highlight", "none", "default")})
		case 2:
			p.op(gap(r), "dt", []string{"opt", p.anyClient(r).Key, k, "-relay-detached", r.pick("message", "highlight", "none", "default")})
		case 3:
			p.op(gap(r), "dt", []string{"opt", p.anyClient(r).Key, k, "-reattach-on", r.pick("message", "highlight", "none", "default")})
		}
	}
	if r.chance(50) {
		p.op(gap(r), "dt", []string{"opt", p.anyClient(r).Key, focus, "-detach-after", r.pick("20s", "30s", "2m", "1h")})
	}
	for i := 0; i < r.intn(5); i++ {
		opt(focus)
	}
	for i := 0; i < 15+r.intn(30); i++ {
		cl := p.anyClient(r).Key
		switch x := r.intn(100); {
		case x < 30:
			reps := 0
			if r.chance(20) {
				reps = r.intn(15)
			}
			p.op(gap(r), "dt", []string{"say", r.pick("g1", "g2"), key(), r.pick("PRIVMSG", "PRIVMSG", "NOTICE")}, r.intn(5), reps)
		case x < 38:
			p.op(gap(r), "dt", []string{"msg", cl, key()})
		case x < 50:
			p.op(gap(r), "dt", []string{"detach", cl, key()}, r.intn(3))
		case x < 60:
			p.op(gap(r), "dt", []string{"attach", cl, key()}, r.intn(2), b2i(r.chance(20)), r.intn(120))
		case x < 61:
			p.op(gap(r), "dt", []string{"create", cl, key()}, r.intn(4))
		case x < 63:
			// a client that misses what is said in a detached channel
			k := focus
			if r.chance(50) {
				p.op(gap(r), "dt", []string{"opt", cl, k, "-detach-after", "1h"})
			}
			p.op(gap(r), "dt", []string{"say", "g1", k, "PRIVMSG"}, r.intn(5), 0)
			p.op(3000, "dt", []string{"detach", cl, k}, r.intn(3))
			p.op(3000, "hangup", []string{cl}, 0)
			for n := 1 + r.intn(3); n > 0; n-- {
				p.op(gap(r), "dt", []string{"say", r.pick("g1", "g2"), k, "PRIVMSG"}, r.intn(5), 0)
			}
			p.op(3000, "open", []string{cl})
		case x < 65:
			p.op(gap(r), "dt", []string{"kick", cl, key()}, []int{0, 5, 15, 40}[r.intn(4)])
		case x < 66:
			p.op(gap(r), "dt", []string{"nick", cl, key()})
		case x < 70:
			opt(key())
		case x < 76:
			p.op(gap(r), "dt", []string{"after", cl, key()}, []int{-8, -5, 5, 60}[r.intn(4)])
		case x < 82:
			p.op(gap(r), "open", []string{cl})
		case x < 86:
			p.op(gap(r), "hangup", []string{cl}, r.intn(2))
		case x < 89:
			p.op(gap(r), "drop", []string{p.anyServer(r)}, r.intn(2))
		case x < 92:
			p.op(gap(r), r.pick("restart", "crash"), nil)
			p.op(gap(r), "open", []string{cl})
		case x < 98:
			d := 0
			if r.chance(50) {
				d = r.intn(80)
			}
			p.op(gap(r), "dt", []string{"race", cl, key(), ""}, r.intn(8), 1+r.intn(12), d)
		default:
			p.op(gap(r), "dt", []string{"race", cl, key(), "crash"}, r.intn(8), 1+r.intn(12), r.intn(80))
			p.op(gap(r), "open", []string{cl})
		}
	}
}
