package main

import (
	"fmt"
	"sort"
	"strings"
	"time"
)

// Property C01: live messages are relayed exactly once, in order, unaltered.
// Property C18: what one client says appears in the user's other clients.
func init() {
	register(&profile{name: "relay", prop: "C01", gen: genRelay, op: opSupport, final: finalRelay, exotic: 20})
	register(&profile{name: "echo", prop: "C18", gen: genRelay, op: opSupport, final: finalRelay, exotic: 20})
}

func genRelay(r *rng, p *Plan) {
	genBase(r, p, genOpt{servers: 1 + r.intn(2), users: 1 + r.intn(2), netsPer: 2, clients: 3, stores: []string{"memory", "db", "fs"}, named: r.chance(60)})
	for _, c := range p.Cfg.Clients {
		if r.chance(80) {
			p.op(gap(r), "open", []string{c.Key}, r.intn(2)*10)
		}
	}
	n := 15 + r.intn(30)
	burst := r.chance(25)
	caps := r.chance(40) // servers whose capabilities change
	for i := 0; i < n; i++ {
		switch k := r.intn(100); {
		case k < 30:
			u, nc := p.anyNet(r)
			t := r.pick("#a", "#b", "#A", "@"+u.Name+"/"+nc.Name)
			reps := 1 + r.intn(4)
			if burst && r.chance(20) {
				reps = 50 + r.intn(150)
			}
			p.op(gap(r), "say", []string{nc.Server, r.pick("g1", "g2", "g3"), t, r.pick("PRIVMSG", "PRIVMSG", "NOTICE")}, reps)
		case k < 60:
			p.op(gap(r), "msg", []string{p.anyClient(r).Key, r.pick("#a", "#b", "#B", "g1", "g2", "bot1"), r.pick("PRIVMSG", "PRIVMSG", "NOTICE")}, 1+r.intn(4))
		case k < 72:
			p.op(gap(r), "open", []string{p.anyClient(r).Key}, r.intn(2)*10)
		case k < 78:
			p.op(gap(r), "hangup", []string{p.anyClient(r).Key}, r.intn(2))
		case k < 81:
			p.op(gap(r), "quit", []string{p.anyClient(r).Key})
		case k < 84:
			p.op(gap(r), "drop", []string{p.anyServer(r)}, r.intn(2))
		case k < 87:
			p.op(gap(r), "cstall", []string{p.anyClient(r).Key}, r.intn(4000))
		case k < 90:
			p.op(gap(r), "cunstall", []string{p.anyClient(r).Key})
		case k < 92:
			p.op(gap(r), "stall", []string{p.anyServer(r)}, r.intn(2))
			p.op(gap(r), "say", []string{p.anyServer(r), "g1", "#a"}, 1)
			p.op(gap(r)+r.intn(20000), "unstall", []string{p.anyServer(r)})
		case k < 95:
			p.op(gap(r), "pnick", []string{p.anyServer(r), r.pick("g1", "g2", "g3"), r.pick("g1", "g2", "g3", "h1")})
		case k < 97:
			p.op(70000+r.intn(60000), "sleep", nil)
		case k < 98:
			p.op(gap(r), "crash", nil)
		case k < 99:
			p.op(gap(r), "restart", nil)
		default:
			p.op(gap(r), "msg", []string{p.anyClient(r).Key, "#a,g2,#b", ""}, 1)
		}
		if caps && r.chance(12) {
			if r.chance(50) {
				p.op(gap(r), "capset", []string{p.anyServer(r), r.pick("echo-message", "message-tags batch labeled-response", "message-tags batch labeled-response echo-message", "server-time"), ""})
			} else {
				p.op(gap(r), "capset", []string{p.anyServer(r), "", r.pick("echo-message", "labeled-response", "echo-message labeled-response", "echo-message labeled-response batch message-tags", "server-time")})
			}
		}
	}
}

// lineText returns the message text of a chat line.
func lineText(l *cline) string {
	if l.msg == nil {
		return ""
	}
	switch l.msg.Command {
	case "PRIVMSG", "NOTICE":
		return par(l.msg, 1)
	}
	return ""
}

func finalRelay(w *World) {
	for _, srv := range w.ircdList() {
		srv.ln.closed = false
		w.commonOp(&Op{K: "unstall", S: []string{srv.name}})
	}
	for _, k := range sortedKeys(w.cur) {
		if s := w.cur[k]; !s.hungUp {
			w.commonOp(&Op{K: "cunstall", S: []string{k}})
		}
	}
	w.settle(40 * time.Minute)
	w.checkUpRelay("C01")
	w.checkDownRelay("C01", "C18")
}

// bufferChan reports whether target names a channel (status prefix allowed).
func isChan(t string) bool {
	t = strings.TrimLeft(t, "@+")
	return strings.HasPrefix(t, "#") || strings.HasPrefix(t, "&")
}

// checkUpRelay: peers -> clients.
func (w *World) checkUpRelay(prop string) {
	for _, s := range w.sess {
		if s.cfg.Net == "" || !s.registered {
			continue
		}
		seen := map[string]*cline{}
		lastSeq := 0
		got := map[string]bool{}
		for i := range s.lines {
			l := &s.lines[i]
			if b := l.msg.Tags["batch"]; b != "" && s.usedCH {
				continue
			}
			m := w.byText[lineText(l)]
			if m == nil || m.dir != "up" {
				continue
			}
			w.probe("relay-up")
			if seen[m.text] != nil {
				w.fail(prop, "duplicate", "client %s received %s twice (%q)", s.label(), m.text, l.raw)
				continue
			}
			seen[m.text] = l
			got[m.text] = true
			own := false
			for _, c := range m.conns {
				if w.ownerOf(c) == s.netKey() {
					own = true
				}
			}
			if !own {
				w.fail(prop, "foreign", "client %s of %s received %s, which was never sent to that network connection", s.label(), s.netKey(), m.text)
				continue
			}
			same := par(l.msg, 0) == m.target
			if m.seq <= s.readySeq || !s.ready {
				// history stores may fold names and use the current nick
				same = !isChan(m.target) || m.srv.fold(par(l.msg, 0)) == m.srv.fold(m.target)
			}
			if l.msg.Command != m.cmd || l.msg.Prefix == nil || l.msg.Prefix.Name != m.from || !same {
				w.fail(prop, "altered", "client %s received %q for %s %s from %s to %s", s.label(), l.raw, m.cmd, m.text, m.from, m.target)
			}
			if m.seq > s.readySeq && s.ready && !m.loose {
				if m.seq < lastSeq {
					w.fail(prop, "reordered", "client %s received %s after a message sent later", s.label(), m.text)
				}
				lastSeq = m.seq
			}
		}
		if !s.ready {
			continue
		}
		// gaps per upstream connection
		last := map[*iconn]*wmsg{}
		for _, m := range w.msgs {
			if m.dir == "up" && got[m.text] && !m.loose {
				for _, c := range m.conns {
					if w.ownerOf(c) == s.netKey() {
						last[c] = m
					}
				}
			}
		}
		for _, m := range w.msgs {
			if m.dir != "up" || m.seq < s.readySeq || got[m.text] {
				continue
			}
			for _, c := range m.conns {
				if w.ownerOf(c) != s.netKey() || c.instance != s.inst.id {
					continue
				}
				if last[c] != nil && last[c].seq > m.seq && !(m.loose && c.gone) {
					w.fail(prop, "gap", "client %s never received %s (%s to %s) although it received %s sent later on the same connection", s.label(), m.text, m.cmd, m.target, last[c].text)
				} else if s.aliveNow() && !c.gone {
					w.fail(prop, "lost", "client %s never received %s (%s to %s): client and network connection are both up", s.label(), m.text, m.cmd, m.target)
				}
			}
		}
	}
}

// checkDownRelay: clients -> peers, and echo to the user's other clients.
func (w *World) checkDownRelay(prop, echoProp string) {
	type rec struct {
		c   *iconn
		pos int
		cmd string
		tgt string
		at  time.Time
	}
	got := map[string][]rec{}
	pos := 0
	for _, srv := range w.ircdList() {
		for _, c := range srv.conns {
			for _, l := range c.recv {
				pos++
				if l.msg.Command != "PRIVMSG" && l.msg.Command != "NOTICE" {
					continue
				}
				m := w.byText[par(l.msg, 1)]
				if m == nil || m.dir != "down" {
					continue
				}
				w.probe("relay-down")
				got[m.text] = append(got[m.text], rec{c, pos, l.msg.Command, par(l.msg, 0), l.at})
			}
		}
	}
	lastPos := map[*sess]int{}
	lastMsg := map[*sess]string{}
	undelivered := map[*sess]int{}
	for _, m := range w.msgs {
		if m.dir != "down" {
			continue
		}
		rs := got[m.text]
		var want []string
		if rs != nil {
			want = strings.Split(m.target, ",")
		}
		var have []string
		for _, r := range rs {
			have = append(have, r.tgt)
			if r.cmd != m.cmd {
				w.fail(prop, "altered-down", "%s sent as %s reached the server as %s", m.text, m.cmd, r.cmd)
			}
			if o := w.ownerOf(r.c); o != m.sess.netKey() {
				w.fail(prop, "wrong-network", "%s sent by %s (%s) reached the connection of %s", m.text, m.from, m.sess.netKey(), o)
			}
			if r.pos < lastPos[m.sess] {
				w.fail(prop, "reordered-down", "%s reached the server before %s, which client %s sent earlier", m.text, lastMsg[m.sess], m.from)
			}
			lastPos[m.sess] = r.pos
			lastMsg[m.sess] = m.text
		}
		// exactly the requested targets, each at most once
		cnt := map[string]int{}
		for _, h := range have {
			cnt[h]++
		}
		for _, h := range have {
			if cnt[h] > 1 {
				w.fail(prop, "duplicate-down", "%s to %s reached the server %d times", m.text, h, cnt[h])
				cnt[h] = 1
			}
		}
		ok := map[string]bool{}
		for _, t := range want {
			ok[t] = true
		}
		for _, h := range have {
			if !ok[h] {
				w.fail(prop, "altered-down", "%s sent to %s reached the server for %s", m.text, m.target, h)
			}
		}
		if len(have) == 0 {
			if m.sess.aliveNow() {
				// the whole history of the client's network must have had
				// no connection loss since the message was sent
				if c := w.steadyConn(m); c != nil {
					undelivered[m.sess]++
				}
			}
		}
		steady := true
		if len(w.netServer(m.sess).capAt) > 0 {
			// a message on its way while the server changes its
			// capabilities may be echoed or not
			last := m.at
			for _, r := range rs {
				if r.at.After(last) {
					last = r.at
				}
			}
			for _, t := range w.netServer(m.sess).capAt {
				if t.After(m.at.Add(-10*time.Second)) && t.Before(last.Add(10*time.Second)) {
					steady = false
				}
			}
		}
		w.checkEcho(echoProp, m, w.accepted[m.text], steady)
	}
	for _, s := range w.sess {
		if n := undelivered[s]; n > 0 {
			errs := s.count(func(l *cline) bool {
				return len(l.msg.Command) == 3 && (l.msg.Command[0] == '4' || l.msg.Command[0] == '5') && strings.Contains(l.raw, "isconnected")
			})
			w.probe("relay-down-error")
			if errs < n {
				w.fail(prop, "lost-down", "%d messages of client %s reached neither the server nor an error reply (%d errors): client and network connection are both up", n, s.label(), errs)
			}
		}
	}
}

// netServer returns the server of the network a client is bound to.
func (w *World) netServer(s *sess) *ircd {
	return w.ircds[w.cfg.user(s.cfg.User).net(s.cfg.Net).Server]
}

// steadyConn returns the network connection that was registered before m was
// sent and still is up, if any.
func (w *World) steadyConn(m *wmsg) *iconn {
	c := w.connOf(m.sess.netKey())
	if c == nil || c.instance != m.sess.inst.id || !c.regAt.Add(2*time.Second).Before(m.at) {
		return nil
	}
	return c
}

// checkEcho: the sender's other sessions see the message as their own.
func (w *World) checkEcho(prop string, m *wmsg, delivered, steady bool) {
	if strings.Contains(m.target, ",") {
		return
	}
	delivered = delivered && steady
	for _, s := range w.sess {
		if s.netKey() != m.sess.netKey() {
			continue
		}
		n := 0
		for i := range s.lines {
			l := &s.lines[i]
			if lineText(l) != m.text || l.msg.Tags["batch"] != "" && s.usedCH {
				continue
			}
			n++
			w.probe("echo-seen")
			same := par(l.msg, 0) == m.target
			if m.seq <= s.readySeq || !s.ready || l.msg.Tags["batch"] != "" {
				fold := w.ircds[w.cfg.user(s.cfg.User).net(s.cfg.Net).Server].fold
				same = fold(par(l.msg, 0)) == fold(m.target)
			}
			if l.msg.Command != m.cmd || !same {
				w.fail(prop, "echo-altered", "client %s received %q for its user's own %s %s to %s", s.label(), l.raw, m.cmd, m.text, m.target)
			}
			if c := w.connNicks(s.netKey()); l.msg.Prefix == nil || !c[l.msg.Prefix.Name] {
				w.fail(prop, "echo-source", "client %s received its user's own message %s as %q", s.label(), m.text, l.raw)
			}
		}
		if n > 1 {
			w.fail(prop, "echo-duplicate", "client %s received its user's own message %s %d times", s.label(), m.text, n)
		}
		if s == m.sess {
			w.probe("echo-origin")
			if n > 0 && !s.caps["echo-message"] && steady {
				w.fail(prop, "echo-unwanted", "client %s received its own message %s without echo-message", s.label(), m.text)
			}
			if n == 0 && s.caps["echo-message"] && delivered && s.aliveNow() && w.steadyConn(m) != nil {
				w.fail(prop, "echo-missing", "client %s (echo-message) never saw its own message %s come back", s.label(), m.text)
			}
		} else if s.ready && s.readySeq < m.seq && s.aliveNow() && delivered && w.steadyConn(m) != nil {
			w.probe("echo-other")
			if n == 0 {
				w.fail(prop, "echo-lost", "client %s never received %s, which client %s of the same user sent to %s", s.label(), m.text, m.sess.label(), m.target)
			}
		}
	}
}

// connNicks collects every nick the user ever had on that network.
func (w *World) connNicks(key string) map[string]bool {
	out := map[string]bool{}
	for _, srv := range w.ircdList() {
		for _, c := range srv.conns {
			if w.ownerOf(c) == key {
				for _, n := range c.nicks() {
					out[n] = true
				}
			}
		}
	}
	return out
}

// nicks lists the nicks a connection had.
func (c *iconn) nicks() []string {
	set := map[string]bool{}
	for _, l := range c.sent {
		if l.msg == nil {
			continue
		}
		if l.msg.Command == "001" {
			set[par(l.msg, 0)] = true
		}
		if l.msg.Command == "NICK" {
			set[par(l.msg, 0)] = true
			if l.msg.Prefix != nil {
				set[l.msg.Prefix.Name] = true
			}
		}
	}
	var out []string
	for n := range set {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

var _ = fmt.Sprint
