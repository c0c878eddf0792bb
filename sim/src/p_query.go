package main

import (
	"fmt"
	"strings"
	"time"

	"gopkg.in/irc.v4"
)

// Property C05: every query is answered, completely and correctly, to the
// client that asked and to nobody else.
func init() {
	register(&profile{name: "query", prop: "C05", gen: genQuery, final: finalQuery, exotic: 20})
	register(&profile{name: "query-mute", prop: "C05", gen: genQueryMute, final: finalQueryMute, exotic: 20})

	// mutecmd: the server ignores a command (1) or answers it again (0)
	ops["mutecmd"] = func(w *World, o *Op) {
		w.ircds[o.s(0)].mute[o.s(1)] = o.n(0) == 1
		if o.n(0) == 1 {
			w.fault("query-ignored")
		}
	}
	// pinfo: server, peer, what, value: a peer changes its user information
	ops["pinfo"] = func(w *World, o *Op) {
		srv := w.ircds[o.s(0)]
		u := srv.users[srv.fold(o.s(1))]
		if u == nil || u.conn != nil {
			return
		}
		old := u.prefix()
		notify := func(cap, cmd string, params ...string) {
			told := map[*iconn]bool{}
			for _, p := range srv.peersOf(u) {
				if p.conn != nil && p.conn.caps[cap] {
					told[p.conn] = true
					p.conn.event(&irc.Message{Prefix: old, Command: cmd, Params: params})
				}
			}
			for _, c := range srv.live() {
				if !told[c] && c.caps["extended-monitor"] && c.caps[cap] && c.monitor[srv.fold(u.nick)] {
					c.event(&irc.Message{Prefix: old, Command: cmd, Params: params})
				}
			}
		}
		switch o.s(2) {
		case "away":
			u.away = o.s(3)
			if u.away == "" {
				notify("away-notify", "AWAY")
			} else {
				notify("away-notify", "AWAY", u.away)
			}
		case "account":
			u.account = o.s(3)
			a := u.account
			if a == "" {
				a = "*"
			}
			notify("account-notify", "ACCOUNT", a)
		case "setname", "chghost":
			// servers tell clients without the extension nothing or show them a
			// QUIT and JOIN; only do it where everybody has it
			for _, c := range srv.live() {
				if !c.caps[o.s(2)] {
					return
				}
			}
			if o.s(2) == "setname" {
				u.real = o.s(3)
				notify("setname", "SETNAME", u.real)
			} else {
				u.user, u.host = "u"+o.s(3), o.s(3)+".example"
				notify("chghost", "CHGHOST", u.user, u.host)
			}
		}
	}
}

func genQueryBase(r *rng, p *Plan) {
	genBase(r, p, genOpt{servers: 1, users: 1 + r.intn(2), netsPer: 1 + r.intn(2), clients: 3, stores: []string{"memory"}, srvMod: func(r *rng, s *SrvCfg) {
		if r.chance(40) {
			s.Isupport = append(s.Isupport, "MONITOR=8")
		}
	}})
	for _, c := range p.Cfg.Clients {
		if r.chance(90) {
			p.op(gap(r), "open", []string{c.Key}, r.intn(2)*10)
		}
	}
	p.op(0, "settle", nil, 5)
}

func (p *Plan) query(r *rng, c *ClientCfg) string {
	p.qn++
	nick := r.pick("g1", "g2", "g3", "G1", "h1", "nosuch", "bot1")
	ch := r.pick("#a", "#b", "#A", "#z")
	own := "#q" + strings.ToLower(c.Key)
	switch r.intn(14) {
	case 0, 1:
		return "WHO " + r.pick(nick, ch)
	case 2, 3, 4:
		return fmt.Sprintf("WHO %s %%t%s,%d", r.pick(nick, ch), r.pick("cuhsnfar", "nfa", "cuhnf", "n", "nar"), p.qn)
	case 5, 6, 7:
		return "WHOIS " + nick
	case 8:
		return "WHOIS " + nick + " " + nick
	case 9, 10:
		return "LIST"
	case 11:
		return "NAMES " + own
	case 12:
		return "NAMES " + r.pick("#a", "#b")
	}
	return r.pick("MODE ", "TOPIC ", "NAMES ") + own
}

func genQuery(r *rng, p *Plan) {
	genQueryBase(r, p)
	if p.Cfg.X == nil {
		p.Cfg.X = map[string]int{}
	}
	p.Cfg.X["oper"] = b2i(r.chance(50))
	n := 0
	for i := 12 + r.intn(35); i > 0; i-- {
		_, nc := p.anyNet(r)
		c := p.anyClient(r)
		switch k := r.intn(100); {
		case k < 62:
			p.op(gap(r)%700, "send", []string{c.Key, p.query(r, c)})
			if n++; n%4 == 0 {
				// leave the upstream send queue time to drain
				p.op(12000+r.intn(8000), "sleep", nil)
			}
		case k < 68:
			p.op(gap(r), "hangup", []string{c.Key}, r.intn(2))
		case k < 76:
			p.op(gap(r), "open", []string{c.Key}, r.intn(2)*10)
		case k < 79:
			p.op(gap(r), "drop", []string{nc.Server}, r.intn(2))
			p.op(r.intn(3)*60000, "sleep", nil)
		case k < 81:
			// a slow server
			p.op(gap(r)%700, "stall", []string{nc.Server}, r.intn(2))
			for j := 1 + r.intn(3); j > 0; j-- {
				c := p.anyClient(r)
				p.op(r.intn(6000), "send", []string{c.Key, p.query(r, c)})
			}
			p.op(r.intn(5000), "sleep", nil)
			p.op(gap(r), "unstall", []string{nc.Server})
			p.op(12000+r.intn(8000), "sleep", nil)
		case k < 84:
			p.op(gap(r), "pnick", []string{nc.Server, r.pick("g1", "g2", "g3", "h1"), r.pick("g1", "g2", "g3", "h1", "G1")})
		case k < 87:
			p.op(gap(r), r.pick("pjoin", "ppart"), []string{nc.Server, r.pick("g1", "g2", "g3"), r.pick("#a", "#b"), ""})
		case k < 88:
			p.op(gap(r), "pquit", []string{nc.Server, r.pick("g1", "g2")})
		case k < 90:
			p.op(gap(r), "pmode", []string{nc.Server, "g2", r.pick("#a", "#b"), r.pick("+o", "-o", "+v", "-v"), r.pick("g1", "g2", "g3")})
		case k < 91:
			p.op(gap(r), "restart", nil)
		case k < 94 && len(p.Cfg.Servers[0].Isupport) > 0:
			p.op(gap(r), "send", []string{c.Key, "MONITOR " + r.pick("+ g1,h1", "+ g2", "+ G1,h1,g3", "- g1", "C")})
			// somebody we only know about because of that
			g := r.pick("g1", "g2", "g3", "h1")
			p.op(2000, "send", []string{c.Key, "MONITOR + " + g})
			p.op(gap(r), "send", []string{c.Key, "WHO " + g + r.pick("", fmt.Sprintf(" %%tcuhsnfar,%d", 5000+i))})
			p.op(10000, "sleep", nil)
			for _, ch := range []string{"#a", "#b"} {
				p.op(gap(r), "ppart", []string{nc.Server, g, ch, ""})
			}
			if r.chance(70) {
				p.op(gap(r), "pinfo", []string{nc.Server, g, r.pick("away", "account"), "gone"})
			} else {
				p.op(gap(r), "pquit", []string{nc.Server, g})
			}
		default:
			what := r.pick("away", "away", "account", "setname", "chghost")
			vals := []string{"gone", "acc1", "acc2"}
			if what == "away" || what == "account" {
				vals = append(vals, "")
			}
			p.op(gap(r), "pinfo", []string{nc.Server, r.pick("g1", "g2", "g3", "h1"), what, r.pick(vals...)})
		}
	}
}

type query struct {
	l       *cline
	cmd     string
	mask    string
	token   string
	s       *sess
	c       *iconn // connection at that time
	data    []*cline
	end     *cline
	abort   bool
	refused bool // no such nick: answered, whether or not an end follows
}

// queriesOf collects a session's queries and assigns the replies it got.
func (w *World) queriesOf(prop string, s *sess, slow bool) []*query {
	srv := w.ircds[w.cfg.user(s.cfg.User).net(s.cfg.Net).Server]
	var out []*query
	var open []*query
	si := 0
	find := func(f func(q *query) bool) *query {
		for _, q := range open {
			if f(q) {
				return q
			}
		}
		return nil
	}
	for i := range s.lines {
		l := &s.lines[i]
		for si < len(s.sent) && s.sent[si].seq < l.seq {
			if q := newQuery(&s.sent[si], s); q != nil {
				open = append(open, q)
				out = append(out, q)
			}
			si++
		}
		m := l.msg
		eq := func(a, b string) bool { return srv.fold(a) == srv.fold(b) }
		var q *query
		end := false
		kind := ""
		switch m.Command {
		case "352":
			kind = "WHO"
			q = find(func(q *query) bool {
				return q.cmd == "WHO" && q.token == "" && (eq(q.mask, par(m, 1)) || eq(q.mask, par(m, 5)))
			})
		case "354":
			kind = "WHO"
			q = find(func(q *query) bool { return q.cmd == "WHO" && q.token != "" && q.token == par(m, 1) })
		case "315":
			kind, end = "WHO", true
			q = find(func(q *query) bool { return q.cmd == "WHO" && eq(q.mask, par(m, 1)) && q.end == nil })
		case "311", "312", "330", "319", "317":
			kind = "WHOIS"
			q = find(func(q *query) bool { return q.cmd == "WHOIS" && eq(q.mask, par(m, 1)) })
		case "401":
			if q := find(func(q *query) bool { return q.cmd == "WHOIS" && eq(q.mask, par(m, 1)) }); q != nil {
				q.refused = true
			}
		case "318":
			kind, end = "WHOIS", true
			q = find(func(q *query) bool { return q.cmd == "WHOIS" && eq(q.mask, par(m, 1)) })
		case "321", "322":
			kind = "LIST"
			q = find(func(q *query) bool { return q.cmd == "LIST" })
		case "323":
			kind, end = "LIST", true
			q = find(func(q *query) bool { return q.cmd == "LIST" })
		case "400", "421":
			q = find(func(q *query) bool { return q.cmd == par(m, 1) && q.end == nil })
			if q != nil {
				end = true
				q.abort = true
			}
		}
		if q == nil {
			if kind != "" && !slow {
				w.fail(prop, "stray-reply", "client %s received a %s reply it has no query open for: %s", s.label(), kind, l.raw)
			}
			continue
		}
		w.probe("query-reply")
		q.data = append(q.data, l)
		if end {
			q.end = l
			if strings.Contains(l.raw, "Command aborted") {
				q.abort = true
			}
			// the ends of several queries with the same mask can't be told
			// apart: the group is closed when all of them have ended
			same := func(o *query) bool {
				return o == q || q.cmd == "WHO" && o.cmd == "WHO" && eq(o.mask, q.mask)
			}
			if find(func(o *query) bool { return same(o) && o.end == nil }) == nil {
				var rest []*query
				for _, o := range open {
					if !same(o) {
						rest = append(rest, o)
					}
				}
				open = rest
			}
		}
	}
	for ; si < len(s.sent); si++ {
		if q := newQuery(&s.sent[si], s); q != nil {
			out = append(out, q)
		}
	}
	return out
}

func newQuery(l *cline, s *sess) *query {
	m := l.msg
	if m == nil {
		return nil
	}
	q := &query{l: l, cmd: m.Command, mask: par(m, 0), s: s}
	switch m.Command {
	case "WHO":
		if i := strings.IndexByte(par(m, 1), ','); i >= 0 {
			q.token = par(m, 1)[i+1:]
		}
	case "WHOIS":
		if len(m.Params) > 1 {
			q.mask = par(m, 1)
		}
	case "LIST":
	default:
		return nil
	}
	return q
}

func finalQuery(w *World) {
	w.calm()
	w.settle(25 * time.Minute)
	w.checkQueries("C05")
	w.checkForwarded("C05")
	w.checkAnswers("C05")
}

// slowNets: networks on which some query took so long that soju may have
// given up on it; association is not judged there (nothing tells late replies
// from prompt ones).
func (w *World) checkQueries(prop string) {
	slow := map[string]bool{}
	for _, s := range w.sess {
		if s.cfg.Net == "" || !s.registered {
			continue
		}
		for _, q := range w.queriesOf("", s, true) {
			if q.end != nil && q.end.at.Sub(q.l.at) > 25*time.Second {
				slow[s.netKey()] = true
			}
		}
	}
	for _, s := range w.sess {
		if s.cfg.Net == "" || !s.registered || slow[s.netKey()] {
			continue
		}
		for _, q := range w.queriesOf(prop, s, false) {
			if q.end == nil {
				if !q.refused && s.aliveNow() && s.readySeq != 0 && q.l.seq > s.readySeq {
					w.fail(prop, "query-unanswered", "client %s never got the end of the reply to %q", s.label(), q.l.raw)
				}
				continue
			}
			w.probe("query-answered")
			if q.abort {
				continue
			}
			switch q.cmd {
			case "WHOIS":
				n := 0
				for _, l := range q.data {
					if l.msg.Command == "311" {
						n++
					}
				}
				if n > 1 {
					w.fail(prop, "query-doubled", "client %s: %d RPL_WHOISUSER in the reply to %q", s.label(), n, q.l.raw)
				}
			case "LIST":
				n := 0
				for _, l := range q.data {
					if l.msg.Command == "322" && par(l.msg, 1) == "#a" {
						n++
					}
				}
				if n != 1 {
					w.fail(prop, "list-incomplete", "client %s: the reply to LIST mentions #a %d times", s.label(), n)
				}
			}
		}
	}
}

// checkForwarded: replies about a channel only one client asked about reach
// only that client (with labelled responses), and do reach it.
func (w *World) checkForwarded(prop string) {
	for _, s := range w.sess {
		if s.cfg.Net == "" || !s.ready {
			continue
		}
		c := w.connOf(s.netKey())
		own := "#q" + strings.ToLower(s.cfg.Key)
		ends := 0
		for i := range s.lines {
			l := &s.lines[i]
			switch l.msg.Command {
			case "366", "353", "331", "332", "324", "329", "403":
			default:
				continue
			}
			ch := par(l.msg, 1)
			if l.msg.Command == "353" {
				ch = par(l.msg, 2)
			}
			if !strings.HasPrefix(ch, "#q") {
				continue
			}
			if ch == own {
				if l.msg.Command == "366" && c != nil && l.at.After(c.regAt.Add(3*time.Second)) {
					ends++
				}
				continue
			}
			if c != nil && c.caps["labeled-response"] && l.at.After(c.regAt) {
				w.fail(prop, "stray-reply", "client %s received a reply to another client's query: %s", s.label(), l.raw)
			}
		}
		if c == nil || !s.aliveNow() || c.instance != s.inst.id {
			continue
		}
		asked, early := 0, 0
		for i := range s.sent {
			l := &s.sent[i]
			if l.msg != nil && l.msg.Command == "NAMES" && par(l.msg, 0) == own {
				if l.at.After(c.regAt.Add(3*time.Second)) && s.readySeq != 0 && l.seq > s.readySeq {
					asked++
				} else {
					early++ // the answer may or may not be among those counted
				}
			}
		}
		if ends < asked || ends > asked+early {
			w.fail(prop, "names-replies", "client %s asked %d times for the names of %s and got %d complete replies", s.label(), asked, own, ends)
		}
		if asked > 0 {
			w.probe("names-forwarded")
		}
	}
}

// checkAnswers asks at rest and compares the answers with the server.
func (w *World) checkAnswers(prop string) {
	for _, key := range sortedKeys(w.cur) {
		s := w.cur[key]
		if s.cfg.Net == "" || !s.aliveNow() {
			continue
		}
		c := w.connOf(s.netKey())
		if c == nil {
			continue
		}
		srv := c.srv
		for _, mask := range []string{"#a", "g1", "g2", "h1", "#b"} {
			for _, fields := range []string{"", "cuhsnfar", "nfa", "nar"} {
				from := len(s.lines)
				line := "WHO " + mask
				if fields != "" {
					line += " %t" + fields + ",77"
				}
				s.send(line)
				w.settle(40 * time.Second)
				want := map[string]*iuser{}
				memb := map[string]string{}
				if ch := srv.chans[srv.fold(mask)]; ch != nil {
					for u, m := range ch.members {
						want[srv.fold(u.nick)] = u
						memb[srv.fold(u.nick)] = m
					}
				} else if u := srv.users[srv.fold(mask)]; u != nil {
					want[srv.fold(u.nick)] = u
				}
				done := false
				got := map[string]bool{}
				for i := from; i < len(s.lines); i++ {
					m := s.lines[i].msg
					if m.Command == "315" {
						done = true
						continue
					}
					f := whoFields(m, fields)
					if f == nil {
						continue
					}
					w.probe("who-line")
					k := srv.fold(f['n'])
					u := want[k]
					if u == nil || got[k] {
						w.fail(prop, "who-extra", "%s: the reply to %q has a line too many: %s", s.label(), line, s.lines[i].raw)
						continue
					}
					got[k] = true
					exp := map[rune]string{'n': u.nick, 'u': u.user, 'h': u.host, 'r': u.real, 'a': u.account}
					if u.account == "" {
						exp['a'] = "0"
					}
					for _, x := range "nuhra" {
						if v, ok := f[x]; ok && v != exp[x] && (x != 'n' || srv.fold(v) != srv.fold(exp[x])) { // (a change of case may go unseen)
							w.fail(prop, "who-wrong", "%s: the reply to %q is wrong: %s: field %c should be %q", s.label(), line, s.lines[i].raw, x, exp[x])
						}
					}
					if v, ok := f['f']; ok {
						want := "H"
						if u.away != "" {
							want = "G"
						}
						if u.oper {
							want += "*"
						}
						if p := memberPrefix(memb[k], false); p != "" {
							want += p
						}
						if !strings.HasPrefix(v, want) {
							w.fail(prop, "who-wrong", "%s: the reply to %q is wrong: %s: flags should start with %q", s.label(), line, s.lines[i].raw, want)
						}
					}
				}
				if !s.aliveNow() || w.connOf(s.netKey()) != c {
					return
				}
				if !done {
					w.fail(prop, "query-unanswered", "%s: no end of reply to %q", s.label(), line)
				}
				for _, k := range sortedKeys(want) {
					if !got[k] {
						w.fail(prop, "who-missing", "%s: the reply to %q lacks %s", s.label(), line, want[k].nick)
					}
				}
			}
		}
	}
}

// whoFields reads a 352 or 354 line.
func whoFields(m *irc.Message, fields string) map[rune]string {
	f := map[rune]string{}
	if fields == "" {
		if m.Command != "352" || len(m.Params) < 8 {
			return nil
		}
		_, real, _ := strings.Cut(par(m, 7), " ")
		f['c'], f['u'], f['h'], f['n'], f['f'], f['r'] = par(m, 1), par(m, 2), par(m, 3), par(m, 5), par(m, 6), real
		return f
	}
	if m.Command != "354" {
		return nil
	}
	i := 2
	for _, x := range "cuihsnfdlaor" {
		if strings.ContainsRune(fields, x) {
			f[x] = par(m, i)
			i++
		}
	}
	return f
}

// The server ignores queries for a while; afterwards they must work again.
func genQueryMute(r *rng, p *Plan) {
	genQueryBase(r, p)
	for i := 6 + r.intn(16); i > 0; i-- {
		_, nc := p.anyNet(r)
		c := p.anyClient(r)
		switch k := r.intn(100); {
		case k < 55:
			p.op(r.intn(12000), "send", []string{c.Key, p.query(r, c)})
		case k < 75:
			p.op(gap(r), "mutecmd", []string{nc.Server, r.pick("WHO", "WHOIS", "LIST")}, r.intn(3)%2)
		case k < 80:
			p.op(gap(r), "hangup", []string{c.Key}, r.intn(2))
		case k < 90:
			p.op(gap(r), "open", []string{c.Key}, r.intn(2)*10)
		default:
			p.op(20000+r.intn(60000), "sleep", nil)
		}
	}
}

func finalQueryMute(w *World) {
	w.calm()
	for _, srv := range w.ircdList() {
		for _, k := range []string{"WHO", "WHOIS", "LIST"} {
			srv.mute[k] = false
		}
	}
	w.settle(10 * time.Minute)
	ends := map[string]string{"WHO nosuch1": "315", "WHOIS nosuch1": "318", "LIST": "323"}
	for _, q := range sortedKeys(ends) {
		for round := 0; round < 3; round++ {
			for _, key := range sortedKeys(w.cur) {
				s := w.cur[key]
				if s.cfg.Net == "" || !s.aliveNow() || w.connOf(s.netKey()) == nil {
					continue
				}
				from := len(s.lines)
				s.send(q)
				w.settle(45 * time.Second)
				n := 0
				for i := from; i < len(s.lines); i++ {
					if s.lines[i].msg.Command == ends[q] {
						n++
					}
				}
				if round == 2 {
					w.probe("query-recovered")
					if n != 1 {
						w.fail("C05", "query-stuck", "after the server ignored a query for a while, %q by %s gets %d replies", q, s.label(), n)
					}
				}
			}
		}
	}
}
