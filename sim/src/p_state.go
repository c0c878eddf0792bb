package main

import (
	"context"
	"fmt"
	"sort"
	"strings"
	"time"

	"codeberg.org/emersion/soju/database"
)

// Property C06: once things settle, every client's view of its network (own
// nick, channels, members, statuses, topics) is the server's.
// Property C07: soju keeps every enabled network connected and joined.
func init() {
	register(&profile{name: "state", prop: "C06", gen: genState, final: finalState, exotic: 20})
	register(&profile{name: "reconnect", prop: "C07", gen: genReconnect, init: initReconnect, final: finalReconnect, exotic: 20})
}

func genState(r *rng, p *Plan) {
	vo := r.chance(50)
	ext := vo && r.chance(40)
	genBase(r, p, genOpt{servers: 1 + r.intn(2), users: 1 + r.intn(2), netsPer: 1 + r.intn(2), clients: 3, stores: []string{"memory", "memory", "db"}, upCaps: func(r *rng) []string {
		l := genUpCaps(r)
		if vo && !has(l, "multi-prefix") {
			l = append(l, "multi-prefix")
		}
		return l
	}, srvMod: func(r *rng, s *SrvCfg) {
		if vo && ext {
			s.Isupport = append(s.Isupport, "PREFIX=(qaohv)~&@%+")
		}
	}})
	p.Cfg.X = map[string]int{"vo": b2i(vo)}
	for _, c := range p.Cfg.Clients {
		if r.chance(80) {
			p.op(gap(r), "open", []string{c.Key}, r.intn(2)*10)
		}
	}
	if r.chance(50) {
		p.op(gap(r), "settle", nil, 5)
	}
	ch := func() string { return r.pick("#a", "#b", "#c", "#C", "#a", "#{x}", "#[X]") }
	peer := func() string { return r.pick("g1", "g2", "g3", "g4", "G[5]") }
	for n := 15 + r.intn(40); n > 0; n-- {
		u, nc := p.anyNet(r)
		me := "@" + u.Name + "/" + nc.Name
		srv := nc.Server
		c := p.anyClient(r).Key
		switch r.intn(31) {
		case 0, 1, 2:
			if r.chance(20) {
				p.op(gap(r), "pmulti", []string{srv, peer(), r.pick("JOIN", "JOIN", "PART"), strings.Join(uniq([]string{r.pick("#a", "#c"), r.pick("#b", "#[X]")}), ",")})
				break
			}
			p.op(gap(r), "pjoin", []string{srv, peer(), ch()})
		case 3, 4:
			p.op(gap(r), "ppart", []string{srv, peer(), ch(), r.pick("", "bye")})
		case 5:
			p.op(gap(r), "pquit", []string{srv, peer()})
		case 6, 7:
			p.op(gap(r), "pnick", []string{srv, peer(), r.pick("g1", "g2", "g4", "G[5]", "G1", "h1", "g{5}")})
		case 8, 9:
			p.op(gap(r), "ptopic", []string{srv, peer(), ch(), r.pick("", "topic one", ":colon", fmt.Sprintf("t%d", r.intn(1000)))})
		case 10, 11, 12:
			m := r.pick("+o", "-o")
			if vo {
				m = r.pick("+o", "-o", "+v", "-v", "+v-o", "+vo", "-ov", "+k-o", "+lv")
				if ext {
					m = r.pick(m, "+h", "-h", "+a", "-a", "+q", "+qo", "-qa", "+vha", "-hv+o", "+lh", "-k+q")
				}
			}
			args := []string{srv, peer(), ch(), m}
			for _, x := range m[1:] {
				switch x {
				case 'o', 'v', 'q', 'a', 'h':
					args = append(args, r.pick(peer(), peer(), me))
				case 'k', 'l':
					args = append(args, "5")
				}
			}
			p.op(gap(r), "pmode", args)
		case 13:
			p.op(gap(r), "pmode", []string{srv, peer(), ch(), r.pick("+i", "-i", "+m", "+s", "-n", "+b", "+l", "-l")})
		case 14:
			p.op(gap(r), "pkick", []string{srv, peer(), ch(), r.pick(peer(), peer(), me)})
		case 15, 16:
			p.op(gap(r), "send", []string{c, "JOIN " + ch()})
		case 17:
			p.op(gap(r), "send", []string{c, "PART " + ch() + r.pick("", " :bye")})
		case 18:
			p.op(gap(r), "send", []string{c, "NICK " + r.pick("zoe", "ZOE", u.Name+"0", "z[1]", "g1")})
		case 19:
			p.op(gap(r), "send", []string{c, "TOPIC " + ch() + " :" + r.pick("mine", "", "x y")})
		case 20:
			p.op(gap(r), "send", []string{c, "KICK " + ch() + " " + r.pick(peer(), peer(), u.Name+"0")})
		case 21:
			p.op(gap(r), "open", []string{c}, r.intn(2)*10)
		case 22:
			p.op(gap(r), "hangup", []string{c}, r.intn(2))
		case 23:
			p.op(gap(r), "drop", []string{srv}, r.intn(2))
		case 24:
			p.op(60000+r.intn(80000), "sleep", nil)
		case 25:
			p.op(gap(r), "say", []string{srv, peer(), ch()}, 1)
		case 26:
			p.op(gap(r), "send", []string{c, "PART " + ch() + " :detach"})
		case 30:
			p.op(gap(r), "pforce", []string{me[1:], r.pick(ch(), "#forced", "#forced")})
		case 27:
			p.op(gap(r), r.pick("crash", "restart", "sleep"), nil)
		case 28:
			p.op(gap(r), "send", []string{c, "MODE " + ch() + " " + r.pick("+o", "-o") + " " + r.pick(peer(), u.Name+"0")})
		case 29:
			p.op(gap(r), "cstall", []string{c}, r.intn(4000))
			p.op(r.intn(9000), "sleep", nil)
			p.op(gap(r), "cunstall", []string{c})
		}
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func finalState(w *World) {
	w.calm()
	w.settle(45 * time.Minute)
	// late comers get the state from soju alone
	for i := range w.cfg.Clients {
		cc := w.cfg.Clients[i]
		if s := w.cur[cc.Key]; s == nil || !s.live() {
			if s := w.open(cc); s != nil {
				s.waitReady(30 * time.Second)
			}
		}
	}
	w.settle(2 * time.Minute)
	w.checkState("C06")
	// the same from explicit queries
	for _, s := range w.sess {
		if s.aliveNow() && s.cfg.Net != "" {
			for _, k := range sortedKeys(s.chans) {
				s.send("NAMES " + s.chans[k].name)
				s.send("TOPIC " + s.chans[k].name)
			}
		}
	}
	w.settle(2 * time.Minute)
	w.checkState("C06")
}

// dbChannels reads the saved channels of user/net, by folded name.
func (w *World) dbChannels(key string, fold func(string) string) map[string]database.Channel {
	out := map[string]database.Channel{}
	rec := w.dbNetwork(key)
	if rec == nil {
		return nil
	}
	chs, err := w.inst.db.ListChannels(context.Background(), rec.ID)
	if err != nil {
		return nil
	}
	for _, ch := range chs {
		out[fold(ch.Name)] = ch
	}
	return out
}

// dbNetwork reads the saved network user/net.
func (w *World) dbNetwork(key string) *database.Network {
	user, name, _ := strings.Cut(key, "/")
	ctx := context.Background()
	u, err := w.inst.db.GetUser(ctx, user)
	if err != nil || u == nil {
		return nil
	}
	nets, err := w.inst.db.ListNetworks(ctx, u.ID)
	if err != nil {
		return nil
	}
	for i := range nets {
		if nets[i].GetName() == name {
			return &nets[i]
		}
	}
	return nil
}

// checkState compares every live session with the server.
func (w *World) checkState(prop string) {
	for _, s := range w.sess {
		if !s.aliveNow() || s.cfg.Net == "" {
			continue
		}
		key := s.netKey()
		c := w.connOf(key)
		if c == nil {
			continue
		}
		srv := c.srv
		w.probe("state-session")
		if s.nick != c.u.nick {
			w.fail(prop, "nick", "client %s believes its nickname is %q; on the server it is %q", s.label(), s.nick, c.u.nick)
		}
		saved := w.dbChannels(key, srv.fold)
		want := map[string]*ichan{}
		for _, ch := range srv.chanList() {
			if _, ok := ch.members[c.u]; ok {
				if rec, ok := saved[srv.fold(ch.name)]; ok && rec.Detached {
					continue
				}
				want[srv.fold(ch.name)] = ch
			}
		}
		have := map[string]*cchan{}
		for _, ch := range s.chans {
			have[srv.fold(ch.name)] = ch
		}
		for _, k := range sortedKeys(want) {
			if have[k] == nil {
				w.fail(prop, "channel-missing", "client %s does not know it is on %s", s.label(), want[k].name)
				continue
			}
			w.probe("state-channel")
			w.compareChan(prop, s, c, want[k], have[k])
		}
		for _, k := range sortedKeys(have) {
			if want[k] == nil && !w.partLost(key, have[k].name, c) {
				w.fail(prop, "channel-extra", "client %s believes it is on %s but is not", s.label(), have[k].name)
			}
		}
	}
}

// partLost: a client left the channel on an earlier connection of the network,
// which may have died with the request. (The channel is then forgotten, and
// nobody is told.)
func (w *World) partLost(key, name string, c *iconn) bool {
	for _, s := range w.sess {
		if s.netKey() != key {
			continue
		}
		for _, l := range s.sent {
			if l.msg == nil || l.msg.Command != "PART" || len(l.msg.Params) == 0 || l.at.After(c.openedAt) {
				continue
			}
			for _, n := range strings.Split(l.msg.Params[0], ",") {
				if c.srv.fold(n) == c.srv.fold(name) {
					return true
				}
			}
		}
	}
	return false
}

func (w *World) compareChan(prop string, s *sess, c *iconn, t *ichan, v *cchan) {
	srv := c.srv
	if t.topic != v.topic {
		w.fail(prop, "topic", "client %s believes the topic of %s is %q; it is %q", s.label(), t.name, v.topic, t.topic)
	}
	truth := map[string]string{}
	display := map[string]string{}
	for m, p := range t.members {
		truth[srv.fold(m.nick)] = p
		display[srv.fold(m.nick)] = m.nick
	}
	var extra, missing []string
	have := map[string]string{}
	for n, p := range v.members {
		have[srv.fold(n)] = p
	}
	for n := range have {
		if _, ok := truth[n]; !ok {
			extra = append(extra, n)
		}
	}
	for n := range truth {
		if _, ok := have[n]; !ok {
			missing = append(missing, n)
		}
	}
	sort.Strings(extra)
	sort.Strings(missing)
	if len(extra)+len(missing) > 0 {
		w.fail(prop, "members", "client %s: members of %s differ: unknown to the client %v, not on the channel %v", s.label(), t.name, missing, extra)
		return
	}
	for _, n := range sortedKeys(truth) {
		if v.nicks[n] != "" && v.nicks[n] != display[n] {
			w.fail(prop, "member-name", "client %s knows member %s of %s as %q", s.label(), display[n], t.name, v.nicks[n])
		}
	}
	exact := w.cfg.X["vo"] == 0 || c.caps["multi-prefix"] && s.caps["multi-prefix"]
	if !exact {
		return
	}
	for _, n := range sortedKeys(truth) {
		w.probe("state-member")
		if memberPrefix(truth[n], true) != have[n] {
			w.fail(prop, "member-status", "client %s believes %s has status %q on %s; it is %q", s.label(), display[n], have[n], t.name, memberPrefix(truth[n], true))
		}
	}
}

// ------------------------------------------------------------- C07

func genReconnect(r *rng, p *Plan) {
	genBase(r, p, genOpt{servers: 1 + r.intn(2), users: 1 + r.intn(2), netsPer: 2, clients: 2, stores: []string{"memory", "memory", "db"}, srvMod: func(r *rng, s *SrvCfg) {
		if r.chance(40) {
			s.Isupport = append(s.Isupport, "MONITOR=10")
		}
		if r.chance(30) {
			s.Caps = append(s.Caps, r.pick("sasl=PLAIN", "sasl", "sasl=EXTERNAL,PLAIN"))
			s.SASLUser, s.SASLPass = "acc", "sekrit"
			if r.chance(20) {
				s.SASLMode = r.pick("nak", "unknown")
			}
		}
		if r.chance(20) {
			s.Pass = "srvpass"
		}
	}})
	for i := range p.Cfg.Users {
		u := &p.Cfg.Users[i]
		for j := range u.Nets {
			nc := &u.Nets[j]
			for _, s := range p.Cfg.Servers {
				if s.Name != nc.Server {
					continue
				}
				nc.Pass = s.Pass
				if s.SASLUser != "" && r.chance(70) {
					nc.SASLUser, nc.SASLPass = s.SASLUser, s.SASLPass
				}
			}
			if r.chance(40) {
				nc.Cmds = []string{fmt.Sprintf("PRIVMSG g1 :cmd1 %s/%s", u.Name, nc.Name)}
				if r.chance(50) {
					nc.Cmds = append(nc.Cmds, fmt.Sprintf("NOTICE g2 :cmd2 %s/%s", u.Name, nc.Name))
				}
			}
			if r.chance(20) {
				nc.Disabled = true
			}
			if r.chance(30) {
				nc.Chans = append(nc.Chans, "-#d")
			}
		}
	}
	for _, c := range p.Cfg.Clients {
		if r.chance(70) {
			p.op(gap(r), "open", []string{c.Key}, r.intn(2)*10)
		}
	}
	if r.chance(40) {
		// several channels with keys
		p.op(3000, "sleep", nil)
		l := r.pick("#k3,#a,#k,#k2", "#k2,#k3", "#k3,#c,#k", "#k,#k2")
		var keyed, rest, keys []string
		for _, n := range strings.Split(l, ",") {
			if k := chanKey(n); k != "" {
				keyed, keys = append(keyed, n), append(keys, k[1:])
			} else {
				rest = append(rest, n)
			}
		}
		p.op(gap(r), "send", []string{p.anyClient(r).Key, "JOIN " + strings.Join(append(keyed, rest...), ",") + " " + strings.Join(keys, ",")})
	}
	ch := func() string { return r.pick("#a", "#b", "#c", "#d", "#k", "#k2", "#k3", "#C") }
	for n := 10 + r.intn(30); n > 0; n-- {
		u, nc := p.anyNet(r)
		me := "@" + u.Name + "/" + nc.Name
		srv := nc.Server
		c := p.anyClient(r).Key
		switch r.intn(22) {
		case 0, 1, 2:
			p.op(gap(r), "drop", []string{srv}, r.intn(2))
		case 3:
			p.op(r.intn(200000), "down", []string{srv})
		case 4, 5:
			p.op(gap(r), "up", []string{srv})
		case 6:
			p.op(gap(r), "dialfault", []string{srv}, r.intn(100), r.intn(20000))
		case 7:
			p.op(r.intn(90000), "stall", []string{srv}, r.intn(2))
			p.op(gap(r), "unstall", []string{srv})
		case 8, 9:
			name := ch()
			p.op(gap(r), "send", []string{c, "JOIN " + name + chanKey(name)})
		case 10:
			p.op(gap(r), "send", []string{c, "PART " + ch()})
		case 11:
			k := ch()
			p.op(gap(r), "pkick", []string{srv, "g1", k, me})
			if r.chance(50) {
				p.op(gap(r), "pinvite", []string{srv, "g1", k, me})
			}
		case 12:
			// somebody takes the nickname while the connection is down
			p.op(gap(r), "drop", []string{srv}, 1)
			p.op(r.intn(100000), "pnick", []string{srv, r.pick("g1", "g2"), nc.Nick + r.pick("", "", "_", "__")})
			if r.chance(30) {
				p.op(gap(r), "pnick", []string{srv, r.pick("g1", "g2", "g3"), nc.Nick + r.pick("_", "__")})
				p.op(gap(r), "drop", []string{srv}, r.intn(2))
				p.op(r.intn(200000), "sleep", nil)
			}
		case 13:
			p.op(gap(r), "pnick", []string{srv, nc.Nick + r.pick("", "", "_"), r.pick("g1", "g2", "g4")})
		case 14, 15:
			p.op(gap(r), "serv", []string{c, "network update " + nc.Name + " -enabled " + r.pick("true", "false")})
		case 16:
			p.op(gap(r), r.pick("crash", "restart"), nil)
		case 17, 18:
			p.op(30000+r.intn(300000), "sleep", nil)
		case 19:
			p.op(gap(r), "open", []string{c}, r.intn(2)*10)
		case 20:
			p.op(gap(r), "hangup", []string{c}, r.intn(2))
		case 21:
			p.op(gap(r), "mutereg", []string{srv}, 1)
			p.op(r.intn(200000), "drop", []string{srv}, 1)
			p.op(gap(r), "mutereg", []string{srv}, 0)
		}
	}
}

// chanKey is what a JOIN of a channel has to add.
func chanKey(name string) string {
	if strings.HasPrefix(name, "#k") {
		return " key" + name[2:] + "x"
	}
	return ""
}

func initReconnect(w *World) {
	for _, srv := range w.ircdList() {
		for _, k := range []string{"#k", "#k2", "#k3"} {
			ch := srv.channel(k)
			ch.key = chanKey(k)[1:]
			ch.modes['k'] = ch.key
			ch.members[srv.ghost("g1")] = "o"
		}
	}
}

func init() {
	// mutereg: the server accepts connections but never answers on them
	ops["mutereg"] = func(w *World, o *Op) {
		w.ircds[o.s(0)].muteNew = o.n(0) == 1
		if o.n(0) == 1 {
			w.fault("silent-server")
		}
	}
}

func finalReconnect(w *World) {
	w.calm()
	w.net.dialFault = nil
	for _, srv := range w.ircdList() {
		srv.muteNew = false
	}
	w.settle(40 * time.Minute)
	w.checkConnected("C07")
	// and it stays that way
	w.settle(20 * time.Minute)
	w.checkConnected("C07")
	w.checkAttempts("C07")
}

// checkConnected: every enabled network has one connection, set up as saved.
func (w *World) checkConnected(prop string) {
	for i := range w.cfg.Users {
		u := &w.cfg.Users[i]
		for j := range u.Nets {
			nc := &u.Nets[j]
			key := u.Name + "/" + nc.Name
			rec := w.dbNetwork(key)
			srv := w.ircds[nc.Server]
			var live []*iconn
			for _, c := range srv.conns {
				if !c.gone && w.ownerOf(c) == key {
					live = append(live, c)
				}
			}
			if rec == nil || !rec.Enabled {
				w.probe("net-disabled")
				if len(live) > 0 {
					w.fail(prop, "connected-disabled", "network %s is disabled but still has %d connections", key, len(live))
				}
				continue
			}
			if len(live) != 1 || !live[0].registered {
				w.fail(prop, "not-connected", "network %s is enabled but has %d connections long after all faults ended", key, len(live))
				continue
			}
			w.probe("net-connected")
			c := live[0]
			if w.cfg.X["settings"] == 0 {
				w.checkSetup(prop, key, nc, c)
			}
			saved := w.dbChannels(key, srv.fold)
			for _, k := range sortedKeys(saved) {
				ch := srv.chans[k]
				if ch != nil {
					if _, ok := ch.members[c.u]; ok {
						w.probe("chan-joined")
						continue
					}
				}
				if c.kickedOrRefused(saved[k].Name, saved[k].Key) {
					continue
				}
				w.fail(prop, "channel-not-joined", "network %s is connected but not on its saved channel %s", key, saved[k].Name)
			}
			for _, ch := range srv.chanList() {
				if _, ok := ch.members[c.u]; ok {
					if _, ok := saved[srv.fold(ch.name)]; !ok {
						w.fail(prop, "channel-not-saved", "network %s is on channel %s, which is not saved", key, ch.name)
					}
				}
			}
		}
	}
}

// kickedOrRefused: the server threw us off the channel or refused the last
// attempt to join it.
// (a server does not refuse the key that is saved)
func (c *iconn) kickedOrRefused(name, key string) bool {
	last := false
	for _, l := range c.sent {
		if l.msg == nil {
			continue
		}
		switch {
		case l.msg.Command == "JOIN" && l.msg.Prefix.Name == c.u.nick && c.srv.fold(par(l.msg, 0)) == c.srv.fold(name):
			last = false
		case l.msg.Command == "KICK" && c.srv.fold(par(l.msg, 0)) == c.srv.fold(name):
			last = true
		case l.msg.Command == "INVITE" && c.srv.fold(par(l.msg, 1)) == c.srv.fold(name):
			last = false // soju joins saved channels it is invited to
		case l.msg.Command == "475" && c.srv.chans[c.srv.fold(name)] != nil && c.srv.chans[c.srv.fold(name)].key == key:
		case len(l.msg.Command) == 3 && l.msg.Command[0] == '4' && c.srv.fold(par(l.msg, 1)) == c.srv.fold(name):
			last = true
		}
	}
	return last
}

func (w *World) checkSetup(prop, key string, nc *NetCfg, c *iconn) {
	if nc.Pass != c.pass {
		w.fail(prop, "setup-pass", "network %s registered with server password %q, configured is %q", key, c.pass, nc.Pass)
	}
	if nc.SASLUser != "" && c.srv.saslMode == "" && c.account != nc.SASLUser {
		w.fail(prop, "setup-sasl", "network %s is logged in as %q, configured is %q", key, c.account, nc.SASLUser)
	}
	if nc.SASLUser != "" && c.srv.saslMode == "" && c.regAccount != nc.SASLUser {
		w.fail(prop, "setup-sasl", "network %s registered before it was logged in", key)
	}
	for _, cmd := range nc.Cmds {
		n := 0
		for _, l := range c.recv {
			if l.raw == cmd || strings.HasSuffix(l.raw, " "+cmd) {
				n++
			}
		}
		if n != 1 {
			w.fail(prop, "setup-commands", "network %s: connect command %q was sent %d times on the current connection", key, cmd, n)
		}
		w.probe("setup-command")
	}
	if w.cfg.X["nicks"] == 0 && c.u.nick != nc.Nick {
		other := c.srv.users[c.srv.fold(nc.Nick)]
		if other == nil {
			w.fail(prop, "nick-not-regained", "network %s uses nickname %q although the configured one, %q, is free", key, c.u.nick, nc.Nick)
		}
	}
}

// checkAttempts: soju does not hammer a server that fails.
func (w *World) checkAttempts(prop string) {
	type att struct {
		at  time.Time
		c   *iconn
		key string
	}
	last := map[string]*iconn{}
	for _, srv := range w.ircdList() {
		for _, c := range srv.conns {
			key := w.ownerOf(c)
			if key == "" {
				continue
			}
			key = fmt.Sprintf("%d %s", c.instance, key)
			if p := last[key]; p != nil {
				w.probe("reattempt")
				if !p.registered && c.openedAt.Sub(p.openedAt) < 30*time.Second && !w.toggledBetween(w.ownerOf(c), p.openedAt, c.openedAt) {
					w.fail(prop, "hammering", "network %s tried again %v after a failed attempt", w.ownerOf(c), c.openedAt.Sub(p.openedAt))
				}
			}
			last[key] = c
		}
	}
}

// toggledBetween: a client changed a network's settings in that time.
func (w *World) toggledBetween(key string, a, b time.Time) bool {
	for _, s := range w.sess {
		for _, l := range s.sent {
			if l.msg != nil && strings.Contains(l.raw, "network ") && !l.at.Before(a.Add(-time.Minute)) && !l.at.After(b) {
				return true
			}
		}
	}
	return false
}
