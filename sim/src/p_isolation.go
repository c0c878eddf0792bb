package main

import (
	"context"
	"encoding/base64"
	"fmt"
	"regexp"
	"strings"
	"time"
)

// Property C02: users and networks are isolated from each other.  Every text
// in the world is unique, so information flow can be followed: a client may
// only see what the server told a connection of its own network, or what a
// client of that network said; a connection may only carry what a client of
// its network said and its own network's secrets.
func init() {
	register(&profile{name: "isolation", prop: "C02", gen: genIsolation, op: opIsolation, final: finalIsolation})
}

var tokenRE = regexp.MustCompile(`[A-Za-z0-9]+`)

func (w *World) tokens(params []string) (out []string) {
	for _, p := range params {
		for _, t := range tokenRE.FindAllString(p, -1) {
			if w.byText[t] != nil {
				out = append(out, t)
			}
		}
	}
	return out
}

// connOwner is the realname of the network the connection is for; realnames
// are unique to every network that ever existed.
func connOwner(c *iconn) string {
	if c.gotUser == nil {
		return ""
	}
	return par(c.gotUser, 3)
}

// noteOwners finds out which network new sessions are bound to.
func (w *World) noteOwners() {
	own, _ := w.x["owner"].(map[*sess]string)
	if own == nil {
		own = map[*sess]string{}
		w.x["owner"] = own
	}
	for _, s := range w.sess {
		if own[s] != "" || !s.ready || !s.aliveNow() {
			continue
		}
		id := s.isupport["BOUNCER_NETID"]
		if id == "" {
			own[s] = "user " + s.cfg.User
			continue
		}
		own[s] = "?"
		u, err := w.inst.db.GetUser(context.Background(), s.cfg.User)
		if err != nil {
			continue
		}
		nets, _ := w.inst.db.ListNetworks(context.Background(), u.ID)
		for _, n := range nets {
			if fmt.Sprint(n.ID) == id {
				own[s] = n.Realname
			}
		}
	}
}

func opIsolation(w *World, o *Op) bool {
	w.noteOwners()
	switch o.K {
	case "topic": // server, peer, channel
		srv := w.ircds[o.s(0)]
		t := w.upText("u")
		w.byText[t] = &wmsg{text: t, dir: "up"}
		srv.setTopic(srv.ghost(o.s(1)), srv.channel(o.s(2)), t, nil)
	case "ctext": // client, line with %s for a unique text
		if s := w.cur[o.s(0)]; s != nil && s.live() {
			t := w.upText("d")
			w.byText[t] = &wmsg{text: t, dir: "down"}
			s.send(strings.ReplaceAll(o.s(1), "%s", t))
		}
	case "mark": // client, target
		if s := w.cur[o.s(0)]; s != nil && s.live() && s.caps["draft/read-marker"] {
			w.mcount++
			s.send(fmt.Sprintf("MARKREAD %s timestamp=1999-%02d-%02dT%02d:%02d:00.000Z", o.s(1), 1+w.mcount/20000%12, 1+w.mcount/1440%28, w.mcount/60%24, w.mcount%60))
		}
	case "newnet": // client, name, server
		if s := w.cur[o.s(0)]; s != nil && s.live() {
			w.mcount++
			real := fmt.Sprintf("R %s/%s.%d", s.cfg.User, o.s(1), w.mcount)
			s.send(fmt.Sprintf(`PRIVMSG BouncerServ :network create -name %s -addr irc+insecure://%s.test:6667 -nick %sn%d -realname "%s" -pass secret-%d`, o.s(1), o.s(2), s.cfg.User, w.mcount, real, w.mcount))
			w.secret(fmt.Sprintf("secret-%d", w.mcount), real)
		}
	case "newuser": // by ann: name
		if s := w.cur["annC"]; s != nil && s.live() {
			s.send(fmt.Sprintf("PRIVMSG BouncerServ :user create -username %s -password pw-%s", o.s(0), o.s(0)))
			w.mcount++
			nc := w.cfg.user(o.s(0)).Nets[0]
			real := fmt.Sprintf("R %s/%s.%d", o.s(0), nc.Name, w.mcount)
			s.send(fmt.Sprintf(`PRIVMSG BouncerServ :user run %s network create -name %s -addr irc+insecure://%s.test:6667 -nick %sn%d -realname "%s"`, o.s(0), nc.Name, nc.Server, o.s(0), w.mcount, real))
		}
	default:
		return false
	}
	return true
}

func (w *World) secret(s, owner string) {
	m, _ := w.x["secrets"].(map[string]string)
	if m == nil {
		m = map[string]string{}
		w.x["secrets"] = m
	}
	m[s] = owner
}

func genIsolation(r *rng, p *Plan) {
	genBase(r, p, genOpt{servers: 2, users: 3, netsPer: 2, clients: 2, stores: []string{"memory", "db", "db", "fs"}, named: r.chance(50), downCaps: func(r *rng) []string {
		l := genDownCaps(r)
		if r.chance(40) {
			l = append(l, "draft/chathistory", "soju.im/search")
			for _, x := range []string{"batch", "server-time", "message-tags"} {
				if !has(l, x) {
					l = append(l, x)
				}
			}
		}
		return l
	}})
	p.Cfg.Users[0].Admin = true
	for i := range p.Cfg.Users {
		u := &p.Cfg.Users[i]
		p.Cfg.Clients = append(p.Cfg.Clients, ClientCfg{Key: u.Name + "C", User: u.Name, Caps: []string{"soju.im/bouncer-networks", "message-tags", "batch"}})
		for j := range u.Nets {
			u.Nets[j].Pass = "secret-" + u.Name + "-" + u.Nets[j].Name
		}
	}
	for _, c := range p.Cfg.Clients {
		if r.chance(80) || c.Net == "" {
			p.op(gap(r), "open", []string{c.Key}, r.intn(2)*10)
		}
	}
	ch := func() string { return r.pick("#a", "#b", "#c", "#a") }
	for n := 20 + r.intn(45); n > 0; n-- {
		u, nc := p.anyNet(r)
		c := p.anyClient(r)
		me := "@" + u.Name + "/" + nc.Name
		switch k := r.intn(100); {
		case k < 22:
			p.op(gap(r), "say", []string{nc.Server, r.pick("g1", "g2", "g3"), r.pick(me, me, ch()), r.pick("PRIVMSG", "NOTICE")}, 1+r.intn(3))
		case k < 40:
			p.op(gap(r), "msg", []string{c.Key, r.pick(ch(), "g1", "g2", "bot1", r.pick("ann0", "bob0", "cat0")), r.pick("PRIVMSG", "NOTICE")}, 1+r.intn(2))
		case k < 44:
			p.op(gap(r), "topic", []string{nc.Server, "g1", ch()})
		case k < 48:
			p.op(gap(r), "ctext", []string{c.Key, r.pick("TOPIC #a :%s", "AWAY :%s", "PART #c :%s", "WHOIS %s", "WHO %s", "KICK #c g1 :%s", "INVITE g1 #%s", "MONITOR + %s")})
		case k < 54:
			p.op(gap(r), "mark", []string{c.Key, r.pick(ch(), "g1", "g2")})
		case k < 62:
			p.op(gap(r), "send", []string{c.Key, r.pick("CHATHISTORY LATEST #a * 50", "CHATHISTORY LATEST g1 * 50", "CHATHISTORY LATEST #c * 50", "CHATHISTORY TARGETS timestamp=1999-01-01T00:00:00.000Z timestamp=2001-01-01T00:00:00.000Z 50", "CHATHISTORY BETWEEN #b timestamp=1999-01-01T00:00:00.000Z timestamp=2001-01-01T00:00:00.000Z 50", "SEARCH in=#a", "SEARCH text=u", "SEARCH from=g1", "MARKREAD #a", "MARKREAD g1", "JOIN #c", "NAMES #a", "LIST", "WHO #a", "WHOIS ann0")})
		case k < 68:
			p.op(gap(r), "open", []string{c.Key}, r.intn(2)*10)
		case k < 73:
			p.op(gap(r), "hangup", []string{c.Key}, r.intn(2))
		case k < 76:
			p.op(gap(r), "send", []string{c.Key, "NICK " + r.pick("ann0", "bob0", "cat0", "zoe")})
		case k < 80:
			p.op(gap(r), "newnet", []string{u.Name + "C", r.pick("n1", "n2", nc.Name), nc.Server})
		case k < 84:
			p.op(gap(r), "serv", []string{u.Name + "C", "network delete " + r.pick("n1", "n2", nc.Name)})
		case k < 87:
			p.op(gap(r), "serv", []string{u.Name + "C", r.pick("network update "+nc.Name+" -name x"+nc.Name, "network update x"+nc.Name+" -name "+nc.Name, "network update "+nc.Name+" -auto-away false", "channel update #a/"+nc.Name+" -detached true -relay-detached message", "network status", "channel status -network "+nc.Name, "user status bob", "sasl status -network "+nc.Name)})
		case k < 89:
			v := r.pick("bob", "cat")
			p.op(gap(r), "serv", []string{"annC", "user delete " + v + " " + map[string]string{"bob": "48181a", "cat": "9d989e"}[v]})
			p.op(gap(r), "newuser", []string{v})
		case k < 92:
			p.op(gap(r), "drop", []string{nc.Server}, r.intn(2))
			p.op(gap(r)*20, "sleep", nil)
		case k < 95:
			p.op(gap(r), "send", []string{c.Key, "PART " + ch() + " :detach"})
		case k < 97:
			p.op(gap(r), r.pick("restart", "crash"), nil)
		default:
			p.op(5000+r.intn(70000), "sleep", nil)
		}
	}
}

func finalIsolation(w *World) {
	w.noteOwners()
	w.calm()
	w.settle(20 * time.Minute)
	// everybody comes back and asks for everything
	for i := range w.cfg.Clients {
		cc := w.cfg.Clients[i]
		if s := w.cur[cc.Key]; s == nil || !s.live() {
			if s := w.open(cc); s != nil {
				s.waitReady(20 * time.Second)
			}
		}
		w.noteOwners()
		s := w.cur[cc.Key]
		if s == nil || !s.live() {
			continue
		}
		for _, t := range []string{"#a", "#b", "#c", "g1", "g2", "ann0", "bob0", "cat0"} {
			if s.caps["draft/chathistory"] {
				s.send("CHATHISTORY LATEST " + t + " * 100")
			}
			if s.caps["draft/read-marker"] {
				s.send("MARKREAD " + t)
			}
		}
		if s.caps["soju.im/search"] {
			s.send("SEARCH from=g1")
		}
	}
	w.settle(2 * time.Minute)
	w.noteOwners()
	own := w.x["owner"].(map[*sess]string)
	fs := w.cfg.Store == "fs"
	userOf := func(owner string) string {
		f := strings.FieldsFunc(strings.TrimPrefix(strings.TrimPrefix(owner, "R "), "user "), func(r rune) bool { return r == '/' })
		if len(f) == 0 {
			return ""
		}
		return f[0]
	}
	okOwner := func(s *sess, owner string) bool {
		o := own[s]
		if o == owner {
			return true
		}
		// log files belong to the user and network name, not to one incarnation
		return (fs || strings.HasPrefix(o, "user ")) && userOf(o) == userOf(owner)
	}
	told := map[string]map[string]bool{} // token -> owners it was told to by a server
	said := map[string]map[string]bool{} // token -> owners whose clients said it
	add := func(m map[string]map[string]bool, t, o string) {
		if m[t] == nil {
			m[t] = map[string]bool{}
		}
		m[t][o] = true
	}
	for _, srv := range w.ircdList() {
		for _, c := range srv.conns {
			for i := range c.sent {
				if c.sent[i].msg != nil {
					for _, t := range w.tokens(c.sent[i].msg.Params) {
						add(told, t, connOwner(c))
					}
				}
			}
		}
	}
	marks := map[string]string{}
	for _, s := range w.sess {
		for i := range s.sent {
			m := s.sent[i].msg
			if m == nil {
				continue
			}
			for _, t := range w.tokens(m.Params) {
				add(said, t, own[s])
			}
			if m.Command == "MARKREAD" && len(m.Params) > 1 {
				marks[par(m, 1)] = own[s]
			}
		}
	}
	for _, s := range w.sess {
		if own[s] == "" || own[s] == "?" {
			continue
		}
		for i := range s.lines {
			m := s.lines[i].msg
			for _, t := range w.tokens(m.Params) {
				w.probe("flow-client")
				ok := false
				for _, o := range append(sortedKeys(told[t]), sortedKeys(said[t])...) {
					ok = ok || okOwner(s, o)
				}
				if !ok {
					w.fail("C02", "leak-to-client", "client %s of %s received %q, which belongs to %v", s.label(), own[s], s.lines[i].raw, append(sortedKeys(told[t]), sortedKeys(said[t])...))
				}
			}
			if m.Command == "MARKREAD" && strings.HasPrefix(par(m, 1), "timestamp=1999") {
				w.probe("flow-marker")
				// fs has no read markers of its own: the database has
				if o, known := marks[par(m, 1)]; known && o != own[s] && o != "?" && o != "" {
					w.fail("C02", "marker-leak", "client %s of %s received the read marker of %s: %q", s.label(), own[s], o, s.lines[i].raw)
				}
			}
			if strings.Contains(s.lines[i].raw, "secret-") || strings.Contains(s.lines[i].raw, "pw-") {
				w.fail("C02", "secret-to-client", "client %s received a password: %q", s.label(), s.lines[i].raw)
			}
		}
	}
	secrets, _ := w.x["secrets"].(map[string]string)
	for _, u := range w.cfg.Users {
		for _, n := range u.Nets {
			if secrets == nil {
				secrets = map[string]string{}
			}
			secrets[n.Pass] = n.Real
		}
	}
	for _, srv := range w.ircdList() {
		for _, c := range srv.conns {
			o := connOwner(c)
			for i := range c.recv {
				m := c.recv[i].msg
				if m == nil {
					continue
				}
				raw := c.recv[i].raw
				if m.Command == "AUTHENTICATE" {
					if b, err := base64.StdEncoding.DecodeString(par(m, 0)); err == nil {
						raw = string(b)
					}
				}
				if strings.Contains(raw, "pw-") {
					w.fail("C02", "secret-to-server", "a user password was sent to %s for %q: %q", srv.name, o, raw)
				}
				if m.Command == "PASS" && o != "" && secrets[par(m, 0)] != o {
					w.fail("C02", "secret-to-server", "the password %q was sent to %s for %q", par(m, 0), srv.name, o)
				}
				if o == "" {
					continue
				}
				for _, t := range w.tokens(m.Params) {
					w.probe("flow-server")
					ok := false
					for _, from := range sortedKeys(said[t]) {
						ok = ok || from == o || from == "?" || from == ""
					}
					if !ok {
						w.fail("C02", "leak-to-server", "%s received %q for %q, which was said by %v", srv.name, raw, o, sortedKeys(said[t]))
					}
				}
			}
		}
	}
}
