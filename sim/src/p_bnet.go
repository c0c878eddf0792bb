package main

import (
	"context"
	"fmt"
	"strings"
	"time"

	"codeberg.org/emersion/soju/database"
	"gopkg.in/irc.v4"
)

// Property C20: clients that asked for notifications about networks always
// know the same as what listing the networks would tell, and that is true.
func init() {
	register(&profile{name: "bnet", prop: "C20", gen: genBnet, op: opBnet, final: finalBnet, started: true})
}

// listed follows listings of networks.  What soju tells one client is
// ordered, so when a listing begins, the client's view, made of the first
// listing and all notifications, has to be what the listing says.
func (s *sess) listed(msg *irc.Message) {
	w := s.w
	if msg.Command == "BOUNCER" {
		if msg.Tags["batch"] != "" && s.netList != nil {
			m := map[string]string{}
			for k, v := range irc.ParseTags(par(msg, 2)) {
				m[k] = v
			}
			s.netList[par(msg, 1)] = m
		}
		return
	}
	if strings.HasPrefix(par(msg, 0), "+") {
		s.netSeen = map[string]map[string]string{}
		for id, m := range s.netState {
			c := map[string]string{}
			for k, v := range m {
				c[k] = v
			}
			s.netSeen[id] = c
		}
		s.netList = map[string]map[string]string{}
		return
	}
	s.netLists++
	seen, list := s.netSeen, s.netList
	s.netSeen, s.netList = nil, nil
	if list == nil {
		return
	}
	if s.caps["soju.im/bouncer-networks-notify"] && s.netLists > 1 && w.plan.Profile == "bnet" {
		w.probe("view-compared")
		if d := diffViews(seen, list); d != "" {
			w.fail("C20", "stale-view", "client %s asked for the networks: %s", s.label(), d)
		}
	}
	s.netState = list
}

func diffViews(seen, list map[string]map[string]string) string {
	var l []string
	for _, id := range sortedKeys(list) {
		if seen[id] == nil {
			l = append(l, fmt.Sprintf("network %s was never announced", id))
			continue
		}
		for _, k := range sortedKeys(list[id]) {
			if seen[id][k] != list[id][k] {
				l = append(l, fmt.Sprintf("network %s has %s=%q, known as %q", id, k, list[id][k], seen[id][k]))
			}
		}
		for _, k := range sortedKeys(seen[id]) {
			if _, ok := list[id][k]; !ok {
				l = append(l, fmt.Sprintf("network %s has no %s, known as %q", id, k, seen[id][k]))
			}
		}
	}
	for _, id := range sortedKeys(seen) {
		if list[id] == nil {
			l = append(l, fmt.Sprintf("network %s does not exist (any more)", id))
		}
	}
	return strings.Join(l, "; ")
}

func opBnet(w *World, o *Op) bool {
	switch o.K {
	case "list": // client
		if s := w.cur[o.s(0)]; s != nil && s.live() {
			s.send("BOUNCER LISTNETWORKS")
		}
	case "bn": // client, line with $id(n) for the n-th network of the user
		s := w.cur[o.s(0)]
		if s == nil || !s.live() {
			return true
		}
		ids := sortedKeys(s.netState)
		if strings.Contains(o.s(1), "$id") {
			if len(ids) == 0 {
				return true
			}
			id := ids[o.n(0)%len(ids)]
			s.send(strings.ReplaceAll(strings.ReplaceAll(o.s(1), "$id", id), "$name", s.netState[id]["name"]))
		} else if strings.Contains(o.s(1), "$name") {
			if len(ids) == 0 {
				return true
			}
			s.send(strings.ReplaceAll(o.s(1), "$name", s.netState[ids[o.n(0)%len(ids)]]["name"]))
		} else {
			s.send(o.s(1))
		}
	case "badreg": // server refuses registrations with this numeric ("" ends it)
		w.ircds[o.s(0)].regError = o.s(1)
	default:
		return false
	}
	return true
}

func finalBnet(w *World) {
	for _, name := range sortedKeys(w.ircds) {
		w.ircds[name].regError, w.ircds[name].muteNew = "", false
	}
	w.calm()
	if w.inst.dead {
		return
	}
	w.settle(5 * time.Second)
	w.checkBnet(false)
	w.settle(26 * time.Minute)
	w.checkBnet(true)
}

func (w *World) checkBnet(truth bool) {
	for _, s := range w.sess {
		if s.aliveNow() {
			s.send("BOUNCER LISTNETWORKS")
		}
	}
	w.settle(5 * time.Second)
	if !truth {
		return
	}
	for _, s := range w.sess {
		if !s.aliveNow() || s.netLists == 0 || s.faulty {
			continue
		}
		ctx := context.Background()
		u, err := w.inst.db.GetUser(ctx, s.cfg.User)
		if err != nil {
			continue
		}
		nets, _ := w.inst.db.ListNetworks(ctx, u.ID)
		want := map[string]map[string]string{}
		users := map[string]int{}
		named := map[string]bool{}
		for i := range nets {
			n := &nets[i]
			if named[n.GetName()] {
				w.fail("C20", "same-name", "user %s has two networks called %q", s.cfg.User, n.GetName())
			}
			named[n.GetName()] = true
			users[n.Username]++
			m := map[string]string{"name": n.GetName(), "nickname": database.GetNick(u, n), "state": "disconnected", "tls": "0"}
			if r := database.GetRealname(u, n); r != "" {
				m["realname"] = r
			}
			if n.Username != "" {
				m["username"] = n.Username
			}
			host := strings.TrimPrefix(n.Addr, "irc+insecure://")
			if h, p, ok := strings.Cut(host, ":"); ok {
				m["host"], m["port"] = h, p
			} else {
				m["host"] = host
			}
			for _, srv := range w.ircdList() {
				for _, c := range srv.live() {
					if c.registered && c.gotUser != nil && par(c.gotUser, 0) == fmt.Sprintf("id%d", n.ID) {
						m["state"] = "connected"
					}
				}
			}
			want[fmt.Sprint(n.ID)] = m
		}
		got := map[string]map[string]string{}
		for id, m := range s.netState {
			c := map[string]string{}
			for k, v := range m {
				if k != "error" {
					c[k] = v
				}
			}
			// whether it is connected can only be told by the user name
			if want[id] != nil && (want[id]["username"] != "id"+id || users[want[id]["username"]] > 1) {
				c["state"], want[id]["state"] = "", ""
			}
			got[id] = c
		}
		w.probe("listing-true")
		if d := diffViews(got, want); d != "" {
			w.fail("C20", "false-listing", "client %s: what is listed is not what is saved and connected: %s", s.label(), d)
		}
	}
	w.checkSameIdentity()
}

func genBnet(r *rng, p *Plan) {
	genBase(r, p, genOpt{servers: 2, users: 1 + r.intn(2), netsPer: 2, clients: 2, chans: []string{}, downCaps: func(r *rng) []string {
		l := genDownCaps(r)
		l = append(l, "soju.im/bouncer-networks", "batch")
		if r.chance(80) {
			l = append(l, "soju.im/bouncer-networks-notify")
		}
		return uniq(l)
	}})
	c := &p.Cfg
	if r.chance(20) {
		c.SQLErrPct = 1 + r.intn(8)
	}
	for i := range c.Users {
		u := &c.Users[i]
		u.Admin = i == 0
		if r.chance(30) {
			u.Nick = u.Name + "def"
		}
		if r.chance(30) {
			u.Real = "Default " + u.Name
		}
		for j := range u.Nets {
			n := &u.Nets[j]
			if r.chance(40) {
				n.Nick = ""
			}
			if r.chance(40) {
				n.Real = ""
			}
			n.Disabled = r.chance(15)
		}
	}
	for i := range c.Clients {
		if r.chance(50) {
			c.Clients[i].Net = ""
		}
		p.op(r.intn(300), "open", []string{c.Clients[i].Key})
	}
	p.op(3000, "sleep", nil)
	// the user name of a network tells the model server which one it is
	id := 0
	for i := range c.Users {
		for range c.Users[i].Nets {
			id++
			for _, cc := range c.Clients {
				if cc.User == c.Users[i].Name {
					p.op(0, "bn", []string{cc.Key, fmt.Sprintf("BOUNCER CHANGENETWORK %d username=id%d", id, id)})
					break
				}
			}
		}
	}
	p.op(3000, "sleep", nil)
	n := 0
	for i := 0; i < 15+r.intn(45); i++ {
		cc := p.anyClient(r)
		k := cc.Key
		srv := p.anyServer(r)
		n++
		nick := fmt.Sprintf("z%d", n)
		switch r.intn(20) {
		case 0:
			p.op(gap(r), "open", []string{k})
		case 1:
			p.op(gap(r), "hangup", []string{k}, r.intn(2))
			p.op(gap(r), "open", []string{k})
		case 2:
			p.op(gap(r), "bn", []string{k, fmt.Sprintf("BOUNCER ADDNETWORK host=%s.test;tls=0;port=6667;nickname=%s%s", srv, nick, r.pick("", fmt.Sprintf(";name=new%d", n)))})
		case 3:
			p.op(gap(r), "bn", []string{k, fmt.Sprintf("PRIVMSG BouncerServ :network create -addr irc+insecure://%s.test:6667%s -nick %s%s", srv, r.pick("", fmt.Sprintf(" -name new%d", n)), nick, r.pick("", " -enabled=false", " -realname X", " -username foo"))})
		case 4, 5, 6:
			p.op(gap(r), "bn", []string{k, "BOUNCER CHANGENETWORK $id " + r.pick("nickname="+nick, "nickname=", "realname=New", "realname=", "username=u"+nick, "username=", "username=id$id", "host="+srv+".test", "host="+srv+".test;port=6667", fmt.Sprintf("name=ren%d", n), "name=", "pass=x")}, r.intn(5))
		case 7, 8, 9:
			p.op(gap(r), "bn", []string{k, "PRIVMSG BouncerServ :network update $name " + r.pick("-nick "+nick, `-nick ""`, "-realname New", `-realname ""`, "-username u"+nick, `-username ""`, "-username id$id", "-enabled=false", "-enabled=true", "-addr irc+insecure://"+srv+".test:6667", "-addr irc+insecure://"+srv+".test", fmt.Sprintf("-name ren%d", n))}, r.intn(5))
		case 10:
			if r.chance(40) {
				p.op(gap(r), "bn", []string{k, r.pick("BOUNCER DELNETWORK $id", "PRIVMSG BouncerServ :network delete $name")}, r.intn(5))
			}
		case 11:
			p.op(gap(r), "send", []string{k, "NICK " + nick})
		case 12:
			p.op(gap(r), "send", []string{k, "SETNAME :Real " + nick})
		case 13:
			p.op(gap(r), "bn", []string{k, "PRIVMSG BouncerServ :user update " + r.pick("-nick "+nick, `-nick ""`, "-realname Me", `-realname ""`)})
		case 14:
			p.op(gap(r), "drop", []string{srv}, r.intn(2))
		case 15:
			p.op(gap(r), "down", []string{srv})
			p.op(gap(r), "drop", []string{srv}, r.intn(2))
			p.op(r.intn(150000), "sleep", nil)
			p.op(gap(r), "up", []string{srv})
		case 16:
			p.op(gap(r), "badreg", []string{srv, r.pick("", "464", "465")})
		case 17:
			p.op(gap(r), "praw", []string{srv, "ERROR :Closing link"})
			p.op(gap(r), "drop", []string{srv})
		case 18:
			switch r.intn(4) {
			case 0:
				p.op(gap(r), "dialfault", []string{srv}, r.intn(60), 1+r.intn(20000))
			case 1:
				p.op(gap(r), "restart", nil)
			case 2:
				p.op(gap(r), "mutereg", []string{srv}, r.intn(2))
			case 3:
				p.op(r.intn(600000), "sleep", nil)
			}
		case 19:
			p.op(gap(r), "list", []string{k})
		}
		if r.chance(15) {
			p.op(gap(r), "list", []string{p.anyClient(r).Key})
		}
	}
}

func uniq(l []string) (out []string) {
	for _, s := range l {
		if !has(out, s) {
			out = append(out, s)
		}
	}
	return out
}

// checkSameIdentity: the clients of a user which aren't bound to a network
// are told of the same nickname and real name when one of them changes it.
func (w *World) checkSameIdentity() {
	for _, a := range w.sess {
		for _, b := range w.sess {
			if a == b || a.cfg.User != b.cfg.User || a.isupport["BOUNCER_NETID"] != "" || b.isupport["BOUNCER_NETID"] != "" || !a.aliveNow() || !b.aliveNow() {
				continue
			}
			if !a.nickAt.IsZero() && b.readyAt.Before(a.nickAt) && !b.nickAt.After(a.nickAt) {
				w.probe("same-nick")
				if a.nick != b.nick {
					w.fail("C20", "stale-nick", "client %s was told that its nickname became %q; client %s, of the same user, still believes it is %q", a.label(), a.nick, b.label(), b.nick)
				}
			}
			if !a.realAt.IsZero() && b.caps["setname"] && b.readyAt.Before(a.realAt) && !b.realAt.After(a.realAt) {
				w.probe("same-realname")
				if a.realname != b.realname {
					w.fail("C20", "stale-realname", "client %s was told that its real name became %q; client %s, of the same user, still believes it is %q", a.label(), a.realname, b.label(), b.realname)
				}
			}
		}
	}
}
