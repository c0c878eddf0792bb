package main

import (
	"context"
	"fmt"
	"regexp"
	"strings"
	"time"
)

// Property C10: what a user may do.  Every step is one command of one client;
// its footprint in the saved configuration, on everybody else's connections
// and in the reply is compared with the rights the user had.
func init() {
	register(&profile{name: "authz", prop: "C10", gen: genAuthz, init: initAuthz, op: opAuthz, final: finalAuthz})
}

func initAuthz(w *World) {
	w.x["cfg"] = &cfgState{pw: map[string]string{}}
	for i := range w.cfg.Users {
		for j := range w.cfg.Users[i].Nets {
			nc := &w.cfg.Users[i].Nets[j]
			w.x["id/"+w.cfg.Users[i].Name+"/"+nc.Name] = nc.id
		}
	}
	w.settle(5 * time.Second)
	for _, cc := range w.cfg.Clients {
		if s := w.open(cc); s != nil {
			s.waitReady(20 * time.Second)
		}
	}
	w.settle(3 * time.Second)
}

// actsAs is the user a session acts as.
func (s *sess) actsAs() string {
	if s.cfg.As != "" {
		u, _, _ := splitLogin(s.cfg.As)
		return u
	}
	return s.cfg.User
}

var netIDRE = regexp.MustCompile(`\$id\(([^)]*)\)`)

func (m cmodel) enabledNets(user string) (n int) {
	for k, v := range m {
		if strings.HasPrefix(k, "n/"+user+"/") && strings.HasSuffix(k, "/enabled") && v == "true" {
			n++
		}
	}
	return n
}

// limit is the number of networks a user may have enabled; -1: any.
func (w *World) limit(m cmodel, user string) int {
	n := -1
	fmt.Sscan(m["u/"+user+"/max"], &n)
	if n < 0 && w.cfg.MaxNetworks != nil {
		n = *w.cfg.MaxNetworks
	}
	return n
}

// reply extracts the answers a session got since seq.
func (s *sess) replies(seq int) (errs, oks []string) {
	for _, l := range s.lines {
		if l.seq <= seq || l.msg.Prefix != nil && l.msg.Command == "PRIVMSG" && l.msg.Prefix.Name != "BouncerServ" {
			continue
		}
		switch l.msg.Command {
		case "PRIVMSG":
			if t := par(l.msg, 1); strings.HasPrefix(t, "error:") {
				errs = append(errs, t)
			} else {
				oks = append(oks, t)
			}
		case "FAIL", "415", "421", "461":
			errs = append(errs, l.raw)
		case "BOUNCER":
			if c := par(l.msg, 0); c != "NETWORK" {
				oks = append(oks, l.raw)
			}
		}
	}
	return errs, oks
}

func opAuthz(w *World, o *Op) bool {
	switch o.K {
	case "az": // client, rights, line.  rights: own, admin (reserved to administrators), never (to nobody), enable (counts against the limit), any
		s := w.cur[o.s(0)]
		if s == nil || !s.aliveNow() {
			if cc := w.cfg.client(o.s(0)); cc != nil && !w.inst.dead {
				if s = w.open(*cc); s != nil {
					s.waitReady(20 * time.Second)
				}
			}
			w.settle(time.Second)
			if s == nil || !s.aliveNow() {
				return true
			}
		}
		w.azStep([]*sess{s}, o.s(1), []string{o.s(2)})
	case "azsock": // rights, user, line
		if !w.inst.dead {
			w.settle(time.Second)
			w.azSock(o.s(0), o.s(1), o.s(2))
		}
	case "azburst": // line, clients...: all at once
		var l []*sess
		var lines []string
		for i, k := range o.S[1:] {
			if s := w.cur[k]; s != nil && s.aliveNow() {
				for j := 0; j < o.n(0); j++ {
					l = append(l, s)
					lines = append(lines, strings.ReplaceAll(o.s(0), "%n", fmt.Sprintf("x%d%d", i, j)))
				}
			}
		}
		if len(l) > 0 {
			w.azStep(l, "burst", lines)
		}
	default:
		return false
	}
	return true
}

func (w *World) azStep(ss []*sess, rights string, lines []string) {
	s := ss[0]
	me := s.actsAs()
	before := w.cfgDB()
	if before["u/"+me] == "" {
		return
	}
	admin := before["u/"+me+"/admin"] == "true"
	seq := w.nextSeq()
	w.settle(50 * time.Millisecond)
	aliveBefore := map[*sess]bool{}
	for _, o := range w.sess {
		aliveBefore[o] = o.aliveNow()
	}
	conns := map[*iconn]bool{}
	for _, srv := range w.ircdList() {
		for _, c := range srv.live() {
			if c.registered {
				conns[c] = true
			}
		}
	}
	for i := range ss {
		lines[i] = netIDRE.ReplaceAllStringFunc(lines[i], func(t string) string {
			key := netIDRE.FindStringSubmatch(t)[1]
			id := fmt.Sprint(w.x["id/"+key])
			// the number may be somebody else's by now
			if u := w.dbUser(strings.Split(key, "/")[0]); u != nil {
				nets, _ := w.inst.db.ListNetworks(context.Background(), u.ID)
				for i := range nets {
					if fmt.Sprint(nets[i].ID) == id {
						return id
					}
				}
			}
			return "9999"
		})
		ss[i].send(lines[i])
	}
	w.settle(3 * time.Second)
	after := w.cfgDB()
	errs, oks := s.replies(seq)
	who := fmt.Sprintf("%q by %s (user %s, administrator: %v)", lines[0], s.label(), me, admin)
	w.probe("command-" + rights)
	changed := before.diff(after)
	refused := len(errs) > 0 && len(oks) == 0
	switch {
	case rights == "never" || rights == "admin" && !admin:
		if !refused {
			w.fail("C10", "not-refused", "%s was not refused: %q %q", who, errs, oks)
		}
		if changed != "" {
			w.fail("C10", "forbidden-change", "%s changed %s", who, changed)
		}
	case rights == "admin":
		gone := false // somebody it names is no longer there
		for i := range w.cfg.Users {
			if u := w.cfg.Users[i].Name; before["u/"+u] == "" && strings.Contains(lines[0], u) {
				gone = true
			}
		}
		if len(errs) > 0 && !gone {
			w.fail("C10", "right-denied", "%s was refused: %q %q", who, errs, oks)
		}
		w.probe("granted")
	}
	if rights == "edit" && len(errs) > 0 {
		w.fail("C10", "right-denied", "%s was refused: %q", who, errs)
	}
	if rights == "broadcast" {
		text := lines[0][strings.Index(lines[0], "bcast"):]
		for _, o := range w.sess {
			if !aliveBefore[o] || !o.aliveNow() || !o.ready || o.readySeq > seq {
				continue
			}
			n := 0
			for _, l := range o.lines {
				if l.seq > seq && (l.msg.Command == "PRIVMSG" || l.msg.Command == "NOTICE") && strings.HasPrefix(par(l.msg, 0), "$") && par(l.msg, 1) == text {
					n++
				}
			}
			if admin {
				w.probe("broadcast-delivered")
				if n != 1 {
					w.fail("C10", "right-denied", "%s reached %s %d times", who, o.label(), n)
				}
			} else if n > 0 {
				w.fail("C10", "foreign-effect", "%s reached %s", who, o.label())
			}
		}
		if !admin && len(errs) == 0 {
			w.fail("C10", "not-refused", "%s was not refused", who)
		}
	}
	// the limit
	lim := w.limit(before, me)
	nb, na := before.enabledNets(me), after.enabledNets(me)
	if rights != "admin" || !admin {
		if lim >= 0 && na > lim && na > nb {
			w.fail("C10", "limit-exceeded", "%s brings the enabled networks from %d to %d; the limit is %d", who, nb, na, lim)
		}
		if rights == "enable" && (lim < 0 || nb < lim) && na != nb+1 {
			w.fail("C10", "right-denied", "%s left %d networks enabled, there were %d and the limit is %d: %q", who, na, nb, lim, errs)
		}
		if rights == "enable" && lim >= 0 && nb >= lim {
			w.probe("limit-reached")
			if !refused {
				w.fail("C10", "limit-exceeded", "%s was not refused with %d networks enabled and a limit of %d: %q", who, nb, lim, oks)
			}
		}
		if rights == "burst" {
			want := nb + len(lines)
			if lim >= 0 && want > lim {
				want = lim
				if nb > lim {
					want = nb
				}
			}
			if na != want {
				w.fail("C10", "limit-miscounted", "%d commands like %s brought the enabled networks from %d to %d; the limit is %d", len(lines), who, nb, na, lim)
			}
		}
	}
	if admin && (rights == "admin" || rights == "broadcast") {
		return // what an administrator does may concern anybody
	}
	// the footprint
	touch := func(k string) {
		p := strings.Split(k, "/")
		if p[1] != me || k == "u/"+me || p[0] == "u" && (p[2] == "admin" || p[2] == "enabled" || p[2] == "max" && !admin) {
			w.fail("C10", "foreign-change", "%s changed %s from %q to %q", who, k, before[k], after[k])
		}
	}
	for _, k := range sortedKeys(before) {
		if v, ok := after[k]; !ok || v != before[k] {
			touch(k)
		}
	}
	for _, k := range sortedKeys(after) {
		if _, ok := before[k]; !ok {
			touch(k)
		}
	}
	for _, o := range w.sess {
		if o.actsAs() == me || !aliveBefore[o] {
			continue
		}
		if !o.aliveNow() {
			w.fail("C10", "foreign-effect", "%s ended the connection %s of another user", who, o.label())
		}
		for _, l := range o.lines {
			if l.seq > seq && l.msg.Command != "PING" && l.msg.Command != "PONG" {
				w.fail("C10", "foreign-effect", "%s made %s of another user receive %q", who, o.label(), l.raw)
			}
		}
	}
	for c := range conns {
		u, _, _ := strings.Cut(w.ownerOf(c), "/")
		if c.gone && u != "" && u != me {
			w.fail("C10", "foreign-effect", "%s broke the connection of network %s", who, w.ownerOf(c))
		}
	}
	// what is shown
	for _, l := range s.lines {
		if l.seq <= seq {
			continue
		}
		for i := range w.cfg.Users {
			u := &w.cfg.Users[i]
			if u.Name == me || u.Name == s.cfg.User {
				continue
			}
			for _, tok := range []string{u.Name + ":", u.Name + "net", "secret-" + u.Name, u.Name + " ("} {
				if strings.Contains(l.raw, tok) && !strings.Contains(lines[0], tok) && !admin {
					w.fail("C10", "foreign-data", "%s was answered %q", who, l.raw)
				}
			}
		}
	}
}

func finalAuthz(w *World) {}

func genAuthz(r *rng, p *Plan) {
	genBase(r, p, genOpt{servers: 1, users: 3, netsPer: 2, clients: 1, noSASL: true, chans: []string{}, stores: []string{"memory", "db"}})
	c := &p.Cfg
	c.Clients = nil
	c.SQLErrPct = 0
	if r.chance(70) {
		n := r.intn(4)
		c.MaxNetworks = &n
	}
	for i := range c.Users {
		u := &c.Users[i]
		if r.chance(40) {
			n := r.intn(5) - 1
			u.MaxNetworks = &n
		}
		for j := range u.Nets {
			u.Nets[j].Name = fmt.Sprintf("%snet%d", u.Name, j)
			u.Nets[j].Real = fmt.Sprintf("R %s/%s", u.Name, u.Nets[j].Name)
			u.Nets[j].Pass = "secret-" + u.Name
			u.Nets[j].Chans = nil
			u.Nets[j].Disabled = r.chance(20)
		}
	}
	c.Users = append(c.Users, UserCfg{Name: "dan", Admin: true, Nets: []NetCfg{{Name: "dannet0", Server: "alpha", Nick: "dan0", Real: "R dan/dannet0", Pass: "secret-dan"}}})
	keys := []string{}
	for _, u := range []string{"ann", "bob", "cat"} {
		for k := 0; k < 1+r.intn(2); k++ {
			cc := ClientCfg{Key: fmt.Sprintf("%s%c", u, 'A'+k), User: u, Caps: []string{"soju.im/bouncer-networks"}}
			if r.chance(40) {
				cc.Net = u + "net0"
			}
			c.Clients = append(c.Clients, cc)
			keys = append(keys, cc.Key)
		}
	}
	c.Clients = append(c.Clients, ClientCfg{Key: "danA", User: "dan", Caps: []string{"soju.im/bouncer-networks"}})
	if r.chance(50) {
		// the administrator acting as somebody else
		c.Clients = append(c.Clients, ClientCfg{Key: "imp", User: "dan", SASL: true, As: r.pick("ann", "bob", "ann/annnet0"), Caps: []string{"soju.im/bouncer-networks"}})
		keys = append(keys, "imp")
	}
	if r.chance(30) {
		keys = append(keys, "danA")
	}
	serv := func(s string) string { return "PRIVMSG BouncerServ :" + s }
	n := 0
	for i := 0; i < 12+r.intn(30); i++ {
		key := r.pick(keys...)
		cc := c.client(key)
		me := cc.User
		if cc.As != "" {
			me, _, _ = splitLogin(cc.As)
		}
		other := r.pick("ann", "bob", "cat", "dan")
		if other == me {
			other = "cat"
			if me == "cat" {
				other = "ann"
			}
		}
		n++
		nn := fmt.Sprintf("%snew%d", me, n)
		d := r.intn(50)
		az := func(rights, line string) { p.op(d, "az", []string{key, rights, line}) }
		switch r.intn(28) {
		case 0:
			az("admin", serv(r.pick("server status", "serv stat", "user status", "user stat "+other, "server notice hello", "server debug false", "us status")))
		case 1:
			az("admin", serv(fmt.Sprintf("user create -username new%d -password x -admin=%v", n, r.chance(50))))
		case 2:
			az("admin", serv("user update "+other+" "+r.pick("-max-networks 5", "-max-networks 0", "-max-networks -1", "-password new1", "-admin=true", "-enabled=true")))
		case 3:
			tok := map[string]string{"ann": "744cb9", "bob": "48181a", "cat": "9d989e", "dan": "2591e5"}[other]
			if me == "dan" {
				continue
			}
			az("admin", serv("user delete "+other+r.pick("", " "+tok)))
		case 4:
			az("admin", serv("user run "+other+" "+r.pick("network status", "network create -addr irc+insecure://alpha.test -ignore-limit -name "+fmt.Sprintf("%srun%d", other, n), "user update -nick x1")))
		case 5:
			if me != "dan" {
				az("admin", serv("user run "+me+" "+r.pick("network status", "user status", "server status", "network create -addr irc+insecure://alpha.test -ignore-limit -name "+nn)))
			}
		case 6:
			az("never", serv("user update "+r.pick("", me+" ")+r.pick("-admin=true", "-admin=false", "-enabled=false", "-enabled=true")))
		case 7:
			az("admin", serv("user update "+r.pick("", me+" ")+"-max-networks "+r.pick("1", "10", "-1")))
		case 8:
			az("never", serv("user update "+other+" "+r.pick("-nick x", "-realname x")))
		case 9:
			az("never", serv("network update "+other+"net0 -nick evil"))
		case 10:
			az("never", serv("network delete "+other+"net0"))
		case 11:
			az("never", fmt.Sprintf("BOUNCER CHANGENETWORK $id(%s/%snet0) nickname=evil", other, other))
		case 12:
			az("never", fmt.Sprintf("BOUNCER DELNETWORK $id(%s/%snet0)", other, other))
		case 13:
			az("never", serv(r.pick("channel status -network ", "sasl status -network ", "channel create #x -network ", "certfp fingerprint -network ", "sasl set-plain -network ")+other+"net0"+r.pick("", " a", " a b")))
			if r.chance(30) {
				az("never", serv("network quote "+other+"net0 PRIVMSG g1 :evil"))
			}
		case 14, 15, 16:
			az("enable", r.pick(serv("network create -addr irc+insecure://alpha.test:6667 -name "+nn+fmt.Sprintf(" -nick n%d", n)), "BOUNCER ADDNETWORK "+fmt.Sprintf("host=alpha.test;port=6667;tls=0;name=%s;nickname=n%d", nn, n)))
		case 17:
			az("admin", serv("network create -ignore-limit -addr irc+insecure://alpha.test:6667 -name "+nn+fmt.Sprintf(" -nick n%d", n)))
		case 18:
			az("any", serv("network create -enabled=false -addr irc+insecure://alpha.test:6667 -name "+nn+fmt.Sprintf(" -nick n%d", n)))
		case 19:
			az("any", serv("network update "+r.pick(me+"net0", me+"net1", fmt.Sprintf("%snew%d", me, r.intn(n+1)))+" -enabled="+r.pick("true", "false", "true")))
			if r.chance(40) {
				az("edit", r.pick(fmt.Sprintf("BOUNCER CHANGENETWORK $id(%s/%snet%d) nickname=c%d", me, me, r.intn(len(c.user(me).Nets)), n),
					serv(fmt.Sprintf("network update %snet%d -nick c%d", me, r.intn(len(c.user(me).Nets)), n))))
			}
		case 20:
			az("own", serv("user update "+r.pick("-nick "+me+"x", "-realname Foo", "-password new1 ", me+" -realname Foo", "-disable-password")))
		case 21:
			az("own", serv(r.pick("network status", "help", "network update "+me+"net0 -nick other", "network delete "+nn, "user delete "+me, "network delete "+fmt.Sprintf("%snew%d", me, r.intn(n+1)))))
		case 26, 27:
			sock := func(rights, user, line string) { p.op(d, "azsock", []string{rights, user, "BOUNCERSERV :" + line}) }
			tok := map[string]string{"ann": "744cb9", "bob": "48181a", "cat": "9d989e", "dan": "2591e5"}[other]
			switch r.intn(12) {
			case 0:
				p.op(d, "azsock", []string{"never", "", r.pick("NICK x", "CAP LS 302", "USER x 0 * :x", "PASS x", "PRIVMSG BouncerServ :user status", "BOUNCERSERV", "JOIN #a", "BOUNCER LISTNETWORKS")})
			case 1, 2:
				sock("never", "", r.pick("network status", "network create -addr irc+insecure://alpha.test", "user update -nick x", "user update -max-networks 9", "channel status", "sasl status", "user run nosuch network status", "user update nosuch -enabled false", "user update "+me+" -nick x", "user delete nosuch 1234", "user delete "+me+" 1234", "nosuch"))
			case 3:
				sock("admin", "", r.pick("user status", "server status", "help", fmt.Sprintf("server notice bcast%d", n), fmt.Sprintf("server notice bcast%d", n)))
			case 4:
				sock("admin", fmt.Sprintf("new%d", n), fmt.Sprintf("user create -username new%d -password x", n))
			case 5, 6:
				sock("admin", me, "user update "+me+" "+r.pick("-max-networks 1", "-max-networks 5", "-max-networks -1", "-admin=true", "-admin=false", "-enabled=true"))
			case 7:
				if r.chance(40) {
					sock("admin", other, "user delete "+other+" "+tok)
				}
			default:
				sock("admin", me, "user run "+me+" "+r.pick("network status", "user status", "server status", "user update -nick x1", "network create -addr irc+insecure://alpha.test -ignore-limit -name "+nn+"s"+fmt.Sprintf(" -nick s%d", n)))
			}
		case 24, 25:
			if r.chance(30) {
				key = "danA"
				cc = c.client(key)
			}
			line := fmt.Sprintf("%s :bcast%d", r.pick("PRIVMSG $soju.test", "NOTICE $soju.test", "NOTICE $soju.test", "NOTICE $*", "PRIVMSG BouncerServ :server notice"), n)
			if strings.HasPrefix(line, "PRIVMSG Bouncer") {
				line = serv(fmt.Sprintf("server notice bcast%d", n))
			}
			if _, _, net := splitLogin(cc.As); strings.Contains(line, "$*") && (cc.Net != "" || net != "") {
				az("own", line) // the network's users
			} else {
				az("broadcast", line)
			}
		case 22:
			// the administrator changes rights
			if key != "danA" && r.chance(70) {
				p.op(d, "az", []string{"danA", "admin", serv("user update " + me + " " + r.pick("-admin=true", "-admin=false", "-max-networks 1", "-max-networks 2", "-max-networks -1"))})
			}
		case 23:
			switch r.intn(3) {
			case 0:
				l := []string{serv("network create -addr irc+insecure://alpha.test:6667 -name " + me + "%n" + fmt.Sprint(n) + " -nick %n" + fmt.Sprint(n))}
				for _, k := range c.Clients {
					if k.User == me && k.As == "" {
						l = append(l, k.Key)
					}
				}
				if len(l) > 1 && cc.As == "" {
					p.op(d, "azburst", l, 1+r.intn(3))
				}
			case 1:
				p.op(d, "restart", nil)
			case 2:
				p.op(d, "crash", nil)
			}
		}
	}
}
