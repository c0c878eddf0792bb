package main

import (
	"encoding/base64"
	"fmt"
	"strings"
	"time"

	"gopkg.in/irc.v4"
)

// Property C27: logging in to a network's account through soju gives the
// server's verdict, and credentials are remembered exactly when they worked.
func init() {
	register(&profile{name: "account", prop: "C27", gen: genAccount, init: initAccount, op: opAccount, final: finalAccount, exotic: 20})
}

type cred struct{ user, pass string }

// attempt is one exchange a client started.
type attempt struct {
	s        *sess
	key      string
	kind     string // sasl, anon, reg, verify
	cred     cred
	seq      int
	at       time.Time
	complete bool
	over     bool
	c        *iconn // the connection when it started
}

// verdict is what the server decided.
type verdict struct {
	c    *iconn
	kind string
	cred cred
	ok   bool
	pre  bool // before registration
	seq  int
	at   time.Time
}

// serviceLogin is what a client tells NickServ.
type serviceLogin struct {
	key  string
	text string
	cred cred   // empty: nothing to save
	nick string // the nickname then, where it names the account
	seq  int
	at   time.Time // when the server got it
	got  int
}

// nickServ is what a message to NickServ says the credentials are.
func nickServ(nick, text string) (c cred, byNick bool) {
	f := strings.Fields(text)
	if len(f) < 2 {
		return
	}
	switch cmd := strings.ToUpper(f[0]); {
	case cmd == "REGISTER", cmd == "IDENTIFY" && len(f) == 2:
		return cred{nick, f[1]}, true
	case cmd == "IDENTIFY":
		return cred{f[1], f[2]}, false
	case cmd == "SET" && len(f) == 3 && strings.EqualFold(f[1], "PASSWORD"):
		return cred{nick, f[2]}, true
	}
	return
}

type acctState struct {
	attempts []*attempt
	verdicts []*verdict
	sure     map[string]cred          // saved, by network
	may      map[string]map[cred]bool // may be saved instead
	before   map[string]map[cred]bool // were or may have been saved since the last check
	since    int
	sinceAt  time.Time
	done     map[*attempt]bool
	muted    bool
	services []*serviceLogin
}

func (w *World) acct() *acctState { return w.x["account"].(*acctState) }

func initAccount(w *World) {
	st := &acctState{sure: map[string]cred{}, may: map[string]map[cred]bool{}, before: map[string]map[cred]bool{}, done: map[*attempt]bool{}}
	w.x["account"] = st
	for _, srv := range w.ircdList() {
		srv.accounts = map[string]string{"acc": "sekrit", "one": "pw-one", "two": strings.Repeat("two", 130)}
		srv.unverified = map[string]string{}
		srv.onPriv = func(c *iconn, msg *irc.Message) {
			for _, x := range st.services {
				if x.got == 0 && x.text == par(msg, 1) && x.key == w.ownerOf(c) {
					x.got, x.at = w.nextSeq(), time.Now()
					if x.nick != "" && x.nick != c.u.nick {
						x.nick = "?"
					}
				}
			}
		}
		srv.onVerdict = func(c *iconn, kind, user, pass string, ok bool) {
			st.verdicts = append(st.verdicts, &verdict{c, kind, cred{user, pass}, ok, !c.registered, w.nextSeq(), time.Now()})
		}
	}
	for i := range w.cfg.Users {
		u := &w.cfg.Users[i]
		for j := range u.Nets {
			nc := &u.Nets[j]
			key := u.Name + "/" + nc.Name
			st.sure[key] = cred{nc.SASLUser, nc.SASLPass}
			st.may[key] = map[cred]bool{}
			st.before[key] = map[cred]bool{st.sure[key]: true}
		}
	}
}

func (a *attempt) until() int {
	st := a.s.w.acct()
	for _, b := range st.attempts {
		if b.s == a.s && b.class() == a.class() && b.seq > a.seq {
			return b.seq
		}
	}
	return 1 << 60
}

func (a *attempt) class() string {
	if a.kind == "anon" {
		return "sasl"
	}
	return a.kind
}

// run is what the client does.
func (a *attempt) run(variant, delay int) {
	s := a.s
	defer func() {
		if !a.complete {
			time.Sleep(10 * time.Second)
			a.over = true
		}
	}()
	pause := func() {
		if delay > 0 {
			time.Sleep(time.Duration(delay) * time.Millisecond)
		}
	}
	// await waits for a line; false if the exchange has ended.
	await := func(cmd string, n int) bool {
		for {
			m, end := 0, !s.aliveNow()
			for i := range s.lines {
				x := &s.lines[i]
				if x.seq < a.seq {
					continue
				}
				switch {
				case x.msg.Command == cmd && cmd != "CAP":
					m++
				case x.msg.Command == "CAP" && cmd == "CAP":
					switch sub := par(x.msg, 1); {
					case sub == "ACK" && strings.Contains(par(x.msg, 2), "sasl"):
						return true
					case sub == "NAK" && strings.Contains(par(x.msg, 2), "sasl"):
						end = true
					}
				}
			}
			if m >= n && cmd != "CAP" {
				return true
			}
			if _, k := a.final(); k > 0 || end {
				return false
			}
			time.Sleep(7 * time.Millisecond)
		}
	}
	send := func(b string) {
		e := base64.StdEncoding.EncodeToString([]byte(b))
		for {
			n := len(e)
			if n > 400 {
				n = 400
			}
			if n == 0 {
				s.send("AUTHENTICATE +")
				return
			}
			s.send("AUTHENTICATE " + e[:n])
			e = e[n:]
			if n < 400 {
				return
			}
			pause()
		}
	}
	switch a.kind {
	case "reg":
		s.send("REGISTER " + a.cred.user + " * " + a.cred.pass)
		return
	case "verify":
		s.send("VERIFY " + a.cred.user + " " + a.cred.pass)
		return
	}
	if !s.caps["sasl"] {
		s.send("CAP REQ :sasl")
		if !await("CAP", 1) {
			a.complete = false
			return
		}
	}
	mech, resp := "PLAIN", a.cred.user+"\x00"+a.cred.user+"\x00"+a.cred.pass
	if a.kind == "anon" {
		mech, resp = "ANONYMOUS", "trace"
	}
	s.send("AUTHENTICATE " + mech)
	if !await("AUTHENTICATE", 1) {
		return
	}
	pause()
	if a.kind == "anon" {
		send(resp)
		return
	}
	switch variant {
	case 1: // changes its mind early
		a.complete = false
		s.send("AUTHENTICATE *")
	case 2, 3: // changes its mind late
		a.complete = false
		send(resp)
		pause()
		s.send("AUTHENTICATE *")
		if variant == 2 {
			return
		}
		// and starts again
		s.send("AUTHENTICATE PLAIN")
		time.Sleep(time.Second)
		s.send("AUTHENTICATE *")
	case 4: // leaves
		send(resp)
		pause()
		s.hangup(delay%2 == 0)
	case 5: // for somebody else
		a.complete = false
		send("other\x00" + a.cred.user + "\x00" + a.cred.pass)
	case 6:
		a.complete = false
		s.send("AUTHENTICATE !!!")
	case 7: // leaves halfway
		a.complete = false
		s.hangup(delay%2 == 0)
	default:
		send(resp)
	}
}

// disabled: the capability went away meanwhile.
func (a *attempt) disabled() bool {
	for i := range a.s.lines {
		if x := &a.s.lines[i]; x.seq > a.seq-1000 && x.seq < a.until() && x.msg.Command == "CAP" && par(x.msg, 1) == "DEL" && strings.Contains(par(x.msg, 2), "sasl") {
			return true
		}
	}
	return !a.s.caps["cap-notify"]
}

// final is the reply which ends the exchange; n is how many there are.
func (a *attempt) final() (l *cline, n int) {
	end := a.until()
	for i := range a.s.lines {
		x := &a.s.lines[i]
		if x.seq < a.seq || x.seq > end {
			continue
		}
		ok := false
		switch a.kind {
		case "sasl", "anon":
			switch x.msg.Command {
			case "903", "904", "905", "906", "907", "421":
				ok = true
			}
		case "reg", "verify":
			cmd := map[string]string{"reg": "REGISTER", "verify": "VERIFY"}[a.kind]
			ok = x.msg.Command == cmd || x.msg.Command == "FAIL" && par(x.msg, 0) == cmd
		}
		if ok {
			n++
			if l == nil {
				l = x
			}
		}
	}
	return l, n
}

func (a *attempt) accepted() bool {
	l, _ := a.final()
	return l != nil && (l.msg.Command == "903" || l.msg.Command == "REGISTER" || l.msg.Command == "VERIFY")
}

func opAccount(w *World, o *Op) bool {
	st := w.acct()
	switch o.K {
	case "acc": // client, kind, user, password; variant, delay
		s := w.cur[o.s(0)]
		if s == nil || !s.live() || s.cfg.Net == "" || !s.aliveNow() {
			return true
		}
		a := &attempt{s: s, key: s.netKey(), kind: o.s(1), cred: cred{o.s(2), o.s(3)}, seq: w.nextSeq(), at: time.Now(), complete: true, c: w.connOf(s.netKey())}
		for _, b := range st.attempts {
			if _, n := b.final(); b.s == s && b.class() == a.class() && !b.over && (n == 0 || !b.complete) {
				return true // still waiting for the answer to that one
			}
		}
		st.attempts = append(st.attempts, a)
		go a.run(o.n(0), o.n(1))
	case "ns": // client, NickServ as it spells it, text
		s := w.cur[o.s(0)]
		if s == nil || !s.live() || s.cfg.Net == "" || !s.aliveNow() {
			return true
		}
		x := &serviceLogin{key: s.netKey(), text: o.s(2), seq: w.nextSeq(), at: time.Now()}
		nick := s.nick
		if c := w.connOf(x.key); c != nil && c.u != nil {
			nick = c.u.nick
		}
		var byNick bool
		if x.cred, byNick = nickServ(nick, x.text); byNick {
			x.nick = nick
		}
		st.services = append(st.services, x)
		s.send("PRIVMSG " + o.s(1) + " :" + x.text)
	case "svc": // network, account: services log the user in or out
		if c := w.connOf(o.s(0)); c != nil && c.u != nil {
			c.account, c.u.account = o.s(1), o.s(1)
			if o.s(1) != "" {
				c.num("900", c.u.prefix().String(), c.account, "You are now logged in as "+c.account)
			} else {
				c.num("901", c.u.prefix().String(), "You are now logged out")
			}
		}
	case "acccheck":
		if w.inst.dead {
			return true
		}
		w.settle(5 * time.Minute)
		w.checkAccounts()
	default:
		return false
	}
	return true
}

func (w *World) checkAccounts() {
	st := w.acct()
	// what the server was told
	for _, v := range st.verdicts {
		if v.seq < st.since {
			continue
		}
		key := w.ownerOf(v.c)
		if key == "" {
			continue
		}
		if v.pre {
			w.probe("login-on-connect")
			if !st.before[key][v.cred] && !w.attempted(key, v.cred) {
				w.fail("C27", "foreign-credentials", "the server of %s was given the credentials %q", key, v.cred)
			}
		} else if !w.attempted(key, v.cred) {
			w.fail("C27", "foreign-credentials", "the server of %s was given the credentials %q, which no client of it has used", key, v.cred)
		}
	}
	for _, a := range st.attempts {
		if a.seq < st.since || st.done[a] {
			continue
		}
		l, n := a.final()
		alive := a.s.aliveNow()
		if n > 1 && a.complete && !a.disabled() {
			w.fail("C27", "several-verdicts", "client %s was given %d verdicts on one %s", a.s.label(), n, a.kind)
		}
		if n == 0 && alive && a.complete && a.c != nil && a.c.srv.noVerdict == 0 {
			w.fail("C27", "no-verdict", "client %s never got an answer to its %s of %q", a.s.label(), a.kind, a.cred)
		}
		if !a.complete {
			continue
		}
		var v *verdict
		for _, x := range st.verdicts {
			if !x.pre && x.seq > a.seq && x.cred == a.cred && x.kind == a.kind && w.ownerOf(x.c) == a.key && (l == nil || x.seq < l.seq) {
				v = x
				break
			}
		}
		if a.kind == "anon" {
			continue
		}
		if a.accepted() {
			w.probe("accepted")
			if v == nil || !v.ok {
				w.fail("C27", "false-success", "client %s was told that its %s of %q succeeded (%s), the server never said so", a.s.label(), a.kind, a.cred, l.raw)
			}
		} else if l != nil {
			w.probe("refused")
			if v != nil && v.ok {
				// only if the connection went away before it could tell
				if v.c == a.c && (!v.c.gone || v.c.goneAt.After(v.at.Add(10*time.Second))) && !w.busy(a) {
					w.fail("C27", "false-failure", "client %s was told that its %s of %q failed (%s), but the server accepted it", a.s.label(), a.kind, a.cred, l.raw)
				}
			}
			if v == nil && alive && w.steadyAcct(a, l) {
				w.fail("C27", "not-forwarded", "client %s was told that its %s of %q failed (%s), but the server was never asked", a.s.label(), a.kind, a.cred, l.raw)
			}
		}
	}
	// stray replies
	for _, s := range w.sess {
		last, n := 0, 0
		for i := range s.lines {
			switch m := s.lines[i].msg; m.Command {
			case "REGISTER", "VERIFY":
				n++
				last = i
			case "FAIL":
				if c := par(m, 0); c == "REGISTER" || c == "VERIFY" {
					n++
					last = i
				}
			}
		}
		m := 0
		for _, a := range st.attempts {
			if a.s == s && (a.kind == "reg" || a.kind == "verify") {
				m++
			}
		}
		if n > m {
			w.fail("C27", "stray-verdict", "client %s asked %d times for an account but got %d replies, the last is %q", s.label(), m, n, s.lines[last].raw)
		}
		n, m = 0, 0
		for i := range s.lines {
			switch s.lines[i].msg.Command {
			case "903", "904", "905", "906", "907":
				if s.readySeq != 0 && s.lines[i].seq > s.readySeq {
					n++
					last = i
				}
			}
		}
		for i := range s.sent {
			if m0 := s.sent[i].msg; m0 != nil && m0.Command == "AUTHENTICATE" && s.readySeq != 0 && s.sent[i].seq > s.readySeq {
				m++
			}
		}
		if n > m {
			w.fail("C27", "stray-verdict", "client %s sent %d AUTHENTICATE but got %d verdicts, the last is %q", s.label(), m, n, s.lines[last].raw)
		}
	}
	// what is saved
	type change struct {
		seq  int
		key  string
		c    cred
		sure bool
		at   time.Time
	}
	var ch []change
	for _, v := range st.verdicts {
		if v.seq < st.since || v.pre || !v.ok || v.kind == "verify" {
			continue
		}
		key := w.ownerOf(v.c)
		x := change{seq: v.seq, key: key, c: v.cred, at: v.at}
		for _, a := range st.attempts {
			if a.key == key && a.kind == v.kind && a.cred == v.cred && a.seq < v.seq && a.until() > v.seq && a.complete && a.accepted() {
				if l, _ := a.final(); l.seq > v.seq {
					x.sure = true
				}
			}
		}
		ch = append(ch, x)
	}
	for _, a := range st.attempts {
		if a.kind == "anon" && a.seq >= st.since && !st.done[a] {
			x := change{seq: a.seq, key: a.key, at: a.at}
			if a.accepted() {
				l, _ := a.final()
				x.seq, x.sure, x.at = l.seq, true, l.at
			}
			ch = append(ch, x)
		}
	}
	for _, x := range st.services {
		if x.seq < st.since || x.cred == (cred{}) {
			if x.got > 0 {
				w.probe("service-kept")
			}
			continue
		}
		w.probe("service-login")
		ch = append(ch, change{seq: maxInt(x.seq, x.got), key: x.key, c: x.cred, sure: x.got > 0 && x.nick != "?", at: x.at})
	}
	for i := range ch { // by seq
		for j := i; j > 0 && ch[j-1].seq > ch[j].seq; j-- {
			ch[j-1], ch[j] = ch[j], ch[j-1]
		}
	}
	for _, x := range ch {
		w.tracef("account change %s %q %v", x.key, x.c, x.sure)
		if x.key == "" {
			continue
		}
		if x.sure {
			st.sure[x.key], st.may[x.key] = x.c, map[cred]bool{}
			for _, y := range ch { // which of these was first isn't known
				if d := x.at.Sub(y.at); y.key == x.key && d >= 0 && d < 5*time.Second {
					st.may[x.key][y.c] = true
				}
			}
		} else {
			st.may[x.key][x.c] = true
		}
		st.before[x.key][x.c] = true
	}
	for _, x := range ch { // these may also happen later than seen
		if !x.sure && x.key != "" {
			st.may[x.key][x.c] = true
		}
	}
	for _, key := range sortedKeys(st.sure) {
		rec := w.dbNetwork(key)
		if rec == nil {
			continue
		}
		got := cred{rec.SASL.Plain.Username, rec.SASL.Plain.Password}
		w.probe("saved-compared")
		if got != st.sure[key] && !st.may[key][got] {
			w.fail("C27", "saved", "the saved credentials of %s are %.60q, should be %.60q", key, got, st.sure[key])
		}
		if (rec.SASL.Mechanism == "PLAIN") != (got.user != "") {
			w.fail("C27", "saved", "the saved credentials of %s are %.60q, with mechanism %q", key, got, rec.SASL.Mechanism)
		}
		c := w.connOf(key)
		if c != nil && c.srv.takesSASL() && c.instance == w.inst.id && c.openedAt.After(st.sinceAt) {
			var first *verdict
			for _, v := range st.verdicts {
				if v.c == c && v.pre {
					first = v
					break
				}
			}
			if first == nil && !st.before[key][cred{}] && c.caps["sasl"] {
				w.fail("C27", "not-used", "%s has saved credentials but connected without them", key)
			}
			if first != nil && !st.before[key][first.cred] {
				w.fail("C27", "not-used", "%s connected with the credentials %.60q, which are not the saved ones", key, first.cred)
			}
		}
		st.sure[key], st.may[key] = got, map[cred]bool{}
		st.before[key] = map[cred]bool{got: true}
		// who the clients think they are
		if c == nil || c.instance != w.inst.id || time.Since(c.regAt) < 4*time.Minute || c.conn.stuck() {
			continue
		}
		for _, s := range w.sess {
			if s.netKey() != key || !s.aliveNow() || !s.caps["sasl"] || !s.caps["cap-notify"] || time.Since(s.readyAt) < 4*time.Minute {
				continue
			}
			who := ""
			for i := range s.lines {
				switch m := s.lines[i].msg; m.Command {
				case "900":
					who = par(m, 2)
				case "901":
					who = ""
				}
			}
			w.probe("account-shown")
			if who != c.account {
				w.fail("C27", "wrong-account", "client %s was last told that the account is %q, it is %q", s.label(), who, c.account)
			}
		}
	}
	for _, a := range st.attempts {
		st.done[a] = true
	}
	st.since, st.sinceAt = w.nextSeq(), time.Now()
}

func (w *World) attempted(key string, c cred) bool {
	for _, a := range w.acct().attempts {
		if a.key == key && a.cred == c {
			return true
		}
	}
	for _, x := range w.acct().services {
		if x.key == key && (x.cred == c || x.nick != "" && x.cred.pass == c.pass) {
			return true
		}
	}
	return false
}

// busy: another exchange on that network may have been in progress.
func (w *World) busy(a *attempt) bool {
	for _, b := range w.acct().attempts {
		if b == a || b.key != a.key {
			continue
		}
		l, n := b.final()
		if b.seq < a.seq && n == 1 && b.complete && l.seq < a.seq {
			continue
		}
		if d := b.at.Sub(a.at); d > -6*time.Minute && d < 6*time.Minute {
			return true
		}
	}
	return false
}

// steadyAcct: nothing kept soju from asking the server.
func (w *World) steadyAcct(a *attempt, l *cline) bool {
	c := a.c
	return c != nil && c.instance == a.s.inst.id && c.regAt.Add(10*time.Second).Before(a.at) && (!c.gone || c.goneAt.After(l.at.Add(10*time.Second))) && c.caps["sasl"] && c.srv.saslMode == "" && a.kind == "sasl" && a.s.caps["cap-notify"] && !w.busy(a) && a.s.readyAt.Add(3*time.Second).Before(a.at)
}

func finalAccount(w *World) {
	w.calm()
	if w.inst.dead {
		return
	}
	w.settle(20 * time.Minute)
	w.checkAccounts()
	// and they are used
	for _, srv := range w.ircdList() {
		for _, c := range srv.live() {
			c.drop("the end")
		}
	}
	w.settle(20 * time.Minute)
	w.checkAccounts()
	st := w.acct()
	for _, key := range sortedKeys(st.sure) {
		c := w.connOf(key)
		if c == nil || !c.srv.takesSASL() || !c.caps["sasl"] {
			continue
		}
		want := ""
		if got := st.sure[key]; got.user != "" && c.srv.accounts[got.user] == got.pass {
			want = got.user
		}
		w.probe("reconnected")
		if c.regAccount != want {
			w.fail("C27", "not-logged-in", "%s reconnected as %q, the saved credentials are for %q", key, c.regAccount, want)
		}
	}
}

func genAccount(r *rng, p *Plan) {
	genBase(r, p, genOpt{servers: 1 + r.intn(2), users: 1 + r.intn(2), netsPer: 1 + r.intn(2), clients: 3, stores: []string{"memory", "db"}, named: r.chance(70), upCaps: func(r *rng) []string {
		l := genUpCaps(r)
		if r.chance(90) {
			l = append(l, r.pick("sasl=PLAIN", "sasl=PLAIN,EXTERNAL", "sasl"))
		}
		if r.chance(60) {
			l = append(l, "draft/account-registration="+r.pick("", "before-connect", "before-connect,email-required"))
		}
		return l
	}, downCaps: func(r *rng) []string {
		l := genDownCaps(r)
		if r.chance(80) {
			l = append(l, "cap-notify", "sasl")
		}
		return uniq(l)
	}, srvMod: func(r *rng, s *SrvCfg) {
		if r.chance(16) {
			s.SASLMode = r.pick("nak", "unknown", "already")
		}
		if r.chance(40) {
			s.SlowMS = 1 + r.intn(400)
		}
	}})
	c := &p.Cfg
	for i := range c.Users {
		for j := range c.Users[i].Nets {
			if r.chance(40) {
				nc := &c.Users[i].Nets[j]
				nc.SASLUser, nc.SASLPass = "acc", r.pick("sekrit", "sekrit", "wrong")
			}
		}
	}
	for i := range c.Clients {
		p.op(r.intn(300), "open", []string{c.Clients[i].Key})
	}
	p.op(15000, "sleep", nil)
	focus := p.anyClient(r).Key
	client := func() string {
		if r.chance(50) {
			return focus
		}
		return p.anyClient(r).Key
	}
	wait := func() int {
		if r.chance(60) {
			return r.intn(3000)
		}
		return gap(r)
	}
	nreg := 0
	var regs []cred
	for n := 10 + r.intn(30); n > 0; n-- {
		u, nc := p.anyNet(r)
		key := u.Name + "/" + nc.Name
		d := 0
		if r.chance(50) {
			d = r.intn(300)
		}
		switch x := r.intn(100); {
		case x < 36:
			k := r.intn(7)
			user := []string{"acc", "one", "two", "acc", "one", "nosuch", "acc"}[k]
			pass := []string{"sekrit", "pw-one", strings.Repeat("two", 130), fmt.Sprintf("bad%d", n), "", "x", fmt.Sprintf("bad%d", n)}[k]
			if pass == "" {
				pass = "PW-one"
			}
			v := 0
			if r.chance(35) {
				v = 1 + r.intn(7)
			}
			p.op(wait(), "acc", []string{client(), "sasl", user, pass}, v, d)
		case x < 41:
			p.op(wait(), "acc", []string{client(), "anon", "", ""}, 0, d)
		case x < 48:
			nreg++
			user := fmt.Sprintf("new%d", nreg)
			if r.chance(20) {
				user = "one"
			}
			pw := fmt.Sprintf("npw%d", n)
			regs = append(regs, cred{user, pw})
			p.op(wait(), "acc", []string{client(), "reg", user, pw})
		case x < 52:
			if len(regs) > 0 {
				c := regs[r.intn(len(regs))]
				p.op(wait(), "acc", []string{client(), "verify", c.user, r.pick("code", "wrongcode")})
			}
		case x < 58 && r.chance(40):
			p.op(wait(), "ns", []string{client(), r.pick("NickServ", "NickServ", "nickserv", "NICKSERV"), r.pick(
				fmt.Sprintf("IDENTIFY acc sekrit"), fmt.Sprintf("IDENTIFY one pw%d", n), fmt.Sprintf("identify pw%d", n), fmt.Sprintf("REGISTER pw%d a@b.c", n),
				fmt.Sprintf("SET PASSWORD pw%d", n), fmt.Sprintf("SET EMAIL a%d@b.c", n), fmt.Sprintf("SET HIDEMAIL ON %d", n), "IDENTIFY", "HELP IDENTIFY", fmt.Sprintf("set kill %d", n), fmt.Sprintf("INFO %d", n))})
		case x < 57:
			p.op(gap(r), "svc", []string{key, r.pick("", "one", "svcacc")})
		case x < 64:
			p.op(gap(r), "open", []string{client()})
		case x < 68:
			p.op(gap(r), "hangup", []string{client()}, r.intn(2))
		case x < 76:
			p.op(gap(r), "drop", []string{nc.Server}, r.intn(2))
			if r.chance(50) {
				p.op(r.intn(100000), "sleep", nil)
			}
		case x < 79:
			p.op(gap(r), r.pick("restart", "crash"), nil)
			p.op(gap(r), "open", []string{client()})
		case x < 84:
			p.op(r.intn(30000), "stall", []string{nc.Server}, r.intn(2))
			p.op(gap(r), "unstall", []string{nc.Server})
		case x < 92:
			p.op(gap(r), "acccheck", nil)
		default:
			p.op(r.intn(60000), "sleep", nil)
		}
	}
}

func init() {
	register(&profile{name: "account-crash", prop: "C11", gen: genAccount, init: initAccount, op: opAccount, final: finalAccount, weight: 1})
}

func maxInt(a, b int) int {
	if a > b {
		return a
	}
	return b
}
