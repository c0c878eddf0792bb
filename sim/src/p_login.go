package main

import (
	"context"
	"encoding/base64"
	"fmt"
	"net/http"
	"sort"
	"strings"
	"time"

	"codeberg.org/emersion/soju"
	"codeberg.org/emersion/soju/auth"
	"gopkg.in/irc.v4"
)

// Property C09: only who presents a user's current credentials gets in, and
// gets in as that user.  Clients walk through the registration exchange in
// every order; a small reference model of the exchange, together with the
// history of every account, says how each connection may end.
func init() {
	register(&profile{name: "login", prop: "C09", gen: genLogin, init: initLogin, op: opLogin, final: finalLogin, config: configLogin})
}

const authHost = "auth.test:80"

// acct is one version of an account.  It is in force at some point between
// t0 and t1, and until some point between the t0 and t1 of the next version.
type acct struct {
	t0, t1  time.Time // zero t1: never known to have happened
	pass    string    // "" for none
	enabled bool
	admin   bool
	exists  bool
	kills   bool // connections made before must not survive
	unsure  bool // it is unknown whether this or an earlier change happened
	gen     int  // how often the account was deleted; its networks go with it
}

// authReq is a question soju asked the external authenticator.
type authReq struct {
	at, done   time.Time
	user, pass string
	ok, hang   bool
}

type loginState struct {
	hist   map[string][]*acct
	reqs   []authReq
	mode   string
	change []*pendingChange
	ids    map[string]int64 // user/net
}

type pendingChange struct {
	s    *sess
	seq  int
	v    *acct
	user string
	done bool
	want string
}

func (w *World) login() *loginState {
	st, _ := w.x["login"].(*loginState)
	if st == nil {
		st = &loginState{hist: map[string][]*acct{}, ids: map[string]int64{}}
		w.x["login"] = st
	}
	return st
}

func configLogin(w *World, cfg *soju.Config) {
	if w.cfg.X["auth"] == 0 {
		return
	}
	if w.x["authsrv"] == nil {
		w.x["authsrv"] = true
		ln := w.net.listen(authHost)
		go http.Serve(ln, http.HandlerFunc(w.serveAuth))
	}
	old := w.login().mode
	w.login().mode = ""
	defer func() { w.login().mode = old }()
	switch w.cfg.X["auth"] {
	case 1:
		a, err := auth.New("http", "http://"+authHost+"/auth")
		if err != nil {
			panic(err)
		}
		cfg.Auth = a
	case 2:
		a, err := auth.New("oauth2", "http://"+authHost)
		if err != nil {
			panic(err)
		}
		a.Plain = auth.OAuthPlainAuthenticator{OAuthBearer: a.OAuthBearer}
		cfg.Auth = a
	}
}

// serveAuth is the model of the external authenticator.
func (w *World) serveAuth(rw http.ResponseWriter, req *http.Request) {
	st := w.login()
	rw.Header().Set("Connection", "close")
	if strings.HasPrefix(req.URL.Path, "/.well-known") {
		fmt.Fprintf(rw, `{"issuer":"http://auth.test","introspection_endpoint":"http://%s/introspect"}`, authHost)
		return
	}
	q := authReq{at: time.Now()}
	mode := st.mode
	if req.URL.Path == "/auth" {
		q.user, q.pass, _ = req.BasicAuth()
	} else {
		q.pass = req.FormValue("token")
	}
	w.tracef("auth server (%s) is asked %q %q", mode, q.user, q.pass)
	switch mode {
	case "slow":
		w.fault("auth-slow")
		time.Sleep(time.Duration(1+w.rng.intn(8000)) * time.Millisecond)
	case "hang":
		w.fault("auth-hang")
		q.hang = true
		st.reqs = append(st.reqs, q)
		<-req.Context().Done()
		return
	}
	if mode == "error" || mode == "reset" || mode == "teapot" {
		w.fault("auth-" + mode)
	}
	user := ""
	for _, n := range sortedKeys(st.hist) {
		h := st.hist[n]
		if v := h[len(h)-1]; v.pass != "" && v.pass == q.pass && (req.URL.Path != "/auth" || n == q.user) {
			user = n
		}
	}
	good := user != ""
	q.ok = good && (mode == "" || mode == "slow")
	q.done = time.Now()
	if req.URL.Path != "/auth" {
		q.user = user
	}
	st.reqs = append(st.reqs, q)
	switch mode {
	case "reset":
		c, _, _ := rw.(http.Hijacker).Hijack()
		c.Close()
		return
	case "error":
		rw.WriteHeader(500)
		fmt.Fprintf(rw, `{"active":true,"username":%q}`, user)
		return
	case "teapot":
		rw.WriteHeader(202)
		fmt.Fprintf(rw, `{"active":true,"username":%q}`, user)
		return
	}
	if req.URL.Path == "/auth" {
		if !good {
			rw.WriteHeader(403)
		}
		return
	}
	switch {
	case q.pass == "tok-anonymous":
		fmt.Fprintf(rw, `{"active":true}`)
	case !good:
		fmt.Fprintf(rw, `{"active":false,"username":"ann"}`)
	default:
		fmt.Fprintf(rw, `{"active":true,"username":%q}`, user)
	}
}

func initLogin(w *World) {
	st := w.login()
	for i := range w.cfg.Users {
		u := &w.cfg.Users[i]
		st.hist[u.Name] = []*acct{{t0: time.Now(), t1: time.Now(), pass: u.password(), enabled: !u.Disabled, admin: u.Admin, exists: true}}
		for j := range u.Nets {
			st.ids[u.Name+"/"+u.Nets[j].Name] = u.Nets[j].id
		}
	}
	if w.cfg.X["auth"] != 0 {
		// known to the authenticator only
		st.hist["zed"] = []*acct{{t0: time.Now(), t1: time.Now(), pass: "pw-zed", enabled: true}}
	}
	w.settle(3 * time.Second)
	w.rootLogin()
}

// rootLogin makes sure that the administrator is connected.
func (w *World) rootLogin() {
	if s := w.cur["root"]; s != nil && s.aliveNow() {
		return
	}
	now := time.Now()
	l := w.login().during("dan", now, now)
	for i := len(l) - 1; i >= 0; i-- {
		cc := *w.cfg.client("root")
		cc.Pass = l[i].pass
		if s := w.open(cc); s != nil {
			s.waitReady(5 * time.Second)
			if s.aliveNow() {
				return
			}
			s.hangup(false)
		}
	}
}

func opLogin(w *World, o *Op) bool {
	st := w.login()
	switch o.K {
	case "ldial": // key, [1: reset the old connection]
		if s := w.cur[o.s(0)]; s != nil && !s.hungUp && !s.closed {
			s.hangup(o.n(0) == 1)
		}
		w.dial(ClientCfg{Key: o.s(0), NoPong: false, User: "?"}).script(w)
	case "l": // key, line
		if s := w.cur[o.s(0)]; s != nil && !s.hungUp && !s.closed {
			for _, m := range w.outcomes(s) {
				if m.end != "" || s.registered {
					return true // what follows is no longer part of the exchange
				}
			}
			line := o.s(1)
			if u, ok := strings.CutPrefix(line, "BIND "); ok {
				line = fmt.Sprintf("BOUNCER BIND %d", st.ids[u])
			}
			s.send(line)
		}
	case "root":
		w.rootLogin()
	case "acct": // by key, user, change, value
		s := w.cur[o.s(0)]
		if s == nil || !s.live() {
			return true
		}
		who := o.s(1)
		h := st.hist[who]
		v := *h[len(h)-1]
		if v.exists != (o.s(2) != "create") {
			return true
		}
		v.t0, v.t1, v.kills = time.Now(), time.Time{}, false
		cmd := "user update " + who
		self := w.sessUser(s) == who
		want := "updated user"
		if w.cfg.X["auth"] != 0 && (o.s(2) == "password" || o.s(2) == "nopass" || o.s(2) == "create" || o.s(2) == "delete") {
			return true
		}
		switch o.s(2) {
		case "password":
			v.pass, v.kills = o.s(3), !self
			cmd += " -password " + o.s(3)
		case "nopass":
			v.pass, v.kills = "", !self
			cmd += " -disable-password"
		case "enabled":
			v.enabled = o.s(3) == "true"
			v.kills = !v.enabled
			cmd += " -enabled=" + o.s(3)
		case "admin":
			v.admin = o.s(3) == "true"
			cmd += " -admin=" + o.s(3)
		case "delete":
			v = acct{t0: v.t0, kills: true, gen: v.gen + 1}
			tok := map[string]string{"ann": "744cb9", "bob": "48181a", "cat": "9d989e", "dan": "2591e5"}[who]
			cmd = fmt.Sprintf("user delete %s %s", who, tok)
			want = "deleted user"
		case "create":
			v = acct{t0: v.t0, pass: o.s(3), enabled: true, exists: true, gen: v.gen}
			cmd = fmt.Sprintf("user create -username %s -password %s", who, o.s(3))
			want = "created user"
		}
		if self && (o.s(2) == "enabled" || o.s(2) == "admin" || o.s(2) == "delete") {
			return true
		}
		// one change at a time: wait for the answer
		seq := w.seq
		s.send("PRIVMSG BouncerServ :" + cmd)
		c := &pendingChange{s: s, seq: seq, v: &v, user: who, want: want}
		st.hist[who] = append(h, &v)
		ok, refused := false, false
		for end := time.Now().Add(20 * time.Second); time.Now().Before(end) && !ok && !refused && s.live(); {
			for _, l := range s.lines {
				if l.seq > c.seq && l.msg.Command == "PRIVMSG" && l.msg.Prefix != nil && l.msg.Prefix.Name == "BouncerServ" {
					t := par(l.msg, 1)
					if strings.HasPrefix(t, want) {
						ok = true
						v.t1 = l.at
					} else if strings.HasPrefix(t, "error") {
						refused = true
					}
				}
			}
			time.Sleep(20 * time.Millisecond)
		}
		if ok {
			w.probe("account-" + o.s(2))
		} else if refused && (w.cfg.SQLErrPct == 0 || o.s(2) == "password" || o.s(2) == "nopass" || o.s(2) == "admin") {
			st.hist[who] = h
		} else {
			v.unsure = true // and so are the versions based on it
		}
	case "authpw": // user, password: changed at the external authenticator
		if w.cfg.X["auth"] == 0 {
			return true
		}
		h := st.hist[o.s(0)]
		v := *h[len(h)-1]
		v.t0, v.t1, v.pass, v.kills = time.Now(), time.Now(), o.s(1), false
		st.hist[o.s(0)] = append(h, &v)
	case "authmode":
		st.mode = o.s(0)
	default:
		return false
	}
	return true
}

func (w *World) sessUser(s *sess) string {
	if s.cfg.Key == "root" {
		return s.cfg.User
	}
	return ""
}

// script prepares a connection whose registration is driven by the plan.
func (s *sess) script(w *World) {
	if s == nil {
		return
	}
	s.cfg.Caps = nil
	s.capsDone = true
	s.manual = true
}

// lmodel is the reference model of the registration exchange.
type lmodel struct {
	nick, user, pass  string
	neg, sasl         bool
	mech, buf         string
	auth, client, net string
	bind              string
	end               string // "", "refused", "gone", "in"
	endAt             time.Time
	slack             time.Duration
	hung              bool // the authenticator never answered
}

type answer int

const (
	no answer = iota
	yes
	maybe
)

// window is how long soju may take to act on a line.
func (w *World) window() time.Duration {
	return 3*time.Second + time.Duration(w.cfg.SQLDelayMS*6)*time.Millisecond
}

// during lists the versions of an account possibly in force in [a, b].
func (st *loginState) during(user string, a, b time.Time) (out []*acct) {
	h := st.hist[user]
	for i, v := range h {
		if v.t0.After(b) {
			break
		}
		over := false // a later version was surely in force before a
		for _, n := range h[i+1:] {
			if !n.t1.IsZero() && n.t1.Before(a) {
				over = true
			}
		}
		if !over {
			out = append(out, v)
		}
	}
	return out
}

func (st *loginState) all(user string, a, b time.Time, f func(v *acct) bool) answer {
	l := st.during(user, a, b)
	n := 0
	for _, v := range l {
		if v.unsure {
			return maybe
		}
		if f(v) {
			n++
		}
	}
	switch {
	case n == 0:
		return no
	case n == len(l):
		return yes
	}
	return maybe
}

// authPlain says whether these credentials are good; "at" is when the answer
// is known.
func (w *World) authPlain(user, pass string, t time.Time) (answer, time.Time, bool) {
	st := w.login()
	if w.cfg.X["auth"] != 0 {
		return w.asked(user, pass, t)
	}
	a := st.all(user, t, t.Add(w.window()), func(v *acct) bool { return v.exists && v.pass != "" && v.pass == pass })
	if a == yes && w.cfg.SQLErrPct > 0 {
		a = maybe
	}
	return a, t, false
}

// asked looks up what the external authenticator was asked.
func (w *World) asked(user, pass string, t time.Time) (answer, time.Time, bool) {
	st := w.login()
	n, good, hang := 0, 0, false
	at := t
	for _, q := range st.reqs {
		if q.at.Before(t) || q.at.After(t.Add(31*time.Second)) || q.pass != pass {
			continue
		}
		if q.done.After(at) {
			at = q.done
		}
		hang = hang || q.hang
		if q.user != user && (w.cfg.X["auth"] == 1 || q.ok) {
			continue
		}
		n++
		if q.ok {
			good++
		}
	}
	switch {
	case good == 0:
		return no, at, hang
	case good == n:
		return yes, at, hang
	}
	return maybe, at, hang
}

func splitLogin(s string) (user, client, net string) {
	i := strings.IndexAny(s, "/@")
	if i < 0 {
		return s, "", ""
	}
	user = s[:i]
	for i < len(s) {
		k := s[i]
		j := strings.IndexAny(s[i+1:], "/@")
		part := s[i+1:]
		if j >= 0 {
			part = s[i+1 : i+1+j]
			i += 1 + j
		} else {
			i = len(s)
		}
		if k == '/' {
			net = part
		} else {
			client = part
		}
	}
	return user, client, net
}

// outcomes runs the model over the lines a connection sent and returns every
// way it may end.
func (w *World) outcomes(s *sess) []lmodel {
	var out []lmodel
	var rec func(i int, m lmodel)
	step := func(i int, m lmodel) {
		// after every line: is the registration complete?
		line := s.sent[i]
		if m.end != "" {
			out = append(out, m)
			return
		}
		if m.nick == "" || m.user == "" || m.neg {
			rec(i+1, m)
			return
		}
		finish := func(m lmodel) {
			_, fc, fn := splitLogin(m.user)
			if m.client == "" {
				m.client = fc
			} else if fc != "" && fc != m.client {
				m.end = "refused"
			}
			if m.net == "" {
				m.net = fn
			} else if fn != "" && fn != m.net {
				m.end = "refused"
			}
			if m.end == "" {
				m.end = "in"
			}
			m.endAt = line.at
			out = append(out, m)
		}
		pass := m.pass
		m.pass = ""
		if m.auth != "" {
			finish(m)
			return
		}
		refuse := m
		refuse.end, refuse.endAt = "refused", line.at
		if pass == "" {
			out = append(out, refuse)
			return
		}
		u, c, n := splitLogin(m.user)
		a, at, hung := w.authPlain(u, pass, line.at)
		m.slack += at.Sub(line.at)
		m.hung = m.hung || hung
		if a != yes {
			out = append(out, refuse)
		}
		if a != no {
			m.auth, m.client, m.net = u, c, n
			finish(m)
		}
	}
	rec = func(i int, m lmodel) {
		if i >= len(s.sent) {
			out = append(out, m)
			return
		}
		line := s.sent[i]
		msg := line.msg
		if msg == nil {
			rec(i+1, m)
			return
		}
		switch msg.Command {
		case "NICK":
			if len(msg.Params) > 0 {
				m.nick = msg.Params[0]
			}
		case "USER":
			if len(msg.Params) > 3 {
				m.user = msg.Params[0]
			}
		case "PASS":
			if len(msg.Params) > 0 {
				m.pass = msg.Params[0]
			}
		case "CAP":
			switch par(msg, 0) {
			case "LS":
				m.neg = true
			case "REQ":
				m.neg = true
				if par(msg, 1) == "sasl" {
					m.sasl = true
				} else if par(msg, 1) == "-sasl" {
					m.sasl = false
				}
			case "END":
				m.neg = false
			}
		case "AUTHENTICATE":
			p := par(msg, 0)
			if !m.sasl || p == "" || p == "*" {
				m.mech, m.buf = "", ""
				break
			}
			if m.mech == "" {
				m.buf = ""
				switch strings.ToUpper(p) {
				case "PLAIN", "OAUTHBEARER", "ANONYMOUS":
					m.mech = strings.ToUpper(p)
				}
				break
			}
			if p != "+" {
				m.buf += p
			}
			if len(p) == 400 {
				break
			}
			b, err := base64.StdEncoding.DecodeString(m.buf)
			mech := m.mech
			m.mech, m.buf = "", ""
			if err != nil {
				break
			}
			switch mech {
			case "PLAIN":
				l := strings.Split(string(b), "\x00")
				if len(l) != 3 {
					m.end, m.endAt = "refused", line.at
					break
				}
				u, c, n := splitLogin(l[1])
				a, at, hung := w.authPlain(u, l[2], line.at)
				m.slack += at.Sub(line.at)
				m.hung = m.hung || hung
				good := m
				good.auth, good.client, good.net = u, c, n
				if l[0] != "" && l[0] != l[1] && a != no {
					b := w.login().all(u, line.at, at.Add(w.window()), func(v *acct) bool { return v.exists && v.admin })
					iu, ic, in := splitLogin(l[0])
					e := w.login().all(iu, line.at, at.Add(w.window()), func(v *acct) bool { return v.exists })
					if iu == "zed" && w.cfg.EnableOnAuth {
						e = maybe // created on demand
					}
					if b == no || e == no {
						a = no
					} else if b == maybe || e == maybe || w.cfg.SQLErrPct > 0 {
						a = maybe
					}
					good.auth, good.client, good.net = iu, ic, in
				}
				if a != no {
					step(i, good)
				}
				if a == yes {
					return
				}
			case "OAUTHBEARER":
				tok, ou := parseBearer(string(b))
				if tok == "" {
					m.end, m.endAt = "refused", line.at
					break
				}
				if w.cfg.X["auth"] != 2 {
					break
				}
				// whose token is it?
				for _, u := range sortedKeys(w.login().hist) {
					a, at, hung := w.asked(u, tok, line.at)
					m.hung = m.hung || hung
					if a == no || ou != "" && ou != u {
						if at.After(line.at) {
							m.slack += at.Sub(line.at)
						}
						continue
					}
					good := m
					good.slack += at.Sub(line.at)
					good.auth, good.client, good.net = u, "", ""
					step(i, good)
					if a == yes {
						return
					}
				}
			}
		case "BOUNCER":
			if par(msg, 0) == "BIND" && m.auth != "" && par(msg, 1) != "0" && par(msg, 1) != "junk" {
				m.bind = par(msg, 1)
			}
		}
		step(i, m)
	}
	rec(0, lmodel{})
	return out
}

func parseBearer(s string) (tok, user string) {
	head, rest, ok := strings.Cut(s, "\x01")
	if !ok {
		return "", ""
	}
	for _, f := range strings.Split(head, ",") {
		if u, ok := strings.CutPrefix(f, "a="); ok {
			user = u
		}
	}
	for _, f := range strings.Split(rest, "\x01") {
		if t, ok := strings.CutPrefix(f, "auth=Bearer "); ok {
			tok = t
		}
	}
	return tok, user
}

var preRegOK = map[string]bool{"CAP": true, "AUTHENTICATE": true, "ERROR": true, "FAIL": true, "421": true, "461": true, "464": true, "432": true, "433": true, "410": true, "904": true, "906": true, "903": true, "305": true, "306": true, "NOTICE": true, "PONG": true, "400": true, "PING": true, "905": true, "908": true}

func finalLogin(w *World) {
	st := w.login()
	w.sqlErrPct = 0
	w.calm()
	w.settle(60 * time.Second)
	sqlErr := w.cfg.SQLErrPct > 0
	for _, s := range w.sess {
		if !s.manual {
			continue
		}
		outs := w.outcomes(s)
		// what may have happened in the end
		allowIn, mustIn := false, len(outs) > 0
		users := map[string]bool{}
		var nets []string
		var explain []string
		for _, m := range outs {
			m := m
			explain = append(explain, fmt.Sprintf("%s as %q net %q bind %q", orNone(m.end), m.auth, m.net, m.bind))
			if m.end != "in" {
				mustIn = false
				continue
			}
			a, b := m.endAt, m.endAt.Add(w.window()+m.slack)
			en := st.all(m.auth, a, b, func(v *acct) bool { return v.exists && (v.enabled || w.cfg.EnableOnAuth) })
			if w.cfg.EnableOnAuth && w.cfg.X["auth"] != 0 {
				en = yes // created on demand
			}
			if w.cfg.EnableOnAuth && en == no && st.all(m.auth, s.openedAt, b, func(v *acct) bool { return v.exists }) != no {
				en = maybe // deleted after the credentials were checked: created again
			}
			if en == no {
				mustIn = false
				continue
			}
			if en == maybe || sqlErr || m.hung || b.Sub(s.openedAt) > 29*time.Second {
				mustIn = false
			}
			// the network
			want := ""
			net := st.all(m.auth, a, b, func(v *acct) bool { return v.exists && v.gen == 0 })
			if net == maybe {
				mustIn = false
			}
			if m.bind != "" {
				want = "?"
				for k, id := range st.ids {
					if fmt.Sprint(id) == m.bind && strings.HasPrefix(k, m.auth+"/") {
						want = m.bind
					}
				}
			} else if m.net != "" {
				want = "?"
				if id, ok := st.ids[m.auth+"/"+m.net]; ok {
					want = fmt.Sprint(id)
				}
			}
			if want == "?" || want != "" && net == no {
				mustIn = false
				continue // no such network
			}
			allowIn = true
			users[m.auth] = true
			nets = append(nets, m.auth+":"+want)
		}
		what := fmt.Sprintf("client %s, which sent %s", s.label(), sentLines(s))
		for _, l := range s.lines {
			if l.msg.Command == "001" {
				break
			}
			if !preRegOK[l.msg.Command] {
				w.fail("C09", "unregistered-data", "%s got %q before it was let in", what, l.raw)
			}
		}
		if s.registered {
			w.probe("let-in")
			if !allowIn {
				w.fail("C09", "intruder", "%s was let in; possible: %v", what, explain)
				continue
			}
			got := s.isupport["BOUNCER_NETID"]
			lists, _ := w.x["lists"].(map[*sess]string)
			seen, listed := lists[s]
			ok := false
			for _, n := range nets {
				u, id, _ := strings.Cut(n, ":")
				if id == got && (!listed || w.netListOK(u, seen, s)) {
					ok = true
				}
			}
			if !ok && s.ready && listed {
				w.fail("C09", "wrong-identity", "%s was let in, bound to network %q and sees the networks %s; expected one of %v", what, got, seen, nets)
			}
			if len(users) == 1 && s.ready {
				for u := range users {
					w.checkKills(s, u)
				}
			}
		} else {
			w.probe("kept-out")
			if mustIn && !s.hungUp && s.inst == w.inst && !s.faulty && len(s.sent) > 0 {
				w.fail("C09", "locked-out", "%s was not let in; possible: %v; closed %v %q", what, explain, s.closed, s.errText)
			}
			if !s.hungUp && !s.closed && !s.inst.dead && time.Since(s.openedAt) > 50*time.Second {
				w.fail("C09", "lingers", "%s is still connected %v later without having registered", what, time.Since(s.openedAt))
			}
		}
	}
	for _, name := range sortedKeys(w.ircds) {
		for _, c := range w.ircds[name].conns {
			for _, l := range c.recv {
				if strings.Contains(l.raw, "preregistration") {
					w.fail("C09", "unregistered-effect", "the server received %q, sent by a client that had not registered", l.raw)
				}
			}
		}
	}
	// the storage holds exactly the users and networks it should
	have, _ := w.inst.db.ListUsers(context.Background())
	for _, u := range have {
		if u.Username == "zed" && w.cfg.X["auth"] != 0 && w.cfg.EnableOnAuth {
			continue
		}
		if w.cfg.user(u.Username) == nil {
			w.fail("C09", "unregistered-effect", "user %q appeared", u.Username)
			continue
		}
		nets, _ := w.inst.db.ListNetworks(context.Background(), u.ID)
		for _, n := range nets {
			if _, ok := st.ids[u.Username+"/"+n.Name]; !ok {
				w.fail("C09", "unregistered-effect", "network %q of %s appeared", n.Name, u.Username)
			}
		}
	}
}

func orNone(s string) string {
	if s == "" {
		return "unfinished"
	}
	return s
}

func sentLines(s *sess) string {
	var l []string
	for _, c := range s.sent {
		l = append(l, c.raw)
	}
	return fmt.Sprintf("%q", l)
}

// netListOK compares the networks a session was shown with those of a user.
func (w *World) netListOK(user, seen string, s *sess) bool {
	var l []string
	if u := w.cfg.user(user); u != nil {
		for i := range u.Nets {
			l = append(l, u.Nets[i].Name)
		}
	}
	sort.Strings(l)
	a := w.login().all(user, s.readyAt, s.readyAt.Add(w.window()), func(v *acct) bool { return v.exists && v.gen == 0 })
	return a != no && seen == strings.Join(l, " ") || a != yes && seen == ""
}

// checkKills: a change of password by somebody else, the end of an account
// or its deactivation ends the connections made before.
func (w *World) checkKills(s *sess, user string) {
	for _, v := range w.login().hist[user] {
		if !v.kills || v.t1.IsZero() || !s.readyAt.Before(v.t0) || s.inst.dead {
			continue
		}
		end := s.closedAt
		if s.hungUp {
			end = s.hungAt
		}
		if (s.closed || s.hungUp) && end.Before(v.t1.Add(15*time.Second)) || time.Since(v.t1) < 15*time.Second || s.faulty {
			continue
		}
		w.fail("C09", "survivor", "client %s of user %s, let in at %s, still works although the account changed at %s (password %q, enabled %v, exists %v)", s.label(), user, s.readyAt.Format("15:04:05.000"), v.t1.Format("15:04:05.000"), v.pass, v.enabled, v.exists)
	}
}

func (w *World) onLoginReady(s *sess) {
	lists, _ := w.x["lists"].(map[*sess]string)
	if lists == nil {
		lists = map[*sess]string{}
		w.x["lists"] = lists
	}
	s.sent = s.sent[:len(s.sent):len(s.sent)]
	s.conn.push([]byte("BOUNCER LISTNETWORKS\r\nPING done\r\n"))
	var names []string
	s.onLine = func(msg *irc.Message) {
		switch msg.Command {
		case "BOUNCER":
			if par(msg, 0) == "NETWORK" {
				for _, a := range strings.Split(par(msg, 2), ";") {
					if n, ok := strings.CutPrefix(a, "name="); ok {
						names = append(names, n)
					}
				}
			}
		case "PONG":
			if par(msg, len(msg.Params)-1) == "done" {
				sort.Strings(names)
				lists[s] = strings.Join(names, " ")
				s.onLine = nil
			}
		}
	}
}

func plainB64(authz, user, pass string) string {
	return base64.StdEncoding.EncodeToString([]byte(authz + "\x00" + user + "\x00" + pass))
}

func genLogin(r *rng, p *Plan) {
	genBase(r, p, genOpt{servers: 1, users: 3, netsPer: 2, clients: 1, noSASL: true})
	c := &p.Cfg
	c.Clients = nil
	c.X = map[string]int{"auth": 0}
	switch r.intn(8) {
	case 0:
		c.X["auth"] = 1
	case 1:
		c.X["auth"] = 2
	}
	// distinct network names, so that the list of networks tells the user
	for i := range c.Users {
		u := &c.Users[i]
		if r.chance(15) {
			u.Disabled = true
		}
		for j := range u.Nets {
			u.Nets[j].Name = fmt.Sprintf("%snet%d", u.Name, j)
			u.Nets[j].Chans = nil
		}
	}
	if r.chance(25) {
		c.Users[0].Admin = true
	}
	c.Users = append(c.Users, UserCfg{Name: "dan", Admin: true, Nets: []NetCfg{{Name: "dannet", Server: "alpha", Nick: "dan0", Real: "R dan/dannet"}}})
	c.Clients = append(c.Clients, ClientCfg{Key: "root", User: "dan", Net: ""})
	c.EnableOnAuth = r.chance(25)
	if r.chance(15) {
		c.SQLErrPct = 1 + r.intn(15)
	}
	if r.chance(20) {
		c.SQLDelayMS = r.intn(200)
	}
	names := []string{"ann", "bob", "cat"}
	known := map[string][]string{} // passwords ever used
	for _, n := range append(names, "dan", "zed") {
		known[n] = []string{"pw-" + n}
	}
	admins := map[string]bool{"dan": true, "ann": c.Users[0].Admin}
	pw := func(u string) string {
		l := known[u]
		if r.chance(65) {
			return l[len(l)-1]
		}
		switch r.intn(6) {
		case 0:
			return l[r.intn(len(l))]
		case 1:
			o := r.pick("ann", "bob", "cat", "dan")
			return known[o][len(known[o])-1]
		case 2:
			return l[len(l)-1] + "x"
		case 3:
			s := l[len(l)-1]
			return s[:len(s)-1]
		case 4:
			return strings.ToUpper(l[len(l)-1])
		}
		return ""
	}
	login := func(u string) string {
		s := u
		if r.chance(5) {
			s = r.pick("Ann", "BOB", "nobody", "", "ann ", "cat2")
			s = strings.TrimSpace(s)
			if s == "" {
				s = "*"
			}
		}
		net, cl := "", ""
		if r.chance(50) {
			net = "/" + u + "net0"
			if r.chance(15) {
				net = "/" + r.pick("annnet0", "bobnet0", "catnet1", "dannet", "nowhere", "*")
			}
		}
		if r.chance(40) {
			cl = "@" + r.pick("phone", "desk", "a b", "x")
			cl = strings.ReplaceAll(cl, " ", "_")
		}
		if r.chance(50) {
			return s + net + cl
		}
		return s + cl + net
	}
	users := func() string {
		if c.X["auth"] != 0 && r.chance(12) {
			return "zed"
		}
		return r.pick("ann", "bob", "cat", "ann", "bob", "cat", "dan")
	}
	type lc struct {
		key   string
		lines []string
	}
	var open []*lc
	n := 0
	begin := func() {
		n++
		k := &lc{key: fmt.Sprintf("c%d", n)}
		p.op(gap(r)/10, "ldial", []string{k.key})
		u := users()
		lg := login(u)
		nick := "NICK " + r.pick("n1", "n2", u, "ann/annnet0")
		user := "USER " + lg + " 0 * :real"
		pass := "PASS :" + pw(u)
		if r.chance(5) {
			pass = "PASS"
		}
		sasl := func(user, lg string) []string {
			authz := ""
			if r.chance(30) {
				authz = login(users())
				if r.chance(30) {
					authz = lg
				}
			}
			if c.X["auth"] == 2 && r.chance(60) {
				tok := pw(user)
				if r.chance(10) {
					tok = "tok-anonymous"
				}
				gs := "n,"
				switch r.intn(3) {
				case 0:
					gs += "a=" + users()
				case 1:
					gs += "a=" + user
				}
				return []string{"AUTHENTICATE OAUTHBEARER", "AUTHENTICATE " + base64.StdEncoding.EncodeToString([]byte(gs+",\x01auth=Bearer "+tok+"\x01\x01"))}
			}
			l := []string{"AUTHENTICATE " + r.pick("PLAIN", "PLAIN", "PLAIN", "plain", "ANONYMOUS")}
			pass := pw(user)
			if r.chance(8) {
				pass += strings.Repeat("long", r.intn(200))
			}
			b := plainB64(authz, lg, pass)
			if r.chance(4) {
				b = base64.StdEncoding.EncodeToString([]byte(r.pick("x", lg+"\x00"+pass, "\x00\x00", "\x00\x00\x00")))
			}
			for len(b) >= 400 {
				l = append(l, "AUTHENTICATE "+b[:400])
				b = b[400:]
			}
			if b == "" {
				b = "+"
			}
			l = append(l, "AUTHENTICATE "+b)
			if r.chance(8) {
				i := r.intn(len(l) + 1)
				l = append(l[:i], append([]string{"AUTHENTICATE *"}, l[i:]...)...)
			}
			return l
		}
		switch r.intn(5) {
		case 0, 1: // PASS
			k.lines = []string{pass, nick, user}
			if r.chance(30) {
				k.lines = []string{nick, pass, user}
			}
			if r.chance(30) {
				k.lines = append([]string{"CAP LS 302"}, k.lines...)
				k.lines = append(k.lines, "CAP END")
			}
		case 2, 3: // SASL
			k.lines = []string{"CAP LS 302", nick}
			if r.chance(70) {
				u2 := u
				if r.chance(20) {
					u2 = users()
				}
				k.lines = append(k.lines, "USER "+r.pick(u2, login(u2), lg)+" 0 * :real")
			} else {
				k.lines = append(k.lines, "USER x 0 * :real")
			}
			if r.chance(95) {
				k.lines = append(k.lines, "CAP REQ :sasl")
			}
			if r.chance(10) {
				k.lines = append(k.lines, pass)
			}
			for i := 0; i < 1+b2i(r.chance(20)); i++ {
				if i > 0 && r.chance(50) {
					u = users()
					lg = login(u)
				}
				k.lines = append(k.lines, sasl(u, lg)...)
			}
			if r.chance(30) {
				who := u
				if r.chance(40) {
					who = users()
				}
				k.lines = append(k.lines, "BIND "+who+"/"+who+"net0")
			} else if r.chance(10) {
				k.lines = append(k.lines, r.pick("BOUNCER BIND junk", "BOUNCER BIND 0", "BOUNCER BIND 99999"))
			}
			k.lines = append(k.lines, "CAP END")
		case 4: // anything goes
			k.lines = []string{pass, nick, user, "CAP LS 302", "CAP REQ :sasl", "CAP END"}
			k.lines = append(k.lines, sasl(u, lg)...)
			k.lines = append(k.lines, "BIND "+u+"/"+u+"net0")
			for i := range k.lines {
				j := r.intn(len(k.lines))
				k.lines[i], k.lines[j] = k.lines[j], k.lines[i]
			}
		}
		if r.chance(25) {
			i := r.intn(len(k.lines))
			l := r.pick("JOIN #preregistration", "PRIVMSG g1 :preregistration", "PRIVMSG BouncerServ :network create -addr irc+insecure://alpha.test -name evil", "BOUNCER ADDNETWORK host=alpha.test;name=evil", "BOUNCER LISTNETWORKS", "AWAY :x", "PING x", "PRIVMSG BouncerServ :user create -username evil -password x", "CHATHISTORY LATEST #a * 10", "BIND ann/annnet0", "WEBPUSH REGISTER https://x y", "MARKREAD #a", "LIST", "WHO #a", "CAP REQ :-sasl")
			k.lines = append(k.lines[:i], append([]string{l}, k.lines[i:]...)...)
		}
		if r.chance(8) {
			k.lines = k.lines[:r.intn(len(k.lines))] // never finishes
		}
		open = append(open, k)
	}
	steps := 40 + r.intn(80)
	for i := 0; i < steps; i++ {
		switch x := r.intn(20); {
		case x < 3 && len(open) < 4 || len(open) == 0:
			begin()
		case x < 17:
			k := r.intn(len(open))
			l := open[k]
			if len(l.lines) == 0 {
				open = append(open[:k], open[k+1:]...)
				continue
			}
			cnt := 1
			if r.chance(50) {
				cnt = len(l.lines)
			}
			for ; cnt > 0; cnt-- {
				p.op(r.intn(30)*b2i(r.chance(50)), "l", []string{l.key, l.lines[0]})
				l.lines = l.lines[1:]
			}
		case x < 18:
			u := r.pick(names...)
			p.op(0, "root", nil)
			switch r.intn(7) {
			case 0, 1:
				np := fmt.Sprintf("new-%s-%d", u, i)
				known[u] = append(known[u], np)
				if c.X["auth"] != 0 {
					p.op(gap(r), "authpw", []string{u, np})
				} else {
					p.op(gap(r), "acct", []string{"root", u, "password", np})
				}
			case 2:
				p.op(gap(r), "acct", []string{"root", u, "nopass"})
			case 3:
				p.op(gap(r), "acct", []string{"root", u, "enabled", r.pick("true", "false")})
			case 4:
				admins[u] = !admins[u]
				p.op(gap(r), "acct", []string{"root", u, "admin", fmt.Sprint(admins[u])})
			case 5:
				if c.SQLErrPct == 0 {
					p.op(gap(r), "acct", []string{"root", u, "delete"})
				}
			case 6:
				np := fmt.Sprintf("new-%s-%d", u, i)
				known[u] = append(known[u], np)
				p.op(gap(r), "acct", []string{"root", u, "create", np})
			}
		case x < 19:
			switch r.intn(4) {
			case 0:
				np := fmt.Sprintf("own-dan-%d", i)
				p.op(0, "root", nil)
				p.op(gap(r), "acct", []string{"root", "dan", "password", np})
				known["dan"] = append(known["dan"], np)
			case 1:
				if c.X["auth"] != 0 {
					p.op(gap(r), "authmode", []string{r.pick("", "", "slow", "hang", "error", "reset", "teapot")})
				}
			case 2:
				if c.SQLErrPct > 0 {
					continue // an error while a user starts leaves it incomplete
				}
				if r.chance(40) {
					p.op(gap(r), "restart", nil)
				} else if r.chance(50) {
					p.op(gap(r), "crash", nil)
				}
			case 3:
				p.op(r.intn(35000), "sleep", nil)
			}
		default:
			p.op(gap(r), "sleep", nil)
		}
	}
}
