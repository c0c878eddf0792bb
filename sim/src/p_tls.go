package main

import (
	"encoding/base64"
	"fmt"
	"strings"
	"time"

	"codeberg.org/emersion/soju/database"
	"gopkg.in/irc.v4"
)

// Property C13: what belongs to a network – nicknames, passwords, client
// certificates, messages – is only ever sent to a server which has proven to
// be the one the network was configured for.
func init() {
	register(&profile{name: "tls", prop: "C13", gen: genTLS, setup: setupTLS, init: initTLS, op: opTLS, final: finalTLS})
}

type tlsNet struct {
	key   string
	confs []tlsConf // values the configuration has had
}

type tlsConf struct {
	from, to time.Time
	rec      *database.Network // nil: none
}

type tlsState struct {
	nets map[string]*tlsNet
	told []tlsTold
}

// tlsTold is something a server was told, judged at the end.
type tlsTold struct {
	c    *iconn
	cmd  string
	arg  string
	pass string
	cert string
	at   time.Time
}

func (w *World) tlsSt() *tlsState { return w.x["tls"].(*tlsState) }

func setupTLS(w *World) {
	w.x["tls"] = &tlsState{nets: map[string]*tlsNet{}}
	for _, srv := range w.ircdList() {
		srv.rawHook = w.judgeTLS
		srv.saslAny = true
	}
}

func initTLS(w *World) {
	st := w.tlsSt()
	for i := range w.cfg.Users {
		u := &w.cfg.Users[i]
		for j := range u.Nets {
			key := u.Name + "/" + u.Nets[j].Name
			st.nets[key] = &tlsNet{key: key, confs: []tlsConf{{from: w.start, rec: w.dbNetwork(key)}}}
		}
	}
}

// readConf notes a configuration that may have changed since "since".
func (w *World) readConf(key string, since time.Time) {
	n := w.tlsSt().nets[key]
	rec := w.dbNetwork(key)
	last := &n.confs[len(n.confs)-1]
	if fmt.Sprint(rec) == fmt.Sprint(last.rec) {
		return
	}
	last.to = time.Now()
	n.confs = append(n.confs, tlsConf{from: since, rec: rec})
}

// confsAt lists the values the configuration may have had when a connection
// was made.
func (n *tlsNet) confsAt(c *iconn, at time.Time) []*database.Network {
	var l []*database.Network
	for i := range n.confs {
		f := &n.confs[i]
		if f.from.Before(at.Add(time.Second)) && (f.to.IsZero() || f.to.After(c.openedAt.Add(-5*time.Second))) && f.rec != nil {
			l = append(l, f.rec)
		}
	}
	return l
}

// acceptable tells whether a network configured like this may talk to the
// server at the other end; unsure near the end of a certificate's validity.
func acceptable(rec *database.Network, c *iconn, at time.Time) (ok, unsure bool) {
	plain := strings.HasPrefix(rec.Addr, "irc+insecure://")
	if plain != (c.tls == nil) {
		return false, false
	}
	if !strings.Contains(rec.Addr, c.srv.name+".test") {
		return false, false
	}
	if plain {
		return true, false
	}
	return identityOK(rec, c.tlsID, c.srv.name, at)
}

func identityOK(rec *database.Network, idName, srv string, at time.Time) (ok, unsure bool) {
	id := identities[idName]
	if rec.CertFP != "" {
		algo, fp, _ := strings.Cut(rec.CertFP, ":")
		return fingerprint(algo, id.chain[0]) == fp, false
	}
	if idName == srv+"S" {
		return false, false
	}
	d := at.Sub(id.notAfter)
	return d < 0, d > -2*time.Minute && d < 2*time.Minute
}

// judgeTLS looks at what soju tells a server.
func (w *World) judgeTLS(c *iconn, msg *irc.Message) bool {
	st := w.tlsSt()
	switch msg.Command {
	case "USER", "AUTHENTICATE", "PASS":
	default:
		return false
	}
	if msg.Command == "PASS" {
		c.pass = msg.Params[0]
		return true // judged with USER
	}
	if msg.Command == "USER" {
		c.ownerKey = strings.TrimPrefix(msg.Params[3], "R ")
	}
	e := tlsTold{c: c, cmd: msg.Command, arg: msg.Params[0], pass: c.pass, at: time.Now()}
	if c.tls != nil {
		if l := c.tls.ConnectionState().PeerCertificates; len(l) > 0 {
			e.cert = string(l[0].Raw)
		}
	}
	st.told = append(st.told, e)
	return false
}

func (w *World) judgeTold(e *tlsTold) {
	c := e.c
	n := w.tlsSt().nets[c.ownerKey]
	if n == nil {
		return
	}
	confs := n.confsAt(c, e.at)
	if len(confs) == 0 {
		return
	}
	ok, okPass, okCert := false, false, false
	if e.cmd == "USER" {
		w.probe("registration-judged")
		var why string
		for _, rec := range confs {
			a, u := acceptable(rec, c, c.openedAt)
			ok = ok || a || u
			why = fmt.Sprintf("%s pin %.20s", rec.Addr, rec.CertFP)
			okPass = okPass || rec.Pass == e.pass
			want := ""
			if rec.SASL.Mechanism == "EXTERNAL" {
				want = string(rec.SASL.External.CertBlob)
			}
			okCert = okCert || want == e.cert
		}
		id := c.tlsID
		if c.tls == nil {
			id = "no TLS"
		}
		if !ok {
			w.fail("C13", "told-unverified", "%s (%s) registered with %s#%d, which presented %q", n.key, why, c.srv.name, c.idx, id)
		}
		if !okPass {
			w.fail("C13", "wrong-password", "%s sent the server password %q to %s#%d", n.key, e.pass, c.srv.name, c.idx)
		}
		if c.tls != nil {
			w.probe("registration-tls")
			if e.cert != "" {
				w.probe("client-certificate")
			}
			if !okCert {
				w.fail("C13", "wrong-certificate", "%s presented the wrong client certificate to %s#%d (one at all: %v)", n.key, c.srv.name, c.idx, e.cert != "")
			}
		}
		return
	}
	if a := e.arg; a != "PLAIN" && a != "EXTERNAL" && a != "*" && a != "+" {
		b, _ := base64.StdEncoding.DecodeString(a)
		parts := strings.Split(string(b), "\x00")
		for _, rec := range confs {
			ok = ok || len(parts) == 3 && rec.SASL.Mechanism == "PLAIN" && parts[1] == rec.SASL.Plain.Username && parts[2] == rec.SASL.Plain.Password
		}
		w.probe("login-judged")
		if !ok {
			w.fail("C13", "wrong-login", "%s logged in to %s#%d with credentials that are not its own: %q", n.key, c.srv.name, c.idx, b)
		}
	}
}

func opTLS(w *World, o *Op) bool {
	switch o.K {
	case "mitm": // server, attack ("" ends it)
		w.ircds[o.s(0)].mitm = o.s(1)
	case "rotate": // server, identity
		w.ircds[o.s(0)].tlsID = o.s(1)
	case "tdown":
		w.fault("upstream-refuse")
		w.ircds[o.s(0)].tlsLn.closed = true
	case "tup":
		w.ircds[o.s(0)].tlsLn.closed = false
	case "conf": // client, user/network, command
		s := w.cur[o.s(0)]
		if s == nil || !s.live() {
			return true
		}
		since := time.Now()
		cmd := o.s(2)
		if strings.HasPrefix(cmd, "pin ") {
			// a fingerprint of what the server presents
			f := strings.Fields(cmd)
			fp := fingerprint(f[1], identities[f[2]].chain[0])
			if len(f) > 3 {
				var l []string
				for i := 0; i < len(fp); i += 2 {
					l = append(l, fp[i:i+2])
				}
				fp = strings.ToUpper(strings.Join(l, ":"))
			}
			_, name, _ := strings.Cut(o.s(1), "/")
			cmd = "network update " + name + " -certfp " + fp
		}
		s.send("PRIVMSG BouncerServ :" + cmd)
		w.settle(3 * time.Second)
		if !w.inst.dead {
			w.readConf(o.s(1), since)
		}
	default:
		return false
	}
	return true
}

func finalTLS(w *World) {
	w.calm()
	if w.inst.dead {
		return
	}
	for _, srv := range w.ircdList() {
		srv.mitm = ""
		if srv.tlsLn != nil {
			srv.tlsLn.closed = false
		}
	}
	w.settle(20 * time.Minute)
	// once more with the settings as they are now
	for _, srv := range w.ircdList() {
		for _, c := range srv.live() {
			c.conn.Reset()
		}
	}
	w.settle(20 * time.Minute)
	for i := range w.tlsSt().told {
		w.judgeTold(&w.tlsSt().told[i])
	}
	for _, key := range sortedKeys(w.tlsSt().nets) {
		w.readConf(key, time.Now())
		rec := w.dbNetwork(key)
		if rec == nil {
			continue
		}
		var c *iconn
		for _, s := range w.ircdList() {
			for _, x := range s.live() {
				if x.ownerKey == key && x.instance == w.inst.id {
					c = x
				}
			}
		}
		if c != nil && (c.instance != w.inst.id || time.Since(c.openedAt) < 30*time.Second) {
			continue
		}
		plain := strings.HasPrefix(rec.Addr, "irc+insecure://")
		var srv *ircd
		for _, s := range w.ircdList() {
			if strings.Contains(rec.Addr, s.name+".test") {
				srv = s
			}
		}
		if srv == nil {
			continue
		}
		ok, unsure := true, false
		if !plain {
			ok, unsure = identityOK(rec, srv.tlsID, srv.name, time.Now())
		}
		if unsure {
			continue
		}
		switch {
		case ok && c == nil:
			w.fail("C13", "not-connected", "%s (%s) isn't connected although %s presents a valid certificate (%s)", key, rec.Addr, srv.name, srv.tlsID)
		case c != nil:
			w.probe("connected")
		default:
			w.probe("kept-away")
		}
	}
}

func genTLS(r *rng, p *Plan) {
	genBase(r, p, genOpt{servers: 1 + r.intn(2), users: 1 + r.intn(2), netsPer: 2, clients: 2, named: r.chance(40), stores: []string{"memory", "db"}, srvMod: func(r *rng, s *SrvCfg) {
		s.TLS = s.Name + r.pick("0", "0", "0", "1", "2", "S")
		s.TLS12 = r.chance(25)
		if r.chance(70) {
			s.Caps = append(s.Caps, "sasl="+r.pick("PLAIN", "EXTERNAL", "PLAIN,EXTERNAL", "PLAIN,EXTERNAL"))
		}
	}})
	c := &p.Cfg
	if r.chance(30) {
		c.UserIPs = []string{"192.0.2.0/24"}
	}
	pin := func(srv string) (algo, id string) {
		return r.pick("sha-512", "sha-256"), srv + r.pick("0", "1", "2", "S", "0")
	}
	type nk struct {
		u *UserCfg
		n *NetCfg
	}
	var nets []nk
	for i := range c.Users {
		for j := range c.Users[i].Nets {
			n := &c.Users[i].Nets[j]
			nets = append(nets, nk{&c.Users[i], n})
			switch r.intn(8) {
			case 0:
			case 1, 2:
				n.Addr = n.Server + ".test"
			case 3, 4:
				n.Addr = "ircs://" + n.Server + ".test:6697"
			default:
				n.Addr = "ircs://" + n.Server + ".test"
			}
			if n.Addr != "" && r.chance(45) {
				algo, id := pin(n.Server)
				if r.chance(60) {
					for k := range c.Servers {
						if c.Servers[k].Name == n.Server {
							id = c.Servers[k].TLS
						}
					}
				}
				n.CertFP = algo + ":" + fingerprint(algo, identities[id].chain[0])
			}
			if r.chance(25) {
				n.Pass = "server-pass-" + c.Users[i].Name + n.Name
			}
			if r.chance(60) {
				if r.chance(60) {
					n.SASLUser, n.SASLPass = "acct-"+c.Users[i].Name+n.Name, "secret-"+c.Users[i].Name+n.Name
				} else {
					n.External = true
				}
			}
		}
	}
	if r.chance(40) {
		c.Servers[0].Caps = append([]string(nil), c.Servers[0].Caps...)
	}
	servers := c.Servers
	anyAttack := func() string { return attacks[r.intn(len(attacks))] }
	for k := r.intn(3); k > 0; k-- {
		p.op(0, "mitm", []string{servers[r.intn(len(servers))].Name, anyAttack()})
	}
	for i := range c.Clients {
		p.op(gap(r), "open", []string{c.Clients[i].Key}, 0)
	}
	n := 6 + r.intn(16)
	for i := 0; i < n; i++ {
		srv := servers[r.intn(len(servers))].Name
		switch r.intn(16) {
		case 0, 1, 2:
			p.op(gap(r), "mitm", []string{srv, anyAttack()})
			if r.chance(70) {
				p.op(gap(r), "drop", []string{srv}, r.intn(2))
			}
		case 3, 4:
			p.op(gap(r), "mitm", []string{srv, ""})
		case 5:
			p.op(gap(r), "drop", []string{srv}, r.intn(2))
		case 6:
			p.op(gap(r), "rotate", []string{srv, srv + r.pick("0", "1", "2", "S")})
		case 7:
			p.op(gap(r), r.pick("tdown", "tup", "tup"), []string{srv})
		case 8:
			p.op(gap(r), "clock", nil, []int{3600, 86400 * 30, 86400 * 90}[r.intn(3)])
		case 9, 10:
			p.op(0, "settle", nil, 30+r.intn(1200))
		case 11:
			p.op(gap(r), "crash", nil)
			p.op(gap(r), "restart", nil)
		case 12:
			p.op(gap(r), "stall", []string{srv}, r.intn(2))
			p.op(r.intn(20000), "unstall", []string{srv})
		default:
			k := nets[r.intn(len(nets))]
			cl := ""
			for j := range c.Clients {
				if c.Clients[j].User == k.u.Name && c.Clients[j].Net == k.n.Name {
					cl = c.Clients[j].Key
				}
			}
			algo, id := pin(k.n.Server)
			cmd := r.pick("pin "+algo+" "+id, "pin "+algo+" "+id, "pin "+algo+" "+id+" colons",
				"network update "+k.n.Name+" -certfp \"\"",
				"network update "+k.n.Name+" -addr ircs://"+k.n.Server+".test",
				"network update "+k.n.Name+" -addr "+servers[r.intn(len(servers))].Name+".test",
				"network update "+k.n.Name+" -addr irc+insecure://"+k.n.Server+".test",
				"network update "+k.n.Name+" -pass other-pass",
				"sasl set-plain -network "+k.n.Name+" acct2 secret2",
				"sasl reset -network "+k.n.Name,
				"sasl reset -network "+k.n.Name,
			)
			p.op(gap(r), "open", []string{cl}, 0)
			p.op(gap(r), "conf", []string{cl, k.u.Name + "/" + k.n.Name, cmd})
		}
	}
}
