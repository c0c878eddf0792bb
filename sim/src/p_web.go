package main

import (
	"context"
	"fmt"
	"net"
	"net/url"
	"path"
	"strings"
	"time"

	"codeberg.org/emersion/soju"
)

// Property C29: the configuration in force.  Whatever was configured last
// counts for everything that happens from then on, in particular which web
// pages may connect and which proxies are believed about addresses.
func init() {
	register(&profile{name: "web", prop: "C29", gen: genWeb, config: configWeb, op: opWeb, final: finalWeb})
}

// webConf is the part of the configuration that changes.
type webConf struct {
	from    time.Time // in force since
	origins []string
	proxies []string
	motd    string
	title   string
	max     int
	onAuth  bool
}

type webState struct {
	confs []webConf
	asks  []*webAsk
	n     int
}

// webAsk is a client whose connection is judged.
type webAsk struct {
	s        *sess
	whoHost  string
	disabled bool // the user was, when it connected
}

func (w *World) web() *webState {
	if w.x["web"] == nil {
		w.x["web"] = &webState{}
	}
	return w.x["web"].(*webState)
}

var webOrigins = [][]string{nil, {"app.test"}, {"*.ok.test"}, {"app.test", "*.ok.test"}, {"*"}, {"App.Test:8443"}, {"chat-?.test", "[a-c].test"}}
var webProxies = [][]string{nil, {"198.51.100.7/32"}, {"198.51.100.0/24"}, {"192.0.2.0/25", "198.51.100.8/32"}, {"2001:db8:1::/48"}, {"2001:db8:1::/48", "192.0.2.0/24"}}
var webMOTDs = []string{"", "Welcome", "Line one\nLine two", "New rules apply"}
var webTitles = []string{"", "My Bouncer", "Other"}

func (c *webConf) apply(cfg *soju.Config) {
	cfg.HTTPOrigins = c.origins
	cfg.AcceptProxyIPs = nil
	for _, p := range c.proxies {
		_, n, err := net.ParseCIDR(p)
		if err != nil {
			panic(err)
		}
		cfg.AcceptProxyIPs = append(cfg.AcceptProxyIPs, n)
	}
	cfg.MOTD, cfg.Title, cfg.MaxUserNetworks, cfg.EnableUsersOnAuth = c.motd, c.title, c.max, c.onAuth
}

func webConfOf(o *Op) webConf {
	return webConf{origins: webOrigins[o.n(0)], proxies: webProxies[o.n(1)], motd: webMOTDs[o.n(2)], title: webTitles[o.n(3)], max: o.n(4), onAuth: o.n(5) != 0}
}

func configWeb(w *World, cfg *soju.Config) {
	st := w.web()
	if len(st.confs) == 0 {
		x := w.cfg.X
		st.confs = []webConf{{from: time.Now(), origins: webOrigins[x["origins"]], proxies: webProxies[x["proxies"]], motd: webMOTDs[x["motd"]], title: webTitles[x["title"]], max: x["max"] - 1, onAuth: x["onauth"] != 0}}
	}
	st.confs[len(st.confs)-1].apply(cfg)
}

// inForce lists the configurations which were in force at some time between.
func (st *webState) inForce(from, to time.Time) []*webConf {
	var l []*webConf
	for i := range st.confs {
		c := &st.confs[i]
		if !c.from.After(to) && (i+1 == len(st.confs) || !st.confs[i+1].from.Before(from)) {
			l = append(l, c)
		}
	}
	return l
}

func header(c *ClientCfg, name string) string {
	for _, h := range c.Head {
		if k, v, _ := strings.Cut(h, ": "); k == name {
			return v
		}
	}
	return ""
}

// mayConnect tells whether a page may open a WebSocket.
func (c *webConf) mayConnect(cc *ClientCfg) bool {
	origin := header(cc, "Origin")
	if origin == "" {
		return true
	}
	u, err := url.Parse(origin)
	if err != nil {
		return false
	}
	host := header(cc, "Host")
	if host == "" {
		host = "http.test"
	}
	if strings.EqualFold(u.Host, host) {
		return true
	}
	for _, p := range c.origins {
		if ok, _ := path.Match(strings.ToLower(p), strings.ToLower(u.Host)); ok {
			return true
		}
	}
	return false
}

// hostOf is where a client connects from.
func (c *webConf) hostOf(cc *ClientCfg) string {
	host := cc.From
	if cc.WS == 0 {
		return host
	}
	ip := net.ParseIP(cc.From)
	for _, p := range c.proxies {
		if _, n, _ := net.ParseCIDR(p); n.Contains(ip) {
			said := header(cc, "X-Forwarded-For")
			if f := header(cc, "Forwarded"); f != "" {
				said = ""
				for _, kv := range strings.Split(f, ";") {
					if k, v, _ := strings.Cut(kv, "="); strings.EqualFold(k, "for") {
						said = strings.Trim(v, `"`)
					}
				}
			}
			if said != "" {
				host = said
				if h, _, err := net.SplitHostPort(said); err == nil {
					host = h
				}
			}
			break
		}
	}
	return host
}

func opWeb(w *World, o *Op) bool {
	st := w.web()
	switch o.K {
	case "reload":
		if w.inst.dead || w.inst.stopped {
			return true
		}
		c := webConfOf(o)
		// The old configuration may still be seen by whatever runs just now
		c.from = time.Now()
		st.confs = append(st.confs, c)
		w.fault("config-reload")
		var alive []*sess
		for _, s := range w.sess {
			if s.aliveNow() && !s.conn.peer.closed && s.ready && s.cfg.User != "zoe" { // zoe may just have been disabled
				alive = append(alive, s)
			}
		}
		inst := w.inst
		cfg := *w.inst.srv.Config()
		c.apply(&cfg)
		w.inst.srv.SetConfig(&cfg)
		w.tracef("configuration reloaded: %q %q %q %q %d %v", c.origins, c.proxies, c.motd, c.title, c.max, c.onAuth)
		w.settle(2 * time.Second)
		if inst != w.inst || inst.dead {
			return true
		}
		w.probe("reload-sessions")
		for _, s := range alive {
			if s.closed && !s.hungUp {
				w.fail("C29", "disturbed", "client %s lost its connection when the configuration was reloaded", s.label())
			}
		}
	case "wopen":
		if w.inst.dead || w.inst.stopped {
			return true
		}
		st.n++
		cc := ClientCfg{Key: fmt.Sprintf("w%d", st.n), User: o.s(0), From: o.s(1), WS: o.n(0)}
		if cc.WS != 0 {
			for i, k := range []string{"Origin", "Host", "Forwarded", "X-Forwarded-For"} {
				if v := o.s(2 + i); v != "" {
					cc.Head = append(cc.Head, k+": "+v)
				}
			}
		}
		a := &webAsk{disabled: !w.dbUser(cc.User).Enabled}
		if a.s = w.open(cc); a.s == nil {
			return true
		}
		st.asks = append(st.asks, a)
		go func() {
			for i := 0; i < 60 && !a.s.closed; i++ {
				if a.s.ready {
					a.s.send("WHO " + cc.User)
					return
				}
				time.Sleep(time.Second)
			}
		}()
	case "wnet":
		w.webNet(o.s(0))
	default:
		return false
	}
	return true
}

// webNet creates a network, which is refused exactly when the limit is
// reached.
func (w *World) webNet(user string) {
	st := w.web()
	var s *sess
	for _, a := range st.asks {
		if a.s.cfg.User == user && a.s.aliveNow() && a.s.ready && !a.s.conn.peer.closed && a.s.inst == w.inst {
			s = a.s
		}
	}
	if s == nil || w.inst.dead || w.inst.stopped {
		return
	}
	count := func() int {
		nets, err := w.inst.db.ListNetworks(context.Background(), w.dbUser(user).ID)
		if err != nil {
			return -1
		}
		n := 0
		for i := range nets {
			if nets[i].Enabled {
				n++
			}
		}
		return n
	}
	max := w.dbUser(user).MaxNetworks
	before := count()
	st.n++
	from, inst := time.Now(), w.inst
	s.send(fmt.Sprintf("PRIVMSG BouncerServ :network create -addr irc+insecure://alpha.test -name x%d", st.n))
	w.settle(15 * time.Second)
	if inst != w.inst || inst.dead || s.closed || max >= 0 || before < 0 {
		return
	}
	after := count()
	if after < 0 {
		return
	}
	did, allowed, refused := after == before+1, false, false
	for _, c := range st.inForce(from, time.Now()) {
		if c.max < 0 || before < c.max {
			allowed = true
		} else {
			refused = true
		}
	}
	w.probe(fmt.Sprintf("limit-%v", did))
	if did && !allowed {
		w.fail("C29", "stale-configuration", "%s could create a network though the limit in force was reached (%d enabled before)", user, before)
	} else if !did && !refused {
		w.fail("C29", "stale-configuration", "%s could not create a network though the limit in force was not reached (%d enabled before)", user, before)
	}
}

func finalWeb(w *World) {
	w.calm()
	w.settle(90 * time.Second)
	st := w.web()
	for _, a := range st.asks {
		w.judgeWeb(a)
	}
}

func (w *World) judgeWeb(a *webAsk) {
	st, s := w.web(), a.s
	end := s.closedAt
	if !s.closed {
		end = time.Now()
	}
	if s.ready {
		end = s.readyAt
	}
	l := st.inForce(s.openedAt, end)
	who := fmt.Sprintf("client %s from %s with %q", s.label(), s.cfg.From, s.cfg.Head)
	if s.cfg.WS != 0 {
		yes, no := false, false
		for _, c := range l {
			if c.mayConnect(&s.cfg) {
				yes = true
			} else {
				no = true
			}
		}
		switch {
		case s.wsStatus == 101 && !yes:
			w.fail("C29", "origin", "%s could open a WebSocket, the page's origin isn't allowed", who)
		case s.wsStatus == 403 && !no:
			w.fail("C29", "origin", "%s could not open a WebSocket though the page's origin is allowed", who)
		}
		if s.wsStatus != 0 {
			w.probe(fmt.Sprintf("websocket-%d", s.wsStatus))
		}
	}
	if s.inst == w.inst && !w.inst.dead && !w.inst.stopped && time.Since(s.openedAt) > time.Minute && !s.hungUp {
		if s.cfg.WS != 0 && s.wsStatus == 0 {
			w.fail("C29", "unanswered", "%s: the WebSocket request was never answered", who)
		}
	}
	if !s.ready {
		return
	}
	on := false
	motd, title, host := false, false, false
	var gotMOTD []string
	end0 := false
	gotTitle := ""
	for _, line := range s.lines {
		switch m := line.msg; m.Command {
		case "005":
			for _, t := range m.Params[1:] {
				if k, v, _ := strings.Cut(t, "="); k == "NETWORK" && !end0 {
					gotTitle = strings.ReplaceAll(v, `\x20`, " ")
				}
			}
		case "372":
			if !end0 {
				gotMOTD = append(gotMOTD, par(m, 1))
			}
		case "352":
			a.whoHost = par(m, 3)
		case "376", "422":
			end0 = true
		}
	}
	var wantHosts []string
	for _, c := range l {
		motd = motd || c.motd == strings.Join(gotMOTD, "\n")
		title = title || c.title == gotTitle
		h := c.hostOf(&s.cfg)
		host = host || h == a.whoHost
		wantHosts = append(wantHosts, h)
	}
	w.probe("welcomed")
	if !motd {
		w.fail("C29", "stale-configuration", "%s was shown the message of the day %q, which wasn't configured then", who, gotMOTD)
	}
	if !title {
		w.fail("C29", "stale-configuration", "%s was told the title %q, which wasn't configured then", who, gotTitle)
	}
	if a.whoHost != "" {
		w.probe("address-known")
		if a.whoHost != s.cfg.From {
			w.probe("address-forwarded")
		}
		if !host {
			w.fail("C29", "address", "%s is known to come from %q, it should be one of %q", who, a.whoHost, wantHosts)
		}
	}
	if a.disabled {
		// unless another connection was just enabling the user
		w.probe("disabled-login")
		for _, c := range st.inForce(s.openedAt.Add(-time.Minute), s.readyAt) {
			on = on || c.onAuth
		}
		if !on {
			w.fail("C29", "stale-configuration", "%s could log in as a disabled user, which wasn't configured then", who)
		}
	}
}

func genWeb(r *rng, p *Plan) {
	genBase(r, p, genOpt{servers: 1, users: 2 + r.intn(2), netsPer: 1, clients: 2, named: true, stores: []string{"memory", "db"}})
	c := &p.Cfg
	c.X = map[string]int{"http": 1, "origins": r.intn(len(webOrigins)), "proxies": r.intn(len(webProxies)), "motd": r.intn(len(webMOTDs)), "title": r.intn(len(webTitles)), "max": r.intn(6), "onauth": r.intn(2)}
	if r.chance(40) {
		c.SQLDelayMS = 1 + r.intn([]int{40, 400}[r.intn(2)])
	}
	for i := range c.Clients {
		p.op(r.intn(500), "open", []string{c.Clients[i].Key})
	}
	c.Users = append(c.Users, UserCfg{Name: "zoe", Disabled: true})
	user := func() string { return c.Users[r.intn(len(c.Users))].Name }
	open := func(d int) {
		ws := r.intn(3)
		from := r.pick("198.51.100.7", "198.51.100.8", "192.0.2.9", "192.0.2.200", "2001:db8:1::5", "2001:db8:2::5", "203.0.113.4")
		origin, host, fwd, xff := "", "", "", ""
		if r.chance(60) {
			origin = r.pick("https://app.test", "https://APP.test", "https://app.test:8443", "https://chat.ok.test", "https://a.b.ok.test", "https://ok.test", "https://evil.test", "https://app.test.evil.test", "https://notok.test", "http://http.test", "https://HTTP.TEST", "https://http.test:444", "null", "https://chat-1.test", "https://chat-12.test", "https://b.test", "https://d.test", "file://", "%zz")
		}
		if r.chance(25) {
			host = r.pick("http.test", "app.test", "http.test:444", "bouncer.example")
		}
		if r.chance(40) {
			fwd = r.pick("for=203.0.113.77", `for="203.0.113.78:4711"`, "For=203.0.113.79;proto=https", "proto=https", "proto=https;for=203.0.113.80;host=http.test", `for="[2001:db8:77::1]:4711"`, "for=client.example", "by=203.0.113.43")
		}
		if r.chance(40) {
			xff = r.pick("203.0.113.90", "2001:db8:90::1", "203.0.113.91:1234", "host.example")
		}
		p.op(d, "wopen", []string{user(), from, origin, host, fwd, xff}, ws)
	}
	n := 8 + r.intn(20)
	for i := 0; i < n; i++ {
		d := []int{0, 1 + r.intn(20), r.intn(300), 1000 + r.intn(3000)}[r.intn(4)]
		switch r.intn(12) {
		case 0, 1, 2, 3, 4, 5:
			open(d)
		case 6, 7, 8:
			p.op(d, "reload", nil, r.intn(len(webOrigins)), r.intn(len(webProxies)), r.intn(len(webMOTDs)), r.intn(len(webTitles)), r.intn(6)-1, r.intn(2))
		case 9:
			p.op(d, "wnet", []string{user()})
		case 10:
			p.op(d, "hangup", []string{c.Clients[r.intn(len(c.Clients))].Key})
		case 11:
			switch r.intn(4) {
			case 0:
				p.op(d, "restart", nil)
			case 1:
				p.op(d, "crash", nil)
				p.op(r.intn(2000), "restart", nil)
			case 2:
				p.op(d, "open", []string{c.Clients[r.intn(len(c.Clients))].Key})
			default:
				p.op(d, "adm", []string{r.pick("server status", "user update zoe -enabled false", "user update zoe -enabled false")})
			}
		}
	}
}
