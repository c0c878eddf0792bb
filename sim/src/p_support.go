package main

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"gopkg.in/irc.v4"
)

// Property C28: clients know what their network's server supports.
func init() {
	register(&profile{name: "support", prop: "C28", gen: genSupport, op: opSupport, final: finalSupport, exotic: 20})
}

// forwarded are the ISUPPORT tokens clients see unchanged.
var forwarded = strings.Fields("ACCOUNTEXTBAN AWAYLEN BOT CASEMAPPING CHANLIMIT CHANMODES CHANNELLEN CHANTYPES ELIST EXCEPTS EXTBAN HOSTLEN INVEX KICKLEN LINELEN MAXLIST MAXTARGETS MODES MONITOR NAMELEN NETWORK NICKLEN PREFIX SAFELIST STATUSMSG TARGMAX TOPICLEN USERLEN UTF8ONLY WHOX")

// ownTokens are soju's.
var ownTokens = strings.Fields("CHATHISTORY MSGREFTYPES VAPID FILEHOST soju.im/FILEHOST soju.im/SAFERATE BOUNCER_NETID CLIENTTAGDENY")

// dependent are the capabilities clients have if the server has them.
var dependent = strings.Fields("account-notify account-tag away-notify chghost extended-join extended-monitor message-tags multi-prefix draft/extended-monitor")

var always = strings.Fields("batch cap-notify echo-message invite-notify server-time setname draft/pre-away draft/read-marker draft/no-implicit-names soju.im/account-required soju.im/bouncer-networks soju.im/bouncer-networks-notify soju.im/no-implicit-names soju.im/read")

// setCaps changes what the server offers.
func (s *ircd) setCaps(add, del []string) {
	for _, c := range s.conns {
		if !c.registered && !c.gone {
			c.drop("try again")
		}
	}
	s.capAt = append(s.capAt, time.Now())
	var gone []string
	for _, k := range del {
		if _, ok := s.caps[k]; ok {
			delete(s.caps, k)
			gone = append(gone, k)
		}
	}
	for _, a := range add {
		k, v, _ := strings.Cut(a, "=")
		s.caps[k] = v
	}
	for _, c := range s.live() {
		if len(gone) > 0 {
			for _, k := range gone {
				delete(c.caps, k)
			}
			c.event(&irc.Message{Prefix: &irc.Prefix{Name: s.srvName}, Command: "CAP", Params: []string{c.nick(), "DEL", strings.Join(gone, " ")}})
		}
		if len(add) > 0 {
			c.event(&irc.Message{Prefix: &irc.Prefix{Name: s.srvName}, Command: "CAP", Params: []string{c.nick(), "NEW", strings.Join(add, " ")}})
		}
	}
}

// setISupport changes the server's parameters.
func (s *ircd) setISupport(tokens []string) {
	for _, t := range tokens {
		k, _, _ := strings.Cut(strings.TrimPrefix(t, "-"), "=")
		var l []string
		for _, x := range s.isupport {
			if y, _, _ := strings.Cut(x, "="); y != k {
				l = append(l, x)
			}
		}
		if !strings.HasPrefix(t, "-") {
			l = append(l, t)
		}
		s.isupport = l
	}
	for _, c := range s.live() {
		if c.registered {
			c.num("005", append(append([]string{}, tokens...), "are supported")...)
		}
	}
}

func opSupport(w *World, o *Op) bool {
	switch o.K {
	case "capset": // server, added, removed
		s := w.ircds[o.s(0)]
		s.setCaps(strings.Fields(o.s(1)), strings.Fields(o.s(2)))
	case "isup": // server, tokens
		w.ircds[o.s(0)].setISupport(strings.Fields(o.s(1)))
	case "capreq": // client, capabilities
		if s := w.cur[o.s(0)]; s != nil && s.live() {
			s.send("CAP REQ :" + o.s(1))
		}
	case "supcheck":
		if !w.inst.dead {
			w.settle(3 * time.Minute)
			w.checkSupport()
		}
	default:
		return false
	}
	return true
}

func (w *World) checkSupport() {
	type look struct {
		s      *sess
		c      *iconn
		before map[string]string
		seq    int
	}
	var ls []look
	for _, s := range w.sess {
		if !s.aliveNow() || !s.ready || s.netKey() == "" || s.cfg.Net == "" {
			continue
		}
		l := look{s: s, c: w.connOf(s.netKey()), before: map[string]string{}, seq: w.nextSeq()}
		for k, v := range s.avail {
			l.before[k] = v
		}
		s.send("CAP LS 302")
		s.send("CAP LIST")
		ls = append(ls, l)
	}
	w.settle(10 * time.Second)
	for _, l := range ls {
		s, c := l.s, l.c
		if !s.aliveNow() || c != w.connOf(s.netKey()) || c != nil && (c.conn.stuck() || time.Since(c.regAt) < 2*time.Minute) || time.Since(s.readyAt) < 2*time.Minute {
			continue
		}
		fresh, enabled, n := map[string]string{}, map[string]bool{}, 0
		announced := false
		for i := range s.sent {
			if s.sent[i].seq < s.readySeq && strings.HasPrefix(s.sent[i].raw, "CAP LS 302") {
				announced = true
			}
		}
		for i := range s.lines {
			m := s.lines[i].msg
			if s.lines[i].seq < l.seq || m.Command != "CAP" {
				continue
			}
			switch par(m, 1) {
			case "LS":
				for _, x := range strings.Fields(par(m, len(m.Params)-1)) {
					k, v, _ := strings.Cut(x, "=")
					fresh[k] = v
				}
				n++
			case "LIST":
				for _, x := range strings.Fields(par(m, len(m.Params)-1)) {
					enabled[x] = true
				}
				n++
			case "NEW", "DEL":
				n = -100
			}
		}
		if n < 2 {
			continue
		}
		w.probe("capabilities-compared")
		bad := func(class, format string, args ...any) {
			w.fail("C28", class, "client %s of %s: %s", s.label(), s.netKey(), fmt.Sprintf(format, args...))
		}
		if announced && len(l.before) > 0 {
			if d := diffMaps(l.before, fresh); d != "" {
				bad("caps-unannounced", "the capabilities offered differ from those announced: %s", d)
			}
		}
		for k := range enabled {
			if !s.caps[k] && k != "cap-notify" {
				bad("caps-enabled", "%s is enabled, the client has never been told", k)
			}
		}
		for k := range s.caps {
			if !enabled[k] && announced {
				bad("caps-enabled", "%s isn't enabled, the client was told it is", k)
			}
		}
		for _, k := range always {
			if _, ok := fresh[k]; !ok {
				bad("caps-offered", "%s isn't offered", k)
			}
		}
		for k := range enabled {
			if _, ok := fresh[k]; !ok {
				bad("caps-enabled", "%s is enabled but not offered", k)
			}
		}
		if c == nil {
			continue
		}
		if c.instance != w.inst.id || c.capsNaked {
			continue
		}
		for _, k := range dependent {
			_, want := c.srv.caps[k]
			if _, ok := fresh[k]; ok != want {
				bad("caps-offered", "%s: offered %v, the server has it %v", k, ok, want)
			}
		}
		mechs, sasl := c.srv.caps["sasl"]
		want := sasl && (mechs == "" || has(strings.Split(mechs, ","), "PLAIN"))
		if _, ok := fresh["sasl"]; ok != want {
			bad("caps-offered", "sasl: offered %v, the server has %q", ok, mechs)
		}
		areg, want := c.srv.caps["draft/account-registration"]
		v, ok := fresh["draft/account-registration"]
		var rest []string
		for _, x := range strings.Split(areg, ",") {
			if x != "before-connect" && x != "" {
				rest = append(rest, x)
			}
		}
		if ok != want || v != strings.Join(rest, ",") {
			bad("caps-offered", "draft/account-registration: offered %v %q, the server has %v %q", ok, v, want, areg)
		}
		// soju itself
		_, labels := c.srv.caps["labeled-response"]
		_, echo := c.srv.caps["echo-message"]
		if c.caps["echo-message"] != (labels && echo) {
			bad("caps-used", "echo-message is enabled %v on a server which has labels %v", c.caps["echo-message"], labels)
		}
		// parameters
		have := map[string]string{}
		for _, x := range c.srv.isupport {
			k, v, _ := strings.Cut(x, "=")
			if has(forwarded, k) {
				have[k] = v
			}
		}
		got := map[string]string{}
		for k, v := range s.isupport {
			if has(ownTokens, k) {
				continue
			}
			if !has(forwarded, k) {
				bad("isupport", "the client was sent the token %s", k)
				continue
			}
			if _, ok := have[k]; !ok && s.readySeq < c.regSeq {
				continue // gone while the network was disconnected
			}
			got[k] = v
		}
		w.probe("parameters-compared")
		if d := diffMaps(got, have); d != "" {
			bad("isupport", "the parameters the client was told differ from the server's: %s", d)
		}
	}
}

func diffMaps(a, b map[string]string) string {
	var l []string
	for k, v := range a {
		if x, ok := b[k]; !ok {
			l = append(l, fmt.Sprintf("-%s=%s", k, v))
		} else if x != v {
			l = append(l, fmt.Sprintf("-%s=%s +%s", k, v, x))
		}
	}
	for k, v := range b {
		if _, ok := a[k]; !ok {
			l = append(l, fmt.Sprintf("+%s=%s", k, v))
		}
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

func finalSupport(w *World) {
	w.calm()
	if w.inst.dead {
		return
	}
	w.settle(20 * time.Minute)
	w.checkSupport()
}

func genSupport(r *rng, p *Plan) {
	genBase(r, p, genOpt{servers: 1 + r.intn(2), users: 1 + r.intn(2), netsPer: 1 + r.intn(2), clients: 3, stores: []string{"memory", "db"}, named: r.chance(70), upCaps: genUpCaps, downCaps: genDownCaps, srvMod: func(r *rng, s *SrvCfg) {
		if r.chance(30) {
			s.SlowMS = 1 + r.intn(300)
		}
		if r.chance(40) {
			s.Caps = append(s.Caps, r.pick("sasl=PLAIN", "sasl=EXTERNAL", "sasl"))
		}
		if r.chance(30) {
			s.Caps = append(s.Caps, "draft/account-registration="+r.pick("", "before-connect", "before-connect,email-required", "email-required"))
		}
	}})
	c := &p.Cfg
	for i := range c.Clients {
		p.op(r.intn(300), "open", []string{c.Clients[i].Key})
	}
	p.op(15000, "sleep", nil)
	token := func() string {
		return r.pick("AWAYLEN=100", "AWAYLEN=200", "-AWAYLEN", "BOT=B", "-BOT", "WHOX", "-WHOX", "UTF8ONLY", "-UTF8ONLY", "NETWORK=New\\x20Name", "NETWORK=x", "-NETWORK", "TOPICLEN=300", "-TOPICLEN", "MODES=4", "MODES=", "-MODES", "MAXLIST=b:60", "TARGMAX=PRIVMSG:3,NOTICE:", "-TARGMAX", "KNOCK", "-KNOCK", "CALLERID=g", "SAFELIST", "ELIST=U", "EXTBAN=~,qa", "-EXTBAN", "LINELEN=1024", "STATUSMSG=@", "-STATUSMSG", "STATUSMSG=@+", "CHANLIMIT=#:50", "NICKLEN=20", "-NICKLEN", "CASEMAPPING=ascii", "CASEMAPPING=rfc1459", "SOJU.IM/SAFERATE", "-SOJU.IM/SAFERATE", "HOSTLEN=63", "USERLEN=10", "-USERLEN", "NAMELEN=150")
	}
	offer := func() string {
		return r.pick("sasl=PLAIN", "sasl=EXTERNAL", "sasl", "sasl=PLAIN,EXTERNAL", "draft/account-registration", "draft/account-registration=before-connect", "draft/account-registration=email-required", "account-notify", "account-tag", "away-notify", "chghost", "extended-join", "extended-monitor", "message-tags", "multi-prefix", "labeled-response", "echo-message", "batch", "server-time", "setname", "invite-notify", "vendor/x=y")
	}
	var focus = p.anyServer(r)
	srv := func() string {
		if r.chance(60) {
			return focus
		}
		return p.anyServer(r)
	}
	list := func(f func() string, uniqBy func(string) string) string {
		var l []string
		seen := map[string]bool{}
		for n := 1 + r.intn(4); n > 0; n-- {
			if x := f(); !seen[uniqBy(x)] {
				seen[uniqBy(x)] = true
				l = append(l, x)
			}
		}
		return strings.Join(l, " ")
	}
	name := func(s string) string {
		s, _, _ = strings.Cut(strings.TrimPrefix(s, "-"), "=")
		return s
	}
	for n := 10 + r.intn(30); n > 0; n-- {
		_, nc := p.anyNet(r)
		cl := p.anyClient(r).Key
		switch x := r.intn(100); {
		case x < 24:
			p.op(gap(r), "isup", []string{srv(), list(token, name)})
		case x < 36:
			p.op(3000+r.intn(5000), "capset", []string{srv(), list(offer, name), ""})
		case x < 48:
			p.op(3000+r.intn(5000), "capset", []string{srv(), "", list(func() string { return name(offer()) }, name)})
		case x < 56:
			k := r.pick("account-notify", "account-tag", "away-notify", "chghost", "extended-join", "message-tags", "multi-prefix", "sasl", "echo-message", "server-time", "setname", "batch", "invite-notify", "nosuch", "draft/account-registration", "soju.im/webpush")
			if r.chance(40) {
				k = "-" + k
			}
			if r.chance(30) {
				if x := r.pick("away-notify", "-away-notify", "server-time", "nosuch", "-chghost", "account-tag"); name(x) != name(k) {
					k += " " + x
				}
			}
			p.op(gap(r), "capreq", []string{cl, k})
		case x < 62:
			p.op(gap(r), "open", []string{cl})
		case x < 65:
			p.op(gap(r), "hangup", []string{cl}, r.intn(2))
		case x < 73:
			p.op(gap(r), "drop", []string{nc.Server}, r.intn(2))
			if r.chance(50) {
				p.op(r.intn(100000), "sleep", nil)
			}
		case x < 75:
			p.op(gap(r), "restart", nil)
			p.op(gap(r), "open", []string{cl})
		case x < 79:
			p.op(r.intn(60000), "down", []string{nc.Server})
			p.op(gap(r), "isup", []string{nc.Server, list(token, name)})
			p.op(gap(r), "up", []string{nc.Server})
		case x < 88:
			p.op(gap(r), "supcheck", nil)
		default:
			p.op(r.intn(60000), "sleep", nil)
		}
	}
}
