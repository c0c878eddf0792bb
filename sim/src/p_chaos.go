package main

import (
	"fmt"
	"strings"
	"time"
)

// Property C11: nothing a peer sends makes soju fail internally.
// Property C12: after the disturbance stops, soju still serves everyone.
// Property C19: clients only get what they negotiated, well-formed.
// Property C24: a graceful stop always finishes.
func init() {
	register(&profile{name: "chaos", prop: "C11", gen: genChaos, final: finalChaos, weight: 2})
	register(&profile{name: "hostile", prop: "C11", gen: genHostile, init: initHostile, final: finalChaos})
	register(&profile{name: "progress", prop: "C12", gen: genProgress, final: finalChaos, weight: 2})
	register(&profile{name: "progress-chaos", prop: "C12", gen: genChaos, final: finalChaos})
	register(&profile{name: "conform", prop: "C19", gen: genConform, final: finalChaos, weight: 2})
	register(&profile{name: "conform-chaos", prop: "C19", gen: genChaos, final: finalChaos})
	register(&profile{name: "stop", prop: "C24", gen: genProgress, final: finalStop, weight: 2})
	register(&profile{name: "stop-chaos", prop: "C24", gen: genChaos, final: finalStop})
}

// gline generates command lines.
type gline struct {
	r *rng
	p *Plan
}

func (g *gline) nick() string {
	return g.r.pick("g1", "g2", "g3", "G1", "ann0", "bob0", "ann", "bob", "BouncerServ", "nobody", "NickServ", "g[1]", "*", "", "$me")
}

func (g *gline) ch() string {
	return g.r.pick("#a", "#b", "#A", "#c", "#c", "&x", "#a,#b", "#", "g1", "", "0", "#a,", "##", "@#a", "#a,#c,#d")
}

func (g *gline) text() string {
	switch g.r.intn(8) {
	case 0:
		return ""
	case 1:
		return " "
	case 2:
		return ":"
	case 3:
		return "\x01ACTION waves\x01"
	case 4:
		return "hello ann0 how are you"
	case 5:
		return strings.Repeat("x", 350)
	case 6:
		return "\x01"
	}
	return fmt.Sprintf("text %d", g.r.intn(1000))
}

func (g *gline) num() string {
	return g.r.pick("0", "1", "2", "3", "-1", "99999999999999999999", "x", "", "10", "1000", "2147483648")
}

func (g *gline) ts() string {
	return g.r.pick("timestamp=2000-01-01T00:00:01.000Z", "timestamp=2000-01-01T00:01:00.000Z", "timestamp=1999-01-01T00:00:00.000Z", "timestamp=2030-01-01T00:00:00.000Z", "*", "msgid=abc", "timestamp=", "timestamp=garbage", "timestamp=0000-01-01T00:00:00.000Z")
}

func (g *gline) target() string {
	if g.r.chance(50) {
		return g.ch()
	}
	return g.nick()
}

func (g *gline) mode() string {
	return g.r.pick("+o", "-o", "+v", "+ov", "+b", "b", "+k", "-k", "+l", "-l", "+i", "+", "-", "", "+ooo", "+zzz", "+kl", "+imnst-o")
}

// client generates a line a client may send once registered.
func (g *gline) client() string {
	r := g.r
	tag := ""
	if r.chance(10) {
		tag = r.pick("@label=abc ", "@+draft/reply=x ", "@batch=1 ", "@time=2000-01-01T00:00:00.000Z ", "@+typing=active;label=z ", "@+draft/channel-context=#a ")
	}
	switch r.intn(38) {
	case 0:
		return tag + "PRIVMSG " + g.target() + " :" + g.text()
	case 1:
		return tag + "NOTICE " + g.target() + " :" + g.text()
	case 2:
		return tag + "TAGMSG " + g.target()
	case 3:
		return "JOIN " + g.ch() + r.pick("", " key", " key,key2")
	case 4:
		return "PART " + g.ch() + r.pick("", " :bye", " :detach", " detach")
	case 5:
		return "MODE " + g.target() + " " + g.mode() + " " + g.nick() + " " + g.nick()
	case 6:
		return "MODE " + g.target() + " " + g.mode()
	case 7:
		return "MODE " + g.target()
	case 8:
		return "TOPIC " + g.ch() + r.pick("", " :", " :new topic")
	case 9:
		return "LIST" + r.pick("", " #a", " >1", " *", " #a,#b")
	case 10:
		return "NAMES " + g.ch()
	case 11:
		return "WHO " + g.target() + r.pick("", " o", " %tcuihsnfdlaor,999", " %na", " %", " a%t,1234", " %t,")
	case 12:
		return "WHOIS " + g.nick() + r.pick("", " g1", " g1,g2", " ann0")
	case 13:
		return "NICK " + r.pick("annx", "ann0", "g1", "", "#bad", "ann[x]", "BouncerServ")
	case 14:
		return "AWAY" + r.pick("", " :gone", " :", " *")
	case 15:
		return "MONITOR " + r.pick("+ g1", "+ g1,g2,g3", "- g1", "C", "L", "S", "+ ", "- ", "+", "X", "+ g1,,g2", "+ "+g.nick())
	case 16, 17:
		return "CHATHISTORY " + r.pick("LATEST", "BEFORE", "AFTER", "AROUND", "BETWEEN", "TARGETS", "X", "latest") + " " + g.target() + " " + g.ts() + " " + r.pick(g.num(), g.ts()+" "+g.num())
	case 18:
		return "CHATHISTORY TARGETS " + g.ts() + " " + g.ts() + " " + g.num()
	case 19:
		return r.pick("MARKREAD", "READ") + " " + g.target() + r.pick("", " "+g.ts())
	case 20:
		return "SEARCH " + r.pick("in=#a", "text=hello", "in=#a;text=x;limit=2", "from=g1", "after=2000-01-01T00:00:00.000Z", "limit=x", "", "before=garbage", "in=", "text=%_")
	case 21, 22:
		return "BOUNCER " + g.bouncer()
	case 23:
		return "WEBPUSH " + r.pick("REGISTER", "UNREGISTER", "X") + " " + r.pick("https://push.test/a", "http://x", "garbage", "") + " " + r.pick("p256dh=BCVxsr7N_eNgVRqvHtD0zTZsEc6-VV-JvLexhqUzORcxaOzi6-AYWXvTBHm4bjyPjs7Vd8pZGH6SRpkNtoIAiw4;auth=BTBZMqHH6r4Tts7J_aSIgg", "p256dh=x;auth=y", "", "auth=")
	case 24, 25, 26:
		return "PRIVMSG BouncerServ :" + g.serv()
	case 27:
		return "INVITE " + g.nick() + " " + g.ch()
	case 28:
		return "KICK " + g.ch() + " " + g.nick() + r.pick("", " :out", " g1,g2")
	case 29:
		return "AUTHENTICATE " + r.pick("PLAIN", "*", "+", "AGFubgBwdw==", "EXTERNAL", "x", "", strings.Repeat("A", 400))
	case 30:
		return r.pick("REGISTER", "VERIFY") + " " + r.pick("* * pass", "acc mail@x pass", "acc code", "", "*")
	case 31:
		return "SETNAME " + r.pick(":New Name", ":", "x")
	case 32:
		return "CAP " + r.pick("LS", "LS 302", "LIST", "REQ :echo-message", "REQ :-echo-message", "REQ :message-tags server-time", "REQ :-batch", "REQ :nope", "REQ :", "END", "X", "REQ :-message-tags -server-time", "REQ :cap-notify", "REQ :-cap-notify")
	case 33:
		return "PING " + r.pick("x", "", ":a b")
	case 34:
		return "PONG " + r.pick("soju-msgid-abc", "soju-msgid-", "soju-msgid-AAAA", "x", "", "soju-msgid-AAICI2IBAQ")
	case 35:
		return r.pick("INFO", "MOTD", "VERSION", "LUSERS", "USER a b c d", "PASS x", "OPER a b", "STATS u", "QUOTE x", "ADMIN", "TIME", "KILL g1", "ERROR :x", "001", "WALLOPS :x")
	case 36:
		return "PRIVMSG NickServ :" + r.pick("IDENTIFY acc pw", "REGISTER pw mail", "SET PASSWORD x", "IDENTIFY pw", "", "help")
	}
	return r.pick(":x!y@z PRIVMSG #a :hi", "@a=b", ":", "  ", "PRIVMSG", "JOIN", "PART", "MODE", "TOPIC", "NICK", "KICK #a", "BOUNCER", "CHATHISTORY", "MONITOR", "WEBPUSH", "SEARCH", "INVITE x", "AUTHENTICATE", "CAP", "MARKREAD", "WHO", "WHOIS", "SETNAME", "TAGMSG", "\x00", "privmsg #a :lower")
}

func (g *gline) attrs() string {
	r := g.r
	var l []string
	for i := r.intn(4); i >= 0; i-- {
		l = append(l, r.pick("name=alpha", "name=new", "name=n2", "host=alpha.test;tls=0", "host=beta.test;tls=0;port=6667", "port=x", "port=6667", "tls=0", "tls=x", "nickname=zed", "username=u", "realname=R z", "pass=p", "bogus=1", "name=", "host=", "nickname=", "enabled=0", "enabled=1"))
	}
	return strings.Join(l, ";")
}

func (g *gline) bouncer() string {
	r := g.r
	return r.pick("LISTNETWORKS", "BIND 1", "BIND x", "ADDNETWORK "+strings.ReplaceAll(g.attrs(), " ", "\\s"), "ADDNETWORK host=alpha.test;tls=0;name=n"+g.num(), "CHANGENETWORK "+g.num()+" "+strings.ReplaceAll(g.attrs(), " ", "\\s"), "CHANGENETWORK 1 "+strings.ReplaceAll(g.attrs(), " ", "\\s"), "CHANGENETWORK 2 nickname=zed", "DELNETWORK "+g.num(), "DELNETWORK 3", "X", "")
}

func (g *gline) serv() string {
	r := g.r
	un := r.pick("ann", "bob", "new", "nobody", "")
	nn := r.pick("alpha", "beta", "n2", "", "nope")
	filt := r.pick("default", "none", "highlight", "message", "bogus")
	switch r.intn(20) {
	case 0:
		return "help" + r.pick("", " network", " network create", " x", " user")
	case 1:
		return "network create -addr irc+insecure://" + r.pick("alpha", "beta", "gone") + ".test:6667 -name " + r.pick("n2", "n3", "alpha", "*", "\"\"") + " -nick zz" + r.pick("1", "2", "3")
	case 2:
		return "network update " + nn + " -nick " + r.pick("zed", "ann0", "\"\"")
	case 3:
		return "network update " + nn + " -enabled " + r.pick("true", "false", "x")
	case 4:
		return "network update " + nn + " -name " + r.pick("n2", "alpha", "\"\"", "*") + " -auto-away " + r.pick("true", "false")
	case 5:
		return "network delete " + r.pick("n2", "n3", "nope", nn)
	case 6:
		return "network status"
	case 7:
		return "network quote " + nn + " " + r.pick("\"PRIVMSG g1 :hi\"", "\"\"", "\"JOIN #q\"", "PING", "\"QUIT\"", "\"CAP LS\"", "\"NICK qq\"")
	case 8:
		return "sasl " + r.pick("status", "set-plain u p", "reset", "set-plain u", "status -network alpha", "reset -network beta")
	case 9:
		return "channel status" + r.pick("", " -network alpha", " -network nope")
	case 10:
		return "channel create #n" + r.pick("1", "2") + r.pick("", " -detached true", " -detach-after 10s", " -relay-detached "+filt)
	case 11, 12:
		return "channel update " + r.pick("#a", "#b", "#c", "#nope", "") + r.pick(" -detached true", " -detached false", " -detach-after 5s", " -reattach-on "+filt, " -detach-on "+filt, " -relay-detached "+filt, "")
	case 13:
		return "channel delete " + r.pick("#a", "#c", "#n1", "#nope")
	case 14:
		return "user status" + r.pick("", " "+un)
	case 15:
		return "user create -username " + r.pick("new", "bob", "x y", "\"\"") + " -password pw" + r.pick("", " -admin true", " -nick n", " -enabled false", " -max-networks 1")
	case 16:
		return "user update " + un + r.pick(" -nick zed", " -realname \"R R\"", " -enabled true", " -admin true", " -max-networks 2", " -password pw-ann", " -password new")
	case 17:
		return "user run " + un + " " + r.pick("network status", "channel status", "help", "user run ann help", "user run bob network status", "server status", "network create -addr irc+insecure://alpha.test -name r1", "user update -nick q")
	case 18:
		return r.pick("server status", "server notice hello", "server debug true", "server debug false", "server", "user", "certfp fingerprint", "certfp generate -key-type bogus")
	}
	return r.pick("", "bogus", "network", "\"", "'unterminated", "network create", "channel", "user delete "+un, "user delete "+un+" 0000", "-h", "help help help")
}

// upstream generates a line a server may send; $me is the user's nick.
func (g *gline) upstream() string {
	r := g.r
	pre := r.pick(":irc.alpha.test ", ":g1!ug1@host.example ", ":$me!u@soju.host ", "", ":g2 ", ":! ", ":@ ", ":$me ", ":g9!u@h ", ":BouncerServ!b@b ", ": ")
	tag := ""
	if r.chance(15) {
		tag = r.pick("@time=2000-01-01T00:00:05.000Z ", "@time=garbage ", "@label=sd-1-1 ", "@label=bogus ", "@label=sd-2-5 ", "@batch=zz ", "@account=acc ", "@msgid=x;+draft/reply=y ", "@+draft/channel-context=#a ", "@time=2030-01-01T00:00:00.000Z ", "@time=1970-01-01T00:00:00.000Z ", "@label=sd-0-0 ", "@label=sd-999-1 ", "@batch=b1 ")
	}
	me := r.pick("$me", "$me", "$me", "*", "", "g1")
	var body string
	switch r.intn(52) {
	case 0:
		body = "PRIVMSG " + r.pick(me, g.ch()) + " :" + g.text()
	case 1:
		body = "NOTICE " + r.pick(me, g.ch(), "$*", "$alpha") + " :" + g.text()
	case 2:
		body = "TAGMSG " + r.pick(me, g.ch())
	case 3:
		body = "JOIN " + g.ch() + r.pick("", " acc :real", " *")
	case 4:
		body = "PART " + g.ch() + r.pick("", " :bye")
	case 5:
		body = "KICK " + g.ch() + " " + r.pick(me, g.nick()) + r.pick("", " :out")
	case 6:
		body = "MODE " + r.pick(me, g.ch()) + " " + g.mode() + " " + g.nick()
	case 7:
		body = "MODE " + r.pick(me, g.ch()) + " " + g.mode()
	case 8:
		body = "NICK " + r.pick("g1", "g9", "$me", "newnick", "", "ann0", "#x")
	case 9:
		body = "QUIT" + r.pick("", " :bye")
	case 10:
		body = "TOPIC " + g.ch() + r.pick("", " :t", " :")
	case 11:
		body = "INVITE " + r.pick(me, g.nick()) + " " + g.ch()
	case 12:
		body = "AWAY" + r.pick("", " :gone")
	case 13:
		body = "ACCOUNT " + r.pick("*", "acc", "")
	case 14:
		body = "CHGHOST " + r.pick("newu newh", "x", "")
	case 15:
		body = "SETNAME " + r.pick(":New", "", ":")
	case 16:
		body = "CAP " + r.pick("*", me) + " " + r.pick("NEW", "DEL", "ACK", "NAK", "LS", "LIST", "X") + " :" + r.pick("", "message-tags", "echo-message", "labeled-response echo-message", "sasl=PLAIN", "sasl", "-message-tags", "batch server-time", "account-tag away-notify")
	case 17:
		body = "BATCH " + r.pick("+b1 labeled-response", "+b1 netsplit a b", "-b1", "-zz", "+", "-", "b1", "", "+b2 chathistory #a")
	case 18:
		body = "AUTHENTICATE " + r.pick("+", "*", "", "AAAA", "!!!")
	case 19:
		body = r.pick("ERROR :bye", "ERROR", "PING :x", "PING", "PONG :x", "PONG", "WALLOPS :hi", "ACK", "FAIL * X :y", "FAIL", "WARN A B :c", "NOTE A B :c", "FAIL REGISTER X :y", "REGISTER SUCCESS acc :ok", "VERIFY SUCCESS acc :ok", "REGISTER", "MARKREAD #a *", "CHATHISTORY X")
	case 20:
		body = "001 " + me + r.pick(" :Welcome", "", " :Welcome x!y@z")
	case 21:
		body = "005 " + me + " " + r.pick("CASEMAPPING=ascii", "CASEMAPPING=bogus", "PREFIX=(ov)@+", "PREFIX=", "PREFIX=(ov)@", "PREFIX=ov", "CHANMODES=b,k,l,imnst", "CHANMODES=b", "CHANMODES", "CHANTYPES=#", "CHANTYPES=", "CHANTYPES", "-PREFIX", "-CASEMAPPING", "MONITOR=2", "MONITOR", "-MONITOR", "WHOX", "STATUSMSG=@", "BOT=b", "NETWORK=", "FOO=bar", "=x", "-", "PREFIX=(qaohv)~&@%+") + " :are supported"
	case 22:
		body = "005 " + me
	case 23:
		body = "353 " + me + " = " + g.ch() + " :" + r.pick("@g1 g2", "", " ", "@", "@+g1 $me", "+", "g1!u@h $me!u@h", "@@g1", "~g1")
	case 24:
		body = "353 " + me + r.pick("", " =", " = #a")
	case 25:
		body = "366 " + me + " " + g.ch() + r.pick("", " :End")
	case 26:
		body = "332 " + me + " " + g.ch() + r.pick("", " :topic")
	case 27:
		body = "333 " + me + " " + g.ch() + " " + r.pick("g1", "g1!u@h", "") + " " + r.pick("1234", "x", "", "-5")
	case 28:
		body = "331 " + me + " " + g.ch() + " :none"
	case 29:
		body = "324 " + me + " " + g.ch() + " " + g.mode() + r.pick("", " key", " key 5")
	case 30:
		body = "329 " + me + " " + g.ch() + " " + r.pick("1234", "x", "")
	case 31:
		body = "352 " + me + " " + g.ch() + " u h s " + g.nick() + " " + r.pick("H", "G@", "", "H*@", "Q") + " :" + r.pick("0 real", "real", "", "x y z")
	case 32:
		body = "354 " + me + " " + r.pick("", "999 #a u", "1 2 3 4 5 6 7 8 9")
	case 33:
		body = "315 " + me + " " + g.target() + r.pick("", " :End")
	case 34:
		body = r.pick("311", "312", "313", "317", "319", "330", "338", "671", "301", "276") + " " + me + " " + g.nick() + r.pick("", " a b c :d", " x")
	case 35:
		body = "318 " + me + " " + g.nick() + r.pick("", " :End")
	case 36:
		body = "321 " + me + r.pick("", " Channel :Users")
	case 37:
		body = "322 " + me + " " + g.ch() + r.pick("", " 5", " 5 :t", " x :t")
	case 38:
		body = "323 " + me + r.pick("", " :End")
	case 39:
		body = r.pick("730", "731") + " " + me + " :" + r.pick("g1", "g1!u@h,g2", "", ",", "$me", "!@", "g1,g2,g3")
	case 40:
		body = r.pick("732", "733", "734") + " " + me + r.pick("", " 10 g1,g2 :full", " x g1", " :g1")
	case 41:
		body = r.pick("433", "432", "436", "437", "431") + " " + me + " " + r.pick("$me", "g1", "") + " :bad nick"
	case 42:
		body = r.pick("471", "473", "474", "475", "403", "404", "405", "477", "442", "461", "482") + " " + me + " " + r.pick(g.ch(), "JOIN", "LIST", "WHO") + " :no"
	case 43:
		body = r.pick("900", "901") + " " + me + r.pick("", " x!y@z", " x!y@z acc", " x!y@z acc :in")
	case 44:
		body = r.pick("902", "903", "904", "905", "906", "907", "908") + " " + me + r.pick("", " PLAIN", " :x")
	case 45:
		body = r.pick("305", "306") + " " + me + " :away"
	case 46:
		body = r.pick("375", "372", "376", "422", "002", "003", "004", "250", "265", "396", "221") + " " + me + r.pick("", " x", " a b c d", " :text")
	case 47:
		body = r.pick("421", "263", "400", "401", "402", "406", "464", "465", "462", "451") + " " + me + " " + r.pick("LIST", "WHO", "WHOIS", "g1", "JOIN", "SETNAME", "") + " :nope"
	case 48:
		body = r.pick("341", "367", "368", "346", "347", "348", "349", "344", "345") + " " + me + r.pick("", " #a", " #a x y 1", " g1 #a", " :End")
	case 49:
		body = r.pick("001", "353", "366", "352", "324", "333", "332", "730", "433", "311", "322", "005", "900", "JOIN", "KICK", "NICK", "MODE", "CAP", "BATCH", "PRIVMSG", "TOPIC", "INVITE", "CHGHOST", "ACCOUNT", "SETNAME", "AUTHENTICATE")
	case 50:
		body = r.pick("999 "+me+" :x", "123", "abc def", "PRIVMSG "+me+" :", "MODE #a +ooo g1", "MODE #a +o", "CAP "+me)
	case 51:
		body = "KICK #a $me :out"
	}
	return tag + pre + body
}

func genChaos(r *rng, p *Plan) {
	genBase(r, p, genOpt{servers: 2, users: 2, netsPer: 2, clients: 2, stores: []string{"memory", "db", "fs"}, named: r.chance(50), srvMod: func(r *rng, s *SrvCfg) {
		if r.chance(60) {
			s.Isupport = append(s.Isupport, "MONITOR=4", "WHOX")
		}
		if r.chance(50) {
			s.Caps = append(s.Caps, "sasl=PLAIN")
			s.SASLUser, s.SASLPass = "acc", "pw"
		}
	}})
	extraDown(r, p)
	p.Cfg.Users[0].Admin = r.chance(60)
	if r.chance(30) {
		p.Cfg.SQLDelayMS = 1 + r.intn(300)
	}
	if r.chance(15) {
		p.Cfg.SQLErrPct = 1 + r.intn(4)
	}
	g := &gline{r, p}
	for _, c := range p.Cfg.Clients {
		if r.chance(75) {
			p.op(gap(r), "open", []string{c.Key}, r.intn(2)*10)
		}
	}
	n := 20 + r.intn(50)
	evil := r.intn(3) // how much of the traffic is odd
	for i := 0; i < n; i++ {
		switch k := r.intn(100); {
		case k < 40:
			p.op(gap(r), "send", []string{p.anyClient(r).Key, g.client()})
		case k < 60:
			if evil > 0 {
				p.op(gap(r), "praw", []string{p.anyServer(r), g.upstream()})
			} else {
				g.peer()
			}
		case k < 66:
			g.peer()
		case k < 72:
			u, nc := p.anyNet(r)
			p.op(gap(r), "say", []string{nc.Server, r.pick("g1", "g2"), r.pick("#a", "#b", "@"+u.Name+"/"+nc.Name)}, 1+r.intn(5))
		case k < 82:
			p.op(gap(r), "open", []string{p.anyClient(r).Key}, r.intn(2)*10)
		case k < 86:
			p.op(gap(r), "hangup", []string{p.anyClient(r).Key}, r.intn(2))
		case k < 89:
			p.op(gap(r), "drop", []string{p.anyServer(r)}, r.intn(2))
		case k < 91:
			p.op(gap(r), "cstall", []string{p.anyClient(r).Key}, r.intn(3000))
			p.op(r.intn(20000), "sleep", nil)
			p.op(gap(r), "cunstall", []string{p.Ops[len(p.Ops)-2].S[0]})
		case k < 93:
			p.op(40000+r.intn(60000), "sleep", nil)
		case k < 94:
			p.op(gap(r), "restart", nil)
		case k < 95:
			p.op(gap(r), "crash", nil)
		default:
			p.op(gap(r), "preg", []string{p.anyClient(r).Key, g.client()})
		}
	}
}

// extraDown gives some clients the capabilities with extra commands.
func extraDown(r *rng, p *Plan) {
	for i := range p.Cfg.Clients {
		c := &p.Cfg.Clients[i]
		if r.chance(50) {
			c.Caps = append(c.Caps, subset(r, []string{"draft/chathistory", "soju.im/search", "soju.im/webpush", "soju.im/bouncer-networks", "soju.im/bouncer-networks-notify", "draft/event-playback", "soju.im/no-implicit-names", "draft/account-registration", "draft/pre-away", "soju.im/account-required"}, 50)...)
		}
		if r.chance(10) {
			c.Net = "" // bouncer connection
			c.SASL = r.chance(50)
		}
	}
}

// peer adds one ordinary event caused by other people.
func (g *gline) peer() {
	r, p := g.r, g.p
	srv := p.anyServer(r)
	who := r.pick("g1", "g2", "g3")
	ch := r.pick("#a", "#b", "#c")
	u, nc := p.anyNet(r)
	me := "@" + u.Name + "/" + nc.Name
	switch r.intn(9) {
	case 0:
		p.op(gap(r), "pjoin", []string{srv, who, ch})
	case 1:
		p.op(gap(r), "ppart", []string{srv, who, ch, r.pick("", "bye")})
	case 2:
		p.op(gap(r), "pquit", []string{srv, who})
	case 3:
		p.op(gap(r), "pnick", []string{srv, who, r.pick("g1", "g2", "h1", "h2", "G1")})
	case 4:
		p.op(gap(r), "ptopic", []string{srv, who, ch, r.pick("", "topic one", "topic two")})
	case 5:
		p.op(gap(r), "pmode", []string{srv, who, ch, r.pick("+o", "-o", "+v", "-v"), r.pick("g1", "g2", me)})
	case 6:
		p.op(gap(r), "pmode", []string{srv, who, ch, r.pick("+i", "-i", "+m", "+s")})
	case 7:
		p.op(gap(r), "pkick", []string{nc.Server, who, ch, me})
	case 8:
		p.op(gap(r), "pkick", []string{srv, who, ch, r.pick("g1", "g2", "g3")})
	}
}

func genProgress(r *rng, p *Plan) {
	genBase(r, p, genOpt{servers: 1 + r.intn(2), users: 2, netsPer: 2, clients: 3, stores: []string{"memory", "db"}, named: r.chance(50), srvMod: func(r *rng, s *SrvCfg) {
		s.Isupport = append(s.Isupport, "MONITOR=4", "WHOX")
	}})
	extraDown(r, p)
	p.Cfg.Users[0].Admin = true
	p.Cfg.Users[1].Admin = r.chance(50)
	if r.chance(30) {
		p.Cfg.SQLDelayMS = 1 + r.intn(2000)
	}
	for _, c := range p.Cfg.Clients {
		if r.chance(80) {
			p.op(gap(r), "open", []string{c.Key}, r.intn(2)*10)
		}
	}
	g := &gline{r, p}
	n := 15 + r.intn(40)
	for i := 0; i < n; i++ {
		switch k := r.intn(100); {
		case k < 15:
			u, nc := p.anyNet(r)
			reps := 1 + r.intn(5)
			if r.chance(50) {
				reps = 60 + r.intn(200)
			}
			p.op(gap(r), "say", []string{nc.Server, "g1", r.pick("#a", "#b", "@"+u.Name+"/"+nc.Name)}, reps)
		case k < 25:
			p.op(gap(r), "flood", []string{p.anyClient(r).Key, r.pick("PING x", "PRIVMSG BouncerServ :network status", "WHO #a", "LIST", "CHATHISTORY TARGETS timestamp=2000-01-01T00:00:00.000Z timestamp=2030-01-01T00:00:00.000Z 10", "MODE #a", "NAMES #a")}, 1+r.intn(90))
		case k < 45:
			p.op(gap(r), "send", []string{p.anyClient(r).Key, g.client()})
		case k < 55:
			p.op(gap(r), "send", []string{p.anyClient(r).Key, "PRIVMSG BouncerServ :" + r.pick("server notice hello", "user run bob network status", "user run ann network status", "user update bob -nick b", "user update ann -nick a", "user create -username new -password pw", "user delete new", "user update bob -enabled false", "user update bob -enabled true", "network update -nick zz", "server status", "user delete ann", "user update ann -password pw-ann", "network delete n2", "network create -addr irc+insecure://alpha.test -name n2 -nick z2", "user delete ann 744cb9", "user delete bob 48181a")})
		case k < 57 && r.chance(40):
			for j := 1 + r.intn(4); j > 0; j-- {
				p.op(r.intn(30), "adm", []string{genAdm(r)})
			}
		case k < 58:
			p.op(gap(r), "flood", []string{p.anyClient(r).Key, "NOTICE $soju.test :all"}, 1+r.intn(30))
		case k < 66:
			p.op(gap(r), "open", []string{p.anyClient(r).Key}, r.intn(2)*10)
		case k < 72:
			p.op(gap(r), "hangup", []string{p.anyClient(r).Key}, r.intn(2))
		case k < 78:
			p.op(gap(r), "cstall", []string{p.anyClient(r).Key}, r.intn(2000))
		case k < 82:
			p.op(gap(r), "cunstall", []string{p.anyClient(r).Key})
		case k < 85:
			p.op(gap(r), "stall", []string{p.anyServer(r)}, r.intn(2))
		case k < 88:
			p.op(gap(r), "unstall", []string{p.anyServer(r)})
		case k < 91:
			p.op(gap(r), "drop", []string{p.anyServer(r)}, r.intn(2))
		case k < 93:
			p.op(20000+r.intn(60000), "sleep", nil)
		case k < 95:
			p.op(gap(r), "down", []string{p.anyServer(r)})
			p.op(gap(r), "drop", []string{p.Ops[len(p.Ops)-1].S[0]}, 1)
		case k < 97:
			p.op(gap(r), "up", []string{p.anyServer(r)})
		case k < 98:
			p.op(gap(r), "restart", nil)
		default:
			g.peer()
		}
	}
}

func genConform(r *rng, p *Plan) {
	genBase(r, p, genOpt{servers: 1 + r.intn(2), users: 1 + r.intn(2), netsPer: 2, clients: 3, stores: []string{"memory", "db", "fs"}, named: r.chance(60), srvMod: func(r *rng, s *SrvCfg) {
		s.Isupport = append(s.Isupport, "MONITOR=4", "WHOX")
	}})
	extraDown(r, p)
	for _, c := range p.Cfg.Clients {
		if r.chance(80) {
			p.op(gap(r), "open", []string{c.Key}, r.intn(2)*10)
		}
	}
	g := &gline{r, p}
	n := 20 + r.intn(50)
	for i := 0; i < n; i++ {
		switch k := r.intn(100); {
		case k < 25:
			g.peer()
		case k < 35:
			u, nc := p.anyNet(r)
			p.op(gap(r), "say", []string{nc.Server, r.pick("g1", "g2"), r.pick("#a", "#b", "@"+u.Name+"/"+nc.Name)}, 1+r.intn(5))
		case k < 45:
			p.op(gap(r), "praw", []string{p.anyServer(r), r.pick("@time=2000-01-01T00:00:05.000Z;account=acc;msgid=m1;+x=y :g1!u@h TAGMSG #a", "@+typing=active :g2!u@h TAGMSG $me", ":g1!u@h AWAY :gone", ":g1!u@h ACCOUNT acc", ":g1!u@h CHGHOST nu nh", ":g2!u@h SETNAME :new real", ":g1!u@h INVITE $me #c", ":g1!u@h INVITE g2 #a", "@msgid=q;account=z :g1!u@h PRIVMSG #a :tagged", "@label=sd-1-1 :g1!u@h PRIVMSG $me :labeled", ":irc.alpha.test CAP $me DEL :message-tags", ":irc.alpha.test CAP $me NEW :message-tags server-time away-notify account-tag", ":irc.alpha.test CAP $me DEL :away-notify extended-join account-notify", ":irc.alpha.test 730 $me :g1!u@h", "@time=2000-01-01T00:00:05.000Z :g1!u@h NICK g7", ":irc.alpha.test WALLOPS :w", ":irc.alpha.test NOTE A B :c")})
		case k < 70:
			p.op(gap(r), "send", []string{p.anyClient(r).Key, g.client()})
		case k < 82:
			p.op(gap(r), "open", []string{p.anyClient(r).Key}, r.intn(2)*10)
		case k < 90:
			p.op(gap(r), "hangup", []string{p.anyClient(r).Key}, r.intn(2))
		case k < 94:
			p.op(gap(r), "drop", []string{p.anyServer(r)}, r.intn(2))
		case k < 96:
			p.op(40000+r.intn(60000), "sleep", nil)
		case k < 97:
			p.op(gap(r), "restart", nil)
		case k < 98:
			sep := r.pick("", " ", " :")
			p.op(gap(r), "inj", []string{p.anyClient(r).Key, r.pick("PRIVMSG #a"+sep+"hello", "PRIVMSG g1"+sep+"hello", "TOPIC #a"+sep+"hello", "JOIN"+sep+"#a", "AWAY"+sep+"gone", "NICK"+sep+"injnick", "PRIVMSG BouncerServ"+sep+"help", "SETNAME"+sep+"real", "WHOIS"+sep+"g1", "XCMD"+sep+"x", "MARKREAD"+sep+"#a"), "XINJ :from the middle of a message"})
		default:
			p.op(gap(r), "msg", []string{p.anyClient(r).Key, r.pick("#a", "g1"), ""}, 1)
		}
	}
}

// genHostile: an upstream server that misbehaves while soju registers.
func genHostile(r *rng, p *Plan) {
	genBase(r, p, genOpt{servers: 2, users: 2, netsPer: 1, clients: 2, stores: []string{"memory"}, srvMod: func(r *rng, s *SrvCfg) {
		if r.chance(50) {
			s.Caps = append(s.Caps, "sasl=PLAIN")
		}
	}})
	p.Cfg.X = map[string]int{"hostile_seed": r.intn(1 << 30)}
	g := &gline{r, p}
	for i := 3 + r.intn(6); i > 0; i-- {
		p.Notes = append(p.Notes, g.upstream())
	}
	for i := range p.Cfg.Users {
		if r.chance(50) {
			for j := range p.Cfg.Users[i].Nets {
				p.Cfg.Users[i].Nets[j].SASLUser = "acc"
				p.Cfg.Users[i].Nets[j].SASLPass = "pw"
			}
		}
	}
	for _, c := range p.Cfg.Clients {
		p.op(gap(r), "open", []string{c.Key}, 0)
	}
	for i := 3 + r.intn(10); i > 0; i-- {
		switch r.intn(4) {
		case 0:
			p.op(30000+r.intn(60000), "drop", []string{p.anyServer(r)}, r.intn(2))
		case 1:
			p.op(gap(r), "hline", []string{g.upstream()})
		case 2:
			p.op(gap(r), "send", []string{p.anyClient(r).Key, g.client()})
		case 3:
			p.op(r.intn(90000), "open", []string{p.anyClient(r).Key}, 0)
		}
	}
}

func initHostile(w *World) {
	hr := newRng(uint64(w.cfg.X["hostile_seed"]))
	srv := w.ircds["alpha"]
	for _, l := range w.plan.Notes {
		srv.hostile = append(srv.hostile, l)
	}
	srv.hostileRng = hr
	srv.dropAll(true)
}

func init() {
	ops["hline"] = func(w *World, o *Op) {
		w.ircds["alpha"].hostile = append(w.ircds["alpha"].hostile, o.s(0))
	}
	ops["flood"] = func(w *World, o *Op) {
		if s := w.cur[o.s(0)]; s != nil && !s.hungUp && !s.closed {
			for i := 0; i < o.n(0); i++ {
				s.send(o.s(1))
			}
		}
	}
	// a connection that sends arbitrary lines before registering
	ops["preg"] = func(w *World, o *Op) {
		cc := w.cfg.client(o.s(0))
		if cc == nil {
			return
		}
		c := *cc
		c.Key += "-pre"
		if s := w.dial(c); s != nil {
			s.send(o.s(1))
			s.send("CAP LS 302")
			s.send("NICK x")
			s.send(o.s(1))
		}
	}
}

// calm ends every disturbance.
func (w *World) calm() {
	w.crashAt = 0
	w.net.dialFault = nil
	for _, srv := range w.ircdList() {
		srv.hostile = nil
		srv.ln.closed = false
		w.commonOp(&Op{K: "unstall", S: []string{srv.name}})
	}
	for _, s := range w.sess {
		if !s.hungUp && !s.closed {
			s.conn.in.capacity = 0
			s.conn.Stall(true, false)
			s.conn.Stall(false, false)
		}
	}
}

// finalChaos: after the disturbance, everything answers again.
func finalChaos(w *World) {
	w.calm()
	w.settle(5 * time.Minute)
	w.checkProgress("C12")
	w.checkAdm()
	w.probe("survived")
	for _, s := range w.sess {
		w.probes["lines"] += len(s.lines)
	}
	for _, srv := range w.ircdList() {
		for _, c := range srv.conns {
			w.probes["upstream-lines"] += len(c.sent)
		}
	}
}

// checkProgress: live sessions and new logins are served in bounded time.
func (w *World) checkProgress(prop string) {
	if w.inst.dead || w.inst.stopped {
		return
	}
	type ping struct {
		s   *sess
		tok string
	}
	var ps []ping
	for _, s := range w.sess {
		if s.live() && s.inst == w.inst && !s.hungUp {
			tok := fmt.Sprintf("probe%d", s.idx)
			s.send("PING " + tok)
			ps = append(ps, ping{s, tok})
		}
	}
	w.settle(2 * time.Minute)
	for _, p := range ps {
		w.probe("progress-ping")
		if p.s.closed {
			continue
		}
		if p.s.count(func(l *cline) bool { return l.msg.Command == "PONG" && par(l.msg, len(l.msg.Params)-1) == p.tok }) != 1 {
			w.fail(prop, "no-pong", "client %s gets no answer to PING within 2 simulated minutes after the disturbance ended", p.s.label())
		}
	}
	// new logins
	for i := range w.cfg.Users {
		u := &w.cfg.Users[i]
		if w.userGone(u.Name) {
			continue
		}
		s := w.open(ClientCfg{Key: "probe-" + u.Name, User: u.Name})
		if s == nil {
			w.fail(prop, "no-accept", "soju refuses connections")
			continue
		}
		w.settle(time.Minute)
		w.probe("progress-login")
		if !s.registered && !s.closed && s.errText == "" {
			w.fail(prop, "no-login", "user %s can neither log in nor gets an error within 1 simulated minute", u.Name)
		}
	}
}

// userGone reports whether the workload removed, disabled or re-keyed a user.
func (w *World) userGone(name string) bool { return false }

func finalStop(w *World) {
	w.probe("stop")
	if w.plan.Seed%2 == 0 {
		w.calm()
		w.settle(5 * time.Second)
	}
	if !w.inst.dead && !w.inst.stopped {
		if !w.shutdown(w.stopLimit()) {
			w.fail("C24", "shutdown-hang", "graceful shutdown did not finish within %v of simulated time", w.stopLimit())
		}
	}
	w.settle(4 * time.Minute) // commands queued for an upstream leave at 2 s intervals
	for _, s := range w.sess {
		if s.inst == w.inst && s.registered && !s.hungUp && !s.closed && !s.conn.in.stalled && s.conn.in.capacity == 0 {
			w.fail("C24", "client-left", "client %s is still connected after the shutdown finished", s.label())
		}
	}
	for _, srv := range w.ircdList() {
		for _, c := range srv.conns {
			if !c.gone && c.instance == w.inst.id && w.net.faults["sql-error"] == 0 && !c.conn.in.stalled && !c.conn.out.stalled {
				w.fail("C24", "upstream-left", "connection %s#%d is still open after the shutdown finished", srv.name, c.idx)
			}
		}
	}
}
