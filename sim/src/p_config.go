package main

import (
	"context"
	"fmt"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/crypto/bcrypt"
	"gopkg.in/irc.v4"

	"codeberg.org/emersion/soju/database"
)

// Property C08: acknowledged configuration changes are durable and atomic,
// refused ones have no effect, and what soju uses is what it saved.
func init() {
	register(&profile{name: "config", prop: "C08", gen: genConfig, init: initConfig, op: opConfig, final: finalConfig})
}

type cmodel map[string]string

func (m cmodel) clone() cmodel {
	o := cmodel{}
	for k, v := range m {
		o[k] = v
	}
	return o
}

func (m cmodel) drop(prefix string) {
	for k := range m {
		if k == prefix || strings.HasPrefix(k, prefix+"/") {
			delete(m, k)
		}
	}
}

func (m cmodel) rename(from, to string) {
	if from == to {
		return
	}
	for _, k := range sortedKeys(m) {
		if k == from || strings.HasPrefix(k, from+"/") {
			m[to+k[len(from):]] = m[k]
			delete(m, k)
		}
	}
}

func (m cmodel) equal(o cmodel) bool { return m.diff(o) == "" }

func (m cmodel) diff(o cmodel) string {
	var l []string
	for k, v := range m {
		if w, ok := o[k]; !ok {
			l = append(l, fmt.Sprintf("%s=%q missing", k, v))
		} else if v != w {
			l = append(l, fmt.Sprintf("%s=%q, not %q", k, w, v))
		}
	}
	for k, v := range o {
		if _, ok := m[k]; !ok {
			l = append(l, fmt.Sprintf("%s=%q unexpected", k, v))
		}
	}
	sort.Strings(l)
	if len(l) > 6 {
		l = append(l[:6], "...")
	}
	return strings.Join(l, "; ")
}

var cfgPasswords = []string{"new1", "new 2", "pw-ann", "pw-bob", "pw-cat", "pw-dan"}

type cfgState struct {
	m       cmodel
	pw      map[string]string // hash -> plain text
	tainted bool              // a channel command could not be saved
	fired   bool              // a storage error was injected during the step
}

func (w *World) cfgst() *cfgState { return w.x["cfg"].(*cfgState) }

func initConfig(w *World) {
	st := &cfgState{pw: map[string]string{}}
	w.x["cfg"] = st
	st.m = w.cfgDB()
}

func bs(b bool) string { return strconv.FormatBool(b) }

// cfgDB reads the saved configuration.
func (w *World) cfgDB() cmodel {
	st := w.cfgst()
	m := cmodel{}
	ctx := context.Background()
	users, err := w.inst.db.ListUsers(ctx)
	if err != nil {
		w.fail("C08", "unreadable", "the saved users can't be read: %v", err)
	}
	for _, u := range users {
		k := "u/" + u.Username
		m[k] = "1"
		m[k+"/nick"], m[k+"/realname"], m[k+"/admin"], m[k+"/enabled"], m[k+"/max"] = u.Nick, u.Realname, bs(u.Admin), bs(u.Enabled), fmt.Sprint(u.MaxNetworks)
		if u.Password != "" {
			p, ok := st.pw[u.Password]
			if !ok {
				for _, c := range cfgPasswords {
					if bcrypt.CompareHashAndPassword([]byte(u.Password), []byte(c)) == nil {
						p = c
					}
				}
				st.pw[u.Password] = p
			}
			m[k+"/pw"] = p
		} else {
			m[k+"/pw"] = ""
		}
		nets, err := w.inst.db.ListNetworks(ctx, u.ID)
		if err != nil {
			w.fail("C08", "unreadable", "the saved networks can't be read: %v", err)
		}
		for _, n := range nets {
			k := "n/" + u.Username + "/" + n.GetName()
			if m[k] != "" {
				w.fail("C08", "duplicate-network", "%s has two networks named %q", u.Username, n.GetName())
			}
			m[k] = "1"
			m[k+"/addr"], m[k+"/nick"], m[k+"/username"], m[k+"/realname"], m[k+"/pass"] = n.Addr, n.Nick, n.Username, n.Realname, n.Pass
			m[k+"/cmds"], m[k+"/certfp"] = strings.Join(n.ConnectCommands, "|"), n.CertFP
			m[k+"/autoaway"], m[k+"/enabled"] = bs(n.AutoAway), bs(n.Enabled)
			m[k+"/sasl"] = n.SASL.Mechanism + ":" + n.SASL.Plain.Username + ":" + n.SASL.Plain.Password
			chans, err := w.inst.db.ListChannels(ctx, n.ID)
			if err != nil {
				w.fail("C08", "unreadable", "the saved channels can't be read: %v", err)
			}
			for _, ch := range chans {
				k := "c/" + u.Username + "/" + n.GetName() + "/" + ch.Name
				m[k] = "1"
				m[k+"/key"], m[k+"/detached"] = ch.Key, bs(ch.Detached)
				m[k+"/relay"], m[k+"/reattach"], m[k+"/detachon"] = filterName(ch.RelayDetached), filterName(ch.ReattachOn), filterName(ch.DetachOn)
				m[k+"/after"] = ch.DetachAfter.String()
			}
		}
	}
	return m
}

func filterName(f database.MessageFilter) string {
	switch f {
	case database.FilterDefault:
		return "default"
	case database.FilterNone:
		return "none"
	case database.FilterHighlight:
		return "highlight"
	case database.FilterMessage:
		return "message"
	}
	return "?"
}

// ccmd is one configuration command.
type ccmd struct {
	line  string
	apply func(m cmodel) cmodel // nil: no change
	// verdict: 1 must succeed, 0 must be refused, 2 either
	verdict func(m cmodel) int
	loose   bool // an error may leave the change in place (several records)
	echo    string
}

func quoteArg(s string) string {
	return `"` + strings.ReplaceAll(strings.ReplaceAll(s, `\`, `\\`), `"`, `\"`) + `"`
}

func kvs(l []string) (out [][2]string) {
	for _, s := range l {
		k, v, _ := strings.Cut(s, "=")
		out = append(out, [2]string{k, v})
	}
	return
}

func flagsLine(l []string) string {
	s := ""
	for _, kv := range kvs(l) {
		s += " " + quoteArg("-"+kv[0]+"="+kv[1])
	}
	return s
}

var netFlagKey = map[string]string{"addr": "addr", "nick": "nick", "username": "username", "pass": "pass", "realname": "realname", "auto-away": "autoaway", "enabled": "enabled", "connect-command": "cmds", "certfp": "certfp", "name": "name"}
var chanFlagKey = map[string]string{"detached": "detached", "relay-detached": "relay", "reattach-on": "reattach", "detach-on": "detachon", "detach-after": "after"}
var userFlagKey = map[string]string{"nick": "nick", "realname": "realname", "admin": "admin", "enabled": "enabled", "max-networks": "max", "password": "pw"}

// flagsOK tells whether soju must accept these flag values.
func flagsOK(l []string) bool {
	ncmds := 0
	for _, kv := range kvs(l) {
		k, v := kv[0], kv[1]
		switch k {
		case "addr":
			if strings.HasPrefix(v, "gopher:") || strings.Contains(v, "/path") || v == "" {
				return false
			}
		case "name":
			if v == "*" || strings.HasPrefix(v, "-") {
				return false
			}
		case "enabled", "auto-away", "detached", "admin":
			if v != "true" && v != "false" {
				return false
			}
		case "relay-detached", "reattach-on", "detach-on":
			if v == "bogus" {
				return false
			}
		case "detach-after":
			if v != "0s" && v != "100h0m0s" && v != "200h0m0s" {
				return false
			}
		case "connect-command":
			if ncmds++; ncmds > 20 {
				return false
			}
		case "certfp":
			h := strings.ToLower(strings.ReplaceAll(v, ":", ""))
			if strings.Trim(h, "0123456789abcdef") != "" || len(h) != 0 && len(h) != 64 && len(h) != 128 {
				return false
			}
		case "bogus":
			return false
		case "max-networks":
			if _, err := strconv.Atoi(v); err != nil {
				return false
			}
		}
	}
	return true
}

func applyFlags(m cmodel, base string, keys map[string]string, l []string) {
	cmds, gotCmds := []string(nil), false
	for _, kv := range kvs(l) {
		k := keys[kv[0]]
		switch k {
		case "", "name":
		case "certfp":
			h := strings.ToLower(strings.ReplaceAll(kv[1], ":", ""))
			if h != "" {
				h = map[int]string{64: "sha-256:", 128: "sha-512:"}[len(h)] + h
			}
			m[base+"/certfp"] = h
		case "cmds":
			gotCmds = true
			if kv[1] != "" {
				cmds = append(cmds, kv[1])
			}
		default:
			m[base+"/"+k] = kv[1]
		}
	}
	if gotCmds {
		m[base+"/cmds"] = strings.Join(cmds, "|")
	}
}

func newNet(m cmodel, base, addr string) {
	m[base] = "1"
	for _, k := range []string{"nick", "username", "realname", "pass", "cmds", "certfp"} {
		m[base+"/"+k] = ""
	}
	m[base+"/addr"], m[base+"/autoaway"], m[base+"/enabled"], m[base+"/sasl"] = addr, "true", "true", "::"
}

func newChan(m cmodel, base string) {
	m[base] = "1"
	m[base+"/key"], m[base+"/detached"], m[base+"/after"] = "", "false", "0s"
	for _, k := range []string{"relay", "reattach", "detachon"} {
		m[base+"/"+k] = "default"
	}
}

func flagVal(l []string, k string) (string, bool) {
	for _, kv := range kvs(l) {
		if kv[0] == k {
			return kv[1], true
		}
	}
	return "", false
}

func verdictOf(ok bool) int { return b2i(ok) }

// clashes: two networks of a user with the same address and nickname, which
// soju refuses.
func (m cmodel) clashes() bool {
	seen := map[string]bool{}
	for k := range m {
		if f := strings.Split(k, "/"); len(f) == 3 && f[0] == "n" && m[k+"/nick"] != "" {
			id := f[1] + " " + m[k+"/addr"] + " " + m[k+"/nick"]
			if seen[id] {
				return true
			}
			seen[id] = true
		}
	}
	return false
}

// cfgCmd builds a command. user is the user it is about; as the one asking.
func (w *World) cfgCmd(s *sess, as, user string, a []string) *ccmd {
	c := &ccmd{}
	arg := func(i int) string {
		if i < len(a) {
			return a[i]
		}
		return ""
	}
	rest := func(i int) []string {
		if i < len(a) {
			return a[i:]
		}
		return nil
	}
	netKey := "n/" + user + "/" + arg(1)
	serv := func(line string) string {
		if user != as {
			line = "user run " + user + " " + line
		}
		return "PRIVMSG BouncerServ :" + line
	}
	may := func(f func(m cmodel) bool) func(m cmodel) int {
		return func(m cmodel) int {
			if user != as && (m["u/"+as+"/admin"] != "true" || m["u/"+user] == "") {
				return 0
			}
			return verdictOf(f(m))
		}
	}
	switch a[0] {
	case "net.create":
		fl := rest(2)
		c.line = serv("network create " + quoteArg("-name="+arg(1)) + flagsLine(fl))
		addr, _ := flagVal(fl, "addr")
		c.verdict = may(func(m cmodel) bool { return flagsOK(fl) && addr != "" && m[netKey] == "" })
		c.apply = func(m cmodel) cmodel { newNet(m, netKey, addr); applyFlags(m, netKey, netFlagKey, fl); return m }
	case "net.update":
		fl := rest(2)
		c.line = serv("network update " + quoteArg(arg(1)) + flagsLine(fl))
		name, ren := flagVal(fl, "name")
		c.verdict = may(func(m cmodel) bool {
			return flagsOK(fl) && m[netKey] != "" && (!ren || name == arg(1) || m["n/"+user+"/"+name] == "")
		})
		c.apply = func(m cmodel) cmodel {
			applyFlags(m, netKey, netFlagKey, fl)
			if ren {
				m.rename(netKey, "n/"+user+"/"+name)
				m.rename("c/"+user+"/"+arg(1), "c/"+user+"/"+name)
			}
			return m
		}
	case "net.delete":
		c.line = serv("network delete " + quoteArg(arg(1)))
		c.verdict = may(func(m cmodel) bool { return m[netKey] != "" })
		c.apply = func(m cmodel) cmodel { m.drop(netKey); m.drop("c/" + user + "/" + arg(1)); return m }
	case "sasl.set":
		c.line = serv("sasl set-plain -network " + quoteArg(arg(1)) + " " + quoteArg(arg(2)) + " " + quoteArg(arg(3)))
		c.verdict = may(func(m cmodel) bool { return m[netKey] != "" })
		c.apply = func(m cmodel) cmodel { m[netKey+"/sasl"] = "PLAIN:" + arg(2) + ":" + arg(3); return m }
	case "sasl.reset":
		c.line = serv("sasl reset -network " + quoteArg(arg(1)))
		c.verdict = may(func(m cmodel) bool { return m[netKey] != "" })
		c.apply = func(m cmodel) cmodel { m[netKey+"/sasl"] = "::"; return m }
	case "chan.create", "chan.update", "chan.delete":
		fl := rest(3)
		key := "c/" + user + "/" + arg(1) + "/" + arg(2)
		full := arg(2) + "/" + arg(1)
		if s.cfg.Net != "" && user == as {
			full = arg(2)
		}
		switch a[0] {
		case "chan.create":
			c.line = serv("channel create " + quoteArg(full) + flagsLine(fl))
			c.verdict = may(func(m cmodel) bool { return flagsOK(fl) && m[netKey] != "" && m[key] == "" })
			c.apply = func(m cmodel) cmodel { newChan(m, key); applyFlags(m, key, chanFlagKey, fl); return m }
		case "chan.update":
			c.line = serv("channel update " + quoteArg(full) + flagsLine(fl))
			c.verdict = may(func(m cmodel) bool { return flagsOK(fl) && m[netKey] != "" && m[key] != "" })
			c.apply = func(m cmodel) cmodel { applyFlags(m, key, chanFlagKey, fl); return m }
		case "chan.delete":
			c.line = serv("channel delete " + quoteArg(full))
			c.verdict = may(func(m cmodel) bool { return m[netKey] != "" && m[key] != "" })
			c.apply = func(m cmodel) cmodel { m.drop(key); return m }
		}
	case "user.create":
		fl := rest(2)
		key := "u/" + arg(1)
		c.line = "PRIVMSG BouncerServ :user create " + quoteArg("-username="+arg(1)) + flagsLine(fl)
		c.verdict = func(m cmodel) int {
			return verdictOf(flagsOK(fl) && m["u/"+as+"/admin"] == "true" && m[key] == "")
		}
		c.apply = func(m cmodel) cmodel {
			m[key] = "1"
			m[key+"/nick"], m[key+"/realname"], m[key+"/admin"], m[key+"/enabled"], m[key+"/max"], m[key+"/pw"] = "", "", "false", "true", "-1", ""
			applyFlags(m, key, userFlagKey, fl)
			return m
		}
	case "user.update":
		fl := rest(2)
		key := "u/" + arg(1)
		name := arg(1)
		c.line = "PRIVMSG BouncerServ :user update " + quoteArg(name) + flagsLine(fl)
		_, hasNick := flagVal(fl, "nick")
		_, hasReal := flagVal(fl, "realname")
		_, hasAdmin := flagVal(fl, "admin")
		_, hasEn := flagVal(fl, "enabled")
		_, hasMax := flagVal(fl, "max-networks")
		c.loose = hasReal || hasEn
		c.verdict = func(m cmodel) int {
			if !flagsOK(fl) {
				return 0
			}
			if name == as {
				return verdictOf(!hasAdmin && !hasEn && (!hasMax || m["u/"+as+"/admin"] == "true"))
			}
			return verdictOf(m["u/"+as+"/admin"] == "true" && m[key] != "" && !hasNick && !hasReal)
		}
		c.apply = func(m cmodel) cmodel { applyFlags(m, key, userFlagKey, fl); return m }
	case "user.delete":
		name := arg(1)
		c.line = "PRIVMSG BouncerServ :user delete " + name + " " + map[string]string{"ann": "744cb9", "bob": "48181a", "cat": "9d989e", "dan": "2591e5"}[name]
		c.verdict = func(m cmodel) int {
			return verdictOf(m["u/"+name] != "" && name != as && m["u/"+as+"/admin"] == "true")
		}
		c.apply = func(m cmodel) cmodel { m.drop("u/" + name); m.drop("n/" + name); m.drop("c/" + name); return m }
	case "b.add", "b.change", "b.del":
		fl := rest(2)
		attrs := irc.Tags{}
		bad := false
		for _, kv := range kvs(fl) {
			attrs[kv[0]] = kv[1]
			bad = bad || kv[0] == "bogus" || kv[0] == "host" && kv[1] == ""
		}
		set := func(m cmodel, base string) {
			for _, kv := range kvs(fl) {
				switch kv[0] {
				case "nickname":
					m[base+"/nick"] = kv[1]
				case "username", "realname", "pass":
					m[base+"/"+kv[0]] = kv[1]
				}
			}
			if h, ok := attrs["host"]; ok {
				port := "6667"
				if strings.HasSuffix(m[base+"/addr"], ":1") {
					port = "1" // not given: stays
				}
				m[base+"/addr"] = "irc+insecure://" + string(h) + ":" + port
			}
		}
		id := int64(999)
		if u, err := w.inst.db.GetUser(context.Background(), user); err == nil && a[0] != "b.add" {
			nets, _ := w.inst.db.ListNetworks(context.Background(), u.ID)
			for _, n := range nets {
				if n.GetName() == arg(1) {
					id = n.ID
				}
			}
		}
		switch a[0] {
		case "b.add":
			attrs["name"], attrs["port"], attrs["tls"] = arg(1), "6667", "0"
			_, hasNick := attrs["nickname"]
			nick := s.nick
			c.line = "BOUNCER ADDNETWORK " + attrs.String()
			c.verdict = func(m cmodel) int { return verdictOf(!bad && m[netKey] == "" && attrs["host"] != "") }
			c.apply = func(m cmodel) cmodel {
				newNet(m, netKey, "")
				if !hasNick && nick != user {
					m[netKey+"/nick"] = nick
				}
				set(m, netKey)
				return m
			}
		case "b.change":
			if name, ok := attrs["name"]; ok {
				to := "n/" + user + "/" + string(name)
				c.verdict = func(m cmodel) int {
					return verdictOf(!bad && m[netKey] != "" && (to == netKey || m[to] == ""))
				}
				c.apply = func(m cmodel) cmodel {
					set(m, netKey)
					m.rename(netKey, to)
					m.rename("c/"+user+"/"+arg(1), "c/"+user+"/"+string(name))
					return m
				}
			} else {
				c.verdict = func(m cmodel) int { return verdictOf(!bad && m[netKey] != "") }
				c.apply = func(m cmodel) cmodel { set(m, netKey); return m }
			}
			c.line = fmt.Sprintf("BOUNCER CHANGENETWORK %d %s", id, attrs.String())
		case "b.del":
			c.line = fmt.Sprintf("BOUNCER DELNETWORK %d", id)
			c.verdict = func(m cmodel) int { return verdictOf(m[netKey] != "") }
			c.apply = func(m cmodel) cmodel { m.drop(netKey); m.drop("c/" + user + "/" + arg(1)); return m }
		}
	case "join", "part", "detach":
		// from a client bound to a network: the network's confirmation counts
		key := "c/" + user + "/" + s.cfg.Net + "/" + arg(1)
		switch a[0] {
		case "join":
			c.line = "JOIN " + arg(1) + " " + arg(2)
			c.apply = func(m cmodel) cmodel {
				if m[key] == "" {
					newChan(m, key)
				}
				if arg(2) != "" {
					m[key+"/key"] = arg(2)
				}
				m[key+"/detached"] = "false"
				return m
			}
		case "part":
			c.line = "PART " + arg(1)
			c.apply = func(m cmodel) cmodel { m.drop(key); return m }
		case "detach":
			c.line = "PART " + arg(1) + " :detach"
			c.apply = func(m cmodel) cmodel {
				if m[key] == "" {
					newChan(m, key)
				}
				m[key+"/detached"] = "true"
				return m
			}
		}
		c.echo = arg(1)
	default:
		return nil
	}
	return c
}

// cfgSession returns a logged-in session of a configured client.
func (w *World) cfgSession(key string) *sess {
	if s := w.cur[key]; s != nil && s.aliveNow() {
		return s
	}
	cc := w.cfg.client(key)
	if cc == nil {
		return nil
	}
	if s := w.cur[key]; s != nil {
		s.hangup(false)
	}
	c := *cc
	m := w.cfgst().m
	c.Pass = m["u/"+c.User+"/pw"]
	if c.Pass == "" || m["u/"+c.User+"/enabled"] != "true" || c.Net != "" && m["n/"+c.User+"/"+c.Net] == "" {
		return nil
	}
	s := w.open(c)
	if s == nil || !s.waitReady(20*time.Second) {
		return nil
	}
	return s
}

func opConfig(w *World, o *Op) bool {
	if o.K != "cfg" {
		return false
	}
	// S: client, subject user, then commands separated by "|"
	// N: mode (0 plain, 1 crash at a statement, 2 storage error at a
	// statement, 3 crash after some time), parameter
	st := w.cfgst()
	s := w.cfgSession(o.s(0))
	if s == nil {
		return true
	}
	as := s.cfg.User
	user := o.s(1)
	if user == "" {
		user = as
	}
	var cmds []*ccmd
	var cur []string
	echoes := false
	flush := func() {
		if len(cur) > 0 && !(len(cmds) > 0 && (cur[0] == "b.change" || cur[0] == "b.del")) {
			if c := w.cfgCmd(s, as, user, cur); c != nil && !(c.echo != "" && echoes) {
				cmds = append(cmds, c)
				echoes = echoes || c.echo != ""
			}
		}
		cur = nil
	}
	for _, x := range o.S[2:] {
		if x == "|" {
			flush()
			continue
		}
		cur = append(cur, x)
	}
	flush()
	inst := w.inst
	st.fired = false
	mode := o.n(0)
	switch mode {
	case 1:
		w.crashAt = 1 + o.n(1)
	case 2:
		n := o.n(1)
		w.sqlHook = func(op, query string) error {
			if n--; n == -1 {
				st.fired = true
				return simSQLError{"disk I/O error (injected)"}
			}
			return nil
		}
	}
	from := len(s.lines)
	tok := fmt.Sprintf("cfg%d-", w.opIdx)
	for i, c := range cmds {
		s.send(c.line)
		s.send(fmt.Sprintf("PING %s%d", tok, i))
	}
	if mode == 3 {
		time.Sleep(time.Duration(o.n(1)) * time.Microsecond)
		w.crash()
	}
	last := fmt.Sprintf("%s%d", tok, len(cmds)-1)
	end := time.Now().Add(40 * time.Second)
	for time.Now().Before(end) && !s.closed && w.inst == inst {
		if s.count(func(l *cline) bool { return l.msg.Command == "PONG" && par(l.msg, 1) == last }) > 0 {
			break
		}
		time.Sleep(200 * time.Millisecond)
	}
	w.sqlHook = nil
	w.crashAt = 0
	if w.inst != inst || inst.dead {
		for i := 0; i < 100 && (w.inst == inst || w.inst.srv == nil); i++ {
			time.Sleep(100 * time.Millisecond)
		}
		<-w.inst.ready
		w.probe("config-crash")
	}
	if w.inst.err != nil {
		return true
	}
	// what was acknowledged
	allowed := []cmodel{st.m}
	acked := 0
	// each applies a command in every possible state; maybe keeps the old ones
	each := func(c *ccmd, maybe bool) (out []cmodel) {
		if maybe {
			out = append(out, allowed...)
		}
		for _, m := range allowed {
			out = append(out, c.apply(m.clone()))
		}
		return out
	}
	judge := func(c *ccmd, f func(v int) bool) (out []cmodel) {
		for _, m := range allowed {
			v := c.verdict(m)
			if v == 1 && c.apply(m.clone()).clashes() {
				v = 2
			}
			if f(v) {
				out = append(out, m)
			}
		}
		return out
	}
	i := 0
	reply := ""
	done := func() {
		c := cmds[i]
		ok := reply == "ok"
		if c.echo != "" {
			// channel commands: the outcome shows in the network's confirmation
			if s.echoed(from, c) && !st.fired && reply == "" {
				allowed = each(c, false)
			} else {
				allowed = each(c, true)
				if st.fired {
					st.tainted = true // nobody is told
				}
			}
		} else if ok {
			l := judge(c, func(v int) bool { return v != 0 })
			if len(l) == 0 {
				w.fail("C08", "invalid-accepted", "%s: soju accepted %q", s.label(), c.line)
			} else {
				allowed = l
			}
			w.probe("config-acknowledged")
			allowed = each(c, false)
		} else {
			if !st.fired && reply != "" {
				l := judge(c, func(v int) bool { return v != 1 })
				if len(l) == 0 {
					w.fail("C08", "valid-refused", "%s: soju refused %q: %s", s.label(), c.line, reply)
				} else {
					allowed = l
				}
			}
			if c.loose && st.fired || reply == "" {
				allowed = each(c, true)
			}
			w.probe("config-refused")
		}
		acked++
	}
	for j := from; j < len(s.lines) && i < len(cmds); j++ {
		m := s.lines[j].msg
		switch m.Command {
		case "PRIVMSG":
			if m.Prefix != nil && m.Prefix.Name == "BouncerServ" {
				if t := par(m, 1); strings.HasPrefix(t, "error: ") {
					reply = t
				} else {
					reply = "ok"
				}
			}
		case "BOUNCER":
			if k := par(m, 0); k == "ADDNETWORK" || k == "CHANGENETWORK" || k == "DELNETWORK" {
				reply = "ok"
			}
		case "FAIL":
			reply = s.lines[j].raw
		case "421", "400":
			if reply == "" {
				reply = s.lines[j].raw
			}
		case "PONG":
			if par(m, 1) == fmt.Sprintf("%s%d", tok, i) {
				done()
				i++
				reply = ""
			}
		}
	}
	for ; i < len(cmds); i++ {
		// no answer: may or may not have been carried out
		all := allowed
		if cmds[i].verdict != nil {
			allowed = judge(cmds[i], func(v int) bool { return v != 0 })
		}
		allowed = append(all, each(cmds[i], false)...)
	}
	for _, x := range o.S {
		if strings.HasPrefix(x, "name=") {
			// clients bound to a network that got another name
			for _, k := range sortedKeys(w.cur) {
				if b := w.cur[k]; b.cfg.User == user && b.cfg.Net != "" {
					b.hangup(false)
				}
			}
		}
	}
	if st.fired && o.s(2) == "user.create" {
		st.tainted = true // the new user's goroutine may have failed to start
	}
	if st.tainted {
		st.tainted = false
		w.restart()
	}
	got := w.cfgDB()
	for _, m := range allowed {
		if m.equal(got) {
			st.m = got
			w.probe("config-checked")
			return true
		}
	}
	what := "after"
	if w.inst != inst {
		what = "after a crash during"
	}
	w.fail("C08", "config-differs", "%s %q by %s (%d of %d acknowledged%s): %s", what, cmds[0].line, s.label(), acked, len(cmds), map[bool]string{true: ", storage error"}[st.fired], allowed[0].diff(got))
	st.m = got
	return true
}

// echoed: the network confirmed the channel command.
func (s *sess) echoed(from int, c *ccmd) bool {
	for i := from; i < len(s.lines); i++ {
		m := s.lines[i].msg
		if (m.Command == "JOIN" || m.Command == "PART") && m.Prefix != nil && m.Prefix.Name == s.nick && strings.HasPrefix(c.line, m.Command) && par(m, 0) == c.echo {
			return true
		}
	}
	return false
}

func genConfig(r *rng, p *Plan) {
	genBase(r, p, genOpt{servers: 2, users: 2, netsPer: 2, clients: 1, stores: []string{"memory"}})
	p.Cfg.Users[0].Admin = true
	for _, u := range []string{"ann", "bob"} {
		p.Cfg.Clients = append(p.Cfg.Clients, ClientCfg{Key: u + "C", User: u, Caps: []string{"soju.im/bouncer-networks", "message-tags", "batch"}})
	}
	for _, c := range p.Cfg.Clients {
		p.op(gap(r), "open", []string{c.Key}, 10)
	}
	val := func() string {
		return r.pick("v1", "v2", "two words", `q"u\o'te`, "ünï", "a=b;c", "", "x|y")
	}
	onoff := func() string { return r.pick("true", "false", "true", "false", "maybe") }
	filter := func() string { return r.pick("default", "none", "highlight", "message", "message", "bogus") }
	netName := func(u *UserCfg) string {
		if r.chance(60) {
			return u.Nets[r.intn(len(u.Nets))].Name
		}
		return r.pick("n1", "n2", "n3", "my net")
	}
	addr := func() string {
		return r.pick("irc+insecure://alpha.test:6667", "irc+insecure://beta.test:6667", "irc+insecure://beta.test:6667", "irc+insecure://down.test:1", "gopher://x")
	}
	netFlags := func() (l []string) {
		for i := 1 + r.intn(3); i > 0; i-- {
			switch r.intn(11) {
			case 0:
				l = append(l, "nick="+r.pick("nn1", "nn2", "nn3"))
			case 1:
				l = append(l, "username="+r.pick("user1", "user2", ""))
			case 2:
				l = append(l, "pass="+val())
			case 3:
				l = append(l, "realname=N"+val())
			case 4, 5:
				l = append(l, "enabled="+onoff())
			case 6:
				l = append(l, "auto-away="+onoff())
			case 7:
				l = append(l, "connect-command="+r.pick("AWAY x", "MODE #a +b", "NICK y", ""))
			case 8:
				l = append(l, "addr="+addr())
			case 9:
				l = append(l, r.pick("bogus=1", "name=*", "name=-x", "name=n4", "name=n1", "name=n2", "name=n3"))
			case 10:
				l = append(l, "certfp="+r.pick("", "", strings.Repeat("aB:", 32)[:95], strings.Repeat("0f", 64), strings.Repeat("1", 64), "zz", "abcd", strings.Repeat("1", 63)))
			}
		}
		l = dedupFlags(l)
		if v, ok := flagVal(l, "connect-command"); ok && v != "" && r.chance(60) {
			for i := []int{1, 1, 2, 19, 20}[r.intn(5)]; i > 0; i-- {
				l = append(l, fmt.Sprintf("connect-command=PING c%d", i))
			}
		}
		return l
	}
	chanFlags := func() (l []string) {
		for i := r.intn(4); i > 0; i-- {
			switch r.intn(5) {
			case 0:
				l = append(l, "detached="+onoff())
			case 1:
				l = append(l, "relay-detached="+filter())
			case 2:
				l = append(l, "reattach-on="+filter())
			case 3:
				l = append(l, "detach-on="+filter())
			case 4:
				l = append(l, "detach-after="+r.pick("0s", "100h0m0s", "200h0m0s", "-5s", "soon"))
			}
		}
		return dedupFlags(l)
	}
	battrs := func() (l []string) {
		for i := 1 + r.intn(2); i > 0; i-- {
			switch r.intn(7) {
			case 0:
				l = append(l, "nickname="+r.pick("nn1", "nn4"))
			case 1:
				l = append(l, "username="+r.pick("user1", "user2", ""))
			case 2:
				l = append(l, "pass="+val())
			case 3:
				l = append(l, "realname=N"+val())
			case 4:
				l = append(l, "host="+r.pick("alpha.test", "beta.test"))
			case 5:
				l = append(l, "bogus=1")
			case 6:
				l = append(l, "username="+r.pick("user3", "us er"))
			}
		}
		return dedupFlags(l)
	}
	ch := func() string { return r.pick("#a", "#b", "#n1", "#n2", "#n3") }
	one := func(u *UserCfg, c *ClientCfg, bound bool) []string {
		if bound {
			switch r.intn(5) {
			case 0, 1:
				return []string{"join", ch(), r.pick("", "", "key1", "key2")}
			case 2:
				return []string{"part", ch()}
			case 3:
				return []string{"detach", r.pick("#a", "#b", "#n1")}
			}
		}
		n := netName(u)
		if bound {
			n = c.Net
		}
		switch r.intn(20) {
		case 0, 1:
			return append([]string{"net.create", r.pick("n1", "n2", "n3", "my net", n), "addr=" + addr()}, dedupFlags(onlyNot(netFlags(), "addr", "name"))...)
		case 2, 3, 4, 5:
			fl := netFlags()
			if bound {
				fl = onlyNot(fl, "name")
			}
			return append([]string{"net.update", n}, fl...)
		case 6:
			return []string{"net.delete", r.pick("n1", "n2", "n3", "n4", "my net", n)}
		case 7:
			return []string{"sasl.set", n, r.pick("su1", "su2"), "sp" + r.pick("1", "2", " x")}
		case 8:
			return []string{"sasl.reset", n}
		case 9, 10:
			return append([]string{"chan.create", n, ch()}, chanFlags()...)
		case 11, 12, 13:
			return append([]string{"chan.update", n, ch()}, chanFlags()...)
		case 14:
			return []string{"chan.delete", n, ch()}
		case 15:
			if r.chance(50) {
				return append([]string{"b.add", r.pick("n1", "n2", "n3"), "host=" + r.pick("alpha.test", "beta.test")}, onlyNot(battrs(), "host")...)
			}
			return []string{"b.del", r.pick("n1", "n2", n)}
		case 16, 17:
			return append([]string{"b.change", n}, battrs()...)
		case 18:
			return append([]string{"user.update", u.Name}, dedupFlags([]string{r.pick("nick=un1", "nick=un2", "nick=", "realname=UR1", "realname=", "max-networks=50", "max-networks=20", "max-networks=-1", "admin=true"), r.pick("nick=un3", "realname=UR2", "password=new1", "password=new 2")})...)
		}
		return append([]string{"user.update", u.Name}, r.pick("nick=un1", "realname=UR3", "password=new1", "bogus=3"))
	}
	for n := 8 + r.intn(22); n > 0; n-- {
		u := &p.Cfg.Users[r.intn(2)]
		c := p.Cfg.client(u.Name + "C")
		bound := r.chance(25)
		if bound {
			var l []*ClientCfg
			for i := range p.Cfg.Clients {
				if cc := &p.Cfg.Clients[i]; cc.User == u.Name && cc.Net != "" {
					l = append(l, cc)
				}
			}
			c = l[r.intn(len(l))]
		}
		s := []string{c.Key, ""}
		mode, par := 0, 0
		switch r.intn(10) {
		case 0, 1, 2:
			mode, par = 1, r.intn(14)
		case 3, 4, 5:
			mode, par = 2, r.intn(8)
		case 6:
			mode, par = 3, r.intn(p.Cfg.LatMS*2200+3000)
		}
		switch k := r.intn(100); {
		case k < 8 && u.Name == "ann":
			// administrator's commands about users
			switch r.intn(4) {
			case 0:
				s = append(s, "user.create", r.pick("cat", "dan"), "password="+r.pick("pw-cat", "new1"), r.pick("enabled=false", "admin=true", "max-networks=3", "nick=k1"))
			case 1, 2:
				f := dedupFlags([]string{r.pick("enabled=true", "enabled=false", "admin=true", "admin=false"), r.pick("password=new1", "password=pw-bob", "max-networks=9", "max-networks=30", "max-networks=-1", "max-networks=x", "enabled=true")})
				s = append(s, append([]string{"user.update", r.pick("bob", "cat", "dan")}, f...)...)
			case 3:
				s = append(s, "user.delete", r.pick("bob", "cat", "dan"))
				if mode == 2 {
					mode = 0
				}
			}
		case k < 18 && u.Name == "ann":
			s[1] = "bob"
			x := one(&p.Cfg.Users[1], c, false)
			for strings.HasPrefix(x[0], "user.") || strings.HasPrefix(x[0], "b.") {
				x = one(&p.Cfg.Users[1], c, false)
			}
			s = append(s, x...)
		case k < 70:
			s = append(s, one(u, c, bound)...)
		default:
			for i := 2 + r.intn(3); i > 0; i-- {
				x := one(u, c, bound)
				if strings.HasPrefix(x[0], "net.del") && bound || x[0] == "b.del" && bound {
					continue // would close this connection
				}
				if len(s) > 2 {
					s = append(s, "|")
				}
				s = append(s, x...)
			}
			if len(s) == 2 {
				continue
			}
		}
		p.op(gap(r), "cfg", s, mode, par)
		if r.chance(8) {
			// records which go with the network
			if cc := p.anyClient(r); cc.Net != "" {
				p.op(gap(r), "send", []string{cc.Key, fmt.Sprintf("%s %s timestamp=2000-01-01T00:00:%02d.000Z", r.pick("MARKREAD", "READ"), r.pick("#a", "g1"), r.intn(60))})
			}
		}
		if r.chance(6) {
			p.op(gap(r), r.pick("restart", "crash"), nil)
		}
		if r.chance(5) {
			p.op(gap(r), "drop", []string{p.anyServer(r)}, r.intn(2))
		}
	}
}

// dedupFlags keeps each flag once (repeating one is another matter).
func dedupFlags(l []string) (out []string) {
	seen := map[string]bool{}
	for _, s := range l {
		k, _, _ := strings.Cut(s, "=")
		if !seen[k] {
			seen[k] = true
			out = append(out, s)
		}
	}
	return
}

func onlyNot(l []string, not ...string) (out []string) {
	for _, s := range l {
		k, _, _ := strings.Cut(s, "=")
		if !has(not, k) {
			out = append(out, s)
		}
	}
	return
}

func finalConfig(w *World) {
	w.calm()
	w.settle(time.Minute)
	st := w.cfgst()
	if got := w.cfgDB(); !st.m.equal(got) {
		w.fail("C08", "config-differs", "at rest: %s", st.m.diff(got))
		return
	}
	// what soju works with: make it write everything back
	for _, name := range []string{"ann", "bob"} {
		s := w.cfgSession(name + "C")
		if s == nil {
			if st.m["u/"+name] != "" && st.m["u/"+name+"/enabled"] == "true" {
				w.fail("C08", "login-failed", "%s can't log in with the saved password", name)
			}
			continue
		}
		w.checkListNetworks("C08", s, st.m, name)
		s.send("PRIVMSG BouncerServ :user update")
		for _, k := range sortedKeys(st.m) {
			f := strings.Split(k, "/")
			if len(f) == 3 && f[0] == "n" && f[1] == name {
				s.send("PRIVMSG BouncerServ :network update " + quoteArg(f[2]))
			}
			if len(f) == 4 && f[0] == "c" && f[1] == name {
				s.send("PRIVMSG BouncerServ :channel update " + quoteArg(f[3]+"/"+f[2]))
			}
		}
		w.settle(20 * time.Second)
		w.probe("config-flushed")
		if got := w.cfgDB(); !st.m.equal(got) {
			w.fail("C08", "config-live", "what soju uses for %s is not what was acknowledged: %s", name, st.m.diff(got))
			return
		}
	}
}

// checkListNetworks compares the BOUNCER listing with the saved networks.
func (w *World) checkListNetworks(prop string, s *sess, m cmodel, user string) {
	s.netState = map[string]map[string]string{}
	s.send("BOUNCER LISTNETWORKS")
	w.settle(5 * time.Second)
	got := map[string]map[string]string{}
	for _, id := range sortedKeys(s.netState) {
		got[s.netState[id]["name"]] = s.netState[id]
	}
	for _, k := range sortedKeys(m) {
		f := strings.Split(k, "/")
		if len(f) != 3 || f[0] != "n" || f[1] != user {
			continue
		}
		a := got[f[2]]
		if a == nil {
			w.fail(prop, "network-unlisted", "%s: saved network %q is not listed", s.label(), f[2])
			continue
		}
		delete(got, f[2])
		nick := m[k+"/nick"]
		if nick == "" {
			nick = m["u/"+user+"/nick"]
		}
		if nick == "" {
			nick = user
		}
		real := m[k+"/realname"]
		if real == "" {
			real = m["u/"+user+"/realname"]
		}
		want := map[string]string{"nickname": nick, "username": m[k+"/username"], "realname": real, "host": strings.TrimSuffix(strings.TrimSuffix(strings.TrimPrefix(m[k+"/addr"], "irc+insecure://"), ":6667"), ":1")}
		for _, x := range sortedKeys(want) {
			if x == "realname" && want[x] == "" {
				continue
			}
			if a[x] != want[x] {
				w.fail(prop, "network-listed-wrong", "%s: network %q is listed with %s %q, saved %q", s.label(), f[2], x, a[x], want[x])
			}
		}
		w.probe("network-listed")
	}
	for _, n := range sortedKeys(got) {
		w.fail(prop, "network-unsaved", "%s: network %q is listed but not saved", s.label(), n)
	}
}
