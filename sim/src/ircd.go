package main

import (
	"bufio"
	"crypto/tls"
	"encoding/base64"
	"fmt"
	"net"
	"sort"
	"strconv"
	"strings"
	"time"

	"gopkg.in/irc.v4"
)

// ircd is a model IRC server.  It is the ground truth for everything that
// happens on one upstream network.
type ircd struct {
	capAt    []time.Time               // when the capabilities changed
	events   map[string]map[string]int // by channel: what happened in it
	w        *World
	name     string
	hostport string
	srvName  string
	caps     map[string]string // advertised
	isupport []string
	casemap  string
	ln       *simListener
	tlsLn    *simListener
	tls12    bool
	tlsID    string // identity presented to new TLS connections
	mitm     string // how an impostor answers instead

	users map[string]*iuser
	chans map[string]*ichan
	conns []*iconn // every connection ever accepted, in order

	// behaviour knobs
	saslUser, saslPass string            // non-empty: accepted credentials
	accounts           map[string]string // if not nil, who can log in
	unverified         map[string]string
	onVerdict          func(c *iconn, kind, user, pass string, ok bool)
	onPriv             func(c *iconn, msg *irc.Message) // before a message is relayed
	noVerdict          int                              // queries about accounts ignored
	saslAny            bool                             // any credentials will do
	needPass           string
	mute               map[string]bool // commands the server never answers
	noReg              bool            // never answers registration
	muteNew            bool            // connections accepted now are never answered
	regError           string          // numeric sent instead of welcome
	slow               time.Duration   // processing delay per command
	nickTaken          map[string]bool
	monitorLimit       int
	joinErr            map[string]string // channel -> numeric to refuse with
	splitNames         bool
	namesDelay         time.Duration // pause between JOIN and NAMES burst
	rawHook            func(c *iconn, msg *irc.Message) bool
	acceptHook         func(c *iconn)
	autoRegister       bool
	capMultiline       bool
	capLate            bool   // answer CAP LS only once the nickname is known
	saslMode           string // "nak" or "unknown": SASL is offered but refused
	capNak             bool
	motd               bool
	hostile            []string // odd lines mixed into the traffic
	hostileRng         *rng
}

type iuser struct {
	nick, user, host, real string
	account                string
	away                   string
	conn                   *iconn
	modes                  string
	oper                   bool
}

func (u *iuser) prefix() *irc.Prefix {
	return &irc.Prefix{Name: u.nick, User: u.user, Host: u.host}
}

type ichan struct {
	name      string
	topic     string
	topicWho  string
	topicTime time.Time
	created   time.Time
	members   map[*iuser]string // membership mode letters, highest first
	modes     map[byte]string
	key       string
}

type iline struct {
	at  time.Time
	msg *irc.Message
	raw string
}

// iconn is one connection from soju to this server.
type iconn struct {
	stallFrom, stallTo time.Time // first stall of packets, end of the last one
	srv                *ircd
	idx                int
	conn               *simConn
	u                  *iuser
	openedAt           time.Time
	regAt              time.Time
	regSeq             int
	capsNaked          bool // a request of capabilities was refused
	registered         bool
	gone               bool
	goneAt             time.Time
	capNeg             bool
	caps               map[string]bool
	gotNick            string
	gotUser            *irc.Message
	pass               string
	sasl               string
	saslBuf            string
	account            string
	labels             map[string]int
	recv               []iline
	sent               []iline
	monitor            map[string]bool
	lsWaiting          bool
	regAccount         string // logged in as, when registering
	instance           uint64
	silent             bool
	tls                *tls.Conn
	tlsID              string // identity presented
	ownerKey           string
	outq               [][]byte
	outWake            chan struct{}

	safe []safeEv

	inCmd    bool
	cmdLabel string
	cmdOut   []*irc.Message
	batchN   int
}

func newIrcd(w *World, name string) *ircd {
	s := &ircd{
		w:        w,
		name:     name,
		hostport: name + ".test:6667",
		srvName:  "irc." + name + ".test",
		caps:     map[string]string{},
		users:    map[string]*iuser{},
		chans:    map[string]*ichan{},
		mute:     map[string]bool{},
		joinErr:  map[string]string{},

		nickTaken:    map[string]bool{},
		monitorLimit: 10,
		casemap:      "rfc1459",
		autoRegister: true,
	}
	s.isupport = []string{"CHANTYPES=#&", "PREFIX=(ov)@+", "CHANMODES=b,k,l,imnst", "STATUSMSG=@+", "NETWORK=" + name, "CASEMAPPING=rfc1459"}
	s.ln = w.net.listen(s.hostport)
	go s.acceptLoop()
	return s
}

func (s *ircd) fold(n string) string { return foldFor(s.casemap, n) }

func foldFor(cm, n string) string {
	b := []byte(n)
	for i, c := range b {
		switch {
		case c >= 'A' && c <= 'Z':
			b[i] = c + 32
		case cm != "ascii" && c == '{':
			b[i] = '['
		case cm != "ascii" && c == '}':
			b[i] = ']'
		case cm != "ascii" && c == '\\':
			b[i] = '|'
		case cm == "rfc1459" && c == '~':
			b[i] = '^'
		}
	}
	return string(b)
}

func (s *ircd) acceptLoop() {
	for {
		nc, err := s.ln.Accept()
		if err != nil {
			return
		}
		c := s.newConn(nc.(*simConn))
		go c.loop()
	}
}

func (s *ircd) newConn(conn *simConn) *iconn {
	c := &iconn{srv: s, idx: len(s.conns), conn: conn, openedAt: time.Now(), caps: map[string]bool{}, labels: map[string]int{}, monitor: map[string]bool{}}
	c.instance = c.conn.peer.instance
	c.silent = s.muteNew
	s.conns = append(s.conns, c)
	s.w.tracef("%s accept #%d", s.name, c.idx)
	if s.acceptHook != nil {
		s.acceptHook(c)
	}
	return c
}

// live returns the current registered connections.
func (s *ircd) live() []*iconn {
	var l []*iconn
	for _, c := range s.conns {
		if c.registered && !c.gone {
			l = append(l, c)
		}
	}
	return l
}

func (s *ircd) ghost(nick string) *iuser {
	u := s.users[s.fold(nick)]
	if u == nil {
		u = &iuser{nick: nick, user: "u" + strings.ToLower(strings.Trim(nick, "[]{}|\\^~")), host: "host.example", real: "Real " + nick, oper: s.w.cfg.X["oper"] == 1 && strings.HasSuffix(nick, "2")}
		s.users[s.fold(nick)] = u
		s.monitorChange(nick, u)
	}
	return u
}

func (s *ircd) channel(name string) *ichan {
	ch := s.chans[s.fold(name)]
	if ch == nil {
		ch = &ichan{name: name, members: map[*iuser]string{}, modes: map[byte]string{'n': "", 't': ""}, created: time.Now()}
		s.chans[s.fold(name)] = ch
	}
	return ch
}

func (c *iconn) loop() {
	r := bufio.NewReader(c.conn)
	if c.tls != nil {
		r = bufio.NewReader(c.tls)
	}
	for {
		line, err := r.ReadString('\n')
		if err != nil {
			c.drop("read error")
			return
		}
		line = strings.TrimRight(line, "\r\n")
		if line == "" {
			continue
		}
		if line[0] == 0x16 { // TLS
			c.drop("TLS on a plain port")
			return
		}
		msg, err := irc.ParseMessage(line)
		if err != nil {
			c.srv.w.fail("C11", "unparseable-upstream-line", "soju sent an unparseable line to %s: %q", c.srv.name, line)
			continue
		}
		c.recv = append(c.recv, iline{time.Now(), msg, line})
		c.srv.w.tracef("%s#%d <- %s", c.srv.name, c.idx, line)
		if c.srv.slow > 0 {
			time.Sleep(c.srv.slow)
		}
		if c.gone {
			return
		}
		if c.silent {
			continue
		}
		if h := c.srv.hostile; len(h) > 0 && c.srv.hostileRng.chance(40) {
			c.srv.w.fault("hostile-line")
			c.raw(strings.ReplaceAll(h[c.srv.hostileRng.intn(len(h))], "$me", c.nick()))
			if c.srv.hostileRng.chance(30) {
				continue // and ignore the command
			}
		}
		c.dispatch(msg)
	}
}

// drop forgets the connection; other members see QUIT.
func (c *iconn) drop(reason string) {
	if c.gone {
		return
	}
	c.gone = true
	c.goneAt = time.Now()
	if c.tls != nil {
		c.wakeWriter()
	} else {
		c.conn.Close()
	}
	c.srv.w.tracef("%s#%d gone: %s", c.srv.name, c.idx, reason)
	if c.u != nil {
		c.srv.removeUser(c.u, reason)
	}
}

// note records what happens in a channel, for checks of its history.
func (s *ircd) note(ch *ichan, cmd, nick string) {
	if s.events == nil {
		s.events = map[string]map[string]int{}
	}
	k := s.fold(ch.name)
	if s.events[k] == nil {
		s.events[k] = map[string]int{}
	}
	s.events[k][cmd+" "+s.fold(nick)]++
}

func (s *ircd) removeUser(u *iuser, reason string) {
	seen := map[*iuser]bool{u: true}
	for _, ch := range s.chanList() {
		if _, ok := ch.members[u]; !ok {
			continue
		}
		delete(ch.members, u)
		s.note(ch, "QUIT", u.nick)
		for _, m := range ch.memberList() {
			if !seen[m] && m.conn != nil {
				seen[m] = true
				m.conn.event(&irc.Message{Prefix: u.prefix(), Command: "QUIT", Params: []string{reason}})
			}
		}
	}
	if s.users[s.fold(u.nick)] == u {
		delete(s.users, s.fold(u.nick))
	}
	s.monitorChange(u.nick, nil)
}

func (s *ircd) chanList() []*ichan {
	var l []*ichan
	for _, ch := range s.chans {
		l = append(l, ch)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].name < l[j].name })
	return l
}

func (ch *ichan) memberList() []*iuser {
	var l []*iuser
	for m := range ch.members {
		l = append(l, m)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].nick < l[j].nick })
	return l
}

func (c *iconn) nick() string {
	if c.u != nil {
		return c.u.nick
	}
	if c.gotNick != "" {
		return c.gotNick
	}
	return "*"
}

// raw writes one line.
func (c *iconn) raw(line string) {
	if c.gone || c.conn.closed {
		return
	}
	c.srv.w.tracef("%s#%d -> %s", c.srv.name, c.idx, line)
	msg, _ := irc.ParseMessage(line)
	c.sent = append(c.sent, iline{time.Now(), msg, line})
	if msg != nil && msg.Command == "005" {
		c.noteSafe(msg.Params)
	}
	if c.conn.peer.closed {
		return
	}
	if c.tls != nil {
		c.outq = append(c.outq, []byte(line+"\r\n"))
		c.wakeWriter()
		return
	}
	c.conn.push([]byte(line + "\r\n"))
}

// write sends a message now, adding server-time where negotiated.
func (c *iconn) write(msg *irc.Message) {
	if c.caps["server-time"] && msg.Tags["time"] == "" {
		msg = msg.Copy()
		if msg.Tags == nil {
			msg.Tags = irc.Tags{}
		}
		msg.Tags["time"] = fmtTime(time.Now())
	}
	c.raw(msg.String())
}

func fmtTime(t time.Time) string { return t.UTC().Format("2006-01-02T15:04:05.000Z") }

// event sends an unsolicited message.
func (c *iconn) event(msg *irc.Message) { c.write(msg) }

// reply sends a response to the command being processed.
func (c *iconn) reply(cmd string, params ...string) {
	p := &irc.Prefix{Name: c.srv.srvName}
	c.replyMsg(&irc.Message{Prefix: p, Command: cmd, Params: params})
}

func (c *iconn) num(cmd string, params ...string) {
	c.reply(cmd, append([]string{c.nick()}, params...)...)
}

func (c *iconn) replyMsg(msg *irc.Message) {
	if c.inCmd && c.cmdLabel != "" {
		c.cmdOut = append(c.cmdOut, msg)
		return
	}
	c.write(msg)
}

func (c *iconn) dispatch(msg *irc.Message) {
	if c.srv.rawHook != nil && c.srv.rawHook(c, msg) {
		return
	}
	label := msg.Tags["label"]
	if label != "" {
		c.labels[label]++
		if !c.caps["labeled-response"] {
			label = ""
		}
	}
	if c.srv.mute[msg.Command] {
		return
	}
	c.inCmd, c.cmdLabel, c.cmdOut = true, label, nil
	c.handle(msg)
	c.inCmd = false
	if label == "" {
		return
	}
	out := c.cmdOut
	c.cmdOut = nil
	srv := &irc.Prefix{Name: c.srv.srvName}
	switch len(out) {
	case 0:
		c.write(&irc.Message{Tags: irc.Tags{"label": label}, Prefix: srv, Command: "ACK"})
	case 1:
		m := out[0].Copy()
		if m.Tags == nil {
			m.Tags = irc.Tags{}
		}
		m.Tags["label"] = label
		c.write(m)
	default:
		c.batchN++
		id := fmt.Sprintf("lr%d", c.batchN)
		c.write(&irc.Message{Tags: irc.Tags{"label": label}, Prefix: srv, Command: "BATCH", Params: []string{"+" + id, "labeled-response"}})
		for _, m := range out {
			m = m.Copy()
			if m.Tags == nil {
				m.Tags = irc.Tags{}
			}
			m.Tags["batch"] = id
			c.write(m)
		}
		c.write(&irc.Message{Prefix: srv, Command: "BATCH", Params: []string{"-" + id}})
	}
}

func (c *iconn) capList() []string {
	var l []string
	for k, v := range c.srv.caps {
		if v != "" {
			k += "=" + v
		}
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func (c *iconn) handle(msg *irc.Message) {
	s := c.srv
	par := func(i int) string {
		if i < len(msg.Params) {
			return msg.Params[i]
		}
		return ""
	}
	if strings.HasPrefix(msg.Command, "XINJ") {
		s.w.fail("C19", "injected-line", "server %s received %q as a line of its own, which is part of a client's message", s.name, msg.String())
	}
	switch msg.Command {
	case "CAP":
		switch par(0) {
		case "LS":
			if len(s.caps) == 0 {
				return
			}
			c.capNeg = true
			if s.capLate && c.gotNick == "" {
				c.lsWaiting = true
				return
			}
			c.listCaps()
		case "REQ":
			c.capNeg = c.capNeg || !c.registered
			names := strings.Fields(par(1))
			if s.capNak {
				c.reply("CAP", c.nick(), "NAK", par(1))
				return
			}
			for _, n := range names {
				n = strings.TrimPrefix(n, "-")
				if _, ok := s.caps[n]; !ok || s.saslMode == "nak" && n == "sasl" {
					c.capsNaked = true
					c.reply("CAP", c.nick(), "NAK", par(1))
					return
				}
			}
			for _, n := range names {
				if strings.HasPrefix(n, "-") {
					delete(c.caps, n[1:])
				} else {
					c.caps[n] = true
				}
			}
			c.reply("CAP", c.nick(), "ACK", par(1))
		case "END":
			c.capNeg = false
			c.tryRegister()
		}
	case "PASS":
		c.pass = par(0)
	case "NICK":
		if c.registered {
			c.changeNick(par(0))
			return
		}
		if s.users[s.fold(par(0))] != nil || s.nickTaken[s.fold(par(0))] {
			c.num("433", par(0), "Nickname is already in use")
			return
		}
		c.gotNick = par(0)
		if c.lsWaiting {
			c.lsWaiting = false
			c.listCaps()
		}
		c.tryRegister()
	case "USER":
		c.gotUser = msg
		c.tryRegister()
	case "AUTHENTICATE":
		if s.saslMode == "unknown" {
			c.num("421", "AUTHENTICATE", "Unknown command")
			return
		}
		c.authenticate(par(0))
	case "REGISTER", "VERIFY":
		if s.accounts != nil {
			c.registerAccount(msg.Command, par)
			return
		}
		c.reply(msg.Command, "SUCCESS", par(0), "Account registered")
	case "PING":
		c.reply("PONG", append([]string{s.srvName}, msg.Params...)...)
	case "PONG":
	case "QUIT":
		c.raw("ERROR :Closing link")
		c.drop("Quit")
	default:
		if !c.registered {
			c.num("451", "You have not registered")
			return
		}
		c.handleReg(msg, par)
	}
}

// login logs the connection in to an account.
func (c *iconn) login(account string) {
	c.account = account
	if c.u != nil {
		c.u.account = account
	}
	c.num("900", c.nick()+"!u@h", account, "You are now logged in as "+account)
}

// registerAccount handles REGISTER and VERIFY.
func (c *iconn) registerAccount(cmd string, par func(int) string) {
	s := c.srv
	fail := func(code, account string) {
		c.replyMsg(&irc.Message{Command: "FAIL", Params: []string{cmd, code, account, "Refused"}})
	}
	done := func(code, account string) {
		c.replyMsg(&irc.Message{Command: cmd, Params: []string{code, account, "Done"}})
	}
	account := par(0)
	_, known := s.accounts[account]
	switch {
	case cmd == "REGISTER" && known:
		s.onVerdict(c, "reg", account, par(2), false)
		fail("ACCOUNT_EXISTS", account)
	case cmd == "REGISTER" && len(account)%2 == 0:
		s.onVerdict(c, "reg", account, par(2), true)
		s.unverified[account] = par(2)
		done("VERIFICATION_REQUIRED", account)
	case cmd == "REGISTER":
		s.onVerdict(c, "reg", account, par(2), true)
		s.accounts[account] = par(2)
		c.login(account)
		done("SUCCESS", account)
	default:
		pw, pending := s.unverified[account]
		ok := pending && par(1) == "code"
		s.onVerdict(c, "verify", account, par(1), ok)
		if !ok {
			fail("INVALID_CODE", account)
			return
		}
		delete(s.unverified, account)
		s.accounts[account] = pw
		c.login(account)
		done("SUCCESS", account)
	}
}

// listCaps answers CAP LS.
func (c *iconn) listCaps() {
	l := c.capList()
	if c.srv.capMultiline && len(l) > 1 {
		c.reply("CAP", c.nick(), "LS", "*", strings.Join(l[:len(l)/2], " "))
		l = l[len(l)/2:]
	}
	c.reply("CAP", c.nick(), "LS", strings.Join(l, " "))
}

func (c *iconn) authenticate(arg string) {
	s := c.srv
	if c.sasl == "" {
		if arg == "*" {
			c.num("906", "SASL authentication aborted")
			return
		}
		if s.saslMode == "already" && c.account != "" {
			c.num("907", "You have already authenticated using SASL")
			return
		}
		mechs := strings.Split(s.caps["sasl"], ",")
		ok := s.caps["sasl"] == "" && (arg == "PLAIN" || arg == "EXTERNAL")
		for _, m := range mechs {
			if m == arg {
				ok = true
			}
		}
		if !ok {
			c.num("908", s.caps["sasl"], "are available SASL mechanisms")
			c.num("904", "SASL authentication failed")
			return
		}
		c.sasl, c.saslBuf = arg, ""
		c.replyMsg(&irc.Message{Command: "AUTHENTICATE", Params: []string{"+"}})
		return
	}
	if arg == "*" {
		c.sasl = ""
		c.num("906", "SASL authentication aborted")
		return
	}
	if arg != "+" {
		c.saslBuf += arg
	}
	if len(arg) == 400 {
		return
	}
	mech := c.sasl
	c.sasl = ""
	if mech == "EXTERNAL" {
		if c.tls != nil && len(c.tls.ConnectionState().PeerCertificates) > 0 {
			c.account = "cert"
			c.num("900", c.nick()+"!u@h", c.account, "You are now logged in as "+c.account)
			c.num("903", "SASL authentication successful")
		} else {
			c.num("904", "SASL authentication failed")
		}
		return
	}
	b, err := base64.StdEncoding.DecodeString(c.saslBuf)
	parts := strings.Split(string(b), "\x00")
	if s.accounts != nil {
		ok := err == nil && len(parts) == 3
		if ok {
			pass, known := s.accounts[parts[1]]
			ok = known && pass == parts[2]
			s.onVerdict(c, "sasl", parts[1], parts[2], ok)
		}
		if ok {
			c.login(parts[1])
			c.num("903", "SASL authentication successful")
		} else {
			c.num("904", "SASL authentication failed")
		}
		return
	}
	if err == nil && len(parts) == 3 && (parts[1] == s.saslUser && parts[2] == s.saslPass || s.saslAny && parts[1] != "") {
		c.account = parts[1]
		if c.u != nil {
			c.u.account = c.account
		}
		c.num("900", c.nick()+"!u@h", c.account, "You are now logged in as "+c.account)
		c.num("903", "SASL authentication successful")
		return
	}
	c.num("904", "SASL authentication failed")
}

func (c *iconn) tryRegister() {
	s := c.srv
	if c.registered || c.capNeg || c.gotNick == "" || c.gotUser == nil || s.noReg {
		return
	}
	if s.regError != "" {
		c.num(s.regError, "Registration refused")
		c.raw("ERROR :Closing link")
		c.drop("refused")
		return
	}
	if s.needPass != "" && c.pass != s.needPass {
		c.num("464", "Password incorrect")
		c.raw("ERROR :Closing link")
		c.drop("bad password")
		return
	}
	if s.users[s.fold(c.gotNick)] != nil {
		c.num("433", c.gotNick, "Nickname is already in use")
		c.gotNick = ""
		return
	}
	nick := c.gotNick
	user := ""
	if len(c.gotUser.Params) > 0 {
		user = c.gotUser.Params[0]
	}
	c.u = &iuser{nick: nick, user: user, host: "soju.host", conn: c, account: c.account}
	if len(c.gotUser.Params) > 3 {
		c.u.real = c.gotUser.Params[3]
	}
	s.users[s.fold(nick)] = c.u
	c.registered = true
	c.regAccount = c.account
	c.regAt = time.Now()
	c.regSeq = s.w.nextSeq()
	c.num("001", "Welcome to "+s.name+" "+nick+"!"+user+"@"+c.u.host)
	c.num("002", "Your host is "+s.srvName)
	c.num("003", "This server was created today")
	c.num("004", s.srvName, "model-1", "iow", "bklimnstov")
	c.num("005", append(append([]string{}, s.isupport...), "are supported")...)
	if s.motd {
		c.num("375", "- MOTD")
		c.num("372", "- hello from "+s.name)
		c.num("376", "End of MOTD")
	} else {
		c.num("422", "No MOTD")
	}
	s.monitorChange(nick, c.u)
	s.w.onUpstreamRegistered(c)
}

func (c *iconn) changeNick(nick string) {
	s := c.srv
	if o := s.users[s.fold(nick)]; o != nil && o != c.u || s.nickTaken[s.fold(nick)] {
		c.num("433", nick, "Nickname is already in use")
		return
	}
	if nick == "" {
		c.num("431", "No nickname given")
		return
	}
	s.rename(c.u, nick)
}

func (s *ircd) rename(u *iuser, nick string) {
	old := u.prefix()
	delete(s.users, s.fold(u.nick))
	oldNick := u.nick
	u.nick = nick
	s.users[s.fold(nick)] = u
	msg := &irc.Message{Prefix: old, Command: "NICK", Params: []string{nick}}
	for _, ch := range s.chanList() {
		if _, ok := ch.members[u]; ok {
			s.note(ch, "NICK", oldNick)
		}
	}
	for _, p := range s.peersOf(u) {
		if p.conn != nil {
			if p == u && p.conn.inCmd {
				p.conn.replyMsg(msg)
			} else {
				p.conn.event(msg)
			}
		}
	}
	if s.fold(oldNick) != s.fold(nick) {
		s.monitorChange(oldNick, nil)
		s.monitorChange(nick, u)
	}
}

// peersOf lists u and every user sharing a channel with it, once each.
func (s *ircd) peersOf(u *iuser) []*iuser {
	seen := map[*iuser]bool{u: true}
	l := []*iuser{u}
	for _, ch := range s.chanList() {
		if _, ok := ch.members[u]; ok {
			for _, m := range ch.memberList() {
				if !seen[m] {
					seen[m] = true
					l = append(l, m)
				}
			}
		}
	}
	return l
}

func (s *ircd) monitorChange(nick string, u *iuser) {
	for _, c := range s.live() {
		if c.monitor[s.fold(nick)] {
			if u != nil {
				c.event(&irc.Message{Prefix: &irc.Prefix{Name: s.srvName}, Command: "730", Params: []string{c.nick(), u.prefix().String()}})
			} else {
				c.event(&irc.Message{Prefix: &irc.Prefix{Name: s.srvName}, Command: "731", Params: []string{c.nick(), nick}})
			}
		}
	}
}

func memberPrefix(m string, multi bool) string {
	out := ""
	for i, x := range "qaohv" {
		if strings.ContainsRune(m, x) {
			out += "~&@%+"[i : i+1]
		}
	}
	if !multi && len(out) > 1 {
		out = out[:1]
	}
	return out
}

func (c *iconn) sendNames(ch *ichan) {
	s := c.srv
	var l []string
	for _, m := range ch.memberList() {
		n := m.nick
		if c.caps["userhost-in-names"] {
			n = m.prefix().String()
		}
		l = append(l, memberPrefix(ch.members[m], c.caps["multi-prefix"])+n)
	}
	step := len(l)
	if s.splitNames && step > 2 {
		step = 2
	}
	for i := 0; i < len(l); i += step {
		j := i + step
		if j > len(l) {
			j = len(l)
		}
		c.num("353", "=", ch.name, strings.Join(l[i:j], " "))
	}
	c.num("366", ch.name, "End of /NAMES list")
}

func (s *ircd) join(u *iuser, name string, as string) *ichan {
	ch := s.channel(name)
	if _, ok := ch.members[u]; ok {
		return nil
	}
	ch.members[u] = as
	s.note(ch, "JOIN", u.nick)
	for _, m := range ch.memberList() {
		if m.conn == nil {
			continue
		}
		msg := &irc.Message{Prefix: u.prefix(), Command: "JOIN", Params: []string{ch.name}}
		if m.conn.caps["extended-join"] {
			acc := u.account
			if acc == "" {
				acc = "*"
			}
			msg.Params = append(msg.Params, acc, u.real)
		}
		if m == u && m.conn.inCmd {
			m.conn.replyMsg(msg)
		} else {
			m.conn.event(msg)
		}
		if u.away != "" && m != u && m.conn.caps["away-notify"] {
			m.conn.event(&irc.Message{Prefix: u.prefix(), Command: "AWAY", Params: []string{u.away}})
		}
	}
	return ch
}

func (c *iconn) joinTopic(ch *ichan) {
	if ch.topic != "" {
		c.num("332", ch.name, ch.topic)
		c.num("333", ch.name, ch.topicWho, strconv.FormatInt(ch.topicTime.Unix(), 10))
	}
}

func (s *ircd) toMembers(ch *ichan, except *iuser, msg *irc.Message, inReply *iconn) {
	s.note(ch, msg.Command, msg.Prefix.Name)
	for _, m := range ch.memberList() {
		if m.conn == nil || m == except {
			continue
		}
		if m.conn == inReply && inReply.inCmd {
			inReply.replyMsg(msg)
		} else {
			m.conn.event(msg)
		}
	}
}

func (s *ircd) part(u *iuser, ch *ichan, reason string, from *iconn) {
	if _, ok := ch.members[u]; !ok {
		return
	}
	p := []string{ch.name}
	if reason != "" {
		p = append(p, reason)
	}
	s.toMembers(ch, nil, &irc.Message{Prefix: u.prefix(), Command: "PART", Params: p}, from)
	delete(ch.members, u)
}

func (s *ircd) setTopic(u *iuser, ch *ichan, topic string, from *iconn) {
	ch.topic, ch.topicWho, ch.topicTime = topic, u.prefix().String(), time.Now()
	s.toMembers(ch, nil, &irc.Message{Prefix: u.prefix(), Command: "TOPIC", Params: []string{ch.name, topic}}, from)
}

// chmode applies a mode change made by u (already validated by the caller).
func (s *ircd) chmode(by *irc.Prefix, ch *ichan, modes string, args []string, from *iconn) {
	plus := true
	i := 0
	for k := 0; k < len(modes); k++ {
		switch m := modes[k]; m {
		case '+':
			plus = true
		case '-':
			plus = false
		case 'o', 'v', 'q', 'a', 'h':
			if i < len(args) {
				if u := s.users[s.fold(args[i])]; u != nil {
					if cur, ok := ch.members[u]; ok {
						cur = strings.ReplaceAll(cur, string(m), "")
						if plus {
							cur += string(m)
						}
						ch.members[u] = cur
					}
				}
			}
			i++
		case 'b':
			i++
		case 'k':
			if plus && i < len(args) {
				ch.key = args[i]
				ch.modes['k'] = args[i]
			} else {
				ch.key = ""
				delete(ch.modes, 'k')
			}
			i++
		case 'l':
			if plus && i < len(args) {
				ch.modes['l'] = args[i]
				i++
			} else {
				delete(ch.modes, 'l')
			}
		default:
			if plus {
				ch.modes[m] = ""
			} else {
				delete(ch.modes, m)
			}
		}
	}
	s.toMembers(ch, nil, &irc.Message{Prefix: by, Command: "MODE", Params: append([]string{ch.name, modes}, args...)}, from)
}

func (ch *ichan) modeString() []string {
	var ks []byte
	for k := range ch.modes {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	s := "+"
	var args []string
	for _, k := range ks {
		s += string(k)
		if ch.modes[k] != "" {
			args = append(args, ch.modes[k])
		}
	}
	return append([]string{s}, args...)
}

func (c *iconn) handleReg(msg *irc.Message, par func(int) string) {
	s := c.srv
	switch msg.Command {
	case "JOIN":
		keys := strings.Split(par(1), ",")
		for i, name := range strings.Split(par(0), ",") {
			if name == "0" {
				continue
			}
			if name == "" || !strings.ContainsAny(name[:1], "#&") {
				c.num("403", name, "No such channel")
				continue
			}
			if ch := s.chans[s.fold(name)]; ch != nil {
				if _, ok := ch.members[c.u]; ok {
					continue
				}
			}
			if n := s.joinErr[s.fold(name)]; n != "" {
				c.num(n, name, "Cannot join channel")
				continue
			}
			key := ""
			if i < len(keys) {
				key = keys[i]
			}
			if ch := s.chans[s.fold(name)]; ch != nil && ch.key != "" && ch.key != key {
				c.num("475", name, "Cannot join channel (+k)")
				continue
			}
			as := ""
			if ch := s.chans[s.fold(name)]; ch == nil || len(ch.members) == 0 {
				as = "o"
			}
			ch := s.join(c.u, name, as)
			if ch == nil {
				continue
			}
			c.joinTopic(ch)
			if s.namesDelay > 0 && c.cmdLabel == "" {
				time.Sleep(s.namesDelay)
				if c.gone {
					return
				}
				if _, ok := ch.members[c.u]; !ok {
					continue
				}
			}
			c.sendNames(ch)
		}
	case "PART":
		for _, name := range strings.Split(par(0), ",") {
			ch := s.chans[s.fold(name)]
			if ch == nil {
				c.num("403", name, "No such channel")
				continue
			}
			if _, ok := ch.members[c.u]; !ok {
				c.num("442", name, "You're not on that channel")
				continue
			}
			s.part(c.u, ch, par(1), c)
		}
	case "PRIVMSG", "NOTICE", "TAGMSG":
		if s.onPriv != nil {
			s.onPriv(c, msg)
		}
		s.w.onUpstreamGot(c, msg)
		for _, target := range strings.Split(par(0), ",") {
			out := &irc.Message{Prefix: c.u.prefix(), Command: msg.Command, Params: append([]string{target}, msg.Params[1:]...), Tags: irc.Tags{}}
			for k, v := range msg.Tags {
				if strings.HasPrefix(k, "+") {
					out.Tags[k] = v
				}
			}
			bare := strings.TrimLeft(target, "@+")
			if ch := s.chans[s.fold(bare)]; ch != nil {
				if _, ok := ch.members[c.u]; !ok {
					c.num("404", target, "Cannot send to channel")
					continue
				}
				s.toMembers(ch, c.u, out, nil)
			} else if u := s.users[s.fold(target)]; u != nil {
				if u.conn != nil && u != c.u {
					u.conn.event(out)
				}
				if u.away != "" {
					c.num("301", u.nick, u.away)
				}
			} else {
				c.num("401", target, "No such nick/channel")
				continue
			}
			s.w.accepted[par(1)] = true
			if c.caps["echo-message"] {
				c.replyMsg(out)
			}
			if u := s.users[s.fold(target)]; u != nil && u.conn == nil && strings.HasPrefix(u.nick, "bot") && msg.Command == "PRIVMSG" {
				// a bot answers at once, within the labeled response if any
				m := &wmsg{text: s.w.upText("r"), at: time.Now(), seq: s.w.nextSeq(), dir: "up", srv: s, from: u.nick, target: c.u.nick, cmd: "NOTICE", conns: []*iconn{c}, loose: true}
				s.w.msgs = append(s.w.msgs, m)
				s.w.byText[m.text] = m
				c.replyMsg(&irc.Message{Prefix: u.prefix(), Command: "NOTICE", Params: []string{c.u.nick, m.text}})
			}
		}
	case "TOPIC":
		ch := s.chans[s.fold(par(0))]
		if ch == nil {
			c.num("403", par(0), "No such channel")
			return
		}
		if len(msg.Params) == 1 {
			if ch.topic == "" {
				c.num("331", ch.name, "No topic is set")
			} else {
				c.num("332", ch.name, ch.topic)
				c.num("333", ch.name, ch.topicWho, strconv.FormatInt(ch.topicTime.Unix(), 10))
			}
			return
		}
		s.setTopic(c.u, ch, par(1), c)
	case "MODE":
		if ch := s.chans[s.fold(par(0))]; ch != nil {
			if len(msg.Params) == 1 {
				c.num("324", append([]string{ch.name}, ch.modeString()...)...)
				c.num("329", ch.name, strconv.FormatInt(ch.created.Unix(), 10))
				return
			}
			if par(1) == "b" || par(1) == "+b" && len(msg.Params) == 2 {
				c.num("367", ch.name, "*!*@bad", "someone", "1")
				c.num("368", ch.name, "End of channel ban list")
				return
			}
			s.chmode(c.u.prefix(), ch, par(1), msg.Params[2:], c)
			return
		}
		if s.fold(par(0)) == s.fold(c.u.nick) {
			if len(msg.Params) == 1 {
				c.num("221", "+"+c.u.modes)
				return
			}
			for i := 1; i < len(par(1)); i++ {
				m := string(par(1)[i])
				c.u.modes = strings.ReplaceAll(c.u.modes, m, "")
				if par(1)[0] == '+' {
					c.u.modes += m
				}
			}
			c.replyMsg(&irc.Message{Prefix: c.u.prefix(), Command: "MODE", Params: []string{c.u.nick, par(1)}})
			return
		}
		c.num("403", par(0), "No such channel")
	case "NAMES":
		if ch := s.chans[s.fold(par(0))]; ch != nil {
			c.sendNames(ch)
		} else {
			c.num("366", par(0), "End of /NAMES list")
		}
	case "LIST":
		c.num("321", "Channel", "Users  Name")
		for _, ch := range s.chanList() {
			c.num("322", ch.name, strconv.Itoa(len(ch.members)), ch.topic)
		}
		c.num("323", "End of /LIST")
	case "WHO":
		c.who(msg)
	case "WHOIS":
		nick := par(0)
		if len(msg.Params) > 1 {
			nick = par(1)
		}
		if u := s.users[s.fold(nick)]; u != nil {
			c.num("311", u.nick, u.user, u.host, "*", u.real)
			c.num("312", u.nick, s.srvName, "model")
			if u.account != "" {
				c.num("330", u.nick, u.account, "is logged in as")
			}
		} else {
			c.num("401", nick, "No such nick/channel")
		}
		c.num("318", nick, "End of /WHOIS list")
	case "AWAY":
		c.u.away = par(0)
		if par(0) == "" {
			c.num("305", "You are no longer marked as being away")
		} else {
			c.num("306", "You have been marked as being away")
		}
		for _, p := range s.peersOf(c.u) {
			if p != c.u && p.conn != nil && p.conn.caps["away-notify"] {
				p.conn.event(&irc.Message{Prefix: c.u.prefix(), Command: "AWAY", Params: msg.Params})
			}
		}
	case "SETNAME":
		c.u.real = par(0)
		for _, p := range s.peersOf(c.u) {
			if p.conn != nil && p.conn.caps["setname"] {
				m := &irc.Message{Prefix: c.u.prefix(), Command: "SETNAME", Params: msg.Params}
				if p == c.u {
					c.replyMsg(m)
				} else {
					p.conn.event(m)
				}
			}
		}
	case "MONITOR":
		c.handleMonitor(msg, par)
	case "INVITE":
		c.num("341", par(0), par(1))
		if u := s.users[s.fold(par(0))]; u != nil && u.conn != nil {
			u.conn.event(&irc.Message{Prefix: c.u.prefix(), Command: "INVITE", Params: []string{u.nick, par(1)}})
		}
	case "KICK":
		ch := s.chans[s.fold(par(0))]
		u := s.users[s.fold(par(1))]
		if ch == nil {
			c.num("403", par(0), "No such channel")
			return
		}
		if u == nil {
			c.num("401", par(1), "No such nick")
			return
		}
		s.kick(c.u.prefix(), ch, u, par(2), c)
	case "VERSION", "MOTD", "LUSERS", "ADMIN":
		c.num("422", "No MOTD")
	default:
		c.num("421", msg.Command, "Unknown command")
	}
}

func (s *ircd) kick(by *irc.Prefix, ch *ichan, u *iuser, reason string, from *iconn) {
	if _, ok := ch.members[u]; !ok {
		return
	}
	s.toMembers(ch, nil, &irc.Message{Prefix: by, Command: "KICK", Params: []string{ch.name, u.nick, reason}}, from)
	delete(ch.members, u)
}

func (c *iconn) who(msg *irc.Message) {
	s := c.srv
	mask := "*"
	if len(msg.Params) > 0 {
		mask = msg.Params[0]
	}
	fields := ""
	if len(msg.Params) > 1 {
		if i := strings.IndexByte(msg.Params[1], '%'); i >= 0 {
			fields = msg.Params[1][i+1:]
		}
	}
	token := ""
	if i := strings.IndexByte(fields, ','); i >= 0 {
		token = fields[i+1:]
		fields = fields[:i]
	}
	send := func(u *iuser, chName, memb string) {
		flags := "H"
		if u.away != "" {
			flags = "G"
		}
		if u.oper {
			flags += "*"
		}
		flags += memberPrefix(memb, true)
		if fields == "" {
			c.num("352", chName, u.user, u.host, s.srvName, u.nick, flags, "0 "+u.real)
			return
		}
		var p []string
		for _, f := range "tcuihsnfdlaor" {
			if !strings.ContainsRune(fields, f) {
				continue
			}
			switch f {
			case 't':
				p = append(p, token)
			case 'c':
				p = append(p, chName)
			case 'u':
				p = append(p, u.user)
			case 'i':
				p = append(p, "255.255.255.255")
			case 'h':
				p = append(p, u.host)
			case 's':
				p = append(p, s.srvName)
			case 'n':
				p = append(p, u.nick)
			case 'f':
				p = append(p, flags)
			case 'd', 'l':
				p = append(p, "0")
			case 'a':
				if u.account == "" {
					p = append(p, "0")
				} else {
					p = append(p, u.account)
				}
			case 'o':
				p = append(p, "n/a")
			case 'r':
				p = append(p, u.real)
			}
		}
		c.num("354", p...)
	}
	if ch := s.chans[s.fold(mask)]; ch != nil {
		for _, m := range ch.memberList() {
			send(m, ch.name, ch.members[m])
		}
	} else if u := s.users[s.fold(mask)]; u != nil {
		send(u, "*", "")
	}
	c.num("315", mask, "End of /WHO list")
}

func (c *iconn) handleMonitor(msg *irc.Message, par func(int) string) {
	s := c.srv
	switch par(0) {
	case "+":
		var on, off, full []string
		for _, t := range strings.Split(par(1), ",") {
			if t == "" {
				continue
			}
			if s.monitorLimit > 0 && len(c.monitor) >= s.monitorLimit && !c.monitor[s.fold(t)] {
				full = append(full, t)
				continue
			}
			c.monitor[s.fold(t)] = true
			if u := s.users[s.fold(t)]; u != nil {
				on = append(on, u.prefix().String())
			} else {
				off = append(off, t)
			}
		}
		// replies are packed, as real servers do
		if len(on) > 0 {
			c.num("730", strings.Join(on, ","))
		}
		if len(off) > 0 {
			c.num("731", strings.Join(off, ","))
		}
		if len(full) > 0 {
			c.num("734", strconv.Itoa(s.monitorLimit), strings.Join(full, ","), "Monitor list is full")
		}
	case "-":
		for _, t := range strings.Split(par(1), ",") {
			delete(c.monitor, s.fold(t))
		}
	case "C":
		c.monitor = map[string]bool{}
	}
}

// say delivers a message from a peer to a channel or to soju's user.
func (s *ircd) say(from *iuser, cmd, target, text string, tags irc.Tags) int {
	n := 0
	params := []string{target}
	if cmd != "TAGMSG" {
		params = append(params, text)
	}
	msg := &irc.Message{Tags: tags, Prefix: from.prefix(), Command: cmd, Params: params}
	bare := strings.TrimLeft(target, "@+")
	if ch := s.chans[s.fold(bare)]; ch != nil {
		for _, m := range ch.memberList() {
			if m.conn != nil && m != from {
				m.conn.event(msg.Copy())
				n++
			}
		}
	} else if u := s.users[s.fold(target)]; u != nil && u.conn != nil {
		u.conn.event(msg.Copy())
		n++
	}
	return n
}

// dropAll breaks every connection of this server.
func (s *ircd) dropAll(reset bool) int {
	n := 0
	for _, c := range s.conns {
		if c.gone {
			continue
		}
		n++
		if reset {
			c.conn.Reset()
		}
		c.drop("connection lost")
	}
	return n
}

func (s *ircd) url() string { return "irc+insecure://" + s.hostport }

var _ net.Listener = (*simListener)(nil)

// takesSASL: logging in while registering works.
func (s *ircd) takesSASL() bool { return s.saslMode == "" || s.saslMode == "already" }
