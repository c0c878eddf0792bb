package main

import (
	"bufio"
	"encoding/base64"
	"fmt"
	"sort"
	"strings"
	"time"

	"gopkg.in/irc.v4"
)

// cline is one line a client received.
type cline struct {
	at  time.Time
	seq int
	msg *irc.Message
	raw string
}

// ClientCfg describes how a model client logs in.
type ClientCfg struct {
	Key    string   `json:"key"` // identity in the plan
	User   string   `json:"user"`
	Net    string   `json:"net,omitempty"`
	Client string   `json:"client,omitempty"`
	Pass   string   `json:"pass,omitempty"`
	Caps   []string `json:"caps,omitempty"`
	SASL   bool     `json:"sasl,omitempty"`
	Nick   string   `json:"nick,omitempty"`
	NoPong bool     `json:"nopong,omitempty"`
	Bind   int      `json:"bind,omitempty"`
	As     string   `json:"as,omitempty"` // SASL authorization identity
	Away   string   `json:"away,omitempty"`
	WS     int      `json:"ws,omitempty"`   // over a WebSocket; 2: fragmented
	From   string   `json:"from,omitempty"` // address it connects from
	Head   []string `json:"head,omitempty"` // more header fields of its WebSocket request
}

func (c *ClientCfg) login() string {
	s := c.User
	if c.Net != "" {
		s += "/" + c.Net
	}
	if c.Client != "" {
		s += "@" + c.Client
	}
	return s
}

// sess is one connection of a model client.
type sess struct {
	w          *World
	cfg        ClientCfg
	idx        int
	inst       *instance
	conn       *simConn
	lines      []cline
	sentN      int
	sent       []cline
	openedAt   time.Time
	registered bool // got RPL_WELCOME
	ready      bool // got end of MOTD
	readyAt    time.Time
	nickAt     time.Time // when it was last told, after the welcome, to have another nickname
	realAt     time.Time // or real name
	readySeq   int
	closed     bool // reader saw the end of the stream
	closedAt   time.Time
	hungUp     bool // closed by the client side
	hungAt     time.Time
	caps       map[string]bool
	avail      map[string]string
	nick       string
	chans      map[string]*cchan
	faulty     bool // a fault was injected on this link
	isupport   map[string]string
	realname   string
	casemap    string
	batches    map[string]string
	errText    string
	onLine     func(msg *irc.Message)
	capsDone   bool
	saslBuf    string
	account    string
	quit       bool
	netState   map[string]map[string]string // BOUNCER NETWORK view
	readSlow   time.Duration
	netSeen    map[string]map[string]string // view when the listing began
	netList    map[string]map[string]string // the listing
	netLists   int
	manual     bool // the plan drives the registration
	usedCH     bool // issued CHATHISTORY/SEARCH, so may see a message again
	joinSeq    map[string]int
	ownJoins   map[int]bool
	wsOpen     bool
	wsQueue    []string
	wsStatus   int // of the answer to its WebSocket request
}

// cchan is what the client believes about a channel.
type cchan struct {
	name    string
	members map[string]string // folded nick -> prefixes
	nicks   map[string]string // folded -> display
	topic   string
	names   map[string]string // NAMES burst being received
	nnicks  map[string]string
	gotEnd  bool
	modes   map[byte]string
}

// dial opens a client session; ok reports whether soju accepted the TCP
// connection.
func (w *World) dial(cfg ClientCfg) *sess {
	s := &sess{w: w, cfg: cfg, idx: len(w.sess), inst: w.inst, openedAt: time.Now(), caps: map[string]bool{}, avail: map[string]string{}, chans: map[string]*cchan{}, isupport: map[string]string{}, casemap: "ascii", batches: map[string]string{}, netState: map[string]map[string]string{}, joinSeq: map[string]int{}, ownJoins: map[int]bool{}}
	addr := sojuAddr
	if cfg.WS != 0 {
		addr = httpAddr
	}
	from := cfg.From
	if from == "" {
		from = fmt.Sprintf("198.51.100.%d", 1+len(cfg.Key)%200)
	}
	c, err := w.net.connect("client:"+cfg.Key, from, addr)
	if err != nil {
		w.tracef("client %s: %v", cfg.Key, err)
		return nil
	}
	s.conn = c
	w.sess = append(w.sess, s)
	w.cur[cfg.Key] = s
	w.tracef("client %s connects (session %d)", cfg.Key, s.idx)
	if cfg.WS != 0 {
		s.wsStart()
		go s.wsRead()
		return s
	}
	go s.read()
	return s
}

// open dials and starts logging in.
func (w *World) open(cfg ClientCfg) *sess {
	s := w.dial(cfg)
	if s == nil {
		return nil
	}
	nick := cfg.Nick
	if nick == "" {
		nick = cfg.User
	}
	pass := cfg.Pass
	if pass == "" {
		pass = w.cfg.passwordOf(cfg.User)
	}
	if cfg.SASL || len(cfg.Caps) > 0 {
		s.send("CAP LS 302")
	}
	if !cfg.SASL {
		if strings.Contains(pass, " ") {
			pass = ":" + pass
		}
		s.send("PASS " + pass)
	}
	s.send("NICK " + nick)
	s.realname = "Real " + cfg.User
	s.send("USER " + cfg.login() + " 0 * :Real " + cfg.User)
	return s
}

func (s *sess) label() string { return fmt.Sprintf("%s.%d", s.cfg.Key, s.idx) }

// send queues a raw line towards soju.
func (s *sess) send(line string) {
	if s.conn.closed {
		return
	}
	s.w.tracef("%s => %s", s.label(), line)
	msg, _ := irc.ParseMessage(line)
	s.sent = append(s.sent, cline{time.Now(), s.w.nextSeq(), msg, line})
	if s.conn.peer.closed || s.conn.out.err != nil {
		return
	}
	if s.cfg.WS != 0 {
		s.wsSend(line)
		return
	}
	s.conn.push([]byte(line + "\r\n"))
}

func (s *sess) live() bool { return s.ready && !s.closed && !s.hungUp }

// hangup closes the connection from the client side.
func (s *sess) hangup(reset bool) {
	if s.hungUp || s.closed {
		return
	}
	s.hungUp = true
	s.hungAt = time.Now()
	s.w.tracef("%s hangs up reset=%v", s.label(), reset)
	if reset {
		s.w.fault("client-reset")
		s.conn.Reset()
	}
	s.conn.Close()
}

func (s *sess) read() {
	r := bufio.NewReader(s.conn)
	for {
		line, err := r.ReadString('\n')
		if err != nil {
			s.closed = true
			s.closedAt = time.Now()
			s.w.tracef("%s closed: %v", s.label(), err)
			return
		}
		s.gotLine(strings.TrimRight(line, "\r\n"))
	}
}

func (s *sess) gotLine(line string) {
	msg, err := irc.ParseMessage(line)
	if err != nil {
		s.w.fail("C11", "unparseable-line", "client %s received an unparseable line %q", s.label(), line)
		return
	}
	if s.hungUp {
		return
	}
	s.w.tracef("%s <= %s", s.label(), line)
	s.lines = append(s.lines, cline{time.Now(), s.w.nextSeq(), msg, line})
	if strings.HasPrefix(msg.Command, "XINJ") {
		s.w.fail("C19", "injected-line", "client %s received %q, which is part of another client's message", s.label(), line)
	}
	s.handle(msg)
	if s.w.plan.Profile == "detach" {
		s.hear(msg)
	}
	if s.onLine != nil {
		s.onLine(msg)
	}
	if s.readSlow > 0 {
		time.Sleep(s.readSlow)
	}
}

func (s *sess) fold(n string) string { return foldFor(s.casemap, n) }

func par(msg *irc.Message, i int) string {
	if i >= 0 && i < len(msg.Params) {
		return msg.Params[i]
	}
	return ""
}

func (s *sess) handle(msg *irc.Message) {
	s.conformance(msg)
	switch msg.Command {
	case "CAP":
		s.handleCap(msg)
	case "AUTHENTICATE":
		if par(msg, 0) == "+" && !s.registered && !s.manual {
			pass := s.cfg.Pass
			if pass == "" {
				pass = s.w.cfg.passwordOf(s.cfg.User)
			}
			resp := s.cfg.As + "\x00" + s.cfg.login() + "\x00" + pass
			s.send("AUTHENTICATE " + base64.StdEncoding.EncodeToString([]byte(resp)))
		}
	case "903":
		if !s.registered && !s.manual {
			if s.cfg.Bind > 0 {
				s.send(fmt.Sprintf("BOUNCER BIND %d", s.cfg.Bind))
			}
			s.send("CAP END")
		}
	case "904", "905", "906", "908":
		if !s.registered && !s.manual {
			s.send("CAP END")
		}
	case "001":
		s.registered = true
		s.nick = par(msg, 0)
	case "005":
		for _, t := range msg.Params[1 : len(msg.Params)-1] {
			k, v, _ := strings.Cut(t, "=")
			if strings.HasPrefix(k, "-") {
				delete(s.isupport, k[1:])
				continue
			}
			s.isupport[k] = v
			if k == "CASEMAPPING" {
				s.casemap = v
			}
		}
	case "376", "422":
		if !s.ready {
			s.ready = true
			s.readyAt = time.Now()
			s.readySeq = s.w.seq
			if s.manual {
				s.w.onLoginReady(s)
			}
		}
	case "PING":
		if !s.cfg.NoPong {
			s.send("PONG :" + par(msg, 0))
		}
	case "ERROR":
		s.errText = par(msg, 0)
	case "BATCH":
		ref := par(msg, 0)
		if par(msg, 1) == "soju.im/bouncer-networks" || s.batches[strings.TrimPrefix(ref, "-")] == "soju.im/bouncer-networks" {
			s.listed(msg)
		}
		if strings.HasPrefix(ref, "+") {
			s.batches[ref[1:]] = par(msg, 1)
		} else if strings.HasPrefix(ref, "-") {
			delete(s.batches, ref[1:])
		}
	case "900":
		s.account = par(msg, 2)
	case "901":
		s.account = ""
	case "BOUNCER":
		if par(msg, 0) == "NETWORK" {
			s.listed(msg)
			s.handleBouncerNetwork(msg)
		}
	}
	if b := msg.Tags["batch"]; b != "" && (s.batches[b] == "chathistory" || s.batches[b] == "soju.im/search") {
		return // history does not change state
	}
	s.track(msg)
}

func (s *sess) handleBouncerNetwork(msg *irc.Message) {
	id := par(msg, 1)
	attrs := par(msg, 2)
	if attrs == "*" {
		delete(s.netState, id)
		return
	}
	m := s.netState[id]
	if m == nil {
		m = map[string]string{}
		s.netState[id] = m
	}
	for k, v := range irc.ParseTags(attrs) {
		if v == "" {
			delete(m, k)
		} else {
			m[k] = v
		}
	}
}

func (s *sess) handleCap(msg *irc.Message) {
	switch strings.ToUpper(par(msg, 1)) {
	case "LS":
		for _, c := range strings.Fields(par(msg, len(msg.Params)-1)) {
			k, v, _ := strings.Cut(c, "=")
			s.avail[k] = v
		}
		if len(msg.Params) > 3 && par(msg, 2) == "*" {
			return
		}
		var want []string
		for _, c := range s.cfg.Caps {
			if _, ok := s.avail[c]; ok {
				want = append(want, c)
			}
		}
		if s.cfg.SASL {
			want = append(want, "sasl")
		}
		if s.capsDone {
			return
		}
		s.capsDone = true
		sort.Strings(want)
		if len(want) == 0 {
			s.send("CAP END")
			return
		}
		s.send("CAP REQ :" + strings.Join(want, " "))
	case "ACK":
		for _, c := range strings.Fields(par(msg, 2)) {
			if strings.HasPrefix(c, "-") {
				delete(s.caps, c[1:])
			} else {
				s.caps[c] = true
			}
		}
		if !s.registered && !s.manual {
			if s.cfg.Away != "" {
				s.send("AWAY :" + s.cfg.Away)
			}
			if s.cfg.SASL {
				s.send("AUTHENTICATE PLAIN")
			} else {
				s.send("CAP END")
			}
		}
	case "NAK":
		if !s.registered && !s.manual {
			s.send("CAP END")
		}
	case "NEW":
		for _, c := range strings.Fields(par(msg, 2)) {
			k, v, _ := strings.Cut(c, "=")
			s.avail[k] = v
		}
	case "DEL":
		for _, c := range strings.Fields(par(msg, 2)) {
			delete(s.avail, c)
			delete(s.caps, c)
		}
	}
}

// conformance checks rules every client relies on for every line.
func (s *sess) conformance(msg *irc.Message) {
	w := s.w
	bad := func(class, format string, args ...any) {
		w.fail("C19", class, "client %s (caps %v): %s: %q", s.label(), sortedKeys(s.caps), fmt.Sprintf(format, args...), msg.String())
	}
	for k := range msg.Tags {
		ok := s.caps["message-tags"]
		switch k {
		case "time":
			ok = ok || s.caps["server-time"]
		case "account":
			ok = ok || s.caps["account-tag"]
		case "batch":
			ok = s.caps["batch"]
		case "label":
			ok = s.caps["labeled-response"]
		}
		if !ok {
			bad("tag-not-negotiated", "tag %q not negotiated", k)
		}
	}
	if b := msg.Tags["batch"]; b != "" {
		if _, ok := s.batches[b]; !ok {
			bad("batch-unknown", "refers to a batch that is not open")
		}
	}
	need := map[string]string{"TAGMSG": "message-tags", "SETNAME": "setname", "CHGHOST": "chghost", "AWAY": "away-notify", "ACCOUNT": "account-notify", "MARKREAD": "draft/read-marker", "BATCH": "batch"}
	if c := need[msg.Command]; c != "" && !s.caps[c] {
		bad("command-not-negotiated", "needs capability %s", c)
	}
	if msg.Command == "JOIN" && len(msg.Params) > 1 && !s.caps["extended-join"] {
		bad("extended-join", "extended JOIN not negotiated")
	}
	if msg.Command == "BATCH" {
		ref := par(msg, 0)
		switch {
		case strings.HasPrefix(ref, "+"):
			if _, ok := s.batches[ref[1:]]; ok {
				bad("batch-reopened", "opens a batch that is already open")
			}
		case strings.HasPrefix(ref, "-"):
			if _, ok := s.batches[ref[1:]]; !ok {
				bad("batch-unopened", "closes a batch that is not open")
			}
		default:
			bad("batch-malformed", "malformed BATCH")
		}
	}
	if len(msg.Command) == 3 && msg.Command[0] >= '0' && msg.Command[0] <= '9' && msg.Prefix == nil {
		bad("numeric-no-source", "numeric without a source")
	}
	if len(msg.Command) == 3 && msg.Command[0] >= '0' && msg.Command[0] <= '9' && s.registered && w.plan.Profile == "conform" && par(msg, 0) != "*" && s.fold(par(msg, 0)) != s.fold(s.nick) {
		bad("numeric-target", "numeric for somebody else than %s", s.nick)
	}
}

func sortedKeys[V any](m map[string]V) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// track maintains the client's view of its channels.
func (s *sess) track(msg *irc.Message) {
	who := ""
	if msg.Prefix != nil {
		who = msg.Prefix.Name
	}
	self := s.registered && who != "" && s.fold(who) == s.fold(s.nick)
	switch msg.Command {
	case "JOIN":
		name := par(msg, 0)
		k := s.fold(name)
		if self {
			s.chans[k] = &cchan{name: name, members: map[string]string{}, nicks: map[string]string{}, modes: map[byte]string{}}
			s.joinSeq[k] = s.w.seq
			s.ownJoins[s.w.seq] = true
		}
		if ch := s.chans[k]; ch != nil {
			ch.members[s.fold(who)] = ""
			ch.nicks[s.fold(who)] = who
		}
	case "SETNAME":
		if self {
			s.realname = par(msg, 0)
			if !s.readyAt.IsZero() {
				s.realAt = time.Now()
			}
		}
	case "PART":
		k := s.fold(par(msg, 0))
		if self {
			delete(s.chans, k)
		} else if ch := s.chans[k]; ch != nil {
			delete(ch.members, s.fold(who))
			delete(ch.nicks, s.fold(who))
		}
	case "405", "471", "473", "474", "475", "476", "477":
		// the server refused to let us (back) in
		delete(s.chans, s.fold(par(msg, 1)))
	case "KICK":
		k := s.fold(par(msg, 0))
		n := s.fold(par(msg, 1))
		if n == s.fold(s.nick) {
			delete(s.chans, k)
		} else if ch := s.chans[k]; ch != nil {
			delete(ch.members, n)
			delete(ch.nicks, n)
		}
	case "QUIT":
		for _, ch := range s.chans {
			delete(ch.members, s.fold(who))
			delete(ch.nicks, s.fold(who))
		}
	case "NICK":
		n := par(msg, 0)
		for _, ch := range s.chans {
			if m, ok := ch.members[s.fold(who)]; ok {
				delete(ch.members, s.fold(who))
				delete(ch.nicks, s.fold(who))
				ch.members[s.fold(n)] = m
				ch.nicks[s.fold(n)] = n
			}
		}
		if self {
			s.nick = n
			if !s.readyAt.IsZero() {
				s.nickAt = time.Now()
			}
		}
	case "TOPIC", "332", "331":
		i := 0
		if msg.Command != "TOPIC" {
			i = 1
		}
		if ch := s.chans[s.fold(par(msg, i))]; ch != nil {
			if msg.Command == "331" {
				ch.topic = ""
			} else {
				ch.topic = par(msg, i+1)
			}
		}
	case "353":
		if ch := s.chans[s.fold(par(msg, 2))]; ch != nil {
			if ch.names == nil {
				ch.names = map[string]string{}
				ch.nnicks = map[string]string{}
			}
			for _, n := range strings.Fields(par(msg, 3)) {
				p := n[:len(n)-len(strings.TrimLeft(n, "~&@%+"))]
				n = n[len(p):]
				if i := strings.IndexByte(n, '!'); i >= 0 {
					n = n[:i]
				}
				ch.names[s.fold(n)] = p
				ch.nnicks[s.fold(n)] = n
			}
		}
	case "366":
		if ch := s.chans[s.fold(par(msg, 1))]; ch != nil {
			if ch.names != nil {
				ch.members, ch.nicks = ch.names, ch.nnicks
				ch.names, ch.nnicks = nil, nil
			}
			ch.gotEnd = true
		}
	case "MODE":
		if ch := s.chans[s.fold(par(msg, 0))]; ch != nil && len(msg.Params) > 1 {
			s.trackMode(ch, par(msg, 1), msg.Params[2:])
		}
	case "324":
		if ch := s.chans[s.fold(par(msg, 1))]; ch != nil && len(msg.Params) > 2 {
			ch.modes = map[byte]string{}
			s.trackMode(ch, par(msg, 2), msg.Params[3:])
		}
	}
}

func (s *sess) trackMode(ch *cchan, modes string, args []string) {
	plus := true
	i := 0
	arg := func() string {
		if i < len(args) {
			i++
			return args[i-1]
		}
		return ""
	}
	for k := 0; k < len(modes); k++ {
		switch m := modes[k]; m {
		case '+':
			plus = true
		case '-':
			plus = false
		case 'o', 'v', 'q', 'a', 'h':
			n := s.fold(arg())
			p := memberPrefix(string(m), true)
			if cur, ok := ch.members[n]; ok {
				cur = strings.ReplaceAll(cur, p, "")
				if plus {
					cur += p
				}
				// highest first
				ch.members[n] = ""
				for _, x := range "~&@%+" {
					if strings.ContainsRune(cur, x) {
						ch.members[n] += string(x)
					}
				}
			}
		case 'b':
			arg()
		case 'k':
			a := arg()
			if plus {
				ch.modes['k'] = a
			} else {
				delete(ch.modes, 'k')
			}
		case 'l':
			if plus {
				ch.modes['l'] = arg()
			} else {
				delete(ch.modes, 'l')
			}
		default:
			if plus {
				ch.modes[m] = ""
			} else {
				delete(ch.modes, m)
			}
		}
	}
}

// waitReady waits until the session is registered (or gone).
func (s *sess) waitReady(limit time.Duration) bool {
	end := time.Now().Add(limit)
	for time.Now().Before(end) && !s.ready && !s.closed {
		time.Sleep(50 * time.Millisecond)
	}
	return s.live()
}

// count returns how many received lines satisfy f.
func (s *sess) count(f func(l *cline) bool) int {
	n := 0
	for i := range s.lines {
		if f(&s.lines[i]) {
			n++
		}
	}
	return n
}
