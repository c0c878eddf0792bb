package soju

import (
	"bufio"
	"context"
	"fmt"
	"net"
	"strings"
	"sync"
	"testing"
	"time"

	"gopkg.in/irc.v4"

	"codeberg.org/emersion/soju/auth"
	"codeberg.org/emersion/soju/database"
)

// A small scripted IRC server and client for demonstrations.

type kit struct {
	t   *testing.T
	db  database.Database
	srv *Server
}

func newKit(t *testing.T) *kit {
	db := createTempSqliteDB(t)
	return &kit{t: t, db: db}
}

func (k *kit) start(mod func(cfg *Config)) {
	srv := NewServer(k.db)
	srv.Logger = NewLogger(kitLog{k.t}, false)
	cfg := *srv.Config()
	cfg.Hostname = "soju.test"
	cfg.Auth = auth.NewInternal()
	cfg.MsgStoreDriver = "memory"
	cfg.MaxUserNetworks = -1
	if mod != nil {
		mod(&cfg)
	}
	srv.SetConfig(&cfg)
	if err := srv.Start(); err != nil {
		k.t.Fatalf("start: %v", err)
	}
	k.srv = srv
}

type kitLog struct{ t *testing.T }

func (l kitLog) Write(b []byte) (int, error) { return len(b), nil }

func (k *kit) addUser(name string, mod func(u *database.User)) *database.User {
	u := database.NewUser(name)
	if err := u.SetPassword("pw"); err != nil {
		k.t.Fatal(err)
	}
	if mod != nil {
		mod(u)
	}
	if err := k.db.StoreUser(context.Background(), u); err != nil {
		k.t.Fatal(err)
	}
	return u
}

func (k *kit) addNet(u *database.User, name string, s *kserver, mod func(n *database.Network)) *database.Network {
	n := database.NewNetwork("irc+insecure://" + s.ln.Addr().String())
	n.Name = name
	n.Nick = u.Username
	if mod != nil {
		mod(n)
	}
	if err := k.db.StoreNetwork(context.Background(), u.ID, n); err != nil {
		k.t.Fatal(err)
	}
	return n
}

func (k *kit) addChan(n *database.Network, name string, mod func(ch *database.Channel)) {
	ch := &database.Channel{Name: name}
	if mod != nil {
		mod(ch)
	}
	if err := k.db.StoreChannel(context.Background(), n.ID, ch); err != nil {
		k.t.Fatal(err)
	}
}

// kserver is a scripted upstream server.
type kserver struct {
	t        *testing.T
	ln       net.Listener
	caps     string
	isupport string
	mu       sync.Mutex
	conns    []*kconn
	hook     func(c *kconn, msg *irc.Message) bool
}

type kconn struct {
	s     *kserver
	c     net.Conn
	nick  string
	mu    sync.Mutex
	lines []string
	reg   bool
	gone  bool
	capng bool
	user  bool
}

func newKServer(t *testing.T, caps string) *kserver {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	s := &kserver{t: t, ln: ln, caps: caps}
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			kc := &kconn{s: s, c: c}
			s.mu.Lock()
			s.conns = append(s.conns, kc)
			s.mu.Unlock()
			go kc.loop()
		}
	}()
	return s
}

func (c *kconn) send(format string, args ...interface{}) {
	fmt.Fprintf(c.c, format+"\r\n", args...)
}

func (c *kconn) loop() {
	r := bufio.NewReader(c.c)
	for {
		line, err := r.ReadString('\n')
		if err != nil {
			c.mu.Lock()
			c.gone = true
			c.mu.Unlock()
			return
		}
		line = strings.TrimRight(line, "\r\n")
		c.mu.Lock()
		c.lines = append(c.lines, line)
		c.mu.Unlock()
		msg, err := irc.ParseMessage(line)
		if err != nil {
			continue
		}
		if c.s.hook != nil && c.s.hook(c, msg) {
			continue
		}
		switch msg.Command {
		case "CAP":
			switch msg.Params[0] {
			case "LS":
				if c.s.caps != "" {
					c.capng = true
					c.send(":irc.test CAP * LS :%s", c.s.caps)
				}
			case "REQ":
				c.send(":irc.test CAP * ACK :%s", msg.Params[1])
			case "END":
				c.capng = false
				c.tryReg()
			}
		case "NICK":
			if c.reg {
				c.send(":%s!u@h NICK %s", c.nick, msg.Params[0])
			}
			c.nick = msg.Params[0]
			c.tryReg()
		case "USER":
			c.user = true
			c.tryReg()
		case "PING":
			c.send(":irc.test PONG irc.test :%s", msg.Params[0])
		case "JOIN":
			for _, ch := range strings.Split(msg.Params[0], ",") {
				c.send(":%s!u@h JOIN %s", c.nick, ch)
				c.send(":irc.test 353 %s = %s :@peer %s", c.nick, ch, c.nick)
				c.send(":irc.test 366 %s %s :End", c.nick, ch)
			}
		case "PART":
			c.send(":%s!u@h PART %s", c.nick, msg.Params[0])
		case "AWAY":
			if len(msg.Params) > 0 {
				c.send(":irc.test 306 %s :away", c.nick)
			} else {
				c.send(":irc.test 305 %s :back", c.nick)
			}
		}
	}
}

func (c *kconn) tryReg() {
	if c.reg || c.capng || !c.user || c.nick == "" {
		return
	}
	c.send(":irc.test 001 %s :Welcome", c.nick)
	is := "CHANTYPES=#& PREFIX=(ov)@+ CHANMODES=b,k,l,imnst NETWORK=test CASEMAPPING=rfc1459"
	if c.s.isupport != "" {
		is += " " + c.s.isupport
	}
	c.send(":irc.test 005 %s %s :are supported", c.nick, is)
	c.send(":irc.test 422 %s :No MOTD", c.nick)
	c.mu.Lock()
	c.reg = true
	c.mu.Unlock()
}

// conn waits for the n-th connection to be registered.
func (s *kserver) conn(n int) *kconn {
	s.t.Helper()
	for i := 0; i < 3000; i++ {
		s.mu.Lock()
		var c *kconn
		if len(s.conns) > n {
			c = s.conns[n]
		}
		s.mu.Unlock()
		if c != nil {
			c.mu.Lock()
			ok := c.reg
			c.mu.Unlock()
			if ok {
				return c
			}
		}
		time.Sleep(10 * time.Millisecond)
	}
	s.t.Fatalf("no upstream connection %d", n)
	return nil
}

func (c *kconn) wait(d time.Duration, sub string) bool {
	end := time.Now().Add(d)
	for time.Now().Before(end) {
		c.mu.Lock()
		for _, l := range c.lines {
			if strings.Contains(l, sub) {
				c.mu.Unlock()
				return true
			}
		}
		c.mu.Unlock()
		time.Sleep(5 * time.Millisecond)
	}
	return false
}

func (c *kconn) count(sub string) int {
	c.mu.Lock()
	defer c.mu.Unlock()
	n := 0
	for _, l := range c.lines {
		if strings.Contains(l, sub) {
			n++
		}
	}
	return n
}

// kclient is a scripted client.
type kclient struct {
	t      *testing.T
	c      net.Conn
	mu     sync.Mutex
	lines  []string
	closed bool
	hold   chan struct{} // non-nil: reading waits until it is closed
	nopong bool
}

func (k *kit) dial() *kclient {
	a, b := net.Pipe()
	go k.srv.Handle(newNetIRCConn(a))
	c := &kclient{t: k.t, c: b}
	go c.loop()
	return c
}

// login opens a registered client; login is "user/net@client".
func (k *kit) login(login, caps string) *kclient {
	k.t.Helper()
	c := k.dial()
	if caps != "" {
		c.send("CAP REQ :%s", caps)
	}
	c.send("PASS pw")
	c.send("NICK %s", strings.FieldsFunc(login, func(r rune) bool { return r == '/' || r == '@' })[0])
	c.send("USER %s 0 * :x", login)
	if caps != "" {
		c.send("CAP END")
	}
	if !c.wait(10*time.Second, " 422 ") && !c.wait(time.Second, " 376 ") {
		k.t.Fatalf("login failed: %q", c.all())
	}
	return c
}

func (c *kclient) send(format string, args ...interface{}) {
	c.c.SetWriteDeadline(time.Now().Add(20 * time.Second))
	fmt.Fprintf(c.c, format+"\r\n", args...)
}

func (c *kclient) loop() {
	r := bufio.NewReader(c.c)
	for {
		c.mu.Lock()
		h := c.hold
		c.mu.Unlock()
		if h != nil {
			<-h
		}
		line, err := r.ReadString('\n')
		if err != nil {
			c.mu.Lock()
			c.closed = true
			c.mu.Unlock()
			return
		}
		line = strings.TrimRight(line, "\r\n")
		c.mu.Lock()
		c.lines = append(c.lines, line)
		np := c.nopong
		c.mu.Unlock()
		if i := strings.Index(line, "PING "); i >= 0 && !np && (i == 0 || line[0] == ':' && strings.Count(line[:i], " ") == 1) {
			tok := strings.TrimPrefix(line[i+5:], ":")
			go c.send("PONG :%s", tok)
		}
	}
}

func (c *kclient) all() []string {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]string(nil), c.lines...)
}

func (c *kclient) wait(d time.Duration, sub string) bool {
	end := time.Now().Add(d)
	for time.Now().Before(end) {
		if c.count(sub) > 0 {
			return true
		}
		time.Sleep(5 * time.Millisecond)
	}
	return false
}

func (c *kclient) count(sub string) int {
	n := 0
	for _, l := range c.all() {
		if strings.Contains(l, sub) {
			n++
		}
	}
	return n
}

func (c *kclient) isClosed() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.closed
}

var kitPingN int

// sync waits until everything sent so far was handled.
func (c *kclient) sync() bool {
	kitPingN++
	tok := fmt.Sprintf("kit%d", kitPingN)
	c.send("PING %s", tok)
	return c.wait(15*time.Second, tok)
}
