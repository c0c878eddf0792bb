package main

import (
	"fmt"
	"strings"
	"syscall"
	"time"

	"net"

	"gopkg.in/irc.v4"
)

// commonOp executes the steps every profile may use.
func (w *World) commonOp(o *Op) bool {
	switch o.K {
	case "open": // client key
		cc := w.cfg.client(o.s(0))
		if cc == nil || w.cur[cc.Key] != nil && !w.cur[cc.Key].closed && !w.cur[cc.Key].hungUp {
			return true
		}
		s := w.open(*cc)
		if s != nil && o.n(0) > 0 {
			s.waitReady(time.Duration(o.n(0)) * time.Second)
		}
	case "hangup": // client key, [1: reset]
		if s := w.cur[o.s(0)]; s != nil {
			s.hangup(o.n(0) == 1)
		}
	case "quit":
		if s := w.cur[o.s(0)]; s != nil && !s.hungUp && !s.closed {
			s.quit = true
			s.send("QUIT :bye")
		}
	case "say": // server, from, target, [cmd], [n repetitions]
		srv := w.ircds[o.s(0)]
		cmd := o.s(3)
		if cmd == "" {
			cmd = "PRIVMSG"
		}
		n := o.n(0)
		if n == 0 {
			n = 1
		}
		for i := 0; i < n; i++ {
			w.say(srv, o.s(1), cmd, w.target(srv, o.s(2)), w.upText("u"), nil)
		}
	case "send": // client key, raw line
		if s := w.cur[o.s(0)]; s != nil && !s.hungUp && !s.closed {
			s.send(o.s(1))
		}
	case "inj": // client key, first line, second line: in a single WebSocket message
		if s := w.cur[o.s(0)]; s != nil && !s.hungUp && !s.closed && s.cfg.WS != 0 {
			w.probe("several-lines")
			s.send(o.s(1) + "\r\n" + o.s(2))
		}
	case "msg": // client key, target, [cmd], [n]
		n := o.n(0)
		if n == 0 {
			n = 1
		}
		for i := 0; i < n; i++ {
			w.clientMsg(o.s(0), o.s(1), o.s(2))
		}
	case "serv": // client key, BouncerServ command
		if s := w.cur[o.s(0)]; s != nil && s.live() {
			s.send("PRIVMSG BouncerServ :" + o.s(1))
		}
	case "drop": // server: break upstream connections; [1: reset]
		srv := w.ircds[o.s(0)]
		if n := srv.dropAll(o.n(0) == 1); n > 0 {
			w.net.faults["upstream-drop"] += n
		}
	case "down": // server refuses connections for a while (until "up")
		w.fault("upstream-refuse")
		w.ircds[o.s(0)].ln.closed = true
	case "up":
		w.ircds[o.s(0)].ln.closed = false
	case "stall": // server, [in]: packets stop flowing without any error
		srv := w.ircds[o.s(0)]
		for _, c := range srv.conns {
			if !c.gone {
				w.fault("upstream-stall")
				c.conn.Stall(o.n(0) == 1, true)
				if c.stallFrom.IsZero() {
					c.stallFrom = time.Now()
				}
				c.stallTo = time.Time{}
			}
		}
	case "unstall":
		srv := w.ircds[o.s(0)]
		for _, c := range srv.conns {
			if !c.gone {
				c.conn.Stall(true, false)
				c.conn.Stall(false, false)
				c.stallTo = time.Now()
			}
		}
	case "cstall": // client stops reading, with a bounded socket buffer
		if s := w.cur[o.s(0)]; s != nil && !s.hungUp {
			w.fault("client-stall")
			s.faulty = true
			s.conn.in.capacity = 1 + o.n(0)
			s.conn.Stall(true, true)
		}
	case "cunstall":
		if s := w.cur[o.s(0)]; s != nil && !s.hungUp {
			s.conn.in.capacity = 0
			s.conn.Stall(true, false)
		}
	case "crash":
		w.crash()
	case "crashat": // crash at the n-th SQL statement from now
		w.crashAt = o.n(0)
	case "restart":
		w.restart()
	case "sleep":
	case "settle":
		w.settle(time.Duration(o.n(0)) * time.Second)
	case "pjoin": // server, peer, channel
		srv := w.ircds[o.s(0)]
		if u := srv.ghost(o.s(1)); u.conn == nil {
			srv.join(u, o.s(2), "")
		}
	case "pforce": // user/net, channel: the server makes the user join
		if c := w.connOf(o.s(0)); c != nil && c.registered && c.u != nil {
			if ch := c.srv.join(c.u, o.s(1), ""); ch != nil {
				c.joinTopic(ch)
				c.sendNames(ch)
			}
		}
	case "pmulti": // server, peer, JOIN or PART, channels: one line for all of them
		srv := w.ircds[o.s(0)]
		u := srv.ghost(o.s(1))
		if u.conn != nil {
			return true
		}
		var chs []*ichan
		for _, n := range strings.Split(o.s(3), ",") {
			ch := srv.channel(n)
			if _, on := ch.members[u]; on == (o.s(2) == "PART") {
				chs = append(chs, ch)
			}
		}
		for _, c := range srv.live() {
			var names []string
			for _, ch := range chs {
				if _, on := ch.members[c.u]; on {
					names = append(names, ch.name)
				}
			}
			if len(names) == 0 {
				continue
			}
			m := &irc.Message{Prefix: u.prefix(), Command: o.s(2), Params: []string{strings.Join(names, ",")}}
			if o.s(2) == "JOIN" && c.caps["extended-join"] {
				m.Params = append(m.Params, "*", u.real)
				if u.account != "" {
					m.Params[1] = u.account
				}
			}
			c.event(m)
			if u.away != "" && o.s(2) == "JOIN" && c.caps["away-notify"] {
				c.event(&irc.Message{Prefix: u.prefix(), Command: "AWAY", Params: []string{u.away}})
			}
		}
		for _, ch := range chs {
			if o.s(2) == "JOIN" {
				ch.members[u] = ""
			} else {
				delete(ch.members, u)
			}
		}
	case "ppart":
		srv := w.ircds[o.s(0)]
		srv.part(srv.ghost(o.s(1)), srv.channel(o.s(2)), o.s(3), nil)
	case "pquit":
		srv := w.ircds[o.s(0)]
		if u := srv.users[srv.fold(o.s(1))]; u != nil && u.conn == nil {
			srv.removeUser(u, "Quit: bye")
		}
	case "pnick":
		srv := w.ircds[o.s(0)]
		if u := srv.users[srv.fold(o.s(1))]; u != nil && u.conn == nil && (srv.users[srv.fold(o.s(2))] == nil || srv.fold(o.s(1)) == srv.fold(o.s(2))) {
			srv.rename(u, o.s(2))
		}
	case "ptopic":
		srv := w.ircds[o.s(0)]
		srv.setTopic(srv.ghost(o.s(1)), srv.channel(o.s(2)), o.s(3), nil)
	case "pmode": // server, peer, chan, modes, args...
		srv := w.ircds[o.s(0)]
		var args []string
		for _, a := range o.S[4:] {
			args = append(args, w.target(srv, a))
		}
		srv.chmode(srv.ghost(o.s(1)).prefix(), srv.channel(o.s(2)), o.s(3), args, nil)
	case "pkick": // server, peer, chan, victim ("@user/net" or nick)
		srv := w.ircds[o.s(0)]
		if u := srv.users[srv.fold(w.target(srv, o.s(3)))]; u != nil {
			srv.kick(srv.ghost(o.s(1)).prefix(), srv.channel(o.s(2)), u, "out", nil)
		}
	case "pinvite": // server, peer, channel, whom
		srv := w.ircds[o.s(0)]
		if u := srv.users[srv.fold(w.target(srv, o.s(3)))]; u != nil && u.conn != nil {
			if ch := srv.channel(o.s(2)); ch.members[u] == "" {
				if _, on := ch.members[u]; !on {
					u.conn.event(&irc.Message{Prefix: srv.ghost(o.s(1)).prefix(), Command: "INVITE", Params: []string{u.nick, ch.name}})
				}
			}
		}
	case "praw": // server, raw line to every live connection
		srv := w.ircds[o.s(0)]
		for _, c := range srv.live() {
			c.raw(strings.ReplaceAll(o.s(1), "$me", c.nick()))
		}
	case "dialfault": // server, percent, max delay ms: later dials may fail
		w.setDialFault(o.s(0), o.n(0), o.n(1))
	case "clock": // jump of the wall clock in seconds
		w.jumpClock(o.n(0))
	default:
		f := ops[o.K]
		if f == nil {
			return false
		}
		f(w, o)
	}
	return true
}

// ops holds the steps defined next to the profiles that use them.
var ops = map[string]func(w *World, o *Op){}

// target resolves "@user/net" to the nick that user currently has there.
func (w *World) target(srv *ircd, t string) string {
	if !strings.HasPrefix(t, "@") || !strings.Contains(t, "/") {
		return t
	}
	c := w.connOf(t[1:])
	if c == nil {
		return "nobody"
	}
	return c.nick()
}

// connOf returns the live upstream connection of "user/net".
func (w *World) connOf(un string) *iconn {
	user, name, _ := strings.Cut(un, "/")
	uc := w.cfg.user(user)
	if uc == nil {
		return nil
	}
	nc := uc.net(name)
	if nc == nil {
		return nil
	}
	srv := w.ircds[nc.Server]
	for i := len(srv.conns) - 1; i >= 0; i-- {
		c := srv.conns[i]
		if c.registered && !c.gone && w.ownerOf(c) == un {
			return c
		}
	}
	return nil
}

// ownerOf tells which user/network a connection belongs to, by the USER
// command (each network has its own realname in the plans).
func (w *World) ownerOf(c *iconn) string {
	if c.gotUser == nil {
		return ""
	}
	real := par(c.gotUser, 3)
	for i := range w.cfg.Users {
		u := &w.cfg.Users[i]
		for j := range u.Nets {
			if u.Nets[j].Real != "" && u.Nets[j].Real == real {
				return u.Name + "/" + u.Nets[j].Name
			}
		}
	}
	return ""
}

// clientMsg sends one chat message with a unique text from a client.
func (w *World) clientMsg(key, target, cmd string) *wmsg {
	s := w.cur[key]
	if s == nil || !s.live() {
		return nil
	}
	if cmd == "" {
		cmd = "PRIVMSG"
	}
	m := &wmsg{text: w.upText("d"), at: time.Now(), seq: w.nextSeq(), dir: "down", from: key, target: target, cmd: cmd, sess: s}
	w.msgs = append(w.msgs, m)
	w.byText[m.text] = m
	s.send(fmt.Sprintf("%s %s :%s", cmd, target, m.text))
	return m
}

func (w *World) setDialFault(name string, pct, delay int) {
	hp := w.ircds[name].hostport
	w.net.dialFault = func(addr string) (time.Duration, error) {
		if addr != hp || !w.faults {
			return 0, nil
		}
		var d time.Duration
		if delay > 0 {
			d = time.Duration(w.rng.intn(delay)) * time.Millisecond
			w.fault("dial-delay")
		}
		if w.rng.chance(pct) {
			w.fault("dial-refused")
			return d, &net.OpError{Op: "dial", Net: "tcp", Err: syscall.ECONNREFUSED}
		}
		return d, nil
	}
}
