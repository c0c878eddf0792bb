package main

import (
	"bufio"
	"fmt"
	"strings"
	"time"

	"gopkg.in/irc.v4"
)

// The administration socket: what sojuctl uses.  Each request has its own
// connection, which doesn't go through any user.

// admAsk is a request on the administration socket.
type admAsk struct {
	line    string
	inst    *instance
	conn    *simConn
	at      time.Time
	seq     int
	replies []*irc.Message
	answer  *irc.Message // the final one
	closed  bool
}

// adm sends a raw line to the administration socket.
func (w *World) adm(line string) *admAsk {
	c, err := w.net.connect("admin", "198.51.100.250", adminAddr)
	if err != nil {
		return nil
	}
	a := &admAsk{line: line, inst: w.inst, conn: c, at: time.Now(), seq: w.nextSeq()}
	l, _ := w.x["adm"].([]*admAsk)
	n := len(l)
	w.x["adm"] = append(l, a)
	w.tracef("admin.%d => %s", n, line)
	c.push([]byte(line + "\r\n"))
	go func() {
		r := bufio.NewReader(c)
		for {
			s, err := r.ReadString('\n')
			if err != nil {
				a.closed = true
				return
			}
			w.tracef("admin.%d <= %s", n, strings.TrimRight(s, "\r\n"))
			msg, err := irc.ParseMessage(strings.TrimRight(s, "\r\n"))
			if err != nil {
				w.fail("C11", "unparseable-line", "the administration socket sent %q", s)
				continue
			}
			a.replies = append(a.replies, msg)
			switch msg.Command {
			case "BOUNCERSERV", "FAIL", "421", "461", "ERROR":
				if a.answer != nil {
					w.fail("C12", "admin-answers", "the administration socket answered %q twice: %q and %q", line, a.answer, msg)
				}
				a.answer = msg
				time.Sleep(time.Second)
				c.Close()
			}
		}
	}()
	return a
}

func init() {
	ops["adm"] = func(w *World, o *Op) { // command
		if !w.inst.dead {
			w.adm("BOUNCERSERV :" + o.s(0))
		}
	}
}

// checkAdm: every request was answered.
func (w *World) checkAdm() {
	l, _ := w.x["adm"].([]*admAsk)
	for _, a := range l {
		if a.inst != w.inst || w.inst.dead || w.inst.stopped || time.Since(a.at) < 2*time.Minute {
			continue
		}
		w.probe("admin-answered")
		if a.answer == nil {
			w.fail("C12", "admin-unanswered", "the administration socket never answered %q", a.line)
		}
	}
}

func genAdm(r *rng) string {
	u := r.pick("ann", "bob", "bob", "new", "nosuch")
	tok := map[string]string{"ann": "744cb9", "bob": "48181a", "new": "c2a6b0", "nosuch": "x"}[u]
	return r.pick("server status", "user status", "user status "+u, "server notice hello", "user run "+u+" network status", "user run "+u+" network status", "user run "+u+" user update -realname x",
		"user run "+u+" network create -addr irc+insecure://alpha.test -name n3 -nick z3", "user run "+u+" help", "user run "+u+" nosuch", "user update "+u+" -max-networks "+fmt.Sprint(r.intn(9)), "user update "+u+" -password pw-"+u,
		"user update "+u+" -enabled "+r.pick("true", "false"), "user create -username new -password pw-new", "user delete "+u, "user delete "+u+" "+tok, "network status", "channel status", "help", "user update -nick x", "sasl status",
		"user run "+u+" user run ann network status", "user run "+u+" user run "+r.pick("ann", "bob")+" user status", "user run "+u+" user update "+r.pick("ann", "bob")+" -max-networks 5", "user run "+u+" user delete "+u+" "+tok)
}

// azSock is a request on the administration socket, which has all rights but
// is no user.
func (w *World) azSock(rights, user, line string) {
	before := w.cfgDB()
	for _, o := range w.sess {
		o.aliveNow()
	}
	seq := w.nextSeq()
	a := w.adm(line)
	if a == nil {
		return
	}
	w.settle(4 * time.Second)
	after := w.cfgDB()
	w.probe("socket-" + rights)
	who := fmt.Sprintf("%q on the administration socket", line)
	switch {
	case a.answer == nil && rights == "never" && a.closed:
		// The connection is closed without waiting for the error to be sent
	case a.answer == nil:
		w.fail("C10", "not-refused", "%s was not answered", who)
	case rights == "never":
		if a.answer.Command == "BOUNCERSERV" {
			w.fail("C10", "not-refused", "%s was not refused: %q", who, a.replies)
		}
	case a.answer.Command != "BOUNCERSERV":
		if user == "" || before["u/"+user] != "" {
			w.fail("C10", "right-denied", "%s was refused: %q", who, a.answer)
		}
	case user != "" && before["u/"+user] == "" && !strings.Contains(line, "user create"):
		w.fail("C10", "not-refused", "%s was not refused, there is no such user", who)
	}
	keys := map[string]bool{}
	for k := range before {
		keys[k] = true
	}
	for k := range after {
		keys[k] = true
	}
	for _, k := range sortedKeys(keys) {
		if before[k] == after[k] {
			continue
		}
		if rights == "never" || user == "" || strings.Split(k, "/")[1] != user {
			w.fail("C10", "foreign-change", "%s changed %s from %q to %q", who, k, before[k], after[k])
		}
	}
	if i := strings.Index(line, "server notice "); i >= 0 && a.answer != nil && a.answer.Command == "BOUNCERSERV" {
		text := line[i+len("server notice "):]
		for _, o := range w.sess {
			if !o.aliveNow() || !o.ready || o.readySeq > seq {
				continue
			}
			n := 0
			for _, l := range o.lines {
				if l.seq > seq && l.msg.Command == "NOTICE" && par(l.msg, 1) == text {
					n++
				}
			}
			w.probe("broadcast-delivered")
			if n != 1 {
				w.fail("C10", "right-denied", "%s reached %s %d times", who, o.label(), n)
			}
		}
	}
	if i := strings.Index(line, "-max-networks "); i >= 0 && a.answer.Command == "BOUNCERSERV" {
		if got := after["u/"+user+"/max"]; got != line[i+len("-max-networks "):] {
			w.fail("C10", "right-denied", "%s left the limit at %s", who, got)
		}
	}
}
