package main

import (
	"fmt"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"codeberg.org/emersion/soju"
	"gopkg.in/irc.v4"
)

// Property C03: history queries return exactly what was exchanged.  A
// recorder client per network is attached whenever possible; what it saw live
// is the reference.  Property C26: disk faults cost at most the messages being
// written at that moment.
func init() {
	register(&profile{name: "history", prop: "C03", gen: genHistory, op: opHistory, final: finalHistory, config: configHistory})
	register(&profile{name: "history-disk", prop: "C26", gen: genHistoryDisk, op: opHistory, final: finalHistory, config: configHistory})
}

func configHistory(w *World, cfg *soju.Config) {
	if tz := w.cfg.X["tz"]; tz != 0 {
		time.Local = time.FixedZone("sim", tz*60)
	}
}

var histWords = []string{"kiwi", "plum", "fig", "mango", "peach"}

func histText(w *World, prefix string, style int) string {
	t := w.upText(prefix)
	k := style
	word := func() string { k = k*7 + 3; return histWords[k%len(histWords)] }
	switch style % 9 {
	case 0:
		return t
	case 1, 2, 3:
		return t + " " + word() + " " + word()
	case 4:
		return "\x01ACTION " + t + " " + word() + "\x01"
	case 5:
		return t + " \x02bold\x02 \x0304,05red\x03 " + word()
	case 6:
		return ": " + t + "  two  spaces " + word() + " "
	case 7:
		return "<x> " + t + " - * [12:34:56] é日本 " + word()
	}
	return "*** " + t + " Joins: -y- " + word() + ">"
}

func genHistoryDisk(r *rng, p *Plan) {
	p.Cfg.X = map[string]int{"disk": 1}
	genHistory(r, p)
	p.Cfg.Store = "fs"
}

func genHistory(r *rng, p *Plan) {
	disk := p.Cfg.X["disk"] == 1
	genBase(r, p, genOpt{servers: 1, users: 1 + r.intn(2), netsPer: 2, clients: 2, stores: []string{"db", "fs"}, named: r.chance(50)})
	if p.Cfg.X == nil {
		p.Cfg.X = map[string]int{}
	}
	if r.chance(40) {
		p.Cfg.X["tz"] = []int{-480, 330, 60, -30, 840}[r.intn(5)]
	}
	if r.chance(20) {
		p.Cfg.LatMS = 500 + r.intn(2500)
	}
	if r.chance(30) {
		// end of a day soon after the start
		p.Cfg.X["late"] = 1
	}
	var rec []string
	for i := range p.Cfg.Users {
		u := &p.Cfg.Users[i]
		for j := range u.Nets {
			caps := []string{"server-time", "message-tags", "batch", "echo-message", "draft/chathistory", "soju.im/search"}
			k := fmt.Sprintf("%s%dR", u.Name, j)
			p.Cfg.Clients = append(p.Cfg.Clients, ClientCfg{Key: k, User: u.Name, Net: u.Nets[j].Name, Client: "rec", Caps: caps})
			rec = append(rec, k)
			p.Cfg.Clients = append(p.Cfg.Clients, ClientCfg{Key: k + "e", User: u.Name, Net: u.Nets[j].Name, Client: "evt", Caps: append([]string{"draft/event-playback"}, caps...)})
		}
	}
	for _, c := range p.Cfg.Clients {
		if !strings.Contains(c.Key, "R") && r.chance(60) {
			p.op(gap(r), "open", []string{c.Key}, 10)
		}
	}
	tags := p.Cfg.Store == "db" && !disk && r.chance(40)
	chans := []string{"#a", "#b", "#A", "#x[1]", "#X{1}"}
	for n := 12 + r.intn(40); n > 0; n-- {
		u, nc := p.anyNet(r)
		c := p.anyClient(r)
		switch k := r.intn(100); {
		case k < 36:
			off := 0
			if tags && r.chance(50) {
				off = r.intn(40000) - 39000
				if r.chance(20) {
					off = -r.intn(4 * 3600e3)
				}
			}
			p.op(gap(r), "hsay", []string{nc.Server, r.pick("g1", "g2", "G1", "g1", "g2", r.pick("NickServ", "nickserv", "NICKserv")), r.pick(r.pick(chans...), "@"+u.Name+"/"+nc.Name), r.pick("PRIVMSG", "PRIVMSG", "NOTICE")}, r.intn(40), 1+r.intn(4), off)
		case k < 54:
			if strings.HasSuffix(c.Key, "R") || strings.HasSuffix(c.Key, "Re") {
				break
			}
			p.op(gap(r), "hmsg", []string{c.Key, r.pick(r.pick(chans...), "g1", "g2", "bot1", "#a,g2", r.pick("NickServ", "nickserv", "NICKSERV,g1")), r.pick("PRIVMSG", "NOTICE")}, r.intn(40))
		case k < 76:
			if len(p.Ops) < 4 {
				break
			}
			key := rec[r.intn(len(rec))]
			kind := r.pick("LATEST", "LATEST", "LATEST*", "BEFORE", "AFTER", "BETWEEN", "BETWEEN", "TARGETS", "SEARCH", "SEARCH", "EVENTS")
			p.op(gap(r), "hq", []string{key, kind, r.pick(r.pick(chans...), "g1", "g2", "G2", "bot1", "NickServ")}, []int{1, 2, 3, 5, 1000, 1000}[r.intn(6)], r.intn(1000), r.intn(1000), r.intn(1000))
		case k < 80:
			p.op(gap(r), "open", []string{c.Key}, r.intn(2)*10)
		case k < 83:
			p.op(gap(r), "hangup", []string{c.Key}, r.intn(2))
		case k < 86:
			p.op(gap(r), r.pick("restart", "crash", "crash"), nil)
		case k < 88:
			p.op(gap(r), "drop", []string{nc.Server}, r.intn(2))
		case k < 94:
			switch g, ch := r.pick("g2", "g3", "g4"), r.pick("#a", "#a", "#b", "#x[1]"); r.intn(8) {
			case 0:
				if r.chance(60) {
					p.op(gap(r), "ppart", []string{nc.Server, g, ch, "hello"})
				}
				p.op(gap(r), "pquit", []string{nc.Server, g})
			case 1:
				p.op(gap(r), "pnick", []string{nc.Server, g, r.pick("g3", "g4", "g5")})
			case 2:
				p.op(gap(r), "pmode", []string{nc.Server, "g2", ch, r.pick("+o", "-o", "+v"), g})
			case 3:
				p.op(gap(r), "pkick", []string{nc.Server, "g1", ch, g})
			default:
				p.op(gap(r), r.pick("ptopic", "pjoin", "ppart"), []string{nc.Server, g, ch, "hello"})
			}
		case k < 95:
			p.op(gap(r), "send", []string{c.Key, "JOIN " + r.pick("#x[1]", "#X{1}")})
		case k < 97 && !disk:
			p.op(gap(r), "hren", []string{rec[r.intn(len(rec))], r.pick("tmp", "", "tmp/x", "t e")}, r.intn(40), r.intn(3))
		case k < 96 && disk:
			p.op(gap(r), "disk", nil, r.intn(4), 1+r.intn(3), r.intn(100))
		default:
			p.op([]int{3000, 70000, 3600e3, 11 * 3600e3, 30 * 3600e3}[r.intn(5)], "sleep", nil)
		}
		if r.chance(8) {
			// both sides talk at once, then somebody pages through it
			for i := 0; i < 6; i++ {
				if r.chance(50) {
					p.op(r.intn(1200), "hmsg", []string{c.Key, "#a", "PRIVMSG"}, r.intn(40))
				} else {
					p.op(r.intn(1200), "hsay", []string{nc.Server, "g1", "#a", "PRIVMSG"}, r.intn(40), 1, 0)
				}
			}
			key := rec[r.intn(len(rec))]
			for i := 0; i < 2; i++ {
				p.op(gap(r), "hq", []string{key, r.pick("BEFORE", "BEFORE", "BETWEEN", "AFTER"), "#a"}, []int{2, 5, 1000}[r.intn(3)], r.intn(1000), r.intn(1000), r.intn(1000))
			}
		}
		if disk && r.chance(10) {
			p.op(gap(r), "disk", nil, r.intn(4), 1+r.intn(3), r.intn(100))
		}
	}
}

// recorder returns a live session of a recorder client.
func (w *World) recorder(key string) *sess {
	if s := w.cur[key]; s != nil && s.aliveNow() {
		return s
	}
	cc := w.cfg.client(key)
	if s := w.cur[key]; s != nil {
		s.hangup(false)
	}
	s := w.open(*cc)
	if s == nil || !s.waitReady(20*time.Second) {
		return nil
	}
	return s
}

func (w *World) recorders() {
	for i := range w.cfg.Clients {
		if k := w.cfg.Clients[i].Key; strings.HasSuffix(k, "R") {
			w.recorder(k)
		}
	}
}

func opHistory(w *World, o *Op) bool {
	if w.x["late"] == nil {
		w.x["late"] = true
		if w.cfg.X["late"] == 1 {
			now := time.Now().In(time.Local)
			y, m, d := now.Date()
			time.Sleep(time.Date(y, m, d+1, 0, 0, 0, 0, time.Local).Add(-30 * time.Second).Sub(now))
		}
		w.settle(3 * time.Second)
		w.recorders()
	}
	switch o.K {
	case "hsay": // server, from, target, cmd; style, reps, time offset ms
		srv := w.ircds[o.s(0)]
		for i := 0; i < o.n(1); i++ {
			var tags map[string]string
			if off := o.n(2); off != 0 {
				tags = map[string]string{"time": fmtTime(time.Now().Add(time.Duration(off) * time.Millisecond))}
			}
			w.say(srv, o.s(1), o.s(3), w.target(srv, o.s(2)), histText(w, "u", o.n(0)+i), tags)
		}
	case "hmsg":
		s := w.cur[o.s(0)]
		if s == nil || !s.live() {
			return true
		}
		m := &wmsg{text: histText(w, "d", o.n(0)), at: time.Now(), seq: w.nextSeq(), dir: "down", from: o.s(0), target: o.s(1), cmd: o.s(2), sess: s}
		w.msgs = append(w.msgs, m)
		w.byText[m.text] = m
		s.send(fmt.Sprintf("%s %s :%s", m.cmd, m.target, m.text))
	case "hren": // recorder, name; style, messages: a network goes by another name for a while
		w.settle(4 * time.Second)
		s := w.recorder(o.s(0))
		if s == nil {
			return true
		}
		nc := w.cfg.user(s.cfg.User).net(s.cfg.Net)
		rec := w.dbNetwork(s.netKey())
		if rec == nil {
			return true
		}
		name := o.s(1)
		if name == "" {
			name = rec.Addr
		}
		s.send("PRIVMSG BouncerServ :network update " + nc.Name + " -name " + quoteArg(o.s(1)))
		w.settle(8 * time.Second)
		for i := 0; i < o.n(1); i++ {
			w.say(w.ircds[nc.Server], "g1", "PRIVMSG", "#a", histText(w, "u", o.n(0)+i), nil)
		}
		w.settle(4 * time.Second)
		s.send("PRIVMSG BouncerServ :network update " + quoteArg(name) + " -name " + nc.Name)
		w.settle(8 * time.Second)
		if rec := w.dbNetwork(s.netKey()); rec != nil {
			w.probe("history-renamed")
		} else {
			w.fail("C08", "rename", "network %s can't be called %s again", s.netKey(), nc.Name)
		}
	case "disk": // kind, operations, bytes
		w.diskFault(o.n(0), o.n(1), o.n(2))
	case "hq":
		w.histQuery(o)
	case "restart", "crash":
		w.commonOp(o)
		w.recorders()
	default:
		return false
	}
	return true
}

// diskFault lets the next n file operations of a kind fail.
func (w *World) diskFault(kind, n, bytes int) {
	hit := func(name string) {
		n--
		ent := filepath.Base(filepath.Dir(name))
		if !strings.HasSuffix(name, ".log") {
			ent = filepath.Base(name)
		}
		fl, _ := w.x["diskfaults"].([]diskFault)
		w.x["diskfaults"] = append(fl, diskFault{ent, time.Now()})
	}
	w.fsHook = func(op, name string, flag, sz int) (int, error) {
		if n <= 0 || !w.faults {
			return sz, nil
		}
		switch {
		case kind == 0 && op == "write":
			hit(name)
			w.fault("disk-full")
			return 0, syscall.ENOSPC
		case kind == 1 && op == "write":
			hit(name)
			w.fault("disk-short-write")
			k := bytes
			if k >= sz {
				k = sz - 1
			}
			return k, syscall.ENOSPC
		case kind == 2 && op == "open" && flag != 0:
			hit(name)
			w.fault("disk-open-error")
			return 0, syscall.EMFILE
		case kind == 3 && op == "mkdir":
			hit(name)
			w.fault("disk-mkdir-error")
			return 0, syscall.EACCES
		}
		return sz, nil
	}
}

type diskFault struct {
	ent string
	at  time.Time
}

// hent is one message of a conversation.
type hent struct {
	ent, text, cmd, nick, target string
	t                            time.Time
	seq                          int
	certain                      bool
}

// history returns what conversation contents are known for a network.
func (w *World) history(key string) map[string][]*hent {
	h := map[string][]*hent{}
	seen := map[string]*hent{}
	uc := w.cfg.user(strings.SplitN(key, "/", 2)[0])
	srv := w.ircds[uc.net(strings.SplitN(key, "/", 2)[1]).Server]
	fold := srv.fold
	// a message written while the disk failed may be missing
	damaged := func(ent string, at time.Time) bool {
		fl, _ := w.x["diskfaults"].([]diskFault)
		for _, f := range fl {
			if f.ent == ent && !at.Before(f.at) && at.Sub(f.at) < 3*time.Second {
				return true
			}
		}
		return false
	}
	var all []*hent
	for _, s := range w.sess {
		if s.netKey() != key || s.cfg.Client != "rec" {
			continue
		}
		nick := s.firstNick()
		for i := range s.lines {
			l := &s.lines[i]
			if l.msg == nil || l.msg.Prefix == nil {
				continue
			}
			switch l.msg.Command {
			case "001":
				nick = par(l.msg, 0)
			case "NICK":
				if fold(l.msg.Prefix.Name) == fold(nick) {
					nick = par(l.msg, 0)
				}
			}
			if l.msg.Tags["batch"] != "" {
				continue
			}
			m := w.byText[lineText(l)]
			if m == nil {
				continue
			}
			ent := fold(par(l.msg, 0))
			if !isChan(par(l.msg, 0)) && fold(l.msg.Prefix.Name) != fold(nick) {
				ent = fold(l.msg.Prefix.Name)
			}
			t, err := time.Parse("2006-01-02T15:04:05.000Z", l.msg.Tags["time"])
			if err != nil || seen[ent+" "+m.text] != nil {
				continue
			}
			if m.dir == "up" && !m.stamp.IsZero() {
				w.probe("history-stamp")
				if d := m.stamp.Sub(t); d < 0 || d >= time.Second {
					w.fail(w.plan.profile().prop, "altered-time", "client %s got %q, which the server dated %s", s.label(), l.raw, fmtTime(m.stamp))
				}
			}
			if w.cfg.Store == "fs" {
				t = t.Truncate(time.Second)
			}
			e := &hent{ent: ent, text: m.text, cmd: l.msg.Command, nick: l.msg.Prefix.Name, target: par(l.msg, 0), t: t, seq: l.seq, certain: !damaged(ent, l.at)}
			seen[ent+" "+m.text] = e
			all = append(all, e)
		}
	}
	sort.SliceStable(all, func(i, j int) bool { return all[i].seq < all[j].seq })
	day := func(t time.Time) int64 {
		y, m, d := t.In(time.Local).Date()
		return int64(y)*10000 + int64(m)*100 + int64(d)
	}
	sort.SliceStable(all, func(i, j int) bool {
		if w.cfg.Store == "fs" {
			return day(all[i].t) < day(all[j].t)
		}
		return all[i].t.Before(all[j].t)
	})
	for _, e := range all {
		h[e.ent] = append(h[e.ent], e)
	}
	for _, m := range w.msgs {
		var ents []string
		for _, t := range strings.Split(m.target, ",") {
			ents = append(ents, fold(t))
			if m.dir == "up" && !isChan(t) {
				ents = []string{fold(m.from)}
			}
		}
		for _, ent := range ents {
			if seen[ent+" "+m.text] == nil {
				h[ent] = append(h[ent], &hent{ent: ent, text: m.text, cmd: m.cmd, t: m.at})
			}
		}
	}
	// what is said to and by NickServ may hold passwords: never stored
	delete(h, "nickserv")
	return h
}

func (s *sess) firstNick() string { return s.cfg.User }

// ask sends a query and returns the lines of the batch that answers it.
func (s *sess) ask(line, typ string) (l []*irc.Message, ok bool, failed string) {
	from := len(s.lines)
	s.usedCH = true
	s.send(line)
	ref := ""
	for i := 0; i < 300; i++ {
		time.Sleep(50 * time.Millisecond)
		for ; from < len(s.lines); from++ {
			m := s.lines[from].msg
			switch {
			case m.Command == "BATCH" && par(m, 1) == typ && ref == "":
				ref = strings.TrimPrefix(par(m, 0), "+")
			case m.Command == "BATCH" && ref != "" && par(m, 0) == "-"+ref:
				return l, true, ""
			case ref != "" && m.Tags["batch"] == ref:
				l = append(l, m)
			case m.Command == "FAIL" || m.Command == "421":
				return nil, false, s.lines[from].raw
			}
		}
		if !s.live() {
			return nil, false, ""
		}
	}
	return nil, false, "no answer"
}

func (w *World) histQuery(o *Op) {
	key, kind, target := o.s(0), o.s(1), o.s(2)
	limit := o.n(0)
	w.settle(4 * time.Second)
	if kind == "EVENTS" {
		key += "e"
	}
	s := w.recorder(key)
	if s == nil {
		return
	}
	if kind == "EVENTS" && !s.caps["draft/event-playback"] {
		// only offered once the client is bound to a network
		if _, ok := s.avail["draft/event-playback"]; ok {
			s.send("CAP REQ draft/event-playback")
			w.settle(2 * time.Second)
		}
		if !s.caps["draft/event-playback"] {
			return
		}
	}
	h := w.history(s.netKey())
	ent := w.ircds[w.cfg.user(s.cfg.User).net(s.cfg.Net).Server].fold(target)
	var times []time.Time
	for _, e := range h[ent] {
		times = append(times, e.t)
	}
	now := time.Now()
	bound := func(n int) time.Time {
		if len(times) == 0 || n%7 == 0 {
			return now.Add(-time.Duration(n) * 37 * time.Second)
		}
		t := times[n/7%len(times)]
		return t.Add(time.Duration(n%3-1) * time.Millisecond)
	}
	a, b := bound(o.n(1)), bound(o.n(2))
	prop := w.plan.profile().prop
	w.probe("history-" + strings.ToLower(kind))
	var lo, hi time.Time // exclusive
	var last bool
	var cmd string
	typ := "chathistory"
	switch kind {
	case "LATEST*", "EVENTS":
		cmd = fmt.Sprintf("CHATHISTORY LATEST %s * %d", target, limit)
		last = true
	case "LATEST":
		cmd = fmt.Sprintf("CHATHISTORY LATEST %s timestamp=%s %d", target, fmtTime(a), limit)
		lo, last = a, true
	case "BEFORE":
		cmd = fmt.Sprintf("CHATHISTORY BEFORE %s timestamp=%s %d", target, fmtTime(a), limit)
		hi, last = a, true
	case "AFTER":
		cmd = fmt.Sprintf("CHATHISTORY AFTER %s timestamp=%s %d", target, fmtTime(a), limit)
		lo = a
	case "BETWEEN":
		cmd = fmt.Sprintf("CHATHISTORY BETWEEN %s timestamp=%s timestamp=%s %d", target, fmtTime(a), fmtTime(b), limit)
		lo, hi = a, b
		if !a.Before(b) {
			lo, hi, last = b, a, true
		}
	case "TARGETS":
		w.histTargets(prop, s, h, a, b, limit)
		return
	case "SEARCH":
		w.histSearch(prop, s, h, ent, target, o, a, b)
		return
	}
	got, ok, failed := s.ask(cmd, typ)
	if !ok {
		if s.live() {
			w.fail(prop, "query-failed", "client %s asked %q: %s", s.label(), cmd, failed)
		}
		return
	}
	lo, hi = lo.Truncate(time.Millisecond), hi.Truncate(time.Millisecond)
	w.histCompare(prop, s, cmd, got, h[ent], limit, lo, hi, last, !last, kind == "EVENTS", ent, func(e *hent) bool { return true })
}

// histCompare checks a result against the conversation.
func (w *World) histCompare(prop string, s *sess, cmd string, got []*irc.Message, all []*hent, limit int, lo, hi time.Time, okLast, okFirst, events bool, ent string, match func(e *hent) bool) {
	byText := map[string]*hent{}
	for _, e := range all {
		byText[e.text] = e
	}
	now := time.Now().Truncate(time.Millisecond).Add(-500 * time.Millisecond)
	var exp []string
	for _, e := range all {
		if !e.certain || !match(e) || !lo.IsZero() && !e.t.After(lo) || !hi.IsZero() && !e.t.Before(hi) {
			continue
		}
		if !e.t.Before(now) {
			// from the future: queries end at the present
			return
		}
		exp = append(exp, e.text)
	}
	if len(got) > limit {
		w.fail(prop, "over-limit", "client %s asked %q and got %d messages", s.label(), cmd, len(got))
	}
	var res []string
	seen := map[string]bool{}
	nev := 0
	evs := map[string]int{}
	srv := w.ircds[w.cfg.user(s.cfg.User).net(s.cfg.Net).Server]
	for _, m := range got {
		if m.Command != "PRIVMSG" && m.Command != "NOTICE" {
			if !events {
				w.fail(prop, "unwanted-event", "client %s asked %q and got %s", s.label(), cmd, m)
			}
			nev++
			if m.Prefix != nil {
				evs[m.Command+" "+srv.fold(m.Prefix.Name)]++
			}
			continue
		}
		e := byText[par(m, 1)]
		if e == nil {
			w.fail(prop, "forged", "client %s asked %q and got %q, which nobody said there", s.label(), cmd, m)
			continue
		}
		if seen[e.text] {
			w.fail(prop, "duplicate", "client %s asked %q and got %q twice", s.label(), cmd, m)
		}
		seen[e.text] = true
		t, err := time.Parse("2006-01-02T15:04:05.000Z", m.Tags["time"])
		if err != nil {
			w.fail(prop, "no-time", "client %s asked %q and got %q", s.label(), cmd, m)
			continue
		}
		if !lo.IsZero() && !t.After(lo) || !hi.IsZero() && !t.Before(hi) {
			w.fail(prop, "out-of-bounds", "client %s asked %q and got %q", s.label(), cmd, m)
		}
		if !match(e) {
			w.fail(prop, "no-match", "client %s asked %q and got %q", s.label(), cmd, m)
		}
		if !e.certain {
			continue
		}
		if !t.Equal(e.t) || m.Command != e.cmd || m.Prefix == nil || m.Prefix.Name != e.nick {
			w.fail(prop, "altered", "client %s asked %q and got %q, live it was %s %s at %s", s.label(), cmd, m, e.nick, e.cmd, fmtTime(e.t))
		}
		if w.cfg.Store == "db" && par(m, 0) != e.target {
			w.fail(prop, "altered-target", "client %s asked %q and got %q, live it was for %s", s.label(), cmd, m, e.target)
		}
		res = append(res, e.text)
	}
	if nev > 0 {
		w.probes["history-events"] += nev
		for _, k := range sortedKeys(evs) {
			if evs[k] > srv.events[ent][k] && evs[k] > srv.events[ent][k]*w.eventsSent(srv, s.netKey(), ent, k) {
				w.fail(prop, "forged-event", "client %s asked %q and got %q %d times, which happened %d times in that channel", s.label(), cmd, k, evs[k], srv.events[ent][k])
			}
		}
	}
	if events && len(got) < limit && w.cfg.X["disk"] == 0 {
		live := w.liveEvents(s.netKey(), ent, srv.fold)
		for _, k := range sortedKeys(live) {
			if evs[k] < live[k] {
				w.fail(prop, "lost-event", "client %s asked %q and got %q %d times, it was seen live %d times", s.label(), cmd, k, evs[k], live[k])
			}
		}
	}
	w.probe("history-compared")
	w.probes["history-messages"] += len(res)
	full := len(got) >= limit
	if !full && len(res) != len(exp) || len(res) > len(exp) {
		w.fail(prop, "incomplete", "client %s asked %q and got %d of %d messages: %q, expected %q", s.label(), cmd, len(res), len(exp), clip(res), clip(exp))
		return
	}
	same := func(a []string) bool {
		for i := range a {
			if a[i] != res[i] {
				return false
			}
		}
		return true
	}
	if okLast && same(exp[len(exp)-len(res):]) || okFirst && same(exp[:len(res)]) {
		return
	}
	w.fail(prop, "wrong-selection", "client %s asked %q and got %q, out of %q", s.label(), cmd, clip(res), clip(exp))
}

// liveEvents counts what the recorder of a network saw peers do in a channel.
func (w *World) liveEvents(key, ent string, fold func(string) string) map[string]int {
	n := map[string]int{}
	seen := map[string]bool{}
	for _, s := range w.sess {
		if s.netKey() != key || s.cfg.Client != "rec" {
			continue
		}
		for i := range s.lines {
			l := &s.lines[i]
			switch l.msg.Command {
			case "JOIN", "PART", "KICK", "TOPIC", "MODE":
			default:
				continue
			}
			if l.msg.Prefix == nil || l.msg.Tags["batch"] != "" || fold(par(l.msg, 0)) != ent || !strings.HasPrefix(fold(l.msg.Prefix.Name), "g") || seen[l.raw] || l.msg.Tags["time"] == "" {
				continue
			}
			seen[l.raw] = true
			n[l.msg.Command+" "+fold(l.msg.Prefix.Name)]++
		}
	}
	return n
}

func clip(l []string) []string {
	if len(l) > 12 {
		return append(append([]string{}, l[:6]...), l[len(l)-6:]...)
	}
	return l
}

func (w *World) histSearch(prop string, s *sess, h map[string][]*hent, ent, target string, o *Op, a, b time.Time) {
	if strings.ContainsAny(target, ";\\ ") {
		return
	}
	n := o.n(3)
	cmd := "SEARCH in=" + target
	var lo, hi time.Time
	if n%3 == 0 {
		cmd += ";after=" + fmtTime(a)
		lo = a.Truncate(time.Millisecond)
	}
	if n%5 == 0 {
		cmd += ";before=" + fmtTime(b)
		hi = b.Truncate(time.Millisecond)
	}
	from, word := "", ""
	if n%4 == 0 {
		from = []string{"g1", "g2"}[n/4%2]
		cmd += ";from=" + from
	}
	if n%2 == 1 {
		word = histWords[n/2%len(histWords)]
		if n%11 == 0 {
			cmd += ";text=" + strings.ToUpper(word)
		} else {
			cmd += ";text=" + word
		}
	}
	limit := 100
	if o.n(0) < 100 {
		limit = o.n(0)
		cmd += fmt.Sprintf(";limit=%d", limit)
	}
	got, ok, failed := s.ask(cmd, "soju.im/search")
	if !ok {
		if s.live() {
			w.fail(prop, "query-failed", "client %s asked %q: %s", s.label(), cmd, failed)
		}
		return
	}
	w.histCompare(prop, s, cmd, got, h[ent], limit, lo, hi, true, true, false, ent, func(e *hent) bool {
		if from != "" && e.nick != from && e.certain {
			return false
		}
		return word == "" || strings.Contains(e.text, word)
	})
}

func (w *World) histTargets(prop string, s *sess, h map[string][]*hent, a, b time.Time, limit int) {
	wide := w.cfg.Store == "fs" // file times are imprecise
	if wide {
		a, b, limit = time.Now().Add(time.Hour), time.Unix(1000, 0), 1000
	}
	cmd := fmt.Sprintf("CHATHISTORY TARGETS timestamp=%s timestamp=%s %d", fmtTime(a), fmtTime(b), limit)
	got, ok, failed := s.ask(cmd, "draft/chathistory-targets")
	if !ok {
		if s.live() {
			w.fail(prop, "query-failed", "client %s asked %q: %s", s.label(), cmd, failed)
		}
		return
	}
	a, b = a.Truncate(time.Millisecond), b.Truncate(time.Millisecond)
	lo, hi := a, b
	if !a.Before(b) {
		lo, hi = b, a
	}
	if len(got) > limit {
		w.fail(prop, "over-limit", "client %s asked %q and got %d targets", s.label(), cmd, len(got))
	}
	res := map[string]time.Time{}
	for _, m := range got {
		t, _ := time.Parse("2006-01-02T15:04:05.000Z", par(m, 2))
		if _, dup := res[par(m, 1)]; dup {
			w.fail(prop, "duplicate", "client %s asked %q and got %s twice", s.label(), cmd, par(m, 1))
		}
		res[par(m, 1)] = t
	}
	for _, t := range sortedKeys(res) {
		if strings.ToLower(t) == "nickserv" {
			w.fail(prop, "stored-secret", "client %s asked %q and got %s, which must not be stored", s.label(), cmd, t)
		}
	}
	missing := ""
	for _, ent := range sortedKeys(h) {
		var latest time.Time
		sure, any := true, false
		for _, e := range h[ent] {
			if e.certain && e.t.After(latest) {
				latest = e.t
			}
			sure = sure && e.certain
			any = any || e.certain
		}
		if !any {
			continue
		}
		name := ent
		if wide {
			name = strings.NewReplacer("/", "-", "\\", "-").Replace(ent)
		}
		t, ok := res[name]
		in := latest.After(lo) && latest.Before(hi)
		if ok && sure && !wide && (!in || !t.Equal(latest)) {
			w.fail(prop, "wrong-target-time", "client %s asked %q and got %s with %s; its last message is of %s", s.label(), cmd, ent, fmtTime(t), fmtTime(latest))
		}
		if !ok && in && sure && missing == "" {
			missing = ent + " " + fmtTime(latest)
		}
		if !ok && in && sure && !wide && len(got) == limit {
			// those closest to the first bound are to be listed
			w.probe("targets-limited")
			for _, x := range sortedKeys(res) {
				if a.Before(b) && latest.Before(res[x]) || !a.Before(b) && latest.After(res[x]) {
					w.fail(prop, "wrong-targets", "client %s asked %q and got %s with %s rather than %s with %s", s.label(), cmd, x, fmtTime(res[x]), ent, fmtTime(latest))
				}
			}
		}
		w.probe("history-target")
	}
	if missing != "" && len(got) < limit {
		w.fail(prop, "missing-target", "client %s asked %q and did not get %s", s.label(), cmd, missing)
	}
}

func finalHistory(w *World) {
	w.calm()
	w.settle(15 * time.Minute)
	w.recorders()
	for i := range w.cfg.Clients {
		k := w.cfg.Clients[i].Key
		if !strings.HasSuffix(k, "R") {
			continue
		}
		for j, t := range []string{"#a", "#B", "#x[1]", "g1", "g2", "bot1", "NICKSERV"} {
			for _, kind := range []string{"LATEST*", "AFTER", "SEARCH", "EVENTS"} {
				w.histQuery(&Op{K: "hq", S: []string{k, kind, t}, N: []int{1000, 7 * 900, 7, 6 + j*14}})
			}
		}
		w.histQuery(&Op{K: "hq", S: []string{k, "TARGETS", "#a"}, N: []int{1000, 0, 700, 0}})
		for limit := 1; limit < 4; limit++ {
			w.histQuery(&Op{K: "hq", S: []string{k, "TARGETS", "#a"}, N: []int{limit, 0, 7000, 0}})
			w.histQuery(&Op{K: "hq", S: []string{k, "TARGETS", "#a"}, N: []int{limit, 7000, 0, 0}})
		}
	}
	if w.cfg.X["disk"] == 1 {
		w.checkUpRelay("C26")
	}
}

// eventsSent returns how many of a network's connections were told about an
// event at the same time: while a connection replaces another one, both are.
func (w *World) eventsSent(srv *ircd, key, ent, k string) int {
	n, max := map[time.Time]int{}, 0
	for _, c := range srv.conns {
		if w.ownerOf(c) != key {
			continue
		}
		for _, l := range c.sent {
			if l.msg == nil || l.msg.Prefix == nil || l.msg.Command+" "+srv.fold(l.msg.Prefix.Name) != k {
				continue
			}
			if l.msg.Command != "QUIT" && l.msg.Command != "NICK" && srv.fold(par(l.msg, 0)) != ent {
				continue
			}
			if n[l.at]++; n[l.at] > max {
				max = n[l.at]
			}
		}
	}
	return max
}
