package main

import (
	"context"
	"fmt"
	"strings"
	"time"
)

// Property C15: read markers behave like one shared value per conversation
// that only moves forward, survives crashes and is the same in all clients.
func init() {
	register(&profile{name: "marks", prop: "C15", gen: genMarks, op: opMarks, final: finalMarks, started: true, exotic: 20})
}

const markLayout = "2006-01-02T15:04:05.000Z"

type markReq struct {
	s      *sess
	key    string // user/net + target
	target string
	ts     string // "" for a question
	future bool
	sentAt time.Time
	seq    int
	id     string
}

type markState struct {
	reqs []*markReq
	used map[string]bool
}

func (w *World) marks() *markState {
	if w.x["marks"] == nil {
		w.x["marks"] = &markState{used: map[string]bool{}}
	}
	return w.x["marks"].(*markState)
}

func markKey(s *sess, target string) string { return s.netKey() + " " + s.netFold(target) }

// netFold folds a name as the server of the session's network does.
func (s *sess) netFold(n string) string {
	if u := s.w.cfg.user(s.cfg.User); u != nil && s.cfg.Net != "" && u.net(s.cfg.Net) != nil {
		return s.w.ircds[u.net(s.cfg.Net).Server].fold(n)
	}
	return s.fold(n)
}

// dbFold folds a name as soju does in the database.
func (s *sess) dbFold(n string) string {
	if s.netFold("{") == "[" {
		n = strings.NewReplacer("[", "{", "]", "}").Replace(n)
	}
	return strings.ToLower(n)
}

// mark sends a read marker command followed by a PING, whose answer tells
// that the command was dealt with.
func (w *World) mark(s *sess, target, ts string, future bool) {
	st := w.marks()
	cmd := "MARKREAD"
	if !s.caps["draft/read-marker"] {
		cmd = "READ"
	}
	r := &markReq{s: s, key: markKey(s, target), target: target, ts: ts, future: future, sentAt: time.Now(), id: fmt.Sprintf("mk%d", len(st.reqs))}
	st.reqs = append(st.reqs, r)
	line := cmd + " " + target
	if ts != "" {
		line += " timestamp=" + ts
	}
	r.seq = w.nextSeq()
	s.send(line)
	s.send("PING :" + r.id)
}

func opMarks(w *World, o *Op) bool {
	switch o.K {
	case "mset", "mget": // client, target; offset in ms
		s := w.cur[o.s(0)]
		if s == nil || !s.live() || !s.marker() {
			return true
		}
		if o.K == "mget" {
			w.mark(s, o.s(1), "", false)
			return true
		}
		st := w.marks()
		t := time.Now().UTC().Add(time.Duration(o.n(0)) * time.Millisecond)
		for st.used[t.Format(markLayout)] {
			t = t.Add(-time.Millisecond)
		}
		ts := t.Format(markLayout)
		st.used[ts] = true
		w.mark(s, o.s(1), ts, o.n(0) > 0)
	default:
		return false
	}
	return true
}

func (s *sess) marker() bool {
	return s.cfg.Net != "" && (s.caps["draft/read-marker"] || s.caps["soju.im/read"])
}

// told returns what a line tells about a marker.
func (s *sess) told(l *cline) (key, v string, ok bool) {
	if l.msg.Command != "MARKREAD" && l.msg.Command != "READ" {
		return "", "", false
	}
	v = par(l.msg, 1)
	if v == "*" {
		v = ""
	} else {
		v = strings.TrimPrefix(v, "timestamp=")
	}
	return markKey(s, par(l.msg, 0)), v, true
}

func finalMarks(w *World) {
	w.calm()
	if w.inst.dead {
		return
	}
	w.settle(15 * time.Minute)
	st := w.marks()
	keys := map[string]string{} // key -> target
	for _, r := range st.reqs {
		keys[r.key] = r.target
	}
	type lastQ struct {
		r     *markReq
		prev  string
		known bool
	}
	var qs []lastQ
	for _, s := range w.sess {
		if !s.aliveNow() || !s.marker() {
			continue
		}
		last := map[string]string{}
		known := map[string]bool{}
		for i := range s.lines {
			if k, v, ok := s.told(&s.lines[i]); ok {
				last[k], known[k] = v, true
			}
		}
		for _, name := range []string{"#a", "#b", "#mix", "g1", "g2"} {
			k := markKey(s, name)
			if keys[k] == "" && !known[k] {
				continue
			}
			w.mark(s, name, "", false)
			qs = append(qs, lastQ{st.reqs[len(st.reqs)-1], last[k], known[k]})
		}
		for _, c := range sortedKeys(s.chans) {
			if !known[markKey(s, s.chans[c].name)] && s.chans[c].gotEnd && w.cfg.SQLErrPct == 0 {
				w.fail("C15", "not-told", "client %s is in %s but was never told its read marker", s.label(), s.chans[c].name)
			}
		}
	}
	w.settle(20 * time.Second)
	w.checkMarks()
	for _, q := range qs {
		v, ok := w.markAnswer(q.r)
		if !ok || q.r.s.faulty {
			continue
		}
		w.probe("marker-final")
		if q.known && q.prev != v {
			w.fail("C15", "stale", "client %s last heard %q for %s, but the read marker is %q", q.r.s.label(), q.prev, q.r.target, v)
		}
		if !q.known && v != "" {
			// whoever set it did so before this client was there
			for _, r := range st.reqs {
				if r.key == q.r.key && r.ts == v && r.seq > q.r.s.readySeq {
					w.fail("C15", "stale", "client %s was never told that the read marker of %s moved to %q", q.r.s.label(), q.r.target, v)
				}
			}
		}
		if n := w.dbNetwork(q.r.s.netKey()); n != nil {
			rec, err := w.inst.db.GetReadReceipt(context.Background(), n.ID, q.r.s.dbFold(q.r.target))
			want := ""
			if err == nil && rec != nil {
				want = rec.Timestamp.UTC().Format(markLayout)
			}
			if err == nil && want != v {
				w.fail("C15", "not-saved", "client %s is told %q for %s, saved is %q", q.r.s.label(), v, q.r.target, want)
			}
		}
	}
}

// markAnswer returns the last value told for the marker before the answer to
// the PING that followed the request.
func (w *World) markAnswer(r *markReq) (v string, ok bool) {
	found := false
	for i := range r.s.lines {
		l := &r.s.lines[i]
		if l.seq < r.seq {
			continue
		}
		if l.msg.Command == "PONG" && par(l.msg, 1) == r.id {
			return v, found
		}
		if k, t, isMark := r.s.told(l); isMark && k == r.key {
			v, found = t, true
		}
	}
	return "", false
}

func (w *World) checkMarks() {
	st := w.marks()
	// when the clock is set back, the present may be earlier than a marker
	jumps := w.wallOff != 0 || w.net.faults["clock-jump"] > 0
	sets := map[string]*markReq{}
	for _, r := range st.reqs {
		if r.ts != "" {
			sets[r.key+" "+r.ts] = r
		}
	}
	// every value told was set by a client for that conversation, and in one
	// connection values only grow
	type tell struct {
		seq int
		v   string
	}
	tells := map[string][]tell{}
	for _, s := range w.sess {
		last := map[string]string{}
		waiting := map[string]bool{}
		for i := range s.lines {
			l := &s.lines[i]
			if s.ownJoins[l.seq] {
				waiting[s.netFold(par(l.msg, 0))] = true
			}
			if l.msg.Command == "366" && waiting[s.netFold(par(l.msg, 1))] && s.marker() && w.cfg.SQLErrPct == 0 {
				w.fail("C15", "not-told", "client %s got the list of members of %s before its read marker", s.label(), par(l.msg, 1))
			}
			k, v, ok := s.told(l)
			if !ok {
				continue
			}
			w.probe("marker-told")
			if (l.msg.Command == "MARKREAD") != s.caps["draft/read-marker"] || (l.msg.Command == "READ") && !s.caps["soju.im/read"] {
				w.fail("C15", "wrong-command", "client %s got %q", s.label(), l.raw)
			}
			waiting[s.netFold(par(l.msg, 0))] = false
			if v < last[k] {
				w.fail("C15", "went-back", "client %s: the read marker of %s went back from %q to %q", s.label(), par(l.msg, 0), last[k], v)
			}
			last[k] = v
			if v != "" {
				r := sets[k+" "+v]
				legal := r != nil && r.seq < l.seq && (jumps || v <= l.at.UTC().Format(markLayout))
				if !legal {
					// a marker in the future is set to the present
					for _, r := range st.reqs {
						if r.key == k && jumps && r.seq < l.seq && v <= r.ts {
							legal = true
						}
						if r.key == k && r.future && r.seq < l.seq && v >= r.sentAt.UTC().Format(markLayout) && v <= r.ts && v <= l.at.UTC().Format(markLayout) {
							legal = true
						}
					}
				}
				if !legal {
					w.fail("C15", "forged", "client %s was told %q for %s, which nobody set", s.label(), v, par(l.msg, 0))
				}
			}
			tells[k] = append(tells[k], tell{l.seq, v})
		}
	}
	for _, r := range st.reqs {
		// was the request dealt with, and how?
		var pong *cline
		v, got, failed := "", false, ""
		for i := range r.s.lines {
			l := &r.s.lines[i]
			if l.seq < r.seq {
				continue
			}
			if l.msg.Command == "PONG" && par(l.msg, 1) == r.id {
				pong = l
				break
			}
			if k, t, ok := r.s.told(l); ok && k == r.key {
				v, got = t, true
			}
			if l.msg.Command == "FAIL" {
				failed = l.raw
			}
		}
		if pong == nil {
			continue
		}
		w.probe("marker-answered")
		if !got {
			if failed == "" || w.cfg.SQLErrPct == 0 {
				w.fail("C15", "no-answer", "client %s asked for or set the read marker of %s and was not answered (%s)", r.s.label(), r.target, failed)
			}
			continue
		}
		if failed != "" {
			continue
		}
		want := r.ts
		if r.future {
			want = r.sentAt.UTC().Format(markLayout)
		}
		if v < want && !jumps {
			w.fail("C15", "not-set", "client %s set the read marker of %s to %q but it is %q", r.s.label(), r.target, want, v)
		}
		for _, t := range tells[r.key] {
			if t.seq < r.seq && t.v > v {
				w.fail("C15", "lost", "client %s: the read marker of %s is %q although %q had been confirmed before", r.s.label(), r.target, v, t.v)
				break
			}
		}
	}
}

func genMarks(r *rng, p *Plan) {
	genBase(r, p, genOpt{servers: 1 + r.intn(2), users: 1 + r.intn(2), netsPer: 2, clients: 3, stores: []string{"memory", "db", "fs"}, named: r.chance(60), chans: []string{"#a", "#b", "#Mix"}, srvMod: func(r *rng, s *SrvCfg) {
		s.Chans = append(s.Chans, "#Mix:g1,g2")
	}, downCaps: func(r *rng) []string {
		l := genDownCaps(r)
		if r.chance(60) {
			l = append(l, "draft/read-marker")
		} else if r.chance(70) {
			l = append(l, "soju.im/read")
		}
		return uniq(l)
	}})
	c := &p.Cfg
	jumps := r.chance(20)
	if r.chance(15) {
		c.SQLErrPct = 1 + r.intn(12)
	}
	if r.chance(25) {
		c.SQLDelayMS = 1 + r.intn(400)
	}
	for i := range c.Clients {
		p.op(r.intn(300), "open", []string{c.Clients[i].Key})
	}
	p.op(3000, "sleep", nil)
	for i := 0; i < 20+r.intn(50); i++ {
		k := p.anyClient(r).Key
		switch x := r.intn(100); {
		case x < 45:
			off := -r.intn([]int{50, 5000, 3600000}[r.intn(3)])
			if !jumps && r.chance(10) {
				off = r.intn(100000)
			}
			p.op(gap(r), "mset", []string{k, r.pick("#a", "#b", "#A", "#mix", "#Mix", "g1", "G1", "g2")}, off)
		case x < 58:
			p.op(gap(r), "mget", []string{k, r.pick("#a", "#b", "#B", "#MIX", "g1", "g2", "G2")})
		case x < 64:
			p.op(gap(r), "open", []string{k})
		case x < 70:
			p.op(gap(r), "hangup", []string{k}, r.intn(2))
			p.op(gap(r), "open", []string{k})
		case x < 74:
			p.op(gap(r), "drop", []string{p.anyServer(r)}, r.intn(2))
		case x < 78:
			p.op(gap(r), "send", []string{k, r.pick("PART #a :detach", "JOIN #a", "PART #b", "JOIN #b", "JOIN #mix")})
		case x < 81:
			if c.SQLErrPct == 0 {
				p.op(gap(r), r.pick("crash", "restart"), nil)
			}
		case x < 84:
			u, n := p.anyNet(r)
			for _, cc := range c.Clients {
				if cc.User == u.Name {
					p.op(gap(r), "serv", []string{cc.Key, fmt.Sprintf("network update %s -nick n%d", n.Name, i)})
					break
				}
			}
		case x < 87:
			p.op(gap(r), "cstall", []string{k}, r.intn(4000))
			p.op(gap(r), "cunstall", []string{k})
		case x < 90:
			if jumps {
				p.op(gap(r), "clock", nil, r.intn(7200)-3600)
			}
		case x < 93:
			p.op(gap(r), "send", []string{k, r.pick("MARKREAD", "MARKREAD #a timestamp=yesterday", "MARKREAD #a 12", "MARKREAD BouncerServ", "READ g1 *")})
		default:
			p.op(gap(r), "say", []string{p.anyServer(r), r.pick("g1", "g2"), r.pick("#a", "#b")}, 1)
		}
	}
}
