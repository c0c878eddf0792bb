package main

import (
	"fmt"
	"time"
)

// Property C04, for long absences: the latest messages are delivered, as many
// as soju promises to keep.
func init() {
	register(&profile{name: "backlog-long", prop: "C04", gen: genLong, op: opLong, final: finalLong})
}

const longBacklog = 4000

type longState struct {
	n    int
	away int // messages said while the client was away, at the end
}

func genLong(r *rng, p *Plan) {
	genBase(r, p, genOpt{servers: 1, users: 1, netsPer: 1, clients: 1, stores: []string{"memory", "db", "fs"}, named: true, noWS: true})
	p.Cfg.Chunk = false
	p.Cfg.Servers[0].SlowMS = 0
	k := p.Cfg.Clients[0].Key
	t := r.pick("#a", "#b", "g1")
	p.op(20000, "open", []string{k}, 10)
	p.op(20000, "lsay", []string{t}, 1+r.intn(5), 0)
	p.op(20000, "hangup", []string{k}, r.intn(2))
	n := []int{3000, 3999, 4000, 4001, 4095, 4096, 4097, 4100 + r.intn(200), 4300 + r.intn(200)}[r.intn(9)]
	if a := r.intn(3); a > 0 {
		part := r.intn(n)
		p.op(60000, "lsay", []string{t}, part, 1)
		p.op(60000, "lsay", []string{t}, n-part, 1)
	} else {
		p.op(60000, "lsay", []string{t}, n, 1)
	}
	if p.Cfg.Store != "memory" && r.chance(30) {
		p.op(90000, "restart", nil)
	}
	p.op(60000, "open", []string{k}, 10)
	p.op(60000, "sleep", nil)
}

func opLong(w *World, o *Op) bool {
	if o.K != "lsay" { // target, number, whether the client is away
		return false
	}
	st, ok := w.x["long"].(*longState)
	if !ok {
		st = &longState{}
		w.x["long"] = st
	}
	srv := w.ircds[w.cfg.Servers[0].Name]
	for i := 0; i < o.n(0); i++ {
		for _, c := range srv.live() {
			to := o.s(0)
			if to == "g1" {
				to = c.nick()
			}
			st.n++
			if o.n(1) == 1 {
				st.away++
			}
			c.raw(fmt.Sprintf(":g1!u@host.example PRIVMSG %s :long-%d", to, st.n))
		}
		if i%20 == 19 {
			time.Sleep(10 * time.Millisecond)
		}
	}
	return true
}

func finalLong(w *World) {
	w.settle(time.Minute)
	st, ok := w.x["long"].(*longState)
	s := w.cur[w.cfg.Clients[0].Key]
	if !ok || s == nil || !s.aliveNow() {
		return
	}
	want := st.away
	if want > longBacklog {
		want = longBacklog
	}
	var got []string
	for _, l := range s.lines {
		if t := lineText(&l); t != "" && l.msg.Prefix != nil && l.msg.Prefix.Name == "g1" {
			got = append(got, t)
		}
	}
	w.probe("long-absence")
	if st.away > longBacklog {
		w.probe("longer-than-limit")
	}
	for i := 0; i < want; i++ {
		x, y := fmt.Sprintf("long-%d", st.n-want+1+i), "nothing"
		if j := len(got) - want + i; j >= 0 {
			y = got[j]
		}
		if x != y {
			w.fail("C04", "long-absence", "client %s was away for %d messages; of the latest %d, it got %q in place of %q (%d lines in all)", s.label(), st.away, want, y, x, len(got))
			return
		}
	}
	if len(got) > st.away {
		w.fail("C04", "long-absence-duplicate", "client %s was away for %d messages and got %d", s.label(), st.away, len(got))
	}
}
