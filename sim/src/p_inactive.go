package main

import (
	"context"
	"strings"
	"time"

	"codeberg.org/emersion/soju/database"
)

// Property C25: users are disabled for inactivity only once they have been
// away for the configured time, then they are, and nothing of theirs is lost.
func init() {
	register(&profile{name: "inactive", prop: "C25", gen: genInactive, init: initInactive, op: opInactive, final: finalInactive, booted: bootedInactive})
}

const inactiveEvery = 4 * time.Hour // how often soju looks for inactive users

type inUser struct {
	exists   bool
	enabled  bool
	checked  time.Time // when enabled was last read
	created  time.Time
	adminOff time.Time // an admin asked for it to be disabled
	adminOn  time.Time // … or enabled
	off      time.Time // first seen disabled
}

type inState struct {
	users map[string]*inUser
	base  time.Time    // when the current instance started looking
	ended map[int]bool // sessions whose end was judged
}

func (w *World) in() *inState { return w.x["inactive"].(*inState) }

func initInactive(w *World) {
	st := w.in()
	for i := range w.cfg.Users {
		u := &w.cfg.Users[i]
		st.users[u.Name] = &inUser{exists: true, enabled: !u.Disabled, created: time.Now(), checked: time.Now()}
	}
	st.users["newu"] = &inUser{}
}

func bootedInactive(w *World, inst *instance) {
	st, ok := w.x["inactive"].(*inState)
	if !ok {
		st = &inState{users: map[string]*inUser{}, ended: map[int]bool{}}
		w.x["inactive"] = st
	}
	st.base = time.Now()
}

// nextTick is when soju looks for inactive users next.
func (w *World) nextTick() time.Time {
	base := w.in().base
	n := time.Since(base)/inactiveEvery + 1
	return base.Add(n * inactiveEvery)
}

// lastActive is the last time a user is known to have had a client, if
// nothing that would count as activity is left out (sure) or might have
// happened in addition (maybe).
func (w *World) lastActive(name string) (sure, maybe time.Time) {
	u := w.in().users[name]
	sure, maybe = u.created, u.created
	later := func(t *time.Time, v time.Time) {
		if v.After(*t) {
			*t = v
		}
	}
	for _, s := range w.sess {
		other := ""
		if s.cfg.As != "" {
			other, _, _ = splitLogin(s.cfg.As)
		}
		if s.cfg.User != name && other != name {
			continue
		}
		end := time.Now()
		switch {
		case s.hungUp:
			end = s.hungAt
		case s.closed:
			end = s.closedAt
		}
		if (s.inst.dead || s.inst.stopped) && s.inst.deadAt.Before(end) {
			end = s.inst.deadAt
		}
		later(&maybe, end.Add(time.Minute)) // soju may notice late
		if s.cfg.As != "" || !s.ready {
			continue
		}
		// a crash leaves no chance to save when the client was last seen
		if s.inst.crashed && s.inst.deadAt.Before(end.Add(30*time.Second)) {
			end = s.readyAt
			if s.inst.deadAt.Before(end.Add(30 * time.Second)) {
				continue
			}
		}
		later(&sure, end)
	}
	return sure, maybe
}

func (w *World) dbUser(name string) *database.User {
	u, err := w.inst.db.GetUser(context.Background(), name)
	if err != nil {
		return nil
	}
	return u
}

// checkInactive compares the state of every user with what it should be.
func (w *World) checkInactive() {
	if w.inst.dead || w.inst.stopped {
		return
	}
	st := w.in()
	delay := time.Duration(w.cfg.InactiveH) * time.Hour
	for _, name := range sortedKeys(st.users) {
		u := st.users[name]
		rec := w.dbUser(name)
		if rec == nil {
			u.exists = false
			continue
		}
		now := time.Now()
		if !u.exists {
			u.exists, u.enabled, u.checked = true, true, u.created
		}
		sure, maybe := w.lastActive(name)
		was := u.enabled
		u.enabled = rec.Enabled
		if !rec.Enabled && (was || u.adminOn.After(u.checked)) && !u.adminOff.After(u.checked.Add(-time.Minute)) {
			u.off = now
			w.probe("user-disabled")
			switch {
			case delay == 0:
				w.fail("C25", "disabled", "user %s was disabled although no delay is configured", name)
			case now.Before(sure.Add(delay)):
				w.fail("C25", "disabled-active", "user %s was disabled between %s and %s; last active at %s, and users are to be kept for %v", name, clockOf(w, u.checked), clockOf(w, now), clockOf(w, sure), delay)
			default:
				// there must be a moment at which soju looked
				w.probe("disabled-inactive")
			}
		} else if !rec.Enabled && was {
			u.off = now
		}
		if rec.Enabled && delay > 0 {
			// two looks of this instance, both after the delay
			last := w.nextTick().Add(-inactiveEvery)
			prev := last.Add(-inactiveEvery)
			if time.Since(last) < time.Minute {
				last, prev = prev, prev.Add(-inactiveEvery)
			}
			if !prev.Before(st.base.Add(inactiveEvery)) && prev.After(maybe.Add(delay)) && prev.After(u.adminOn.Add(time.Minute)) {
				w.fail("C25", "not-disabled", "user %s is still enabled at %s; its last client left at %s and the delay is %v", name, clockOf(w, now), clockOf(w, maybe), delay)
			}
			w.probe("enabled-checked")
		}
		u.checked = now
		if !rec.Enabled && !u.off.IsZero() && now.Sub(u.off) > 5*time.Minute && u.adminOn.Before(u.off) {
			w.probe("disabled-quiet")
			for _, srv := range w.ircdList() {
				for _, c := range srv.conns {
					if o, _, _ := strings.Cut(w.ownerOf(c), "/"); c.registered && !c.gone && o == name && c.instance == w.inst.id && !c.conn.stuck() && c.openedAt.Before(u.off) {
						w.fail("C25", "still-connected", "user %s was disabled at %s but is still connected to %s", name, clockOf(w, u.off), srv.name)
					}
				}
			}
		}
		if rec.Enabled && rec.ID > 0 && name != "newu" {
			u.off = time.Time{}
		}
	}
	// a client which was let in isn't thrown out
	for _, s := range w.sess {
		if st.ended[s.idx] || !s.ready || !s.closed || s.hungUp || s.quit || s.faulty || s.inst != w.inst {
			continue
		}
		st.ended[s.idx] = true
		if u := st.users[s.cfg.User]; s.cfg.As == "" && !u.adminOff.IsZero() && u.adminOff.Add(2*time.Minute).After(s.closedAt) && u.adminOff.Before(s.closedAt.Add(time.Second)) {
			continue
		}
		if s.cfg.As != "" {
			continue
		}
		w.fail("C25", "thrown-out", "client %s was disconnected at %s", s.label(), clockOf(w, s.closedAt))
	}
}

// pass lets time go by, looking at the users after each of soju's rounds.
func (w *World) pass(d time.Duration) {
	end := time.Now().Add(d)
	for !w.inst.dead {
		t := w.nextTick().Add(70 * time.Second)
		if n := w.nextTick().Add(70*time.Second - inactiveEvery); n.After(time.Now()) {
			t = n
		}
		if !t.Before(end) {
			break
		}
		w.settle(time.Until(t))
		w.checkInactive()
	}
	if d := time.Until(end); d > 0 {
		w.settle(d)
	}
}

func opInactive(w *World, o *Op) bool {
	st := w.in()
	switch o.K {
	case "hours": // minutes
		w.pass(time.Duration(o.n(0)) * time.Minute)
	case "tick": // milliseconds relative to a round of soju, rounds to skip
		if w.inst.dead {
			return true
		}
		t := w.nextTick().Add(time.Duration(o.n(0))*time.Millisecond + time.Duration(o.n(1))*inactiveEvery)
		if t.After(time.Now()) {
			w.pass(time.Until(t))
		}
	case "admin": // client, user, enabled|disabled|create
		s := w.cur[o.s(0)]
		if s == nil || !s.live() {
			return true
		}
		w.checkInactive()
		u := st.users[o.s(1)]
		switch o.s(2) {
		case "create":
			s.send("PRIVMSG BouncerServ :user create -username " + o.s(1) + " -password pw")
			w.settle(20 * time.Second)
			if rec := w.dbUser(o.s(1)); rec != nil && !u.exists {
				*u = inUser{exists: true, enabled: true, created: time.Now().Add(-20 * time.Second), checked: time.Now()}
			}
		case "off":
			s.send("PRIVMSG BouncerServ :user update " + o.s(1) + " -enabled false")
			u.adminOff = time.Now()
			w.settle(30 * time.Second)
			w.checkInactive()
		case "on":
			s.send("PRIVMSG BouncerServ :user update " + o.s(1) + " -enabled true")
			u.adminOn = time.Now()
			w.settle(30 * time.Second)
			w.checkInactive()
		}
	default:
		return false
	}
	return true
}

func finalInactive(w *World) {
	w.calm()
	if w.inst.dead {
		return
	}
	w.pass(20 * time.Minute)
	w.checkInactive()
	// nobody lost anything
	for i := range w.cfg.Users {
		cu := &w.cfg.Users[i]
		rec := w.dbUser(cu.Name)
		if rec == nil {
			w.fail("C25", "lost-user", "user %s is gone", cu.Name)
			continue
		}
		for j := range cu.Nets {
			n := &cu.Nets[j]
			key := cu.Name + "/" + n.Name
			if w.dbNetwork(key) == nil {
				w.fail("C25", "lost-network", "network %s is gone", key)
				continue
			}
			chans := w.dbChannels(key, strings.ToLower)
			for _, ch := range n.Chans {
				if _, ok := chans[ch]; !ok {
					w.fail("C25", "lost-channel", "%s: channel %s is gone", key, ch)
				}
			}
			c := w.connOf(key)
			if rec.Enabled {
				w.probe("enabled-connected")
				if c == nil {
					w.fail("C25", "not-connected", "user %s is enabled but isn't connected to %s", cu.Name, n.Name)
				}
			} else if c != nil && c.instance == w.inst.id && w.in().users[cu.Name].off.Before(time.Now().Add(-5*time.Minute)) {
				w.fail("C25", "still-connected", "user %s is disabled but connected to %s", cu.Name, n.Name)
			}
		}
	}
}

func genInactive(r *rng, p *Plan) {
	genBase(r, p, genOpt{servers: 1, users: 2 + r.intn(2), netsPer: 2, clients: 2, named: r.chance(70), stores: []string{"memory", "db", "fs"}})
	c := &p.Cfg
	c.Users[0].Admin = true
	c.InactiveH = []int{0, 1, 2, 5, 13, 24, 30}[r.intn(7)]
	if r.chance(85) && c.InactiveH == 0 {
		c.InactiveH = 6
	}
	c.EnableOnAuth = r.chance(50)
	if r.chance(60) {
		c.SQLDelayMS = 1 + r.intn([]int{40, 400, 1000}[r.intn(3)])
	}
	if r.chance(30) {
		// an admin acting as another user
		u := c.Users[1+r.intn(len(c.Users)-1)].Name
		c.Clients = append(c.Clients, ClientCfg{Key: "imp", User: c.Users[0].Name, As: u, SASL: true, Caps: []string{"sasl"}})
	}
	// mostly one client at a time, coming and going around soju's rounds
	n := 6 + r.intn(14)
	p.op(1000, "open", []string{c.Clients[0].Key}, 10)
	for i := 0; i < n; i++ {
		cc := p.anyClient(r)
		switch r.intn(13) {
		case 0, 1, 2:
			p.op(gap(r), "open", []string{cc.Key}, r.intn(2)*8)
		case 3, 4:
			p.op(gap(r), "hangup", []string{cc.Key}, r.intn(2))
		case 5, 6, 7, 8:
			off := 0
			switch r.intn(4) {
			case 0:
				off = -r.intn(4000)
			case 1:
				off = r.intn(6000)
			case 2:
				off = -r.intn(50)
			}
			p.op(gap(r)/20, "tick", nil, off, r.intn(1+r.intn(4)))
			for k := r.intn(3); k > 0; k-- {
				cc := p.anyClient(r)
				if r.chance(60) {
					p.op(r.intn(1+r.intn(2500)), "open", []string{cc.Key}, 0)
				} else {
					p.op(r.intn(1+r.intn(2500)), "hangup", []string{cc.Key}, r.intn(2))
				}
			}
		case 9, 10:
			p.op(0, "hours", nil, r.intn(60*(2+2*c.InactiveH)))
		case 11:
			what := r.pick("on", "off", "on")
			u := c.Users[1+r.intn(len(c.Users)-1)].Name
			if r.chance(40) {
				what, u = "create", "newu"
			}
			p.op(gap(r), "admin", []string{c.Clients[0].Key, u, what})
		case 12:
			switch r.intn(4) {
			case 0:
				p.op(gap(r), "restart", nil)
			case 1:
				p.op(gap(r), "crash", nil)
				p.op(gap(r), "restart", nil)
			case 2:
				p.op(gap(r), "drop", []string{p.anyServer(r)}, r.intn(2))
			default:
				p.op(0, "say", []string{p.anyServer(r), "g1", "#a"}, 1+r.intn(4))
			}
		}
	}
}

func clockOf(w *World, t time.Time) string { return t.Sub(w.start).Round(time.Millisecond).String() }
