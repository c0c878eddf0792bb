package main

import (
	"bufio"
	"fmt"
	"net"
	"sort"
	"strings"
	"time"
)

// Property C22: whom a connection to a server belongs to.  The ident service
// tells the server at the other end of each connection which user it belongs
// to, and with per-user addresses every user has their own.
func init() {
	register(&profile{name: "ident", prop: "C22", gen: genIdent, setup: setupIdent, op: opIdent, final: finalIdent})
}

type identQ struct {
	what       string
	from, to   string // addresses of the querying server and of soju
	local, rem int    // ports
	at, done   time.Time
	reply      string
	instance   uint64
	query      string
	late       bool // calm: stale entries must be gone
}

type identState struct {
	qs []*identQ
}

func (w *World) identSt() *identState { return w.x["ident"].(*identState) }

func setupIdent(w *World) {
	w.x["ident"] = &identState{}
	w.net.ports = w.cfg.X["ports"]
	for _, srv := range w.ircdList() {
		srv.acceptHook = func(c *iconn) {
			if d := w.cfg.X["ask"]; d != 0 {
				go func() {
					time.Sleep(time.Duration(d) * time.Millisecond)
					w.identAsk(c, "live")
				}()
			}
		}
	}
}

// identAsk queries the ident service like the server of a connection does.
func (w *World) identAsk(c *iconn, what string) *identQ {
	srv, peer := c.conn.laddr.(*net.TCPAddr), c.conn.raddr.(*net.TCPAddr)
	q := &identQ{what: what, from: srv.IP.String(), to: peer.IP.String(), local: peer.Port, rem: srv.Port}
	switch what {
	case "foreign": // another server asks about it
		for _, o := range w.ircdList() {
			if o != c.srv {
				q.from = o.ln.addr.(*net.TCPAddr).IP.String()
			}
		}
		if q.from == srv.IP.String() {
			q.from = "10.9.9.9"
		}
	case "swapped":
		q.local, q.rem = q.rem, q.local
	case "otherport":
		q.rem = 6697
	}
	w.identSend(q)
	return q
}

func (w *World) identSend(q *identQ) {
	if w.inst.dead || w.inst.identd == nil {
		return
	}
	st := w.identSt()
	st.qs = append(st.qs, q)
	q.at = time.Now()
	q.instance = w.inst.id
	if q.query == "" {
		q.query = fmt.Sprintf("%d, %d", q.local, q.rem)
	}
	defer func() { q.done = time.Now() }()
	conn, err := w.net.connectTo("ident", q.from, identAddr, q.to)
	if err != nil {
		return
	}
	defer conn.Close()
	conn.SetDeadline(time.Now().Add(5 * time.Second))
	fmt.Fprintf(conn, "%s\r\n", q.query)
	line, _ := bufio.NewReader(conn).ReadString('\n')
	q.reply = strings.TrimRight(line, "\r\n")
	w.tracef("ident %s %s:%d -> %s:%d %q: %q", q.what, q.from, q.rem, q.to, q.local, q.query, q.reply)
}

// owner is the user a connection belongs to, "" if it never told.
func (c *iconn) owner() string {
	key := ""
	if c.gotUser != nil {
		key = strings.TrimPrefix(c.gotUser.Params[3], "R ")
	}
	u, _, _ := strings.Cut(key, "/")
	return u
}

// judgeIdent checks all answers.
func (w *World) judgeIdent() {
	idents := map[string]string{} // user -> ident
	owners := map[string]string{}
	learn := func(user, id string, q *identQ) {
		if id == "" || strings.ContainsAny(id, " :\t") || len(id) > 512 {
			w.fail("C22", "bad-ident", "the ident of %s is %q", user, id)
		}
		if old, ok := idents[user]; ok && old != id {
			w.fail("C22", "unstable", "the ident of %s was %q and is now %q", user, old, id)
		}
		if o, ok := owners[id]; ok && o != user {
			w.fail("C22", "shared", "%s and %s have the same ident %q", o, user, id)
		}
		idents[user], owners[id] = id, user
	}
	type judged struct {
		q     *identQ
		cands []*iconn
		id    string
	}
	var late []judged
	for _, q := range w.identSt().qs {
		if q.done.IsZero() || w.dead[q.instance] && q.reply == "" {
			continue
		}
		if q.what == "garbage" {
			if q.reply != "" && !strings.Contains(q.reply, "ERROR") {
				w.fail("C22", "garbage", "the query %q was answered %q", q.query, q.reply)
			}
			continue
		}
		if q.reply == "" {
			w.fail("C22", "no-answer", "the query %q from %s was not answered", q.query, q.from)
			continue
		}
		f := strings.SplitN(q.reply, ":", 4)
		for i := range f {
			f[i] = strings.TrimSpace(f[i])
		}
		var a, b int
		fmt.Sscanf(strings.ReplaceAll(f[0], ",", " "), "%d %d", &a, &b)
		if a != q.local || b != q.rem || len(f) < 3 {
			w.fail("C22", "bad-answer", "the query %q was answered %q", q.query, q.reply)
			continue
		}
		id, none := "", false
		switch {
		case f[1] == "USERID" && len(f) == 4:
			id = f[3]
		case f[1] == "ERROR" && f[2] == "NO-USER":
			none = true
		default:
			w.fail("C22", "bad-answer", "the query %q was answered %q", q.query, q.reply)
			continue
		}
		var must *iconn
		var may []*iconn
		for _, srv := range w.ircdList() {
			for _, c := range srv.conns {
				la, ra := c.conn.laddr.(*net.TCPAddr), c.conn.raddr.(*net.TCPAddr)
				if c.instance != q.instance || la.IP.String() != q.from || la.Port != q.rem || ra.IP.String() != q.to || ra.Port != q.local {
					continue
				}
				end := c.conn.peer.closeObserved
				if c.openedAt.After(q.done) || !end.IsZero() && end.Before(q.at.Add(-time.Minute)) {
					continue
				}
				may = append(may, c)
				if c.openedAt.Add(10*time.Millisecond).Before(q.at) && (end.IsZero() || end.After(q.done)) && c.conn.in.err == nil {
					must = c
				}
			}
		}
		switch {
		case must != nil && must.owner() != "":
			w.probe("ident-live")
			if none {
				w.fail("C22", "unknown", "%s asked about its connection #%d of %s and was told there is no such user", must.srv.name, must.idx, must.owner())
				continue
			}
			learn(must.owner(), id, q)
		case none:
			w.probe("ident-nobody")
		case len(may) == 0:
			w.fail("C22", "invented", "%s asked about a connection (%s:%d) there is none of or has long been closed (%s) and was told %q", q.from, q.to, q.local, q.what, id)
		default:
			late = append(late, judged{q, may, id})
		}
	}
	for _, j := range late {
		ok := false
		for _, c := range j.cands {
			o := c.owner()
			if o == "" || idents[o] == "" || idents[o] == j.id {
				ok = true
			}
		}
		w.probe("ident-closing")
		if !ok {
			w.fail("C22", "wrong-user", "%s asked about its connection of %s and was told the ident of %s", j.q.from, j.cands[0].owner(), owners[j.id])
		}
	}
}

// judgeAddrs checks the addresses users connect from.
func (w *World) judgeAddrs() {
	var prefix *net.IPNet
	for _, s := range w.cfg.UserIPs {
		if _, n, err := net.ParseCIDR(s); err == nil && n.IP.To4() != nil && prefix == nil {
			prefix = n
		}
	}
	if prefix == nil {
		return
	}
	addr := map[string]string{}
	who := map[string]string{}
	for _, srv := range w.ircdList() {
		for _, c := range srv.conns {
			ip := c.conn.raddr.(*net.TCPAddr).IP
			o := c.owner()
			if !prefix.Contains(ip) {
				w.fail("C22", "outside-address", "%s#%d (%s) comes from %v, which isn't in %v", srv.name, c.idx, o, ip, prefix)
			}
			if o == "" {
				continue
			}
			w.probe("own-address")
			if a, ok := addr[o]; ok && a != ip.String() {
				w.fail("C22", "address-changed", "%s connects from %s and from %v", o, a, ip)
			}
			if u, ok := who[ip.String()]; ok && u != o {
				w.fail("C22", "address-shared", "%s and %s both connect from %v", u, o, ip)
			}
			addr[o], who[ip.String()] = ip.String(), o
		}
	}
}

func (w *World) identConns() []*iconn {
	var l []*iconn
	for _, srv := range w.ircdList() {
		l = append(l, srv.conns...)
	}
	sort.SliceStable(l, func(i, j int) bool { return l[i].openedAt.Before(l[j].openedAt) })
	return l
}

func opIdent(w *World, o *Op) bool {
	switch o.K {
	case "iask": // what; which connection, counted from the latest
		l := w.identConns()
		if len(l) == 0 {
			return true
		}
		c := l[len(l)-1-o.n(0)%len(l)]
		go w.identAsk(c, o.s(0))
	case "iraw": // query
		go w.identSend(&identQ{what: "garbage", from: w.ircdList()[0].ln.addr.(*net.TCPAddr).IP.String(), to: "192.0.2.1", query: o.s(0)})
	case "ihang": // connects and says nothing
		if !w.inst.dead && w.inst.identd != nil {
			w.net.connectTo("ident", "10.8.8.8", identAddr, "192.0.2.1")
		}
	default:
		return false
	}
	return true
}

func finalIdent(w *World) {
	w.calm()
	if w.inst.dead {
		return
	}
	w.settle(25 * time.Minute)
	for _, c := range w.identConns() {
		if w.inst.dead {
			return
		}
		w.identAsk(c, "final")
		w.identAsk(c, "foreign")
	}
	w.judgeIdent()
	w.judgeAddrs()
	for i := range w.cfg.Users {
		u := &w.cfg.Users[i]
		for j := range u.Nets {
			key := u.Name + "/" + u.Nets[j].Name
			rec := w.dbNetwork(key)
			if rec == nil || !rec.Enabled || w.cfg.X["small"] != 0 || w.cfg.X["ports"] != 0 && w.cfg.X["ports"] < 8 {
				continue
			}
			if c := w.connOf(key); c == nil {
				w.fail("C22", "not-connected", "%s has no connection", key)
			} else {
				w.probe("ident-connected")
			}
		}
	}
}

func genIdent(r *rng, p *Plan) {
	genBase(r, p, genOpt{servers: 1 + r.intn(2), users: 2 + r.intn(3), netsPer: 1 + r.intn(2), clients: 1 + r.intn(2), named: r.chance(40), stores: []string{"memory", "db"}})
	c := &p.Cfg
	c.Identd = true
	if c.X == nil {
		c.X = map[string]int{}
	}
	if r.chance(75) {
		c.X["ports"] = 2 + r.intn(10)
	}
	if r.chance(80) {
		c.X["ask"] = 11 + r.intn([]int{10, 3000}[r.intn(2)])
	}
	switch r.intn(6) {
	case 0, 1:
		c.UserIPs = []string{"192.0.2.0/24"}
	case 2:
		c.UserIPs = []string{"2001:db8::/64", "192.0.2.64/26"}
	case 3:
		c.UserIPs = []string{"192.0.2.128/30"}
		c.X["small"] = 1
	}
	if r.chance(40) {
		c.SQLDelayMS = []int{50, 200, 600}[r.intn(3)]
	}
	for i := range c.Clients {
		if r.chance(70) {
			p.op(gap(r), "open", []string{c.Clients[i].Key}, 0)
		}
	}
	n := 10 + r.intn(25)
	for i := 0; i < n; i++ {
		srv := p.anyServer(r)
		cc := p.anyClient(r)
		switch r.intn(20) {
		case 0, 1, 2, 3:
			p.op(r.intn(200), "drop", []string{srv}, r.intn(2))
		case 4:
			p.op(gap(r), "down", []string{srv})
			p.op(r.intn(90000), "up", []string{srv})
		case 5:
			p.op(gap(r), "stall", []string{srv}, r.intn(2))
			p.op(r.intn(60000), "unstall", []string{srv})
		case 6:
			p.op(gap(r), r.pick("crash", "restart"), nil)
		case 7:
			p.op(gap(r), "open", []string{cc.Key}, 0)
		case 8, 9:
			p.op(gap(r), "serv", []string{cc.Key, "network update " + cc.Net + r.pick(" -enabled false", " -enabled true", " -enabled true", fmt.Sprintf(" -username u%d", i), fmt.Sprintf(" -username u%d", i), " -pass x")})
		case 10:
			p.op(0, "settle", nil, 10+r.intn(900))
		case 11:
			p.op(gap(r), "iraw", []string{r.pick("", "x", "1", "1,", "0, 6667", "50000, 0", "-1, 6667", "50000 6667", "99999999999999999999, 6667", strings.Repeat("9", 600), "50000, 6667, 3")})
		case 12:
			p.op(gap(r), "ihang", nil)
		case 13:
			// busy the user's own goroutine while a connection ends
			p.op(r.intn(50), "say", []string{srv, "g1", "#a", "PRIVMSG"}, 60+r.intn(140))
			p.op(r.intn(50), "msg", []string{cc.Key, "#a"}, 1+r.intn(40))
			p.op(r.intn(3000), "drop", []string{srv}, r.intn(2))
		default:
			p.op(r.intn(1000), "iask", []string{r.pick("live", "live", "live", "foreign", "swapped", "otherport")}, r.intn(6))
		}
	}
}
