package main

import (
	"context"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"syscall"
	"time"

	"database/sql"

	"github.com/prometheus/client_golang/prometheus"
	"golang.org/x/crypto/bcrypt"

	"codeberg.org/emersion/soju"
	"codeberg.org/emersion/soju/auth"
	"codeberg.org/emersion/soju/database"
	"codeberg.org/emersion/soju/fileupload"
	"codeberg.org/emersion/soju/identd"
)

// Violation is one observed breach of a property.
type Violation struct {
	Prop  string `json:"property"`
	Class string `json:"class"`
	Msg   string `json:"message"`
	At    string `json:"at"`
	Op    int    `json:"op"`
}

// World is one simulated deployment.
type World struct {
	plan   *Plan
	cfg    *Cfg
	rng    *rng // harness randomness outside the plan (latencies, ...)
	net    *simNet
	dir    string
	start  time.Time
	ircds  map[string]*ircd
	inst   *instance
	insts  []*instance
	dead   map[uint64]bool
	sess   []*sess
	cur    map[string]*sess // client key -> latest session
	viol   []Violation
	stats  map[string]int
	trace  []string
	opIdx  int
	seq    int
	faults bool // faults may be injected now
	mcount int
	msgs   []*wmsg
	byText map[string]*wmsg

	sqlHook   func(op, query string) error
	sqlCount  int
	sqlErrPct int
	sqlErrOps map[string]bool
	sqlDelay  time.Duration
	booting   int // an instance is starting: no storage errors
	crashAt   int // crash at this statement of the current instance
	sqlLog    []string
	escaped   []string // files soju tried to write outside its directory
	fsHook    func(op, name string, flag, n int) (int, error)
	x         map[string]any // per-profile state
	probes    map[string]int
	httpHook  func(c net.Conn)
	finished  bool
	wallOff   int64
	accepted  map[string]bool // client texts a server accepted
}

// wmsg is one chat message sent somewhere in the world; texts are unique.
type wmsg struct {
	text   string
	at     time.Time
	seq    int
	dir    string // "up" (peer -> soju) or "down" (client -> soju)
	srv    *ircd
	from   string
	target string
	cmd    string
	conns  []*iconn // upstream connections it was written to
	sess   *sess
	stamp  time.Time // the time the server put on it, if it did
	loose  bool      // its place among other messages is not judged
}

// instance is one incarnation of the soju process.
type instance struct {
	id        uint64
	srv       *soju.Server
	db        database.Database
	dbPath    string
	reg       *prometheus.Registry
	ln        *simListener
	admin     *simListener
	dead      bool
	deadAt    time.Time
	crashed   bool
	stopped   bool
	started   time.Time
	killed    chan struct{}
	ready     chan struct{}
	err       error
	done      chan struct{}
	sqls      int
	logs      []string
	identd    *identd.Identd
	http      *simListener
	httpConns []*simConn // client ends
}

const sojuAddr = "soju.test:6667"
const adminAddr = "admin.test:1"
const httpAddr = "http.test:80"
const identAddr = "ident.test:113"

func newWorld(p *Plan, dir string) *World {
	time.Local = time.UTC
	w := &World{
		plan: p, cfg: &p.Cfg, rng: newRng(p.Seed ^ 0x5eed), dir: dir,
		ircds: map[string]*ircd{}, dead: map[uint64]bool{}, cur: map[string]*sess{},
		stats: map[string]int{}, byText: map[string]*wmsg{}, accepted: map[string]bool{}, x: map[string]any{}, probes: map[string]int{},
		start: time.Now(), sqlErrOps: map[string]bool{},
	}
	w.net = newSimNet(w.rng.fork())
	w.net.maxLat = time.Duration(p.Cfg.LatMS) * time.Millisecond
	w.net.chunk = p.Cfg.Chunk
	w.net.onDial = func(inst uint64) bool { return !w.dead[inst] }
	return w
}

func (w *World) now() string {
	return time.Since(w.start).Round(time.Millisecond).String()
}

const maxTrace = 6000

func (w *World) tracef(format string, args ...any) {
	if w.finished {
		return
	}
	line := fmt.Sprintf("%s ", w.now()) + fmt.Sprintf(format, args...)
	h := uint64(14695981039346656037)
	for i := 0; i < len(line); i++ {
		h = (h ^ uint64(line[i])) * 1099511628211
	}
	runtime.SimMix(h)
	if verbose {
		fmt.Fprintln(os.Stderr, line)
	}
	if len(w.trace) < maxTrace {
		w.trace = append(w.trace, line)
	}
}

// fail records a violation.
func (w *World) fail(prop, class, format string, args ...any) {
	if w.finished {
		return
	}
	v := Violation{Prop: prop, Class: class, Msg: fmt.Sprintf(format, args...), At: w.now(), Op: w.opIdx}
	w.tracef("VIOLATION %s %s: %s", v.Prop, v.Class, v.Msg)
	if verbose && os.Getenv("SIM_DUMP") != "" {
		b := make([]byte, 1<<20)
		os.Stderr.Write(b[:runtime.Stack(b, true)])
	}
	if len(w.viol) < 40 {
		w.viol = append(w.viol, v)
	}
}

func (w *World) probe(name string) { w.probes[name]++ }

func (w *World) nextSeq() int { w.seq++; return w.seq }

func (w *World) fault(kind string) {
	w.net.faults[kind]++
}

// ------------------------------------------------------------ instances

type logWriter struct {
	inst *instance
	w    *World
}

func (l logWriter) Write(b []byte) (int, error) {
	s := strings.TrimRight(string(b), "\n")
	if !l.inst.dead {
		if i := strings.Index(s, "panic serving"); i >= 0 {
			l.w.onPanicLog(l.inst, s)
		}
		if verbose {
			fmt.Fprintf(os.Stderr, "    [soju%d] %s\n", l.inst.id, s)
		}
		if len(l.inst.logs) < 2000 {
			l.inst.logs = append(l.inst.logs, s)
		}
	}
	return len(b), nil
}

func (w *World) onPanicLog(inst *instance, s string) {
	first := s
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		first = s[:i]
	}
	where := panicSite(s)
	w.stats["panics"]++
	w.fail("C11", "panic:"+where, "%s at %s", first, where)
}

// panicSite extracts the first soju frame of a stack trace.
func panicSite(s string) string {
	lines := strings.Split(s, "\n")
	seenPanic := false
	for _, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			seenPanic = true
			continue
		}
		if seenPanic && strings.Contains(l, "emersion/soju") && strings.Contains(l, "(") && !strings.HasPrefix(l, "\t") {
			l = l[strings.LastIndex(l, "/")+1:]
			if i := strings.LastIndex(l, "("); i > 0 {
				l = l[:i]
			}
			return l
		}
	}
	return "?"
}

// startInstance boots soju on dbPath.
func (w *World) startInstance(dbPath string) error {
	inst := &instance{id: uint64(len(w.insts) + 1), dbPath: dbPath, started: time.Now(), ready: make(chan struct{}), killed: make(chan struct{}), done: make(chan struct{})}
	w.insts = append(w.insts, inst)
	w.inst = inst
	w.tracef("start instance %d", inst.id)
	w.booting++
	defer func() { w.booting-- }()
	go func() {
		runtime.SimSetTag(inst.id)
		inst.err = w.boot(inst)
		close(inst.ready)
	}()
	select {
	case <-inst.ready:
	case <-inst.killed:
		return nil
	}
	if inst.err != nil {
		w.tracef("instance %d failed to start: %v", inst.id, inst.err)
	}
	return inst.err
}

func (w *World) sojuConfig(old *soju.Config) *soju.Config {
	cfg := *old
	cfg.Hostname = "soju.test"
	cfg.MsgStoreDriver = w.cfg.Store
	if w.cfg.Store == "fs" {
		cfg.MsgStorePath = filepath.Join(w.dir, "logs")
	}
	cfg.MaxUserNetworks = -1
	if w.cfg.MaxNetworks != nil {
		cfg.MaxUserNetworks = *w.cfg.MaxNetworks
	}
	cfg.DisableInactiveUsersDelay = time.Duration(w.cfg.InactiveH) * time.Hour
	cfg.EnableUsersOnAuth = w.cfg.EnableOnAuth
	cfg.MOTD = w.cfg.MOTD
	cfg.Auth = auth.NewInternal()
	cfg.HTTPOrigins = []string{"*"}
	for _, s := range w.cfg.UserIPs {
		if _, n, err := net.ParseCIDR(s); err == nil {
			cfg.UpstreamUserIPs = append(cfg.UpstreamUserIPs, n)
		}
	}
	if hook := w.plan.profile().config; hook != nil {
		hook(w, &cfg)
	}
	return &cfg
}

func (w *World) boot(inst *instance) error {
	db, err := database.Open("sqlite3", inst.dbPath)
	if err != nil {
		return err
	}
	inst.db = db
	srv := soju.NewServer(db)
	srv.Logger = soju.NewLogger(logWriter{inst, w}, os.Getenv("SIM_DEBUGLOG") != "")
	inst.reg = prometheus.NewRegistry()
	srv.MetricsRegistry = inst.reg
	srv.SetConfig(w.sojuConfig(srv.Config()))
	inst.srv = srv
	if w.cfg.Identd {
		inst.identd = identd.New()
		srv.Identd = inst.identd
		ln := w.net.listen(identAddr)
		go inst.identd.Serve(ln)
	}
	if err := srv.Start(); err != nil {
		return err
	}
	inst.ln = w.net.listen(sojuAddr)
	inst.admin = w.net.listen(adminAddr)
	go srv.Serve(inst.ln, srv.Handle)
	go srv.Serve(inst.admin, srv.HandleAdmin)
	web := w.cfg.X["http"] != 0
	for i := range w.cfg.Clients {
		web = web || w.cfg.Clients[i].WS != 0
	}
	if web {
		w.serveHTTP(inst)
	}
	if hook := w.plan.profile().booted; hook != nil {
		hook(w, inst)
	}
	return nil
}

// serveHTTP mirrors the HTTP listener of cmd/soju.
func (w *World) serveHTTP(inst *instance) {
	upload := http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
		cfg := inst.srv.Config()
		h := fileupload.Handler{
			Uploader:    cfg.FileUploader,
			DB:          inst.db,
			Auth:        cfg.Auth,
			HTTPOrigins: cfg.HTTPOrigins,
		}
		h.ServeHTTP(rw, r)
	})
	mux := http.NewServeMux()
	mux.Handle("/socket", inst.srv)
	mux.Handle("/uploads", upload)
	mux.Handle("/uploads/", upload)
	inst.http = w.net.listen(httpAddr)
	srv := &http.Server{Handler: mux, ErrorLog: log.New(io.Discard, "", 0)}
	go srv.Serve(inst.http)
}

// httpConn connects a harness client to soju's HTTP listener.
func (w *World) httpConn(name string) (*simConn, error) {
	c, err := w.net.connect(name, "198.51.100.77", httpAddr)
	if err == nil {
		w.inst.httpConns = append(w.inst.httpConns, c)
	}
	return c, err
}

// metric reads one value from the instance's metrics registry.
func (inst *instance) metric(name string) float64 {
	mfs, err := inst.reg.Gather()
	if err != nil {
		return -1
	}
	for _, mf := range mfs {
		if mf.GetName() == name {
			m := mf.GetMetric()[0]
			if m.Counter != nil {
				return m.Counter.GetValue()
			}
			return m.Gauge.GetValue()
		}
	}
	return -1
}

// kill makes the current instance vanish as a crashed process would: every
// connection breaks, none of its goroutines has any further effect.
func (w *World) kill() string {
	inst := w.inst
	inst.dead = true
	inst.deadAt = time.Now()
	inst.crashed = true
	close(inst.killed)
	w.dead[inst.id] = true
	w.tracef("crash instance %d", inst.id)
	path := filepath.Join(w.dir, fmt.Sprintf("db%d.sqlite", len(w.insts)+1))
	for _, suf := range []string{"", "-wal", "-journal"} {
		copyFile(inst.dbPath+suf, path+suf)
	}
	w.breakInstance(inst)
	return path
}

func (w *World) breakInstance(inst *instance) {
	for _, l := range w.net.listeners {
		if l == inst.ln || l == inst.admin || inst.http != nil && l == inst.http {
			l.Close()
		}
	}
	for _, c := range inst.httpConns {
		if !c.closed {
			c.Reset()
		}
	}
	for _, s := range w.sess {
		if s.inst == inst && !s.conn.closed {
			s.conn.Reset()
		}
	}
	for _, srv := range w.ircdList() {
		for _, c := range srv.conns {
			if c.instance == inst.id && !c.gone {
				c.conn.Reset()
			}
		}
	}
}

func (w *World) ircdList() []*ircd {
	var l []*ircd
	for _, s := range w.ircds {
		l = append(l, s)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].name < l[j].name })
	return l
}

// crash kills the instance and boots a new one on the surviving files.
func (w *World) crash() {
	if w.inst.dead || w.inst.stopped {
		return
	}
	w.fault("crash")
	path := w.kill()
	if err := w.startInstance(path); err != nil {
		w.fail("C08", "restart-failed", "soju does not start after a crash: %v", err)
	}
}

// shutdown stops the instance gracefully. It reports whether it finished in
// the allotted simulated time.
func (w *World) shutdown(limit time.Duration) bool {
	inst := w.inst
	if inst.dead || inst.stopped {
		return true
	}
	select {
	case <-inst.ready:
	case <-inst.killed:
		return true
	}
	inst.stopped = true
	inst.deadAt = time.Now()
	w.tracef("shutdown instance %d", inst.id)
	w.net.faults["restart"]++
	go func() {
		runtime.SimSetTag(inst.id)
		inst.srv.Shutdown()
		close(inst.done)
	}()
	t := time.NewTimer(limit)
	defer t.Stop()
	select {
	case <-inst.done:
		return true
	case <-t.C:
		return false
	}
}

// stopLimit is how long a graceful shutdown may take: what's queued is handled
// first.
func (w *World) stopLimit() time.Duration {
	return 2*time.Minute + 300*time.Duration(w.cfg.SQLDelayMS)*time.Millisecond
}

func (w *World) restart() bool {
	inst := w.inst
	if inst.dead || inst.stopped {
		return true
	}
	ok := w.shutdown(w.stopLimit())
	if w.inst != inst {
		return true // it crashed meanwhile
	}
	inst.dead = true
	w.dead[inst.id] = true
	w.breakInstance(inst)
	if !ok {
		w.fail("C24", "shutdown-hang", "graceful shutdown did not finish within %v of simulated time", w.stopLimit())
	}
	// a copy, since the process may have ended in the middle of a transaction
	path := filepath.Join(w.dir, fmt.Sprintf("db%d.sqlite", len(w.insts)+1))
	for _, suf := range []string{"", "-wal", "-journal"} {
		copyFile(inst.dbPath+suf, path+suf)
	}
	if err := w.startInstance(path); err != nil {
		w.fail("C08", "restart-failed", "soju does not start after a shutdown: %v", err)
	}
	return ok
}

func copyFile(src, dst string) {
	f, err := os.Open(src)
	if err != nil {
		return
	}
	defer f.Close()
	g, err := os.Create(dst)
	if err != nil {
		panic(err)
	}
	defer g.Close()
	if _, err := io.Copy(g, f); err != nil {
		panic(err)
	}
}

// -------------------------------------------------------------- seams

var plainTransport = http.DefaultTransport

func (w *World) install() {
	http.DefaultTransport = plainTransport
	runtime.SimSetWeak(0)
	net.SimDial = w.net.dial
	net.SimLookup = func(ctx context.Context, host string) ([]net.IPAddr, error) {
		a := tcpAddr(net.JoinHostPort(host, "1")).(*net.TCPAddr)
		return []net.IPAddr{{IP: a.IP}}, nil
	}
	sql.SimSQL = func(op, query string) error {
		tag := runtime.SimTag()
		if tag == 0 {
			return nil
		}
		return w.onSQL(tag, op, query)
	}
	os.SimFS = func(op, name string, flag, n int) (int, error) {
		tag := runtime.SimTag()
		if tag != 0 && flag&(os.O_WRONLY|os.O_RDWR|os.O_CREATE|os.O_TRUNC) != 0 && !strings.HasPrefix(name, w.dir+"/") {
			// contain what soju writes
			w.escaped = append(w.escaped, name)
			return 0, syscall.EACCES
		}
		if tag == 0 || !strings.HasPrefix(name, w.dir+"/") {
			return n, nil
		}
		if w.dead[tag] {
			select {}
		}
		if w.fsHook != nil {
			return w.fsHook(op, name, flag, n)
		}
		return n, nil
	}
	os.SimFSDone = func(f *os.File) {
		if runtime.SimTag() != 0 && strings.HasPrefix(f.Name(), w.dir+"/") {
			now := time.Now()
			os.Chtimes(f.Name(), now, now)
		}
	}
}

type simSQLError struct{ s string }

func (e simSQLError) Error() string { return e.s }

func (w *World) onSQL(tag uint64, op, query string) error {
	if w.dead[tag] {
		select {}
	}
	inst := w.insts[tag-1]
	inst.sqls++
	w.sqlCount++
	if len(w.sqlLog) < 4000 {
		q := query
		if len(q) > 60 {
			q = q[:60]
		}
		w.sqlLog = append(w.sqlLog, op+" "+strings.Join(strings.Fields(q), " "))
	}
	if w.crashAt > 0 && inst == w.inst {
		w.crashAt--
		if w.crashAt == 0 {
			w.fault("crash-at-statement")
			w.tracef("crash at statement: %s %.80s", op, strings.Join(strings.Fields(query), " "))
			runtime.SimSetTag(0) // this goroutine does nothing for soju any more
			path := w.kill()
			go func() {
				if err := w.startInstance(path); err != nil {
					w.fail("C08", "restart-failed", "soju does not start after a crash: %v", err)
				}
			}()
			select {}
		}
	}
	if w.sqlHook != nil {
		if err := w.sqlHook(op, query); err != nil {
			w.fault("sql-error")
			w.tracef("sql fault: %s %.80s", op, strings.Join(strings.Fields(query), " "))
			return err
		}
	}
	if w.faults && w.sqlDelay > 0 && w.rng.chance(20) {
		w.fault("sql-slow")
		time.Sleep(time.Duration(w.rng.intn(int(w.sqlDelay/time.Millisecond)+1)) * time.Millisecond)
		if w.dead[tag] {
			select {}
		}
	}
	if w.faults && w.booting == 0 && w.sqlErrPct > 0 && !w.userStarting() && w.rng.chance(w.sqlErrPct) {
		w.fault("sql-error")
		w.tracef("sql fault: %s %.80s", op, strings.Join(strings.Fields(query), " "))
		return simSQLError{"database disk image is malformed (injected)"}
	}
	return nil
}

// userStarting tells whether users may still be loading their networks.  An
// error at that time leaves the user without the network until the next
// start, which profiles that rely on the networks leave out (see DESIGN.md).
func (w *World) userStarting() bool {
	return w.plan.profile().started && time.Since(w.inst.started) < time.Second
}

// -------------------------------------------------------------- set-up

func (w *World) setup() error {
	for _, sc := range w.cfg.Servers {
		s := newIrcd(w, sc.Name)
		s.configure(&sc)
		w.ircds[sc.Name] = s
	}
	if hook := w.plan.profile().setup; hook != nil {
		hook(w)
	}
	path := filepath.Join(w.dir, "db1.sqlite")
	db, err := database.Open("sqlite3", path)
	if err != nil {
		return err
	}
	ctx := context.Background()
	for i := range w.cfg.Users {
		uc := &w.cfg.Users[i]
		rec := database.NewUser(uc.Name)
		hash, err := bcrypt.GenerateFromPassword([]byte(uc.password()), bcrypt.MinCost)
		if err != nil {
			return err
		}
		rec.Password = string(hash)
		rec.Admin = uc.Admin
		rec.Enabled = !uc.Disabled
		rec.Nick = uc.Nick
		rec.Realname = uc.Real
		if uc.MaxNetworks != nil {
			rec.MaxNetworks = *uc.MaxNetworks
		}
		if err := db.StoreUser(ctx, rec); err != nil {
			return err
		}
		for j := range uc.Nets {
			nc := &uc.Nets[j]
			nr := database.NewNetwork("irc+insecure://" + nc.Server + ".test:6667")
			nr.Name = nc.Name
			nr.Nick = nc.Nick
			nr.Realname = nc.Real
			nr.Pass = nc.Pass
			nr.ConnectCommands = nc.Cmds
			nr.AutoAway = !nc.NoAutoAway
			nr.Enabled = !nc.Disabled
			if nc.Addr != "" {
				nr.Addr = nc.Addr
			}
			nr.CertFP = nc.CertFP
			if nc.External {
				nr.SASL.Mechanism = "EXTERNAL"
				nr.SASL.External.CertBlob, nr.SASL.External.PrivKeyBlob = clientCert(uc.Name + "/" + nc.Name)
			}
			if nc.SASLUser != "" {
				nr.SASL.Mechanism = "PLAIN"
				nr.SASL.Plain.Username = nc.SASLUser
				nr.SASL.Plain.Password = nc.SASLPass
			}
			if err := db.StoreNetwork(ctx, rec.ID, nr); err != nil {
				return err
			}
			nc.id = nr.ID
			for _, name := range nc.Chans {
				ch := &database.Channel{Name: strings.TrimPrefix(name, "-")}
				ch.Detached = strings.HasPrefix(name, "-")
				if err := db.StoreChannel(ctx, nr.ID, ch); err != nil {
					return err
				}
			}
		}
	}
	if err := db.Close(); err != nil {
		return err
	}
	return w.startInstance(path)
}

func (s *ircd) configure(sc *SrvCfg) {
	for _, c := range sc.Caps {
		k, v, _ := strings.Cut(c, "=")
		s.caps[k] = v
	}
	s.saslUser, s.saslPass = sc.SASLUser, sc.SASLPass
	s.needPass = sc.Pass
	s.motd = sc.MOTD
	s.splitNames = sc.SplitNames
	s.namesDelay = time.Duration(sc.NamesDelayMS) * time.Millisecond
	s.slow = time.Duration(sc.SlowMS) * time.Millisecond
	s.capMultiline, s.capLate, s.saslMode = sc.CapMultiline, sc.CapLate, sc.SASLMode
	if sc.TLS != "" {
		s.tls12 = sc.TLS12
		s.startTLS(sc.TLS)
	}
	if sc.Casemap != "" {
		s.casemap = sc.Casemap
		for i, t := range s.isupport {
			if strings.HasPrefix(t, "CASEMAPPING=") {
				s.isupport[i] = "CASEMAPPING=" + sc.Casemap
			}
		}
	}
	for _, t := range sc.Isupport {
		k, _, _ := strings.Cut(t, "=")
		found := false
		for i, x := range s.isupport {
			if strings.HasPrefix(x, k+"=") {
				s.isupport[i], found = t, true
			}
		}
		if !found {
			s.isupport = append(s.isupport, t)
		}
	}
	for _, g := range sc.Ghosts {
		s.ghost(g)
	}
	for _, c := range sc.Chans {
		name, members, _ := strings.Cut(c, ":")
		ch := s.channel(name)
		for i, m := range strings.Split(members, ",") {
			if m == "" {
				continue
			}
			as := ""
			if i == 0 {
				as = "o"
			}
			ch.members[s.ghost(m)] = as
		}
	}
}

// --------------------------------------------------------------- clients

func (w *World) sleep(d time.Duration) { time.Sleep(d) }

// settle lets the world run until in-flight work is done.
func (w *World) settle(d time.Duration) {
	time.Sleep(d)
	runtime.SimWait()
}

func (w *World) upText(prefix string) string {
	w.mcount++
	return fmt.Sprintf("%s%d", prefix, w.mcount)
}

// say sends one chat message with a unique text from a peer.
func (w *World) say(s *ircd, from, cmd, target, text string, tags map[string]string) *wmsg {
	u := s.ghost(from)
	m := &wmsg{text: text, at: time.Now(), seq: w.nextSeq(), dir: "up", srv: s, from: u.nick, target: target, cmd: cmd}
	bare := strings.TrimLeft(target, "@+")
	if ch := s.chans[s.fold(bare)]; ch != nil {
		for _, mb := range ch.memberList() {
			if mb.conn != nil && mb != u {
				m.conns = append(m.conns, mb.conn)
			}
		}
	} else if t := s.users[s.fold(target)]; t != nil && t.conn != nil {
		m.conns = append(m.conns, t.conn)
	}
	m.stamp = m.at
	if t, err := time.Parse("2006-01-02T15:04:05.000Z", tags["time"]); err == nil {
		m.stamp = t
	}
	for _, c := range m.conns {
		if !c.caps["server-time"] {
			m.stamp = time.Time{}
		}
	}
	w.msgs = append(w.msgs, m)
	w.byText[text] = m
	s.say(u, cmd, target, text, tags)
	return m
}

func (w *World) onUpstreamRegistered(c *iconn) {
	w.stats["upstream_registrations"]++
}

func (w *World) onUpstreamGot(c *iconn, msg interface{ String() string }) {}

// --------------------------------------------------------------- result

// Result is what one simulated run reports.
type Result struct {
	Seed      uint64         `json:"seed"`
	Profile   string         `json:"profile"`
	Viol      []Violation    `json:"violations,omitempty"`
	Decisions uint64         `json:"decisions"`
	Yields    uint64         `json:"yields"`
	Digest    uint64         `json:"digest"`
	SimMS     int64          `json:"sim_ms"`
	Ops       int            `json:"ops"`
	Faults    map[string]int `json:"faults,omitempty"`
	Probes    map[string]int `json:"probes,omitempty"`
	Stats     map[string]int `json:"stats,omitempty"`
	Trace     []string       `json:"trace,omitempty"`
	State     uint64         `json:"state"`
	Err       string         `json:"err,omitempty"`
}

func (r *Result) json() string {
	b, _ := json.Marshal(r)
	return string(b)
}
