#!/usr/bin/env python3
"""Generate a `go build -overlay` file that puts every source of nondeterminism
of the Go runtime and standard library behind seeded seams.

usage: mkoverlay.py GOROOT OUTDIR [extra target=source ...]

Nothing is written outside OUTDIR.  Every edit is an exact textual
replacement that must match exactly once, so an unexpected toolchain fails
loudly instead of silently losing a seam.
"""
import json, os, sys

goroot, out = sys.argv[1], sys.argv[2]
src = os.path.join(goroot, "src")
os.makedirs(out, exist_ok=True)
replace = {}


def patch(rel, *edits):
    path = rel if rel.startswith("/") else os.path.join(src, rel)
    with open(path) as f:
        text = f.read()
    for old, new in edits:
        if text.count(old) != 1:
            sys.exit("mkoverlay: %s: expected exactly one match of %r, found %d" % (rel, old, text.count(old)))
        text = text.replace(old, new)
    dst = os.path.join(out, rel.strip("/").replace("/", "__"))
    with open(dst, "w") as f:
        f.write(text)
    replace[path] = dst


def add(rel, text):
    path = os.path.join(src, rel)
    if os.path.exists(path):
        sys.exit("mkoverlay: %s already exists" % rel)
    dst = os.path.join(out, rel.replace("/", "__"))
    with open(dst, "w") as f:
        f.write(text)
    replace[path] = dst


# ---------------------------------------------------------------- runtime
add("runtime/zz_sim.go", '''package runtime

import (
	"internal/runtime/atomic"
	_ "unsafe"
)

// Deterministic simulation control.  Off unless SimRun is executing.
var simOn atomic.Uint32
var simState uint64   // scheduler and runtime randomness
var simDecisions uint64
var simDigest uint64
var simYieldProb uint32 // out of 1<<16
var simYields uint64
var simNoise uint64
var simRetaking atomic.Uint32

func simNext() uint64 {
	simState += 0x9e3779b97f4a7c15
	z := simState
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:nosplit
func simNextNosplit() uint64 {
	simState += 0x9e3779b97f4a7c15
	z := simState
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// simInBubble reports whether the code runs on a simulated goroutine.
//
//go:nosplit
func simInBubble() bool {
	if simOn.Load() == 0 {
		return false
	}
	gp := getg()
	return gp.bubble != nil
}

// simYield is a seeded preemption point.
func simYield() {
	if simOn.Load() == 0 {
		return
	}
	gp := getg()
	if gp.bubble == nil || gp != gp.m.curg || gp.m.locks != 0 || simYieldProb == 0 {
		return
	}
	if uint32(simNext()>>48) < simYieldProb {
		simYields++
		Gosched()
	}
}

//go:linkname sync_simYield internal/sync.runtime_simYield
func sync_simYield() { simYield() }

// simPick rotates a seeded choice to the head of the local run queue.
func simPick(pp *p) {
	next := pp.runnext
	if next != 0 && pp.runnext.cas(next, 0) {
		runqput(pp, next.ptr(), false)
	}
	h := atomic.LoadAcq(&pp.runqhead)
	t := pp.runqtail
	n := t - h
	if n < 2 {
		return
	}
	// Goroutines outside the simulation (runtime helpers, woken by real
	// time) go first and leave the simulated order and randomness alone.
	rl := uint32(len(pp.runq))
	for i := uint32(0); i < n; i++ {
		x := pp.runq[(h+i)%rl]
		if x.ptr().bubble != nil {
			continue
		}
		for j := i; j > 0; j-- {
			pp.runq[(h+j)%rl] = pp.runq[(h+j-1)%rl]
		}
		pp.runq[h%rl] = x
		return
	}
	k := uint32(simNext() % uint64(n))
	simDecisions++
	simDigest = (simDigest ^ uint64(n)<<32 ^ uint64(k)) * 0x100000001b3
	if k != 0 {
		l := uint32(len(pp.runq))
		a, b := &pp.runq[h%l], &pp.runq[(h+k)%l]
		x, y := *a, *b
		*a, *b = y, x
	}
}

// SimRun runs f in a bubble under the seeded scheduler.
func SimRun(seed uint64, yieldProb uint32, f func()) (decisions, yields, digest uint64) {
	simState = seed
	simDecisions, simYields, simDigest = 0, 0, 0xcbf29ce484222325
	simYieldProb = yieldProb
	simWallOff = 0
	simOn.Store(1)
	// a retake that began before simOn was set must not reach into the run
	for simRetaking.Load() != 0 {
		usleep(20)
	}
	synctestRun(f)
	simOn.Store(0)
	return simDecisions, simYields, simDigest
}

// SimMix folds a value into the schedule digest.
func SimMix(v uint64) { simDigest = (simDigest ^ v) * 0x100000001b3 }

// SimWait blocks until every other simulated goroutine is blocked.
func SimWait() { synctestWait() }

// SimYield is an explicit seeded preemption point.
func SimYield() { simYield() }

// SimSetTag marks the calling goroutine and all its descendants.
func SimSetTag(v uint64) { getg().simTag = v }

// SimTag returns the inherited mark of the calling goroutine.
func SimTag() uint64 { return getg().simTag }

// SimOn reports whether the caller is a simulated goroutine.
func SimOn() bool { return simInBubble() }

// SimRand returns seeded randomness on simulated goroutines.
func SimRand() uint64 { return rand() }

var simWeak byte

// SimSetWeak masks short reads of entropy, so that they collide.
func SimSetWeak(m byte) { simWeak = m }
func SimWeak() byte     { return simWeak }

// SimWallOffset shifts the wall clock (not the monotonic clock) seen by
// simulated goroutines.
func SimWallOffset(d int64) { simWallOff = d }

var simWallOff int64

// SimInitDone ends the start-up phase, in which randomness is constant so
// that package-level maps get the same hash seeds in every process.
func SimInitDone() { simInitDone = true }

var simInitDone bool
''')

patch("runtime/rand.go",
      ("	seed := &globalRand.seed\n	if len(startupRand) >= 16 &&",
       "	seed := &globalRand.seed\n	if true {\n		for i := range seed {\n			seed[i] = byte(i*7 + 1)\n		}\n	} else if len(startupRand) >= 16 &&"),
      ("func rand() uint64 {\n", "func rand() uint64 {\n	if simInBubble() {\n		return simNextNosplit()\n	}\n	if !simInitDone {\n		return 0x2545f4914f6cdd1d\n	}\n"),
      ("	mp.cheaprand = uint32(rand())\n	mp.cheaprand64 = rand()\n", "	mp.cheaprand = 0x1234567\n	mp.cheaprand64 = 0x123456789abcdef\n"),
      )
patch("runtime/proc.go",
      ("func runqget(pp *p) (gp *g, inheritTime bool) {\n",
       "func runqget(pp *p) (gp *g, inheritTime bool) {\n	if simOn.Load() != 0 {\n		simPick(pp)\n	}\n"),
      ("func retake(now int64) uint32 {\n",
       "func retake(now int64) uint32 {\n	simRetaking.Store(1)\n	if simOn.Load() != 0 {\n		simRetaking.Store(0)\n		return 0\n	}\n	n := simRetake(now)\n	simRetaking.Store(0)\n	return n\n}\n\nfunc simRetake(now int64) uint32 {\n"),
      ("	if pp.schedtick%61 == 0 && !sched.runq.empty() {",
       "	if simOn.Load() == 0 && pp.schedtick%61 == 0 && !sched.runq.empty() {"),
      ("			newg.labels = mp.curg.labels\n", "			newg.labels = mp.curg.labels\n			newg.simTag = mp.curg.simTag\n"),
      ("	gp.labels = nil\n", "	gp.labels = nil\n	gp.simTag = 0\n"),
      ("	if preempted && sched.gcwaiting.Load() {\n		// If preempted for STW",
       "	if simOn.Load() != 0 {\n		runqput(pp, gp, false)\n	} else if preempted && sched.gcwaiting.Load() {\n		// If preempted for STW"),
      )
patch("runtime/time.go",
      ("			t.rand = cheaprand()\n", "			t.rand = cheaprand()\n			if simOn.Load() != 0 {\n				t.rand = uint32(simNextNosplit() >> 32)\n			}\n"),
      ("		sec = bubble.now / (1000 * 1000 * 1000)\n		nsec = int32(bubble.now % (1000 * 1000 * 1000))\n",
       "		if simOn.Load() != 0 {\n			w := bubble.now + simWallOff\n			return w / (1000 * 1000 * 1000), int32(w % (1000 * 1000 * 1000)), bubble.now\n		}\n		sec = bubble.now / (1000 * 1000 * 1000)\n		nsec = int32(bubble.now % (1000 * 1000 * 1000))\n"),
      )
patch("runtime/runtime2.go",
      ("	labels          unsafe.Pointer // profiler labels\n", "	labels          unsafe.Pointer // profiler labels\n	simTag          uint64\n"),
      ("	waitReasonSyncCondWait:          true,\n",
       "	waitReasonSyncCondWait:          true,\n	waitReasonSyncMutexLock:         true,\n	waitReasonSyncRWMutexRLock:      true,\n	waitReasonSyncRWMutexLock:       true,\n"),
      )
patch("runtime/chan.go",
      ("func chansend(c *hchan, ep unsafe.Pointer, block bool, callerpc uintptr) bool {\n",
       "func chansend(c *hchan, ep unsafe.Pointer, block bool, callerpc uintptr) bool {\n	simYield()\n"),
      ("func chanrecv(c *hchan, ep unsafe.Pointer, block bool) (selected, received bool) {\n",
       "func chanrecv(c *hchan, ep unsafe.Pointer, block bool) (selected, received bool) {\n	simYield()\n"),
      )
patch("runtime/select.go",
      ("func selectgo(cas0 *scase, order0 *uint16, pc0 *uintptr, nsends, nrecvs int, block bool) (int, bool) {\n",
       "func selectgo(cas0 *scase, order0 *uint16, pc0 *uintptr, nsends, nrecvs int, block bool) (int, bool) {\n	simYield()\n"),
      ("		j := cheaprandn(uint32(norder + 1))", "		j := cheaprandn(uint32(norder + 1))\n		if simInBubble() {\n			j = uint32(simNextNosplit()>>33) % uint32(norder+1)\n		}"),
      )
patch("runtime/synctest.go",
      ("	if total != 1 {\n		var reason string",
       "	if total != 1 && simOn.Load() == 0 {\n		var reason string"),
      )
patch("internal/sync/mutex.go",
      ("	starvationThresholdNs = 1e6\n", "	starvationThresholdNs = 1 << 62\n"),
      ("func (m *Mutex) Lock() {\n", "func (m *Mutex) Lock() {\n	runtime_simYield()\n"),
      )
add("internal/sync/zz_sim.go", '''package sync

import _ "unsafe"

//go:linkname runtime_simYield
func runtime_simYield()
''')

# -------------------------------------------------------------------- net
patch("net/dial.go",
      ("func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {\n",
       "func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {\n	if SimDial != nil {\n		ctx, cancel := d.dialCtx(ctx)\n		defer cancel()\n		return SimDial(ctx, d, network, address)\n	}\n"),
      ("// A Dialer contains options for connecting to an address.",
       "// SimDial, when set, replaces the network.\nvar SimDial func(ctx context.Context, d *Dialer, network, address string) (Conn, error)\n\n// A Dialer contains options for connecting to an address."),
      )
patch("net/lookup.go",
      ("func (r *Resolver) LookupIPAddr(ctx context.Context, host string) ([]IPAddr, error) {\n",
       "func (r *Resolver) LookupIPAddr(ctx context.Context, host string) ([]IPAddr, error) {\n	if SimLookup != nil {\n		return SimLookup(ctx, host)\n	}\n"),
      ("func (r *Resolver) LookupIP(ctx context.Context, network, host string) ([]IP, error) {\n",
       "func (r *Resolver) LookupIP(ctx context.Context, network, host string) ([]IP, error) {\n	if SimLookup != nil {\n		l, err := SimLookup(ctx, host)\n		if err != nil {\n			return nil, err\n		}\n		var ips []IP\n		for _, a := range l {\n			ips = append(ips, a.IP)\n		}\n		return ips, nil\n	}\n"),
      ("// LookupIPAddr looks up host using the local resolver.",
       "// SimLookup, when set, replaces name resolution.\nvar SimLookup func(ctx context.Context, host string) ([]IPAddr, error)\n\n// LookupIPAddr looks up host using the local resolver."),
      )

# ----------------------------------------------------------- database/sql
patch("database/sql/sql.go",
      ("func OpenDB(c driver.Connector) *DB {\n",
       """// SimSQL, when set, is consulted before every statement, transaction start
// and commit.  A non-nil error is returned instead of executing.
var SimSQL func(op, query string) error

func simSQL(op, query string) error {
	if SimSQL != nil {
		return SimSQL(op, query)
	}
	return nil
}

func OpenDB(c driver.Connector) *DB {
"""),
      ("		lastPut:   make(map[*driverConn]string),\n		stop:      cancel,\n	}\n",
       "		lastPut:   make(map[*driverConn]string),\n		stop:      cancel,\n	}\n	if SimSQL != nil {\n		db.maxOpen = 1 // a second connection would wait for the first in C, in real time\n	}\n"),
      ("	execerCtx, ok := dc.ci.(driver.ExecerContext)\n",
       "	if err := simSQL(\"exec\", query); err != nil {\n		return nil, err\n	}\n	execerCtx, ok := dc.ci.(driver.ExecerContext)\n"),
      ("	queryerCtx, ok := dc.ci.(driver.QueryerContext)\n",
       "	if err := simSQL(\"query\", query); err != nil {\n		releaseConn(err)\n		return nil, err\n	}\n	queryerCtx, ok := dc.ci.(driver.QueryerContext)\n"),
      ("	var txi driver.Tx\n	keepConnOnRollback := false\n",
       "	if err := simSQL(\"begin\", \"\"); err != nil {\n		release(err)\n		return nil, err\n	}\n	var txi driver.Tx\n	keepConnOnRollback := false\n"),
      ("func (tx *Tx) Commit() error {\n",
       "func (tx *Tx) Commit() error {\n	if err := simSQL(\"commit\", \"\"); err != nil {\n		tx.Rollback()\n		return err\n	}\n"),
      ("	ds.Lock()\n	defer ds.Unlock()\n\n	dargs, err := driverArgsConnLocked(ci, ds, args)\n",
       "	if err := simSQL(\"exec\", \"prepared\"); err != nil {\n		return nil, err\n	}\n	ds.Lock()\n	defer ds.Unlock()\n\n	dargs, err := driverArgsConnLocked(ci, ds, args)\n"),
      )

# --------------------------------------------------------------------- os
patch("os/file.go",
      ("func (f *File) Write(b []byte) (n int, err error) {\n	if err := f.checkValid(\"write\"); err != nil {\n		return 0, err\n	}\n	n, e := f.write(b)\n",
       """// SimFS, when set, is consulted before file operations.  For "write" it
// returns how many bytes may be written and the error that ends the write;
// for the other operations only the error counts.
var SimFS func(op, name string, flag, n int) (int, error)

// SimFSDone, when set, is called after each successful write.
var SimFSDone func(f *File)

func (f *File) Write(b []byte) (n int, err error) {
	if err := f.checkValid("write"); err != nil {
		return 0, err
	}
	if SimFS != nil {
		k, serr := SimFS("write", f.name, 0, len(b))
		if serr != nil {
			if k > 0 {
				n, _ = f.write(b[:k])
				if SimFSDone != nil {
					SimFSDone(f)
				}
			}
			return n, &PathError{Op: "write", Path: f.name, Err: serr}
		}
	}
	n, e := f.write(b)
	if SimFSDone != nil {
		SimFSDone(f)
	}
"""),
      ("func OpenFile(name string, flag int, perm FileMode) (*File, error) {\n	testlog.Open(name)\n",
       "func OpenFile(name string, flag int, perm FileMode) (*File, error) {\n	testlog.Open(name)\n	if SimFS != nil {\n		if _, err := SimFS(\"open\", name, flag, 0); err != nil {\n			return nil, &PathError{Op: \"open\", Path: name, Err: err}\n		}\n	}\n"),
      ("func Mkdir(name string, perm FileMode) error {\n",
       "func Mkdir(name string, perm FileMode) error {\n	if SimFS != nil {\n		if _, err := SimFS(\"mkdir\", name, 0, 0); err != nil {\n			return &PathError{Op: \"mkdir\", Path: name, Err: err}\n		}\n	}\n"),
      ("func Rename(oldpath, newpath string) error {\n",
       "func Rename(oldpath, newpath string) error {\n	if SimFS != nil {\n		if _, err := SimFS(\"rename\", newpath, 0, 0); err != nil {\n			return &LinkError{Op: \"rename\", Old: oldpath, New: newpath, Err: err}\n		}\n	}\n"),
      )

patch("os/file_posix.go",
      ("func (f *File) Truncate(size int64) error {\n",
       "func (f *File) Truncate(size int64) error {\n	if SimFSDone != nil {\n		defer SimFSDone(f)\n	}\n"),
      )

# ------------------------------------------------------------ crypto/rand
# Every reader of entropy ends here; seeded on simulated goroutines.
patch("crypto/internal/fips140/drbg/rand.go",
      ("func Read(b []byte) {\n",
       "func Read(b []byte) {\n	if runtime.SimOn() {\n		for i := range b {\n			b[i] = byte(runtime.SimRand() >> 24)\n		}\n		if len(b) <= 8 && runtime.SimTag() != 0 {\n			if m := runtime.SimWeak(); m != 0 {\n				for i := range b {\n					b[i] &= m\n					m = 0\n				}\n			}\n		}\n		return\n	}\n"),
      ('	"io"\n', '	"io"\n	"runtime"\n'),
      )
patch("crypto/internal/randutil/randutil.go",
      ("func MaybeReadByte(r io.Reader) {\n", "func MaybeReadByte(r io.Reader) {\n	if runtime.SimOn() {\n		return\n	}\n"),
      ('	"io"\n', '	"io"\n	"runtime"\n'),
      )

for a in sys.argv[3:]:
    target, source = a.split("=", 1)
    replace[target] = source

with open(os.path.join(out, "overlay.json"), "w") as f:
    json.dump({"Replace": replace}, f, indent=1)
