package main

import (
	"bufio"
	"bytes"
	"encoding/base64"
	"fmt"
	"io"
	"mime"
	"net/http"
	"os"
	"path"
	"path/filepath"
	"runtime"
	"strings"
	"time"

	"codeberg.org/emersion/soju"
	"codeberg.org/emersion/soju/fileupload"
)

// Property C21: an acknowledged upload can be fetched again, unchanged, from
// the URL handed out, and nothing else can be stored or fetched.
func init() {
	mime.TypeByExtension(".txt") // reads the system's tables, once
	register(&profile{name: "upload", prop: "C21", gen: genUpload, init: initUpload, op: opUpload, final: finalUpload, config: configUpload})
}

const uploadMax = 50 * 1024 * 1024
const filesHost = "files.test:80"

// hx is one HTTP exchange with soju.
type hx struct {
	id               int
	user, cred, name string
	mime, origin     string
	size, mode       int
	body             []byte
	startAt, endAt   time.Time
	inst             *instance
	resp             *http.Response
	got              []byte
	sentAll, done    bool
	url              string
}

// breq is what the external file host received.
type breq struct {
	user, name, mime string
	body             []byte
	complete         bool
	status           int
	loc              string
}

type upState struct {
	xs    []*hx
	reqs  []*breq
	mode  string
	weak  bool
	n     int
	owner map[string]*hx // URL -> upload
}

func (w *World) up() *upState {
	if w.x["up"] == nil {
		w.x["up"] = &upState{owner: map[string]*hx{}}
	}
	return w.x["up"].(*upState)
}

func (w *World) uploadDir() string { return filepath.Join(w.dir, "uploads") }

func configUpload(w *World, cfg *soju.Config) {
	cfg.HTTPOrigins = []string{"app.test", "*.ok.test"}
	cfg.HTTPIngress = "https://http.test"
	driver, src := "fs", w.uploadDir()
	if w.cfg.X["driver"] == 1 {
		driver, src = "http", "http://"+filesHost+"/new"
	}
	u, err := fileupload.New(driver, src)
	if err != nil {
		panic(err)
	}
	cfg.FileUploader = u
}

func initUpload(w *World) {
	w.up().weak = w.cfg.X["weak"] != 0
	runtime.SimSetWeak(byte(w.cfg.X["weak"]))
	if w.cfg.X["driver"] == 1 {
		ln := w.net.listen(filesHost)
		go http.Serve(ln, http.HandlerFunc(w.serveFiles))
	}
}

// serveFiles is the model of an external file host.
func (w *World) serveFiles(rw http.ResponseWriter, req *http.Request) {
	st := w.up()
	rw.Header().Set("Connection", "close")
	q := &breq{user: req.Header.Get("Soju-Username"), mime: req.Header.Get("Content-Type")}
	if _, ps, err := mime.ParseMediaType(req.Header.Get("Content-Disposition")); err == nil {
		q.name = ps["filename"]
	}
	if len(req.Header.Values("Soju-Username")) != 1 {
		w.fail("C21", "username", "the file host was told usernames %q", req.Header.Values("Soju-Username"))
	}
	st.reqs = append(st.reqs, q)
	mode := st.mode
	if mode != "" {
		w.fault("filehost-" + mode)
	}
	if mode == "early" {
		q.status = 507
		rw.WriteHeader(507)
		fmt.Fprintf(rw, "no space for %d", len(st.reqs))
		return
	}
	var err error
	q.body, err = io.ReadAll(req.Body)
	q.complete = err == nil
	if err != nil {
		return
	}
	n := len(st.reqs)
	switch mode {
	case "slow":
		time.Sleep(time.Duration(w.rng.intn(20000)) * time.Millisecond)
	case "reset":
		panic(http.ErrAbortHandler)
	case "error":
		q.status = []int{400, 403, 413, 500, 503}[w.rng.intn(5)]
		rw.WriteHeader(q.status)
		fmt.Fprintf(rw, "trouble %d", n)
		return
	case "nolocation":
		q.status = 201
		rw.WriteHeader(201)
		return
	case "odd":
		q.status = 200
		q.loc = "https://files.test/odd"
		rw.Header().Set("Location", q.loc)
		rw.WriteHeader(200)
		return
	}
	q.status = 201
	q.loc = fmt.Sprintf("https://files.test/f/%d", n)
	rw.Header().Set("Location", q.loc)
	rw.WriteHeader(201)
}

// request sends a request and waits for the response.
func (w *World) request(x *hx, method, target string, hdr []string, chunked bool, pieces, delay int) {
	defer func() { x.done, x.endAt = true, time.Now() }()
	x.startAt, x.inst = time.Now(), w.inst
	c, err := w.httpConn(fmt.Sprintf("http%d", x.id))
	if err != nil {
		select {
		case <-w.inst.ready:
		default:
			x.inst = nil // still starting
		}
		return
	}
	w.tracef("http %d => %s %s %s (%d bytes, mode %d)", x.id, method, target, strings.Join(hdr, "; "), len(x.body), x.mode)
	got := make(chan bool, 1)
	go func() {
		c.SetReadDeadline(time.Now().Add(3 * time.Minute))
		resp, err := http.ReadResponse(bufio.NewReader(c), &http.Request{Method: method})
		if err == nil {
			x.got, err = io.ReadAll(resp.Body)
			if err == nil {
				x.resp = resp
				w.tracef("http %d <= %s %v (%d bytes)", x.id, resp.Status, resp.Header["Location"], len(x.got))
			}
		}
		got <- true
	}()
	var b strings.Builder
	fmt.Fprintf(&b, "%s %s HTTP/1.1\r\nHost: http.test\r\nConnection: close\r\n", method, target)
	for _, h := range hdr {
		b.WriteString(h + "\r\n")
	}
	if method == "POST" {
		if chunked {
			b.WriteString("Transfer-Encoding: chunked\r\n")
		} else {
			n := len(x.body)
			if x.mode == 4 {
				n += 1 + n/2
			}
			fmt.Fprintf(&b, "Content-Length: %d\r\n", n)
		}
	}
	b.WriteString("\r\n")
	c.Write([]byte(b.String()))
	if pieces < 1 {
		pieces = 1
	}
	rest := x.body
	for i := 0; i < pieces && len(rest) > 0; i++ {
		if x.mode != 0 && x.mode != 4 && i >= (pieces+1)/2 {
			break
		}
		n := (len(x.body) + pieces - 1) / pieces
		if n > len(rest) {
			n = len(rest)
		}
		var p []byte
		if chunked {
			p = fmt.Appendf(p, "%x\r\n", n)
		}
		p = append(p, rest[:n]...)
		if chunked {
			p = append(p, "\r\n"...)
		}
		if _, err := c.Write(p); err != nil {
			break
		}
		rest = rest[n:]
		if delay > 0 && i < pieces-1 {
			time.Sleep(time.Duration(delay) * time.Millisecond)
		}
	}
	switch x.mode {
	case 0:
		if chunked && len(rest) == 0 {
			c.Write([]byte("0\r\n\r\n"))
		}
		x.sentAll = len(rest) == 0
	case 1, 4:
		w.fault("upload-cut")
		c.Close()
	case 2:
		w.fault("upload-reset")
		c.Reset()
	case 3:
		w.fault("upload-stall")
		time.Sleep(40 * time.Second)
		c.Reset()
	}
	<-got
	if !c.closed {
		c.Close()
	}
}

func (w *World) fetch(method, target string, hdr ...string) *hx {
	st := w.up()
	st.n++
	x := &hx{id: 1000 + st.n}
	w.request(x, method, target, hdr, false, 0, 0)
	return x
}

// safeInline: what a browser may display without running anything.
func safeInline(t string) bool {
	t, _, _ = mime.ParseMediaType(t)
	switch t {
	case "application/pdf", "text/plain", "image/apng", "image/gif", "image/jpeg", "image/png", "image/webp":
		return true
	}
	return strings.HasPrefix(t, "audio/") || strings.HasPrefix(t, "video/")
}

// wantName: the file name the uploader gave.
func (x *hx) wantName() string {
	if x.name == "" {
		return ""
	}
	return path.Base(x.name)
}

// steady: nothing disturbed soju while the exchange went on.
func (w *World) steady(x *hx) bool {
	if x.inst == nil || !x.inst.deadAt.IsZero() && !x.inst.deadAt.After(x.endAt) || w.cfg.SQLErrPct > 0 {
		return false
	}
	fl, _ := w.x["diskfaults"].([]diskFault)
	for _, f := range fl {
		if !f.at.Before(x.startAt) && !f.at.After(x.endAt) {
			return false
		}
	}
	return true
}

// refused: soju must not accept the upload, whatever happens.
func (x *hx) refused() string {
	switch {
	case x.origin == "http://evil.test" || x.origin == "https://app.test.evil.test":
		return "forbidden origin"
	case x.cred != "ok" && x.cred != "okcase":
		return "credentials " + x.cred
	case x.size > uploadMax:
		return "too large"
	case x.mime == "text/plain; charset=utf-16":
		return "charset"
	case !x.sentAll:
		return "incomplete"
	}
	return ""
}

func (w *World) upload(o *Op) {
	st := w.up()
	x := &hx{id: len(st.xs), user: o.s(0), cred: o.s(1), name: o.s(2), mime: o.s(3), origin: o.s(4), size: o.n(0), mode: o.n(1)}
	x.body = make([]byte, x.size)
	br := newRng(w.plan.Seed ^ uint64(x.id*7919+1))
	for i := 0; i < len(x.body); i += 8 {
		v := br.next()
		for j := i; j < i+8 && j < len(x.body); j++ {
			x.body[j] = byte(v)
			v >>= 8
		}
	}
	switch o.n(5) {
	case 1:
		copy(x.body, "<html><script>alert(1)</script>")
	case 2:
		copy(x.body, "<?xml version=\"1.0\"?><svg>")
	case 3:
		copy(x.body, "%PDF-")
	case 4:
		for i := range x.body {
			x.body[i] = 'a' + x.body[i]%26
		}
	}
	st.xs = append(st.xs, x)
	var hdr []string
	basic := func(u, p string) {
		hdr = append(hdr, "Authorization: Basic "+base64.StdEncoding.EncodeToString([]byte(u+":"+p)))
	}
	switch x.cred {
	case "ok":
		basic(x.user, w.cfg.passwordOf(x.user))
	case "okcase":
		hdr = append(hdr, "Authorization: bAsIc "+base64.StdEncoding.EncodeToString([]byte(x.user+":"+w.cfg.passwordOf(x.user))))
	case "bad":
		basic(x.user, "wrong")
	case "empty":
		basic(x.user, "")
	case "nobody":
		basic("nobody", "")
	case "path":
		basic("../"+x.user, w.cfg.passwordOf(x.user))
	case "other":
		for i := range w.cfg.Users {
			if w.cfg.Users[i].Name != x.user {
				basic(x.user, w.cfg.Users[i].password())
				break
			}
		}
	case "bearer":
		hdr = append(hdr, "Authorization: Bearer "+w.cfg.passwordOf(x.user))
	case "junk":
		hdr = append(hdr, "Authorization: Basic %%%")
	case "scheme":
		hdr = append(hdr, "Authorization: "+x.user+" "+w.cfg.passwordOf(x.user))
	}
	if x.name != "" {
		hdr = append(hdr, "Content-Disposition: "+mime.FormatMediaType("attachment", map[string]string{"filename": x.name}))
	}
	if x.mime != "" {
		hdr = append(hdr, "Content-Type: "+x.mime)
	}
	if x.origin != "" {
		hdr = append(hdr, "Origin: "+x.origin)
	}
	hdr = append(hdr, "Soju-Username: root")
	w.request(x, "POST", "/uploads", hdr, o.n(2) == 1, o.n(3), o.n(4))
	w.judgeUpload(x)
}

func (w *World) judgeUpload(x *hx) {
	st := w.up()
	why := x.refused()
	if x.resp == nil {
		if why != "incomplete" && x.sentAll && w.steady(x) && !(w.cfg.X["driver"] == 1 && st.mode != "") && !w.fileHostTrouble(x) {
			w.fail("C21", "no-answer", "upload %d of %s was not answered", x.id, x.user)
		}
		return
	}
	code := x.resp.StatusCode
	w.probe(fmt.Sprintf("upload-%d", code))
	if why != "" {
		if code == 201 {
			w.fail("C21", "accepted", "upload %d of %s was accepted although: %s", x.id, x.user, why)
		}
		if w.steady(x) {
			bad := false
			switch why {
			case "forbidden origin":
				bad = code != 403
			case "too large":
				bad = code != 413
			case "charset":
				bad = code != 415
			case "incomplete":
			default:
				bad = code != 400 && code != 401 && code != 403
			}
			if bad {
				w.fail("C21", "answer", "upload %d of %s (%s) was answered %d", x.id, x.user, why, code)
			}
		}
		return
	}
	if w.cfg.X["driver"] == 1 {
		w.judgeForwarded(x)
		return
	}
	if code != 201 {
		if w.steady(x) && !st.weak && len(x.wantName()) < 200 && !strings.Contains(x.name, "\x00") {
			w.fail("C21", "refused", "upload %d of %s (%d bytes, %q, %q) was answered %d %q", x.id, x.user, x.size, x.name, x.mime, code, x.got)
		}
		return
	}
	x.url = x.resp.Header.Get("Location")
	if !strings.HasPrefix(x.url, "/uploads/") {
		w.fail("C21", "location", "upload %d of %s is at %q", x.id, x.user, x.url)
		x.url = ""
		return
	}
	if y := st.owner[x.url]; y != nil {
		w.fail("C21", "overwritten", "uploads %d of %s and %d of %s are both at %q", y.id, y.user, x.id, x.user, x.url)
	}
	st.owner[x.url] = x
}

func (w *World) fileHostTrouble(x *hx) bool { return w.cfg.X["driver"] == 1 }

// judgeForwarded: the answer is that of the file host.
func (w *World) judgeForwarded(x *hx) {
	st := w.up()
	code := x.resp.StatusCode
	var match []*breq
	for _, q := range st.reqs {
		if q.complete && bytes.Equal(q.body, x.body) {
			match = append(match, q)
		}
	}
	if x.size < 16 {
		return
	}
	early := false
	for _, q := range st.reqs {
		if q.status == 507 {
			early = true
		}
	}
	if code == 201 {
		if len(match) != 1 {
			w.fail("C21", "forward", "upload %d of %s was acknowledged but reached the file host %d times", x.id, x.user, len(match))
			return
		}
		q := match[0]
		if q.user != x.user {
			w.fail("C21", "username", "upload %d of %s was given to the file host as one of %q", x.id, x.user, q.user)
		}
		if q.name != x.wantName() && isPrintable(x.wantName()) {
			w.fail("C21", "name", "upload %d of %s, %q, was given to the file host as %q", x.id, x.user, x.wantName(), q.name)
		}
		if q.status != 201 || q.loc == "" {
			w.fail("C21", "forward", "upload %d of %s was acknowledged although the file host answered %d", x.id, x.user, q.status)
		} else if l := x.resp.Header.Get("Location"); l != q.loc {
			w.fail("C21", "location", "upload %d of %s is at %q, the file host said %q", x.id, x.user, l, q.loc)
		}
		return
	}
	if len(match) == 0 {
		if !early && w.steady(x) {
			w.fail("C21", "refused", "upload %d of %s (%d bytes) was answered %d %q without the file host having been asked", x.id, x.user, x.size, code, x.got)
		}
		return
	}
	q := match[0]
	switch {
	case q.status == 201 && q.loc != "" && w.steady(x):
		w.fail("C21", "forward", "upload %d of %s was answered %d although the file host took it", x.id, x.user, code)
	case q.status >= 400 && code != q.status && w.steady(x):
		w.fail("C21", "forward", "upload %d of %s was answered %d, the file host said %d", x.id, x.user, code, q.status)
	}
}

// checkFetch: an upload is there and is what it was.
func (w *World) checkFetch(x *hx, variant int) {
	method := "GET"
	var hdr []string
	a, b := 0, len(x.body)
	switch variant {
	case 1:
		method = "HEAD"
	case 2:
		if len(x.body) > 1 {
			a = w.rng.intn(len(x.body))
			b = a + 1 + w.rng.intn(len(x.body)-a)
			hdr = append(hdr, fmt.Sprintf("Range: bytes=%d-%d", a, b-1))
		}
	case 3:
		hdr = append(hdr, "Origin: https://www.ok.test")
	case 4:
		hdr = append(hdr, "Origin: http://evil.test")
	}
	f := w.fetch(method, x.url, hdr...)
	if f.resp == nil {
		if w.steady(f) {
			w.fail("C21", "no-answer", "%s %s was not answered", method, x.url)
		}
		return
	}
	if !w.steady(f) {
		return
	}
	if variant == 4 {
		if f.resp.StatusCode != 403 || f.resp.Header.Get("Access-Control-Allow-Origin") != "" {
			w.fail("C21", "origin", "%s %s from a foreign origin was answered %d, allowed origin %q", method, x.url, f.resp.StatusCode, f.resp.Header.Get("Access-Control-Allow-Origin"))
		}
		return
	}
	if variant == 3 && f.resp.Header.Get("Access-Control-Allow-Origin") != "https://www.ok.test" {
		w.fail("C21", "origin", "%s %s from an allowed origin: allowed origin %q", method, x.url, f.resp.Header.Get("Access-Control-Allow-Origin"))
	}
	want := 200
	if len(hdr) > 0 && variant == 2 {
		want = 206
	}
	if f.resp.StatusCode != want {
		w.fail("C21", "lost", "%s %s (upload %d of %s, acknowledged) was answered %d", method, x.url, x.id, x.user, f.resp.StatusCode)
		return
	}
	w.probe("upload-fetched")
	if method == "GET" && !bytes.Equal(f.got, x.body[a:b]) {
		w.fail("C21", "altered", "%s (upload %d of %s) has %d bytes, not the %d uploaded ones", x.url, x.id, x.user, len(f.got), b-a)
	}
	if method == "HEAD" && f.resp.ContentLength != int64(len(x.body)) {
		w.fail("C21", "altered", "%s (upload %d of %s) claims %d bytes instead of %d", x.url, x.id, x.user, f.resp.ContentLength, len(x.body))
	}
	if !strings.Contains(f.resp.Header.Get("Content-Security-Policy"), "sandbox") {
		w.fail("C21", "unsafe", "%s is served without a sandbox policy", x.url)
	}
	disp, ps, err := mime.ParseMediaType(f.resp.Header.Get("Content-Disposition"))
	ct := f.resp.Header.Get("Content-Type")
	if err != nil && x.wantName() != "" && isPrintable(x.wantName()) {
		w.fail("C21", "disposition", "%s has Content-Disposition %q", x.url, f.resp.Header.Get("Content-Disposition"))
	}
	if disp != "attachment" && !safeInline(ct) {
		w.fail("C21", "unsafe", "%s of type %q is served as %q", x.url, ct, disp)
	}
	if n := x.wantName(); n != "" && err == nil {
		got := ps["filename"]
		if got != n && !(path.Ext(n) == "" && x.mime != "" && strings.HasPrefix(got, n+".")) {
			w.fail("C21", "name", "%s was uploaded as %q and is served as %q", x.url, n, got)
		}
	}
}

func isPrintable(s string) bool {
	for _, c := range s {
		if c < 32 || c > 126 {
			return false
		}
	}
	return true
}

func opUpload(w *World, o *Op) bool {
	st := w.up()
	switch o.K {
	case "upl": // user, cred, filename, mime, origin; size, mode, chunked, pieces, delay, content
		go w.upload(o)
	case "uget": // which, variant
		var l []*hx
		for _, x := range st.xs {
			if x.url != "" {
				l = append(l, x)
			}
		}
		if len(l) > 0 {
			w.checkFetch(l[o.n(0)%len(l)], o.n(1))
		}
	case "uprobe": // path template, which
		p := o.s(0)
		for i, x := range st.xs {
			if x.url != "" && i >= o.n(0)%(len(st.xs)+1) {
				p = strings.NewReplacer("{dir}", path.Dir(x.url), "{file}", path.Base(x.url)).Replace(p)
				break
			}
		}
		if strings.Contains(p, "{") {
			return true
		}
		f := w.fetch(r2(o.n(1) == 1, "HEAD", "GET"), p)
		if f.resp != nil && f.resp.StatusCode < 300 && st.owner[p] == nil {
			w.fail("C21", "exposed", "%s was served (%d bytes) although it was never handed out", p, len(f.got))
		}
		w.probe("upload-probed")
	case "ufiles":
		st.mode = o.s(0)
	case "disk":
		w.diskFault(o.n(0), o.n(1), o.n(2))
	default:
		return false
	}
	return true
}

func r2(c bool, a, b string) string {
	if c {
		return a
	}
	return b
}

func finalUpload(w *World) {
	st := w.up()
	st.mode = ""
	w.calm()
	w.settle(5 * time.Minute)
	if w.inst.dead {
		return
	}
	// a last one, undisturbed
	runtime.SimSetWeak(0)
	st.weak = false
	w.upload(&Op{S: []string{w.cfg.Users[0].Name, "ok", "last.txt", "", ""}, N: []int{1000}})
	for _, x := range st.xs {
		if !x.done {
			w.fail("C21", "no-answer", "upload %d of %s did not end", x.id, x.user)
		}
		if x.url != "" {
			w.checkFetch(x, 0)
		}
	}
	for _, f := range w.escaped {
		w.fail("C21", "escaped", "soju tried to write %s", f)
	}
	// what is stored was uploaded, by the user it is stored for
	filepath.Walk(w.uploadDir(), func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() {
			return nil
		}
		rel, _ := filepath.Rel(w.uploadDir(), p)
		data, _ := os.ReadFile(p)
		owner := filepath.Dir(rel)
		for _, x := range st.xs {
			if x.user != owner || x.refused() != "" && x.refused() != "incomplete" {
				continue
			}
			if x.url != "" {
				if bytes.Equal(x.body, data) {
					return nil
				}
				continue
			}
			// unknown outcome
			if x.inst != nil && !x.inst.deadAt.IsZero() && !x.inst.deadAt.After(x.endAt.Add(time.Minute)) && bytes.HasPrefix(x.body, data) {
				return nil
			}
			if x.sentAll && x.resp == nil && bytes.Equal(x.body, data) {
				return nil
			}
		}
		w.fail("C21", "leftover", "%s (%d bytes) is stored although no accepted upload left it", rel, len(data))
		return nil
	})
	w.probe("upload-checked")
}

func genUpload(r *rng, p *Plan) {
	genBase(r, p, genOpt{servers: 1, users: 1 + r.intn(3), netsPer: 1, clients: 1, stores: []string{"memory", "db"}})
	c := &p.Cfg
	if c.X == nil {
		c.X = map[string]int{}
	}
	c.X["http"] = 1
	c.X["driver"] = b2i(r.chance(25))
	if r.chance(25) {
		c.X["weak"] = []int{1, 3, 15}[r.intn(3)]
	}
	if r.chance(30) {
		c.SQLDelayMS = 1 + r.intn(300)
	}
	if r.chance(10) {
		c.SQLErrPct = 5 + r.intn(30)
	}
	faulty := r.chance(70)
	big := r.chance(4)
	if big {
		c.Chunk = false
	}
	upl := func(d int) {
		u := c.Users[r.intn(len(c.Users))].Name
		cred := "ok"
		if r.chance(30) {
			cred = r.pick("okcase", "none", "bad", "empty", "nobody", "path", "other", "bearer", "junk", "scheme")
			if cred == "other" && len(c.Users) < 2 {
				cred = "bad"
			}
		}
		name := r.pick("", "", "a.txt", "same.png", "same.png", "x", "a-b-c.html", "../../../../e.txt", "/abs.svg", "..", ".", "sp ace?.js", "pct%2f..%2fq.txt", "naïve.txt", "dir/f.pdf", "a\\b.txt", ".htaccess", "q\"uote.gif", "noext-", strings.Repeat("l", 180)+".txt", strings.Repeat("l", 300))
		mt := r.pick("", "", "text/plain", "text/plain; charset=utf-8", "image/png", "text/html", "image/svg+xml", "application/octet-stream", "image/jpeg", "application/x-unknown", "text/plain; charset=utf-16")
		origin := ""
		if r.chance(20) {
			origin = r.pick("http://http.test", "https://app.test", "https://a.ok.test", "http://evil.test", "https://app.test.evil.test")
		}
		size := []int{0, 1, 7, 16 + r.intn(100), 16 + r.intn(1000), r.intn(100000), r.intn(300000)}[r.intn(7)]
		if big && r.chance(20) {
			size = uploadMax - 1 + r.intn(3)
			name, cred, origin, mt = "big.bin", "ok", "", ""
		}
		mode, delay := 0, 0
		if faulty && r.chance(25) {
			mode = 1 + r.intn(4)
		}
		chunked := b2i(r.chance(40))
		if mode == 4 && (chunked == 1 || size == 0) {
			mode = 1
		}
		pieces := 1 + r.intn(6)
		if r.chance(30) {
			delay = r.intn(5000)
		}
		if mode != 0 && size < 16 {
			size += 16
		}
		if mode != 0 && pieces == 1 {
			pieces = 2
		}
		p.op(d, "upl", []string{u, cred, name, mt, origin}, size, mode, chunked, pieces, delay, r.intn(8))
	}
	p.op(2000, "sleep", nil)
	for i := 0; i < 10+r.intn(30); i++ {
		switch x := r.intn(100); {
		case x < 50:
			upl(gap(r))
			if r.chance(30) {
				upl(r.intn(3))
			}
		case x < 65:
			p.op(gap(r), "uget", nil, r.intn(1000), r.intn(5))
		case x < 78:
			p.op(gap(r), "uprobe", []string{r.pick("/uploads/../db1.sqlite", "/uploads/%2e%2e/db1.sqlite", "/uploads/..%2fdb1.sqlite", "/uploads//../db1.sqlite", "{dir}", "{dir}/", "/uploads", "/uploads/", "{dir}/../../db1.sqlite", "{dir}/x/../{file}", "{dir}/..%2f..%2fdb1.sqlite", "{dir}/{file}x", "{dir}/ffffffff-a.txt", "/uploads/{file}", "//uploads/..;/x", "/uploads/.", "/uploads/..")}, r.intn(1000), r.intn(2))
		case x < 86:
			if faulty {
				if c.X["driver"] == 1 {
					p.op(gap(r), "ufiles", []string{r.pick("", "slow", "reset", "error", "nolocation", "odd", "early")})
				} else {
					p.op(0, "disk", nil, r.intn(4), 1+r.intn(3), r.intn(2000))
				}
			}
		case x < 91:
			if faulty {
				p.op(gap(r), r.pick("crash", "restart"), nil)
			}
		case x < 93:
			if faulty {
				p.op(gap(r), "crashat", nil, 1+r.intn(30))
			}
		default:
			p.op(r.intn(60000), "sleep", nil)
		}
	}
}
