package main

import (
	"bytes"
	"context"
	"crypto/aes"
	"crypto/cipher"
	"crypto/ecdh"
	"crypto/hkdf"
	"crypto/sha256"
	"encoding/base64"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"runtime"
	"strings"
	"time"

	"gopkg.in/irc.v4"
)

// Property C23: push notifications reach exactly the subscriptions they are
// meant for.
func init() {
	register(&profile{name: "push", prop: "C23", gen: genPush, init: initPush, op: opPush, final: finalPush, exotic: 20})
}

// pushKeys is the secret of one subscription of a device.
type pushKeys struct {
	priv *ecdh.PrivateKey
	auth []byte
}

func newPushKeys(r *rng) *pushKeys {
	for {
		b := make([]byte, 32)
		for i := range b {
			b[i] = byte(r.next())
		}
		k, err := ecdh.P256().NewPrivateKey(b)
		if err != nil {
			continue
		}
		a := make([]byte, 16)
		for i := range a {
			a[i] = byte(r.next())
		}
		return &pushKeys{k, a}
	}
}

func (k *pushKeys) String() string {
	e := base64.RawURLEncoding.EncodeToString
	return "p256dh=" + e(k.priv.PublicKey().Bytes()) + ";auth=" + e(k.auth)
}

// decrypt undoes RFC 8291.
func (k *pushKeys) decrypt(b []byte) (string, error) {
	if len(b) < 21 || len(b) < 21+int(b[20]) {
		return "", errors.New("too short")
	}
	salt, id, ct := b[:16], b[21:21+int(b[20])], b[21+int(b[20]):]
	pub, err := ecdh.P256().NewPublicKey(id)
	if err != nil {
		return "", err
	}
	secret, err := k.priv.ECDH(pub)
	if err != nil {
		return "", err
	}
	info := "WebPush: info\x00" + string(k.priv.PublicKey().Bytes()) + string(id)
	ikm, err := hkdf.Key(sha256.New, secret, k.auth, info, 32)
	if err != nil {
		return "", err
	}
	key, _ := hkdf.Key(sha256.New, ikm, salt, "Content-Encoding: aes128gcm\x00", 16)
	nonce, _ := hkdf.Key(sha256.New, ikm, salt, "Content-Encoding: nonce\x00", 12)
	c, _ := aes.NewCipher(key)
	g, _ := cipher.NewGCM(c)
	pt, err := g.Open(nil, nonce, ct, nil)
	if err != nil {
		return "", err
	}
	i := bytes.LastIndexByte(pt, 2)
	if i < 0 || strings.Trim(string(pt[i+1:]), "\x00") != "" {
		return "", errors.New("bad padding")
	}
	return string(pt[:i]), nil
}

// pushReq is a WEBPUSH command of a client.
type pushReq struct {
	s        *sess
	sub      string
	endpoint string
	keys     *pushKeys
	at       time.Time
	seq      int
	id       string
}

// done tells how the command ended: "ok", "fail" or "" (unknown).
func (r *pushReq) done() (string, *cline) {
	res := ""
	for i := range r.s.lines {
		l := &r.s.lines[i]
		if l.seq < r.seq {
			continue
		}
		switch {
		case l.msg.Command == "PONG" && par(l.msg, 1) == r.id:
			return res, l
		case l.msg.Command == "PONG":
			res = ""
		case l.msg.Command == "WEBPUSH" && par(l.msg, 0) == r.sub && par(l.msg, 1) == r.endpoint:
			res = "ok"
		case l.msg.Command == "FAIL" && par(l.msg, 0) == "WEBPUSH":
			res = "fail"
		}
	}
	return "", nil
}

// pushGot is one request the push service received.
type pushGot struct {
	endpoint string
	at       time.Time
	seq      int
	doneAt   time.Time
	doneSeq  int
	status   int // 0: none
	keys     *pushKeys
	msg      *irc.Message
	vapid    string
	inst     uint64
}

type pushState struct {
	reqs  []*pushReq
	got   []*pushGot
	mode  map[string]string // endpoint -> behaviour
	msgs  []*pmsg
	marks []*pmark
	jumps bool
	fails map[string]bool // endpoints that ever failed
}

// pmsg is something that may be worth a notification.
type pmsg struct {
	m    *wmsg
	key  string // user/net it is addressed to
	hl   bool
	kind string // dm, chan, invite
	buf  string
}

type pmark struct {
	s      *sess
	target string
	ts     string
	at     time.Time
	seq    int
	id     string
}

func (w *World) push() *pushState {
	if w.x["push"] == nil {
		w.x["push"] = &pushState{mode: map[string]string{}, fails: map[string]bool{}}
	}
	return w.x["push"].(*pushState)
}

// pushService is the model of all push services of the world.
type pushService struct{ w *World }

func (p pushService) RoundTrip(req *http.Request) (*http.Response, error) {
	w := p.w
	tag := runtime.SimTag()
	if w.dead[tag] {
		select {}
	}
	if req.URL.Host != "push.test" {
		if req.URL.Host == "auth.test" {
			return plainTransport.RoundTrip(req)
		}
		w.fail("C23", "contacted", "soju sent a push notification to %s", req.URL)
		return nil, &net.OpError{Op: "dial", Net: "tcp", Err: errors.New("no route")}
	}
	body, err := io.ReadAll(req.Body)
	req.Body.Close()
	if err != nil {
		return nil, err
	}
	st := w.push()
	g := &pushGot{endpoint: req.URL.String(), at: time.Now(), seq: w.nextSeq(), inst: tag}
	if w.cfg.LatMS > 0 {
		time.Sleep(time.Duration(w.rng.intn(w.cfg.LatMS*3)) * time.Millisecond)
	}
	if w.dead[tag] {
		select {}
	}
	mode := st.mode[g.endpoint]
	if mode != "" {
		w.fault("push-" + mode)
	}
	switch mode {
	case "hang":
		<-req.Context().Done()
	case "slow":
		select {
		case <-req.Context().Done():
		case <-time.After(time.Duration(1000+w.rng.intn(8000)) * time.Millisecond):
		}
	case "refuse":
		st.fails[g.endpoint] = true
		return nil, &net.OpError{Op: "dial", Net: "tcp", Err: errors.New("connection refused")}
	}
	if w.dead[tag] {
		select {}
	}
	if err := req.Context().Err(); err != nil {
		st.fails[g.endpoint] = true
		return nil, err
	}
	g.status = map[string]int{"gone": 404, "error": 500, "limit": 429}[mode]
	if g.status == 0 {
		g.status = 201
	} else {
		st.fails[g.endpoint] = true
	}
	for _, v := range strings.FieldsFunc(req.Header.Get("Authorization"), func(c rune) bool { return c == ' ' || c == ',' }) {
		if k, ok := strings.CutPrefix(v, "k="); ok {
			g.vapid = k
		}
	}
	var text string
	for i := len(st.reqs) - 1; i >= 0; i-- {
		r := st.reqs[i]
		if r.keys == nil || r.endpoint != g.endpoint {
			continue
		}
		if text, err = r.keys.decrypt(body); err == nil {
			g.keys = r.keys
			break
		}
	}
	w.tracef("push %s <= %q (%d)", g.endpoint, text, g.status)
	if g.keys == nil {
		w.fail("C23", "unreadable", "the notification for %s cannot be decrypted with any key registered for it: %v", g.endpoint, err)
	} else if g.msg, err = irc.ParseMessage(text); err != nil {
		w.fail("C23", "unreadable", "the notification for %s is no message: %q", g.endpoint, text)
	}
	g.doneAt, g.doneSeq = time.Now(), w.nextSeq()
	st.got = append(st.got, g)
	return &http.Response{Status: fmt.Sprint(g.status), StatusCode: g.status, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Body: io.NopCloser(strings.NewReader("")), Request: req}, nil
}

func initPush(w *World) {
	http.DefaultTransport = pushService{w}
	net.SimLookup = func(ctx context.Context, host string) ([]net.IPAddr, error) {
		ip := map[string]string{"push.test": "203.0.113.7", "local.test": "127.0.0.1", "mixed.test": "203.0.113.8", "priv.test": "192.168.3.4", "six.test": "::1", "multi.test": "224.0.0.1"}[host]
		if ip == "" {
			return nil, &net.DNSError{Err: "no such host", Name: host, IsNotFound: true}
		}
		l := []net.IPAddr{{IP: net.ParseIP(ip)}}
		if host == "mixed.test" {
			l = append(l, net.IPAddr{IP: net.ParseIP("10.1.2.3")})
		}
		return l, nil
	}
}

func opPush(w *World, o *Op) bool {
	st := w.push()
	switch o.K {
	case "wreg", "wunreg": // client, endpoint, [1: same keys as before]
		s := w.cur[o.s(0)]
		if s == nil || !s.live() || !s.caps["soju.im/webpush"] {
			return true
		}
		r := &pushReq{s: s, sub: "REGISTER", endpoint: o.s(1), at: time.Now(), seq: w.nextSeq(), id: fmt.Sprintf("wp%d", len(st.reqs))}
		if o.K == "wunreg" {
			r.sub = "UNREGISTER"
			s.send("WEBPUSH UNREGISTER " + r.endpoint)
		} else {
			if o.n(0) == 1 {
				for _, q := range st.reqs {
					if q.endpoint == r.endpoint && q.keys != nil && q.s.netKey() == s.netKey() {
						r.keys = q.keys
					}
				}
			}
			if r.keys == nil {
				r.keys = newPushKeys(w.rng)
			}
			s.send("WEBPUSH REGISTER " + r.endpoint + " " + r.keys.String())
		}
		st.reqs = append(st.reqs, r)
		s.send("PING :" + r.id)
	case "pmode2": // endpoint, behaviour
		st.mode[o.s(0)] = o.s(1)
	case "psay": // user/net, kind (dm, chan, invite), from, form, cmd
		c := w.connOf(o.s(0))
		if c == nil {
			return true
		}
		nick := c.nick()
		text, hl := w.upText("p"), false
		switch o.s(3) {
		case "hl":
			text, hl = nick+": "+text, true
		case "hl2":
			text, hl = text+" ("+nick+")", true
		case "no":
			text += " x" + nick
		}
		m := &pmsg{key: o.s(0), kind: o.s(1), hl: hl}
		switch o.s(1) {
		case "dm":
			m.hl = true
			m.buf = o.s(2)
			m.m = w.say(c.srv, o.s(2), o.s(4), nick, text, nil)
		case "chan":
			m.buf = "#a"
			m.m = w.say(c.srv, o.s(2), o.s(4), "#a", text, nil)
		case "invite":
			m.hl = true
			m.m = &wmsg{text: "#" + w.upText("inv"), at: time.Now(), seq: w.nextSeq(), dir: "up", srv: c.srv, from: c.srv.ghost(o.s(2)).nick, cmd: "INVITE", conns: []*iconn{c}}
			c.event(&irc.Message{Prefix: c.srv.ghost(o.s(2)).prefix(), Command: "INVITE", Params: []string{nick, m.m.text}})
		}
		st.msgs = append(st.msgs, m)
	case "pmark": // client, target
		s := w.cur[o.s(0)]
		if s == nil || !s.live() || !s.caps["draft/read-marker"] {
			return true
		}
		r := &pmark{s: s, target: o.s(1), at: time.Now(), seq: w.nextSeq(), id: fmt.Sprintf("pm%d", len(st.marks)), ts: time.Now().UTC().Format(markLayout)}
		st.marks = append(st.marks, r)
		s.send("MARKREAD " + r.target + " timestamp=" + r.ts)
		s.send("PING :" + r.id)
	case "jump":
		st.jumps = true
		w.jumpClock(o.n(0))
	default:
		return false
	}
	return true
}

// subAt tells whether (key, endpoint) was subscribed throughout [a, b]:
// 1 yes, 0 no, -1 unclear; keys are those it must have been registered with.
func (w *World) subAt(key, endpoint string, a, b time.Time) (int, *pushKeys) {
	st := w.push()
	type ended struct {
		r *pushReq
		l *cline
	}
	var all []ended
	for _, r := range st.reqs {
		if r.s.netKey() != key || r.endpoint != endpoint || r.at.After(b) {
			continue
		}
		res, l := r.done()
		if l != nil && res == "fail" && l.at.Before(a) {
			continue // nothing changed
		}
		if l == nil || res != "ok" || !l.at.Before(a) {
			return -1, nil
		}
		all = append(all, ended{r, l})
	}
	state, keys := 0, (*pushKeys)(nil)
	n := 0
	for _, x := range all {
		last := true
		for _, y := range all {
			if x.l.seq < y.r.seq {
				last = false
			}
		}
		if !last {
			continue
		}
		v := b2i(x.r.sub == "REGISTER")
		if n > 0 && v != state {
			return -1, nil
		}
		if n > 0 {
			keys = nil
		} else {
			keys = x.r.keys
		}
		state = v
		n++
		// the service may have declared it expired since
		if state == 1 {
			for _, g := range st.got {
				if g.endpoint == endpoint && g.status == 404 && g.at.After(x.r.at) && g.at.Before(b) {
					return -1, nil
				}
			}
			if st.jumps && st.fails[endpoint] {
				return -1, nil
			}
		}
	}
	return state, keys
}

func finalPush(w *World) {
	st := w.push()
	for k := range st.mode {
		st.mode[k] = ""
	}
	w.calm()
	w.settle(15 * time.Minute)
	if w.inst.dead {
		return
	}
	// only messages reaching soju for sure from here on
	for i := range w.cfg.Users {
		u := &w.cfg.Users[i]
		for j := range u.Nets {
			if c := w.connOf(u.Name + "/" + u.Nets[j].Name); c != nil {
				opPush(w, &Op{K: "psay", S: []string{u.Name + "/" + u.Nets[j].Name, "dm", "g1", "", "PRIVMSG"}})
			}
		}
	}
	w.settle(6 * time.Minute)
	w.checkPush()
}

func (w *World) checkPush() {
	st := w.push()
	// VAPID: one key for good
	vapid := ""
	for _, s := range w.sess {
		for i := range s.lines {
			m := s.lines[i].msg
			if m.Command != "005" {
				continue
			}
			for _, p := range m.Params {
				if v, ok := strings.CutPrefix(p, "VAPID="); ok {
					if vapid != "" && v != vapid {
						w.fail("C23", "vapid", "the server's key changed from %q to %q", vapid, v)
					}
					vapid = v
				}
			}
		}
	}
	for _, g := range st.got {
		if vapid != "" && g.vapid != vapid {
			w.fail("C23", "vapid", "the notification to %s was signed with key %q, clients know %q", g.endpoint, g.vapid, vapid)
		}
	}
	// registration outcome follows from the endpoint
	for _, r := range st.reqs {
		res, l := r.done()
		if l == nil {
			continue
		}
		w.probe("push-" + strings.ToLower(r.sub) + "-" + res)
		if res == "" {
			w.fail("C23", "no-answer", "client %s: WEBPUSH %s %s was not answered", r.s.label(), r.sub, r.endpoint)
			continue
		}
		bad := !strings.HasPrefix(r.endpoint, "https://push.test/")
		if r.sub == "REGISTER" && bad && res == "ok" {
			w.fail("C23", "bad-endpoint", "client %s could register %s", r.s.label(), r.endpoint)
		}
		if r.sub == "REGISTER" && !bad {
			tested, overlap := 0, false
			for _, q := range st.reqs {
				if q != r && q.endpoint == r.endpoint && q.keys == r.keys && q.seq < l.seq {
					if _, ql := q.done(); ql == nil || ql.seq > r.seq {
						overlap = true
					}
				}
			}
			if overlap {
				continue
			}
			for _, g := range st.got {
				if g.endpoint == r.endpoint && g.keys == r.keys && g.msg != nil && g.msg.Command == "NOTE" && g.doneSeq > r.seq && g.seq < l.seq {
					tested = g.status
				}
			}
			if res == "ok" && tested != 0 && tested != 201 {
				w.fail("C23", "untested", "client %s could register %s although the service answered %d", r.s.label(), r.endpoint, tested)
			}
			if res == "ok" && tested == 0 {
				known := false
				for _, q := range st.reqs {
					if q == r {
						break
					}
					if q.s.netKey() == r.s.netKey() && q.endpoint == r.endpoint && q.keys == r.keys {
						known = true
					}
				}
				if !known {
					w.fail("C23", "untested", "client %s could register %s without a test notification", r.s.label(), r.endpoint)
				}
			}
			if res == "fail" && tested == 201 {
				w.fail("C23", "refused", "client %s could not register %s although the service accepted the test", r.s.label(), r.endpoint)
			}
		}
	}
	// who got what
	type ek struct{ endpoint, text string }
	count := map[ek]int{}
	endpoints := map[string]bool{}
	for _, r := range st.reqs {
		endpoints[r.endpoint] = true
	}
	byText := map[string]*pmsg{}
	for _, m := range st.msgs {
		byText[m.m.text] = m
	}
	for _, g := range st.got {
		if g.status == 404 {
			w.probe("push-expired")
		}
		if g.msg == nil {
			continue
		}
		text := par(g.msg, 1)
		switch g.msg.Command {
		case "NOTE":
			ok := false
			for _, r := range st.reqs {
				if r.sub == "REGISTER" && r.endpoint == g.endpoint && r.seq < g.seq && r.keys == g.keys {
					ok = true
				}
			}
			if !ok {
				w.fail("C23", "unasked", "%s received %q without a registration", g.endpoint, g.msg)
			}
			continue
		case "MARKREAD":
			count[ek{g.endpoint, "MARKREAD " + par(g.msg, 0) + " " + text}]++
			w.checkPushMark(g)
			continue
		}
		m := byText[text]
		if m == nil {
			w.fail("C23", "unasked", "%s received %q, which is nothing to be notified of", g.endpoint, g.msg)
			continue
		}
		if !m.hl {
			w.fail("C23", "unasked", "%s received %q, which does not concern %s", g.endpoint, g.msg, m.key)
		}
		if g.msg.Command != m.m.cmd || g.msg.Prefix == nil || g.msg.Prefix.Name != m.m.from {
			w.fail("C23", "altered", "%s received %q for a %s of %s", g.endpoint, g.msg, m.m.cmd, m.m.from)
		}
		if s, _ := w.subAt(m.key, g.endpoint, m.m.at, g.at); s == 0 {
			w.fail("C23", "stranger", "%s received %q, meant for %s, which %s is not subscribed to", g.endpoint, g.msg, m.key, g.endpoint)
		}
		for _, x := range st.got {
			if x.endpoint != g.endpoint || x.status != 404 || x.msg == nil || x.msg.Command == "NOTE" || !x.doneAt.Add(10*time.Second).Before(m.m.at) || x.inst != g.inst {
				continue
			}
			if xm := byText[par(x.msg, 1)]; xm == nil || xm.key != m.key {
				continue
			}
			again := false
			for _, r := range st.reqs {
				if r.endpoint == g.endpoint && r.s.netKey() == m.key && r.sub == "REGISTER" {
					if _, l := r.done(); (l == nil || l.at.After(x.at.Add(-time.Second))) && r.seq < g.seq {
						again = true
					}
				}
			}
			if !again {
				w.fail("C23", "expired", "%s received %q although the service had declared the subscription gone", g.endpoint, g.msg)
			}
		}
		count[ek{g.endpoint, text}]++
		if count[ek{g.endpoint, text}] > 1 {
			w.fail("C23", "twice", "%s received %q twice", g.endpoint, g.msg)
		}
	}
	for _, m := range st.msgs {
		if !m.hl {
			continue
		}
		inst, ok := w.sojuGot(m.m, m.key)
		if ok && w.pushBusy(m.key, m.m.at) {
			// handled with a delay: the connection has to last that long
			for _, c := range m.m.conns {
				if w.ownerOf(c) == m.key && c.gone && c.goneAt.Before(m.m.at.Add(90*time.Second)) {
					ok = false
				}
			}
		}
		if !ok || !inst.deadAt.IsZero() && inst.deadAt.Before(m.m.at.Add(2*time.Minute)) {
			continue
		}
		for _, e := range sortedKeys(endpoints) {
			s, keys := w.subAt(m.key, e, m.m.at.Add(-time.Second), m.m.at.Add(100*time.Second))
			if s != 1 || w.pushTrouble(e, m.m.at, m.m.at.Add(100*time.Second)) {
				continue
			}
			w.probe("push-due-" + m.kind)
			if count[ek{e, m.m.text}] == 0 {
				w.fail("C23", "lost", "%s did not receive %s %q from %s although it is subscribed to %s", e, m.m.cmd, m.m.text, m.m.from, m.key)
			}
			for _, g := range st.got {
				if g.endpoint == e && g.msg != nil && par(g.msg, 1) == m.m.text && keys != nil && g.keys != keys {
					w.fail("C23", "old-key", "%s received %q encrypted with keys that were replaced before", e, g.msg)
				}
			}
		}
	}
	w.checkPushMarks()
}

// pushBusy: around t, the user's messages may wait for a push service, which
// soju asks when a client registers.
func (w *World) pushBusy(key string, t time.Time) bool {
	user, _, _ := strings.Cut(key, "/")
	for _, r := range w.push().reqs {
		if u, _, _ := strings.Cut(r.s.netKey(), "/"); u != user || r.sub != "REGISTER" || r.at.After(t.Add(10*time.Second)) {
			continue
		}
		_, l := r.done()
		if l == nil && r.at.Add(3*time.Minute).After(t) || l != nil && l.at.After(t.Add(-time.Second)) {
			return true
		}
	}
	return false
}

// pushTrouble: the endpoint (or one tried before it) may not have answered.
func (w *World) pushTrouble(e string, a, b time.Time) bool {
	return w.push().fails[e]
}

// checkPushMark: a marker notification comes from a marker that moved.
func (w *World) checkPushMark(g *pushGot) {
	for _, r := range w.push().marks {
		if strings.EqualFold(r.target, par(g.msg, 0)) && "timestamp="+r.ts == par(g.msg, 1) && r.seq < g.seq {
			if s, _ := w.subAt(r.s.netKey(), g.endpoint, r.at, g.at); s != 0 {
				return
			}
		}
	}
	w.fail("C23", "stranger", "%s received %q, which no client of its network asked for", g.endpoint, g.msg)
}

// checkPushMarks: reading what was notified dismisses the notification on the
// other devices.
func (w *World) checkPushMarks() {
	st := w.push()
	for _, r := range st.marks {
		answered := false
		for i := range r.s.lines {
			l := &r.s.lines[i]
			if l.msg.Command == "MARKREAD" && l.seq > r.seq && par(l.msg, 1) == "timestamp="+r.ts {
				answered = true
			}
		}
		if !answered || st.jumps {
			continue
		}
		var last *pmsg
		unclear := false
		for _, m := range st.msgs {
			if m.key != r.s.netKey() || m.kind == "invite" || !m.hl || !strings.EqualFold(m.buf, r.target) {
				continue
			}
			if d := r.at.Sub(m.m.at); d < 20*time.Second && d > -20*time.Second {
				unclear = true
			}
			if m.m.at.Before(r.at) {
				last = m
			}
		}
		if last == nil || unclear {
			continue
		}
		inst, ok := w.sojuGot(last.m, last.key)
		if ok && (w.pushBusy(last.key, last.m.at) || w.pushBusy(last.key, r.at)) {
			continue
		}
		if !ok || inst != r.s.inst || !inst.deadAt.IsZero() && inst.deadAt.Before(r.at.Add(2*time.Minute)) {
			continue
		}
		cleared := false
		for _, q := range st.marks {
			if q != r && q.s.netKey() == r.s.netKey() && strings.EqualFold(q.target, r.target) && !q.at.Before(last.m.at) && q.at.Before(r.at.Add(time.Minute)) {
				cleared = true
			}
		}
		if cleared {
			continue
		}
		for _, e := range sortedKeys(st.mode) {
			if s, _ := w.subAt(r.s.netKey(), e, r.at.Add(-time.Second), r.at.Add(100*time.Second)); s != 1 || w.pushTrouble(e, r.at, r.at) {
				continue
			}
			w.probe("push-due-mark")
			n := 0
			for _, g := range st.got {
				if g.endpoint == e && g.msg != nil && g.msg.Command == "MARKREAD" && par(g.msg, 1) == "timestamp="+r.ts && strings.EqualFold(par(g.msg, 0), r.target) {
					n++
				}
			}
			if n != 1 {
				w.fail("C23", "mark-lost", "%s received %d notifications of the read marker of %s of %s set to %s", e, n, r.target, r.s.netKey(), r.ts)
			}
		}
	}
}

func genPush(r *rng, p *Plan) {
	genBase(r, p, genOpt{servers: 1, users: 1 + r.intn(2), netsPer: 2, clients: 2, stores: []string{"memory", "db"}, downCaps: func(r *rng) []string {
		return uniq(append(genDownCaps(r), "soju.im/webpush", "draft/read-marker"))
	}})
	c := &p.Cfg
	if r.chance(30) {
		// nothing is ever pushed for connections without a network
		c.Clients = append(c.Clients, ClientCfg{Key: c.Users[0].Name + "U", User: c.Users[0].Name, Caps: []string{"soju.im/webpush", "draft/read-marker", "soju.im/bouncer-networks"}})
	}
	var eps []string
	for i := 0; i < 2+r.intn(4); i++ {
		eps = append(eps, fmt.Sprintf("https://push.test/%c%d", 'a'+i, r.intn(1000)))
	}
	ep := func() string {
		if r.chance(7) {
			return r.pick("http://push.test/x", "https://local.test/x", "https://priv.test/y", "https://mixed.test/", "https://nx.test/1", "https://six.test/", "https://multi.test/", "ftp://push.test/", "push.test")
		}
		return eps[r.intn(len(eps))]
	}
	if r.chance(30) {
		c.SQLDelayMS = 1 + r.intn(300)
	}
	faulty := r.chance(60)
	jumps := r.chance(25)
	for i := range c.Clients {
		p.op(r.intn(300), "open", []string{c.Clients[i].Key})
	}
	p.op(3000, "sleep", nil)
	for _, e := range eps {
		p.op(0, "pmode2", []string{e, ""})
	}
	for i := range c.Clients {
		if r.chance(70) {
			p.op(gap(r), "wreg", []string{c.Clients[i].Key, eps[r.intn(len(eps))]})
		}
	}
	for i := 0; i < 15+r.intn(40); i++ {
		k := p.anyClient(r).Key
		u, n := p.anyNet(r)
		switch x := r.intn(100); {
		case x < 36:
			kind := r.pick("dm", "dm", "chan", "chan", "chan", "invite")
			p.op(gap(r), "psay", []string{u.Name + "/" + n.Name, kind, r.pick("g1", "g2"), r.pick("hl", "hl2", "no", ""), r.pick("PRIVMSG", "PRIVMSG", "NOTICE")})
		case x < 48:
			p.op(gap(r), "wreg", []string{k, ep()}, r.intn(2))
		case x < 54:
			p.op(gap(r), "wunreg", []string{k, ep()})
		case x < 60:
			if faulty {
				if e := eps[r.intn(len(eps))]; r.chance(25) {
					p.op(gap(r), "pmode2", []string{e, "gone"})
					p.op(3000, "psay", []string{u.Name + "/" + n.Name, "dm", "g1", "", "PRIVMSG"})
					p.op(12000, "pmode2", []string{e, ""})
					p.op(gap(r), "psay", []string{u.Name + "/" + n.Name, "dm", "g1", "", "PRIVMSG"})
				}
				p.op(gap(r), "pmode2", []string{eps[r.intn(len(eps))], r.pick("gone", "error", "hang", "slow", "refuse", "limit", "", "", "")})
			}
		case x < 68:
			cc := p.Cfg.client(k)
			kind := r.pick("dm", "chan")
			p.op(25000, "psay", []string{cc.User + "/" + cc.Net, kind, "g1", "hl", "PRIVMSG"})
			p.op(r.intn(2)*25000, "pmark", []string{k, r.pick(map[string]string{"dm": "g1", "chan": "#A"}[kind], "g1", "g2", "#a", "#A", "#b")})
		case x < 72:
			p.op(gap(r), "hangup", []string{k}, r.intn(2))
		case x < 79:
			p.op(gap(r), "open", []string{k})
		case x < 82:
			p.op(gap(r), "drop", []string{p.anyServer(r)}, r.intn(2))
		case x < 85:
			p.op(gap(r), r.pick("crash", "restart"), nil)
		case x < 88:
			if jumps {
				p.op(gap(r), "jump", nil, r.intn(2)*90000+r.intn(2)*2700000)
			}
		case x < 91:
			p.op(gap(r), "serv", []string{k, fmt.Sprintf("network update %s -username u%d", p.Cfg.client(k).Net, i)})
		case x < 94:
			p.op(r.intn(120000), "sleep", nil)
		default:
			p.op(gap(r), "msg", []string{k, r.pick("#a", "#b", "g1")}, 1+r.intn(3))
		}
	}
}
