package main

import (
	"bufio"
	"encoding/binary"
	"io"
	"net/http"
	"strings"
	"time"
	"unicode/utf8"
)

// Client side of a WebSocket connection (RFC 6455).

func (s *sess) wsStart() {
	head := ""
	for _, h := range s.cfg.Head {
		head += h + "\r\n"
	}
	if !strings.Contains(head, "Host: ") {
		head = "Host: http.test\r\n" + head
	}
	s.conn.push([]byte("GET /socket HTTP/1.1\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Protocol: text.ircv3.net\r\n" + head + "\r\n"))
}

func (s *sess) wsFrame(fin bool, op byte, p []byte) {
	b := []byte{op, 0x80}
	if fin {
		b[0] |= 0x80
	}
	switch {
	case len(p) < 126:
		b[1] |= byte(len(p))
	case len(p) < 65536:
		b[1] |= 126
		b = binary.BigEndian.AppendUint16(b, uint16(len(p)))
	default:
		b[1] |= 127
		b = binary.BigEndian.AppendUint64(b, uint64(len(p)))
	}
	mask := []byte{1, 2, 3, 4}
	b = append(b, mask...)
	for i, c := range p {
		b = append(b, c^mask[i%4])
	}
	if !s.conn.closed && !s.conn.peer.closed && s.conn.out.err == nil {
		s.conn.push(b)
	}
}

func (s *sess) wsSend(line string) {
	if !s.wsOpen {
		s.wsQueue = append(s.wsQueue, line)
		return
	}
	b := []byte(line)
	if s.cfg.WS == 2 && len(b) > 4 {
		k := len(b) / 2
		s.wsFrame(false, 1, b[:k])
		s.wsFrame(true, 9, []byte("keep"))
		s.wsFrame(true, 0, b[k:])
		return
	}
	s.wsFrame(true, 1, b)
}

func (s *sess) wsEnd(err error) {
	s.closed = true
	s.closedAt = time.Now()
	s.w.tracef("%s closed: %v", s.label(), err)
}

func (s *sess) wsRead() {
	r := bufio.NewReader(s.conn)
	resp, err := http.ReadResponse(r, nil)
	if err != nil {
		s.wsEnd(err)
		return
	}
	s.wsStatus = resp.StatusCode
	if resp.StatusCode != 101 {
		if w := s.w; w.plan.Profile == "web" && resp.StatusCode == 403 {
			s.wsEnd(io.EOF)
			return
		}
		s.w.fail("C11", "websocket", "client %s: the WebSocket handshake was answered %s", s.label(), resp.Status)
		s.wsEnd(io.EOF)
		return
	}
	s.wsOpen = true
	for _, l := range s.wsQueue {
		s.wsSend(l)
	}
	var text []byte
	for {
		var h [2]byte
		if _, err := io.ReadFull(r, h[:]); err != nil {
			s.wsEnd(err)
			return
		}
		n := uint64(h[1] & 0x7f)
		switch n {
		case 126:
			var l [2]byte
			if _, err := io.ReadFull(r, l[:]); err != nil {
				s.wsEnd(err)
				return
			}
			n = uint64(binary.BigEndian.Uint16(l[:]))
		case 127:
			var l [8]byte
			if _, err := io.ReadFull(r, l[:]); err != nil {
				s.wsEnd(err)
				return
			}
			n = binary.BigEndian.Uint64(l[:])
		}
		b := make([]byte, n)
		if _, err := io.ReadFull(r, b); err != nil {
			s.wsEnd(err)
			return
		}
		switch h[0] & 0x0f {
		case 8:
			if !s.hungUp {
				s.wsFrame(true, 8, b)
			}
			s.wsEnd(io.EOF)
			return
		case 9:
			if !s.hungUp {
				s.wsFrame(true, 10, b)
			}
		case 0, 1, 2:
			text = append(text, b...)
			if h[0]&0x80 != 0 {
				if !utf8.Valid(text) {
					s.w.fail("C19", "websocket", "client %s received invalid UTF-8 in a text message: %q", s.label(), text)
				}
				if strings.ContainsAny(string(text), "\r\n") {
					s.w.fail("C19", "websocket", "client %s received several lines in one message: %q", s.label(), text)
				}
				s.gotLine(string(text))
				text = nil
			}
		}
	}
}
