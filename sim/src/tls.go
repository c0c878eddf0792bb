package main

import (
	"bufio"
	"crypto/ed25519"
	"crypto/sha256"
	"crypto/sha512"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/hex"
	"math/big"
	"strings"
	"sync"
	"time"
)

// Certificates are created once, from fixed keys, before any simulation.
type identity struct {
	chain    [][]byte // as sent to the client
	key      ed25519.PrivateKey
	notAfter time.Time
}

var (
	tlsFar   = time.Date(2035, 1, 1, 0, 0, 0, 0, time.UTC)
	tlsSoon  = time.Date(2000, 3, 1, 0, 0, 0, 0, time.UTC)
	tlsPast  = time.Date(1999, 12, 31, 0, 0, 0, 0, time.UTC)
	tlsCA    *x509.Certificate
	tlsCAKey ed25519.PrivateKey
	badCA    *x509.Certificate
	badCAKey ed25519.PrivateKey
)

func tlsKey(name string) ed25519.PrivateKey {
	h := sha256.Sum256([]byte("simulated key " + name))
	return ed25519.NewKeyFromSeed(h[:])
}

func makeCert(cn string, key ed25519.PrivateKey, ca *x509.Certificate, caKey ed25519.PrivateKey, isCA bool, notAfter time.Time) []byte {
	h := sha256.Sum256([]byte(cn + notAfter.String()))
	serial := int64(h[0])<<16 | int64(h[1])<<8 | int64(h[2]) | 1<<30
	t := &x509.Certificate{
		SerialNumber: big.NewInt(serial),
		Subject:      pkix.Name{CommonName: cn},
		NotBefore:    time.Date(1999, 1, 1, 0, 0, 0, 0, time.UTC),
		NotAfter:     notAfter,
		KeyUsage:     x509.KeyUsageDigitalSignature,
		ExtKeyUsage:  []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth, x509.ExtKeyUsageClientAuth},
	}
	if isCA {
		t.IsCA, t.BasicConstraintsValid, t.KeyUsage, t.ExtKeyUsage = true, true, x509.KeyUsageCertSign, nil
	} else {
		t.DNSNames = []string{cn}
	}
	if ca == nil {
		ca, caKey = t, key
	}
	b, err := x509.CreateCertificate(nil, t, ca, key.Public(), caKey)
	if err != nil {
		panic(err)
	}
	return b
}

var identities = map[string]*identity{}

func init() {
	mustParse := func(b []byte) *x509.Certificate {
		c, err := x509.ParseCertificate(b)
		if err != nil {
			panic(err)
		}
		return c
	}
	tlsCAKey, badCAKey = tlsKey("ca"), tlsKey("bad ca")
	tlsCA = mustParse(makeCert("Simulated CA", tlsCAKey, nil, nil, true, tlsFar))
	badCA = mustParse(makeCert("Simulated CA", badCAKey, nil, nil, true, tlsFar))
	pool := x509.NewCertPool()
	pool.AddCert(tlsCA)
	x509.SetFallbackRoots(pool)
	for _, s := range []string{"alpha", "beta", "gamma"} {
		host := s + ".test"
		// what the server itself presents, one per key rotation
		for n, until := range []time.Time{tlsFar, tlsSoon, tlsFar} {
			k := tlsKey(host + string(rune('0'+n)))
			id := &identity{key: k, notAfter: until}
			if n == 2 { // through an intermediate authority
				ik := tlsKey("intermediate")
				ib := makeCert("Simulated intermediate", ik, tlsCA, tlsCAKey, true, tlsFar)
				id.chain = [][]byte{makeCert(host, k, mustParse(ib), ik, false, until), ib}
			} else {
				id.chain = [][]byte{makeCert(host, k, tlsCA, tlsCAKey, false, until)}
			}
			identities[s+string(rune('0'+n))] = id
		}
		// self-signed, for networks which pin it
		k := tlsKey(host + " own")
		identities[s+"S"] = &identity{key: k, notAfter: tlsFar, chain: [][]byte{makeCert(host, k, nil, nil, false, tlsFar)}}
		// what impostors present
		ek := tlsKey("impostor")
		identities[s+" selfsigned"] = &identity{key: ek, chain: [][]byte{makeCert(host, ek, nil, nil, false, tlsFar)}}
		identities[s+" otherca"] = &identity{key: ek, chain: [][]byte{makeCert(host, ek, badCA, badCAKey, false, tlsFar), badCA.Raw}}
		identities[s+" othername"] = &identity{key: ek, chain: [][]byte{makeCert("evil.test", ek, tlsCA, tlsCAKey, false, tlsFar)}}
		identities[s+" expired"] = &identity{key: ek, chain: [][]byte{makeCert(host, ek, tlsCA, tlsCAKey, false, tlsPast)}}
		leaf := makeCert("leaf.test", tlsKey("leaf"), tlsCA, tlsCAKey, false, tlsFar)
		identities[s+" leafca"] = &identity{key: ek, chain: [][]byte{makeCert(host, ek, mustParse(leaf), tlsKey("leaf"), false, tlsFar), leaf}}
	}
}

// attacks are the ways a host may pretend to be a server.
var attacks = []string{"selfsigned", "otherca", "othername", "expired", "leafca", "chain", "stolen", "plain", "silent"}

func fingerprint(algo string, cert []byte) string {
	if algo == "sha-256" {
		h := sha256.Sum256(cert)
		return hex.EncodeToString(h[:])
	}
	h := sha512.Sum512(cert)
	return hex.EncodeToString(h[:])
}

func (id *identity) cert() tls.Certificate {
	return tls.Certificate{Certificate: id.chain, PrivateKey: id.key}
}

// startTLS makes the server available on the TLS port, too.
func (s *ircd) startTLS(id string) {
	s.tlsID = id
	s.tlsLn = s.w.net.listen(s.name + ".test:6697")
	go func() {
		for {
			nc, err := s.tlsLn.Accept()
			if err != nil {
				return
			}
			conn := nc.(*simConn)
			if s.mitm != "" {
				s.w.fault("impostor-" + s.mitm)
				s.w.tracef("impostor of %s (%s) accepts", s.name, s.mitm)
				go s.attack(conn, s.mitm)
				continue
			}
			id := identities[s.tlsID]
			cfg := &tls.Config{Certificates: []tls.Certificate{id.cert()}, ClientAuth: tls.RequestClientCert}
			// sessions may be resumed on later connections
			cfg.SetSessionTicketKeys([][32]byte{sha256.Sum256([]byte("tickets " + s.tlsID))})
			if s.tls12 {
				cfg.MaxVersion = tls.VersionTLS12
			}
			c := s.newConn(conn)
			c.tls = tls.Server(conn, cfg)
			c.tlsID = s.tlsID
			c.outWake = make(chan struct{}, 1)
			go c.loop()
			go c.writeLoop()
		}
	}()
}

// attack pretends to be the server; nothing must be told to it.
func (s *ircd) attack(conn *simConn, kind string) {
	defer conn.Close()
	if kind == "silent" {
		b := make([]byte, 64)
		for {
			if _, err := conn.Read(b); err != nil {
				return
			}
		}
	}
	if kind == "plain" {
		b := make([]byte, 5)
		n, _ := conn.Read(b)
		if n > 0 && b[0] != 0x16 {
			s.w.fail("C13", "told-impostor", "soju talked in plain text (%q…) to %s, which is to be reached over TLS", b[:n], s.name)
		}
		if n > 0 {
			conn.Write([]byte(":irc NOTICE * :*** Looking up your hostname\r\n"))
		}
		time.Sleep(time.Second)
		return
	}
	var cert tls.Certificate
	genuine := identities[s.tlsID]
	switch kind {
	case "chain": // another key, with the genuine certificate appended
		cert = identities[s.name+" selfsigned"].cert()
		cert.Certificate = append(append([][]byte{}, cert.Certificate...), genuine.chain...)
	case "stolen": // the genuine certificate without its key
		cert = genuine.cert()
		cert.PrivateKey = tlsKey("impostor")
	default:
		cert = identities[s.name+" "+kind].cert()
	}
	cfg := &tls.Config{Certificates: []tls.Certificate{cert}, ClientAuth: tls.RequestClientCert}
	if s.tls12 {
		cfg.MaxVersion = tls.VersionTLS12
	}
	c := tls.Server(conn, cfg)
	r := bufio.NewReader(c)
	line, _ := r.ReadString('\n')
	if line != "" {
		s.w.fail("C13", "told-impostor", "an impostor of %s (%s) was sent %q", s.name, kind, strings.TrimRight(line, "\r\n"))
	}
	if l := c.ConnectionState().PeerCertificates; len(l) > 0 {
		s.w.fail("C13", "told-impostor", "an impostor of %s (%s) was shown a client certificate", s.name, kind)
	}
	s.w.probe("impostor-refused")
}

// writeLoop sends what the model produces in order.
func (c *iconn) writeLoop() {
	for {
		for len(c.outq) > 0 {
			b := c.outq[0]
			c.outq = c.outq[1:]
			if _, err := c.tls.Write(b); err != nil {
				c.outq = nil
			}
		}
		if c.gone {
			c.conn.Close()
			return
		}
		<-c.outWake
	}
}

func (c *iconn) wakeWriter() {
	select {
	case c.outWake <- struct{}{}:
	default:
	}
}

// clientCert is the certificate a network logs in with.
func clientCert(key string) (cert, priv []byte) {
	b, err := x509.MarshalPKCS8PrivateKey(tlsKey("client " + key))
	if err != nil {
		panic(err)
	}
	clientCerts.Lock()
	defer clientCerts.Unlock()
	if clientCerts.m[key] == nil {
		clientCerts.m[key] = makeCert("soju "+key, tlsKey("client "+key), nil, nil, false, tlsFar)
	}
	return clientCerts.m[key], b
}

var clientCerts = struct {
	sync.Mutex
	m map[string][]byte
}{m: map[string][]byte{}}
