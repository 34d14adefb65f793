package genp

import (
	"bufio"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"io"
	"math/big"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"sync"
	"time"

	"verif/harness/pbt"
)

// proxy stands between the tool, which runs on its own, and a hub: the tool
// takes it for the way to the Internet.
type proxy struct {
	addr string
	ca   *x509.Certificate
	key  *ecdsa.PrivateKey
	pem  []byte

	mu    sync.Mutex
	hub   http.RoundTripper
	certs map[string]*tls.Certificate
}

var theProxy = sync.OnceValues(newProxy)

func newProxy() (*proxy, error) {
	p := &proxy{certs: map[string]*tls.Certificate{}}
	var err error
	if p.key, err = ecdsa.GenerateKey(elliptic.P256(), rand.Reader); err != nil {
		return nil, err
	}
	t := &x509.Certificate{
		SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "check"},
		NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(1000 * time.Hour),
		IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign,
	}
	der, err := x509.CreateCertificate(rand.Reader, t, t, &p.key.PublicKey, p.key)
	if err != nil {
		return nil, err
	}
	if p.ca, err = x509.ParseCertificate(der); err != nil {
		return nil, err
	}
	p.pem = pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der})
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return nil, err
	}
	p.addr = "http://" + ln.Addr().String()
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			go p.serve(c)
		}
	}()
	return p, nil
}

func (p *proxy) cert(hello *tls.ClientHelloInfo) (*tls.Certificate, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	if c := p.certs[hello.ServerName]; c != nil {
		return c, nil
	}
	t := &x509.Certificate{
		SerialNumber: big.NewInt(int64(len(p.certs) + 2)), Subject: pkix.Name{CommonName: hello.ServerName},
		DNSNames: []string{hello.ServerName}, NotBefore: p.ca.NotBefore, NotAfter: p.ca.NotAfter,
		KeyUsage: x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth},
	}
	der, err := x509.CreateCertificate(rand.Reader, t, p.ca, &p.key.PublicKey, p.key)
	if err != nil {
		return nil, err
	}
	c := &tls.Certificate{Certificate: [][]byte{der}, PrivateKey: p.key}
	p.certs[hello.ServerName] = c
	return c, nil
}

func (p *proxy) serve(c net.Conn) {
	defer c.Close()
	req, err := http.ReadRequest(bufio.NewReader(c))
	if err != nil || req.Method != "CONNECT" {
		return
	}
	if _, err := io.WriteString(c, "HTTP/1.1 200 OK\r\n\r\n"); err != nil {
		return
	}
	s := tls.Server(c, &tls.Config{GetCertificate: p.cert})
	defer s.Close()
	r := bufio.NewReader(s)
	for {
		req, err := http.ReadRequest(r)
		if err != nil {
			return
		}
		req.URL.Host = req.Host
		p.mu.Lock()
		hub := p.hub
		p.mu.Unlock()
		resp, err := hub.RoundTrip(req)
		if err != nil || resp.Write(s) != nil {
			return
		}
	}
}

// use sends the requests of the tool to a hub, and returns the environment
// that the tool needs for it.
func (p *proxy) use(dir string, hub http.RoundTripper) ([]string, error) {
	p.mu.Lock()
	p.hub = hub
	p.mu.Unlock()
	ca := filepath.Join(dir, "ca.pem")
	if err := os.WriteFile(ca, p.pem, 0o644); err != nil {
		return nil, pbt.Harness(err)
	}
	return []string{"https_proxy=" + p.addr, "HTTPS_PROXY=" + p.addr, "no_proxy=", "NO_PROXY=", "SSL_CERT_FILE=" + ca, "SSL_CERT_DIR=" + dir}, nil
}
