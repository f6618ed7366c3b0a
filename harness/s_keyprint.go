package main

import (
	"bytes"
	"crypto/ed25519"
	"crypto/sha256"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/base32"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"io"
	"math/big"
	"math/rand"
	"net"
	"net/url"
	"strings"
	"sync"
	"time"

	"github.com/direct-connect/go-dc/keyprint"
	"github.com/direct-connect/go-dc/keyprint/tlskp"
)

func init() { suites["keyprint"] = suiteKeyprint }

type kpCert struct {
	raw []byte
	key ed25519.PrivateKey
}

var (
	kpMu    sync.Mutex
	kpCache = make(map[int]kpCert)
)

// kpIssuer is the number of the certificate that issued certificate n: 200 and up are issued by
// the authorities 300 and 301, and all the others by themselves.
func kpIssuer(n int) int {
	if n >= 200 && n < 300 {
		return 300 + n%2
	}
	return n
}

func kpTemplate(n int) *x509.Certificate {
	t := &x509.Certificate{
		SerialNumber: big.NewInt(int64(n) + 1),
		Subject:      pkix.Name{CommonName: strings.Repeat("n", n%40)},
		NotBefore:    time.Unix(1500000000, 0),
		NotAfter:     time.Unix(4000000000, 0),
	}
	if n >= 200 {
		t.Subject.CommonName = fmt.Sprint("certificate ", n)
		t.BasicConstraintsValid = true
		t.KeyUsage = x509.KeyUsageDigitalSignature
		if n >= 300 {
			t.IsCA = true
			t.KeyUsage |= x509.KeyUsageCertSign
		} else {
			t.DNSNames = []string{"h"}
			t.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth, x509.ExtKeyUsageClientAuth}
		}
	}
	return t
}

// kpCertN makes the certificate number n.
func kpCertN(n int) kpCert {
	kpMu.Lock()
	defer kpMu.Unlock()
	if c, ok := kpCache[n]; ok {
		return c
	}
	seed := sha256.Sum256([]byte(fmt.Sprint("key of certificate ", n)))
	key := ed25519.NewKeyFromSeed(seed[:])
	t := kpTemplate(n)
	parent, pkey := t, key
	if ca := kpIssuer(n); ca != n {
		cs := sha256.Sum256([]byte(fmt.Sprint("key of certificate ", ca)))
		parent, pkey = kpTemplate(ca), ed25519.NewKeyFromSeed(cs[:])
	}
	raw, err := x509.CreateCertificate(rand.New(rand.NewSource(int64(n))), t, parent, key.Public(), pkey)
	must(err)
	c := kpCert{raw, key}
	kpCache[n] = c
	return c
}

func kpPrint(b []byte) string {
	h := sha256.Sum256(b)
	return "SHA256/" + base32.StdEncoding.WithPadding(base32.NoPadding).EncodeToString(h[:])
}

// kpText makes an announced key print from a certificate: the print, or something close to it.
func kpText(how string, n int) string {
	p := kpPrint(kpCertN(n).raw)
	switch how {
	case "lower":
		return strings.ToLower(p)
	case "bare":
		return strings.TrimPrefix(p, "SHA256/")
	case "longer":
		return p + "A"
	case "shorter":
		return p[:len(p)-1]
	case "empty":
		return ""
	case "otherhash":
		return "SHA1/" + strings.TrimPrefix(p, "SHA256/")
	case "padded":
		return p + "===="
	case "changed":
		b := []byte(p)
		i := 7 + (n*13)%(len(b)-7)
		if b[i] == 'A' {
			b[i] = 'B'
		} else {
			b[i] = 'A'
		}
		return string(b)
	}
	return p
}

func kpList(l []string) []B {
	out := make([]B, 0, len(l))
	for _, s := range l {
		out = append(out, S(s))
	}
	return out
}

func kpRaws(l [][]byte) []B {
	out := make([]B, 0, len(l))
	for _, s := range l {
		out = append(out, cp(s))
	}
	return out
}

type kpHow struct {
	role   string
	v12    bool
	resume bool
	early  bool // before the handshake
	verify bool // the chain is verified as well, up to an authority that the peer may leave out
}

// kpPipe is one direction of a connection with unlimited buffers.
type kpPipe struct {
	mu     sync.Mutex
	cond   *sync.Cond
	buf    []byte
	closed bool
}

type kpConn struct {
	net.Conn // only the methods below are used
	r, w     *kpPipe
	n        int // bytes returned by a read, at most
}

func kpConnPair() (kpConn, kpConn) {
	a, b := new(kpPipe), new(kpPipe)
	a.cond, b.cond = sync.NewCond(&a.mu), sync.NewCond(&b.mu)
	return kpConn{r: a, w: b, n: 700}, kpConn{r: b, w: a, n: 500}
}

func (c kpConn) Read(p []byte) (int, error) {
	if len(p) > c.n {
		p = p[:c.n]
	}
	c.r.mu.Lock()
	defer c.r.mu.Unlock()
	for len(c.r.buf) == 0 && !c.r.closed {
		c.r.cond.Wait()
	}
	if len(c.r.buf) == 0 {
		return 0, io.EOF
	}
	n := copy(p, c.r.buf)
	c.r.buf = c.r.buf[n:]
	return n, nil
}

func (c kpConn) Write(p []byte) (int, error) {
	c.w.mu.Lock()
	defer c.w.mu.Unlock()
	if c.w.closed {
		return 0, io.ErrClosedPipe
	}
	c.w.buf = append(c.w.buf, p...)
	c.w.cond.Broadcast()
	return len(p), nil
}

func (c kpConn) Close() error {
	for _, p := range []*kpPipe{c.r, c.w} {
		p.mu.Lock()
		p.closed = true
		p.cond.Broadcast()
		p.mu.Unlock()
	}
	return nil
}

// kpTLS verifies key prints on a connection whose peer presents a chain.
func (r *Run) kpTLS(id interface{}, chain []int, kps []string, how kpHow) {
	var cert tls.Certificate
	for i, n := range chain {
		c := kpCertN(n)
		if i == 0 {
			cert.PrivateKey = c.key
		}
		cert.Certificate = append(cert.Certificate, c.raw)
	}
	mine := kpCertN(100)
	own := tls.Certificate{Certificate: [][]byte{mine.raw}, PrivateKey: mine.key}
	srv := &tls.Config{MinVersion: tls.VersionTLS12, ClientAuth: tls.RequestClientCert, Certificates: []tls.Certificate{cert}}
	cli := &tls.Config{MinVersion: tls.VersionTLS12, InsecureSkipVerify: true, Certificates: []tls.Certificate{own}, ServerName: "h"}
	if how.role == "server" {
		srv.Certificates = []tls.Certificate{own}
		cli.Certificates = nil
		if len(chain) != 0 {
			cli.Certificates = []tls.Certificate{cert}
		}
	}
	if how.verify {
		pool := x509.NewCertPool()
		for _, n := range []int{300, 301} {
			ca, err := x509.ParseCertificate(kpCertN(n).raw)
			must(err)
			pool.AddCert(ca)
		}
		now := func() time.Time { return time.Unix(2000000000, 0) }
		srv.Time, cli.Time = now, now
		if how.role == "server" {
			srv.ClientAuth, srv.ClientCAs = tls.RequireAndVerifyClientCert, pool
		} else {
			cli.InsecureSkipVerify, cli.RootCAs = false, pool
		}
		r.Count("verified_chains", 1)
	}
	if how.v12 {
		srv.MaxVersion, cli.MaxVersion = tls.VersionTLS12, tls.VersionTLS12
	}
	if how.resume {
		cli.ClientSessionCache = tls.NewLRUClientSessionCache(4)
		srv.SetSessionTicketKeys([][32]byte{sha256.Sum256([]byte("ticket"))})
	} else {
		srv.SessionTicketsDisabled = true
	}
	if how.early {
		chain = nil
	}
	presented := make([]B, 0)
	for _, n := range chain {
		presented = append(presented, cp(kpCertN(n).raw))
	}
	rounds := 1
	if how.resume {
		rounds = 2
	}
	for k := 0; k < rounds; k++ {
		a, b := kpConnPair()
		ct, st := tls.Client(a, cli), tls.Server(b, srv)
		us, peer := ct, st
		if how.role == "server" {
			us, peer = st, ct
		}
		c := M{"id": id, "k": "tls", "chain": presented, "role": how.role, "round": k}
		done := make(chan struct{})
		if !how.early {
			go func() {
				defer close(done)
				must(peer.Handshake())
				// data flows both ways, so that tickets are received as well
				buf := make([]byte, 1)
				_, err := io.ReadFull(peer, buf)
				must(err)
				_, err = peer.Write(buf)
				must(err)
			}()
			must(us.Handshake())
			go func() {
				_, err := us.Write([]byte{1})
				must(err)
			}()
			_, err := io.ReadFull(us, make([]byte, 1))
			must(err)
			<-done
			if us.ConnectionState().DidResume {
				r.Count("resumed", 1)
			}
		}
		var vs []M
		p := call(func() {
			first := tlskp.GetKeyPrints(us)
			for _, kp := range kps {
				l, err := tlskp.VerifyKeyPrint(us, kp)
				v := M{"kp": S(kp), "ok": err == nil, "typed": false, "expected": B{}, "actual": []B{}}
				e, ok := err.(*tlskp.ErrInvalidKeyPrint)
				if ok {
					v["typed"], v["expected"], v["actual"] = true, S(e.Expected), kpList(e.Actual)
				}
				v["prints"] = kpList(l)
				if err == nil {
					r.Count("verified", 1)
				} else {
					r.Count("mismatch", 1)
				}
				vs = append(vs, v)
				for i := range l {
					l[i] = "changed by the caller"
				}
			}
			c["prints"] = kpList(first)
		})
		c["verify"] = vs
		if p != "" {
			c["k"], c["text"] = "panic", p
		}
		a.Close()
		b.Close()
		r.Emit(c)
	}
}

type kpItem struct {
	kind string
	data []byte
}

func kpFile(rng *rand.Rand, items []kpItem) ([]byte, []M) {
	var buf bytes.Buffer
	out := make([]M, 0)
	for _, it := range items {
		t := ""
		switch it.kind {
		case "cert":
			t = "CERTIFICATE"
			must(pem.Encode(&buf, &pem.Block{Type: t, Bytes: it.data}))
		case "headers":
			t = "CERTIFICATE"
			must(pem.Encode(&buf, &pem.Block{Type: t, Bytes: it.data, Headers: map[string]string{"Name": "x"}}))
		case "key":
			t = pickS(rng, "PRIVATE KEY", "RSA PRIVATE KEY", "EC PARAMETERS", "certificate", "CERTIFICATE REQUEST", "X509 CRL")
			must(pem.Encode(&buf, &pem.Block{Type: t, Bytes: it.data}))
		case "trusted":
			t = pickS(rng, "TRUSTED CERTIFICATE", "X509 CERTIFICATE")
			must(pem.Encode(&buf, &pem.Block{Type: t, Bytes: it.data}))
		case "text":
			t = "text"
			fmt.Fprintf(&buf, "subject=/CN=%x\nCERTIFICATE\n-- not a block --\n", it.data[:len(it.data)%5])
		case "broken":
			t = "broken"
			buf.WriteString("-----BEGIN CERTIFICATE-----\n!!!!\n-----END CERTIFICATE-----\n")
		}
		if chance(rng, 0.2) {
			buf.WriteString("\n")
		}
		out = append(out, M{"type": S(t), "data": cp(it.data)})
	}
	b := buf.Bytes()
	switch rng.Intn(4) {
	case 0:
		b = bytes.ReplaceAll(b, []byte("\n"), []byte("\r\n"))
	case 1:
		b = bytes.TrimSuffix(b, []byte("\n"))
	}
	return b, out
}

type kpReader struct {
	data  []byte
	fail  bool
	n     int
	atEOF bool // the end is reported with the last bytes
}

func (r *kpReader) end() error {
	if r.fail {
		return errTmp
	}
	return io.EOF
}

func (r *kpReader) Read(p []byte) (int, error) {
	yield()
	defer yield()
	if len(r.data) == 0 {
		return 0, r.end()
	}
	n := r.n
	if n > len(p) {
		n = len(p)
	}
	n = copy(p[:n], r.data)
	r.data = r.data[n:]
	if len(r.data) == 0 && r.atEOF {
		return n, r.end()
	}
	return n, nil
}

func (r *Run) kpFileCase(id interface{}, rng *rand.Rand, items []kpItem, fails bool) {
	data, its := kpFile(rng, items)
	rd := &kpReader{data: data, fail: fails, n: pick(rng, 1, 7, 64, 10000), atEOF: chance(rng, 0.5)}
	c := M{"id": id, "k": "file", "items": its, "fails": fails, "prints": []B{}, "st": "ok"}
	p := call(func() {
		l, err := keyprint.FromFile(rd)
		if err != nil {
			c["st"] = "err"
			return
		}
		for i := range data {
			data[i] = 'x'
		}
		c["prints"] = kpList(l)
	})
	if p != "" {
		c["k"], c["text"] = "panic", p
	}
	r.Count("files", 1)
	r.Emit(c)
}

func (r *Run) kpURLCase(id interface{}, rng *rand.Rand) {
	var (
		ps    []M
		parts []string
	)
	for n := rng.Intn(4); n > 0; n-- {
		key := pickS(rng, "kp", "kp", "KP", "k", "kpx", "", "keyprint")
		val := pickS(rng, kpText("print", rng.Intn(9)), kpText("print", rng.Intn(9)), "", "a b", "x&kp=y", "SHA256/%2F+=", "#?kp=1")
		ps = append(ps, M{"key": S(key), "val": S(val)})
		ev := url.QueryEscape(val)
		if strings.HasPrefix(val, "SHA256/") && !strings.Contains(val, "%") && chance(rng, 0.5) {
			ev = val // the usual form
		}
		if key == "" && val == "" {
			ps = ps[:len(ps)-1]
			continue
		}
		parts = append(parts, url.QueryEscape(key)+"="+ev)
	}
	if ps == nil {
		ps = []M{}
	}
	addr := pickS(rng, "adcs://h:1", "nmdcs://h", "adc://[::1]:2/x", "dchub://u@h/") + "?" + strings.Join(parts, "&") + pickS(rng, "", "", "#kp=z")
	u, err := url.Parse(addr)
	must(err)
	c := M{"id": id, "k": "url", "addr": S(addr), "params": ps}
	if p := call(func() { c["text"] = S(keyprint.FromURL(u)) }); p != "" {
		c["k"], c["text"] = "panic", p
	}
	r.Count("addresses", 1)
	r.Emit(c)
}

func (r *Run) kpBytesCase(id interface{}, b []byte) {
	c := M{"id": id, "k": "bytes", "data": cp(b)}
	if p := call(func() { c["text"] = S(keyprint.FromBytes(b)) }); p != "" {
		c["k"], c["text"] = "panic", p
	}
	c["after"] = cp(b)
	r.Count("byte_strings", 1)
	r.Emit(c)
}

func (r *Run) kpCertCase(id interface{}, chain [][]byte, leaf []byte) {
	cert := tls.Certificate{Certificate: chain}
	if leaf != nil {
		// the parsed leaf and the rest are no part of what is presented
		cert.Leaf = &x509.Certificate{Raw: leaf, RawTBSCertificate: leaf}
		cert.OCSPStaple, cert.SignedCertificateTimestamps = leaf, [][]byte{leaf}
		r.Count("chains_with_a_parsed_leaf", 1)
	}
	c := M{"id": id, "k": "cert", "chain": kpRaws(chain)}
	p := call(func() {
		l := keyprint.FromCertificate(cert)
		c["after"] = kpRaws(chain)
		for _, b := range chain {
			for i := range b {
				b[i]++
			}
		}
		c["prints"] = kpList(l)
	})
	if p != "" {
		c["k"], c["text"] = "panic", p
	}
	r.Count("chains", 1)
	r.Emit(c)
}

var kpHows = []string{"print", "print", "print", "lower", "bare", "longer", "shorter", "empty", "otherhash", "padded", "changed"}

func suiteKeyprint(r *Run) {
	if r.In != "" {
		for i, l := range readLines(r.In) {
			var s struct {
				K     string          `json:"k"`
				Chain []int           `json:"chain"`
				Items [][]interface{} `json:"items"`
				Kp    []interface{}   `json:"kp"`
				Role  string          `json:"role"`
			}
			must(json.Unmarshal(l, &s))
			id := []interface{}{"model", i}
			rng := r.Rng(i)
			if s.K == "tls" {
				r.kpTLS(id, s.Chain, []string{kpText(s.Kp[0].(string), int(s.Kp[1].(float64)))},
					kpHow{role: s.Role, v12: i%3 == 0})
				continue
			}
			var items []kpItem
			for _, it := range s.Items {
				items = append(items, kpItem{it[0].(string), []byte{byte(it[1].(float64)), 2, 3}})
			}
			r.kpFileCase(id, rng, items, false)
		}
		return
	}
	// every size around the edges of the digest's blocks
	for n := 0; n < 140; n++ {
		r.kpBytesCase([]interface{}{"size", n}, randBytes(r.Rng(-n-1), n, ""))
	}
	r.each(r.keyprintRandom)
}

func (r *Run) keyprintRandom(i int) {
	rng := r.Rng(i)
	switch rng.Intn(6) {
	case 0:
		n := pick(rng, rng.Intn(200), rng.Intn(64), 1000)
		r.kpBytesCase(i, randBytes(rng, n, ""))
	case 1:
		chain := make([][]byte, 0)
		for n := rng.Intn(5); n > 0; n-- {
			chain = append(chain, randBytes(rng, rng.Intn(80), ""))
		}
		var leaf []byte
		switch k := rng.Intn(3); {
		case k == 1:
			leaf = randBytes(rng, 1+rng.Intn(80), "")
		case k == 2 && len(chain) != 0:
			leaf = append([]byte{}, chain[rng.Intn(len(chain))]...)
		}
		r.kpCertCase(i, chain, leaf)
	case 2:
		var items []kpItem
		for n := rng.Intn(6); n > 0; n-- {
			items = append(items, kpItem{pickS(rng, "cert", "cert", "cert", "key", "trusted", "text", "broken", "headers"), randBytes(rng, 1+rng.Intn(70), "")})
		}
		r.kpFileCase(i, rng, items, chance(rng, 0.15))
	case 3:
		r.kpURLCase(i, rng)
	default:
		how := kpHow{role: pickS(rng, "client", "server"), v12: chance(rng, 0.4), resume: chance(rng, 0.25), early: chance(rng, 0.1)}
		var chain []int
		for n := pick(rng, 0, 1, 1, 2, 3, 4); n > 0; n-- {
			chain = append(chain, rng.Intn(6))
		}
		if len(chain) == 0 {
			how.role = "server"
		}
		kps := []string{kpText("print", pick(rng, append([]int{rng.Intn(6)}, chain...)...))}
		for n := rng.Intn(4); n > 0; n-- {
			kps = append(kps, kpText(pickS(rng, kpHows...), rng.Intn(6)))
		}
		if chance(rng, 0.3) {
			// the authority is trusted by us, and is a part of what is presented only sometimes
			how.verify, how.early = true, false
			leaf := 200 + rng.Intn(6)
			ca := kpIssuer(leaf)
			if len(chain) == 0 || chance(rng, 0.5) {
				chain = []int{leaf}
			} else {
				chain[0] = leaf
			}
			if chance(rng, 0.3) {
				k := 1 + rng.Intn(len(chain))
				chain = append(chain[:k:k], append([]int{ca}, chain[k:]...)...)
			}
			kps = append(kps, kpText("print", ca), kpText("print", 601-ca), kpText("print", leaf),
				kpText(pickS(rng, kpHows...), chain[len(chain)-1]))
		}
		r.kpTLS(i, chain, kps, how)
	}
}
