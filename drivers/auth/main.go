// Command auth replays authentication behaviours over real HTTP and TLS.
package main

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/base64"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"io"
	"math/big"
	"net"
	"net/http"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	fiber "github.com/gofiber/fiber/v3"
	"golang.org/x/crypto/bcrypt"

	"github.com/hyp3rd/hypercache/internal/verifdrv/vlib"
	"github.com/hyp3rd/hypercache/pkg/httpauth"
)

var secrets = map[string]string{
	"t1": "alphaTokenA1", "t2": "alphaTokenA1y22z", "t3": "Zz9-other.token~3",
	"u1": "pass:Word 1", "u2": "pass:Word 1more", "u3": "ünï#3pw",
}

func userName(u string) string { return "User-" + u }
func cnName(c string) string   { return "svc-" + c }

var (
	hashMu sync.Mutex
	hashes = map[string][]byte{}
)

func hash(u string) []byte {
	hashMu.Lock()
	defer hashMu.Unlock()

	if h, ok := hashes[u]; ok {
		return h
	}

	h, err := bcrypt.GenerateFromPassword([]byte(secrets[u]), bcrypt.MinCost)
	if err != nil {
		vlib.Fatal(err)
	}

	hashes[u] = h

	return h
}

type ca struct {
	cert *x509.Certificate
	key  *ecdsa.PrivateKey
	raw  []byte
}

var serial = int64(1)

func mkCert(subj pkix.Name, parent *ca, isCA bool, san []string) *ca {
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		vlib.Fatal(err)
	}

	serial++
	t := &x509.Certificate{
		SerialNumber: big.NewInt(serial), Subject: subj, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(48 * time.Hour),
		IsCA: isCA, BasicConstraintsValid: true, DNSNames: san,
		KeyUsage:    x509.KeyUsageDigitalSignature | x509.KeyUsageCertSign,
		ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth, x509.ExtKeyUsageServerAuth},
	}
	p, pk := t, key

	if parent != nil {
		p, pk = parent.cert, parent.key
	}

	raw, err := x509.CreateCertificate(rand.Reader, t, p, &key.PublicKey, pk)
	if err != nil {
		vlib.Fatal(err)
	}

	c, err := x509.ParseCertificate(raw)
	if err != nil {
		vlib.Fatal(err)
	}

	return &ca{c, key, raw}
}

func (c *ca) tls(chain ...*ca) *tls.Certificate {
	o := &tls.Certificate{Certificate: [][]byte{c.raw}, PrivateKey: c.key}
	for _, x := range chain {
		o.Certificate = append(o.Certificate, x.raw)
	}

	return o
}

var (
	root     *ca
	certMu   sync.Mutex
	certs    = map[string]*tls.Certificate{}
	clientMu sync.Mutex
	clients  = map[string]*http.Client{}
	addrs    = map[string]string{}

	policies sync.Map // id -> httpauth.Policy
)

func clientCert(cn, form string) *tls.Certificate {
	certMu.Lock()
	defer certMu.Unlock()

	if c, ok := certs[cn+"/"+form]; ok {
		return c
	}

	name := cnName(cn)
	n := func(s string) pkix.Name { return pkix.Name{CommonName: s} }

	var c *tls.Certificate

	switch form {
	case "exact":
		c = mkCert(n(name), root, false, nil).tls()
	case "viaca":
		i := mkCert(n("Intermediate"), root, true, nil)
		c = mkCert(n(name), i, false, nil).tls(i)
	case "inter":
		i := mkCert(n(name), root, true, nil)
		c = mkCert(n("someone-else"), i, false, nil).tls(i)
	case "case":
		c = mkCert(n(strings.ToUpper(name)), root, false, nil).tls()
	case "sub":
		c = mkCert(n(name+".evil"), root, false, nil).tls()
	case "pre":
		c = mkCert(n("x-"+name), root, false, nil).tls()
	case "cut":
		c = mkCert(n(name[:len(name)-1]), root, false, nil).tls()
	case "space":
		c = mkCert(n(name+" "), root, false, nil).tls()
	case "san":
		c = mkCert(n("someone-else"), root, false, []string{name}).tls()
	case "ou":
		c = mkCert(pkix.Name{CommonName: "someone-else", OrganizationalUnit: []string{name}, Organization: []string{name}}, root, false, nil).tls()
	case "emptycn":
		c = mkCert(pkix.Name{OrganizationalUnit: []string{name}}, root, false, nil).tls()
	case "untrusted":
		c = mkCert(n(name), nil, false, nil).tls()
	default:
		panic("verif-driver: cert form " + form)
	}

	certs[cn+"/"+form] = c

	return c
}

func serve() {
	app := fiber.New()
	app.Get("/:pol/:need", func(c fiber.Ctx) error {
		v, ok := policies.Load(strings.Clone(c.Params("pol")))
		if !ok {
			return fiber.NewError(599)
		}

		need := strings.Clone(c.Params("need"))
		if need == "any" {
			need = ""
		}

		p := v.(httpauth.Policy)
		if c.Query("direct") != "" { // Verify without the middleware
			if err := p.Verify(c, httpauth.Scope(need)); err != nil {
				return err
			}

			return c.Next()
		}

		return p.Middleware(httpauth.Scope(need))(c)
	}, func(c fiber.Ctx) error {
		id, ok := c.Locals(httpauth.IdentityKey).(httpauth.Identity)
		if !ok {
			return c.Status(200).JSON(map[string]any{"id": "no identity stored"})
		}

		caps := id.Capabilities()
		for _, s := range []httpauth.Scope{"read", "write", "admin"} {
			has := false
			for _, k := range caps {
				has = has || k == "cache."+string(s)
			}

			if id.HasScope(s) != has || id.HasCapability("cache."+string(s)) != has || id.HasCapability(string(s)) {
				caps = append(caps, "inconsistent "+string(s))
			}
		}

		return c.JSON(map[string]any{"id": id.ID, "scopes": id.Scopes, "caps": caps})
	})

	root = mkCert(pkix.Name{CommonName: "Root"}, nil, true, nil)
	pool := x509.NewCertPool()
	pool.AddCert(root.cert)
	srv := mkCert(pkix.Name{CommonName: "server"}, root, false, []string{"localhost"}).tls()

	for name, cfg := range map[string]*tls.Config{
		"plain":  nil,
		"tls":    {Certificates: []tls.Certificate{*srv}, ClientAuth: tls.VerifyClientCertIfGiven, ClientCAs: pool},
		"tlsany": {Certificates: []tls.Certificate{*srv}, ClientAuth: tls.RequestClientCert, ClientCAs: pool},
	} {
		ln, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			vlib.Fatal(err)
		}

		addrs[name] = "http://" + ln.Addr().String()

		if cfg != nil {
			addrs[name] = "https://" + ln.Addr().String()
			ln = tls.NewListener(ln, cfg)
		}

		go func() { _ = app.Listener(ln, fiber.ListenConfig{DisableStartupMessage: true}) }()
	}
}

func client(tr, cn, form string) *http.Client {
	clientMu.Lock()
	defer clientMu.Unlock()

	k := tr + "/" + cn + "/" + form
	if c, ok := clients[k]; ok {
		return c
	}

	cfg := &tls.Config{InsecureSkipVerify: true} //nolint:gosec // a test client on loopback
	if cn != "none" {
		cert := clientCert(cn, form)
		cfg.GetClientCertificate = func(*tls.CertificateRequestInfo) (*tls.Certificate, error) { return cert, nil }
	}

	clients[k] = &http.Client{Timeout: 15 * time.Second, Transport: &http.Transport{TLSClientConfig: cfg, MaxIdleConnsPerHost: 8, DisableCompression: true}}

	return clients[k]
}

func b64(s string) string { return base64.StdEncoding.EncodeToString([]byte(s)) }

func swapCase(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' {
			return r - 32
		}
		if r >= 'A' && r <= 'Z' {
			return r + 32
		}

		return r
	}, s)
}

func header(a vlib.Step) string {
	x := a.Str("x")
	s := secrets[x]

	switch a.Str("k") {
	case "bearer":
		switch a.Str("form") {
		case "exact":
			return "Bearer " + s
		case "lower":
			return "bearer " + s
		case "upper":
			return "BEARER " + s
		case "noscheme":
			return s
		case "prefix":
			return "Bearer " + s[:len(s)-3]
		case "suffix":
			return "Bearer " + s + "x"
		case "dspace":
			return "Bearer  " + s
		case "swap":
			return "Bearer " + swapCase(s)
		case "tab":
			return "Bearer\t" + s
		case "quoted":
			return `Bearer "` + s + `"`
		case "basic":
			return "Basic " + s
		case "basicpw":
			return "Basic " + b64(x+":"+s)
		case "double":
			return "Bearer " + s + ", Bearer " + s
		case "tail":
			return "Bearer x" + s
		case "scheme2":
			return "XBearer " + s
		}
	case "basic":
		u := userName(x)

		switch a.Str("form") {
		case "exact":
			return "Basic " + b64(u+":"+s)
		case "wrongpw":
			return "Basic " + b64(u+":nope")
		case "emptypw":
			return "Basic " + b64(u+":")
		case "pwprefix":
			return "Basic " + b64(u+":"+s[:len(s)-2])
		case "pwsuffix":
			return "Basic " + b64(u+":"+s+"!")
		case "pwcase":
			return "Basic " + b64(u+":"+swapCase(s))
		case "pwspace":
			return "Basic " + b64(u+":"+s+" ")
		case "usercase":
			return "Basic " + b64(strings.ToLower(u)+":"+s)
		case "userprefix":
			return "Basic " + b64(u[:len(u)-1]+":"+s)
		case "usersuffix":
			return "Basic " + b64(u+"x:"+s)
		case "userspace":
			return "Basic " + b64(" "+u+":"+s)
		case "nouser":
			return "Basic " + b64(":"+s)
		case "lowerscheme":
			return "basic " + b64(u+":"+s)
		case "hash":
			return "Basic " + b64(u+":"+string(hash(x)))
		case "nocolon":
			return "Basic " + b64(u+s[:4])
		case "plaintext":
			return "Basic " + u + ":" + s
		case "bearer":
			return "Bearer " + b64(u+":"+s)
		case "otherpw":
			for _, o := range []string{"u1", "u2", "u3"} {
				if o != x {
					return "Basic " + b64(u+":"+secrets[o])
				}
			}
		}
	case "junk":
		switch x {
		case "basic":
			return "Basic"
		case "bearer":
			return "Bearer"
		case "notb64":
			return "Basic !!!!"
		case "colon":
			return "Basic " + b64(":")
		case "nocolon":
			return "Basic " + b64("justtext")
		case "badutf":
			return "Basic " + b64("\xff\xfe:\xff")
		case "digest":
			return "Digest username=\"User-u1\""
		case "long":
			return "Bearer " + strings.Repeat("A", 3000)
		case "null":
			return "Bearer null"
		case "padding":
			return "Basic ===="
		}
	case "none":
		return ""
	}

	panic(fmt.Sprintf("verif-driver: header %v", a))
}

func scopes(st vlib.Step, id string) []httpauth.Scope {
	out := []httpauth.Scope{}
	for _, s := range st.Rec("sc").Strs(id) {
		out = append(out, httpauth.Scope(s))
	}

	return out
}

type sys struct {
	id  string
	pol vlib.Step
	n   int
}

var (
	polN  int
	polMu sync.Mutex
)

func newSys(init vlib.Step) vlib.System {
	pol := init.Rec("pol")
	p := httpauth.Policy{AllowAnonymous: pol.Bool("anon"), AllowBasicWithoutTLS: pol.Bool("plainbasic")}

	for _, t := range pol.Strs("toks") {
		p.Tokens = append(p.Tokens, httpauth.TokenIdentity{ID: t, Token: secrets[t], Scopes: scopes(pol, t)})
	}

	for _, u := range pol.Strs("users") {
		p.BasicIdentities = append(p.BasicIdentities, httpauth.BasicIdentity{Username: userName(u), PasswordBcrypt: hash(u), ID: u, Scopes: scopes(pol, u)})
	}

	for _, c := range pol.Strs("cns") {
		p.CertIdentities = append(p.CertIdentities, httpauth.CertIdentity{SubjectCN: cnName(c), Scopes: scopes(pol, c)})
	}

	switch pol.Str("verify") {
	case "accept":
		p.ServerVerify = func(fiber.Ctx) (httpauth.Identity, error) {
			return httpauth.Identity{ID: "ext", Scopes: scopes(pol, "ext")}, nil
		}
	case "reject":
		p.ServerVerify = func(fiber.Ctx) (httpauth.Identity, error) {
			return httpauth.Identity{ID: "ext", Scopes: []httpauth.Scope{"read", "write", "admin"}}, errors.New("no")
		}
	}

	polMu.Lock()
	polN++
	id := "p" + strconv.Itoa(polN)
	polMu.Unlock()
	policies.Store(id, p)

	return &sys{id: id, pol: pol}
}

func (s *sys) Do(st vlib.Step) vlib.Obs {
	if st.Op() == "policy" {
		*s = *newSys(st).(*sys)

		return vlib.Obs{"installed": true}
	}

	c := st.Rec("cert")
	tr := st.Str("transport")

	s.n++
	url := addrs[tr] + "/" + s.id + "/" + st.Str("need")
	if s.n%3 == 0 {
		url += "?direct=1"
	}

	var (
		resp *http.Response
		err  error
	)

	for try := 0; try < 2; try++ {
		req, rerr := http.NewRequest(http.MethodGet, url, nil)
		if rerr != nil {
			vlib.Fatal(rerr)
		}

		if h := header(st.Rec("auth")); h != "" {
			req.Header.Set("Authorization", h)
		}

		resp, err = client(tr, c.Str("cn"), c.Str("form")).Do(req)
		if err == nil {
			break
		}
	}

	if err != nil {
		return vlib.Obs{"status": "no answer: " + err.Error()}
	}

	defer resp.Body.Close()

	body, _ := io.ReadAll(resp.Body)
	o := vlib.Obs{"status": resp.StatusCode, "ran": false, "id": "", "scopes_s": []string{}, "caps_s": []string{}}

	var m map[string]any
	if json.Unmarshal(body, &m) == nil && m["id"] != nil {
		o["ran"] = true
		id, _ := m["id"].(string)
		o["id"] = strings.TrimPrefix(id, "svc-")
		o["scopes_s"], o["caps_s"] = m["scopes"], m["caps"]
	}

	return o
}

func (s *sys) Close() { policies.Delete(s.id) }

func main() {
	flag.Parse()

	if vlib.Mode() == "loader" {
		loader()

		return
	}

	serve()
	time.Sleep(50 * time.Millisecond)
	vlib.Replay(newSys)
}

var _ = sort.Strings
