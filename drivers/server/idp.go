package main

import (
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/hmac"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/base64"
	"encoding/json"
	"encoding/pem"
	"math/big"
	"net"
	"net/http"
	"strings"
	"time"

	"github.com/hyp3rd/hypercache/internal/verifdrv/vlib"
)

var (
	idpKey, otherKey *rsa.PrivateKey
	issuer           string
	jwts             = map[string]string{}
)

func b64(b []byte) string { return base64.RawURLEncoding.EncodeToString(b) }

func must[T any](v T, err error) T {
	if err != nil {
		vlib.Fatal(err)
	}

	return v
}

// identityProvider serves discovery and keys the way OIDC issuers do.
func identityProvider() {
	idpKey = must(rsa.GenerateKey(rand.Reader, 2048))
	otherKey = must(rsa.GenerateKey(rand.Reader, 2048))
	l := must(net.Listen("tcp", address()))
	issuer = "http://" + l.Addr().String()
	mux := http.NewServeMux()
	mux.HandleFunc("/.well-known/openid-configuration", func(w http.ResponseWriter, _ *http.Request) {
		w.Header().Set("Content-Type", "application/json")
		_ = json.NewEncoder(w).Encode(map[string]any{
			"issuer": issuer, "jwks_uri": issuer + "/keys", "authorization_endpoint": issuer + "/auth", "token_endpoint": issuer + "/token",
			"id_token_signing_alg_values_supported": []string{"RS256"},
		})
	})
	mux.HandleFunc("/keys", func(w http.ResponseWriter, _ *http.Request) {
		w.Header().Set("Content-Type", "application/json")
		_ = json.NewEncoder(w).Encode(map[string]any{"keys": []any{map[string]any{
			"kty": "RSA", "alg": "RS256", "use": "sig", "kid": "k1", "n": b64(idpKey.N.Bytes()), "e": b64(big.NewInt(int64(idpKey.E)).Bytes()),
		}}})
	})

	go func() { _ = http.Serve(l, mux) }()

	tokens()
}

type claims = map[string]any

func sign(alg, kid string, c claims, key *rsa.PrivateKey) string {
	in := b64(must(json.Marshal(claims{"alg": alg, "kid": kid, "typ": "JWT"}))) + "." + b64(must(json.Marshal(c)))

	switch alg {
	case "none":
		return in + "."
	case "HS256":
		pub := pem.EncodeToMemory(&pem.Block{Type: "PUBLIC KEY", Bytes: must(x509.MarshalPKIXPublicKey(&idpKey.PublicKey))})
		m := hmac.New(sha256.New, pub)
		m.Write([]byte(in))

		return in + "." + b64(m.Sum(nil))
	}

	h := sha256.Sum256([]byte(in))

	return in + "." + b64(must(rsa.SignPKCS1v15(rand.Reader, key, crypto.SHA256, h[:])))
}

func tokens() {
	now := time.Now().Unix()
	with := func(over claims) claims {
		c := claims{"iss": issuer, "aud": "hc", "exp": now + 36000, "iat": now - 10, "sub": "sue", "email": "eve@x", "scope": "read", "roles": []string{"write", "admin"}}

		for k, v := range over {
			if v == nil {
				delete(c, k)
			} else {
				c[k] = v
			}
		}

		return c
	}
	good := func(over claims) string { return sign("RS256", "k1", with(over), idpKey) }
	jwts = map[string]string{
		"jwt":      good(nil),
		"jwtrw":    good(claims{"scope": "read  write extra", "roles": []any{"read", 7, "root"}}),
		"jwtswap":  good(claims{"sub": "sam", "email": "sam@x", "scope": []string{"write"}, "roles": "read"}),
		"jwtadm":   good(claims{"sub": "amy", "email": "amy@x", "scope": "admin", "roles": "read write admin"}),
		"jwtnone":  good(claims{"sub": "ned", "email": "ned@x", "scope": nil, "roles": nil}),
		"jwtcase":  good(claims{"sub": "cas", "email": "cas@x", "scope": "READ,Write readwrite", "roles": claims{"read": true}}),
		"jwtaud2":  good(claims{"aud": []string{"x", "hc"}}),
		"jwtmail":  good(claims{"sub": "mia", "email": nil}),
		"jwtnum":   good(claims{"sub": "num", "email": 5, "scope": 5, "roles": 5}),
		"jnoid":    good(claims{"sub": nil, "email": nil}),
		"jemptyid": good(claims{"sub": "", "email": ""}),
		"jother":   sign("RS256", "k1", with(nil), otherKey),
		"jaud":     good(claims{"aud": "hc2"}),
		"jiss":     good(claims{"iss": issuer + "/"}),
		"jexp":     good(claims{"exp": now - 60}),
		"jnbf":     good(claims{"nbf": now + 36000}),
		"jnone":    sign("none", "k1", with(nil), nil),
		"jhs":      sign("HS256", "k1", with(nil), nil),
		"jbadsig":  "",
		"jcut":     "",
		"jlower":   good(nil),
	}
	parts := strings.Split(jwts["jwt"], ".")
	parts[1] = b64(must(json.Marshal(with(claims{"sub": "mallory", "email": "mallory@x"}))))
	jwts["jbadsig"] = strings.Join(parts, ".")
	jwts["jcut"] = strings.Join(parts[:2], ".")
}

type ca struct {
	cert *x509.Certificate
	key  *ecdsa.PrivateKey
	raw  []byte
}

func mkCert(n int64, cn string, parent *ca) *ca {
	key := must(ecdsa.GenerateKey(elliptic.P256(), rand.Reader))
	t := &x509.Certificate{
		SerialNumber: big.NewInt(n), Subject: pkix.Name{CommonName: cn}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(48 * time.Hour),
		IsCA: parent == nil, BasicConstraintsValid: true, DNSNames: []string{"localhost"},
		KeyUsage:    x509.KeyUsageDigitalSignature | x509.KeyUsageCertSign,
		ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth, x509.ExtKeyUsageServerAuth},
	}
	p, pk := t, key

	if parent != nil {
		p, pk = parent.cert, parent.key
	}

	raw := must(x509.CreateCertificate(rand.Reader, t, p, &key.PublicKey, pk))

	return &ca{must(x509.ParseCertificate(raw)), key, raw}
}

func (c *ca) pem() string {
	return string(pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: c.raw}))
}

func (c *ca) keyPEM() string {
	return string(pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: must(x509.MarshalECPrivateKey(c.key))}))
}

var (
	certFile, keyFile, caFile, notCA string
	clients                          = map[string]*http.Client{}
)

func certificates() {
	root, foreign := mkCert(1, "root", nil), mkCert(2, "root", nil)
	srv := mkCert(3, "server", root)
	certFile, keyFile, caFile = file("cert.pem", srv.pem()), file("key.pem", srv.keyPEM()), file("ca.pem", root.pem())
	notCA = file("notca.pem", "nothing\n")

	for name, c := range map[string]*ca{
		"none": nil, "r": mkCert(4, "svc-r", root), "w": mkCert(5, "svc-w", root), "unknown": mkCert(6, "svc-x", root), "foreign": mkCert(7, "svc-w", foreign),
	} {
		cfg := &tls.Config{InsecureSkipVerify: true}
		if c != nil {
			tc := tls.Certificate{Certificate: [][]byte{c.raw}, PrivateKey: c.key}
			cfg.GetClientCertificate = func(*tls.CertificateRequestInfo) (*tls.Certificate, error) { return &tc, nil }
		}

		clients[name] = &http.Client{Timeout: 20 * time.Second, Transport: &http.Transport{TLSClientConfig: cfg, MaxIdleConnsPerHost: 8, DisableCompression: true}}
	}
}
