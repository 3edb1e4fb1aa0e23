package main

import (
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"github.com/hyp3rd/hypercache/internal/sentinel"
	"github.com/hyp3rd/hypercache/internal/verifdrv/vlib"
	"github.com/hyp3rd/hypercache/pkg/httpauth"
)

const legacy = "legacyTokenSecret99"

func tokSecret(i int) string { return fmt.Sprintf("TokenSecret%dabcdef", i) }

func hashOf(i int) string { return string(hash(fmt.Sprintf("u%d", i))) }

func fill(how, v string) string {
	if how == "ok" {
		return v
	}

	return ""
}

func hashFill(how string, i int) string {
	switch how {
	case "ok":
		return hashOf(i)
	case "nothash":
		return "plainPasswordNotHash"
	}

	return ""
}

func scopeYAML(e vlib.Step) string {
	q := []string{}
	for _, s := range e.Strs("sc") {
		q = append(q, fmt.Sprintf("%q", s))
	}

	return "[" + strings.Join(q, ", ") + "]"
}

func entries(doc vlib.Step, k string) []vlib.Step {
	out := []vlib.Step{}
	for _, x := range doc.List(k) {
		out = append(out, vlib.Step(x.(map[string]any)))
	}

	return out
}

func render(doc vlib.Step) string {
	var b strings.Builder

	extra := ""
	if doc.Str("defect") == "entryfield" {
		extra = "    scope: [read]\n"
	}

	if t := entries(doc, "toks"); len(t) > 0 {
		b.WriteString("tokens:\n")
		for i, e := range t {
			fmt.Fprintf(&b, "  - id: %q\n    token: %q\n    scopes: %s\n%s", fill(e.Str("id"), fmt.Sprintf("tid%d", i+1)), fill(e.Str("secret"), tokSecret(i+1)), scopeYAML(e), extra)
		}
	}

	if t := entries(doc, "users"); len(t) > 0 {
		b.WriteString("users:\n")
		for i, e := range t {
			fmt.Fprintf(&b, "  - id: %q\n    username: %q\n    password_bcrypt: %q\n    scopes: %s\n%s", fill(e.Str("id"), fmt.Sprintf("uid%d", i+1)), fill(e.Str("name"), fmt.Sprintf("name%d", i+1)), hashFill(e.Str("hash"), i+1), scopeYAML(e), extra)
		}
	}

	if t := entries(doc, "certs"); len(t) > 0 {
		b.WriteString("cert_identities:\n")
		for i, e := range t {
			fmt.Fprintf(&b, "  - subject_cn: %q\n    scopes: %s\n%s", fill(e.Str("cn"), fmt.Sprintf("cn%d", i+1)), scopeYAML(e), extra)
		}
	}

	fmt.Fprintf(&b, "allow_anonymous: %v\n", doc.Bool("anon"))

	if doc.Bool("plain") {
		b.WriteString("allow_basic_without_tls: true\n")
	}

	switch doc.Str("defect") {
	case "topfield":
		b.WriteString("allow_anonymus: true\n")
	case "entryfield":
		if extra != "" && !strings.Contains(b.String(), extra) {
			b.WriteString("tokens: [{id: a, token: b, scopes: [read], ttl: 5}]\n")
		}
	case "wrongtype":
		return strings.Replace(b.String(), "allow_anonymous: ", "allow_anonymous: [1] #", 1)
	case "dupkey":
		b.WriteString("allow_anonymous: true\n")
	case "malformed":
		return b.String() + "tokens: [\n"
	case "empty":
		return ""
	}

	return b.String()
}

func policyObs(p httpauth.Policy) map[string]any {
	set := func(sc []httpauth.Scope) []string {
		m := map[string]bool{}
		for _, s := range sc {
			m[string(s)] = true
		}

		out := []string{}
		for _, k := range []string{"admin", "read", "write"} {
			if m[k] {
				out = append(out, k)
				delete(m, k)
			}
		}

		for k := range m {
			out = append(out, "unexpected "+k)
		}

		return out
	}

	toks, users, cns := []any{}, []any{}, []any{}

	for i, t := range p.Tokens {
		x := any(set(t.Scopes))
		if !(t.ID == fmt.Sprintf("tid%d", i+1) && t.Token == tokSecret(i+1)) && t.Token != legacy {
			x = "wrong id or secret at " + fmt.Sprint(i)
		}

		toks = append(toks, x)
	}

	for i, u := range p.BasicIdentities {
		x := any(set(u.Scopes))
		if u.ID != fmt.Sprintf("uid%d", i+1) || u.Username != fmt.Sprintf("name%d", i+1) || string(u.PasswordBcrypt) != hashOf(i+1) {
			x = "wrong id, name or hash at " + fmt.Sprint(i)
		}

		users = append(users, x)
	}

	for i, c := range p.CertIdentities {
		x := any(set(c.Scopes))
		if c.SubjectCN != fmt.Sprintf("cn%d", i+1) {
			x = "wrong name at " + fmt.Sprint(i)
		}

		cns = append(cns, x)
	}

	o := map[string]any{"toks": toks, "users": users, "certs": cns, "anon": p.AllowAnonymous, "plain": p.AllowBasicWithoutTLS, "configured": p.IsConfigured()}
	if p.ServerVerify != nil {
		o["verify"] = "set"
	}

	return o
}

type loadSys struct {
	dir string
	n   int
}

var envMu sync.Mutex

func leaks(err error) bool {
	if err == nil {
		return false
	}

	for i := 1; i < 4; i++ {
		for _, s := range []string{tokSecret(i), hashOf(i), secrets[fmt.Sprintf("u%d", i)], legacy, "plainPasswordNotHash"} {
			if strings.Contains(err.Error(), s) {
				return true
			}
		}
	}

	return false
}

func (s *loadSys) Do(st vlib.Step) vlib.Obs {
	doc := st.Rec("doc")

	if st.Op() == "validate" {
		p := httpauth.Policy{AllowAnonymous: doc.Bool("anon"), AllowBasicWithoutTLS: doc.Bool("plain")}
		all := []httpauth.Scope{"read"}

		for i, e := range entries(doc, "toks") {
			p.Tokens = append(p.Tokens, httpauth.TokenIdentity{ID: fill(e.Str("id"), "tid"), Token: fill(e.Str("secret"), tokSecret(i+1)), Scopes: all})
		}

		for i, e := range entries(doc, "users") {
			u := httpauth.BasicIdentity{ID: fill(e.Str("id"), "uid"), Username: fill(e.Str("name"), "name"), Scopes: all}
			if h := hashFill(e.Str("hash"), i+1); h != "" {
				u.PasswordBcrypt = []byte(h)
			}

			p.BasicIdentities = append(p.BasicIdentities, u)
		}

		for _, e := range entries(doc, "certs") {
			p.CertIdentities = append(p.CertIdentities, httpauth.CertIdentity{SubjectCN: fill(e.Str("cn"), "cn"), Scopes: all})
		}

		err := p.Validate()
		o := vlib.Obs{"err": err != nil, "leak": leaks(err)}

		if err != nil && !errors.Is(err, sentinel.ErrInsecureAuthConfig) {
			o["err"] = "not the insecure-configuration error: " + err.Error()
		}

		return o
	}

	envMu.Lock()
	defer envMu.Unlock()

	s.n++
	file := filepath.Join(s.dir, fmt.Sprintf("auth%d.yaml", s.n))

	switch doc.Str("defect") {
	case "missing":
		file = filepath.Join(s.dir, "no-such-file.yaml")
	case "directory":
		file = s.dir
	default:
		if err := os.WriteFile(file, []byte(render(doc)), 0o600); err != nil {
			vlib.Fatal(err)
		}
	}

	_ = os.Unsetenv(httpauth.EnvAuthConfig)
	_ = os.Unsetenv(httpauth.EnvAuthToken)

	if st.Bool("envfile") {
		_ = os.Setenv(httpauth.EnvAuthConfig, file)
	}

	if st.Bool("envtok") {
		_ = os.Setenv(httpauth.EnvAuthToken, legacy)
	}

	p, err := httpauth.LoadFromEnv()
	o := vlib.Obs{"err": err != nil, "leak": leaks(err), "pol": policyObs(p)}

	if err != nil && !errors.Is(err, httpauth.ErrInvalidPolicy) {
		o["err"] = "not the invalid-policy error: " + err.Error()
	}

	return o
}

func (s *loadSys) Close() { _ = os.RemoveAll(s.dir) }

func loader() {
	vlib.Parallel = 2
	scratch := os.Getenv("VERIF_SCRATCH")

	vlib.Replay(func(vlib.Step) vlib.System {
		d, err := os.MkdirTemp(scratch, "loader")
		if err != nil {
			vlib.Fatal(err)
		}

		return &loadSys{dir: d}
	})
}
