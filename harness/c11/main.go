// C11: an auth configuration loads exactly what it declares or is refused.
package main

import (
	"bytes"
	"encoding/base64"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"slices"
	"strings"

	"gopkg.in/yaml.v3"

	"github.com/hyp3rd/hypercache/internal/vh/authref"
	"github.com/hyp3rd/hypercache/internal/vh/kit"
	"github.com/hyp3rd/hypercache/pkg/httpauth"
)

func main() {
	kit.Main("C11", "random YAML auth configurations in several styles (block, flow, quoted, anchors), single structured faults (unknown field, unknown or empty scopes, empty or missing secrets, bad hashes, duplicates, wrong types, second document) and random byte mutations; an independent reading of the YAML tree decides what must be admitted or refused, "+
		"then the loaded policy's fields and its answers to requests are compared with it; environment precedence; non-trivial = file with at least one identity", run)
}

// decl is what a configuration declares.
type decl struct {
	tokens []httpauth.TokenIdentity
	users  []httpauth.BasicIdentity
	certs  []httpauth.CertIdentity
	anon   bool
	plain  bool
}

type verdict int

const (
	accept verdict = iota
	refuse
	unsure // the YAML typing rules leave it open; only "no broader than declared" is asserted
)

var hashShape = regexp.MustCompile(`^\$2[abxy]?\$(0[4-9]|[12][0-9]|3[01])\$[./A-Za-z0-9]{53}$`)

// read is the independent reading of a configuration.
func read(b []byte) (decl, verdict, string) {
	var d decl
	dec := yaml.NewDecoder(bytes.NewReader(b))
	var doc yaml.Node
	if err := dec.Decode(&doc); err != nil {
		return d, refuse, "not YAML"
	}
	var second yaml.Node
	if err := dec.Decode(&second); !errors.Is(err, io.EOF) {
		return d, refuse, "more than one document"
	}
	if doc.Kind != yaml.DocumentNode || len(doc.Content) != 1 {
		return d, unsure, "odd document"
	}
	root := resolve(doc.Content[0])
	if root.Kind == yaml.ScalarNode && (root.Tag == "!!null") {
		return d, unsure, "null document"
	}
	if root.Kind != yaml.MappingNode {
		return d, refuse, "not a mapping"
	}
	v, why := accept, ""
	worse := func(n verdict, w string) {
		if v == refuse {
			return
		}
		if n == refuse || v == accept {
			v, why = n, w
		}
	}
	seenKey := map[string]bool{}
	dupT, dupU, dupC := map[string]bool{}, map[string]bool{}, map[string]bool{}
	for i := 0; i+1 < len(root.Content); i += 2 {
		k, val := root.Content[i], resolve(root.Content[i+1])
		if k.Kind != yaml.ScalarNode || k.Tag != "!!str" {
			worse(unsure, "odd key")
			continue
		}
		if seenKey[k.Value] {
			worse(refuse, "key declared twice: "+k.Value)
		}
		seenKey[k.Value] = true
		switch k.Value {
		case "tokens", "users", "cert_identities":
			if val.Tag == "!!null" {
				continue
			}
			if val.Kind != yaml.SequenceNode {
				worse(refuse, k.Value+" is not a list")
				continue
			}
			for _, e := range val.Content {
				if resolve(e).Tag == "!!null" { // an empty entry declares nothing
					worse(unsure, "null entry")
					continue
				}
				f, fv, fw := fields(resolve(e), map[string][]string{"tokens": {"id", "token", "scopes"}, "users": {"id", "username", "password_bcrypt", "scopes"}, "cert_identities": {"subject_cn", "scopes"}}[k.Value])
				if fv != accept {
					worse(fv, fw)
				}
				sc, sv, sw := scopeList(f["scopes"])
				if sv != accept {
					worse(sv, sw)
				}
				s := func(n string) string {
					x, xv := str(f[n])
					if xv != accept {
						worse(xv, n+" is not a string")
					}
					return x
				}
				switch k.Value {
				case "tokens":
					t := httpauth.TokenIdentity{ID: s("id"), Token: s("token"), Scopes: sc}
					if t.ID == "" || t.Token == "" {
						worse(refuse, "empty id or token")
					}
					if dupT[t.Token] {
						worse(refuse, "token declared twice")
					}
					dupT[t.Token] = true
					d.tokens = append(d.tokens, t)
				case "users":
					u := httpauth.BasicIdentity{ID: s("id"), Username: s("username"), PasswordBcrypt: []byte(s("password_bcrypt")), Scopes: sc}
					if u.ID == "" || u.Username == "" || len(u.PasswordBcrypt) == 0 {
						worse(refuse, "empty id, username or hash")
					} else if !hashShape.Match(u.PasswordBcrypt) {
						worse(refuse, "bad hash")
					}
					if dupU[u.Username] {
						worse(refuse, "username declared twice")
					}
					dupU[u.Username] = true
					d.users = append(d.users, u)
				case "cert_identities":
					c := httpauth.CertIdentity{SubjectCN: s("subject_cn"), Scopes: sc}
					if c.SubjectCN == "" {
						worse(refuse, "empty subject_cn")
					}
					if dupC[c.SubjectCN] {
						worse(refuse, "subject declared twice")
					}
					dupC[c.SubjectCN] = true
					d.certs = append(d.certs, c)
				}
			}
		case "allow_anonymous", "allow_basic_without_tls":
			bv := false
			switch {
			case val.Tag == "!!null":
			case val.Tag == "!!bool":
				bv = strings.EqualFold(val.Value, "true")
			case val.Kind == yaml.ScalarNode && (strings.EqualFold(val.Value, "yes") || strings.EqualFold(val.Value, "on") || strings.EqualFold(val.Value, "y")):
				bv = true
				worse(unsure, "YAML 1.1 boolean")
			case val.Kind == yaml.ScalarNode && (strings.EqualFold(val.Value, "no") || strings.EqualFold(val.Value, "off") || strings.EqualFold(val.Value, "n")):
				worse(unsure, "YAML 1.1 boolean")
			default:
				worse(refuse, k.Value+" is not a boolean")
			}
			if k.Value == "allow_anonymous" {
				d.anon = bv
			} else {
				d.plain = bv
			}
		default:
			worse(refuse, "unknown field "+k.Value)
		}
	}
	return d, v, why
}

func resolve(n *yaml.Node) *yaml.Node {
	for n != nil && n.Kind == yaml.AliasNode {
		n = n.Alias
	}
	if n == nil {
		return &yaml.Node{Kind: yaml.ScalarNode, Tag: "!!null"}
	}
	return n
}

func fields(n *yaml.Node, allowed []string) (map[string]*yaml.Node, verdict, string) {
	out := map[string]*yaml.Node{}
	if n.Tag == "!!null" {
		return out, unsure, "null entry"
	}
	if n.Kind != yaml.MappingNode {
		return out, refuse, "entry is not a mapping"
	}
	for i := 0; i+1 < len(n.Content); i += 2 {
		k := n.Content[i]
		if k.Kind != yaml.ScalarNode || k.Tag != "!!str" {
			return out, unsure, "odd key"
		}
		known := false
		for _, a := range allowed {
			known = known || a == k.Value
		}
		if !known {
			return out, refuse, "unknown field " + k.Value
		}
		if _, dup := out[k.Value]; dup {
			return out, refuse, "field declared twice"
		}
		out[k.Value] = resolve(n.Content[i+1])
	}
	return out, accept, ""
}

func str(n *yaml.Node) (string, verdict) {
	if n == nil || n.Tag == "!!null" {
		return "", accept
	}
	if n.Kind != yaml.ScalarNode {
		return "", refuse
	}
	if n.Tag != "!!str" {
		return n.Value, unsure
	}
	return n.Value, accept
}

func scopeList(n *yaml.Node) ([]httpauth.Scope, verdict, string) {
	if n == nil || n.Tag == "!!null" {
		return nil, refuse, "no scopes"
	}
	if n.Kind != yaml.SequenceNode {
		return nil, refuse, "scopes is not a list"
	}
	if len(n.Content) == 0 {
		return nil, refuse, "no scopes"
	}
	var out []httpauth.Scope
	odd := accept
	for _, e := range n.Content {
		if resolve(e).Tag == "!!null" {
			odd = unsure
			continue
		}
		s, v := str(resolve(e))
		if v == refuse {
			return nil, refuse, "scope is not a string"
		}
		switch s {
		case "read", "write", "admin":
			out = append(out, httpauth.Scope(s))
		default:
			return nil, refuse, "unknown scope " + s
		}
	}
	if len(out) == 0 {
		return nil, refuse, "no scopes"
	}
	return out, odd, "null scope"
}

func q(rng *rand.Rand, s string) string {
	b, _ := yaml.Marshal(s)
	plain := strings.TrimSuffix(string(b), "\n")
	switch rng.Intn(3) {
	case 0:
		return fmt.Sprintf("%q", s)
	case 1:
		return "'" + strings.ReplaceAll(s, "'", "''") + "'"
	}
	if strings.Contains(plain, "\n") {
		return fmt.Sprintf("%q", s)
	}
	return plain
}

func pick(rng *rand.Rand) []httpauth.Scope {
	all := []httpauth.Scope{"read", "write", "admin"}
	rng.Shuffle(3, func(i, j int) { all[i], all[j] = all[j], all[i] })
	return all[:1+rng.Intn(3)]
}

func newDecl(rng *rand.Rand) (decl, map[string]string) {
	var d decl
	pw := map[string]string{}
	seen := map[string]bool{}
	for i := 0; i < rng.Intn(4); i++ {
		t := authref.Token(rng, i)
		if seen[t] {
			continue
		}
		seen[t] = true
		id := fmt.Sprintf("id %d", i)
		if i > 0 && rng.Intn(5) == 0 {
			id = "id 0" // one identity may hold several tokens, each with its own grant
		}
		d.tokens = append(d.tokens, httpauth.TokenIdentity{ID: id, Token: t, Scopes: pick(rng)})
	}
	for i := 0; i < rng.Intn(3); i++ {
		u := []string{"alice", "bob, the #2nd", "ünï", "$HOME", "null", "${USER}-x", "al ice"}[(i*2+rng.Intn(2)*i+rng.Intn(2)*3)%7]
		if _, dup := pw[u]; dup {
			continue
		}
		pw[u] = []string{"hunter2", "pa:ss", "x"}[rng.Intn(3)]
		d.users = append(d.users, httpauth.BasicIdentity{ID: fmt.Sprintf("user-%d", i), Username: u, PasswordBcrypt: []byte(authref.Hash(pw[u])), Scopes: pick(rng)})
	}
	for i := 0; i < rng.Intn(3); i++ {
		d.certs = append(d.certs, httpauth.CertIdentity{SubjectCN: authref.CNs[i], Scopes: pick(rng)})
	}
	d.anon, d.plain = rng.Intn(5) == 0, rng.Intn(2) == 0
	return d, pw
}

// entry renders one mapping with its fields in random order and style.
func entry(rng *rand.Rand, kv [][2]string) string {
	rng.Shuffle(len(kv), func(i, j int) { kv[i], kv[j] = kv[j], kv[i] })
	if rng.Intn(3) == 0 {
		var p []string
		for _, x := range kv {
			p = append(p, x[0]+": "+x[1])
		}
		return "  - {" + strings.Join(p, ", ") + "}\n"
	}
	var b strings.Builder
	for i, x := range kv {
		b.WriteString(map[bool]string{true: "  - ", false: "    "}[i == 0] + x[0] + ": " + x[1] + "\n")
	}
	return b.String()
}

func scopesYAML(rng *rand.Rand, s []httpauth.Scope) string {
	var p []string
	for _, x := range s {
		p = append(p, q(rng, string(x)))
	}
	return "[" + strings.Join(p, ", ") + "]"
}

func render(rng *rand.Rand, d decl) []string {
	var secs []string
	if len(d.tokens) > 0 || rng.Intn(4) == 0 {
		s := "tokens:\n"
		if len(d.tokens) == 0 {
			s = "tokens: []\n"
		}
		for _, t := range d.tokens {
			s += entry(rng, [][2]string{{"id", fmt.Sprintf("%q", t.ID)}, {"token", fmt.Sprintf("%q", t.Token)}, {"scopes", scopesYAML(rng, t.Scopes)}})
		}
		secs = append(secs, s)
	}
	if len(d.users) > 0 {
		s := "users:\n"
		for _, u := range d.users {
			s += entry(rng, [][2]string{{"id", q(rng, u.ID)}, {"username", fmt.Sprintf("%q", u.Username)}, {"password_bcrypt", fmt.Sprintf("%q", u.PasswordBcrypt)}, {"scopes", scopesYAML(rng, u.Scopes)}})
		}
		secs = append(secs, s)
	}
	if len(d.certs) > 0 {
		s := "cert_identities:\n"
		for _, c := range d.certs {
			s += entry(rng, [][2]string{{"subject_cn", fmt.Sprintf("%q", c.SubjectCN)}, {"scopes", scopesYAML(rng, c.Scopes)}})
		}
		secs = append(secs, s)
	}
	if d.anon || rng.Intn(3) == 0 {
		secs = append(secs, fmt.Sprintf("allow_anonymous: %v\n", d.anon))
	}
	if d.plain || rng.Intn(3) == 0 {
		secs = append(secs, fmt.Sprintf("allow_basic_without_tls: %v\n", d.plain))
	}
	rng.Shuffle(len(secs), func(i, j int) { secs[i], secs[j] = secs[j], secs[i] })
	return secs
}

func load(path string, legacy string) (p httpauth.Policy, err error, pan any) {
	defer func() { pan = recover() }()
	set(httpauth.EnvAuthConfig, path)
	set(httpauth.EnvAuthToken, legacy)
	p, err = httpauth.LoadFromEnv()
	return p, err, nil
}

func set(k, v string) {
	if v == "" {
		os.Unsetenv(k)
		return
	}
	os.Setenv(k, v)
}

func same(d decl, p httpauth.Policy) string {
	if len(d.tokens) != len(p.Tokens) || len(d.users) != len(p.BasicIdentities) || len(d.certs) != len(p.CertIdentities) {
		return fmt.Sprintf("declares %d tokens, %d users, %d certs; policy has %d, %d, %d", len(d.tokens), len(d.users), len(d.certs), len(p.Tokens), len(p.BasicIdentities), len(p.CertIdentities))
	}
	for i := range d.tokens {
		if !reflect.DeepEqual(d.tokens[i], p.Tokens[i]) {
			return fmt.Sprintf("token %d declared %+v loaded %+v", i, d.tokens[i], p.Tokens[i])
		}
	}
	for i := range d.users {
		if !reflect.DeepEqual(d.users[i], p.BasicIdentities[i]) {
			return fmt.Sprintf("user %d declared %+v loaded %+v", i, d.users[i], p.BasicIdentities[i])
		}
	}
	for i := range d.certs {
		if !reflect.DeepEqual(d.certs[i], p.CertIdentities[i]) {
			return fmt.Sprintf("cert %d declared %+v loaded %+v", i, d.certs[i], p.CertIdentities[i])
		}
	}
	if d.anon != p.AllowAnonymous || d.plain != p.AllowBasicWithoutTLS {
		return fmt.Sprintf("anonymous declared %v loaded %v, plaintext basic declared %v loaded %v", d.anon, p.AllowAnonymous, d.plain, p.AllowBasicWithoutTLS)
	}
	if p.ServerVerify != nil {
		return "a verifier appeared"
	}
	return ""
}

// broader reports a grant of p that d does not declare.
func broader(d decl, p httpauth.Policy) string {
	within := func(g, of []httpauth.Scope) bool {
		for _, s := range g {
			ok := false
			for _, o := range of {
				ok = ok || o == s
			}
			if !ok {
				return false
			}
		}
		return true
	}
	for _, t := range p.Tokens {
		ok := false
		for _, x := range d.tokens {
			ok = ok || (x.Token == t.Token && x.ID == t.ID && within(t.Scopes, x.Scopes))
		}
		if !ok {
			return fmt.Sprintf("token of %q with %v", t.ID, t.Scopes)
		}
	}
	for _, t := range p.BasicIdentities {
		ok := false
		for _, x := range d.users {
			ok = ok || (x.Username == t.Username && x.ID == t.ID && bytes.Equal(x.PasswordBcrypt, t.PasswordBcrypt) && within(t.Scopes, x.Scopes))
		}
		if !ok {
			return fmt.Sprintf("user %q with %v", t.Username, t.Scopes)
		}
	}
	for _, t := range p.CertIdentities {
		ok := false
		for _, x := range d.certs {
			ok = ok || (x.SubjectCN == t.SubjectCN && within(t.Scopes, x.Scopes))
		}
		if !ok {
			return fmt.Sprintf("subject %q with %v", t.SubjectCN, t.Scopes)
		}
	}
	if p.AllowAnonymous && !d.anon {
		return "anonymous access"
	}
	if p.AllowBasicWithoutTLS && !d.plain {
		return "plaintext basic"
	}
	return ""
}

func open(p httpauth.Policy) bool {
	return p.AllowAnonymous || p.AllowBasicWithoutTLS || p.IsConfigured()
}

// admits replays every declared credential against the loaded policy.
func admits(r *kit.Run, d decl, pw map[string]string, p httpauth.Policy, text string) {
	s := authref.NewServer(p)
	probe := func(kind, header, id string, scopes []httpauth.Scope) {
		for _, sc := range []httpauth.Scope{"read", "write", "admin"} {
			a := s.Direct("/s/"+string(sc), authref.Cred{Header: header})
			want := 403
			for _, g := range scopes {
				if g == sc {
					want = 200
				}
			}
			if a.Status != want || (want == 200 && a.ID != id) {
				r.ViolateWith("behaviour:"+kind, text, "%s of %q granted %v: scope %s answered %d as %q, want %d", kind, id, scopes, sc, a.Status, a.ID, want)
			}
			r.Add("requests_probed", 1)
		}
	}
	for _, t := range d.tokens {
		if strings.TrimSpace(t.Token) == t.Token {
			probe("token", "Bearer "+t.Token, t.ID, t.Scopes)
		}
	}
	if d.plain {
		for _, u := range d.users {
			if pw[u.Username] != "" {
				probe("user", "Basic "+b64(u.Username+":"+pw[u.Username]), u.ID, u.Scopes)
			}
		}
	}
	a := s.Direct("/s/read", authref.Cred{Header: "Bearer nobody's"})
	if (a.Status == 200) != d.anon {
		r.ViolateWith("behaviour:stranger", text, "a stranger got %d with allow_anonymous declared %v", a.Status, d.anon)
	}
}

func run(r *kit.Run) {
	dir := os.Getenv("VERIF_WORK")
	if dir == "" {
		dir = os.TempDir()
	}
	path := filepath.Join(dir, "auth.yaml")
	defer os.Remove(path)
	put := func(b []byte) {
		if err := os.WriteFile(path, b, 0o600); err != nil {
			panic(err)
		}
	}
	try := func(kind string, text []byte, i int) {
		d, v, why := read(text)
		put(text)
		p, err, pan := load(path, "")
		r.Case(fmt.Sprintf("%s:%x", kind, text), len(d.tokens)+len(d.users)+len(d.certs) > 0)
		r.Seen("verdict", []string{"accept", "refuse", "unsure"}[v])
		if v == refuse {
			r.Seen("refused-for", strings.SplitN(why, ":", 2)[0])
		}
		w := string(text)
		if pan != nil {
			r.ViolateWith("panic", w, "loading panicked: %v", pan)
			return
		}
		if err != nil {
			if open(p) {
				r.ViolateWith("failed-but-open", w, "a failed load (%v) returned a usable policy %+v", err, p)
			}
			if !errors.Is(err, httpauth.ErrInvalidPolicy) {
				r.ViolateWith("error-kind", w, "a bad configuration is reported as %v, not as an invalid policy", err)
			}
		}
		switch {
		case v == accept && err != nil:
			r.ViolateWith("refused-valid:"+kind, w, "a valid configuration was refused: %v", err)
		case v == refuse && err == nil:
			r.ViolateWith("accepted-invalid:"+kind+":"+strings.Fields(why + " x")[0], w, "configuration must be refused (%s) but loaded as %+v", why, p)
		case v == accept:
			if s := same(d, p); s != "" {
				r.ViolateWith("differs:"+kind, w, "loaded policy differs from the declaration: %s", s)
			}
		case v == unsure && err == nil:
			if s := broader(d, p); s != "" {
				r.ViolateWith("broader:"+kind, w, "loaded policy grants what is not declared: %s", s)
			}
		}
	}
	if r.Phase("valid") {
		for i := 0; i < r.N(1500, 20000); i++ {
			rng := r.Rand("valid", i)
			d, pw := newDecl(rng)
			text := []byte(strings.Join(render(rng, d), ""))
			if len(text) == 0 {
				text = []byte("allow_anonymous: false\n")
			}
			rd, v, why := read(text)
			if v != accept || same(rd, httpauth.Policy{Tokens: d.tokens, BasicIdentities: d.users, CertIdentities: d.certs, AllowAnonymous: d.anon, AllowBasicWithoutTLS: d.plain}) != "" {
				r.Inconclusive("generator and reader disagree: " + why)
				continue
			}
			try("valid", text, i)
			if i%5 == 0 {
				if p, err, _ := load(path, ""); err == nil {
					admits(r, d, pw, p, string(text))
				}
			}
			if i < 2 {
				r.Sample("config", string(text))
			}
		}
	}
	if r.Phase("fault") {
		for i := 0; i < r.N(3000, 60000); i++ {
			rng := r.Rand("fault", i)
			d, _ := newDecl(rng)
			for len(d.tokens) == 0 || len(d.users) == 0 || len(d.certs) == 0 {
				d, _ = newDecl(rng)
			}
			name, text := fault(rng, d)
			r.Seen("fault", name)
			try("fault:"+name, []byte(text), i)
		}
	}
	if r.Phase("mutate") {
		for i := 0; i < r.N(6000, 200000); i++ {
			rng := r.Rand("mut", i)
			d, _ := newDecl(rng)
			b := []byte(strings.Join(render(rng, d), ""))
			for k := 0; k <= rng.Intn(3); k++ {
				if len(b) == 0 {
					break
				}
				p := rng.Intn(len(b))
				switch rng.Intn(6) {
				case 0:
					b = b[:p]
				case 1:
					b[p] = " \n:-[]{}\"'#&*!|>%@`x,"[rng.Intn(21)]
				case 2:
					b = append(b[:p:p], b[p+1:]...)
				case 3:
					n := min(len(b), p+1+rng.Intn(20))
					b = append(b[:n:n], b[p:]...)
				case 4:
					ls := strings.SplitAfter(string(b), "\n")
					j, l := rng.Intn(len(ls)), rng.Intn(len(ls))
					ls[j], ls[l] = ls[l], ls[j]
					b = []byte(strings.Join(ls, ""))
				case 5:
					b[p] = byte(rng.Intn(256))
				}
			}
			try("mutated", b, i)
		}
	}
	if r.Phase("env") {
		env(r, path, put)
	}
}

func fault(rng *rand.Rand, d decl) (string, string) {
	t, u, c := rng.Intn(len(d.tokens)), rng.Intn(len(d.users)), rng.Intn(len(d.certs))
	sub := func(old, new string) string {
		text := strings.Join(render(rng, d), "")
		return strings.Replace(text, old, new, 1)
	}
	switch rng.Intn(24) {
	case 0:
		d.tokens[t].Token = ""
		return "empty-token", sub("", "")
	case 1:
		d.tokens[t].ID = ""
		return "empty-id", sub("", "")
	case 2:
		d.tokens[t].Scopes = nil
		return "empty-scopes", sub("", "")
	case 3:
		d.tokens[t].Scopes = append(append([]httpauth.Scope{}, d.tokens[t].Scopes...), []httpauth.Scope{"Read", "root", "*", "", "read write", "readd", "owner"}[rng.Intn(7)])
		return "unknown-scope", sub("", "")
	case 4:
		d.users[u].Username = ""
		return "empty-username", sub("", "")
	case 5:
		d.users[u].ID = ""
		return "empty-user-id", sub("", "")
	case 6:
		d.users[u].PasswordBcrypt = nil
		return "empty-hash", sub("", "")
	case 7:
		d.users[u].PasswordBcrypt = []byte([]string{"hunter2", "$2a$10$short", "$1$abc$def", string(d.users[u].PasswordBcrypt) + "\n", string(d.users[u].PasswordBcrypt[:59]), strings.Replace(string(d.users[u].PasswordBcrypt), "$04$", "$xx$", 1),
			string(d.users[u].PasswordBcrypt[:40]) + "!" + string(d.users[u].PasswordBcrypt[41:]), " " + string(d.users[u].PasswordBcrypt), "$3a$" + string(d.users[u].PasswordBcrypt[4:])}[rng.Intn(9)])
		return "bad-hash", sub("", "")
	case 8:
		d.users[u].Scopes = nil
		return "empty-user-scopes", sub("", "")
	case 9:
		d.certs[c].SubjectCN = ""
		return "empty-cn", sub("", "")
	case 10:
		d.certs[c].Scopes = nil
		return "empty-cert-scopes", sub("", "")
	case 11:
		d.certs[c].Scopes = []httpauth.Scope{"write", "all"}
		return "unknown-cert-scope", sub("", "")
	case 12:
		d.users[u].Scopes = []httpauth.Scope{"admin", "superuser"}
		return "unknown-user-scope", sub("", "")
	case 13: // twice, next to each other or not, under the same name or another, with the same grant or another
		e := httpauth.TokenIdentity{ID: "again", Token: d.tokens[t].Token, Scopes: []httpauth.Scope{"read", "write", "admin"}}
		if rng.Intn(2) == 0 {
			e.ID = d.tokens[t].ID
		}
		if rng.Intn(2) == 0 {
			e.Scopes = pick(rng)
		}
		if rng.Intn(4) == 0 {
			e.Scopes = d.tokens[t].Scopes
		}
		d.tokens = slices.Insert(d.tokens, beside(rng, t, len(d.tokens)), e)
		return "dup-token", sub("", "")
	case 14:
		e := httpauth.BasicIdentity{ID: "again", Username: d.users[u].Username, PasswordBcrypt: []byte(authref.Hash("other")), Scopes: []httpauth.Scope{"admin"}}
		if rng.Intn(2) == 0 {
			e.ID = d.users[u].ID
		}
		if rng.Intn(2) == 0 {
			e.PasswordBcrypt = d.users[u].PasswordBcrypt
		}
		if rng.Intn(2) == 0 {
			e.Scopes = pick(rng)
		}
		d.users = slices.Insert(d.users, beside(rng, u, len(d.users)), e)
		return "dup-user", sub("", "")
	case 15:
		e := httpauth.CertIdentity{SubjectCN: d.certs[c].SubjectCN, Scopes: []httpauth.Scope{"admin"}}
		if rng.Intn(2) == 0 {
			e.Scopes = pick(rng)
		}
		if rng.Intn(4) == 0 {
			e.Scopes = d.certs[c].Scopes
		}
		d.certs = slices.Insert(d.certs, beside(rng, c, len(d.certs)), e)
		return "dup-cn", sub("", "")
	case 16:
		return "unknown-top", strings.Join(render(rng, d), "") + []string{"token: x\n", "allow_anonymus: true\n", "Tokens: []\n", "user: []\n", "scopes: [read]\n", "certs: []\n"}[rng.Intn(6)]
	case 17:
		return "unknown-inner", strings.Replace(strings.Join(render(rng, d), ""), "scopes:", []string{"scope:", "Scopes:", "scopess:", "roles:"}[rng.Intn(4)], 1)
	case 18:
		return "second-document", strings.Join(render(rng, d), "") + "---\n" + []string{"", "tokens: []\n", "garbage: [\n", "allow_anonymous: true\n"}[rng.Intn(4)]
	case 19:
		return "repeated-section", strings.Join(render(rng, d), "") + "tokens:\n  - {id: extra, token: extra, scopes: [admin]}\n"
	case 20:
		return "wrong-type", strings.Join(render(decl2(rng), decl{users: d.users}), "") + []string{"tokens: notalist\n", "tokens: {id: x, token: y, scopes: [read]}\n", "tokens: [1, 2]\n", "tokens:\n  - id: [a]\n    token: x\n    scopes: [read]\n", "tokens:\n  - id: a\n    token: {b: c}\n    scopes: [read]\n", "tokens:\n  - id: a\n    token: b\n    scopes: read\n", "tokens:\n  - id: a\n    token: b\n    scopes: {read: true}\n"}[rng.Intn(7)]
	case 21:
		return "bad-bool", strings.Join(render(decl2(rng), decl{tokens: d.tokens}), "") + []string{"allow_anonymous: maybe\n", "allow_anonymous: 1\n", "allow_basic_without_tls: \"true\"\n", "allow_anonymous: [true]\n"}[rng.Intn(4)]
	case 22:
		return "coerced", strings.Join(render(decl2(rng), decl{users: d.users}), "") + []string{"tokens:\n  - {id: 7, token: 0x1F, scopes: [read]}\n", "tokens:\n  - {id: a, token: null, scopes: [read]}\n", "tokens:\n  - {id: a, token: ~, scopes: [read]}\n", "tokens:\n  - {id: a, token: true, scopes: [read]}\n", "tokens:\n  - {id: a, token: 1.50, scopes: [read]}\n", "tokens:\n  - \n", "tokens:\n"}[rng.Intn(7)]
	}
	// anchors and merges: aliases declare what they point to
	return "anchors", "tokens:\n  - {id: a, token: ta, scopes: &s [read]}\n  - {id: b, token: tb, scopes: *s}\n" + []string{"", "cert_identities:\n  - {subject_cn: x, scopes: *s}\n"}[rng.Intn(2)]
}

// beside is where the second of two goes: right before, right after, or at the end.
func beside(rng *rand.Rand, at, n int) int { return []int{at, at + 1, n}[rng.Intn(3)] }

func decl2(rng *rand.Rand) *rand.Rand { return rand.New(rand.NewSource(rng.Int63()*2 + 1)) }

func env(r *kit.Run, path string, put func([]byte)) {
	good := []byte("tokens:\n  - {id: file, token: filetok, scopes: [read]}\n")
	for _, legacy := range []string{"", "legacytok", "x y", strings.Repeat("z", 2000)} {
		// legacy only
		p, err, _ := load("", legacy)
		r.Case("env:legacy:"+legacy, legacy != "")
		if legacy == "" {
			if err != nil || open(p) {
				r.Violate("env-empty", "with nothing configured the policy is %+v (%v)", p, err)
			}
		} else {
			want := decl{tokens: []httpauth.TokenIdentity{{ID: "default", Token: legacy, Scopes: []httpauth.Scope{"read", "write", "admin"}}}}
			if err != nil || len(p.Tokens) != 1 || p.Tokens[0].Token != legacy || len(p.Tokens[0].Scopes) != 3 || broader(want, p) != "" {
				r.Violate("env-legacy", "legacy token %.20q loads as %+v (%v)", legacy, p, err)
			}
		}
		// file wins over legacy
		put(good)
		p, err, _ = load(path, legacy)
		r.Case("env:both:"+legacy, true)
		if err != nil || len(p.Tokens) != 1 || p.Tokens[0].Token != "filetok" || !reflect.DeepEqual(p.Tokens[0].Scopes, []httpauth.Scope{"read"}) {
			r.Violate("env-precedence", "with a config file and a legacy token the policy is %+v (%v)", p, err)
		}
		// unusable file never falls back to the legacy token or to open
		for _, bad := range []string{path + ".missing", filepath.Dir(path), " ", "/dev/null"} {
			p, err, pan := load(bad, legacy)
			r.Case("env:bad:"+bad+legacy, true)
			if pan != nil {
				r.Violate("panic", "loading %q panicked: %v", bad, pan)
			}
			if err == nil && bad != "/dev/null" {
				r.Violate("env-missing-file", "config path %q loads without error as %+v", bad, p)
			}
			if open(p) {
				r.Violate("env-fallback", "config path %q yields a usable policy %+v (%v)", bad, p, err)
			}
		}
		for _, bad := range []string{"tokens: [", "tokens:\n  - {id: a, token: '', scopes: [read]}\n", "tokenz: []\n", "\x00"} {
			put([]byte(bad))
			p, err, _ := load(path, legacy)
			r.Case("env:badfile:"+bad+legacy, true)
			if err == nil || open(p) {
				r.Violate("env-fallback", "config %q with legacy token set yields %+v (%v)", bad, p, err)
			}
		}
	}
	set(httpauth.EnvAuthConfig, "")
	set(httpauth.EnvAuthToken, "")
}

func b64(s string) string { return base64.StdEncoding.EncodeToString([]byte(s)) }
