package obl

import (
	"bytes"
	stdcontext "context"
	"encoding/json"
	"errors"
	"io"
	"math/rand"
	"net/http"
	"net/url"
	"strconv"
	"strings"

	"github.com/spiegel-im-spiegel/fetch"
	"github.com/spiegel-im-spiegel/gpgpdump/github"
	"github.com/spiegel-im-spiegel/gpgpdump/hkp"

	"gpgverif/harness/spec"
	v "gpgverif/harness/verif"
)

// server answers requests: arbitrarily, but the same request the same way.
type server struct {
	ctx    stdcontext.Context
	calls  int
	posts  int
	accept string
	ours   bool // with the caller's context
	others bool // a request without it
	plain  bool // a request that does not ask for the documented format
	u      *url.URL
	raw    []byte // native: what to answer
}

func (s *server) Get(u *url.URL, opts ...fetch.RequestOpts) (fetch.Response, error) {
	s.calls++
	s.u = u
	req := &http.Request{URL: u, Header: http.Header{}}
	for _, o := range opts {
		req = o(req)
	}
	s.ours = req.Context() == s.ctx
	s.accept = req.Header.Get("Accept")
	if !s.ours {
		s.others = true
	}
	if s.accept != "application/vnd.github.v3+json" {
		s.plain = true
	}
	b, ok := s.page(u.String())
	if !ok {
		return nil, errors.New("request fails")
	}
	return &response{b: b}, nil
}

func (s *server) Post(u *url.URL, payload io.Reader, opts ...fetch.RequestOpts) (fetch.Response, error) {
	s.posts++
	return nil, errors.New("no such thing")
}

// page is the answer to a request.
func (s *server) page(u string) ([]byte, bool) {
	if v.Symbolic() {
		n := int64(v.OpaqueU32("answer.len", u))
		return v.OpaqueBytes("answer", n, u), !v.OpaqueBool("answer.fails", u)
	}
	return spec.Answer(s.raw, u)
}

type response struct{ b []byte }

func (r *response) Request() *http.Request { return nil }
func (r *response) Header() http.Header    { return nil }
func (r *response) Body() io.ReadCloser    { return io.NopCloser(bytes.NewReader(r.b)) }
func (r *response) Close()                 {}
func (r *response) DumpBodyAndClose() ([]byte, error) {
	if v.Symbolic() && v.OpaqueBool("answer.broken", r.b) || !v.Symbolic() && len(r.b)%7 == 3 {
		return nil, errors.New("broken answer")
	}
	return r.b, nil
}

// caller is the caller's context.
type caller struct{ stdcontext.Context }

func newServer(gen func(*rand.Rand) []byte) *server {
	s := &server{}
	if v.Symbolic() {
		s.ctx = &caller{}
	} else {
		s.ctx = &caller{stdcontext.Background()}
		s.raw = v.BytesBy("answers", gen)
	}
	return s
}

// request checks that a request went where it should.
func request(label string, s *server, scheme, host, path, query string) {
	v.Check("request", label+": calls", s.calls == 1 && s.posts == 0)
	v.Check("request", label+": context", s.ours)
	if s.calls == 0 {
		return
	}
	v.CheckStr("request", label+": scheme", s.u.Scheme, scheme)
	v.CheckStr("request", label+": host", s.u.Host, host)
	v.CheckStr("request", label+": path", s.u.Path, path)
	v.CheckStr("request", label+": query", s.u.RawQuery, query)
	v.Check("request", label+": rest", s.u.Opaque == "" && s.u.User == nil && s.u.RawPath == "" && s.u.Fragment == "" && !s.u.ForceQuery)
}

// O_HKP: a key server is asked for exactly the key.
func O_HKP() {
	host, user := v.String("host"), v.String("user")
	n, port := v.I64("protocol"), int(v.I64("port"))
	if !v.Symbolic() {
		n &= 3
	}
	prot, prt := v.Bool("set protocol"), v.Bool("set port")
	scheme, want := "http", 11371
	if prot && n == 2 {
		scheme = "https"
	}
	if prt {
		want = port
	}
	var svr *hkp.Server
	switch {
	case prot && prt && v.Bool("port first"):
		svr = hkp.New(host, hkp.WithPort(port), hkp.WithProtocol(hkp.Protocol(n)))
	case prot && prt:
		svr = hkp.New(host, hkp.WithProtocol(hkp.Protocol(n)), hkp.WithPort(port))
	case prot:
		svr = hkp.New(host, hkp.WithProtocol(hkp.Protocol(n)))
	case prt:
		svr = hkp.New(host, hkp.WithPort(port))
	default:
		svr = hkp.New(host)
	}
	s := newServer(nil)
	h := host + ":" + strconv.Itoa(want)
	u := svr.URL()
	v.CheckStr("request", "url scheme", u.Scheme, scheme)
	v.CheckStr("request", "url host", u.Host, h)
	v.CheckStr("request", "server", svr.String(), (&url.URL{Scheme: scheme, Host: h}).String())
	rd, err := svr.Fetch(s.ctx, s, user)
	request("hkp", s, scheme, h, "/pks/lookup", "op=get&search="+url.QueryEscape(user))
	if s.calls == 0 {
		return
	}
	b, ok := s.page(s.u.String())
	v.CheckErr("request", err, !ok)
	if err == nil && ok {
		got, _ := io.ReadAll(rd)
		v.CheckBytes("request", "body", got, b)
	}
}

// O_HKPProtocol: the protocol's scheme, and no server.
func O_HKPProtocol() {
	n := v.I64("protocol")
	if !v.Symbolic() {
		n &= 3
	}
	w := "http"
	if n == 2 {
		w = "https"
	}
	v.CheckStr("request", "scheme", hkp.Protocol(n).String(), w)
	v.Check("request", "protocols", int(hkp.HKP) == 1 && int(hkp.HKPS) == 2)
	var none *hkp.Server
	v.Check("request", "nil url", none.URL() == nil)
	v.CheckStr("request", "nil", none.String(), "")
}

// O_GitHubUser: without a key ID all keys of the user are asked for.
func O_GitHubUser() {
	user := string(v.BytesBy("user", spec.GenUser))
	v.Assume(v.Plain(user))
	s := newServer(nil)
	var b []byte
	var err error
	if v.Bool("direct") {
		b, err = github.Get(s.ctx, s, user)
	} else {
		b, err = github.GetKey(s.ctx, s, user, "")
	}
	request("user", s, "https", "github.com", "/"+user+".gpg", "")
	if s.calls == 0 {
		return
	}
	w, ok := s.page(s.u.String())
	if ok {
		var e error
		w, e = (&response{w}).DumpBodyAndClose()
		ok = e == nil
	}
	v.CheckErr("request", err, !ok)
	if err == nil && ok {
		v.CheckBytes("request", "keys", b, w)
	}
}

// O_GitHubBadUser: a user name that gives no URL is an error, and nothing is
// asked for.
func O_GitHubBadUser() {
	user := string(v.BytesBy("user", spec.GenBadUser))
	s := newServer(nil)
	var err error
	var bad error
	if v.Case(v.Bool("key")) {
		_, bad = url.Parse("https://api.github.com/users/" + user + "/gpg_keys")
		v.Assume(bad != nil)
		_, err = github.GetKey(s.ctx, s, user, "0123")
	} else {
		_, bad = url.Parse("https://github.com/" + user + ".gpg")
		v.Assume(bad != nil)
		_, err = github.Get(s.ctx, s, user)
	}
	v.CheckErr("bad user", err, true)
	v.Check("request", "no request", s.calls == 0 && s.posts == 0)
}

// O_GitHubKey: exactly the requested key of the user.
func O_GitHubKey() {
	user := string(v.BytesBy("user", spec.GenUser))
	v.Assume(v.Plain(user))
	id := string(v.BytesBy("id", spec.GenKeyID))
	v.Assume(id != "")
	s := newServer(func(r *rand.Rand) []byte { return spec.GenAnswers(r, id) })
	b, err := github.GetKey(s.ctx, s, user, id)
	v.Check("request", "key: context", !s.others)
	v.Check("request", "key: format", !s.plain)
	w, ok := s.key(user, id)
	v.CheckErr("key", err, !ok)
	if err == nil && ok {
		v.CheckBytes("key", "key", b, w)
	}
}

type ghKey struct {
	ID  string  `json:"key_id"`
	Raw *string `json:"raw_key"`
}

func (s *server) key(user, id string) ([]byte, bool) {
	want := strings.TrimPrefix(strings.ToLower(id), "0x")
	for n := 1; ; n++ {
		u := url.URL{Scheme: "https", Host: "api.github.com", Path: "/users/" + user + "/gpg_keys", RawQuery: "page=" + strconv.Itoa(n) + "&per_page=100"}
		b, ok := s.page(u.String())
		if !ok {
			return nil, false
		}
		var keys []*ghKey
		if json.NewDecoder(bytes.NewReader(b)).Decode(&keys) != nil {
			return nil, false
		}
		for _, k := range keys {
			if k != nil && strings.EqualFold(k.ID, want) {
				if k.Raw == nil {
					return nil, false
				}
				return []byte(*k.Raw), true
			}
		}
		if len(keys) < 100 {
			return nil, false
		}
	}
}
