package srv

import (
	"context"
	"crypto/tls"
	"errors"
	"fmt"
	"io"
	"net/http"
	"strings"
	"time"
)

// Route of the server, with the scope it documents; "" for the public ones.
type Route struct {
	Port, Method, Path, Body, Scope string
	Stream                          bool // answers without end
	Changes                         bool // stores or removes something
}

func (r Route) String() string { return r.Port + " " + r.Method + " " + r.Path }

// Routes for a key of the caller's.
func Routes(key string) []Route {
	list := []Route{
		{Port: "api", Method: "GET", Path: "/healthz"},
		{Port: "api", Method: "GET", Path: "/v1/openapi.yaml"},
		{Port: "api", Method: "GET", Path: "/v1/cache/keys", Scope: "read"},
		{Port: "api", Method: "GET", Path: "/v1/cache/keys?q=k&limit=3", Scope: "read"},
		{Port: "api", Method: "PUT", Path: "/v1/cache/" + key, Body: "new", Scope: "write", Changes: true},
		{Port: "api", Method: "PUT", Path: "/v1/cache/" + key + "?ttl=1h", Body: "new", Scope: "write", Changes: true},
		{Port: "api", Method: "GET", Path: "/v1/cache/" + key, Scope: "read"},
		{Port: "api", Method: "HEAD", Path: "/v1/cache/" + key, Scope: "read"},
		{Port: "api", Method: "DELETE", Path: "/v1/cache/" + key, Scope: "write", Changes: true},
		{Port: "api", Method: "GET", Path: "/v1/owners/" + key, Scope: "read"},
		{Port: "api", Method: "GET", Path: "/v1/me", Scope: "read"},
		{Port: "api", Method: "GET", Path: "/v1/me/can?capability=cache.write", Scope: "read"},
		{Port: "api", Method: "POST", Path: "/v1/cache/batch/get", Body: `{"keys":["` + key + `"]}`, Scope: "read"},
		{Port: "api", Method: "POST", Path: "/v1/cache/batch/put", Body: `{"items":[{"key":"` + key + `","value":"new"}]}`, Scope: "write", Changes: true},
		{Port: "api", Method: "POST", Path: "/v1/cache/batch/delete", Body: `{"keys":["` + key + `"]}`, Scope: "write", Changes: true},
		{Port: "mgmt", Method: "GET", Path: "/health"},
		{Port: "mgmt", Method: "GET", Path: "/cluster/events", Scope: "read", Stream: true},
		{Port: "mgmt", Method: "POST", Path: "/evict", Scope: "admin"},
		{Port: "mgmt", Method: "POST", Path: "/trigger-expiration", Scope: "admin"},
		{Port: "mgmt", Method: "POST", Path: "/clear", Scope: "admin", Changes: true},
	}
	for _, p := range []string{"/stats", "/config", "/dist/metrics", "/dist/owners?key=" + key, "/cluster/members", "/cluster/ring", "/cluster/heartbeat"} {
		list = append(list, Route{Port: "mgmt", Method: "GET", Path: p, Scope: "read"})
	}
	for _, p := range []string{"/v1/owners/" + key, "/v1/cache/keys"} {
		list = append(list, Route{Port: "api", Method: "HEAD", Path: p, Scope: "read"})
	}
	for _, p := range []string{"/stats", "/config", "/cluster/members"} {
		list = append(list, Route{Port: "mgmt", Method: "HEAD", Path: p, Scope: "read"})
	}
	return list
}

// HTTPClient with a TLS configuration of its own.
func HTTPClient(c *tls.Config) *http.Client {
	return &http.Client{Timeout: 20 * time.Second, Transport: &http.Transport{MaxIdleConnsPerHost: 4, DisableCompression: true, TLSClientConfig: c},
		CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }}
}

// ErrHeader is a header no HTTP client sends.
var ErrHeader = errors.New("invalid header")

// Send a request to a route; of an endless answer only the status is read.
func Send(cl *http.Client, base string, rt Route, hd ...string) (Reply, error) {
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	req, err := http.NewRequestWithContext(ctx, rt.Method, base+rt.Path, strings.NewReader(rt.Body))
	if err != nil {
		return Reply{}, err
	}
	for i := 0; i+1 < len(hd); i += 2 {
		if hd[i+1] != "" {
			req.Header.Add(hd[i], hd[i+1])
		}
	}
	res, err := cl.Do(req)
	if err != nil {
		if strings.Contains(err.Error(), "invalid header") {
			return Reply{}, ErrHeader
		}
		return Reply{}, err
	}
	defer res.Body.Close()
	if rt.Stream && res.StatusCode == 200 {
		return Reply{res.StatusCode, res.Header, nil}, nil
	}
	b, err := io.ReadAll(io.LimitReader(res.Body, 64<<20))
	return Reply{res.StatusCode, res.Header, b}, err
}

// Want is the status class a route owes to a caller: who says it is somebody at all.
func (r Route) Want(somebody bool, scopes []string) int {
	switch {
	case r.Scope == "":
		return 200
	case !somebody:
		return 401
	}
	for _, s := range scopes {
		if s == r.Scope {
			return 200
		}
	}
	return 403
}

// Listening waits until all three ports accept connections or the process is gone.
func (s *Server) Listening(limit time.Duration) bool {
	up := false
	poll(limit, func() bool {
		if gone, _ := s.Exited(); gone {
			return true
		}
		up = dial(s.API) && dial(s.Mgmt)
		return up
	})
	return up
}

func (s *Server) String() string {
	return fmt.Sprintf("%s(api %s mgmt %s dist %s)", s.ID, s.API, s.Mgmt, s.Dist)
}
