package farm

import (
	"context"
	"encoding/json"
	"strings"
	"time"

	"github.com/hyp3rd/hypercache/pkg/client"
)

// Cmd is one client command with fixed arguments.
type Cmd struct {
	Name string
	Run  func(ctx context.Context, c *client.Client) error
}

// Cmds is every command that talks to the server.
var Cmds = []Cmd{
	{"Set", func(ctx context.Context, c *client.Client) error {
		return c.Set(ctx, "k", []byte("value"), time.Minute)
	}},
	{"Get", func(ctx context.Context, c *client.Client) error { _, err := c.Get(ctx, "k"); return err }},
	{"GetItem", func(ctx context.Context, c *client.Client) error { _, err := c.GetItem(ctx, "k"); return err }},
	{"Delete", func(ctx context.Context, c *client.Client) error { return c.Delete(ctx, "k") }},
	{"Identity", func(ctx context.Context, c *client.Client) error { _, err := c.Identity(ctx); return err }},
	{"Can", func(ctx context.Context, c *client.Client) error { _, err := c.Can(ctx, "cache.read"); return err }},
	{"BatchSet", func(ctx context.Context, c *client.Client) error {
		_, err := c.BatchSet(ctx, []client.BatchSetItem{{Key: "a", Value: []byte("1")}, {Key: "b", Value: []byte("2"), TTL: time.Second}})
		return err
	}},
	{"BatchGet", func(ctx context.Context, c *client.Client) error {
		_, err := c.BatchGet(ctx, []string{"a", "b"})
		return err
	}},
	{"BatchDelete", func(ctx context.Context, c *client.Client) error {
		_, err := c.BatchDelete(ctx, []string{"a", "b"})
		return err
	}},
	{"RefreshTopology", func(ctx context.Context, c *client.Client) error { return c.RefreshTopology(ctx) }},
}

// OK is a well-formed success answer to the request.
func OK(r Req) Reply {
	var v any
	switch p := strings.SplitN(r.URI, "?", 2)[0]; {
	case p == "/v1/me":
		v = map[string]any{"id": "svc", "scopes": []string{"read"}, "capabilities": []string{"cache.read"}}
	case p == "/v1/me/can":
		v = map[string]any{"capability": "cache.read", "allowed": true}
	case p == "/cluster/members":
		v = map[string]any{"members": []any{}}
	case p == "/v1/cache/batch/get":
		v = map[string]any{"results": []any{map[string]any{"key": "a", "found": true, "value": "MQ==", "value_encoding": "base64"}, map[string]any{"key": "b", "found": false}}, "node": "n"}
	case p == "/v1/cache/batch/put":
		v = map[string]any{"results": []any{map[string]any{"key": "a", "stored": true, "bytes": 1}, map[string]any{"key": "b", "stored": true, "bytes": 1}}, "node": "n"}
	case p == "/v1/cache/batch/delete":
		v = map[string]any{"results": []any{map[string]any{"key": "a", "deleted": true}, map[string]any{"key": "b", "deleted": true}}, "node": "n"}
	case r.Header.Get("Accept") == "application/json":
		v = map[string]any{"key": "k", "value": "dmFsdWU=", "value_encoding": "base64", "version": 3, "node": "n", "owners": []string{"n"}}
	case r.Method == "GET":
		return Reply{Status: 200, Body: []byte("value")}
	default:
		v = map[string]any{"key": "k", "stored": true}
	}
	b, _ := json.Marshal(v)
	return Reply{Status: 200, Body: b, Header: map[string]string{"Content-Type": "application/json"}}
}
