package main

import (
	"context"
	"time"

	"github.com/hyp3rd/hypercache/pkg/backend"
	cache "github.com/hyp3rd/hypercache/pkg/cache/v2"
)

// warm sends one request of every kind over HTTP, one after the other, before
// any behaviour is replayed. goccy/go-json v0.10.6 publishes a compiled codec
// with a plain two-word store (decoder/compile_norace.go), so the very first
// uses of a type must not be concurrent: a torn read panics in the library.
func warm() {
	addr := address()

	dm, err := backend.NewDistMemory(context.Background(), backend.WithDistNode("w1", addr), backend.WithDistReplication(1))
	if err != nil {
		panic(err)
	}

	node, ok := dm.(*backend.DistMemory)
	if !ok {
		panic("not a DistMemory")
	}

	defer func() { _ = node.Stop(context.Background()) }()

	ctx, cancel := context.WithTimeout(context.Background(), 10*time.Second)
	defer cancel()

	t := backend.NewDistHTTPTransport(3*time.Second, func(string) (string, bool) { return "http://" + addr, true })

	for range 2 {
		_ = t.ForwardSet(ctx, "w1", &cache.Item{Key: "warm", Value: "x", Version: 1, Origin: "w1"}, false)
		_, _, _ = t.ForwardGet(ctx, "w1", "warm")
		_, _, _ = t.ForwardGet(ctx, "w1", "none")
		_ = t.ForwardRemove(ctx, "w1", "warm", false)
		_ = t.Health(ctx, "w1")
		_ = t.IndirectHealth(ctx, "w1", "w1")
		_ = t.Gossip(ctx, "w1", []backend.GossipMember{{ID: "w1", Address: addr, State: "alive"}})
		_, _ = t.FetchMerkle(ctx, "w1")
		_, _ = t.ListKeys(ctx, "w1", "")
		_, _ = t.ListKeys(ctx, "w1", "a*")
	}
}
