// Package vsrv is the server command, its sources taken from the repository when a check runs.
package vsrv

import (
	"context"
	"io"
	"log/slog"

	"github.com/gofiber/fiber/v3"
	"github.com/hyp3rd/hypercache"
	"github.com/hyp3rd/hypercache/pkg/backend"
	"github.com/hyp3rd/hypercache/pkg/httpauth"
)

// Serve starts the client API of a cache at an address.
func Serve(ctx context.Context, addr, id string, policy httpauth.Policy, hc *hypercache.HyperCache[backend.DistMemory]) (*fiber.App, error) {
	_ = ctx
	return runClientAPI(envConfig{NodeID: id, APIAddr: addr, AuthPolicy: policy}, hc, slog.New(slog.NewTextHandler(io.Discard, nil)))
}
