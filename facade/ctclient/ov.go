package client

import (
	"context"
	"net/http"

	real "github.com/google/certificate-transparency-go"
	"github.com/google/certificate-transparency-go/jsonclient"
	fhttp "github.com/mozilla/crlite/go/zzvf/http"
	"github.com/mozilla/crlite/go/zzvf/env"
)

var _ http.Client

// VFLog answers the requests to a log.
type VFLog interface {
	GetSTH() (*real.SignedTreeHead, error)
	GetSTHConsistency(first, second uint64) ([][]byte, error)
	GetRawEntries(start, end int64) (*real.GetEntriesResponse, error)
}

// VFLogs are the logs by URL.
var VFLogs = map[string]VFLog{}

type LogClient struct{ log VFLog }

func New(uri string, hc *fhttp.Client, opts jsonclient.Options) (*LogClient, error) {
	l, ok := VFLogs[uri]
	if !ok {
		return nil, env.ErrInjected
	}
	return &LogClient{l}, nil
}

func begin(ctx context.Context, name string) error {
	if err := ctx.Err(); err != nil {
		return err
	}
	return env.Op(name, false)
}

func (c *LogClient) GetSTH(ctx context.Context) (*real.SignedTreeHead, error) {
	if err := begin(ctx, "ct get-sth"); err != nil {
		return nil, err
	}
	return c.log.GetSTH()
}

func (c *LogClient) GetSTHConsistency(ctx context.Context, first, second uint64) ([][]byte, error) {
	if err := begin(ctx, "ct get-sth-consistency"); err != nil {
		return nil, err
	}
	return c.log.GetSTHConsistency(first, second)
}

func (c *LogClient) GetRawEntries(ctx context.Context, start, end int64) (*real.GetEntriesResponse, error) {
	if end < 0 || start < 0 || end < start {
		return nil, env.ErrInjected
	}
	if err := begin(ctx, "ct get-entries"); err != nil {
		return nil, err
	}
	return c.log.GetRawEntries(start, end)
}
