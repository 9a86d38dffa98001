package sunlight

import (
	"context"
	"errors"
	"iter"

	real "filippo.io/sunlight"
	"filippo.io/torchwood"
	"github.com/mozilla/crlite/go/zzvf/env"
	"golang.org/x/mod/sumdb/note"
	"golang.org/x/mod/sumdb/tlog"
)

// VFLog answers the requests to a tiled log. Entries that it returns have been authenticated against the tree.
type VFLog interface {
	Checkpoint() (n int64, timestamp int64, err error)
	Entry(i int64) (*real.LogEntry, error)
	Endpoint(path string) ([]byte, error)
}

var (
	VFLogs = map[string]VFLog{}
	// VFTile is the tile width.
	VFTile int64 = 256
	// VFNoSig makes checkpoints come without a signature.
	VFNoSig bool
)

type Client struct {
	log VFLog
	err error
}

type Fetcher struct{ log VFLog }

func NewClient(config *real.ClientConfig) (*Client, error) {
	l, ok := VFLogs[config.MonitoringPrefix]
	if !ok || config.UserAgent == "" {
		return nil, env.ErrInjected
	}
	return &Client{log: l}, nil
}

func (c *Client) Fetcher() *Fetcher { return &Fetcher{c.log} }

func (f *Fetcher) ReadEndpoint(ctx context.Context, path string) ([]byte, error) {
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	if err := env.Op("tiled endpoint", false); err != nil {
		return nil, err
	}
	return f.log.Endpoint(path)
}

var stamps = map[string]int64{}

func (c *Client) Checkpoint(ctx context.Context) (torchwood.Checkpoint, *note.Note, error) {
	if err := ctx.Err(); err != nil {
		return torchwood.Checkpoint{}, nil, err
	}
	if err := env.Op("tiled checkpoint", false); err != nil {
		return torchwood.Checkpoint{}, nil, err
	}
	n, ts, err := c.log.Checkpoint()
	if err != nil {
		return torchwood.Checkpoint{}, nil, err
	}
	cp := torchwood.Checkpoint{Origin: "log", Tree: tlog.Tree{N: n}}
	nt := &note.Note{}
	if !VFNoSig {
		id := string(rune('A' + len(stamps)))
		stamps[id] = ts
		nt.Sigs = append(nt.Sigs, note.Signature{Name: "log", Base64: id})
	}
	return cp, nt, nil
}

func RFC6962SignatureTimestamp(sig note.Signature) (int64, error) {
	ts, ok := stamps[sig.Base64]
	if !ok {
		return 0, errors.New("malformed RFC 6962 TreeHeadSignature")
	}
	return ts, nil
}

func (c *Client) Err() error { return c.err }

// Entries follows torchwood.Client.Entries: whole tiles first, and the trailing partial tile only when the
// iteration starts in it.
func (c *Client) Entries(ctx context.Context, tree tlog.Tree, start int64) iter.Seq2[int64, *real.LogEntry] {
	c.err = nil
	return func(yield func(int64, *real.LogEntry) bool) {
		for {
			if err := ctx.Err(); err != nil {
				c.err = err
				return
			}
			base := start / VFTile * VFTile
			top := tree.N / VFTile * VFTile
			if top-base == 0 {
				top = tree.N
			}
			if base >= top {
				return
			}
			if err := env.Op("tiled tile", false); err != nil {
				c.err = err
				return
			}
			end := base + VFTile
			if end > top {
				end = top
			}
			for i := base; i < end; i++ {
				if err := ctx.Err(); err != nil {
					c.err = err
					return
				}
				e, err := c.log.Entry(i)
				if err != nil {
					c.err = err
					return
				}
				if i < start {
					continue
				}
				if !yield(i, e) {
					return
				}
			}
			start = end
			if start == top {
				return
			}
		}
	}
}
