package httptrace

import (
	"context"
	real "net/http/httptrace"
)

type key struct{}

type traced struct {
	context.Context
	t *real.ClientTrace
}

func (c traced) Value(k any) any {
	if k == (key{}) {
		return c.t
	}
	return c.Context.Value(k)
}

// WithClientTrace attaches the trace where the modelled client finds it.
func WithClientTrace(ctx context.Context, t *real.ClientTrace) context.Context {
	return traced{ctx, t}
}

func ContextClientTrace(ctx context.Context) *real.ClientTrace {
	t, _ := ctx.Value(key{}).(*real.ClientTrace)
	return t
}
