package main

import (
	"encoding/json"
	"os"
	"runtime"

	xmssmt "github.com/bwesterb/go-xmssmt"
)

func runtimeStack(buf []byte) int { return runtime.Stack(buf, true) }

func maxSeqNo(ctx *xmssmt.Context) uint64 {
	p := ctx.Params()
	return p.MaxSignatureSeqNo()
}

func mkdir(d string) { check(os.MkdirAll(d, 0755)) }
func rmdir(d string) { os.RemoveAll(d) }

func jsonUnmarshal(b []byte, v interface{}) error { return json.Unmarshal(b, v) }
