// Command native replays input vectors against the compiled harnesses.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"

	"github.com/wenerme/go-miniquery/zzverif/hx"
	"github.com/wenerme/go-miniquery/zzverif/sx"
)

type req struct {
	E string         `json:"e"`
	P map[string]int `json:"p"`
	V []uint64       `json:"v"`
}

type resp struct {
	S string   `json:"s"`
	M string   `json:"m,omitempty"`
	O []string `json:"o,omitempty"`
	K []string `json:"k,omitempty"`
}

func run(r req) (out resp) {
	f := hx.Entries[r.E]
	if f == nil {
		return resp{S: "noentry"}
	}
	sx.Reset(r.V, r.P)
	defer func() {
		x := recover()
		out.O, out.K = sx.Result()
		switch v := x.(type) {
		case nil:
			out.S = "ok"
		case sx.AssumeFailed:
			out.S = "assume"
		case sx.ShortVector:
			out.S = "short"
		case sx.Violation:
			out.S, out.M = "violation", v.Msg
		default:
			out.S, out.M = "panic", fmt.Sprint(x)
		}
	}()
	f()
	return
}

func main() {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriter(os.Stdout)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var r req
		if err := json.Unmarshal(line, &r); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		b, _ := json.Marshal(run(r))
		out.Write(b)
		out.WriteByte('\n')
		out.Flush()
	}
}
