// Command replay runs harnesses natively: one JSON request per input line,
// one JSON result per output line.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"

	"verif/nd"
	"verif/props"
)

type req struct {
	H  string     `json:"h"`
	In []nd.Input `json:"in"`
}

type resp struct {
	Obs    [][]byte `json:"obs"`
	Fail   []string `json:"fail"`
	Panic  string   `json:"panic"`
	Assume bool     `json:"assume"`
}

func run(q req) (r resp) {
	f := props.Registry[q.H]
	if f == nil {
		r.Panic = "replay: no harness " + q.H
		return
	}
	cur := &nd.Run{In: q.In}
	nd.Cur = cur
	defer func() {
		for _, o := range cur.Obs {
			r.Obs = append(r.Obs, []byte(o))
		}
		r.Fail = cur.Fail
		if e := recover(); e != nil {
			if _, ok := e.(nd.AssumeFailed); ok {
				r.Assume = true
				return
			}
			r.Panic = fmt.Sprint(e)
		}
	}()
	f()
	return
}

func main() {
	debug.SetMaxStack(64 << 20)
	nd.IsThorough = os.Getenv("VERIF_TIER") == "thorough"
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriter(os.Stdout)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var q req
		if err := json.Unmarshal(line, &q); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		b, _ := json.Marshal(run(q))
		out.Write(append(b, '\n'))
		out.Flush()
	}
}
