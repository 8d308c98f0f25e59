// replay runs harnesses natively on solver assignments.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"reflect"
	"runtime"
	"strconv"
	"strings"

	"vh/hs"
	"vh/vsym"
)

type result struct {
	Status string   `json:"status"`
	Key    string   `json:"key"`
	Msg    string   `json:"msg"`
	Obs    []string `json:"obs"`
	Log    []string `json:"log"`
	Keys   []string `json:"keys"`
}

func run(h hs.H, in []uint64, tier int) (r result) {
	vsym.S = &vsym.State{In: in, T: tier}
	defer func() {
		r.Obs, r.Log = vsym.S.Obs, vsym.S.Logs
		if p := recover(); p != nil {
			if _, ok := p.(vsym.AssumeFailed); ok {
				if len(vsym.S.Keys) == 0 {
					r.Status = "assume"
					return
				}
			} else {
				msg := fmt.Sprint(p)
				if len(msg) > 200 {
					msg = msg[:200]
				}
				key := msg
				if i := strings.IndexByte(key, '\n'); i >= 0 {
					key = key[:i]
				}
				if len(key) > 60 {
					key = key[:60]
				}
				r.Status, r.Key, r.Msg = "panic", "panic:"+key, msg
				r.Keys = append(vsym.S.Keys, r.Key)
				return
			}
		}
		if len(vsym.S.Keys) > 0 {
			r.Status, r.Key, r.Keys = "check", vsym.S.Keys[0], vsym.S.Keys
			r.Msg = "assertion violated: " + strings.Join(vsym.S.Keys, ", ")
			return
		}
		r.Status = "ok"
	}()
	h.Fn()
	return
}

func emit(r result) {
	b, _ := json.Marshal(r)
	fmt.Printf("\n@@RESULT %s\n", b)
}

func main() {
	list := flag.Bool("list", false, "")
	name := flag.String("run", "", "")
	inputs := flag.String("inputs", "", "")
	batch := flag.String("batch", "", "")
	tier := flag.String("tier", "quick", "")
	flag.Parse()
	t := 0
	if *tier == "thorough" {
		t = 1
	}
	if *list {
		var out []map[string]interface{}
		for _, h := range hs.Registry {
			fn := runtime.FuncForPC(reflect.ValueOf(h.Fn).Pointer()).Name()
			fn = fn[strings.LastIndexByte(fn, '.')+1:]
			out = append(out, map[string]interface{}{"prop": h.Prop, "name": h.Name, "func": fn, "bounds": h.Bounds, "tiers": h.Tiers, "budget": h.Budget, "race": h.Race})
		}
		b, _ := json.Marshal(out)
		os.Stdout.Write(b)
		return
	}
	var h *hs.H
	for i := range hs.Registry {
		if hs.Registry[i].Name == *name {
			h = &hs.Registry[i]
		}
	}
	if h == nil {
		fmt.Println("no such harness")
		os.Exit(3)
	}
	if *batch != "" {
		b, _ := os.ReadFile(*batch)
		var ins [][]uint64
		json.Unmarshal(b, &ins)
		for _, in := range ins {
			emit(run(*h, in, t))
		}
		return
	}
	vsym.Verbose = true
	var in []uint64
	for _, s := range strings.Split(*inputs, ",") {
		if s == "" {
			continue
		}
		x, _ := strconv.ParseUint(s, 10, 64)
		in = append(in, x)
	}
	emit(run(*h, in, t))
}
