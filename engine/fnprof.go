package main

import (
	"fmt"
	"os"
	"sort"
	"sync"
)

// fnProf counts interpreted instructions by function (debugging).
var fnProf *fnProfile

type fnProfile struct {
	mu        sync.Mutex
	self, cum map[string]int64
}

func init() {
	if os.Getenv("VSYM_FNPROF") != "" {
		fnProf = &fnProfile{self: map[string]int64{}, cum: map[string]int64{}}
	}
}

func (p *fnProfile) add(fr *Frame, n int64) {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.self[fr.fn.fn.String()] += n
	seen := map[string]bool{}
	for f := fr; f != nil; f = f.caller {
		if s := f.fn.fn.String(); !seen[s] {
			seen[s] = true
			p.cum[s] += n
		}
	}
}

func (p *fnProfile) dump() {
	for _, m := range []map[string]int64{p.self, p.cum} {
		var l []string
		for k := range m {
			l = append(l, k)
		}
		sort.Slice(l, func(i, j int) bool { return m[l[i]] > m[l[j]] })
		for i, k := range l {
			if i == 40 {
				break
			}
			fmt.Println(m[k], k)
		}
		fmt.Println()
	}
}
