// Monitor of C17: coin selection.
package main

import (
	"fmt"
	"math"
	"strings"
	"sync"
	"time"

	"github.com/tdex-network/tdex-daemon/internal/zzverif/sim"
	"github.com/tdex-network/tdex-daemon/pkg/explorer"
	"github.com/tdex-network/tdex-daemon/pkg/explorer/esplora"
)

var assets = []string{sim.LBTC, strings.Repeat("aa", 32), strings.Repeat("bb", 32)}

type tcase struct {
	coins  []explorer.Utxo
	target uint64
	asset  string
	hidden bool // contains a coin that is not revealed
	desc   string
}

func gen(r *sim.Rng, maxN int) tcase {
	n := r.Intn(maxN + 1)
	if r.Chance(3) {
		n = r.Intn(6)
	}
	var c tcase
	mode := r.Intn(6)
	var left uint64 = math.MaxUint64
	c.asset = assets[r.Intn(2)]
	vals := []string{}
	var sum uint64
	for i := 0; i < n; i++ {
		var v uint64
		switch mode {
		case 0:
			v = r.Range(1, 10)
		case 1:
			v = r.Log(51)
		case 2:
			v = r.Log(63)
		case 3:
			v = []uint64{1, 2, 5, 1000, 1000, 1 << 40}[r.Intn(6)]
		case 4:
			v = 100000000
		default:
			v = r.Range(1, 1<<20)
		}
		if v > left {
			v = left
		}
		if v == 0 {
			continue
		}
		left -= v
		a := c.asset
		if r.Chance(4) {
			a = assets[r.Intn(3)]
		}
		h := fmt.Sprintf("%064x", i+1)
		if r.Chance(5) {
			c.coins = append(c.coins, esplora.NewWitnessUtxo(h, uint32(i%3), v, a, "08aa", "0abb",
				[]byte{1}, []byte{2}, []byte{0}, nil, nil, nil, true))
		} else {
			c.coins = append(c.coins, sim.PlainUtxo(h, uint32(i%3), v, a, []byte{byte(i)}))
		}
		if a == c.asset {
			sum += v
			if len(vals) < 40 {
				vals = append(vals, fmt.Sprint(v))
			}
		}
	}
	if n > 0 && r.Chance(25) {
		c.hidden = true
		c.coins = append(c.coins, esplora.NewWitnessUtxo(strings.Repeat("cd", 32), 0, 0, "", "08aa", "0abb",
			nil, nil, []byte{0}, nil, nil, nil, true))
		p := r.Perm(len(c.coins))
		cc := make([]explorer.Utxo, len(p))
		for i, j := range p {
			cc[i] = c.coins[j]
		}
		c.coins = cc
	}
	switch r.Intn(9) {
	case 0:
		c.target = sum
	case 1:
		if sum < math.MaxUint64 {
			c.target = sum + 1
		} else {
			c.target = sum
		}
	case 2:
		c.target = r.Range(1, sum)
	case 3:
		c.target = sum - sum/3
	case 4:
		c.target = r.Log(63)
	case 5:
		c.target = sum / 7
	case 6:
		c.target = math.MaxUint64 - uint64(r.Intn(3))
	case 7:
		if sum > 0 {
			c.target = sum - 1
		}
	default:
		c.target = r.Range(1, 100)
	}
	if c.target == 0 {
		c.target = 1
	}
	c.desc = fmt.Sprintf("target=%d n=%d sum=%d values=[%s]", c.target, len(c.coins), sum, strings.Join(vals, " "))
	return c
}

type res struct {
	coins  []explorer.Utxo
	change uint64
	err    error
}

func run(c tcase) (r res, ok bool, site, msg string) {
	in := append([]explorer.Utxo{}, c.coins...)
	ok, site, msg = sim.Guard(func() {
		r.coins, r.change, r.err = explorer.SelectUnspents(in, c.target, c.asset)
	})
	return
}

func judge(rec *sim.Rec, c tcase, r res, how string) {
	var avail uint64
	for _, u := range c.coins {
		if u.Asset() == c.asset {
			avail += u.Value()
		}
	}
	if c.hidden {
		rec.Count("unrevealed_cases", 1)
		if r.err == nil {
			rec.Violate("unrevealed-accepted", "%s: a list with an unrevealed coin was accepted: %s", how, c.desc)
		}
		return
	}
	if r.err != nil {
		rec.Count("errors", 1)
		if avail >= c.target {
			rec.Violate("funds-denied", "%s: funds cover the target but selection failed (%s): %s", how, r.err, c.desc)
		}
		return
	}
	rec.Count("selections", 1)
	if len(r.coins) > 1 {
		rec.Count("multi_coin", 1)
	}
	if avail < c.target {
		rec.Violate("uncovered", "%s: selection succeeded without funds: %s", how, c.desc)
		return
	}
	have := map[sim.Outpoint]explorer.Utxo{}
	for _, u := range c.coins {
		have[sim.Outpoint{Hash: u.Hash(), Index: u.Index()}] = u
	}
	seen := map[sim.Outpoint]bool{}
	var tot uint64
	for _, u := range r.coins {
		op := sim.Outpoint{Hash: u.Hash(), Index: u.Index()}
		o, ok := have[op]
		if !ok || o.Value() != u.Value() || o.Asset() != u.Asset() {
			rec.Violate("foreign-coin", "%s: selected coin %s is not in the list: %s", how, op, c.desc)
			return
		}
		if seen[op] {
			rec.Violate("duplicate-coin", "%s: coin %s selected twice: %s", how, op, c.desc)
			return
		}
		seen[op] = true
		if u.Asset() != c.asset {
			rec.Violate("wrong-asset", "%s: coin of another asset selected: %s", how, c.desc)
			return
		}
		tot += u.Value()
	}
	if tot < c.target {
		rec.Violate("short", "%s: selected %d of target %d: %s", how, tot, c.target, c.desc)
		return
	}
	if r.change != tot-c.target {
		rec.Violate("change", "%s: change %d, excess %d: %s", how, r.change, tot-c.target, c.desc)
	}
}

func main() {
	rec := sim.Start("random coin lists (0-400 coins, up to 3 assets, values up to 64 bits, confidential and unrevealed coins) and targets around 0, the sum and the 64-bit limit, run alone and 8 at a time; a case is non-trivial when it selects coins or must refuse")
	rng := rec.Rng("c17")

	n := rec.N(6000, 120000)
	cases := make([]tcase, 0, n)
	for i := 0; i < n; i++ {
		mx := 24
		if i%40 == 0 {
			mx = 400
		}
		cases = append(cases, gen(rng, mx))
	}
	seq := make([]res, n)
	for i, c := range cases {
		i, c := i, c
		ended, dump := sim.Within(60*time.Second, func() {
			r, ok, site, msg := run(c)
			if !ok {
				rec.Violate("panic:"+site, "panic %s: %s", msg, c.desc)
				return
			}
			seq[i] = r
			judge(rec, c, r, "alone")
		})
		if !ended {
			_ = dump
			rec.Violate("does-not-end", "selection did not end within 60s: %s", c.desc)
			rec.Finish()
		}
		key := c.desc
		rec.Eval(key)
		if i < 4 {
			rec.Sample(c.desc)
		}
	}
	// the same selections, many at a time
	var wg sync.WaitGroup
	workers := 8
	rounds := rec.N(3, 12)
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for k := 0; k < rounds; k++ {
				for i := w; i < n; i += 2 {
					j := (i*7 + k*13 + w) % n
					r, ok, site, msg := run(cases[j])
					if !ok {
						rec.Violate("concurrent-panic:"+site, "panic %s: %s", msg, cases[j].desc)
						return
					}
					judge(rec, cases[j], r, "concurrent")
					if (r.err == nil) != (seq[j].err == nil) || r.change != seq[j].change || len(r.coins) != len(seq[j].coins) {
						rec.Violate("concurrent-differs", "alone %d coins change %d, concurrently %d coins change %d: %s",
							len(seq[j].coins), seq[j].change, len(r.coins), r.change, cases[j].desc)
					}
					rec.Count("concurrent_runs", 1)
				}
			}
		}(w)
	}
	wg.Wait()
	rec.NeedAtLeast("selections", 1000)
	rec.NeedAtLeast("multi_coin", 300)
	rec.NeedAtLeast("concurrent_runs", 10000)
	rec.Finish()
}
