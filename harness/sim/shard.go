package sim

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"sync"
)

// Shard tells which shard this process is, -1 for the process the driver
// started.
func Shard() int {
	s, err := strconv.Atoi(os.Getenv("VERIF_SHARD"))
	if err != nil {
		return -1
	}
	return s
}

// RunShards runs the monitor again in n processes, each with its own
// VERIF_SHARD and seed, and merges what they observed. Processes rather than
// goroutines because the repository serialises proposals by process.
func (r *Rec) RunShards(n int) {
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			dir := filepath.Join(r.Dir, fmt.Sprintf("shard%d", i))
			os.MkdirAll(dir, 0755)
			out := filepath.Join(dir, "out.json")
			cmd := exec.Command(os.Getenv("VERIF_BIN"))
			cmd.Dir = dir
			cmd.Env = append(os.Environ(), "VERIF_SHARD="+strconv.Itoa(i), "VERIF_OUT="+out,
				"VERIF_SCRATCH="+dir, "VERIF_PROF=", "VERIF_SEED="+strconv.FormatUint(r.Seed*1000+uint64(i), 10))
			var eb bytes.Buffer
			cmd.Stderr = &eb
			cmd.Run()
			var res result
			b, err := ioutil.ReadFile(out)
			if err == nil {
				err = json.Unmarshal(b, &res)
			}
			r.merge(&res)
			if err != nil || !res.Done {
				// the driver judges the crash of a shard as that of the monitor
				r.mu.Lock()
				r.flushLocked()
				os.Stderr.Write(eb.Bytes())
				os.Exit(2)
			}
			os.RemoveAll(dir)
		}(i)
	}
	wg.Wait()
}

func (r *Rec) merge(s *result) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.evals += s.Evals
	for _, k := range s.Keys {
		r.distinct[k] = struct{}{}
	}
	for k, v := range s.Counters {
		r.counters[k] += v
	}
	for _, x := range s.Samples {
		if len(r.samples) < 6 {
			r.samples = append(r.samples, x)
		}
	}
	for _, v := range s.Violations {
		r.vcount[v.Sig]++
		if r.vcount[v.Sig] <= 3 {
			r.violations = append(r.violations, v)
		}
	}
	r.incon = append(r.incon, s.Incon...)
}
