// Monitor of C10: macaroon authorisation.
package main

import (
	"sync"

	"github.com/tdex-network/tdex-daemon/internal/zzverif/sim"
)

func main() {
	r := sim.Start("a call reaches its handler iff its macaroon is this daemon's, intact, its caveats hold and it grants the method's permission")
	defer r.Finish()
	sim.UseFastEncrypter()
	var wg sync.WaitGroup
	wg.Add(1)
	go func() { defer wg.Done(); r.GuardV("panic", "rpc", func() { rpcWorld(r, r.Rng("rpc")); failClosed(r) }) }()
	n := r.N(6, 10)
	for w := 0; w < n; w++ {
		w := w
		wg.Add(1)
		rng := r.Rng("svc" + string(rune('a'+w)))
		go func() {
			defer wg.Done()
			r.GuardV("panic", "service", func() {
				for i := 0; i < r.N(2, 15); i++ {
					serviceWorld(r, rng.Fork(), r.N(14, 40))
				}
				for i := 0; i < r.N(1, 6); i++ {
					rekeyStorm(r, rng.Fork())
				}
			})
		}()
	}
	wg.Wait()
	r.NeedAtLeast("calls reached", 400)
	r.NeedAtLeast("calls denied", 1500)
	r.NeedAtLeast("validations accepted", 300)
	r.NeedAtLeast("validations refused", 800)
	r.NeedAtLeast("password changes", 4)
	r.NeedAtLeast("root keys replaced", 4)
}
