package sim

import (
	"fmt"
	"os"
	"path/filepath"

	"github.com/tdex-network/tdex-daemon/internal/core/ports"
	dbbadger "github.com/tdex-network/tdex-daemon/internal/infrastructure/storage/db/badger"
	"github.com/tdex-network/tdex-daemon/internal/infrastructure/storage/db/inmemory"
)

// OpenRepo opens a repository manager: backend is inmemory, badger-mem or
// badger-disk (in the run's scratch directory, numbered).
func OpenRepo(r *Rec, backend string, n int) ports.RepoManager {
	if backend == "inmemory" {
		return inmemory.NewRepoManager()
	}
	dir := ""
	if backend == "badger-disk" {
		dir = filepath.Join(r.Dir, fmt.Sprintf("db%d", n))
	}
	rm, err := OpenBadger(dir)
	if err != nil {
		panic("harness: " + err.Error())
	}
	return rm
}

// OpenBadger opens the persistent storage, creating its directories as the
// daemon does.
func OpenBadger(dir string) (ports.RepoManager, error) {
	if dir != "" {
		os.MkdirAll(filepath.Join(dir, "main"), 0700)
		os.MkdirAll(filepath.Join(dir, "prices"), 0700)
	}
	return dbbadger.NewRepoManager(dir, nil)
}
