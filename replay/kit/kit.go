// Package verifkit: shared parts of the replay harnesses.
package verifkit

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"strconv"
	"sync"
	"testing"
	"time"
)

// K records what a search covered and its first failing input.
type K struct {
	T        *testing.T
	Rng      *rand.Rand
	Thorough bool
	mu       sync.Mutex
	s        stats
	seen     map[string]bool
	stop     time.Time
}

type stats struct {
	Evals, Distinct int
	Rule            string
	Samples         []string
	Fail, Key       string
}

func New(t *testing.T, rule string) *K {
	seed, err := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if err != nil {
		seed = 1
	}
	k := &K{T: t, Rng: rand.New(rand.NewSource(int64(seed))), Thorough: os.Getenv("VERIF_TIER") == "thorough", seen: map[string]bool{}}
	k.s.Rule = rule
	d := 60 * time.Second
	if k.Thorough {
		d = 600 * time.Second
	}
	k.stop = time.Now().Add(d)
	t.Cleanup(k.flush)
	return k
}

// More says whether to go on with random case n of at most q (thorough: 20q).
func (k *K) More(n, q int) bool {
	if k.Thorough {
		q *= 20
	}
	return n < q && time.Now().Before(k.stop)
}

// Case counts one evaluated case; key identifies it, "" if trivial.
func (k *K) Case(key string) {
	k.mu.Lock()
	defer k.mu.Unlock()
	k.s.Evals++
	if key == "" {
		return
	}
	if len(k.seen) < 200000 && !k.seen[key] {
		k.seen[key] = true
		k.s.Distinct++
		if len(k.s.Samples) < 4 && len(key) < 400 {
			k.s.Samples = append(k.s.Samples, key)
		}
	}
}

func (k *K) flush() {
	k.mu.Lock()
	defer k.mu.Unlock()
	f := os.Getenv("VERIF_STATS")
	if f == "" {
		return
	}
	d, _ := json.Marshal(k.s)
	os.WriteFile(f, d, 0o644)
}

// Fail reports a failing input and ends the test.
func (k *K) Fail(key, format string, args ...interface{}) {
	k.T.Helper()
	m := fmt.Sprintf(format, args...)
	k.mu.Lock()
	if k.s.Fail == "" {
		k.s.Fail, k.s.Key = m, key
	}
	k.mu.Unlock()
	k.flush()
	k.T.Fatalf("FAILING INPUT: %s", m)
}

// Do runs f on one input: a panic or a hang is a failure on that input.
func (k *K) Do(input string, f func()) {
	k.T.Helper()
	k.DoWithin(100*time.Second, input, f)
}

func (k *K) DoWithin(d time.Duration, input string, f func()) {
	k.T.Helper()
	w := time.AfterFunc(d, func() {
		k.mu.Lock()
		k.s.Fail, k.s.Key = "does not end: "+input, "hang"
		k.mu.Unlock()
		k.flush()
		fmt.Println("FAILING INPUT: does not end:", input)
		os.Exit(1)
	})
	defer w.Stop()
	var pan interface{}
	var st []byte
	done := false
	func() {
		defer func() {
			if !done {
				pan = recover()
				st = debug.Stack()
			}
		}()
		f()
		done = true
	}()
	if pan != nil {
		k.Fail("panic", "panic %v on %s\n%s", pan, input, st)
	}
}

// TempDir is a fresh scratch directory.
func (k *K) TempDir() string {
	d, err := os.MkdirTemp("", "case-")
	if err != nil {
		k.T.Fatal(err)
	}
	k.T.Cleanup(func() { os.RemoveAll(d) })
	return d
}
