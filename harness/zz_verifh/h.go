// props: *

// Package zz_verifh is shared by the executable contracts in /verif/harness.
package zz_verifh

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"testing"

	"github.com/rs/zerolog"
)

func init() { zerolog.SetGlobalLevel(zerolog.Disabled) }

func Seed() int64 {
	n, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return n
}

// Rand returns a generator that depends only on VERIF_SEED and the salt.
func Rand(salt int64) *rand.Rand { return rand.New(rand.NewSource(Seed()*1000003 + salt)) }

// N scales a case count by VERIF_FACTOR.
func N(base int) int {
	f, err := strconv.Atoi(os.Getenv("VERIF_FACTOR"))
	if err != nil || f < 1 {
		f = 1
	}
	return base * f
}

func J(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprintf("%+v", v)
	}
	return string(b)
}

// Fail reports a counterexample.
func Fail(t *testing.T, input interface{}, format string, args ...interface{}) {
	t.Helper()
	s, ok := input.(string)
	if !ok {
		s = J(input)
	}
	t.Fatalf("VERIF-FAIL %s\n  failing input: %s", fmt.Sprintf(format, args...), s)
}

// Stat records how many cases a test evaluated.
func Stat(t *testing.T, n int, what string) {
	fmt.Printf("VERIF-STAT %s: %d cases (%s)\n", t.Name(), n, what)
}

// Guard turns a panic of f into a counterexample.
func Guard(t *testing.T, input interface{}, f func()) {
	t.Helper()
	defer func() {
		t.Helper()
		if r := recover(); r != nil {
			Fail(t, input, "panic: %v", r)
		}
	}()
	f()
}

// NoPanic runs f and returns the recovered value, if any.
func NoPanic(f func()) (r interface{}) {
	defer func() { r = recover() }()
	f()
	return nil
}

func Pick[T any](r *rand.Rand, xs []T) T { return xs[r.Intn(len(xs))] }
