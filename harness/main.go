// Command vh is the conformance harness: it drives the real dash-mpd code and
// records what it does (record), or steps behaviours exported by TLC through
// it (replay).  It contains no verdict logic about the library of its own:
// recorded results are judged by TLC, replayed results are compared with the
// results TLC computed.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"strconv"
	"sync/atomic"
	"time"
)

type cmdFn func(args []string) error

var cmds = map[string]cmdFn{}

func register(name string, f cmdFn) { cmds[name] = f }

func seed() int64 {
	n, _ := strconv.ParseInt(os.Getenv("VV_SEED"), 10, 64)
	return n
}

func thorough() bool { return os.Getenv("VV_TIER") == "thorough" }

func scale(quick, deep int) int {
	if thorough() {
		return deep
	}
	return quick
}

// ---------------------------------------------------------------- watchdog

var (
	opStart atomic.Int64
	opDesc  atomic.Value // string or func() string
	journal = os.Getenv("VV_JOURNAL")
	opLimit = 30 * time.Second
)

// guard runs one operation of the library; panics are returned as text,
// hangs end the process (the driver re-runs with a journal to confirm).
func guard(desc func() string, f func()) (pan string) {
	if journal != "" {
		_ = os.WriteFile(journal, []byte(desc()), 0o644)
	}
	opDesc.Store(desc)
	opStart.Store(time.Now().UnixNano())
	defer func() {
		opStart.Store(0)
		if r := recover(); r != nil {
			pan = fmt.Sprint(r)
			if pan == "" {
				pan = "panic"
			}
		}
	}()
	f()
	return ""
}

func watchdog() {
	for {
		time.Sleep(500 * time.Millisecond)
		t := opStart.Load()
		if t != 0 && time.Since(time.Unix(0, t)) > opLimit {
			fmt.Fprintln(os.Stderr, "VV-HANG: an operation did not return")
			if d, ok := opDesc.Load().(func() string); ok {
				s := d()
				if len(s) > 2000 {
					s = s[:2000]
				}
				fmt.Fprintln(os.Stderr, s)
			}
			os.Exit(7)
		}
	}
}

// ---------------------------------------------------------------- ndjson

type recWriter struct {
	f *os.File
	w *bufio.Writer
	n int
}

func newRecWriter(path string) (*recWriter, error) {
	f, err := os.Create(path)
	if err != nil {
		return nil, err
	}
	return &recWriter{f: f, w: bufio.NewWriterSize(f, 1<<20)}, nil
}

func (r *recWriter) put(v any) {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	r.w.Write(b)
	r.w.WriteByte('\n')
	r.n++
}

func (r *recWriter) close() error {
	if err := r.w.Flush(); err != nil {
		return err
	}
	return r.f.Close()
}

// readCases reads an ndjson file written by TLC.
func readCases(path string, f func(raw []byte) error) error {
	fh, err := os.Open(path)
	if err != nil {
		return err
	}
	defer fh.Close()
	sc := bufio.NewScanner(fh)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for sc.Scan() {
		if len(sc.Bytes()) == 0 {
			continue
		}
		if err := f(sc.Bytes()); err != nil {
			return err
		}
	}
	return sc.Err()
}

type summary struct {
	Summary bool  `json:"summary"`
	Cases   int   `json:"cases"`
	Checks  int   `json:"checks"`
	Samples []any `json:"samples"`
}

type mismatch struct {
	What string `json:"what"`
	Case any    `json:"case"`
	Got  any    `json:"got"`
	Want any    `json:"want"`
}

func newRng(salt int64) *rand.Rand { return rand.New(rand.NewSource(seed()*1000003 + salt)) }

func main() {
	debug.SetMaxStack(256 << 20)
	// what the library does depends on no local time zone
	time.Local = time.FixedZone("here", []int{0, 20700, -12600, 50400}[seed()&3])
	go watchdog()
	if len(os.Args) < 2 || cmds[os.Args[1]] == nil {
		fmt.Fprintln(os.Stderr, "unknown command")
		os.Exit(2)
	}
	if err := cmds[os.Args[1]](os.Args[2:]); err != nil {
		fmt.Fprintln(os.Stderr, "vh:", err)
		os.Exit(4)
	}
}
