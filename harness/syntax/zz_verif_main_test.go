package syntax

// Conformance harness: replays the behaviours printed by TLC into the real
// code.  VERIF_OP selects the operation, VERIF_IN / VERIF_OUT name the input
// (one case per line) and the report (one JSON object per deviating case, and
// a final "done" record).

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

// A vOp checks one case and returns a description of the deviation, or "".
type vOp func(line []byte) (deviation string, detail any)

var vOps = map[string]vOp{}

type vReport struct {
	I      int    `json:"i"`
	What   string `json:"what"`
	Kind   string `json:"kind"`
	Detail any    `json:"detail,omitempty"`
	Case   string `json:"case,omitempty"`
}

func vRunCase(op vOp, line []byte) (what, kind string, detail any) {
	defer func() {
		if r := recover(); r != nil {
			what, kind = fmt.Sprintf("panic: %v", r), "panic"
			detail = vStack(debug.Stack())
		}
	}()
	dev, det := op(line)
	if dev != "" {
		return dev, "deviation", det
	}
	return "", "", nil
}

// The functions of the code under test on the stack of a panic.
func vStack(b []byte) []string {
	var fs []string
	for _, l := range strings.Split(string(b), "\n") {
		if strings.Contains(l, "/repo/") || strings.Contains(l, ".go:") {
			l = strings.TrimSpace(l)
			if i := strings.Index(l, " +0x"); i > 0 {
				l = l[:i]
			}
			if !strings.Contains(l, "zz_verif") && !strings.Contains(l, "/src/runtime/") {
				fs = append(fs, l)
			}
			if len(fs) >= 6 {
				break
			}
		}
	}
	return fs
}

func TestVerif(t *testing.T) {
	name := os.Getenv("VERIF_OP")
	if name == "" {
		t.Skip("VERIF_OP not set")
	}
	op, ok := vOps[name]
	if !ok {
		t.Fatalf("unknown op %q", name)
	}
	debug.SetMaxStack(512 << 20)
	limit := 30 * time.Second
	if s := os.Getenv("VERIF_CASE_LIMIT"); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			limit = time.Duration(n) * time.Second
		}
	}
	in, err := os.Open(os.Getenv("VERIF_IN"))
	if err != nil {
		t.Fatal(err)
	}
	defer in.Close()
	out, err := os.Create(os.Getenv("VERIF_OUT"))
	if err != nil {
		t.Fatal(err)
	}
	defer out.Close()
	prog, err := os.Create(os.Getenv("VERIF_OUT") + ".progress")
	if err != nil {
		t.Fatal(err)
	}
	defer prog.Close()
	nw := runtime.NumCPU()
	if s := os.Getenv("VERIF_WORKERS"); s != "" {
		nw, _ = strconv.Atoi(s)
	}
	var mu sync.Mutex
	nrep := 0
	report := func(r vReport) {
		mu.Lock()
		defer mu.Unlock()
		nrep++
		if nrep > 200 {
			return
		}
		buf, err := json.Marshal(r)
		if err != nil {
			buf, _ = json.Marshal(vReport{I: r.I, What: r.What, Kind: r.Kind})
		}
		out.Write(append(buf, '\n'))
	}
	type job struct {
		i    int
		line []byte
	}
	jobs := make(chan job, 64)
	cur := make([]atomic.Int64, nw)   // index of the running case + 1
	since := make([]atomic.Int64, nw) // its start
	var done atomic.Int64
	var wg sync.WaitGroup
	for w := 0; w < nw; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range jobs {
				since[w].Store(time.Now().UnixNano())
				cur[w].Store(int64(j.i) + 1)
				var b [12]byte
				copy(b[:], fmt.Sprintf("%-11d\n", j.i))
				prog.WriteAt(b[:], int64(w)*12)
				what, kind, detail := vRunCase(op, j.line)
				if what != "" {
					report(vReport{I: j.i, What: what, Kind: kind, Detail: detail, Case: string(j.line)})
				}
				cur[w].Store(0)
				done.Add(1)
			}
			var b [12]byte
			copy(b[:], fmt.Sprintf("%-11d\n", -1))
			prog.WriteAt(b[:], int64(w)*12)
		}()
	}
	stop := make(chan bool)
	go func() {
		for {
			select {
			case <-stop:
				return
			case <-time.After(200 * time.Millisecond):
			}
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			for w := 0; w < nw; w++ {
				i := cur[w].Load()
				if i == 0 {
					continue
				}
				el := time.Since(time.Unix(0, since[w].Load()))
				if el > limit || (ms.HeapAlloc > 6<<30 && el > 2*time.Second) {
					report(vReport{I: int(i) - 1, What: fmt.Sprintf("no result after %v (heap %d MB)", el.Round(time.Second), ms.HeapAlloc>>20), Kind: "hang"})
					out.Sync()
					os.Exit(3)
				}
			}
		}
	}()
	sc := bufio.NewScanner(in)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	n := 0
	for sc.Scan() {
		line := append([]byte(nil), sc.Bytes()...)
		jobs <- job{n, line}
		n++
	}
	close(jobs)
	wg.Wait()
	close(stop)
	buf, _ := json.Marshal(map[string]any{"done": done.Load(), "deviations": nrep, "stats": vStats()})
	out.Write(append(buf, '\n'))
}

// Counters that operations may bump, reported at the end.
var (
	vStatMu sync.Mutex
	vStat   = map[string]int{}
)

func vCount(name string) {
	vStatMu.Lock()
	vStat[name]++
	vStatMu.Unlock()
}

func vStats() map[string]int {
	vStatMu.Lock()
	defer vStatMu.Unlock()
	return vStat
}

// vText decodes a text given as code points.
func vText(cps []int) string {
	rs := make([]rune, len(cps))
	for i, c := range cps {
		rs[i] = rune(c)
	}
	return string(rs)
}
