package syntax

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/mewmew/typast/internal/option"
)

func init() {
	vOps["paths"] = vPaths
	vOps["interner"] = vInterner
	vOps["race"] = vRace
}

var vUnique atomic.Int64

// How often every set of programs is run.
var vRaceTimes = func() int {
	if n, err := strconv.Atoi(os.Getenv("VERIF_RACE_TIMES")); err == nil {
		return n
	}
	return 1
}()

func vSome(s string) option.Option[*PackageSpec] {
	if s == "" {
		return option.None[*PackageSpec]()
	}
	spec, err := ParsePackageSpec(s)
	if err != nil {
		panic("harness: " + err.Error())
	}
	return option.Some(spec)
}

func vSpecText(o option.Option[*PackageSpec]) string {
	if s, ok := o.Get(); ok {
		return fmt.Sprintf("@%s/%s:%d.%d.%d", s.Namespace, s.Name, s.Version.Major, s.Version.Minor, s.Version.Patch)
	}
	return ""
}

// vPaths replays [[op, text] ...], [path after each].
func vPaths(line []byte) (string, any) {
	var raw [2]json.RawMessage
	if err := json.Unmarshal(line, &raw); err != nil {
		return "harness: " + err.Error(), nil
	}
	var ops [][2]json.RawMessage
	var want [][]int
	if err := json.Unmarshal(raw[0], &ops); err != nil {
		return "harness: " + err.Error(), nil
	}
	if err := json.Unmarshal(raw[1], &want); err != nil {
		return "harness: " + err.Error(), nil
	}
	var told []string
	// the same for paths alone, files of the project and files of a package
	for way := 0; way < 3; way++ {
		told = nil
		var p *VirtualPath
		var id FileID
		pkg := ""
		if way == 2 {
			pkg = "@ns/pkg:1.2.3"
		}
		for i, o := range ops {
			var op string
			var cps []int
			json.Unmarshal(o[0], &op)
			json.Unmarshal(o[1], &cps)
			arg := vText(cps)
			told = append(told, fmt.Sprintf("%s %q", op, arg))
			w := vText(want[i])
			switch op {
			case "new":
				p = NewVirtualPath(arg)
				if way > 0 {
					id = NewFileID(vSome(pkg), p)
				}
			case "join":
				if way == 0 {
					p = p.Join(arg)
				} else {
					if i%2 == 1 {
						sp, err := NewSpanPacked(id, 100).ResolvePath(arg)
						if err != nil {
							return fmt.Sprintf("%v: resolving against a span failed: %v", told, err), nil
						}
						if sp != id.Join(arg) {
							return fmt.Sprintf("%v: resolving against a span and against its file differ", told), nil
						}
					}
					id = id.Join(arg)
				}
			case "ext":
				if way == 0 {
					p = p.WithExtension(arg)
				} else {
					id = id.WithExtension(arg)
				}
			}
			if way > 0 {
				p = id.VPath()
				if s := vSpecText(id.Spec()); s != pkg {
					return fmt.Sprintf("%v: the package is %q, not %q", told, s, pkg), nil
				}
				if again := NewFileID(vSome(pkg), NewVirtualPath(w)); again != id && p.Path == w {
					return fmt.Sprintf("%v: the identity is not that of %q", told, w), nil
				}
			}
			if p.Path != w {
				return fmt.Sprintf("%v gives %q, not %q", told, p.Path, w), nil
			}
		}
	}
	if _, err := NewDetachedSpan().ResolvePath("a"); err == nil {
		return "resolving against a detached span succeeds", nil
	}
	return "", nil
}

// The number of identities taken before the first history.
var vFill = func() int {
	n, _ := strconv.Atoi(os.Getenv("VERIF_FILL"))
	return n
}()
var vFillOnce sync.Once

// vInterner replays [packages, [[op, operand, text, entry] ...], entries].
func vInterner(line []byte) (string, any) {
	var raw [3]json.RawMessage
	var pkgs []string
	var hist [][4]json.RawMessage
	var ents [][2]json.RawMessage
	if err := json.Unmarshal(line, &raw); err != nil {
		return "harness: " + err.Error(), nil
	}
	json.Unmarshal(raw[0], &pkgs)
	if err := json.Unmarshal(raw[1], &hist); err != nil {
		return "harness: " + err.Error(), nil
	}
	if err := json.Unmarshal(raw[2], &ents); err != nil {
		return "harness: " + err.Error(), nil
	}
	// every history has packages of its own
	uniq := fmt.Sprintf("u%d", vUnique.Add(1))
	spec := func(k int) string {
		if k == 1 {
			return ""
		}
		return strings.ReplaceAll(pkgs[k-1], "NS", uniq)
	}
	if len(hist) == 0 {
		return "", nil
	}
	vFillOnce.Do(func() {
		for i := 0; i < vFill; i++ {
			if i%3 == 0 {
				NewFakeFileID(NewVirtualPath("fill"))
			} else {
				NewFileID(vSome(""), NewVirtualPath(fmt.Sprintf("/fill/%d", i)))
			}
		}
	})
	// (project files may have been created by an earlier history already)
	wantPath := func(e int) string {
		var cps []int
		json.Unmarshal(ents[e-1][1], &cps)
		return vText(cps)
	}
	ids := map[int]FileID{}
	back := map[FileID]int{}
	do := func(op string, a int, arg string) (id FileID) {
		switch op {
		case "new", "fake":
			o := vSome(spec(a))
			p := NewVirtualPath(arg)
			if op == "new" {
				id = NewFileID(o, p)
			} else {
				id = NewFakeFileID(p)
			}
			// what was passed in is the caller's again
			p.Path = "/scribbled"
			if s, ok := o.Get(); ok {
				s.Name, s.Namespace, s.Version.Minor = "scribbled", "over", 99
			}
		case "join":
			id = ids[a].Join(arg)
		case "ext":
			id = ids[a].WithExtension(arg)
		}
		return id
	}
	var told []string
	for _, h := range hist {
		var op string
		var a, e int
		var cps []int
		json.Unmarshal(h[0], &op)
		json.Unmarshal(h[1], &a)
		json.Unmarshal(h[2], &cps)
		json.Unmarshal(h[3], &e)
		arg := vText(cps)
		told = append(told, fmt.Sprintf("%s %d %q", op, a, arg))
		var id FileID
		refused := false
		func() {
			defer func() {
				if e == 0 && recover() != nil {
					refused = true
				}
			}()
			id = do(op, a, arg)
		}()
		if e == 0 && refused {
			continue
		}
		if e == 0 {
			return fmt.Sprintf("%v: all identities are used up, yet %d is given", told, id), nil
		}
		if old, ok := ids[e]; ok && old != id {
			return fmt.Sprintf("%v: identity %d is created again as %d", told, old, id), nil
		}
		if old, ok := back[id]; ok && old != e {
			return fmt.Sprintf("%v: entries %d and %d share an identity", told, old, e), nil
		}
		ids[e], back[id] = id, e
		for e, id := range ids {
			if id == 0 {
				return fmt.Sprintf("%v: identity 0", told), nil
			}
			var k int
			json.Unmarshal(ents[e-1][0], &k)
			if s := vSpecText(id.Spec()); s != spec(k) {
				return fmt.Sprintf("%v: entry %d has package %q, not %q", told, e, s, spec(k)), nil
			}
			if p := id.VPath().Path; p != wantPath(e) {
				return fmt.Sprintf("%v: entry %d has path %q, not %q", told, e, p, wantPath(e)), nil
			}
			if FileIDFromUint16(id.Uint16()) != id {
				return fmt.Sprintf("%v: entry %d is not restored from its number", told, e), nil
			}
		}
	}
	return "", nil
}

// vRace runs [programs, [key or 0 for unique per number], looked-up keys].
func vRace(line []byte) (string, any) {
	var raw [3]json.RawMessage
	var progs [][][]json.RawMessage
	var want [][]int
	if err := json.Unmarshal(line, &raw); err != nil {
		return "harness: " + err.Error(), nil
	}
	if err := json.Unmarshal(raw[0], &progs); err != nil {
		return "harness: " + err.Error(), nil
	}
	if err := json.Unmarshal(raw[1], &want); err != nil {
		return "harness: " + err.Error(), nil
	}
	type op struct {
		name string
		k    int
	}
	ps := make([][]op, len(progs))
	for t, p := range progs {
		for _, o := range p {
			var x op
			json.Unmarshal(o[0], &x.name)
			if len(o) > 1 {
				json.Unmarshal(o[1], &x.k)
			}
			ps[t] = append(ps[t], x)
		}
	}
	for r := 0; r < vRaceTimes; r++ {
		u := vUnique.Add(1)
		key := func(k int) (option.Option[*PackageSpec], *VirtualPath) {
			if k%2 == 0 {
				return vSome(fmt.Sprintf("@r%d/p:0.0.%d", u, k)), NewVirtualPath("/f")
			}
			return vSome(""), NewVirtualPath(fmt.Sprintf("/r%d/f%d", u, k))
		}
		ids := make([][]FileID, len(ps))
		bad := make([]string, len(ps))
		var ready, done sync.WaitGroup
		var gate atomic.Bool
		var waiting atomic.Int64
		for t := range ps {
			ready.Add(1)
			done.Add(1)
			go func() {
				defer done.Done()
				defer func() {
					if x := recover(); x != nil {
						bad[t] = fmt.Sprintf("panic: %v", x)
					}
				}()
				type in struct {
					s option.Option[*PackageSpec]
					p *VirtualPath
				}
				var ins []in
				for _, o := range ps[t] {
					s, p := key(o.k)
					ins = append(ins, in{s, p})
				}
				ready.Done()
				waiting.Add(1)
				for n := 0; !gate.Load(); n++ {
					if n > 1000 {
						runtime.Gosched()
					}
				}
				last := 0
				for i, o := range ps[t] {
					switch o.name {
					case "new":
						ids[t] = append(ids[t], NewFileID(ins[i].s, ins[i].p))
						last = o.k
					case "fake":
						ids[t] = append(ids[t], NewFakeFileID(ins[i].p))
						last = -o.k
					case "get":
						id := ids[t][len(ids[t])-1]
						k := last
						if k < 0 {
							k = -k
						}
						ws, wp := key(k)
						if got := id.VPath().Path; got != wp.Path {
							bad[t] = fmt.Sprintf("the identity of %q resolves to %q", wp.Path, got)
						}
						if g, w := vSpecText(id.Spec()), vSpecText(ws); g != w && last > 0 {
							bad[t] = fmt.Sprintf("the identity of package %q resolves to %q", w, g)
						}
					}
				}
			}()
		}
		ready.Wait()
		for waiting.Load() < int64(len(ps)) {
			runtime.Gosched()
		}
		gate.Store(true)
		done.Wait()
		for _, b := range bad {
			if b != "" {
				return fmt.Sprintf("running %v together: %s", ps, b), nil
			}
		}
		for t := range ids {
			for i := range ids[t] {
				for v := range ids {
					for j := range ids[v] {
						same := t == v && i == j || want[t][i] != 0 && want[t][i] == want[v][j]
						if (ids[t][i] == ids[v][j]) != same {
							return fmt.Sprintf("running %v together: the identities are %v, which of them are equal should be by %v", ps, ids, want), nil
						}
					}
				}
			}
		}
		vCount("runs")
	}
	return "", nil
}
