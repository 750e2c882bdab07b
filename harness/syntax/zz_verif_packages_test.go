package syntax

import (
	"encoding/json"
	"fmt"
)

func init() { vOps["packages"] = vPackages }

func vPackages(line []byte) (string, any) {
	var raw []json.RawMessage
	if err := json.Unmarshal(line, &raw); err != nil {
		return "harness: " + err.Error(), nil
	}
	var what string
	var cps []int
	json.Unmarshal(raw[0], &what)
	json.Unmarshal(raw[1], &cps)
	text := vText(cps)
	if what == "compare" {
		var b []int
		var ord int
		json.Unmarshal(raw[2], &b)
		json.Unmarshal(raw[3], &ord)
		v, err := ParsePackageVersion(text)
		if err != nil {
			return fmt.Sprintf("version %q is not accepted: %v", text, err), nil
		}
		x, err := ParseVersionBound(vText(b))
		if err != nil {
			return fmt.Sprintf("bound %q is not accepted: %v", vText(b), err), nil
		}
		for _, c := range []struct {
			name      string
			got, want bool
		}{
			{"==", v.MatchesEQ(x), ord == 0}, {">", v.MatchesGT(x), ord > 0}, {"<", v.MatchesLT(x), ord < 0},
			{">=", v.MatchesGE(x), ord >= 0}, {"<=", v.MatchesLE(x), ord <= 0},
		} {
			if c.got != c.want {
				return fmt.Sprintf("%s %s %s is %v", text, c.name, vText(b), c.got), nil
			}
		}
		return "", nil
	}
	var want map[string]struct {
		Ok   bool    `json:"ok"`
		Ns   []int   `json:"ns"`
		Name []int   `json:"name"`
		V    [][]int `json:"v"`
		Out  []int   `json:"out"`
	}
	if err := json.Unmarshal(raw[2], &want); err != nil {
		return "harness: " + err.Error(), nil
	}
	for _, kind := range []string{"spec", "bare", "version", "bound"} {
		w := want[kind]
		// read gives the parts of a value: namespace, name, numbers, printed
		read := func(s string) (parts []string, err error) {
			ver := func(v PackageVersion) []string {
				return []string{fmt.Sprint(v.Major), fmt.Sprint(v.Minor), fmt.Sprint(v.Patch)}
			}
			switch kind {
			case "spec":
				x, err := ParsePackageSpec(s)
				if err != nil {
					return nil, err
				}
				bare := x.Versionless()
				if back := bare.At(x.Version); *back != *x {
					return nil, fmt.Errorf("harness-visible: %v without and with its version is %v", x, back)
				}
				if *x.Clone() != *x {
					return nil, fmt.Errorf("harness-visible: a copy of %v differs", x)
				}
				return append(append([]string{x.Namespace, x.Name}, ver(x.Version)...), x.String()), nil
			case "bare":
				x, err := ParseVersionlessPackageSpec(s)
				if err != nil {
					return nil, err
				}
				return []string{x.Namespace, x.Name, x.String()}, nil
			case "version":
				x, err := ParsePackageVersion(s)
				var y PackageVersion
				if e := y.UnmarshalText([]byte(s)); (e == nil) != (err == nil) || e == nil && x != y {
					return nil, fmt.Errorf("harness-visible: %q is read differently from text", s)
				}
				if err != nil {
					return nil, err
				}
				return append(ver(x), x.String()), nil
			case "bound":
				x, err := ParseVersionBound(s)
				var y VersionBound
				if e := y.UnmarshalText([]byte(s)); (e == nil) != (err == nil) || e == nil && x.String() != y.String() {
					return nil, fmt.Errorf("harness-visible: %q is read differently from text", s)
				}
				if err != nil {
					return nil, err
				}
				parts = []string{fmt.Sprint(x.Major)}
				if x.Minor != nil {
					parts = append(parts, fmt.Sprint(*x.Minor))
				}
				if x.Patch != nil {
					parts = append(parts, fmt.Sprint(*x.Patch))
				}
				return append(parts, x.String()), nil
			}
			panic("unreachable")
		}
		parts, err := read(text)
		if err != nil && len(err.Error()) > 16 && err.Error()[:16] == "harness-visible:" {
			return err.Error()[17:], nil
		}
		if (err == nil) != w.Ok {
			return fmt.Sprintf("%q as %s: error %v, accepted in the specification: %v", text, kind, err, w.Ok), nil
		}
		if err != nil {
			continue
		}
		var exp []string
		if kind == "spec" || kind == "bare" {
			exp = append(exp, vText(w.Ns), vText(w.Name))
		}
		for _, d := range w.V {
			exp = append(exp, vText(d))
		}
		exp = append(exp, vText(w.Out))
		if fmt.Sprint(parts) != fmt.Sprint(exp) {
			return fmt.Sprintf("%q as %s: got %q, not %q", text, kind, parts, exp), nil
		}
		again, err := read(vText(w.Out))
		if err != nil || fmt.Sprint(again) != fmt.Sprint(parts) {
			return fmt.Sprintf("%q as %s is printed as %q, which is read as %q (%v)", text, kind, vText(w.Out), again, err), nil
		}
	}
	return "", nil
}
