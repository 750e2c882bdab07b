package syntax

import (
	"encoding/json"
	"fmt"
	"slices"
	"strings"
)

func init() { vOps["manifest"] = vManifest }

type vManifestCase struct {
	Toml     string
	Accepted bool
	Template bool
	Str      map[string]string   // "section.field"
	Arr      map[string][]string // "section.field"
	Version  []string            // digits
	Compiler []string
	Specs    []struct {
		Name, Version string
		Fits          bool
	}
}

// vManifest parses a manifest and compares what it says.
func vManifest(line []byte) (string, any) {
	var c vManifestCase
	if err := json.Unmarshal(line, &c); err != nil {
		return "harness: " + err.Error(), nil
	}
	m, err := ParsePackageManifestFromToml(c.Toml)
	if (err == nil) != c.Accepted {
		return fmt.Sprintf("accepted: %v (%s), specified %v, for\n%s", err == nil, strings.SplitN(fmt.Sprint(err), "\n", 2)[0], c.Accepted, c.Toml), nil
	}
	if err != nil {
		return "", nil
	}
	var bad []string
	str := func(f, got string) {
		if got != c.Str[f] {
			bad = append(bad, fmt.Sprintf("%s is %q, specified %q", f, got, c.Str[f]))
		}
	}
	arr := func(f string, got []string) {
		if !slices.Equal(got, c.Arr[f]) {
			bad = append(bad, fmt.Sprintf("%s is %q, specified %q", f, got, c.Arr[f]))
		}
	}
	p := m.Pkg
	str("package.name", p.Name)
	str("package.entrypoint", p.Entrypoint)
	str("package.license", p.License)
	str("package.description", p.Description)
	str("package.homepage", p.Homepage)
	str("package.repository", p.Repository)
	arr("package.authors", p.Authors)
	arr("package.keywords", p.Keywords)
	arr("package.categories", p.Categories)
	arr("package.disciplines", p.Disciplines)
	arr("package.exclude", p.Exclude)
	if v := p.Version.String(); v != strings.Join(c.Version, ".") {
		bad = append(bad, fmt.Sprintf("the version is %s, specified %v", v, c.Version))
	}
	comp := []string{}
	if b := p.Compiler; b != nil {
		comp = append(comp, fmt.Sprint(b.Major))
		if b.Minor != nil {
			comp = append(comp, fmt.Sprint(*b.Minor))
		}
		if b.Patch != nil {
			comp = append(comp, fmt.Sprint(*b.Patch))
		}
	}
	if !slices.Equal(comp, c.Compiler) {
		bad = append(bad, fmt.Sprintf("the compiler bound is %v, specified %v", comp, c.Compiler))
	}
	if (m.Template != nil) != c.Template {
		bad = append(bad, fmt.Sprintf("is a template: %v", m.Template != nil))
	} else if t := m.Template; t != nil {
		str("template.path", t.Path)
		str("template.entrypoint", t.Entrypoint)
		str("template.thumbnail", t.Thumbnail)
	}
	// a manifest made from the required values is the one read, as far as those go
	made := NewPackageManifest(NewPackageInfo(p.Name, p.Version, p.Entrypoint))
	if q := made.Pkg; q == nil || made.Template != nil || q.Name != p.Name || q.Version != p.Version || q.Entrypoint != p.Entrypoint ||
		len(q.License+q.Description+q.Homepage+q.Repository) != 0 || len(q.Authors)+len(q.Keywords)+len(q.Categories)+len(q.Disciplines)+len(q.Exclude) != 0 || q.Compiler != nil {
		bad = append(bad, fmt.Sprintf("made from its required values it is %+v", q))
	}
	if t := m.Template; t != nil {
		if u := NewTemplateInfo(t.Path, t.Entrypoint); u.Path != t.Path || u.Entrypoint != t.Entrypoint || u.Thumbnail != "" {
			bad = append(bad, fmt.Sprintf("made from its required values its template is %+v", u))
		}
	}
	for _, s := range c.Specs {
		v, err := ParsePackageVersion(s.Version)
		if err != nil {
			return "harness: version " + s.Version, nil
		}
		before := fmt.Sprintf("%+v %+v", *m, *m.Pkg)
		err = m.Validate(&PackageSpec{Namespace: "preview", Name: s.Name, Version: v})
		if (err == nil) != s.Fits {
			bad = append(bad, fmt.Sprintf("fits %s:%s: %v (%s)", s.Name, s.Version, err == nil, strings.SplitN(fmt.Sprint(err), "\n", 2)[0]))
		}
		if p.Compiler == nil {
			if err := made.Validate(&PackageSpec{Namespace: "local", Name: s.Name, Version: v}); (err == nil) != s.Fits {
				bad = append(bad, fmt.Sprintf("made from its required values it fits %s:%s: %v", s.Name, s.Version, err == nil))
			}
		}
		if before != fmt.Sprintf("%+v %+v", *m, *m.Pkg) {
			bad = append(bad, "validating changed it")
		}
	}
	if bad != nil {
		return fmt.Sprintf("%s for\n%s", strings.Join(bad, "; "), c.Toml), nil
	}
	return "", nil
}
