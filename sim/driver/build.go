package main

import (
	"bytes"
	"fmt"
	"io"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
)

const (
	repoModule = "github.com/Foxcapades/lib-go-raml"
	yamlModule = "github.com/Foxcapades/lib-go-yaml"
)

// Build is a scratch directory with an instrumented copy of the repository and
// the harness linked against it.
type Build struct {
	Dir   string // scratch directory, removed by Close
	Verif string
	Repo  string
	Env   []string
	Stats InstrStats
	Mode  string // full, nodeps, coarse, plain
}

func goEnv(extra ...string) []string {
	drop := map[string]bool{"GOFLAGS": true, "GOWORK": true, "GOTOOLCHAIN": true, "GOPROXY": true, "GOMODCACHE": true, "GO111MODULE": true, "GOSUMDB": true, "GODEBUG": true, "GOEXPERIMENT": true, "CGO_ENABLED": true}
	var out []string
	home := false
	for _, e := range os.Environ() {
		k := e[:strings.IndexByte(e, '=')]
		if drop[k] {
			continue
		}
		home = home || k == "HOME"
		out = append(out, e)
	}
	if !home {
		out = append(out, "HOME=/root")
	}
	out = append(out, "GOFLAGS=-mod=mod", "GOWORK=off", "GOTOOLCHAIN=local", "GOPROXY=off", "GOMODCACHE=/root/go/pkg/mod", "GO111MODULE=on", "GOSUMDB=off")
	return append(out, extra...)
}

func copyTree(from, to string, keep func(rel string, d fs.DirEntry) bool) error {
	return filepath.WalkDir(from, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(from, p)
		if rel != "." && !keep(rel, d) {
			if d.IsDir() {
				return filepath.SkipDir
			}
			return nil
		}
		dst := filepath.Join(to, rel)
		if d.IsDir() {
			return os.MkdirAll(dst, 0o755)
		}
		if !d.Type().IsRegular() {
			return nil
		}
		in, err := os.Open(p)
		if err != nil {
			return err
		}
		defer in.Close()
		out, err := os.OpenFile(dst, os.O_CREATE|os.O_TRUNC|os.O_WRONLY, 0o644)
		if err != nil {
			return err
		}
		if _, err := io.Copy(out, in); err != nil {
			out.Close()
			return err
		}
		return out.Close()
	})
}

func keepSource(rel string, d fs.DirEntry) bool {
	name := d.Name()
	if d.IsDir() {
		return !strings.HasPrefix(name, ".") && name != "testdata"
	}
	return !strings.HasSuffix(name, "_test.go")
}

var goDirective = regexp.MustCompile(`(?m)^go 1\.(\d+)(\.\d+)?\s*$`)

// bumpGo raises the language version of a module copy so that the
// instrumentation may use generic functions; loop variables keep the semantics
// of the version that was declared.
func bumpGo(file string) error {
	b, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	m := goDirective.FindSubmatch(b)
	if m == nil {
		b = append(b, []byte("\ngo 1.18\n")...)
		return os.WriteFile(file, b, 0o644)
	}
	var minor int
	fmt.Sscan(string(m[1]), &minor)
	if minor < 18 {
		b = goDirective.ReplaceAll(b, []byte("go 1.18\n"))
	}
	return os.WriteFile(file, b, 0o644)
}

func run(dir string, env []string, name string, args ...string) (string, error) {
	cmd := exec.Command(name, args...)
	cmd.Dir, cmd.Env = dir, env
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	err := cmd.Run()
	return out.String(), err
}

// NewBuild prepares the scratch directory.  mode decides how much is
// instrumented.
func NewBuild(verif, repo, mode string) (*Build, error) {
	dir, err := os.MkdirTemp("", "verif-sim-")
	if err != nil {
		return nil, err
	}
	b := &Build{Dir: dir, Verif: verif, Repo: repo, Env: goEnv(), Mode: mode}
	if err := b.prepare(); err != nil {
		b.Close()
		return nil, err
	}
	return b, nil
}

// Close removes the scratch directory.
func (b *Build) Close() {
	if b.Dir != "" && strings.Contains(b.Dir, "verif-sim-") {
		os.RemoveAll(b.Dir)
	}
}

func (b *Build) prepare() error {
	rc := filepath.Join(b.Dir, "repo")
	if err := copyTree(b.Repo, rc, keepSource); err != nil {
		return err
	}
	out, err := run(rc, b.Env, "go", "list", "-m", "-f", "{{.Dir}}", yamlModule)
	if err != nil {
		return fmt.Errorf("locating %s: %v\n%s", yamlModule, err, out)
	}
	yc := filepath.Join(b.Dir, "xyml")
	if err := copyTree(strings.TrimSpace(out), yc, keepSource); err != nil {
		return err
	}
	for _, d := range []string{rc, yc} {
		if err := bumpGo(filepath.Join(d, "go.mod")); err != nil {
			return err
		}
	}
	sc := filepath.Join(b.Dir, "simrt")
	if err := copyTree(filepath.Join(b.Verif, "sim/simrt"), sc, keepSource); err != nil {
		return err
	}
	hc := filepath.Join(b.Dir, "harness")
	if err := copyTree(filepath.Join(b.Verif, "sim/harness"), hc, keepSource); err != nil {
		return err
	}
	reqs, err := os.ReadFile(filepath.Join(rc, "go.mod"))
	if err != nil {
		return err
	}
	var req strings.Builder
	for _, l := range strings.Split(string(reqs), "\n") {
		l = strings.TrimSpace(strings.TrimPrefix(strings.TrimSpace(l), "require "))
		f := strings.Fields(l)
		if len(f) >= 2 && strings.HasPrefix(f[1], "v") && strings.Contains(f[0], "/") {
			fmt.Fprintf(&req, "\t%s %s\n", f[0], f[1])
		}
	}
	mod := fmt.Sprintf("module verif.local/harness\n\ngo 1.21\n\nrequire (\n\t%s v0.0.0\n\tverif.local/simrt v0.0.0\n%s)\n\nreplace (\n\t%s => ../repo\n\t%s => ../xyml\n\tverif.local/simrt => ../simrt\n)\n",
		repoModule, req.String(), repoModule, yamlModule)
	if err := os.WriteFile(filepath.Join(hc, "go.mod"), []byte(mod), 0o644); err != nil {
		return err
	}
	sum, err := os.ReadFile(filepath.Join(rc, "go.sum"))
	if err != nil {
		return err
	}
	if err := os.WriteFile(filepath.Join(hc, "go.sum"), sum, 0o644); err != nil {
		return err
	}
	// instrument every package of the two modules that the library consists of
	pkgs, err := goList(hc, b.Env, "-export", "-deps", "-json=Dir,ImportPath,Name,GoFiles,Export,Standard,DepOnly",
		repoModule+"/v0/pkg/raml", repoModule+"/v0/pkg/raml/rparse", repoModule+"/v0/pkg/raml/rbuild")
	if err != nil {
		return err
	}
	exports := map[string]string{}
	for _, p := range pkgs {
		if p.Export != "" {
			exports[p.ImportPath] = p.Export
		}
	}
	b.Stats.Coarse = b.Mode == "coarse" || b.Mode == "plain"
	for _, p := range pkgs {
		own := strings.HasPrefix(p.Dir, rc+"/")
		if !own && !strings.HasPrefix(p.Dir, yc+"/") {
			continue
		}
		if err := instrumentPkg(p, exports, b.Mode == "full" || own && b.Mode == "nodeps", b.Mode != "plain", &b.Stats); err != nil {
			return fmt.Errorf("%s: %w", p.ImportPath, err)
		}
		b.Stats.Packages++
	}
	return nil
}

// Harness compiles the harness and returns the program.
func (b *Build) Harness(race bool) (string, error) {
	bin := filepath.Join(b.Dir, "harness.bin")
	args := []string{"build", "-trimpath", "-o", bin}
	if race {
		bin += ".race"
		args = []string{"build", "-trimpath", "-race", "-o", bin}
	}
	out, err := run(filepath.Join(b.Dir, "harness"), b.Env, "go", append(args, ".")...)
	if err != nil {
		return "", fmt.Errorf("building the harness: %v\n%s", err, out)
	}
	return bin, nil
}
