// Command sys decides the properties of the programs in the repository:
// the generator of the built-in data and the license converters.
// The programs are built from the current tree and run in scratch directories.
package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"time"

	"github.com/google/licensecheck/verif/eng"
)

var checks []*eng.Check

func reg(c *eng.Check) { checks = append(checks, c) }

func main() { eng.Main(checks) }

func repo() string {
	if r := os.Getenv("VERIF_REPO"); r != "" {
		return r
	}
	return "/repo"
}

func fatal(args ...interface{}) {
	fmt.Fprintln(os.Stderr, args...)
	os.Exit(3)
}

// build builds one single-file program of the repository into the scratch directory.
func build(scratch, file string) string {
	out := filepath.Join(scratch, strings.TrimSuffix(filepath.Base(file), ".go"))
	cmd := exec.Command("go", "build", "-o", out, filepath.Base(file))
	cmd.Dir = filepath.Join(repo(), filepath.Dir(file))
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=readonly")
	if b, err := cmd.CombinedOutput(); err != nil {
		fatal("building", file, err, string(b))
	}
	return out
}

// scratchDir makes the scratch directory of this run.
func scratchDir(c *eng.Ctx, id string) string {
	base := filepath.Join(c.Dir(), ".build")
	os.MkdirAll(base, 0777)
	old, _ := filepath.Glob(filepath.Join(base, "scratch-"+id+"-*"))
	for _, d := range old {
		os.RemoveAll(d)
	}
	d, err := os.MkdirTemp(base, "scratch-"+id+"-")
	if err != nil {
		fatal(err)
	}
	return d
}

// pool hands out one private directory per running case.
type pool chan string

func newPool(scratch string) pool {
	p := make(pool, runtime.NumCPU()+1)
	for i := 0; i < cap(p); i++ {
		p <- filepath.Join(scratch, fmt.Sprintf("w%d", i))
	}
	return p
}

func (p pool) get() string {
	d := <-p
	if err := os.RemoveAll(d); err != nil {
		fatal(err)
	}
	if err := os.MkdirAll(d, 0777); err != nil {
		fatal(err)
	}
	return d
}

func (p pool) put(d string) { p <- d }

// write creates the files, given by path below dir; a path ending in / is a directory.
func write(dir string, files map[string]string) {
	for name, text := range files {
		p := filepath.Join(dir, name)
		if strings.HasSuffix(name, "/") {
			if err := os.MkdirAll(p, 0777); err != nil {
				fatal(err)
			}
			continue
		}
		err := os.WriteFile(p, []byte(text), 0666)
		if os.IsNotExist(err) {
			os.MkdirAll(filepath.Dir(p), 0777)
			err = os.WriteFile(p, []byte(text), 0666)
		}
		if err != nil {
			fatal(err)
		}
	}
}

// snapshot reads the tree below dir: files by relative path, directories with a final slash.
func snapshot(dir string) map[string]string {
	m := map[string]string{}
	err := filepath.Walk(dir, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(dir, p)
		if info.IsDir() {
			if rel != "." {
				m[rel+"/"] = ""
			}
			return nil
		}
		data, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		m[rel] = string(data)
		return nil
	})
	if err != nil {
		fatal(err)
	}
	return m
}

func diff(a, b map[string]string) []string {
	var d []string
	for k, v := range a {
		if w, ok := b[k]; !ok {
			d = append(d, k+" removed")
		} else if v != w {
			d = append(d, k+" changed")
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			d = append(d, k+" created")
		}
	}
	sort.Strings(d)
	return d
}

// result is how a program ended.
type result struct {
	Code   int
	Stderr string
}

// run executes prog in dir. Only a failure to start it at all is fatal.
func run(dir string, env []string, prog string, args ...string) result {
	cmd := exec.Command(prog, args...)
	cmd.Dir = dir
	cmd.Env = env
	var sb strings.Builder
	cmd.Stderr = &sb
	cmd.Stdout = &sb
	if err := cmd.Start(); err != nil {
		fatal(err)
	}
	t := time.AfterFunc(60*time.Second, func() { cmd.Process.Kill() })
	err := cmd.Wait()
	t.Stop()
	r := result{Stderr: sb.String()}
	if err != nil {
		r.Code = -1
		if ee, ok := err.(*exec.ExitError); ok {
			r.Code = ee.ExitCode()
		}
	}
	if len(r.Stderr) > 2000 {
		r.Stderr = r.Stderr[:2000]
	}
	return r
}
