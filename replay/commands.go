package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/HannesKimara/cddlc/cmd/cddlc/commands"
	"github.com/HannesKimara/cddlc/config"
	"github.com/HannesKimara/cddlc/lexer"
	"github.com/HannesKimara/cddlc/parser"
	gogen "github.com/HannesKimara/cddlc/transforms/codegen/golang"
)

// quietly runs a command in dir with its output thrown away; a panic is not a quiet success.
func quietly(dir string, cmd func() error) (err error, panicked bool) {
	so, se := os.Stdout, os.Stderr
	null, _ := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	wd, _ := os.Getwd()
	os.Stdout, os.Stderr = null, null
	os.Chdir(dir)
	defer func() {
		if e := recover(); e != nil {
			panicked = true
		}
		os.Chdir(wd)
		os.Stdout, os.Stderr = so, se
		null.Close()
	}()
	return cmd(), false
}

// wantOutput is what generating src yields, without the header; ok is false if it must not succeed.
func wantOutput(pkg string, src []byte) (out string, ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	c, errs := parser.NewParser(lexer.NewLexer(append([]byte{}, src...))).ParseFile()
	if len(errs) > 0 || c == nil {
		return "", false
	}
	g := gogen.NewGenerator(pkg)
	g.Visit(c)
	var b bytes.Buffer
	if g.String(&b) != nil {
		return "", false
	}
	return b.String(), true
}

var defaultConf = &config.Config{Version: "1", Builds: []*config.BuildConfig{{SourceDir: ".", OutDir: "dist/"}}, Plugins: []*config.Plugin{}}

func directedC16(r *rand.Rand, deadline time.Time) *Failure {
	log.SetOutput(io.Discard)
	for n := 0; time.Now().Before(deadline); n++ {
		dir, err := os.MkdirTemp("", "verif-c16-")
		if err != nil {
			return nil
		}
		work := filepath.Join(dir, "a", "b")
		os.MkdirAll(work, 0o755)
		var f *Failure
		if n%4 == 0 {
			f = oneInit(r, work)
		} else {
			f = oneGenerate(r, work)
		}
		os.RemoveAll(dir)
		if f != nil {
			return f
		}
	}
	return nil
}

func oneInit(r *rand.Rand, dir string) *Failure {
	p := filepath.Join(dir, "cddlc.json")
	setup := ""
	switch r.Intn(6) {
	case 0:
		setup = "no configuration file"
	case 1:
		setup = "an existing configuration file"
		os.WriteFile(p, []byte("{\"version\": \"mine\"}"), 0o644)
	case 2:
		setup = "an empty configuration file"
		os.WriteFile(p, nil, 0o644)
	case 3:
		setup = "a configuration file that is a symbolic link to itself"
		os.Symlink("cddlc.json", p)
	case 4:
		setup = "a directory in the place of the configuration file"
		os.Mkdir(p, 0o755)
	case 5:
		setup = "no configuration file, one in YAML"
		os.WriteFile(filepath.Join(dir, "cddlc.yaml"), []byte("version: \"1\"\n"), 0o644)
	}
	before, berr := os.ReadFile(p)
	_, lerr := os.Lstat(p)
	existed := lerr == nil
	if i, err := os.Lstat(p); err == nil && i.Mode()&os.ModeSymlink != 0 && setup[0] == 'n' {
		existed = false
	}
	err, panicked := quietly(dir, func() error { return commands.InitCmd(nil) })
	after, aerr := os.ReadFile(p)
	bad := func(f string, a ...any) *Failure {
		return &Failure{Setup: "init with " + setup, Detail: fmt.Sprintf(f, a...)}
	}
	if panicked {
		return nil
	}
	if existed {
		if !bytes.Equal(before, after) || (berr == nil) != (aerr == nil) {
			return bad("the file is changed to %q", after)
		}
		if err == nil {
			return bad("no error is reported")
		}
		return nil
	}
	if err == nil {
		var c config.Config
		if aerr != nil || json.Unmarshal(after, &c) != nil || !reflect.DeepEqual(&c, defaultConf) {
			return bad("success, but the file holds %q", after)
		}
	}
	return nil
}

func oneGenerate(r *rand.Rand, dir string) *Failure {
	good := []string{"a = tstr\n", "n = int\nm = [* n]\n", "t = 1\n", "g = { x: tstr, y: uint }\n", "x = tstr / int\n", "p = (a: int, b: bool)\n", ""}
	wrong := []string{"a = \n", "a = (\n", "a = tstr\na = int\n", "a = b\n", "a = 'x\n", "\x00", "a = 5 .lt\n"}
	src, out := "src", "out"
	if r.Intn(4) == 0 {
		src = "."
	}
	var notes []string
	note := func(f string, a ...any) { notes = append(notes, fmt.Sprintf(f, a...)) }
	conf := &config.Config{Version: "1"}
	mk := func(src, out string) {
		b := &config.BuildConfig{Package: []string{"p", "q"}[r.Intn(2)], SourceDir: src, OutDir: out}
		conf.Builds = append(conf.Builds, b)
		if r.Intn(12) == 0 {
			note("source directory %s is missing", src)
			return
		}
		d := filepath.Join(dir, src)
		os.MkdirAll(d, 0o755)
		if r.Intn(3) == 0 {
			os.MkdirAll(filepath.Join(dir, out), 0o755)
		} else if r.Intn(12) == 0 {
			note("output directory %s is a file", out)
			os.WriteFile(filepath.Join(dir, out), nil, 0o644)
		}
		for k := r.Intn(4); k >= 0; k-- {
			name := []string{"a", "b", "c.d", "_e", "f.cddl", "Z", ".h"}[r.Intn(7)] + []string{".cddl", ".cddl", ".cddl", ".CDDL", ".cddlx", ".txt", ""}[r.Intn(7)]
			text := good[r.Intn(len(good))]
			if r.Intn(8) == 0 {
				text = wrong[r.Intn(len(wrong))]
			}
			p := filepath.Join(d, name)
			switch r.Intn(14) {
			case 0:
				note("%s is a directory", name)
				os.MkdirAll(p, 0o755)
			case 1:
				note("%s is a dangling link", name)
				os.Symlink("nowhere", p)
			default:
				note("%s/%s holds %q", src, name, text)
				os.WriteFile(p, []byte(text), 0o644)
			}
			if strings.HasSuffix(name, ".cddl") && r.Intn(10) == 0 {
				o := filepath.Join(dir, out, strings.TrimSuffix(name, ".cddl")+".go")
				os.MkdirAll(filepath.Dir(o), 0o755)
				if r.Intn(2) == 0 {
					note("the output of %s is a directory", name)
					os.MkdirAll(o, 0o755)
				} else {
					note("the output of %s is a full device", name)
					os.Symlink("/dev/full", o)
				}
			}
		}
	}
	confOK := true
	switch r.Intn(8) {
	case 0:
		note("no configuration")
		mk(".", "dist/")
		conf.Builds[0].Package = ""
	case 1:
		note("a broken configuration")
		mk(".", "dist/")
		os.WriteFile(filepath.Join(dir, "cddlc.json"), []byte("{"), 0o644)
		confOK = false
	case 2:
		note("a configuration of an unknown kind")
		mk(".", "dist/")
		os.WriteFile(filepath.Join(dir, "cddlc.toml"), []byte("x = 1"), 0o644)
		confOK = false
	default:
		mk(src, out)
		for i := 2; i < 4 && r.Intn(2) == 0; i++ {
			mk(fmt.Sprint("src", i), fmt.Sprint("out", i))
		}
		b, _ := json.Marshal(conf)
		os.WriteFile(filepath.Join(dir, "cddlc.json"), b, 0o644)
		note("configuration %s", b)
	}
	// what must be true of a success
	type output struct{ path, text string }
	var want []output
	mustFail := ""
	if !confOK {
		mustFail = "the configuration cannot be read"
	}
	outs := map[string]map[string]bool{}
	for _, b := range conf.Builds {
		if !confOK {
			break
		}
		es, err := os.ReadDir(filepath.Join(dir, b.SourceDir))
		if err != nil {
			mustFail = "the source directory " + b.SourceDir + " cannot be read"
			break
		}
		od := filepath.Join(dir, b.OutDir)
		if outs[od] == nil {
			outs[od] = map[string]bool{}
			if old, err := os.ReadDir(od); err == nil {
				for _, e := range old {
					outs[od][e.Name()] = true
				}
			}
		}
		for _, e := range es {
			if filepath.Ext(e.Name()) != ".cddl" {
				continue
			}
			text, err := os.ReadFile(filepath.Join(dir, b.SourceDir, e.Name()))
			if err != nil {
				mustFail = e.Name() + " cannot be read"
				continue
			}
			g, ok := wantOutput(b.Package, text)
			if !ok {
				mustFail = e.Name() + " has diagnostics or is not supported"
			}
			n := strings.TrimSuffix(e.Name(), ".cddl") + ".go"
			if i, err := os.Lstat(filepath.Join(od, n)); err == nil && !i.Mode().IsRegular() {
				mustFail = n + " cannot be written"
			}
			want = append(want, output{filepath.Join(od, n), g})
			outs[od][n] = true
		}
	}
	err, panicked := quietly(dir, func() error { return commands.GenerateCmd(nil) })
	bad := func(f string, a ...any) *Failure {
		sort.Strings(notes)
		return &Failure{Setup: "generate with: " + strings.Join(notes, "; "), Detail: fmt.Sprintf(f, a...)}
	}
	if panicked {
		return nil
	}
	for od, names := range outs {
		es, _ := os.ReadDir(od)
		for _, e := range es {
			if strings.HasSuffix(e.Name(), ".go") && !names[e.Name()] {
				return bad("%s is written, which belongs to no source file", e.Name())
			}
		}
	}
	if err != nil {
		return nil
	}
	if mustFail != "" {
		return bad("success, though %s", mustFail)
	}
	for _, o := range want {
		got, err := os.ReadFile(o.path)
		if err != nil {
			return bad("success, but %s is not written: %v", filepath.Base(o.path), err)
		}
		i := bytes.Index(got, []byte("*/\n\n"))
		if !bytes.HasPrefix(got, []byte("/*\n")) || i < 0 || string(got[i+4:]) != o.text {
			return bad("success, but %s holds %q", filepath.Base(o.path), got)
		}
	}
	return nil
}

func init() { directed["C16"] = directedC16 }
