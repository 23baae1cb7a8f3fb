package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"time"
)

var hiddenFiles = []string{"astro_moon.go", "cal_day.go", "calendar_event.go", "event.go", "half_moon.go", "major_event.go", "uposatha_moon.go"}

func isHidden(f string) bool {
	for _, h := range hiddenFiles {
		if f == h {
			return true
		}
	}
	return false
}

func copyTree(src, dst string, keep func(string) bool) error {
	ents, err := os.ReadDir(src)
	if err != nil {
		return err
	}
	if err := os.MkdirAll(dst, 0o755); err != nil {
		return err
	}
	for _, e := range ents {
		n := e.Name()
		if e.IsDir() {
			if n == ".git" || n == "data" {
				continue
			}
			if err := copyTree(filepath.Join(src, n), filepath.Join(dst, n), keep); err != nil {
				return err
			}
			continue
		}
		if !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") || keep != nil && !keep(n) {
			continue
		}
		b, err := os.ReadFile(filepath.Join(src, n))
		if err != nil {
			return err
		}
		if err := os.WriteFile(filepath.Join(dst, n), b, 0o644); err != nil {
			return err
		}
	}
	return nil
}

var reFSByte = regexp.MustCompile(`(?m)^func FSByte\(`)
var reHarness = regexp.MustCompile(`(?m)^func (H_\w+)\(\)`)

// buildReplay compiles the harness package natively against a copy of the
// repository's current source.
func buildReplay(repo, verif, scratch, hpkg string, race bool) (string, error) {
	src := filepath.Join(scratch, "gopath", "src")
	root := filepath.Join(src, repoImport)
	core := hpkg == "core"
	top := func(n string) bool { return !(core && isHidden(n)) }
	ents, err := os.ReadDir(repo)
	if err != nil {
		return "", err
	}
	os.MkdirAll(root, 0o755)
	patched := false
	for _, e := range ents {
		n := e.Name()
		if e.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") || !top(n) {
			continue
		}
		b, err := os.ReadFile(filepath.Join(repo, n))
		if err != nil {
			return "", err
		}
		if !patched && reFSByte.Match(b) {
			b = reFSByte.ReplaceAll(b, []byte("func verifOrigFSByte("))
			patched = true
		}
		if err := os.WriteFile(filepath.Join(root, n), b, 0o644); err != nil {
			return "", err
		}
	}
	hook := ""
	if patched {
		os.WriteFile(filepath.Join(root, "verif_fs.go"), []byte(`package suriya

import "os"

var VerifFS map[string][]byte

func FSByte(useLocal bool, name string) ([]byte, error) {
	if VerifFS != nil {
		if b, ok := VerifFS[name]; ok {
			return b, nil
		}
		return nil, os.ErrNotExist
	}
	return verifOrigFSByte(useLocal, name)
}
`), 0o644)
		hook = "vapi.FilesHook = func(m map[string][]byte) { suriya.VerifFS = m }"
	}
	if !core {
		if err := copyTree(filepath.Join(verif, "stubs"), src, nil); err != nil {
			return "", err
		}
	}
	if err := copyTree(filepath.Join(verif, "harness", "vapi"), filepath.Join(src, "vapi"), nil); err != nil {
		return "", err
	}
	hdir := filepath.Join(verif, "harness", hpkg)
	hdst := filepath.Join(src, "h"+hpkg)
	if err := copyTree(hdir, hdst, nil); err != nil {
		return "", err
	}
	if hpkg == "cli" { // in-package: the command's own sources plus ours
		if err := copyTree(filepath.Join(repo, "suriya"), hdst, nil); err != nil {
			return "", err
		}
	}
	if hpkg == "csv" {
		if err := copyTree(filepath.Join(repo, "utils"), hdst, nil); err != nil {
			return "", err
		}
	}
	var names []string
	hs, _ := filepath.Glob(filepath.Join(hdir, "*.go"))
	for _, h := range hs {
		b, _ := os.ReadFile(h)
		for _, m := range reHarness.FindAllStringSubmatch(string(b), -1) {
			names = append(names, m[1])
		}
	}
	var sb strings.Builder
	inPkg := hpkg == "cli" || hpkg == "csv"
	mainDir := filepath.Join(src, "replaymain")
	pre := "h."
	imp := "h \"h" + hpkg + "\"\n"
	fname := "main.go"
	entry := "func main() {"
	if inPkg {
		mainDir, pre, imp, fname = hdst, "", "", "verif_main.go"
		entry = "func init() {"
	}
	sb.WriteString("package main\n\nimport (\n\t\"encoding/json\"\n\t\"os\"\n\t\"vapi\"\n\t" + imp + "\tsuriya \"" + repoImport + "\"\n)\n\nvar _ = suriya.MonthToInt\n\n" + entry + "\n\t" + hook + "\n")
	sb.WriteString("\tb, _ := os.ReadFile(os.Args[2])\n\tvar m struct{ Inputs map[string]int64; Tier int }\n\tjson.Unmarshal(b, &m)\n\tvapi.Model, vapi.Tier = m.Inputs, m.Tier\n\tswitch os.Args[1] {\n")
	runner := "vapi.Run"
	if race {
		runner = "vapi.RunShared"
	}
	for _, n := range names {
		fmt.Fprintf(&sb, "\tcase %q:\n\t\t%s(%s%s)\n", n, runner, pre, n)
	}
	sb.WriteString("\t}\n")
	if inPkg {
		sb.WriteString("\tos.Exit(0)\n")
	}
	sb.WriteString("}\n")
	os.MkdirAll(mainDir, 0o755)
	if err := os.WriteFile(filepath.Join(mainDir, fname), []byte(sb.String()), 0o644); err != nil {
		return "", err
	}
	bin := filepath.Join(scratch, "replay-"+hpkg)
	args, cgo := []string{"build", "-o", bin}, "0"
	if race {
		args, cgo = append(args, "-race"), "1"
	}
	cmd := exec.Command("go", append(args, ".")...)
	cmd.Dir = mainDir
	cmd.Env = append(os.Environ(), "GO111MODULE=off", "GOPATH="+filepath.Join(scratch, "gopath"), "GOFLAGS=", "CGO_ENABLED="+cgo, "GOWORK=off")
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("replay build: %v\n%s", err, out)
	}
	return bin, nil
}

type replayResult struct {
	Fails    []string
	Panic    string
	Obs      []string
	Assume   bool
	Done     bool
	TimedOut bool
	Race     bool
}

func runReplay(bin, fn string, inputs map[string]int64, tier int, scratch string) replayResult {
	f, _ := os.CreateTemp(scratch, "model*.json")
	json.NewEncoder(f).Encode(map[string]any{"Inputs": inputs, "Tier": tier})
	f.Close()
	defer os.Remove(f.Name())
	ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, fn, f.Name())
	cmd.Dir = scratch
	cmd.WaitDelay = time.Second
	var se bytes.Buffer
	cmd.Stderr = &se
	out, _ := cmd.Output()
	var r replayResult
	r.Race = strings.Contains(se.String(), "WARNING: DATA RACE")
	r.TimedOut = ctx.Err() != nil
	for _, l := range strings.Split(string(out), "\n") {
		switch {
		case strings.HasPrefix(l, "ASSERT-FAIL "):
			r.Fails = append(r.Fails, l[12:])
		case strings.HasPrefix(l, "PANIC "):
			r.Panic = l[6:]
		case strings.HasPrefix(l, "OBS "):
			r.Obs = append(r.Obs, l[4:])
		case l == "ASSUME-FALSE":
			r.Assume = true
		case l == "DONE":
			r.Done = true
		}
	}
	return r
}
