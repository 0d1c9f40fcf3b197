package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

func verifDir() string {
	if d := os.Getenv("SIM_VERIF"); d != "" {
		return d
	}
	return "/verif"
}

func repoDir() string {
	if d := os.Getenv("SIM_REPO"); d != "" {
		return d
	}
	return "/repo"
}

type build struct {
	dir   string // scratch directory, removed at the end
	src   string // instrumented copy
	plain string
	race  string
	sites []string
}

func newBuild() (*build, error) {
	dir, err := os.MkdirTemp("", "uipsim")
	if err != nil {
		return nil, err
	}
	b := &build{dir: dir, src: filepath.Join(dir, "src"), plain: filepath.Join(dir, "worker"), race: filepath.Join(dir, "worker.race")}
	if err := copyTree(repoDir(), b.src); err != nil {
		return b, fmt.Errorf("copy: %v", err)
	}
	sim := filepath.Join(verifDir(), "sim")
	in, err := instrument(b.src, sim)
	if err != nil {
		return b, fmt.Errorf("instrument: %v", err)
	}
	b.sites = in.sites
	if err := copyDir(sim, filepath.Join(b.src, "verifsim")); err != nil {
		return b, err
	}
	var g strings.Builder
	g.WriteString("package h\n\nvar siteNames = []string{\n")
	for _, s := range in.sites {
		fmt.Fprintf(&g, "\t%q,\n", s)
	}
	g.WriteString("}\n")
	var rs strings.Builder
	rs.WriteString("package h\n\nimport (\n")
	for i, p := range in.resets {
		fmt.Fprintf(&rs, "\tr%d %q\n", i, p)
	}
	rs.WriteString(")\n\nfunc resetAll() {\n")
	for i := range in.resets {
		fmt.Fprintf(&rs, "\tr%d.SimReset()\n", i)
	}
	rs.WriteString("}\n")
	if err := os.WriteFile(filepath.Join(b.src, "verifsim", "h", "resets_gen.go"), []byte(rs.String()), 0644); err != nil {
		return b, err
	}
	if err := os.WriteFile(filepath.Join(b.src, "verifsim", "h", "sites_gen.go"), []byte(g.String()), 0644); err != nil {
		return b, err
	}
	return b, nil
}

func (b *build) compile(race bool) error {
	args := []string{"test", "-c", "-vet=off", "-trimpath"}
	out := b.plain
	if race {
		args = append(args, "-race")
		out = b.race
	}
	args = append(args, "-o", out, "./verifsim/h")
	cmd := exec.Command("go", args...)
	cmd.Dir = b.src
	cmd.Env = goEnv()
	var buf bytes.Buffer
	cmd.Stdout, cmd.Stderr = &buf, &buf
	if err := cmd.Run(); err != nil {
		return fmt.Errorf("go %s: %v\n%s", strings.Join(args, " "), err, buf.String())
	}
	return nil
}

// peers builds the readers in the other languages, each behind a line protocol.
func (b *build) peers() error {
	dst := filepath.Join(b.dir, "peers")
	if err := copyDir(filepath.Join(verifDir(), "peers"), dst); err != nil {
		return err
	}
	run := func(dir string, env []string, name string, args ...string) error {
		cmd := exec.Command(name, args...)
		cmd.Dir = dir
		cmd.Env = append(os.Environ(), env...)
		out, err := cmd.CombinedOutput()
		if err != nil {
			return fmt.Errorf("%s: %v\n%s", name, err, out)
		}
		return nil
	}
	in := filepath.Join(dst, "rust", "qnip", "Cargo.toml.in")
	t, err := os.ReadFile(in)
	if err != nil {
		return err
	}
	t = bytes.ReplaceAll(t, []byte("@REPO@"), []byte(repoDir()))
	if err := os.WriteFile(filepath.Join(dst, "rust", "qnip", "Cargo.toml"), t, 0644); err != nil {
		return err
	}
	rust := make(chan error, 1)
	go func() {
		rust <- run(filepath.Join(dst, "rust"), []string{"CARGO_TARGET_DIR=" + filepath.Join(b.dir, "rust-target"), "RUSTFLAGS=", "CARGO_INCREMENTAL=0"}, "cargo", "build", "--offline", "--release")
	}()
	var src []string
	for _, d := range []string{filepath.Join(repoDir(), "java", "src", "main", "java"), filepath.Join(dst, "java")} {
		err := filepath.Walk(d, func(p string, fi os.FileInfo, err error) error {
			if err == nil && !fi.IsDir() && strings.HasSuffix(p, ".java") {
				src = append(src, p)
			}
			return err
		})
		if err != nil {
			return err
		}
	}
	classes := filepath.Join(b.dir, "java-classes")
	if err := os.MkdirAll(classes, 0755); err != nil {
		return err
	}
	jerr := run(dst, nil, "javac", append([]string{"-nowarn", "-encoding", "UTF-8", "--add-exports", "java.base/sun.net.util=ALL-UNNAMED", "-d", classes}, src...)...)
	if err := <-rust; err != nil {
		return err
	}
	return jerr
}

func (b *build) clean() {
	if b != nil && b.dir != "" && os.Getenv("SIM_KEEP") == "" {
		os.RemoveAll(b.dir)
	}
}
