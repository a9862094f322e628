package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// finding is a case that is known to fail, and how.
type finding struct {
	failure
	// Observed is part of the error the case is known to end in. When it fails
	// in any other way, that is a new violation.
	Observed string `json:"observed"`
}

func findPart(prop, name string) *part {
	for _, p := range parts {
		if p.prop == prop && p.name == name {
			return p
		}
	}
	fmt.Fprintln(os.Stderr, "no such part:", prop, name)
	os.Exit(2)
	return nil
}

func readCase(path string, v any) {
	raw, err := os.ReadFile(path)
	if err == nil {
		err = json.Unmarshal(raw, v)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, path, err)
		os.Exit(2)
	}
}

// runKnown replays the listed findings of a property and writes a line for each
// that is still there.
func runKnown(r *runner, prop, file string) *failure {
	raw, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var out strings.Builder
	for _, l := range strings.Split(string(raw), "\n") {
		rest, ok := strings.CutPrefix(l, "finding: property="+prop+" case=")
		if !ok {
			continue
		}
		path, what, _ := strings.Cut(rest, " ")
		var f finding
		readCase(filepath.Join(filepath.Dir(file), path), &f)
		p := findPart(prop, f.Part)
		r.beginRaw(p, f.Case)
		err := p.replay(f.Case)
		r.end()
		r.evals++
		r.perPart[prop+"/known findings"]++
		switch {
		case err == nil:
			fmt.Fprintf(stdout, "finding %s is gone\n", path)
		case strings.Contains(err.Error(), f.Observed):
			fmt.Fprintf(&out, "KNOWN-FINDING: property=%s %s\n", prop, what)
		default:
			f.failure.Error = err.Error()
			return &f.failure
		}
	}
	if err := os.WriteFile(filepath.Join(r.out, "known.txt"), []byte(out.String()), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	return nil
}

// runRegress replays the cases that once failed.
func runRegress(r *runner, prop, dir string) *failure {
	files, _ := filepath.Glob(filepath.Join(dir, prop+"-*.json"))
	sort.Strings(files)
	for _, path := range files {
		var f failure
		readCase(path, &f)
		p := findPart(f.Property, f.Part)
		r.beginRaw(p, f.Case)
		err := p.replay(f.Case)
		r.end()
		r.evals++
		r.perPart[prop+"/regression cases"]++
		if err != nil {
			f.Error = err.Error()
			return &f
		}
	}
	return nil
}
