// Package rep reports what a check found: violations (with replay files), known findings and evidence.
package rep

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Finding is one line of known_findings.jsonl.
type Finding struct {
	Kind     string `json:"kind"` // "known" or "fixed"
	Property string `json:"property"`
	Sig      string `json:"sig,omitempty"`
	Commit   string `json:"commit,omitempty"`
	What     string `json:"what"`
}

type R struct {
	Prop     string
	Tier     string
	Seed     int
	Root     string
	Level    string
	start    time.Time
	Coverage map[string]any
	Assume   []string

	mu      sync.Mutex
	known   []Finding
	seen    map[string]bool
	viol    int
	samples []any
}

func New(prop, level string) *R {
	r := &R{Prop: prop, Tier: os.Getenv("VERIF_TIER"), Root: os.Getenv("VERIF_ROOT"), Level: level, start: time.Now(),
		Coverage: map[string]any{}, seen: map[string]bool{}}
	if r.Tier != "thorough" {
		r.Tier = "quick"
	}
	if r.Root == "" {
		r.Root = "/verif"
	}
	r.Seed, _ = strconv.Atoi(os.Getenv("VERIF_SEED"))
	if f, err := os.Open(filepath.Join(r.Root, "known_findings.jsonl")); err == nil {
		sc := bufio.NewScanner(f)
		sc.Buffer(nil, 1<<20)
		for sc.Scan() {
			var k Finding
			if json.Unmarshal(sc.Bytes(), &k) == nil && k.Kind == "known" && k.Property == prop {
				r.known = append(r.known, k)
			}
		}
		f.Close()
	}
	return r
}

func (r *R) Thorough() bool { return r.Tier == "thorough" }

// Known reports whether the failure signature is a listed known finding, and prints its line once.
func (r *R) Known(sig string) bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, k := range r.known {
		if k.Sig == sig {
			if !r.seen[sig] {
				r.seen[sig] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.Prop, k.What)
			}
			return true
		}
	}
	return false
}

// KnownSigs lists the signatures of the known findings.
func (r *R) KnownSigs() (l []string) {
	for _, k := range r.known {
		l = append(l, k.Sig)
	}
	return
}

// Violation records a violation and reports whether it was new (not a known finding).
func (r *R) Violation(sig, msg string, replay any) bool {
	if r.Known(sig) {
		return false
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	r.viol++
	if r.viol > 1 {
		return true
	}
	dir := filepath.Join(r.Root, "replays")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, r.Prop+".json")
	b, _ := json.MarshalIndent(map[string]any{"property": r.Prop, "sig": sig, "message": strings.Split(msg, "\n"), "replay": replay}, "", " ")
	os.WriteFile(path, b, 0o644)
	fmt.Printf("%s\n", msg)
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, path)
	return true
}

func (r *R) Violations() int { r.mu.Lock(); defer r.mu.Unlock(); return r.viol }

// Sample keeps a few actual cases for the evidence file.
func (r *R) Sample(v any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.samples) < 8 {
		r.samples = append(r.samples, v)
	}
}

// Write writes the evidence file.
func (r *R) Write() {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.samples) > 0 {
		r.Coverage["samples"] = r.samples
	}
	ev := map[string]any{"property": r.Prop, "tier": r.Tier, "seed": r.Seed, "level": r.Level, "coverage": r.Coverage,
		"wall_s": time.Since(r.start).Seconds(), "violations": r.viol}
	if len(r.Assume) > 0 {
		ev["assumptions"] = r.Assume
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(r.Root, "evidence"), 0o755)
	os.WriteFile(filepath.Join(r.Root, "evidence", r.Prop+".json"), append(b, '\n'), 0o644)
}

// Finish writes the evidence file and exits.
func (r *R) Finish() {
	r.Write()
	if r.viol > 0 {
		os.Exit(1)
	}
	fmt.Printf("%s held on everything explored (%s, %.1fs)\n", r.Prop, r.Tier, time.Since(r.start).Seconds())
	os.Exit(0)
}
