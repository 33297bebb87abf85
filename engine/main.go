package main

import (
	"crypto/sha256"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

type CheckCtx struct {
	W         *Work
	ID        string
	Tier      string
	Seed      int64
	Rich      int
	Level     string
	Start     time.Time
	Cov       map[string]any
	Evals     int
	distinct  map[[8]byte]bool
	Rule      string
	Samples   []any
	Assume    []string
	viol      []violation
	seenKey   map[string]bool
	known     map[string]string // key -> what
	knownHit  map[string]bool
	replayDir string
}

type violation struct{ key, detail, path string }

type check struct {
	run   func(*CheckCtx) error
	level string
}

var checks = map[string]check{}

func (c *CheckCtx) nontrivial(parts ...string) {
	h := sha256.Sum256([]byte(strings.Join(parts, "\x00")))
	var k [8]byte
	copy(k[:], h[:8])
	c.distinct[k] = true
}

func (c *CheckCtx) sample(x any) {
	if len(c.Samples) < 12 {
		c.Samples = append(c.Samples, x)
	}
}

func (c *CheckCtx) add(k string, n int) {
	if v, ok := c.Cov[k].(int); ok {
		c.Cov[k] = v + n
	} else {
		c.Cov[k] = n
	}
}

// violation records a breach. key identifies the specific failing input, call
// site or history; detail and data go to the replay file.
func (c *CheckCtx) violation(key, detail string, data map[string]any) {
	if what, ok := c.known[key]; ok {
		if !c.knownHit[key] {
			c.knownHit[key] = true
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.ID, what)
		}
		return
	}
	if c.seenKey[key] {
		return
	}
	c.seenKey[key] = true
	if f := os.Getenv("VERIF_DUMP"); f != "" {
		if h, err := os.OpenFile(f, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644); err == nil {
			fmt.Fprintf(h, "%s\t%q\n", key, trunc(detail, 600))
			h.Close()
		}
	}
	if len(c.viol) >= 25 {
		c.viol = append(c.viol, violation{key, detail, ""})
		return
	}
	os.MkdirAll(c.replayDir, 0o755)
	p := filepath.Join(c.replayDir, fmt.Sprintf("%s-%02d.json", c.ID, len(c.viol)))
	if data == nil {
		data = map[string]any{}
	}
	data["property"], data["key"], data["detail"], data["seed"], data["tier"] = c.ID, key, detail, c.Seed, c.Tier
	data["rerun"] = fmt.Sprintf("VERIF_SEED=%d VERIF_TIER=%s /verif/check.sh %s", c.Seed, c.Tier, c.ID)
	b, _ := json.MarshalIndent(data, "", " ")
	os.WriteFile(p, append(b, '\n'), 0o644)
	c.viol = append(c.viol, violation{key, detail, p})
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, p)
	fmt.Printf("  %s: %s\n", key, trunc(detail, 1200))
}

func (c *CheckCtx) caseData(x *Case) map[string]any {
	d := map[string]any{"message": x.M.Full, "value": x.V.String(), "wire": fmt.Sprintf("%x", trunc(string(x.V.encode()), 2000)), "varied": x.Why, "clock_offset_ns": x.At, "nil_receiver": x.NilR}
	var b strings.Builder
	x.M.proto(&b, "")
	d["schema"] = trunc(b.String(), 6000)
	var nils []string
	x.V.nils("", &nils)
	if nils != nil {
		d["typed_nils"] = nils
	}
	return d
}

// broken turns a BrokenError into a violation and passes other errors through.
func (c *CheckCtx) broken(err error) error {
	var be BrokenError
	if errors.As(err, &be) {
		c.violation(c.ID+":"+be.Stage, be.Error(), nil)
		return nil
	}
	return err
}

func (c *CheckCtx) finish() int {
	wall := time.Since(c.Start).Seconds()
	c.Cov["evaluations"] = c.Evals
	c.Cov["distinct_nontrivial"] = len(c.distinct)
	c.Cov["rule"] = c.Rule
	if c.Samples == nil {
		c.Samples = []any{}
	}
	c.Cov["samples"] = c.Samples
	if len(c.knownHit) > 0 {
		var k []string
		for x := range c.knownHit {
			k = append(k, x)
		}
		sort.Strings(k)
		c.Cov["known_findings_observed"] = k
	}
	ev := map[string]any{"property": c.ID, "tier": c.Tier, "seed": c.Seed, "level": c.Level, "coverage": c.Cov, "wall_s": wall, "violations": len(c.viol), "assumptions": c.Assume}
	if c.Assume == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(c.W.Verif, "evidence")
	os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, c.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
		return 2
	}
	fmt.Printf("%s %s: %d evaluations, %d distinct non-trivial, %d violations, %.1fs\n", c.ID, c.Tier, c.Evals, len(c.distinct), len(c.viol), wall)
	if len(c.viol) > 0 {
		return 1
	}
	return 0
}

func loadKnown(path, id string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(path)
	if err != nil {
		return out
	}
	var f struct {
		Findings []struct {
			Property, Key, What string
		} `json:"findings"`
	}
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Println("known_findings.json:", err)
		os.Exit(2)
	}
	for _, x := range f.Findings {
		if x.Property == id {
			out[x.Key] = x.What
		}
	}
	return out
}

func main() {
	if len(os.Args) < 3 || os.Args[1] != "check" {
		fmt.Println("usage: vengine check ID")
		os.Exit(2)
	}
	id := os.Args[2]
	verif := os.Getenv("VERIF_DIR")
	repo := os.Getenv("VERIF_REPO")
	if repo == "" {
		repo = "/repo"
	}
	if verif == "" {
		verif = "/verif"
	}
	seed, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seed = 1
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	ck, ok := checks[id]
	if !ok {
		fmt.Println("unknown check", id)
		os.Exit(2)
	}
	w, err := newWork(verif, repo, id)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	c := &CheckCtx{W: w, ID: id, Tier: tier, Seed: seed, Level: ck.level, Start: time.Now(), Cov: map[string]any{}, distinct: map[[8]byte]bool{}, seenKey: map[string]bool{}, knownHit: map[string]bool{}, replayDir: filepath.Join(verif, "replays")}
	if tier == "thorough" {
		c.Rich = 1
	}
	old, _ := filepath.Glob(filepath.Join(c.replayDir, id+"-*.json"))
	for _, p := range old {
		os.Remove(p)
	}
	c.known = loadKnown(filepath.Join(verif, "known_findings.json"), id)
	if err := ck.run(c); err != nil {
		if err = c.broken(err); err != nil {
			if len(c.viol) == 0 {
				fmt.Println("ERROR (no verdict):", err)
				os.Exit(2)
			}
			fmt.Println("note: a later stage of the machinery failed:", err)
		}
	}
	code := c.finish()
	if os.Getenv("VERIF_KEEP") == "" {
		os.RemoveAll(w.Dir)
	}
	os.Exit(code)
}
