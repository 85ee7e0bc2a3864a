package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// Finding is one violated obligation. Key names the rule and the construct, never a line.
type Finding struct {
	Key  string
	Text string
}

// Report collects what one check analysed and what it found.
type Report struct {
	Prop        string
	Obligations int
	Discharged  int
	Counts      map[string]int
	Samples     []string
	Notes       []string
	Assumptions []string
	Rules       []string
	Findings    []Finding
	seen        map[string]bool
	start       time.Time
}

func newReport(prop string) *Report {
	return &Report{Prop: prop, Counts: map[string]int{}, seen: map[string]bool{}, start: time.Now()}
}

func (r *Report) ok(n int) { r.Obligations += n; r.Discharged += n }

// violate records a violated obligation once per key.
func (r *Report) violate(key, text string) {
	r.Obligations++
	if r.seen[key] {
		return
	}
	r.seen[key] = true
	r.Findings = append(r.Findings, Finding{key, text})
}

// undecided records that part of the analysis gave no verdict: never an alarm, always said.
func (r *Report) undecided(what string) {
	r.Counts["parts without a verdict"]++
	k := "no verdict: " + what
	if r.seen[k] {
		return
	}
	r.seen[k] = true
	r.Notes = append(r.Notes, k)
	fmt.Printf("UNDECIDED property=%s %s\n", r.Prop, what)
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func knownFindings(prop string) map[string]string {
	out := map[string]string{}
	f, err := os.Open(filepath.Join(verifDir(), "known_findings.txt"))
	if err != nil {
		return out
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		line := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(line, "finding: property="+prop+" key=") {
			continue
		}
		rest := strings.TrimPrefix(line, "finding: property="+prop+" key=")
		key, text, _ := strings.Cut(rest, " :: ")
		out[strings.TrimSpace(key)] = text
	}
	return out
}

// finish prints the verdict, writes the evidence file and returns the exit code.
func (r *Report) finish() int {
	known := knownFindings(r.Prop)
	sort.Slice(r.Findings, func(i, j int) bool { return r.Findings[i].Key < r.Findings[j].Key })
	var bad []Finding
	var knownHit []string
	for _, f := range r.Findings {
		if text, ok := known[f.Key]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", r.Prop, f.Key, text)
			knownHit = append(knownHit, f.Key)
			continue
		}
		bad = append(bad, f)
	}
	keys := make([]string, 0, len(r.Counts))
	for k := range r.Counts {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("analysed: %s = %d\n", k, r.Counts[k])
	}
	fmt.Printf("obligations: %d, discharged: %d, violated: %d, known: %d\n", r.Obligations, r.Discharged, len(bad), len(knownHit))

	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	seed := 1
	fmt.Sscanf(os.Getenv("VERIF_SEED"), "%d", &seed)
	samples := r.Samples
	if len(samples) > 12 {
		samples = samples[:12]
	}
	cov := map[string]any{
		"explanation":    strings.Join(r.Rules, " "),
		"obligations":    r.Obligations,
		"discharged":     r.Discharged,
		"samples":        samples,
		"notes":          r.Notes,
		"known_findings": knownHit,
	}
	for k, v := range r.Counts {
		cov[strings.ReplaceAll(k, " ", "_")] = v
	}
	ev := map[string]any{
		"property":    r.Prop,
		"tier":        tier,
		"seed":        seed,
		"level":       "other",
		"coverage":    cov,
		"assumptions": r.Assumptions,
		"wall_s":      time.Since(r.start).Seconds(),
		"violations":  len(bad),
	}
	edir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(edir, 0o755)
	data, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(edir, r.Prop+".json"), append(data, '\n'), 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
	}
	replay := filepath.Join(edir, r.Prop+".violations.txt")
	os.Remove(replay)
	if len(bad) == 0 {
		return 0
	}
	var sb strings.Builder
	for _, f := range bad {
		fmt.Fprintf(&sb, "[%s]\n%s\n\n", f.Key, f.Text)
	}
	os.WriteFile(replay, []byte(sb.String()), 0o644)
	for i, f := range bad {
		if i == 20 {
			fmt.Printf("... %d more in %s\n", len(bad)-20, replay)
			break
		}
		fmt.Printf("[%s]\n%s\n", f.Key, f.Text)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, replay)
	return 1
}
