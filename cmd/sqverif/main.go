// Command sqverif decides properties of the repository from its source.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"sqverif/internal/checks"
	"sqverif/internal/load"
)

type known struct {
	Property string `json:"property"`
	Match    string `json:"match"` // regular expression over "position function message"
	What     string `json:"what"`
	Fixed    string `json:"fixed,omitempty"` // commit; such entries suppress nothing
}

type evidence struct {
	Property    string         `json:"property"`
	Tier        string         `json:"tier"`
	Seed        int64          `json:"seed"`
	Level       string         `json:"level"`
	Coverage    map[string]any `json:"coverage"`
	Assumptions []string       `json:"assumptions,omitempty"`
	WallS       float64        `json:"wall_s"`
	Violations  int            `json:"violations"`
}

func main() {
	debug.SetGCPercent(200)
	if len(os.Args) < 2 {
		fmt.Println("usage: sqverif ID...")
		os.Exit(2)
	}
	if os.Args[1] == "-list" {
		list()
		return
	}
	root := os.Getenv("SQV_ROOT")
	if root == "" {
		root = "/verif"
	}
	repo := os.Getenv("SQV_REPO")
	if repo == "" {
		repo = "/repo"
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	t0 := time.Now()
	p, err := load.Load(repo)
	if err != nil {
		fmt.Println("cannot analyse:", err)
		os.Exit(2)
	}
	loadS := time.Since(t0).Seconds()
	findings, err := loadKnown(filepath.Join(root, "known-findings.jsonl"))
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	env := &checks.Env{P: p, Tier: tier, Seed: seed}
	exit := 0
	for _, id := range os.Args[1:] {
		c := checks.Registry[id]
		if c == nil {
			fmt.Println("unknown property", id)
			os.Exit(2)
		}
		t1 := time.Now()
		code := runOne(env, c, root, tier, seed, findings, loadS, t1)
		if code > exit {
			exit = code
		}
	}
	os.Exit(exit)
}

func runOne(env *checks.Env, c *checks.Check, root, tier string, seed int64, findings []known, loadS float64, t1 time.Time) int {
	r := c.Run(env)
	var unknown []int
	nKnown := 0
	printed := map[string]bool{}
	for i, v := range r.Violations {
		text := v.Pos + " " + v.Func + " " + v.Msg
		what := ""
		for _, k := range findings {
			if k.Fixed == "" && k.Property == c.ID && regexp.MustCompile(k.Match).MatchString(text) {
				what = k.What
			}
		}
		if what != "" {
			nKnown++
			if !printed[what] {
				printed[what] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.ID, what)
			}
			continue
		}
		unknown = append(unknown, i)
	}
	cov := r.Finish()
	cov["explanation"] = c.Explain
	cov["rule"] = c.Technique
	cov["packages_loaded"] = len(env.P.Pkgs)
	if nKnown > 0 {
		cov["known_findings_seen"] = nKnown
	}
	var keys []string
	for k := range cov {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	fmt.Printf("property %s: %s\n", c.ID, c.Technique)
	for _, k := range keys {
		if k != "explanation" && k != "rule" && k != "analysed" {
			fmt.Printf("  %s: %v\n", k, cov[k])
		}
	}
	ev := evidence{Property: c.ID, Tier: tier, Seed: seed, Level: c.Level(), Coverage: cov, Assumptions: c.Assume, WallS: loadS + time.Since(t1).Seconds(), Violations: len(unknown)}
	dir := filepath.Join(root, "evidence")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		fmt.Println(err)
		return 2
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, c.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println(err)
		return 2
	}
	if len(unknown) > 0 {
		replay := filepath.Join(dir, c.ID+".violations.txt")
		var sb strings.Builder
		fmt.Fprintf(&sb, "property %s\nrule: %s\nreproduce: cd /verif && ./check.sh %s\n\n", c.ID, c.Technique, c.ID)
		for _, i := range unknown {
			v := r.Violations[i]
			fmt.Printf("  %s %s: %s\n", v.Pos, v.Func, v.Msg)
			fmt.Fprintf(&sb, "%s\n  in %s\n  %s\n", v.Pos, v.Func, v.Msg)
			for _, l := range v.Chain {
				fmt.Printf("      %s\n", l)
				fmt.Fprintf(&sb, "      %s\n", l)
			}
		}
		if r.Err != nil {
			fmt.Println("note:", r.Err)
		}
		if err := os.WriteFile(replay, []byte(sb.String()), 0o644); err != nil {
			fmt.Println(err)
			return 2
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, replay)
		return 1
	}
	if r.Err != nil {
		fmt.Println("error:", r.Err)
		return 2
	}
	fmt.Printf("  no violation (%.1fs)\n", ev.WallS)
	return 0
}

func loadKnown(path string) ([]known, error) {
	b, err := os.ReadFile(path)
	if os.IsNotExist(err) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	var out []known
	for i, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if l == "" || strings.HasPrefix(l, "fixed:") {
			continue
		}
		var k known
		if err := json.Unmarshal([]byte(l), &k); err != nil {
			return nil, fmt.Errorf("%s:%d: %w", path, i+1, err)
		}
		if _, err := regexp.Compile(k.Match); err != nil || k.Match == "" || k.Property == "" {
			return nil, fmt.Errorf("%s:%d: bad entry", path, i+1)
		}
		out = append(out, k)
	}
	return out, nil
}

// list prints what is registered, for the manifest.
func list() {
	var ids []string
	for id := range checks.Registry {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	var out []map[string]string
	for _, id := range ids {
		c := checks.Registry[id]
		out = append(out, map[string]string{"property": id, "technique": c.Technique, "level": c.Level(), "level_note": c.Explain})
	}
	b, _ := json.MarshalIndent(out, "", " ")
	fmt.Println(string(b))
}
