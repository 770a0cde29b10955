package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

var startTime = time.Now()

type failure struct {
	contract, label, kind, pos, detail string
	obl                                *Obligation
	res                                *ContractResult
}

var unsafeName = regexp.MustCompile(`[^A-Za-z0-9_.-]+`)

func loadFindings(path, prop string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(path)
	if err != nil {
		return out
	}
	re := regexp.MustCompile(`^finding: property=(\S+) obligation=(\S+) :: (.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(l); m != nil && m[1] == prop {
			out[m[2]] = m[3]
		}
	}
	return out
}

func oblKey(contract, label string) string {
	return strings.TrimPrefix(contract, "contract_") + "/" + strings.ReplaceAll(label, " ", "_")
}

var dumpTime float64

func runCheck() int {
	prop := *flagProp
	if prop == "" {
		fmt.Println("no property given")
		return 1
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	evDir := filepath.Join(*flagVerif, "evidence")
	repDir := filepath.Join(evDir, "replay")
	os.MkdirAll(repDir, 0755)
	if *flagOnly == "" {
		old, _ := filepath.Glob(filepath.Join(repDir, prop+"-*"))
		for _, f := range old {
			os.RemoveAll(f)
		}
	}
	findings := loadFindings(filepath.Join(*flagVerif, "known-findings.txt"), prop)
	quick, full := 5, 60
	budget := 600 * time.Second
	if *flagTier == "thorough" {
		quick, full = 20, 240
		budget = 3000 * time.Second
	}
	deadline = startTime.Add(budget)

	var fails []failure
	ov, real, pats := overlayFor(*flagVerif, *flagRepo, prop)
	p, err := loadProgram(*flagRepo, pats, ov)
	var results []*ContractResult
	if err != nil {
		fails = append(fails, failure{contract: "load", label: "the contracts apply to the code", kind: "load", detail: err.Error()})
	} else {
		p.runInit()
		cs := p.contracts()
		var names []string
		for n := range cs {
			if !strings.HasPrefix(n, "contract_"+prop+"_") || *flagOnly != "" && !strings.Contains(n, *flagOnly) {
				continue
			}
			names = append(names, n)
		}
		sort.Strings(names)
		if len(names) == 0 {
			fails = append(fails, failure{contract: "load", label: "contracts present", kind: "load", detail: "no contract found"})
		}
		for _, n := range names {
			attempt := func() (*ContractResult, int) {
				r := verifyContract(p, n, cs[n], prop)
				tx := time.Now()
				discharge(r.Obls, quick, full)
				r.SolveSecs = time.Since(tx).Seconds()
				ok := 0
				for _, o := range r.Obls {
					if o.Proved {
						ok++
					}
				}
				return r, ok
			}
			byName, nameBound = true, false
			r, ok := attempt()
			if nameBound && (r.Err != "" || r.Vacuous || ok < len(r.Obls)) {
				// an invariant bound to variables by name may be meant for others
				byName = false
				if r2, ok2 := attempt(); r2.Err == "" && !r2.Vacuous && ok2 == len(r2.Obls) {
					r, ok = r2, ok2
				}
			}
			results = append(results, r)
			if r.Err == "" && len(r.Obls) == 0 {
				r.Err = "no obligation generated"
			}
			fmt.Printf("%s: %d/%d obligations proved, %d loop-invariant checks, execution %.1fs, solving %.1fs, exit reachable: %s%s\n", n, ok, len(r.Obls), r.LoopObls, r.Seconds, r.SolveSecs, r.ExitCheck, ifs(r.Err != "", ", NOT VERIFIED: "+r.Err))
			if r.Err != "" {
				fails = append(fails, failure{contract: n, label: "verifiable", kind: "unsupported", detail: r.Err, res: r})
			} else if r.Vacuous {
				fails = append(fails, failure{contract: n, label: "not vacuous", kind: "vacuity", detail: "no execution satisfies the contract's assumptions", res: r})
			}
			for _, o := range r.Obls {
				if !o.Proved {
					fails = append(fails, failure{contract: n, label: o.Label, kind: o.Kind, pos: o.Pos, detail: o.Status, obl: o, res: r})
				}
				if *flagDump != "" && strings.Contains(o.Label, *flagDump) && o.Query != nil && o.Result.Time >= dumpTime {
					dumpTime = o.Result.Time
					os.WriteFile("/tmp/dump.smt2", []byte(o.Query.Text+"(check-sat)\n"), 0644)
					if o.Query.lite != nil {
						os.WriteFile("/tmp/dumpl.smt2", []byte(o.Query.lite.Text+"(check-sat)\n"), 0644)
					}
					os.WriteFile("/tmp/dumpq.smt2", []byte(o.Query.QText+"(check-sat)\n"), 0644)
				}
			}
			if *flagVerb {
				for _, o := range r.Obls {
					if o.Result.Time > 2 {
						fmt.Printf("    %.1fs %s %s\n", o.Result.Time, o.Label, o.Result.Solver)
					}
				}
				for k, v := range r.Inv {
					fmt.Println("   ", k, v)
				}
			}
		}
	}

	// report
	known := map[string]bool{}
	var viol []failure
	for _, f := range fails {
		k := oblKey(f.contract, f.label)
		if d, ok := findings[k]; ok && f.obl != nil {
			if !known[k] {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, d)
			}
			known[k] = true
			continue
		}
		viol = append(viol, f)
	}
	rp := newReplayer(p, real)
	perLabel := map[string]int{}
	nrep := 0
	for _, f := range viol {
		k := oblKey(f.contract, f.label)
		perLabel[k]++
		if perLabel[k] > 1 {
			continue
		}
		nrep++
		path := filepath.Join(repDir, prop+"-"+unsafeName.ReplaceAllString(k, "_")+".txt")
		if len(path) > 200 {
			path = path[:190] + fmt.Sprintf("%d.txt", nrep)
		}
		var sb strings.Builder
		fmt.Fprintf(&sb, "property:   %s\nobligation: %s\ncontract:   %s\nkind:       %s\nat:         %s\nverifier:   %s\n", prop, f.label, f.contract, f.kind, f.pos, f.detail)
		confirmed := false
		if f.obl != nil {
			fmt.Fprintf(&sb, "solver:     %s (%.1fs)\n", f.obl.Result.Solver, f.obl.Result.Time)
			sb.WriteString(modelText(f.obl))
			if *flagReplay && nrep <= 6 {
				var txt string
				txt, confirmed = rp.replay(f)
				sb.WriteString("\n" + txt)
			}
		}
		os.WriteFile(path, []byte(sb.String()), 0644)
		fmt.Printf("FAILED %s [%s] at %s: %s\n", k, f.kind, f.pos, f.detail)
		if *flagVerb && f.obl != nil {
			fmt.Print(modelText(f.obl))
		}
		fmt.Printf("VIOLATION property=%s replay=%s%s\n", prop, path, ifs(!confirmed, " no-failing-input-found"))
	}
	if *flagOnly == "" {
		writeEvidence(evDir, prop, seed, results, len(viol), known, findings)
	}
	if len(viol) > 0 {
		return 1
	}
	return 0
}

func ifs(c bool, s string) string {
	if c {
		return s
	}
	return ""
}

func modelText(o *Obligation) string {
	var ks []*Term
	for t := range o.Result.Model {
		ks = append(ks, t)
	}
	if len(ks) == 0 {
		return ""
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].ID < ks[j].ID })
	var sb strings.Builder
	sb.WriteString("counterexample (initial state and chosen values):\n")
	n := 0
	for _, t := range ks {
		s := t.String()
		if len(s) > 200 {
			s = s[:200]
		}
		if strings.HasPrefix(t.Name, "Q!") {
			continue
		}
		fmt.Fprintf(&sb, "  %s = %#x\n", s, o.Result.Model[t])
		n++
		if n > 80 {
			break
		}
	}
	return sb.String()
}

var generalTrust = []string{
	"the govc verification-condition generator itself (Go SSA from golang.org/x/tools, symbolic heap, weakest-precondition style path merging; /verif/govc)",
	"the SMT solvers z3 and cvc5",
	"the Go compiler, runtime and standard library implement the language semantics; SSA construction by golang.org/x/tools/go/ssa",
	"machine integers are modelled exactly as fixed-width bit vectors (no mathematical integers); floating point is not modelled",
	"allocation always succeeds; make() lengths above 2^47 are treated as panics; termination and stack depth are not verified",
	"each contract is verified for one goroutine: interference by other goroutines is only what the contract states",
}

func writeEvidence(dir, prop string, seed int, rs []*ContractResult, viol int, known map[string]bool, findings map[string]string) {
	total, disc := 0, 0
	loopObl := 0
	by := map[string]int{}
	kinds := map[string]int{}
	fns := map[string]bool{}
	assum := map[string]bool{}
	inv := map[string]int{}
	var contracts []map[string]interface{}
	exec := 0.0
	cross := 0
	for _, r := range rs {
		ok, ens := 0, 0
		for _, o := range r.Obls {
			if _, isF := findings[oblKey(r.Name, o.Label)]; isF {
				continue
			}
			total++
			kinds[o.Kind]++
			if o.Kind == "ensures" {
				ens++
			}
			if o.Proved {
				disc++
				ok++
				by[o.Result.Solver]++
			}
			if o.Cross {
				cross++
			}
		}
		loopObl += r.LoopObls
		exec += r.Seconds
		for _, u := range r.Used {
			fns[u] = true
		}
		for _, a := range r.Assum {
			assum[a] = true
		}
		for k, v := range r.Inv {
			inv[k] += v
		}
		var labels []string
		for _, o := range r.Obls {
			if o.Kind == "ensures" && (len(labels) == 0 || labels[len(labels)-1] != o.Label) {
				labels = append(labels, o.Label)
			}
		}
		contracts = append(contracts, map[string]interface{}{"contract": strings.TrimPrefix(r.Name, "contract_"), "functions": r.Used, "obligations": len(r.Obls), "discharged": ok, "postconditions": labels})
	}
	ev := map[string]interface{}{
		"property": prop, "tier": *flagTier, "seed": seed, "level": "proof",
		"coverage": map[string]interface{}{
			"obligations":                 total,
			"discharged":                  disc,
			"checker_cmd":                 "bin/govc -prop " + prop + " -tier " + *flagTier,
			"trusted_base":                generalTrust,
			"obligations_by_kind":         kinds,
			"discharged_by_back_end":      by,
			"loop_invariant_checks":       loopObl,
			"loops":                       inv,
			"functions_under_contract":    sortedKeys(fns),
			"contracts":                   contracts,
			"solver_seconds":              float64(atomic.LoadInt64(&solverTime)) / 1e6,
			"solver_calls":                atomic.LoadInt64(&solverCalls),
			"symbolic_execution_seconds":  exec,
			"cross_checked_by_second_smt": cross,
			"known_findings":              sortedKeys(known),
		},
		"assumptions": append([]string{"preconditions (vRequires) of each contract hold at its callers; they are part of the contract text in /verif/contracts"}, sortedKeys(assum)...),
		"wall_s":      time.Since(startTime).Seconds(),
		"violations":  viol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(dir, prop+".json"), append(b, '\n'), 0644)
}

var _ = runtime.NumCPU
var _ sync.Mutex
