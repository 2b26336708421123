package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// inconclusive tells why the results do not support a verdict: an entry in
// which no path completed, or in which a point the harness has to reach was
// never reached, shows nothing.
func inconclusive(rs []*entryResult) string {
	for _, r := range rs {
		if len(r.confirmed) > 0 {
			continue
		}
		if r.sh.okPaths == 0 {
			return r.cfg.Entry + ": no path completed"
		}
		if r.sh.timedOut {
			continue
		}
		for _, l := range r.cfg.Labels {
			if r.sh.reach[l] == 0 {
				return r.cfg.Entry + ": label " + l + " not reached"
			}
		}
	}
	return ""
}

func fnPkg(f *ssa.Function) string {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Origin() != nil {
		f = f.Origin()
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if f.Object() != nil && f.Object().Pkg() != nil {
		return f.Object().Pkg().Path()
	}
	return ""
}

func writeEvidence(prop, tier string, cc checkCfg, rs []*entryResult, wall float64, viol int) {
	if prop == "" {
		return
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var paths, branches, validated, asserts, symAsserts int
	var q, hits, sat, unsat, unk int64
	var st float64
	samples := []any{}
	entries := []any{}
	fns := map[string]bool{}
	libs := map[string]int{}
	var notes []string
	complete := true
	for _, r := range rs {
		sh := r.sh
		paths += int(sh.paths)
		branches += int(sh.branches)
		validated += r.validated
		asserts += int(sh.asserts)
		symAsserts += int(sh.assertsSym)
		q += sh.solver.Queries.Load()
		hits += sh.solver.Hits.Load()
		sat += sh.solver.SatN.Load()
		unsat += sh.solver.UnsatN.Load()
		unk += sh.solver.UnknownN.Load()
		st += float64(sh.solver.TimeNs.Load()) / 1e9
		for _, s := range r.samples {
			samples = append(samples, s)
		}
		for f := range sh.fnSeen {
			p := fnPkg(f)
			switch {
			case strings.HasPrefix(p, modPath+"/zzverif"):
			case strings.HasPrefix(p, modPath):
				fns[f.String()] = true
			default:
				libs[p]++
			}
		}
		e := map[string]any{
			"entry": r.cfg.Entry, "what": r.cfg.What, "bounds": r.params, "paths": sh.paths, "paths_completed": sh.okPaths, "paths_outside_assumptions": sh.assumed,
			"assertions_checked": sh.asserts, "queries": sh.solver.Queries.Load(), "solver_s": float64(sh.solver.TimeNs.Load()) / 1e9, "wall_s": r.wall,
			"longest_path_choices": sh.maxPathLen, "instructions": sh.stepsTotal, "labels_reached": sh.reach,
		}
		if sh.timedOut {
			e["budget_exhausted_pending_paths"] = sh.pending
			complete = false
		}
		if len(sh.unsup) > 0 {
			e["unsupported"] = sh.unsup
			complete = false
		}
		if len(sh.limits) > 0 {
			e["limits"] = sh.limits
			complete = false
		}
		if sh.unkBranch+sh.unkAssert > 0 {
			e["undecided"] = sh.unkBranch + sh.unkAssert
			complete = false
		}
		if r.mismatch+r.spurious+r.errNative > 0 {
			e["engine_native_mismatches"] = r.mismatch
			e["spurious_counterexamples"] = r.spurious
			e["native_errors"] = r.errNative
			notes = append(notes, r.mismatches...)
			complete = false
		}
		entries = append(entries, e)
	}
	var fl []string
	for f := range fns {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	cov := map[string]any{
		"states": paths, "transitions": branches, "traces_validated_against_impl": validated, "samples": samples,
		"exhaustive": complete, "rule": "states: symbolic paths explored; transitions: symbolic branch decisions; traces validated: path models replayed on the compiled code with equal observations",
		"assertions": asserts, "assertions_with_symbolic_condition": symAsserts,
		"solver":            map[string]any{"name": "z3", "queries": q, "cache_hits": hits, "sat": sat, "unsat": unsat, "unknown": unk, "time_s": st},
		"functions_encoded": fl, "library_functions_encoded": libs, "entries": entries,
	}
	if tier == "thorough" {
		n, bad := 0, 0
		for _, r := range rs {
			a, b := r.sh.solver.CrossCheck("cvc5", []string{"--incremental", "--lang=smt2", "--tlimit-per=2000"}, 2000, int64(seed), 30*time.Second)
			n += a
			bad += b
		}
		cov["second_solver"] = map[string]any{"name": "cvc5", "queries_rechecked": n, "disagreements": bad}
		if bad > 0 {
			fmt.Printf("    solvers disagree on %d of %d queries\n", bad, n)
		}
	}
	if len(notes) > 0 {
		cov["notes"] = notes
	}
	as := append([]string{"outside the bounds listed per entry nothing is claimed"}, cc.Outside...)
	ev := map[string]any{"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "assumptions": as, "wall_s": wall, "violations": viol}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verifDir, "evidence", prop+".json"), append(b, '\n'), 0o644)
}
