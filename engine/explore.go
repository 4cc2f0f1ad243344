package main

import (
	"encoding/hex"
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// pathRec is what is kept of an explored path.
type pathRec struct {
	harness string
	kind    string
	msg     string
	inputs  map[string]int64
	obs     [][2]string
	anyEnv  bool // schedule or map order chosen by the engine
	noObs   bool
}

func (r *pathRec) show() map[string]interface{} {
	out := map[string]interface{}{}
	var ks []string
	for k := range r.inputs {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for i, k := range ks {
		if i >= 40 {
			out["..."] = len(ks)
			break
		}
		out[k] = r.inputs[k]
	}
	return out
}

type violation struct {
	harness, msg, path string
}

type exploreResult struct {
	rep      *harnessReport
	fnSeen   map[string]int64
	viols    []*violation
	spurious []string
	samples  []*pathRec
	doubtful []*pathRec
}

func (e *Engine) bound(s string) {
	e.mu.Lock()
	e.bounds[s] = true
	e.mu.Unlock()
}

func (e *Engine) push(w *Worker, it *workItem) {
	e.mu.Lock()
	e.items = append(e.items, it)
	e.mu.Unlock()
	e.cond.Signal()
}

func (e *Engine) take() *workItem {
	e.mu.Lock()
	defer e.mu.Unlock()
	for {
		if e.stop {
			return nil
		}
		if n := len(e.items); n > 0 {
			it := e.items[n-1]
			e.items[n-1] = nil
			e.items = e.items[:n-1]
			e.active++
			return it
		}
		if e.active == 0 {
			e.cond.Broadcast()
			return nil
		}
		e.cond.Wait()
	}
}

func (e *Engine) finished() {
	e.mu.Lock()
	e.active--
	if e.active == 0 && len(e.items) == 0 {
		e.cond.Broadcast()
	}
	e.mu.Unlock()
}

func (p *Path) record(h string, o *outcome) *pathRec {
	r := &pathRec{harness: h, kind: o.kind, msg: o.msg, inputs: o.inputs, anyEnv: p.mapAny || p.schedAny}
	for t := range p.tags {
		if !strings.HasPrefix(t, "witness:") && !strings.HasPrefix(t, "a command crashed") {
			r.noObs = true
		}
	}
	for _, x := range p.obs {
		var b []byte
		for _, t := range p.w.strBytes(x.v) {
			b = append(b, byte(p.ctx.Eval(t, p.model)))
		}
		r.obs = append(r.obs, [2]string{x.name, hex.EncodeToString(b)})
	}
	return r
}

const keepSamples = 24

// explore runs every path of a harness within the bounds and the time given.
func (e *Engine) explore(c *config, nat *native, h *ssa.Function, hp *ssa.Package, deadline time.Time) *exploreResult {
	t0 := time.Now()
	res := &exploreResult{rep: &harnessReport{Name: h.Name()}, fnSeen: map[string]int64{}}
	e.items = []*workItem{{}}
	e.active = 0
	e.stop = false
	e.stopWhy = ""
	e.incomplete = map[string]int{}
	e.bounds = map[string]bool{}
	e.limits = Limits{steps: 20_000_000}
	timer := time.AfterFunc(time.Until(deadline), func() {
		e.mu.Lock()
		if !e.stop {
			e.stop = true
			e.stopWhy = "time budget"
		}
		e.mu.Unlock()
		e.cond.Broadcast()
	})
	defer timer.Stop()
	var mu sync.Mutex
	wit := map[string]bool{}
	rng := rand.New(rand.NewSource(int64(c.seed) + 1))
	seenDone := 0
	var ws []*Worker
	var wg sync.WaitGroup
	nspur := map[string]int{}
	for i := 0; i < c.workers; i++ {
		w := newWorker(e, i)
		ws = append(ws, w)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				it := e.take()
				if it == nil {
					return
				}
				out := w.runPath(h, it)
				mu.Lock()
				for t := range out.p.tags {
					if strings.HasPrefix(t, "witness:") && out.kind == "done" {
						wit[strings.TrimPrefix(t, "witness:")] = true
					}
				}
				mu.Unlock()
				switch out.kind {
				case "done":
					w.stat.done++
					mu.Lock()
					seenDone++
					if len(res.samples) < keepSamples {
						res.samples = append(res.samples, out.p.record(h.Name(), &out))
					} else if k := rng.Intn(seenDone); k < keepSamples {
						res.samples[k] = out.p.record(h.Name(), &out)
					}
					mu.Unlock()
				case "assume":
					w.stat.assumed++
				case "stop":
					e.noteIncomplete("path cut by the time budget")
				case "violation":
					w.stat.viol++
					rec := out.p.record(h.Name(), &out)
					mu.Lock()
					skip := nspur[out.msg] >= 6
					mu.Unlock()
					if skip {
						e.noteIncomplete("counterexamples of a kind that did not reproduce: " + out.msg)
						break
					}
					v, why := nat.confirm(rec)
					mu.Lock()
					if v != nil {
						res.viols = append(res.viols, v)
						e.mu.Lock()
						e.stop = true
						e.stopWhy = "violation"
						e.mu.Unlock()
						e.cond.Broadcast()
					} else {
						nspur[out.msg]++
						res.spurious = append(res.spurious, h.Name()+": "+out.msg+" ("+why+")")
					}
					mu.Unlock()
				case "limit", "unsupported", "internal":
					rec := out.p.record(h.Name(), &out)
					e.noteIncomplete(out.kind + ": " + out.msg)
					mu.Lock()
					if out.kind == "limit" {
						w.stat.limit++
					} else {
						w.stat.unsupp++
					}
					if len(res.doubtful) < 60 {
						res.doubtful = append(res.doubtful, rec)
					}
					mu.Unlock()
					if out.kind == "limit" {
						// perhaps a hang: ask the real program now
						mu.Lock()
						skip := nspur["limit"] >= 4
						nspur["limit"]++
						mu.Unlock()
						if !skip {
							if v, _ := nat.confirm(rec); v != nil {
								mu.Lock()
								res.viols = append(res.viols, v)
								mu.Unlock()
								e.mu.Lock()
								e.stop = true
								e.stopWhy = "violation"
								e.mu.Unlock()
								e.cond.Broadcast()
							}
						}
					}
				}
				e.finished()
			}
		}()
	}
	wg.Wait()
	r := res.rep
	for _, w := range ws {
		r.Paths += w.stat.paths
		r.Done += w.stat.done
		r.Assumed += w.stat.assumed
		r.Forks += w.stat.forks
		r.Picks += w.stat.picks
		r.Asserts += w.stat.asserts
		r.BySolver += w.stat.assertsSolver
		r.Steps += w.stat.steps
		r.CacheHits += w.stat.cacheHits
		r.Queries += w.solver.Queries
		r.Sat += w.solver.NSat
		r.Unsat += w.solver.NUnsat
		r.Unknown += w.solver.NUnknown
		r.SolverS += w.solver.Time.Seconds()
		r.Unsupported += w.stat.unsupp
		r.Limit += w.stat.limit
		for k, v := range w.fnSeen {
			res.fnSeen[k] += v
		}
		w.solver.Close()
		if w.xsolve != nil {
			w.xsolve.Close()
		}
	}
	if e.stop && e.stopWhy == "time budget" {
		e.incomplete[fmt.Sprintf("time budget reached with %d branches unexplored", len(e.items))] = 1
	}
	r.Exhausted = len(e.incomplete) == 0 && !e.stop
	if len(e.incomplete) > 0 {
		r.Incomplete = e.incomplete
	}
	for b := range e.bounds {
		r.Bounds = append(r.Bounds, b)
	}
	sort.Strings(r.Bounds)
	for t := range wit {
		r.Witnesses = append(r.Witnesses, t)
	}
	sort.Strings(r.Witnesses)
	r.Wall = time.Since(t0).Seconds()
	fmt.Fprintf(os.Stderr, "%s %s: %d paths (%d done, %d assumed away, %d over budget, %d unsupported), %d asserts (%d by solver), %d queries %.1fs solver, exhausted=%v, %.1fs\n",
		c.prop, h.Name(), r.Paths, r.Done, r.Assumed, r.Limit, r.Unsupported, r.Asserts, r.BySolver, r.Queries, r.SolverS, r.Exhausted, r.Wall)
	for k, v := range r.Incomplete {
		fmt.Fprintf(os.Stderr, "   incomplete: %s x%d\n", k, v)
	}
	if len(r.Witnesses) > 0 {
		fmt.Fprintf(os.Stderr, "   witnesses: %s\n", strings.Join(r.Witnesses, ", "))
	}
	return res
}

type Results struct{}
