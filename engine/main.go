package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"os/signal"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var redirects = map[string]string{
	"context.WithCancel":      "WithCancel",
	"context.WithValue":       "WithValue",
	"context.WithTimeout":     "WithTimeout",
	"context.WithDeadline":    "WithDeadline",
	"context.WithCancelCause": "WithCancelCause",
	"context.Cause":           "Cause",
	"context.WithoutCancel":   "WithoutCancel",
	"runtime/pprof.Do":        "PprofDo",
	"runtime/pprof.Labels":    "PprofLabels",
	"errors.Is":               "ErrorsIs",
	"errors.As":               "ErrorsAs",
	"errors.Join":             "ErrorsJoin",
	"fmt.Sprintf":             "Sprintf",
	"fmt.Sprint":              "Sprint",
	"fmt.Errorf":              "Errorf",
	"fmt.Sprintln":            "Sprintln",
	"fmt.Fprintf":             "Fprintf",
	"fmt.Fprint":              "Fprint",
	"fmt.Fprintln":            "Fprintln",
	"fmt.Printf":              "Printf",
	"fmt.Print":               "Print",
	"fmt.Println":             "Print",
	"context.AfterFunc":       "AfterFunc",
	"sort.Slice":              "SortSlice",
	"sort.SliceStable":        "SortSlice",
	"sort.SliceIsSorted":      "SliceIsSorted",
	"sort.Ints":               "SortInts",

	"(*sync.Map).Load":           "MapLoad",
	"(*sync.Map).Store":          "MapStore",
	"(*sync.Map).LoadOrStore":    "MapLoadOrStore",
	"(*sync.Map).LoadAndDelete":  "MapLoadAndDelete",
	"(*sync.Map).Delete":         "MapDelete",
	"(*sync.Map).Swap":           "MapSwap",
	"(*sync.Map).CompareAndSwap": "MapCompareAndSwap",
	"(*sync.Map).Range":          "MapRange",
	"(*sync.Map).Clear":          "MapClear",
	"(*sync.Pool).Get":           "PoolGet",
	"(*sync.Pool).Put":           "PoolPut",
}

// what package vpc stands in for, when a harness uses it
var vpcRedirects = map[string]string{
	vpcPkg + ".NewC": "modelNewC",
	"time.After":     "modelAfter",
	"time.NewTimer":  "modelNewTimer",

	"(*time.Timer).Stop":   "modelStop",
	"context.WithTimeout":  "modelWithTimeout",
	"context.WithDeadline": "modelWithDeadline",

	"(*gopkg.in/check.v1.C).Failed":  "modelFailed",
	"(*gopkg.in/check.v1.C).Fail":    "modelFail",
	"(*gopkg.in/check.v1.C).FailNow": "modelFailNow",
	"(*gopkg.in/check.v1.C).Succeed": "modelSucceed",
	"(*gopkg.in/check.v1.C).Log":     "modelLog",
	"(*gopkg.in/check.v1.C).Logf":    "modelLogf",
	"(*gopkg.in/check.v1.C).Error":   "modelError",
	"(*gopkg.in/check.v1.C).Errorf":  "modelErrorf",
	"(*gopkg.in/check.v1.C).Fatal":   "modelFatal",
	"(*gopkg.in/check.v1.C).Fatalf":  "modelFatalf",
	"(*gopkg.in/check.v1.C).Check":   "modelCheck",
	"(*gopkg.in/check.v1.C).Assert":  "modelAssert",
}

func checkerPkg(path string) bool {
	return path == "gopkg.in/check.v1" || path == "github.com/juju/testing/checkers"
}

func overlay(root, repo string) map[string][]byte {
	ov := map[string][]byte{}
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(root, p)
		b, _ := os.ReadFile(p)
		ov[filepath.Join(repo, "zzverif", rel)] = b
		return nil
	})
	return ov
}

type Output struct {
	Harness    string            `json:"harness"`
	Prop       string            `json:"property"`
	Violations []OutViol         `json:"violations"`
	Incon      []string          `json:"inconclusive"`
	Asserts    []*AssertStat     `json:"asserts"`
	Goals      map[string]bool   `json:"goals"`
	Reach      []string          `json:"reach"`
	States     int               `json:"states"`
	Trans      int               `json:"transitions"`
	Merged     int               `json:"merged"`
	Forks      int               `json:"forks"`
	Queries    int               `json:"queries"`
	SatN       int               `json:"sat"`
	UnsatN     int               `json:"unsat"`
	UnkN       int               `json:"unknown"`
	SolverSec  float64           `json:"solver_seconds"`
	Sec        float64           `json:"seconds"`
	Depth      int               `json:"depth"`
	MaxLayer   int               `json:"max_layer"`
	Functions  []string          `json:"functions"`
	Terms      int               `json:"terms"`
	Instr      int64             `json:"instructions"`
	RacePairs  int               `json:"race_accesses"`
	Witness    map[string]*Trace `json:"witness"`
}

type OutViol struct {
	Msg   string `json:"msg"`
	Kind  string `json:"kind"`
	Extra string `json:"extra"`
	Trace *Trace `json:"trace"`
}

func main() {
	var (
		repo    = flag.String("repo", "/repo", "")
		hroot   = flag.String("harness", "/verif/harness", "")
		pkg     = flag.String("pkg", "", "harness package under zzverif")
		fn      = flag.String("fn", "", "entry function")
		prop    = flag.String("prop", "", "property id")
		depth   = flag.Int("depth", 200, "")
		maxst   = flag.Int("maxstates", 200000, "")
		secs    = flag.Float64("secs", 600, "")
		out     = flag.String("out", "", "")
		strictI = flag.Bool("strictints", false, "")
		strictB = flag.Bool("strictbools", false, "")
		nomerge = flag.Bool("nomergeerrs", false, "")
		mapord  = flag.Bool("maporders", false, "")
		race    = flag.Bool("race", false, "")
		nopor   = flag.Bool("nopor", false, "")
		z3bin   = flag.String("z3", "z3-new", "")
		qto     = flag.Int("qtimeout", 60000, "")
		witness = flag.Int("witness", 2, "number of reachability witnesses to emit as traces")
	)
	instr := flag.String("instrument", "", "write instrumented sources for replay to this directory")
	flag.Parse()
	usr1 := make(chan os.Signal, 1)
	signal.Notify(usr1, syscall.SIGUSR1)
	go func() {
		<-usr1
		stopNow.Store(true)
	}()
	if *instr != "" {
		if err := instrument(*repo, *hroot, *pkg, *fn, *instr); err != nil {
			fmt.Fprintln(os.Stderr, "instrument:", err)
			os.Exit(3)
		}
		return
	}
	initModels()
	start := time.Now()
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: *repo, Overlay: overlay(*hroot, *repo)}
	ps, err := packages.Load(cfg, sutPkg+"/zzverif/"+*pkg, modelPkg)
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		os.Exit(3)
	}
	bad := false
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			fmt.Fprintln(os.Stderr, e)
			bad = true
		}
	})
	if bad {
		os.Exit(3)
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	theProg = prog
	ex := &Exec{prog: prog, globals: map[*ssa.Global]ObjID{}, fns: map[*ssa.Function]*FnInfo{}, inited: map[*ssa.Package]bool{},
		redirect: redirects, visited: map[string]bool{}, reach: map[string]*Violation{}, reachAll: map[string]bool{}, asserts: map[string]*AssertStat{}, inconSet: map[string]bool{},
		fnSeen: map[*FnInfo]bool{}, violSet: map[string]bool{}, races: map[string]bool{}}
	ex.opt = Options{MaxTuples: 240, StrictInts: *strictI, StrictBools: *strictB, MergeErrs: !*nomerge, MapOrders: *mapord, MaxDepth: *depth, MaxStates: *maxst, MaxSeconds: *secs, AfterViol: *secs / 10, Prop: *prop, Race: *race, NoPOR: *nopor}
	ex.sol = NewSolver(*z3bin, *qto)
	defer ex.sol.Close()
	hp := prog.ImportedPackage(sutPkg + "/zzverif/" + *pkg)
	o := &Output{Harness: *pkg + "." + *fn, Prop: *prop, Witness: map[string]*Trace{}}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if u, ok := r.(Unsupported); ok {
					ex.inconclusive("unsupported: " + u.Msg)
					return
				}
				panic(r)
			}
		}()
		ex.runInit(hp)
		entry := hp.Func(*fn)
		if entry == nil {
			panic(Unsupported{"no harness function " + *fn})
		}
		ex.Explore(entry)
		for _, v := range ex.viol {
			tr := ex.extract(entry, v)
			o.Violations = append(o.Violations, OutViol{v.Msg, v.Kind, v.Extra, tr})
		}
		n := 0
		var ls []string
		for l := range ex.reach {
			ls = append(ls, l)
		}
		sort.Strings(ls)
		for _, l := range ls {
			o.Reach = append(o.Reach, l)
			if n < *witness {
				o.Witness[l] = ex.extract(entry, ex.reach[l])
				n++
			}
		}
	}()
	o.Incon = ex.incon
	for _, a := range ex.asserts {
		o.Asserts = append(o.Asserts, a)
	}
	sort.Slice(o.Asserts, func(i, j int) bool { return o.Asserts[i].Msg < o.Asserts[j].Msg })
	o.Goals = map[string]bool{}
	for l := range ex.reachAll {
		o.Goals[l] = ex.reach[l] != nil
	}
	o.States, o.Trans, o.Merged, o.Forks = ex.nStates, ex.nTrans, ex.nMerged, ex.nForks
	o.RacePairs = ex.nRacePairs
	o.Queries, o.SatN, o.UnsatN, o.UnkN = ex.sol.Queries, ex.sol.SatN, ex.sol.UnsatN, ex.sol.UnkN
	o.SolverSec = ex.sol.Time.Seconds()
	o.Sec = time.Since(start).Seconds()
	o.Depth, o.MaxLayer, o.Terms, o.Instr = ex.deepest, ex.maxLayer, int(TP.terms), ex.instrN
	for fi := range ex.fnSeen {
		if fi.sut || fi.pkg == "gopkg.in/tomb.v2" {
			o.Functions = append(o.Functions, fi.name)
		}
	}
	sort.Strings(o.Functions)
	b, _ := json.MarshalIndent(o, "", " ")
	if *out != "" {
		os.WriteFile(*out, b, 0644)
	}
	for _, v := range o.Violations {
		fmt.Printf("CEX %s [%s]\n", v.Msg, v.Kind)
		if os.Getenv("VP_V") != "" && v.Trace != nil {
			fmt.Println(v.Trace.text())
		}
	}
	for _, i := range o.Incon {
		fmt.Println("INCONCLUSIVE", i)
	}
	var unreached []string
	for l, ok := range o.Goals {
		if !ok {
			unreached = append(unreached, l)
		}
	}
	fmt.Printf("%s prop=%s states=%d trans=%d merged=%d forks=%d queries=%d solver=%.1fs depth=%d total=%.1fs violations=%d unreached=%v\n",
		o.Harness, *prop, o.States, o.Trans, o.Merged, o.Forks, o.Queries, o.SolverSec, o.Depth, o.Sec, len(o.Violations), unreached)
}

// packages whose initialisers are executed by the encoder
func initOK(path string) bool {
	if strings.HasPrefix(path, sutPkg) || strings.HasPrefix(path, "github.com/juju/") || path == "gopkg.in/tomb.v2" {
		return true
	}
	switch path {
	case "context", "io":
		return true
	}
	return false
}

func skipInit(path string) bool {
	switch path {
	case "github.com/juju/testing", "github.com/juju/testing/checkers", "github.com/juju/clock", "github.com/juju/loggo", "github.com/juju/utils/v3":
		return true
	}
	return strings.HasPrefix(path, "github.com/juju/testing") || strings.HasPrefix(path, "github.com/juju/utils") || strings.HasPrefix(path, "github.com/juju/loggo") || strings.HasPrefix(path, "github.com/juju/version") || strings.HasPrefix(path, "github.com/juju/retry") || strings.HasPrefix(path, "github.com/juju/mgo")
}

func (ex *Exec) runInit(hp *ssa.Package) {
	st := &State{guard: True, wit: &Model{m: map[*Term]uint64{}}, known: map[*Term]bool{}}
	st.heap = append(st.heap, nil)
	ex.initing = true
	// allocate globals of initialised packages
	all := ex.prog.AllPackages()
	sort.Slice(all, func(i, j int) bool { return all[i].Pkg.Path() < all[j].Pkg.Path() })
	for _, p := range all {
		path := p.Pkg.Path()
		if path != "github.com/juju/clock" && (!initOK(path) || skipInit(path)) {
			continue
		}
		p.Build()
		var names []string
		for n := range p.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			if g, ok := p.Members[n].(*ssa.Global); ok {
				func() {
					defer func() {
						if r := recover(); r != nil {
							if _, ok := r.(Unsupported); !ok {
								panic(r)
							}
						}
					}()
					ex.globals[g] = st.alloc(zero(g.Type().Underlying().(interface{ Elem() typesType }).Elem()))
				}()
			}
		}
	}
	// the checkers of gocheck: their names
	if gc := ex.prog.ImportedPackage("gopkg.in/check.v1"); gc != nil && ex.prog.ImportedPackage(vpcPkg) != nil {
		info := gc.Type("CheckerInfo").Type()
		for _, p := range all {
			if !checkerPkg(p.Pkg.Path()) {
				continue
			}
			for n, m := range p.Members {
				g, ok := m.(*ssa.Global)
				if !ok {
					continue
				}
				if t, ok := g.Type().Underlying().(*types.Pointer).Elem().(*types.Named); !ok || t.Obj().Name() != "Checker" {
					continue
				}
				v := zero(info).(*Struct)
				v = &Struct{f: append([]Value{n}, v.f[1:]...)}
				o := st.alloc(v)
				ex.globals[g] = st.alloc(Iface{tinfo(types.NewPointer(info)), Ptr{o, rootPath}})
			}
		}
	}
	intrinsicsInit(ex)
	main := &Gor{name: "main"}
	hp.Build()
	ex.callFn(st, main, hp.Func("init"), nil, nil, false)
	st.gs = []*Gor{main}
	st.runq = []string{"main"}
	res := ex.drain(st)
	if len(res) != 1 {
		panic(Unsupported{"package initialisation did not complete: " + strings.Join(ex.incon, "; ")})
	}
	ex.initing = false
	ex.initHeap = res[0].heap
	ex.perm = len(ex.initHeap)
	ex.instrN = 0
	ex.fnSeen = map[*FnInfo]bool{}
}
