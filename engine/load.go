package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// loadProgram builds SSA for the harness package and everything it imports.
func loadProgram(dir string, env []string, overlay map[string][]byte) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:     dir,
		Env:     env,
		Overlay: overlay,
	}
	pkgs, err := packages.Load(cfg, "zzverif/harness")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		if len(errs) > 8 {
			errs = errs[:8]
		}
		return nil, fmt.Errorf("%s", strings.Join(errs, "\n"))
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	p := &Program{prog: prog, codes: map[*ssa.Function]*Code{}, gidx: map[*ssa.Global]int{}, redirect: map[string]*ssa.Function{}, methods: map[methKey]*ssa.Function{}}
	for _, sp := range spkgs {
		if sp != nil {
			p.harnessPkg = sp
		}
	}
	for _, sp := range prog.AllPackages() {
		pp := sp.Pkg.Path()
		if strings.HasPrefix(pp, libPrefix) || strings.HasPrefix(pp, "zzverif") || pp == "encoding/binary" || pp == "errors" || pp == "bytes" || pp == "hash/fnv" || pp == "io" {
			sp.Build()
		}
	}
	nd := prog.ImportedPackage(ndPath)
	if nd == nil {
		return nil, fmt.Errorf("package %s not loaded", ndPath)
	}
	for from, to := range twins() {
		if f := nd.Func(to); f != nil {
			p.redirect[from] = f
		}
	}
	return p, nil
}

// twins maps functions of the standard library to the functions of package nd that run in their place.
func twins() map[string]string {
	m := map[string]string{
		"encoding/binary.Write": "BinaryWrite",
		"encoding/binary.Read":  "BinaryRead",
		"encoding/binary.Size":  "BinarySize",

		"(*sync.Pool).Get":           "PoolGet",
		"(*sync.Pool).Put":           "PoolPut",
		"(*sync/atomic.Value).Load":  "AtomicValueLoad",
		"(*sync/atomic.Value).Store": "AtomicValueStore",
		"(*sync/atomic.Value).Swap":  "AtomicValueSwap",

		"errors.Is":                        "ErrorsIs",
		"sort.Slice":                       "SortSlice",
		"sort.SliceStable":                 "SortSliceStable",
		"sort.SliceIsSorted":               "SortSliceIsSorted",
		"os.Stat":                          "OsStat",
		"os.Lstat":                         "OsStat",
		"os.Remove":                        "OsRemove",
		"os.IsNotExist":                    "OsIsNotExist",
		"bytes.Index":                      "BytesIndex",
		"strings.Index":                    "StringsIndex",
		"internal/bytealg.IndexByte":       "IndexByte",
		"internal/bytealg.IndexByteString": "IndexByteString",
		"internal/bytealg.LastIndexByte":   "LastIndexByte",
		"internal/bytealg.Count":           "CountByte",
		"internal/bytealg.CountString":     "CountByteString",
	}
	for _, n := range []string{"Load", "Store", "Delete", "LoadOrStore", "LoadAndDelete", "Swap", "Clear", "Range"} {
		m["(*sync.Map)."+n] = "SyncMap" + n
	}
	for _, n := range []string{"Add", "Load", "Store", "Swap", "CompareAndSwap"} {
		for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
			m["sync/atomic."+n+t] = n + t
		}
	}
	return m
}

// harnesses reads harness.All from a booted worker.
func (w *Worker) harnesses() ([]*Harness, error) {
	g, ok := w.prog.harnessPkg.Members["All"].(*ssa.Global)
	if !ok {
		return nil, fmt.Errorf("harness.All not found")
	}
	et := g.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Slice).Elem().Underlying().(*types.Struct)
	off := map[string]int{}
	for i := 0; i < et.NumFields(); i++ {
		off[et.Field(i).Name()] = fieldOff(et, i)
	}
	n := slotsOf(et)
	o := w.boot.global(w.prog.globalIdx(g))
	s, _ := o.slots[0].R.(*SliceV)
	if s == nil {
		return nil, fmt.Errorf("harness.All is empty")
	}
	var out []*Harness
	for i := 0; i < s.len; i++ {
		f := s.obj.slots[s.off+i*n : s.off+(i+1)*n]
		h := &Harness{reached: map[string]int64{}}
		h.Name, _ = f[off["Name"]].str()
		h.Props, _ = f[off["Props"]].str()
		h.Bounds, _ = f[off["Bounds"]].str()
		h.Quick = f[off["Quick"]].U != 0
		h.Split = int(f[off["Split"]].U)
		h.fn = f[off["Fn"]].R.(*FuncV).fn
		out = append(out, h)
	}
	return out, nil
}
