package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// rootArgs analyses fn with unknown, non-nil arguments.
func (in *Interp) rootArgs(st *State, fn *ssa.Function) ([]Outcome, []*Term) {
	var args []*Term
	for _, p := range fn.Params {
		t := mkSym("arg:"+fn.Name()+":"+p.Name(), p.Type())
		args = append(args, t)
		switch p.Type().Underlying().(type) {
		case *types.Pointer, *types.Interface, *types.Signature, *types.Map:
			st.facts[mkApp("isnil", t)] = false
		}
	}
	return in.call(st, fn, args, nil, Ctx{fn.Name(), 0}), args
}
