// Command tsref prints what the compiler itself reports, for the checks to compare tsgolint with. It uses no code of tsgolint.
package main

import (
	"context"
	"encoding/json"
	"os"
	"path"
	"sync"

	"github.com/microsoft/typescript-go/internal/ast"
	"github.com/microsoft/typescript-go/internal/bundled"
	"github.com/microsoft/typescript-go/internal/compiler"
	"github.com/microsoft/typescript-go/internal/core"
	"github.com/microsoft/typescript-go/internal/locale"
	"github.com/microsoft/typescript-go/internal/tsoptions"
	"github.com/microsoft/typescript-go/internal/vfs/osvfs"
)

type request struct {
	Config string   `json:"config"` // empty: default options
	Roots  []string `json:"roots"`  // for default options
	Cwd    string   `json:"cwd"`
	Files  []string `json:"files"`
	Threads bool    `json:"threads"`
}

type diag struct {
	Code int32  `json:"code"`
	Text string `json:"text"`
	File string `json:"file"`
	Pos  int    `json:"pos"`
	End  int    `json:"end"`
}

type answer struct {
	Parse     []diag            `json:"parse"`
	Program   []diag            `json:"program"`
	Roots     []string          `json:"roots"`
	Sources   []string          `json:"sources"`
	Syntactic map[string][]diag `json:"syntactic"`
	Semantic  map[string][]diag `json:"semantic"`
	Missing   []string          `json:"missing"`
}

func show(ds []*ast.Diagnostic) []diag {
	r := []diag{}
	for _, d := range ds {
		f := ""
		if d.File() != nil {
			f = d.File().FileName()
		}
		r = append(r, diag{d.Code(), d.Localize(locale.Default), f, d.Pos(), d.End()})
	}
	return r
}

func one(q request) (a answer) {
	fs := bundled.WrapFS(osvfs.FS())
	a.Syntactic, a.Semantic = map[string][]diag{}, map[string][]diag{}
	a.Roots, a.Sources, a.Missing = []string{}, []string{}, []string{}
	cwd := q.Cwd
	if cwd == "" {
		cwd = path.Dir(q.Config)
	}
	host := compiler.NewCompilerHost(cwd, fs, bundled.LibPath(), nil, nil)
	single := core.TSTrue
	if q.Threads {
		single = core.TSFalse
	}
	opts := compiler.ProgramOptions{Host: host, SingleThreaded: single}
	if q.Config != "" {
		p, errs := tsoptions.GetParsedCommandLineOfConfigFile(q.Config, &core.CompilerOptions{}, nil, host, nil)
		if len(errs) > 0 {
			a.Parse = show(errs)
			return
		}
		a.Parse = show(p.Errors)
		a.Roots = p.FileNames()
		opts.Config = p
		opts.UseSourceOfProjectReference = true
	} else {
		opts.Config = &tsoptions.ParsedCommandLine{ParsedConfig: &core.ParsedOptions{FileNames: q.Roots, CompilerOptions: &core.CompilerOptions{
			AllowJs: core.TSTrue, Module: core.ModuleKindESNext, ModuleResolution: core.ModuleResolutionKindBundler, Target: core.ScriptTargetES2022,
			Jsx: core.JsxEmitReactJSX, AllowImportingTsExtensions: core.TSTrue, StrictNullChecks: core.TSTrue, StrictFunctionTypes: core.TSTrue,
			SourceMap: core.TSTrue, ESModuleInterop: core.TSTrue, AllowNonTsExtensions: core.TSTrue, ResolveJsonModule: core.TSTrue}}}
	}
	program := compiler.NewProgram(opts)
	a.Program = show(program.GetProgramDiagnostics())
	for _, f := range program.SourceFiles() {
		if !bundled.IsBundled(f.FileName()) {
			a.Sources = append(a.Sources, f.FileName())
		}
	}
	ctx := core.WithRequestID(context.Background(), "__single_run__")
	program.BindSourceFiles()
	for _, n := range q.Files {
		f := program.GetSourceFile(n)
		if f == nil {
			a.Missing = append(a.Missing, n)
			continue
		}
		a.Syntactic[n] = show(program.GetSyntacticDiagnostics(ctx, f))
		a.Semantic[n] = show(program.GetSemanticDiagnostics(ctx, f))
	}
	return
}

func main() {
	var qs []request
	if err := json.NewDecoder(os.Stdin).Decode(&qs); err != nil {
		panic(err)
	}
	out := make([]*answer, len(qs))
	var wg sync.WaitGroup
	ch := make(chan int)
	for range 6 {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				a := one(qs[i])
				out[i] = &a
			}
		}()
	}
	for i := range qs {
		ch <- i
	}
	close(ch)
	wg.Wait()
	if err := json.NewEncoder(os.Stdout).Encode(out); err != nil {
		panic(err)
	}
}
