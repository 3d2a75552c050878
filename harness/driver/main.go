// Driver used by every check: it links the compiler of /repo's working tree
// (through `go build -overlay`, so nothing is written in /repo) and exposes the
// pipeline stages through their exported API, one verdict per request.
//
//	driver compile SRC OUT.ll [CTXDIR]   one JSON verdict on stdout
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"strings"

	"github.com/gabivlj/candice/internals/compiler"
	"github.com/gabivlj/candice/internals/lexer"
	"github.com/gabivlj/candice/internals/parser"
	"github.com/gabivlj/candice/internals/semantic"
)

type verdict struct {
	Stage    string   `json:"stage"` // parse, semantic, compile, emit, ok
	Errors   []string `json:"errors,omitempty"`
	Warnings []string `json:"warnings,omitempty"`
	Panic    string   `json:"panic,omitempty"`
	Stack    string   `json:"stack,omitempty"`
	Flags    []string `json:"flags,omitempty"`
}

func emit(v *verdict) {
	b, _ := json.Marshal(v)
	os.Stdout.WriteString("\n@@VERDICT " + string(b) + "\n")
}

func errs(in []error) []string {
	out := []string{}
	for _, e := range in {
		out = append(out, e.Error())
	}
	return out
}

func compile(src, out, ctx string) {
	v := &verdict{Stage: "parse"}
	defer func() {
		if r := recover(); r != nil {
			v.Panic = fmt.Sprint(r)
			st := string(debug.Stack())
			if i := strings.Index(st, "panic("); i >= 0 {
				st = st[i:]
			}
			if len(st) > 3000 {
				st = st[:3000]
			}
			v.Stack = st
		}
		emit(v)
	}()
	text, err := os.ReadFile(src)
	if err != nil {
		panic(err)
	}
	p := parser.New(lexer.New(string(text)))
	root := p.Parse()
	if len(p.Errors) > 0 {
		v.Errors = errs(p.Errors)
		return
	}
	v.Stage = "semantic"
	s := semantic.New()
	semantic.ResetPaths()
	if ctx != "" {
		s.ContextDirectoryPath = ctx
	}
	s.Analyze(root)
	v.Warnings = errs(s.Warnings)
	if len(s.Errors) > 0 {
		v.Errors = errs(s.Errors)
		return
	}
	v.Stage = "compile"
	c := compiler.New(s)
	c.CompileWithEventHandler(root, func(e compiler.Event) {
		if e.Kind == compiler.AddFlags {
			v.Flags = append(v.Flags, e.Data)
		}
	})
	v.Stage = "emit"
	// GenerateExecutableCXX writes a file and hands it to the C++ driver; here
	// the driver is this program, which keeps a copy.
	os.Setenv("VF_CXX", "1")
	defer os.Unsetenv("VF_CXX")
	if err := c.GenerateExecutableCXX(out, os.Args[0], nil); err != nil {
		v.Errors = []string{err.Error()}
		return
	}
	v.Stage = "ok"
}

// When invoked as the "cxx": its arguments have a file of code, and -o OUT
func asCXX(args []string) {
	in, out := "", ""
	for i, a := range args {
		if a == "-o" && i+1 < len(args) {
			out = args[i+1]
		} else if strings.HasSuffix(a, ".ll") && (i == 0 || args[i-1] != "-o") {
			in = a
		}
	}
	copyAsCXX(in, out)
}

func copyAsCXX(in, out string) {
	b, err := os.ReadFile(in)
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	if err := os.WriteFile(out, b, 0o644); err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
}

func main() {
	if os.Getenv("VF_CXX") != "" {
		asCXX(os.Args[1:])
		return
	}
	if len(os.Args) < 2 {
		os.Exit(64)
	}
	switch os.Args[1] {
	case "compile":
		ctx := ""
		if len(os.Args) > 4 {
			ctx = os.Args[4]
		}
		compile(os.Args[2], os.Args[3], ctx)
	default:
		if !extra(os.Args[1:]) {
			os.Exit(64)
		}
	}
}
