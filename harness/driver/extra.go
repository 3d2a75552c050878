package main

import (
	"encoding/base64"
	"fmt"
	"os"
	"runtime/debug"
	"strings"
	"time"
)

// driver batch LIST [CTXDIR]: LIST names one source file per line; one verdict
// per file, preceded by its number. The emitted code is kept as FILE.ll.
// Inputs run in one process: a hang ends it with status 3 after its verdict.
func batch(list, ctx string) {
	debug.SetMaxStack(256 << 20)
	b, err := os.ReadFile(list)
	if err != nil {
		panic(err)
	}
	for i, f := range strings.Split(strings.TrimSpace(string(b)), "\n") {
		fmt.Printf("\n@@INPUT %d\n", i)
		done := make(chan bool)
		go func() {
			compile(f, f+".ll", ctx)
			done <- true
		}()
		select {
		case <-done:
		case <-time.After(20 * time.Second):
			emit(&verdict{Stage: "hang"})
			os.Exit(3)
		}
	}
}

func unb64(s string) string {
	b, err := base64.StdEncoding.DecodeString(s)
	if err != nil {
		panic(err)
	}
	return string(b)
}

func extra(args []string) bool {
	switch args[0] {
	case "batch":
		ctx := ""
		if len(args) > 2 {
			ctx = args[2]
		}
		batch(args[1], ctx)
		return true
	}
	return false
}
