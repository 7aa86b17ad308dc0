// Command replay runs one harness natively on the inputs of a counterexample.
package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"sync"

	"verif/harness/sym"
)

func main() {
	if len(os.Args) < 3 {
		fmt.Println("usage: replay HARNESS MODEL.json [race]")
		os.Exit(4)
	}
	f, ok := registry[os.Args[1]]
	if !ok {
		fmt.Println("REPLAY-ERROR unknown harness")
		os.Exit(4)
	}
	debug.SetMemoryLimit(12 << 30)
	sym.Load(os.Args[2])
	if len(os.Args) > 3 && os.Args[3] == "race" {
		race(f)
		return
	}
	defer func() {
		if r := recover(); r != nil {
			fmt.Println("PANIC", r)
			os.Exit(1)
		}
	}()
	f()
	fmt.Println("REPLAY-OK")
}

// race runs the harness body in pairs of goroutines; the race detector reports
// conflicting accesses to anything they share.
func race(f func()) {
	sym.PerGoroutine()
	for i := 0; i < 20; i++ {
		var wg sync.WaitGroup
		for g := 0; g < 2; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() { recover() }()
				f()
			}()
		}
		wg.Wait()
	}
	fmt.Println("REPLAY-OK")
}
