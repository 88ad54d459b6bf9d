package main

import (
	"flag"
	"fmt"
	"os"
	"syscall"
	"testing"
	"time"

	"verif/harness/fw"
	_ "verif/harness/props"
)

func main() {
	var o fw.Options
	var replay, child string
	var times int
	var noisy, list bool
	flag.StringVar(&o.ID, "id", "", "property")
	flag.Uint64Var(&o.Seed, "seed", 1, "seed")
	flag.IntVar(&o.Shard, "shard", 0, "shard")
	flag.IntVar(&o.Shards, "shards", 1, "shards")
	flag.BoolVar(&o.Thorough, "thorough", false, "thorough tier")
	flag.Float64Var(&o.Scale, "scale", 0, "multiply case counts")
	flag.StringVar(&o.Out, "out", "", "result file")
	flag.StringVar(&o.Current, "current", "", "file holding the case being evaluated")
	flag.StringVar(&o.Only, "only", "", "only this sub")
	flag.DurationVar(&o.Shrink, "shrink", 15*time.Second, "shrink time")
	flag.StringVar(&replay, "replay", "", "replay a stored case")
	flag.IntVar(&times, "times", 1, "replay repetitions")
	flag.BoolVar(&noisy, "noisy", false, "leave stdout/stderr of the code under test")
	flag.StringVar(&child, "child", "", "run a registered child with the next argument")
	flag.BoolVar(&list, "list", false, "list properties")
	testing.Init()
	flag.Parse()
	if child != "" {
		fw.Child(child, flag.Args())
		return
	}
	if list {
		for _, id := range fw.IDs() {
			p := fw.Get(id)
			for _, s := range p.Subs {
				fmt.Println(id, s.Name, s.Quick)
			}
		}
		return
	}
	if !noisy {
		// the code under test prints a lot: stdout goes to /dev/null, stderr stays
		// (the runner keeps only its tail)
		fd, err := syscall.Dup(1)
		fw.Must(err)
		fw.SetStdout(os.NewFile(uintptr(fd), "stdout"))
		nul, err := os.OpenFile("/dev/null", os.O_WRONLY, 0)
		fw.Must(err)
		os.Stdout = nul
	}
	defer func() {
		if p := recover(); p != nil {
			if he, ok := p.(fw.HarnessError); ok {
				fmt.Fprintln(os.Stderr, he.Error())
				os.Exit(78)
			}
			panic(p)
		}
	}()
	if replay != "" {
		os.Exit(fw.Replay(replay, times))
	}
	fw.Run(o)
}
