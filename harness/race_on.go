//go:build race && vfsched

package main

import (
	"fmt"
	"os"
	"runtime"
	"strconv"
	"time"
)

const raceMode = true

// racePair INDEX FIRST: one pair of programs, each goroutine runs its program twice and they take turns, handed over
// without any synchronisation, so that every two conflicting accesses of the library that only the turn keeps apart
// are reported by the race detector.

var raceTurn, raceDone int

//go:norace
func raceWait(me int) {
	for raceTurn%2 != me {
		runtime.Gosched()
	}
}

//go:norace
func raceNext() { raceTurn++ }

//go:norace
func raceEnd() { raceDone++ }

//go:norace
func raceJoin() bool {
	for i := 0; raceDone < 2; i++ {
		if i > 200000 {
			return false
		}
		if i > 1000 {
			time.Sleep(100 * time.Microsecond)
		}
		runtime.Gosched()
	}
	return true
}

func init() {
	helpers["racepair"] = func(a []string) {
		pi, _ := strconv.Atoi(a[0])
		first, _ := strconv.Atoi(a[1])
		schedInit()
		f := schedPairs()[pi].mk()
		var msg [2]string
		for i := 0; i < 2; i++ {
			i := i
			go func() {
				for r := 0; r < 2; r++ {
					raceWait(i ^ first)
					raceRun(f[i], &msg[i])
					raceNext()
				}
				raceEnd()
			}()
		}
		ok := raceJoin()
		fmt.Println("ran", ok, "races", runtime.RaceErrors(), msg[0], msg[1])
		os.Exit(0)
	}
}

func raceRun(f func() string, msg *string) {
	defer func() {
		if r := recover(); r != nil {
			*msg = "panic"
		}
	}()
	f()
}
