package mctime

import (
	"os"
	"time"
)

// Tickers are those made by the code under test, oldest first.
var Tickers []chan time.Time

// NewTicker is one which ticks when it is told to.
func NewTicker(d time.Duration) *time.Ticker {
	c := make(chan time.Time)
	mu.Lock()
	Tickers = append(Tickers, c)
	mu.Unlock()
	return &time.Ticker{C: c}
}

// Left is how many changes of the disk still happen before the crash (-1: no crash).
var Left = -1

// Changes is how many there were.
var Changes int

type crashed struct{}

// Crashed tells whether a panic is the crash.
func Crashed(e any) bool { _, ok := e.(crashed); return ok }

func change() {
	if Left == 0 {
		panic(crashed{})
	}
	if Left > 0 {
		Left--
	}
	Changes++
}

// Remove is os.Remove.
func Remove(name string) error { change(); return os.Remove(name) }

// Truncate is os.Truncate.
func Truncate(name string, n int64) error { change(); return os.Truncate(name, n) }
