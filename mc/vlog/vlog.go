// Package vlog is package log under the scheduler of package vs, without
// times.
package vlog

import (
	"fmt"
	"io"
	"log"
	"os"

	"verif.local/mc/vsync"
)

// Flags.
const (
	Ldate         = log.Ldate
	Ltime         = log.Ltime
	Lmicroseconds = log.Lmicroseconds
	Llongfile     = log.Llongfile
	Lshortfile    = log.Lshortfile
	LUTC          = log.LUTC
	Lmsgprefix    = log.Lmsgprefix
	LstdFlags     = log.LstdFlags
)

var (
	mu    vsync.Mutex
	out   io.Writer = os.Stderr
	flags int
	pre   string
)

// SetOutput is log.SetOutput.
func SetOutput(w io.Writer) {
	mu.Lock()
	defer mu.Unlock()
	out = w
}

// Writer is log.Writer.
func Writer() io.Writer {
	mu.Lock()
	defer mu.Unlock()
	return out
}

// Flags is log.Flags.
func Flags() int { return flags }

// SetFlags is log.SetFlags.
func SetFlags(f int) { flags = f }

// Prefix is log.Prefix.
func Prefix() string { return pre }

// SetPrefix is log.SetPrefix.
func SetPrefix(p string) { pre = p }

// Output is log.Output.
func Output(_ int, s string) error {
	s = pre + s
	if len(s) == 0 || s[len(s)-1] != '\n' {
		s += "\n"
	}
	mu.Lock()
	defer mu.Unlock()
	_, err := out.Write([]byte(s))
	return err
}

// Print is log.Print.
func Print(v ...interface{}) { Output(2, fmt.Sprint(v...)) }

// Printf is log.Printf.
func Printf(f string, v ...interface{}) { Output(2, fmt.Sprintf(f, v...)) }

// Println is log.Println.
func Println(v ...interface{}) { Output(2, fmt.Sprintln(v...)) }

// Fatal is log.Fatal.
func Fatal(v ...interface{}) { Print(v...); os.Exit(1) }

// Fatalf is log.Fatalf.
func Fatalf(f string, v ...interface{}) { Printf(f, v...); os.Exit(1) }

// Panicf is log.Panicf.
func Panicf(f string, v ...interface{}) { s := fmt.Sprintf(f, v...); Output(2, s); panic(s) }
