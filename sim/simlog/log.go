// Package simlog stands in for package log: lines go to a recorder, Fatal ends
// the simulated process.
package simlog

import (
	"fmt"
	"io"
	"log"
	"strings"

	"wpkverif/simos"
	"wpkverif/simrt"
)

// Lines is what has been logged.
var Lines []string

// Hook is told about every line.
var Hook func(string)

type rec struct{}

func (rec) Write(p []byte) (int, error) {
	s := strings.TrimSuffix(string(p), "\n")
	Lines = append(Lines, s)
	simrt.Note("log " + s)
	if Hook != nil {
		Hook(s)
	}
	return len(p), nil
}

// Logger is log.Logger.
type Logger = log.Logger

const (
	Ldate         = log.Ldate
	Ltime         = log.Ltime
	Lmicroseconds = log.Lmicroseconds
	Llongfile     = log.Llongfile
	Lshortfile    = log.Lshortfile
	LUTC          = log.LUTC
	Lmsgprefix    = log.Lmsgprefix
	LstdFlags     = log.LstdFlags
)

var std = log.New(rec{}, "", 0)

func Default() *Logger                                 { return std }
func New(w io.Writer, prefix string, flag int) *Logger { return log.New(w, prefix, 0) }
func SetOutput(w io.Writer)                            {}
func SetFlags(int)                                     {}
func SetPrefix(p string)                               { std.SetPrefix(p) }
func Flags() int                                       { return 0 }
func Prefix() string                                   { return std.Prefix() }
func Writer() io.Writer                                { return rec{} }
func Output(d int, s string) error                     { return std.Output(d, s) }
func Print(a ...any)                                   { std.Print(a...) }
func Printf(f string, a ...any)                        { std.Printf(f, a...) }
func Println(a ...any)                                 { std.Println(a...) }
func Fatal(a ...any)                                   { std.Print(a...); simos.Exit(1) }
func Fatalf(f string, a ...any)                        { std.Printf(f, a...); simos.Exit(1) }
func Fatalln(a ...any)                                 { std.Println(a...); simos.Exit(1) }
func Panic(a ...any)                                   { s := fmt.Sprint(a...); std.Print(s); panic(s) }
func Panicf(f string, a ...any)                        { s := fmt.Sprintf(f, a...); std.Print(s); panic(s) }
func Panicln(a ...any)                                 { s := fmt.Sprintln(a...); std.Print(s); panic(s) }
