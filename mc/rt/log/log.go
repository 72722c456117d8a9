// Package log is what package log is replaced with: output is dropped, Fatal ends the simulated process.
package log

import (
	"fmt"
	"io"
	"log"

	"zzmc/mc"
)

func Print(v ...any)            {}
func Printf(f string, v ...any) {}
func Println(v ...any)          {}
func Output(d int, s string) error {
	return nil
}
func Fatal(v ...any)            { mc.Exit("log.Fatal: "+fmt.Sprint(v...), false) }
func Fatalf(f string, v ...any) { mc.Exit("log.Fatal: "+fmt.Sprintf(f, v...), false) }
func Fatalln(v ...any)          { mc.Exit("log.Fatal: "+fmt.Sprintln(v...), false) }
func Panic(v ...any)            { panic(fmt.Sprint(v...)) }
func Panicf(f string, v ...any) { panic(fmt.Sprintf(f, v...)) }
func Panicln(v ...any)          { panic(fmt.Sprintln(v...)) }
func SetOutput(io.Writer)       {}
func SetPrefix(string)          {}
func SetFlags(int)              {}
func Flags() int                { return log.LstdFlags }
func Prefix() string            { return "" }
func Writer() io.Writer         { return io.Discard }

// Logger drops what it is given.
type Logger struct{}

func New(io.Writer, string, int) *Logger { return &Logger{} }
func Default() *Logger                   { return &Logger{} }

func (*Logger) Print(v ...any)               {}
func (*Logger) Printf(f string, v ...any)    {}
func (*Logger) Println(v ...any)             {}
func (*Logger) Output(d int, s string) error { return nil }
func (*Logger) Fatal(v ...any)               { Fatal(v...) }
func (*Logger) Fatalf(f string, v ...any)    { Fatalf(f, v...) }
func (*Logger) Fatalln(v ...any)             { Fatalln(v...) }
func (*Logger) Panic(v ...any)               { Panic(v...) }
func (*Logger) Panicf(f string, v ...any)    { Panicf(f, v...) }
func (*Logger) Panicln(v ...any)             { Panicln(v...) }
func (*Logger) SetOutput(io.Writer)          {}
func (*Logger) SetPrefix(string)             {}
func (*Logger) SetFlags(int)                 {}
func (*Logger) Flags() int                   { return 0 }
func (*Logger) Prefix() string               { return "" }
func (*Logger) Writer() io.Writer            { return io.Discard }
