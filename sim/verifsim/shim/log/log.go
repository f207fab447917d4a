// Package log is the simulated counterpart of the standard package: output is captured and
// Fatal ends the simulated process.
package log

import (
	"bytes"
	"fmt"
	"io"
	real "log"

	"verifsim/vsim"
)

// Logger behaves like the standard logger without the time.
type Logger struct {
	out    io.Writer
	prefix string
	flags  int
}

const timeFlags = real.Ldate | real.Ltime | real.Lmicroseconds

var std = New(stderr{}, "", real.LstdFlags)

type stderr struct{}

func (stderr) Write(b []byte) (int, error) { vsim.Output(2, b); return len(b), nil }

func New(out io.Writer, prefix string, flag int) *Logger {
	return &Logger{out, prefix, flag}
}
func Default() *Logger { return std }

func (l *Logger) put(s string) error {
	var b bytes.Buffer
	real.New(&b, l.prefix, l.flags&^(timeFlags|real.Lshortfile|real.Llongfile)).Output(0, s)
	_, err := l.out.Write(b.Bytes())
	return err
}

func (l *Logger) Print(v ...any)               { l.put(fmt.Sprint(v...)) }
func (l *Logger) Printf(f string, v ...any)    { l.put(fmt.Sprintf(f, v...)) }
func (l *Logger) Println(v ...any)             { l.put(fmt.Sprintln(v...)) }
func (l *Logger) Output(d int, s string) error { return l.put(s) }
func (l *Logger) SetOutput(w io.Writer)        { l.out = w }
func (l *Logger) SetPrefix(p string)           { l.prefix = p }
func (l *Logger) Prefix() string               { return l.prefix }
func (l *Logger) SetFlags(f int)               { l.flags = f }
func (l *Logger) Flags() int                   { return l.flags }
func (l *Logger) Writer() io.Writer            { return l.out }
func (l *Logger) Fatal(v ...any)               { s := fmt.Sprint(v...); l.put(s); vsim.Exit(1, s) }
func (l *Logger) Fatalf(f string, v ...any)    { s := fmt.Sprintf(f, v...); l.put(s); vsim.Exit(1, s) }
func (l *Logger) Fatalln(v ...any)             { s := fmt.Sprintln(v...); l.put(s); vsim.Exit(1, s) }
func (l *Logger) Panic(v ...any)               { s := fmt.Sprint(v...); l.put(s); panic(s) }
func (l *Logger) Panicf(f string, v ...any)    { s := fmt.Sprintf(f, v...); l.put(s); panic(s) }
func (l *Logger) Panicln(v ...any)             { s := fmt.Sprintln(v...); l.put(s); panic(s) }

func Print(v ...any)               { std.Print(v...) }
func Printf(f string, v ...any)    { std.Printf(f, v...) }
func Println(v ...any)             { std.Println(v...) }
func Output(d int, s string) error { return std.Output(d, s) }
func SetOutput(w io.Writer)        { std.SetOutput(w) }
func SetPrefix(p string)           { std.SetPrefix(p) }
func Prefix() string               { return std.Prefix() }
func SetFlags(f int)               { std.SetFlags(f) }
func Flags() int                   { return std.Flags() }
func Writer() io.Writer            { return std.Writer() }
func Fatal(v ...any)               { std.Fatal(v...) }
func Fatalf(f string, v ...any)    { std.Fatalf(f, v...) }
func Fatalln(v ...any)             { std.Fatalln(v...) }
func Panic(v ...any)               { std.Panic(v...) }
func Panicf(f string, v ...any)    { std.Panicf(f, v...) }
func Panicln(v ...any)             { std.Panicln(v...) }

func init() {
	vsim.RegisterInit("log", func() {
		std = New(stderr{}, "", real.LstdFlags)
	})
}
