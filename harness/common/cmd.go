package common

import (
	"fmt"
	"os"
)

// Std stands for the standard output and error of a command.
type Std struct{ B []byte }

func (s *Std) Write(p []byte) (int, error) { s.B = append(s.B, p...); return len(p), nil }

func (s *Std) WriteString(p string) (int, error) { s.B = append(s.B, p...); return len(p), nil }

// Stdout and Stderr are what the command run last has written.
var Stdout, Stderr = &Std{}, &Std{}

func Printf(format string, a ...any) (int, error) { return fmt.Fprintf(Stdout, format, a...) }
func Println(a ...any) (int, error)               { return fmt.Fprintln(Stdout, a...) }
func Print(a ...any) (int, error)                 { return fmt.Fprint(Stdout, a...) }

func Fatal(a ...any)                 { fmt.Fprint(Stderr, a...); Exit(1) }
func Fatalf(format string, a ...any) { fmt.Fprintf(Stderr, format, a...); Exit(1) }
func Fatalln(a ...any)               { fmt.Fprintln(Stderr, a...); Exit(1) }

type exit struct{ status int }

// Exit stands for os.Exit.
func Exit(status int) { panic(exit{status}) }

// Command runs a command and returns its exit status.
func Command(main func(), args ...string) (status int) {
	old := os.Args
	defer func() {
		os.Args = old
		if r := recover(); r != nil {
			e, ok := r.(exit)
			if !ok {
				panic(r)
			}
			status = e.status
		}
	}()
	Stdout.B, Stderr.B = nil, nil
	os.Args = append([]string{"command"}, args...)
	main()
	return 0
}
