// Package fmt is what fmt's functions that print to standard output are replaced with.
package fmt

import "fmt"

func Print(a ...any) (int, error)            { return len(fmt.Sprint(a...)), nil }
func Println(a ...any) (int, error)          { return len(fmt.Sprintln(a...)), nil }
func Printf(f string, a ...any) (int, error) { return len(fmt.Sprintf(f, a...)), nil }
