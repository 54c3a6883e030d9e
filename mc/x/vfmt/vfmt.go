//go:build go1.23

// Package vfmt replaces package fmt in instrumented code so that printing to
// standard output goes through package vos.
package vfmt

import (
	"fmt"

	"github.com/xtfly/log4g/verifx/vos"
)

// Print is fmt.Print.
func Print(a ...any) (int, error) { return fmt.Fprint(vos.Stdout, a...) }

// Println is fmt.Println.
func Println(a ...any) (int, error) { return fmt.Fprintln(vos.Stdout, a...) }

// Printf is fmt.Printf.
func Printf(f string, a ...any) (int, error) { return fmt.Fprintf(vos.Stdout, f, a...) }
