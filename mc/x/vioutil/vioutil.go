//go:build go1.23

// Package vioutil replaces package io/ioutil in instrumented code.
package vioutil

import (
	"os"

	"github.com/xtfly/log4g/verifx/vos"
)

// ReadFile is ioutil.ReadFile.
func ReadFile(name string) ([]byte, error) { return vos.ReadFile(name) }

// WriteFile is ioutil.WriteFile.
func WriteFile(name string, b []byte, perm os.FileMode) error { return vos.WriteFile(name, b, perm) }

// ReadDir is ioutil.ReadDir.
func ReadDir(name string) ([]os.FileInfo, error) {
	l, err := vos.ReadDir(name)
	var r []os.FileInfo
	for _, e := range l {
		fi, err := e.Info()
		if err != nil {
			return nil, err
		}
		r = append(r, fi)
	}
	return r, err
}

// TempFile is ioutil.TempFile.
func TempFile(dir, pattern string) (*vos.File, error) { return vos.CreateTemp(dir, pattern) }

// TempDir is ioutil.TempDir.
func TempDir(dir, pattern string) (string, error) { return vos.MkdirTemp(dir, pattern) }
