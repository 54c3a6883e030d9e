//go:build go1.23

// Package hook holds the entry points that an accessor file compiled into the
// package under test (mc/access) provides to the harness. They are nil if the
// accessor does not compile with the tree under test.
package hook

import "io"

// Roller describes a rolling writer that puts rolled files into one archive file,
// which no configuration can express.
type Roller struct {
	Time        bool
	Path        string
	ArchivePath string
	Archive     string // zip or gzip
	Pattern     string
	Limit       int64
	Keep        int
	Prefix      bool
}

// NewRoller makes one.
var NewRoller func(Roller) io.WriteCloser
