//go:build go1.23

package internal

import (
	"io"

	"github.com/xtfly/log4g/verifx/hook"
)

func init() {
	hook.NewRoller = func(c hook.Roller) io.WriteCloser {
		rw := newRollingFileWriter(c.Path, c.ArchivePath)
		rw.maxRolls = c.Keep
		if c.Prefix {
			rw.nameMode = rollingNameModePrefix
		}
		rw.archiveType = rollingArchiveZip
		if c.Archive == "gzip" {
			rw.archiveType = rollingArchiveGzip
		}
		rw.archiveExploded = false
		if c.Time {
			w := &rollingFileWriterTime{rollingFileWriter: rw, timePattern: c.Pattern}
			rw.self = w
			return w
		}
		w := &rollingFileWriterSize{rollingFileWriter: rw, maxFileSize: c.Limit}
		rw.self = w
		return w
	}
}
