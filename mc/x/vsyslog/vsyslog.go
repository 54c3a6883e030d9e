//go:build go1.23

// Package vsyslog replaces package log/syslog in instrumented code: messages
// are recorded with their priority and tag instead of being sent.
package vsyslog

import (
	"errors"
	"log"
	"log/syslog"

	"github.com/xtfly/log4g/verifx/vs"
)

// Priority is syslog.Priority.
type Priority = syslog.Priority

// Record is one message handed to syslog.
type Record struct {
	Tag      string
	Priority Priority // severity | facility
	Msg      string
}

// Records of the current execution, in order.
var Records []Record

// Writers counts the writers opened and closed in the current execution.
var Opened, Closed int

// FailDial makes Dial and New fail.
var FailDial bool

func init() {
	vs.AtEnd(func() { Records, Opened, Closed, FailDial = nil, 0, 0, false })
}

// Writer is syslog.Writer.
type Writer struct {
	pri    Priority
	tag    string
	closed bool
}

// New is syslog.New.
func New(p Priority, tag string) (*Writer, error) { return Dial("", "", p, tag) }

// Dial is syslog.Dial.
//
//go:noinline
func Dial(network, raddr string, p Priority, tag string) (*Writer, error) {
	vs.Point("syslog.Dial")
	if FailDial {
		return nil, errors.New("vsyslog: no syslog")
	}
	Opened++
	return &Writer{pri: p, tag: tag}, nil
}

// NewLogger is syslog.NewLogger.
func NewLogger(p Priority, flag int) (*log.Logger, error) {
	w, err := New(p, "")
	if err != nil {
		return nil, err
	}
	return log.New(w, "", flag), nil
}

//go:noinline
func (w *Writer) put(sev Priority, m string) error {
	vs.Point("syslog.Write")
	if vs.Killed() {
		return nil
	}
	Records = append(Records, Record{w.tag, (w.pri &^ 7) | sev, m})
	if w.closed { // as the real one, connect again
		w.closed = false
		Opened++
	}
	return nil
}

func (w *Writer) Write(b []byte) (int, error) { return len(b), w.put(w.pri&7, string(b)) }

//go:noinline
func (w *Writer) Close() error {
	vs.Point("syslog.Close")
	if !w.closed {
		w.closed = true
		Closed++
	}
	return nil
}
func (w *Writer) Emerg(m string) error   { return w.put(syslog.LOG_EMERG, m) }
func (w *Writer) Alert(m string) error   { return w.put(syslog.LOG_ALERT, m) }
func (w *Writer) Crit(m string) error    { return w.put(syslog.LOG_CRIT, m) }
func (w *Writer) Err(m string) error     { return w.put(syslog.LOG_ERR, m) }
func (w *Writer) Warning(m string) error { return w.put(syslog.LOG_WARNING, m) }
func (w *Writer) Notice(m string) error  { return w.put(syslog.LOG_NOTICE, m) }
func (w *Writer) Info(m string) error    { return w.put(syslog.LOG_INFO, m) }
func (w *Writer) Debug(m string) error   { return w.put(syslog.LOG_DEBUG, m) }
