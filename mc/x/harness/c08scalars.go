//go:build go1.23

package main

import (
	"fmt"
	"strconv"
	"strings"

	log4g "github.com/xtfly/log4g"
	"github.com/xtfly/log4g/verifx/drv"
	"github.com/xtfly/log4g/verifx/vs"
)

// scalars are strings that YAML would take for something else where no string
// is asked for: numbers, booleans, dates, times.
var scalars = []string{"0640", "0o640", "0x1A", "0b101", "1_000", "5", "-5", "+5", "1M", "1e3", "1.50", "007", ".5", ".inf", ".NaN", "1.0",
	"true", "True", "yes", "no", "on", "off", "Off", "n", "y", "false", "2006-01-02", "2006-01-02T15:04:05Z", "2006-01-02 15:04:05", "12:30:45", "190:20:30",
	"a b", "a#b", "a:b", "Ünï", "log/rf.log", "=", "<<", "9223372036854775808", "1.7976931348623157e+400", "x\\ny", "100%", "$HOME/f", "a${HOME}b", "~/f", "a'b", "a\"b", "\\x41", "\\"}

// quoted are strings that no plain scalar has, or that are null as one.
var quoted = []string{"%d", "*a", "&a", "!x", "|", "@x", "`x`", "{a}", "[a]", "# x", "a # b", "a: b", "- a", "? a", "null", "~", "NULL", " a", "a ", "'", "\"", "'a'", "\"a\"", "a\tb"}

// scalarText writes v in one of the ways YAML or JSON has.
func scalarText(v string, style int) string {
	switch style {
	case 0:
		return v
	case 1:
		return v + "   # a comment"
	case 2:
		return "'" + strings.Replace(v, "'", "''", -1) + "'"
	case 3:
		return strconv.Quote(v)
	case 4:
		return "|-\n        " + v
	case 5:
		return "!!str " + v
	}
	return strconv.Quote(v) // JSON
}

const yamlDoc = `formats:
  - name: %s
    type: text
    layout: %s
outputs:
  - name: %s
    type: spy
    format: %s
    v: %s
loggers:
  - name: root
    level: error
    outputs:
      - %s
  - name: %s
    level: %s
`

const jsonDoc = `{"formats":[{"name":%s,"type":"text","layout":%s}],"outputs":[{"name":%s,"type":"spy","format":%s,"v":%s}],
"loggers":[{"name":"root","level":"error","outputs":[%s]},{"name":%s,"level":%s}]}`

func init() {
	drv.Add(drv.Scenario{Prop: "C08", Name: "scalars", Quick: 0,
		Desc: fmt.Sprintf("%d texts that YAML takes for numbers, booleans, dates or times where no string is wanted, and level names among them, as parameter of an output, as layout, as name of and reference to a format or output, as logger name and level, written plain, with a comment, quoted, as block, tagged, and in JSON: the same effect as the programmatic form with that text", len(scalars)+len(quoted)),
		Body: func() {
			begin()
			useTagged(true)
			f, lay, o, v, n, lvl := "f", "new %{msg}", "o", "v", "a", "info"
			what := vs.Choose(6, 0, "place")
			var x string
			if what == 5 {
				x = []string{"off", "Off", "OFF", "all", "ALL", "trace", "Warn", "critical"}[vs.Choose(8, 0, "level")]
			} else {
				x = append(scalars[:len(scalars):len(scalars)], quoted...)[vs.Choose(len(scalars)+len(quoted), 0, "scalar")]
			}
			*[]*string{&v, &lay, &f, &o, &n, &lvl}[what] = x
			style := vs.Choose(7, 0, "style")
			for _, k := range quoted {
				if x == k && (style < 2 || style > 3 && style < 6) {
					style = 2 + style%2
				}
			}
			q := func(p int, s string) string {
				if p == what {
					return scalarText(s, style)
				}
				return strconv.Quote(s)
			}
			c := conf(format(f, lay), output("spy", o, f, "v", v), logger("root", "error", o), logger(n, lvl))
			args := []interface{}{q(2, f), q(1, lay), q(3, o), q(2, f), q(0, v), q(3, o), q(4, n), q(5, lvl)}
			text, typ := fmt.Sprintf(yamlDoc, args...), "yaml"
			if style == 6 {
				text, typ = fmt.Sprintf(jsonDoc, args...), "json"
			}
			if vs.Verbose() {
				vs.Note("   %s: %s", typ, text)
			}
			must(log4g.GetManager().SetConfig(c))
			nm := append([]string{n}, c08names...)
			want := probe(lookup(nm), nm)
			// the same loggers in another configuration, then this one as text
			must(log4g.GetManager().SetConfig(baseline8()))
			if err := log4g.GetManager().LoadConfig([]byte(text), typ); err != nil {
				vs.Fail("%q: rejected: %v", x, err)
			}
			if have := probe(lookup(nm), nm); have != want {
				vs.Fail("%q as %s: not the effect it has in the programmatic form: %s", x, []string{"parameter", "layout", "format name", "output name", "logger name", "level"}[what], diffLine(have, want))
			}
			if what != 1 { // a layout is more than its text
				if p := presc8(c, nm); want != p {
					vs.Fail("the programmatic form has not the prescribed effect: %s", diffLine(want, p))
				}
			}
			obs("%d", what)
		}})
}
