package venv

import (
	"errors"
	"io/fs"
	"time"

	"verif/harness/sym"
)

// ---- environment variables
//
// Each variable has one value for the whole run, drawn when it is first read
// (which may be in a package initialiser). Without the parameter "env" all
// are unset.

type envVar struct {
	val string
	set bool
}

var env = map[string]*envVar{}

// EnvOf draws the value of a variable.
var envDraw = map[string]func() (string, bool){}

func lookup(name string) (string, bool) {
	if v, ok := env[name]; ok {
		return v.val, v.set
	}
	v := &envVar{}
	env[name] = v
	if mode := sym.Param("env", 0); mode != 0 {
		v.val, v.set = draw(mode, name)
	}
	return v.val, v.set
}

// Env tells the harness the value of a variable, without drawing one that the
// code has not asked for.
func Env(name string) string {
	if v, ok := env[name]; ok {
		return v.val
	}
	return ""
}

// EnvRead reports whether the code has read the variable.
func EnvRead(name string) bool { _, ok := env[name]; return ok }

// ForceEnv draws a variable the code has not asked for.
func ForceEnv(name string) string { s, _ := lookup(name); return s }

// ClearEnv forgets all variables; for harnesses that set them.
func SetEnv(name, val string) { env[name] = &envVar{val, true} }

// draw chooses a value. Process IDs are drawn around the process's own and
// its parent's, counts are short strings. Mode 1 is an arbitrary environment;
// in mode 2 the sockets that are announced are well-formed.
func draw(mode int, name string) (string, bool) {
	max := sym.Param("envlen", 2)
	switch name {
	case "EINHORN_MASTER_PID":
		if mode == 2 {
			return pick("", "77", "78"), true
		}
		return pick("", "77", "78", "x", "077", "-77", "1"), true
	case "LISTEN_PID":
		if mode == 2 {
			return pick("", "4242", "4243"), true
		}
		return pick("", "4242", "4243", "x", "+4242", "1"), true
	case "EINHORN_FD_COUNT", "LISTEN_FDS":
		if mode == 2 {
			return pick("2", "1"), true
		}
		switch sym.Choice(3) {
		case 0:
			return "", false
		case 1:
			return sym.String(0, 1), true
		}
		return pick("03", "+2", "-1", "1x", "12", "99999999999999999999"), true
	case "GOJI_BIND", "PORT":
		switch sym.Choice(3) {
		case 0:
			return "", false
		case 1:
			return "", true
		}
		return sym.String(1, max), true
	case "EINHORN_SOCK_PATH":
		return sym.String(1, max), true
	}
	if len(name) > 11 && name[:11] == "EINHORN_FD_" {
		if !isNum(name[11:]) {
			return "", false
		}
		n := name[11:]
		switch {
		case len(n) > 2 || len(n) == 2 && n >= "20":
			return "", false // never announced
		case mode == 2 || len(n) > 1 || n > "1":
			return "4" + n, true
		case n == "1":
			return pick("5", "-3"), true
		}
		switch sym.Choice(3) {
		case 0:
			return "", false
		case 1:
			return sym.String(1, max), true
		}
		return "17", true
	}
	return "", false
}

// InitFatal judges a fatal error before the harness has started: it is in
// order if the environment announces Einhorn sockets but names one badly. The
// run ends there.
func initFatal(why string) {
	announced := 0
	if c := env["EINHORN_FD_COUNT"]; c != nil {
		announced, _ = Atoi(c.val)
	}
	if env["EINHORN_MASTER_PID"] != nil {
		for k, v := range env {
			if len(k) > 11 && k[:11] == "EINHORN_FD_" && isNum(k[11:]) {
				if n, _ := Atoi(k[11:]); n < announced && !isInt(v.val) {
					sym.Skip()
				}
			}
		}
	}
	sym.Fatal(why + " during initialisation")
}

// isNum reports whether s is how a socket is numbered.
func isNum(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return false
		}
	}
	return len(s) == 1 || s[0] != '0'
}

// isInt reports whether s is a decimal integer, as strconv.Atoi has it.
func isInt(s string) bool {
	if len(s) > 0 && sym.Decide(sym.Or(s[0] == '+', s[0] == '-')) {
		s = s[1:]
	}
	if s == "" {
		return false
	}
	for i := 0; i < len(s); i++ {
		if !sym.Decide(sym.And(s[i] >= '0', s[i] <= '9')) {
			return false
		}
	}
	return true
}

// Atoi is strconv.Atoi; a number of more than 18 digits counts as out of range.
func Atoi(s string) (int, bool) {
	if len(s) > 18 || !isInt(s) {
		return 0, false
	}
	neg := false
	if s[0] == '-' {
		neg = true
	}
	if s[0] == '-' || s[0] == '+' {
		s = s[1:]
	}
	n := 0
	for i := 0; i < len(s); i++ {
		n = n*10 + int(s[i]-'0')
	}
	if neg {
		n = -n
	}
	return n, true
}

func pick(s ...string) string { return s[sym.Choice(len(s))] }

// ---- standard output

// Stdout is a terminal or not.
var Stdout = &stdout{}

type stdout struct{}

func (*stdout) Write(b []byte) (int, error)       { return len(b), nil }
func (*stdout) WriteString(s string) (int, error) { return len(s), nil }
func (*stdout) Name() string                      { return "/dev/stdout" }
func (*stdout) Fd() uintptr                       { return 1 }

func (*stdout) Stat() (fs.FileInfo, error) {
	k := 0
	if sym.Param("tty", 0) != 0 {
		k = sym.Choice(3)
	}
	switch k {
	case 1:
		return stdinfo{fs.ModeDevice | fs.ModeCharDevice}, nil
	case 2:
		return nil, errors.New("stat fails")
	}
	return stdinfo{0}, nil
}

type stdinfo struct{ m fs.FileMode }

func (i stdinfo) Name() string       { return "stdout" }
func (i stdinfo) Size() int64        { return 0 }
func (i stdinfo) Mode() fs.FileMode  { return i.m }
func (i stdinfo) ModTime() time.Time { return Base }
func (i stdinfo) IsDir() bool        { return false }
func (i stdinfo) Sys() interface{}   { return nil }

// ---- time zone

var zone *time.Location

// Unix is time.Unix in a process whose local time zone is arbitrary.
func Unix(sec, nsec int64) time.Time {
	if zone == nil {
		zone = time.UTC
		if sym.Param("tz", 0) != 0 {
			switch sym.Choice(3) {
			case 1:
				zone = time.FixedZone("CET", 3600)
			case 2:
				zone = time.FixedZone("", -5*3600)
			}
		}
	}
	return time.Unix(sec, nsec).In(zone)
}
