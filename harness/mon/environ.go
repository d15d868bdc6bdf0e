package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"vh/cli"
	"vh/hp"
	"vh/ref"
)

func init() {
	register("C27", "exploration",
		"every command, plain, coloured and HTML, in surroundings varied one by one and many at once: time zones, locales, terminals and other variables, absent or unusable home and temporary directories, working directories, paths of the dump (relative, through links, with any bytes, of any length up to the system's), its permissions, owner, times (before 1970 to after 2400), umask, an unprivileged user, processors, collector settings, priorities, kinds of standard input, output and error (file, appended file, pipe, socket, terminal, closed), dumps moved or copied together with their index, read-only directories with an index; standard output must be byte for byte the one of a fresh copy in plain surroundings, which is checked against the oracle; distinct by dump, command and surroundings",
		checkEnviron)
}

// surroundings of a command.
type surroundings struct {
	what []string
	env  []string
	dir  string
	path string // of the dump, as it is given
	wrap []string
	pre  string // shell commands before the tool
	redi string // redirections
	uid  int
	out  string // kind of standard output
	in   string
	tty  bool
}

func (s *surroundings) note(f string, a ...any) { s.what = append(s.what, fmt.Sprintf(f, a...)) }

var zones = []string{"UTC", "America/New_York", "Europe/London", "Australia/Sydney", "America/Santiago", "Africa/Monrovia", "Antarctica/Troll", "EST5EDT,M3.2.0,M11.1.0", "Asia/Kolkata", "Pacific/Kiritimati", "Pacific/Niue", "XYZ-14", "XYZ+12:34:56", ":", "nonsense/zone", "Europe/Moscow", "/etc/passwd", ""}

// vary changes one thing about s; home is the directory of the case, file the dump.
func (k *Case) vary(i int, s *surroundings, home, file string) {
	r := k.R
	set := func(kv ...string) {
		s.env = append(s.env, kv...)
		s.note("%s", strings.Join(kv, " "))
	}
	switch i {
	case 0:
		set("TZ=" + hp.Pick(r, zones...))
	case 1:
		l := hp.Pick(r, "C", "POSIX", "tr_TR.UTF-8", "de_DE", "ar_EG.UTF-8", "ja_JP.SJIS", "xx_YY")
		set("LANG="+l, hp.Pick(r, "LC_ALL", "LC_NUMERIC", "LC_TIME", "LC_COLLATE", "LANGUAGE")+"="+l)
	case 2:
		set("TERM="+hp.Pick(r, "dumb", "", "xterm-256color", "unknown"), "COLUMNS="+hp.Pick(r, "1", "10", "80", "-1", "x", fmt.Sprint(20+r.N(130))), "LINES="+hp.Pick(r, "1", "24", "100"))
	case 3:
		set(hp.Pick(r, "NO_COLOR=1", "CLICOLOR=0", "CLICOLOR_FORCE=1", "FORCE_COLOR=1", "COLORTERM=truecolor", "PAGER=cat", "DEBUG=1", "VERBOSE=1", "CI=true"))
	case 4:
		set("HOME="+hp.Pick(r, "", "/nonexistent", "/dev/null", home), "TMPDIR="+hp.Pick(r, "", "/nonexistent", "/dev/null", "/proc", home), "XDG_CACHE_HOME=/nonexistent")
	case 5:
		set("PATH=" + hp.Pick(r, "", "/nonexistent", "."))
	case 6:
		set("GOMAXPROCS=" + hp.Pick(r, "1", "2", "3", "16", "1000"))
	case 7:
		set("GOGC="+hp.Pick(r, "off", "1", "10", "1000"), "GOMEMLIMIT="+hp.Pick(r, "off", "1", "16MiB"))
	case 8: // where it runs
		if !filepath.IsAbs(s.path) {
			return
		}
		s.dir = hp.Pick(r, "/", "/proc/self", home, filepath.Join(home, "deep"), "/dev", "/usr")
		if filepath.Dir(s.dir) == home {
			os.MkdirAll(s.dir, 0o755)
		}
		s.note("in %s", s.dir)
	case 9: // relative to some directory
		rel, err := filepath.Rel(home, file)
		if err != nil {
			return
		}
		s.dir, s.path = home, hp.Pick(r, rel, "./"+rel, "deep/../"+rel, strings.ReplaceAll(rel, "/", "//"))
		os.MkdirAll(filepath.Join(home, "deep"), 0o755)
		s.note("path %q", s.path)
	case 10: // from its own directory
		s.dir, s.path = filepath.Dir(file), hp.Pick(r, "", "./")+filepath.Base(file)
		if strings.HasPrefix(s.path, "-") {
			s.path = "./" + s.path
		}
		s.note("path %q", s.path)
	case 11: // symbolic links
		d := filepath.Join(home, "links")
		os.MkdirAll(d, 0o777)
		l := filepath.Join(d, fmt.Sprintf("l%d", r.N(1000)))
		os.Remove(l)
		switch r.N(3) {
		case 0:
			os.Symlink(file, l)
			s.path = l
		case 1:
			os.Symlink(filepath.Base(l)+".2", l)
			os.Remove(l + ".2")
			os.Symlink(file, l+".2")
			s.path = l
		default: // of the directory
			os.Symlink(filepath.Dir(file), l)
			s.path = filepath.Join(l, filepath.Base(file))
		}
		s.note("through a link")
	case 12: // hard link
		l := filepath.Join(home, fmt.Sprintf("hard%d", r.N(1000)))
		os.Remove(l)
		if os.Link(file, l) == nil {
			s.path = l
			s.note("hard link")
		}
	case 13:
		u := hp.Pick(r, "000", "022", "027", "077", "777")
		if s.uid > 0 && u == "777" {
			u = "077"
		}
		s.pre += "umask " + u + "; "
		s.note("umask %s", u)
	case 14:
		s.wrap = append(s.wrap, "/usr/bin/nice", "-n", fmt.Sprint(1+r.N(19)))
		s.note("nice")
	case 15:
		w := []string{"/usr/bin/taskset", "-c", fmt.Sprint(r.N(2))}
		if cli.Run(w[0], cli.Opt{}, "-c", w[2], "/bin/true").Exit == 0 {
			s.wrap = append(s.wrap, w...)
			s.note("one processor")
		}
	case 16:
		s.redi += " <&-"
		s.note("standard input closed")
	case 17:
		s.redi += hp.Pick(r, " 2>&-", " 2>/dev/full", " 2>/dev/null")
		s.note("standard error:%s", s.redi)
	case 18:
		s.out = hp.Pick(r, "file", "append", "socket", "terminal", "pipe", "narrow terminal", "file in the directory")
		s.note("output to a %s", s.out)
	case 19:
		s.pre += hp.Pick(r, "ulimit -n 64; ", "ulimit -c 0; ", "ulimit -s 1024; ", "ulimit -s unlimited; ", "trap '' HUP; ", "trap '' PIPE; ", "trap '' INT; trap '' TERM; ")
		s.note("%s", s.pre)
	case 20: // an empty environment
		s.wrap = append([]string{"/usr/bin/env", "-i"}, s.wrap...)
		s.note("no environment")
	case 21:
		set(fmt.Sprintf("BIG=%s", strings.Repeat("x", 1000+r.N(100000))), "HPROF=/nonexistent", "NEOJHAT_OPTS=--no-color", "JAVA_HOME=/nonexistent")
		s.what[len(s.what)-1] = "large environment"
	case 22: // times of the file
		t := hp.Pick(r, time.Unix(0, 0), time.Unix(-1, 999999999), time.Date(1969, 12, 31, 23, 59, 59, 1, time.UTC), time.Date(1903, 1, 1, 0, 0, 0, 0, time.UTC), time.Now().Add(1000*time.Hour),
			time.Date(2038, 1, 19, 3, 14, 8, 0, time.UTC), time.Date(2262, 4, 11, 23, 47, 17, 0, time.UTC), time.Date(2400, 1, 1, 0, 0, 0, 5, time.UTC), time.Unix(1, 0))
		ts := []syscall.Timespec{{Sec: t.Unix(), Nsec: int64(t.Nanosecond())}, {Sec: t.Unix(), Nsec: int64(t.Nanosecond())}}
		p, _ := syscall.BytePtrFromString(file)
		syscall.Syscall6(syscall.SYS_UTIMENSAT, ^uintptr(99), uintptr(unsafe.Pointer(p)), uintptr(unsafe.Pointer(&ts[0])), 0, 0, 0)
		s.note("dump of %v", t)
	case 23: // permissions
		m := hp.Pick[os.FileMode](r, 0o444, 0o400, 0o777, 0o4755, 0o600, 0)
		if s.uid > 0 {
			m |= 0o444
		}
		os.Chmod(file, m)
		s.note("mode %o", m)
	case 24:
		if k.Nobody() > 0 && s.uid == 0 && !strings.Contains(s.pre, "umask 777") {
			s.uid = k.Nobody()
			k.open(home)
			s.note("unprivileged")
		}
	case 25: // the file belongs to someone else
		if os.Geteuid() == 0 {
			os.Chown(file, 1000+r.N(60000), r.N(60000))
			s.note("owner")
		}
	}
}

const variations = 26

// open lets everybody in.
func (k *Case) open(home string) {
	filepath.Walk(home, func(p string, fi os.FileInfo, err error) error {
		switch {
		case err != nil:
		case fi.IsDir():
			os.Chmod(p, 0o777)
		case fi.Mode().IsRegular():
			os.Chmod(p, fi.Mode()|0o444)
		}
		return nil
	})
	os.Chmod(k.Dir, 0o755)
}

// terminal is a pseudo terminal: master and slave.
func terminal(cols uint16) (m, s *os.File, err error) {
	m, err = os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		return
	}
	ioctl := func(f *os.File, req uintptr, p unsafe.Pointer) error {
		if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, f.Fd(), req, uintptr(p)); e != 0 {
			return e
		}
		return nil
	}
	var n, unlock int32
	if err = ioctl(m, syscall.TIOCSPTLCK, unsafe.Pointer(&unlock)); err == nil {
		err = ioctl(m, syscall.TIOCGPTN, unsafe.Pointer(&n))
	}
	if err == nil {
		s, err = os.OpenFile("/dev/pts/"+strconv.Itoa(int(n)), os.O_RDWR|syscall.O_NOCTTY, 0)
	}
	if err == nil {
		var t syscall.Termios
		err = ioctl(s, syscall.TCGETS, unsafe.Pointer(&t))
		t.Oflag &^= syscall.OPOST // newlines as they are
		if err == nil {
			err = ioctl(s, syscall.TCSETS, unsafe.Pointer(&t))
		}
	}
	if err == nil {
		ws := [4]uint16{24, cols, 0, 0}
		err = ioctl(s, syscall.TIOCSWINSZ, unsafe.Pointer(&ws))
	}
	if err != nil {
		m.Close()
	}
	return
}

// in runs v on the dump in surroundings.
func (k *Case) in(s *surroundings, v []string, home string) *cli.Result {
	o := cli.Opt{Dir: s.dir, Env: s.env, Uid: s.uid, Wrap: append([]string{}, s.wrap...)}
	if s.pre != "" || s.redi != "" {
		o.Wrap = append([]string{"/bin/sh", "-c", s.pre + `exec "$@"` + s.redi, "sh"}, o.Wrap...)
	}
	args := withDump(v, s.path)
	var rd *os.File
	var got chan string
	begin := ""
	switch s.out {
	case "file", "append", "file in the directory":
		p := filepath.Join(k.Dir, fmt.Sprintf("out%d", k.used))
		if s.out == "file in the directory" {
			p = filepath.Join(home, fmt.Sprintf("out%d.db", k.used))
		}
		k.used++
		fl := os.O_RDWR | os.O_CREATE | os.O_TRUNC
		if s.out == "append" {
			begin = "something before\n"
			os.WriteFile(p, []byte(begin), 0o644)
			fl = os.O_RDWR | os.O_APPEND
		}
		f, err := os.OpenFile(p, fl, 0o644)
		if err != nil {
			fatal("%v", err)
		}
		defer os.Remove(p)
		defer f.Close()
		o.Out = f
		r := k.RunOpt(o, args...)
		b, _ := os.ReadFile(p)
		r.Stdout = strings.TrimPrefix(string(b), begin)
		return r
	case "socket":
		fds, err := syscall.Socketpair(syscall.AF_UNIX, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
		if err != nil {
			fatal("%v", err)
		}
		rd, o.Out = os.NewFile(uintptr(fds[0]), "near"), os.NewFile(uintptr(fds[1]), "far")
	case "terminal", "narrow terminal":
		m, t, err := terminal(uint16(pickVal(s.out == "terminal", 80, 3)))
		if err != nil {
			k.Note("no terminals here: %v", err)
			return k.RunOpt(o, args...)
		}
		rd, o.Out = m, t
	default:
		return k.RunOpt(o, args...)
	}
	far := o.Out
	got = make(chan string)
	o.Beside = func() {
		far.Close()
		go func() {
			var b []byte
			buf := make([]byte, 8192)
			for {
				n, err := rd.Read(buf)
				b = append(b, buf[:n]...)
				if err != nil {
					break
				}
			}
			rd.Close()
			got <- string(b)
		}()
	}
	r := k.RunOpt(o, args...)
	r.Stdout = <-got
	return r
}

// oddNames of files.
func oddName(r *hp.Rng) string {
	switch r.N(14) {
	case 0:
		return "heap dump (1).hprof"
	case 1:
		return "%s%d%n%!.hprof"
	case 2:
		return "\xff\xfe\x80.hprof"
	case 3:
		return "snow☃ 堆 \u202e.hprof"
	case 4:
		return strings.Repeat("n", 200+r.N(51)) // with .db and the rest of the system's 255
	case 5:
		return "a\nb\tc.hprof"
	case 6:
		return ".hprof"
	case 7:
		return "x.db"
	case 8:
		return "-hprof"
	case 9:
		return "~$HOME*?[a].hprof"
	case 10:
		return `"quoted' \back\slash`
	case 11:
		return "stamp.txt"
	case 12:
		return "java_pid1.HPROF"
	}
	return "d"
}

func checkEnviron(c *Ctx) {
	one := func(k *Case, changes func(s *surroundings, file, home string)) bool {
		o := small(k.R)
		if k.R.P(20) {
			o = hp.RandomOpts(k.R)
			o.Objects = min(o.Objects, 500)
		}
		_, x, m := Gen(k.Seed, fmt.Sprint("C27", k.N), o, hp.RandomEnc(k.R, idSize(k.R)))
		w := k.wanted(x.Data, m)
		if k.N%4 == 0 && !w.sure(full[k.R.N(len(full))]) {
			return false
		}
		home := k.Path("home")
		dir := filepath.Join(home, hp.Pick(k.R, "a", "with space", "x.db", "%d", "ü", "-"))
		for k.R.P(10) {
			dir = filepath.Join(dir, strings.Repeat("d", 1+k.R.N(200)))
		}
		if len(dir) > 3000 {
			dir = filepath.Join(home, "a")
		}
		if err := os.MkdirAll(dir, 0o755); err != nil {
			fatal("%v", err)
		}
		file := filepath.Join(dir, oddName(k.R))
		if err := os.WriteFile(file, x.Data, 0o644); err != nil {
			fatal("%v", err)
		}
		var hist []string
		for i := 2 + k.R.N(3); i > 0; i-- {
			v := command(k.R)
			if k.R.P(90) { // the display takes a second
				v = append(v, "--non-interactive")
			}
			want, ok := w.of(v)
			if !ok {
				return false
			}
			s := &surroundings{dir: k.Dir, path: file}
			changes(s, file, home)
			r := k.in(s, v, home)
			hist = append(hist, fmt.Sprintf("%s: %s", vname(v), strings.Join(s.what, ", ")))
			if r.Exit != 0 || r.Crash() != "" || r.Stdout != want {
				k.Fail("dump %q, commands %q: the last report is not the one of plain surroundings: exit status %d, %s; %s", file, hist, r.Exit, firstDiff(r.Stdout, want), r.Crash())
				return false
			}
			if s.uid == 0 {
				k.open(home)
			}
			for _, x := range s.what {
				k.Seen("surroundings", x)
			}
			k.Obs("reports compared", 1)
			k.Eval(fmt.Sprint(k.N, hist[len(hist)-1]))
			// moved with the index, or copied
			switch k.R.N(10) {
			case 0, 1:
				to := filepath.Join(home, fmt.Sprintf("moved%d", k.used))
				k.used++
				os.MkdirAll(to, 0o777)
				n := filepath.Join(to, filepath.Base(file))
				e1, e2 := os.Rename(file, n), os.Rename(file+".db", n+".db")
				if e1 != nil {
					fatal("%v", e1)
				}
				if e2 == nil {
					hist = append(hist, "moved with its index")
					k.Obs("dumps moved with their index", 1)
				}
				file = n
			case 2: // a copy has another time
				to := filepath.Join(home, fmt.Sprintf("copied%d", k.used))
				k.used++
				os.MkdirAll(to, 0o777)
				cli.Run("/bin/cp", cli.Opt{}, hp.Pick(k.R, "-r", "-a"), filepath.Dir(file)+"/.", to)
				file = filepath.Join(to, filepath.Base(file))
				hist = append(hist, "copied with its index")
				k.Obs("dumps copied with their index", 1)
			}
			os.Chmod(file, 0o644)
		}
		if k.N < 3 {
			k.Sample(hist)
		}
		return true
	}
	// each by itself
	n := variations * c.Pick(4, 60)
	c.CasesFor("one", n, n, 1, func(k *Case) {
		one(k, func(s *surroundings, file, home string) { k.vary(k.N%variations, s, home, file) })
	})
	// one dump with long names and months of uptime in every zone, and in terminals of all widths
	c.CasesFor("sweep", 8, c.Pick(24, 400), 0.2, func(k *Case) {
		g := hp.Gen(k.Seed, fmt.Sprint("C27sweep", k.N), small(k.R))
		for i := 0; i < 6; i++ {
			g.NewInst(g.AddClass("a/"+strings.Repeat("Name", 3+7*i)+fmt.Sprint(i), g.Class("java/lang/Object"), 8))
		}
		_, x, m := encode(g, hp.RandomEnc(k.R, idSize(k.R)))
		w := k.wanted(x.Data, m)
		dump := k.place("d", x.Data)
		try := func(v []string, env ...string) bool {
			want, ok := w.of(v)
			if !ok {
				return false
			}
			r := k.RunOpt(cli.Opt{Env: env}, withDump(v, dump)...)
			if r.Exit != 0 || r.Crash() != "" || r.Stdout != want {
				k.Fail("%s with %q is not the report of plain surroundings: exit status %d, %s; %s", vname(v), env, r.Exit, firstDiff(r.Stdout, want), r.Crash())
				return false
			}
			k.Obs("reports compared", 1)
			return true
		}
		for i := k.N % 4; i < len(zones); i += 4 {
			if !try([]string{"summary", "--non-interactive"}, "TZ="+zones[i]) {
				return
			}
			k.Seen("surroundings", "TZ="+zones[i])
		}
		for i := 10 + k.N%20; i < 220; i += 20 {
			v := append(command(k.R), "--non-interactive")
			if i%3 == 0 {
				v = []string{"objects", "--non-interactive"}
			}
			if !try(v, fmt.Sprintf("COLUMNS=%d", i), hp.Pick(k.R, "TERM=xterm", "TERM=dumb", "LINES=24")) {
				return
			}
		}
		k.Eval(fmt.Sprint("sweep", k.N))
	})
	// an index that can be read only
	c.CasesFor("readonly", 10, c.Pick(40, 400), 0.2, func(k *Case) {
		if k.Nobody() == 0 {
			return
		}
		t := k.smallDump("d", full)
		if t == nil {
			return
		}
		dump := k.place("d", t.Data)
		k.later(dump, full[k.R.N(len(full))])
		filepath.Walk(filepath.Dir(dump), func(p string, fi os.FileInfo, err error) error {
			os.Chmod(p, hp.Pick[os.FileMode](k.R, 0o444, 0o644)|pickVal[os.FileMode](fi.IsDir(), 0o111, 0))
			return nil
		})
		for _, v := range shuffled(k.R, full)[:3] {
			r := k.RunOpt(cli.Opt{Dir: "/", Uid: k.Nobody()}, vargs(v, dump)...)
			if err := t.Right(v, r); err != nil {
				k.Fail("of a directory that can only be read, with an index: %v", err)
				return
			}
			k.Obs("reports of read-only directories", 1)
		}
		k.Eval(fmt.Sprint("readonly", k.N))
	})
	c.Cases("many", 60, c.Pick(1000000, 10000000), func(k *Case) {
		one(k, func(s *surroundings, file, home string) {
			for i := 1 + k.R.N(6); i > 0; i-- {
				k.vary(k.R.N(variations), s, home, file)
			}
			if s.uid > 0 {
				k.open(home)
			}
		})
	})
}

var _ = ref.Size
