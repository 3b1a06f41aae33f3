package lang

import (
	"bufio"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"syscall"
	"testing"
	"time"

	"github.com/leftmike/maho/parser"
	"github.com/leftmike/maho/parser/sql"

	"mahoverif/gen"
	"mahoverif/h"

	"pgregory.net/rapid"
)

// readErrors are what reading fails with. None of them is the end of the input.
var readErrors = []error{errors.New("reading failed here"), io.ErrUnexpectedEOF, io.ErrNoProgress,
	io.ErrClosedPipe, os.ErrDeadlineExceeded, syscall.EINTR,
	&os.PathError{Op: "read", Path: "EOF", Err: syscall.EIO}}

// failing reads runes or bytes; one read fails, or all do from there on.
type failing struct {
	runes  []rune
	at     int
	k      int // which rune is not read
	always bool
	failed bool
	with   rune // comes along with the error
	err    error
}

func (f *failing) ReadRune() (rune, int, error) {
	if f.at == f.k && (f.always || !f.failed) {
		f.failed = true
		return f.with, 0, f.err
	}
	if f.at >= len(f.runes) {
		return 0, 0, io.EOF
	}
	r := f.runes[f.at]
	f.at++
	return r, len(string(r)), nil
}

// Read is never called together with ReadRune.
func (f *failing) Read(buf []byte) (int, error) {
	n := 0
	for n < len(buf) {
		if f.at == f.k && (f.always || !f.failed) {
			if n > 0 {
				return n, nil
			}
			f.failed = true
			return 0, f.err
		}
		if f.at >= len(f.runes) {
			break
		}
		s := string(f.runes[f.at])
		if n+len(s) > len(buf) {
			break
		}
		n += copy(buf[n:], s)
		f.at++
	}
	if n == 0 {
		return 0, io.EOF
	}
	return n, nil
}

func (f *failing) reader(rt *rapid.T) io.RuneReader {
	if h.Chance(rt, 40, "buffered") {
		return bufio.NewReaderSize(struct{ io.Reader }{f}, h.Pick(rt, "size", 16, 64, 4096))
	}
	return f
}

// drawFailure draws where reading fails: anywhere, often next to something of interest.
func drawFailure(rt *rapid.T, runes []rune) int {
	if h.Chance(rt, 50, "anywhere") {
		return h.N(rt, len(runes)+1, "where")
	}
	var ks []int
	for i, r := range runes {
		if strings.ContainsRune("eEbBxX'\"`[]-+*/.<>=!|$;\\\n", r) {
			ks = append(ks, i+1)
		}
	}
	ks = append(ks, 0, len(runes))
	return ks[h.N(rt, len(ks), "where")]
}

func (f *failing) isRead(err error) bool {
	return err != nil && err != io.EOF && strings.Contains(err.Error(), f.err.Error())
}

func TestP41(t *testing.T) {
	t.Run("statements", func(t *testing.T) {
		h.Check(t, 3000, checkReadStatements)
	})
	t.Run("copy", func(t *testing.T) {
		h.Check(t, 1000, checkReadCopy)
	})
	t.Run("console", func(t *testing.T) {
		prog := os.Getenv("VERIF_PROGRAM")
		if prog == "" {
			t.Fatal("VERIF_PROGRAM is not set")
		}
		h.Check(t, 60, func(rt *rapid.T, c *h.Case) {
			checkReadConsole(rt, c, prog)
		})
	})
}

func checkReadStatements(rt *rapid.T, c *h.Case) {
	lay := gen.Layout{Comments: h.Chance(rt, 20, "comments"), Tight: h.Chance(rt, 40, "tight")}
	type part struct {
		want string
		text string
		end  int // where its semicolon is
	}
	var parts []part
	text := ""
	plain := h.Chance(rt, 50, "plain")
	n := 1 + h.N(rt, 4, "statements")
	for i := 0; i < n; i++ {
		s := gen.NewG(rt, plain).Stmt()
		pt := part{want: gen.Dump(s.Want), text: gen.Text(rt, s.Toks, lay)}
		text += pt.text
		if i < n-1 || h.Chance(rt, 70, "last semicolon") {
			pt.end = len([]rune(text))
			text += ";"
		} else {
			pt.end = 1 << 30
		}
		parts = append(parts, pt)
		text += h.Pick(rt, "between", "", " ", "\n")
	}
	f := &failing{runes: []rune(text), always: h.Chance(rt, 40, "always"),
		err: h.Pick(rt, "error", readErrors...), with: h.Pick(rt, "with", 0, 0, 'a', ';', 0xFFFD, -1)}
	f.k = drawFailure(rt, f.runes)
	what := fmt.Sprintf("%q; reading %q fails with %q (always: %v)", text,
		string(f.runes[:f.k])+"\u25c6", f.err, f.always)
	c.Note("%s", what)
	p := parser.NewParser(f.reader(rt), "file.sql")

	cut := 0
	for ; cut < len(parts) && parts[cut].end < f.k; cut++ {
		s, err := p.Parse()
		if err != nil {
			rt.Fatalf("%s\nstatement %d: %s", what, cut, err)
		}
		if g := gen.Dump(s); g != parts[cut].want {
			rt.Fatalf("%s\nstatement %d: got %s; want %s", what, cut, g, parts[cut].want)
		}
	}
	// The failure.
	for i := 0; ; i++ {
		s, err := p.Parse()
		if err == nil {
			rt.Fatalf("%s\ngot %v before the failure", what, s)
		}
		if err == io.EOF {
			rt.Fatalf("%s\nthe end instead of the failure", what)
		}
		if f.isRead(err) {
			c.LabelIf(i > 0, "after another error")
			break
		}
		if i > len(f.runes) {
			rt.Fatalf("%s\nno failure: %s", what, err)
		}
	}
	c.LabelIf(cut > 0, "after statements")
	c.LabelIf(f.k == len(f.runes), "at the end")
	c.NonTrivial("%s", what)
	if f.always {
		c.Label("always")
		for range 5 {
			s, err := p.Parse()
			if !f.isRead(err) {
				rt.Fatalf("%s\nafter the failure: %v, %v", what, s, err)
			}
		}
		return
	}
	if cut < len(parts) && strings.ContainsAny(parts[cut].text, "'\"`[-/") {
		return // what is left may not be what it was
	}
	c.Label("recovered")
	errs := 0
	for i := cut + 1; ; {
		s, err := p.Parse()
		if err == io.EOF {
			if i < len(parts) {
				rt.Fatalf("%s\nthe end instead of statement %d", what, i)
			}
			return
		}
		if err != nil {
			if errs++; i > cut+1 || errs > len(f.runes) {
				rt.Fatalf("%s\nstatement %d: %s", what, i, err)
			}
			continue
		}
		if i >= len(parts) {
			rt.Fatalf("%s\n%v instead of the end", what, s)
		}
		if g := gen.Dump(s); g != parts[i].want {
			rt.Fatalf("%s\nstatement %d: got %s; want %s", what, i, g, parts[i].want)
		}
		i++
		c.Label("statement after failure")
	}
}

func checkReadCopy(rt *rapid.T, c *h.Case) {
	toks, _ := gen.NewG(rt, h.Chance(rt, 50, "plain")).Copy()
	text := gen.Simple(toks) + ";"
	from := len([]rune(text))
	text += h.Pick(rt, "rest", "", "", " ", " -- data", "\r") + "\n"
	data := dataText.Draw(rt, "data")
	text += data
	f := &failing{runes: []rune(text), always: h.Chance(rt, 40, "always"),
		err: h.Pick(rt, "error", readErrors...)}
	f.k = from + h.N(rt, len(f.runes)-from+1, "where")
	start := len(f.runes) - len([]rune(data))
	what := fmt.Sprintf("%q; reading %q fails with %q (always: %v)", text,
		string(f.runes[:f.k])+"\u25c6", f.err, f.always)
	c.Note("%s", what)
	p := parser.NewParser(f.reader(rt), "file.sql")
	s, err := p.Parse()
	if err != nil {
		if f.k < start && f.isRead(err) {
			c.Label("statement refused")
			return
		}
		rt.Fatalf("%s\n%s", what, err)
	}
	cp, ok := s.(*sql.Copy)
	if !ok {
		rt.Fatalf("%s\ngot %v", what, s)
	}
	var got []rune
	for {
		r, _, err := cp.From.ReadRune()
		if err != nil {
			if !errors.Is(err, f.err) {
				rt.Fatalf("%s\ngot %q and %v instead of the failure", what, string(got), err)
			}
			break
		}
		got = append(got, r)
	}
	if want := string(f.runes[start:max(start, f.k)]); string(got) != want {
		rt.Fatalf("%s\ngot data %q; want %q before the failure", what, string(got), want)
	}
	c.LabelIf(f.k < start, "before the data")
	c.NonTrivial("%s", what)
	if f.always {
		for range 3 {
			if _, _, err := cp.From.ReadRune(); !errors.Is(err, f.err) {
				rt.Fatalf("%s\nafter the failure: %v", what, err)
			}
		}
	} else if f.k >= start {
		rest := string(got)
		for {
			r, _, err := cp.From.ReadRune()
			if err == io.EOF {
				break
			} else if err != nil {
				rt.Fatalf("%s\nafter the failure: %v", what, err)
			}
			rest += string(r)
		}
		if rest != data {
			rt.Fatalf("%s\ngot data %q in all", what, rest)
		}
	}
}

// checkReadConsole: the console answers what it has read and ends when it cannot read on.
func checkReadConsole(rt *rapid.T, c *h.Case, prog string) {
	items, text := drawStream(rt, 6, [3]int{3, 0, 1}, gen.Layout{}, true)
	var stdin *os.File
	if h.Chance(rt, 20, "at once") {
		// Reading a directory always fails.
		var err error
		stdin, err = os.Open("/")
		if err != nil {
			rt.Fatalf("%s", err)
		}
		text, items = "", nil
		c.Label("at once")
	} else {
		// A connection that is reset: it is closed before all of what was sent is read.
		text = string([]rune(text)[:h.N(rt, len([]rune(text))+1, "where")])
		fds, err := syscall.Socketpair(syscall.AF_UNIX, syscall.SOCK_STREAM, 0)
		if err != nil {
			rt.Fatalf("socketpair: %s", err)
		}
		syscall.CloseOnExec(fds[0])
		syscall.CloseOnExec(fds[1])
		n, err := syscall.Write(fds[1], []byte(text))
		if len(text) > 0 && (err != nil || n != len(text)) {
			rt.Fatalf("write: %d, %s", n, err)
		}
		if _, err := syscall.Write(fds[0], []byte("unread")); err != nil {
			rt.Fatalf("write: %s", err)
		}
		syscall.Close(fds[1])
		stdin = os.NewFile(uintptr(fds[0]), "socket")
	}
	defer stdin.Close()
	c.Note("%q", text)
	if len(items) > 1 {
		c.NonTrivial("%q", text)
	}
	cmd := exec.Command(prog)
	cmd.Stdin = stdin
	out, err := cmd.StdoutPipe()
	if err != nil {
		rt.Fatalf("pipe: %s", err)
	}
	if err := cmd.Start(); err != nil {
		rt.Fatalf("the program does not start: %s", err)
	}
	limit := 100000 + 20*len(text)
	timer := time.AfterFunc(60*time.Second, func() { cmd.Process.Kill() })
	got, err := io.ReadAll(io.LimitReader(out, int64(limit)))
	cmd.Process.Kill()
	cmd.Wait()
	timer.Stop()
	if err != nil || len(got) == limit {
		rt.Fatalf("%q, then reading fails\nthe program goes on, or cannot be read: %v: %.400q", text, err,
			string(got))
	}
	// What comes before the failure, then the failure.
	rest := string(got)
	f := &failing{runes: []rune(text), k: len([]rune(text)), always: true, err: readErrors[0]}
	p := parser.NewParser(f, "console")
	for {
		s, err := p.Parse()
		if f.isRead(err) {
			break
		}
		want := ""
		if err != nil {
			want = fmt.Sprintf("maho: maho: %s\n", err)
		} else {
			want = fmt.Sprintf("maho: %s\n", s)
		}
		if !strings.HasPrefix(rest, want) {
			rt.Fatalf("%q, then reading fails\nwant %q; output goes on with %.400q", text, want, rest)
		}
		rest = rest[len(want):]
		c.Label("answered")
	}
	if !strings.HasPrefix(rest, "maho: maho: ") ||
		!strings.Contains(rest, "is a directory") && !strings.Contains(rest, "reset") {

		rt.Fatalf("%q, then reading fails\noutput goes on with %.400q", text, rest)
	}
}
