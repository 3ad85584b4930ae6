package checks

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"slices"
	"strconv"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"verifharness/core"
)

type serveCase struct {
	// Steps on the file system: add, open, or write and the length to write; @
	// stands for the directory of the files.
	Steps [][2]string `json:"steps,omitempty"`
	// Requests to the running server.
	Requests []string `json:"requests,omitempty"`
}

// The files of the file system part: registered or not, as the case says.
var someFiles = []string{"index.html", "a.txt", "sub/a.txt", "sub/b.txt", "b.txt", "A.txt", "a b.txt", "é.txt", ".hidden", "a", "a.txt.bak", "sub/deep/c.txt", "..a", "%2e", "...", "wasm_exec.js", "sub/wasm_exec.js", "*", "a*", "[a]", "~", "\\a.txt", "a:b", "A", "b"}

func contentOf(rel string) string { return "the contents of <" + rel + ">\n" }

type fsProc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	dir string
}

var theFS *fsProc

func newFS() *fsProc {
	p := &fsProc{dir: filepath.Join(scratch(), "d")}
	for _, f := range someFiles {
		os.MkdirAll(filepath.Dir(filepath.Join(p.dir, f)), 0o755)
		put(filepath.Join(p.dir, f), contentOf(f))
	}
	p.cmd = exec.Command(filepath.Join(os.Getenv("VERIF_OUT"), "server"))
	p.cmd.Dir = p.dir
	p.cmd.Env = append(os.Environ(), "VERIF_SERVER=1")
	p.cmd.Stderr = os.Stderr
	in, err := p.cmd.StdinPipe()
	if err != nil {
		panic(core.Broken{Err: err})
	}
	out, err := p.cmd.StdoutPipe()
	if err != nil {
		panic(core.Broken{Err: err})
	}
	p.in, p.out = in, bufio.NewReaderSize(out, 1<<20)
	if err := p.cmd.Start(); err != nil {
		panic(core.Broken{Err: err})
	}
	return p
}

type fsAnswer struct {
	OK   bool   `json:"ok"`
	Data []byte `json:"data"`
	Err  string `json:"err"`
}

func stepsOf(c *serveCase, r *Rec) error {
	if _, err := os.Stat(filepath.Join(os.Getenv("VERIF_OUT"), "server")); err != nil {
		r.Label("file system part not built")
		return nil
	}
	if theFS == nil {
		theFS = newFS()
	}
	dir := theFS.dir
	var steps [][3]string
	written := map[string]bool{}
	for i, s := range c.Steps {
		step := [3]string{s[0], strings.ReplaceAll(s[1], "@", dir), ""}
		if size, ok := strings.CutPrefix(s[0], "write "); ok {
			if !slices.Contains(someFiles, s[1]) {
				return core.ErrSkip
			}
			n, _ := strconv.Atoi(size)
			text := fmt.Sprintf("version %d of <%s>\n", i, s[1])
			step = [3]string{"write", filepath.Join(dir, s[1]), text + strings.Repeat("x", max(0, min(n, 1<<20)-len(text)))}
			written[s[1]] = true
		}
		steps = append(steps, step)
	}
	defer func() {
		for f := range written {
			put(filepath.Join(dir, f), contentOf(f))
		}
	}()
	b, _ := json.Marshal(steps)
	theFS.in.Write(append(b, '\n'))
	line, err := theFS.out.ReadBytes('\n')
	if err != nil {
		theFS = nil
		return fmt.Errorf("the program is gone: %v", err)
	}
	var as []fsAnswer
	if err := json.Unmarshal(line, &as); err != nil || len(as) != len(steps) {
		panic(core.Broken{Err: fmt.Errorf("answers %s: %v", line, err)})
	}
	// base name -> files registered under it
	reg := map[string][]string{}
	now := map[string]string{}
	for _, f := range someFiles {
		now[filepath.Join(dir, f)] = contentOf(f)
	}
	for i, s := range steps {
		a := as[i]
		if strings.HasPrefix(a.Err, "panic:") {
			return fmt.Errorf("step %d, %s %q: %s", i, s[0], c.Steps[i][1], a.Err)
		}
		if s[0] == "write" {
			if !a.OK {
				panic(core.Broken{Err: fmt.Errorf("write: %s", a.Err)})
			}
			now[s[1]] = s[2]
			continue
		}
		if s[0] == "add" {
			full := s[1]
			if !filepath.IsAbs(full) {
				full = filepath.Join(dir, full)
			}
			full = filepath.Clean(full)
			reg[filepath.Base(full)] = append(reg[filepath.Base(full)], full)
			continue
		}
		files := reg[s[1]]
		if len(files) == 0 {
			if a.OK {
				return fmt.Errorf("step %d: %q is not registered, but opens a file with %q", i, c.Steps[i][1], a.Data)
			}
			continue
		}
		r.NonTrivial()
		fine := false
		var want []string
		for _, f := range files {
			b, ok := now[f]
			if !ok {
				// not one of ours
				have, err := os.ReadFile(f)
				b, ok = string(have), err == nil
			}
			fine = fine || ok == a.OK && (!ok || b == string(a.Data))
			want = append(want, short(b))
		}
		if !fine {
			return fmt.Errorf("step %d: %q is registered, and gives %q %s, want %q", i, c.Steps[i][1], short(string(a.Data)), a.Err, want)
		}
	}
	return nil
}

// Served runs the server in a network of its own and makes requests of it: one
// JSON string with the raw target per line of input, one answer per line.
func Served() {
	dir, out := os.Args[1], json.NewEncoder(os.Stdout)
	if err := loopback(); err != nil {
		out.Encode(map[string]any{"err": err.Error()})
		os.Exit(0)
	}
	bin := filepath.Join(os.Getenv("VERIF_OUT"), "server")
	if _, err := os.Stat(bin); err != nil {
		bin += "-plain"
	}
	cmd := exec.Command(bin, dir)
	cmd.Dir = dir
	var said bytes.Buffer
	cmd.Stderr = &said
	if err := cmd.Start(); err != nil {
		out.Encode(map[string]any{"err": err.Error()})
		os.Exit(0)
	}
	gone := make(chan bool)
	go func() {
		cmd.Wait()
		close(gone)
	}()
	end := func(code int) {
		cmd.Process.Kill()
		<-gone
		os.Exit(code)
	}
	up := false
	for i := 0; i < 400 && !up; i++ {
		select {
		case <-gone:
			out.Encode(map[string]any{"exited": said.String()})
			os.Exit(0)
		default:
		}
		if c, err := net.DialTimeout("tcp", "127.0.0.1:8080", time.Second); err == nil {
			c.Close()
			up = true
		} else {
			time.Sleep(25 * time.Millisecond)
		}
	}
	if !up {
		out.Encode(map[string]any{"err": "the server does not listen"})
		end(0)
	}
	out.Encode(map[string]any{"ready": true})
	in := bufio.NewReader(os.Stdin)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			end(0)
		}
		var target string
		json.Unmarshal(line, &target)
		status, body, err := request(target)
		m := map[string]any{"status": status, "body": body}
		if err != nil {
			m["err"] = err.Error()
		}
		select {
		case <-gone:
			os.Exit(0)
		default:
		}
		out.Encode(m)
	}
}

func request(target string) (int, []byte, error) {
	c, err := net.DialTimeout("tcp", "127.0.0.1:8080", 10*time.Second)
	if err != nil {
		return 0, nil, err
	}
	defer c.Close()
	c.SetDeadline(time.Now().Add(20 * time.Second))
	fmt.Fprintf(c, "GET %s HTTP/1.1\r\nHost: localhost\r\nConnection: close\r\n\r\n", target)
	res, err := http.ReadResponse(bufio.NewReader(c), nil)
	if err != nil {
		return 0, nil, err
	}
	defer res.Body.Close()
	b, err := io.ReadAll(res.Body)
	return res.StatusCode, b, err
}

// loopback brings up the loopback device of a new network.
func loopback() error {
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_DGRAM, 0)
	if err != nil {
		return err
	}
	defer syscall.Close(fd)
	var req [40]byte
	copy(req[:], "lo")
	*(*uint16)(unsafe.Pointer(&req[16])) = syscall.IFF_UP | syscall.IFF_RUNNING
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, uintptr(fd), syscall.SIOCSIFFLAGS, uintptr(unsafe.Pointer(&req[0]))); e != 0 {
		return e
	}
	return nil
}

type webProc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	why string // why there is none
	bad string // what it said when it ended at once
}

var theWeb *webProc

// What lies in and about the directory the server is given.
var webFiles = map[string]string{}

var served = []string{"wasm_exec.js", "hwt.css", "style.css", "aqlparse.wasm"}
var unserved = []string{"secret.txt", "main.go", ".hidden", "run.sh", "sub/wasm_exec.js", "sub/secret.txt", "../outside.txt", "wasm_exec.js.bak", "WASM_EXEC.JS", "sub/index.html", "index.htm", "style.css~", "aqlparse"}

func newWeb() *webProc {
	w := &webProc{}
	dir := filepath.Join(scratch(), "d", "site")
	for _, f := range append(append([]string{"index.html"}, served...), unserved...) {
		os.MkdirAll(filepath.Dir(filepath.Join(dir, f)), 0o755)
		webFiles[f] = contentOf("web " + f)
		put(filepath.Join(dir, f), webFiles[f])
	}
	webFiles["@"] = dir
	exe, err := os.Executable()
	if err != nil {
		panic(core.Broken{Err: err})
	}
	w.cmd = exec.Command(exe, dir)
	w.cmd.Env = append(os.Environ(), "VERIF_SERVED=1")
	// a network of its own, so that the port is free and nobody else sees it
	w.cmd.SysProcAttr = &syscall.SysProcAttr{Cloneflags: syscall.CLONE_NEWNET}
	in, _ := w.cmd.StdinPipe()
	out, _ := w.cmd.StdoutPipe()
	w.in, w.out = in, bufio.NewReaderSize(out, 1<<20)
	if err := w.cmd.Start(); err != nil {
		w.why = err.Error()
		return w
	}
	line, err := w.out.ReadBytes('\n')
	var m struct {
		Ready  bool
		Exited *string
	}
	json.Unmarshal(line, &m)
	if m.Exited != nil {
		w.bad = "said: " + *m.Exited
	} else if err != nil || !m.Ready {
		w.why = fmt.Sprintf("%s %v", strings.TrimSpace(string(line)), err)
	}
	return w
}

func requestsOf(c *serveCase, r *Rec) error {
	if theWeb == nil {
		theWeb = newWeb()
	}
	if bad := theWeb.bad; bad != "" {
		theWeb.cmd.Wait()
		theWeb = nil
		return fmt.Errorf("the server, given its directory, ends at once, %s", short(bad))
	}
	if theWeb.why != "" {
		r.Label("no server: " + theWeb.why)
		return nil
	}
	defer func() {
		for _, f := range append([]string{"index.html"}, served...) {
			if text := contentOf("web " + f); webFiles[f] != text {
				webFiles[f] = text
				put(filepath.Join(webFiles["@"], f), text)
			}
		}
	}()
	for i, t := range c.Requests {
		if f, ok := strings.CutPrefix(t, "write "); ok {
			// the file changes, and its length with it
			size, f, _ := strings.Cut(f, " ")
			if f != "index.html" && !slices.Contains(served, f) {
				return core.ErrSkip
			}
			n, _ := strconv.Atoi(size)
			text := fmt.Sprintf("version %d of <web %s>\n", i, f)
			webFiles[f] = text + strings.Repeat("x", max(0, min(n, 1<<20)-len(text)))
			put(filepath.Join(webFiles["@"], f), webFiles[f])
			continue
		}
		target := strings.ReplaceAll(t, "@", webFiles["@"])
		if strings.ContainsAny(target, " \r\n\x00") || !strings.HasPrefix(target, "/") {
			return core.ErrSkip
		}
		b, _ := json.Marshal(target)
		theWeb.in.Write(append(b, '\n'))
		line, err := theWeb.out.ReadBytes('\n')
		if err != nil {
			theWeb = nil
			return fmt.Errorf("request %d, %q: the server is gone", i, t)
		}
		var a struct {
			Status int    `json:"status"`
			Body   []byte `json:"body"`
			Err    string `json:"err"`
		}
		if err := json.Unmarshal(line, &a); err != nil {
			panic(core.Broken{Err: err})
		}
		name := target
		if k := strings.IndexByte(name, '?'); k >= 0 {
			name = name[:k]
		}
		may := ""
		plain := !strings.Contains(name, "%") && path.Clean(name) == name
		for _, f := range served {
			if path.Clean("/"+unescape(name)) == "/"+f {
				may = f
			}
			if plain && name == "/"+f {
				r.NonTrivial()
				if a.Status != 200 || string(a.Body) != webFiles[f] {
					return fmt.Errorf("request %d: %q is registered, but answers %d %q %s", i, t, a.Status, short(string(a.Body)), a.Err)
				}
			}
		}
		if name == "/" {
			may = "index.html"
			if a.Status != 200 || string(a.Body) != webFiles[may] {
				return fmt.Errorf("request %d: %q answers %d %q %s", i, t, a.Status, short(string(a.Body)), a.Err)
			}
		}
		if path.Clean("/"+unescape(name)) == "/" {
			may = "index.html"
		}
		for f, text := range webFiles {
			if f != "@" && f != may && strings.Contains(string(a.Body), strings.TrimSpace(text)) {
				return fmt.Errorf("request %d: %q answers %d with the file %s", i, t, a.Status, f)
			}
		}
		// nor anything from elsewhere
		if a.Status/100 == 2 && may == "" && len(a.Body) > 0 {
			return fmt.Errorf("request %d: %q is not registered, but answers %d %q", i, t, a.Status, short(string(a.Body)))
		}
		r.Label(fmt.Sprintf("status %d", a.Status))
	}
	return nil
}

func unescape(s string) string {
	var sb strings.Builder
	for i := 0; i < len(s); i++ {
		var b int
		if s[i] == '%' && i+2 < len(s) {
			if n, _ := fmt.Sscanf(s[i+1:i+3], "%02x", &b); n == 1 {
				sb.WriteByte(byte(b))
				i += 2
				continue
			}
		}
		sb.WriteByte(s[i])
	}
	return sb.String()
}

func odd(t *T, name string) string {
	switch t.N(16) {
	case 1:
		return "/" + name
	case 2:
		return "./" + name
	case 3:
		return "@/" + name
	case 4:
		return "../d/" + name
	case 5:
		return name + "/"
	case 6:
		return strings.ToUpper(name)
	case 7:
		return name + "\x00"
	case 8:
		return "x/../" + name
	case 9:
		return filepath.Base(name)
	case 10:
		return name[:len(name)-1]
	case 11:
		return " " + name
	case 12:
		return name + ".bak"
	case 13:
		return strings.ReplaceAll(name, "/", "\\")
	case 14:
		return core.Pick(t, []string{"", ".", "..", "/", "@", "~", "*", "../..", "a.tx?", "//", "d", "sub"})
	case 15:
		return strings.ToLower(name)
	}
	return name
}

func init() {
	core.AtEnd["C28"] = func() error {
		if theFS != nil {
			theFS.in.Close()
			theFS.cmd.Wait()
		}
		if theWeb != nil {
			theWeb.in.Close()
			theWeb.cmd.Wait()
		}
		return nil
	}
	core.Register(core.Check{ID: "C28", Quick: 40000, Thorough: 200000, MaxShrink: 500,
		Rule:   "Either 2-20 steps on the server's file system, registering files of a scratch directory in any order and spelling changing what is in them, and opening registered, unregistered and oddly spelled names (paths, case, dots, separators, patterns); or 1-6 requests to the running server, in a network of its own, with plain, encoded, nested and escaping targets, and changes to the files between them. Contents tell which file was reached. Non-trivial: a registered file was read.",
		Assume: []string{"a private network namespace can be created; otherwise only the file system part is run"},
	}, func(t *T) *serveCase {
		c := &serveCase{}
		if t.P(75) {
			var used []string
			for n := t.R(2, 20); n > 0; n-- {
				f := core.Pick(t, someFiles)
				if t.P(45) {
					used = append(used, f)
					loc := f
					switch t.N(6) {
					case 1:
						loc = "@/" + f
					case 2:
						loc = "./" + f
					case 3:
						loc = "sub/../" + f
					case 4:
						loc = "@/sub/..//" + f
					case 5:
						if t.P(20) {
							loc = f + ".missing"
						}
					}
					c.Steps = append(c.Steps, [2]string{"add", loc})
					continue
				}
				if len(used) > 0 && t.P(70) {
					f = core.Pick(t, used)
				}
				if t.P(12) {
					size := []int{t.N(100), t.Size(3000), core.Pick(t, []int{0, 512, 4096, 4097, 8192, 32768, 32769, 70000})}[t.W(30, 40, 30)]
					c.Steps = append(c.Steps, [2]string{"write " + strconv.Itoa(size), f})
					continue
				}
				if t.P(60) {
					f = filepath.Base(f)
				} else {
					f = odd(t, f)
				}
				c.Steps = append(c.Steps, [2]string{"open", f})
			}
			return c
		}
		for n := t.R(1, 6); n > 0; n-- {
			var f string
			if t.P(12) {
				f = core.Pick(t, append([]string{"index.html"}, served...))
				get := "/" + strings.TrimSuffix(f, "index.html")
				c.Requests = append(c.Requests, get, fmt.Sprintf("write %d %s", []int{t.N(100), core.Pick(t, []int{0, 4096, 4097, 32769, 70000})}[t.W(50, 50)], f), get)
				continue
			}
			switch t.W(40, 50, 10) {
			case 0:
				f = core.Pick(t, served)
			case 1:
				f = core.Pick(t, unserved)
			case 2:
				f = core.Pick(t, []string{"", "index.html", "sub", "sub/", ".", "..", "../", "etc/passwd", "@", "favicon.ico"})
			}
			pre := ""
			for k := t.W(55, 20, 15, 10); k > 0; k-- {
				pre += core.Pick(t, []string{"../", "%2e%2e/", "..%2f", "/", "./", "sub/", "sub/../", "%2f", "..\\", "%5c", ".%2e/", "@/", "x/", "%00", "site/", "..;/"})
			}
			if t.P(10) && f != "" {
				k := t.N(len(f))
				f = f[:k] + fmt.Sprintf("%%%02X", f[k]) + f[k+1:]
			}
			switch t.W(80, 5, 5, 5, 5) {
			case 1:
				f += "/"
			case 2:
				f += "?x=1"
			case 3:
				f += "%00"
			case 4:
				f = strings.ToUpper(f)
			}
			c.Requests = append(c.Requests, "/"+pre+f)
		}
		return c
	}, func(c *serveCase, r *Rec) error {
		if len(c.Steps) > 0 {
			return stepsOf(c, r)
		}
		return requestsOf(c, r)
	})
}
