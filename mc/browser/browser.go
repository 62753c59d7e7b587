// Package browser runs the browser client of the code under test, the file that
// the server serves as continusec.js, in node with a stand-in for the parts of
// a browser that it uses.
package browser

import (
	"bufio"
	"bytes"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"strings"
	"sync"
	"syscall"
	"time"

	_ "embed"

	"github.com/continusec/verifiabledatastructures/assets"
)

//go:embed harness.js
var harness string

// Value is a value of the client's language. Objects have what their getters
// give.
type Value struct {
	S         *string          `json:"s,omitempty"`
	N         *string          `json:"n,omitempty"`
	B         *bool            `json:"b,omitempty"`
	A         []Value          `json:"a,omitempty"`
	O         map[string]Value `json:"o,omitempty"`
	Err       *string          `json:"e,omitempty"` // an error object
	Threw     *string          `json:"x,omitempty"` // a getter that throws
	Undefined bool             `json:"u,omitempty"`
	Null      bool             `json:"z,omitempty"`
	Function  bool             `json:"f,omitempty"`
}

// Bytes of a string of bytes; ok is false for anything else.
func (v Value) Bytes() (b []byte, ok bool) {
	if v.S == nil {
		return nil, false
	}
	b = []byte{}
	for _, r := range *v.S {
		if r > 255 {
			return nil, false
		}
		b = append(b, byte(r))
	}
	return b, true
}

// Str is what a reader of a report needs to see.
func (v Value) String() string {
	switch {
	case v.S != nil:
		return fmt.Sprintf("%.200q", *v.S)
	case v.N != nil:
		return *v.N
	case v.B != nil:
		return fmt.Sprint(*v.B)
	case v.Err != nil:
		return "error " + *v.Err
	case v.Threw != nil:
		return "throws " + *v.Threw
	case v.Undefined:
		return "undefined"
	case v.Null:
		return "null"
	case v.Function:
		return "function"
	case v.O != nil:
		var p []string
		for k := range v.O {
			p = append(p, k)
		}
		for i := range p {
			for j := i; j > 0 && p[j] < p[j-1]; j-- {
				p[j], p[j-1] = p[j-1], p[j]
			}
		}
		for i, k := range p {
			p[i] = k + ": " + v.O[k].String()
		}
		return "{" + strings.Join(p, ", ") + "}"
	}
	var p []string
	for _, e := range v.A {
		p = append(p, e.String())
	}
	return "[" + strings.Join(p, ", ") + "]"
}

// Get is what a getter gives.
func (v Value) Get(name string) Value {
	if r, ok := v.O[name]; ok {
		return r
	}
	return Value{Undefined: true}
}

// Event is something that came out of a call: "success", "failure", "each" for
// callbacks, "result" for other results, and "throw" for an exception that
// nothing handles.
type Event struct {
	Kind string  `json:"kind"`
	Args []Value `json:"args"`
}

func (e Event) String() string {
	var p []string
	for _, a := range e.Args {
		p = append(p, a.String())
	}
	return e.Kind + "(" + strings.Join(p, ", ") + ")"
}

// Outcome is everything that came out of a call.
type Outcome struct {
	Events  []Event `json:"events"`
	Waiting bool    `json:"waiting"` // for a timer
	Waited  float64 `json:"waited"`  // milliseconds
	// Stuck: the call does not come to an end
	Stuck    bool `json:"-"`
	Requests int  `json:"-"`
}

func (o *Outcome) String() string {
	var p []string
	for _, e := range o.Events {
		p = append(p, e.String())
	}
	if o.Stuck {
		p = append(p, "no end")
	}
	if o.Waiting {
		p = append(p, "waiting")
	}
	return strings.Join(p, "; ")
}

// Ended says what is wrong with how the call came to an end: there must be one
// success or failure, after everything else.
func (o *Outcome) Ended() string {
	if o.Stuck {
		return "does not come to an end"
	}
	ends := 0
	for i, e := range o.Events {
		switch e.Kind {
		case "success", "failure":
			ends++
			if i != len(o.Events)-1 {
				return "goes on after its end: " + o.String()
			}
		case "throw":
			return "throws: " + o.String()
		}
	}
	if ends != 1 {
		return fmt.Sprintf("ends %d times: %s", ends, o.String())
	}
	return ""
}

// OK is the result of a call that succeeded.
func (o *Outcome) OK() ([]Value, bool) {
	if len(o.Events) == 0 {
		return nil, false
	}
	e := o.Events[len(o.Events)-1]
	return e.Args, e.Kind == "success"
}

// Request is what the client sent.
type Request struct {
	Method  string      `json:"method"`
	URL     string      `json:"url"`
	Headers [][2]string `json:"headers"`
	Body    string      `json:"body"`
	Has     bool        `json:"has"`
}

// HTTP makes it a request for a handler.
func (r *Request) HTTP() (*http.Request, []byte) {
	body, err := base64.StdEncoding.DecodeString(r.Body)
	must(err)
	var rd io.Reader
	if r.Has {
		rd = bytes.NewReader(body)
	}
	q, err := http.NewRequest(r.Method, r.URL, rd)
	must(err)
	for _, h := range r.Headers {
		v, err := base64.StdEncoding.DecodeString(h[1])
		must(err)
		q.Header.Add(h[0], string(v))
	}
	return q, body
}

// Answer is what comes back.
type Answer struct {
	Failed bool
	Status int
	Header http.Header
	Body   []byte
}

// Server answers requests.
type Server func(r *Request) *Answer

// Handle has requests go to a handler, as those of a page of the same origin
// do. Redirects are followed.
func Handle(h http.Handler) Server { return serve(h, "") }

// HandleFrom is for a page of another origin.
func HandleFrom(h http.Handler, origin string) Server { return serve(h, origin) }

var safelisted = map[string]bool{"cache-control": true, "content-language": true, "content-length": true, "content-type": true, "expires": true, "last-modified": true, "pragma": true}

func serve(h http.Handler, origin string) Server {
	do := func(q *http.Request) *httptest.ResponseRecorder {
		w := httptest.NewRecorder()
		if q.Body == nil {
			q.Body = http.NoBody
		}
		q.RequestURI = q.URL.RequestURI()
		h.ServeHTTP(w, q)
		return w
	}
	return func(r *Request) *Answer {
		method, url, has := r.Method, r.URL, r.Has
		for hop := 0; hop < 20; hop++ {
			q, body := (&Request{method, url, r.Headers, r.Body, has}).HTTP()
			if origin != "" {
				q.Header.Set("Origin", origin)
				if !preflight(do, q, origin) {
					return &Answer{Failed: true}
				}
			}
			_ = body
			w := do(q)
			res := w.Result()
			if origin != "" {
				if a := res.Header.Get("Access-Control-Allow-Origin"); a != "*" && a != origin {
					return &Answer{Failed: true}
				}
			}
			loc := res.Header.Get("Location")
			switch {
			case loc != "" && (res.StatusCode == 301 || res.StatusCode == 302 || res.StatusCode == 303):
				if method == "POST" || res.StatusCode == 303 {
					method, has = "GET", false
				}
			case loc != "" && (res.StatusCode == 307 || res.StatusCode == 308):
			default:
				hd := res.Header
				if origin != "" {
					exposed := map[string]bool{}
					for _, v := range res.Header.Values("Access-Control-Expose-Headers") {
						for _, n := range strings.Split(v, ",") {
							exposed[strings.ToLower(strings.TrimSpace(n))] = true
						}
					}
					hd = http.Header{}
					for k, v := range res.Header {
						if safelisted[strings.ToLower(k)] || exposed[strings.ToLower(k)] {
							hd[k] = v
						}
					}
				}
				return &Answer{Status: res.StatusCode, Header: hd, Body: w.Body.Bytes()}
			}
			to, err := q.URL.Parse(loc)
			if err != nil || to.Host != q.URL.Host {
				return &Answer{Failed: true}
			}
			url = to.String()
		}
		return &Answer{Failed: true}
	}
}

// preflight asks whether the request may be made at all.
func preflight(do func(*http.Request) *httptest.ResponseRecorder, q *http.Request, origin string) bool {
	var names []string
	for k, v := range q.Header {
		k = strings.ToLower(k)
		switch k {
		case "origin", "accept":
			continue
		case "content-type":
			if ct := strings.ToLower(v[0]); strings.HasPrefix(ct, "text/plain") {
				continue
			}
		}
		names = append(names, k)
	}
	simple := q.Method == "GET" || q.Method == "HEAD" || q.Method == "POST"
	if simple && len(names) == 0 {
		return true
	}
	p, err := http.NewRequest("OPTIONS", q.URL.String(), nil)
	must(err)
	p.Header.Set("Origin", origin)
	p.Header.Set("Access-Control-Request-Method", q.Method)
	if len(names) > 0 {
		for i := range names {
			for j := i; j > 0 && names[j] < names[j-1]; j-- {
				names[j], names[j-1] = names[j-1], names[j]
			}
		}
		p.Header.Set("Access-Control-Request-Headers", strings.Join(names, ","))
	}
	res := do(p).Result()
	if res.StatusCode < 200 || res.StatusCode > 299 {
		return false
	}
	if a := res.Header.Get("Access-Control-Allow-Origin"); a != "*" && a != origin {
		return false
	}
	list := func(name string) map[string]bool {
		rv := map[string]bool{}
		for _, v := range res.Header.Values(name) {
			for _, n := range strings.Split(v, ",") {
				rv[strings.ToLower(strings.TrimSpace(n))] = true
			}
		}
		return rv
	}
	if !simple && !list("Access-Control-Allow-Methods")[strings.ToLower(q.Method)] {
		return false
	}
	allowed := list("Access-Control-Allow-Headers")
	for _, n := range names {
		if !allowed[n] {
			return false
		}
	}
	return true
}

func must(err error) {
	if err != nil {
		panic("mck: " + err.Error())
	}
}

// process is one node process.
type process struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

func start() (*process, error) {
	src, err := assets.Asset("assets/static/continusec.js")
	must(err)
	cmd := exec.Command("node", "--max-old-space-size=1024", "-e", harness)
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	cmd.Stderr = os.Stderr
	in, err := cmd.StdinPipe()
	must(err)
	out, err := cmd.StdoutPipe()
	must(err)
	must(cmd.Start())
	p := &process{cmd, in, bufio.NewReaderSize(out, 1<<16)}
	b, _ := json.Marshal(map[string]string{"source": string(src)})
	in.Write(append(b, '\n'))
	l, err := p.out.ReadBytes('\n')
	if err != nil || !bytes.Contains(l, []byte("ready")) {
		p.kill()
		return nil, fmt.Errorf("continusec.js does not load: %v %s", err, l)
	}
	return p, nil
}

func (p *process) kill() {
	p.cmd.Process.Kill()
	p.in.Close()
	p.cmd.Wait()
}

var (
	mu   sync.Mutex
	free []*process
)

// Patience is how long a call may take.
const Patience = 30 * time.Second

var errStuck = errors.New("stuck")

// Run runs a piece of the client's language, in which args are the arguments,
// S, F and E are callbacks for success, failure and each entry, and R notes a
// result. It ends when nothing is left to do, or after so many waits for a
// timer. The error says that the client can't be run at all.
func Run(s Server, code string, args interface{}, waits int) (*Outcome, error) {
	return RunOrdered(s, code, args, waits, nil)
}

// RunOrdered is Run where pick says which of several answers comes first. (The
// server sees requests in the order in which they are sent.)
func RunOrdered(s Server, code string, args interface{}, waits int, pick func(n int) int) (*Outcome, error) {
	mu.Lock()
	var p *process
	if n := len(free); n > 0 {
		p, free = free[n-1], free[:n-1]
	}
	mu.Unlock()
	if p == nil {
		// the thread that starts a process must live as long, as the process dies with it
		type started struct {
			p   *process
			err error
		}
		c := make(chan started)
		starting() <- func() { p, err := start(); c <- started{p, err} }
		r := <-c
		if r.err != nil {
			return nil, r.err
		}
		p = r.p
	}
	o, err := p.run(s, code, args, waits, pick)
	if err != nil {
		p.kill()
		if err == errStuck {
			return o, nil
		}
		return nil, err
	}
	mu.Lock()
	free = append(free, p)
	mu.Unlock()
	return o, nil
}

var starting = sync.OnceValue(func() chan func() {
	c := make(chan func())
	go func() {
		lock()
		for f := range c {
			f()
		}
	}()
	return c
})

func (p *process) run(s Server, code string, args interface{}, waits int, pick func(n int) int) (*Outcome, error) {
	a, err := json.Marshal(args)
	must(err)
	b, err := json.Marshal(map[string]interface{}{"code": code, "args": string(a), "waits": waits, "pick": pick != nil})
	must(err)
	stuck := false
	t := time.AfterFunc(Patience, func() { p.cmd.Process.Kill() })
	began := time.Now()
	defer t.Stop()
	requests := 0
	if _, err := p.in.Write(append(b, '\n')); err != nil {
		return nil, err
	}
	for {
		l, err := p.out.ReadBytes('\n')
		if err != nil {
			stuck = time.Since(began) >= Patience
			if stuck {
				return &Outcome{Stuck: true, Requests: requests}, errStuck
			}
			return nil, fmt.Errorf("the client ended: %v", err)
		}
		var m struct {
			Request *Request
			Choose  int
			Done    *Outcome
		}
		must(json.Unmarshal(l, &m))
		if m.Done != nil {
			m.Done.Requests = requests
			return m.Done, nil
		}
		if m.Choose > 0 {
			if _, err := fmt.Fprintln(p.in, pick(m.Choose)); err != nil {
				return nil, err
			}
			continue
		}
		requests++
		if requests > 200 {
			return &Outcome{Stuck: true, Requests: requests}, errStuck
		}
		an := s(m.Request)
		type answer struct {
			Failed  bool        `json:"failed"`
			Status  int         `json:"status"`
			Headers [][2]string `json:"headers"`
			Body    string      `json:"body"`
		}
		w := answer{Failed: an.Failed, Status: an.Status, Headers: [][2]string{}, Body: base64.StdEncoding.EncodeToString(an.Body)}
		for k, vs := range an.Header {
			for _, v := range vs {
				w.Headers = append(w.Headers, [2]string{k, base64.StdEncoding.EncodeToString([]byte(strings.Trim(v, " \t\r\n")))})
			}
		}
		b, err := json.Marshal(w)
		must(err)
		if _, err := p.in.Write(append(b, '\n')); err != nil {
			return nil, err
		}
	}
}

// Str is a string of bytes in the client's language, where each character is a
// byte.
func Str(b []byte) string {
	r := make([]rune, len(b))
	for i, c := range b {
		r[i] = rune(c)
	}
	return string(r)
}
